"""Datasets"""
import collections
from lib import vt


def run():
    c = vt.Check("C22", "model_checking")
    vt.build("drv")
    c.design("DatasetsMC", c.pick("DatasetsMC.cfg", "DatasetsMC_deep.cfg"), workers=8)
    n = collections.Counter()

    def each(rows):
        for r in rows:
            n[r["e"]] += 1
            if r["e"] == "inv":
                n[r["op"]] += 1
    jobs = []
    for part in range(c.pick(6, 60)):
        tr = f"{c.dir}/ds-{part}.ndjson"
        jobs.append(([vt.bin("drv"), "ds", tr, c.seed + 100 * part, c.pick(60, 200)], tr))
    eps = c.histories(jobs, ["DatasetsTrace"], each=each)
    c.finish(histories=eps, operations=n["inv"], creations=n["create"], destructions=n["destroy"], mounts=n["mount"],
             property_reads=n["get"], property_changes=n["set"], lists=n["list"], imports=n["reopen"])
