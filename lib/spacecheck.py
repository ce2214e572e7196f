"""Snapshots of all that a pool stores, as it's used"""
import collections
from lib import vt


def run(pid, module, designs, quick, thorough):
    c = vt.Check(pid, "model_checking")
    vt.build("drv")
    for d in designs:
        c.design(*d, workers=8)
    n = collections.Counter()

    def each(rows):
        for r in rows:
            n[r["e"]] += 1
            if r["e"] == "snap":
                n["extents"] += len(r["exts"])
                n[r["why"]] += 1
            elif r["e"] == "fs":
                n["inodes"] += len(r["inos"])
            elif r["e"] == "tree":
                n["nodes"] += len(r["nodes"])
    jobs = []
    for part in range(c.pick(quick, thorough)):
        tr = f"{c.dir}/space-{part}.ndjson"
        jobs.append(([vt.bin("drv"), "space", tr, c.seed + 100 * part, 10], tr))
    eps = c.histories(jobs, [module], each=each)
    c.finish(histories=eps, snapshots=n["snap"], extents=n["extents"], tree_nodes=n["nodes"], inodes=n["inodes"], file_systems=n["fs"],
             power_failures=n["crash"], cleanings=n["cleaned"])
