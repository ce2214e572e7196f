"""Concurrent operations, syncs, cleaning and scarce memory"""
import collections
from lib import vt


def run():
    c = vt.Check("C19", "model_checking")
    vt.build("drv")
    for d in ("Durable", "Deadlock"):
        c.design(d, f"{d}_deep.cfg" if c.thorough else None, workers=8)
    n = collections.Counter()

    def each(rows):
        for r in rows:
            n[r["e"]] += 1
    jobs = []
    for part in range(c.pick(6, 60)):
        tr = f"{c.dir}/conc-{part}.ndjson"
        jobs.append(([vt.bin("drv"), "conc", tr, c.seed + 100 * part, 60], tr))
    eps = c.histories(jobs, ["ConcTrace"], each=each)
    c.finish(histories=eps, operations=n["begin"], syncs=n["send"], power_failures=n["crash"])
