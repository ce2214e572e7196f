"""The trees"""
import collections
from lib import vt


def run():
    c = vt.Check("C20", "model_checking")
    vt.build("drv")
    c.design("BTree", workers=8)
    if c.thorough:
        c.design("BTree", "BTree_deep.cfg", workers=8)
        c.design("BTree", "BTree_seq_deep.cfg", workers=8)
    n = collections.Counter()

    def each(rows):
        for r in rows:
            n[r["e"]] += 1
            if r["e"] == "inv":
                n[r["op"]] += 1
            elif r["e"] == "tree":
                n["nodes"] += len(r["nodes"])
                n["high"] = max(n["high"], r["height"])
    jobs = []
    for part in range(c.pick(6, 60)):
        tr = f"{c.dir}/tree-{part}.ndjson"
        jobs.append(([vt.bin("drv"), "tree", tr, c.seed + 100 * part, c.pick(60, 200)], tr))
    eps = c.histories(jobs, ["TreeTrace"], each=each)
    c.finish(histories=eps, operations=n["inv"], range_deletions=n["rdel"], range_queries=n["range"], insertions=n["insert"],
             removals=n["remove"], trees=n["tree"], nodes=n["nodes"], greatest_height=n["high"], cleanings=n["cleaned"])
