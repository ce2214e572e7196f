"""The block cache"""
from lib import vt


def run():
    c = vt.Check("C05", "model_checking")
    vt.build("small")
    c.design("LruMC", workers=4)
    tr = f"{c.dir}/trace.ndjson"
    c.drive([vt.bin("small"), "lru", tr, c.seed, c.pick(3, 40)], tr)
    c.trace("LruTrace", tr, heap="8g")
    rows = vt.ndjson(tr)
    c.finish(histories=sum(r["e"] == "new" for r in rows), operations=len(rows),
             hits=sum(r["e"] == "get" and r["r"] >= 0 for r in rows))
