"""The PRIME-S layout"""
from lib import vt


def run():
    c = vt.Check("C04", "model_checking")
    vt.build("small")
    c.design("PrimeSMC", c.pick("PrimeSMC.cfg", "PrimeSMC_deep.cfg"), workers=8)
    tr = f"{c.dir}/trace.ndjson"
    c.drive([vt.bin("small"), "layout", tr, c.seed, c.pick(1, 6)], tr)
    c.trace("PrimeSTrace", tr, heap="8g")
    rows = vt.ndjson(tr)
    c.finish(layouts=sum(r["e"] == "new" for r in rows), chunks=sum(r["e"] == "loc" for r in rows),
             places=sum(r["e"] == "inv" for r in rows),
             exhaustive="all chunks of a repetition for n in 2,3,5,7, every k and f")
