"""Scatter-gather lists, checksums and ranges"""
from lib import vt


def run():
    c = vt.Check("C06", "model_checking")
    vt.build("small")
    tr = f"{c.dir}/trace.ndjson"
    c.drive([vt.bin("small"), "sg", tr, c.seed, c.pick(2, 30)], tr)
    rows = vt.ndjson(tr)
    for r in rows:
        if r["e"] in ("pad", "cursor", "zero", "sum", "range"):
            pass
    c.trace("ScatterTrace", tr, first="pad", heap="8g")
    c.finish(**{k: sum(r["e"] == k for r in rows) for k in ("pad", "cursor", "next", "zero", "sum", "range")})
