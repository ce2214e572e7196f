"""Encodings and order of the basic types"""
from lib import vt


def run():
    c = vt.Check("C10", "model_checking")
    vt.build("small")
    tr = f"{c.dir}/trace.ndjson"
    c.drive([vt.bin("small"), "types", tr, c.seed, c.pick(2, 40)], tr)
    rows = vt.ndjson(tr)
    c.trace("EncodingTrace", tr, first="pba", heap="8g")
    c.finish(**{k: sum(r["e"] == k for r in rows) for k in ("pba", "rid", "txg", "uuid", "errno")})
