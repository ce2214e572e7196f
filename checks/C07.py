"""Dataset properties: syntax, display, encoding"""
from lib import vt


def run():
    c = vt.Check("C07", "model_checking")
    vt.build("small")
    tr = f"{c.dir}/trace.ndjson"
    c.drive([vt.bin("small"), "prop", tr, c.seed, c.pick(3, 60)], tr)
    rows = vt.ndjson(tr)
    c.trace("PropertyTrace", tr, first="parse", heap="8g")
    c.finish(**{k: sum(r["e"] == k for r in rows) for k in ("parse", "pname", "psrc", "src", "default", "disk")})
