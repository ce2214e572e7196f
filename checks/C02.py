"""Write-back credit is conserved"""
from lib import vt


def run():
    c = vt.Check("C02", "model_checking")
    vt.build("wb")
    c.design("CreditMC", workers=4)
    tr = f"{c.dir}/trace.ndjson"
    c.drive([vt.bin("wb"), "-", tr, c.seed, c.pick(2, 30)], tr)
    rows = vt.ndjson(tr)
    c.trace("CreditTrace", tr, heap="8g")
    c.finish(histories=sum(r["e"] == "new" for r in rows), operations=len(rows),
             concurrent=sum(r["e"] == "left" for r in rows))
