"""The RAID codec"""
from lib import vt


def run():
    c = vt.Check("C03", "model_checking")
    vt.build("small")
    c.design("CodecMC", c.pick("CodecMC.cfg", "CodecMC_deep.cfg"), workers=4)
    tr = f"{c.dir}/trace.ndjson"
    c.drive([vt.bin("small"), "codec", tr, c.seed, c.pick(1, 6)], tr)
    c.trace("CodecTrace", tr, heap="8g")
    rows = vt.ndjson(tr)
    c.finish(codecs=sum(r["e"] == "new" for r in rows), encodings=sum(r["e"] == "enc" for r in rows),
             decodings=sum(r["e"] == "dec" for r in rows))
