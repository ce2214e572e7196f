"""The language of "bfffs pool create" """
import json

from lib import vt


def run():
    c = vt.Check("C08", "model_checking")
    vt.build("poolparse")
    g = c.design("PoolCreateGen", c.pick("PoolCreateGen.cfg", "PoolCreateGen_deep.cfg"), workers=1)
    sents = g.printed("GEN")
    gen = f"{c.dir}/gen.ndjson"
    with open(gen, "w") as f:
        for s in sents:
            f.write(json.dumps(s) + "\n")
    tr = f"{c.dir}/trace.ndjson"
    c.drive([vt.bin("poolparse"), tr, c.seed, c.pick(4000, 100000), gen], tr)
    n = c.trace("PoolCreateTrace", tr, first="parse")
    rows = vt.ndjson(tr)
    c.finish(generated_by_spec=len(sents), parsed=n, accepted=sum(r["r"] == "ok" for r in rows),
             rule="every sequence of up to MaxLen words out of 7, and random sentences, most of them well-formed")
