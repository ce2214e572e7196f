"""Write-back credit bank"""
import json
import random

from lib import vt


def configs(rng, thorough):
    k = 6 if thorough else 1
    cfgs = [
        {"cap": 10, "progs": [[{"B": 6}], [{"B": 6}]]},
        {"cap": 10, "progs": [[{"B": 10}], [{"B": 1}]]},
        {"cap": 4, "progs": [[{"B": 3}, {"B": 1}], [{"B": 2}, {"B": 4}]]},
        {"cap": 4, "progs": [[{"B": 3}], [{"B": 2}], [{"B": 4}]]},
        {"cap": 5, "progs": [[{"S": [4, 1]}], [{"B": 3}], [{"B": 2}]]},
        {"cap": 6, "progs": [[{"M": [4, 2]}], [{"B": 3}]]},
        {"cap": 9, "progs": [[{"H": 4}, {"B": 2}], [{"B": 3}], [{"B": 1}, {"B": 3}]]},
    ]
    for c in cfgs:
        c.update(dfs=1500 * k, random=400 * k, pct=400 * k)
    for _ in range(6 * k):
        cap = rng.randint(1, 12)
        progs = []
        for _ in range(rng.randint(2, 4)):
            p = []
            for _ in range(rng.randint(1, 3)):
                n = rng.randint(0, cap)
                p.append({"B": n} if rng.random() < 0.7 or n < 2 else {"S": [n, rng.randint(1, n - 1)]})
            progs.append(p)
        cfgs.append({"cap": cap, "progs": progs, "random": 300 * k, "pct": 300 * k})
    for cap, actors in ((1, 2), (10, 3), (10, 4), (100, 4), (1 << 29, 3)):
        cfgs.append({"cap": cap, "seq": 60 * k, "actors": actors, "steps": 60})
    return cfgs


def run():
    c = vt.Check("C01", "model_checking")
    vt.build("wb")
    c.design("WriteBackImpl", c.pick("WriteBackImpl.cfg", "WriteBackImpl_deep.cfg"))
    cf = f"{c.dir}/cfgs.json"
    with open(cf, "w") as f:
        json.dump(configs(random.Random(c.seed), c.thorough), f)
    tr = f"{c.dir}/trace.ndjson"
    p = c.drive([vt.bin("wb"), cf, tr, c.seed], tr, timeout=400)
    st = json.loads(p.stdout.strip().splitlines()[-1])
    c.trace("BankTrace", tr)
    c.finish(schedules=st["schedules"], histories=st["histories"],
             rule="a history is the sequence of calls to the bank and their returns; only distinct histories are kept")
