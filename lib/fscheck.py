"""Histories of the whole file system on modelled disks, against Fs.tla"""
import collections
from lib import vt


def run(pid, profiles, quick, thorough, designs=(), level="model_checking", extra=None):
    c = vt.Check(pid, level)
    vt.build("drv")
    for d in designs:
        c.design(d, f"{d}_deep.cfg" if c.thorough else None, workers=8)
    ops = collections.Counter()
    errs = collections.Counter()
    eps = 0
    for k, p in enumerate(profiles):
        for part in range(c.pick(1, thorough)):
            tr = f"{c.dir}/{p}-{part}.ndjson"
            c.drive([vt.bin("drv"), p if p == "crash" else f"fs:{p}", tr, c.seed + 100 * part, quick], tr, timeout=400)
            eps += c.trace("FsTrace", tr, heap="8g")
            for r in vt.ndjson(tr):
                ops[r["e"]] += 1
                if r.get("r", "ok") != "ok":
                    errs[r["r"]] += 1
            if c.violations:
                break
        if c.violations:
            break
    more = extra(c) if extra and not c.violations else {}
    c.finish(**more, histories=eps, operations=dict(ops), errors=dict(errs), remounts=ops["remount"], power_failures=ops["crash"])
