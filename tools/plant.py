#!/usr/bin/env python3
"""Confirms planted changes: plant.py <id> [--fast]

Applies seeded/<id>/patch.diff in /repo, builds and runs the stable tests, runs the demonstration with and without
the change, and the property's check with it.  Undoes the change in any case."""
import json
import os
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(c, **kw):
    return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def main():
    ok = True
    fast = "--fast" in sys.argv
    for sid in [a for a in sys.argv[1:] if not a.startswith("-")]:
        d = f"{V}/seeded/{sid}"
        meta = json.load(open(f"{d}/meta.json"))
        assert sh("git -C /repo status --porcelain").stdout == "", "dirty"
        if not fast:
            r = sh(f"bash {d}/demo.sh", cwd="/repo")
            print(sid, "demo without:", r.returncode, "" if r.returncode == 0 else r.stdout[-800:])
        try:
            r = sh(f"git -C /repo apply {d}/patch.diff")
            assert r.returncode == 0, r.stdout
            if not fast:
                r = sh("bash /opt/vp/build.sh")
                print(sid, "build:", r.returncode, "" if r.returncode == 0 else r.stdout[-1500:])
                sh("bash /opt/vp/test.sh /tmp/plant-out.json")
                res = json.load(open("/tmp/plant-out.json"))
                base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
                passed = set(res.get("passed", []))
                missing = [t for t in base if t not in passed]
                print(sid, "tests:", "pass" if not missing else f"FAIL {missing[:5]}")
                r = sh(f"bash {d}/demo.sh", cwd="/repo")
                print(sid, "demo with:", r.returncode, r.stdout.strip()[-200:])
            r = sh(f"./check {meta['property']}", cwd=V)
            rp = f"{V}/tools/seeds.json"
            res = json.load(open(rp)) if os.path.exists(rp) else {}
            res[sid] = {0: "**missed**", 1: "caught"}.get(r.returncode, "error")
            json.dump(res, open(rp, "w"), indent=1, sort_keys=True)
            print(sid, "check", meta["property"], ":", r.returncode, [x for x in r.stdout.splitlines() if "unexplained" in x or "VIOL" in x][:2], r.stdout[-300:] if r.returncode not in (0, 1) else "")
        finally:
            sh("git -C /repo checkout -- .")
            sh("git -C /repo clean -fdq bfffs bfffs-core bfffs-isa-l")


main()
