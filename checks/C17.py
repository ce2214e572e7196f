"""Power failures"""
from lib import fscheck, vt


def journals(c):
    n = 0
    for part in range(c.pick(1, 8)):
        tr = f"{c.dir}/journal-{part}.ndjson"
        c.drive([vt.bin("drv"), "journal", tr, c.seed + 100 * part, 18], tr, timeout=400)
        c.trace("CommitTrace", tr, heap="8g")
        n += sum(1 for _ in vt.ndjson(tr))
        if c.violations:
            break
    return {"disk_events": n}


def run():
    fscheck.run("C17", ["crash"], 24, 10, designs=["Commit"], extra=journals)
