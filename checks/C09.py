"""Concurrent readers of a cached store"""
from lib import vt


def run():
    c = vt.Check("C09", "model_checking")
    vt.build("small", "wb")
    c.design("FlightMC", workers=4)
    tr = f"{c.dir}/trace.ndjson"
    c.drive([vt.bin("small"), "flight", tr, c.seed, c.pick(2, 30)], tr)
    c.trace("FlightTrace", tr, heap="8g")
    rows = vt.ndjson(tr)
    tt = f"{c.dir}/threads.ndjson"
    c.drive([vt.bin("wb"), "flight", tt, c.seed, c.pick(2, 20)], tt, timeout=400)
    c.trace("FlightThreads", tt, heap="8g")
    threads = vt.ndjson(tt)
    c.finish(thread_histories=sum(r["e"] == "new" for r in threads),
             histories=sum(r["e"] == "new" for r in rows), operations=len(rows),
             failed_reads=sum(r["e"] == "done" and not r["ok"] for r in rows),
             abandoned=sum(r["e"] == "abandon" for r in rows))
