"""python -m mon.replay FILE: run the one case of a replay file again, and, if it
holds alone, once more after the cases its process had run before it."""
import json
import os
import shutil
import sys
import tempfile
import time

from mon import meta, runner


def run(r, cases):
    scratch = tempfile.mkdtemp(prefix="mon-replay-")
    m = meta.META[r["property"]]
    s = runner.Shard(r["property"], r["tier"], r["seed"], "0/1", scratch, time.time() + 800,
                     runner.known_findings(r["property"]), "r", cases=",".join(cases), env=m.get("env"))
    s.p.wait()
    s.read()
    bad = 0
    for rec in s.records:
        if rec["status"] == "violation" or len(cases) == 1:
            print(json.dumps(rec, indent=1))
        bad |= rec["status"] == "violation"
    if s.p.returncode:
        print("worker ended with", s.p.returncode, s.stderr_tail())
        bad = 1
    if s.boot_failed:
        print(s.boot_failed)
        bad = 1
    shutil.rmtree(scratch, ignore_errors=True)
    return int(bool(bad))


def main():
    r = json.load(open(sys.argv[1]))
    me = f"{r['scenario']}:{r['idx']}"
    bad = run(r, [me])
    if not bad and r.get("before"):
        print(f"{me} holds alone; again after the {len(r['before'])} cases before it")
        bad = run(r, r["before"] + [me])
    return bad


if __name__ == "__main__":
    sys.exit(main())
