"""Runs one shard of the cases of a property and logs one JSON line per event."""
import argparse
import faulthandler
import importlib
import json
import os
import resource
import sys
import time


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--prop")
    ap.add_argument("--tier")
    ap.add_argument("--seed", type=int)
    ap.add_argument("--shard", default="0/1")
    ap.add_argument("--cases", default="", help="scenario:idx,... (replay)")
    ap.add_argument("--log")
    ap.add_argument("--scratch")
    ap.add_argument("--deadline", type=float)
    ap.add_argument("--known", default="")
    a = ap.parse_args()
    faulthandler.enable()
    log = open(a.log, "a", buffering=1)

    def put(**kw):
        log.write(json.dumps(kw) + "\n")
        log.flush()

    try:
        from mon import boot, core

        ml = boot.boot(a.scratch)
        del ml
    except BaseException as e:
        import traceback

        put(ev="boot-failed", msg="".join(traceback.format_exception(e))[-3000:])
        return 4
    importlib.import_module(f"mon.props.{a.prop.lower()}")
    scens = core.SCENARIOS[a.prop]
    from mon.meta import META

    for s in scens:
        if s.large:
            continue
        s.quick = max(s.quick, min(s.thorough, int(s.quick * META[a.prop].get("boost", 1))))
    byname = {s.name: s for s in scens}
    if a.cases:
        todo = [(c.rsplit(":", 1)[0], int(c.rsplit(":", 1)[1])) for c in a.cases.split(",")]
    else:
        k, n = (int(v) for v in a.shard.split("/"))
        # index-major, so that every scenario gets early cases in every shard
        allc = []
        for i in range(max(s.count(a.tier) for s in scens)):
            for j, s in enumerate(scens):
                if i < s.count(a.tier) and (i + j) % n == k:  # every scenario spread over all shards
                    allc.append((s.name, i))
        todo = allc
    put(ev="start", cases=len(todo), scenarios=[s.name for s in scens if s.count(a.tier)])
    known = [x for x in a.known.split(",") if x]
    os.chdir(a.scratch)
    done = 0
    for name, idx in todo:
        if time.time() > a.deadline:
            put(ev="deadline", left=len(todo) - done)
            break
        sc = byname[name]
        used = sum(resource.getrusage(resource.RUSAGE_SELF)[:2])
        resource.setrlimit(resource.RLIMIT_CPU, (int(used + sc.cpu), resource.RLIM_INFINITY))
        put(ev="begin", scenario=name, idx=idx)
        rec = core.run_case(sc, a.seed, idx, a.tier, a.scratch, known)
        done += 1
        put(ev="end", **rec)
    put(ev="finish", done=done)
    log.close()
    return 0


if __name__ == "__main__":
    code = main()
    sys.stdout.flush()
    os._exit(code)
