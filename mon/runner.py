"""python -m mon.runner PROP [quick|thorough]: the check of one property.

Spawns worker processes over the shards of the property's cases, merges what
their monitors observed, decides, and writes evidence/<PROP>.json.
exit 0: held on everything observed; 1: violation; 3: inconclusive.
"""
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable


def known_findings(prop):
    """kind -> text for the 'known:' lines of this property."""
    out = {}
    f = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(f):
        for line in open(f):
            line = line.strip()
            if line.startswith("known: "):
                head, text = line[7:].split(" :: ", 1)
                kv = dict(p.split("=", 1) for p in head.split())
                if kv.get("property") == prop:
                    out[kv["key"]] = text
    return out


def worker_env(scratch, extra=None):
    env = {
        k: v
        for k, v in os.environ.items()
        if k in ("PATH", "HOME", "LANG", "LC_ALL", "MON_REPO", "TZ", "LD_LIBRARY_PATH")
    }
    env.update(
        PYTHONPATH=HERE,
        PYTHONHASHSEED="0",
        PYTHONDONTWRITEBYTECODE="1",
        MPLBACKEND="Agg",
        MPLCONFIGDIR=os.path.join(scratch, "mpl"),
        TMPDIR=os.path.join(scratch, "tmp"),
        NUMBA_NUM_THREADS="4",
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        MKL_NUM_THREADS="1",
        NUMEXPR_NUM_THREADS="1",
        MON_SCRATCH=scratch,
    )
    env.update(extra or {})
    return env


class Shard:
    def __init__(self, prop, tier, seed, spec, scratch, deadline, known, tag, cases="", env=None):
        self.tag, self.spec, self.cases = tag, spec, cases
        self.dir = os.path.join(scratch, tag)
        os.makedirs(self.dir, exist_ok=True)
        self.log = os.path.join(self.dir, "log.jsonl")
        self.err = os.path.join(self.dir, "stderr")
        cmd = [PY, "-B", "-m", "mon.worker", "--prop", prop, "--tier", tier, "--seed", str(seed)]
        cmd += ["--shard", spec, "--log", self.log, "--scratch", self.dir]
        cmd += ["--deadline", str(deadline), "--known", ",".join(known)]
        if cases:
            cmd += ["--cases", cases]
        e = worker_env(scratch, env)
        e["MON_SCRATCH"] = self.dir
        os.makedirs(e["TMPDIR"], exist_ok=True)
        os.makedirs(e["MPLCONFIGDIR"], exist_ok=True)
        e["TMPDIR"] = os.path.join(self.dir, "tmp")
        os.makedirs(e["TMPDIR"], exist_ok=True)
        mpl = os.path.join(self.dir, "mpl")
        e["MPLCONFIGDIR"] = mpl
        self.p = subprocess.Popen(
            cmd,
            cwd=HERE,
            env=e,
            stdin=subprocess.DEVNULL,
            stdout=subprocess.DEVNULL,
            stderr=open(self.err, "wb"),
            start_new_session=True,
        )
        self.pos = 0
        self.records = []
        self.current = None
        self.finished = False
        self.boot_failed = None
        self.scenarios = []
        self.last = time.time()

    def read(self):
        if not os.path.exists(self.log):
            return
        with open(self.log) as f:
            f.seek(self.pos)
            while True:
                line = f.readline()
                if not line.endswith("\n"):
                    break
                self.pos = f.tell()
                self.last = time.time()
                r = json.loads(line)
                if r["ev"] == "begin":
                    self.current = (r["scenario"], r["idx"])
                elif r["ev"] == "end":
                    self.current = None
                    self.records.append(r)
                elif r["ev"] == "start":
                    self.scenarios = r["scenarios"]
                elif r["ev"] == "boot-failed":
                    self.boot_failed = r["msg"]
                elif r["ev"] in ("finish",):
                    self.finished = True

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.p.wait()

    def stderr_tail(self, n=1500):
        try:
            return open(self.err, errors="replace").read()[-n:]
        except OSError:
            return ""


CRASH = {signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL, signal.SIGTRAP, signal.SIGSYS}


def main():
    prop = sys.argv[1].upper()
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    import importlib

    sys.path.insert(0, HERE)
    from mon import meta

    m = meta.META[prop]
    known = known_findings(prop)
    nsh = m.get("shards", 6) if tier == "quick" else m.get("shards_thorough", 8)
    budget = m.get("budget", 150) if tier == "quick" else m.get("budget_thorough", 700)
    stall = m.get("stall", 300)
    scratch = tempfile.mkdtemp(prefix=f"mon-{prop}-")
    deadline = t0 + budget
    extra_env = m.get("env")
    shards = []
    records, violations, notes = [], [], []
    inconclusive = []
    try:
        for k in range(nsh):
            shards.append(Shard(prop, tier, seed, f"{k}/{nsh}", scratch, deadline, known, f"s{k}", env=extra_env))
        live = list(shards)
        retry = []
        while live:
            time.sleep(0.1)
            for s in list(live):
                s.read()
                rc = s.p.poll()
                if rc is None:
                    if time.time() - s.last > stall:
                        inconclusive.append(f"shard {s.tag}: no progress for {stall}s in {s.current}")
                        s.kill()
                        live.remove(s)
                    continue
                s.read()
                live.remove(s)
                s.kill()
                if s.boot_failed:
                    violations.append(dict(kind="import-failed", msg=s.boot_failed, scenario="import", idx=0, detail={}))
                elif rc < 0:
                    sig = signal.Signals(-rc)
                    if s.current is None:
                        where = "between cases"
                    else:
                        where = f"{s.current[0]}:{s.current[1]}"
                    retry.append((s, sig, where))
                elif rc != 0 or not s.finished:
                    inconclusive.append(f"shard {s.tag} exited {rc}: {s.stderr_tail(800)}")
            if any(r["status"] == "violation" for s in shards for r in s.records) or violations:
                break
        # a crash or a CPU-time overrun counts only if it happens again in a fresh process
        if not violations and not any(r["status"] == "violation" for s in shards for r in s.records):
            for s, sig, where in retry[:3]:
                one = None
                if s.current is not None:
                    one = Shard(prop, tier, seed, "0/1", scratch, time.time() + 400, known, s.tag + "r", cases=where, env=extra_env)
                again = one
                for attempt in range(2):
                    if again is None:
                        again = Shard(prop, tier, seed, s.spec, scratch, time.time() + budget, known, s.tag + "R", env=extra_env)
                    tlim = time.time() + budget + 100
                    while again.p.poll() is None and time.time() < tlim:
                        time.sleep(0.1)
                        again.read()
                    again.read()
                    rc2 = again.p.poll()
                    again.kill()
                    if rc2 is not None and rc2 < 0 and (-rc2) == sig and sig in CRASH | {signal.SIGXCPU}:
                        kind = "no-termination" if sig == signal.SIGXCPU else "crash"
                        sc, ix = s.current or ("shard", 0)
                        violations.append(
                            dict(kind=kind, scenario=sc, idx=ix, detail={"stderr": again.stderr_tail()},
                                 msg=f"process died of {sig.name} in {where}, twice")
                        )
                        break
                    if rc2 == 0 and attempt == 1:
                        s.records = again.records
                        notes.append(f"shard {s.tag} died of {sig.name} once, not reproduced")
                    again = None
                else:
                    inconclusive.append(f"shard {s.tag} died of {sig.name} at {where}; not reproduced")
                if violations:
                    break
    finally:
        for s in shards:
            s.kill()
    for s in shards:
        s.read()
        for n, r in enumerate(s.records):
            if r["status"] == "violation":
                # cases of one process are run one after another: the ones before may matter
                r["before"] = [f"{x['scenario']}:{x['idx']}" for x in s.records[:n]]
        records += s.records
    violations += [r for r in records if r["status"] == "violation"]
    inconclusive += [f"{r['scenario']}:{r['idx']}: {r.get('msg')}" for r in records if r["status"] == "inconclusive"]
    vac = [f"{r['scenario']}:{r['idx']}" for r in records if r["status"] == "vacuous"]

    events, sigs, samples, per = {}, set(), [], {}
    comparisons = 0
    known_hit = set()
    for r in records:
        per[r["scenario"]] = per.get(r["scenario"], 0) + (r["status"] == "ok")
        comparisons += r.get("comparisons", 0)
        for k, v in r.get("events", {}).items():
            events[k] = events.get(k, 0) + v
        if r["status"] == "ok":
            for sg in r.get("sigs", []):
                sigs.add(r["scenario"] + "|" + sg)
        known_hit.update(r.get("known", []))
    seen = set()
    for r in records:
        if r.get("samples") and r["scenario"] not in seen and len(samples) < 12:
            seen.add(r["scenario"])
            samples.append({"scenario": r["scenario"], "case": r["idx"], **r["samples"][0]})
    # a run that did not reach its deciding monitors has decided nothing
    if not violations:
        names = {n for s in shards for n in s.scenarios}
        if not names:
            inconclusive.append("no worker started")
        for name in sorted(names):
            if not per.get(name):
                inconclusive.append(f"scenario {name} completed no case")
        for e, least in m.get("need", {}).items():
            if events.get(e, 0) < least:
                inconclusive.append(f"monitor event {e!r} observed {events.get(e, 0)} times, needs {least}")
        if vac:
            inconclusive.append(f"cases without any comparison: {vac[:5]}")
    wall = time.time() - t0
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": m.get("level", "exploration"),
        "coverage": {
            "evaluations": len(records),
            "distinct_nontrivial": len(sigs),
            "rule": m["rule"],
            "samples": samples,
            "oracle_comparisons": comparisons,
            "cases_per_scenario": per,
            "monitor_events": events,
        },
        "assumptions": m.get("assumptions", []),
        "wall_s": round(wall, 2),
        "violations": len(violations),
    }
    if notes or inconclusive:
        evidence["coverage"]["notes"] = notes + inconclusive
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
        json.dump(evidence, f, indent=1)
    for k in sorted(known_hit):
        print(f"KNOWN-FINDING: property={prop} {known.get(k, k)}")
    code = 0
    if violations:
        code = 1
        rd = os.path.join(HERE, "replays")
        os.makedirs(rd, exist_ok=True)
        shown = set()
        for v in violations:
            if v["kind"] in shown or len(shown) >= 3:
                continue
            shown.add(v["kind"])
            path = os.path.join(rd, f"{prop}-{v['scenario']}-{seed}-{v['idx']}.json")
            with open(path, "w") as f:
                json.dump(dict(property=prop, tier=tier, seed=seed, scenario=v["scenario"], idx=v["idx"],
                               kind=v["kind"], msg=v["msg"], detail=v.get("detail"), before=v.get("before", []),
                               replay=f"python3 -m mon.replay {path}"), f, indent=1)
            print(f"{prop} {v['scenario']}:{v['idx']} [{v['kind']}] {v['msg'][:600]}")
            print(f"VIOLATION property={prop} replay={path}")
    elif inconclusive:
        code = 3
        print(f"{prop}: INCONCLUSIVE: " + "; ".join(inconclusive[:6]))
    else:
        print(
            f"{prop} held on {len(records)} cases ({len(sigs)} distinct), {comparisons} comparisons, "
            f"{sum(events.values())} events, tier {tier}, seed {seed}, {wall:.1f}s"
        )
    shutil.rmtree(scratch, ignore_errors=True)
    return code


if __name__ == "__main__":
    sys.exit(main())
