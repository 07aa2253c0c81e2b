"""Build, confirm and try planted bugs.

plant.py make SPEC.py [ID...]   write seeded/<id>/ from specs and confirm each in a scratch copy
plant.py try [ID...]            apply each to /repo, run its property's quick check, undo
"""
import json, os, runpy, shutil, subprocess, sys, tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
SH = '''#!/bin/bash
# cwd: /repo; exit 0 when the behaviour is right
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
export TMPDIR=$t HOME=$t MPLCONFIGDIR=$t NUMBA_CACHE_DIR=$t PYTHONPYCACHEPREFIX=$t/pyc MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1
export PYTHONPATH=$PWD
py=/opt/venv/bin/python; [ -x "$py" ] || py=python3
(cd "$t" && "$py" "$here/demo.py") ; rc=$?
rm -rf -- "$t"
exit $rc
'''


def sh(cmd, cwd=None, **kw):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, **kw)


def make(specs, ids):
    for sp in specs:
        i = sp["id"]
        if ids and i not in ids:
            continue
        d = os.path.join(S, i)
        w = tempfile.mkdtemp(prefix="plant")
        r = os.path.join(w, "repo")
        try:
            sh(["cp", "-a", "/repo", r])
            for f, old, new in sp["edits"]:
                p = os.path.join(r, "micropolarray", f)
                s = open(p).read()
                assert s.count(old) == 1, (i, f, s.count(old), old)
                open(p, "w").write(s.replace(old, new))
            diff = sh(["git", "diff"], cwd=r).stdout
            os.makedirs(d, exist_ok=True)
            open(d + "/patch.diff", "w").write(diff)
            open(d + "/demo.sh", "w").write(SH)
            open(d + "/demo.py", "w").write(sp["demo"].lstrip("\n"))
            json.dump({"property": sp["property"], "needs": sp["needs"], "what_it_breaks": sp["breaks"]}, open(d + "/meta.json", "w"), indent=1)
            a = sh(["bash", d + "/demo.sh"], cwd="/repo")
            b = sh(["bash", d + "/demo.sh"], cwd=r)
            t = sh(["bash", "-c", f". /opt/vp/env.sh; export PYTHONPATH={r} PYTHONPYCACHEPREFIX={w}/pyc NUMBA_CACHE_DIR={w}/nb MPLBACKEND=Agg; /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 tests 2>&1 | tail -5"], cwd=r)
            last = t.stdout.strip().splitlines()[-1] if t.stdout.strip() else "?"
            ok = a.returncode == 0 and b.returncode not in (0, 3) and "13 passed" in last and "failed" not in last
            print(("ok  " if ok else "BAD "), i, "clean", a.returncode, "planted", b.returncode, "|", last, flush=True)
            if not ok:
                print("   clean:", a.stdout[-300:], a.stderr[-600:])
                print("   planted:", b.stdout[-300:], b.stderr[-600:])
            else:
                print("     ", (b.stderr.strip().splitlines() or ["?"])[-1][:160])
        finally:
            shutil.rmtree(w)


def attempt(ids):
    for i in sorted(ids or os.listdir(S)):
        d = os.path.join(S, i)
        p = json.load(open(d + "/meta.json"))["property"]
        assert not sh(["git", "-C", "/repo", "status", "--porcelain"]).stdout
        a = sh(["git", "-C", "/repo", "apply", d + "/patch.diff"])
        assert a.returncode == 0, a.stderr
        try:
            r = sh(["bash", "run.sh", p, "quick"], cwd=V, env=dict(os.environ, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick"))
        finally:
            sh(["git", "-C", "/repo", "checkout", "--", "."])
        hit = r.returncode == 1 and f"VIOLATION property={p} " in r.stdout
        print(("CAUGHT" if hit else "MISSED"), i, p, "rc", r.returncode, "|", " / ".join(r.stdout.strip().splitlines()[-2:])[:200], flush=True)


if __name__ == "__main__":
    if sys.argv[1] == "make":
        make(runpy.run_path(sys.argv[2])["SPECS"], sys.argv[3:])
    else:
        attempt(sys.argv[2:])
