"""C16: parallel decomposition never changes the calibration; failures surface."""
import json
import os
import signal
import subprocess
import sys
import time

import numpy as np

import micropolarray as ml
from mon import calib, gen
from mon.core import Inconclusive, scenario

KEYS = ("flag", "t", "eff", "phi", "M", "C")


def problem(ctx, h, w, n=None):
    """A calibration problem with every ingredient that depends on the place in the frame."""
    ins = calib.Instrument(ctx, h, w)
    S = float(np.round(10 ** ctx.rng.uniform(2, 5)))
    norm = S if ctx.chance(0.5) else ctx.rng.uniform(0.8, 1, (h, w)) * S
    noise = ctx.pick((0, 0.01))
    a = calib.orientations(ctx, n or 5)
    dead = [(ctx.integer(0, h - 1), ctx.integer(0, w - 1)) for _ in range(ctx.integer(0, 2))]
    ims = []
    for v in a:
        im = ins.measure(norm, v)
        im = np.maximum(im + noise * S * ctx.rng.normal(0, 1, im.shape), 0)
        for p in dead:
            im[p] = 0
        ims.append(im)
    files = calib.write_set(ctx, ctx.path("in"), ims, a)
    kw = dict(polarizer_orientations=a, filenames_list=files, micropol_phases_previsions=ins.prev, gain=2.0, normalizing_S=norm)
    occ = None
    if ctx.chance(0.5) and min(h, w) >= 8:
        occ = [2 * ctx.integer(0, h // 2), 2 * ctx.integer(0, w // 2), 2 * ctx.integer(1, 2)]
        kw["occulter"] = occ
    return ins, kw, dead


def grids_of(h, w):
    return [[y, x] for y in range(1, h // 2 + 1) for x in range(1, w // 2 + 1) if h % y == 0 and w % x == 0 and (h // y) % 2 == 0 and (w // x) % 2 == 0 and y * x <= 16]


def compare(ctx, r, r0, what):
    for key in KEYS:
        ctx.close(r[key], r0[key], "grid-dependent", f"{key}, {what}", rtol=1e-9 if key != "flag" else 0)


class Stagger:
    """Worker processes lose a random time each, so that they end in any order."""

    def __init__(self, ctx):
        self.ctx, self.log = ctx, ctx.path(f"stagger{ctx.integer(0, 10**9)}")
        self.most = ctx.pick((0, 0.02, 0.15))

    def __enter__(self):
        self.real, me, seen = np.linalg.pinv, os.getpid(), set()

        def pinv(*a, **k):
            pid = os.getpid()
            if pid != me and pid not in seen:
                seen.add(pid)
                time.sleep(self.most * (pid * 7919 % 101) / 100)
                with open(self.log, "a") as f:
                    f.write(f"{pid}\n")
            return self.real(*a, **k)

        np.linalg.pinv = pinv
        return self

    def __exit__(self, *a):
        np.linalg.pinv = self.real
        if os.path.exists(self.log):
            pids = [int(v) for v in open(self.log)]
            self.ctx.ev("worker processes delayed", len(pids) if self.most else 0)
            self.ctx.ev("worker processes overtaking", sum(b < a for a, b in zip(pids, pids[1:])))


@scenario("C16", quick=36, thorough=400, cpu=300, large=(4, 30, 2000))
def grids(ctx):
    h, w = 4 * ctx.integer(1, 3), 4 * ctx.integer(1, 3)
    if ctx.large:
        h, w = ctx.pick(((32, 32), (16, 48), (48, 16), (4, 120), (120, 4), (24, 40)))
    elif ctx.chance(0.3):
        h, w = ctx.pick(((6, 12), (12, 6), (12, 4), (4, 12), (2, 12), (12, 2)))
    ins, kw, dead = problem(ctx, h, w)
    calib.calculate(ctx, **kw, procs_grid=[1, 1], output_dir=ctx.path("g0"))
    r0 = calib.read_result(ctx.path("g0"))
    gs = [g for g in grids_of(h, w) if g != [1, 1]]
    asym = [g for g in gs if g[0] != g[1]]
    todo = [ctx.pick(asym or gs)] + [ctx.pick(gs) for _ in range(2 if ctx.tier == "quick" else 4)]
    for k, g in enumerate(todo):
        with Stagger(ctx) as st:
            calib.calculate(ctx, **kw, procs_grid=list(g), output_dir=ctx.path(f"g{k+1}"))
        compare(ctx, calib.read_result(ctx.path(f"g{k+1}")), r0, f"grid {g} of {h}x{w} against one process")
        ctx.ev("grids compared")
        ctx.ev(f"grid {g[0]}x{g[1]}")
        ctx.sig(h, w, *g, len(dead), "occulter" in kw)
    if ctx.chance(0.4):  # another run of the same
        g = ctx.pick(todo)
        calib.calculate(ctx, **kw, procs_grid=list(g), output_dir=ctx.path("again"))
        compare(ctx, calib.read_result(ctx.path("again")), r0, f"grid {g} run again")
    ctx.sample(shape=(h, w), grids=todo, dead=dead, occulter=kw.get("occulter"))


@scenario("C16", quick=60, thorough=600)
def uncovered(ctx):
    """A grid that leaves pixels out, or cuts superpixels, is refused and writes no tensor."""
    h, w = 2 * ctx.integer(1, 6), 2 * ctx.integer(1, 6)
    while True:
        g = [ctx.integer(1, 8), ctx.integer(1, 8)]
        bad_y, bad_x = (h % g[0] or (h // g[0]) % 2), (w % g[1] or (w // g[1]) % 2)
        if bad_y or bad_x:
            break
    ins, kw, _ = problem(ctx, h, w)
    kw["normalizing_S"] = 1000.0
    e = ctx.refuses(ml.calculate_demodulation_tensor, **kw, procs_grid=g, output_dir=ctx.path("t"), kind="grid-not-refused", what=f"grid {g} on {h}x{w}")
    if isinstance(e, SystemExit):
        ctx.ok(e.code not in (0, None), "grid-not-refused", f"grid {g} on {h}x{w} exits with {e.code}")
    written = [f for f in os.listdir(ctx.path("t"))] if os.path.isdir(ctx.path("t")) else []
    ctx.ok("M00.fits" not in written, "grid-not-refused", f"files {written}")
    ctx.ev("grids refused")
    ctx.sig(h, w, *g, bool(bad_y), bool(bad_x))


def tree_cpu(pgid):
    """CPU ticks of all processes in the group (own children only)."""
    tot = 0
    for p in os.listdir("/proc"):
        if p.isdigit():
            try:
                s = open(f"/proc/{p}/stat").read().rsplit(")", 1)[1].split()
            except OSError:
                continue
            if int(s[2]) == pgid:
                tot += int(s[11]) + int(s[12])
    return tot


def run_driver(ctx, job):
    """(exit status or 'hang', ended normally)"""
    env = dict(os.environ, TMPDIR=ctx.tmp, MPLCONFIGDIR=ctx.tmp)
    p = subprocess.Popen(
        [sys.executable, "-B", "-m", "mon.calibdrv", ctx.tmp, json.dumps(job)],
        env=env, cwd=os.environ["PYTHONPATH"], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=open(ctx.path("err"), "wb"), start_new_session=True,
    )
    last, since, t0 = -1, time.time(), time.time()
    try:
        while p.poll() is None:
            time.sleep(0.05)
            if time.time() - since > 1:
                c = tree_cpu(p.pid)
                if c > last + 20:
                    last, since, idle = c, time.time(), 0
                elif time.time() - since > 30:
                    return "hang"
            if time.time() - t0 > 240:
                raise Inconclusive("calculation still busy after 240 s")
        return p.returncode
    finally:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()


def verdict(ctx, rc, job, r0, fault):
    err = open(ctx.path("err"), errors="replace").read()
    ended = os.path.exists(job["claim"] + ".normal-end")
    fired = os.path.exists(job["claim"] + ".fired")
    out = job["kw"]["output_dir"]
    if rc == "hang":
        ctx.fail("worker-failure-hangs", f"{fault}: the calculation waits for ever", stderr=err[-600:])
        return
    if fault[0] in ("kill-timer", None) or not fired:
        # the worker may have delivered everything before it died
        if rc == 0:
            ctx.ok(ended, "worker-failure-hidden", f"{fault}: exit status 0 without having ended normally", stderr=err[-600:])
            compare(ctx, calib.read_result(out), r0, f"{fault} with exit status 0")
            ctx.ev("workers that died after their work" if fired else "calculations without fault")
            return
        ctx.ok(fired, "raised", f"{fault}: exit status {rc} though no fault was injected", stderr=err[-1500:])
    ctx.ok(rc != 0, "worker-failure-hidden", f"{fault}: exit status 0 after a worker failed (ended normally: {ended})", stderr=err[-600:])
    ctx.ok(not ended, "worker-failure-hidden", f"{fault}: the call returned after a worker failed")
    ctx.ev(f"worker failures surfaced ({fault[0]})")
    ctx.ev("worker failures surfaced")


@scenario("C16", quick=18, thorough=150, cpu=600)
def worker_fails(ctx):
    h, w = 8, 8
    ins, kw, _ = problem(ctx, h, w)
    if not isinstance(kw["normalizing_S"], float):
        np.save(ctx.path("norm.npy"), kw["normalizing_S"])
    calib.calculate(ctx, **kw, procs_grid=[1, 1], output_dir=ctx.path("ok"))
    r0 = calib.read_result(ctx.path("ok"))
    if not isinstance(kw["normalizing_S"], float):
        kw["normalizing_S"] = ctx.path("norm.npy")
    g = ctx.pick([x for x in grids_of(h, w) if x != [1, 1]])
    kinds = ("raise", "kill-at", "kill-timer", "malformed", "raise", "kill-at")
    kind = kinds[ctx.idx % 6]
    job = {"kw": dict(kw, procs_grid=g, output_dir=ctx.path("t")), "claim": ctx.path("claim"), "fault": kind}
    fault = (kind, g)
    if kind == "raise":
        job["exc"] = ctx.pick(("linalg", "memory", "value"))
        job["nth"] = ctx.pick((1, 2, 3))
        fault += (job["exc"], job["nth"])
    elif kind == "kill-at":
        job["nth"] = ctx.pick((1, 2, 3))
        fault += (job["nth"],)
    elif kind == "kill-timer":
        job["delay"] = ctx.pick((0, 0.005, 0.02, 0.05, 0.1))
        fault += (job["delay"],)
    else:
        which = ctx.pick(("tk_boundary", "eff_boundary"))
        job["kw"][which] = ctx.pick(([0.5, 0.1], [0.5], ["x", "y", "z"]))
        job["fault"] = None
        fault += (which, str(job["kw"][which]))
        rc = run_driver(ctx, job)
        err = open(ctx.path("err"), errors="replace").read()
        ctx.ok(rc != "hang", "worker-failure-hangs", f"{fault}", stderr=err[-600:])
        ctx.ok(rc != 0, "worker-failure-hidden", f"{fault}: exit status 0", stderr=err[-600:])
        ctx.ev("worker failures surfaced (malformed)")
        ctx.ev("worker failures surfaced")
        ctx.sig(*fault)
        return
    rc = run_driver(ctx, job)
    verdict(ctx, rc, job, r0, fault)
    ctx.sig(*fault)
    ctx.sample(fault=fault, exit_status=rc)


@scenario("C16", quick=6, thorough=30, cpu=300)
def no_fault(ctx):
    """The same driver without a fault ends with status 0 and the same tensor."""
    h, w = 8, 8
    ins, kw, _ = problem(ctx, h, w)
    kw["normalizing_S"] = 5000.0
    calib.calculate(ctx, **kw, procs_grid=[1, 1], output_dir=ctx.path("ok"))
    r0 = calib.read_result(ctx.path("ok"))
    g = ctx.pick(grids_of(h, w))
    job = {"kw": dict(kw, procs_grid=g, output_dir=ctx.path("t")), "claim": ctx.path("claim"), "fault": None}
    rc = run_driver(ctx, job)
    verdict(ctx, rc, job, r0, (None, g))
    ctx.sig(*g)
