"""Purity: results alone, after other calls, in other processes and in threads."""
import decimal
import gc
import locale
import logging
import multiprocessing
import os
import random
import signal
import sys
import threading

import numpy as np
from astropy.io import fits

import micropolarray as ml
from mon import gen, ops
from mon.core import scenario
from micropolarray import micropol_image as DEFAULT
from mon.props.c25 import collect, drive

CHEAP = [n for n in ops.NAMES if n not in ("plots", "f_chunk", "f_chen_calculate")]
THREADED = [n for n in CHEAP if n not in ops.NO_THREADS]


def state():
    """Process-wide settings no operation has a reason to change."""
    import cv2
    import matplotlib
    import numba
    import warnings

    mask = os.umask(0o22)
    os.umask(mask)
    root = logging.getLogger()
    return dict(
        cwd=os.getcwd(),
        errors=np.geterr(),
        printing={k: str(v) for k, v in np.get_printoptions().items()},
        environment=dict(os.environ),
        plots=ops.digest(sorted((k, str(v)) for k, v in matplotlib.rcParams.items())),
        random=ops.digest(np.random.get_state()[1]),
        warnings=len(warnings.filters),
        python_random=hash(random.getstate()),
        umask=mask,
        logging=(root.level, len(root.handlers), root.manager.disable, logging.getLogger("micropolarray").level),
        search_path=list(sys.path),
        recursion=sys.getrecursionlimit(),
        collector=(gc.isenabled(), gc.get_threshold()),
        decimal=str(decimal.getcontext().prec),
        locale=locale.setlocale(locale.LC_ALL),
        pool_kind=multiprocessing.get_start_method(allow_none=True) or "fork",
        thread_numbers=(cv2.getNumThreads(), cv2.useOptimized(), numba.get_num_threads()),
        handlers=[signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGCHLD)],
        streams=(id(sys.stdout), id(sys.stderr), id(sys.excepthook)),
        switching=sys.getswitchinterval(),
        dictionary=str(getattr(DEFAULT, "DEFAULT_ANGLES_DIC", None)),
    )


def quietly(kind, flag):
    """A program's own handler of floating-point errors."""


def arguments(m):
    return ops.digest([m.inputs, m.objects])


def call(ctx, c, folder, shake=True):
    """Build and run one operation; (digest, result, maker)."""
    name, seed, kind = c
    shapes = ops.of_kind(kind)
    th, m = ops.build(name, seed, None, folder, shapes)
    before = arguments(m)
    if shake:
        np.random.seed(ctx.integer(0, 2**31))
    with np.errstate(**{k: ctx.pick(("ignore", "warn", "call")) for k in ("divide", "over", "under", "invalid")}, call=quietly):
        s0 = state()
        r = ctx.run(th)
        s1 = state()
    for k in s0:
        ctx.ok(s0[k] == s1[k], "process-state", f"{name} changes the process-wide {k}", before=s0[k], after=s1[k])
    ctx.ok(arguments(m) == before, "argument-changed", f"{name} (seed {seed}): an argument is not what it was")
    ctx.ev("operations")
    return ops.digest(r), r, m


@scenario("C26", quick=10, thorough=60, cpu=120)
def figures(ctx):
    """Drawing is an operation like the others: repeated, with others between."""
    ml.set_default_angles(dict(gen.DEFAULT_DIC))
    c = ["plots", ctx.integer(0, 10**6), ctx.pick(("big", "small"))]
    d, _, _ = call(ctx, c, ctx.path("a"))
    other = [ctx.pick(CHEAP), ctx.integer(0, 10**6), "small"]
    call(ctx, other, ctx.path("b"))
    e, _, _ = call(ctx, c, ctx.path("c"))
    ctx.ok(d == e, "history", f"{c} draws another picture after {other}")
    ctx.ev("figures drawn again")
    ctx.sig("figures", other[0], c[1] % 97)


def choose(ctx, names, n):
    """Calls with many repetitions of one operation on other inputs."""
    few = [ctx.pick(names) for _ in range(max(2, n // 4))]
    return [[ctx.pick(few), ctx.integer(0, 10**6), "large" if ctx.large else ctx.pick(("big", "small"))] for _ in range(n)]


@scenario("C26", quick=120, thorough=2500, large=(8, 80, 90000))
def histories(ctx):
    ml.set_default_angles(dict(gen.DEFAULT_DIC))
    calls = choose(ctx, CHEAP, ctx.integer(4, 9))
    first, kept = [], []
    for k, c in enumerate(calls):
        d, r, m = call(ctx, c, ctx.path(f"a{k}"))
        first.append(d)
        kept.append((c, d, r, m, arguments(m)))
    for rep in range(2):
        for k in ctx.rng.permutation(len(calls)):
            c = calls[k]
            if c[0] != "make_default" and ctx.chance(0.3):
                ml.set_default_angles(gen.angle_dic(ctx))
            d, r, _ = call(ctx, c, ctx.path(f"b{rep}-{k}"))
            ml.set_default_angles(dict(gen.DEFAULT_DIC))
            ctx.ok(d == first[k], "history", f"{c} gives another result after other operations")
            ctx.ev("results compared after other operations")
    for c, d, r, m, args in kept:
        ctx.ok(ops.digest(r) == d, "result-changed", f"the result of {c} changed when other operations were performed")
        ctx.ok(arguments(m) == args, "argument-changed", f"the arguments of {c} changed when other operations were performed")
        ctx.ev("earlier results still intact")
    ctx.sig("history", [(c[0], c[1] % 97) for c in calls])
    ctx.sample(calls=calls)


@scenario("C26", quick=120, thorough=2500, large=(20, 120, 90000))
def disturbed_results(ctx):
    """Writing into a result, as its owner may, never shows in a later call."""
    name = ctx.pick(CHEAP)
    c = [name, ctx.integer(0, 10**6), "large" if ctx.large else ctx.pick(("big", "small"))]
    d, r, m = call(ctx, c, ctx.path("a"))
    n = scribble(r)
    d2, _, _ = call(ctx, c, ctx.path("b"))
    ctx.ok(d2 == d, "shared-result", f"{name}: writing into an earlier result changes later ones")
    ctx.ev("results written into", n > 0)
    ctx.sig("scribble", name, c[1] % 97)


def scribble(r):
    n = 0
    if isinstance(r, (list, tuple)):
        return sum(scribble(v) for v in r)
    if isinstance(r, dict):
        return sum(scribble(v) for v in r.values())
    if isinstance(r, ml.Image):
        n += scribble(r.data)
        if isinstance(r, ml.MicropolImage):
            n += scribble(r.Stokes_vec)
            if r.demosaiced_images is not None:
                n += scribble(np.asarray(r.demosaiced_images))
        r.header["KEY1"] = 12345
        return n
    if isinstance(r, ml.Demodulator):
        return scribble(r.mij)
    if isinstance(r, np.ndarray) and r.flags.writeable and r.size:
        r[...] = 111
        return 1
    return 0


def stored(folder):
    return sorted(os.path.join(b, f) for b, _, fs in os.walk(folder) for f in fs)


def change(m, files, seed):
    """Other contents at the same places: arrays written in place, images
    corrected in place, files rewritten with their size and times kept.
    Returns the numbers of (arrays, objects, files) changed."""
    rng = np.random.default_rng(seed)
    n = [0, 0, 0]
    for a in m.inputs:
        if a.flags.writeable and a.size:
            a[...] = a[::-1].copy()
            n[0] += 1
    for x in m.objects:
        if isinstance(x, ml.MicropolImage):
            k = int(rng.integers(4))
            if k == 0:
                x.subtract_dark(ml.MicropolImage(np.full(x.data.shape, 3.0), angle_dic=dict(x.angle_dic)))
            elif k == 1:
                x.correct_flat(ml.MicropolImage(rng.uniform(1, 2, x.data.shape), angle_dic=dict(x.angle_dic)))
            elif k == 2:
                x.mask_occulter(x.height // 2, x.width // 2, 2, fill=7.0)
            else:
                x.demosaic("mean")
            x.header["KEY1"] = int(rng.integers(100, 200))
        elif isinstance(x, ml.Image):
            x.data[...] = x.data[::-1].copy()
        elif isinstance(x, ml.Demodulator):
            x.flip(0)
            x.mij[...] *= 1.5
        else:
            continue
        n[1] += 1
    for f in files:
        st = os.stat(f)
        if f.endswith(".fits"):
            with fits.open(f, memmap=False) as h:
                data, header = np.array(h[0].data[::-1]), h[0].header.copy()
            fits.PrimaryHDU(data=data, header=header, do_not_scale_image_data=True).writeto(f, overwrite=True)
        else:
            b = open(f, "rb").read()
            open(f, "wb").write(b[::-1])
        os.utime(f, ns=(st.st_atime_ns, st.st_mtime_ns))
        n[2] += 1
    return n


@scenario("C26", quick=250, thorough=4000, large=(10, 80, 90000))
def changed_in_place(ctx):
    """Arguments changed in place and files rewritten between two calls: the
    second call sees what they hold now, as a first call on such arguments does."""
    name, seed = ctx.pick(CHEAP), ctx.integer(0, 10**6)
    shapes = ops.of_kind("large" if ctx.large else ctx.pick(("big", "small")))
    k = ctx.integer(0, 2**31)
    got = []
    for used in (True, False):
        ml.set_default_angles(dict(gen.DEFAULT_DIC))
        folder = ctx.path("used" if used else "new")
        th, m = ops.build(name, seed, None, folder, shapes)
        files = [f[len(folder):] for f in stored(folder)]
        if used:
            arguments(m)
            d0 = ops.digest(ctx.run(th))
            inputs = files
        n = change(m, [folder + f for f in inputs], k)
        try:
            d = ops.digest(th())
        except Exception as e:  # a demosaiced image has no superpixel errors, say
            d = f"raises {type(e).__name__}"
            ctx.ev("changed arguments refused", used)
        got.append((d, arguments(m)))
    ctx.ok(got[0][1] == got[1][1], "stale-object", f"{name}: an object used before and changed in place is not like a new one changed so")
    ctx.ok(got[0][0] == got[1][0], "stale-result", f"{name} gives another result on changed arguments when it was called before the change", arrays=n[0], objects=n[1], files=n[2])
    ctx.ev("arrays changed in place between calls", n[0])
    ctx.ev("images and demodulators changed in place between calls", n[1])
    ctx.ev("files rewritten between calls", n[2])
    ctx.ev("results that changed with the arguments", got[0][0] != d0)
    ctx.sig("in place", name, seed % 97)


@scenario("C26", quick=24, thorough=400, cpu=300, large=(3, 30, 90000))
def threads(ctx):
    ml.set_default_angles(dict(gen.DEFAULT_DIC))
    nt = 8
    few = [ctx.pick(THREADED) for _ in range(ctx.integer(1, 4))]
    work = []
    for t in range(nt):
        seq = []
        for k in range(ctx.integer(4, 8)):
            c = [ctx.pick(few), ctx.integer(0, 10**6), "large" if ctx.large else "big" if ctx.chance(0.8) else "small"]
            expect, _, _ = call(ctx, c, ctx.path(f"s{t}-{k}"), shake=False)
            th, m = ops.build(c[0], c[1], None, ctx.path(f"t{t}-{k}"), ops.of_kind(c[2]))
            seq.append((c, th, m, arguments(m), expect))
        work.append(seq)
    got = [[] for _ in range(nt)]
    barrier = threading.Barrier(nt)
    order = []
    rounds = ctx.integer(2, 4)

    def body(t):
        barrier.wait()
        for rd in range(rounds):
            for k, (c, th, m, _, _) in enumerate(work[t]):
                order.append((t, "begin"))
                try:
                    got[t].append((k, th()))
                except Exception as e:
                    got[t].append((k, e))
                order.append((t, "end"))

    old = sys.getswitchinterval()
    sys.setswitchinterval(ctx.pick((1e-6, 1e-5, 1e-4)))
    try:
        ts = [threading.Thread(target=body, args=(t,)) for t in range(nt)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    for t in range(nt):
        for k, r in got[t]:
            c, _, m, args, expect = work[t][k]
            if isinstance(r, Exception):
                ctx.fail("thread-raised", f"{c} raised beside other threads: {type(r).__name__}: {r}")
            ctx.ok(ops.digest(r) == expect, "thread-interference", f"{c} gives another result beside other threads")
            ctx.ok(arguments(m) == args, "argument-changed", f"{c}: an argument changed beside other threads")
            ctx.ev("results computed beside other threads")
    running, overlap = set(), 0
    for t, what in order:
        if what == "begin":
            overlap += bool(running)
            running.add(t)
        else:
            running.discard(t)
    ctx.ev("operations begun while another ran", overlap)
    ctx.sig("threads", [c[0] for s in work for c, *_ in s][:8], ctx.idx)
    ctx.sample(operations=few, interleaving=[t for t, w in order if w == "begin"][:40])


@scenario("C26", quick=40, thorough=500, cpu=300)
def settings_beside(ctx):
    """What one thread relies on (the default dictionary, the working folder, the
    environment, the printing of arrays) while others perform operations: it is
    looked at all the time, not only when they are done."""
    usual = gen.angle_dic(ctx)
    ml.set_default_angles(dict(usual))
    few = [n for n in (ctx.pick(THREADED) for _ in range(5)) if n != "make_default"]
    few += ctx.pick((["image_arith"], ["image_arith", "demosaiced_arith"], []))
    nt, work = 4, []
    for t in range(nt):
        work.append([ops.build(n, ctx.integer(0, 10**6), None, ctx.path(f"{t}-{k}"), ops.of_kind(ctx.pick(("big", "small"))))[0] for k, n in enumerate(few)])
    for s in work[0]:
        ctx.run(s)  # compiled before they are run together
    a = gen.values(ctx, (2, 2), "uniform")
    here, env = os.getcwd(), dict(os.environ)
    shown = {k: str(v) for k, v in np.get_printoptions().items()}
    done, made, wrong, raised = threading.Event(), [0], [], []
    barrier = threading.Barrier(nt + 1)

    def body(t):
        barrier.wait()
        try:
            for _ in range(6):
                for th in work[t]:
                    th()
        except Exception as e:
            raised.append(f"{type(e).__name__}: {e}")

    def look():
        barrier.wait()
        while not done.is_set():
            i = ml.MicropolImage(a)
            if i.angle_dic != usual:
                wrong.append(("default dictionary", dict(i.angle_dic)))
            if getattr(DEFAULT, "DEFAULT_ANGLES_DIC", usual) != usual:
                wrong.append(("default dictionary", "as it is stored"))
            if os.getcwd() != here:
                wrong.append(("working folder", os.getcwd()))
            if made[0] % 8 == 0 and (dict(os.environ) != env or {k: str(v) for k, v in np.get_printoptions().items()} != shown):
                wrong.append(("environment or printing", ""))
            made[0] += 1

    old = sys.getswitchinterval()
    sys.setswitchinterval(ctx.pick((1e-6, 1e-6, 1e-5)))
    try:
        eye = threading.Thread(target=look)
        ts = [threading.Thread(target=body, args=(t,)) for t in range(nt)]
        for t in ts + [eye]:
            t.start()
        for t in ts:
            t.join()
        done.set()
        eye.join()
    finally:
        done.set()
        sys.setswitchinterval(old)
    ctx.ok(not raised, "thread-raised", f"one of {few} beside other threads: {raised[:2]}")
    ctx.ok(not wrong, "thread-settings", f"while {few} run, another thread finds another {wrong[:1]}, its own being {usual}", times=len(wrong), looks=made[0])
    ctx.ok(ml.MicropolImage(a).angle_dic == usual, "process-state", f"default dictionary after {few}")
    ml.set_default_angles(dict(gen.DEFAULT_DIC))
    ctx.ev("looks at settings beside operations", made[0])
    ctx.sig("settings", few, ctx.idx)


@scenario("C26", quick=6, thorough=40, cpu=600)
def processes(ctx):
    part = [n for i, n in enumerate(ops.NAMES) if i % 6 == ctx.idx % 6]
    reps = 5 if ctx.tier == "quick" else 20
    calls = []
    for n in part:
        for _ in range(2 if n in ("plots", "f_chunk") else reps):
            calls.append([n, ctx.integer(0, 10**6), ctx.pick(("big", "small"))])
    p1 = [int(v) for v in ctx.rng.permutation(len(calls))]
    p2 = p1[::-1]
    runs = [drive(ctx, f"o{k}", [calls[i] for i in p], PYTHONHASHSEED=str(h)) for k, (p, h) in enumerate(((p1, 1), (p2, 77)))]
    x, y = (collect(ctx, *r) for r in runs)
    a = dict(zip(p1, x))
    b = dict(zip(p2, y))
    for i, c in enumerate(calls):
        ctx.ok(not a[i].startswith("raised") and not b[i].startswith("raised"), "raised", f"{c}: {a[i]} / {b[i]}")
        ctx.ok(a[i] == b[i], "history", f"{c} gives another result in a process that performed the operations in reverse order")
        ctx.ev("results compared between processes")
        ctx.sig("process", c[0], c[1] % 97)
