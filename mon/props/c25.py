"""Memory: bounds-checked kernels, guard pages and canary margins, poisoned heaps."""
import ctypes
import json
import mmap
import os
import subprocess
import sys

import numpy as np
from numba.core import config as nbconfig

from mon import guardmem, ops
from mon.core import scenario

HERE = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
PAGE = mmap.PAGESIZE
libc = ctypes.CDLL(None, use_errno=True)
libc.mprotect.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int]


def guarded(where):
    """A place function: the array touches an inaccessible page at one end."""
    maps = []

    def place(a):
        a = np.ascontiguousarray(a)
        n = -(-max(a.nbytes, 1) // PAGE) * PAGE
        m = mmap.mmap(-1, n + 2 * PAGE)
        base = ctypes.addressof(ctypes.c_char.from_buffer(m))
        maps.append((m, base, n))
        off = PAGE if where == "start" else PAGE + n - a.nbytes
        b = np.frombuffer(m, dtype=a.dtype, count=a.size, offset=off).reshape(a.shape)
        b[...] = a
        for p in (base, base + PAGE + n):
            if libc.mprotect(p, PAGE, 0):
                raise OSError("mprotect")
        return b

    def release():
        for _, base, n in maps:
            libc.mprotect(base, n + 2 * PAGE, 3)

    return place, release


def margins(fill, keep, extra=(3, 5)):
    """A place function: the array is a window of a larger one."""

    def place(a):
        pad = [(extra[k % 2], extra[(k + 1) % 2]) for k in range(a.ndim)]
        big = np.empty([s + p + q for s, (p, q) in zip(a.shape, pad)], dtype=a.dtype)
        big[...] = fill if a.dtype.kind == "f" else (np.iinfo(a.dtype).max if fill != fill else 7)
        win = big[tuple(slice(p, p + s) for s, (p, _) in zip(a.shape, pad))]
        win[...] = a
        keep.append((big, win, big.copy(), a.copy()))
        return win

    return place


def shapes_of(ctx):
    return ops.LARGE_SHAPES if ctx.large else ops.ODD_SHAPES if ctx.chance(0.5) else ops.SHAPES


LARGE = (len(ops.LARGE_NAMES), len(ops.LARGE_NAMES) * 6, 90000)


@scenario("C25", quick=len(ops.NAMES) * 4, thorough=len(ops.NAMES) * 60, large=LARGE)
def bounds(ctx):
    ctx.ok(bool(nbconfig.BOUNDSCHECK), "sanitizer-off", "the kernels are not compiled with bounds checks")
    names = ops.LARGE_NAMES if ctx.large else ops.NAMES
    name = names[ctx.idx % len(names)]
    for k in range(3):
        seed = ctx.integer(0, 10**6)
        shapes = shapes_of(ctx)
        th, m = ops.build(name, seed, None, ctx.path(f"{k}"), shapes)
        r = ctx.run(th)
        ctx.ok(r is not NotImplemented, "no-result", name)
        ctx.ev("bounds-checked operations")
        ctx.sig("bounds", name, m.shape, seed % 97)
    ctx.sample(operation=name, shape=m.shape)


@scenario("C25", quick=len(ops.NAMES) * 3, thorough=len(ops.NAMES) * 40, large=LARGE)
def guard_pages(ctx):
    names = ops.LARGE_NAMES if ctx.large else ops.NAMES
    name = names[ctx.idx % len(names)]
    seed = ctx.integer(0, 10**6)
    shapes = shapes_of(ctx)
    got = []
    for where in ("start", "end"):
        place, release = guarded(where)
        th, m = ops.build(name, seed, place, ctx.path(where), shapes)
        got.append(ops.digest(ctx.run(th)))
        ctx.ev("operations between guard pages")
        ctx.ev("guarded arrays", len(m.inputs))
        del th, m
        release()
    ctx.ok(got[0] == got[1], "outside-read", f"{name}: the result depends on what surrounds its arrays")
    ctx.sig("guard", name, seed % 97)


@scenario("C25", quick=len(ops.NAMES) * 3, thorough=len(ops.NAMES) * 40, large=LARGE)
def canary_margins(ctx):
    names = ops.LARGE_NAMES if ctx.large else ops.NAMES
    name = names[ctx.idx % len(names)]
    seed = ctx.integer(0, 10**6)
    shapes = shapes_of(ctx)
    got = []
    for fill in (np.nan, 1e250):
        keep = []
        th, m = ops.build(name, seed, margins(fill, keep), ctx.path(f"{fill}"), shapes)
        got.append(ops.digest(ctx.run(th)))
        for big, win, before, inner in keep:
            ctx.eq(win, inner, "argument-written", f"{name}: an array argument")
            ctx.eq(big, before, "outside-write", f"{name}: the surroundings of an array argument")
            ctx.ev("margins checked")
        ctx.ev("operations inside canary margins")
    ctx.ok(got[0] == got[1], "outside-read", f"{name}: the result depends on what surrounds its arrays")
    ctx.sig("margin", name, seed % 97)


def drive(ctx, tag, calls, dirty=None, guard=None, **env):
    folder = ctx.path(tag)
    os.makedirs(folder)
    job, out = ctx.path(tag + ".json"), ctx.path(tag + ".out")
    json.dump(dict(folder=folder, calls=calls, dirty=dirty, guard=guard), open(job, "w"))
    e = {k: v for k, v in os.environ.items() if k != "NUMBA_BOUNDSCHECK"}
    e.update(env)
    e["TMPDIR"] = folder
    p = subprocess.Popen([sys.executable, "-B", "-m", "mon.opsdrv", job, out], cwd=HERE, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
    return p, out


def collect(ctx, p, out, timeout=280):
    try:
        err = p.communicate(timeout=timeout)[1]
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        from mon.core import Inconclusive

        raise Inconclusive("operation driver did not finish")
    if p.returncode != 0 or not os.path.exists(out):
        ctx.fail("crash", f"a process running the operations ended with status {p.returncode}", stderr=err[-1500:].decode(errors="replace"))
    return json.load(open(out))


PATTERNS = ((0x55, 0xAA), (0x3F, 0xC0), (0x41, 0xFF), (0x01, 0x7F))


def some_calls(ctx, part, reps):
    calls = []
    for n in part:
        for _ in range(2 if n in ("plots", "f_chunk") else reps):
            calls.append([n, ctx.integer(0, 10**6), ctx.pick(("big", "big", "small"))])
        if n in ops.LARGE_NAMES:
            calls.append([n, ctx.integer(0, 10**6), "large"])
    return [calls[i] for i in ctx.rng.permutation(len(calls))]


@scenario("C25", quick=6, thorough=48, cpu=600)
def poisoned_heap(ctx):
    part = [n for i, n in enumerate(ops.NAMES) if i % 6 == ctx.idx % 6]
    calls = some_calls(ctx, part, 10 if ctx.tier == "quick" else 30)
    a, b = ctx.pick(PATTERNS)
    runs = [drive(ctx, f"h{v}", calls, dirty=v, MALLOC_PERTURB_=str(v)) for v in (a, b)]
    x, y = (collect(ctx, *r) for r in runs)
    for c, p, q in zip(calls, x, y):
        ctx.ok(not p.startswith("raised") and not q.startswith("raised"), "raised", f"{c}: {p} / {q}")
        ctx.ok(p == q, "stale-memory", f"{c[0]} (seed {c[1]}, {c[2]}): the result depends on the heap's previous content ({a:#x} or {b:#x})")
        ctx.ev("poisoned-heap pairs")
        ctx.sig("poison", c[0], c[1] % 97, c[2])
    ctx.sample(patterns=(a, b), operations=part)


@scenario("C25", quick=6, thorough=48, cpu=600)
def guarded_allocations(ctx):
    """Every array numpy makes, inside the operations too, lies between
    inaccessible pages: at the end of its pages in two processes, on memory of
    different contents, at the start in another; freed arrays are inaccessible."""
    part = [n for i, n in enumerate(ops.NAMES) if i % 6 == ctx.idx % 6]
    calls = some_calls(ctx, part, 8 if ctx.tier == "quick" else 30)
    so = guardmem.compile_to(ctx.path("guard.so"))
    a, b = ctx.pick(PATTERNS)
    runs = [drive(ctx, f"g{end}-{v}", calls, guard=[so, end, v]) for end, v in ((1, a), (1, b), (0, b))]
    x, y, z = (collect(ctx, *r) for r in runs)
    # the third is not compared: the alignment of the arrays may change how sums are rounded
    for c, p, q, r in zip(calls, x, y, z):
        ctx.ok(not any(v.startswith("raised") for v in (p, q, r)), "raised", f"{c}: {p} / {q} / {r}")
        ctx.ok(p == q, "stale-memory", f"{c[0]} (seed {c[1]}, {c[2]}): the result depends on what fresh memory holds ({a:#x} or {b:#x})")
        ctx.ev("operations with every array guarded", 3)
        ctx.sig("guarded", c[0], c[1] % 97, c[2])
    for _, out in runs:
        ctx.ev("arrays allocated between guard pages", json.load(open(out + ".counts"))[0])
    ctx.sample(patterns=(a, b), operations=part)
