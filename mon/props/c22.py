"""C22: the occulter finders locate the occulter."""
import contextlib
import io

import numpy as np

from micropolarray.processing.nrgf import find_occulter_hough, find_occulter_position
from mon import ref
from mon.core import scenario


def quiet(fn, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        return fn(*a, **k)


def scene(ctx, centred=True, shp=None):
    """Dark disc on a brighter background; the disc covers the image centre when centred."""
    r = ctx.rng
    k = ctx.integer(0, 3)
    if k == 0:
        h = w = ctx.integer(100, 260)
    elif k == 1:  # clearly wide or tall
        h, w = ctx.integer(100, 140), ctx.integer(200, 300)
        if ctx.chance(0.5):
            h, w = w, h
    else:
        h, w = ctx.integer(100, 260), ctx.integer(100, 260)
    if shp:
        h, w = shp
    rad = r.uniform(0.2, 0.33) * min(h, w)
    if centred:
        y, x = h / 2 + r.uniform(-0.2, 0.2) * rad, w / 2 + r.uniform(-0.2, 0.2) * rad
    else:
        y, x = r.uniform(rad + 8, h - rad - 8), r.uniform(rad + 8, w - rad - 8)
    inner, soft, lvl = r.uniform(0.02, 0.045), r.uniform(1, 1.6), 10 ** r.uniform(2.5, 4)
    yy, xx = np.mgrid[0:h, 0:w]
    d = np.hypot(yy - y, xx - x)
    a = lvl * (inner + 1 / (1 + np.exp(-(d - rad) / soft)))
    a += r.normal(0, lvl * inner * 0.15 * r.random(), a.shape)
    if ctx.chance(0.3):
        a = np.rint(a).astype(ctx.pick(("int64", "uint16")))
    return a, h, w, y, x, rad, soft


TOL = {"sigmoid": (2.0, 4.5), "algo": (2.5, 9.0), "hough": (2.0, 2.5)}


def judge(ctx, m, got, y, x, rad, what, more=0.0):
    got = [float(v) for v in got]
    ctx.ok(len(got) == 3, "wrong-result", f"{m} returned {got}")
    tc, tr = TOL[m]
    ctx.ok(abs(got[0] - y) <= tc and abs(got[1] - x) <= tc, "wrong-centre", f"{m}: centre {got[:2]}, occulter at ({y:.1f}, {x:.1f}), {what}")
    ctx.ok(-tr - more <= got[2] - rad <= tr, "wrong-radius", f"{m}: radius {got[2]}, occulter's {rad:.1f}, {what}")
    ctx.ev(f"occulters located by {m}")


@scenario("C22", quick=240, thorough=4000)
def by_profile(ctx):
    a, h, w, y, x, rad, soft = scene(ctx)
    m = ("sigmoid", "algo")[ctx.idx % 2]
    a0 = a.copy()
    got = ctx.run(quiet, find_occulter_position, a) if m == "sigmoid" and ctx.chance(0.5) else ctx.run(quiet, find_occulter_position, a, method=m)
    judge(ctx, m, got, y, x, rad, f"{h}x{w}")
    ctx.eq(a, a0, "argument-changed", "image")
    ctx.sig(m, h, w, round(y, 1), round(x, 1), round(rad, 1))
    ctx.sample(method=m, shape=(h, w), occulter=(y, x, rad), found=got)


@scenario("C22", quick=12, thorough=150, cpu=600)
def camera_frames(ctx):
    """Frames of a camera's size, the occulter hundreds of pixels across."""
    h, w = ctx.pick(((1952, 1952), (1200, 1600), (2048, 1024), (900, 2200), (1000, 1000), (3000, 4096)))
    a, h, w, y, x, rad, soft = scene(ctx, shp=(h, w))
    for m in ("sigmoid", "algo"):
        judge(ctx, m, ctx.run(quiet, find_occulter_position, a, method=m), y, x, rad, f"{h}x{w}", 0.021 * rad)  # four half chords, up to 2% shorter off the centre
    ctx.ev("camera frames searched")
    ctx.ev("occulters over 300 pixels", rad > 300)
    ctx.sig(h, w, round(y, 1), round(x, 1), round(rad, 1))


@scenario("C22", quick=160, thorough=2500)
def by_hough(ctx):
    """Anywhere in the image."""
    a, h, w, y, x, rad, soft = scene(ctx, centred=False)
    a0 = a.copy()
    kw = {}
    if ctx.chance(0.3):
        f = ctx.pick((int, float, np.float32))  # floats, as annotated
        kw = dict(minr=f(rad * 0.6), maxr=f(rad * 1.6))
    got = ctx.run(quiet, find_occulter_hough, a, **kw)
    judge(ctx, "hough", got, y, x, rad, f"{h}x{w} {kw}")
    ctx.eq(a, a0, "argument-changed", "image")
    ctx.sig(h, w, round(y, 1), round(x, 1), round(rad, 1), bool(kw))


@scenario("C22", quick=60, thorough=800)
def moves_along(ctx):
    """The same disc moved by whole pixels is found moved by as much."""
    a, h, w, y, x, rad, soft = scene(ctx)
    n = 3 if rad >= 25 else 1  # the threshold walk needs a dozen dark pixels from the image centre
    dy, dx = ctx.integer(-n, n), ctx.integer(-n, n)
    b = np.full((h, w), a.max())
    yy, xx = np.mgrid[0:h, 0:w]
    b = np.roll(a, (dy, dx), axis=(0, 1))
    for m in ("sigmoid", "algo", "hough"):
        f = (lambda z: find_occulter_hough(z)) if m == "hough" else (lambda z: find_occulter_position(z, m))
        ga, gb = ctx.run(quiet, f, a), ctx.run(quiet, f, b)
        ctx.ok(abs(gb[0] - ga[0] - dy) <= 3 and abs(gb[1] - ga[1] - dx) <= 3, "wrong-centre", f"{m}: disc moved by {dy}, {dx}, found moved by {gb[0] - ga[0]}, {gb[1] - ga[1]}")
    ctx.ev("moved discs")
    ctx.sig(h, w, dy, dx, round(rad, 1))


def first_bright(v, thr):
    """Index of the first value above thr times the mean of those before it, past the first few."""
    v = np.asarray(v, float)
    before = np.concatenate(([0.0], np.cumsum(v)[:-1])) / np.maximum(np.arange(len(v)), 1)
    k = np.nonzero((v > thr * before) & (np.arange(len(v)) > 5))[0]
    return int(k[0]) if len(k) else None


@scenario("C22", quick=200, thorough=4000)
def walk(ctx):
    """The threshold walk by its own rule, also over wide edges and with other thresholds."""
    h, w = ctx.integer(100, 420), ctx.integer(100, 420)
    rad = ctx.rng.uniform(0.15, 0.4) * min(h, w)
    y, x = h / 2 + ctx.rng.uniform(-0.2, 0.2) * rad, w / 2 + ctx.rng.uniform(-0.2, 0.2) * rad
    soft, inner = ctx.pick((1.0, 3.0, 8.0, 14.0)), ctx.rng.uniform(0.01, 0.05)
    thr = ctx.pick((None, 4.0, 2.0, 3, 6.5))
    yy, xx = np.mgrid[0:h, 0:w]
    a = 10 ** ctx.rng.uniform(2, 4) * (inner + 1 / (1 + np.exp(-(np.hypot(yy - y, xx - x) - rad) / soft)))
    if ctx.chance(0.5):
        a *= 1 + 0.05 * ctx.rng.normal(0, 1, a.shape)
    t = 4.0 if thr is None else thr
    cy, cx = h // 2, w // 2
    arms = [a[:cy, cx][::-1], a[cy:, cx], a[cy, :cx][::-1], a[cy, cx:]]
    lo, hi = [first_bright(v, t * (1 - 1e-9)) for v in arms], [first_bright(v, t * (1 + 1e-9)) for v in arms]
    if None in lo or lo != hi:
        if lo == hi:
            ctx.refuses(quiet, find_occulter_position, a, "algo", t, what=f"no edge above {t} times the mean")
        ctx.comparisons += 1
        ctx.ev("walks without an edge")
        ctx.sig("none", h, w)
        return
    u, d, l, r = lo
    exp = [cy + (d - u) / 2, cx + (r - l) / 2, (u + d + l + r) / 4]
    kw = {} if thr is None else {"threshold": thr}
    got = [float(v) for v in ctx.run(quiet, find_occulter_position, a, method="algo", **kw)]
    ctx.close(got, exp, "wrong-walk", f"walk with threshold {thr} over an edge of {soft}: centre and radius", rtol=0, atol=1.01)
    ctx.ev("walks checked")
    ctx.ev("walks over wide edges", soft >= 8)
    ctx.sig(h, w, round(rad, 1), soft, thr)
