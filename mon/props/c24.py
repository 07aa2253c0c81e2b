import numpy as np

import micropolarray as ml
from micropolarray.polarization_functions import normalize2pi as n2
from mon import gen, ref
from mon.core import scenario


def angles_deg(ctx, n):
    r = ctx.rng
    out = []
    for _ in range(n):
        k = ctx.integer(0, 5)
        if k == 0:
            out.append(90 * ctx.integer(-40, 40))
        elif k == 1:
            out.append(float(90 * ctx.integer(-9, 9)) + ctx.pick((1e-9, -1e-9, 1e-5, -1e-5)))
        elif k == 2:
            out.append(float(r.uniform(-90, 90)))
        elif k == 3:
            out.append(float(r.uniform(-2e5, 2e5)))
        elif k == 4:
            out.append(ctx.pick((0, -0.0, 90, -90, 90.0, -90.0, 180, -180, 270, -270, 135, np.float64(100), np.int64(-100))))
        else:
            out.append(float(r.normal(0, 400)))
    return out


def judge(ctx, got, src, half, period, what, tol):
    got = np.asarray(got, float)
    src = np.asarray(src, float)
    ctx.ok(got.shape == src.shape, "wrong-shape", f"{what}: {got.shape} for {src.shape}")
    ctx.ok(np.all((got > -half) & (got <= half)), "out-of-range", what, got=got, src=src)
    k = (got - src) / period
    err = np.abs(k - np.rint(k)) * period
    ctx.ok(np.all(err <= tol * (1 + np.abs(src))), "wrong-angle", what, got=got, src=src)
    # angles already in range stay (an edge within rounding may take the other name)
    inside = (np.abs(src) < half - 1e-9) | (src == half)
    ctx.close(got[inside], src[inside], "wrong-angle", what + ": angles already in range change", rtol=0, atol=tol * (1 + half))


def again(ctx, second, first, half, what):
    """Normalizing a second time changes nothing."""
    second, first = np.asarray(second, float), np.asarray(first, float)
    ctx.ok(second.shape == first.shape and np.all((second > -half) & (second <= half)), "out-of-range", f"{what} a second time", got=second, src=first)
    if second.shape == first.shape:
        sure = (np.abs(first) < half - 1e-9) | (first == half)
        ctx.close(second[sure], first[sure], "not-idempotent", what, rtol=0, atol=1e-11 * (1 + half))


@scenario("C24", quick=500, thorough=8000, large=(8, 80, 20000))
def degrees(ctx):
    fn = ctx.pick((ml.normalize2pi, n2))
    if not ctx.large and ctx.chance(0.25):
        a = angles_deg(ctx, 1)[0]
        r = ctx.run(fn, a)
        ctx.ok(len(np.ravel(r)) == 1, "wrong-shape", "scalar input")
        judge(ctx, np.ravel(r), [a], 90, 180, f"scalar {a}", 1e-11)
        r2 = ctx.run(fn, r)
        again(ctx, r2, r, 90, "scalar")
        ctx.ev("scalars")
    else:
        a = angles_deg(ctx, ctx.integer(1000, ctx.large) if ctx.large else ctx.integer(0, 30) if ctx.chance(0.1) else ctx.integer(1, 12))
        keep = list(a)
        r = ctx.run(fn, a)
        ctx.ok(a == keep and len(a) == len(keep), "input-changed", "the caller's list was modified", before=keep, after=a)
        judge(ctx, r, keep, 90, 180, "list", 1e-11)
        r_copy = list(r)
        r2 = ctx.run(fn, r)
        again(ctx, r2, r_copy, 90, "list")
        ctx.eq(r, r_copy, "input-changed", "the second call changed the first result")
        ctx.ev("list elements", len(keep))
    ctx.sig(fn.__module__, str(a)[:60])
    ctx.sample(angles=a, normalized=r)


@scenario("C24", quick=400, thorough=8000, large=(8, 80, 300000))
def radians(ctx):
    shp = ctx.pick(((), (1,), (7,), (3, 4), (2, 3, 2), (0,), (5, 1)))
    if ctx.large:
        shp = gen.dims(ctx)
    n = int(np.prod(shp))
    src = np.deg2rad(np.array(angles_deg(ctx, min(n, 997)), dtype=float))
    src = np.resize(src, shp)
    if shp == ():
        a = src = np.float64(np.deg2rad(angles_deg(ctx, 1)[0])) if ctx.chance(0.5) else np.array(np.deg2rad(angles_deg(ctx, 1)[0]))
    else:
        a = src.copy() if ctx.chance(0.7) else np.asfortranarray(src)
    keep = np.array(a, copy=True)
    r = ctx.run(ml.normalize2piarray, a)
    ctx.eq(a, keep, "input-changed", "the caller's array was modified")
    judge(ctx, r, keep, np.pi / 2, np.pi, "array", 1e-11)
    keep_r = np.array(r, copy=True)
    again(ctx, ctx.run(ml.normalize2piarray, r), keep_r, np.pi / 2, "array")
    if n:
        r[...] if isinstance(r, np.ndarray) else None
    ctx.ev("array elements", n or 1)
    ctx.sig(shp, str(np.ravel(keep)[:4]))
