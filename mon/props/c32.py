"""Statistics and radiometric helpers against textbook values."""
import contextlib
import io
import math
from fractions import Fraction

import numpy as np
from scipy import ndimage

import micropolarray as ml
from mon import gen
from mon.core import scenario


def exact(v):
    return [Fraction(float(x)) for x in np.ravel(v)]


def median(v):
    s = sorted(v)
    n = len(s)
    return s[n // 2] if n % 2 else (s[n // 2 - 1] + s[n // 2]) / 2


@scenario("C32", quick=500, thorough=60000, large=(8, 80, 40000))
def statistics(ctx):
    shp = ctx.pick(((ctx.integer(1, 40),), (ctx.integer(1, 9), ctx.integer(1, 9)), (2, 3, ctx.integer(1, 5))))
    if ctx.large:
        shp = gen.dims(ctx) if ctx.chance(0.5) else (ctx.integer(5000, ctx.large),)
    two = shp if len(shp) == 2 else (1, math.prod(shp))
    a = gen.layout(ctx, gen.typed(ctx, gen.values(ctx, two), dtypes=("float64", "int64", "uint16", "int32", "uint8")))
    a = a.reshape(shp)
    if ctx.chance(0.2) and a.dtype.kind == "f":
        a = a - 5000  # negative values
    keep = np.array(a)
    n = ctx.pick((None, 0, 1, 2, 3, 0.5, 7, -1))
    args = () if n is None else (n,)
    k = 1 if n is None else n
    v = exact(a)
    mean = sum(v) / len(v)
    std = math.sqrt(sum((x - mean) ** 2 for x in v) / len(v))
    med = median(v)
    mad = median([abs(x - med) for x in v])
    sc = max(1e-300, max(abs(float(x)) for x in v))
    for f, w in (
        (ml.mean_plus_std, float(mean) + k * std),
        (ml.mean_minus_std, float(mean) - k * std),
        (ml.median_plus_std, float(med) + k * float(mad)),
        (ml.median_minus_std, float(med) - k * float(mad)),
    ):
        ctx.close(ctx.run(f, a, *args), w, "wrong-statistic", f"{f.__name__} n={n}", rtol=1e-9, scale=sc)
        ctx.close(ctx.run(f, a, stds_n=k), w, "wrong-statistic", f"{f.__name__} stds_n={k}", rtol=1e-9, scale=sc)
        ctx.ev("statistics checked")
    ctx.eq(a, keep, "operand-changed", "the input data")
    ctx.sig("stat", a.shape, str(a.dtype), n, float(np.sum(keep, dtype=float)))
    ctx.sample(shape=a.shape, dtype=str(a.dtype), n=n)


@scenario("C32", quick=8, thorough=80, cpu=240)
def frames(ctx):
    """Images of a camera's size, against numpy's own statistics in double precision."""
    h, w = ctx.integer(800, 2300), ctx.integer(800, 2300)
    a = ctx.rng.normal(1000, 200, (h, w)) + np.linspace(0, 3000, w)
    a[:, ctx.integer(0, 1) :: 2] *= 1.7  # columns unlike each other
    a = a.astype(ctx.pick(("float64", "float64", "int32", "uint16")))
    keep = a.copy()
    n = ctx.pick((0, 1, 2.5, 4))
    v = a.astype(float).ravel()
    mean, std, med = v.mean(), v.std(), np.median(v)
    mad = np.median(np.abs(v - med))
    for f, e in ((ml.mean_plus_std, mean + n * std), (ml.mean_minus_std, mean - n * std), (ml.median_plus_std, med + n * mad), (ml.median_minus_std, med - n * mad)):
        ctx.close(ctx.run(f, a, stds_n=n), e, "wrong-statistic", f"{f.__name__} n={n} of {h}x{w}", rtol=1e-9)
        ctx.ev("statistics checked")
    x = np.abs(v[: h * w])
    ctx.close(ctx.run(ml.sigma_DN, x), np.sqrt(x / 6.93), "wrong-noise", f"sigma_DN of {x.size} values", rtol=1e-6)
    ctx.eq(a, keep, "operand-changed", "the input data")
    ctx.ev("frames with more than a million pixels", h * w > 2**20)
    ctx.sig("frame", h, w, str(a.dtype), n)


@scenario("C32", quick=300, thorough=40000, large=(6, 60, 40000))
def radiometry(ctx):
    u = lambda: float(10 ** ctx.rng.uniform(-4, 4))
    D, ti, td = u(), u(), u()
    if ctx.chance(0.3):  # whole numbers, as in headers
        D, ti, td = ctx.integer(1, 4096), ctx.integer(1, 30), ctx.integer(1, 30)
    got = ctx.run(ml.get_Bsun_units, D, ti, td)
    ctx.close(got, 1.083e-5 * 0.28 * td / (ti * D), "wrong-unit", "get_Bsun_units", rtol=1e-9)
    ctx.close(ctx.run(ml.get_Bsun_units, D, texp_diffuser=td, texp_image=ti), got, "wrong-unit", "by keyword", rtol=1e-12)
    ctx.close(ctx.run(ml.get_Bsun_units, D, ti), 1.083e-5 * 0.28 / (ti * D), "wrong-unit", "default diffuser exposure", rtol=1e-9)
    ctx.close(ctx.run(ml.get_Bsun_units, D), 1.083e-5 * 0.28 / D, "wrong-unit", "default exposures", rtol=1e-9)
    # photon noise: Poisson statistics at 6.93 electrons a count
    x = gen.typed(ctx, np.abs(gen.values(ctx, (1, ctx.integer(1, ctx.large or 20)))).ravel(), dtypes=("float64", "int64", "uint16", "int32", "uint8"))
    s = ctx.run(ml.sigma_DN, x)
    e = np.sqrt(np.asarray(x, float) / 6.93)
    ctx.close(s, e, "wrong-noise", "sigma_DN", rtol=1e-6 if x.dtype.itemsize > 1 else 1e-3)
    one = float(x[0])
    ctx.close(ctx.run(ml.sigma_DN, 4 * one), 2 * ctx.run(ml.sigma_DN, one), "wrong-noise", "four times the signal", rtol=1e-9, atol=1e-12)
    ctx.ev("radiometric values checked")
    ctx.sig("radio", D, ti, td)


@scenario("C32", quick=12, thorough=1500, cpu=240)
def threshold(ctx):
    n, m = ctx.integer(30, 60), ctx.integer(30, 60)
    lo = float(ctx.pick((0, 1, 20, -50, 1000)))
    sep = float(ctx.pick((0.5, 40, 80, 1500)))
    s = sep / 40
    top = np.zeros((n, m), bool)
    f = ctx.rng.uniform(0.3, 0.7)
    how = ctx.pick(("rows", "columns", "disc"))
    if how == "rows":
        top[: int(f * n)] = True
    elif how == "columns":
        top[:, : int(f * m)] = True
    else:
        y, x = np.mgrid[:n, :m]
        top = (y - n / 2) ** 2 + (x - m / 2) ** 2 < (0.42 * min(n, m)) ** 2
    if ctx.chance(0.5):
        top = ~top
    a = np.where(top, lo + sep, lo) + ctx.rng.uniform(-s, s, (n, m))
    if sep >= 40 and ctx.chance(0.5):
        a = np.round(a).astype(ctx.pick(("int64", "int32", "float64")))
    keep = np.array(a)
    with contextlib.redirect_stdout(io.StringIO()):
        t = ctx.run(ml.auto_threshold, a)
    # the function judges the image after a 10-pixel median filter: away from
    # the populations' border its values must fall on their own sides
    flt = ndimage.median_filter(np.asarray(keep, float), size=10)
    hi_in = ndimage.binary_erosion(top, iterations=6, border_value=1)
    lo_in = ndimage.binary_erosion(~top, iterations=6, border_value=1)
    ctx.ok(np.all(flt[lo_in] < t) and np.all(flt[hi_in] >= t), "not-separated", f"threshold {t} of populations at {lo} and {lo + sep}",
           low=[flt[lo_in].min(), flt[lo_in].max()], high=[flt[hi_in].min(), flt[hi_in].max()])
    ctx.ev("filtered pixels classified", int(lo_in.sum() + hi_in.sum()))
    ctx.eq(a, keep, "operand-changed", "the input data")
    ctx.ev("thresholds checked")
    ctx.sig("thr", how, lo, sep, n, m)


@scenario("C32", quick=40, thorough=5000, cpu=240)
def malus(ctx):
    n = ctx.integer(80, 160)
    R = float(10 ** ctx.rng.uniform(0, 5))
    mu = R * ctx.rng.uniform(0.1, 0.9)
    sg = R * ctx.rng.uniform(0.001, 0.004)
    S = ctx.rng.normal(mu, sg, (n, n))
    out = ctx.rng.random((n, n)) < ctx.pick((0.01, 0.1, 0.3))
    S = np.where(out, ctx.rng.uniform(0, R, (n, n)), S)
    S[0, 0], S[-1, -1] = 0, R
    off = float(ctx.pick((0, 0, R)))
    # four images that add up to twice S, each a different share
    w = ctx.rng.uniform(0.1, 1, 4)
    w /= w.sum()
    images = np.array([2 * (S + off) * k for k in w])
    if ctx.chance(0.3):
        images = list(images)
    r = ctx.run(ml.get_malus_normalization, images)
    z = (r - off - mu) / sg
    ctx.ok(2 <= z <= 4, "wrong-normalisation", f"{z:.2f} standard deviations from the peak (relative width {sg / R:.4f})")
    ctx.ev("normalisations checked")
    ctx.sig("malus", n, R, mu, sg)
