"""Workload generators."""
import itertools

import numpy as np

ANGLES = (0, 45, -45, 90)
DEFAULT_DIC = {0: 0, 45: 1, -45: 2, 90: 3}


def angle_dic(ctx):
    perm = [int(v) for v in ctx.rng.permutation(4)]
    items = list(zip(ANGLES, perm))
    order = ctx.rng.permutation(4)
    return {items[i][0]: items[i][1] for i in order}


ALL_DICS = [dict(zip(ANGLES, p)) for p in itertools.permutations(range(4))]


def even(ctx, lo=1, hi=20):
    return 2 * ctx.integer(lo, hi)


def big_shape(ctx):
    """The sizes of the _large scenarios: long and thin, hundreds a side, camera frames."""
    m = ctx.large
    long = min(2200, m // 16)
    kinds = ["tall", "wide", "mid", "mid"]
    if m >= 1952 * 1952:
        kinds.append("camera")
    if m >= 3000 * 4096:
        kinds.append("kasi")
    k = kinds[ctx.idx % len(kinds)]
    if k == "camera":
        return 1952, 1952
    if k == "kasi":
        return 3000, 4096
    if k == "mid":
        s = int(min(640, m**0.5)) // 2
        return 2 * ctx.integer(s // 2, s), 2 * ctx.integer(s // 2, s)
    a, b = 2 * ctx.integer(1, 4), 2 * ctx.integer(long // 2, long)
    return (b, a) if k == "tall" else (a, b)


def dims(ctx, lo=1, hi=20, hi2=None):
    """A shape with sides of any parity."""
    if ctx.large:
        h, w = big_shape(ctx)
        return h - ctx.integer(0, 1), w - ctx.integer(0, 1)
    return ctx.integer(lo, hi), ctx.integer(lo, hi2 or hi)


def shape(ctx, lo=1, hi=20, square=False):
    """Even-sided shape; small, thin and larger ones are all frequent."""
    if ctx.large:
        h, w = big_shape(ctx)
        s = 2 * int((h * w) ** 0.5 / 2)
        return (s, s) if square else (h, w)
    k = ctx.integer(0, 9)
    if k == 0:
        h = w = 2 * lo
    elif k == 1:
        h, w = 2 * lo, even(ctx, lo, hi)
    elif k == 2:
        h, w = even(ctx, lo, hi), 2 * lo
    elif k == 3:
        h = w = even(ctx, lo, hi)
    else:
        h, w = even(ctx, lo, hi), even(ctx, lo, hi)
    if square:
        w = h
    return h, w


KINDS = ("ids", "uint12", "uniform", "signed", "wide", "sparse", "constant", "ramp", "normal")


def values(ctx, shp, kind=None):
    """float64 pixel values of a given kind."""
    r = ctx.rng
    kind = kind or ctx.pick(KINDS)
    n = int(np.prod(shp))
    if kind == "ids":  # every pixel unique, all sums exact
        a = r.permutation(n).astype(float) + 1
    elif kind == "uint12":
        a = r.integers(0, 4096, n).astype(float)
    elif kind == "uniform":
        a = r.random(n) * 4095
    elif kind == "signed":
        a = r.normal(0, 300, n)
    elif kind == "wide":
        a = 10 ** r.uniform(-6, 8, n)
    elif kind == "sparse":
        a = np.where(r.random(n) < 0.3, r.integers(1, 4096, n), 0).astype(float)
    elif kind == "constant":
        a = np.full(n, float(r.integers(0, 4096)))
    elif kind == "ramp":
        y, x = np.mgrid[0 : shp[0], 0 : shp[1]]
        a = (r.integers(-9, 10) * y + r.integers(-9, 10) * x + r.integers(0, 500)).astype(float).ravel()
    elif kind == "normal":
        a = r.normal(2000, 50, n)
    else:
        raise ValueError(kind)
    return a.reshape(shp)


def positive(ctx, shp):
    return ctx.rng.uniform(100, 4000, shp)


def layout(ctx, a):
    """Same values, another memory layout (callers pass slices and transposes)."""
    k = ctx.integer(0, 5)
    if k == 0:
        return np.asfortranarray(a)
    if k == 1:
        b = np.zeros((a.shape[0] + 3, a.shape[1] + 5), dtype=a.dtype)
        b[2:-1, 1:-4] = a
        return b[2:-1, 1:-4]
    if k == 2 and ctx.chance(0.6):
        return fits_order(a)
    return np.ascontiguousarray(a)


def fits_order(a):
    """Big-endian, as FITS readers hand arrays out."""
    return np.asarray(a).astype(a.dtype.newbyteorder(">"))


def typed(ctx, a, dtypes=("float64", "int64", "uint16", "float32", "int32", "uint8")):
    """Values representable in the chosen dtype."""
    dt = np.dtype(ctx.pick(dtypes))
    if dt.kind == "u":
        m = np.iinfo(dt).max
        return np.mod(np.abs(np.rint(a)), m + 1).astype(dt)
    if dt.kind == "i":
        i = np.iinfo(dt)
        return np.clip(np.rint(a), max(i.min, -2e9), min(i.max, 2e9)).astype(dt)
    return a.astype(dt)


def image_array(ctx, shp=None, lo=1, hi=20, kind=None, dtypes=None, layouts=True):
    shp = shp or shape(ctx, lo, hi)
    a = values(ctx, shp, kind)
    if dtypes is None:
        dtypes = ("float64",) * 8 + ("int64", "uint16", "float32") * 2 + ("int16", "uint8", "int32")
    a = typed(ctx, a, dtypes)
    return layout(ctx, a) if layouts else a


CAMERA = dict(
    TELESCOP=("ASPIICS", "Antarticor", "METIS"),
    INSTRUME=("PolarCam", "Kasi", "EB-4710"),
    DETECTOR=("CCD", "CMOS 5MP"),
    OBJECT=("Sun", "dark", "flat", "lamp 3"),
    OBSERVER=("A. Bc", "d'Ef"),
    FILTER=("white", "590 nm"),
    EXPTIME=(0.001, 0.25, 10.0, 100),
    GAIN=(1, 2, 4, 0.93),
    TEMP=(-40.0, -5, 21.5),
    CAMERA=(0, 1, 2),
    BINNING=(1, 2),
    SEQUENCE=(7, 20231204, "S-12"),
)


def header(ctx, n=None):
    """Keyword/value pairs of the kinds cameras write."""
    out = {}
    for key in CAMERA:
        if ctx.chance(0.2):
            out[key] = ctx.pick(CAMERA[key])
    for i in range(ctx.integer(1, 6) if n is None else n):
        key = f"KEY{ctx.integer(0, 99)}"
        out[key] = ctx.pick(
            [int(ctx.integer(-1000, 100000)), float(round(ctx.rng.normal(0, 100), 6)), f"text {ctx.integer(0, 999)}", bool(ctx.integer(0, 1))]
        )
    return out
