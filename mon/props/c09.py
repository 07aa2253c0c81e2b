import operator

import numpy as np

import micropolarray as ml
from mon import gen
from mon.core import scenario
from mon.props.c08 import dirty_heap

OPS = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv}


def operand(ctx, shp, zeros):
    a = gen.values(ctx, shp, ctx.pick(("uniform", "signed", "ids", "wide", "normal")))
    a = np.where(a == 0, 1.0, a)
    if zeros:
        a = np.where(ctx.rng.random(shp) < 0.3, 0.0, a)
    if ctx.chance(0.1):  # physical units: very small and very large numbers
        return a * 10 ** ctx.rng.uniform(-20, 12, shp if ctx.chance(0.5) else None)
    dt = ctx.pick(("float64",) * 4 + ("int64", "float32", "uint16", "uint8", "int16"))
    if dt in ("uint16", "uint8", "int16"):
        return np.where(a == 0, 0, 1 + np.mod(np.abs(np.rint(a)), {"uint16": 65535, "uint8": 255, "int16": 32767}[dt])).astype(dt)
    if dt == "int64":
        a = np.clip(np.rint(a), -1e6, 1e6)
        a = np.where(a == 0, 0 if zeros else 1, a)
    return a.astype(dt)


def single_precision(*operands):
    """Whether the operation may be done in less than double precision."""
    return any(np.asarray(x).dtype.kind == "f" and np.asarray(x).dtype != np.float64 for x in operands) or all(
        np.asarray(x).dtype.itemsize < 4 for x in operands
    )


@scenario("C09", quick=600, thorough=12000, large=(40, 200, 500000))
def arithmetic(ctx):
    cls = ctx.pick((ml.MicropolImage, ml.MicropolImage, ml.Image))
    shp = gen.shape(ctx, 1, 10) if cls is ml.MicropolImage else gen.dims(ctx, 1, 15)
    name = list(OPS)[ctx.idx % 4]
    zeros = name == "/" and ctx.chance(0.6)
    a = operand(ctx, shp, ctx.chance(0.3))
    form = ctx.pick(("image", "array", "number", "same"))
    A = ctx.run(cls, a)
    if form == "image":
        b = operand(ctx, shp, zeros)
        B = ctx.run(cls, b)
    elif form == "same":
        b, B = a, A
    elif form == "array":
        b = B = operand(ctx, shp, zeros)
    else:
        b = ctx.pick((2, -3, 49, 10, 0.5, 1e-3, 1, np.float64(4.25), np.float32(1.5), np.int64(3), 10 ** ctx.rng.uniform(-20, 18), -(10 ** ctx.rng.uniform(-14, -6))))
        if zeros and ctx.chance(0.5):
            b = ctx.pick((0, 0.0, np.float64(0)))
        B = b
    dirty_heap(ctx.rng)
    r = ctx.run(OPS[name], A, B)
    ctx.ok(type(r) is cls, "wrong-class", f"{cls.__name__} {name} {form} gives {type(r).__name__}")
    ctx.ok(r.data.shape == shp, "wrong-shape", f"{r.data.shape}")
    if name == "/":
        bb = np.broadcast_to(np.asarray(b, float), shp)
        nz = bb != 0
        exp = np.asarray(a, float)[nz] / bb[nz]
        ctx.close(r.data[nz], exp, "wrong-arithmetic", f"{cls.__name__} / {form}", rtol=1e-6 if "float32" in (str(a.dtype), str(getattr(b, "dtype", ""))) else 1e-12, atol=0)
        if not single_precision(a, b):
            ctx.eq(np.asarray(r.data, float)[nz], exp, "wrong-arithmetic", f"{cls.__name__} / {form}: the exact quotient")
            ctx.ev("exact results", int(nz.sum()))
        ctx.ok(np.all(np.isfinite(np.asarray(r.data, float)[~nz])), "not-finite", f"{cls.__name__} / {form}: division by zero", data=r.data)
        for _ in range(3):
            dirty_heap(ctx.rng)
            r2 = ctx.run(OPS[name], A, B)
            ctx.eq(r2.data, r.data, "not-reproducible", f"{cls.__name__} / {form} twice")
        ctx.ev("zero divisors", int((~nz).sum()))
    else:
        exp = OPS[name](np.array(a), b)
        # integers that overflow their type have no pixelwise result to hold
        true = OPS[name](np.array(a, dtype=np.longdouble), np.asarray(b, dtype=np.longdouble))
        fits = np.ones(shp, bool)
        if exp.dtype.kind in "ui":
            fits = (true >= np.iinfo(exp.dtype).min) & (true <= np.iinfo(exp.dtype).max)
            ctx.ev("integer results", int(fits.sum()))
        single = exp.dtype == np.float32
        # in single precision an operand is rounded to its type first
        slack = 1e-7 * (np.abs(np.asarray(a, float)) + np.abs(np.broadcast_to(np.asarray(b, float), shp))) if single and name in "+-" else np.zeros(shp)
        got, want = np.asarray(r.data, float)[fits], np.asarray(true, float)[fits]
        ctx.close(got, want, "wrong-arithmetic", f"{cls.__name__} {name} {form}", rtol=1e-6 if single else 1e-13, atol=slack[fits])
        if not single_precision(a, b):
            ctx.eq(got, np.asarray(exp, float)[fits], "wrong-arithmetic", f"{cls.__name__} {name} {form}: the exact result")
            ctx.ev("exact results", int(fits.sum()))
    ctx.eq(A.data, a, "operand-changed", "first operand")
    if form == "image":
        ctx.eq(B.data, b, "operand-changed", "second operand")
    ctx.ev(f"{cls.__name__} {name} {form}")
    ctx.sig(cls.__name__, name, form, shp, a.dtype, ctx.idx)
    ctx.sample(op=name, form=form, cls=cls.__name__, shape=shp)


def undefined(ctx, shp):
    """Floating-point pixels some of which hold no number."""
    a = gen.values(ctx, shp, ctx.pick(("uniform", "signed", "wide")))
    a = np.where(ctx.rng.random(shp) < 0.3, ctx.rng.choice((np.nan, np.inf, -np.inf, 0.0, -0.0), shp), a)
    return a.astype(ctx.pick(("float64", "float64", "float32")))


@scenario("C09", quick=200, thorough=4000)
def undefined_operands(ctx):
    """Undefined and infinite pixels follow the array expression as well: only
    where the divisor is zero is a quotient free, and finite."""
    cls = ctx.pick((ml.MicropolImage, ml.MicropolImage, ml.Image))
    shp = gen.shape(ctx, 1, 8) if cls is ml.MicropolImage else gen.dims(ctx, 1, 12)
    name = list(OPS)[ctx.idx % 4]
    a, form = undefined(ctx, shp), ctx.pick(("image", "array", "number"))
    b = ctx.pick((np.nan, np.inf, -np.inf, 2.5, np.float64(np.nan))) if form == "number" else undefined(ctx, shp)
    A = ctx.run(cls, a)
    B = ctx.run(cls, b) if form == "image" else b
    dirty_heap(ctx.rng)
    with np.errstate(all="ignore"):
        got = np.asarray(ctx.run(OPS[name], A, B).data)
        bb = np.broadcast_to(np.asarray(b, float), shp)
        want = OPS[name](np.asarray(a, float), bb)
    what = f"{cls.__name__} {name} {form}, undefined pixels"
    ctx.ok(got.shape == shp, "wrong-shape", f"{what}: {got.shape}")
    free = (bb == 0) & (name == "/")
    # where the dividend has no value either, no finite quotient is promised
    ctx.ok(np.all(np.isfinite(np.asarray(got, float)[free & np.isfinite(a)])), "not-finite", f"{what}: division by zero", data=got)
    got, want = np.asarray(got, float)[~free], want[~free]
    if name == "/" or not single_precision(a, b):
        single = "float32" in (str(a.dtype), str(getattr(b, "dtype", "")))
    else:
        single = True
    fin = np.isfinite(want)
    ctx.eq(got[~fin], want[~fin], "wrong-arithmetic", what)
    big = np.abs(want[fin]) < 1e37  # beyond, single precision overflows
    ctx.close(got[fin][big], want[fin][big], "wrong-arithmetic", what, rtol=1e-6 if single else 1e-13, atol=1e-6 * 1e3 if single and name in "+-" else 0)
    ctx.eq(A.data, a, "operand-changed", "first operand")
    ctx.ev("undefined results", int((~fin).sum()))
    ctx.sig(cls.__name__, name, form, shp, a.dtype, ctx.idx)


@scenario("C09", quick=80, thorough=1500)
def chains(ctx):
    """Longer expressions equal the array expression."""
    shp = gen.shape(ctx, 1, 8)
    arr = [operand(ctx, shp, False).astype(float) for _ in range(3)]
    ims = [ctx.run(ml.MicropolImage, x) for x in arr]
    accA, accI, h = arr[0], ims[0], []
    for _ in range(ctx.integer(3, 8)):
        name = ctx.pick(("+", "-", "*", "/"))
        k = ctx.integer(0, 3)
        x, X = (ctx.pick((2.5, -4)),) * 2 if k == 3 else (arr[k - 1], ims[k - 1] if ctx.chance(0.7) else arr[k - 1])
        accA, accI = OPS[name](accA, x), ctx.run(OPS[name], accI, X)
        h.append(name + str(k))
    ctx.close(accI.data, accA, "wrong-arithmetic", " ".join(h), rtol=1e-9, atol=0)
    ctx.sig(shp, *h)
