import numpy as np

import micropolarray as ml
import micropolarray.processing.rebin as rb
from mon import gen, ref
from mon.core import scenario
from mon.ops import internal


@scenario("C05", quick=500, thorough=10000, large=(12, 100, 13000000))
def micropol_rebin(ctx):
    a = gen.image_array(ctx, hi=20)
    n = ctx.pick((1, 2, 3, 4, 5, 6, 7, 8, 16))
    if not ctx.large and ctx.chance(0.3):  # exactly divisible
        a = gen.values(ctx, (2 * n * ctx.integer(1, 5), 2 * n * ctx.integer(1, 5)))
    dic = gen.angle_dic(ctx)
    im = ctx.run(ml.MicropolImage, a, angle_dic=dic)
    r = ctx.run(im.rebin, n)
    exp = ref.rebin_micropol(a, n)
    ctx.close(r.data, exp, "wrong-rebin", f"{a.shape} binned {n}", scale=float(np.max(np.abs(np.asarray(a, float)))) * n * n)
    fam, kept = ref.split(r.data).sum(axis=(1, 2)), []
    for p in ref.split(a):
        kept.append(p[: p.shape[0] // n * n, : p.shape[1] // n * n].sum())
    ctx.close(fam, kept, "signal-lost", "family sums", scale=float(np.sum(np.abs(np.asarray(a, float)))))
    ctx.eq(im.data, a, "operand-changed", "rebin changed its operand")
    if exp.size and n > 1:
        ctx.ev("trimmed" if (a.shape[0] % (2 * n) or a.shape[1] % (2 * n)) else "divisible")
    ctx.ev("output superpixels", exp.size // 4)
    ctx.sig("micropol", a.shape, n, a.dtype)
    ctx.sample(shape=a.shape, binning=n, out=r.data)


@scenario("C05", quick=400, thorough=8000, large=(12, 100, 13000000))
def plain_rebin(ctx):
    h, w = gen.dims(ctx, 1, 40)
    a = gen.image_array(ctx, (h, w))
    n = ctx.pick((1, 2, 3, 4, 5, 6, 7, 8, 9, 16))
    im = ctx.run(ml.Image, a)
    r = ctx.run(im.rebin, n)
    ctx.close(r.data, ref.rebin_plain(a, n), "wrong-rebin", f"plain {a.shape} binned {n}", scale=float(np.max(np.abs(np.asarray(a, float)))) * n * n)
    ctx.eq(im.data, a, "operand-changed", "rebin changed its operand")
    ctx.sig("plain", a.shape, n, a.dtype)


@scenario("C05", quick=120, thorough=2500, large=(10, 100, 4000000))
def exact_sums(ctx):
    """Integer-valued pixels have exact sums, also beyond 2**24 and 2**31."""
    micro = ctx.chance(0.6)
    n = ctx.integer(1, 5)
    shp = gen.shape(ctx, 1, 12) if micro else gen.dims(ctx, 1, 25)
    top = ctx.pick((255, 65535, 2**24 + 3, 2**31 + 11, 2**40))
    a = ctx.rng.integers(-top if ctx.chance(0.3) else 0, top, shp)
    a = a.astype(ctx.pick(("float64", "int64")) if top > 65535 else np.int64 if a.min() < 0 else ctx.pick(("uint16", "int32", "float32", "float64")) if top > 255 else ctx.pick(("uint8", "uint16", "float32")))
    r = ctx.run(ctx.run(ml.MicropolImage if micro else ml.Image, a).rebin, n)
    exp = (ref.rebin_micropol if micro else ref.rebin_plain)(a.astype(float), n)
    ctx.eq(r.data, exp, "wrong-rebin", f"{a.dtype} pixels up to {top}, {shp} binned {n}")
    ctx.ev("exact sums", exp.size)
    ctx.sig(micro, shp, n, a.dtype, top)


@scenario("C05", quick=60, thorough=1000)
def composed_and_refused(ctx):
    n, m = ctx.integer(1, 3), ctx.integer(1, 3)
    a = gen.values(ctx, (2 * n * m * ctx.integer(1, 3), 2 * n * m * ctx.integer(1, 3)), "ids")
    im = ctx.run(ml.MicropolImage, a)
    one = ctx.run(im.rebin, n * m)
    two = ctx.run(lambda: im.rebin(n).rebin(m))
    ctx.eq(two.data, one.data, "wrong-rebin", f"rebin {n} then {m}")
    bad = -ctx.integer(0, 5)
    ctx.refuses(im.rebin, bad, what=f"binning {bad}")
    ctx.refuses(ctx.run(ml.Image, a).rebin, bad, what=f"plain binning {bad}")
    ctx.sig(a.shape, n, m, bad)


@scenario("C05", quick=6, thorough=40)
def wide_frames(ctx):
    """Many pixels into few, again and again: a sum shared between threads of a
    kernel, or left over from a former call, differs now and then."""
    micro = ctx.chance(0.6)
    n = ctx.pick((16, 32, 64))
    shp = (2 * n * ctx.integer(1, 2), ctx.pick((1024, 2048)))
    a = ctx.rng.integers(1, 1000, shp).astype(float)
    exp = (ref.rebin_micropol if micro else ref.rebin_plain)(a, n)
    im = ctx.run(ml.MicropolImage if micro else ml.Image, a)
    f = internal(rb, "micropolarray_rebin" if micro else "standard_rebin", 2)
    for _ in range(40):
        # the kernel alone while it is there: the rest of an image takes longer
        ctx.eq(ctx.run(f, a, n) if f else ctx.run(im.rebin, n).data, exp, "wrong-rebin", f"{shp} binned {n}, one of many times")
        ctx.ev("repeated sums", exp.size)
    ctx.eq(ctx.run(im.rebin, n).data, exp, "wrong-rebin", f"{shp} binned {n}")
    ctx.sig(micro, n, shp, ctx.idx)
