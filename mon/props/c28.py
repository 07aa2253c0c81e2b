import numpy as np

import micropolarray as ml
from mon import gen, ref
from mon.core import scenario


def med(a):
    return ref.merge([ref.median2(p) for p in ref.split(a)])


def demosaiced(ctx, *images):
    """Demosaicing an image beforehand is no reason for another hot pixel."""
    for i in images:
        if ctx.chance(0.25):
            ctx.run(i.demosaic, ctx.pick(("adjacent", "mean", "spline") if min(i.data.shape) >= 10 else ("adjacent", "mean")))
            ctx.ev("images demosaiced before")


@scenario("C28", quick=250, thorough=5000, large=(10, 80, 4_000_000))
def clean(ctx):
    a = gen.image_array(ctx, gen.shape(ctx, 1, 12))
    dens = ctx.pick((0.0, 0.05, 0.3, 1.0))
    flags = (ctx.rng.random(a.shape) < dens).astype(float)
    if ctx.chance(0.3):  # values other than 1 do not flag
        flags = np.where(ctx.rng.random(a.shape) < 0.1, ctx.pick((0.5, 2.0, -1.0)), flags)
    im = ctx.run(ml.MicropolImage, a, angle_dic=gen.angle_dic(ctx))
    fm = ctx.run(ml.MicropolImage, flags, angle_dic=gen.angle_dic(ctx))
    demosaiced(ctx, im, fm)
    r = ctx.run(im.clean_hot_pixels, fm)
    exp = np.where(flags == 1, med(a), np.asarray(a, float))
    ctx.eq(r.data[flags != 1], np.asarray(a, float)[flags != 1], "unflagged-changed", "unflagged pixels")
    ctx.eq(r.data, exp, "wrong-clean", "cleaned image")
    ctx.eq(im.data, a, "operand-changed", "cleaning changed its operand")
    ctx.ev("flagged pixels", int((flags == 1).sum()))
    ctx.ev("unflagged pixels", int((flags != 1).sum()))
    ctx.sig(a.shape, a.dtype, dens, ctx.idx)
    ctx.sample(shape=a.shape, flagged=int((flags == 1).sum()))


@scenario("C28", quick=250, thorough=5000, large=(10, 80, 4_000_000))
def hot_map(ctx):
    a = gen.image_array(ctx, gen.shape(ctx, 1, 12))
    thr = ctx.pick((0.1, 0.3, 0.5, 0.8, 0.0))
    im = ctx.run(ml.MicropolImage, a, angle_dic=gen.angle_dic(ctx))
    demosaiced(ctx, im)
    r = ctx.run(ml.get_hot_pixels, im, threshold=thr)
    m, p = med(a), np.asarray(a, float)
    c = (p - m) / (p + m)
    ctx.ok(np.all((r.data == 0) | (r.data == 1)), "wrong-map", "map values other than 0 and 1")
    clear = ~(np.abs(c - thr) < 1e-9)  # ties decided by rounding are not judged
    ctx.eq(r.data[clear], (c > thr).astype(float)[clear], "wrong-map", f"threshold {thr}")
    ctx.eq(im.data, a, "operand-changed", "mapping changed its operand")
    ctx.ev("hot pixels", int((c > thr).sum()))
    # contrasts exactly at the threshold: p/m = 3, 7/5, 1 on small whole numbers
    t, lo, hi = ctx.pick(((0.5, 1, 3), (0.5, 4, 12), (0.25, 3, 5), (0.0, 2, 2), (0.75, 1, 7), (0.5, 2, 6)))
    b = np.full(a.shape, float(lo))
    b[ctx.integer(0, a.shape[0] - 1), ctx.integer(0, a.shape[1] - 1)] = hi
    r = ctx.run(ml.get_hot_pixels, ctx.run(ml.MicropolImage, b, angle_dic=gen.angle_dic(ctx)), threshold=t)
    c = (b - med(b)) / (b + med(b))
    ctx.eq(r.data, (c > t).astype(float), "wrong-map", f"contrast of {lo} and {hi} at threshold {t}")
    ctx.ev("contrasts at the threshold", int((c == t).sum()))
    ctx.sig(a.shape, a.dtype, thr, ctx.idx)


@scenario("C28", quick=120, thorough=2000, large=(8, 80, 4_000_000))
def isolated_hot_pixel(ctx):
    h, w = gen.shape(ctx, 3, 12)
    y, x = np.mgrid[0:h, 0:w]
    base = 500 + 0.5 * (y // 2) + 0.25 * (x // 2) + np.array([[0, 300], [700, 1500]])[y % 2, x % 2]
    a = base.copy()
    hy, hx = ctx.integer(0, h - 1), ctx.integer(0, w - 1)
    a[hy, hx] *= ctx.integer(5, 40)
    im = ctx.run(ml.MicropolImage, a, angle_dic=gen.angle_dic(ctx))
    demosaiced(ctx, im)
    hm = ctx.run(ml.get_hot_pixels, im, threshold=0.3)
    # on the first superpixel row or column the mirrored 2x2 neighbourhood holds
    # the pixel twice, so that its upper median is the hot value itself
    corner = hy < 2 or hx < 2
    exp = np.zeros((h, w))
    if not corner:
        exp[hy, hx] = 1
        ctx.eq(hm.data, exp, "hot-pixel-missed", f"hot pixel at {(hy, hx)} of {(h, w)}")
        demosaiced(ctx, hm)
        r = ctx.run(im.clean_hot_pixels, hm)
        ctx.ok(abs(r.data[hy, hx] - base[hy, hx]) < 3, "hot-pixel-kept", f"{r.data[hy, hx]} instead of about {base[hy, hx]}")
        o = exp == 0
        ctx.eq(r.data[o], a[o], "unflagged-changed", "other pixels")
        ctx.ev("isolated hot pixels removed")
    else:
        ctx.ok(hm.data.shape == (h, w), "wrong-map", "shape")
    ctx.sig(h, w, hy, hx)
