import numpy as np

import micropolarray as ml
from mon import gen, ref
from mon.core import scenario


@scenario("C04", quick=300, thorough=6000, large=(6, 60, 13000000))
def split_and_merge(ctx):
    a = gen.image_array(ctx, hi=24)
    a0 = np.array(a, copy=True)
    f = ctx.run(ml.split_polarizations, a)
    ctx.eq(f, ref.split(a0), "wrong-split", "families")
    m = ctx.run(ml.merge_polarizations, f)
    ctx.eq(m, a0, "wrong-merge", "merge(split(a))")
    planes = gen.values(ctx, (4, ctx.integer(1, 12) * ctx.integer(1, 12), 1)[:1] + (4,), "ids")
    h, w = ctx.integer(1, 12), ctx.integer(1, 12)
    planes = gen.values(ctx, (4, h, w), "ids")
    m = ctx.run(ml.merge_polarizations, planes)
    ctx.eq(m, ref.merge(planes), "wrong-merge", "merge of four planes")
    ctx.eq(ctx.run(ml.split_polarizations, m), planes, "wrong-split", "split(merge(p))")
    im = ctx.run(ml.MicropolImage, a, angle_dic=gen.angle_dic(ctx))
    ctx.eq(im.single_pol_subimages, ref.split(a0), "wrong-split", "image families")
    ctx.ev("pixels", a.size)
    ctx.sig(a.shape, a.dtype, (h, w))


@scenario("C04", quick=300, thorough=6000, large=(15, 120, 4000000))
def demosaic_modes(ctx):
    mode = ("mean", "adjacent", "spline")[ctx.idx % 3]
    a = gen.image_array(ctx, hi=14)
    a0 = np.array(a, copy=True)
    scale = float(np.max(np.abs(np.asarray(a0, float))))
    dic = gen.angle_dic(ctx)
    if ctx.chance(0.5):
        d = ctx.run(ml.demosaic, a, option=mode)
    else:
        im = ctx.run(ml.MicropolImage, a, angle_dic=dic)
        r = ctx.run(im.demosaic, mode) if (mode != "adjacent" or ctx.chance(0.5)) else ctx.run(im.demosaic)
        d = r.demosaiced_images
        ctx.eq(r.data, a0, "data-changed", "demosaicing changed the pixels")
        S = ref.stokes(ref.DEMOSAIC[mode](a0), dic)
        ctx.close(r.Stokes_vec, S, "wrong-demosaiced-stokes", f"{mode} Stokes", scale=scale)
        ctx.ev("image demosaiced")
    d = np.asarray(d)
    ctx.close(d, ref.DEMOSAIC[mode](a0), "wrong-demosaic", f"{mode} planes", scale=scale)
    ctx.eq(a, a0, "input-changed", "demosaic changed its input")
    if mode != "mean":
        f = ref.split(a0)
        for k in range(4):
            ctx.ok(
                d[k].min() >= f[k].min() - 1e-9 * scale and d[k].max() <= f[k].max() + 1e-9 * scale,
                "range-exceeded",
                f"{mode} plane {k} leaves the range of its family",
            )
    if mode == "adjacent":
        ctx.eq(d[:, 0::2, 0::2], ref.split(a0), "wrong-demosaic", "own value at the first pixel")
    if mode == "mean":
        ctx.close(d.sum(axis=(1, 2)), ref.split(a0).sum(axis=(1, 2)), "wrong-demosaic", "family sums", scale=scale * a.size)
    ctx.ev("mode " + mode)
    ctx.sig(mode, a.shape, a.dtype, round(float(np.asarray(a, float).sum()), 6))
    ctx.sample(mode=mode, image=a)


@scenario("C04", quick=80, thorough=1500, large=(4, 40, 500000))
def demosaic_again(ctx):
    """One image demosaiced several times: every request is honoured, from the pixels."""
    a = gen.image_array(ctx, hi=10)
    a0 = np.array(a, copy=True)
    scale = float(np.max(np.abs(np.asarray(a0, float))))
    dic = gen.angle_dic(ctx)
    im = ctx.run(ml.MicropolImage, a, angle_dic=dic)
    h = []
    for _ in range(ctx.integer(2, 4)):
        mode = ctx.pick(("mean", "adjacent", "spline", "default"))
        h.append(mode)
        other = ctx.chance(0.3)  # another image in between
        if other:
            ctx.run(ctx.run(ml.MicropolImage, gen.values(ctx, a0.shape, "ids")).demosaic, ctx.pick(("mean", "adjacent")))
        r = ctx.run(im.demosaic) if mode == "default" else ctx.run(im.demosaic, mode)
        exp = ref.DEMOSAIC["adjacent" if mode == "default" else mode](a0)
        ctx.close(r.demosaiced_images, exp, "wrong-demosaic", f"planes after {h}", scale=scale)
        ctx.close(im.demosaiced_images, exp, "wrong-demosaic", f"planes of the image itself after {h}", scale=scale)
        ctx.close(r.Stokes_vec, ref.stokes(exp, dic), "wrong-demosaiced-stokes", f"Stokes after {h}", scale=scale)
        ctx.eq(r.data, a0, "data-changed", f"pixels after {h}")
        if ctx.chance(0.4):
            im = r
        if ctx.chance(0.3):  # new pixels: the next planes are theirs
            a0 = gen.values(ctx, a0.shape, ctx.pick(("ids", "uniform")))
            im.data = np.array(a0)
            scale = float(np.max(np.abs(a0)))
            h.append("new data")
    ctx.ev("demosaiced again", len(h))
    ctx.sig(a0.shape, *h)


@scenario("C04", quick=60, thorough=1000)
def odd_refused(ctx):
    h, w = ctx.integer(1, 15), ctx.integer(1, 15)
    if h % 2 == 0 and w % 2 == 0:
        if ctx.chance(0.5):
            h += 1
        else:
            w += 1
    a = gen.values(ctx, (h, w))
    ctx.refuses(ml.split_polarizations, a, what=f"split of {h}x{w}")
    for mode in ("mean", "adjacent", "spline"):
        ctx.refuses(ml.demosaic, a, option=mode, what=f"{mode} demosaicing of {h}x{w}")
    ctx.refuses(ml.demosaic, np.ones((4, 4)), option=ctx.pick(("nearest", "", "MEAN")), what="unknown demosaicing mode")
    ctx.sig(h, w)
