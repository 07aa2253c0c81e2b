import numpy as np

import micropolarray as ml
from mon import gen, ref
from mon.core import scenario


def dirty_heap(rng):
    """Leave recognisable values behind in freed memory of many sizes."""
    for n in (4, 16, 64, 144, 256, 1024, 4096):
        b = [np.full(n, v) for v in (1.7e300, float(rng.normal()), -3.3)]
        del b


def img(ctx, a, dic):
    return ctx.run(ml.MicropolImage, np.array(a, copy=True), angle_dic=dic)


def make_flat(ctx, shp):
    k = ctx.integer(0, 4)
    f = ctx.rng.uniform(0.5, 1.5, shp) * 1000
    if k == 1:
        f[ctx.rng.random(shp) < 0.2] = 0
    elif k == 2:
        f = np.rint(f).astype(ctx.pick(("int64", "uint16")))
    elif k == 3:
        f = f * ctx.pick((1e-6, 1e-3, 1e6))
    if not np.any(f):
        f.flat[0] = 1
    return f


@scenario("C08", quick=300, thorough=6000, large=(5, 50, 4000000))
def dark_correction(ctx):
    shp = gen.shape(ctx, 1, 10)
    a = gen.image_array(ctx, shp, dtypes=("float64",) * 3 + ("int64", "uint16"))
    d = gen.image_array(ctx, shp, dtypes=("float64",) * 3 + ("int64", "uint16"))
    dic = gen.angle_dic(ctx)
    im = img(ctx, a, dic)
    r = ctx.run(im.subtract_dark, img(ctx, d, gen.angle_dic(ctx)))
    exp = np.maximum(a.astype(float) - d.astype(float), 0)
    ctx.close(np.asarray(r.data, float), exp, "wrong-dark", "max(data-dark, 0)", scale=float(np.max(np.abs(a.astype(float)))))
    ctx.ok(np.all(np.asarray(r.data) >= 0), "negative-after-dark", "negative pixels")
    ctx.eq(np.asarray(im.data, float), np.asarray(r.data, float), "wrong-dark", "corrected in place")
    c = ctx.run(ml.MicropolImage, a, angle_dic=dic, dark=img(ctx, d, dic))
    ctx.close(np.asarray(c.data, float), exp, "constructor-differs", "dark at construction", scale=float(np.max(np.abs(a.astype(float)))))
    # a dark without counts still leaves no pixel below zero
    z = ctx.run(ml.MicropolImage, a, angle_dic=dic, dark=img(ctx, np.zeros(shp), dic))
    ctx.eq(np.asarray(z.data, float), np.maximum(a.astype(float), 0), "constructor-differs", "dark of zeros at construction")
    z = ctx.run(img(ctx, a, dic).subtract_dark, img(ctx, np.zeros(shp), dic))
    ctx.eq(np.asarray(z.data, float), np.maximum(a.astype(float), 0), "wrong-dark", "dark of zeros")
    ctx.ev("clamped pixels", int((a.astype(float) < d.astype(float)).sum()))
    ctx.sig(shp, a.dtype, d.dtype, ctx.idx)


@scenario("C08", quick=300, thorough=6000, large=(5, 50, 4000000))
def flat_correction(ctx):
    shp = gen.shape(ctx, 1, 10)
    a = gen.image_array(ctx, shp)
    dic = gen.angle_dic(ctx)
    f = make_flat(ctx, shp)
    scale = float(np.max(np.abs(a.astype(float)))) * 10
    r = ctx.run(img(ctx, a, dic).correct_flat, img(ctx, f, dic))
    n = f / np.mean(f)
    nz = n != 0
    exp = a.astype(float)[nz] / n[nz]
    ctx.close(r.data[nz], exp, "wrong-flat", "data/(flat/mean)", scale=scale)
    ctx.ok(np.all(np.isfinite(r.data)), "not-finite", "flat-corrected values", data=r.data)
    dirty_heap(ctx.rng)
    r2 = ctx.run(img(ctx, a, dic).correct_flat, img(ctx, f, dic))
    ctx.eq(r2.data, r.data, "not-reproducible", "the same correction twice")
    s = ctx.pick((2.0, 0.25, 1024.0, 3.7))
    r3 = ctx.run(img(ctx, a, dic).correct_flat, img(ctx, f * s, dic))
    ctx.close(r3.data[nz], r.data[nz], "flat-scale-matters", f"flat times {s}", scale=scale)
    u = ctx.run(img(ctx, f * 2.5, dic).correct_flat, img(ctx, f, dic))
    ctx.close(u.data[nz], np.full(int(nz.sum()), 2.5 * float(np.mean(f))), "not-uniform", "image proportional to the flat")
    ctx.ev("zero flat pixels", int((~nz).sum()))
    ctx.ev("flat pixels", int(nz.sum()))
    ctx.sig(shp, a.dtype, f.dtype, s, ctx.idx)
    ctx.sample(shape=shp, flat=f)


@scenario("C08", quick=200, thorough=3000, large=(5, 50, 4000000))
def dark_then_flat_at_construction(ctx):
    shp = gen.shape(ctx, 1, 10)
    a = gen.values(ctx, shp, ctx.pick(("uint12", "uniform", "ids")))
    d = gen.values(ctx, shp, ctx.pick(("uint12", "uniform", "sparse")))
    f = make_flat(ctx, shp)
    dic = gen.angle_dic(ctx)
    c = ctx.run(ml.MicropolImage, a, angle_dic=dic, dark=img(ctx, d, dic), flat=img(ctx, f, dic))
    n = f / np.mean(f)
    nz = n != 0
    exp = np.maximum(a - d, 0)[nz] / n[nz]
    ctx.close(c.data[nz], exp, "constructor-differs", "dark, then flat", scale=float(a.max() * 10))
    two = ctx.run(lambda: img(ctx, a, dic).subtract_dark(img(ctx, d, dic)).correct_flat(img(ctx, f, dic)))
    ctx.close(c.data, two.data, "constructor-differs", "construction equals the two calls", scale=float(a.max() * 10))
    im2 = ctx.run(ml.MicropolImage, img(ctx, a, dic), dark=img(ctx, d, dic), flat=img(ctx, f, dic))
    ctx.close(im2.data, two.data, "constructor-differs", "construction from an image", scale=float(a.max() * 10))
    # an image that was corrected before is corrected again with what it is given
    src = img(ctx, a, dic)
    done = ctx.pick(("dark", "flat", "both"))
    if done != "flat":
        ctx.run(src.subtract_dark, img(ctx, d, dic))
    if done != "dark":
        ctx.run(src.correct_flat, img(ctx, f, dic))
    d2, f2 = gen.values(ctx, shp, "uniform") / 7, ctx.rng.uniform(0.5, 2, shp)
    kw = {}
    if ctx.chance(0.8):
        kw["dark"] = img(ctx, d2, dic)
    if not kw or ctx.chance(0.6):
        kw["flat"] = img(ctx, f2, dic)
    three = ctx.run(ml.MicropolImage, src, **kw)
    exp = np.asarray(src.data, float)
    if "dark" in kw:
        exp = np.maximum(exp - d2, 0)
    if "flat" in kw:
        exp = exp / (f2 / np.mean(f2))
    ctx.close(three.data, exp, "constructor-differs", f"from an image with {done} done, {sorted(kw)}")
    ctx.ev("corrected again")
    ctx.sig(shp, ctx.idx)


@scenario("C08", quick=200, thorough=4000, large=(10, 60, 4000000))
def field_of_view(ctx):
    a = gen.image_array(ctx, gen.shape(ctx, 1, 12), dtypes=("float64",) * 4 + ("int64",))
    im = img(ctx, a, gen.angle_dic(ctx))
    r = ctx.run(im.correct_ifov)
    exp = ref.ifov(a)
    k = ~np.isnan(exp)
    ctx.ok(r.data.shape == exp.shape, "wrong-ifov", f"shape {r.data.shape}")
    ctx.close(r.data[k], exp[k], "wrong-ifov", "average of own, above, left, above-left superpixel", scale=float(np.max(np.abs(np.asarray(a, float)))))
    ctx.ok(np.all(np.isfinite(r.data)), "not-finite", "field-of-view corrected values")
    ctx.eq(im.data, r.data, "wrong-ifov", "in place")
    dirty_heap(ctx.rng)
    r2 = ctx.run(img(ctx, a, gen.angle_dic(ctx)).correct_ifov)
    ctx.eq(r2.data, r.data, "not-reproducible", "the same correction twice")
    ctx.ev("averaged pixels", int(k.sum()))
    ctx.sig(a.shape, a.dtype, ctx.idx)


@scenario("C08", quick=120, thorough=2000, large=(4, 40, 500000))
def frames_in_use(ctx):
    """Darks and flats that are themselves corrected, or replaced, between uses."""
    shp = gen.shape(ctx, 1, 8)
    dic = gen.angle_dic(ctx)
    flat, dark = img(ctx, ctx.rng.uniform(500, 1500, shp), dic), img(ctx, ctx.rng.uniform(0, 100, shp), dic)
    h = []
    for _ in range(ctx.integer(3, 7)):
        k = ctx.pick(("flat by dark", "flat by flat", "dark by dark", "new flat", "new dark", "demosaic", "same"))
        h.append(k)
        if k == "flat by dark":
            ctx.run(flat.subtract_dark, img(ctx, ctx.rng.uniform(0, 50, shp), dic))
        elif k == "flat by flat":
            ctx.run(flat.correct_flat, img(ctx, ctx.rng.uniform(0.5, 2, shp), dic))
        elif k == "dark by dark":
            ctx.run(dark.subtract_dark, img(ctx, ctx.rng.uniform(0, 20, shp), dic))
        elif k == "new flat":  # a new image may live where a former one did
            flat = None
            flat = img(ctx, ctx.rng.uniform(500, 1500, shp), dic)
        elif k == "new dark":
            dark = None
            dark = img(ctx, ctx.rng.uniform(0, 100, shp), dic)
        elif k == "demosaic":
            ctx.run(flat.demosaic)
        a = gen.values(ctx, shp, "uint12")
        how = ctx.pick(("construct", "methods", "flat only", "dark only"))
        d, f = np.array(dark.data, float), np.array(flat.data, float)
        d = d * (how != "flat only")
        f = np.ones(shp) if how == "dark only" else f / f.mean()
        nz = f != 0
        exp = np.maximum(a - d, 0)[nz] / f[nz]
        if how == "construct":
            r = ctx.run(ml.MicropolImage, a, angle_dic=dic, dark=dark, flat=flat)
        else:
            r = img(ctx, a, dic)
            if how != "flat only":
                ctx.run(r.subtract_dark, dark)
            if how != "dark only":
                ctx.run(r.correct_flat, flat)
        ctx.close(r.data[nz], exp, "stale-frame", f"{how} after {h}", scale=float(a.max() * 10 + 1))
        ctx.ev("corrections with frames changed since their last use")
    ctx.sig(shp, h)
