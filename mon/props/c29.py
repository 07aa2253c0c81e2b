"""Chen-Wang-Liang calibration: application and calculation."""
import contextlib
import io
import os

import numpy as np
from astropy.io import fits

import micropolarray as ml
from micropolarray.processing.chen_wan_liang_calibration import calculate_chen_wan_lian_calibration as calculate
from mon import gen, ref
from mon.core import scenario


def ifov(a):
    """Average of the four same-family pixels of each superpixel and the ones above and left; the first row and column have none."""
    out = np.zeros(a.shape)
    out[2:, 2:] = (a[:-2, :-2] + a[:-2, 2:] + a[2:, :-2] + a[2:, 2:]) / 4
    return out


def apply(C, d, p):
    """C (P - d) superpixel by superpixel; C is (4, 4, h, w), its matrices constant over a superpixel."""
    P = ref.split(np.asarray(p, float) - d)
    return ref.merge(np.einsum("ijyx,jyx->iyx", C[:, :, ::2, ::2], P))


def write(folder, C, d):
    os.makedirs(folder)
    for i in range(4):
        for j in range(4):
            fits.PrimaryHDU(data=C[i, j]).writeto(os.path.join(folder, f"C{i}{j}.fits"))
    fits.PrimaryHDU(data=d).writeto(os.path.join(folder, "d_ij.fits"))


def read(ctx, folder):
    names = sorted(os.listdir(folder))
    want = sorted([f"C{i}{j}.fits" for i in range(4) for j in range(4)] + ["d_ij.fits"])
    ctx.ok(names == want, "wrong-files", "files of the calibration", files=names)
    g = lambda n: np.array(fits.getdata(os.path.join(folder, n)), dtype=float)
    return np.array([[g(f"C{i}{j}.fits") for j in range(4)] for i in range(4)]), g("d_ij.fits")


def full(half):
    return np.repeat(np.repeat(half, 2, -2), 2, -1)


@scenario("C29", quick=150, thorough=3000, large=(6, 60, 300000))
def application(ctx):
    h, w = gen.shape(ctx, 1, 8)
    kind = ctx.pick(("random", "numbered", "unit", "near-identity"))
    hh, hw = h // 2, w // 2
    if kind == "random":
        C = ctx.rng.normal(0, 1, (4, 4, hh, hw))
    elif kind == "numbered":
        C = np.arange(16 * hh * hw, dtype=float).reshape(4, 4, hh, hw)
    elif kind == "unit":
        C = np.zeros((4, 4, hh, hw))
        C[ctx.integer(0, 3), ctx.integer(0, 3)] = 1
    else:
        C = np.eye(4)[:, :, None, None] + ctx.rng.normal(0, 0.05, (4, 4, hh, hw))
    d = ctx.rng.normal(0, 20, (h, w)) if ctx.chance(0.8) else np.rint(ctx.rng.uniform(0, 40, (h, w))).astype("int16")
    data = gen.image_array(ctx, (h, w))
    keep = np.array(data, copy=True)
    folder = ctx.path(ctx.pick(("cal", "cal.v2", "a/b")))
    C = full(C)
    write(folder, C, d)
    got = ctx.run(ml.chen_wan_liang_calibration, data, folder)
    ctx.eq(data, keep, "argument-changed", "the data")
    want = ifov(apply(C, np.asarray(d, float), keep))
    ctx.close(got, want, "wrong-application", f"{kind} matrices on {data.dtype}", rtol=1e-6 if keep.dtype == np.float32 else 1e-9, scale=float(np.abs(want).max() + np.abs(C).max() * (np.abs(np.asarray(keep, float)).max() + 60)))
    ctx.ev("superpixels corrected", hh * hw)
    if keep.dtype.kind in "ui":
        ctx.ev("integer images corrected")
    ctx.sig("apply", kind, h, w, keep.dtype, float(np.sum(np.asarray(keep, float))))
    ctx.sample(matrices=kind, shape=(h, w), dtype=str(keep.dtype))


def images(ctx, n, h, w):
    out = []
    for _ in range(n):
        a = ctx.rng.uniform(50, 4000, (h, w))
        if ctx.chance(0.3):
            a = np.rint(a).astype("uint16")
        out.append(a)
    return out


def files(ctx, tag, imgs):
    out = []
    order = ctx.rng.permutation(len(imgs))
    for k, a in enumerate(imgs):
        p = ctx.path(f"{tag}_{order[k]}.fits")
        fits.PrimaryHDU(data=a).writeto(p, overwrite=True)
        out.append(p)
    return out


def calc(ctx, tag, angles, fl, prev, **kw):
    folder = ctx.path(tag)
    a, f, p = list(angles), list(fl), list(prev)
    with contextlib.redirect_stderr(io.StringIO()):
        # the camera's occulter is far outside these small frames
        ctx.run(calculate, a, f, p, folder, occulter=ctx.chance(0.5), **kw)
    ctx.ok(a == list(angles) and f == list(fl) and p == list(prev), "argument-changed", "the lists given to the calculation")
    ctx.ev("calculations")
    return read(ctx, folder)


def same(ctx, got, want, kind, what, rtol=1e-8):
    for x, y, n in ((got[0], want[0], "matrices"), (got[1], want[1], "offsets")):
        ctx.close(x, y, kind, f"{what}: {n}", rtol=rtol, scale=float(np.abs(y).max()) + 1e-9)


BASIC = [0, 45, 90, -45]


@scenario("C29", quick=30, thorough=400, cpu=240, large=(2, 20, 6000))
def calculation(ctx):
    h, w = gen.shape(ctx, 1, 4)
    prev = [int(v) for v in ctx.rng.permutation([0, 45, -45, 90])]
    n = ctx.integer(4, 6)
    again = ctx.chance(0.4)  # orientations measured more than once
    angles = BASIC + [int(v) for v in ctx.rng.choice(BASIC if again else [15, 30, 60, 75, -30, 120], n - 4, replace=again)]
    ctx.ev("orientations measured again", (n - 4) * again)
    imgs = images(ctx, n, h, w)
    fl = files(ctx, "p", imgs)
    base = calc(ctx, "base", angles, fl, prev)
    ctx.ok(np.all(np.isfinite(base[0])) and np.all(np.isfinite(base[1])), "not-finite", "matrices of a set without zero pixels")
    # superpixel constancy
    ctx.eq(base[0], full(base[0][:, :, ::2, ::2]), "superpixel-mixed", "the matrices inside one superpixel")
    # order of the pairs
    o = ctx.rng.permutation(n)
    same(ctx, calc(ctx, "order", [angles[i] for i in o], [fl[i] for i in o], prev), base, "order-dependent", "pairs in another order")
    ctx.ev("orders compared")
    # average of the single-image calibrations
    alone = [calc(ctx, f"one{k}", BASIC, [fl[k]] * 4, prev) for k in range(n)]
    same(ctx, base, (np.mean([a[0] for a in alone], axis=0), np.mean([a[1] for a in alone], axis=0)), "not-the-average", "set against its members")
    # a calibration of one image turns it into the ideal response to its Stokes vector
    k = ctx.integer(0, n - 1)
    dic = {p: i for i, p in enumerate(prev)}
    P = ref.split(imgs[k])
    S = np.stack([P[dic[0]] + P[dic[90]], P[dic[0]] - P[dic[90]], P[dic[45]] - P[dic[-45]]])
    th = np.deg2rad(np.array(prev, float))
    W = 0.5 * np.stack([np.ones(4), np.cos(2 * th), np.sin(2 * th)], axis=1)
    ideal = ref.merge(np.einsum("ji,iyx->jyx", W, S))
    ctx.close(apply(*alone[k], imgs[k]), ideal, "wrong-response", "calibrated image", rtol=1e-6, scale=float(np.abs(ideal).max()) + 1)
    ctx.ev("single-image calibrations judged", (h // 2) * (w // 2))
    got = ctx.run(ml.chen_wan_liang_calibration, np.array(imgs[k]), ctx.path(f"one{k}"))
    ctx.close(got, ifov(ideal), "wrong-response", "applied calibration", rtol=1e-6, scale=float(np.abs(ideal).max()) + 1)
    # superpixels are independent of each other
    if h > 2 or w > 2:
        y, x = 2 * ctx.integer(0, h // 2 - 1), 2 * ctx.integer(0, w // 2 - 1)
        moved = [np.array(a, dtype=float) for a in imgs]
        for a in moved:
            a[y : y + 2, x : x + 2] = ctx.rng.uniform(50, 4000, (2, 2))
        c2, d2 = calc(ctx, "moved", angles, files(ctx, "m", moved), prev)
        mask = np.ones((h, w), bool)
        mask[y : y + 2, x : x + 2] = False
        # the order of the sum over the images may follow the file names
        for j, (x, y, what) in enumerate(((c2[:, :, mask], base[0][:, :, mask], "matrices"), (d2[mask], base[1][mask], "offsets"))):
            ctx.close(x, y, "superpixels-mixed", f"{what} of the other superpixels", rtol=1e-12, scale=max(float(np.abs(a[j][..., mask]).max()) for a in alone))
        ctx.ev("superpixels changed alone")
    ctx.sig("calculate", h, w, prev, angles)
    ctx.sample(shape=(h, w), positions=prev, angles=angles)


@scenario("C29", quick=30, thorough=400, cpu=240, large=(3, 20, 6000))
def dark_and_flat(ctx):
    h, w = gen.shape(ctx, 1, 4)
    prev = [int(v) for v in ctx.rng.permutation([0, 45, -45, 90])]
    imgs = images(ctx, 4, h, w)
    fl = files(ctx, "p", imgs)
    imgs = [np.array(a, float) for a in imgs]
    use = ctx.pick(("dark", "flat", "both"))
    kw = {}
    dark = np.rint(ctx.rng.uniform(0, 300, (h, w)))
    flat = ctx.rng.uniform(500, 900, (h, w))
    if use != "flat":
        p = ctx.path("dark.fits")
        fits.PrimaryHDU(data=dark.astype(ctx.pick(("uint16", "float32", "float64")))).writeto(p)
        kw["dark_filename"] = p
        imgs = [np.maximum(a - dark, 0) for a in imgs]
    if use != "dark":
        p = ctx.path("flat.fits")
        if use == "both":
            f = flat - dark
        else:
            if ctx.chance(0.4):
                flat[ctx.integer(0, h - 1), ctx.integer(0, w - 1)] = 0  # left as it is
            f = flat
        fits.PrimaryHDU(data=flat).writeto(p)
        kw["flat_filename"] = p
        g = f / f.max()
        imgs = [np.where(g != 0, a / np.where(g != 0, g, 1), a) for a in imgs]
    got = calc(ctx, "got", BASIC, fl, prev, **kw)
    want = calc(ctx, "want", BASIC, files(ctx, "c", imgs), prev)
    same(ctx, got, want, "wrong-correction", f"{use} given against images corrected before", rtol=1e-7)
    ctx.ev("calculations with " + use)
    ctx.sig("correct", use, h, w, prev, float(dark.sum()))


@scenario("C29", quick=40, thorough=400)
def refusals(ctx):
    h, w = 4, 4
    prev = [0, 45, -45, 90]
    angles = list(BASIC)
    imgs = images(ctx, 6, h, w)
    fl = files(ctx, "p", imgs)
    k = ctx.integer(0, 2)
    if k == 0:  # one of the four orientations missing
        lost = ctx.integer(0, 3)
        angles[lost] = ctx.pick((30, 60, angles[(lost + 1) % 4]))
        a, f, what = angles, fl[:4], "a basic orientation missing"
    elif k == 1:
        n = ctx.pick((3, 5, 6))
        a, f, what = angles, fl[:n], "more orientations than files or fewer"
    else:
        a, f, what = angles, fl[:3] + [ctx.path("absent.fits")], "a missing file"
    out = ctx.path("out")
    with contextlib.redirect_stderr(io.StringIO()):
        ctx.refuses(calculate, a, f, prev, out, occulter=False, what=what)
    ctx.ok(not (os.path.isdir(out) and os.listdir(out)), "written-anyway", what)
    ctx.ev("calculations refused")
    ctx.sig("refuse", what, a, len(f))


@scenario("C29", quick=20, thorough=200)
def incomplete_calibrations(ctx):
    h, w = 4, 6
    C, d = full(ctx.rng.normal(0, 1, (4, 4, 2, 3))), ctx.rng.normal(0, 1, (h, w))
    folder = ctx.path("cal")
    write(folder, C, d)
    lost = ctx.pick(sorted(os.listdir(folder)))
    os.remove(os.path.join(folder, lost))
    ctx.refuses(ml.chen_wan_liang_calibration, ctx.rng.uniform(0, 9, (h, w)), folder, what=f"a calibration without {lost}")
    ctx.ev("incomplete calibrations refused")
    ctx.sig("incomplete", lost)
