"""Display functions: what the artists hold, and the image afterwards."""
import numpy as np
import matplotlib.pyplot as plt

import micropolarray as ml
from mon import gen, ref
from mon.core import scenario
from mon.session import same, snap, write_tensor

TITLES = {
    "I": "Stokes I",
    "Q": "Stokes Q",
    "U": "Stokes U",
    "pB": "Polarized brightness",
    "AoLP": "Angle of Linear Polarization",
    "DoLP": "Degree of Linear Polarization",
}
CMAPS = ("Greys_r", "viridis", "jet")


def make(ctx):
    shp = gen.shape(ctx, 1, 8)
    dic = gen.angle_dic(ctx)
    im = ctx.run(ml.MicropolImage, gen.image_array(ctx, shp), angle_dic=dict(dic))
    if ctx.chance(0.4):
        ctx.run(im.demosaic, ctx.pick(("adjacent", "mean", "spline")))
    elif ctx.chance(0.3):
        half = (shp[0] // 2, shp[1] // 2)
        write_tensor(ctx.path("t"), ctx.rng.normal(0, 1, (3, 4, *half)), (ctx.rng.random(half) < 0.8).astype(float))
        im = ctx.run(im.demodulate, ml.Demodulator(ctx.path("t")))
    return im, dic


def limits(ctx):
    """Explicit colour limits, zero included, or none."""
    k = ctx.integer(0, 3)
    lo = ctx.pick((0, 0.0, -50, 12.5))
    hi = ctx.pick((60, 900.0, 4096))
    if k == 3:
        lo, hi = -ctx.pick((300.0, 40)), 0  # a zero upper limit
    return {0: {}, 1: dict(vmin=lo, vmax=hi), 2: dict(vmin=lo) if ctx.chance(0.5) else dict(vmax=hi), 3: dict(vmin=lo, vmax=hi)}[k]


def shown(ax):
    ims = [i for i in ax.images]
    return ims[0] if ims else None


def judge(ctx, ax, want, what, cmap=None, lim=None, origin=None):
    im = shown(ax)
    ctx.ok(im is not None and len(ax.images) == 1, "nothing-drawn", what)
    got = np.ma.filled(np.ma.asarray(im.get_array()).astype(float), np.nan)
    w = np.array(want, dtype=float)
    got = np.where(np.isfinite(w), got, np.nan)
    ctx.eq(got, np.where(np.isfinite(w), w, np.nan), "wrong-values", what)
    if cmap:
        ctx.ok(im.get_cmap().name == cmap, "wrong-colours", f"{what}: {im.get_cmap().name}, asked {cmap}")
    clo, chi = im.get_clim()
    mean = np.mean(w[np.isfinite(w)]) if np.isfinite(w).any() else 0.0
    if len(lim or {}) == 1 and (mean <= lim.get("vmin", -np.inf) or mean >= lim.get("vmax", np.inf)):
        # a lone limit beyond the other, automatic one: matplotlib widens it
        lim = None
    for k, v in (lim or {}).items():
        g = clo if k == "vmin" else chi
        ctx.ok(g == v, "wrong-limits", f"{what}: {k} is {g}, asked {v}")
        ctx.ev("explicit limits checked")
    if origin:
        ctx.ok(im.origin == origin, "argument-lost", f"{what}: origin {im.origin}, asked {origin}")
    ctx.ev("pictures checked")


def by_title(ctx, axes, prefix, what):
    m = [a for a in axes if a.get_title() == prefix or a.get_title().startswith(prefix + " (")]
    ctx.ok(len(m) == 1, "wrong-place", f"{what}: {len(m)} panels titled {prefix!r}", titles=[a.get_title() for a in axes])
    return m[0]


def panels(axes):
    return [a for a in np.ravel(axes) if a.images]


@scenario("C31", quick=150, thorough=2500, cpu=240, large=(10, 80, 300000))
def pictures(ctx):
    im, dic = make(ctx)
    before = snap(im)
    cmap = ctx.pick(CMAPS)
    lim = limits(ctx)
    fn = ctx.pick(("show", "show_pol_param", "show_pol_param", "show_pol_params", "show_with_pol_params", "show_single_pol_images", "show_demo_images", "plain"))
    if fn == "show_demo_images" and im.demosaiced_images is None:
        ctx.run(im.demosaic, ctx.pick(("adjacent", "mean", "spline")))
        before = snap(im)
    origin = ctx.pick((None, "lower", "upper"))
    kw = {"origin": origin} if origin else {}
    P = ref.params(before["Stokes"])
    try:
        if fn == "show":
            fig, ax = ctx.run(im.show, cmap=cmap, **lim, **kw)
            judge(ctx, ax, before["data"], fn, cmap, lim, origin)
        elif fn == "plain":
            x = ml.Image(np.array(before["data"]))
            fig, ax = ctx.run(x.show, cmap=cmap, **lim, **kw)
            judge(ctx, ax, before["data"], fn, cmap, lim, origin)
            ctx.eq(x.data, before["data"], "image-changed", "plain image after show")
        elif fn == "show_pol_param":
            n = ctx.pick(list(TITLES))
            fig, ax = ctx.run(im.show_pol_param, n, cmap=cmap, **lim, **kw)
            judge(ctx, ax, getattr(im, n).data, f"{fn} {n}", cmap, lim, origin)
            ctx.close(np.ma.filled(shown(ax).get_array().astype(float), np.nan), np.where(np.isfinite(P[n]), P[n], np.nan), "wrong-values", f"{fn} {n}", rtol=1e-9)
            ctx.ok(ax.get_title() == TITLES[n], "wrong-title", f"{n}: {ax.get_title()}")
        elif fn in ("show_pol_params", "show_with_pol_params"):
            r = ctx.run(getattr(im, fn), cmap=cmap)
            if fn == "show_with_pol_params":
                judge(ctx, r[1], before["data"], fn + " data", cmap)
                r = r[2:]
            ps = panels(r[1])
            ctx.ok(len(ps) == 6, "wrong-place", f"{len(ps)} panels")
            for n in TITLES:
                judge(ctx, by_title(ctx, ps, TITLES[n], fn), getattr(im, n).data, f"{fn} {n}", cmap)
        elif fn == "show_single_pol_images":
            fig, axes = ctx.run(im.show_single_pol_images, cmap=cmap, **lim, **kw)
            fam = ref.split(before["data"])
            for a in gen.ANGLES:
                judge(ctx, by_title(ctx, panels(axes), f"{a} deg orientation pixels", fn), fam[dic[a]], f"{fn} {a}", cmap, lim, origin)
        else:
            fig, axes = ctx.run(im.show_demo_images, cmap=cmap, **lim, **kw)
            for a in gen.ANGLES:
                judge(ctx, by_title(ctx, panels(axes), f"Demosaiced image {a}", fn), before["demosaiced"][dic[a]], f"{fn} {a}", cmap, lim, origin)
        if ctx.chance(0.03):
            for k in plt.get_fignums():
                ctx.run(plt.figure(k).canvas.draw)
            ctx.ev("figures rendered")
    finally:
        plt.close("all")
    d = same(before, snap(im))
    ctx.ok(not d, "image-changed", f"{fn} changed the {d}")
    ctx.ev(f"{fn} calls")
    ctx.sig(fn, before["data"].shape, lim, cmap, origin, float(np.nansum(before["data"])))
    ctx.sample(function=fn, limits=lim, shape=before["data"].shape)


def steps(ax):
    from matplotlib.patches import StepPatch

    return [p for p in ax.patches if isinstance(p, StepPatch)]


@scenario("C31", quick=6, thorough=60, cpu=240)
def frames(ctx):
    """Images of a camera's size (the artists are looked at, nothing is rendered)."""
    h, w = ctx.integer(500, 1500) * 2, ctx.integer(500, 1500) * 2
    a = ctx.rng.uniform(0, 4096, (h, w))
    dic = gen.angle_dic(ctx)
    im = ctx.run(ml.MicropolImage, a.copy(), angle_dic=dict(dic))
    try:
        if ctx.chance(0.5):
            x = ml.Image(a.copy())
            judge(ctx, ctx.run(x.show)[1], a, f"show of a {h}x{w} plain image", "Greys_r")
            ctx.eq(x.data, a, "image-changed", "plain image after show")
        else:
            judge(ctx, ctx.run(im.show)[1], a, f"show of {h}x{w}", "Greys_r")
        n = ctx.pick(list(TITLES))
        judge(ctx, ctx.run(im.show_pol_param, n)[1], getattr(im, n).data, f"show_pol_param {n} of {h}x{w}")
        fig, axes = ctx.run(im.show_single_pol_images)
        fam = ref.split(a)
        for v in gen.ANGLES:
            judge(ctx, by_title(ctx, panels(axes), f"{v} deg orientation pixels", "single"), fam[dic[v]], f"show_single_pol_images {v} of {h}x{w}")
    finally:
        plt.close("all")
    ctx.eq(im.data, a, "image-changed", "after the display functions")
    ctx.ev("frames shown")
    ctx.sig("frame", h, w, n)


@scenario("C31", quick=100, thorough=1500, large=(6, 60, 1_000_000))
def histograms(ctx):
    im, dic = make(ctx)
    before = snap(im)
    data = before["data"].astype(float)
    kw = {}
    if ctx.chance(0.6):
        kw["bins"] = ctx.pick((1, 7, 10, 64))
    if ctx.chance(0.5):
        kw["range"] = ctx.pick(((0, 500), (0.0, 4096.0), (-20, 3000)))
    if "range" not in kw and ctx.chance(0.2):
        kw["bins"] = np.linspace(data.min(), data.max() + 1, 9)
    which = ctx.pick(("default", "split", "joint", "plain"))
    try:
        if which == "plain":
            x = ml.Image(np.array(before["data"]))
            fig, ax = ctx.run(x.show_histogram, **kw)
            ctx.eq(x.data, before["data"], "image-changed", "plain image after show_histogram")
        elif which == "default":
            fig, ax = ctx.run(im.show_histogram, **kw)
        else:
            fig, ax = ctx.run(im.show_histogram, split_pols=which == "split", **kw)
        st = steps(ax)
        total = [p for p in st if "otal" in str(p.get_label())]
        parts = [p for p in st if p not in total]
        ctx.ok(len(total) == 1, "nothing-drawn", "the total histogram", labels=[p.get_label() for p in st])
        v, e, _ = total[0].get_data()
        wv, we = np.histogram(before["data"], **kw)
        ctx.eq(v, wv, "wrong-counts", "total histogram")
        ctx.close(e, we, "wrong-edges", "total histogram", rtol=1e-12)
        r = kw.get("range")
        inside = data.size if r is None else np.count_nonzero((data >= r[0]) & (data <= r[1]))
        ctx.ok(np.sum(v) == inside, "pixels-lost", f"{np.sum(v)} pixels counted of {inside}")
        ctx.ev("histograms checked")
        if which in ("default", "split"):
            ctx.ok(len(parts) == 4, "nothing-drawn", "the four families' histograms")
            fam = ref.split(before["data"])
            for p in parts:
                i = int(str(p.get_label()).split()[-1])
                v, e, _ = p.get_data()
                wv, we = np.histogram(fam[i], **kw)
                ctx.eq(v, wv, "wrong-counts", f"histogram of family {i}")
                ctx.close(e, we, "wrong-edges", f"histogram of family {i}", rtol=1e-12)
                ctx.ev("family histograms checked")
        elif which == "joint":
            ctx.ok(not parts, "wrong-place", "family histograms although not asked for")
    finally:
        plt.close("all")
    d = same(before, snap(im))
    ctx.ok(not d, "image-changed", f"show_histogram changed the {d}")
    ctx.sig("histogram", which, sorted(kw), float(np.nansum(data)))


@scenario("C31", quick=15, thorough=200)
def tensors(ctx):
    half = (ctx.integer(1, 6), ctx.integer(1, 6))
    m = ctx.rng.normal(0, 1, (3, 4, *half))
    write_tensor(ctx.path("t"), m, None)
    d = ml.Demodulator(ctx.path("t"))
    lim = ctx.pick(({}, dict(vmin=0, vmax=2.5), dict(vmin=-0.25, vmax=0)))
    cmap = ctx.pick(CMAPS)
    try:
        fig, axes = ctx.run(d.show, cmap=cmap, dpi=50, **lim)
        for i in range(3):
            for j in range(4):
                ax = by_title(ctx, panels(axes), f"M$_{i}$$_{j}$", "Demodulator.show")
                judge(ctx, ax, m[i, j], f"M{i}{j}", cmap, lim)
    finally:
        plt.close("all")
    ctx.eq(d.mij, m, "image-changed", "the tensor")
    ctx.ev("tensors shown")
    ctx.sig("tensor", half, lim, cmap)
