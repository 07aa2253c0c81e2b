"""C14: demodulation is the superpixel-wise product with the tensor."""
import numpy as np

import micropolarray as ml
from mon import gen, ref
from mon.core import scenario
from mon.session import same, snap, write_tensor


def tensor(ctx, half, kind):
    if kind == "unit":  # one element 1: shows which pixel went where
        m = np.zeros((3, 4, *half))
        m[ctx.integer(0, 2), ctx.integer(0, 3)] = 1.0
    elif kind == "ids":  # every matrix element of every superpixel its own number
        m = ctx.rng.permutation(12 * half[0] * half[1]).reshape(3, 4, *half).astype(float)
    elif kind == "ideal":
        m = np.broadcast_to(ref.theo_matrix([0, 45, -45, 90])[:, :, None, None], (3, 4, *half)).copy()
        m += ctx.rng.normal(0, 0.05, m.shape)
    else:
        m = ctx.rng.normal(0, 2, (3, 4, *half))
    return m


def flags_of(ctx, half):
    k = ctx.pick(("none", "mixed", "mixed", "mixed", "zeros", "ones"))
    if k == "none":
        return k, None
    if k == "mixed":
        if ctx.chance(0.25):  # a single superpixel is the odd one
            f = np.full(half, float(ctx.integer(0, 1)))
            y, x = ctx.integer(0, half[0] - 1), ctx.integer(0, half[1] - 1)
            f[y, x] = 1 - f[y, x]
            return k, f
        return k, (ctx.rng.random(half) < ctx.pick((0.1, 0.5, 0.9, 0.995))).astype(float)
    return k, (np.zeros(half) if k == "zeros" else np.ones(half))


def spoil(ctx, m, f):
    """Sometimes the matrices of unfitted superpixels are no numbers at all: (stored, judged)."""
    if f is None or not ctx.chance(0.4) or not (f == 0).any():
        return m, m
    m = m.copy()
    bad, clean = m.copy(), m
    y, x = np.nonzero(f == 0)
    k = ctx.rng.random(y.size) < ctx.pick((0.3, 1.0))
    y, x = y[k], x[k]
    bad[:, :, y, x] = ctx.pick((np.nan, np.inf, -np.inf, 1e300))
    clean[:, :, y, x] = 0
    ctx.ev("unfitted superpixels with unusable matrices", int(y.size))
    return bad, clean


@scenario("C14", quick=700, thorough=12000, large=(10, 80, 4000000))
def superpixels(ctx):
    """demosaicing=False: S_i = sum_j M_ij P_j per superpixel, theoretical where not fitted."""
    shp = gen.shape(ctx, 1, 14)
    half = (shp[0] // 2, shp[1] // 2)
    dic = gen.angle_dic(ctx)
    a = gen.image_array(ctx, shp)
    kind = ctx.pick(("unit", "ids", "ideal", "normal"))
    m = tensor(ctx, half, kind)
    fk, f = flags_of(ctx, half)
    folder = ctx.path("tensor")
    bad_m, m = spoil(ctx, m, f)
    write_tensor(folder, bad_m, f)
    d = ctx.run(ml.Demodulator, folder)
    im = ctx.run(ml.MicropolImage, a, angle_dic=dic)
    im.header["KEEP"] = 4
    before = snap(im)
    mij0 = d.mij.copy()
    out = ctx.run(im.demodulate, d)
    P = ref.split(a)
    exp = np.einsum("ijyx,jyx->iyx", m, P)
    theo = ref.stokes(P, dic)
    scale = np.einsum("ijyx,jyx->iyx", np.abs(m), np.abs(P))
    if f is not None:
        exp = np.where(f == 1, exp, theo)
    tol = 1e-12 * (scale + np.abs(theo).max(axis=0)) + 1e-300
    S = np.asarray(out.Stokes_vec, float)
    ctx.ok(S.shape == exp.shape, "wrong-shape", f"{S.shape}, expected {exp.shape}")
    bad = ~(np.abs(S - exp) <= tol)  # nan is wrong
    if f is not None:
        ctx.ok(not bad[:, f == 0].any(), "not-theoretical", "unfitted superpixels do not hold the theoretical Stokes parameters", flags=f, actual=S, expected=exp)
        ctx.ev("unfitted superpixels", int((f == 0).sum()))
    ctx.ok(not bad.any(), "wrong-product", f"{int(bad.any(axis=0).sum())} of {bad[0].size} superpixels wrong", actual=S, expected=exp)
    ctx.ev("fitted superpixels", int(half[0] * half[1] if f is None else (f == 1).sum()))
    # parameters derived from it
    par = ref.params(S)
    for name in ("I", "Q", "U", "pB", "AoLP", "DoLP"):
        ctx.close(getattr(out, name).data, par[name], "wrong-parameter", name, rtol=1e-12)
    ctx.eq(out.data, a, "data-changed", "demodulated image's data")
    w = same(snap(im), before)
    ctx.ok(not w, "original-changed", f"{w} of the original")
    ctx.eq(d.mij, mij0, "tensor-changed", "tensor")
    ctx.ok(out.angle_dic == dic, "wrong-orientation", f"{out.angle_dic}")
    # a second demodulation of the same image gives the same
    ctx.eq(ctx.run(im.demodulate, d).Stokes_vec, S, "not-reproducible", "demodulating twice")
    ctx.sig(shp, kind, fk, list(dic.items()), a.dtype, float(np.abs(P).sum()))
    ctx.sample(shape=shp, tensor=kind, flags=fk, dic=dic)


@scenario("C14", quick=350, thorough=6000, large=(10, 80, 1000000))
def full_resolution(ctx):
    """demosaicing=True: each superpixel's matrix and flag for its four pixels."""
    shp = gen.shape(ctx, 1, 9)
    half = (shp[0] // 2, shp[1] // 2)
    dic = gen.angle_dic(ctx)
    a = gen.image_array(ctx, shp, kind=ctx.pick(("ids", "uniform", "uint12", "signed")))
    kind = ctx.pick(("unit", "ids", "ideal", "normal"))
    m = tensor(ctx, half, kind)
    fk, f = flags_of(ctx, half)
    folder = ctx.path("tensor")
    bad_m, m = spoil(ctx, m, f)
    write_tensor(folder, bad_m, f)
    d = ctx.run(ml.Demodulator, folder)
    im = ctx.run(ml.MicropolImage, a, angle_dic=dic)
    if ctx.chance(0.3):
        ctx.run(im.demosaic, "adjacent")
    before = snap(im)
    out = ctx.run(im.demodulate, d, demosaicing=True)
    planes = ref.demosaic_adjacent(a)
    M = np.repeat(np.repeat(m, 2, axis=2), 2, axis=3)
    exp = np.einsum("ijyx,jyx->iyx", M, planes)
    theo = ref.stokes(planes, dic)
    scale = np.einsum("ijyx,jyx->iyx", np.abs(M), np.abs(planes)) + np.abs(theo).max(axis=0)
    if f is not None:
        F = np.repeat(np.repeat(f, 2, 0), 2, 1)
        exp = np.where(F == 1, exp, theo)
    S = np.asarray(out.Stokes_vec, float)
    ctx.ok(S.shape == exp.shape, "wrong-shape", f"{S.shape}, expected {exp.shape}")
    tol = (1e-12 if a.dtype != np.float32 else 1e-6) * scale + 1e-300
    bad = ~(np.abs(S - exp) <= tol)  # nan is wrong
    if f is not None:
        ctx.ok(not bad[:, F == 0].any(), "not-theoretical", "unfitted pixels do not hold the theoretical Stokes parameters", flags=f, actual=S, expected=exp)
        ctx.ev("unfitted pixels, full resolution", int((F == 0).sum()))
    ctx.ok(not bad.any(), "wrong-product", f"{int(bad.any(axis=0).sum())} of {bad[0].size} pixels wrong", actual=S, expected=exp)
    ctx.eq(out.data, a, "data-changed", "demodulated image's data")
    w = same(snap(im), before)
    ctx.ok(not w, "original-changed", f"{w} of the original")
    ctx.ev("pixels, full resolution", shp[0] * shp[1])
    ctx.sig(shp, kind, fk, list(dic.items()), a.dtype, float(np.abs(a.astype(float)).sum()))
    ctx.sample(shape=shp, tensor=kind, flags=fk, dic=dic)


@scenario("C14", quick=160, thorough=2500)
def other_size(ctx):
    """A tensor of another size is refused, also where it would broadcast."""
    shp = gen.shape(ctx, 1, 8)
    half = (shp[0] // 2, shp[1] // 2)
    how = ctx.pick(("one", "row", "col", "double", "transposed", "random", "bigger"))
    other = {
        "one": (1, 1),
        "row": (1, half[1]),
        "col": (half[0], 1),
        "double": (shp[0], shp[1]),
        "transposed": (half[1], half[0]),
        "random": (ctx.integer(1, 9), ctx.integer(1, 9)),
        "bigger": (half[0] + 1, half[1]),
    }[how]
    if other == half:
        other = (half[0] + 1, half[1] + 1)
    m = ctx.rng.normal(0, 1, (3, 4, *other))
    folder = ctx.path("tensor")
    write_tensor(folder, m, np.ones(other) if ctx.chance(0.6) else None)
    d = ctx.run(ml.Demodulator, folder)
    im = ctx.run(ml.MicropolImage, gen.values(ctx, shp, "uniform"))
    before = snap(im)
    for demos in (False, True):
        ctx.refuses(im.demodulate, d, demosaicing=demos, kind="size-not-refused", what=f"tensor {other} on {half} superpixels (demosaicing={demos})")
    w = same(snap(im), before)
    ctx.ok(not w, "original-changed", f"{w} of the original after a refusal")
    ctx.ev("sizes refused", 2)
    ctx.sig(how, other, half)


@scenario("C14", quick=60, thorough=1000)
def in_a_pipeline(ctx):
    """Demodulation of images that came out of other operations uses their current data."""
    shp = (2 * ctx.integer(2, 6), 2 * ctx.integer(2, 6))
    dic = gen.angle_dic(ctx)
    im = ctx.run(ml.MicropolImage, gen.values(ctx, shp, "uniform"), angle_dic=dic)
    h = []
    for _ in range(ctx.integer(1, 4)):
        op = ctx.pick(("add", "shift", "rebin", "dark", "flat", "ifov", "demosaic", "demod"))
        cur = im.data.shape
        h.append(op)
        if op == "add":
            im = ctx.run(lambda: im + 3.5)
        elif op == "shift":
            im = ctx.run(im.shift, 1, -1)
        elif op == "rebin" and min(cur) >= 8:
            im = ctx.run(im.rebin, 2)
        elif op == "dark":
            ctx.run(im.subtract_dark, ctx.run(ml.MicropolImage, gen.values(ctx, cur, "uniform") / 40))
        elif op == "flat":
            ctx.run(im.correct_flat, ctx.run(ml.MicropolImage, ctx.rng.uniform(1, 2, cur)))
        elif op == "ifov":
            ctx.run(im.correct_ifov)
        elif op == "demosaic":
            ctx.run(im.demosaic)
        elif op == "demod":
            m = ctx.rng.normal(0, 1, (3, 4, cur[0] // 2, cur[1] // 2))
            write_tensor(ctx.path(f"t{len(h)}"), m, flags_of(ctx, (cur[0] // 2, cur[1] // 2))[1])
            im = ctx.run(im.demodulate, ctx.run(ml.Demodulator, ctx.path(f"t{len(h)}")), demosaicing="demosaic" in h or ctx.chance(0.3))
    shp = im.data.shape
    half = (shp[0] // 2, shp[1] // 2)
    m = ctx.rng.normal(0, 1, (3, 4, *half))
    fk, f = flags_of(ctx, half)
    bad_m, m = spoil(ctx, m, f)
    write_tensor(ctx.path("t"), bad_m, f)
    full = ctx.chance(0.8 if "demosaic" in h else 0.3)
    out = ctx.run(im.demodulate, ctx.run(ml.Demodulator, ctx.path("t")), demosaicing=full)
    if full:
        planes, M = ref.demosaic_adjacent(im.data), np.repeat(np.repeat(m, 2, 2), 2, 3)
    else:
        planes, M = ref.split(im.data), m
    exp = np.einsum("ijyx,jyx->iyx", M, planes)
    scale = np.einsum("ijyx,jyx->iyx", np.abs(M), np.abs(planes))
    if f is not None:
        F = np.repeat(np.repeat(f, 2, 0), 2, 1) if full else f
        theo = ref.stokes(planes, dic)
        exp = np.where(F == 1, exp, theo)
        scale = scale + np.abs(planes).sum(axis=0)
    S = np.asarray(out.Stokes_vec, float)
    ctx.ok(S.shape == exp.shape, "wrong-shape", f"{S.shape}, expected {exp.shape}, after {h}, full resolution {full}")
    bad = ~(np.abs(S - exp) <= 1e-11 * scale + 1e-300)
    if f is not None:
        ctx.ok(not bad[:, F == 0].any(), "not-theoretical", f"after {h}, flags {fk}, full resolution {full}", actual=S, expected=exp)
    ctx.ok(not bad.any(), "wrong-product", f"after {h}, flags {fk}, full resolution {full}", actual=S, expected=exp)
    ctx.ev("demodulations in a pipeline")
    ctx.ev("demodulations in a pipeline with flags", f is not None)
    ctx.sig(shp, full, fk, *h)
