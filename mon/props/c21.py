"""C21: NRGF normalises every ring to zero mean and unit deviation."""
import contextlib
import io

import numpy as np

import micropolarray as ml
from mon import gen, ref
from mon.core import scenario


def quiet(fn, *a, **k):
    with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
        return fn(*a, **k)


def reference(a, cy, cx, rho_min, step, mean_phi, out_phi):
    """(expected, judged): judged excludes rings whose deviation is rounding noise."""
    a = np.asarray(a, float)
    d, phi = ref.polar(*a.shape, cy, cx)
    out = np.zeros(a.shape)
    judged = np.ones(a.shape, bool)
    rmax = int(np.ceil(d.max()))
    msel = (phi >= mean_phi[0]) & (phi < mean_phi[1])
    osel = (phi >= out_phi[0]) & (phi < out_phi[1])
    for r in range(rho_min, rmax, step):
        ring = (d > r) & (d <= r + step)
        v = a[ring & msel]
        if v.size == 0:
            continue
        mu, sd = v.mean(), v.std()
        if np.ptp(v) == 0:
            if not float(v[0]).is_integer():
                judged &= ~ring
            continue
        if sd < 1e-7 * np.abs(v).max():
            judged &= ~ring
            continue
        s = ring & osel
        out[s] = (a[s] - mu) / sd
    return out, judged, d, osel


def unsure_angles(h, w, cy, cx, *angles):
    _, phi = ref.polar(h, w, cy, cx)
    u = np.zeros((h, w), bool)
    for t in angles:
        if t % 90:
            u |= np.abs(phi - t) < 1e-9
    return u


def sectors(ctx):
    def one():
        k = ctx.integer(0, 3)
        if k <= 1:
            return [0.0, 360]
        if k == 2:
            return sorted(ctx.pick(((0, 90), (90, 270), (180, 360), (0, 180))))
        a, b = sorted(float(v) for v in ctx.rng.uniform(0, 360, 2))
        return [a, b + 0.5]

    return one(), one()


@scenario("C21", quick=250, thorough=4000, large=(10, 80, 100000))
def rings(ctx):
    h, w = gen.dims(ctx, 3, 40)
    kind = ctx.pick(("uniform", "signed", "uint12", "ids", "constant", "sparse", "corona"))
    if kind == "corona":
        d, _ = ref.polar(h, w, h // 2, w // 2)
        a = 1e4 / (1 + d) ** 2 * ctx.rng.uniform(0.8, 1.2, (h, w))
    else:
        a = gen.values(ctx, (h, w), kind)
    if kind in ("uniform", "signed", "corona") and ctx.chance(0.3):
        a = a * 10.0 ** ctx.integer(-16, 9)
    a = gen.typed(ctx, a, ("float64",) * 3 + ("int64", "uint16", "float32")) if kind != "corona" else a
    cy, cx = ctx.integer(0, h - 1), ctx.integer(0, w - 1)
    rho_min, step = ctx.pick((0, 0, ctx.integer(0, max(h, w) // 2))), ctx.pick((1, 1, 2, 3, 5))
    mp, op = sectors(ctx)
    kw = dict(y_center=ctx.pick((cy, cy + 0.4)), x_center=cx, rho_min=rho_min, step=step, phi_to_mean=mp, output_phi=op)
    if mp == [0.0, 360] and ctx.chance(0.5):
        del kw["phi_to_mean"]
    if op == [0.0, 360] and ctx.chance(0.5):
        del kw["output_phi"]
    a0 = a.copy()
    got = ctx.run(quiet, ml.nrgf, a, **kw)
    exp, judged, d, osel = reference(a, cy, cx, rho_min, step, mp, op)
    if unsure_angles(h, w, cy, cx, *mp, *op).any():
        ctx.comparisons += 1
        return
    rt = 1e-7 if a.dtype != np.float32 else 1e-3
    what = f"{h}x{w}, centre {cy}, {cx}, from {rho_min} step {step}, mean {mp}, output {op}"
    ctx.ok(np.shape(got) == (h, w), "wrong-shape", f"{np.shape(got)}")
    ctx.close(np.where(judged, got, 0), np.where(judged, exp, 0), "wrong-ring", what, rtol=rt, atol=rt)
    ctx.ok(not np.asarray(got)[d <= rho_min].any(), "not-zero-inside", f"inside the minimum radius, {what}")
    ctx.ok(not np.asarray(got)[~osel].any(), "not-zero-outside", f"outside the output sector, {what}")
    ctx.eq(a, a0, "argument-changed", "image")
    ctx.ev("pixels judged", int(judged.sum()))
    ctx.sig(h, w, cy, cx, rho_min, step, str(mp), str(op), kind, a.dtype)
    ctx.sample(case=what, kind=kind)


@scenario("C21", quick=120, thorough=2000)
def invariance(ctx):
    """Scale and offset, and the pixels inside the minimum radius, never matter."""
    h, w = ctx.integer(6, 30), ctx.integer(6, 30)
    a = ctx.rng.integers(0, 4096, (h, w)).astype(float)
    cy, cx = ctx.integer(0, h - 1), ctx.integer(0, w - 1)
    rho_min, step = ctx.integer(1, max(2, min(h, w) // 2)), ctx.pick((1, 2, 4))
    kw = dict(y_center=cy, x_center=cx, rho_min=rho_min, step=step)
    base = np.asarray(ctx.run(quiet, ml.nrgf, a, **kw))
    k, c = ctx.pick((2.0, 0.25, 1024.0)), float(ctx.pick((0, 64, -512, 100000)))
    if ctx.chance(0.5):  # other units: exact in binary, so constant rings stay constant
        k = 2.0 ** ctx.integer(-60, 60)
        c *= k
    got = ctx.run(quiet, ml.nrgf, k * a + c, **kw)
    # rings of equal or nearly equal pixels divide rounding by rounding
    ctx.close(got, base, "scale-dependent", f"image times {k} plus {c}", rtol=1e-5, atol=1e-6)
    d, _ = ref.polar(h, w, cy, cx)
    inner = d <= rho_min
    b = a.copy()
    b[inner] = ctx.rng.uniform(-1e6, 1e6, int(inner.sum()))
    ctx.close(ctx.run(quiet, ml.nrgf, b, **kw), base, "inside-matters", f"pixels inside {rho_min} changed", rtol=1e-12, atol=1e-12)
    ctx.ev("invariances", 2)
    ctx.sig(h, w, cy, cx, rho_min, step, k, c)


@scenario("C21", quick=12, thorough=100)
def own_centre(ctx):
    """Without a centre the occulter's is used."""
    h, w = 2 * ctx.integer(40, 60), 2 * ctx.integer(40, 60)
    y, x, r = h // 2 + ctx.integer(-4, 4), w // 2 + ctx.integer(-4, 4), ctx.integer(12, 18)
    d, _ = ref.polar(h, w, y, x)
    a = 10 + 1000 / (1 + np.exp(-(d - r) / 1.5)) + ctx.rng.normal(0, 2, (h, w))
    from micropolarray.processing.nrgf import find_occulter_position

    cy, cx, cr = ctx.run(find_occulter_position, a)
    got = ctx.run(quiet, ml.nrgf, a)
    exp = ctx.run(quiet, ml.nrgf, a, y_center=cy, x_center=cx, rho_min=cr)
    ctx.eq(got, exp, "wrong-ring", "centre and radius of the found occulter")
    ctx.ok(not np.asarray(got)[d < r - 6].any(), "not-zero-inside", "inside the occulter")
    ctx.ev("occulters found")
    ctx.sig(h, w, y, x, r)
