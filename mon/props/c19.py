"""C19: measurement errors follow the first-order law."""
import numpy as np

import micropolarray as ml
from micropolarray.processing import demodulation_errors as de
from mon import gen, ref
from mon.core import scenario
from mon.session import write_tensor


def derivative(fn, S, k):
    """4th-order central difference of fn along Stokes component k; angles unwrapped."""
    h = 1e-3 * np.hypot(S[1], S[2]) if k else 1e-3 * np.abs(S[0])
    e = np.zeros_like(S)
    e[k] = 1.0
    base = fn(S)

    def f(c):
        d = fn(S + c * h * e) - base
        if fn is aolp:
            d = np.mod(d + np.pi / 2, np.pi) - np.pi / 2
        return d

    return (8 * (f(1) - f(-1)) - (f(2) - f(-2))) / (12 * h)


def pb(S):
    return np.hypot(S[1], S[2])


def dolp(S):
    return np.hypot(S[1], S[2]) / S[0]


def aolp(S):
    return 0.5 * np.arctan2(S[2], S[1])


FORMULAS = {"pB": pb, "DoLP": dolp, "AoLP": aolp}


def propagated(S, sig, fn):
    return np.sqrt(sum((derivative(fn, S, k) * sig[k]) ** 2 for k in range(3)))


def stokes_field(ctx, half):
    """Stokes vectors with I and pB non-zero; Q or U alone is often exactly zero."""
    r = ctx.rng
    I = 10 ** r.uniform(0, 5, half) * np.where(r.random(half) < 0.1, -1, 1)
    p, a = 10 ** r.uniform(-2, 0, half), r.uniform(-np.pi / 2, np.pi / 2, half)
    Q, U = np.abs(I) * p * np.cos(2 * a), np.abs(I) * p * np.sin(2 * a)
    z = r.random(half)
    Q0, U0 = z < 0.2, (z > 0.2) & (z < 0.4)
    U[Q0] = np.where(U[Q0] == 0, 1.0, U[Q0])
    Q[U0] = np.where(Q[U0] == 0, 1.0, Q[U0])
    Q[Q0], U[U0] = 0.0, 0.0
    ctx.ev("superpixels with Q = 0", int(Q0.sum()))
    ctx.ev("superpixels with U = 0", int(U0.sum()))
    return np.stack([I, Q, U])


def errors_of(ctx, S, sig):
    return {
        "pB": ctx.run(de.get_error_on_pB, S, sig),
        "DoLP": ctx.run(de.get_error_on_DoLP, S, sig),
        "AoLP": ctx.run(de.get_error_on_AoLP, S, sig),
    }


def judge(ctx, got, S, sig, what):
    for n, fn in FORMULAS.items():
        g = np.asarray(got[n], float)
        ctx.ok(np.all(g >= 0) and np.all(np.isfinite(g)), "negative-or-not-finite", f"error on {n}, {what}", got=g)
        ctx.close(g, propagated(S, sig, fn), "wrong-propagation", f"error on {n}, {what}", rtol=1e-6, atol=0)
        ctx.ev(f"errors on {n}", g.size)


@scenario("C19", quick=500, thorough=8000, large=(8, 80, 300000))
def parameters(ctx):
    half = gen.dims(ctx, 1, 12)
    S = stokes_field(ctx, half)
    sig = np.abs(S[0]) * 10 ** ctx.rng.uniform(-4, -1, (3, *half))
    z = ctx.pick((None, 0, 1, 2))
    if z is not None and ctx.chance(0.3):
        sig[z] = 0  # error of one component only
    S0, s0 = S.copy(), sig.copy()
    got = errors_of(ctx, S, sig)
    judge(ctx, got, S, sig, f"zero component {z}")
    ctx.ok(np.array_equal(S, S0) and np.array_equal(sig, s0), "argument-changed", "Stokes vector or errors")
    k = ctx.pick((2.0, 0.5, 1e-3, 300.0))
    for n, g in errors_of(ctx, S, k * sig).items():
        ctx.close(g, k * got[n], "not-linear", f"error on {n} with {k} times the errors", rtol=1e-9, atol=0)
    ctx.sig(half, z, float(S.sum()))


@scenario("C19", quick=400, thorough=6000, large=(8, 80, 300000))
def stokes(ctx):
    shp = gen.shape(ctx, 1, 10)
    half = (shp[0] // 2, shp[1] // 2)
    m = ctx.rng.normal(0, 1, (3, 4, *half))
    if ctx.chance(0.2):
        m[ctx.integer(0, 2), ctx.integer(0, 3)] = 0
    f = (ctx.rng.random(half) < 0.6).astype(float) if ctx.chance(0.5) else None
    write_tensor(ctx.path("t"), m, f)
    d = ctx.run(ml.Demodulator, ctx.path("t"))
    err = np.abs(gen.values(ctx, shp, ctx.pick(("uniform", "ids", "wide", "sparse"))))
    if ctx.chance(0.2):
        err = np.rint(np.clip(err, 0, 250)).astype(ctx.pick(("uint8", "int64")))
    err0 = err.copy()
    got = ctx.run(de.get_error_on_Stokes, err, d)
    s = ref.split(err)
    exp = np.sqrt(np.einsum("ijyx,jyx->iyx", m**2, s**2))
    ctx.close(got, exp, "wrong-propagation", "error on the Stokes vector", rtol=1e-12, atol=0)
    ctx.ok(np.all(np.asarray(got) >= 0), "negative-or-not-finite", "error on the Stokes vector")
    ctx.eq(err, err0, "argument-changed", "pixel errors")
    if err.dtype == float:
        k = ctx.pick((3.0, 0.25, 1e4))
        ctx.close(ctx.run(de.get_error_on_Stokes, k * err, d), k * exp, "not-linear", f"{k} times the pixel errors", rtol=1e-12, atol=0)
    ctx.ev("Stokes errors", exp.size)
    ctx.sig(shp, f is None, str(err.dtype), float(m.sum()))


@scenario("C19", quick=150, thorough=2500, large=(4, 40, 60000))
def whole_image(ctx):
    """MicropolImageError of a demodulated image, against the spread of repeated measurements' linear law."""
    half = gen.dims(ctx, 1, 8)
    shp = (2 * half[0], 2 * half[1])
    S = stokes_field(ctx, half)
    base = ref.theo_matrix([0, 45, -45, 90])
    m = base[:, :, None, None] * ctx.rng.uniform(0.8, 1.2, (3, 4, *half))
    # an image whose demodulated Stokes vector is S: least-norm pixels
    M = np.moveaxis(m, (0, 1), (2, 3))
    P = np.einsum("yxji,iyx->jyx", np.linalg.pinv(M), S)
    a = ref.merge(P)
    write_tensor(ctx.path("t"), m, None)
    d = ctx.run(ml.Demodulator, ctx.path("t"))
    im = ctx.run(lambda: ml.MicropolImage(a).demodulate(d))
    Sd = np.asarray(im.Stokes_vec)
    err = np.abs(a) * 0.01 + 0.1
    e = ctx.run(de.MicropolImageError, im, err, d)
    sig = np.sqrt(np.einsum("ijyx,jyx->iyx", m**2, ref.split(err) ** 2))
    ctx.close(e.sigma_S, sig, "wrong-propagation", "sigma_S", rtol=1e-12, atol=0)
    judge(ctx, {"pB": e.sigma_pB, "DoLP": e.sigma_DoLP, "AoLP": e.sigma_AoLP}, Sd, sig, "whole image")
    ctx.sig(half, float(a.sum()))
    ctx.sample(half=half, sigma_AoLP=e.sigma_AoLP)
