import numpy as np

import micropolarray as ml
from mon import gen, ref
from mon.core import scenario


@scenario("C07", quick=300, thorough=6000, large=(8, 80, 4000000))
def resize_families(ctx):
    a = gen.image_array(ctx, lo=1, hi=12)
    H, W = (ctx.integer(2, 700), ctx.integer(2, 700)) if ctx.large else (ctx.integer(2, 30), ctx.integer(2, 30))
    k = ctx.integer(0, 9)
    if k == 0:
        H, W = a.shape
    elif k == 1:  # as many pixels, another form
        W, H = a.shape
    elif k == 2:
        n = a.size // 4
        d = ctx.pick([v for v in range(1, n + 1) if n % v == 0])
        H, W = 2 * d, 2 * (n // d)
    elif k == 3:  # one side kept
        H, W = ctx.pick(((a.shape[0], W), (H, a.shape[1]), (a.shape[0] + 1, W), (2 * a.shape[0], 2 * a.shape[1])))
    im = ctx.run(ml.MicropolImage, a, angle_dic=gen.angle_dic(ctx))
    r = ctx.run(im.congrid, H, W)
    eh, ew = H - H % 2, W - W % 2
    ctx.ok(r.data.shape == (eh, ew), "wrong-size", f"asked ({H},{W}), got {r.data.shape}")
    scale = float(np.max(np.abs(np.asarray(a, float))))
    f = ref.split(r.data)
    for k, p in enumerate(ref.split(a)):
        exp = ref.congrid(p, (eh // 2, ew // 2))
        ctx.close(f[k], exp, "wrong-interpolation", f"family {k} {a.shape}->({H},{W})", scale=scale)
        ctx.ok(f[k].min() >= p.min() - 1e-9 * scale and f[k].max() <= p.max() + 1e-9 * scale, "range-exceeded", f"family {k}")
        yy, xx = ([0, -1] if eh > 2 else [0]), ([0, -1] if ew > 2 else [0])
        for y in yy:
            for x in xx:
                ctx.close(f[k][y, x], p[y, x], "corner-lost", f"family {k} corner {y},{x}", scale=scale)
    if (eh, ew) == a.shape:
        ctx.close(r.data, np.asarray(a, float), "not-identity", "resize to the same size", scale=scale)
        ctx.ev("same size")
    ctx.eq(im.data, a, "operand-changed", "congrid changed its operand")
    ctx.ev("odd size asked" if (H % 2 or W % 2) else "even size asked")
    ctx.sig(a.shape, H, W, a.dtype)
    ctx.sample(shape=a.shape, to=(H, W))


@scenario("C07", quick=120, thorough=2000, large=(4, 40, 1000000))
def ramps_and_function(ctx):
    """The plain congrid function, and exactness on linear ramps."""
    h, w = gen.dims(ctx, 2, 20)
    H, W = ctx.integer(2, 40), ctx.integer(2, 40)
    al, be, c = (float(v) for v in ctx.rng.integers(-20, 21, 3))
    y, x = np.mgrid[0:h, 0:w]
    r = ctx.run(ml.congrid, al * y + be * x + c, (H, W))
    Y, X = np.mgrid[0:H, 0:W]
    exp = al * Y * (h - 1) / (H - 1) + be * X * (w - 1) / (W - 1) + c
    ctx.close(r, exp, "ramp-not-linear", f"({h},{w})->({H},{W})", scale=45.0 * max(h, w))
    a = gen.image_array(ctx, (h, w))
    r = ctx.run(ml.congrid, a, ctx.pick(([H, W], (H, W))))
    ctx.close(r, ref.congrid(a, (H, W)), "wrong-interpolation", "congrid", scale=float(np.max(np.abs(np.asarray(a, float)))))
    ctx.sig(h, w, H, W, al, be)


OFFSET = 1.0e6  # four families below 2**22: exact also in single precision


def disjoint_ids(ctx, hs, ws):
    n = hs * ws
    p = np.stack([ctx.rng.permutation(n).reshape(hs, ws) + 1 + k * OFFSET for k in range(4)])
    return p


@scenario("C07", quick=250, thorough=5000, large=(10, 100, 4000000))
def rotate_families(ctx):
    square = ctx.chance(0.5)
    hs = ctx.integer(1, 12)
    ws = hs if square else ctx.integer(1, 12)
    if ctx.large:
        hs, ws = (v // 2 for v in gen.shape(ctx, square=square))
    p = disjoint_ids(ctx, hs, ws)
    im = ctx.run(ml.MicropolImage, ref.merge(p), angle_dic=gen.angle_dic(ctx))
    if ctx.chance(0.45):
        ang = 90 * ctx.integer(-5, 5)
    else:
        ang = float(ctx.rng.uniform(-400, 400))
    r = ctx.run(im.rotate, ang)
    ctx.ok(r.data.shape == im.data.shape, "wrong-size", f"rotate {ang}: {r.data.shape}")
    f = ref.split(r.data)
    if ang % 90 == 0 and (square or ang % 180 == 0):
        for k in range(4):
            ctx.eq(f[k], np.rot90(p[k], k=int(ang // 90)), "wrong-rotation", f"family {k} by {ang} deg")
        ctx.close(r.Stokes_vec, ref.stokes(f, im.angle_dic), "wrong-rotation", "Stokes rotated with the data", scale=4 * OFFSET)
        ctx.ev("exact quarter turns")
    else:
        t = np.deg2rad(ang)
        cy, cx = (hs - 1) / 2, (ws - 1) / 2
        Y, X = np.mgrid[0:hs, 0:ws]
        # counter-clockwise on screen (y down): source of each target pixel
        sx = np.cos(t) * (X - cx) - np.sin(t) * (Y - cy) + cx
        sy = np.sin(t) * (X - cx) + np.cos(t) * (Y - cy) + cy
        out = (sy < -0.75) | (sx < -0.75) | (sy > hs - 0.25) | (sx > ws - 0.25)
        deep = (sy >= 0) & (sy <= hs - 1) & (sx >= 0) & (sx <= ws - 1)
        n = hs * ws
        for k in range(4):
            v = f[k]
            lost = (v == 0) & deep
            ctx.ok(not lost.any(), "pixel-lost", f"family {k}: pixels {np.argwhere(lost)[:3].tolist()} empty at {ang} deg")
            own = (v > k * OFFSET) & (v <= k * OFFSET + n) & (v == np.rint(v))
            ctx.ok(np.all(own | (v == 0)), "family-mixed", f"family {k} holds {v[~own & (v != 0)][:3]}, not its pixels")
            ctx.ok(not np.any((v != 0) & out), "not-filled", f"family {k}: uncovered pixels hold values at {ang} deg")
            src = np.empty((n + 1, 2))
            src[(p[k] - k * OFFSET).astype(int).ravel()] = np.argwhere(np.ones((hs, ws), bool))
            q = src[np.where(own, v - k * OFFSET, 0).astype(int)]
            far = own & ((np.abs(q[..., 0] - sy) > 1.01) | (np.abs(q[..., 1] - sx) > 1.01))
            ctx.ok(not far.any(), "wrong-rotation", f"family {k} at {ang} deg: {np.argwhere(far)[:3].tolist()} hold pixels from elsewhere")
        ctx.ev("free angles")
    # every value as it is, not only those a single precision number can hold
    vals = ctx.rng.normal(0, 1, 4 * hs * ws + 1) * 10.0 ** ctx.integer(-12, 12)
    vals[0] = 0
    n = hs * ws
    num = np.stack([(p[k] - k * OFFSET + k * n).astype(int) for k in range(4)])
    got = np.stack([np.where(f[k] > 0, f[k] - k * OFFSET + k * n, 0).astype(int) for k in range(4)])
    r2 = ctx.run(ctx.run(ml.MicropolImage, ref.merge(vals[num]), angle_dic=im.angle_dic).rotate, ang)
    ctx.eq(ref.split(r2.data), vals[got], "value-changed", f"rotate {ang} of an image of arbitrary numbers")
    ctx.sig(hs, ws, round(ang, 3))
    ctx.sample(family_shape=(hs, ws), angle=ang)
