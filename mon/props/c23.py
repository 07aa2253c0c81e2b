"""C23: linear selections sample the line they were asked for."""
import numpy as np

import micropolarray as ml
from mon import gen
from mon.core import scenario


@scenario("C23", quick=4000, thorough=60000, large=(60, 1000, 4_000_000))
def between_pixels(ctx):
    h, w = gen.dims(ctx, 1, 60)
    if h * w < 2:
        w = 5
    a = gen.typed(ctx, gen.values(ctx, (h, w), "ids"), ("float64", "int64", "float32"))
    while True:
        s, e = [(ctx.integer(0, h - 1), ctx.integer(0, w - 1)) for _ in range(2)]
        if s != e:
            break
    k = ctx.integer(0, 5)
    if k == 0 and w > 1:  # horizontal
        e = (s[0], (s[1] + ctx.integer(1, w - 1)) % w)
    elif k == 1 and h > 1:  # vertical
        e = ((s[0] + ctx.integer(1, h - 1)) % h, s[1])
    elif k == 2:  # corner to corner
        s, e = ctx.pick((((0, 0), (h - 1, w - 1)), ((h - 1, 0), (0, w - 1)), ((h - 1, w - 1), (0, 0)), ((0, w - 1), (h - 1, 0))))
    form = ctx.pick((list, tuple, np.array))
    S, E = form(s), form(e)
    a0 = a.copy()
    ys, xs, vals = ctx.run(ml.linear_roi, a, S, E)
    ys, xs, vals = np.asarray(ys), np.asarray(xs), np.asarray(vals)
    what = f"{s} to {e} in {h}x{w}"
    ctx.ok(len(ys) == len(xs) == len(vals) > 0, "wrong-length", f"{len(ys)}, {len(xs)}, {len(vals)}, {what}")
    ctx.ok(ys.min() >= 0 and xs.min() >= 0 and ys.max() < h and xs.max() < w, "outside-image", what, ys=ys, xs=xs)
    ctx.ok((ys[0], xs[0]) == s, "wrong-start", f"starts at {(ys[0], xs[0])}, {what}")
    ctx.ok((ys[-1], xs[-1]) == e, "wrong-end", f"ends at {(ys[-1], xs[-1])}, {what}")
    st = np.maximum(np.abs(np.diff(ys)), np.abs(np.diff(xs)))
    ctx.ok((st <= 1).all(), "gap", what, ys=ys, xs=xs)
    d = np.array(e, float) - s
    L = np.hypot(*d)
    perp = np.abs((ys - s[0]) * d[1] - (xs - s[1]) * d[0]) / L
    along = ((ys - s[0]) * d[0] + (xs - s[1]) * d[1]) / L
    ctx.ok(perp.max() <= 1 + 1e-9 and along.min() >= -1 - 1e-9 and along.max() <= L + 1 + 1e-9, "off-line", f"up to {perp.max():.2f} pixels off, {what}", ys=ys, xs=xs)
    ctx.eq(vals, a[ys, xs], "wrong-value", what)
    ctx.eq(a, a0, "argument-changed", "data")
    ctx.ev("samples", len(ys))
    ctx.sig(h, w, s, e)
    ctx.sample(line=what, samples=len(ys))


@scenario("C23", quick=3000, thorough=50000, large=(60, 1000, 4_000_000))
def from_polar(ctx):
    h, w = (ctx.integer(100, 1500), ctx.integer(100, 1500)) if ctx.large else (ctx.integer(20, 90), ctx.integer(20, 90))
    a = gen.values(ctx, (h, w), "ids")
    cy, cx = ctx.integer(0, h - 1), ctx.integer(0, w - 1)
    if ctx.chance(0.2):  # on or beside the border
        k = ctx.integer(0, 1)
        cy, cx = ctx.pick(((k, cx), (h - 1 - k, cx), (cy, k), (cy, w - 1 - k)))
        ctx.ev("centres beside the border")
    th = ctx.pick((0, 90, 180, 270, -90, 45, -135, float(ctx.rng.uniform(-360, 720)), float(ctx.rng.uniform(0, 360)), float(ctx.rng.uniform(0, 360))))
    t = np.deg2rad(th)
    uy, ux = -np.sin(t), np.cos(t)
    # distance to the border along the ray
    lim, far = [], []
    for u, n, c in ((uy, h, cy), (ux, w, cx)):
        if abs(u) > 1e-9:
            lim.append(((n - 1 - c) if u > 0 else c) / abs(u))  # the border pixel
            far.append(((n - c) if u > 0 else c + 1) / abs(u))  # the outer edge of the border pixels
    border = min(lim)
    form = ctx.pick(("none", "max", "both", "both"))
    if form == "none":
        r, r0, r1 = None, 0.0, border
    else:
        r0 = 0 if form == "max" or border < 8 else ctx.integer(0, int(border) - 4)
        r1 = ctx.integer(int(r0) + 6, max(int(max(h, w)) + 5, int(r0) + 8))
        r = ctx.pick((list, tuple))((r0, r1))
    if r and ctx.chance(0.03):  # starting outside of the image
        r0 = int(min(far)) + ctx.integer(3, 2 * max(h, w))
        r = type(r)((r0, r0 + ctx.integer(6, 30)))
        ctx.refuses(ml.linear_roi_from_polar, a, (cy, cx), th, r, what=f"a ray from ({cy}, {cx}) at {th:.2f} degrees, radii {r}, in {h}x{w}")
        ctx.ev("rays outside of the image refused")
        return
    end = min(r1, border)
    last = min(r1 if r else 1e9, min(far))
    res, ys, xs, ratio = ctx.run(ml.linear_roi_from_polar, a, ctx.pick((list, tuple))((cy, cx)), th, *([] if r is None else [r]))
    ys, xs = np.asarray(ys), np.asarray(xs)
    what = f"from ({cy}, {cx}) at {th:.2f} degrees, radii {r}, in {h}x{w}"
    ctx.ok(len(ys) == len(xs) == len(res) >= 1, "wrong-length", f"{len(ys)}, {len(xs)}, {len(res)}, {what}")
    ctx.ok(ys.min() >= 0 and xs.min() >= 0 and ys.max() < h and xs.max() < w, "outside-image", what, ys=ys, xs=xs)
    ctx.eq(np.asarray(res), a[ys, xs], "wrong-value", what)
    along = (ys - cy) * uy + (xs - cx) * ux
    perp = np.abs((ys - cy) * ux - (xs - cx) * uy)
    ctx.ok(perp.max() <= 2.5, "off-line", f"up to {perp.max():.2f} pixels off the ray, {what}", ys=ys, xs=xs)
    ctx.ok(abs(along[0] - r0) <= 2.6, "wrong-start", f"starts at {along[0]:.2f} from the centre, {what}")
    ctx.ok(end - 2.5 <= along[-1] <= last + 1.5, "wrong-end", f"ends at {along[-1]:.2f} from the centre, expected about {end:.2f}, {what}")
    ctx.ok(np.all(np.maximum(np.abs(np.diff(ys)), np.abs(np.diff(xs))) <= 1), "gap", what, ys=ys, xs=xs)
    n = len(ys)
    dist = np.hypot(ys[-1] - ys[0], xs[-1] - xs[0])
    ctx.ok(abs(ratio * n - dist) <= 2.6 and (0.4 < ratio < 1.5 or n < 6), "wrong-ratio", f"{n} samples times {ratio} for {dist:.2f} pixels, {what}")
    ctx.ev("samples along rays", n)
    ctx.ev(f"rays, {form}")
    ctx.sig(h, w, cy, cx, round(th, 2), str(r))
    ctx.sample(ray=what, samples=n, ratio=ratio)
