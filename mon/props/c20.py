"""C20: polar selections and occulter masks keep exactly the pixels inside."""
import numpy as np

import micropolarray as ml
from micropolarray.processing.nrgf import roi_from_polar
from mon import gen, ref
from mon.core import scenario
from mon.props.c01 import check_params
from mon.session import write_tensor


def selection(h, w, center, rho, theta, superpixels):
    """(kept, too close to call) as stated by the property."""
    cy, cx = center
    r0, r1 = rho
    H, W = h, w
    if superpixels:
        H, W = h // 2, w // 2
        cy, cx, r0, r1 = int(cy / 2), int(cx / 2), int(r0 / 2), int(r1 / 2)
    d, phi = ref.polar(H, W, cy, cx)
    keep = (d > r0) & (d <= r1) & (phi >= theta[0]) & (phi < theta[1])
    unsure = np.zeros_like(keep)
    for v in (r0, r1):
        if v != int(v) or cy != int(cy) or cx != int(cx):
            unsure |= np.abs(d - v) < 1e-9
    for t in theta:
        if t % 90 or cy != int(cy) or cx != int(cx):
            unsure |= np.abs(phi - t) < 1e-9
    if superpixels:
        keep, unsure = (np.repeat(np.repeat(k, 2, 0), 2, 1) for k in (keep, unsure))
    return keep, unsure


def sector(ctx):
    k = ctx.integer(0, 4)
    if k <= 1:
        return [0, 360]
    if k == 2:
        a, b = sorted(ctx.pick((0, 90, 180, 270, 360)) for _ in range(2))
        return [a, b]
    a, b = sorted(float(v) for v in np.round(ctx.rng.uniform(0, 360, 2), 2))
    return [a, b]


def ring(ctx, h, w, superpixels):
    m = max(h, w)
    k = ctx.integer(0, 4)
    if k == 0:
        return [0, ctx.integer(0, m)]
    if k == 1:
        return [ctx.integer(0, m), 2 * m]
    if k == 2 and not superpixels:
        return sorted(float(v) for v in ctx.rng.uniform(0, m, 2))
    return sorted((ctx.integer(0, m), ctx.integer(0, m)))


@scenario("C20", quick=900, thorough=15000, large=(30, 200, 4000000))
def polar(ctx):
    sp = ctx.chance(0.5)
    h, w = gen.shape(ctx, 1, 16) if sp else gen.dims(ctx, 1, 30)
    a = gen.image_array(ctx, (h, w), kind=ctx.pick(("ids", "uniform", "signed")))
    a = np.where(a == 0, 1, a).astype(a.dtype)
    c = ctx.pick(("inside", "inside", "border", "outside", "float"))
    if c == "inside":
        cen = [ctx.integer(0, h - 1), ctx.integer(0, w - 1)]
    elif c == "border":
        cen = [ctx.pick((0, h - 1, h)), ctx.pick((0, w - 1, w))]
    elif c == "outside":
        cen = [ctx.integer(-h, 2 * h), ctx.integer(-w, 2 * w)]
    else:
        cen = [float(ctx.rng.uniform(0, h)), float(ctx.rng.uniform(0, w))]
    rho, th = ring(ctx, h, w, sp), sector(ctx)
    fill = ctx.pick((0.0, -7.5, 3, float("nan")))
    keep, unsure = selection(h, w, cen, rho, th, sp)
    kw = dict(center=ctx.pick((list, tuple))(cen), rho=list(rho), theta=list(th), include_superpixels=sp)
    if sp and ctx.chance(0.5):
        del kw["include_superpixels"]
    got = ctx.run(roi_from_polar, a, fill=fill, **kw)
    exp = np.where(keep, a, fill)
    got = np.where(unsure, exp, got)
    what = f"{h}x{w} centre {cen} radii {rho} angles {th} superpixels {sp}"
    ctx.eq(got, exp, "wrong-selection", what)
    b = ctx.run(roi_from_polar, a, return_boolean=True, **kw)
    ctx.ok(np.asarray(b).dtype == bool, "wrong-selection", f"boolean form has type {np.asarray(b).dtype}")
    ctx.eq(np.where(unsure, keep, b), keep, "wrong-selection", f"boolean form, {what}")
    ctx.ev("pixels kept", int(keep.sum()))
    ctx.ev("pixels filled", int((~keep).sum()))
    ctx.sig(h, w, str(cen), str(rho), str(th), sp)
    ctx.sample(shape=(h, w), centre=cen, rho=rho, theta=th, superpixels=sp)


@scenario("C20", quick=150, thorough=2000, large=(10, 100, 4000000))
def defaults(ctx):
    sp = ctx.chance(0.5)
    h, w = gen.shape(ctx, 1, 16) if sp else gen.dims(ctx, 1, 30)
    a = gen.values(ctx, (h, w), "ids")
    cen = [h // 2, w // 2]
    kw = {"include_superpixels": sp}
    if ctx.chance(0.5):
        cen = [ctx.integer(0, h - 1), ctx.integer(0, w - 1)]
        kw["center"] = list(cen)
    rho = [0, min(h - cen[0], w - cen[1])]
    if ctx.chance(0.3):
        rho = ring(ctx, h, w, sp)
        kw["rho"] = list(rho)
    keep, unsure = selection(h, w, cen, rho, (0, 360), sp)
    got = ctx.run(roi_from_polar, a, **kw)
    exp = np.where(keep, a, 0.0)
    ctx.eq(np.where(unsure, exp, got), exp, "wrong-selection", f"{h}x{w} with {kw}")
    ctx.ev("selections with defaults")
    ctx.sig(h, w, str(sorted(kw.items())))


@scenario("C20", quick=350, thorough=6000, large=(15, 100, 1000000))
def occulter_mask(ctx):
    """The same superpixels are filled in data, Stokes parameters and demosaiced planes."""
    h, w = gen.shape(ctx, 1, 14)
    dic = gen.angle_dic(ctx)
    a = gen.typed(ctx, gen.values(ctx, (h, w), ctx.pick(("ids", "uniform"))) + 1, ("float64",) * 3 + ("int64",))
    im = ctx.run(ml.MicropolImage, a, angle_dic=dic)
    demos, demod = ctx.pick((None, "adjacent", "mean", "spline")), ctx.chance(0.3)
    if demod:
        m = ctx.rng.normal(0, 1, (3, 4, h // 2, w // 2))
        write_tensor(ctx.path("t"), m, None)
        full = demos is not None and ctx.chance(0.6)
        if demos and not full:  # planes at full resolution, Stokes parameters per superpixel
            ctx.run(im.demosaic, demos)
            ctx.ev("demosaiced images demodulated per superpixel")
        im = ctx.run(im.demodulate, ctx.run(ml.Demodulator, ctx.path("t")), demosaicing=full)
        demos = "adjacent" if full else None
    elif demos:
        ctx.run(im.demosaic, demos)
    look = ctx.pick(((), ("pB",), ("DoLP", "AoLP"), ("I", "Q", "U", "pB", "DoLP", "AoLP")))
    for n in look:
        ctx.run(lambda: getattr(im, n).data)
    if ctx.chance(0.3):
        ctx.run(lambda: [q.data for q in im.polparam_list])
    S0 = np.array(im.Stokes_vec, copy=True)
    p0 = None if im.demosaiced_images is None else np.array(im.demosaiced_images, copy=True)
    d0 = np.array(im.data, copy=True)
    y, x = ctx.integer(-2, h + 2), ctx.integer(-2, w + 2)
    r, over, fill = ctx.integer(0, max(h, w)), ctx.pick((0, 0, 1, 2, 5, -1)), ctx.pick((0.0, 3.0, -2.5, 7))
    if r + over < 0:
        over = 0
    ctx.run(im.mask_occulter, y=y, x=x, r=r, overoccult=over, fill=fill)
    keep, _ = selection(h, w, (y, x), (r + over, 2 * max(h, w)), (0, 360), True)
    half = keep[::2, ::2]
    what = f"{h}x{w}, occulter {y}, {x}, {r}+{over}, demosaiced {demos}, demodulated {demod}"
    ctx.eq(im.data, np.where(keep, d0, fill), "wrong-mask", f"data, {what}")
    k = keep if demos else half
    ctx.eq(im.Stokes_vec, np.where(k, S0, fill), "wrong-mask", f"Stokes parameters, {what}")
    for n, i in (("I", 0), ("Q", 1), ("U", 2)):
        ctx.eq(getattr(im, n).data, np.where(k, S0[i], fill), "wrong-mask", f"{n}, {what}")
    check_params(ctx, im, np.where(k, S0, fill), what)
    if p0 is not None:
        ctx.eq(np.array(im.demosaiced_images), np.where(keep, p0, fill), "wrong-mask", f"demosaiced planes, {what}")
        ctx.ev("demosaiced masks")
    ctx.ev("superpixels masked", int((~half).sum()))
    ctx.ev("superpixels kept", int(half.sum()))
    ctx.sig(h, w, y, x, r, over, demos, demod)
    ctx.sample(case=what)


@scenario("C20", quick=12, thorough=60)
def camera(ctx):
    """Camera masks follow the camera's occulter, also after it was moved."""
    cam = ctx.run(ml.PolarCam)
    for turn in range(3):
        if turn or ctx.idx % 3:
            if turn != 1:  # the second time only the occulter moves
                cam.h_image, cam.w_image = gen.shape(ctx, 10, 60)
            cam.occulter_pos_last = [ctx.integer(0, cam.h_image), ctx.integer(0, cam.w_image), ctx.integer(0, 20)]
            ctx.ev("occulters moved", bool(turn))
        y, x, r = cam.occulter_pos_last
        h, w = cam.h_image, cam.w_image
        if turn != 1:
            over, fill, rmax = ctx.pick((0, 1, 15)), ctx.pick((0.0, 2.0)), ctx.pick((None, ctx.integer(40, 60)))
        a = ctx.rng.uniform(1, 100, (h, w))
        keep, _ = selection(h, w, (y, x), (r + over, 5000), (0, 360), True)
        ctx.eq(ctx.run(cam.occulter_roi, a, fill=fill, overoccult=over), np.where(keep, a, fill), "wrong-mask", f"occulter_roi of {h}x{w}, occulter {y}, {x}, {r}+{over}")
        for rm in (None, rmax, rmax):
            keep, _ = selection(h, w, (y, x), (r + over, min(y, x, h - y, w - x) if rm is None else rm), (0, 360), True)
            got = ctx.run(cam.occulter_mask, over, rm) if rm else ctx.run(cam.occulter_mask, overoccult=over)
            ctx.eq(got, keep, "wrong-mask", f"occulter_mask of {h}x{w}, occulter {y}, {x}, {r}+{over}, rmax {rm}, turn {turn}")
            if isinstance(got, np.ndarray) and got.flags.writeable:
                got[...] = True  # the caller's own now
        if turn == 0 and ctx.idx % 3 == 0:
            im = ctx.run(ml.MicropolImage, a)
            ctx.run(im.mask_occulter, overoccult=over, fill=fill)
            keep, _ = selection(h, w, (y, x), (r + over, 2 * max(h, w)), (0, 360), True)
            ctx.eq(im.data, np.where(keep, a, fill), "wrong-mask", "default occulter on a full frame")
            ctx.eq(im.I.data == fill, ~keep[::2, ::2], "wrong-mask", "default occulter on a full frame's I")
        ctx.ev("camera masks", 4)
        ctx.sig(h, w, y, x, r, over, fill)
