import numpy as np

import micropolarray as ml
from mon import gen, ref, session
from mon.core import scenario
from mon.props.c01 import check_params


def check(ctx, s, lv, op):
    im = lv.im
    data = np.asarray(im.data, dtype=float)
    S = np.asarray(im.Stokes_vec, dtype=float)
    h, w = data.shape
    scale = float(np.max(np.abs(data))) if data.size else 0.0
    tail = " <- ".join(reversed(s.history[-6:]))
    if S.shape == (3, h // 2, w // 2):
        exp = ref.stokes(ref.split(data), lv.dic)
        ctx.close(S, exp, "stale-stokes", f"Stokes after {op} [{tail}]", rtol=1e-6, scale=scale)
        ctx.ev("superpixel-level checks")
    elif S.shape == (3, h, w):
        ctx.ok(lv.mode is not None, "stale-stokes", f"full-size Stokes of an image never demosaiced, after {op} [{tail}]")
        planes = ref.DEMOSAIC[lv.mode](data)
        ctx.close(np.asarray(im.demosaiced_images), planes, "stale-demosaiced", f"demosaiced planes ({lv.mode}) after {op} [{tail}]", rtol=1e-6, scale=scale)
        exp = ref.stokes(planes, lv.dic)
        ctx.close(S, exp, "stale-stokes", f"Stokes after {op} [{tail}]", rtol=1e-6, scale=scale)
        ctx.ev("demosaiced-level checks")
    else:
        ctx.fail("stale-stokes", f"Stokes of shape {S.shape} for data {data.shape} after {op} [{tail}]")
    for p in im.polparam_list:
        ctx.ok(p.data.shape == S.shape[1:], "stale-stokes", f"{p.ID} shape {p.data.shape} after {op}")
    if np.all(np.isfinite(S)):
        # looked at after every step, so that one kept from before would be old
        check_params(ctx, im, S, f"after {op} [{tail}]")
        ctx.ev("parameters compared with the Stokes vector")
    ctx.ev(f"op {op}")


OPS = (
    ["add", "sub", "mul", "div"]
    + ["rebin", "congrid", "shift", "clean", "hotmap", "copy", "construct", "make"]
    + ["dark", "flat", "ifov", "demosaic", "demosaic", "dark", "flat"]
)


def drive(ctx, steps, ops):
    s = session.Session(ctx, ops, max_live=4)
    for _ in range(steps):
        op, target, lv, operands = s.step()
        if lv is not None:
            check(ctx, s, lv, op)
        for o in operands:
            check(ctx, s, o, op + " (operand)")
        # keep values in a range where comparisons stay meaningful
        s.live = [
            x
            for x in s.live
            if np.all(np.isfinite(x.im.data)) and np.max(np.abs(np.asarray(x.im.data, float)), initial=0) < 1e12
            and min(x.im.data.shape) >= 4
        ]
    ctx.sig(*s.history)
    ctx.sample(history=" ; ".join(s.history[:12]))


@scenario("C02", quick=90, thorough=1600, large=(6, 60, 90000))
def mixed_history(ctx):
    drive(ctx, ctx.integer(6, 14), OPS)


@scenario("C02", quick=60, thorough=1000, large=(6, 60, 90000))
def demosaiced_history(ctx):
    drive(ctx, ctx.integer(5, 12), ["demosaic", "demosaic", "dark", "flat", "ifov", "add", "sub", "mul", "div", "rebin", "shift", "congrid", "clean", "copy"])


@scenario("C02", quick=40, thorough=400, large=(4, 60, 4_000_000))
def unchanged_and_reversed(ctx):
    """Doing and undoing: the parameters return to what they were with the data."""
    a = gen.values(ctx, gen.shape(ctx, 2, 8), "ids")
    dic = gen.angle_dic(ctx)
    im = ctx.run(ml.MicropolImage, a, angle_dic=dic)
    b = ctx.run(ml.MicropolImage, gen.values(ctx, a.shape, "uint12"), angle_dic=gen.angle_dic(ctx))
    r = ctx.run(lambda: (im + b) - b)
    ctx.close(r.data, a, "stale-stokes", "(a+b)-b data")
    ctx.close(r.Stokes_vec, ref.stokes(ref.split(a), dic), "stale-stokes", "(a+b)-b Stokes", scale=float(a.max()))
    r = ctx.run(lambda: (im * 4) / 4)
    ctx.close(r.Stokes_vec, ref.stokes(ref.split(a), dic), "stale-stokes", "(a*4)/4 Stokes", scale=float(a.max()))
    r = ctx.run(lambda: im.rebin(1).congrid(*a.shape).shift(0, 0))
    ctx.close(r.Stokes_vec, ref.stokes(ref.split(a), dic), "stale-stokes", "neutral operations", scale=float(a.max()))
    ctx.sig(a.shape, sorted(dic.items()))


@scenario("C02", quick=60, thorough=800, large=(3, 40, 1_000_000))
def once_demodulated(ctx):
    """A demodulated image that is corrected or combined describes its pixels with its own orientations again."""
    a = gen.values(ctx, gen.shape(ctx, 2, 8), "uint12") + 1.0
    dic = gen.angle_dic(ctx)
    half = (a.shape[0] // 2, a.shape[1] // 2)
    session.write_tensor(ctx.path("t"), ctx.rng.normal(0, 1, (3, 4, *half)), (ctx.rng.random(half) < 0.8).astype(float) if ctx.chance(0.5) else None)
    im = ctx.run(ml.MicropolImage, a, angle_dic=dict(dic))
    mode = None
    if ctx.chance(0.3):
        mode = ctx.pick(session.MODES)
        im = ctx.run(im.demosaic, mode)
    full = ctx.chance(0.4)
    im = ctx.run(im.demodulate, ctx.run(ml.Demodulator, ctx.path("t")), demosaicing=full)
    mode = "adjacent" if full else mode
    hist = ["demodulate"]
    theoretical = False
    for _ in range(ctx.integer(2, 6)):
        op = ctx.pick(("dark", "flat", "ifov", "demosaic", "add", "shift", "rebin", "clean", "copy", "redictionary", "congrid", "congrid"))
        shp = im.data.shape
        other = lambda: ml.MicropolImage(gen.values(ctx, shp, "uint12") / 20 + 1.0, angle_dic=dict(dic))
        if op == "dark":
            im = ctx.run(im.subtract_dark, other())
        elif op == "flat":
            im = ctx.run(im.correct_flat, other())
        elif op == "ifov":
            im = ctx.run(im.correct_ifov)
        elif op == "demosaic":
            mode = ctx.pick(session.MODES)
            im = ctx.run(im.demosaic, mode)
        elif op == "add":
            im = ctx.run(lambda: im + other())
        elif op == "shift":
            im = ctx.run(im.shift, ctx.integer(-1, 1), ctx.integer(-1, 1))
        elif op == "rebin":
            im = ctx.run(im.rebin, 1)
        elif op == "clean":
            im = ctx.run(im.clean_hot_pixels, ml.MicropolImage((ctx.rng.random(shp) < 0.1).astype(float)))
        elif op == "copy":
            im = ctx.run(ml.MicropolImage, im)
        elif op == "redictionary":
            dic = gen.angle_dic(ctx)
            im = ctx.run(ml.MicropolImage, im, angle_dic=dict(dic))
        else:
            im = ctx.run(im.congrid, max(4, shp[0] + 2 * ctx.integer(-2, 2)), max(4, shp[1] + 2 * ctx.integer(-2, 2)))
        hist.append(op)
        theoretical = theoretical or op not in ("copy", "redictionary", "congrid")
        if not theoretical:  # the tensor's parameters, resized with the data
            ctx.ok(im.I.data.shape in (im.data.shape, (im.data.shape[0] // 2, im.data.shape[1] // 2)), "stale-stokes", f"{im.I.data.shape} for data {im.data.shape} [{' '.join(hist)}]")
            continue
        fam = ref.DEMOSAIC[mode](im.data) if mode else ref.split(im.data)
        ctx.ok(im.I.data.shape == fam[0].shape, "stale-stokes", f"{im.I.data.shape} for data {im.data.shape} [{' '.join(hist)}]")
        ctx.close(im.Stokes_vec, ref.stokes(fam, dic), "stale-stokes", f"Stokes [{' '.join(hist)}]", rtol=1e-6, scale=float(np.max(np.abs(im.data))))
        ctx.ev("once demodulated images recomputed")
    ctx.sig(*hist, mode)
