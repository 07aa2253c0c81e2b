import numpy as np

import micropolarray as ml
from mon import gen, ref, session
from mon.core import scenario

OPS = (
    ["add", "sub", "mul", "div", "rebin", "congrid", "rotate", "shift", "clean", "hotmap", "copy", "demodulate", "construct", "make", "make"]
    + ["dark", "flat", "ifov", "demosaic", "mask", "pokeheader", "setdefault", "setdefault"]
)


def check(ctx, lv, op, tail):
    im = lv.im
    h, w = im.data.shape
    hd = im.header
    ctx.ok(hd["NAXIS1"] == w and hd["NAXIS2"] == h, "stale-size", f"{lv.name} {h}x{w}: header says NAXIS1={hd['NAXIS1']} NAXIS2={hd['NAXIS2']} after {op} [{tail}]")
    ctx.ok((im.height, im.width) == (h, w), "stale-size", f"height, width after {op}")
    for k, v in lv.keys.items():
        if k in ("HISTORY", "COMMENT"):
            had = [str(x) for x in hd[k]] if k in hd else []
            ctx.ok(all(x in had for x in v), "keyword-lost", f"{k} {v} of {lv.name} is {had} after {op} [{tail}]")
            ctx.ev("commentary cards checked")
            continue
        ctx.ok(k in hd and hd[k] == v, "keyword-lost", f"{k}={v!r} of {lv.name} is {hd.get(k)!r} after {op} [{tail}]")
        ctx.ev("keywords checked")
    ctx.ok(dict(im.angle_dic) == lv.dic, "wrong-orientation", f"{lv.name} has {im.angle_dic}, expected {lv.dic} after {op} [{tail}]")
    f = ref.split(im.data)
    for ang, p in ((0, im.pol0), (45, im.pol45), (-45, im.pol_45), (90, im.pol90)):
        ctx.eq(p.data, f[lv.dic[ang]], "wrong-orientation", f"plane {ang} of {lv.name} after {op} [{tail}]")
    if not lv.demod and not lv.masked and not lv.poked and not lv.rotated:
        S = np.asarray(im.Stokes_vec)
        if S.shape[1:] == f.shape[1:]:
            e = ref.stokes(f, lv.dic)
            ctx.close(S, e, "wrong-orientation", f"Stokes of {lv.name} with its own dictionary after {op} [{tail}]", rtol=1e-6, scale=float(np.max(np.abs(f), initial=1)))


@scenario("C27", quick=250, thorough=4000, large=(6, 60, 90000))
def header_session(ctx):
    s = session.Session(ctx, OPS, max_live=5)
    for _ in range(ctx.integer(6, 14)):
        op, target, new, operands = s.step()
        tail = " <- ".join(reversed(s.history[-6:]))
        for lv in s.live:
            check(ctx, lv, op, tail)
        ctx.ev(f"op {op}")
        s.live = [x for x in s.live if min(x.im.data.shape) >= 4 and np.all(np.isfinite(x.im.data))]
    ctx.sig(*s.history)
    ctx.sample(history=" ; ".join(s.history[:12]))


@scenario("C27", quick=100, thorough=1500, large=(4, 40, 1_000_000))
def default_dictionary(ctx):
    """Which dictionary applies when, across changes of the default."""
    a = gen.values(ctx, gen.shape(ctx, 1, 5), "ids")
    d = [gen.angle_dic(ctx) for _ in range(3)]
    ml.set_default_angles(d[0])
    i0 = ctx.run(ml.MicropolImage, a)
    x = ctx.run(ml.MicropolImage, a, angle_dic=d[2])
    ml.set_default_angles(d[1])
    i1 = ctx.run(ml.MicropolImage, a)
    der = {"copy": lambda i: ml.MicropolImage(i), "+": lambda i: i + 1, "*": lambda i: i * i1, "shift": lambda i: i.shift(0, 0),
           "rebin": lambda i: i.rebin(1), "congrid": lambda i: i.congrid(*a.shape), "-": lambda i: i - 2, "/": lambda i: i / 2,
           "+array": lambda i: i + a, "clean": lambda i: i.clean_hot_pixels(i1), "rotate": lambda i: i.rotate(0)}
    for name, im, dic in (("default at creation", i0, d[0]), ("default last set", i1, d[1]), ("given", x, d[2])):
        ctx.ok(dict(im.angle_dic) == dic, "wrong-orientation", name)
        ctx.close(im.Stokes_vec, ref.stokes(ref.split(a), dic), "wrong-orientation", name, rtol=1e-12)
        k = ctx.pick(list(der))
        r = ctx.run(der[k], im)
        ctx.ok(dict(r.angle_dic) == dic, "wrong-orientation", f"{k} of {name}: {r.angle_dic}, expected {dic}")
        ctx.close(r.Stokes_vec, ref.stokes(ref.split(r.data), dic), "wrong-orientation", f"{k} of {name}", rtol=1e-6)
        ctx.ev("derived " + k)
    ctx.sig(a.shape, str(d))


@scenario("C27", quick=60, thorough=800, large=(3, 40, 1_000_000))
def copied_with_dictionary(ctx):
    """Copying an image with a dictionary of its own, whatever state the image is in."""
    h, w = gen.shape(ctx, 1, 6)
    a = gen.values(ctx, (h, w), "uniform")
    d0, d1 = gen.angle_dic(ctx), gen.angle_dic(ctx)
    im = ctx.run(ml.MicropolImage, a, angle_dic=d0)
    state = ctx.pick(("plain", "demosaiced", "rebinned", "copied"))
    if state == "demosaiced":
        im = ctx.run(im.demosaic, ctx.pick(("adjacent", "mean")))
    elif state == "rebinned":
        im = ctx.run(im.rebin, 1)
    elif state == "copied":
        im = ctx.run(ml.MicropolImage, im)
    S0 = np.array(im.Stokes_vec)
    kw = {}
    want = im.data
    if ctx.chance(0.4):
        dark = gen.values(ctx, (h, w), "uniform") / 10
        kw["dark"] = ml.MicropolImage(dark, angle_dic=d0)
        want = np.maximum(want - dark, 0)
    c = ctx.run(ml.MicropolImage, im, angle_dic=d1, **kw)
    ctx.ok(dict(c.angle_dic) == d1, "wrong-orientation", f"copy of a {state} image has {c.angle_dic}, given {d1}")
    ctx.close(c.data, want, "wrong-data", f"copy of a {state} image", rtol=1e-12)
    fam = c.demosaiced_images if state == "demosaiced" else ref.split(want)
    ctx.close(c.Stokes_vec, ref.stokes(fam, d1), "wrong-orientation", f"copy of a {state} image with {sorted(kw)}", rtol=1e-12)
    for angle, p in ((0, "pol0"), (45, "pol45"), (-45, "pol_45"), (90, "pol90")):
        ctx.close(getattr(c, p).data, ref.split(want)[d1[angle]], "wrong-orientation", p, rtol=1e-12)
    ctx.ok(dict(im.angle_dic) == d0 and np.array_equal(im.Stokes_vec, S0), "operand-changed", f"the {state} image")
    ctx.ev("copies with a dictionary of their own")
    ctx.sig(a.shape, str(d0), str(d1), state)
