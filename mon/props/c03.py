import numpy as np

import micropolarray as ml
from mon import gen, ref, session
from mon.core import scenario

OPS = (
    ["add", "sub", "mul", "div", "rebin", "congrid", "rotate", "shift", "clean", "hotmap", "copy", "copy", "demodulate", "construct", "make"]
    + ["dark", "flat", "ifov", "demosaic", "mask", "poke", "poke", "pokeheader"]
)


@scenario("C03", quick=130, thorough=2200, large=(6, 60, 90000))
def registry_session(ctx):
    """Every image not targeted by a step must be bit-identical after it."""
    s = session.Session(ctx, OPS, max_live=5)
    for _ in range(ctx.integer(6, 13)):
        before = [(lv, session.snap(lv.im), lv.im) for lv in s.live]
        op, target, new, operands = s.step()
        tail = " <- ".join(reversed(s.history[-6:]))
        for lv, sn, obj in before:
            if target is lv:
                continue
            d = session.same(sn, session.snap(obj))
            ctx.ok(not d, "operand-changed" if lv in operands else "bystander-changed", f"{op}: {d} of {lv.name} changed [{tail}]")
            ctx.ev("images watched")
        for arr, orig in s.arrays:
            ctx.ok(np.array_equal(arr, orig), "input-array-changed", f"{op} changed an array given by the caller [{tail}]")
        if new is not None and target is None:
            ctx.ok(all(new.im is not o.im for o in operands), "same-object", f"{op} returned its operand [{tail}]")
            ctx.ev("new images")
        elif target is not None:
            ctx.ev("in-place changes")
        ctx.ev(f"op {op}")
        s.live = [x for x in s.live if min(x.im.data.shape) >= 4 and np.all(np.isfinite(x.im.data))]
    ctx.sig(*s.history)
    ctx.sample(history=" ; ".join(s.history[:12]))


def disturb(im, rng):
    """In-place changes an owner of im may make."""
    im.data[...] = im.data * 0 + 7
    im.header["DISTURB"] = 1
    im.header["NAXIS1"] = im.header["NAXIS1"]
    im.mask_occulter(y=1, x=1, r=3, fill=-5.0)
    if im.demosaiced_images is not None:
        for p in im.demosaiced_images:
            p[...] = -9
    im.demosaic("mean")
    one = ml.MicropolImage(np.ones(im.data.shape) * 2, angle_dic=im.angle_dic)
    im.subtract_dark(one)
    im.correct_flat(one)
    im.correct_ifov()


NEW_OPS = {
    "add-image": lambda im, o, s: im + o,
    "sub-image": lambda im, o, s: im - o,
    "mul-image": lambda im, o, s: im * o,
    "div-image": lambda im, o, s: im / o,
    "add-0": lambda im, o, s: im + 0,
    "sub-0": lambda im, o, s: im - 0,
    "mul-1": lambda im, o, s: im * 1,
    "div-1": lambda im, o, s: im / 1,
    "rebin1": lambda im, o, s: im.rebin(1),
    "rebin2": lambda im, o, s: im.rebin(2),
    "congrid-same": lambda im, o, s: im.congrid(*im.data.shape),
    "congrid": lambda im, o, s: im.congrid(8, 6),
    "rotate0": lambda im, o, s: im.rotate(0),
    "rotate90": lambda im, o, s: im.rotate(90),
    "shift0": lambda im, o, s: im.shift(0, 0),
    "shift": lambda im, o, s: im.shift(1, -1),
    "clean": lambda im, o, s: im.clean_hot_pixels(o),
    "hotmap": lambda im, o, s: session.get_hot_pixels(im, threshold=0.1),
    "copy": lambda im, o, s: ml.MicropolImage(im),
    "demodulate": lambda im, o, s: im.demodulate(s.demodulator((im.data.shape[0] // 2, im.data.shape[1] // 2)), demosaicing=im.demosaiced_images is not None),
}


@scenario("C03", quick=160, thorough=2000, large=(20, 80, 200000))
def result_and_operand_disturbed(ctx):
    """Disturb the result: operands stay; disturb the operand: the result stays."""
    name = list(NEW_OPS)[ctx.idx % len(NEW_OPS)]
    shp = gen.shape(ctx, 2, 6)
    s = session.Session(ctx, [], 9)
    im, o = s.make(shp).im, s.make(shp).im
    if ctx.chance(0.5):
        im.demosaic(ctx.pick(session.MODES))
    if ctx.chance(0.3):
        o.demosaic("adjacent")
    o0, i0 = session.snap(o), session.snap(im)
    r = ctx.run(NEW_OPS[name], im, o, s)
    ctx.ok(r is not im and r is not o, "same-object", name)
    ctx.ok(not session.same(i0, session.snap(im)), "operand-changed", f"{name}: {session.same(i0, session.snap(im))} of the first operand changed")
    ctx.ok(not session.same(o0, session.snap(o)), "operand-changed", f"{name}: {session.same(o0, session.snap(o))} of the second operand changed")
    r0 = session.snap(r)
    if ctx.chance(0.5):
        disturb(r, ctx.rng)
        for who, sn, x in (("first", i0, im), ("second", o0, o)):
            d = session.same(sn, session.snap(x))
            ctx.ok(not d, "shared-state", f"{name}: changing the result changed the {d} of the {who} operand")
    else:
        disturb(im, ctx.rng)
        disturb(o, ctx.rng)
        d = session.same(r0, session.snap(r))
        ctx.ok(not d, "shared-state", f"{name}: changing the operands changed the {d} of the result")
    ctx.ev("op " + name)
    ctx.sig(name, shp, im.data.dtype, ctx.idx)


@scenario("C03", quick=40, thorough=400, large=(4, 40, 4_000_000))
def arrays_and_plain_images(ctx):
    """Construction from arrays copies; plain images behave alike."""
    shp = gen.shape(ctx, 2, 8)
    a = gen.image_array(ctx, shp)
    a0 = np.array(a, copy=True)
    im = ctx.run(ml.MicropolImage, a)
    pl = ctx.run(ml.Image, a)
    p2 = ctx.run(ml.Image, pl)
    s0 = session.snap(im)
    a[...] = 1
    ctx.ok(not session.same(s0, session.snap(im)), "shared-state", "writing the array given at construction changed the image")
    ctx.eq(pl.data, a0, "shared-state", "writing the array given at construction changed the plain image")
    a[...] = a0
    im.data[...] = 3
    ctx.eq(a, a0, "shared-state", "writing the image changed the array it was built from")
    pl.data[...] = 5
    ctx.eq(p2.data, a0, "shared-state", "writing a plain image changed its copy")
    ctx.eq(a, a0, "shared-state", "writing a plain image changed the array it was built from")
    pl = ctx.run(ml.Image, a)
    ops = {"+": lambda: pl + p2, "-": lambda: pl - p2, "*": lambda: pl * 1, "/": lambda: pl / 1, "rebin": lambda: pl.rebin(1), "shift": lambda: pl.shift(0, 0)}
    k = ctx.pick(list(ops))
    r = ctx.run(ops[k])
    ctx.eq(pl.data, a0, "operand-changed", f"plain {k}")
    r.data[...] = 9
    r.header["DISTURB"] = 3
    ctx.eq(pl.data, a0, "shared-state", f"plain {k}: result shares pixels")
    ctx.eq(p2.data, a0, "shared-state", f"plain {k}: result shares pixels")
    ctx.ok("DISTURB" not in pl.header and "DISTURB" not in p2.header, "shared-state", f"plain {k}: result shares the header")
    ctx.ev("plain " + k)
    ctx.sig(shp, a.dtype, k, ctx.idx)
