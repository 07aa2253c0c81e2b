import numpy as np

import micropolarray as ml
from mon import gen, ref
from mon.core import scenario


def amount(ctx, n):
    k = ctx.integer(0, 9)
    if k == 0:
        return 0
    if k == 1:
        return ctx.pick((-n, n, n - 1, 1 - n))
    if k == 2:
        return ctx.pick((-1, 1)) * (n + ctx.integer(1, 2 * n))
    return ctx.integer(-n, n)


FILLS = (0, 0, 0, -1, 7.5, 1000, float("nan"))


@scenario("C06", quick=500, thorough=10000, large=(12, 100, 13000000))
def plain_shift(ctx):
    h, w = gen.dims(ctx, 1, 20)
    a = gen.image_array(ctx, (h, w))
    dy, dx, fill = amount(ctx, h), amount(ctx, w), ctx.pick(FILLS)
    im = ctx.run(ml.Image, a)
    r = ctx.run(im.shift, dy, dx) if fill == 0 and ctx.chance(0.5) else ctx.run(im.shift, dy, dx, fill)
    ctx.eq(np.asarray(r.data, float), ref.shift_plain(a, dy, dx, fill), "wrong-shift", f"{a.shape} {a.dtype} by ({dy},{dx}) fill {fill}")
    ctx.eq(im.data, a, "operand-changed", "shift changed its operand")
    ctx.ev("beyond the image" if abs(dy) >= h or abs(dx) >= w else "within the image")
    ctx.sig(a.shape, dy, dx, fill, a.dtype)
    ctx.sample(shape=a.shape, by=(dy, dx), fill=fill)


@scenario("C06", quick=500, thorough=10000, large=(10, 100, 4000000))
def micropol_shift(ctx):
    a = gen.image_array(ctx, hi=12)
    h, w = a.shape
    dy, dx, fill = amount(ctx, h // 2), amount(ctx, w // 2), ctx.pick(FILLS)
    im = ctx.run(ml.MicropolImage, a, angle_dic=gen.angle_dic(ctx))
    r = ctx.run(im.shift, dy, dx) if fill == 0 and ctx.chance(0.5) else ctx.run(im.shift, dy, dx, missing=fill)
    ctx.eq(r.data, ref.shift_micropol(a, dy, dx, fill), "wrong-shift", f"{a.shape} {a.dtype} by ({dy},{dx}) fill {fill}")
    ctx.eq(im.data, a, "operand-changed", "shift changed its operand")
    back = ctx.run(r.shift, -dy, -dx, missing=-3.0)
    inside = np.zeros((h // 2, w // 2), bool)
    inside[max(0, -dy) : max(0, h // 2 - max(0, dy)), max(0, -dx) : max(0, w // 2 - max(0, dx))] = True
    full = np.repeat(np.repeat(inside, 2, 0), 2, 1)
    ctx.eq(back.data[full], np.asarray(a, float)[full], "not-restored", f"there and back ({dy},{dx})")
    ctx.ok(np.all(back.data[~full] == -3.0), "not-restored", "pixels that left come back as fill")
    ctx.ev("restored pixels", int(full.sum()))
    ctx.sig(a.shape, dy, dx, fill, a.dtype)


@scenario("C06", quick=60, thorough=1000)
def composition(ctx):
    a = gen.values(ctx, (2 * ctx.integer(3, 9), 2 * ctx.integer(3, 9)), "ids")
    im = ctx.run(ml.MicropolImage, a)
    y1, y2, x1, x2 = (ctx.integer(0, 3) for _ in range(4))
    sy, sx = ctx.pick((-1, 1)), ctx.pick((-1, 1))
    two = ctx.run(lambda: im.shift(sy * y1, sx * x1).shift(sy * y2, sx * x2))
    ctx.eq(two.data, ref.shift_micropol(a, sy * (y1 + y2), sx * (x1 + x2), 0), "wrong-shift", "same-direction shifts add up")
    ctx.sig(a.shape, y1, y2, x1, x2, sy, sx)
