"""Random stateful sessions over live images.

A session keeps a registry of live images (and of plain arrays handed to the
package).  Every step performs one public operation; monitors get the step with
the registry before and after it.  Used by C02, C03 and C27.
"""
import os

import numpy as np
from astropy.io import fits

import micropolarray as ml
from micropolarray.processing.image_cleaning import get_hot_pixels
from mon import gen

MODES = ("adjacent", "mean", "spline")


class Live:
    def __init__(self, im, dic, keys, mode=None, demod=False, name=""):
        self.im, self.dic, self.keys = im, dict(dic), dict(keys)
        self.mode, self.demod, self.name = mode, demod, name
        self.poked = False  # pixel written directly: Stokes no longer judged
        self.masked = False
        self.rotated = False


def snap(im):
    return dict(
        data=np.array(im.data, copy=True),
        Stokes=np.array(im.Stokes_vec, dtype=float, copy=True),
        demosaiced=None if im.demosaiced_images is None else np.array(im.demosaiced_images, copy=True),
        header=[(c.keyword, c.value, c.comment) for c in im.header.cards],
        dic=dict(im.angle_dic),
    )


def same(a, b):
    """'' or what differs between two snapshots."""
    for k in ("data", "Stokes"):
        if a[k].shape != b[k].shape or not np.array_equal(a[k], b[k], equal_nan=True):
            return k
    if (a["demosaiced"] is None) != (b["demosaiced"] is None):
        return "demosaiced planes"
    if a["demosaiced"] is not None and not (
        a["demosaiced"].shape == b["demosaiced"].shape
        and np.array_equal(a["demosaiced"], b["demosaiced"], equal_nan=True)
    ):
        return "demosaiced planes"
    if a["header"] != b["header"]:
        return "header"
    if a["dic"] != b["dic"]:
        return "orientation dictionary"
    return ""


def write_tensor(folder, m, flags=None, names="M{}{}.fits"):
    os.makedirs(folder, exist_ok=True)
    for i in range(3):
        for j in range(4):
            fits.PrimaryHDU(data=np.array(m[i, j], dtype=float)).writeto(os.path.join(folder, names.format(i, j)), overwrite=True)
    if flags is not None:
        fits.PrimaryHDU(data=np.array(flags, dtype=float)).writeto(os.path.join(folder, "fit_found_flag.fits"), overwrite=True)


class Session:
    def __init__(self, ctx, ops, max_live=5):
        self.ctx, self.ops, self.max_live = ctx, ops, max_live
        self.live, self.arrays, self.n = [], [], 0
        self.demods = {}
        self.history = []
        ml.set_default_angles(dict(gen.DEFAULT_DIC))
        self.default = dict(gen.DEFAULT_DIC)

    # every op returns (kind, target/new Live, operands)
    def new_live(self, im, **kw):
        lv = Live(im, name=f"im{self.n}", **kw)
        self.n += 1
        self.live.append(lv)
        if len(self.live) > self.max_live:
            self.live.pop(self.ctx.integer(0, len(self.live) - 2))
        return lv

    def derive(self, parent, im, mode="keep", demod="keep"):
        new = self.new_live(
            im,
            dic=parent.dic,
            keys=parent.keys,
            mode=parent.mode if mode == "keep" else mode,
            demod=parent.demod if demod == "keep" else demod,
        )
        new.poked, new.masked, new.rotated = parent.poked, parent.masked, parent.rotated
        return new

    def fresh(self):
        ctx = self.ctx
        shp = gen.shape(ctx, 2, 8)
        if self.live and ctx.chance(0.7):
            shp = ctx.pick(self.live).im.data.shape
        return self.make(shp)

    def make(self, shp):
        ctx = self.ctx
        kind = ctx.pick(("ids", "uint12", "uniform", "signed", "sparse", "normal"))
        a = gen.typed(ctx, gen.values(ctx, shp, kind), ("float64",) * 5 + ("int64", "uint16"))
        if ctx.chance(0.1):
            a = gen.fits_order(a)
        keys = {k: v for k, v in gen.header(ctx).items()}
        r = ctx.integer(0, 2)
        if r == 0:
            dic = gen.angle_dic(ctx)
            kw = {"angle_dic": dic}
        else:
            dic, kw = self.default, {}
        if ctx.chance(0.3):
            p = ctx.path(f"f{self.n}.fits")
            h = fits.Header()
            for k, v in keys.items():
                h[k] = v
            fits.PrimaryHDU(data=a, header=h).writeto(p, overwrite=True)
            im = ctx.run(ml.MicropolImage, p, **kw)
            self.history.append(f"file{shp}")
        else:
            im = ctx.run(ml.MicropolImage, a, **kw)
            self.arrays.append((a, a.copy()))
            for k, v in keys.items():
                im.header[k] = v
            self.history.append(f"array{shp}")
        for k in ("HISTORY", "COMMENT"):
            if ctx.chance(0.25):
                im.header[k] = f"{k.lower()} of frame {self.n}"
                keys[k] = [f"{k.lower()} of frame {self.n}"]
        return self.new_live(im, dic=dic, keys=keys)

    def partner(self, lv):
        """Another live image (or the same) with the same shape."""
        ctx = self.ctx
        c = [x for x in self.live if x.im.data.shape == lv.im.data.shape]
        if len(c) < 2 or ctx.chance(0.3):
            c.append(self.make(lv.im.data.shape))
        return ctx.pick(c)

    def demodulator(self, half):
        ctx = self.ctx
        if half not in self.demods:
            m = ctx.rng.normal(0, 1, (3, 4, *half))
            flags = (ctx.rng.random(half) < 0.8).astype(float)
            folder = ctx.path(f"tensor{len(self.demods)}")
            write_tensor(folder, m, flags if ctx.chance(0.6) else None)
            self.demods[half] = ctx.run(ml.Demodulator, folder)
        return self.demods[half]

    def step(self):
        ctx = self.ctx
        if not self.live:
            lv = self.fresh()
            return "make", None, lv, []
        op = ctx.pick(self.ops)
        lv = ctx.pick(self.live)
        self.history.append(f"{op}({lv.name})")
        return getattr(self, "op_" + op)(lv)

    # ---- new images
    def op_make(self, lv):
        new = self.fresh()
        return "make", None, new, []

    def _arith(self, lv, name, fn):
        ctx = self.ctx
        r = ctx.integer(0, 3)
        if r <= 1:
            other = self.partner(lv)
            pre = [snap(lv.im), snap(other.im)]
            im = ctx.run(fn, lv.im, other.im)
            new = self.derive(lv, im)
            return name + "-image", None, new, [lv, other]
        if r == 2:
            v = ctx.pick((2, 0.5, -3.25, 1, 7))
        else:
            v = gen.values(ctx, lv.im.data.shape, "uniform")
            self.arrays.append((v, v.copy()))
        im = ctx.run(fn, lv.im, v)
        # arithmetic with a number/array builds a fresh image
        new = self.derive(lv, im, mode="either", demod=False)
        new.mode = lv.mode
        return name + ("-scalar" if r == 2 else "-array"), None, new, [lv]

    def op_add(self, lv):
        return self._arith(lv, "add", lambda a, b: a + b)

    def op_sub(self, lv):
        return self._arith(lv, "sub", lambda a, b: a - b)

    def op_mul(self, lv):
        return self._arith(lv, "mul", lambda a, b: a * b)

    def op_div(self, lv):
        return self._arith(lv, "div", lambda a, b: a / b)

    def op_rebin(self, lv):
        h, w = lv.im.data.shape
        n = self.ctx.integer(1, 3)
        if h < 2 * n or w < 2 * n or min(h, w) <= 4:
            n = 1
        return "rebin", None, self.derive(lv, self.ctx.run(lv.im.rebin, n)), [lv]

    def op_congrid(self, lv):
        h, w = gen.shape(self.ctx, 2, 8)
        if self.ctx.chance(0.2):
            h += 1
        return "congrid", None, self.derive(lv, self.ctx.run(lv.im.congrid, h, w)), [lv]

    def op_rotate(self, lv):
        ang = self.ctx.pick((90, 180, 270, 30.0, -17.5, 0))
        new = self.derive(lv, self.ctx.run(lv.im.rotate, ang))
        new.rotated = True
        return "rotate", None, new, [lv]

    def op_shift(self, lv):
        y, x = self.ctx.integer(-3, 3), self.ctx.integer(-3, 3)
        m = self.ctx.pick((0, 0, 5.5))
        return "shift", None, self.derive(lv, self.ctx.run(lv.im.shift, y, x, m)), [lv]

    def op_clean(self, lv):
        ctx = self.ctx
        flag = (ctx.rng.random(lv.im.data.shape) < 0.15).astype(float)
        fm = ctx.run(ml.MicropolImage, flag, angle_dic=lv.dic)
        fl = self.new_live(fm, dic=lv.dic, keys={})
        return "clean_hot_pixels", None, self.derive(lv, ctx.run(lv.im.clean_hot_pixels, fm)), [lv, fl]

    def op_hotmap(self, lv):
        return "get_hot_pixels", None, self.derive(lv, self.ctx.run(get_hot_pixels, lv.im, threshold=0.2)), [lv]

    def op_copy(self, lv):
        return "copy", None, self.derive(lv, self.ctx.run(ml.MicropolImage, lv.im)), [lv]

    def op_demodulate(self, lv):
        h, w = lv.im.data.shape
        if lv.demod:
            return self.op_copy(lv)
        d = self.demodulator((h // 2, w // 2))
        demos = self.ctx.chance(0.4) or lv.mode is not None
        im = self.ctx.run(lv.im.demodulate, d, demosaicing=demos)
        return "demodulate", None, self.derive(lv, im, mode="adjacent" if demos else lv.mode, demod=True), [lv]

    def op_construct(self, lv):
        """MicropolImage(array, dark=, flat=)"""
        ctx = self.ctx
        d, f = self.partner(lv), self.partner(lv)
        a = gen.values(ctx, lv.im.data.shape, "uniform")
        self.arrays.append((a, a.copy()))
        kw = {}
        if ctx.chance(0.7):
            kw["dark"] = d.im
        if ctx.chance(0.7):
            kw["flat"] = f.im
        im = ctx.run(ml.MicropolImage, a, angle_dic=lv.dic, **kw)
        return "construct", None, self.new_live(im, dic=lv.dic, keys={}), [d, f]

    # ---- in place
    def op_dark(self, lv):
        d = self.partner(lv)
        r = self.ctx.run(lv.im.subtract_dark, d.im)
        self.in_place(lv, r)
        return "subtract_dark", lv, lv, [lv, d]

    def op_flat(self, lv):
        f = self.partner(lv)
        r = self.ctx.run(lv.im.correct_flat, f.im)
        self.in_place(lv, r)
        return "correct_flat", lv, lv, [lv, f]

    def op_ifov(self, lv):
        r = self.ctx.run(lv.im.correct_ifov)
        self.in_place(lv, r)
        return "correct_ifov", lv, lv, [lv]

    def in_place(self, lv, r):
        if r is not None:
            lv.im = r
        if lv.demod:
            lv.demod = False  # theoretical parameters again
            lv.was_demod = True
        lv.poked = lv.masked = lv.rotated = False

    def op_demosaic(self, lv):
        mode = self.ctx.pick(MODES)
        r = self.ctx.run(lv.im.demosaic, mode)
        self.in_place(lv, r)
        lv.mode = mode
        return "demosaic", lv, lv, [lv]

    def op_mask(self, lv):
        h, w = lv.im.data.shape
        c = self.ctx
        c.run(lv.im.mask_occulter, y=c.integer(0, h - 1), x=c.integer(0, w - 1), r=c.integer(1, max(h, w)), overoccult=c.integer(0, 2), fill=c.pick((0.0, 3.0)))
        lv.masked = True
        return "mask_occulter", lv, lv, [lv]

    def op_poke(self, lv):
        c = self.ctx
        y, x = c.integer(0, lv.im.data.shape[0] - 1), c.integer(0, lv.im.data.shape[1] - 1)
        lv.im.data[y, x] = 12
        if c.chance(0.5):
            lv.im.data += 1 if lv.im.data.dtype.kind in "iu" else 1.5
        lv.poked = True
        return "pixel write", lv, lv, [lv]

    def op_pokeheader(self, lv):
        k = f"POKE{self.ctx.integer(0, 9)}"
        v = self.ctx.integer(0, 10**6)
        lv.im.header[k] = v
        lv.keys[k] = v
        return "header write", lv, lv, [lv]

    def op_setdefault(self, lv):
        self.default = gen.angle_dic(self.ctx)
        ml.set_default_angles(dict(self.default))
        return "set_default_angles", None, None, []
