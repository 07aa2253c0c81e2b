"""Catalogue of public operations, each reproducible from (name, seed, size).

build(name, seed, place, folder) returns (thunk, inputs): the thunk performs one
public operation on freshly made inputs; `place` decides in which memory the
input arrays live.  Used by C25 and C26, which compare digests of the results.
"""
import hashlib
import inspect
import os

import numpy as np
from astropy.io import fits

import micropolarray as ml
from micropolarray.cameras import PolarCam
from micropolarray.polarization_functions import AoLP, DoLP, pB
from micropolarray.polarization_functions import normalize2pi as n2pf
from micropolarray.processing import chen_wan_liang_calibration as cw
from micropolarray.processing import demodulation as dm
from micropolarray.processing import demodulation_errors as de
from micropolarray.processing import rebin as rb
from micropolarray.processing import shift as sh
from micropolarray.processing.convert import three_bytes_to_two_ints
from mon import gen, ref
from mon.session import write_tensor

# few shapes and centres, so that caches keyed too coarsely collide
SHAPES = ((24, 24), (24, 32), (32, 24), (36, 36))
# long, thin and of hundreds of pixels a side
LARGE_SHAPES = ((600, 8), (8, 600), (280, 300), (300, 280), (260, 520))
# any rule, for the bounds and crash monitors
ODD_SHAPES = ((2, 2), (2, 4), (4, 2), (2, 30), (30, 2), (6, 10), (10, 6), (14, 14))


def digest(x, h=None):
    """Bytes of everything observable in a result; NaN payloads do not count."""
    top = h is None
    if top:
        h = hashlib.blake2b(digest_size=12)
    if x is None:
        h.update(b"none")
    elif isinstance(x, ml.MicropolImage):
        h.update(b"micropol")
        digest(x.data, h)
        digest(x.Stokes_vec, h)
        digest(x.demosaiced_images, h)
        digest([(c.keyword, str(c.value)) for c in x.header.cards], h)
        digest(sorted(x.angle_dic.items()), h)
        for p in x.polparam_list:
            digest(p.data, h)
    elif isinstance(x, ml.Image):
        h.update(b"image")
        digest(x.data, h)
        digest([(c.keyword, str(c.value)) for c in x.header.cards], h)
    elif isinstance(x, ml.Demodulator):
        h.update(b"demodulator")
        digest(x.mij, h)
        digest(x.fit_found_flags, h)
    elif isinstance(x, ml.MicropolImageError):
        digest([x.sigma_S, x.sigma_pB, x.sigma_DoLP, x.sigma_AoLP], h)
    elif isinstance(x, fits.Header):
        digest([(c.keyword, str(c.value)) for c in x.cards], h)
    elif isinstance(x, (list, tuple)):
        h.update(b"seq%d" % len(x))
        for v in x:
            digest(v, h)
    elif isinstance(x, dict):
        digest(list(x.items()), h)
    elif isinstance(x, (np.ndarray, np.generic)):
        a = np.asarray(x)
        if a.dtype.kind == "f":
            a = np.array(a, dtype=float)
            a[np.isnan(a)] = np.nan
        else:
            a = np.ascontiguousarray(a)
            if a.dtype.byteorder == ">":
                a = a.astype(a.dtype.newbyteorder("="))
        h.update(repr(a.shape).encode() + a.dtype.kind.encode())
        h.update(np.ascontiguousarray(a).tobytes())
    elif isinstance(x, bytes):
        h.update(b"bytes%d" % len(x) + x)
    else:
        h.update(repr(x).encode())
    return h.hexdigest() if top else None


def internal(mod, name, n):
    """A helper that is not part of the interface: used only while it is there
    and takes n arguments (None otherwise; its callers are exercised anyway)."""
    f = getattr(mod, name, None)
    try:
        return f if f is not None and len(inspect.signature(getattr(f, "py_func", f)).parameters) == n else None
    except (TypeError, ValueError):
        return None


class Maker:
    """Random inputs of one operation."""

    def __init__(self, name, seed, place, folder, shapes):
        self.rng = np.random.default_rng([seed, sum(map(ord, name)) * 7919 + len(name)])
        self.place, self.folder = place or (lambda a: a), folder
        self.inputs = []
        self.objects = []
        self.shape = shapes[int(self.rng.integers(len(shapes)))]
        self.dic = gen.ALL_DICS[int(self.rng.integers(24))]
        self.n = 0

    def i(self, lo, hi):
        return int(self.rng.integers(lo, hi + 1))

    def pick(self, s):
        return s[int(self.rng.integers(len(s)))]

    def anyside(self):
        """For operations that accept odd sides too."""
        if self.i(0, 2) == 0:
            self.shape = (self.shape[0] + self.i(0, 1), self.shape[1] + self.i(0, 1))
        return self

    def arr(self, shp=None, kind=None, dtype=None, lo=0.0, hi=4000.0):
        shp = shp or self.shape
        kind = kind or self.pick(("uniform", "int", "normal", "zeros", "zeros"))
        if kind == "uniform":
            a = self.rng.uniform(lo, hi, shp)
        elif kind == "int":
            a = self.rng.integers(1, 4096, shp).astype(float)
        elif kind == "normal":
            a = self.rng.normal(900, 300, shp)
        else:  # many zero pixels, for the guarded divisions
            a = np.where(self.rng.random(shp) < 0.4, 0.0, self.rng.uniform(1, 900, shp))
        if dtype is not None:
            a = np.rint(np.abs(a)).astype(dtype)
        a = self.place(a)
        self.inputs.append(a)
        return a

    def keep(self, a):
        a = self.place(np.asarray(a))
        self.inputs.append(a)
        return a

    def image(self, **kw):
        if "dtype" not in kw:
            kw["dtype"] = self.pick((None, None, None, "uint16", "int64"))
        im = ml.MicropolImage(self.arr(**kw), angle_dic=dict(self.dic))
        im.header["KEY1"] = self.i(0, 99)
        self.objects.append(im)
        return im

    def watch(self, x):
        """An argument that must come out of the operation as it went in."""
        self.objects.append(x)
        return x

    def path(self, name):
        os.makedirs(self.folder, exist_ok=True)
        self.n += 1
        return os.path.join(self.folder, f"{self.n}_{name}")

    def demodulator(self, half=None, flags="mixed"):
        half = half or (self.shape[0] // 2, self.shape[1] // 2)
        m = self.rng.normal(0, 1, (3, 4, *half))
        f = None if flags is None else (self.rng.random(half) < 0.7).astype(float)
        p = self.path("tensor")
        write_tensor(p, m, f)
        return self.watch(ml.Demodulator(p))

    def file(self, shp=None, **hdr):
        p = self.path("f.fits")
        h = fits.Header()
        for k, v in hdr.items():
            h[k.replace("_", "-")] = v
        a = self.rng.uniform(0, 4000, shp or self.shape)
        if self.i(0, 1):
            a = a.astype("uint16")
        fits.PrimaryHDU(data=a, header=h).writeto(p, overwrite=True)
        return p


OPS = {}
NO_THREADS = set()
EVEN_ONLY_BIG = set()  # operations that need at least 24 pixel sides


def op(fn=None, *, threads=True, big=False):
    def reg(f):
        OPS[f.__name__] = f
        if not threads:
            NO_THREADS.add(f.__name__)
        if big:
            EVEN_ONLY_BIG.add(f.__name__)
        return f

    return reg(fn) if fn else reg


def build(name, seed, place=None, folder=None, shapes=SHAPES):
    if name in EVEN_ONLY_BIG:
        shapes = LARGE_SHAPES[2:] if shapes is LARGE_SHAPES else SHAPES
    m = Maker(name, seed, place, folder, shapes)
    thunk = OPS[name](m)
    return thunk, m


# ---------------------------------------------------------------- images
@op
def make_image(m):
    a = m.arr(dtype=m.pick((None, "uint16", "float32", "int32")))
    return lambda: ml.MicropolImage(a, angle_dic=dict(m.dic))


@op
def make_default(m):
    a = m.arr()
    return lambda: ml.MicropolImage(a)


@op
def make_corrected(m):
    a, d, f = m.arr(), m.image(), m.image(kind=m.pick(("zeros", "uniform")))
    return lambda: ml.MicropolImage(a, angle_dic=dict(m.dic), dark=d, flat=f)


@op
def make_from_files(m):
    ps = [m.file(DATE_OBS="2023-01-0%d" % m.i(1, 9), TIME_OBS="10:00:0%d" % m.i(0, 9)) for _ in range(m.i(1, 4))]
    avg = bool(m.i(0, 1))

    def f():
        x = ml.MicropolImage(list(ps), angle_dic=dict(m.dic), averageimages=avg)
        return [x.data, x.Stokes_vec, x.header]

    return f


@op
def copy_image(m):
    x = m.image()
    return lambda: ml.MicropolImage(x)


def _ints(m):
    return m.i(-9, 9), m.i(-9, 9)


@op
def plain_shift(m):
    m.anyside()
    x = m.watch(ml.Image(m.arr()))
    (y0, x0), fill = _ints(m), float(m.i(-3, 3))
    return lambda: x.shift(y0, x0, fill)


@op
def plain_arith(m):
    m.anyside()
    b = m.arr(kind="zeros")
    x, y = m.watch(ml.Image(m.arr())), m.watch(ml.Image(b))
    return lambda: [x + y, x - y, x * y, x / y, x / b, x / 0, x + 3.5, y - 2]


@op
def plain_rebin(m):
    m.anyside()
    x = m.watch(ml.Image(m.arr()))
    n = m.i(1, 5)
    return lambda: x.rebin(n)



@op
def image_arith(m):
    b = m.arr(kind="zeros")
    x, y = m.image(), m.image(kind="zeros")
    return lambda: [x + y, x - y, x * y, x / y, x / b, x / 0, x + 3.5, y - 2, y / x, x / 2]


@op
def demosaiced_arith(m):
    y = m.image(kind="zeros")
    a = m.arr()
    mode = m.pick(("adjacent", "mean", "spline"))

    def f():
        x = ml.MicropolImage(a, angle_dic=dict(m.dic)).demosaic(mode)
        return [x + y, x / y, x.shift(1, -2, 4.0), x.rebin(1)]

    return f


@op
def image_rebin(m):
    x, n = m.image(), m.i(1, 5)
    if min(m.shape) < 2 * n:
        n = 1
    return lambda: x.rebin(n)


@op
def image_congrid(m):
    x, h, w = m.image(), m.i(2, 50), m.i(2, 50)
    return lambda: x.congrid(h, w)


@op
def image_rotate(m):
    x, ang = m.image(), m.pick((90, 180, 33.0, -12.5))
    return lambda: x.rotate(ang)


@op
def image_shift(m):
    x, (dy, dx), fill = m.image(), _ints(m), float(m.i(-2, 2))
    return lambda: x.shift(dy, dx, fill)


@op
def image_dark_flat(m):
    a, d, f = m.arr(), m.image(), m.image(kind=m.pick(("zeros", "uniform")))
    return lambda: ml.MicropolImage(a, angle_dic=dict(m.dic)).subtract_dark(d).correct_flat(f)


@op
def image_ifov(m):
    a = m.arr()
    return lambda: ml.MicropolImage(a, angle_dic=dict(m.dic)).correct_ifov()


@op
def image_demosaic(m):
    a, mode = m.arr(dtype=m.pick((None, "uint16"))), m.pick(("adjacent", "mean", "spline"))
    return lambda: ml.MicropolImage(a, angle_dic=dict(m.dic)).demosaic(mode)


@op
def image_hot_pixels(m):
    x, t = m.image(), m.rng.uniform(0.05, 0.6)

    def f():
        hot = ml.get_hot_pixels(x, t)
        return [hot, x.clean_hot_pixels(hot)]

    return f


@op
def image_demodulate(m):
    x, d = m.image(), m.demodulator(flags=m.pick((None, "mixed")))
    return lambda: x.demodulate(d)


@op
def image_demodulate_full(m):
    x, d = m.image(), m.demodulator(flags=m.pick((None, "mixed")))
    return lambda: x.demodulate(d, demosaicing=True)


@op
def image_mask(m):
    a = m.arr()
    y, x, r = m.i(0, m.shape[0]), m.i(0, m.shape[1]), m.i(0, 15)
    mode, over, fill = m.pick((None, "adjacent")), m.i(0, 4), float(m.i(-1, 2))

    def f():
        im = ml.MicropolImage(a, angle_dic=dict(m.dic))
        if mode:
            im.demosaic(mode)
        im.mask_occulter(y, x, r, overoccult=over, fill=fill)
        return im

    return f


@op
def image_error(m):
    x, d, e = m.image(), m.demodulator(flags=None), m.arr(kind="uniform", lo=1, hi=40)
    return lambda: ml.MicropolImageError(x, e, d)


@op
def demodulator_turns(m):
    d = m.demodulator()
    p, k, ax = d.demo_matrices_path, m.i(-3, 5), m.i(0, 1)

    def f():
        q = ml.Demodulator(p)
        q.rot90(k)
        q.flip(ax)
        return q

    return f


# ---------------------------------------------------------------- files
def _contents(folder):
    out = []
    for base, _, names in sorted(os.walk(folder)):
        for n in sorted(names):
            out.append((os.path.relpath(os.path.join(base, n), folder), open(os.path.join(base, n), "rb").read()))
    return out


@op
def save_files(m):
    x, out = m.image(), m.path("out")
    fix = m.pick((None, [0, 900], [10.0, 3000.0]))

    def f():
        os.makedirs(out, exist_ok=True)
        x.save_as_fits(os.path.join(out, "a.fits"), fixto=fix)
        x.save_all_pol_params_as_fits(os.path.join(out, "p.fits"))
        x.save_param_as_fits("pB", os.path.join(out, "q.fits"), fixto=fix)
        x.save_single_pol_images(os.path.join(out, "s.fits"), fixto=fix)
        y = ml.MicropolImage(x).demosaic()
        y.save_demosaiced_images_as_fits(os.path.join(out, "d.fits"), fixto=fix)
        return _contents(out)

    return f


@op
def raw_files(m):
    p = m.path("a.raw")
    h, w = m.shape
    px = m.rng.integers(0, 65536, (h, w)).astype("<u2")
    q = m.path("b.raw")

    def f():
        px.tofile(p)
        (px[::-1] // 2).tofile(q)
        ml.convert_rawfile_to_fits(p, h, w, remove_old=False)
        out = os.path.join(os.path.dirname(p), "merged.fits")
        ml.merge_rawfiles_to_fits([p, q], out, h, w)
        with fits.open(p[:-4] + ".fits") as a, fits.open(out) as b:
            return [np.array(a[0].data), np.array(b[0].data)]

    return f


@op
def packed_pixels(m):
    b = m.rng.integers(0, 256, 3 * m.i(100, 300)).astype("uint8").tobytes()
    return lambda: three_bytes_to_two_ints(b)


# ---------------------------------------------------------------- functions
@op
def f_split_merge(m):
    a = m.arr(dtype=m.pick((None, "uint16", "float32")))
    return lambda: [ml.split_polarizations(a), ml.merge_polarizations(ml.split_polarizations(a))]


@op
def f_merge(m):
    a = m.arr(shp=(4, m.shape[0] // 2, m.shape[1] // 2))
    return lambda: ml.merge_polarizations(a)


@op
def f_demosaic(m):
    a, mode = m.arr(dtype=m.pick((None, "uint16"))), m.pick(("adjacent", "mean", "spline"))
    return lambda: ml.demosaic(a, mode)


@op
def f_rebin(m):
    b = m.anyside().arr()
    m.shape = (m.shape[0] // 2 * 2, m.shape[1] // 2 * 2)
    a = m.arr()
    n = m.i(1, max(1, min(m.shape) // 2))
    fs = [(internal(rb, "micropolarray_rebin", 2), (a, n)), (internal(rb, "standard_rebin", 2), (b, n)), (internal(rb, "trim_to_match_2xbinning", 3), (*a.shape, n)), (internal(rb, "trim_to_match_binning", 4), (*a.shape, n))]
    return lambda: [f(*v) for f, v in fs if f]


@op
def f_shift(m):
    b = m.anyside().arr()
    m.shape = (m.shape[0] // 2 * 2, m.shape[1] // 2 * 2)
    a, (y, x), fill = m.arr(), (m.i(-40, 40), m.i(-40, 40)), float(m.i(-2, 2))
    fs = [(internal(sh, "shift", 4), a), (internal(sh, "shift", 4), b), (internal(sh, "shift_micropol", 4), a)]
    return lambda: [f(v, y, x, fill) for f, v in fs if f]


@op
def f_congrid(m):
    m.anyside()
    a, d = m.arr(), [m.i(1, 60), m.i(1, 60)]
    m.watch(d)
    return lambda: ml.congrid(a, d)


@op
def f_roi(m):
    single = bool(m.i(0, 1))
    if single:
        m.anyside()
    a = m.arr()
    c = m.watch([m.pick((0, 7, 12, 15, 20)), m.pick((0, 7, 12, 15, 20))])
    rho = m.watch([m.i(0, 5), m.i(6, 30)])
    th = m.watch(m.pick(([0, 180], [30, 270], [90, 360], [0, 360], [300.0, 400.0], [-30.0, 60.0], [350, 370])))
    kw = dict(fill=float(m.i(0, 3)), return_boolean=bool(m.i(0, 1)), include_superpixels=not single)
    if m.i(0, 3) == 0:
        return lambda: ml.roi_from_polar(a, **kw)
    return lambda: ml.roi_from_polar(a, c, rho, th, **kw)


@op
def f_nrgf(m):
    m.anyside()
    a = m.arr()
    y, x, r, s = m.pick((7, 12, 15)), m.pick((7, 12, 15)), m.i(0, 6), m.i(1, 4)
    pm, po = (m.watch(m.pick(([0, 180], [0, 360], [45, 360], [300.0, 400.0], [-30.0, 60.0]))) for _ in range(2))
    return lambda: ml.nrgf(a, y, x, r, s, pm, po)


def _disc(m):
    h, w = 96, 112
    r = m.rng.uniform(24, 30)
    yc, xc = h / 2 + m.rng.uniform(-3, 3), w / 2 + m.rng.uniform(-3, 3)
    y, x = np.mgrid[0:h, 0:w]
    a = 40 + 1000 / (1 + np.exp(-(np.hypot(y - yc, x - xc) - r) / 1.3)) + m.rng.normal(0, 3, (h, w))
    return m.keep(a)


@op
def f_occulter(m):
    a = _disc(m)
    return lambda: [ml.find_occulter_position(a), ml.find_occulter_position(a, "algo", 4.0)]


@op
def f_hough(m):
    a = _disc(m)
    return lambda: ml.find_occulter_hough(a, 15, 45)


@op
def f_linear(m):
    m.anyside()
    a = m.arr()
    s = m.watch([m.i(0, m.shape[0] - 1), m.i(0, m.shape[1] - 1)])
    e = m.watch([m.i(0, m.shape[0] - 1), m.i(0, m.shape[1] - 1)])
    if s == e:
        e[0] = (e[0] + 1) % m.shape[0]
    return lambda: ml.linear_roi(a, s, e)


@op(big=True)
def f_ray(m):
    a = m.arr()
    c = m.watch([12, 12])
    t, r = float(m.i(0, 359)), m.watch([m.i(0, 3), m.i(6, 10)])
    return lambda: [ml.linear_roi_from_polar(a, c, t), ml.linear_roi_from_polar(a, c, t, r)]


@op
def f_angles(m):
    v = m.watch([float(x) for x in m.rng.uniform(-900, 900, 40)])
    a = m.keep(m.rng.uniform(-30, 30, (17, 19)))
    return lambda: [ml.normalize2pi(v), n2pf(v), ml.normalize2piarray(a)]


@op
def f_stats(m):
    m.anyside()
    a, n = m.arr(dtype=m.pick((None, "uint16"))), m.i(1, 4)
    return lambda: [f(a, n) for f in (ml.mean_minus_std, ml.mean_plus_std, ml.median_minus_std, ml.median_plus_std)] + [ml.sigma_DN(np.abs(a))]


@op
def f_units(m):
    a, b, c = m.rng.uniform(1, 100, 3)
    return lambda: ml.get_Bsun_units(a, b, c)


@op
def f_polfunctions(m):
    m.anyside()
    s = m.keep(np.where(m.rng.random((3, *m.shape)) < 0.2, 0.0, m.rng.normal(0, 100, (3, *m.shape))))
    return lambda: [AoLP(s), DoLP(s), pB(s)]


@op
def f_errors(m):
    s = m.keep(m.rng.normal(0, 100, (3, *m.shape)) + 1)
    e = m.keep(m.rng.uniform(0.1, 5, (3, *m.shape)))
    return lambda: [f(s, e) for f in (internal(de, "get_error_on_" + k, 2) for k in ("pB", "DoLP", "AoLP")) if f]


@op
def f_malus_normalization(m):
    a = m.rng.normal(1000, 2, (4, 80, 80)) / 2
    a[:, 0, 0], a[:, 0, 1] = 400, 600
    a = m.keep(a)
    return lambda: ml.get_malus_normalization(a)


@op(big=True)
def f_auto_threshold(m):
    a = m.keep(np.where(np.mgrid[0 : m.shape[0], 0 : m.shape[1]][0] < m.shape[0] // 2, 20.0, 100.0) + m.rng.normal(0, 1, m.shape))
    return lambda: ml.auto_threshold(a)


@op
def f_align(m):
    n = m.shape[0]
    a = m.arr(shp=(n, n))
    d, t = "2023-01-0%d" % m.i(1, 9), "10:20:30"
    c = m.watch([m.i(500, 1400), m.i(500, 1400)])
    b = m.i(1, 4)

    def f():
        h = fits.Header()
        h["DATE-OBS"], h["TIME-OBS"] = d, t
        return ml.align_keywords_and_data(h, a, c, 4.3, b)

    return f


@op
def f_ifov(m):
    m.anyside()
    a = m.arr()
    f = internal(ml, "_ifov_jitcorrect", 3)
    return lambda: f and f(a, *a.shape)


@op
def f_chen(m):
    a = m.arr(dtype=m.pick((None, "uint16")))
    p = m.path("chen")
    os.makedirs(p)
    for i in range(4):
        for j in range(4):
            fits.PrimaryHDU(data=m.rng.normal(0, 1, m.shape)).writeto(f"{p}/C{i}{j}.fits")
    fits.PrimaryHDU(data=m.rng.normal(0, 9, m.shape)).writeto(f"{p}/d_ij.fits")
    return lambda: ml.chen_wan_liang_calibration(a, p)


@op
def f_chen_calculate(m):
    h, w = 8, 12
    ang = [0, 45, 90, -45]
    ps = [m.file(shp=(h, w)) for _ in ang]
    q = m.path("chenout")
    m.watch(ps), m.watch(ang)
    extra = {}
    if m.i(0, 1):
        extra = dict(dark_filename=m.file(shp=(h, w)), flat_filename=m.file(shp=(h, w)))

    def f():
        cw.calculate_chen_wan_lian_calibration(ang, ps, [0, 45, -45, 90], q, occulter=False, **extra)
        return _contents(q)

    return f


@op
def f_chunk(m):
    h, w = 8, 12
    ang = np.array([0.0, 30, 60, 90, 120, 150])
    phi = np.deg2rad(np.array([0.0, 45, -45, 90]))
    full = np.zeros((h, w))
    for k in range(4):
        full[k // 2 :: 2, k % 2 :: 2] = phi[k]
    t, e = m.rng.uniform(0.3, 0.9, (h, w)), m.rng.uniform(0.5, 0.95, (h, w))
    data = np.array([0.5 * t * (1 + e * np.cos(2 * (np.deg2rad(x) - full))) for x in ang]) + m.rng.normal(0, 1e-3, (6, h, w))
    data[:, m.i(0, h - 1), m.i(0, w - 1)] = 0  # a dead pixel
    data, err = m.keep(data), m.keep(np.full(data.shape, 1e-3))
    occ = m.keep(np.repeat(np.repeat((m.rng.random((h // 2, w // 2)) < 0.2).astype(float), 2, 0), 2, 1))
    f = internal(dm, "compute_demodulation_by_chunk", 8)
    return lambda: f and f(data, err, occ, ang, phi, None, None, False)


@op
def f_camera(m):
    a = m.arr()

    def f():
        c = PolarCam()
        c.h_image, c.w_image = a.shape
        c.occulter_pos_last = [a.shape[0] // 2, a.shape[1] // 2, 3]
        return [c.occulter_roi(a), c.occulter_mask(overoccult=1), PolarCam().occulter_pos_last]

    return f


@op(threads=False)
def plots(m):
    import matplotlib.pyplot as plt

    x = m.image()

    def f():
        out = []
        x.demosaic() if m_demo else None
        for g in (x.show, x.show_histogram, x.show_with_pol_params, x.show_pol_params, x.show_single_pol_images):
            r = g()
            for fig in [v for v in r if hasattr(v, "axes") and hasattr(v, "savefig")]:
                for ax in fig.axes:
                    for im in ax.images:
                        out.append(np.ma.filled(im.get_array(), np.nan))
                        out.append(im.get_clim())
            plt.close("all")
        return out

    m_demo = False
    return f


NAMES = sorted(OPS)
LARGE_NAMES = [n for n in NAMES if n not in ("plots", "f_chunk", "f_chen_calculate")]


def of_kind(kind):
    return {"big": SHAPES, "small": ODD_SHAPES, "large": LARGE_SHAPES}[kind]
