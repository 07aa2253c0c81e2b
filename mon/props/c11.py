import glob
import os

import numpy as np
from astropy.io import fits

import micropolarray as ml
from mon import gen, race, ref
from mon.core import scenario

DT = ("uint8", "int8", "uint16", "int16", "uint32", "int32", "int64", "uint64", "float32", "float64")


def tree(d):
    return sorted(os.path.relpath(os.path.join(r, f), d) for r, _, fs in os.walk(d) for f in fs)


def folders(d):
    return sorted(os.path.relpath(os.path.join(r, f), d) for r, fs, _ in os.walk(d) for f in fs)


def clamp(a, fix):
    return np.asarray(a, float) if fix is None else np.minimum(np.maximum(np.asarray(a, float), fix[0]), fix[1])


def bounds(ctx, a):
    """[min, max] ranges; zero on either side is frequent."""
    k = ctx.integer(0, 5)
    m = float(np.max(np.abs(np.asarray(a, float)), initial=1.0))
    if k <= 1:
        return None
    if k == 2:
        return [0, float(m * ctx.rng.uniform(0.1, 0.9))]
    if k == 3:
        return [-float(m * ctx.rng.uniform(0.1, 0.9)), 0]
    if k == 4:
        return [float(-m * 0.3), float(m * 0.3)]
    return [0.0, 0.0]


def micropol(ctx, shp=None):
    shp = shp or gen.shape(ctx, 1, 8)
    dt = ctx.pick(("float64",) * 3 + DT)
    a = gen.typed(ctx, gen.values(ctx, shp, ctx.pick(("uint12", "uniform", "signed", "ids", "sparse", "constant"))), (dt,)) if dt != "int8" else ctx.rng.integers(-128, 128, shp).astype("int8")
    if dt in ("int16",):
        a = ctx.rng.integers(-32768, 32768, shp).astype("int16")
    if ctx.chance(0.1):
        a = gen.fits_order(a)
    im = ctx.run(ml.MicropolImage, a, angle_dic=gen.angle_dic(ctx))
    keys = gen.header(ctx)
    for k, v in keys.items():
        im.header[k] = v
    return im, np.array(a), keys


def where(ctx, ext=".fits"):
    """(folder to look at, file name to ask for, its folder, its stem)"""
    top = ctx.path(f"out{ctx.integer(0, 10**6)}")
    sub = ctx.pick(("", "new", "new/deeper", "with.dots/x"))
    stem = ctx.pick(("image", "im.age", "img_01", "a.b.c", "x y"))
    d = os.path.join(top, sub) if sub else top
    if ctx.chance(0.5):
        os.makedirs(d, exist_ok=True)
    else:
        os.makedirs(top, exist_ok=True)
    p = os.path.join(d, stem + ext)
    if ctx.chance(0.3):  # relative names are taken from the working directory
        p = os.path.relpath(p)
    return top, p, d, stem


def check_file(ctx, path, exp, keys, extra, what, exact=True):
    with fits.open(path) as h:
        ctx.ok(len(h) == 1, "wrong-file", f"{what}: {len(h)} HDUs")
        a = np.array(h[0].data)
        hd = h[0].header
        if exact:
            ctx.eq(a.astype(float), np.asarray(exp, float), "wrong-values", what)
        else:  # a range on single-precision data may be applied in single precision
            ctx.close(a, exp, "wrong-values", what, rtol=2e-7)
        ctx.ok((hd["NAXIS2"], hd["NAXIS1"]) == np.asarray(exp).shape, "wrong-header", f"{what}: size")
        for k, v in keys.items():
            ctx.ok(k in hd and hd[k] == v, "keyword-lost", f"{what}: {k}={v!r} read back as {hd.get(k)!r}")
        for k, v in (extra or {}).items():
            ctx.ok(k in hd and str(hd[k]).strip() == str(v).strip(), "wrong-label", f"{what}: {k} is {hd.get(k)!r}, expected {v!r}")
    ctx.ev("files read back")


@scenario("C11", quick=250, thorough=3000, large=(8, 80, 4_000_000))
def save_and_read_back(ctx):
    im, a, keys = micropol(ctx)
    cls = ctx.pick((ml.Image, ml.MicropolImage))
    if cls is ml.Image:
        im = ctx.run(ml.Image, a)
        for k, v in keys.items():
            im.header[k] = v
    fix = bounds(ctx, a)
    if a.dtype.kind == "f" and fix is None and ctx.chance(0.4):
        # what a division or a logarithm leaves behind
        for v in ctx.pick(((np.nan,), (np.inf,), (np.nan, np.inf, -np.inf))):
            i, j = ctx.integer(0, a.shape[0] - 1), ctx.integer(0, a.shape[1] - 1)
            a[i, j] = v
        im.data = a.copy()
        ctx.ev("images with undefined or infinite pixels")
    top, p, d, stem = where(ctx)
    again = ctx.chance(0.3)
    if again:
        os.makedirs(d, exist_ok=True)
        fits.PrimaryHDU(data=np.zeros((40, 50))).writeto(p, overwrite=True)
    before = np.array(im.data)
    kw = {} if fix is None else {"fixto": fix}
    ctx.run(im.save_as_fits, p, **kw)
    ctx.ok(tree(top) == [os.path.relpath(os.path.abspath(p), top)], "wrong-files", f"wrote {tree(top)}")
    check_file(ctx, p, clamp(a, fix) if fix else a, keys, None, f"save_as_fits {a.dtype} fixto {fix}", exact=not (fix and a.dtype.newbyteorder("=") == np.float32))
    ctx.eq(im.data, before, "image-changed", "saving changed the image")
    back = ctx.run(cls, os.path.abspath(p))
    ctx.close(np.asarray(back.data, float), clamp(a, fix), "wrong-values", f"read back {a.dtype} fixto {fix}", rtol=2e-7 if fix and a.dtype.newbyteorder("=") == np.float32 else 0)
    for k, v in keys.items():
        ctx.ok(back.header.get(k) == v, "keyword-lost", f"{k}={v!r} read back as {back.header.get(k)!r}")
    if fix:
        ctx.ev("clamped saves")
    if again:
        ctx.ev("replaced files")
    ctx.sig(cls.__name__, a.shape, a.dtype, fix, stem, again, ctx.idx)
    ctx.sample(dtype=a.dtype, shape=a.shape, fixto=fix, name=p)


TITLES = {"I": "Stokes I", "Q": "Stokes Q", "U": "Stokes U", "pB": "Polarized brightness", "AoLP": "Angle of Linear Polarization", "DoLP": "Degree of Linear Polarization"}


@scenario("C11", quick=250, thorough=3000, large=(8, 80, 1_000_000))
def save_parameters(ctx):
    im, a, keys = micropol(ctx)
    if ctx.chance(0.3):
        ctx.run(im.demosaic, ctx.pick(("adjacent", "mean")))
    par = {p.ID: np.array(p.data) for p in im.polparam_list}
    top, p, d, stem = where(ctx)
    if ctx.chance(0.5):
        ctx.run(im.save_all_pol_params_as_fits, p)
        items = {k: None for k in par}
    else:
        k = ctx.pick(list(par))
        fix = bounds(ctx, par[k])
        ctx.run(im.save_param_as_fits, k, p, **({} if fix is None else {"fixto": fix}))
        items = {k: fix}
    exp = sorted(os.path.relpath(os.path.join(d, f"{stem}_{k}.fits"), top) for k in items)
    ctx.ok(tree(top) == exp, "wrong-files", f"wrote {tree(top)}, expected {exp}")
    for k, fix in items.items():
        with fits.open(os.path.join(d, f"{stem}_{k}.fits")) as h:
            label = str(h[0].header.get("PARAM"))
        ctx.ok(label in (TITLES[k], k), "wrong-label", f"{k} is labelled {label!r}")
        check_file(ctx, os.path.join(d, f"{stem}_{k}.fits"), clamp(par[k], fix) if fix else par[k], keys, {}, f"parameter {k} fixto {fix}", exact=not fix)
        ctx.ev("parameter " + k)
    ctx.eq(im.data, a, "image-changed", "saving changed the image")
    ctx.sig(a.shape, a.dtype, sorted(items), str(list(items.values())), stem, ctx.idx)


@scenario("C11", quick=250, thorough=3000, large=(8, 80, 1_000_000))
def save_planes(ctx):
    im, a, keys = micropol(ctx)
    dic = dict(im.angle_dic)
    demo = ctx.chance(0.5)
    fix = bounds(ctx, a)
    kw = {} if fix is None else {"fixto": fix}
    top, p, d, stem = where(ctx)
    if demo:
        if ctx.chance(0.2):
            ctx.refuses(im.save_demosaiced_images_as_fits, p, what="saving planes of an image that is not demosaiced")
            ctx.ok(tree(top) == [], "wrote-on-refusal", f"{tree(top)}")
        mode = ctx.pick(("adjacent", "mean", "spline"))
        ctx.run(im.demosaic, mode)
        planes = {ang: np.array(im.demosaiced_images[dic[ang]]) for ang in dic}
        ctx.close(planes[0], ref.DEMOSAIC[mode](a)[dic[0]], "wrong-values", f"demosaiced {mode}", rtol=1e-6)
        ctx.run(im.save_demosaiced_images_as_fits, p, **kw)
    else:
        f = ref.split(a)
        planes = {ang: f[dic[ang]] for ang in dic}
        ctx.run(im.save_single_pol_images, p, **kw)
    got = tree(top)
    ctx.ok(len(got) == 4, "wrong-files", f"wrote {got}")
    for ang, v in planes.items():
        # POL0 must not match POL90: the label follows POL directly
        m = [x for x in glob.glob(os.path.join(glob.escape(d), glob.escape(stem) + f"*POL{ang}.fits"))]
        ctx.ok(len(m) == 1, "wrong-files", f"orientation {ang}: {got}")
        check_file(ctx, m[0], clamp(v, fix) if fix else v, keys, {"POL": ang}, f"{'demosaiced' if demo else 'single'} plane {ang} fixto {fix}", exact=not (fix and a.dtype.newbyteorder("=") == np.float32))
        ctx.ev("plane files")
    ctx.ok("POL" not in im.header, "image-changed", "saving changed the header")
    ctx.eq(im.data, a, "image-changed", "saving changed the image")
    ctx.sig(demo, a.shape, a.dtype, str(dic), fix, stem, ctx.idx)


OWN = ("PARAM", "UNITS", "POL")


@scenario("C11", quick=100, thorough=1500)
def many_saves(ctx):
    """One image saved in several ways, in any order, some names used again and
    the image changed in place in between: every file holds what was asked for
    when it was written, and carries its own labels only."""
    im, a, keys = micropol(ctx)
    keys = {k: v for k, v in keys.items() if k not in OWN}
    for k in OWN:
        im.header.remove(k, ignore_missing=True)
    demo = ctx.chance(0.7)
    if demo:
        ctx.run(im.demosaic, ctx.pick(("adjacent", "mean")))
    d = ctx.path(f"many{ctx.integer(0, 10**6)}")
    os.makedirs(d)
    inv = {v: k for k, v in im.angle_dic.items()}
    files, h = {}, []
    for _ in range(ctx.integer(3, 9)):
        stem = ctx.pick(("a", "b", "c"))
        p = os.path.join(d, stem + ".fits")
        how = ctx.pick(("whole", "param", "params", "single", "demosaiced", "scale", "mask", "params"))
        fix = bounds(ctx, a) if how in ("whole", "param", "single", "demosaiced") else None
        kw = {} if fix is None else {"fixto": fix}
        par = {q.ID: np.array(q.data) for q in (im.I, im.Q, im.U, im.pB, im.AoLP, im.DoLP)}
        fam = ref.split(np.array(im.data))
        if how == "whole":
            ctx.run(im.save_as_fits, p, **kw)
            files[stem] = (clamp(im.data, fix), {})
        elif how == "param":
            k = ctx.pick(list(par))
            ctx.run(im.save_param_as_fits, k, p, **kw)
            files[f"{stem}_{k}"] = (clamp(par[k], fix), {"PARAM": (TITLES[k], k)})
        elif how == "params":
            ctx.run(im.save_all_pol_params_as_fits, p)
            for k in par:
                files[f"{stem}_{k}"] = (np.asarray(par[k], float), {"PARAM": (TITLES[k], k)})
        elif how == "single":
            ctx.run(im.save_single_pol_images, p, **kw)
            for ang, k in im.angle_dic.items():
                files[f"{stem}POL{ang}"] = (clamp(fam[k], fix), {"POL": (str(ang),)})
        elif how == "demosaiced" and demo:
            ctx.run(im.save_demosaiced_images_as_fits, p, **kw)
            for k, pl in enumerate(im.demosaiced_images):
                files[f"{stem}_POL{inv[k]}"] = (clamp(pl, fix), {"POL": (str(inv[k]),)})
        elif how == "scale" and not demo and im.data.dtype == np.float64:
            # an in-place correction, the files written before keep what they hold
            ctx.run(im.subtract_dark, ml.MicropolImage(np.full(im.data.shape, 1.0), angle_dic=dict(im.angle_dic)))
        elif how == "mask" and np.asarray(im.Stokes_vec).size:
            ctx.run(im.mask_occulter, y=ctx.integer(0, a.shape[0] - 1), x=ctx.integer(0, a.shape[1] - 1), r=ctx.integer(1, max(a.shape)), fill=ctx.pick((0.0, 7.0)))
            ctx.ev("images masked between saves")
        else:
            continue
        h.append(how + stem)
    ctx.ok(tree(d) == sorted(k + ".fits" for k in files), "wrong-files", f"{h}: {tree(d)}, expected {sorted(files)}")
    for k, (v, labels) in files.items():
        with fits.open(os.path.join(d, k + ".fits")) as f:
            hd = f[0].header
            ctx.close(np.array(f[0].data), v, "wrong-values", f"{k} after {h}", rtol=2e-7)
            for name in ("PARAM", "POL"):
                ctx.ok((name in hd) == (name in labels), "wrong-label", f"{k} after {h}: {name} is {hd.get(name)!r}")
                if name in labels:
                    ctx.ok(str(hd.get(name)).strip() in labels[name], "wrong-label", f"{k} after {h}: {name} is {hd.get(name)!r}")
            ctx.ok("UNITS" not in hd or "PARAM" in labels, "wrong-label", f"{k} after {h}: UNITS")
            for name, x in keys.items():
                ctx.ok(name in hd and hd[name] == x, "keyword-lost", f"{k} after {h}: {name}={x!r} read back as {hd.get(name)!r}")
        ctx.ev("files of several saves")
    for name in OWN:
        ctx.ok(name not in im.header, "image-changed", f"{h} left {name} in the header of the image")
    ctx.sig(*h, a.shape, a.dtype, ctx.idx)


@scenario("C11", quick=120, thorough=1000)
def refused_names(ctx):
    im, a, keys = micropol(ctx)
    ctx.run(im.demosaic)
    ext = ctx.pick((".fit", ".txt", "", ".FITS.gz", ".png", ".fits.bak", ".raw"))
    d = ctx.path("ref")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, ctx.pick(("name", "new/name", "new/deeper/name")) + ext)
    calls = {
        "save_as_fits": lambda: im.save_as_fits(p),
        "save_param_as_fits": lambda: im.save_param_as_fits("I", p),
        "save_all_pol_params_as_fits": lambda: im.save_all_pol_params_as_fits(p),
        "save_single_pol_images": lambda: im.save_single_pol_images(p),
        "save_demosaiced_images_as_fits": lambda: im.save_demosaiced_images_as_fits(p),
        "Image.save_as_fits": lambda: ml.Image(a).save_as_fits(p),
    }
    for k, f in calls.items():
        ctx.refuses(f, what=f"{k}({p!r})")
        ctx.ok(tree(d) == [] and folders(d) == [], "wrote-on-refusal", f"{k} of {os.path.relpath(p, d)} left {tree(d)} in {folders(d)}")
    ctx.sig(ext, a.shape)


@scenario("C11", quick=60, thorough=500, large=(2, 20, 400_000))
def successive_saves(ctx):
    """Overwriting leaves exactly the last image's values, in every file."""
    top, p, d, stem = where(ctx)
    last = None
    for _ in range(ctx.integer(2, 4)):
        im, a, keys = micropol(ctx)
        ctx.run(im.save_all_pol_params_as_fits, p)
        ctx.run(im.save_single_pol_images, p)
        ctx.run(im.save_as_fits, p)
        last = (im, a, keys)
    im, a, keys = last
    check_file(ctx, p, a, keys, None, "last image")
    for q in im.polparam_list:
        check_file(ctx, os.path.join(d, f"{stem}_{q.ID}.fits"), q.data, keys, {}, q.ID)
    ctx.ok(len(tree(top)) == 11, "wrong-files", f"{tree(top)}")
    ctx.ev("replaced files")
    ctx.sig(a.shape, a.dtype, stem, ctx.idx)


@scenario("C11", quick=40, thorough=600)
def saved_at_once(ctx):
    """Images saved by several threads into the same folders, missing at first."""
    top = ctx.path(f"at{ctx.idx}")
    os.makedirs(top)
    n = ctx.integer(2, 5)
    ims, thunks, files = [], [], {}
    subs = ctx.pick((("new",), ("new/deeper",), ("new", "new/deeper", "new/other")))
    for t in range(n):
        im, a, keys = micropol(ctx)
        ctx.run(im.demosaic, "mean")
        keys["WHOSE"] = t
        im.header["WHOSE"] = t
        ims.append((im, np.array(im.data)))
        d = os.path.join(top, ctx.pick(subs))
        p = os.path.join(d, f"im{t}.fits")
        inv = {v: k for k, v in im.angle_dic.items()}
        how = ctx.pick(("save_as_fits", "save_param_as_fits", "save_all_pol_params_as_fits", "save_single_pol_images", "save_demosaiced_images_as_fits"))
        par = [ctx.pick(list(TITLES))] if how == "save_param_as_fits" else []
        q = {x.ID: x.data for x in im.polparam_list}
        want = {
            "save_as_fits": {"": im.data},
            "save_param_as_fits": {f"_{k}": q[k] for k in par},
            "save_all_pol_params_as_fits": {f"_{k}": v for k, v in q.items()},
            "save_single_pol_images": {f"POL{k}": ref.split(im.data)[v] for k, v in im.angle_dic.items()},
            "save_demosaiced_images_as_fits": {f"_POL{inv[k]}": v for k, v in enumerate(im.demosaiced_images)},
        }[how]
        for k, v in want.items():
            files[os.path.join(d, f"im{t}{k}.fits")] = (np.array(v, float), keys, how)
        thunks.append(lambda im=im, how=how, par=par, p=p: getattr(im, how)(*par, p))
    got, overlap, delays = race.together(thunks, ctx.integer(0, 10**6))
    for r in got:
        ctx.ok(not isinstance(r, BaseException), "save-failed", f"beside other saves: {type(r).__name__}: {r}")
    ctx.ok(tree(top) == sorted(os.path.relpath(f, top) for f in files), "wrong-files", f"{tree(top)}")
    for f, (v, keys, how) in files.items():
        check_file(ctx, f, v, keys, None, f"{how} beside other saves", exact=False)
    for im, a in ims:
        ctx.eq(im.data, a, "image-changed", "saved beside others")
    ctx.ev("saves begun while another ran", overlap)
    ctx.ev("delays injected in saves", delays)
    ctx.sig(n, sorted(os.path.basename(f) for f in files), ctx.idx)
