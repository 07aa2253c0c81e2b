import datetime
import os

import numpy as np
from astropy.io import fits

import micropolarray as ml
from mon import gen
from mon.core import scenario

DT = ("uint8", "int8", "uint16", "int16", "uint32", "int32", "int64", "uint64", "float32", "float64")


def data(ctx, shp, dt):
    r, d = ctx.rng, np.dtype(dt)
    if d.kind == "f":
        return gen.values(ctx, shp, ctx.pick(("uint12", "uniform", "signed", "normal"))).astype(d)
    i = np.iinfo(d)
    lo, hi = max(i.min, -(2**40)), min(i.max, 2**40)
    if ctx.chance(0.3):  # extremes of the type
        return r.choice(np.array([lo, hi, 0, 1], dtype=object), size=shp).astype(d)
    return r.integers(max(lo, -5000), min(hi, 70000), shp, endpoint=True).astype(d)


def write(ctx, name, a, keys=None, date=None):
    h = fits.Header()
    for k, v in (keys or {}).items():
        h[k] = v
    if date is not None:
        style, t = date
        if style == "iso":
            h["DATE-OBS"] = t.strftime("%Y-%m-%dT%H:%M:%S")
        elif style == "iso-frac":
            h["DATE-OBS"] = t.strftime("%Y-%m-%dT%H:%M:%S") + ".25"
        elif style == "split":
            h["DATE-OBS"] = t.strftime("%Y-%m-%d")
            h["TIME-OBS"] = t.strftime("%H:%M:%S") + ctx.pick(("", ".125"))
        else:  # date only
            h["DATE-OBS"] = t.strftime("%Y-%m-%d")
    p = ctx.path(name)
    fits.PrimaryHDU(data=a, header=h).writeto(p, overwrite=True)
    return p


@scenario("C10", quick=400, thorough=5000, large=(8, 80, 500000))
def file_sets(ctx):
    n = ctx.pick((1, 1, 2, 2, 3, 4, 7, 1, 2, 3, 12, 24))
    shp = gen.shape(ctx, 1, 8)
    mixed = ctx.chance(0.3)
    dt = ctx.pick(DT)
    arrs, paths, keys, dates = [], [], [], []
    style = ctx.pick((None, "iso", "iso-frac", "split"))
    t0 = datetime.datetime(2019 + ctx.integer(0, 4), ctx.integer(1, 12), ctx.integer(1, 28), ctx.integer(0, 23), ctx.integer(0, 59), ctx.integer(0, 59))
    for i in range(n):
        a = data(ctx, shp, ctx.pick(DT) if mixed else dt)
        k = gen.header(ctx)
        t = t0 + datetime.timedelta(seconds=ctx.integer(-400000, 400000))
        arrs.append(a)
        keys.append(k)
        dates.append(t)
        paths.append(write(ctx, f"img{i}.fits", a, k, None if style is None else (style, t)))
    if n > 1 and ctx.chance(0.15):  # the same file several times
        paths[-1], arrs[-1], keys[-1], dates[-1] = paths[0], arrs[0], keys[0], dates[0]
    cls = ctx.pick((ml.Image, ml.MicropolImage))
    avg = ctx.pick((True, False, None))
    kw = {} if avg is None else {"averageimages": avg}
    arg = paths if n > 1 or ctx.chance(0.5) else paths[0]
    given = list(arg) if isinstance(arg, list) else arg
    im = ctx.run(cls, arg, **kw)
    ctx.ok(arg == given, "argument-changed", "the list of names was changed")
    f = [a.astype(np.longdouble) for a in arrs]
    tot = sum(f)
    exp = np.asarray(tot if avg is False else tot / n, dtype=float)
    scale = float(max(np.max(np.abs(x)) for x in f))
    tol = 1e-13
    single = [a for a in arrs if a.dtype == np.float32]
    if single:  # single precision has room for the sum of twelve-bit counts
        whole = all(np.array_equal(a, np.rint(a)) and np.max(np.abs(a)) < 2**18 for a in single)
        tol = 1e-13 if whole and (avg is False or n & (n - 1) == 0) else 2e-6
        ctx.ev("sets with single precision files judged in double precision", tol < 1e-9 and len(single) < n)
    what = f"{'sum' if avg is False else 'mean'} of {n} files of {[str(a.dtype) for a in arrs]}"
    if n == 1:
        ctx.eq(np.asarray(im.data, dtype=float), arrs[0].astype(float), "wrong-data", "one file as stored")
    else:
        ctx.close(im.data, exp, "wrong-data", what, atol=tol * max(scale, 1e-300) * n, rtol=0)
        ctx.ok(im.header.get("SUMOF") == n, "wrong-header", f"SUMOF is {im.header.get('SUMOF')} for {n} files")
        if style is not None:
            for k, t in (("STRT-OBS", min(dates)), ("END-OBS", max(dates))):
                try:
                    got = datetime.datetime.fromisoformat(str(im.header.get(k)))
                except ValueError:
                    got = im.header.get(k)
                ctx.ok(got == t, "wrong-times", f"{k} is {got}, the files were taken at {sorted(map(str, dates))}")
            ctx.ev("dated sets")
        else:
            ctx.ok("STRT-OBS" not in im.header, "wrong-times", "times invented for undated files")
    for k, v in keys[0].items():
        ctx.ok(im.header.get(k) == v, "wrong-header", f"{k}={v!r} of the first file is {im.header.get(k)!r}")
    for kk in keys[1:]:
        for k in set(kk) - set(keys[0]):
            ctx.ok(k not in im.header, "wrong-header", f"{k} of a later file appears")
    ctx.ok((im.header["NAXIS2"], im.header["NAXIS1"]) == tuple(shp), "wrong-header", "size")
    for p, a in zip(paths, arrs):
        with fits.open(p) as h:
            ctx.eq(h[0].data, a, "file-changed", p)
    # any order of the files gives the same pixels
    if n > 1:
        o = [int(i) for i in ctx.rng.permutation(n)]
        im2 = ctx.run(cls, [paths[i] for i in o], **kw)
        ctx.close(im2.data, exp, "order-matters", what, atol=tol * max(scale, 1e-300) * n, rtol=0)
        for k, v in keys[o[0]].items():
            ctx.ok(im2.header.get(k) == v, "wrong-header", f"{k} of the first file in another order")
        ctx.ev("file sets")
    else:
        ctx.ev("single files")
    ctx.sig(n, shp, str([a.dtype for a in arrs]), style, avg, cls.__name__, ctx.idx)
    ctx.sample(files=n, dtypes=str([str(a.dtype) for a in arrs]), averageimages=avg, dates=style)


@scenario("C10", quick=150, thorough=1500)
def refused_sets(ctx):
    n = ctx.integer(1, 4)
    shp = gen.shape(ctx, 2, 6)
    paths = [write(ctx, f"img{i}.fits", data(ctx, shp, "int16")) for i in range(n)]
    bad = ctx.integer(0, n - 1)
    how = ctx.pick(("missing", "text", "empty", "truncated", "shape", "row", "no list"))
    if how == "missing":
        paths[bad] = ctx.path("not-there.fits")
    elif how == "text":
        with open(paths[bad], "w") as f:
            f.write("this is not a FITS file\n" * 20)
    elif how == "empty":
        open(paths[bad], "w").close()
    elif how == "truncated":
        b = open(paths[bad], "rb").read()
        with open(paths[bad], "wb") as f:
            f.write(b[: ctx.pick((200, 1000, 2879))])
    elif how in ("shape", "row"):
        if n == 1:
            paths.append(write(ctx, "x.fits", data(ctx, shp, "int16")))
        s2 = (shp[0] + 2, shp[1]) if how == "shape" else ctx.pick(((1, shp[1]), (shp[0], 1), (1, 1)))
        paths[bad] = write(ctx, "other.fits", data(ctx, s2, "int16"))
    elif how == "no list":
        paths = []
    cls = ctx.pick((ml.Image, ml.MicropolImage))
    ctx.refuses(cls, paths, what=f"{how} file at {bad} of {len(paths)}")
    ctx.ev("refused " + how)
    ctx.sig(how, n, bad, shp, cls.__name__)


@scenario("C10", quick=60, thorough=600)
def date_only(ctx):
    """Files with a date and no time of observation can be read."""
    shp = gen.shape(ctx, 1, 6)
    n = ctx.integer(1, 3)
    arrs = [data(ctx, shp, "uint16") for _ in range(n)]
    ps = [write(ctx, f"d{i}.fits", a, {}, ("date", datetime.datetime(2021, 3, 1 + i))) for i, a in enumerate(arrs)]
    im = ctx.run(ctx.pick((ml.Image, ml.MicropolImage)), ps)
    ctx.close(im.data, np.mean(arrs, axis=0), "wrong-data", "mean of date-only files", rtol=1e-12)
    ctx.ev("date-only files", n)
    ctx.sig(shp, n, ctx.idx)


@scenario("C10", quick=60, thorough=800, large=(4, 40, 500000))
def replaced_files(ctx):
    """Files replaced between readings: every reading holds what they contain then."""
    cls = ctx.pick((ml.Image, ml.MicropolImage))
    shp = gen.shape(ctx, 1, 8)
    dt = ctx.pick(("uint16", "int16", "float32", "float64"))
    names = [f"r{k}.fits" for k in range(ctx.integer(1, 3))]
    kept = ctx.chance(0.7)
    old = None
    for turn in range(ctx.integer(2, 4)):
        if turn and ctx.chance(0.15):
            shp = gen.shape(ctx, 1, 8)
        arrs, keys, paths = [], [], []
        for k, nm in enumerate(names):
            arrs.append(gen.values(ctx, shp, "uint12").astype(dt))
            keys.append({"SHOT": turn * 10 + k})
            paths.append(write(ctx, nm, arrs[-1], keys[-1]))
            if kept and old:
                os.utime(paths[-1], ns=old)
        st = os.stat(paths[0])
        old = (st.st_atime_ns, st.st_mtime_ns)
        how = ctx.pick(("list", "one by one"))
        if how == "list":
            im = ctx.run(cls, list(paths), averageimages=False)
            ctx.close(im.data, sum(a.astype(float) for a in arrs), "not-current", f"reading {turn} of the same {len(paths)} names", rtol=1e-12)
            ctx.ok(im.header.get("SHOT") == turn * 10, "not-current", f"header of reading {turn}: {im.header.get('SHOT')}")
        else:
            for p, a, h in zip(paths, arrs, keys):
                im = ctx.run(cls, p)
                ctx.close(im.data, a.astype(float), "not-current", f"reading {turn} of the same name", rtol=1e-12)
                ctx.ok(im.header.get("SHOT") == h["SHOT"], "not-current", f"header of reading {turn}: {im.header.get('SHOT')}")
        im.data[...] = -1  # the owner of an image may write into it
        im.header["SHOT"] = -1
        im2 = ctx.run(cls, paths[0])
        ctx.close(im2.data, arrs[0].astype(float), "not-current", "read again after writing into the image", rtol=1e-12)
        ctx.ok(im2.header.get("SHOT") == turn * 10, "not-current", "header after writing into the image's")
        ctx.ev("files replaced and read again", len(names))
    ctx.sig(cls.__name__, shp, dt, kept, ctx.idx)
