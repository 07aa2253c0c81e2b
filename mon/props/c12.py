import errno
import json
import os
import subprocess
import sys

import numpy as np
from astropy.io import fits

import micropolarray as ml
from micropolarray.processing import convert
from mon import gen, race
from mon.core import scenario

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def pixels(ctx, shp):
    k = ctx.integer(0, 3)
    if k == 0:
        return ctx.rng.integers(0, 65536, shp).astype("<u2")
    if k == 1:
        return ctx.rng.choice(np.array([0, 1, 255, 256, 32767, 32768, 65535], dtype="<u2"), size=shp)
    if k == 2:
        return ctx.rng.permutation(int(np.prod(shp))).reshape(shp).astype("<u2")
    return ctx.rng.integers(0, 4096, shp).astype("<u2")


def raw(path, a):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(np.ascontiguousarray(a).astype("<u2").tobytes())
    return path


def complete(path, a):
    """'' if the FITS file holds exactly these pixels, else what is wrong."""
    if not os.path.isfile(path):
        return "no FITS file"
    if os.path.getsize(path) % 2880:
        return f"FITS file cut at {os.path.getsize(path)} bytes"
    try:
        with fits.open(path, memmap=False) as h:
            d = np.array(h[0].data)
    except Exception as e:
        return f"unreadable FITS file: {e!r}"
    if d.shape != a.shape:
        return f"FITS shape {d.shape}"
    return "" if np.array_equal(d.astype(float), a.astype(float)) else "FITS pixels differ"


def names(ctx):
    return ctx.pick(("image.raw", "im.age.01.raw", "a b.raw", "x.fits.raw", ".hidden.raw", "run1.d/image.raw", "a.raw.d/i.raw"))


@scenario("C12", quick=250, thorough=3000, large=(10, 80, 13_000_000))
def convert_one(ctx):
    shp = gen.dims(ctx, 1, 16)
    a = pixels(ctx, shp)
    top = ctx.path(f"t{ctx.idx}")
    p = raw(os.path.join(top, names(ctx)), a)
    other = raw(os.path.join(top, "other.raw"), a[::-1])
    out = p[:-4] + ".fits"
    again = ctx.chance(0.3)
    if again:
        fits.PrimaryHDU(data=np.zeros((3, 3))).writeto(out, overwrite=True)
    rm = ctx.chance(0.5)
    kw = {} if not rm and ctx.chance(0.5) else {"remove_old": rm}
    cwd = os.getcwd()
    arg = p
    if ctx.chance(0.4):
        os.chdir(os.path.dirname(p))
        arg = ctx.pick((os.path.basename(p), "./" + os.path.basename(p), os.path.join("..", os.path.basename(os.path.dirname(p)), os.path.basename(p))))
    try:
        ctx.run(convert.convert_rawfile_to_fits, arg, *shp, **kw)
    finally:
        os.chdir(cwd)
    w = complete(out, a)
    ctx.ok(not w, "wrong-fits", f"{arg}: {w}")
    ctx.ok(os.path.exists(p) != rm, "raw-removed" if not rm else "raw-kept", f"remove_old={rm}, raw file there: {os.path.exists(p)}")
    if not rm:
        ctx.ok(open(p, "rb").read() == a.tobytes(), "raw-changed", p)
        with_im = ctx.run(ml.Image, out)
        ctx.eq(np.asarray(with_im.data, float), a.astype(float), "wrong-fits", "read by Image")
    ctx.ok(open(other, "rb").read() == a[::-1].tobytes(), "bystander-changed", "another raw file")
    fs = sorted(os.path.relpath(os.path.join(r, f), top) for r, _, ff in os.walk(top) for f in ff)
    exp = sorted({os.path.relpath(out, top), "other.raw"} | (set() if rm else {os.path.relpath(p, top)}))
    ctx.ok(fs == exp, "wrong-files", f"left {fs}, expected {exp}")
    ctx.ev("files converted")
    ctx.sig(shp, arg if not os.path.isabs(arg) else os.path.basename(arg), rm, again, ctx.idx)
    ctx.sample(name=arg, shape=shp, remove_old=rm)


@scenario("C12", quick=150, thorough=2000, large=(8, 60, 4_000_000))
def merge(ctx):
    n = ctx.integer(1, 6) if ctx.large or ctx.chance(0.8) else ctx.integer(7, 40)
    shp = gen.dims(ctx, 1, 12)
    arrs = [pixels(ctx, shp) for _ in range(n)]
    top = ctx.path(f"t{ctx.idx}")
    ps = [raw(os.path.join(top, f"r{i}.raw"), a) for i, a in enumerate(arrs)]
    out = os.path.join(top, ctx.pick(("m.fits", "a.b.fits", "sum 1.fits")))
    if ctx.chance(0.3):
        fits.PrimaryHDU(data=np.zeros((3, 3))).writeto(out, overwrite=True)
    how = ctx.pick(("sum", "default", "average", "average_rawfiles"))
    arg = ps if n > 1 or ctx.chance(0.5) else ps[0]
    if how == "average_rawfiles":
        ctx.run(convert.average_rawfiles_to_fits, arg, out, *shp)
    else:
        ctx.run(convert.merge_rawfiles_to_fits, arg, out, *shp, **({} if how == "default" else {"mode": how}))
    tot = np.sum([a.astype(np.int64) for a in arrs], axis=0)
    with fits.open(out) as h:
        d = np.array(h[0].data, dtype=float)
    if how in ("sum", "default"):
        ctx.eq(d, tot.astype(float), "wrong-merge", f"sum of {n}")
    else:
        ctx.close(d, tot / n, "wrong-merge", f"mean of {n}", rtol=1e-13)
    for p, a in zip(ps, arrs):
        ctx.ok(os.path.exists(p) and open(p, "rb").read() == a.tobytes(), "raw-changed", p)
    ctx.ev("merges")
    ctx.sig(how, n, shp, ctx.idx)


@scenario("C12", quick=150, thorough=2000, large=(6, 60, 4_000_000))
def save_raw_and_back(ctx):
    shp = gen.shape(ctx, 1, 8)
    a = pixels(ctx, shp)
    if ctx.chance(0.7):
        a = a.astype(ctx.pick(("float64", "int64", "uint16", "int32")))
    cls = ctx.pick((ml.Image, ml.MicropolImage))
    p = ctx.path("saved.raw")
    if ctx.chance(0.3):
        raw(p, np.zeros((40, 40)))
    ctx.run(ctx.run(cls, a).save_as_raw, p)
    ctx.run(convert.convert_rawfile_to_fits, p, *shp)
    w = complete(ctx.path("saved.fits"), np.asarray(a).astype(float))
    ctx.ok(not w, "raw-roundtrip", f"{a.dtype} {shp}: {w}")
    back = ctx.run(cls, ctx.path("saved.fits"))
    ctx.eq(np.asarray(back.data, float), np.asarray(a, float), "raw-roundtrip", "read back")
    q = ctx.path("bad" + ctx.pick((".fits", "", ".bin", ".raw.txt")))
    ctx.refuses(ctx.run(cls, a).save_as_raw, q, what=q)
    ctx.ok(not os.path.exists(q), "wrote-on-refusal", q)
    ctx.ev("raw round trips")
    ctx.sig(cls.__name__, shp, a.dtype, ctx.idx)


@scenario("C12", quick=150, thorough=1500, large=(4, 40, 1_000_000))
def bad_input_keeps_raw(ctx):
    """Reading, shaping or writing fails: the raw file stays as it was."""
    shp = gen.dims(ctx, 2, 12)
    a = pixels(ctx, shp)
    top = ctx.path(f"t{ctx.idx}")
    how = ctx.pick(("short", "shape", "empty", "long", "one-more", "smaller-shape", "blocked", "name", "missing", "merge-short", "merge-long", "merge-name", "merge-missing"))
    name = "x.raw" if how != "name" else ctx.pick(("x.bin", "x.raw.gz", "xraw", "x.RAW2", "x.fits"))
    p = raw(os.path.join(top, name), a)
    asked = shp
    if how in ("short", "merge-short"):
        with open(p, "r+b") as f:
            f.truncate(ctx.integer(1, a.nbytes - 1))
    elif how in ("long", "one-more", "merge-long"):
        with open(p, "ab") as f:
            f.write(bytes(1 if how == "one-more" else 2 * ctx.integer(1, shp[1] + 2)))
    elif how == "smaller-shape":
        asked = (shp[0] - ctx.integer(0, 1), shp[1] - 1)
    elif how == "shape":
        asked = (shp[0] + ctx.integer(1, 3), shp[1])
    elif how == "empty":
        open(p, "w").close()
    elif how == "blocked":  # the output name is taken by a folder
        os.makedirs(os.path.join(top, "x.fits", "sub"))
    was = open(p, "rb").read()
    if how == "missing":
        ctx.refuses(convert.convert_rawfile_to_fits, os.path.join(top, "nothing.raw"), *shp, remove_old=True, what="missing raw file")
    elif how.startswith("merge"):
        out = os.path.join(top, "m.fits" if how != "merge-name" else ctx.pick(("m.raw", "m", "m.fit", "mfits")))
        g = raw(os.path.join(top, "good.raw"), a)
        ps = [g, p] if how != "merge-missing" else [g, os.path.join(top, "nothing.raw")]
        ctx.refuses(ctx.pick((convert.merge_rawfiles_to_fits, convert.average_rawfiles_to_fits)), ps, out, *shp, what=how)
        ctx.ok(not os.path.exists(out), "wrote-on-refusal", f"{how} wrote {out}")
        ctx.ok(open(g, "rb").read() == a.tobytes(), "raw-lost", how)
    else:
        ctx.refuses(convert.convert_rawfile_to_fits, p, *asked, remove_old=ctx.chance(0.8), what=how)
    ctx.ok(os.path.exists(p) and open(p, "rb").read() == was, "raw-lost", f"{how}: the raw file is gone or changed")
    ctx.ev("failed conversions " + how)
    ctx.sig(how, shp, name, ctx.idx)


# ---------------------------------------------------------------- fault enumeration
class Driver:
    one = None

    def __init__(self, scratch):
        so = os.path.join(scratch, "fi.so")
        subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-o", so, os.path.join(HERE, "shim", "fi.c"), "-ldl"], check=True)
        env = dict(os.environ, LD_PRELOAD=so)
        env["TMPDIR"] = os.environ["TMPDIR"]
        self.p = subprocess.Popen([sys.executable, "-B", "-m", "mon.faultdrv", so, scratch], cwd=os.path.dirname(HERE), env=env,
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        if not json.loads(self.p.stdout.readline()).get("ready"):
            raise RuntimeError("fault driver did not start")

    def do(self, **job):
        self.p.stdin.write(json.dumps(job) + "\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise RuntimeError("fault driver ended")
        return json.loads(line)


MODES = {"error": 1, "short": 2, "kill-before": 3, "kill-after": 4, "persistent": 5}


@scenario("C12", quick=12, thorough=120, cpu=600)
def fault_points(ctx):
    """Every file-system call of one conversion fails, is cut short, is the last."""
    if Driver.one is None:
        Driver.one = Driver(ctx._scratch)
    drv = Driver.one
    big = ctx.idx % 3 == 2
    shp = (ctx.integer(60, 120), ctx.integer(120, 300)) if big else (ctx.integer(1, 20), ctx.integer(1, 20))
    if ctx.idx % 3 == 1:  # data ending on a FITS block
        shp = ctx.pick(((36, 40), (72, 40), (20, 72), (144, 100)))
    a = pixels(ctx, shp)
    rm = ctx.idx % 4 != 3
    existing = ctx.chance(0.5)
    d = os.path.realpath(ctx.path("w"))
    p, out = os.path.join(d, "i.raw"), os.path.join(d, "i.fits")

    def prepare():
        os.makedirs(d, exist_ok=True)
        for f in os.listdir(d):
            os.remove(os.path.join(d, f))
        raw(p, a)
        if existing:
            fits.PrimaryHDU(data=np.ones((5, 4))).writeto(out)

    def go(mode="error", n=-1, no=errno.EIO, fsize=None):
        prepare()
        r = drv.do(dir=d, fn="convert_rawfile_to_fits", args=[p, *shp], kwargs={"remove_old": rm}, mode=MODES[mode], n=n, errno=no, fsize=fsize)
        if r["how"] in ("driver-error", "signal"):
            ctx.fail("crash", f"conversion under {mode} at {n}: {r}")
        w = complete(out, a)
        there = os.path.exists(p)
        if there:
            ctx.ok(open(p, "rb").read() == a.tobytes(), "raw-changed", f"{mode} at call {n}: raw file changed")
        else:
            ctx.ok(rm, "raw-removed", f"{mode} at call {n}: raw file removed though not asked for")
            ctx.ok(not w, "raw-lost", f"{mode} {errno.errorcode.get(no)} at call {n} ({r.get('how')}): the raw file is gone and {w}")
        if r["how"] == "returned":
            ctx.ok(not w, "wrong-fits", f"{mode} at call {n}: returned normally, but {w}")
        ctx.ev("faults " + mode if r.get("fired") or fsize is not None else "runs without fault")
        ctx.ev("ended " + r["how"])
        return r

    base = go()
    ctx.ok(base["how"] == "returned" and os.path.exists(p) != rm, "raised", f"{base}")
    n = base["count"]
    ctx.ev("file-system calls", n)
    calls = base["trace"].split()
    for c in calls:
        ctx.ev("call " + c)
    for i in range(n):
        for mode in ("error", "kill-before", "kill-after", "persistent"):
            go(mode, i, ctx.pick((errno.EIO, errno.ENOSPC, errno.EACCES)))
        if calls[i] in ("write", "read"):
            go("short", i)
    size = -(-a.nbytes // 2880) * 2880 + 2880
    lim = {0, 1, 2879, 2880, 2881, size - 1, size - 2880, size // 2} | {ctx.integer(0, size) for _ in range(4)}
    for k in sorted(lim):  # disk full after k bytes
        if k < size:
            r = go(fsize=k, no=0)
            ctx.ok(r["how"] != "returned", "wrong-fits", f"disk full after {k} of {size} bytes went unnoticed")
    ctx.sig(shp, rm, existing, base["trace"])
    ctx.sample(shape=shp, remove_old=rm, calls=base["trace"])


@scenario("C12", quick=40, thorough=600)
def converted_at_once(ctx):
    """Files of one folder converted and merged by several threads."""
    top = ctx.path(f"at{ctx.idx}")
    n = ctx.integer(2, 6)
    same = gen.dims(ctx, 1, 16)
    thunks, want = [], {}
    for t in range(n):
        shp = same if ctx.chance(0.7) else gen.dims(ctx, 1, 16)
        if ctx.chance(0.7):
            a = pixels(ctx, shp)
            p = raw(os.path.join(top, f"r{t}.raw"), a)
            rm = ctx.chance(0.5)
            want[p[:-4] + ".fits"] = a.astype(float)
            if not rm:
                want[p] = a
            thunks.append(lambda p=p, shp=shp, rm=rm: convert.convert_rawfile_to_fits(p, *shp, remove_old=rm))
        else:
            arrs = [pixels(ctx, shp) for _ in range(3)]
            ps = [raw(os.path.join(top, f"m{t}-{k}.raw"), a) for k, a in enumerate(arrs)]
            want.update(dict(zip(ps, arrs)))
            out = os.path.join(top, f"merged{t}.fits")
            want[out] = np.sum(arrs, axis=0, dtype=float)
            thunks.append(lambda ps=ps, out=out, shp=shp: convert.merge_rawfiles_to_fits(ps, out, *shp))
    got, overlap, delays = race.together(thunks, ctx.integer(0, 10**6))
    for r in got:
        ctx.ok(not isinstance(r, BaseException), "conversion-failed", f"beside other conversions: {type(r).__name__}: {r}")
    for f, a in want.items():
        if f.endswith(".raw"):
            ctx.ok(os.path.exists(f) and open(f, "rb").read() == a.astype("<u2").tobytes(), "raw-changed", f"{os.path.basename(f)} beside other conversions")
        else:
            w = complete(f, a)
            ctx.ok(not w, "wrong-fits", f"{os.path.basename(f)} beside other conversions: {w}")
    fs = sorted(os.path.join(r, f) for r, _, ff in os.walk(top) for f in ff)
    ctx.ok(fs == sorted(want), "wrong-files", f"left {[os.path.basename(f) for f in fs]}")
    ctx.ev("conversions begun while another ran", overlap)
    ctx.ev("delays injected in conversions", delays)
    ctx.sig(n, sorted(os.path.basename(f) for f in want), ctx.idx)
