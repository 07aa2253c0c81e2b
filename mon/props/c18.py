"""C18: a demodulator is exactly the tensor folder it was read from."""
import os

import numpy as np
from astropy.io import fits

import micropolarray as ml
from mon import gen, ref
from mon.core import scenario

NAMES = ("M{}{}.fits", "M{}{}.fits", "m{}{}.fits", "tensor_{}{}_final.fits", "el-{}{}.fits")


class Shuffled:
    """os.scandir / os.listdir in a random order while active."""

    def __init__(self, rng):
        self.rng = rng

    def __enter__(self):
        self.sc, self.ls = os.scandir, os.listdir
        rng, real, rls = self.rng, self.sc, self.ls

        class It:
            def __init__(self, path="."):
                with real(path) as it:
                    e = list(it)
                self.e = iter([e[i] for i in rng.permutation(len(e))])

            def __iter__(self):
                return self

            def __next__(self):
                return next(self.e)

            def __enter__(self):
                return self

            def __exit__(self, *a):
                return False

            def close(self):
                pass

        def ls(path="."):
            e = rls(path)
            return [e[i] for i in rng.permutation(len(e))]

        os.scandir, os.listdir = It, ls
        return self

    def __exit__(self, *a):
        os.scandir, os.listdir = self.sc, self.ls


def folder(ctx, name="tensor", half=None, flags=True, skip=()):
    """A tensor folder with everything a calculation writes, in random order."""
    r = ctx.rng
    half = half or gen.dims(ctx, 1, 7)
    full = (2 * half[0], 2 * half[1])
    m = r.permutation(12 * half[0] * half[1]).reshape(3, 4, *half) * 1.25
    if ctx.chance(0.25):  # elements no calculation settled
        m = np.where(r.random(m.shape) < 0.15, r.choice((np.nan, np.inf, -np.inf), m.shape), m)
        ctx.ev("undefined elements", int((~np.isfinite(m)).sum()))
    dt = ctx.pick(("float64", "float64", "float32"))
    pat = ctx.pick(NAMES)
    truth = {"mij": m, "half": half, "full": full, "dir": ctx.path(name)}
    todo = [(pat.format(i, j), m[i, j].astype(dt)) for i in range(3) for j in range(4) if (i, j) not in skip]
    if flags:
        f = (r.random(half) < 0.6).astype(ctx.pick(("float64", "float32", "int16", "uint8")))
        truth["flags"] = f
        todo.append(("fit_found_flag.fits", f))
    else:
        truth["flags"] = None
    for key, fn in (("tk", "transmittancies.fits"), ("eff", "efficiences.fits")):
        truth[key] = r.random(full)
        todo.append((fn, truth[key]))
    perm = [int(v) for v in r.permutation(4)]
    nominal = (0, 45, -45, 90)
    phi = np.zeros(full)
    truth["angle_dic"] = {}
    for pos, k in enumerate(perm):
        off = r.uniform(-20, 20)
        turns = 180 * ctx.pick((0, 0, 0, 1, -1))
        spread = r.uniform(-2, 2, half)
        if half[0] * half[1] > 2 and ctx.chance(0.3):
            # few pixels far off (dead ones, fitted anywhere): what counts is the mean
            delta = np.full(half, r.uniform(-80, 80))
            out = r.permutation(delta.size)[: max(1, delta.size // 8)]
            delta.flat[out] = -delta.flat[0] * (delta.size - len(out)) / len(out)
            spread = spread + delta
            ctx.ev("families of scattered phases")
        phi[pos // 2 :: 2, pos % 2 :: 2] = nominal[k] + off + turns + spread - spread.mean()
        truth["angle_dic"][nominal[k]] = pos
    truth["phi"] = phi
    todo.append(("phases.fits", phi))
    C = r.normal(0, 1, (3, 3, *full))
    truth["Cij"] = C
    for i in range(3):
        for j in range(3):
            todo.append((f"covariance_tensor/C{i}{j}.fits", C[i, j]))
    todo.append(("covariance_tensor/reduced_chisquare.fits", r.random(full)))
    # bystanders
    for n in ctx.pick(((), ("average.fits",), ("S_max.fits", "a1b2.fits"), ("notes",))):
        todo.append((n if n.endswith(".fits") else n + ".fits", r.random((3, 5))))
    os.makedirs(os.path.join(truth["dir"], "covariance_tensor"))
    for i in r.permutation(len(todo)):
        n, a = todo[i]
        fits.PrimaryHDU(data=a).writeto(os.path.join(truth["dir"], n))
    for n in ("old_fit_found_flag.fits", "fit_found_flag_backup.fits", "fit_found_flags.fits", "fit_found_flag.fits.gz", "FIT_FOUND_FLAG_x.fits", "my_phases.fits", "old_efficiences.fits", "efficiences_b.fits", "transmittancies_old.fits", "phases_1.fits", "Cij.fits", "M1.fits"):
        if ctx.chance(0.12):
            fits.PrimaryHDU(data=r.random(full if ctx.chance(0.5) else half)).writeto(os.path.join(truth["dir"], n))
    for n in ("README.txt", "M12.txt", "log_2024"):
        if ctx.chance(0.4):
            with open(os.path.join(truth["dir"], n), "w") as fo:
                fo.write("23")
    truth["pat"] = pat
    return truth


@scenario("C18", quick=250, thorough=4000, large=(6, 60, 60000))
def reading(ctx):
    tr = folder(ctx, ctx.pick(("tensor", "tensor", "tensor_fit_found_flag", "M11.fits_dir", "fit_found_flag.fits", "T 2024.01.22", "deep/07/phases", "run[1]", "ten*or", "T?")), flags=ctx.chance(0.8))
    p = tr["dir"]
    if any(c in p for c in "[*?"):
        # a folder whose name, taken as a pattern, also means another one
        other = {"run[1]": "run1", "ten*or": "tensor", "T?": "T0"}[os.path.basename(p)]
        if ctx.chance(0.6):
            folder(ctx, other, half=tr["half"])
        ctx.ev("folders with pattern characters in their names")
    if ctx.chance(0.3):
        p = os.path.relpath(p)
    if ctx.chance(0.2):
        p += "/"
    with Shuffled(ctx.rng):
        d = ctx.run(ml.Demodulator, p)
        C = ctx.run(lambda: d.Cij)
    ctx.eq(d.mij, tr["mij"], "wrong-element", f"tensor from {tr['pat']} files")
    ctx.ev("tensor elements", 12)
    if tr["flags"] is None:
        ctx.ok(d.fit_found_flags is None, "wrong-flags", f"flags {d.fit_found_flags} without a flag file")
        ctx.ev("without flag file")
    else:
        ctx.ok(d.fit_found_flags is not None, "wrong-flags", "stored flags not read")
        ctx.eq(d.fit_found_flags, tr["flags"], "wrong-flags", "flags")
    ctx.eq(C, tr["Cij"], "wrong-covariance", "covariance tensor")
    for k in ("eff", "tk", "phi"):
        ctx.eq(ctx.run(lambda: getattr(d, k)), tr[k], "wrong-map", k)
    got = ctx.run(lambda: d.angle_dic)
    ctx.ok(got == tr["angle_dic"], "wrong-orientation", f"{got}, expected {tr['angle_dic']}", means=[float(np.mean(tr["phi"][k // 2 :: 2, k % 2 :: 2])) for k in range(4)])
    ctx.ev("orientation dictionaries")
    # again, in another listing order
    with Shuffled(ctx.rng):
        d2 = ctx.run(ml.Demodulator, p)
    ctx.eq(d2.mij, d.mij, "order-dependent", "tensor read twice")
    ctx.sig(tr["half"], tr["pat"], tr["flags"] is None, tuple(tr["angle_dic"].items()))
    ctx.sample(half=tr["half"], names=tr["pat"], angle_dic=tr["angle_dic"])


@scenario("C18", quick=120, thorough=1500)
def incomplete(ctx):
    kind = ctx.pick(("missing-element", "missing-element", "missing-element", "no-folder", "empty", "no-tensor-files", "several-missing"))
    if kind == "no-folder":
        p = ctx.path("nowhere")
    elif kind == "empty":
        p = ctx.path("empty")
        os.makedirs(p)
    elif kind == "no-tensor-files":
        p = ctx.path("other")
        os.makedirs(p)
        for n in ("phases.fits", "fit_found_flag.fits", "average.fits")[: ctx.integer(1, 3)]:
            fits.PrimaryHDU(data=np.ones((4, 4))).writeto(os.path.join(p, n))
    else:
        n = 1 if kind == "missing-element" else ctx.integer(2, 11)
        al = [(i, j) for i in range(3) for j in range(4)]
        skip = [al[i] for i in ctx.rng.permutation(12)[:n]]
        tr = folder(ctx, skip=skip, flags=ctx.chance(0.7))
        p = tr["dir"]
        kind += str(skip if n == 1 else n)
    with Shuffled(ctx.rng):
        ctx.refuses(ml.Demodulator, p, kind="incomplete-not-refused", what=f"tensor folder: {kind}")
    ctx.ev("folders refused")
    ctx.sig(kind)


@scenario("C18", quick=200, thorough=3000, large=(6, 60, 60000))
def turned(ctx):
    """Matrices and flags move together: each matrix carries its superpixel's number."""
    half = gen.dims(ctx, 1, 7)
    tr = folder(ctx, half=half, flags=ctx.chance(0.85))
    d = ctx.run(ml.Demodulator, tr["dir"])
    m, f = tr["mij"], tr["flags"]
    h = []
    for _ in range(ctx.integer(1, 4)):
        if ctx.chance(0.6):
            k = ctx.integer(-4, 7)
            ctx.run(d.rot90, k) if ctx.chance(0.5) else ctx.run(d.rot90, k=k)
            m, f = np.rot90(m, k, axes=(2, 3)), None if f is None else np.rot90(f, k)
            h.append(f"rot{k}")
        else:
            ax = ctx.integer(-2, 1)
            ctx.run(d.flip, ax)
            m, f = np.flip(m, 2 + ax % 2), None if f is None else np.flip(f, ax)
            h.append(f"flip{ax}")
        ctx.eq(d.mij, m, "wrong-element", f"tensor after {h} of {half}")
        if f is None:
            ctx.ok(d.fit_found_flags is None, "wrong-flags", f"flags appeared after {h}")
        else:
            ctx.eq(d.fit_found_flags, f, "wrong-flags", f"flags after {h} of {half}")
        ctx.ev("turns")
    # and they are used together
    shp = (2 * m.shape[2], 2 * m.shape[3])
    a = gen.values(ctx, shp, "uniform")
    dic = gen.angle_dic(ctx)
    im = ctx.run(ml.MicropolImage, a, angle_dic=dic)
    S = np.asarray(ctx.run(im.demodulate, d).Stokes_vec)
    P = ref.split(a)
    exp = np.einsum("ijyx,jyx->iyx", m, P)
    if f is not None:
        exp = np.where(f == 1, exp, ref.stokes(P, dic))
    known = np.isfinite(exp).all(axis=0)
    ctx.close(S[:, known], exp[:, known], "wrong-element", f"demodulation after {h}", rtol=1e-11)
    # the folder is read anew as it was
    ctx.eq(ctx.run(ml.Demodulator, tr["dir"]).mij, tr["mij"], "folder-changed", "tensor read again after turning")
    ctx.sig(half, f is None, *h)


@scenario("C18", quick=60, thorough=800)
def replaced(ctx):
    """The folder is calculated again (same files, same times): what is read and
    looked at from then on is what is in it now."""
    first = folder(ctx, "tensor", flags=ctx.chance(0.8))
    d0 = ctx.run(ml.Demodulator, first["dir"])
    for k in ("eff", "tk", "phi", "Cij", "angle_dic"):
        if ctx.chance(0.6):
            ctx.run(lambda: getattr(d0, k))
    m0 = np.array(d0.mij)
    import shutil

    shutil.rmtree(first["dir"])
    half = first["half"] if ctx.chance(0.8) else None
    second = folder(ctx, "tensor", half=half, flags=ctx.chance(0.8))
    for root, _, names in os.walk(second["dir"]):
        for n in names:
            os.utime(os.path.join(root, n), (1.7e9, 1.7e9))
    d = ctx.run(ml.Demodulator, second["dir"])
    ctx.eq(d.mij, second["mij"], "wrong-element", "tensor of the folder calculated again")
    if second["flags"] is None:
        ctx.ok(d.fit_found_flags is None, "wrong-flags", "flags of the former folder")
    else:
        ctx.eq(d.fit_found_flags, second["flags"], "wrong-flags", "flags of the folder calculated again")
    for k in ("eff", "tk", "phi", "Cij"):
        ctx.eq(ctx.run(lambda: getattr(d, k)), second[k], "wrong-map", f"{k} of the folder calculated again")
    ctx.ok(d.angle_dic == second["angle_dic"], "wrong-orientation", f"{d.angle_dic}, expected {second['angle_dic']}")
    ctx.eq(d0.mij, m0, "wrong-element", "tensor read before its folder was replaced")
    ctx.ev("folders replaced")
    # two demodulators of one folder are apart
    ctx.run(d.rot90, 1)
    ctx.run(d.flip, 0)
    d.mij[...] = -1
    ctx.eq(ctx.run(ml.Demodulator, second["dir"]).mij, second["mij"], "wrong-element", "tensor read beside a changed demodulator")
    ctx.sig(first["half"], second["half"], first["flags"] is None, second["flags"] is None, tuple(second["angle_dic"].items()))
