"""C15: the tensor calculation recovers the instrument it was fed with."""
import numpy as np

import micropolarray as ml
from mon import calib, gen, ref
from mon.core import scenario

TOL = 2e-6


def check_recovery(ctx, r, ins, tol=TOL, what="", ratio=False, t_ref=None):
    """ratio: throughput only up to one common factor (returned)."""
    good = r["flag"]
    ctx.ok(np.all(good == 1), "not-fitted", f"{what}: {int((good != 1).sum())} of {good.size} superpixels of a noiseless instrument not fitted")
    ctx.close(r["eff"], ins.eff, "wrong-efficiency", what, rtol=0, atol=tol)
    d = np.mod(r["phi"] - np.rad2deg(ins.phi) + 90, 180) - 90
    ctx.close(d, np.zeros_like(d), "wrong-phase", f"{what} (degrees off)", rtol=0, atol=np.rad2deg(tol))
    k = 1.0
    if ratio:
        q = r["t"] / ins.t
        k = float(np.median(q))
        ctx.close(q, np.full_like(q, k), "wrong-throughput", f"{what}: ratio to the instrument's", rtol=0, atol=4 * tol)
    else:
        ctx.close(r["t"], ins.t, "wrong-throughput", what, rtol=0, atol=tol)
    exp = calib.pinv_maps(calib.W_of(r["t"], r["eff"], r["phi"]))
    ctx.close(r["M"], exp, "wrong-matrix", f"{what}: M against pinv of its own modulation matrix", rtol=1e-8)
    ctx.ev("pixels recovered", r["t"].size)
    ctx.ev("matrices checked", good.size)
    return k


def check_covariance(ctx, r, ins, angles, S, gain, tol, what):
    """The covariances of throughput, efficiency and phase are those of a
    least-squares fit weighted by the photon noise of a detector of that gain."""
    th, t, e, p = np.deg2rad(angles), ins.t[..., None], ins.eff[..., None], ins.phi[..., None]
    d = 2 * (p - th)
    J = np.stack([0.5 * (1 + e * np.cos(d)), 0.5 * t * np.cos(d), -t * e * np.sin(d)], -1)
    level = np.moveaxis(np.asarray(S, float), 0, -1) if np.ndim(S) == 3 else np.asarray(S, float)[..., None]
    var = 0.5 * t * (1 + e * np.cos(d)) / (level * gain)
    C = np.linalg.inv(np.einsum("yxka,yxk,yxkb->yxab", J, 1 / var, J))
    sig = np.sqrt(np.einsum("yxaa->yxa", C))
    norm = sig[..., :, None] * sig[..., None, :]
    ctx.close(np.moveaxis(r["C"], (0, 1), (2, 3)) / norm, C / norm, "wrong-covariance", f"{what}: in units of the standard deviations", rtol=0, atol=tol)
    ctx.ev("covariances checked", ins.t.size)


def check_demodulation(ctx, folder, ins, k=1.0, scale=1000.0, tol=1e-4):
    """A new image of the instrument gives back the incoming light."""
    h, w = ins.h // 2, ins.w // 2
    I = ctx.rng.uniform(0.2, 1, (h, w)) * scale
    p, a = ctx.rng.uniform(0, 1, (h, w)), ctx.rng.uniform(-np.pi / 2, np.pi / 2, (h, w))
    inc = np.stack([I, I * p * np.cos(2 * a), I * p * np.sin(2 * a)])
    d = ctx.run(ml.Demodulator, folder)
    dic = {v: ins.prev.index(v) for v in (0, 45, -45, 90)}
    im = ctx.run(ml.MicropolImage, ins.see(inc), angle_dic=dic)
    out = ctx.run(im.demodulate, d)
    ctx.close(np.asarray(out.Stokes_vec) * k, inc, "wrong-stokes", "demodulated Stokes vector against the incoming light", rtol=0, atol=tol * scale)
    ctx.ev("light recovered", h * w)


def orient(ctx, ins):
    return calib.orientations(ctx)


def prepare(ctx, ins, S, fn=None, dtype=None, folder="in", repeats=0):
    """repeats: so many of the orientations are measured again."""
    a = calib.orientations(ctx)
    a = a + [a[ctx.integer(0, len(a) - 1)] for _ in range(repeats)]
    a = [a[i] for i in ctx.rng.permutation(len(a))]
    ctx.ev("orientations measured again", repeats)
    ims = [ins.measure(S[i] if np.ndim(S) == 3 else S, v) for i, v in enumerate(a)]
    if fn:
        ims = [fn(i) for i in ims]
    return a, calib.write_set(ctx, ctx.path(folder), ims, a, dtype)


@scenario("C15", quick=90, thorough=1500, large=(5, 40, 8000))
def recovers(ctx):
    h, w = gen.shape(ctx, 1, 5)
    span = ctx.pick(({}, {}, dict(t=(0.11, 0.99)), dict(eff=(0.13, 0.99)), dict(dphi=14.5), dict(t=(0.11, 0.99), eff=(0.35, 0.99), dphi=14.5), "wide"))
    kw = {}
    if span == "wide":  # boundaries of one's own
        span = dict(t=(0.9, 2.4))
        kw["tk_boundary"] = [ctx.pick((1.0, 1.5)), 0.5, 2.5]
        if ctx.chance(0.5):
            span["eff"] = (0.06, 0.6)
            kw["eff_boundary"] = [0.3, 0.05, 0.65]
    ins = calib.Instrument(ctx, h, w, **span)
    gain = kw["gain"] = ctx.pick((1.0, 2.75, 7, 0.3))
    ctx.ev("instruments near the bounds", bool(span))
    form = ctx.pick(("float", "int", "numpy", "image", "image", "series"))
    if form == "image":
        S = ctx.rng.uniform(0.5, 1, (h, w)) * 10 ** ctx.rng.uniform(2, 6)
        norm = S
    elif form == "series":  # one image per file: the source changes between the exposures
        S = 10 ** ctx.rng.uniform(2, 6) * ctx.rng.uniform(0.5, 1, (9, h, w)) * ctx.rng.uniform(0.2, 3, (9, 1, 1))
        norm = S
    else:
        S = float(np.round(10 ** ctx.rng.uniform(2, 6)))
        norm = {"float": S, "int": int(S), "numpy": np.float64(S)}[form]
    dtype = ctx.pick(("float64",) * 4 + ("float32", "int64"))
    tol = TOL
    if dtype == "int64":
        S, norm = S * 1e9, (int(norm) * 10**9 if form == "int" else norm * 1e9)
    if dtype == "float32":
        tol = 3e-5
    a, files = prepare(ctx, ins, S, dtype=dtype)
    if form == "series":
        norm = S[: len(a)]
        ctx.ev("series of normalizations")
    prev = ctx.pick((list, tuple, np.array))(ins.prev)
    out = ctx.path("new", "deep", "tensor")
    norm0 = np.array(norm, copy=True)
    a0, f0 = list(a), list(files)
    calib.calculate(ctx, polarizer_orientations=a, filenames_list=files, micropol_phases_previsions=prev, output_dir=out, normalizing_S=norm, **kw)
    r = calib.read_result(out)
    check_recovery(ctx, r, ins, tol, f"{h}x{w}, {len(a)} polarizer angles, normalization {form}, {span}")
    if dtype != "int64":
        check_covariance(ctx, r, ins, a, norm, gain, 1e-5 if dtype != "float32" else 1e-3, f"{h}x{w}, gain {gain}, {span}")
    check_demodulation(ctx, out, ins, tol=50 * tol)
    ctx.ok(a == a0 and files == f0 and np.array_equal(norm, norm0), "argument-changed", "orientations, files or normalization were changed")
    ctx.sig(h, w, form, dtype, len(a), tuple(ins.prev), tuple(a))
    ctx.sample(shape=(h, w), norm=form, dtype=dtype, angles=a, prev=ins.prev)


@scenario("C15", quick=40, thorough=600, large=(3, 20, 2500))
def any_order(ctx):
    """The pairs in another order (or the files under other names) give the same files."""
    h, w = gen.shape(ctx, 1, 4)
    ins = calib.Instrument(ctx, h, w)
    S = float(np.round(10 ** ctx.rng.uniform(2, 5)))
    noise = ctx.chance(0.5)
    fn = (lambda x: np.maximum(x + ctx.rng.normal(0, 0.01 * S, x.shape), 0)) if noise else None
    a, files = prepare(ctx, ins, S, fn, repeats=ctx.pick((0, 1, 2, 3)))
    kw = dict(micropol_phases_previsions=ins.prev, normalizing_S=S, gain=2.0)
    calib.calculate(ctx, polarizer_orientations=a, filenames_list=files, output_dir=ctx.path("o0"), **kw)
    r0 = calib.read_result(ctx.path("o0"))
    for k in range(2):
        p = ctx.rng.permutation(len(a)) if k else np.arange(len(a))[::-1]
        calib.calculate(ctx, polarizer_orientations=[a[i] for i in p], filenames_list=[files[i] for i in p], output_dir=ctx.path(f"o{k+1}"), **kw)
        r = calib.read_result(ctx.path(f"o{k+1}"))
        for key in ("flag", "t", "eff", "phi", "M", "C"):
            ctx.close(r[key], r0[key], "order-dependent", f"{key}, pairs in order {list(p)}", rtol=1e-6 if key != "flag" else 0)
        ctx.ev("orders compared")
    if not noise:
        check_recovery(ctx, r, ins)
    ctx.sig(h, w, noise, tuple(a))


@scenario("C15", quick=60, thorough=900, large=(4, 30, 2500))
def dark_and_flat(ctx):
    h, w = gen.shape(ctx, 1, 5)
    b = ctx.pick((1, 1, 2))
    h, w = h * b, w * b
    S = float(np.round(10 ** ctx.rng.uniform(3, 5)))
    use_dark, use_flat = ctx.pick(((True, False), (False, True), (True, True), (True, True)))
    ins = calib.Instrument(ctx, h, w, t=(0.3, 0.7))
    if b == 2:  # all pixels of a block alike, so that binning keeps the instrument
        for m in (ins.t, ins.eff, ins.phi):
            m[:] = ref.merge([np.repeat(np.repeat(q[::2, ::2], 2, 0), 2, 1) for q in ref.split(m)])
    dark = ctx.rng.uniform(10, 200, (h, w)) if use_dark else 0.0
    ff = np.ones((h, w))
    uniform = False
    if use_flat:
        uniform = ctx.chance(0.3)
        ff = np.full((h, w), 1.0) if uniform else ctx.rng.uniform(0.9, 1.1, (h, w))
        if b == 2 and not uniform:  # constant in each block, otherwise binning does not commute
            ff = ref.merge([np.repeat(np.repeat(q[::2, ::2], 2, 0), 2, 1) for q in ref.split(ff)])
    a, files = prepare(ctx, ins, S, lambda x: x * ff + dark)
    kw = {}
    if use_dark:
        kw["dark_filename"] = calib.write(ctx.path("dark.fits"), dark)
    if use_flat:
        kw["flat_filename"] = calib.write(ctx.path("flat.fits"), ff * ctx.pick((1.0, 1000.0, 0.01, 12345.0)))
    form = ctx.pick(("number", "image"))
    norm = S if form == "number" else np.full((h, w), S)
    out = ctx.path("t")
    calib.calculate(ctx, polarizer_orientations=a, filenames_list=files, micropol_phases_previsions=ins.prev, output_dir=out, normalizing_S=norm, binning=b, **kw)
    r = calib.read_result(out)
    if b == 2:
        small = calib.Instrument(ctx, h // 2, w // 2, prev=ins.prev)
        for n in ("t", "eff", "phi"):
            setattr(small, n, ref.merge([q[::2, ::2] for q in ref.split(getattr(ins, n))]))
        ins = small
    k = check_recovery(ctx, r, ins, 4 * TOL, f"dark {use_dark}, flat {use_flat}, binning {b}", ratio=use_flat and not uniform)
    if use_flat and not uniform:
        lo, hi = ff.min() / ff.mean(), ff.max() / ff.mean()
        # normalisations of a flat to a representative level stay near its own range
        ctx.ok(0.75 < k < 1.35, "wrong-throughput", f"after the flat all throughputs are {k} times the instrument's (flat spans {lo:.3f} to {hi:.3f} of its mean)")
    check_demodulation(ctx, out, ins, k=k, tol=3e-4)
    ctx.ev("dark removed", use_dark)
    ctx.ev("flat removed", use_flat)
    ctx.sig(h, w, use_dark, use_flat, uniform, b, form, tuple(a))
    ctx.sample(shape=(h, w), dark=use_dark, flat=use_flat, binning=b)


@scenario("C15", quick=50, thorough=700)
def binned(ctx):
    """binning=b on the files = no binning on the binned files."""
    b = ctx.pick((2, 2, 3, 4))
    H, W = gen.shape(ctx, 1, 3)
    h, w = H * b, W * b
    if ctx.chance(0.3):  # sides that do not fill the last block
        h, w = h + 2 * ctx.integer(0, b - 1), w + 2 * ctx.integer(0, b - 1)
    S = float(np.round(10 ** ctx.rng.uniform(2, 5)))
    ins = calib.Instrument(ctx, h, w, dphi=5)
    form = ctx.pick(("number", "number", "image", "series"))
    norm = S if form == "number" else ctx.rng.uniform(0.9, 1.1, (h, w) if form == "image" else (9, h, w)) * S
    noise = ctx.chance(0.3)
    fn = (lambda x: np.maximum(x + ctx.rng.normal(0, 0.01 * S, x.shape), 0)) if noise else None
    a, files = prepare(ctx, ins, S if form == "number" else norm, fn)
    norm = norm[: len(a)] if form == "series" else norm
    from astropy.io import fits

    kw, kb = {}, {}
    if ctx.chance(0.4):
        # a dark below every signal (noiseless): clipping at zero never acts
        dark = ctx.rng.uniform(0, 0.001 * S, (h, w))
        kw["dark_filename"] = calib.write(ctx.path("dark.fits"), dark)
        kb["dark_filename"] = calib.write(ctx.path("darkb.fits"), ref.rebin_micropol(dark, b))
    if ctx.chance(0.4):
        flat = ctx.rng.uniform(0.9, 1.1, (h, w)) * 500
        kw["flat_filename"] = calib.write(ctx.path("flat.fits"), flat)
        kb["flat_filename"] = calib.write(ctx.path("flatb.fits"), ref.rebin_micropol(flat, b))
    if ctx.chance(0.4) and min(h, w) >= 8:
        occ = [2 * b * ctx.integer(0, H), 2 * b * ctx.integer(0, W), 2 * b]
        kw["occulter"], kb["occulter"] = list(occ), [v // b for v in occ]
    files_b = [calib.write(ctx.path("inb", f"{i}.fits"), ref.rebin_micropol(fits.getdata(f), b)) for i, f in enumerate(files)]
    norm_b = S * b * b if form == "number" else ref.rebin_micropol(norm, b) if form == "image" else np.stack([ref.rebin_micropol(v, b) for v in norm])
    com = dict(polarizer_orientations=a, micropol_phases_previsions=ins.prev, gain=3.0)
    calib.calculate(ctx, filenames_list=files, output_dir=ctx.path("t1"), binning=b, normalizing_S=norm, **kw, **com)
    calib.calculate(ctx, filenames_list=files_b, output_dir=ctx.path("t2"), normalizing_S=norm_b, **kb, **com)
    r1, r2 = calib.read_result(ctx.path("t1")), calib.read_result(ctx.path("t2"))
    for key in ("flag", "t", "eff", "phi", "M", "C"):
        ctx.close(r1[key], r2[key], "binning-differs", f"{key}, binning {b} of {h}x{w}, normalization {form}, {sorted(kw)}", rtol=1e-6 if key != "flag" else 0)
    ctx.ev("binned calculations")
    ctx.sig(h, w, b, form, sorted(kw), tuple(a))
    ctx.sample(shape=(h, w), binning=b, norm=form, options=sorted(kw))


@scenario("C15", quick=10, thorough=80)
def without_normalization(ctx):
    """normalizing_S estimated from the data: phases, efficiencies exact, throughputs up to
    one factor, and light measured up to that factor."""
    h, w = 40, 44
    ins = calib.Instrument(ctx, h, w)
    # S_max = S * t over the chip: a narrow Gaussian inside a wide value range
    z = ctx.rng.normal(0, 1, (h, w))
    z = np.where(np.abs(z) > 1.9, z / 3, z)  # no throughput above the estimate's few deviations
    ins.t = 0.55 + 0.0012 * z
    for k, v in enumerate((0.12, 0.30, 0.62)):
        oy, ox = 2 * ctx.integer(0, h // 2 - 1), 2 * ctx.integer(0, w // 2 - 1)
        ins.t[oy, ox] = v
    S = float(np.round(10 ** ctx.rng.uniform(2, 5)))
    m45 = ctx.pick((-45, 135, "both"))
    a = [0, 45, 90] + ([-45, 135] if m45 == "both" else [m45]) + [float(v) for v in np.round(ctx.rng.uniform(-80, 80, 2), 2)]
    again = [a[i] for i in ctx.rng.integers(0, len(a), ctx.pick((0, 1, 3)))]
    a += again
    ctx.ev("orientations measured again", len(again))
    ctx.ev("estimates with both diagonals", m45 == "both")
    a = [a[i] for i in ctx.rng.permutation(len(a))]
    files = calib.write_set(ctx, ctx.path("in"), [ins.measure(S, v) for v in a], a)
    out = ctx.path("t")
    calib.calculate(ctx, polarizer_orientations=a, filenames_list=files, micropol_phases_previsions=ins.prev, output_dir=out)
    r = calib.read_result(out)
    # the last outlier is above the normalization: its superpixel is not judged
    sp = (slice(oy, oy + 2), slice(ox, ox + 2))
    ins.t[sp] = r["t"][sp] / np.median(r["t"] / ins.t)
    ins.eff[sp], ins.phi[sp] = r["eff"][sp], np.deg2rad(r["phi"][sp])
    r["flag"][oy // 2, ox // 2] = 1
    with np.errstate(all="ignore"):
        k = check_recovery(ctx, r, ins, 2e-5, f"estimated normalization, -45 degrees as {m45}, measured again {again}", ratio=True)
    # normalization = centre + a few deviations of S*t  =>  measured t near 1 for typical pixels
    ctx.ok(0.9 < k * 0.55 < 1.0, "wrong-throughput", f"typical pixel's throughput {k * 0.55}, expected just below 1")
    check_demodulation(ctx, out, ins, k=k, tol=2e-3)
    ctx.ev("estimated normalizations")
    ctx.sig(m45, S, len(again), tuple(a))


@scenario("C15", quick=12, thorough=60)
def refused(ctx):
    """Without normalization the four basic orientations are needed."""
    h, w = 6, 4
    ins = calib.Instrument(ctx, h, w)
    drop = ctx.pick((0, 45, 90, -45))
    a = [v for v in (0, 45, 90, -45) if v != drop] + [float(v) for v in np.round(ctx.rng.uniform(1, 40, 4), 2)]
    files = calib.write_set(ctx, ctx.path("in"), [ins.measure(1000.0, v) for v in a], a)
    ctx.refuses(ml.calculate_demodulation_tensor, a, files, ins.prev, 1.0, ctx.path("t"), procs_grid=[1, 1], what=f"no {drop} degrees and no normalization")
    ctx.sig(drop, tuple(a))
