"""C17: superpixels without a valid fit fall back to the ideal matrix, flagged 0."""
import numpy as np

import micropolarray as ml
from mon import calib, gen, ref
from mon.core import scenario
from mon.session import write_tensor

TOL = 2e-6
EFFB = [0.5, 1e-4, 1.0]
TKB = [0.5, 1e-4, 1.0]


def judge(ctx, r, ins, bad, unsure, what, rough=None):
    """bad, unsure: boolean per superpixel.  Every superpixel is either the
    ideal one flagged 0 or the instrument's own flagged 1.  rough: superpixels
    whose images were rounded, and which are recovered as well as that allows."""
    rough = np.zeros(bad.shape, bool) if rough is None else rough
    theo = ref.theo_matrix(ins.prev)
    own = calib.pinv_maps(ins.W())
    flag = r["flag"]
    ctx.ok(flag.shape == bad.shape, "wrong-shape", f"flags {flag.shape}, expected {bad.shape}")
    ctx.ok(np.all((flag == 0) | (flag == 1)), "wrong-flag", "flags other than 0 and 1", flags=flag)
    sure = ~unsure
    wrong = sure & (flag != np.where(bad, 0, 1))
    if wrong.any():
        y, x = np.argwhere(wrong)[0]
        ctx.fail("wrong-flag", f"{what}: {int(wrong.sum())} of {wrong.size} flags wrong, superpixel ({y}, {x}) is flagged {flag[y, x]}")
    isfb = flag == 0
    dt = np.abs(r["M"] - theo[:, :, None, None]).max(axis=(0, 1))
    ctx.comparisons += 2
    ctx.ok(not (dt[isfb] > 1e-12).any(), "not-ideal", f"{what}: a superpixel flagged 0 does not hold the ideal matrix", got=r["M"][:, :, isfb], expected=theo)
    scale = np.abs(own).max(axis=(0, 1))
    do = np.abs(r["M"] - own).max(axis=(0, 1)) / scale
    w = ~isfb & (do > np.where(rough, 5e-3, 1e-4))
    if w.any():
        y, x = np.argwhere(w)[0]
        ctx.fail("neighbour-altered", f"{what}: superpixel ({y}, {x}) flagged 1 does not hold its own matrix", got=r["M"][:, :, y, x], expected=own[:, :, y, x])
    ctx.ev("fallback superpixels", int(isfb.sum()))
    ctx.ev("fitted superpixels", int((~isfb).sum()))
    # the fitted ones' maps are the instrument's
    F = np.repeat(np.repeat(~isfb & ~rough, 2, 0), 2, 1)
    ctx.close(r["t"][F], ins.t[F], "neighbour-altered", f"{what}: throughput", rtol=0, atol=2e-5)
    ctx.close(r["eff"][F], ins.eff[F], "neighbour-altered", f"{what}: efficiency", rtol=0, atol=1e-4)


def check_use(ctx, folder, r, ins, what):
    h, w = ins.h, ins.w
    a = gen.values(ctx, (h, w), "uniform")
    dic = gen.angle_dic(ctx)
    im = ctx.run(ml.MicropolImage, a, angle_dic=dic)
    out = np.asarray(ctx.run(im.demodulate, ctx.run(ml.Demodulator, folder)).Stokes_vec)
    P = ref.split(a)
    exp = np.where(r["flag"] == 1, np.einsum("ijyx,jyx->iyx", r["M"], P), ref.stokes(P, dic))
    ctx.close(out, exp, "not-theoretical", f"{what}: demodulation with the tensor", rtol=1e-9)


def region(h, w, occ):
    """(inside, too close to call) per superpixel, on the half-size grid."""
    y, x = np.mgrid[0 : h // 2, 0 : w // 2]
    cy, cx, r = (v / 2 for v in occ)
    d = np.hypot(y - cy, x - cx)
    exact = all(v % 2 == 0 for v in occ)
    unsure = np.abs(d - r) < (1e-9 if exact else 1.6)
    if exact:
        return d <= r, np.zeros_like(unsure)
    return d <= r, unsure


def one_sided(ctx, ins, sl):
    """Large matrix elements of one sign only, where there are any."""
    best = None
    for _ in range(60):
        t, e = ctx.rng.uniform(0.006, 0.03, (2, 2)), ctx.rng.uniform(0.5, 0.95, (2, 2))
        ins.t[sl], ins.eff[sl] = t, e
        m = calib.pinv_maps(ins.W()[:, :, sl[0].start // 2, sl[1].start // 2][:, :, None, None])
        best = (t, e)
        if m.min() < -106 and m.max() < 94 or m.max() > 106 and m.min() > -94:
            ctx.ev("matrices too large on one side")
            break
    ins.t[sl], ins.eff[sl] = best


@scenario("C17", quick=300, thorough=4000, cpu=200, large=(6, 60, 8000))
def fallback(ctx):
    h, w = gen.shape(ctx, 1, 7)
    b = ctx.pick((1, 1, 1, 1, 2))
    ins = calib.Instrument(ctx, h, w)
    S = float(np.round(10 ** ctx.rng.uniform(2, 5)))
    bad = np.zeros((h // 2, w // 2), bool)
    kw, what = {}, []
    unsure = np.zeros_like(bad)
    n = ctx.integer(0, 4)
    tiny = ctx.chance(0.5)
    if tiny:
        kw["tk_boundary"], kw["eff_boundary"] = list(TKB), list(EFFB)
    sup = sorted({(ctx.integer(0, h // 2 - 1), ctx.integer(0, w // 2 - 1)) for _ in range(n)})
    edits, crossed = [], []
    for sy, sx in sup:
        kind = ctx.pick(("dead", "nan", "inf", "tiny-t", "tiny-eff", "one-sided", "one-sided", "crossed") if tiny else ("dead", "nan", "inf", "crossed"))
        sl = (slice(2 * sy, 2 * sy + 2), slice(2 * sx, 2 * sx + 2))
        if kind == "tiny-t":
            ins.t[sl] = ctx.rng.uniform(0.0008, 0.002, (2, 2))
        elif kind == "tiny-eff":
            ins.eff[sl] = ctx.rng.uniform(0.0008, 0.002, (2, 2))
        elif kind == "one-sided":
            one_sided(ctx, ins, sl)
        elif kind == "crossed":
            # a polarizer crossed with a nearly perfect pixel: not a single count, and no dead pixel
            y, x = 2 * sy + ctx.integer(0, 1), 2 * sx + ctx.integer(0, 1)
            ins.eff[y, x] = 0.99999
            ins.phi[y, x] = np.deg2rad(ins.prev[2 * (y % 2) + x % 2])
            crossed.append((y, x))
            what.append(kind)
            continue
        else:
            if b == 2 and kind == "dead":
                kind = "nan"
            edits.append((kind, 2 * sy + ctx.integer(0, 1), 2 * sx + ctx.integer(0, 1)))
        if kind != "one-sided":  # judged by its own matrix
            bad[sy, sx] = True
        what.append(kind)
    if tiny:
        own = calib.pinv_maps(ins.W())
        big = np.abs(own).max(axis=(0, 1))
        unsure |= (big > 95) & (big < 105)
        bad |= big >= 105
    if ctx.chance(0.5):
        k = ctx.pick((1, 1, 2)) if b == 1 else 4
        occ = [k * ctx.integer(-2 // k, h // k + 1), k * ctx.integer(-2 // k, w // k + 1), k * ctx.integer(1, max(1, max(h, w) // (2 * k)))]
        if b == 2:
            occ = [v - v % 4 for v in occ]
            occ[2] = max(occ[2], 4)
        kw["occulter"] = ctx.pick((list, tuple))(occ)
        inside, close = region(h, w, occ)
        unsure |= close & ~bad
        bad |= inside
        what.append(f"occulter {occ}")
    a = calib.orientations(ctx, ctx.integer(5, 7))
    ims = []
    nf = ctx.integer(0, len(a) - 1)
    for i, v in enumerate(a):
        im = ins.measure(S, v)
        for y, x in crossed:
            if (v - ins.prev[2 * (y % 2) + x % 2]) % 180 == 90:
                im[y, x] = 0.0
                ctx.ev("crossed pixels without a count")
        for kind, y, x in edits:
            if kind == "dead":
                im[y, x] = 0
            elif i == nf:
                im[y, x] = np.nan if kind == "nan" else np.inf
        ims.append(im)
    files = calib.write_set(ctx, ctx.path("in"), ims, a)
    norm = S if ctx.chance(0.6) else np.full((h, w), S)
    out = ctx.path("t")
    grid = [1, 1]
    if ctx.chance(0.1):
        from mon.props.c16 import grids_of

        grid = ctx.pick(grids_of(h, w))
    if b == 2:
        # the same instrument in twice the size: every pixel spread over its 2x2 block of the family
        def up(m):
            return ref.merge([np.repeat(np.repeat(q, 2, 0), 2, 1) for q in ref.split(m)])

        files = calib.write_set(ctx, ctx.path("in2"), [up(i) for i in ims], a)
        norm = S
        if "occulter" in kw:
            kw["occulter"] = [2 * v for v in kw["occulter"]]
    calib.calculate(ctx, polarizer_orientations=a, filenames_list=files, micropol_phases_previsions=ins.prev, output_dir=out, normalizing_S=norm, binning=b, procs_grid=grid, **kw)
    r = calib.read_result(out)
    what = f"{h}x{w} {what} binning {b}"
    rough = np.zeros_like(bad)
    for y, x in crossed:
        rough[y // 2, x // 2] = True
    judge(ctx, r, ins, bad, unsure, what, rough)
    check_use(ctx, out, r, ins, what)
    ctx.ev("tensors")
    for k in set(w.split()[0] for w in [e[0] for e in edits]) | ({"occulter"} if "occulter" in kw else set()) | ({"unusable"} if tiny and n else set()):
        ctx.ev(f"with {k}")
    ctx.sig(what, tuple(a))
    ctx.sample(case=what, grid=grid, angles=a)


@scenario("C17", quick=60, thorough=800, cpu=200)
def dead_in_the_flat(ctx):
    """A pixel without flat correction (its flat is zero) is measured all the
    same: the superpixel is fitted, flagged 1, with that pixel's own numbers."""
    h, w = gen.shape(ctx, 1, 6)
    ins = calib.Instrument(ctx, h, w)
    n = ctx.integer(1, 3)
    pts = sorted({(ctx.integer(0, h - 1), ctx.integer(0, w - 1)) for _ in range(n)})
    a = calib.orientations(ctx, ctx.integer(5, 7))
    S = 1000.0
    level = ctx.rng.uniform(0.8, 1.2)
    flat = np.full((h, w), level)
    for y, x in pts:
        flat[y, x] = 0.0
    # all other pixels are divided by one number, known from the flat as a whole
    per = level / (flat.mean() + flat.std())
    files = calib.write_set(ctx, ctx.path("in"), [ins.measure(S, v) for v in a], a)
    ff = calib.write(ctx.path("flat", "f.fits"), flat)
    seen = calib.Instrument(ctx, h, w)
    seen.prev, seen.eff, seen.phi = ins.prev, ins.eff, ins.phi
    div = np.where(flat == 0, 1.0, per)
    # normalised so that every throughput stays where fits are looked for
    norm = S * max(1.0, float((ins.t / div).max()) / 0.98)
    seen.t = ins.t / div * S / norm
    kw, bad = {}, np.zeros((h // 2, w // 2), bool)
    if ctx.chance(0.4):
        y, x = 2 * ctx.integer(0, h // 2 - 1), 2 * ctx.integer(0, w // 2 - 1)
        kw["occulter"] = [y, x, 2]
        # behind the occulter nothing is corrected and nothing is fitted
        bad, _ = region(h, w, (y, x, 2))
    out = ctx.path("t")
    calib.calculate(ctx, polarizer_orientations=a, filenames_list=files, micropol_phases_previsions=ins.prev, output_dir=out, normalizing_S=norm, flat_filename=ff, **kw)
    r = calib.read_result(out)
    what = f"{h}x{w}, flat without a value at {pts}, {kw}"
    ok = (seen.t > 0.1).all()
    ctx.ok(ok, "harness", "throughputs of the workload")
    judge(ctx, r, seen, bad, np.zeros_like(bad), what)
    check_use(ctx, out, r, seen, what)
    ctx.ev("pixels without a flat value", len(pts))
    ctx.sig(h, w, tuple(pts), len(kw), tuple(a))


@scenario("C17", quick=100, thorough=1200, cpu=200, large=(4, 30, 5000))
def one_bad_superpixel(ctx):
    """The same data set with and without one bad superpixel: only that one differs."""
    h, w = gen.shape(ctx, 2, 5)
    ins = calib.Instrument(ctx, h, w)
    S = 1000.0
    a = calib.orientations(ctx, 5)
    noise = ctx.rng.normal(0, 0.02 * S, (len(a), h, w))
    clean = [np.maximum(ins.measure(S, v) + z, 1) for v, z in zip(a, noise)]
    sy, sx = ctx.integer(0, h // 2 - 1), ctx.integer(0, w // 2 - 1)
    y, x = 2 * sy + ctx.integer(0, 1), 2 * sx + ctx.integer(0, 1)
    kind = ctx.pick(("dead", "nan", "wild", "dead-superpixel"))
    broken = [c.copy() for c in clean]
    for i, c in enumerate(broken):
        if kind == "dead":
            c[y, x] = 0
        elif kind == "dead-superpixel":
            c[2 * sy : 2 * sy + 2, 2 * sx : 2 * sx + 2] = 0
        elif kind == "wild":
            c[y, x] = ctx.rng.uniform(0, 1e7)
        elif i == 0:
            c[y, x] = np.nan
    com = dict(polarizer_orientations=a, micropol_phases_previsions=ins.prev, gain=1.0, normalizing_S=S)
    rs = []
    for k, ims in enumerate((clean, broken)):
        files = calib.write_set(ctx, ctx.path(f"in{k}"), ims, a)
        calib.calculate(ctx, filenames_list=files, output_dir=ctx.path(f"t{k}"), **com)
        rs.append(calib.read_result(ctx.path(f"t{k}")))
    keep = np.ones((h // 2, w // 2), bool)
    keep[sy, sx] = False
    K = np.repeat(np.repeat(keep, 2, 0), 2, 1)
    for key in ("flag", "M"):
        ctx.close(rs[1][key][..., keep], rs[0][key][..., keep], "neighbour-altered", f"{key} beside a {kind} pixel at ({y}, {x})", rtol=1e-6)
    for key in ("t", "eff", "phi", "C"):
        ctx.close(rs[1][key][..., K], rs[0][key][..., K], "neighbour-altered", f"{key} beside a {kind} pixel at ({y}, {x})", rtol=1e-6)
    if kind != "wild":
        ctx.ok(rs[1]["flag"][sy, sx] == 0, "wrong-flag", f"superpixel with a {kind} pixel at ({y}, {x}) is flagged {rs[1]['flag'][sy, sx]}")
        ctx.close(rs[1]["M"][:, :, sy, sx], ref.theo_matrix(ins.prev), "not-ideal", f"superpixel with a {kind} pixel at ({y}, {x})", rtol=1e-12)
    elif rs[1]["flag"][sy, sx] == 0:
        ctx.close(rs[1]["M"][:, :, sy, sx], ref.theo_matrix(ins.prev), "not-ideal", "wild pixel", rtol=1e-12)
    check_use(ctx, ctx.path("t1"), rs[1], ins, kind)
    ctx.ev("single bad superpixels")
    ctx.sig(h, w, kind, y, x)
