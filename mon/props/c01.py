import numpy as np

import micropolarray as ml
from mon import gen, ref
from mon.core import scenario


def check_params(ctx, im, S, tag, rtol=1e-9):
    """Every polarization parameter of im against the Stokes components S."""
    p = ref.params(S)
    scale = float(np.max(np.abs(S))) if S.size else 0.0
    for name in ("I", "Q", "U", "pB"):
        got = getattr(im, name).data
        ctx.close(got, p[name], f"wrong-{name}", f"{tag} {name}", rtol=rtol, scale=scale)
    ctx.eq(im.DoLP.data == 0, (p["DoLP"] == 0), "wrong-DoLP", f"{tag} DoLP zero pattern")
    ctx.close(im.DoLP.data, p["DoLP"], "wrong-DoLP", f"{tag} DoLP", rtol=1e-9, atol=1e-12)
    a = np.asarray(im.AoLP.data, dtype=float)
    ctx.ok(a.shape == p["AoLP"].shape, "wrong-AoLP", f"{tag} AoLP shape {a.shape}")
    ctx.ok(np.all(np.abs(a) <= np.pi / 2 + 1e-12), "wrong-AoLP", f"{tag} AoLP outside [-pi/2, pi/2]", aolp=a)
    d = np.abs(np.exp(2j * a) - np.exp(2j * p["AoLP"]))
    ctx.ok(np.all(d < 1e-9), "wrong-AoLP", f"{tag} AoLP is not atan2(U,Q)/2", got=a, expected=p["AoLP"])
    names = [q.ID for q in im.polparam_list]
    ctx.ok(names == list(ref.PARAMS), "wrong-list", f"polparam_list holds {names}")
    for q in im.polparam_list:
        ctx.eq(q.data, getattr(im, q.ID).data, "wrong-list", f"{tag} polparam_list {q.ID}")


def check_planes(ctx, im, data, dic, tag):
    f = ref.split(data)
    ctx.eq(im.single_pol_subimages, f, "wrong-planes", f"{tag} pixel families")
    for ang, attr in ((0, "pol0"), (45, "pol45"), (-45, "pol_45"), (90, "pol90")):
        ctx.eq(getattr(im, attr).data, f[dic[ang]], "wrong-planes", f"{tag} plane of {ang} deg")


@scenario("C01", quick=240, thorough=6000, large=(6, 60, 13000000))
def families_to_parameters(ctx):
    a = gen.image_array(ctx, hi=16)
    dic = gen.ALL_DICS[ctx.idx % 24] if ctx.chance(0.5) else gen.angle_dic(ctx)
    how = ctx.pick(("explicit", "default", "file"))
    if how == "explicit":
        im = ctx.run(ml.MicropolImage, a, angle_dic=dic)
    elif how == "default":
        ml.set_default_angles(dic)
        im = ctx.run(ml.MicropolImage, a)
    else:
        from astropy.io import fits

        p = ctx.path("in.fits")
        fits.PrimaryHDU(data=np.ascontiguousarray(a)).writeto(p)
        im = ctx.run(ml.MicropolImage, p, angle_dic=dic)
    ctx.eq(im.data, a, "wrong-data", "stored pixels")
    S = ref.stokes(ref.split(a), dic)
    check_planes(ctx, im, a, dic, how)
    check_params(ctx, im, S, how)
    ctx.ev("superpixels", a.size // 4)
    ctx.ev("zero-intensity superpixels", int((S[0] == 0).sum()))
    ctx.ev("negative Q or U", int((S[1:] < 0).sum()))
    ctx.sig(how, a.shape, a.dtype, sorted(dic.items()), float(np.asarray(a, float).sum()))
    ctx.sample(how=how, dic=dic, image=a)


@scenario("C01", quick=120, thorough=3000, large=(5, 50, 4000000))
def malus_light(ctx):
    """Light of known intensity, degree and angle through ideal polarizers."""
    h, w = gen.shape(ctx, 1, 10)
    hs, ws = h // 2, w // 2
    inten = ctx.rng.uniform(10, 8000, (hs, ws))
    deg = ctx.rng.choice([0.0, 1.0, 0.5, ctx.rng.random()], (hs, ws))
    ang = ctx.rng.uniform(-np.pi / 2, np.pi / 2, (hs, ws))
    if ctx.chance(0.3):
        ang = np.deg2rad(ctx.rng.choice([0.0, 45.0, -45.0, 90.0, 22.5], (hs, ws)))
    dic = gen.angle_dic(ctx)
    planes = np.empty((4, hs, ws))
    for theta, pos in dic.items():
        planes[pos] = 0.5 * inten * (1 + deg * np.cos(2 * (ang - np.deg2rad(theta))))
    im = ctx.run(ml.MicropolImage, ref.merge(planes), angle_dic=dic)
    ctx.close(im.I.data, inten, "light-not-recovered", "intensity", rtol=1e-9)
    ctx.close(im.pB.data, inten * deg, "light-not-recovered", "polarized brightness", rtol=1e-9, scale=8000)
    ctx.close(im.DoLP.data, deg, "light-not-recovered", "degree", rtol=1e-9, atol=1e-9)
    pol = deg > 1e-3
    d = np.abs(np.exp(2j * im.AoLP.data) - np.exp(2j * ang))
    ctx.ok(np.all(d[pol] < 1e-6), "light-not-recovered", "angle modulo 180 deg", got=im.AoLP.data, expected=ang)
    ctx.ev("polarized superpixels", int(pol.sum()))
    ctx.sig((h, w), sorted(dic.items()), round(float(inten.sum()), 3))


@scenario("C01", quick=120, thorough=2500, large=(4, 40, 2000000))
def written_in_place(ctx):
    """Pixels or Stokes components written between two looks at the image."""
    a = gen.values(ctx, gen.shape(ctx, 1, 10), ctx.pick(("uniform", "signed", "ids", "sparse")))
    dic = gen.angle_dic(ctx)
    im = ctx.run(ml.MicropolImage, a, angle_dic=dic)
    want = np.array(a, float)
    S = ref.stokes(ref.split(want), dic)
    if ctx.chance(0.4):  # as demodulated images have
        S = ctx.rng.normal(0, 50, S.shape)
        im.Stokes_vec = S.copy()
    for _ in range(ctx.integer(2, 4)):
        if ctx.chance(0.7):
            check_planes(ctx, im, want, dic, "before")
            check_params(ctx, im, S, "before")
        k = ctx.pick(("pixel", "block", "scale", "stokes", "plane", "mask"))
        y, x = ctx.integer(0, a.shape[0] - 1), ctx.integer(0, a.shape[1] - 1)
        v = float(ctx.rng.normal(0, 1000))
        if k == "pixel":
            im.data[y, x] = want[y, x] = v
        elif k == "block":
            im.data[y:, :x] = want[y:, :x] = v
        elif k == "scale":
            im.data *= 3
            want *= 3
        elif k == "stokes":
            i = ctx.integer(0, 2)
            im.Stokes_vec[i, y // 2, x // 2] = S[i, y // 2, x // 2] = v
        elif k == "plane":
            i = ctx.integer(0, 2)
            im.Stokes_vec[i] = S[i] = S[i] * 2 + v
        else:
            ctx.run(im.mask_occulter, y, x, ctx.integer(1, 8), fill=0.0)
            want, S = np.array(im.data), np.array(im.Stokes_vec)
        check_planes(ctx, im, want, dic, f"after {k}")
        check_params(ctx, im, S, f"after {k}")
        ctx.ev("looks after writing in place")
    ctx.sig(a.shape, sorted(dic.items()), ctx.idx)


@scenario("C01", quick=40, thorough=600, large=(4, 40, 4000000))
def odd_sides_refused(ctx):
    h, w = gen.dims(ctx, 1, 20)
    if h % 2 == 0 and w % 2 == 0:
        h += 1 - 2 * ctx.integer(0, 1)
    a = gen.values(ctx, (h, w))
    e = ctx.refuses(ml.MicropolImage, a, angle_dic=gen.angle_dic(ctx), what=f"MicropolImage of {h}x{w}")
    ctx.sig(h, w)
    ctx.sample(shape=(h, w), error=e)
