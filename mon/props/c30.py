"""Helioprojective alignment: where every pixel and the sun centre end up."""
import numpy as np
from astropy.io import fits

import micropolarray as ml
from mon import gen, ref
from mon.core import scenario

FULL = 1952


def keywords(ctx):
    d = {
        "DATE-OBS": f"20{ctx.integer(10, 40)}-{ctx.integer(1, 12):02d}-{ctx.integer(1, 28):02d}",
        "TIME-OBS": f"{ctx.integer(0, 23):02d}:{ctx.integer(0, 59):02d}:{ctx.integer(0, 59):02d}.{ctx.integer(0, 999):03d}",
        "TEXP": 1.5 * ctx.integer(1, 9),
        "OBSERVER": ctx.pick(("A", "B B")),
    }
    if ctx.chance(0.5):
        d.update(NAXIS1=7, NAXIS2=9, CDELT1=0.1, CRPIX1=3)
    if ctx.chance(0.5):
        h = fits.Header()
        for k, v in d.items():
            h[k] = v
        return h, d
    return dict(d), d


def expected(a):
    return ref.merge([p[::-1, ::-1].T for p in ref.split(a)])


def check_header(ctx, h, d, n, centre, scale, binning):
    ctx.ok(h["NAXIS1"] == n and h["NAXIS2"] == n, "wrong-size", f"{h['NAXIS1']}x{h['NAXIS2']} for {n}")
    for k in ("CDELT1", "CDELT2"):
        ctx.close(h[k], scale * binning, "wrong-scale", k, rtol=1e-12)
    for k in ("CUNIT1", "CUNIT2"):
        ctx.ok(h[k] == "arcsec", "wrong-unit", f"{k} {h[k]}")
    ctx.ok((h["CTYPE1"], h["CTYPE2"]) == ("HPLN-TAN", "HPLT-TAN"), "wrong-axes", f"{h['CTYPE1']} {h['CTYPE2']}")
    ctx.ok(h["CRVAL1"] == 0 and h["CRVAL2"] == 0, "wrong-reference", "CRVAL")
    ctx.ok(h["DATE-OBS"] == d["DATE-OBS"] + "T" + d["TIME-OBS"], "wrong-date", str(h["DATE-OBS"]))
    for k in ("TEXP", "OBSERVER", "TIME-OBS"):
        ctx.ok(h[k] == d[k], "keyword-lost", k)
    y, x = centre
    # the anti-transpose sends a (0-based) row y to the 1-based column n - y
    for k, s in (("CRPIX1", y), ("CRPIX2", x)):
        e = n - s * n / FULL
        ctx.ok(e - 0.51 <= h[k] < e + 1 + 1e-9, "wrong-centre", f"{k} is {h[k]}, the sun is at {e:.3f}", centre=centre, size=n)
    ctx.ev("headers checked")


@scenario("C30", quick=600, thorough=100000, large=(10, 100, 4_000_000))
def align(ctx):
    n = ctx.pick((122, 244, 488, 976, 1952, 2 * ctx.integer(100, 1024))) if ctx.large else 2 * ctx.integer(1, ctx.pick((4, 16, 40)))
    a = gen.image_array(ctx, (n, n))
    h, d = keywords(ctx)
    centre = ctx.pick(
        (
            [ctx.integer(0, FULL), ctx.integer(0, FULL)],
            [float(ctx.rng.uniform(0, FULL)), float(ctx.rng.uniform(0, FULL))],
            (967.5, 940.2),
        )
    )
    scale = float(ctx.pick((4.3, 1.0, 13.17, ctx.rng.uniform(0.5, 30))))
    binning = ctx.pick((1, 2, 4, 8, 3))
    keep = np.array(a)
    args = (h, a, centre, scale)
    if binning == 1 and ctx.chance(0.5):
        h2, out = ctx.run(ml.align_keywords_and_data, *args)
    else:
        h2, out = ctx.run(ml.align_keywords_and_data, *args, binning)
    ctx.eq(out, expected(keep), "wrong-pixels", "aligned data")
    ctx.eq(a, keep, "operand-changed", "the input data")
    check_header(ctx, h2, d, n, centre, scale, binning)
    ctx.ev("images aligned")
    ctx.ev("pixels placed", n * n)
    # the transformation is its own inverse
    _, back = ctx.run(ml.align_keywords_and_data, dict(d), out, centre, scale, binning)
    ctx.eq(back, keep, "wrong-pixels", "aligned twice")
    ctx.sig(n, str(a.dtype), centre, scale, binning, ctx.idx)
    ctx.sample(size=n, centre=centre, scale=scale, binning=binning)


@scenario("C30", quick=60, thorough=8000)
def sun(ctx):
    """A sun-marked frame: the mark must end up on the keyword position."""
    n = ctx.pick((122, 244, 488, 976))
    b = FULL // n
    r, c = ctx.integer(2, n // 2 - 3), ctx.integer(2, n // 2 - 3)
    a = ctx.rng.integers(0, 50, (n, n)).astype(ctx.pick(("float64", "uint16", "int32")))
    a[2 * r : 2 * r + 2, 2 * c : 2 * c + 2] = 9000  # the macropixel at the sun centre
    centre = [b * (2 * r + 1), b * (2 * c + 1)]
    h, d = keywords(ctx)
    h, out = ctx.run(ml.align_keywords_and_data, h, a, centre, 4.3, b)
    ys, xs = np.nonzero(out == 9000)
    ctx.ok(len(ys) == 4 and np.ptp(ys) == 1 and np.ptp(xs) == 1, "wrong-pixels", f"the marked macropixel: {list(zip(ys, xs))[:6]}")
    ctx.ok(abs(xs.mean() + 1 - h["CRPIX1"]) <= 2 and abs(ys.mean() + 1 - h["CRPIX2"]) <= 2, "centre-apart",
           f"mark at column {xs.mean() + 1}, row {ys.mean() + 1} (1-based); keywords {h['CRPIX1']}, {h['CRPIX2']}")
    check_header(ctx, h, d, n, centre, 4.3, b)
    # and in the world: pixel to helioprojective coordinates and back
    ctx.ev("marked suns found")
    ctx.sig("sun", n, r, c)
