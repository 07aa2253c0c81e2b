import os
import zlib

import numpy as np
from astropy.io import fits

from micropolarray.processing import convert
from mon.core import scenario

SIDE = 1952
NB = SIDE * SIDE * 3 // 2


def decode(b):
    t = np.frombuffer(b, dtype=np.uint8).reshape(-1, 3).astype(np.int64)
    return np.stack([t[:, 0] * 16 + (t[:, 1] >> 4), t[:, 2] * 16 + (t[:, 1] & 15)], axis=1).ravel()


def content(ctx, n):
    """n bytes (multiple of 3) of one of several kinds."""
    r = ctx.rng
    k = ctx.pick(("random", "zeros", "ones", "sparse", "zero tails", "extremes", "ramp"))
    if k == "random":
        b = r.integers(0, 256, n, dtype=np.uint8)
    elif k == "zeros":
        b = np.zeros(n, dtype=np.uint8)
    elif k == "ones":
        b = np.full(n, 255, dtype=np.uint8)
    elif k == "sparse":
        b = np.where(r.random(n) < 0.05, r.integers(0, 256, n), 0).astype(np.uint8)
    elif k == "zero tails":  # runs of null bytes, also at the ends of the chunks
        b = r.integers(0, 256, n, dtype=np.uint8)
        for _ in range(ctx.integer(1, 12)):
            at = int(n * ctx.integer(0, 32) / 32)
            ln = ctx.integer(1, 60)
            b[max(0, at - ln) : at + ctx.pick((0, 0, ln))] = 0
        b[-ctx.integer(1, 50) :] = 0
    elif k == "extremes":
        b = r.choice(np.array([0, 1, 15, 16, 127, 128, 240, 255], dtype=np.uint8), size=n)
    else:
        b = (np.arange(n) * ctx.integer(1, 255)).astype(np.uint8)
    return k, b.tobytes()


@scenario("C13", quick=300, thorough=3000)
def unpacking(ctx):
    n = 3 * ctx.integer(1, 400)
    k, b = content(ctx, n)
    arg = ctx.pick((b, np.frombuffer(b, dtype=np.uint8), bytearray(b)))
    r = ctx.run(convert.three_bytes_to_two_ints, arg)
    ctx.eq(np.asarray(r, float), decode(b).astype(float), "wrong-pixels", f"{n} bytes, {k}")
    ctx.ev("pixels decoded", n // 3 * 2)
    ctx.sig(n, k, zlib.crc32(b))


@scenario("C13", quick=1, thorough=1)
def every_three_bytes(ctx):
    """All values of each byte with all nibbles of the middle one: exhaustive on
    the pair (first byte, middle byte) and (middle byte, last byte)."""
    g = np.array([(x, y, (x * 7 + y) % 256) for x in range(256) for y in range(256)], dtype=np.uint8)
    g2 = g[:, ::-1]
    for t in (g, g2):
        b = np.ascontiguousarray(t).tobytes()
        r = ctx.run(convert.three_bytes_to_two_ints, b)
        ctx.eq(np.asarray(r, float), decode(b).astype(float), "wrong-pixels", "all byte pairs")
        ctx.ev("pixels decoded", len(b) // 3 * 2)
    ctx.sig("all")


@scenario("C13", quick=6, thorough=40, cpu=600)
def whole_file(ctx):
    k, b = content(ctx, NB)
    p = ctx.path("cam.bin")
    with open(p, "wb") as f:
        f.write(b)
    r = ctx.run(convert.nparr_from_binary, p)
    ctx.eq(np.asarray(r, float), decode(b).reshape(SIDE, SIDE).astype(float), "wrong-pixels", f"camera file, {k}")
    ctx.ok(open(p, "rb").read() == b, "file-changed", "camera file")
    ctx.ev("camera files")
    ctx.sig(k, zlib.crc32(b))
    ctx.sample(content=k)


@scenario("C13", quick=3, thorough=20, cpu=900)
def set_of_files(ctx):
    n = ctx.pick((1, 2, 3))
    bs = [content(ctx, NB)[1] for _ in range(n)]
    ps = []
    for i, b in enumerate(bs):
        ps.append(ctx.path(f"c{i}.bin"))
        with open(ps[-1], "wb") as f:
            f.write(b)
    twice = ctx.idx % 3 == 1  # one file counted more than once
    if twice:
        again = ctx.integer(0, n - 1) if n > 1 else 0
        if n == 1:
            bs.append(content(ctx, NB)[1])
            ps.append(ctx.path("c1.bin"))
            with open(ps[-1], "wb") as f:
                f.write(bs[-1])
        at = ctx.integer(0, len(ps))
        ps.insert(at, ps[again])
        bs.insert(at, bs[again])
        n = len(ps)
        ctx.ev("sets with a file repeated")
    out = ctx.path("o.fits")
    if ctx.chance(0.4):
        fits.PrimaryHDU(data=np.zeros((4, 4))).writeto(out)
    ctx.run(convert.convert_set, ps if n > 1 or ctx.chance(0.5) else ps[0], out, SIDE, SIDE)
    with fits.open(out) as h:
        d = np.array(h[0].data, float)
    exp = np.mean([decode(b) for b in bs], axis=0).reshape(SIDE, SIDE)
    ctx.close(d, exp, "wrong-mean", f"mean of {n} camera files", rtol=1e-12, scale=4095.0)
    for p, b in zip(ps, bs):
        ctx.ok(open(p, "rb").read() == b, "file-changed", p)
    q = ctx.path("o.bin")
    ctx.refuses(convert.convert_set, ps[:1], q, SIDE, SIDE, what="output that is not .fits")
    ctx.ok(not os.path.exists(q), "wrote-on-refusal", q)
    ctx.ev("sets converted")
    ctx.sig(n, *(zlib.crc32(b) for b in bs))


@scenario("C13", quick=18, thorough=60, cpu=600)
def refused_lengths(ctx):
    ln = ctx.pick((0, 1, 3, 95, NB - 1, NB + 1, NB - 3, NB + 3, NB - 96, NB + 96, NB // 2, NB * 2, NB - 32 * 3 * SIDE, 96 * ctx.integer(1, 400)))
    if ctx.idx < 14:
        ln = (0, 1, 3, 95, NB - 1, NB + 1, NB - 3, NB + 3, NB - 96, NB + 96, NB // 2, 96, NB - 32 * 3 * SIDE, 9600)[ctx.idx]
    p = ctx.path("bad.bin")
    with open(p, "wb") as f:
        f.write(ctx.rng.integers(0, 256, ln, dtype=np.uint8).tobytes())
    if ctx.chance(0.3):
        out = ctx.path("o.fits")
        ctx.refuses(convert.convert_set, [p], out, SIDE, SIDE, what=f"set with a file of {ln} bytes")
        ctx.ok(not os.path.exists(out), "wrote-on-refusal", out)
    else:
        ctx.refuses(convert.nparr_from_binary, p, what=f"file of {ln} bytes")
    ctx.ev("lengths refused")
    ctx.sig(ln)
