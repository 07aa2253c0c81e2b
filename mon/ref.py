"""Reference models: independent, plain numpy statements of what the package
should compute.  Nothing here imports the code under test."""
import numpy as np

PARAMS = ("I", "Q", "U", "pB", "AoLP", "DoLP")


def split(a):
    a = np.asarray(a, dtype=float)
    return np.stack([a[0::2, 0::2], a[0::2, 1::2], a[1::2, 0::2], a[1::2, 1::2]])


def merge(f):
    f = np.asarray(f, dtype=float)
    h, w = f[0].shape
    out = np.empty((2 * h, 2 * w))
    for k in range(4):
        out[k // 2 :: 2, k % 2 :: 2] = f[k]
    return out


def stokes(planes, dic):
    p = np.asarray(planes, dtype=float)
    return np.stack(
        [
            (p[0] + p[1] + p[2] + p[3]) / 2.0,
            p[dic[0]] - p[dic[90]],
            p[dic[45]] - p[dic[-45]],
        ]
    )


def params(S):
    I, Q, U = S
    pb = np.hypot(Q, U)
    dolp = np.zeros_like(I)
    nz = I != 0
    with np.errstate(all="ignore"):
        dolp[nz] = pb[nz] / I[nz]
    return {"I": I, "Q": Q, "U": U, "pB": pb, "AoLP": 0.5 * np.arctan2(U, Q), "DoLP": dolp}


def demosaic_mean(a):
    f = split(a)
    return np.stack([np.repeat(np.repeat(p, 2, 0), 2, 1) * 0.25 for p in f])


def demosaic_adjacent(a):
    out = []
    for p in split(a):
        h, w = p.shape
        e = np.pad(p, ((0, 1), (0, 1)), mode="edge")
        q = np.empty((2 * h, 2 * w))
        q[0::2, 0::2] = p
        q[1::2, 0::2] = (e[:-1, :-1] + e[1:, :-1]) / 2
        q[0::2, 1::2] = (e[:-1, :-1] + e[:-1, 1:]) / 2
        q[1::2, 1::2] = (e[:-1, :-1] + e[1:, :-1] + e[:-1, 1:] + e[1:, 1:]) / 4
        out.append(q)
    return np.stack(out)


def congrid(p, shape):
    """Linear interpolation with the corners of source and target coinciding."""
    p = np.asarray(p, dtype=float)

    def axis(a, n):  # along axis 0
        m = a.shape[0]
        pos = np.arange(n) * ((m - 1) / (n - 1) if n > 1 else 0.0)
        lo = np.clip(np.floor(pos + 1e-12).astype(int), 0, max(m - 2, 0))
        fr = pos - lo
        hi = np.minimum(lo + 1, m - 1)
        return a[lo] + (a[hi] - a[lo]) * fr[:, None]

    return axis(axis(p, shape[0]).T, shape[1]).T


def demosaic_spline(a):
    h, w = np.asarray(a).shape
    return np.stack([congrid(p, (h, w)) for p in split(a)])


DEMOSAIC = {"mean": demosaic_mean, "adjacent": demosaic_adjacent, "spline": demosaic_spline}


def rebin_plain(a, n):
    a = np.asarray(a, dtype=float)
    h, w = (a.shape[0] // n) * n, (a.shape[1] // n) * n
    a = a[:h, :w].reshape(h // n, n, w // n, n)
    return a.sum(axis=(1, 3))


def rebin_micropol(a, n):
    return merge([rebin_plain(p, n) for p in split(a)])


def shift_plain(a, dy, dx, fill):
    a = np.asarray(a)
    h, w = a.shape
    out = np.full((h, w), float(fill))
    for_y = np.arange(h) + dy
    for_x = np.arange(w) + dx
    ky = (for_y >= 0) & (for_y < h)
    kx = (for_x >= 0) & (for_x < w)
    if ky.any() and kx.any():
        out[np.ix_(for_y[ky], for_x[kx])] = a[np.ix_(np.arange(h)[ky], np.arange(w)[kx])]
    return out


def shift_micropol(a, dy, dx, fill):
    return merge([shift_plain(p, dy, dx, fill) for p in split(a)])


def ifov(a):
    """Average over own, above, left, above-left superpixel (first row/column: nan)."""
    out = []
    for p in split(a):
        q = np.full(p.shape, np.nan)
        q[1:, 1:] = (p[1:, 1:] + p[:-1, 1:] + p[1:, :-1] + p[:-1, :-1]) / 4
        out.append(q)
    return merge(out)


def median2(p):
    """Median over the 2x2 neighbourhood up/left of each pixel with mirrored
    borders, taking the upper of the two middle values (rank filter of 4)."""
    e = np.pad(p, ((1, 0), (1, 0)), mode="symmetric")
    st = np.stack([e[1:, 1:], e[:-1, 1:], e[1:, :-1], e[:-1, :-1]])
    return np.sort(st, axis=0)[2]


def polar(h, w, cy, cx):
    y, x = np.mgrid[0:h, 0:w]
    rho = np.sqrt((x - cx) ** 2.0 + (y - cy) ** 2.0)
    phi = np.rad2deg(np.arctan2(y - cy, x - cx)) % 360.0
    return rho, phi


def theo_matrix(angles_deg):
    """3x4 pseudo-inverse of the ideal modulation matrix of these orientations."""
    a = np.deg2rad(np.asarray(angles_deg, dtype=float))
    W = np.stack([np.full(4, 0.5), 0.5 * np.cos(2 * a), 0.5 * np.sin(2 * a)], axis=1)
    return np.linalg.pinv(W)


def modulation(t, eff, phi):
    """4x3 modulation matrix from throughput, efficiency, phase (rad) of 4 pixels."""
    t, eff, phi = (np.asarray(v, dtype=float) for v in (t, eff, phi))
    return np.stack([0.5 * t, 0.5 * t * eff * np.cos(2 * phi), 0.5 * t * eff * np.sin(2 * phi)], axis=1)


def malus(angle, t, eff, phi):
    return 0.5 * t * (1.0 + eff * np.cos(2.0 * (angle - phi)))


def norm_deg(a):
    """Equivalent angle in (-90, 90]."""
    r = np.mod(np.asarray(a, dtype=float) + 90.0, 180.0) - 90.0
    return np.where(r <= -90.0, r + 180.0, r)
