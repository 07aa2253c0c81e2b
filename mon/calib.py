"""Simulated instruments and calibration data sets, and reading back of results."""
import os

import numpy as np
from astropy.io import fits

import micropolarray as ml
from mon import ref

PREV_PERM = [0, 45, -45, 90]


class Instrument:
    """Throughput, efficiency, phase [rad] of every pixel, h x w, noiseless."""

    def __init__(self, ctx, h, w, prev=None, t=(0.3, 0.9), eff=(0.5, 0.97), dphi=9.0):
        r = ctx.rng
        if prev is None:
            prev = [PREV_PERM[i] for i in r.permutation(4)]
        self.prev, self.h, self.w = list(prev), h, w
        self.t = r.uniform(*t, (h, w))
        self.eff = r.uniform(*eff, (h, w))
        base = np.zeros((h, w))
        for k in range(4):
            base[k // 2 :: 2, k % 2 :: 2] = np.deg2rad(prev[k])
        self.phi = base + np.deg2rad(r.uniform(-dphi, dphi, (h, w)))

    def measure(self, S, angle_deg):
        """Light of total intensity S fully polarized at angle."""
        return S * ref.malus(np.deg2rad(angle_deg), self.t, self.eff, self.phi)

    def W(self):
        """(4, 3, h/2, w/2) modulation matrices."""
        t, e, p = ref.split(self.t), ref.split(self.eff), ref.split(self.phi)
        return np.stack([0.5 * t, 0.5 * t * e * np.cos(2 * p), 0.5 * t * e * np.sin(2 * p)], axis=1)

    def see(self, stokes):
        """Micropolarizer image of light with Stokes (3, h/2, w/2)."""
        return ref.merge(np.einsum("jiyx,iyx->jyx", self.W(), stokes))


def pinv_maps(W):
    """(4,3,y,x) -> (3,4,y,x)"""
    return np.moveaxis(np.linalg.pinv(np.moveaxis(W, (0, 1), (2, 3))), (2, 3), (0, 1))


def W_of(t, eff, phi_deg):
    t, e, p = ref.split(t), ref.split(eff), np.deg2rad(ref.split(phi_deg))
    return np.stack([0.5 * t, 0.5 * t * e * np.cos(2 * p), 0.5 * t * e * np.sin(2 * p)], axis=1)


def orientations(ctx, n=None):
    """5 to 9 known polarizer angles, well spread over half a turn."""
    n = n or ctx.integer(5, 9)
    k = ctx.integer(0, 2)
    if k == 0:
        a = [0, 45, 90, -45] + [float(v) for v in np.round(ctx.rng.uniform(-90, 180, n - 4), 3)]
    elif k == 1:
        a = [0, 45, 90, 135] + [float(v) for v in np.round(ctx.rng.uniform(-90, 180, n - 4), 3)]
    else:
        st = ctx.integer(-60, 60)
        a = [st + round(180.0 * i / n, 3) for i in range(n)]
    a = [a[i] for i in ctx.rng.permutation(len(a))]
    return a


def write(path, a, dtype=None):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    a = np.asarray(a)
    fits.PrimaryHDU(data=a.astype(dtype) if dtype else a).writeto(path, overwrite=True)
    return path


def write_set(ctx, folder, images, angles, dtype=None):
    """One file per orientation; names in no particular order."""
    names = [f"{v:03d}_pol.fits" for v in ctx.rng.permutation(999)[: len(angles)]]
    return [write(os.path.join(folder, n), im, dtype) for n, im in zip(names, images)]


def read_result(folder):
    def rd(*p):
        with fits.open(os.path.join(folder, *p)) as f:
            return np.array(f[0].data, dtype=float)

    out = {
        "M": np.array([[rd(f"M{i}{j}.fits") for j in range(4)] for i in range(3)]),
        "flag": rd("fit_found_flag.fits"),
        "t": rd("transmittancies.fits"),
        "eff": rd("efficiences.fits"),
        "phi": rd("phases.fits"),
        "C": np.array([[rd("covariance_tensor", f"C{i}{j}.fits") for j in range(3)] for i in range(3)]),
    }
    return out


def calculate(ctx, **kw):
    """Runs the calculation (in a quiet process, stdout goes to the worker's)."""
    kw.setdefault("gain", ctx.pick((1.0, 2.75, 7)))
    kw.setdefault("procs_grid", [1, 1])
    return ctx.run(ml.calculate_demodulation_tensor, **kw)
