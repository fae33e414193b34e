"""Generated beams and independent quadrature of the power spectrum scalar."""
import numpy as np

from . import boot  # noqa: F401
from .uvps import rng_of

from hera_pspec import conversions
from hera_pspec.pspecbeam import PSpecBeamBase, PSpecBeamFromArray, PSpecBeamGauss

F21, CMS = 1.420405751e9, 299792458.0
BF = np.linspace(90e6, 210e6, 25)


def pstr(pol):
    return {-5: "xx", -6: "yy", -7: "xy", -8: "yx", 1: "pI", 2: "pQ", 3: "pU", 4: "pV"}.get(pol, pol)


class FlatBeam(PSpecBeamBase):
    """a beam given by per-pixel responses: integrals for the scalar, response for exact_norm"""

    def __init__(self, seed, npix=48, cosmo=None):
        PSpecBeamBase.__init__(self, cosmo)
        self.seed, self.npix, self.beam_freqs = seed, npix, BF

    def beam_normalized_response(self, pol="pI", freq=None, x_orientation=None):
        r = rng_of(self.seed, sum(map(ord, pstr(pol))) % 1000)
        base = r.uniform(0.1, 1, self.npix)
        nu = np.asarray(freq)
        return base[None] ** (nu[:, None] / 1e8), (nu / 1e8) ** -1.5, 2.0

    def power_beam_int(self, pol="pI"):
        return 0.05 * (1 + (sum(map(ord, pstr(pol))) % 7) / 10) * (self.beam_freqs / 150e6) ** -1.5

    def power_beam_sq_int(self, pol="pI"):
        return 0.5 * self.power_beam_int(pol)


def x2y(cosmo, freqs, little_h=True):
    """X^2 Y at frequencies in the band, from the Friedmann integrals"""
    from checks.c10 import DM, E
    q = cosmo.get_params()
    lo, hi = np.min(freqs), np.max(freqs)
    t = np.cos(np.pi * (np.arange(9) + 0.5) / 9)
    nodes = (lo + hi) / 2 + (hi - lo) / 2 * t
    v = []
    for f in nodes:
        z = F21 / f - 1
        v.append(DM(q, z, little_h) ** 2 * (1 + z) ** 2 / E(q, z) * CMS / 1e3 / (100.0 if little_h else q["H0"]) / F21)
    u = (np.asarray(freqs) - (lo + hi) / 2) / ((hi - lo) / 2)
    return np.polynomial.chebyshev.Chebyshev.fit(t, v, 8, domain=[-1, 1])(u)


def scalar(cosmo, ratio, f0, df, n, taper="none", little_h=True, noise=False, exact=False, num=20001):
    """1 / int taper^2/B^2 (Omega_pp/Omega_p^2) / X2Y dnu over [f0, f0+n df]; `ratio` is a function of frequency in Hz.
    The taper is constant over the part of the band nearest to each channel's frequency."""
    B = n * df
    f = f0 + (np.arange(num) + 0.5) / num * B
    X = x2y(cosmo, f, little_h)
    if exact:
        return X.mean()
    if taper == "none" or noise:
        t2 = np.ones(num)
    else:
        from uvtools import dspec
        t2 = np.asarray(dspec.gen_window(taper, n)) ** 2
        t2 = t2[np.clip(np.floor((f - f0) / df + 0.5).astype(int), 0, n - 1)]
    w = t2 / (B if noise else B * B)
    return 1.0 / (np.sum(w * ratio(f) / X) * B / num)
