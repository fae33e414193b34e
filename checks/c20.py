"""C20: exact window functions."""
import copy
import os
import warnings

import h5py
import numpy as np
from astropy import units
from hypothesis import strategies as st

from hera_pspec import conversions
from hera_pspec.uvwindow import FTBeam, UVWindow, check_spw_range
from pv import dsets, uvps
from pv.core import Law, Skip
from pv.scratch import scratch
from pv.uvps import CHAN, COSMOS, assert_close, raises, rng_of

RULE = ("Cases are generated Fourier beams (Gaussian, elliptical, two different polarizations), bands, baselines, tapers, cosmologies and bins; non-trivial when the beam is elliptical or differs between polarizations, "
        "the bins are not the default ones, several baselines with unequal weights are averaged, or a sub-band is cut out.")
ASSUMPTIONS = ["Fourier beams are real, on an odd number of pixels and unchanged under k -> -k", "baselines are at least 10 m long", "no mode lies within 1e-9 of a bin edge",
               "the beam is sampled at kperp within 0.02 of the baseline's along either axis", "for even numbers of channels the windows of +tau and -tau may differ in the Nyquist channel"]

warnings.simplefilter("ignore")
C = 2.99792458e8
TAPERS = [None, "none", "hann", "blackman-harris", "bh7", "hamming"]


# ------------------------------------------------------------------------------------------------ beams
@st.composite
def band(draw, lo=3, hi=10):
    return dict(f0=draw(st.sampled_from([100e6, 120.3e6, 151e6, 178e6])), df=draw(st.sampled_from([0.1e6, 0.25e6, 1e6])), nf=draw(st.integers(lo, hi)))


def freqs(b):
    return b["f0"] + b["df"] * np.arange(b["nf"])


@st.composite
def beam(draw):
    return dict(seed=draw(st.integers(0, 9999)), kind=draw(st.sampled_from(["gauss", "ellipse", "random"])), w=draw(st.sampled_from([4.0, 7.0, 10.0, 15.0])), chrom=draw(st.sampled_from([0.0, 0.0, 0.02, 0.3])))


def qaxis(npix, mapsize):
    return np.arange(-(npix // 2), npix // 2 + 1) / (2.0 * mapsize)


def ftdata(c, b, npix, mapsize):
    """Fourier beams of shape (nf, npix, npix), unchanged under q -> -q"""
    r = rng_of(c["seed"], 3)
    q = qaxis(npix, mapsize)
    X, Y = np.meshgrid(q, q, indexing="ij")
    out = []
    for i in range(b["nf"]):
        w = np.radians(c["w"]) * (1 + c["chrom"] * (i / b["nf"] - 0.5))
        th, e = r.uniform(0, np.pi), r.uniform(1, 2)
        if c["kind"] == "gauss":
            th, e = 0.0, 1.0
        u, v = X * np.cos(th) + Y * np.sin(th), -X * np.sin(th) + Y * np.cos(th)
        g = np.exp(-(np.pi * w)**2 * (u**2 * e + v**2 / e)) * w**2
        if c["kind"] == "random":
            n = r.normal(size=g.shape)
            g = g * (1 + 0.3 * (n + n[::-1, ::-1]) / 2)
        out.append(g)
    return np.array(out)


@st.composite
def wcase(draw, lo=3, hi=10, two=True):
    return dict(band=draw(band(lo, hi)), npix=draw(st.sampled_from([101, 151, 201])), mapsize=draw(st.sampled_from([0.7, 1.0, 1.3])), beams=draw(st.lists(beam(), min_size=1, max_size=2 if two else 1)),
                pols=draw(st.sampled_from([["xx", "yy"], ["pI", "pQ"], ["xy", "yx"], ["pV", "pU"]])), taper=draw(st.sampled_from(TAPERS)), h=draw(st.booleans()), cosmo=draw(st.integers(0, 2)),
                bl=draw(st.sampled_from([10.0, 14.6, 29.2, 50.1, 87.6, 120.0])))


def ftbeams(c, amp=1.0):
    return [FTBeam(ftdata(x, c["band"], c["npix"], c["mapsize"]) * amp, p, freqs(c["band"]), c["mapsize"]) for x, p in zip(c["beams"], c["pols"])]


def uvwindow(c, bs):
    return UVWindow(bs if len(bs) == 2 else bs[0], taper=c["taper"], little_h=c["h"], cosmo=conversions.Cosmo_Conversions(**COSMOS[c["cosmo"]]))


# ------------------------------------------------------------------------------------------------ reference model
def bilinear(k, z, g):
    """z, given on the axes (k, k), at every (g_i, g_j); zero outside"""
    i = np.clip(np.searchsorted(k, g) - 1, 0, len(k) - 2)
    t = (g - k[i]) / (k[i + 1] - k[i])
    ok = (g >= k[0]) & (g <= k[-1])
    a = z[i, :] * (1 - t)[:, None] + z[i + 1, :] * t[:, None]
    b = a[:, i] * (1 - t)[None, :] + a[:, i + 1] * t[None, :]
    return b * ok[:, None] * ok[None, :]


def taper(name, n):
    if name is None or name == "none":
        return np.ones(n)
    from uvtools import dspec
    return dspec.gen_window(name, n)


def wclose(a, b, what, tol=1e-9):
    """equal up to rounding relative to the peak"""
    a, b = np.asarray(a), np.asarray(b)
    assert a.shape == b.shape, "%s: shape %s vs %s" % (what, a.shape, b.shape)
    d = np.abs(a - b).max() if a.size else 0
    assert d <= tol * max(np.abs(a).max(), 1e-300), "%s: differ by %g of the peak" % (what, d / np.abs(a).max())


def near(x, e):
    return np.min(np.abs(np.ravel(x)[:, None] - e[None, :])) < 1e-9 * max(1e-3, np.max(np.abs(e)))


def edges(b):
    d = (b[-1] - b[0]) / (len(b) - 1)
    return b[0] - d / 2 + d * np.arange(len(b) + 1)


def model(f, data, mapsize, tap, h, cosmo, bl, kperp, kpara):
    """cylindrical window functions by explicit summation: for every delay the set of accepted windows"""
    N = len(f)
    zavg = cosmo.f2z(np.mean(f))
    kc = cosmo.bl_to_kperp(zavg, little_h=h) * bl / np.sqrt(2)
    dk = np.pi / mapsize / cosmo.dRperp_dtheta(cosmo.f2z(f.max()), little_h=h)
    g = np.arange(kc - 0.020, kc + 0.020, step=dk)
    norm = np.hypot(g[:, None], g[None, :])
    q = qaxis(data[0].shape[1], mapsize)
    cubes = []
    for d in data:
        cube = np.array([bilinear(2 * np.pi / cosmo.DM(cosmo.f2z(x), little_h=h) * (x * bl / C / np.sqrt(2) + q), d[i], g) for i, x in enumerate(f)])
        m = np.arange(N) - N // 2
        D = np.exp(-2j * np.pi * np.outer(m, np.arange(N)) / N)  # modes eta = m/(N df)
        cubes.append(np.tensordot(D, cube * taper(tap, N)[:, None, None], axes=(1, 0)))
    P = (np.conj(cubes[-1]) * cubes[0]).real
    ep, ea = edges(kperp), edges(kpara)
    if near(norm, ep):
        raise Skip("a mode lies on a kperp bin edge")
    which = np.digitize(norm, ep) - 1
    prof = np.zeros((len(kperp), N))
    kav = np.zeros(len(kperp))
    for b in range(len(kperp)):
        sel = which == b
        if sel.any():
            prof[b] = P[:, sel].mean(axis=1)
            kav[b] = norm[sel].mean()
    df = np.median(np.diff(f))
    alpha = cosmo.dRpara_df(zavg, little_h=h, ghz=False)
    eta = (np.arange(N) - N // 2) / (N * df)
    raw = []
    for tau in eta:
        k = np.abs(2 * np.pi / alpha * (eta + tau))
        if near(k, ea):
            raise Skip("a mode lies on a kpara bin edge")
        w = np.digitize(k, ea) - 1
        out = np.zeros((len(kperp), len(kpara)))
        for b in range(len(kpara)):
            if (w == b).any():
                out[:, b] = prof[:, w == b].mean(axis=1)
        raw.append(out)
    unit = lambda x: x / x.sum() if x.sum() != 0 else x
    acc = []
    for t in range(N):
        mirror = N - t if N % 2 == 0 else N - 1 - t
        acc.append([unit(raw[t])] + ([unit(raw[mirror])] if 0 <= mirror < N else []))
    return acc, kav, eta


# ------------------------------------------------------------------------------------------------ cylindrical windows
@st.composite
def ccase(draw):
    c = draw(wcase())
    c["bins"] = draw(st.sampled_from(["default", "default", "perp", "both", "coarse"]))
    c["amp"] = draw(st.sampled_from([1e-6, 3.0, 1e5]))
    return c


def bins_of(c, w):
    kp, ka = w.get_kperp_bins([c["bl"]]), w.get_kpara_bins(w.freq_array)
    if c["bins"] in ("perp", "both"):
        kp = np.linspace(0.3 * kp.value[0], 1.1 * kp.value[-1], max(4, len(kp) // 2)) * kp.unit
    if c["bins"] in ("both", "coarse"):
        d = ka.value[1] - ka.value[0]
        s = 1.37 if c["bins"] == "both" else 2.6
        ka = (0.21 * d + s * d * np.arange(max(3, int(np.ceil(c["band"]["nf"] / s)) + 2))) * ka.unit
    return kp, ka


def cylindrical(c, note):
    """windows agree with explicit summation, are non-negative, sum to one per delay, peak at the probed mode and do not depend on the beam's amplitude"""
    bs = ftbeams(c)
    keep = [copy.deepcopy(vars(b)) for b in bs]
    w = uvwindow(c, bs)
    f = freqs(c["band"])
    N = len(f)
    kp, ka = bins_of(c, w)
    a, b, wf = w.get_cylindrical_wf(c["bl"], kp, ka, return_bins="unweighted")
    assert_close(a, kp.value, "kperp bins", 1e-12), assert_close(b, ka.value, "kpara bins", 1e-12)
    assert wf.shape == (N, len(kp), len(ka)) and np.isrealobj(wf) and np.isfinite(wf).all()
    for x, y in zip(bs, keep):
        for k, v in y.items():
            assert np.array_equal(getattr(x, k), v), "the beam's %s was changed" % k
    acc, kav, dl = model(f, [x.ft_beam for x in bs], c["mapsize"], c["taper"], c["h"], w.cosmo, c["bl"], kp.value, ka.value)
    assert_close(w.dly_array, dl, "delays", 1e-12)
    if len(bs) == 1:
        assert wf.min() >= 0, "negative window function %g" % wf.min()
    tot = wf.sum(axis=(1, 2))
    for t in range(N):
        full = any(x.any() for x in acc[t])
        assert abs(tot[t] - full) < 1e-9, "window of delay %d sums to %r" % (t, tot[t])
        sc = max(np.abs(x).max() for x in acc[t]) + 1e-300
        assert any(np.all(np.abs(wf[t] - x) <= 1e-8 * sc) for x in acc[t]), "delay %d of %d: window differs from the summed one by %g of its peak" % (t, N, min(np.abs(wf[t] - x).max() for x in acc[t]) / sc)
    # the default bins contain everything with the weight at the probed mode
    kc = w.cosmo.bl_to_kperp(w.avg_z, little_h=c["h"]) * c["bl"]
    if c["bins"] == "default":
        # with no arguments, the same
        wclose(w.get_cylindrical_wf(c["bl"]), wf, "default bins")
        if all(x["kind"] == "gauss" and x["chrom"] < 0.1 for x in c["beams"]):
            t2k = w.cosmo.tau_to_kpara(w.avg_z, little_h=c["h"])
            sig = 1 / (w.cosmo.DM(w.avg_z, little_h=c["h"]) * np.radians(min(x["w"] for x in c["beams"])))
            for t in range(N):
                if kc > 3 * sig:  # the mean over an annulus, times its length
                    i = np.argmax(wf[t].sum(axis=1) * kp.value)
                    assert abs(kp.value[i] - kc) <= 2 * (kp.value[1] - kp.value[0]) + 0.3 * sig + 2e-3, "delay %d peaks at kperp %g instead of %g" % (t, kp.value[i], kc)
                j = np.argmax(wf[t].sum(axis=0))
                assert abs(ka.value[j] - max(abs(dl[t]) * t2k, ka.value[0])) <= 1.01 * (ka.value[1] - ka.value[0]), "delay %d peaks at kpara %g instead of %g" % (t, ka.value[j], abs(dl[t]) * t2k)
            note.label("peak")
    k1, k2, wf2 = w.get_cylindrical_wf(c["bl"], kp, ka, return_bins="weighted")
    wclose(wf2, wf, "windows returned with weighted bins")
    assert_close(k1, kav, "mean kperp of the bins", 1e-8)
    # amplitude
    w3 = uvwindow(c, ftbeams(c, c["amp"]))
    wclose(w3.get_cylindrical_wf(c["bl"], kp, ka), wf, "window of the scaled beam")
    note.nt(len(bs) == 2 or c["bins"] != "default" or c["beams"][0]["kind"] != "gauss")
    note.label("odd" if N % 2 else "even", c["bins"], *[x["kind"] for x in c["beams"]])


# ------------------------------------------------------------------------------------------------ Gaussian beams
@st.composite
def gcase(draw):
    return dict(band=draw(band(3, 8)), w=draw(st.lists(st.sampled_from([2.0, 5.0, 7.5, 10.0, 20.0]), min_size=8, max_size=8)), one=draw(st.sampled_from(["no", "float", "int"])), pol=draw(st.sampled_from(["pI", "xx", 1, -5, -8, 4])),
                mapsize=draw(st.sampled_from([0.5, 1.0, 2.0])), npix=draw(st.sampled_from([51, 101, 301])), lists=draw(st.booleans()))


POLSTR = {1: "pI", 2: "pQ", 3: "pU", 4: "pV", -5: "xx", -6: "yy", -7: "xy", -8: "yx"}


def gaussian(c, note):
    """the Fourier beam of exp(-theta^2/w^2) is w^2 exp(-(pi w q)^2) up to one constant"""
    f = freqs(c["band"])
    w = np.full(len(f), c["w"][0]) if c["one"] != "no" else np.array(c["w"][:len(f)])
    arg = {"float": float(c["w"][0]), "int": int(c["w"][0])}.get(c["one"], w.tolist() if c["lists"] else w)
    if c["one"] == "int":
        w = np.full(len(f), float(int(c["w"][0])))
    b = FTBeam.gaussian(f.tolist() if c["lists"] else f, arg, c["pol"], mapsize=c["mapsize"], npix=c["npix"])
    q = qaxis(c["npix"], c["mapsize"])
    W = np.radians(w)[:, None, None]
    want = W**2 * np.exp(-(np.pi * W)**2 * (q[:, None]**2 + q[None, :]**2))
    mid = c["npix"] // 2
    s = b.ft_beam[0, mid, mid] / want[0, mid, mid]
    assert s > 0 and b.ft_beam.shape == want.shape
    sc = want.max(axis=(1, 2), keepdims=True)
    assert np.all(np.abs(b.ft_beam / s - want) <= 1e-9 * sc), "Fourier beam differs from the analytic one by %g of its peak" % np.max(np.abs(b.ft_beam / s - want) / sc)
    assert np.array_equal(b.freq_array, f) and b.mapsize == c["mapsize"] and b.pol == POLSTR.get(c["pol"], c["pol"])
    assert raises(FTBeam.gaussian, f, np.append(w, 5.0), c["pol"]), "wrong number of widths accepted"
    assert raises(FTBeam.gaussian, f[:2], 5.0, c["pol"]), "two frequencies accepted"
    note.nt(c["one"] == "no" and len(set(w)) > 1)
    note.label(c["one"])


# ------------------------------------------------------------------------------------------------ spherical windows
@st.composite
def scase(draw):
    c = draw(wcase(3, 7, two=False))
    c.update(seed=draw(st.integers(0, 9999)), bls=draw(st.lists(st.sampled_from([10.0, 14.6, 25.3, 29.2, 50.1, 87.6]), min_size=1, max_size=4)), wts=draw(st.sampled_from([None, "list", "array"])), nk=draw(st.integers(2, 9)),
             zero=draw(st.booleans()), shape=draw(st.sampled_from([[4, 3], [6, 5], [2, 9]])), squeeze=draw(st.booleans()), lo=draw(st.sampled_from([0.0, 0.3, 0.7])), hi=draw(st.sampled_from([0.5, 1.0, 1.6])), scale=draw(st.sampled_from([1.0, 0.37, 12.0])))
    return c


def sph_model(cyl, kb, ktot, kmags, wts):
    e = edges(kb)
    if near(kmags, e) or near(ktot, e):
        raise Skip("a mode lies on a k bin edge")
    out, wk = np.zeros((len(kb), len(kb))), np.zeros(len(kb))
    row = lambda k: int(np.searchsorted(e, k, side="right")) - 1
    for m in range(len(kb)):
        tot, mean, ks = 0.0, 0.0, []
        for i in range(kmags.shape[0]):
            for j in range(kmags.shape[1]):
                if row(kmags[i, j]) == m:
                    tot += wts[i]
                    mean = mean + wts[i] * cyl[i, j]
                    ks.append(kmags[i, j])
        if not ks:
            continue
        wk[m] = np.mean(ks)
        if tot == 0:
            continue
        mean = mean / tot
        for n in range(len(kb)):
            cells = [mean[x, y] for x in range(ktot.shape[0]) for y in range(ktot.shape[1]) if row(ktot[x, y]) == n]
            if cells:
                out[m, n] = np.mean(cells)
        s = out[m].sum()
        if s > 0:
            out[m] /= s
    return out, wk


def spherical(c, note):
    """spherical windows are the weighted rebinning of the cylindrical ones, their rows sum to one or are zero"""
    w = uvwindow(c, ftbeams(c))
    r = rng_of(c["seed"], 5)
    bls = c["bls"]
    N, (np_, na) = c["band"]["nf"], c["shape"]
    cyl = r.uniform(0, 1, (len(bls), N, np_, na))
    if c["zero"]:
        cyl[:, r.integers(0, N)] = 0
        cyl[:, :, r.integers(0, np_)] = 0
    cyl /= np.maximum(cyl.sum(axis=(2, 3), keepdims=True), 1e-30)
    kmag = np.hypot(w.cosmo.bl_to_kperp(w.avg_z, little_h=c["h"]) * np.array(bls)[:, None], w.cosmo.tau_to_kpara(w.avg_z, little_h=c["h"]) * w.dly_array[None, :])
    kb = np.linspace(kmag.min() + c["lo"] * np.ptp(kmag) * 0.5, kmag.min() + (0.6 + c["hi"]) * np.ptp(kmag) + 1e-4, c["nk"])
    ktot = r.uniform(0.5 * kb[0], 1.2 * kb[-1], (np_, na))
    wts = None if c["wts"] is None else r.integers(1, 9, len(bls)) * 1.0
    arg = None if wts is None else (wts.tolist() if c["wts"] == "list" else wts)
    K = kb * w.kunits
    inp = cyl[0] if len(bls) == 1 and c["squeeze"] else cyl
    keep = inp.copy(), ktot.copy()
    sph, wk = w.cylindrical_to_spherical(inp, K, ktot, bls, arg)
    assert np.array_equal(inp, keep[0]) and np.array_equal(ktot, keep[1]), "inputs were changed"
    one = np.ones(len(bls)) if wts is None else wts
    want, kav = sph_model(cyl, kb, ktot, kmag, one)
    assert_close(sph, want, "spherical windows", 1e-9), assert_close(wk, kav, "mean k", 1e-9)
    s = sph.sum(axis=1)
    assert sph.min() >= 0 and np.all((np.abs(s - 1) < 1e-9) | (s == 0)), "rows sum to %s" % s
    # weights are relative, order of baselines is irrelevant
    if wts is not None:
        sph2, _ = w.cylindrical_to_spherical(inp, K, ktot, bls, wts * c["scale"])
        assert_close(sph2, sph, "rescaled weights", 1e-9)
    p = r.permutation(len(bls))
    if inp is cyl:
        sph3, _ = w.cylindrical_to_spherical(cyl[p], K, ktot, [bls[i] for i in p], None if wts is None else wts[p])
        assert_close(sph3, sph, "permuted baselines", 1e-9)
    assert raises(w.cylindrical_to_spherical, inp, kb, ktot, bls, arg), "bins without units accepted"
    assert raises(w.cylindrical_to_spherical, inp, kb * (units.Mpc**-1 if c["h"] else units.h / units.Mpc), ktot, bls, arg), "bins in the other units accepted"
    assert raises(w.cylindrical_to_spherical, inp, np.append(kb, kb[-1] * 3) * w.kunits, ktot, bls, arg), "unevenly spaced bins accepted"
    assert raises(w.cylindrical_to_spherical, inp, K, ktot[:-1], bls, arg), "wrong grid accepted"
    assert raises(w.cylindrical_to_spherical, inp, K, ktot, bls, np.ones(len(bls) + 1)), "wrong number of weights accepted"
    assert raises(w.cylindrical_to_spherical, cyl, K, ktot, bls + [33.0], None), "wrong number of baselines accepted"
    note.nt(len(set(bls)) > 1 and wts is not None and len(set(wts)) > 1)
    note.label("empty bins" if np.any(wk == 0) else "all filled", "%d baselines" % len(bls))


@st.composite
def fcase(draw):
    c = draw(wcase(3, 6))
    c["npix"] = 101
    c.update(bls=draw(st.lists(st.sampled_from([14.6, 29.2, 50.1, 87.6]), min_size=1, max_size=3, unique=True)), wts=draw(st.sampled_from([None, [1, 1, 1], [3, 1, 2], [0.5, 8.0, 1.0]])), bins=draw(st.sampled_from(["default", "perp", "both"])), nk=draw(st.integers(2, 8)),
             scalar=draw(st.booleans()), ret=draw(st.booleans()))
    return c


def full(c, note):
    """get_spherical_wf is get_cylindrical_wf for every baseline followed by cylindrical_to_spherical"""
    w = uvwindow(c, ftbeams(c))
    bls = c["bls"]
    wts = None if c["wts"] is None else c["wts"][:len(bls)]
    kp, ka = w.get_kperp_bins(bls), w.get_kpara_bins(w.freq_array)
    if len(kp) > 120:
        raise Skip("very many bins")
    kw = {}
    if c["bins"] != "default":
        kw["kperp_bins"] = kp = np.linspace(kp.value[0] * 0.7, kp.value[-1], max(3, len(kp) // 2)) * kp.unit
    if c["bins"] == "both":
        kw["kpara_bins"] = ka = np.linspace(ka.value[0] * 0.77, ka.value[-1] * 1.07, len(ka) + 1) * ka.unit
    ktot = np.sqrt(kp.value[:, None]**2 + ka.value**2)
    kb = np.linspace(0.3 * ktot.max(), 0.9 * ktot.max(), c["nk"]) * w.kunits
    arg = bls[0] if len(bls) == 1 and c["scalar"] else bls
    got = w.get_spherical_wf(kb, arg, bl_weights=wts, return_weighted_k=c["ret"], **kw)
    cyl = np.array([w.get_cylindrical_wf(b, kp, ka) for b in bls])
    want, wk = w.cylindrical_to_spherical(cyl, kb, ktot, bls, wts)
    if c["ret"]:
        assert_close(got[1], wk, "mean k", 1e-10)
        got = got[0]
    wclose(got, want, "spherical windows")
    s = got.sum(axis=1)
    assert np.all((np.abs(s - 1) < 1e-9) | (s == 0)), "rows sum to %s" % s
    assert raises(w.get_spherical_wf, kb.value, arg), "bins without units accepted"
    assert raises(w.get_spherical_wf, np.append(kb.value, kb.value[-1] * 4) * kb.unit, arg), "unevenly spaced bins accepted"
    assert raises(w.get_spherical_wf, kb, bls, bl_weights=[1.0] * (len(bls) + 1)), "wrong number of weights accepted"
    note.nt(len(bls) > 1 and want.any())
    note.label(c["bins"])


# ------------------------------------------------------------------------------------------------ routes and files
@st.composite
def rcase(draw):
    c = draw(wcase(5, 12))
    c["npix"] = draw(st.sampled_from([101, 121]))
    c["cut"] = sorted(draw(st.lists(st.integers(0, c["band"]["nf"]), min_size=2, max_size=2, unique=True)))
    c["wts"] = draw(st.sampled_from([None, [1.0, 1.0], [3.0, 0.5]]))
    c["bls"] = draw(st.lists(st.sampled_from([14.6, 29.2, 50.1]), min_size=1, max_size=2, unique=True))
    c["own"] = draw(st.sampled_from([None, None, "perp", "para", "both"]))
    c["under"] = draw(st.booleans())
    return c


def write_ft(path, b):
    with h5py.File(path, "w") as f:
        f.create_dataset("mapsize", data=np.array([b.mapsize]))
        f.create_dataset("freq", data=b.freq_array)
        f.create_dataset("FT_beam", data=b.ft_beam)


def eqbeam(a, b):
    return a.pol == b.pol and a.mapsize == b.mapsize and np.array_equal(a.freq_array, b.freq_array) and np.array_equal(a.ft_beam, b.ft_beam)


def routes(c, note):
    """beams from memory and from file, cut before or after, alone or in pairs give the same windows; written windows read back as computed"""
    bs = ftbeams(c)
    lo, hi = c["cut"]
    with scratch() as d:
        root = os.path.join(d, "ft_beam" if c["under"] else "ftbeam.v1")
        names = ["%s_%s.hdf5" % (root, b.pol) for b in bs]
        for n, b in zip(names, bs):
            write_ft(n, b)
        ref = []
        for n, b in zip(names, bs):
            r = FTBeam.from_file(n)
            assert eqbeam(r, b), "beam read from file differs"
            assert np.array_equal(FTBeam.get_bandwidth(n), b.freq_array)
            cut = FTBeam.from_file(n, spw_range=(lo, hi))
            r.update_spw((lo, hi))
            mem = copy.deepcopy(b)
            mem.update_spw((lo, hi))
            plain = FTBeam(b.ft_beam[lo:hi], b.pol, b.freq_array[lo:hi], b.mapsize)
            assert eqbeam(cut, plain) and eqbeam(r, plain) and eqbeam(mem, plain), "sub-bands differ"
            ref.append((plain, cut))
            for bad in [(hi, lo), (lo, lo), (-1, hi), (lo, b.freq_array.size + 1), (lo, hi, hi), (hi,)]:
                assert not check_spw_range(bad, b.freq_array)
                assert raises(FTBeam.from_file, n, bad), "range %r accepted" % (bad,)
                assert raises(copy.deepcopy(b).update_spw, bad), "range %r accepted" % (bad,)
            assert check_spw_range((lo, hi), b.freq_array)
        assert raises(FTBeam.from_file, os.path.join(d, "absent_xx.hdf5")) and raises(FTBeam.get_bandwidth, os.path.join(d, "absent_xx.hdf5"))
        if hi - lo < 3:
            note.label("narrow")
            return
        W = [uvwindow(c, [x[i] for x in ref]) for i in (0, 1)]
        if len(bs) == 1:
            W += [uvwindow(c, [ref[0][0], ref[0][0]]), uvwindow(c, [ref[0][0], ref[0][1]])]
        else:
            assert raises(uvwindow, c, [bs[0], ref[1][0]]) or hi - lo == len(bs[0].freq_array), "beams of different bands accepted"
        wfs = [w.get_cylindrical_wf(c["bls"][0]) for w in W]
        for x in wfs[1:]:
            wclose(x, wfs[0], "windows by another route")
        # files of windows
        w, bls = W[0], c["bls"]
        wts = None if c["wts"] is None else c["wts"][:len(bls)]
        out = os.path.join(d, "wf.h5")
        kp, ka = w.get_kperp_bins(bls), w.get_kpara_bins(w.freq_array)
        # default bins are evenly spaced, the same whatever the order of the baselines, and reach the longest one
        k2 = w.get_kperp_bins(bls[::-1])
        assert_close(k2.value, kp.value, "bins of the reversed list", 1e-12)
        kmax = max(bls) * w.cosmo.bl_to_kperp(w.avg_z, little_h=c["h"])
        assert kp.value[0] > 0 and np.allclose(np.diff(kp.value), kp.value[1] - kp.value[0], rtol=1e-8) and kp.value[-1] > kmax, "bins up to %s for %s" % (kp.value[-1], kmax)
        kw = {}
        if c.get("own") in ("perp", "both"):
            kw["kperp_bins"] = kp = np.linspace(kp.value[0] * 0.7, kp.value[-1], max(3, len(kp) // 2)) * kp.unit
        if c.get("own") in ("para", "both"):
            kw["kpara_bins"] = ka = np.linspace(ka.value[0] * 0.77, ka.value[-1] * 1.07, len(ka) + 1) * ka.unit
        w.run_and_write(out, bls, bl_weights=wts, **kw)
        one = [1.0] * len(bls) if wts is None else wts
        with h5py.File(out, "r") as f:
            for k, v in (("kperp_bins", kp.value), ("kpara_bins", ka.value), ("bl_lens", bls), ("bl_weights", one), ("dly_array", w.dly_array)):
                assert_close(f[k][...], np.array(v, float), k, 1e-12)
            want = np.array([w.get_cylindrical_wf(b, kp, ka) * x for b, x in zip(bls, one)])
            wclose(f["cyl_wf"][...], want, "stored windows")
            assert f.attrs["nfreqs"] == w.Nfreqs and np.isclose(f.attrs["avg_z"], w.avg_z) and f.attrs["avg_nu"] == w.avg_nu and bool(f.attrs["little_h"]) == c["h"]
            assert str(f.attrs["taper"]) == (c["taper"] or "none")
            num = {v: k for k, v in POLSTR.items()}
            assert int(f.attrs["polpair"]) == (20 + num[w.pols[0]]) * 100 + 20 + num[w.pols[1]]
        before = open(out, "rb").read()
        assert raises(w.run_and_write, out, bls[:1]), "an existing file was overwritten"
        assert open(out, "rb").read() == before
        w.run_and_write(out, bls[:1], clobber=True)
        with h5py.File(out, "r") as f:
            assert f["cyl_wf"].shape[0] == 1
    note.nt(hi - lo < len(bs[0].freq_array))
    note.label("%d beams" % len(bs))


# ------------------------------------------------------------------------------------------------ windows of a UVPSpec
@st.composite
def ucase(draw):
    sp = draw(uvps.spec(max_spw=2, max_t=2, max_pol=2, folded=False, cov=False, stats=[], wf="none", rparams=False, labels=1, flags=0, eqnd=True, pols=[-5, -6, 1, 2], max_ant=6))
    sp["blps"] = draw(st.lists(st.sampled_from([[[0, 1], [0, 1]], [[0, 1], [1, 2]], [[1, 2], [3, 4]], [[0, 2], [2, 4]], [[0, 30], [1, 31]], [[0, 30], [0, 30]], [[2, 0], [4, 2]], [[0, 3], [0, 3]]]), min_size=1, max_size=4, unique_by=str))
    return dict(sp=sp, how=draw(st.sampled_from(["object", "file", "file"])), beams=draw(st.lists(beam(), min_size=4, max_size=4)), pad=draw(st.sampled_from([[0, 0], [2, 0], [0, 3], [4, 1]])), taper=draw(st.sampled_from(["none", "hann", "blackman-harris"])),
                units=draw(st.sampled_from(["h^-3 Mpc^3", "Mpc^3"])), inplace=draw(st.booleans()), sub=draw(st.booleans()))


def of_uvpspec(c, note):
    """every row of a UVPSpec gets the windows of its baseline length, polarization pair and spectral window, whichever way the beam is given"""
    sp = c["sp"]
    u = uvps.build(sp)
    u.taper, u.norm_units = c["taper"], c["units"]
    s0 = uvps.snap(u)
    lo, hi = u.freq_array.min(), u.freq_array.max()
    nf = int(round((hi - lo) / CHAN)) + 1 + sum(c["pad"])
    b = dict(f0=lo - c["pad"][0] * CHAN, df=CHAN, nf=nf)
    npix, ms = 81, 1.0
    polnames = sorted({POLSTR[p] for pp in sp["pps"] for p in pp})
    bs = {n: FTBeam(ftdata(c["beams"][i if c["how"] == "file" else 0], b, npix, ms), n, freqs(b), ms) for i, n in enumerate(polnames)}
    with scratch() as d:
        if c["how"] == "file":
            arg = os.path.join(d, "FT_beam")
            for n, x in bs.items():
                write_ft("%s_%s.hdf5" % (arg, n), x)
        else:
            arg = bs[polnames[0]]
        kw = {}
        spws = list(range(u.Nspws))
        if c["sub"] and u.Nspws > 1:
            spws = [u.Nspws - 1]
            kw["spw_array"] = spws
        if not c["inplace"] or kw:
            kper, kpar, wfs = u.get_exact_window_functions(ftbeam=arg, inplace=False, **kw)
            uvps.same(u, s0)
        else:
            u.get_exact_window_functions(ftbeam=arg)
            kper, kpar, wfs = u.window_function_kperp, u.window_function_kpara, u.window_function_array
            assert u.exact_windows
            u.check()
            uvps.same(u, s0, ignore=("history", "exact_windows", "window_function_array", "window_function_kperp", "window_function_kpara"))
        assert sorted(wfs) == spws
        groups, lens, _ = u.get_red_blpairs()
        length = {int(bp): ln for g, ln in zip(groups, lens) for bp in (x if isinstance(x, (int, np.integer)) else uvps.blpair_int(x) for x in g)}
        assert set(length) == set(int(x) for x in u.blpair_array), "a redundant baseline-pair has no group"
        cosmo = u.cosmo if sp["cosmo"] >= 0 else conversions.Cosmo_Conversions()
        for spw in spws:
            f = u.freq_array[u.spw_freq_array == spw]
            i0 = int(round((f[0] - b["f0"]) / CHAN))
            assert wfs[spw].shape[:2] == (u.Nbltpairs, len(f)) and wfs[spw].shape[-1] == u.Npols
            for ip, pp in enumerate(sp["pps"]):
                pair = [bs[POLSTR[p]] if c["how"] == "file" else arg for p in pp]
                pair = [FTBeam(x.ft_beam[i0:i0 + len(f)], x.pol, x.freq_array[i0:i0 + len(f)], ms) for x in pair]
                w = UVWindow(pair, taper=c["taper"], little_h="h^-3" in c["units"], cosmo=cosmo)
                kp, ka = w.get_kperp_bins(lens), w.get_kpara_bins(f)
                assert_close(kper[spw][:, ip], kp.value, "kperp bins", 1e-12), assert_close(kpar[spw][:, ip], ka.value, "kpara bins", 1e-12)
                memo = {}
                for row, bp in enumerate(u.blpair_array):
                    ln = length[int(bp)]
                    true = np.mean([np.linalg.norm(uvps.blvec(*x)) for x in unpack(int(bp))])
                    assert abs(ln - true) <= 1.0, "length %g of a baseline-pair of %g m" % (ln, true)
                    if ln not in memo:
                        memo[ln] = w.get_cylindrical_wf(ln, kp, ka)
                    wclose(wfs[spw][row][..., ip], memo[ln], "window functions of spw %d, %s, %s" % (spw, bp, pp))
    note.nt(any(p[0] != p[1] for p in sp["pps"]) and c["how"] == "file" or len(set(length.values())) > 1)
    note.label(c["how"], "mixed" if any(p[0] != p[1] for p in sp["pps"]) else "same")


def unpack(bp):
    s = [int(bp // 1000**k % 1000) - 100 for k in (3, 2, 1, 0)]
    return (s[0], s[1]), (s[2], s[3])


# ------------------------------------------------------------------------------------------------ windows asked for at estimation
@st.composite
def ecase(draw):
    d = draw(dsets.dspec(nd=2, nf=(4, 7), nt=(1, 2), max_bl=3, npol=2, pols=["xx", "yy", "pI", "pQ"] if draw(st.booleans()) else ["pI", "pQ"], units="mK", flags="none", wgts=False, df=[0.12207, 0.2]))
    d["pols"] = [p for p in d["pols"] if (p[0] == "p") == (d["pols"][0][0] == "p")]
    n = d["nf"]
    return dict(d=d, spws=draw(st.sampled_from([[[0, n]], [[1, n]], [[0, 3], [n - 3, n]]])), how=draw(st.sampled_from(["object", "file", "file"])), beams=draw(st.lists(beam(), min_size=2, max_size=2)), pad=draw(st.integers(0, 2)), taper=draw(st.sampled_from(["none", "hann", "bh"])),
                lh=draw(st.booleans()), sw=draw(st.booleans()), cosmo=draw(st.integers(0, 2)), beamed=draw(st.booleans()), mixed=draw(st.booleans()))


def estimated(c, note):
    """a spectrum estimated with exact windows is the spectrum estimated without, given its exact windows afterwards"""
    sp = c["d"]
    bls = [tuple(b) for b in sp["bls"]]
    fr = dsets.build_one(sp, 0).freq_array
    df = sp["df"] * 1e6
    b = dict(f0=fr[0] - c["pad"] * df, df=df, nf=sp["nf"] + 2 * c["pad"])
    bs = [FTBeam(ftdata(c["beams"][i if c["how"] == "file" else 0], b, 81, 1.0), p, freqs(b), 1.0) for i, p in enumerate(sp["pols"])]
    from pv import beams as pb
    from hera_pspec import PSpecData
    prim = pb.PSpecBeamGauss(0.2, pb.BF, cosmo=conversions.Cosmo_Conversions(**uvps.COSMOS[c["cosmo"]])) if c["beamed"] else None
    pols = [(p, p) for p in sp["pols"]]
    if c["mixed"] and prim is None and len(sp["pols"]) > 1:
        pols.append(tuple(sp["pols"]))
    kw = dict(taper=c["taper"], spw_ranges=[tuple(x) for x in c["spws"]], little_h=c["lh"], verbose=False)
    with scratch() as d:
        arg = os.path.join(d, "FT_beam") if c["how"] == "file" else bs[0]
        for x in bs:
            write_ft("%s_%s.hdf5" % (os.path.join(d, "FT_beam"), x.pol), x)
        out = []
        for ex in (True, False):
            psd = PSpecData(dsets.build(sp), beam=prim)
            out.append(psd.pspec(bls, bls, (0, 1), pols, **kw, **(dict(exact_windows=True, ftbeam=arg, store_window=c["sw"]) if ex else dict(store_window=False))))
        u, ref = out
        assert u.exact_windows and not ref.exact_windows
        ref.get_exact_window_functions(ftbeam=arg)
    uvps.same(uvps.snap(u), uvps.snap(ref), tol=1e-10, ignore=("history",))
    u.check()
    note.nt(len(bls) > 1 or len(pols) > 1 or len(c["spws"]) > 1)
    note.label(c["how"], "spws %d" % len(c["spws"]), "beam" if prim else "")


LAWS = [
    Law("estimated", ecase(), estimated, quick=40, shards=1, weight=1),
    Law("cylindrical", ccase(), cylindrical, quick=150, shards=3, weight=4),
    Law("gaussian", gcase(), gaussian, quick=120, shards=1, weight=1),
    Law("spherical", scase(), spherical, quick=150, shards=1, weight=2),
    Law("composition", fcase(), full, quick=60, shards=1, weight=2),
    Law("routes", rcase(), routes, quick=80, shards=1, weight=2),
    Law("uvpspec", ucase(), of_uvpspec, quick=60, shards=1, weight=2),
]
