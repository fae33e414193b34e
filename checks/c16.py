"""C16: noise power spectra, error bars and system temperatures follow the radiometer formula."""
import copy
import os
import warnings

import numpy as np
from hypothesis import strategies as st

from hera_pspec import PSpecData, noise, utils
from hera_pspec.conversions import Cosmo_Conversions
from pv import beams, dsets, uvps
from pv.core import Law, Skip
from pv.dsets import NUMPOL, POLNUM
from pv.scratch import scratch
from pv.uvps import COSMOS, assert_close, blpair_int, tup

RULE = ("Cases are generated radiometer numbers, UVPSpec objects with system temperatures, or autocorrelations with power spectra made from the same data; "
        "non-trivial when at least two different finite, non-zero noise levels are compared.")
ASSUMPTIONS = ["noise scalars are compared to 0.3 per cent (the code integrates on a grid)", "times at equal LST distance from two unflagged neighbours may use either", "the first polarization of a pair decides its system temperature (documented in the code)"]

warnings.simplefilter("ignore")


def radiometer(scalar, tsys, tint, ninc=None, k=None, component="real", ncoh=1):
    p = scalar * (tsys * 1e3) ** 2 / (tint * ncoh)
    if ninc is not None:
        p = p / np.sqrt(ninc)
    if component != "abs":
        p = p / np.sqrt(2)
    return p if k is None else p * np.asarray(k) ** 3 / (2 * np.pi ** 2)


# ------------------------------------------------------------------------------------------------ closed form
@st.composite
def closed_case(draw):
    f = lambda a, b: draw(st.floats(a, b))
    return dict(scalar=f(1e-3, 1e10), tsys=f(0, 1e4), tint=f(1e-2, 1e5), ncoh=draw(st.integers(1, 50)), ninc=draw(st.one_of(st.none(), st.integers(1, 10000), st.floats(0.5, 1e4))), form=draw(st.sampled_from(["Pk", "DelSq"])),
                k=draw(st.lists(st.floats(0, 5), min_size=1, max_size=6)), comp=draw(st.sampled_from(["abs", "real", "imag"])), arr=draw(st.booleans()), cosmo=draw(st.integers(0, 2)), fw=draw(st.sampled_from([0.1, 0.15, 0.2])),
                f0=f(100, 180), df=draw(st.sampled_from([0.1, 0.3, 1.0])), n=draw(st.integers(3, 20)), lh=draw(st.booleans()), pol=draw(st.sampled_from(["pI", "xx", "yy"])), how=draw(st.sampled_from(["obj", "dict", "str", "beam"])))


def closed(c, note):
    """calc_P_N and Sensitivity.calc_P_N are the radiometer formula with the noise scalar of the beam and cosmology"""
    ts = np.array([c["tsys"], 2 * c["tsys"] + 1]) if c["arr"] else c["tsys"]
    k = np.array(c["k"]) if c["form"] == "DelSq" else None
    if c["arr"] and k is not None:
        ts = ts[:, None]
    kw = dict(Ncoherent=c["ncoh"], form=c["form"], k=k, component=c["comp"])
    if c["ninc"] is not None:
        kw["Nincoherent"] = c["ninc"]
    want = radiometer(c["scalar"], ts, c["tint"], c["ninc"], k, c["comp"], c["ncoh"])
    assert_close(noise.calc_P_N(c["scalar"], ts, c["tint"], **kw), want, "calc_P_N", 1e-10)
    if c["form"] == "DelSq":
        assert uvps.raises(noise.calc_P_N, c["scalar"], ts, c["tint"], form="DelSq"), "Delta^2 without k accepted"
    assert uvps.raises(noise.calc_P_N, c["scalar"], ts, c["tint"], form="delsq")
    cosmo = Cosmo_Conversions(**COSMOS[c["cosmo"]])
    if c["how"] == "beam":
        s = noise.Sensitivity(beam=beams.PSpecBeamGauss(c["fw"], beams.BF, cosmo=cosmo))
    else:
        arg = {"obj": cosmo, "dict": cosmo.get_params(), "str": str(cosmo.get_params())}[c["how"]]
        s = noise.Sensitivity(cosmo=arg, beam=beams.PSpecBeamGauss(c["fw"], beams.BF))
    assert uvps.raises(s.calc_P_N, ts, c["tint"]), "calc_P_N without a scalar accepted"
    fr = c["f0"] * 1e6 + c["df"] * 1e6 * np.arange(c["n"])
    s.calc_scalar(fr, c["pol"], num_steps=2000, little_h=c["lh"])
    r = 2 * np.log(2) / (np.pi * c["fw"] ** 2)
    sc = scalar_of(cosmo, r, fr[0], fr[-1], c["n"], c["lh"])
    assert abs(s.scalar / sc - 1) < 3e-3, "scalar %s, expected %s" % (s.scalar, sc)
    assert_close(s.calc_P_N(ts, c["tint"], **kw), radiometer(s.scalar, ts, c["tint"], c["ninc"], k, c["comp"], c["ncoh"]), "Sensitivity.calc_P_N", 1e-10)
    note.nt(c["tsys"] > 0)
    note.label(c["form"], c["comp"], c["how"])


def scalar_of(cosmo, ratio, f0, f1, n, lh):
    """noise scalar of n channels between f0 and f1 (compute_pspec_scalar spaces them with linspace without the end point)"""
    df = (f1 - f0) / n
    return beams.scalar(cosmo, lambda f: np.full(np.shape(f), ratio), f0, df, n, little_h=lh, noise=True, num=2001)


# ------------------------------------------------------------------------------------------------ generate_noise_spectra
@st.composite
def gen_case(draw):
    sp = draw(uvps.spec(beam=True, cosmo=draw(st.integers(0, 2)), stats=[], cov=False, wf="none", same_pol=draw(st.booleans()), ragged=draw(st.sampled_from([False, False, True])), flags=draw(st.sampled_from([0, 0, 0.3]))))
    return dict(sp=sp, spw=draw(st.integers(0, 2)), pol=draw(st.integers(0, 2)), polform=draw(st.sampled_from(["tuple", "int", "strs", "str"])), ts=draw(st.sampled_from(["float", "int", "array", "dictf", "dicta", "dictmix"])),
                sub=draw(st.sampled_from([None, "tup", "int"])), form=draw(st.sampled_from(["Pk", "DelSq"])), comp=draw(st.sampled_from(["abs", "real", "imag"])), lh=draw(st.booleans()), given=draw(st.booleans()), tseed=draw(st.integers(0, 99)))


def smooth_beam(u, sp):
    """beam integrals smooth in frequency and different for each polarization pair"""
    x = u.beam_freqs[:, None] / 110e6
    j = np.arange(u.Npols)[None]
    u.OmegaP, u.OmegaPP = 0.05 * (1 + 0.21 * j) * x ** -1.5, 0.02 * (1 + 0.05 * j * j) * x ** -2.0
    return lambda f, k: 0.02 * (1 + 0.05 * k * k) * (f / 110e6) ** -2.0 / (0.05 * (1 + 0.21 * k) * (f / 110e6) ** -1.5) ** 2


def noise_scalar(u, ratio, k, spw, lh):
    fr = u.freq_array[u.spw_freq_array == spw]
    return beams.scalar(u.cosmo, lambda f: ratio(f, k), fr[0], fr[1] - fr[0], len(fr), little_h=lh, noise=True, num=2001)


def generate(c, note):
    """each row of generate_noise_spectra is the formula with that row's integration time, samples, Tsys and k"""
    sp = c["sp"]
    u = uvps.build(sp)
    ratio = smooth_beam(u, sp)
    spw, k = c["spw"] % u.Nspws, c["pol"] % u.Npols
    pp = sp["pps"][k]
    form = c["polform"]
    if form == "str" and pp[0] != pp[1]:
        form = "strs"
    if form in ("str", "strs") and any(p not in NUMPOL for p in pp):
        form = "tuple"
    pol = {"tuple": tuple(pp), "int": int(u.polpair_array[k]), "strs": tuple(NUMPOL.get(p) for p in pp), "str": NUMPOL.get(pp[0])}[form]
    all_blp = list(dict.fromkeys(u.blpair_array.tolist()))
    byint = {blpair_int(b): tup(b) for b in sp["blps"]}
    chosen = all_blp if c["sub"] is None else all_blp[::-1][:max(1, len(all_blp) - 1)]
    arg = None if c["sub"] is None else [byint[b] if c["sub"] == "tup" else b for b in chosen]
    r = uvps.rng_of(c["tseed"], 4)
    nrows = {b: int(np.sum(u.blpair_array == b)) for b in all_blp}
    if c["ts"] in ("array", "dicta", "dictmix") and any(n != u.Ntpairs for n in nrows.values()):
        raise Skip("an array of Tsys for baseline-pairs with other times")
    base = r.uniform(100, 500, u.Ntpairs)
    if c["ts"] in ("float", "int"):
        T = float(base[0]) if c["ts"] == "float" else int(base[0])
        per = {b: np.full(nrows[b], T) for b in all_blp}
    elif c["ts"] == "array":
        T = base
        per = {b: base for b in all_blp}
    else:
        T, per = {}, {}
        for i, b in enumerate(all_blp):
            a = r.uniform(100, 500, u.Ntpairs)
            if c["ts"] == "dictf" or (c["ts"] == "dictmix" and i % 2):
                T[b] = float(a[0])
                per[b] = np.full(nrows[b], a[0])
            else:
                T[b] = per[b] = a
    sc = noise_scalar(u, ratio, k, spw, c["lh"])
    kw = dict(little_h=c["lh"], form=c["form"], component=c["comp"])
    if c["given"]:
        sc = kw["scalar"] = 1234.5
    snap, keep = uvps.snap(u), copy.deepcopy(T)
    with np.errstate(all="ignore"):
        got = u.generate_noise_spectra(spw, pol, T, blpairs=arg, **kw)
    uvps.same(snap, u)
    assert set(got) == set(chosen), "baseline-pairs %s, asked for %s" % (list(got), chosen)
    for b in T if isinstance(T, dict) else []:
        assert np.array_equal(T[b], keep[b])
    z = u.cosmo.f2z(np.mean(u.freq_array[u.spw_freq_array == spw]))
    dly = u.get_dlys(spw)
    vals = []
    for b in chosen:
        rows = np.where(u.blpair_array == b)[0]
        assert got[b].shape == (len(rows), len(dly)), "shape %s" % (got[b].shape,)
        for j, i in enumerate(rows):
            kk = None
            if c["form"] == "DelSq":
                bl1, bl2 = byint[b]
                sep = (np.linalg.norm(uvps.blvec(*bl1)) + np.linalg.norm(uvps.blvec(*bl2))) / 2
                kk = np.sqrt((sep * u.cosmo.bl_to_kperp(z, little_h=c["lh"])) ** 2 + (dly * u.cosmo.tau_to_kpara(z, little_h=c["lh"])) ** 2)
            with np.errstate(all="ignore"):
                want = radiometer(sc, per[b][j], u.integration_array[spw][i, k], u.nsample_array[spw][i, k], kk, c["comp"]) * np.ones(len(dly))
            g, fin = got[b][j], np.isfinite(want)
            assert np.array_equal(np.isfinite(g[kk != 0] if kk is not None else g), fin[kk != 0] if kk is not None else fin), "baseline-pair %s time %d: %s, expected %s" % (byint[b], j, g, want)
            assert np.allclose(g[fin], want[fin], rtol=1e-9 if c["given"] else 3e-3, atol=1e-12 * np.max(np.abs(want[fin]), initial=0)), "baseline-pair %s time %d: %s, expected %s" % (byint[b], j, g, want)
            vals += [v for v in np.atleast_1d(want) if np.isfinite(v)]
    note.nt(len(set(np.round(vals, 6))) > 1)
    note.label(c["ts"], c["form"], form, "folded" if u.folded else "", "ragged" if len(set(nrows.values())) > 1 else "", "subset" if arg else "")


# ------------------------------------------------------------------------------------------------ system temperatures
@st.composite
def tsys_case(draw):
    stokes = draw(st.sampled_from([False, False, True]))
    d = draw(dsets.dspec(nd=1, nf=(3, 8), nt=(1, 4), max_bl=3, npol=4, pols=["xx", "yy", "xy", "yx"] if not stokes else ["pI", "pQ", "pU", "pV"], autos=True, units="Jy", wgts=False))
    return dict(d=d, beam=draw(st.sampled_from(["flat", "flat", "gauss", "uvp"])), bseed=draw(st.integers(0, 3)), out=draw(st.booleans()), cosmo=draw(st.integers(0, 2)), pporder=draw(st.integers(0, 5)))


def rj(freqs, omega):
    """Rayleigh-Jeans factor from Jy to mK"""
    lam = 299792458.0 / np.asarray(freqs)
    return 1e3 * 1e-26 * lam ** 2 / (2 * 1.380649e-23 * omega)


def flat_op(pol, f):
    return 0.05 * (1 + (sum(map(ord, pol)) % 7) / 10) * (f / 150e6) ** -1.5


def tsys(c, note):
    """uvd_to_Tsys: autocorrelations times the Jy-to-K factor of their own polarization, other data unchanged"""
    sp = c["d"]
    u = dsets.build_one(sp, 0)
    stokes = sp["pols"][0].startswith("p")
    want_pols = [p for p in sp["pols"] if p in ("xx", "yy", "pI")]
    cosmo = Cosmo_Conversions(**COSMOS[c["cosmo"]])
    fr = u.freq_array
    flat = beams.FlatBeam(c["bseed"], cosmo=cosmo)
    op = {p: flat_op(p, fr) for p in want_pols}
    beam = flat
    if c["beam"] == "gauss":
        fw = 0.1 + 0.02 * c["bseed"]
        beam = beams.PSpecBeamGauss(fw, beams.BF, cosmo=cosmo)
        op = {p: np.full(len(fr), np.pi * fw * fw / (4 * np.log(2))) for p in want_pols}
    if c["beam"] == "uvp":
        pps = [["xx", "xx"], ["yy", "yy"], ["pI", "pI"]]
        pps = [pps[i] for i in [(0, 1, 2), (0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0)][c["pporder"]]]
        s = dict(seed=1, spws=[dict(f0=0, nf=3, nd=3)], blps=[[[0, 1], [0, 1]]], nt=1, pps=[[POLNUM[a], POLNUM[b]] for a, b in pps], order="bl", dt=10.7, t0=2458116.3, lst0=0.3, off=0, folded=False, cov=False, stats=[], wf="none", flags=0, drop=0,
                 beam=True, cosmo=c["cosmo"], labels=1, rp=False, sym=True)
        beam = uvps.build(s)
        beam.beam_freqs = beams.BF
        beam.OmegaP = np.array([flat_op(a, beams.BF) for a, _ in pps]).T.copy()
        beam.OmegaPP = 0.5 * beam.OmegaP
    before = dsets.dsnap(u)
    if not want_pols:
        raise Skip("no autocorrelation polarization")
    with scratch() as tmp:
        path = os.path.join(tmp, "t.uvh5") if c["out"] else None
        T = utils.uvd_to_Tsys(u, beam, Tsys_outfile=path)
        if path:
            from pyuvdata import UVData
            back = UVData.from_file(path)
            assert np.allclose(back.data_array, T.data_array, rtol=1e-6), "the written file differs"
    after = dsets.dsnap(u)
    for k in before:
        assert np.array_equal(before[k], after[k]) if isinstance(before[k], np.ndarray) else before[k] == after[k], "%s of the input changed" % k
    assert sorted(NUMPOL[p] for p in T.polarization_array) == sorted(want_pols), "polarizations %s" % T.polarization_array
    ants = sorted({a for bl in sp["bls"] for a in bl})
    assert sorted(set(T.get_antpairs())) == [(a, a) for a in ants], "baselines %s" % T.get_antpairs()
    for a in ants:
        for p in want_pols:
            x = dsets.vis(u, (a, a), POLNUM[p])
            assert np.allclose(dsets.vis(T, (a, a), POLNUM[p]), x * rj(fr, op[p])[:, None] / 1e3, rtol=1e-3), "Tsys of antenna %d %s is not the data times the factor of that polarization" % (a, p)
            for k in ("flag_array", "nsample_array"):
                assert np.array_equal(dsets.vis(T, (a, a), POLNUM[p], k), dsets.vis(u, (a, a), POLNUM[p], k)), k
    note.nt(len(want_pols) > 1 or stokes or c["beam"] == "uvp")
    note.label(c["beam"], "stokes" if stokes else "linear", "order " + "".join(want_pols), "file" if c["out"] else "")


# ------------------------------------------------------------------------------------------------ error bars
@st.composite
def err_case(draw):
    stokes = draw(st.sampled_from([False, False, True]))
    d = draw(dsets.dspec(nd=2, nf=(4, 8), nt=(1, 5), max_bl=3, npol=2, pols=["xx", "yy"] if not stokes else ["pI", "pQ"], autos=True, units="mK", wgts=False, flags="none"))
    if stokes and "pI" not in d["pols"]:
        d["pols"] = ["pI"] + d["pols"][:1]
    d["nt"] = draw(st.sampled_from([3, 4, 2, 5, 1]))
    n = d["nf"]
    return dict(d=d, spws=[[0, n]] if draw(st.booleans()) else [[1, n], [0, n - 1]], dd=draw(st.sampled_from([[0, 0], [0, 1]])), taper=draw(st.sampled_from(["none", "hann", "bh"])), corr=draw(st.booleans()), lh=draw(st.booleans()),
                err=draw(st.sampled_from(["P_N", "P_SN", "both", "both", "precomp", "custom"])), fl=draw(st.sampled_from(["none", "none", "time", "chan", "pix", "mix", "few"])), fseed=draw(st.integers(0, 999)), order=draw(st.sampled_from(["as", "bl", "mix"])),
                post=draw(st.sampled_from([None, None, "fold", "select", "ragged"])), leak=draw(st.sampled_from([0.01, 1, 100])))


def autos_of(c):
    """system temperatures (Kelvin) for all times of both datasets, with flags"""
    sp = c["d"]
    uvs = dsets.build(sp)
    ants = sorted({a for bl in sp["bls"] for a in bl})
    au = [u.select(bls=[(a, a) for a in ants], inplace=False) for u in dsets.build(dict(sp, units="Jy"))]
    T = au[0]
    if c["dd"] == [0, 1] and not np.array_equal(np.unique(au[0].time_array), np.unique(au[1].time_array)):
        T = au[0].__add__(au[1])
    r = uvps.rng_of(c["fseed"], 12)
    n = T.Nblts
    T.data_array = r.uniform(20, 300, (n, T.Nfreqs, T.Npols)) + 0j
    kind = c["fl"]
    f = np.zeros(T.data_array.shape, bool)
    ta = np.unique(T.time_array)
    ti = np.searchsorted(ta, T.time_array)
    if kind in ("time", "mix"):
        f |= (r.random(len(ta)) < 0.4)[ti][:, None, None]
    if kind == "few":
        keep = r.integers(0, len(ta))
        f |= (ti != keep)[:, None, None]
    if kind in ("chan", "mix"):
        f |= (r.random(T.Nfreqs) < 0.3)[None, :, None]
    if kind in ("pix",):
        f |= r.random(f.shape) < 0.3
    T.flag_array = f
    if c["order"] != "as":
        key = [(a, t) if c["order"] == "bl" else (t, int(r.integers(0, 99)), a) for a, t in zip(T.ant_1_array.tolist(), T.time_array.tolist())]
        T.reorder_blts(order=np.array(sorted(range(n), key=lambda i: key[i])))
    return uvs, T


def expected_tsys(T, c, bp, t1s, t2s, l1s, l2s, pol, sl, taper):
    """sets of allowed Tsys values for each row"""
    def one(bl, ts):
        def get(a, what):
            m = np.where((T.ant_1_array == a) & (T.ant_2_array == a))[0]
            rows = [m[np.argmin(np.abs(T.time_array[m] - t))] for t in ts]
            k = list(T.polarization_array).index(pol)
            return np.array([getattr(T, what)[i][sl, k] for i in rows]), T.lst_array[rows]
        v = np.sqrt(get(bl[0], "data_array")[0].real * get(bl[1], "data_array")[0].real)
        f = get(bl[0], "flag_array")[0] | get(bl[1], "flag_array")[0]
        w = ~f * taper
        with np.errstate(all="ignore"):
            av = (v * w).sum(1) / w.sum(1)
        return av, f, get(bl[0], "data_array")[1]

    a1, f1, lst1 = one(bp[0], t1s)
    a2, f2, lst2 = one(bp[1], t2s)
    n = len(t1s)
    if (f1 | f2).all():
        return [[np.inf]] * n
    # a time counts when any channel is unflagged; a taper that vanishes on all of them gives no temperature
    for f in (f1, f2):
        if ((~f * taper).sum(1) < 1e-3 * taper.sum())[~f.all(1)].any():
            raise Skip("unflagged channels carry no taper weight")

    def at(av, f, lst, want):
        ok = np.where(~f.all(1))[0]
        d = np.abs(lst[ok][None] - want[:, None])
        return [[av[i] for i, x in zip(ok, row) if x <= row.min() + 1e-6] for row in d]
    c1, c2 = (~f1.all(1)).sum(), (~f2.all(1)).sum()
    if c1 > 1 and c2 > 1:
        x, y = at(a1, f1, lst1, l1s), at(a2, f2, lst2, l2s)
        return [[np.sqrt(p * q) for p in u for q in v] for u, v in zip(x, y)]
    if c1 > 1 or c2 > 1:
        # one baseline has a single time, the other several: any of its unflagged times
        return [[np.sqrt(p * q) for p in a1[~f1.all(1)] for q in a2[~f2.all(1)]]] * n
    return [[np.sqrt(a1[~f1.all(1)][0] * a2[~f2.all(1)][0])]] * n


def noise_error(c, note):
    """uvp_noise_error stores P_N and P_SN of each row, window and polarization from its own autocorrelations"""
    sp = c["d"]
    uvs, T = autos_of(c)
    data = copy.deepcopy(uvs)
    for d in data:
        d.data_array = d.data_array * c["leak"]
    bls = [tuple(b) for b in sp["bls"]]
    pols = [(p, p) for p in sp["pols"]]
    psd = PSpecData(data, [None, None])
    u = psd.pspec(bls + [bls[0]], bls + [bls[-1]] if len(bls) > 1 else bls + [bls[0][::-1]], tuple(c["dd"]), pols, input_data_weight="identity", norm="I", taper=c["taper"], spw_ranges=[tuple(s) for s in c["spws"]], little_h=c["lh"], verbose=False)
    u.cosmo = cosmo = Cosmo_Conversions(**COSMOS[c["fseed"] % 3])
    u.beam_freqs = np.linspace(95e6, 195e6, 9)
    # different for each polarization pair, smooth in frequency
    op = lambda f, k: 0.05 * (1 + 0.21 * k) * (f / 150e6) ** -1.5
    u.OmegaP = np.array([op(u.beam_freqs, k) for k in range(u.Npols)]).T.copy()
    u.OmegaPP = 0.5 * u.OmegaP
    r = uvps.rng_of(c["fseed"], 13)
    for s in u.spw_array:
        u.data_array[s] = u.data_array[s] * (1 if c["fseed"] % 2 else -1)
        u.nsample_array[s] = u.nsample_array[s] * r.uniform(1, 3, u.nsample_array[s].shape)
    if c["post"] == "fold":
        u.fold_spectra()
    elif c["post"] == "select":
        u.select(times=list(np.unique(u.time_avg_array))[:2], blpairs=u.get_blpairs()[::-1][:2])
    elif c["post"] == "ragged" and u.Nblpairs > 1 and sp["nt"] > 1:
        from hera_pspec.uvpspec import combine_uvpspec
        b = u.get_blpairs()
        u = combine_uvpspec([u.select(blpairs=b[:1], inplace=False), u.select(blpairs=b[1:], times=list(np.unique(u.time_avg_array))[1:], inplace=False)], verbose=False)
    before = uvps.snap(u)
    tsnap = dsets.dsnap(T)
    kw = dict(P_SN_correction=c["corr"], little_h=c["lh"], num_steps_scalar=300)
    with np.errstate(all="ignore"):
        if c["err"] in ("precomp", "custom"):
            nm = "P_N" if c["err"] == "precomp" else "mine"
            utils.uvp_noise_error(u, T, err_type="P_N", **kw)
            if nm == "mine":
                u.stats_array["mine"] = {s: 2 * v for s, v in u.stats_array.pop("P_N").items()}
            utils.uvp_noise_error(u, err_type="P_SN", precomp_P_N=nm, **kw)
            kinds = {"P_N", "P_SN"} if nm == "P_N" else {"mine", "P_SN"}
        else:
            nm = "P_N"
            et = {"both": ["P_N", "P_SN"]}.get(c["err"], c["err"])
            if c["err"] == "P_SN":
                kw["P_SN_correction"] = False  # the correction needs P_N
            utils.uvp_noise_error(u, T, err_type=et, **kw)
            kinds = {"P_N", "P_SN"} if c["err"] == "both" else {c["err"]}
    after = dsets.dsnap(T)
    assert all(np.array_equal(tsnap[k], after[k]) for k in ("data_array", "flag_array", "time_array")), "the system temperatures changed"
    uvps.same(before, {k: v for k, v in uvps.snap(u).items() if k != "stats_array"})
    assert set(u.stats_array) == kinds, "stats %s" % list(u.stats_array)
    vals = []
    from uvtools import dspec
    for i in range(u.Nspws):
        fw = u.freq_array[u.spw_freq_array == i]
        a, nf = int(round((fw[0] / 1e6 - sp["f0"]) / sp["df"])), len(fw)
        b = a + nf
        h = slice(-(nf - nf // 2 - 1), None) if u.folded else slice(None)
        if u.folded and nf - nf // 2 - 1 < 1:
            continue
        taper = np.asarray(dspec.gen_window(c["taper"], nf))
        for k, p in enumerate([NUMPOL[int(x) // 100 - 20] for x in u.polpair_array]):
            sc = beams.scalar(cosmo, lambda f: 0.5 / op(f, sp["pols"].index(p)), (sp["f0"] + a * sp["df"]) * 1e6, sp["df"] * 1e6, nf, little_h=c["lh"], noise=True, num=2001)
            tp = POLNUM["pI"] if p.startswith("p") else POLNUM[p]
            for bp in dict.fromkeys(u.get_blpairs()):
                rows = np.where(u.blpair_array == blpair_int(bp))[0]
                ts = expected_tsys(T, c, bp, u.time_1_array[rows], u.time_2_array[rows], u.lst_1_array[rows], u.lst_2_array[rows], tp, slice(a, b), taper)
                for row, allowed in zip(rows, ts):
                    with np.errstate(all="ignore"):
                        pn = [radiometer(sc, t, u.integration_array[i][row, k], u.nsample_array[i][row, k]) for t in allowed]
                    what = "%s %s window %d row %d" % (bp, p, i, row)
                    if c["err"] != "P_SN":
                        g = u.stats_array[nm][i][row, h, k] / (2 if nm == "mine" else 1)
                        assert np.all(g == g[0]), "P_N depends on delay"
                        assert any(np.isclose(g[0].real, x, rtol=3e-3) for x in pn), "P_N of %s is %s, expected %s" % (what, g[0], pn)
                        q = u.stats_array[nm][i][row, h, k].real
                        tol = 1e-9
                    else:
                        # P_N is not stored: recover which of the allowed values was used
                        g = u.stats_array["P_SN"][i][row, h, k].real
                        q, tol = None, 5e-3
                    if "P_SN" in u.stats_array:
                        g = u.stats_array["P_SN"][i][row, h, k]
                        ps = np.clip(u.data_array[i][row, h, k].real, 0, None)
                        ok = False
                        for x in ([q] if q is not None else [np.full(len(ps), z) for z in pn]):
                            e = psn(ps, x, kw["P_SN_correction"])
                            ok = ok or bool(np.allclose(g.real, e, rtol=tol, atol=0))
                        assert ok, "P_SN of %s is %s, expected %s" % (what, g.real, e)
                    vals += [x for x in pn if np.isfinite(x)]
    note.nt(len(set(np.round(np.log(vals), 6))) > 1)
    note.label(c["err"], "flags " + c["fl"], "corrected" if c["corr"] else "", str(c["post"]), "dsets %s" % c["dd"], "day" if sp["dtd"] > 0.5 else "", "nt %d" % sp["nt"], "stokes" if tp == 1 else "")


def psn(ps, pn, corr):
    """signal-plus-noise error, corrected for the double counting of noise"""
    with np.errstate(all="ignore"):
        e = np.sqrt(np.sqrt(2) * ps * pn + pn ** 2)
        e[np.isnan(e)] = np.inf
        if corr:
            f = 1 - (np.sqrt(1 / np.sqrt(np.pi) + 1) - 1) * pn / np.clip(e, 1e-40, np.inf)
            f[np.isnan(f) | (f <= 0)] = np.inf
            e = e * f
    return e


# ------------------------------------------------------------------------------------------------ approximate covariance
@st.composite
def cov_case(draw):
    sp = draw(uvps.spec(cov=False, stats=["P_N"], folded=False, eqnd=True, wf="none"))
    sp["rstats"] = draw(st.sampled_from([0, 1, 2]))
    return dict(sp=sp, taper=draw(st.sampled_from(["none", "hann", "blackmanharris", "bh7"])), inplace=draw(st.booleans()))


def approx_cov(c, note):
    """add_approximate_covariance: variances of the named error bars and the correlations of the tapered delay transform"""
    u = uvps.build(c["sp"])
    s = uvps.snap(u)
    v = u.add_approximate_covariance("P_N", inplace=c["inplace"], taper=c["taper"])
    if not c["inplace"]:
        uvps.same(s, u)
    assert uvps.raises(u.add_approximate_covariance, "nothing"), "unknown error bars accepted"
    from uvtools import dspec
    uvps.same(s, {k: x for k, x in uvps.snap(v).items() if k not in ("cov_array_real", "cov_array_imag")})
    for i, w in enumerate(c["sp"]["spws"]):
        n = w["nd"]
        t2 = np.asarray(dspec.gen_window(c["taper"], n)) ** 2
        f = [abs(np.sum(t2 * np.exp(-2j * np.pi * k * np.arange(n) / n))) ** 2 for k in range(n)]
        R = np.array([[f[(a - b) % n] for b in range(n)] for a in range(n)]) / f[0]
        e = u.stats_array["P_N"][i].real
        want = e[:, :, None, :] * e[:, None, :, :] * R[None, :, :, None]
        assert_close(v.cov_array_real[i], want, "cov_array_real window %d" % i, 1e-9)
        assert not np.any(v.cov_array_imag[i]) and v.cov_array_imag[i].shape == want.shape
        assert_close(noise.get_approximate_delay_delay_corr_matrix(c["taper"], n), R, "correlation matrix", 1e-9)
    note.nt(True)
    note.label(c["taper"], "inplace" if c["inplace"] else "copy")


LAWS = [
    Law("closed", closed_case(), closed, quick=80, thorough=3000, shards=1, doc="calc_P_N and Sensitivity against the formula"),
    Law("generate", gen_case(), generate, quick=250, thorough=10000, shards=2, doc="generate_noise_spectra row by row"),
    Law("tsys", tsys_case(), tsys, quick=120, thorough=5000, shards=2, doc="uvd_to_Tsys against the Rayleigh-Jeans factor of each polarization"),
    Law("noise_error", err_case(), noise_error, quick=260, thorough=10000, shards=3, doc="uvp_noise_error against averages of the autocorrelations"),
    Law("approx_cov", cov_case(), approx_cov, quick=60, thorough=2000, shards=1, doc="add_approximate_covariance"),
]
