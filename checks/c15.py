"""C15: beam integrals, pspec scalars and Jy-to-mK factors are the defined integrals."""
import copy
import os
import warnings

import numpy as np
from hypothesis import strategies as st

from hera_pspec.conversions import Cosmo_Conversions
from hera_pspec.pspecbeam import PSpecBeamBase, PSpecBeamFromArray, PSpecBeamGauss, PSpecBeamUV
from pv import beams, uvps
from pv.core import Law
from pv.dsets import NUMPOL, POLNUM
from pv.scratch import scratch
from pv.uvps import COSMOS, assert_close, raises

RULE = ("Cases are generated Gaussian, tabulated and HEALPix beams with bands, tapers and cosmologies, or sequences of operations on a tabulated beam; "
        "non-trivial when a beam area that depends on frequency or polarization, or a Gaussian width, decides the compared number (for sequences: at least two polarizations were stored).")
ASSUMPTIONS = ["scalars are compared to 0.2 per cent (grid integration over a band whose taper is piecewise constant); their scaling laws to 1e-9", "numerical constants to 1e-4"]

warnings.simplefilter("ignore")
POLS = ["pI", "pQ", "pU", "pV", "xx", "yy", "xy", "yx"]
ORIENT = {"east": {"xx": "ee", "yy": "nn", "xy": "en", "yx": "ne"}, "north": {"xx": "nn", "yy": "ee", "xy": "ne", "yx": "en"}}


# ------------------------------------------------------------------------------------------------ Gaussian beams
@st.composite
def gauss_case(draw):
    return dict(fw=draw(st.floats(0.01, 0.5)), n=draw(st.integers(1, 30)), pol=draw(st.sampled_from(POLS)), cosmo=draw(st.sampled_from([None, 0, 1, 2])), f=draw(st.floats(101e6, 199e6)))


def gauss(c, note):
    """beam areas of a Gaussian by direct radial integration of exp(-4 ln2 (theta/fwhm)^2) and of its square"""
    fr = np.linspace(100e6, 200e6, c["n"])
    cosmo = None if c["cosmo"] is None else Cosmo_Conversions(**COSMOS[c["cosmo"]])
    b = PSpecBeamGauss(c["fw"], fr, cosmo=cosmo)
    assert isinstance(b.cosmo, Cosmo_Conversions) and (cosmo is None or b.cosmo is cosmo)
    th = (np.arange(20000) + 0.5) * 6 * c["fw"] / 20000
    for fn, p in ((b.power_beam_int, 1), (b.power_beam_sq_int, 2)):
        want = np.sum(2 * np.pi * th * np.exp(-4 * np.log(2) * (th / c["fw"]) ** 2) ** p) * (th[1] - th[0])
        got = fn(c["pol"])
        assert got.shape == fr.shape and np.allclose(got, want, rtol=1e-6), "area %s, expected %s" % (got, want)
        assert np.array_equal(fn(), got), "the default polarization differs"
    if c["n"] > 3:
        want = rj(np.array([c["f"]]), np.pi * c["fw"] ** 2 / (4 * np.log(2)))
        assert np.allclose(b.Jy_to_mK(np.array([c["f"]]), pol=c["pol"]), want, rtol=1e-4), "Jy_to_mK"
    note.nt(True)


def rj(freqs, omega):
    """Rayleigh-Jeans temperature (mK) of 1 Jy in a beam of solid angle omega, SI constants"""
    lam = 299792458.0 / np.asarray(freqs)
    return 1e3 * 1e-26 * lam ** 2 / (2 * 1.380649e-23 * omega)


# ------------------------------------------------------------------------------------------------ tabulated beams: operations against a model
KEY = st.sampled_from(["str", "up", "int", "or"])


@st.composite
def table_case(draw):
    ent = st.tuples(st.sampled_from(POLS), KEY, st.integers(0, 99)).map(list)
    ops = draw(st.lists(st.one_of(
        st.tuples(st.just("add"), ent), st.tuples(st.just("add"), ent),
        st.tuples(st.just("get"), ent),
        st.tuples(st.just("badshape"), ent), st.tuples(st.just("badpol"), st.sampled_from([-1, -2, 5, 0, "rr"])), st.tuples(st.just("edit"), ent)).map(list), max_size=6))
    return dict(n=draw(st.integers(2, 8)), init=draw(st.sampled_from(["array", "dict", "dict", "lists"])), ents=draw(st.lists(ent, min_size=1, max_size=5, unique_by=lambda e: e[0])), ops=ops, xo=draw(st.sampled_from([None, None, "east", "north"])),
                bad=draw(st.sampled_from([None] * 5 + ["mixed", "missing", "pol", "shape", "none"])), cosmo=draw(st.sampled_from([None, 1, 2])))


def spell(pol, how, xo):
    if how == "int":
        return POLNUM[pol]
    if how == "or" and xo and pol in ORIENT[xo]:
        return ORIENT[xo][pol]
    return pol.upper() if how == "up" else pol


def tab(seed, n):
    r = uvps.rng_of(seed, 31)
    return r.uniform(0.02, 0.1, n), r.uniform(0.01, 0.05, n)


def check_table(b, model, n):
    for p in POLS:
        for how in (p, POLNUM[p]):
            if p in model:
                assert np.array_equal(b.power_beam_int(how), model[p][0]), "OmegaP of %s" % p
                assert np.array_equal(b.power_beam_sq_int(how), model[p][1]), "OmegaPP of %s" % p
            else:
                assert raises(b.power_beam_int, how) and raises(b.power_beam_sq_int, how), "%s was never given" % p
    assert sorted(b.available_pols.split(", ")) == sorted(model), "available_pols %s, stored %s" % (b.available_pols, sorted(model))
    assert all(p in str(b) for p in model)


def table(c, note):
    """a tabulated beam returns, for each polarization, the arrays last given for it; refused calls change nothing; the caller's objects stay as they are"""
    n, xo = c["n"], c["xo"]
    fr = np.linspace(100e6, 200e6, n)
    cosmo = None if c["cosmo"] is None else Cosmo_Conversions(**COSMOS[c["cosmo"]])
    kw = dict(cosmo=cosmo, x_orientation=xo)
    model = {}
    op, opp = {}, {}
    for p, how, seed in c["ents"]:
        a, b = tab(seed, n)
        op[spell(p, how, xo)], opp[spell(p, how if seed % 2 else "str", xo)] = (a.tolist(), b.tolist()) if c["init"] == "lists" else (a, b)
        model[p] = (a.copy(), b.copy())
    if c["init"] == "array":
        a, b = tab(c["ents"][0][2], n)
        op, opp, model = a, b, {"pI": (a.copy(), b.copy())}
    if c["bad"]:
        x, y = copy.deepcopy(op), copy.deepcopy(opp)
        if c["bad"] == "mixed":
            y = np.ones(n) if isinstance(y, dict) else {1: np.ones(n)}
        elif c["bad"] == "none":
            x = None
        elif c["bad"] == "shape":
            x = np.ones(n + 1) if not isinstance(x, dict) else {k: np.ones(n + 1) for k in x}
        elif isinstance(x, dict):
            if c["bad"] == "missing":
                y.pop(list(y)[0])
            else:
                x[-1], y[-1] = np.ones(n), np.ones(n)
        else:
            x = {"pI": op, -3: op}
            y = dict(x)
        assert raises(PSpecBeamFromArray, x, y, fr, **kw), "invalid tables accepted (%s)" % c["bad"]
    keep = copy.deepcopy((op, opp))
    b = PSpecBeamFromArray(op, opp, fr, **kw)
    same_in(keep, (op, opp))
    assert cosmo is None or b.cosmo is cosmo
    check_table(b, model, n)
    for k, arg in c["ops"]:
        if k == "badpol":
            assert raises(b.add_pol, arg, np.ones(n), np.ones(n)), "polarization %r accepted" % (arg,)
            continue
        p, how, seed = arg
        key = spell(p, how, xo)
        x, y = tab(seed, n)
        if k == "add":
            b.add_pol(key, x, y.tolist() if seed % 3 == 0 else y)
            model[p] = (x.copy(), y.copy())
            x[:] = -1  # the stored table is a copy
            if seed % 3:
                y[:] = -1
        elif k == "badshape":
            assert raises(b.add_pol, key, x[:-1], y) and raises(b.add_pol, key, x, np.append(y, 1.0)), "a table of the wrong length was accepted"
        elif k == "get":
            if p in model:
                assert np.array_equal(b.power_beam_int(key), model[p][0])
            else:
                assert raises(b.power_beam_int, key)
        elif k == "edit" and not isinstance(op, dict):
            op[:] = op + 1  # edits of the caller's table afterwards do not reach the beam
        check_table(b, model, n)
    note.nt(len(model) > 1)
    note.label(c["init"], str(xo), "pols %d" % len(model))


def same_in(a, b):
    for x, y in zip(a, b):
        if isinstance(x, dict):
            assert list(x) == list(y), "keys of the caller's dict changed: %s -> %s" % (list(x), list(y))
            assert all(np.array_equal(x[k], y[k]) for k in x), "the caller's arrays changed"
        else:
            assert np.array_equal(x, y), "the caller's array changed"


# ------------------------------------------------------------------------------------------------ scalars
@st.composite
def scalar_case(draw):
    n = draw(st.integers(3, 30))
    return dict(n=n, f0=draw(st.floats(100, 170)), df=draw(st.sampled_from([0.1, 0.3, 0.97])), taper=draw(st.sampled_from(["none", "none", "hann", "bh", "tukey", "blackman-harris", "bh7"])), lh=draw(st.booleans()), noise=draw(st.booleans()),
                exact=draw(st.sampled_from([False, False, False, True])), pols=draw(st.permutations(POLS).map(lambda x: list(x)[:2])), co=draw(st.lists(st.floats(-0.6, 0.6), min_size=4, max_size=4)), cosmo=draw(st.integers(0, 2)),
                a=draw(st.floats(0.1, 10)), b=draw(st.floats(0.1, 10)), nbf=draw(st.integers(5, 15)), kind=draw(st.sampled_from(["table", "table", "gauss", "uvp"])), num=draw(st.sampled_from([2000, 3001])))


def ratio_of(c, k):
    """Omega_p, Omega_pp and their ratio for the k-th polarization, quadratic in frequency"""
    x = lambda f: (np.asarray(f) - 150e6) / 100e6
    op = lambda f: 0.06 * (1 + 0.2 * k) * (1 + 0 * x(f))
    q = lambda f: 5.0 * (1 + c["co"][2 * k] * x(f) + c["co"][2 * k + 1] * x(f) ** 2)
    return op, lambda f: q(f) * op(f) ** 2, q


def the_scalar(c, note):
    """compute_pspec_scalar is the band integral of its integrand and scales as the areas, the band and the little h dictate"""
    cosmo = Cosmo_Conversions(**COSMOS[c["cosmo"]])
    bf = np.linspace(90e6, 210e6, c["nbf"])
    f0, df, n = c["f0"] * 1e6, c["df"] * 1e6, c["n"]
    t = {p: ratio_of(c, k) for k, p in enumerate(c["pols"])}
    kw = dict(num_steps=c["num"], taper=c["taper"], little_h=c["lh"], noise_scalar=c["noise"], exact_norm=c["exact"])
    if c["kind"] == "uvp":
        return uvp_scalar(c, note, cosmo, bf, kw)
    if c["kind"] == "table":
        b = PSpecBeamFromArray({p: t[p][0](bf) for p in t}, {p: t[p][1](bf) for p in t}, bf, cosmo=cosmo)
        q = [t[p][2] for p in c["pols"]]
    else:
        fw = 0.05 + abs(c["co"][0])
        b = PSpecBeamGauss(fw, bf, cosmo=cosmo)
        q = [lambda f: np.full(np.shape(f), 2 * np.log(2) / (np.pi * fw * fw))] * 2
    got = [b.compute_pspec_scalar(f0, f0 + n * df, n, pol=p, **kw) for p in c["pols"]]
    for k in (0, 1):
        want = beams.scalar(cosmo, q[k], f0, df, n, taper=c["taper"], little_h=c["lh"], noise=c["noise"], exact=c["exact"], num=8001)
        assert abs(got[k] / want - 1) < tol_of(c), "scalar of %s is %s, expected %s" % (c["pols"][k], got[k], want)
    p = c["pols"][0]
    # scaling laws
    if c["kind"] == "table":
        b2 = PSpecBeamFromArray({p: c["a"] * t[p][0](bf)}, {p: c["b"] * t[p][1](bf)}, bf, cosmo=cosmo)
        s = b2.compute_pspec_scalar(f0, f0 + n * df, n, pol=p, **kw)
        want = got[0] if c["exact"] else got[0] * c["a"] ** 2 / c["b"]
        assert abs(s / want - 1) < 1e-9, "areas scaled by %g and %g: scalar %s, expected %s" % (c["a"], c["b"], s, want)
    kw2 = dict(kw, little_h=not c["lh"])
    h3 = (cosmo.get_params()["H0"] / 100) ** 3
    s = b.compute_pspec_scalar(f0, f0 + n * df, n, pol=p, **kw2)
    want = got[0] / h3 if c["lh"] else got[0] * h3
    assert abs(s / want - 1) < 1e-9, "the scalar with the other little_h is %s, expected %s" % (s, want)
    if not c["exact"]:
        kw3 = dict(kw, taper="none")
        sky, noi = [b.compute_pspec_scalar(f0, f0 + n * df, n, pol=p, **dict(kw3, noise_scalar=x)) for x in (False, True)]
        B = n * df
        # the code's band ends one channel after the last one
        assert abs(sky / noi / B - 1) < 1e-9, "sky and noise scalars differ by %s, expected the bandwidth %s" % (sky / noi, B)
        noi2 = b.compute_pspec_scalar(f0, f0 + n * df, n, pol=p, **dict(kw, noise_scalar=True))
        assert abs(noi2 / noi - 1) < 1e-12, "the noise scalar depends on the taper"
    note.nt(True)
    note.label(c["kind"], c["taper"], "noise" if c["noise"] else "sky", "exact" if c["exact"] else "")


def tol_of(c):
    # the trapezoidal rule over a step function of n steps with num points
    return 2e-3 if c["taper"] == "none" or c["noise"] else max(2e-3, 3.0 * c["n"] / c["num"])


def uvp_scalar(c, note, cosmo, bf, kw):
    """the same from the arrays stored in a UVPSpec"""
    kw.pop("exact_norm"), kw.pop("taper")
    s = dict(seed=1, spws=[dict(f0=0, nf=4, nd=4), dict(f0=30, nf=c["n"], nd=c["n"])], blps=[[[0, 1], [0, 1]]], nt=1, pps=[[POLNUM[p], POLNUM[p]] for p in c["pols"]], order="bl", dt=10.7, t0=2458116.3, lst0=0.3, off=0, folded=False, cov=False,
             stats=[], wf="none", flags=0, drop=0, beam=True, cosmo=c["cosmo"], labels=1, rp=False, sym=True)
    u = uvps.build(s)
    u.taper, u.beam_freqs = c["taper"], bf
    u.OmegaP = np.array([ratio_of(c, k)[0](bf) for k in (0, 1)]).T.copy()
    u.OmegaPP = np.array([ratio_of(c, k)[1](bf) for k in (0, 1)]).T.copy()
    f = u.freq_array[u.spw_freq_array == 1]
    for k, p in enumerate(c["pols"]):
        want = beams.scalar(cosmo, ratio_of(c, k)[2], f[0], f[1] - f[0], c["n"], taper=c["taper"], little_h=c["lh"], noise=c["noise"], num=8001)
        for form in ((p, p), p, int(u.polpair_array[k])):
            got = u.compute_scalar(1, form, **kw)
            assert abs(got / want - 1) < tol_of(c), "scalar of %s is %s, expected %s" % (p, got, want)
    note.nt(True)
    note.label("uvp", c["taper"], "noise" if c["noise"] else "sky")


# ------------------------------------------------------------------------------------------------ Jy to mK, Omegas
@st.composite
def jy_case(draw):
    return dict(nbf=draw(st.integers(3, 12)), seed=draw(st.integers(0, 999)), pols=draw(st.permutations(POLS).map(lambda x: list(x)[:3])), poly=draw(st.booleans()), fs=draw(st.lists(st.floats(80e6, 220e6), min_size=1, max_size=6)),
                co=draw(st.lists(st.floats(-0.3, 0.3), min_size=2, max_size=2)), pps=draw(st.lists(st.tuples(st.integers(0, 2), st.sampled_from(["str", "int", "nums"])).map(list), min_size=1, max_size=4)), sc=draw(st.floats(0.1, 10)))


def jy(c, note):
    """Jy_to_mK is the Rayleigh-Jeans factor with the solid angle of the requested polarization at each frequency; get_Omegas stacks the areas of the pairs"""
    bf = np.linspace(90e6, 210e6, c["nbf"])
    x = lambda f: (np.asarray(f) - 150e6) / 100e6
    fn = {p: (lambda f, k=k: 0.06 * (1 + 0.3 * k) * (1 + c["co"][0] * x(f) + c["co"][1] * x(f) ** 2)) for k, p in enumerate(c["pols"])}
    op = {p: fn[p](bf) if c["poly"] else tab(c["seed"] + k, c["nbf"])[0] for k, p in enumerate(c["pols"])}
    opp = {p: tab(c["seed"] + k, c["nbf"])[1] for k, p in enumerate(c["pols"])}
    b = PSpecBeamFromArray(op, opp, bf)
    fs = np.array(c["fs"])
    for p in c["pols"]:
        g = b.Jy_to_mK(bf, pol=p)
        assert np.allclose(g, rj(bf, op[p]), rtol=1e-4), "factor at the tabulated frequencies for %s" % p
        if c["poly"]:
            g = b.Jy_to_mK(fs, pol=p)
            assert np.allclose(g, rj(fs, fn[p](fs)), rtol=1e-4), "factor of %s at %s: %s, expected %s" % (p, fs, g, rj(fs, fn[p](fs)))
            one = b.Jy_to_mK(float(fs[0]), pol=p)
            assert np.shape(one) == (1,) and np.isclose(one[0], g[0], rtol=1e-12), "a single frequency"
        inside = fs[(fs > bf[0]) & (fs < bf[-1])]
        if len(inside):
            # each frequency on its own, and in another order
            g = b.Jy_to_mK(inside, pol=p)
            assert np.allclose(g[::-1], b.Jy_to_mK(inside[::-1].copy(), pol=p), rtol=1e-12)
            b2 = PSpecBeamFromArray({p: c["sc"] * op[p]}, {p: opp[p]}, bf)
            assert np.allclose(b2.Jy_to_mK(inside, pol=p) * c["sc"], g, rtol=1e-9), "not inversely proportional to the area"
    assert raises(b.Jy_to_mK, np.array([100000000, 120000000])) and raises(b.Jy_to_mK, [1e8, 1.2e8]), "frequencies that are not floats were accepted"
    names = [c["pols"][i] for i, _ in c["pps"]]
    from hera_pspec.uvpspec_utils import polpair_tuple2int
    pps = [{"str": (p, p), "nums": (POLNUM[p], POLNUM[p]), "int": polpair_tuple2int((p, p))}[how] for p, (_, how) in zip(names, c["pps"])]
    P, PP = b.get_Omegas(pps)
    assert P.shape == PP.shape == (c["nbf"], len(pps))
    for j, p in enumerate(names):
        assert np.array_equal(P[:, j], op[p]) and np.array_equal(PP[:, j], opp[p]), "column %d is not %s" % (j, p)
    one = b.get_Omegas(pps[0])
    assert np.array_equal(one[0][:, 0], op[names[0]])
    assert raises(b.get_Omegas, [(c["pols"][0], c["pols"][1])]), "a pair of different polarizations was accepted"
    note.nt(True)
    note.label("poly" if c["poly"] else "random")


# ------------------------------------------------------------------------------------------------ HEALPix beams
@st.composite
def hp_case(draw):
    return dict(nside=draw(st.sampled_from([1, 2, 4])), nf=draw(st.integers(4, 6)), pols=draw(st.sampled_from([["xx", "yy"], ["yy", "xx"], ["pI", "pQ", "pU", "pV"], ["pV", "pI"], ["xx", "yy", "xy", "yx"], ["pI"]])), seed=draw(st.integers(0, 999)), file=draw(st.booleans()),
                cosmo=draw(st.sampled_from([None, 1])), mid=draw(st.booleans()))


def hp(c, note):
    """areas of a HEALPix power beam are pixel sums of the response and of its square, for each polarization and frequency"""
    from pyuvdata.uvbeam.initializers import new_uvbeam
    r = uvps.rng_of(c["seed"], 41)
    npix = 12 * c["nside"] ** 2
    fr = np.linspace(100e6, 180e6, c["nf"])
    d = r.uniform(0, 1, (1, len(c["pols"]), c["nf"], npix))
    d[..., 0] = 1.0
    if any(p in ("xy", "yx") for p in c["pols"]):
        d = d.astype(complex)
        for k, p in enumerate(c["pols"]):
            if p in ("xy", "yx"):
                d[:, k] *= np.exp(0.3j if p == "xy" else -0.3j)
    kw = dict(feed_array=["x", "y"], feed_angle=np.array([np.pi / 2, 0.0]))
    uvb = new_uvbeam(telescope_name="t", data_normalization="peak", freq_array=fr, polarization_array=[POLNUM[p] for p in c["pols"]], pixel_coordinate_system="healpix", nside=c["nside"], ordering="ring", data_array=d, history="", **kw)
    cosmo = None if c["cosmo"] is None else Cosmo_Conversions(**COSMOS[c["cosmo"]])
    with scratch() as tmp:
        arg = uvb
        if c["file"] and np.iscomplexobj(d):  # (pyuvdata cannot read back real-valued HEALPix beams it wrote)
            arg = os.path.join(tmp, "b.fits")
            uvb.write_beamfits(arg)
        b = PSpecBeamUV(arg, cosmo=cosmo)
    assert isinstance(b, PSpecBeamBase) and np.allclose(b.beam_freqs, fr)
    pix = 4 * np.pi / npix
    for k, p in enumerate(c["pols"]):
        x = d[0, k]
        assert np.allclose(b.power_beam_int(p), np.real(x.sum(1)) * pix, rtol=1e-6), "area of %s" % p
        if p not in ("xy", "yx"):  # the complex cross-polarized response: squares are pyuvdata's choice
            assert np.allclose(b.power_beam_sq_int(p), (np.abs(x) ** 2).sum(1) * pix, rtol=1e-6), "squared area of %s" % p
        res, om, ns = b.beam_normalized_response(p, fr)
        assert ns == c["nside"] and np.allclose(res, x, rtol=1e-6), "response of %s" % p
        assert np.allclose(om, x.sum(1) * pix, rtol=1e-6), "solid angle of %s" % p
        assert np.allclose(b.Jy_to_mK(fr, pol=p), rj(fr, np.real(x.sum(1)) * pix), rtol=1e-4), "Jy_to_mK of %s" % p
        if c["mid"]:
            f = np.array([fr[1], fr[2]])
            res, om, ns = b.beam_normalized_response(p, f)
            assert np.allclose(res, x[1:3], rtol=1e-6) and np.allclose(om, x[1:3].sum(1) * pix, rtol=1e-6)
    missing = [p for p in POLS if p not in c["pols"]]
    for p in missing:
        assert raises(b.power_beam_int, p) and raises(b.beam_normalized_response, p, fr), "%s is not in the beam" % p
    note.nt(len(c["pols"]) > 1)
    note.label("file" if c["file"] else "object", "".join(c["pols"]))


LAWS = [
    Law("gauss", gauss_case(), gauss, quick=60, thorough=2000, shards=1, doc="Gaussian areas by radial quadrature"),
    Law("table", table_case(), table, quick=400, thorough=15000, shards=2, doc="tabulated beams against a dictionary model"),
    Law("scalar", scalar_case(), the_scalar, quick=60, thorough=2500, shards=3, doc="compute_pspec_scalar against quadrature and scaling laws"),
    Law("jy", jy_case(), jy, quick=250, thorough=8000, shards=1, doc="Jy_to_mK and get_Omegas"),
    Law("healpix", hp_case(), hp, quick=80, thorough=3000, shards=1, doc="PSpecBeamUV from generated HEALPix beams"),
]
