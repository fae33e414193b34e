"""C10: cosmological conversions."""
import ast
import copy
import os

import numpy as np
from hypothesis import strategies as st

from hera_pspec import conversions, noise
from hera_pspec.conversions import Cosmo_Conversions, units
from hera_pspec.uvpspec import UVPSpec
from pv import uvps
from pv.core import Law, Skip
from pv.scratch import scratch

RULE = "Cases are generated density parameters, Hubble constants and redshifts; non-trivial when the universe is curved or H0 differs from 100."
ASSUMPTIONS = ["E(z)^2 > 0 over the redshift range of the case (no bounce or halt: E^2 > 0.03)", "redshift 0.05 to 30"]

NAMES = ["Om_L", "Om_b", "Om_c", "Om_M", "Om_k", "H0"]
DEF = dict(Om_L=0.68440, Om_b=0.04911, Om_c=0.26442, H0=67.27)
f_ = lambda a, b: st.floats(a, b, allow_nan=False).map(lambda x: round(x, 6))


@st.composite
def params(draw):
    p = {}
    if draw(st.booleans()):
        p["Om_L"] = draw(f_(0, 0.9))
    kind = draw(st.sampled_from(["none", "bc", "M", "bcM"]))
    if "bc" in kind:
        p["Om_b"], p["Om_c"] = draw(f_(0.01, 0.2)), draw(f_(0.05, 0.9))
    if kind == "M":
        p["Om_M"] = draw(f_(0.05, 1.2))
    if kind == "bcM":
        p["Om_M"] = p["Om_b"] + p["Om_c"]
    if draw(st.booleans()):
        p["H0"] = draw(st.one_of(f_(20, 120), st.just(100.0)))
    if draw(st.integers(0, 4)) == 0:
        p["Om_k"] = draw(st.sampled_from([0.0, 0.1, -0.05]))
    return p


@st.composite
def case(draw):
    return dict(p=draw(params()), z=draw(f_(0.05, 30)), z2=draw(f_(0.05, 30)), lh=draw(st.booleans()), np=draw(st.booleans()), bl=draw(f_(1, 1000)), tau=draw(f_(1, 5000)))


def full(p):
    """the parameters a cosmology has, from those given"""
    q = dict(DEF, **p)
    if "Om_M" not in p:
        q["Om_M"] = q["Om_b"] + q["Om_c"]
    elif abs(q["Om_b"] + q["Om_c"] - p["Om_M"]) > 1e-4:
        # only the total is given: the split keeps its default proportion
        tot = DEF["Om_b"] + DEF["Om_c"]
        q["Om_b"], q["Om_c"] = p["Om_M"] * DEF["Om_b"] / tot, p["Om_M"] * DEF["Om_c"] / tot
    if "Om_k" not in p:
        q["Om_k"] = 1 - q["Om_L"] - q["Om_M"]
    return q


def make(c):
    q = full(c["p"])
    z = np.linspace(0, 31, 500)
    if np.min(q["Om_M"] * (1 + z) ** 3 + q["Om_k"] * (1 + z) ** 2 + q["Om_L"]) < 0.03:
        raise Skip()  # (nearly) no expansion
    p = {k: np.float64(v) for k, v in c["p"].items()} if c["np"] else c["p"]
    return Cosmo_Conversions(**p), full(c["p"])


X, W = np.polynomial.legendre.leggauss(400)


def E(q, z):
    return np.sqrt(q["Om_M"] * (1 + z) ** 3 + q["Om_k"] * (1 + z) ** 2 + q["Om_L"])


def DC(q, z, lh):
    # substitution 1+z = a^-2... Gauss-Legendre in log(1+z)
    t = 0.5 * np.log1p(z) * (X + 1)
    zz = np.expm1(t)
    d = 0.5 * np.log1p(z) * np.sum(W * (1 + zz) / E(q, zz))
    return d * 299792.458 / (100.0 if lh else q["H0"])


def DM(q, z, lh):
    DH = 299792.458 / (100.0 if lh else q["H0"])
    x, k = DC(q, z, lh) / DH, q["Om_k"]
    if abs(k) < 1e-12:
        return x * DH
    return DH * np.real(np.sinh(np.sqrt(complex(k)) * x) / np.sqrt(complex(k)))


def eq(a, b, what, rtol=1e-6, atol=0):
    assert np.all(np.abs(np.asarray(a) - b) <= rtol * np.abs(b) + atol), "%s: %s instead of %s" % (what, a, b)


def law_inverse(c, note):
    """redshift and frequency are inverse functions, in Hz and GHz, for scalars and arrays"""
    C, _ = make(c)
    z = np.array([c["z"], c["z2"]])
    for x in (c["z"], z):
        f = C.z2f(x)
        eq(f, 1.420405751e9 / (1 + x), "z2f", 1e-12)
        eq(C.z2f(x, ghz=True), np.asarray(f) / 1e9, "z2f ghz", 1e-12)
        eq(C.f2z(f), x, "f2z(z2f)", 1e-9)
        eq(C.f2z(C.z2f(x, ghz=True), ghz=True), x, "f2z(z2f) ghz", 1e-9)
        eq(C.z2f(C.f2z(f)), f, "z2f(f2z)", 1e-12)
    assert np.array_equal(z, [c["z"], c["z2"]]), "input modified"
    f = C.z2f(z)
    g = f.copy()
    C.f2z(f, ghz=True), C.f2z(f)
    assert np.array_equal(f, g), "frequencies modified"
    assert (C.z2f(c["z"]) > C.z2f(c["z2"])) == (c["z"] < c["z2"])
    note.nt()


def law_distances(c, note):
    """distances and conversions agree with direct integration of the Friedmann equation with the given parameters"""
    C, q = make(c)
    z, lh = c["z"], c["lh"]
    eq(C.E(z), E(q, z), "E", 1e-9)
    eq(C.E(np.array([z, c["z2"]])), E(q, np.array([z, c["z2"]])), "E", 1e-9)
    eq(C.DC(z, little_h=lh), DC(q, z, lh), "DC")
    D = DM(q, z, lh)
    at = 1e-6 * DC(q, z, lh)
    eq(C.DM(z, little_h=lh), D, "DM", 1e-6, at)
    eq(C.DA(z, little_h=lh), D / (1 + z), "DA", 1e-6, at)
    eq(C.dRperp_dtheta(z, little_h=lh), D, "dRperp_dtheta", 1e-6, at)
    # dR/df is the derivative of the comoving distance with respect to frequency
    f = C.z2f(z)
    h = f * 1e-4
    num = -(DC(q, C.f2z(f + h), lh) - DC(q, C.f2z(f - h), lh)) / (2 * h)
    eq(C.dRpara_df(z, little_h=lh), num, "dRpara_df", 1e-5)
    eq(C.dRpara_df(z, ghz=True, little_h=lh), num * 1e9, "dRpara_df ghz", 1e-5)
    eq(C.dRpara_df(z, little_h=lh), (1 + z) ** 2 / E(q, z) * 299792.458 / (100. if lh else q["H0"]) / 1.420405751e9, "dRpara_df", 1e-8)
    eq(C.X2Y(z, little_h=lh), C.dRperp_dtheta(z, little_h=lh) ** 2 * C.dRpara_df(z, little_h=lh), "X2Y", 1e-12)
    # k modes: 2 pi u / D_M with u = b / lambda, and 2 pi tau / (dR/df)
    if abs(D) > 1e-3 * DC(q, z, lh):
        eq(c["bl"] * C.bl_to_kperp(z, little_h=lh), 2 * np.pi * c["bl"] / 299792458.0 * f / D, "kperp", 1e-5)
    eq(c["tau"] * 1e-9 * C.tau_to_kpara(z, little_h=lh), 2 * np.pi * c["tau"] * 1e-9 / num, "kpara", 1e-5)
    # small h and no small h
    H = q["H0"] / 100
    for n, fn in ((-1, C.DC), (-1, C.DM), (-1, C.DA), (-1, C.dRperp_dtheta), (-1, C.dRpara_df), (-3, C.X2Y), (1, C.bl_to_kperp), (1, C.tau_to_kpara)):
        eq(fn(z, little_h=False), fn(z) * H**n, "%s without little h" % fn.__name__, 1e-9)
    # a closed or open universe differs from the flat one in the right sense
    if q["Om_k"] > 1e-9:
        assert C.DM(z) > C.DC(z)
    elif q["Om_k"] < -1e-9:
        assert C.DM(z) < C.DC(z)
    note.nt(abs(q["Om_k"]) > 1e-6 or q["H0"] != 100)
    note.label("open" if q["Om_k"] > 1e-9 else "closed" if q["Om_k"] < -1e-9 else "flat")


@st.composite
def case_params(draw):
    return dict(p=draw(params()), p2=draw(params()), same=draw(st.booleans()), np=draw(st.booleans()), change=draw(st.sampled_from(NAMES)), eps=draw(st.sampled_from([1e-6, 1e-3, 0.1])),
                z=draw(f_(1, 20)))


def law_params(c, note):
    """the parameters are those given; cosmologies are equal exactly when their parameters are, also after being stored"""
    C, q = make(c)
    got = C.get_params()
    assert sorted(got) == sorted(NAMES)
    for k in NAMES:
        eq(got[k], q[k], k, 1e-4 if k in ("Om_b", "Om_c") and k not in c["p"] else 1e-9, 1e-12)
        assert getattr(C, k) == got[k]
    eq(C.h, q["H0"] / 100, "h", 1e-12)
    eq(got["Om_b"] + got["Om_c"], got["Om_M"], "Om_b + Om_c", 3e-5)
    D = Cosmo_Conversions(**(c["p"] if c["same"] else c["p2"]))
    e = all(getattr(C, k) == getattr(D, k) for k in NAMES)
    assert (C == D) == e and (D == C) == e and (C != D) == (not e)
    assert C == C and C == copy.deepcopy(C)
    # one parameter changed
    r = dict(got)
    r[c["change"]] += c["eps"]
    if c["change"] in ("Om_b", "Om_c"):
        r["Om_M"] += c["eps"]
    if c["change"] == "Om_M":
        r["Om_c"] += c["eps"]
    D = Cosmo_Conversions(**r)
    assert D != C and not (D == C), "a change of %s goes unnoticed" % c["change"]
    # as text, in a sensitivity object, in a file
    D = Cosmo_Conversions(**ast.literal_eval(str(got)))
    assert D == C, "not the same after being stored as text"
    s = noise.Sensitivity(cosmo=C)
    t = noise.Sensitivity(cosmo=str(got))
    assert s.cosmo == C and t.cosmo == C and ast.literal_eval(s.cosmo_params) == got
    u = uvps.build(dict(seed=1, spws=[dict(f0=0, nf=3, nd=3)], blps=[[[0, 1], [0, 1]]], nt=1, pps=[[-5, -5]], order="bl", dt=10.7, t0=2458042.1, lst0=0.3, off=0, folded=False,
                        cov=False, stats=[], wf="none", flags=0, drop=0, beam=False, cosmo=-1))
    u.cosmo = C
    with scratch() as d:
        u.write_hdf5(os.path.join(d, "u.h5"))
        v = UVPSpec()
        v.read_hdf5(os.path.join(d, "u.h5"))
    assert v.cosmo == C and v == u
    u.cosmo = D = Cosmo_Conversions(**r)
    assert u != v, "objects with different cosmologies are equal"
    # k values use them
    z = C.f2z(np.mean(u.freq_array))
    eq(v.get_kparas(0), u.get_dlys(0) * 2 * np.pi / (DC(q, z + 1e-4, True) - DC(q, z - 1e-4, True)) * 2e-4 * (1.420405751e9 / (1 + z) ** 2), "kparas", 1e-5, 1e-12)
    eq(v.get_kperps(0), v.get_blpair_seps() * 2 * np.pi / 299792458.0 * np.mean(u.freq_array) / DM(q, z, True), "kperps", 1e-5, 1e-12)
    note.nt(c["np"] or bool(c["p"]))


LAWS = [
    Law("inverse", case(), law_inverse, quick=600, thorough=20000),
    Law("distances", case(), law_distances, quick=1500, thorough=60000, shards=3),
    Law("params", case_params(), law_params, quick=300, thorough=12000, shards=2),
]
