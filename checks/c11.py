"""C11: unit, normalization and cosmology changes."""
import copy

import numpy as np
from hypothesis import strategies as st

from hera_pspec import conversions, grouping, loss, pspecbeam
from pv import uvps
from pv.core import Law, Skip
from pv.uvps import COSMOS, antpos_enu, assert_close, build, raises, same, snap, tup
from checks.c10 import DC, DM, E, full

RULE = "Cases are generated UVPSpecs with generated cosmologies, beams and correction factors; non-trivial when some k, ratio or factor differs from one and the object has data."
ASSUMPTIONS = ["set_cosmology is applied to P(k), not to Delta^2 (documented: multiplies data by the ratio of scalars)",
               "whether set_cosmology also rescales statistics and covariances is not claimed (documentation names only the data)"]

F21, CMS = 1.420405751e9, 299792458.0


def ks(u, sp, spw, little_h, cosmo=None, dlys=None):
    """(kperp per row, kpara per stored delay) from antenna positions, delays and the cosmology's parameters"""
    q = (cosmo or u.cosmo).get_params()
    f = np.mean(100e6 + uvps.CHAN * (sp["spws"][spw]["f0"] + np.arange(sp["spws"][spw]["nf"])))
    z = F21 / f - 1
    length = {}
    for bp in sp["blps"]:
        length[uvps.blpair_int(bp)] = np.mean([np.linalg.norm(antpos_enu(a) - antpos_enu(b)) for a, b in bp])
    kperp = np.array([length[int(b)] for b in u.blpair_array]) * 2 * np.pi * f / CMS / DM(q, z, little_h)
    drdf = (1 + z) ** 2 / E(q, z) * CMS / 1e3 / (100.0 if little_h else q["H0"]) / F21
    d = u.dly_array[u.spw_dly_array == spw] if dlys is None else np.asarray(dlys)
    return kperp, d * 2 * np.pi / drdf


@st.composite
def case(draw):
    sp = draw(uvps.spec(cosmo=draw(st.integers(0, 2))))
    sp["rstats"] = draw(st.sampled_from([0, 0, 1, 2, 3]))
    return dict(sp=sp, lh=draw(st.booleans()))


def untouched(a, b, but):
    same(b, a, ignore=tuple(but))


def law_deltasq(c, note):
    """Delta^2 = k^3/(2 pi^2) P, with k of each row's baseline-pair, delay and window; errors likewise; nothing else changes"""
    sp = c["sp"]
    u = build(sp)
    if not c["lh"]:
        u.norm_units = "Mpc^3"
    s = snap(u)
    out = u.convert_to_deltasq(inplace=False)
    same(u, s)
    touched = ["data_array", "stats_array", "cov_array_real", "cov_array_imag", "norm_units"]
    untouched(s, out, touched)
    assert out.norm_units == s["norm_units"] + " k^3 / (2pi^2)" and out.norm_units in out.units
    out.check()
    for spw in range(u.Nspws):
        kp, kl = ks(u, sp, spw, c["lh"])
        co = (kp[:, None] ** 2 + kl[None] ** 2) ** 1.5 / (2 * np.pi**2)
        assert_close(out.data_array[spw], s["data_array"][spw] * co[:, :, None], "data", 1e-6)
        for n in s.get("stats_array", {}):
            a, b = out.stats_array[n][spw], s["stats_array"][n][spw]
            assert a.dtype == b.dtype
            fin = np.isfinite(b)
            assert_close(np.where(fin, a, 0), np.where(fin, b, 0) * co[:, :, None], "stats", 1e-6)
            assert not np.isfinite(a[~fin]).any(), "an infinite error became finite"
        if sp["cov"]:
            for k in ("cov_array_real", "cov_array_imag"):
                assert_close(getattr(out, k)[spw], s[k][spw] * co[:, :, None, None] * co[:, None, :, None], k, 1e-6)
    v = copy.deepcopy(u)
    assert v.convert_to_deltasq() is None
    same(v, out)
    note.nt()
    note.label("folded" if sp["folded"] else "unfolded", "cov" if sp["cov"] else "nocov", *sp["stats"])


@st.composite
def case_commute(draw):
    return dict(sp=draw(uvps.spec(cosmo=draw(st.integers(0, 2)), folded=False, wf=draw(st.sampled_from(["none", "approx"])))),
                op=draw(st.sampled_from(["fold", "select", "average", "bias"])), i=draw(st.integers(0, 2)))


def law_commute(c, note):
    """unit conversion commutes with folding, selection, time averaging and constant corrections"""
    sp = c["sp"]
    u = build(sp)
    fac = {i: 1.7 + i for i in range(u.Nspws)}

    def f(x):
        if c["op"] == "fold":
            x = copy.deepcopy(x)
            x.fold_spectra()
            return x
        if c["op"] == "select":
            return x.select(polpairs=[tuple(sp["pps"][c["i"] % len(sp["pps"])])], spws=[c["i"] % u.Nspws], inplace=False)
        if c["op"] == "average":
            return x.average_spectra(time_avg=True, inplace=False)
        return loss.apply_bias_correction(x, total_bias=fac, data_bias=fac, inplace=False)
    a = f(u.convert_to_deltasq(inplace=False))
    b = f(u).convert_to_deltasq(inplace=False)
    same(a, b, tol=1e-9, ignore=("history",))
    note.nt()
    note.label(c["op"])


def law_k(c, note):
    """reported k values are those of the baseline lengths, delays and cosmology"""
    sp = c["sp"]
    u = build(sp)
    s = snap(u)
    for spw in range(u.Nspws):
        for lh in (True, False):
            kp, kl = ks(u, sp, spw, lh)
            assert np.allclose(u.get_kperps(spw, little_h=lh), kp, rtol=1e-6, atol=1e-8), "kperp"
            n = np.count_nonzero(u.spw_dly_array == spw)
            if sp["folded"]:
                kl = kl[-(n - n // 2 - 1):]
                assert np.all(kl > 0)
            assert_close(u.get_kparas(spw, little_h=lh), kl, "kpara", 1e-6)
            d = [1e-7, -2e-7, 0.0]
            assert_close(u.get_kparas(spw, little_h=lh, dlys=d), ks(u, sp, spw, lh, dlys=d)[1], "kpara of delays", 1e-6)
    assert_close(u.get_blpair_seps(), [np.mean([np.linalg.norm(antpos_enu(a) - antpos_enu(b)) for a, b in u.blpair_to_antnums(int(x))]) for x in u.blpair_array], "separations", 1e-6) if not any(a == b for x in sp["blps"] for a, b in x) else None
    same(u, s)
    u = build(dict(sp, cosmo=-1))
    assert raises(u.get_kperps, 0) and raises(u.get_kparas, 0), "k without a cosmology"
    note.nt()


@st.composite
def case_cosmo(draw):
    beam = draw(st.sampled_from([None, None, "gauss", "array"]))
    sp = draw(uvps.spec(cosmo=draw(st.sampled_from([-1, 0, 1, 2])), wf=draw(st.sampled_from(["none", "approx"])), max_spw=2, max_pol=draw(st.sampled_from([1, 1, 2])), max_t=2, beam=beam is None or None, same_pol=beam is not None,
                        pols=[-5, -6, -7, -8, 1, 2, 3, 4] if beam else None))
    return dict(sp=sp, other=draw(st.sampled_from([0, 1, 2])), new=draw(st.sampled_from([0, 1, 2])), form=draw(st.sampled_from(["obj", "dict"])), over=draw(st.booleans()),
                units=draw(st.sampled_from(["h^-3 Mpc^3", "Mpc^3", "Hz str", "Hz str [beam normalization not specified]"])),
                beam=beam, taper=draw(st.sampled_from(["none", "blackman-harris", "hann"])))


def scalar_ref(cosmo, bf, ratio, sp, spw, lh, taper):
    """1 / int dnu taper^2 / B^2 * Opp/Op^2 / X2Y, for slowly varying beams"""
    q = cosmo.get_params()
    s = sp["spws"][spw]
    f0, B = 100e6 + uvps.CHAN * s["f0"], uvps.CHAN * s["nf"]
    f = np.linspace(f0, f0 + B, 9)
    z = F21 / f - 1
    x2y = np.array([DM(q, y, lh) ** 2 for y in z]) * (1 + z) ** 2 / E(q, z) * CMS / 1e3 / (100.0 if lh else q["H0"]) / F21
    return f, x2y, B


def law_cosmology(c, note):
    """set_cosmology multiplies the data by the ratio of new to old scalar, which is inversely proportional to 1/X2Y over the band; without overwrite or beam it does nothing"""
    sp = c["sp"]
    u = build(sp)
    u.norm_units, u.taper = c["units"], c["taper"]
    lh = "h^-3" in c["units"] or "Mpc" not in c["units"]
    s = snap(u)
    p = COSMOS[c["new"]]
    new = conversions.Cosmo_Conversions(**p) if c["form"] == "obj" else dict(p)
    beam = None
    if c["beam"] == "gauss":
        beam = pspecbeam.PSpecBeamGauss(0.2, np.linspace(90e6, 130e6, 7))
    elif c["beam"] == "array":
        bf = np.linspace(90e6, 130e6, 7)
        r = uvps.rng_of(sp["seed"], 77)
        op, opp = {}, {}
        for x in {"xx", "yy", "xy", "yx", "pI", "pQ", "pU", "pV"}:
            op[x], opp[x] = r.uniform(0.05, 0.1) * (bf / 1e8) ** -2, r.uniform(0.02, 0.04) * (bf / 1e8) ** -2
        beam = pspecbeam.PSpecBeamFromArray(op, opp, bf)
    kw = dict(overwrite=c["over"], new_beam=beam, verbose=False)
    keep = copy.deepcopy((new if c["form"] == "dict" else new.get_params(), vars(beam) if beam else None))
    u.set_cosmology(new, **kw)
    now = (new if c["form"] == "dict" else new.get_params(), {k: v for k, v in vars(beam).items()} if beam else None)
    assert keep[0] == now[0], "cosmology argument modified"
    if beam:
        for k in ("beam_freqs", "fwhm", "op", "opp"):
            if k in keep[1]:
                same_any(keep[1][k], now[1][k])
    if (sp["cosmo"] >= 0 and not c["over"]) or (not sp["beam"] and beam is None):
        same(u, s)
        note.label("refused")
        return
    ref = conversions.Cosmo_Conversions(**p)
    assert u.cosmo == ref
    touched = ["data_array", "scalar_array", "cosmo", "norm_units", "stats_array", "cov_array_real", "cov_array_imag"] + (["OmegaP", "OmegaPP", "beam_freqs"] if beam else [])
    untouched(s, u, touched)
    assert u.norm_units == (c["units"] if "Mpc" in c["units"] else "h^-3 Mpc^3")
    if beam:
        assert np.array_equal(u.beam_freqs, beam.beam_freqs)
        assert_close(np.array(u.OmegaP), np.array(beam.get_Omegas(list(u.polpair_array))[0]), "OmegaP")
    for spw in range(u.Nspws):
        ratio = u.scalar_array[spw] / s["scalar_array"][spw]
        assert_close(u.data_array[spw], s["data_array"][spw] * ratio[None, None, :], "data rescaled by the ratio of scalars", 1e-10)
        f, x2y, B = scalar_ref(ref, None, None, sp, spw, lh, c["taper"])
        for j in range(u.Npols):
            om = (u.OmegaPP[:, j] / u.OmegaP[:, j] ** 2)
            if beam is not None:
                # smooth beam: the scalar is (X2Y Op^2 / Opp) B / <taper^2>
                o = np.interp(f, u.beam_freqs, om)
                import uvtools.dspec as dspec
                n = sp["spws"][spw]["nf"]
                w = np.ones(n) if c["taper"] == "none" else dspec.gen_window(c["taper"], n) ** 2
                # the taper is sampled per channel with a half-width first and a 1.5-width last channel
                ww = w.copy()
                d = np.ones(n)
                d[0], d[-1] = 0.5, 1.5
                e = B / np.mean(o / x2y) / (np.sum(ww * d) / n)
                assert abs(u.scalar_array[spw, j] / e - 1) < 0.02, "scalar %s instead of %s" % (u.scalar_array[spw, j], e)
    # the dependence on the cosmology alone, to high precision; and back
    v = copy.deepcopy(u)
    v.set_cosmology(COSMOS[c["other"]], overwrite=True, verbose=False)
    for spw in range(u.Nspws):
        x, y = [scalar_ref(q, None, None, sp, spw, lh, c["taper"])[1] for q in (u.cosmo, v.cosmo)]
        assert np.all(np.abs(v.scalar_array[spw] / u.scalar_array[spw] / (np.mean(y) / np.mean(x)) - 1) < 1e-3), "scalar does not scale as X2Y"
    v.set_cosmology(ref, overwrite=True, verbose=False)
    for spw in range(u.Nspws):
        assert_close(v.data_array[spw], u.data_array[spw], "there and back", 1e-8)
    note.nt()
    note.label(c["units"][:8], "new beam" if beam else "own beam")


def same_any(a, b):
    if isinstance(a, dict):
        assert sorted(a) == sorted(b)
        for k in a:
            same_any(a[k], b[k])
    else:
        assert np.array_equal(a, b), "beam argument modified"


@st.composite
def case_bias(draw):
    sp = draw(uvps.spec())
    sp["rstats"] = draw(st.sampled_from([0, 0, 1, 2]))
    n = len(sp["spws"])
    f = st.lists(st.sampled_from([1.0, 0.5, 1.37, 2.0, 3.3, 10.0]), min_size=n, max_size=n)
    return dict(sp=sp, total=draw(st.one_of(st.none(), f)), data=draw(st.one_of(st.none(), f)))


def law_bias(c, note):
    """a total correction scales data and statistics, its square the covariances; a data correction only the data; each in its own window"""
    u = build(c["sp"])
    s = snap(u)
    d = [dict(enumerate(x)) if x is not None else None for x in (c["total"], c["data"])]
    keep = copy.deepcopy(d)
    out = loss.apply_bias_correction(u, total_bias=d[0], data_bias=d[1], inplace=False)
    same(u, s)
    assert d == keep
    untouched(s, out, ["data_array", "stats_array", "cov_array_real", "cov_array_imag"])
    for spw in range(u.Nspws):
        t = c["total"][spw] if c["total"] else 1.0
        e = c["data"][spw] if c["data"] else 1.0
        assert_close(out.data_array[spw], s["data_array"][spw] * t * e, "data")
        for n in s.get("stats_array", {}):
            assert_close(out.stats_array[n][spw], s["stats_array"][n][spw] * t, "stats")
        if c["sp"]["cov"]:
            assert_close(out.cov_array_real[spw], s["cov_array_real"][spw] * t**2, "cov")
            assert_close(out.cov_array_imag[spw], s["cov_array_imag"][spw] * t**2, "cov")
    v = copy.deepcopy(u)
    w = loss.apply_bias_correction(v, total_bias=d[0], data_bias=d[1])
    assert w is v
    same(v, out)
    # successive corrections multiply
    if c["total"]:
        x = loss.apply_bias_correction(loss.apply_bias_correction(u, total_bias=d[0], inplace=False), total_bias=d[0], inplace=False)
        y = loss.apply_bias_correction(u, total_bias={k: v**2 for k, v in d[0].items()}, inplace=False)
        same(x, y, tol=1e-10)
    note.nt(any(x != 1 for y in (c["total"], c["data"]) for x in y or []))


LAWS = [
    Law("deltasq", case(), law_deltasq, quick=600, shards=2),
    Law("commute", case_commute(), law_commute, quick=400, shards=1),
    Law("k", case(), law_k, quick=300),
    Law("cosmology", case_cosmo(), law_cosmology, quick=90, thorough=1500, shards=5, weight=3),
    Law("bias", case_bias(), law_bias, quick=500),
]
