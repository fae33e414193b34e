"""C27: simulated noise and foregrounds have the stated statistics and layout."""
import copy
import warnings

import numpy as np
from hypothesis import strategies as st

from hera_pspec import PSpecData, testing, utils
from hera_pspec.conversions import Cosmo_Conversions
from hera_pspec.pspecbeam import PSpecBeamGauss
from pv import beams, dsets, uvps
from pv.core import Law, Skip
from pv.dsets import NUMPOL
from pv.uvps import COSMOS, raises

RULE = ("Cases are generated datasets (flags, samples, integration times, polarizations) with simulation options, or shapes with covariance parameters; non-trivial when the expected noise level varies over the "
        "dataset, the time axis is extended, or signal and noise are told apart.")
ASSUMPTIONS = ["the same seed gives the same draws for the same shape of dataset; expected levels are compared to 1e-9 (with a beam 1e-4) through that, and by statistics of at least 2000 samples at 7 sigma",
               "the level of pseudo-Stokes noise in Jy is only claimed up to a constant (the factor is applied to temperature and to conversion)", "extension needs two times and unprojected data"]

warnings.simplefilter("ignore")
PST = ("pI", "pQ", "pU", "pV")
C0, KB = 299792458.0, 1.380649e-23


def quiet(f, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f(*a, **k)


# ------------------------------------------------------------------------------------------------ thermal noise
POLSETS = [["xx", "yy", "xy", "yx"], list(PST), ["pI", "xx"], ["pQ", "yy", "pV"]]


@st.composite
def noise_case(draw):
    return dict(d=draw(dsets.dspec(nd=1, pols=draw(st.sampled_from(POLSETS)), npol=3, nf=(1, 7))), T=draw(st.sampled_from([1.0, 300.0, 17.5, 0.0])), cw=draw(st.booleans()),
                beam=draw(st.sampled_from([None, None, "flat", "gauss"])), whiten=draw(st.booleans()), inplace=draw(st.booleans()), seed=draw(st.one_of(st.integers(0, 2**31), st.none())),
                check=draw(st.booleans()))


def mkbeam(kind):
    return None if kind is None else beams.FlatBeam(3) if kind == "flat" else PSpecBeamGauss(0.2, beams.BF)


def rj(freqs, omega):
    """Jy of 1 K in a beam of solid angle omega"""
    return 1e26 * 2 * KB * omega * np.asarray(freqs) ** 2 / C0 ** 2


def area(kind, pol, freqs):
    b = mkbeam(kind)
    from scipy.interpolate import interp1d
    return interp1d(b.beam_freqs, b.power_beam_int(pol), kind="cubic")(freqs)


def same_but(a, b, skip):
    for k in a:
        if k not in skip:
            assert uvps_eq(a[k], b[k]), "%s changed" % k


def uvps_eq(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and bool(np.all((a == b) | ((a != a) & (b != b))))
    return a == b


def run_noise(u, c, **kw):
    kw.setdefault("inplace", False)
    if c["seed"] is None:
        np.random.seed(77)
    return testing.noise_sim(u, c["T"], beam=mkbeam(c["beam"]), seed=c["seed"], whiten=c["whiten"], run_check=c["check"], **kw)


def unit_draws(u, seed):
    """the unit-variance draws of this shape of dataset and seed"""
    v = copy.deepcopy(u)
    v.nsample_array = np.ones_like(v.nsample_array)
    v.integration_time = np.ones_like(v.integration_time)
    v.channel_width = np.ones_like(v.channel_width)
    v.polarization_array = np.array([-5, -6, -7, -8][:v.Npols])
    return testing.noise_sim(v, 1.0, seed=77 if seed is None else seed, run_check=False).data_array


def noise(c, note):
    """every sample is a unit complex Gaussian draw times Tsys/sqrt(integration time x samples x channel width) (over sqrt 2 for pseudo-Stokes), converted to Jy with the beam; samples without data are flagged; only data, flags and units change"""
    u = quiet(dsets.build_one, c["d"], 0)
    if c["cw"]:
        u.channel_width = uvps.rng_of(c["d"]["seed"], 61).uniform(0.5, 2, u.Nfreqs) * 1e5
    before = dsets.dsnap(u)
    z = unit_draws(u, c["seed"])
    arg = copy.deepcopy(u)
    out = run_noise(arg, c, inplace=c["inplace"])
    if c["inplace"]:
        assert out is None, "inplace returned %r" % (out,)
        out = arg
    else:
        same_but(before, dsets.dsnap(arg), ())
        assert not np.shares_memory(out.flag_array, arg.flag_array) and not np.shares_memory(out.nsample_array, arg.nsample_array)
    same_but(before, dsets.dsnap(out), ("data_array", "flag_array", "vis_units") + (("nsample_array",) if c["whiten"] else ()))
    ns = np.ones_like(before["nsample_array"]) if c["whiten"] else before["nsample_array"]
    fl = np.zeros_like(before["flag_array"]) if c["whiten"] else before["flag_array"].copy()
    assert np.array_equal(out.nsample_array, ns), "samples"
    none = ns == 0
    fl |= none
    assert np.array_equal(out.flag_array, fl), "flags"
    assert np.all(np.isnan(out.data_array[none])), "samples without data have noise"
    rms = np.zeros(out.data_array.shape)
    for (i, f, p), n in np.ndenumerate(ns):
        if n:
            rms[i, f, p] = c["T"] / np.sqrt(before["integration_time"][i] * float(n) * before["channel_width"][f])
    assert out.vis_units == ("K str" if c["beam"] is None else "Jy"), "units %s" % out.vis_units
    fac = []
    for k, pn in enumerate(before["polarization_array"]):
        pol = NUMPOL[int(pn)]
        r = rms[..., k]
        if c["beam"] is not None:
            r = r * rj(before["freq_array"], area(c["beam"], pol, before["freq_array"]))[None]
        if pol in PST and c["beam"] is None:
            r = r / np.sqrt(2)
        want, got, ok = (z[..., k] * r), out.data_array[..., k], ~none[..., k]
        if pol in PST and c["beam"] is not None and c["T"] and ok.any():
            q = (got / want)[ok]
            assert 0.4 < q[0].real < 0.8, "pseudo-Stokes factor %s" % q[0]
            fac.append(q[0].real)
            assert abs(fac[0] - fac[-1]) < 1e-3, "pseudo-Stokes polarizations have different factors: %s" % fac
            want = want * q[0].real
        tol = 1e-7 if c["beam"] is None else 1e-4
        assert np.allclose(got[ok], want[ok], rtol=tol, atol=tol * (np.abs(want[ok]).max() if ok.any() else 0)), "noise of %s: %s, expected %s" % (pol, got[ok][:3], want[ok][:3])
    note.nt(c["T"] > 0 and (c["d"]["ns"] in ("blt", "full", "zero") and not c["whiten"] or c["d"]["itime"] == "vary" or c["cw"] or c["beam"] is not None))
    note.label("beam" if c["beam"] else "no beam", "whiten" if c["whiten"] else "as given", "inplace" if c["inplace"] else "copy")


@st.composite
def ext_case(draw):
    return dict(d=draw(dsets.dspec(nd=1, npol=2, nf=(1, 4), nt=(2, 5), lstwrap=True, units=["Jy", "uncalib"][draw(st.integers(0, 1))])), n=draw(st.integers(1, 3)), seed=draw(st.integers(0, 999)), whiten=draw(st.booleans()), inplace=draw(st.booleans()),
                T=1.0, beam=None, check=draw(st.booleans()), wrap=draw(st.integers(0, 5)), nfl=draw(st.booleans()))


def extend(c, note):
    """extending repeats the layout of baselines, samples and flags Nextend times, with the time and LST steps continued without gap or overlap"""
    d = dict(c["d"], t0=c["d"]["t0"])
    u = quiet(dsets.build_one, d, 0)
    if c["wrap"] < d["nt"] and not c["check"]:  # LST passes zero within the given times
        lst0 = u.lst_array[np.argmin(u.time_array)]
        t = np.unique(u.time_array)
        dl = d["dt"] / 86400.0 * 2 * np.pi
        ti = np.searchsorted(t, u.time_array)
        u.lst_array = (ti * dl - (c["wrap"] - 0.5) * dl) % (2 * np.pi)
    before = dsets.dsnap(u)
    nt, n, nb = d["nt"], c["n"], len(before["time_array"])
    arg = copy.deepcopy(u)
    out = testing.noise_sim(arg, c["T"], seed=c["seed"], whiten=c["whiten"], Nextend=float(n) if c["nfl"] else n, inplace=c["inplace"], run_check=c["check"])
    if c["inplace"]:
        assert out is None
        out = arg
    else:
        same_but(before, dsets.dsnap(arg), ())
    assert (out.Ntimes, out.Nblts, out.Nbls) == (nt * (n + 1), nb * (n + 1), before["Nbls"]), "%d times, %d rows" % (out.Ntimes, out.Nblts)
    for k in ("freq_array", "channel_width", "polarization_array"):
        assert np.array_equal(getattr(out, k), before[k]), k
    t = np.unique(before["time_array"])
    dt = np.median(np.diff(t))
    first = np.array([before["lst_array"][np.argmax(before["time_array"] == x)] for x in t])
    dl = np.median(np.diff(np.unwrap(first)))
    for bl in sorted({(int(a), int(b)) for a, b in zip(before["ant_1_array"], before["ant_2_array"])}):
        m0 = np.where((before["ant_1_array"] == bl[0]) & (before["ant_2_array"] == bl[1]))[0]
        m0 = m0[np.argsort(before["time_array"][m0], kind="stable")]
        m = np.where((out.ant_1_array == bl[0]) & (out.ant_2_array == bl[1]))[0]
        m = m[np.argsort(out.time_array[m], kind="stable")]
        assert len(m) == nt * (n + 1), "rows of %s" % (bl,)
        want = (before["time_array"][m0][None] + (np.arange(n + 1) * dt * nt)[:, None]).ravel()
        assert np.abs(out.time_array[m] - want).max() < 1e-3 * dt, "times of %s: steps %s" % (bl, np.diff(out.time_array[m]) / dt)
        wl = (before["lst_array"][m0][None] + (np.arange(n + 1) * dl * nt)[:, None]).ravel()
        off = np.angle(np.exp(1j * (out.lst_array[m] - wl)))
        assert np.abs(off).max() < 0.02 * abs(dl), "LSTs of %s off by %s steps" % (bl, off / dl)
        assert np.all((out.lst_array[m] >= 0) & (out.lst_array[m] < 2 * np.pi)), "LST range"
        for j in range(n + 1):
            s = m[j * nt:(j + 1) * nt]
            assert np.array_equal(out.nsample_array[s], np.ones_like(before["nsample_array"][m0]) if c["whiten"] else before["nsample_array"][m0]), "samples"
            f = before["flag_array"][m0] & (not c["whiten"]) | ((before["nsample_array"][m0] == 0) & (not c["whiten"]))
            assert np.array_equal(out.flag_array[s], f), "flags"
            assert np.array_equal(out.integration_time[s], before["integration_time"][m0]), "integration times"
            assert np.allclose(out.uvw_array[s], before["uvw_array"][m0]), "uvw"
    ok = out.nsample_array > 0
    rms = 1 / np.sqrt(out.integration_time[:, None, None] * out.nsample_array.astype(float) * out.channel_width[None, :, None], where=ok, out=np.ones(ok.shape))
    z = (out.data_array / rms)[ok]
    assert np.isfinite(z).all() and (len(z) < 2 or len(np.unique(z)) == len(z)), "the same noise in several samples"
    note.nt(True)
    note.label("%d more" % n)


@st.composite
def stat_case(draw):
    return dict(d=draw(dsets.dspec(nd=1, pols=draw(st.sampled_from(POLSETS[:1])), nf=(44, 60), nt=(12, 16), max_bl=3, units="Jy")), T=draw(st.sampled_from([1.0, 250.0])), n=draw(st.integers(3, 4)), seed=draw(st.integers(0, 2**31)),
                beam=None)


def whiteness(z, what):
    """z (rows, channels) unit circular white noise: second moments at 7 sigma"""
    n = z.size
    assert n >= 2000
    s = 7 / np.sqrt(n)
    checks = [("mean", abs(z.mean()), 0, s), ("power", (np.abs(z) ** 2).mean(), 1, s), ("real power", (z.real ** 2).mean(), 0.5, s), ("imaginary power", (z.imag ** 2).mean(), 0.5, s),
              ("real-imaginary correlation", (z.real * z.imag).mean(), 0, s), ("neighbouring channels", np.abs((z[:, 1:] * z[:, :-1].conj()).mean()), 0, 1.2 * s),
              ("neighbouring rows", np.abs((z[1:] * z[:-1].conj()).mean()), 0, 1.2 * s), ("fourth moment", (np.abs(z) ** 4).mean(), 2, 12 * s)]
    for name, got, want, tol in checks:
        assert abs(got - want) < tol, "%s: %s is %.4f, expected %.4f +- %.4f" % (what, name, got, want, tol)


def stats(c, note):
    """the noise over a dataset divided by its expected level is white, circular and Gaussian with unit variance, and differs between seeds"""
    u = quiet(dsets.build_one, dict(c["d"], ns="blt", fl="none"), 0)
    out = testing.noise_sim(u, c["T"], seed=c["seed"], Nextend=c["n"])
    rms = c["T"] / np.sqrt(out.integration_time[:, None, None] * out.nsample_array.astype(float) * out.channel_width[None, :, None])
    z = out.data_array / rms
    whiteness(np.concatenate([z[..., k] for k in range(z.shape[2])]), "noise")
    v = testing.noise_sim(u, c["T"], seed=(c["seed"] + 1) % 2**31, Nextend=c["n"])
    x = (v.data_array * out.data_array.conj() / rms ** 2).mean()
    assert abs(x) < 8 / np.sqrt(z.size), "realizations of two seeds correlate (%s)" % x
    w = testing.noise_sim(u, c["T"], Nextend=c["n"])
    x = testing.noise_sim(u, c["T"], Nextend=c["n"])
    assert not np.array_equal(w.data_array, x.data_array), "two unseeded realizations are equal"
    note.nt(True)


# ------------------------------------------------------------------------------------------------ foregrounds with a Gaussian covariance
@st.composite
def fg_case(draw):
    return dict(amp=draw(st.sampled_from([1.0, 1e3, 2e-2])), scale=draw(st.sampled_from([2e5, 1e6, 1e7, 3e6])), nf=draw(st.integers(2, 6)), df=draw(st.sampled_from([1e5, 1e6])), nt=draw(st.integers(1, 9)), seed=draw(st.integers(0, 2**31)))


def fg(c, note):
    """real and imaginary parts are independent draws with covariance amp*exp(-(df/scale)^2); independent in time, or one draw repeated"""
    fr = 120e6 + c["df"] * np.arange(c["nf"])
    np.random.seed(c["seed"])
    N = 2500
    s = testing.gauss_cov_fg(c["amp"], c["scale"], fr, Ntimes=N, constant_in_time=False)
    assert s.shape == (N, c["nf"])
    C = np.array([[c["amp"] * np.exp(-((a - b) / c["scale"]) ** 2) for a in fr] for b in fr])
    tol = 8 * c["amp"] * np.sqrt(2 / N)
    for name, x, y, want in (("real", s.real, s.real, C), ("imaginary", s.imag, s.imag, C), ("real-imaginary", s.real, s.imag, 0 * C), ("successive times", s.real[1:], s.real[:-1], 0 * C)):
        got = x.T @ y / len(x)
        assert np.abs(got - want).max() < tol, "%s covariance %s, expected %s" % (name, got, want)
    np.random.seed(c["seed"])
    q = testing.gauss_cov_fg(c["amp"], c["scale"], fr, c["nt"])
    assert q.shape == (c["nt"], c["nf"]) and np.array_equal(q, np.repeat(q[:1], c["nt"], axis=0)), "not constant in time"
    np.random.seed(c["seed"])
    assert np.array_equal(q, testing.gauss_cov_fg(c["amp"], c["scale"], fr, Ntimes=c["nt"], constant_in_time=True)), "not reproducible"
    m = np.array([testing.gauss_cov_fg(c["amp"], c["scale"], fr, Ntimes=1)[0] for _ in range(40)])
    p = (np.abs(m) ** 2).mean() / (2 * c["amp"])
    assert 0.15 < p < 4.5, "constant signals have power %.3f of the stated" % p
    assert np.abs(m[0] - m[1]).max() > 0
    note.nt(c["df"] < 2 * c["scale"])


# ------------------------------------------------------------------------------------------------ noise from autocorrelations
@st.composite
def auto_case(draw):
    return dict(nt=draw(st.integers(1, 6)), nf=draw(st.integers(2, 6)), seed=draw(st.integers(0, 2**20)), vis=draw(st.sampled_from(["array", "array", "row", "const"])), om=draw(st.sampled_from(["array", "list", "call"])),
                t=draw(st.sampled_from([1.0, 10.7, "rows"])), cw=draw(st.sampled_from([None, 1e5, 2.5e5])), trx=draw(st.sampled_from([0.0, 0.0, 100.0, 35.5])), bad=draw(st.sampled_from([0, 0, 1])), df=draw(st.sampled_from([1e5, 1e6])))


def autonoise(c, note):
    """noise in Jy has rms (autocorrelation + receiver temperature converted with the beam area)/sqrt(integration time x channel width), one row per LST"""
    r = uvps.rng_of(c["seed"], 62)
    nt, nf = c["nt"], c["nf"]
    fr = 110e6 + c["df"] * np.arange(nf) + (r.uniform(0, 0.2, nf) * c["df"] if c["cw"] else 0)
    lsts = np.linspace(1, 1.2, nt)
    om = r.uniform(0.02, 0.1, nf)
    vis = {"array": r.uniform(10, 1000, (nt, nf)), "row": r.uniform(10, 1000, nf), "const": 321.5}[c["vis"]]
    arg = {"array": om, "list": list(om), "call": lambda f: np.interp(f, fr, om)}[c["om"]]
    t = r.uniform(1, 20, (nt, 1)) if c["t"] == "rows" else c["t"]
    keep = copy.deepcopy((lsts, fr, om, vis, t))
    np.random.seed(c["seed"])
    got = testing.sky_noise_jy_autos(lsts, fr, vis, arg, t, channel_width=c["cw"], Trx=c["trx"])
    for a, b in zip(keep, (lsts, fr, om, vis, t)):
        assert np.array_equal(a, b), "an argument was changed"
    np.random.seed(c["seed"])
    one = testing.sky_noise_jy_autos(lsts, fr, np.ones((nt, nf)), om, 1.0, channel_width=1.0)
    cw = c["cw"] or np.mean(np.diff(fr))
    want = one * (np.broadcast_to(vis, (nt, nf)) + c["trx"] * rj(fr, om)) / np.sqrt(t * cw)
    assert got.shape == (nt, nf), "shape %s" % (got.shape,)
    assert np.allclose(got, want, rtol=1e-4, atol=0), "noise %s, expected %s" % (got[0, :2], want[0, :2])
    if c["bad"]:
        assert raises(testing.sky_noise_jy_autos, lsts, fr, vis, np.ones(nf + 1), t), "beam area of another size accepted"
    big = testing.sky_noise_jy_autos(np.zeros(500), np.linspace(1e8, 1.1e8, 8), np.ones((500, 8)), np.ones(8), 1.0, channel_width=1.0)
    whiteness(big, "noise")
    note.nt(c["trx"] > 0 or c["vis"] != "const")
    note.label(c["vis"], c["om"])


class AnyBeam(PSpecBeamGauss):
    """a Gaussian beam, whatever the name of the polarization"""

    def __init__(self):
        PSpecBeamGauss.__init__(self, 0.2, beams.BF)


@st.composite
def sky_case(draw):
    return dict(d=draw(dsets.dspec(nd=1, pols=draw(st.sampled_from([["xx", "yy"], ["pI", "pQ", "pU", "pV"]])), npol=4, nf=(2, 6), autos=True, nsamp=True)), per_bl=draw(st.booleans()), in_time=draw(st.booleans()),
                seed=draw(st.integers(0, 2**31)), divide=draw(st.booleans()), amp=draw(st.sampled_from([1.0, 1000.0])), scale=draw(st.sampled_from([0.5, 10.0])), bad=draw(st.sampled_from([None, None, "xy", "yx"])))


def sky(c, note):
    """crosses become noise set by the two autocorrelations plus the drawn signal, shared over baselines or times as asked; autocorrelations, flags and metadata stay; the input stays"""
    d = dict(c["d"])
    if d["pols"][0] in PST:
        d["pols"] = ["pI"] + [p for p in d["pols"] if p != "pI"]
        if d["seed"] % 3 == 0:
            d["pols"] = d["pols"][::-1]
    u = quiet(dsets.build_one, d, 0)
    cross = u.ant_1_array != u.ant_2_array
    u.data_array[~cross] += 0.3j  # only the real part of an autocorrelation sets noise
    before = dsets.dsnap(u)
    kw = dict(constant_per_bl=c["per_bl"], constant_in_time=c["in_time"], bl_loop_seed=c["seed"], divide_by_nsamp=c["divide"], cov_length_scale=c["scale"])
    if c["bad"]:
        v = copy.deepcopy(u)
        v.polarization_array[0] = {"xy": -7, "yx": -8}[c["bad"]]
        assert raises(testing.sky_noise_sim, v, AnyBeam(), **kw), "cross-hand polarization accepted"
    tiny = 1e-24
    out = testing.sky_noise_sim(u, AnyBeam(), cov_amp=tiny, **kw)  # noise
    same_but(before, dsets.dsnap(u), ())
    same_but(before, dsets.dsnap(out), ("data_array",))
    assert np.array_equal(out.data_array[~cross], before["data_array"][~cross]), "autocorrelations changed"
    ref = copy.deepcopy(u)
    ref.data_array[~cross] = 1.0
    ref.nsample_array[:] = 1
    ref.integration_time[:] = 1.0
    ref = testing.sky_noise_sim(ref, AnyBeam(), cov_amp=tiny, **dict(kw, divide_by_nsamp=False))
    pols = [NUMPOL[int(p)] for p in before["polarization_array"]]
    itime = np.median(before["integration_time"])
    row = {(int(a), int(b), float(t)): k for k, (a, b, t) in enumerate(zip(before["ant_1_array"], before["ant_2_array"], before["time_array"]))}
    for k in np.where(cross)[0]:
        a, b, t = int(before["ant_1_array"][k]), int(before["ant_2_array"][k]), float(before["time_array"][k])
        for p, pol in enumerate(pols):
            q = pols.index("pI") if pol in PST else p
            lev = np.sqrt(before["data_array"][row[a, a, t], :, q].real * before["data_array"][row[b, b, t], :, q].real) / np.sqrt(itime)
            if c["divide"]:
                n = before["nsample_array"][k, :, p].astype(float)
                lev = np.where(n > 0, lev / np.sqrt(np.where(n > 0, n, 1)), 0.0)
            want = ref.data_array[k, :, p] * lev
            assert np.allclose(out.data_array[k, :, p], want, rtol=1e-6, atol=1e-9), "noise of %s %s: %s, expected %s" % ((a, b), pol, out.data_array[k, :2, p], want[:2])
    # signal: integrate long enough and only the signal remains
    v = copy.deepcopy(u)
    v.integration_time[:] = 1e40
    s = testing.sky_noise_sim(v, AnyBeam(), cov_amp=c["amp"], **kw).data_array[cross]
    t = before["time_array"][cross]
    bl = before["baseline_array"][cross] if "baseline_array" in before else (before["ant_1_array"] * 1000 + before["ant_2_array"])[cross]
    assert np.isfinite(s).all() and np.abs(s).max() > 0
    for i in range(len(t)):
        for j in range(i):
            st_, sb = t[i] == t[j], bl[i] == bl[j]
            if c["per_bl"] and (st_ or c["in_time"]):
                assert np.allclose(s[i], s[j]), "signal differs between baselines"
            elif not c["per_bl"] and sb and c["in_time"]:
                assert np.allclose(s[i], s[j]), "signal differs between times"
            else:
                assert not np.allclose(s[i], s[j], rtol=1e-6), "signal of two baselines or times is the same"
    for p in range(1, len(pols)):
        assert np.allclose(s[..., p], s[..., 0]) == c["per_bl"], "signal over polarizations"
    again = testing.sky_noise_sim(v, AnyBeam(), cov_amp=c["amp"], **kw).data_array[cross]
    if not c["per_bl"]:
        assert np.array_equal(s, again), "the seed does not reproduce the signal"
    # sum: noise and signal are drawn independently and added
    w = testing.sky_noise_sim(u, AnyBeam(), cov_amp=c["amp"], **kw).data_array[cross]
    if not c["per_bl"]:
        assert np.allclose(w - s, out.data_array[cross], rtol=1e-6, atol=1e-6 * np.abs(w).max()), "the sum is not noise plus signal"
    else:
        diff = w - out.data_array[cross]
        assert np.allclose(diff[t == t[0]], diff[t == t[0]][:1, :, :1], rtol=1e-6, atol=1e-6 * np.abs(w).max()), "the sum is not noise plus one signal"
    note.nt(True)
    note.label("per baseline" if not c["per_bl"] else "common", "constant" if c["in_time"] else "varying", "pI" in pols and "stokes" or "linear")


def skystat(c, note):
    """over many times the signal of every baseline has the stated covariance (its length in MHz) and the noise unit variance"""
    d = dict(c["d"], nt=420, nf=6, bls=c["d"]["bls"][:1], pols=c["d"]["pols"][:1] if c["d"]["pols"][0] not in PST else ["pI"], ns="one")
    u = quiet(dsets.build_one, d, 0)
    cross = u.ant_1_array != u.ant_2_array
    np.random.seed(c["seed"])
    kw = dict(constant_per_bl=c["per_bl"], constant_in_time=False, bl_loop_seed=c["seed"])
    v = copy.deepcopy(u)
    v.integration_time[:] = 1e40
    s = testing.sky_noise_sim(v, AnyBeam(), cov_amp=c["amp"], cov_length_scale=c["scale"], **kw).data_array[cross][..., 0]
    f = u.freq_array / 1e6
    C = c["amp"] * np.exp(-((f[:, None] - f[None]) / c["scale"]) ** 2)
    got = (s.T @ s.conj()) / len(s)
    assert np.abs(got - 2 * C).max() < 2 * 8 * c["amp"] / np.sqrt(len(s)), "signal covariance %s, expected %s" % (got[0], 2 * C[0])
    u.data_array[~cross] = 1.0
    n = testing.sky_noise_sim(u, AnyBeam(), cov_amp=1e-24, **kw).data_array[cross][..., 0]
    whiteness(n * np.sqrt(np.median(u.integration_time) * np.mean(np.diff(u.freq_array))), "noise")
    note.nt(True)


# ------------------------------------------------------------------------------------------------ spectra straight from data
@st.composite
def data_case(draw):
    d = draw(dsets.dspec(nd=1, npol=2, nf=(3, 7), nt=(1, 3), max_bl=4, std=draw(st.booleans())))
    d["bls"] = d["bls"] + [list(b) for b in dsets.ALLBLS if list(b) not in d["bls"]][:2]
    n = len(d["bls"])
    groups = draw(st.lists(st.lists(st.integers(0, n - 1), min_size=draw(st.sampled_from([2, 2, 1])), max_size=4, unique=True), min_size=1, max_size=2))
    kw = {}
    if draw(st.booleans()):
        kw["norm"] = "I"
    if draw(st.booleans()):
        kw["little_h"] = False
    if draw(st.booleans()):
        kw["store_window"] = draw(st.booleans())
    spws = draw(st.sampled_from([None, [[0, d["nf"]]], [[0, 2], [1, 3]], [[1, 3]]]))
    nd = draw(st.sampled_from([None, None, 2, 1]))
    return dict(d=d, groups=groups, flat=draw(st.booleans()), spws=spws, nd=None if nd is None else [nd] * (1 if spws is None else len(spws)), taper=draw(st.sampled_from(["none", "bh", "hann"])),
                w=draw(st.sampled_from(["identity", "identity", "dayenu"])), beam=draw(st.sampled_from([None, "gauss", "flat"])), cosmo=draw(st.sampled_from([None, 1])), kw=kw, bad=draw(st.sampled_from([None] * 4 + ["tuple", "lists", "mixed"])))


def from_data(c, note):
    """the spectra equal those of PSpecData given the data twice and the pairs of different baselines of every group, with the given options; the inputs stay"""
    d = c["d"]
    u = quiet(dsets.build_one, d, 0)
    std = quiet(dsets.build_one, d, 0, "std") if d["std"] else None
    bls = [tuple(b) for b in d["bls"]]
    groups = [[bls[k] for k in g] for g in c["groups"]]
    arg = copy.deepcopy(groups)
    if c["flat"]:
        groups = groups[:1]
        arg = copy.deepcopy(groups[0])
    pairs = [(g[i], g[j]) for g in groups for i in range(len(g)) for j in range(i + 1, len(g))]
    rp = None
    if c["w"] == "dayenu":
        rp = dict(filter_centers=[0.0], filter_half_widths=[3e-7], filter_factors=[1e-3])
    beam = mkbeam(c["beam"])
    given = None if beam is None else beam.cosmo
    cosmo = None if c["cosmo"] is None else Cosmo_Conversions(**COSMOS[c["cosmo"]])
    kw = dict(c["kw"], spw_ranges=None if c["spws"] is None else [tuple(s) for s in c["spws"]], taper=c["taper"], n_dlys=c["nd"], r_params=rp)
    call = lambda g: quiet(testing.uvpspec_from_data, u, g, data_std=std, data_weighting=c["w"], beam=beam, cosmo=cosmo, **copy.deepcopy(kw))
    if c["bad"]:
        g = {"tuple": tuple(groups), "lists": [[list(b) for b in g] for g in groups], "mixed": [groups[0], tuple(groups[0])]}[c["bad"]]
        assert raises(call, g), "malformed baseline groups accepted (%s)" % c["bad"]
    if not pairs:
        raise Skip()
    before, sb = dsets.dsnap(u), None if std is None else dsets.dsnap(std)

    def hand():
        b = copy.copy(beam)
        if b is not None and cosmo is not None:
            b.cosmo = cosmo
        ds = PSpecData(dsets=[u, u], wgts=[None, None], dsets_std=None if std is None else [std, std], labels=["d1", "d2"], beam=b)
        pol = int(u.polarization_array[0])
        k2 = copy.deepcopy(kw)
        return ds.pspec([p[0] for p in pairs], [p[1] for p in pairs], (0, 1), (pol, pol), input_data_weight=c["w"], verbose=False, store_cov=std is not None, cov_model="dsets" if std is not None else "empirical", **k2)
    try:
        want = quiet(hand)
    except Exception as e:
        try:
            call(arg)
        except Exception as e2:
            assert type(e2) is type(e), "by hand %r, uvpspec_from_data %r" % (e, e2)
            note.label("refused")
            return
        raise AssertionError("by hand refused (%r), accepted by uvpspec_from_data" % e)
    got = call(arg)
    uvps.same(uvps.snap(got), uvps.snap(want), tol=1e-10, ignore=("history",))
    same_but(before, dsets.dsnap(u), ())
    if std is not None:
        same_but(sb, dsets.dsnap(std), ())
    assert arg == (groups[0] if c["flat"] else groups), "baseline groups changed"
    assert beam is None or beam.cosmo is given, "the beam was given another cosmology"
    note.nt(True)
    note.label(c["w"], c["beam"], "std" if std is not None else "no std", "flat" if c["flat"] else "nested")


# ------------------------------------------------------------------------------------------------ files
@st.composite
def file_case(draw):
    return dict(d=draw(dsets.dspec(nd=1, pols=["xx", "yy"], npol=2, nf=(2, 5), nt=(2, 3), autos=True, units="Jy", lstwrap=False)), seed=draw(st.integers(0, 999)), n=draw(st.integers(0, 1)), beam=draw(st.booleans()), inplace=draw(st.booleans()),
                per_bl=draw(st.booleans()), whiten=draw(st.booleans()))


def files(c, note):
    """paths to visibility and beam files give the same as the objects they hold"""
    import os
    from pyuvdata import UVData
    from checks.c25 import beamfile
    from hera_pspec.pspecbeam import PSpecBeamUV
    from pv.scratch import scratch
    d = dict(c["d"], itime="const", blorder="time")
    if len(d["bls"]) < 2:
        d["bls"] = d["bls"] + [list(b) for b in dsets.ALLBLS if list(b) not in d["bls"]][:1]
    u = quiet(dsets.build_one, d, 0)
    with scratch() as tmp:
        mir, h5, bf = (os.path.join(tmp, x) for x in ("a.uv", "a.uvh5", "b.beamfits"))
        quiet(u.write_miriad, mir)
        quiet(u.write_uvh5, h5)
        quiet(beamfile, bf, c["seed"])
        v, w = UVData(), UVData()
        try:
            quiet(v.read_miriad, mir)
        except ValueError:
            raise Skip()  # pyuvdata does not read back every generated miriad file
        quiet(w.read, h5)
        beam = quiet(PSpecBeamUV, bf)
        kw = dict(seed=c["seed"], Nextend=c["n"], whiten=c["whiten"])
        a = quiet(testing.noise_sim, mir, 100.0, beam=bf if c["beam"] else None, **kw)
        b = quiet(testing.noise_sim, v, 100.0, beam=beam if c["beam"] else None, **kw)
        same_but(dsets.dsnap(b), dsets.dsnap(a), ())
        kw = dict(bl_loop_seed=c["seed"], constant_per_bl=c["per_bl"])
        np.random.seed(4)
        a = quiet(testing.sky_noise_sim, h5, bf, **kw)
        np.random.seed(4)
        b = quiet(testing.sky_noise_sim, w, beam, **kw)
        same_but(dsets.dsnap(b), dsets.dsnap(a), ())
        bls = [tuple(x) for x in d["bls"]]
        kw = dict(taper="bh" if c["whiten"] else "none", cosmo=Cosmo_Conversions(**COSMOS[1]) if c["per_bl"] else None)
        fs = lambda data, bm, **k: quiet(testing.uvpspec_from_data, data, bls, beam=bm, **k, **kw)
        use = c["beam"]
        a, b = fs(mir, bf if use else None, data_std=mir if c["n"] else None), fs(v, beam if use else None, data_std=v if c["n"] else None)
        uvps.same(uvps.snap(a), uvps.snap(b), tol=1e-10, ignore=("history",))
    note.nt(True)
    note.label("beam" if c["beam"] else "no beam")


# ------------------------------------------------------------------------------------------------ the example object
@st.composite
def van_case(draw):
    return dict(nd=draw(st.one_of(st.none(), st.integers(1, 60))), eq=draw(st.booleans()), ops=draw(st.integers(0, 99)))


def vanilla(c, note):
    """the example object is a valid one with three baseline-pairs at ten times; its values, delays and averages are as stated"""
    u, cosmo = testing.build_vanilla_uvpspec(Ndlys=c["nd"], equal_time_arrays=c["eq"])
    u.check()
    nd = 50 if c["nd"] is None else c["nd"]
    fr = np.linspace(100e6, 105e6, 50, endpoint=False)
    assert np.allclose(u.freq_array, fr) and u.get_dlys(0).shape == (nd,) and np.allclose(u.get_dlys(0), utils.get_delays(fr, n_dlys=nd))
    assert sorted(map(tuple, u.get_blpairs())) == sorted([((1, 2), (1, 2)), ((2, 3), (2, 3)), ((1, 3), (1, 3))])
    for bp, val in ((((1, 2), (1, 2)), 101102101102), (((2, 3), (2, 3)), 102103102103), (((1, 3), (1, 3)), 101103101103)):
        x = u.get_data((0, bp, "xx"))
        assert x.shape == (10, nd) and np.allclose(x, val / 1e9)
        k = u.blpair_to_indices(bp)
        t = np.linspace(2458042.1, 2458042.2, 10)
        assert np.allclose(np.sort(u.time_1_array[k]), t, rtol=0, atol=1e-8)
        off = 0 if c["eq"] else (t[1] - t[0]) / 2
        assert np.allclose(u.time_2_array[k], u.time_1_array[k] + off, rtol=0, atol=1e-8)
        assert np.allclose(u.time_avg_array[k], u.time_1_array[k] + off / 2, rtol=0, atol=1e-8)
        for tn in ("1", "2", "avg"):
            o = np.argsort(getattr(u, "time_%s_array" % tn)[k])
            l = np.unwrap(getattr(u, "lst_%s_array" % tn)[k][o])
            assert np.allclose(np.diff(l), np.diff(l).mean(), rtol=1e-3) and np.diff(l)[0] > 0, "LSTs"
    a = u.average_spectra(time_avg=True, inplace=False)
    a.check()
    assert a.Ntimes == 1 and np.allclose(a.get_data((0, ((1, 2), (1, 2)), "xx")), 101102101102 / 1e9)
    s = u.select(spws=0, bls=[(1, 2)], inplace=False)
    assert s.Nblpairs == 1
    assert u.cosmo is cosmo and isinstance(cosmo, Cosmo_Conversions)
    note.nt(True)


LAWS = [Law("noise", noise_case(), noise, 150, 4000, shards=2), Law("extend", ext_case(), extend, 60, 1500), Law("stats", stat_case(), stats, 5, 150), Law("fg", fg_case(), fg, 30, 600),
        Law("autonoise", auto_case(), autonoise, 150, 4000), Law("sky", sky_case(), sky, 60, 2000, shards=2), Law("skystat", sky_case(), skystat, 5, 150),
        Law("from_data", data_case(), from_data, 60, 1500, shards=2), Law("files", file_case(), files, 12, 200), Law("vanilla", van_case(), vanilla, 15, 150)]
