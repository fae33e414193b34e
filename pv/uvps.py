"""Generated UVPSpec objects.

`spec(...)` is a strategy of plain dicts; `build(spec)` expands one into a valid UVPSpec.  Arrays come from
numpy generators seeded from the spec, so a spec is a complete reproduction.
"""
import copy

import numpy as np
from hypothesis import strategies as st

from . import boot  # noqa: F401
from hera_pspec import conversions
from hera_pspec.uvpspec import UVPSpec

TEL = np.array([5109325.85521063, 2005235.09142983, -3239928.42475397])
LAT = -30.72152612068925 * np.pi / 180
LON = 21.428303826863015 * np.pi / 180
SIDEREAL = 1.0027379093507951


def enu2ecef(enu):
    """Rotation only (baseline vectors)."""
    sl, cl, sp, cp = np.sin(LON), np.cos(LON), np.sin(LAT), np.cos(LAT)
    R = np.array([[-sl, -sp * cl, cp * cl], [cl, -sp * sl, cp * sl], [0, cp, sp]])
    return np.asarray(enu) @ R.T


def antpos_enu(a, pitch=14.6):
    """Deterministic hex-ish layout for antenna numbers 0..899."""
    row, col = divmod(a, 30)
    return np.array([pitch * (col + 0.5 * (row % 2)), pitch * np.sqrt(3) / 2 * row, 0.03 * ((a * 7) % 5)])


def blvec(a, b):
    return enu2ecef(antpos_enu(a) - antpos_enu(b))


def blpair_int(bp):
    (a, b), (c, d) = bp
    return (((a + 100) * 1000 + b + 100) * 1000 + c + 100) * 1000 + d + 100


def bl_int(bl):
    return (bl[0] + 100) * 1000 + bl[1] + 100


def polpair_int(pp):
    return (20 + pp[0]) * 100 + 20 + pp[1]


def tup(bp):
    return (tuple(bp[0]), tuple(bp[1]))


POLS = [-5, -6, -7, -8, 1, 2, 3, 4, -1, -2]
CHAN = 0.2e6  # channel width for channel index -> frequency
COSMOS = [dict(), dict(Om_L=0.7, Om_b=0.045, Om_c=0.255, H0=70.0), dict(Om_L=0.65, Om_b=0.05, Om_c=0.26, H0=65.5)]


@st.composite
def _spw(draw, even=None, max_nd=8):
    nf = draw(st.integers(3, 6))
    nd = draw(st.sampled_from([nf, nf, nf + 1, nf - 1, nf + 2]))
    nd = max(3, min(nd, max_nd))
    return dict(f0=draw(st.integers(0, 40)), nf=nf, nd=nd)


@st.composite
def spec(draw, max_spw=3, max_blp=4, max_t=4, max_pol=5, folded=None, cov=None, stats=None, wf=None, orders=None,
         ragged=True, flags=True, beam=None, cosmo=None, max_ant=6, dt=None, pols=None, same_pol=False, int_dt=False,
         rparams=None, labels=None, eqnd=False, min_pol=1):
    b = st.booleans()
    nspw = draw(st.sampled_from([x for x in (2, 1, 3, 2) if x <= max_spw]))
    spws, seen = [], set()
    for _ in range(nspw):
        s = draw(_spw())
        if eqnd:
            s["nd"] = s["nf"]
        while (s["f0"], s["nf"]) in seen:
            s["f0"] += 1
        seen.add((s["f0"], s["nf"]))
        spws.append(s)
    ant = st.one_of(st.integers(0, max_ant), st.sampled_from([0, 5, 77, 350, 899]))
    bl = st.tuples(ant, ant).map(list)
    # a small pool of baselines, so that pairs share baselines and some baselines repeat
    pool = draw(st.lists(bl, min_size=draw(st.sampled_from([2, 1, 3, 4])), max_size=4, unique_by=lambda x: tuple(x)))
    nblp = draw(st.sampled_from([x for x in (2, 3, 1, 4) if x <= min(max_blp, len(pool) ** 2)]))
    blps = draw(st.lists(st.tuples(st.sampled_from(pool), st.sampled_from(pool)).map(list), min_size=nblp, max_size=nblp,
                         unique_by=lambda x: (tuple(x[0]), tuple(x[1]))))
    nt = draw(st.integers(1, max_t))
    pol = st.sampled_from(pols or POLS)
    pp = pol.map(lambda p: [p, p]) if same_pol else st.tuples(pol, pol).map(list)
    npp = draw(st.sampled_from([x for x in (2, 1, 3, 2, 1, 3, 5, 4) if min_pol <= x <= max_pol]))
    pps = draw(st.lists(pp, min_size=npp, max_size=npp, unique_by=tuple))
    d = dict(seed=draw(st.integers(0, 2**20)), spws=spws, blps=blps, nt=nt, pps=pps,
             order=draw(st.sampled_from(orders or ["bl", "t", "mix"])),
             dt=draw(st.sampled_from(dt or [10.7, 42.9, 300.0])),
             t0=draw(st.sampled_from([2458042.1, 2459000.499, 2458116.30])),
             lst0=draw(st.sampled_from([0.3, 3.0, 6.2825])),
             off=draw(st.sampled_from([0, 0, 1, 2])),
             folded=draw(b) if folded is None else folded,
             cov=draw(b) if cov is None else cov,
             stats=draw(st.lists(st.sampled_from(["P_N", "P_SN", "bs_std", "cov_diag"]), max_size=2, unique=True)) if stats is None else stats,
             wf=draw(st.sampled_from(["none", "approx", "approx", "exact"])) if wf is None else wf,
             flags=draw(st.sampled_from([0, 0, 0.3, 0.6])) if flags is True else flags,
             drop=draw(st.sampled_from([0, 0, 0.3])) if ragged else 0,
             beam=draw(b) if beam is None else beam,
             cosmo=draw(st.sampled_from([-1, 0, 1, 2])) if cosmo is None else cosmo,
             labels=draw(st.integers(1, 3)) if labels is None else labels,
             rp=draw(st.sampled_from([False, True, 2])) if rparams is None else rparams,
             sym=draw(b))
    return d


def rng_of(*key):
    return np.random.default_rng([int(k) & 0x7FFFFFFF for k in key])


def build(sp, check=True):
    u = UVPSpec()
    rng = rng_of(sp["seed"])
    spws = sp["spws"]
    ns = len(spws)
    # ---- blpair-time rows
    rows = [(tup(bp), t) for bp in sp["blps"] for t in range(sp["nt"])]
    if sp["order"] == "t":
        rows = [(tup(bp), t) for t in range(sp["nt"]) for bp in sp["blps"]]
    if sp.get("drop"):
        keep = rng.random(len(rows)) >= sp["drop"]
        rows = [r for r, k in zip(rows, keep) if k] or rows[:1]
    if sp["order"] == "mix":
        rows = [rows[i] for i in rng.permutation(len(rows))]
    nb = len(rows)
    dtj = sp["dt"] / 86400.0
    tt = np.array([r[1] for r in rows], float)
    u.time_1_array = sp["t0"] + tt * dtj
    # off=0: same times; 1: half-integration offset; 2: offset by a whole integration (interleaved)
    u.time_2_array = u.time_1_array + {0: 0.0, 1: 0.5, 2: 1.0}[sp["off"]] * dtj
    u.time_avg_array = (u.time_1_array + u.time_2_array) / 2

    def lst(t):
        return (sp["lst0"] + 2 * np.pi * SIDEREAL * (t - sp["t0"])) % (2 * np.pi)

    u.lst_1_array, u.lst_2_array, u.lst_avg_array = lst(u.time_1_array), lst(u.time_2_array), lst(u.time_avg_array)
    u.blpair_array = np.array([blpair_int(r[0]) for r in rows], dtype=np.int64)
    bls = sorted({bl for r in rows for bl in r[0]})
    u.bl_array = np.array([bl_int(b) for b in bls], dtype=np.int32)
    u.bl_vecs = np.array([blvec(*b) for b in bls])
    u.Nbls = len(bls)
    u.Nblpairs = len(set(u.blpair_array.tolist()))
    u.Nbltpairs = nb
    u.Ntpairs = len(set(zip(u.time_1_array.tolist(), u.time_2_array.tolist())))
    u.Ntimes = u.Ntpairs
    # ---- spectral axes
    fr, dl, sf, sd = [], [], [], []
    for i, s in enumerate(spws):
        f = 100e6 + CHAN * (s["f0"] + np.arange(s["nf"]))
        n = s["nd"]
        d = np.fft.fftshift(np.fft.fftfreq(n, d=s["nf"] * CHAN / n)) if n != s["nf"] else np.fft.fftshift(np.fft.fftfreq(n, d=CHAN))
        fr.append(f), dl.append(d), sf.append([i] * s["nf"]), sd.append([i] * n)
    u.freq_array, u.dly_array = np.concatenate(fr), np.concatenate(dl)
    u.spw_freq_array, u.spw_dly_array = np.concatenate(sf).astype(np.uint16), np.concatenate(sd).astype(np.uint16)
    u.spw_array = np.arange(ns, dtype=np.uint16)
    u.Nspws, u.Nspwfreqs, u.Nspwdlys = ns, len(u.freq_array), len(u.dly_array)
    u.Nfreqs, u.Ndlys = len(np.unique(u.freq_array)), len(np.unique(u.dly_array))
    u.channel_width = np.ones(u.Nspwfreqs) * CHAN
    u.polpair_array = np.array([polpair_int(p) for p in sp["pps"]], dtype=np.int32)
    npol = u.Npols = len(u.polpair_array)
    # ---- scalars and strings
    u.scalar_array = rng.uniform(1, 3, (ns, npol))
    u.vis_units, u.norm_units, u.weighting, u.taper, u.norm = "mK", "h^-3 Mpc^3", "identity", "blackman-harris", "I"
    u.history = "generated %d\nline two" % sp["seed"]
    u.symmetric_taper = bool(sp.get("sym", True))
    u.folded, u.exact_windows = bool(sp["folded"]), sp["wf"] == "exact"
    u.telescope_location = TEL.copy()
    u.labels = np.array(["d%d" % i for i in range(sp.get("labels", 1))])
    u.label_1_array = rng.integers(0, len(u.labels), (ns, nb, npol)).astype(np.int32)
    u.label_2_array = rng.integers(0, len(u.labels), (ns, nb, npol)).astype(np.int32)
    u.r_params = ""
    if sp.get("rp"):
        from hera_pspec import uvpspec_utils as uu
        from pyuvdata.utils import polnum2str
        rp = {}
        for b, p in sorted({(r[0][k], pp[k]) for r in rows for pp in sp["pps"] for k in (0, 1)}):
            if True:
                rp[b + (polnum2str(p),)] = dict(filter_centers=[float((b[0] + p) % 2)], filter_half_widths=[1e-7], filter_factors=[1e-9])
        if sp["rp"] == 2:  # parameters for more baselines than the object has
            rp[(871, 872, "xx")] = dict(filter_centers=[2.0], filter_half_widths=[1e-7], filter_factors=[1e-9])
        u.r_params = uu.compress_r_params(rp)
    if sp["cosmo"] >= 0:
        u.cosmo = conversions.Cosmo_Conversions(**COSMOS[sp["cosmo"]])
    if sp["beam"]:
        u.beam_freqs = np.linspace(90e6, 130e6, 9)
        u.OmegaP = rng.uniform(0.05, 0.1, (9, npol))
        u.OmegaPP = rng.uniform(0.02, 0.04, (9, npol))
        u.beamfile = "beam_%d.fits" % (sp["seed"] % 7)
    # ---- data
    fl = rng.random((nb, npol)) < sp["flags"]
    u.data_array, u.wgt_array, u.integration_array, u.nsample_array = {}, {}, {}, {}
    if sp["cov"]:
        u.cov_array_real, u.cov_array_imag, u.cov_model = {}, {}, "empirical"
    if sp["stats"]:
        u.stats_array = {s: {} for s in sp["stats"]}
    if sp["wf"] != "none":
        u.window_function_array = {}
        if sp["wf"] == "exact":
            u.window_function_kperp, u.window_function_kpara = {}, {}
    for i, s in enumerate(spws):
        nd, nf = s["nd"], s["nf"]
        r = rng_of(sp["seed"], 17, i)
        u.data_array[i] = r.normal(size=(nb, nd, npol)) * 10 + 1j * r.normal(size=(nb, nd, npol))
        u.wgt_array[i] = r.uniform(0.1, 1, (nb, nf, 2, npol))
        u.integration_array[i] = r.uniform(1, 20, (nb, npol))
        u.nsample_array[i] = r.uniform(1, 6, (nb, npol))
        # a flagged row has zero integration in this window for this pol
        f = fl ^ (r.random((nb, npol)) < 0.15 * (sp["flags"] > 0))
        u.integration_array[i][f] = 0.0
        if sp.get("zns"):
            # rows without samples, with or without an integration time
            u.nsample_array[i][r.random((nb, npol)) < 0.25] = 0.0
        u.wgt_array[i][np.broadcast_to(f[:, None, None, :], u.wgt_array[i].shape)] = 0.0
        if sp["cov"]:
            A = r.normal(size=(nb, npol, nd, nd))
            B = r.normal(size=(nb, npol, nd, nd))
            u.cov_array_real[i] = np.moveaxis(A @ np.swapaxes(A, -1, -2) + np.eye(nd), 1, -1).copy()
            u.cov_array_imag[i] = np.moveaxis(B @ np.swapaxes(B, -1, -2) + np.eye(nd), 1, -1).copy()
        for st_ in sp["stats"]:
            re, im = r.uniform(0.5, 3, (nb, nd, npol)), r.uniform(0.5, 3, (nb, nd, npol))
            rs = sp.get("rstats", 0)  # 0: real and imaginary errors, 1: real dtype, 2: real in a complex array, 3: real with rows of inf
            if rs == 3:
                re[np.broadcast_to(f[:, None, :], re.shape)] = np.inf
            u.stats_array[st_][i] = re + 1j * im if rs == 0 else (re.astype(complex) if rs == 2 else re)
            if sp.get("sscale"):
                u.stats_array[st_][i] = u.stats_array[st_][i] * sp["sscale"]
        if sp["wf"] == "approx":
            u.window_function_array[i] = r.uniform(0, 1, (nb, nd, nd, npol))
            u.window_function_array[i] /= u.window_function_array[i].sum(axis=2, keepdims=True)
        elif sp["wf"] == "exact":
            nkperp = 3
            nkpara = (nd + 1) // 2 if nd % 2 else nd // 2
            w = r.uniform(0, 1, (nb, nd, nkperp, nkpara, npol))
            u.window_function_array[i] = w / w.sum(axis=(2, 3), keepdims=True)
            u.window_function_kperp[i] = np.cumsum(r.uniform(0.01, 0.1, (nkperp, npol)), axis=0)
            u.window_function_kpara[i] = np.cumsum(r.uniform(0.01, 0.1, (nkpara, npol)), axis=0)
    if check:
        u.check()
    return u


# ------------------------------------------------------------------ snapshots and comparison
SCALAR = ["Ntimes", "Ntpairs", "Nbltpairs", "Nblpairs", "Nspwdlys", "Nspwfreqs", "Nspws", "Ndlys", "Npols", "Nfreqs", "Nbls",
          "history", "r_params", "cov_model", "weighting", "vis_units", "norm", "norm_units", "taper", "beamfile", "folded",
          "exact_windows", "symmetric_taper"]
ARR = ["spw_array", "freq_array", "dly_array", "polpair_array", "lst_1_array", "lst_avg_array", "time_avg_array", "channel_width",
       "lst_2_array", "time_1_array", "time_2_array", "blpair_array", "OmegaP", "OmegaPP", "beam_freqs", "bl_vecs", "bl_array",
       "telescope_location", "scalar_array", "labels", "label_1_array", "label_2_array", "spw_freq_array", "spw_dly_array"]
DICT = ["data_array", "wgt_array", "integration_array", "window_function_array", "window_function_kperp", "window_function_kpara",
        "nsample_array", "cov_array_real", "cov_array_imag"]


def snap(u):
    """Deep, independent snapshot of every public attribute."""
    out = {}
    for k, v in vars(u).items():
        if k.startswith("_"):
            continue
        if type(v).__name__ == "Cosmo_Conversions":
            v = dict(v.get_params())
        elif type(v).__name__ == "PSpecParam":
            continue
        out[k] = copy.deepcopy(v)
    return out


def _same(a, b, path, tol):
    if isinstance(a, dict):
        assert isinstance(b, dict), "%s: %r vs %r" % (path, type(a), type(b))
        ka, kb = sorted(map(str, a)), sorted(map(str, b))
        assert ka == kb, "%s: keys %s vs %s" % (path, ka, kb)
        bb = {str(k): v for k, v in b.items()}
        for k in a:
            _same(a[k], bb[str(k)], "%s[%s]" % (path, k), tol)
    elif isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        assert a.shape == b.shape, "%s: shape %s vs %s" % (path, a.shape, b.shape)
        if a.dtype.kind in "US" or b.dtype.kind in "USO":
            assert [str(x) for x in a.ravel()] == [str(x) for x in b.ravel()], "%s: %s vs %s" % (path, a, b)
        elif tol == 0:
            assert np.array_equal(a, b, equal_nan=a.dtype.kind in "fc"), "%s differs: %s vs %s" % (path, _first(a, b), "")
        else:
            assert close(a, b, tol), "%s differs beyond %g: %s" % (path, tol, _first(a, b))
    elif isinstance(a, (list, tuple)):
        assert len(a) == len(b), "%s: length" % path
        for i, (x, y) in enumerate(zip(a, b)):
            _same(x, y, "%s[%d]" % (path, i), tol)
    else:
        assert a == b, "%s: %r vs %r" % (path, a, b)


def _first(a, b):
    a, b = np.atleast_1d(a), np.atleast_1d(b)
    d = ~np.isclose(np.nan_to_num(np.asarray(a, complex)), np.nan_to_num(np.asarray(b, complex)), rtol=1e-12, atol=0)
    if not d.any():
        return "(nan/inf pattern)"
    i = tuple(int(x[0]) for x in np.where(d))
    return "at %s: %r vs %r (%d of %d)" % (i, a[i], b[i], d.sum(), d.size)


def close(a, b, tol=1e-9):
    """Elementwise |a-b| <= tol*max scale, with identical nan and inf patterns."""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    if a.dtype.kind == "c" or b.dtype.kind == "c":
        a, b = a.astype(complex), b.astype(complex)
        return close(a.real, b.real, tol, ) and close(a.imag, b.imag, tol) if not np.isfinite(a).all() or not np.isfinite(b).all() else bool(
            np.all(np.abs(a - b) <= tol * (np.maximum(np.abs(a), np.abs(b)) + 1e-3 * np.max(np.abs(a)) + 1e-300)))
    a, b = a.astype(float), b.astype(float)
    fa, fb = np.isfinite(a), np.isfinite(b)
    if not np.array_equal(fa, fb):
        return False
    if not np.array_equal(a[~fa], b[~fb], equal_nan=True):
        return False
    a, b = a[fa], b[fb]
    if a.size == 0:
        return True
    return bool(np.all(np.abs(a - b) <= tol * (np.maximum(np.abs(a), np.abs(b)) + 1e-3 * np.max(np.abs(a)) + 1e-300)))


def assert_close(a, b, what, tol=1e-9):
    a, b = np.asarray(a), np.asarray(b)
    assert a.shape == b.shape, "%s: shape %s vs %s" % (what, a.shape, b.shape)
    assert close(a, b, tol), "%s: %s" % (what, _first(a, b))


def same(a, b, tol=0, ignore=()):
    """Assert that two snapshots (or objects) agree in every attribute."""
    a = a if isinstance(a, dict) else snap(a)
    b = b if isinstance(b, dict) else snap(b)
    a = {k: v for k, v in a.items() if k not in ignore}
    b = {k: v for k, v in b.items() if k not in ignore}
    assert sorted(a) == sorted(b), "attributes differ: only left %s, only right %s" % (sorted(set(a) - set(b)), sorted(set(b) - set(a)))
    for k in sorted(a):
        _same(a[k], b[k], k, tol)


def raises(fn, *a, **k):
    """True if the call is refused with an exception."""
    try:
        fn(*a, **k)
    except Exception:  # noqa: BLE001
        return True
    return False
