"""Generated visibility datasets (UVData) for the estimator checks.

`dspec(...)` is a strategy of plain dicts; `build(spec)` gives a list of UVData objects sharing frequencies, baselines and number of
times.  All arrays come from numpy generators seeded from the spec.
"""
import copy
import functools
import warnings

import numpy as np
from hypothesis import strategies as st

from . import boot  # noqa: F401
from .uvps import rng_of

from astropy.utils import iers

# one Earth-orientation table for the process (offline astropy otherwise reads it again for every time it converts)
iers.earth_orientation_table.set(iers.IERS_B.open())

POLNUM = {"xx": -5, "yy": -6, "xy": -7, "yx": -8, "pI": 1, "pQ": 2, "pU": 3, "pV": 4}
NUMPOL = {v: k for k, v in POLNUM.items()}
TAPERS = ["none", "blackman-harris", "hann", "bh", "blackman", "tukey"]

# antenna layouts (ENU, metres): a small redundant grid and an irregular one
GRID = {0: (0, 0, 0), 1: (14.6, 0, 0), 2: (29.2, 0, 0), 3: (7.3, 12.643, 0), 4: (21.9, 12.643, 0), 12: (36.5, 12.643, 0.2)}
IRR = {0: (0, 0, 0), 1: (13.1, 2.0, 0.1), 2: (31.0, -4.0, -0.3), 3: (3.3, 17.5, 0), 4: (25.9, 9.9, 0.4), 12: (44.0, 15.5, 1.2)}


@functools.lru_cache(maxsize=8)
def _template(layout):
    from astropy.coordinates import EarthLocation
    from pyuvdata import Telescope, UVData
    pos = GRID if layout == "grid" else IRR
    ants = sorted(pos)
    loc = EarthLocation.from_geodetic(lat=-30.72152612068925, lon=21.428303826863015, height=1051.69)
    from pyuvdata.utils import ECEF_from_ENU
    enu = np.array([pos[a] for a in ants], float)
    ecef = ECEF_from_ENU(enu, center_loc=loc) - np.array([loc.x.value, loc.y.value, loc.z.value])
    tel = Telescope.new(name="HERA", location=loc, antenna_positions={a: p for a, p in zip(ants, ecef)}, antenna_diameters=14.0 * np.ones(len(ants)),
                        instrument="generated", x_orientation="east", feeds=["x", "y"], mount_type="fixed")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        uvd = UVData.new(freq_array=np.array([100e6, 101e6]), polarization_array=np.array([-5]), times=np.array([2458116.3]), telescope=tel,
                         antpairs=[(0, 1)], do_blt_outer=True, integration_time=10.7, channel_width=1e6, empty=True, vis_units="Jy")
    return uvd


@functools.lru_cache(maxsize=64)
def _lsts(t0, dt, nt):
    from pyuvdata.utils import get_lst_for_time
    loc = _template("grid").telescope.location
    return get_lst_for_time(t0 + np.arange(nt) * dt / 86400.0, telescope_loc=loc)


ALLBLS = [(0, 1), (1, 2), (0, 2), (3, 4), (0, 3), (1, 3), (4, 12), (2, 4), (0, 4), (3, 12)]


@st.composite
def dspec(draw, nd=None, nf=(3, 9), nt=(1, 4), max_bl=3, pols=None, npol=None, autos=False, flags=None, layout=None, units=None, df=None, std=False, wgts=None, nsamp=True, blorder=None,
          lstwrap=False):
    b = st.booleans()
    nfr = draw(st.integers(*nf))
    bls = draw(st.lists(st.sampled_from(ALLBLS[:7] if not autos else ALLBLS), min_size=1, max_size=max_bl, unique=True).map(lambda x: [list(y) for y in x]))
    allp = pols or ["xx", "yy", "xy", "yx"]
    k = draw(st.integers(1, min(npol or 2, len(allp))))
    pl = draw(st.permutations(allp).map(lambda x: list(x)[:k]))
    return dict(seed=draw(st.integers(0, 2**20)), nd=draw(st.sampled_from([2, 1, 3])) if nd is None else nd, nf=nfr, nt=draw(st.integers(*nt)), bls=bls, pols=pl,
                autos=bool(autos if isinstance(autos, bool) else draw(b)),
                f0=draw(st.sampled_from([100.0, 120.0, 151.3, 180.0])), df=draw(st.sampled_from(df or [0.12207, 0.2, 1.0])),
                t0=draw(st.sampled_from([2458116.3, 2458042.1, 2458116.4471] + ([2458116.66] if lstwrap else []))), dt=draw(st.sampled_from([10.737, 42.95, 300.0])),
                dtd=draw(st.sampled_from([0.0, 0.0, 0.25, 0.99727])),  # offset (days or fraction) of the other datasets
                fl=draw(st.sampled_from(["none", "none", "chan", "pix", "time", "mix", "all", "edge"])) if flags is None else flags,
                layout=draw(st.sampled_from(["grid", "irr"])) if layout is None else layout,
                units=draw(st.sampled_from(["Jy", "mK", "uncalib"])) if units is None else units,
                blorder=draw(st.sampled_from(["time", "bl", "mix"])) if blorder is None else blorder,
                ns=draw(st.sampled_from(["one", "blt", "full", "zero"])) if nsamp is True else "one",
                itime=draw(st.sampled_from(["const", "vary"])),
                std=std, wg=draw(st.sampled_from([False, False, True])) if wgts is None else wgts)


def flag_pattern(kind, nt, nf, rng):
    f = np.zeros((nt, nf), bool)
    if kind in ("chan", "mix"):
        f |= (rng.random(nf) < 0.25)[None]
    if kind in ("pix", "mix"):
        f |= rng.random((nt, nf)) < 0.15
    if kind in ("time", "mix"):
        f |= (rng.random(nt) < 0.3)[:, None]
    if kind == "all" and rng.random() < 0.5:
        f[:] = True
    if kind == "edge":
        f[:, :1] = True
        f[:, -1:] = rng.random() < 0.5
    return f


def build_one(sp, i, kind="data"):
    """the i-th dataset; kind 'std' gives standard deviations, 'wgts' a 0/1 weights object"""
    r = rng_of(sp["seed"], 5, i, {"data": 0, "std": 1, "wgts": 2}[kind])
    u = copy.deepcopy(_template(sp["layout"]))
    nt, nf, pols = sp["nt"], sp["nf"], sp["pols"]
    bls = [tuple(x) for x in sp["bls"]]
    if sp["autos"]:
        bls += [(a, a) for a in sorted({a for bl in bls for a in bl})]
    t0 = sp["t0"]
    # other datasets: a fraction of an integration later (0.25) or the next sidereal day
    # (the next sidereal day has the same LST grid)
    lsts = _lsts(t0 + (i * sp["dtd"] * sp["dt"] / 86400.0 if sp["dtd"] < 0.5 else 0.0), sp["dt"], nt)
    t0 = t0 + (i * sp["dtd"] * sp["dt"] / 86400.0 if sp["dtd"] < 0.5 else i * sp["dtd"])
    times = t0 + np.arange(nt) * sp["dt"] / 86400.0
    rows = [(bl, t) for t in range(nt) for bl in bls]
    if sp["blorder"] == "bl":
        rows = [(bl, t) for bl in bls for t in range(nt)]
    elif sp["blorder"] == "mix":  # blts of one baseline stay in time order, baselines interleaved differently at each time
        rr = rng_of(sp["seed"], 6, i)
        rows = [(bls[j], t) for t in range(nt) for j in rr.permutation(len(bls))]
    nb = len(rows)
    u.Nblts, u.Ntimes, u.Nbls, u.Nfreqs, u.Npols = nb, nt, len(bls), nf, len(pols)
    u.ant_1_array = np.array([bl[0] for bl, _ in rows])
    u.ant_2_array = np.array([bl[1] for bl, _ in rows])
    u.baseline_array = u.antnums_to_baseline(u.ant_1_array, u.ant_2_array)
    u.Nants_data = len(set(u.ant_1_array.tolist() + u.ant_2_array.tolist()))
    ti = np.array([t for _, t in rows])
    u.time_array, u.lst_array = times[ti], np.asarray(lsts)[ti]
    u.freq_array = sp["f0"] * 1e6 + sp["df"] * 1e6 * np.arange(nf)
    u.channel_width = np.full(nf, sp["df"] * 1e6)
    u.flex_spw_id_array = np.zeros(nf, int)
    u.polarization_array = np.array([POLNUM[p] for p in pols])
    from pyuvdata.utils import ENU_from_ECEF  # noqa: F401
    enu = u.telescope.get_enu_antpos()
    idx = {a: k for k, a in enumerate(u.telescope.antenna_numbers)}
    u.uvw_array = np.array([enu[idx[bl[1]]] - enu[idx[bl[0]]] for bl, _ in rows])
    rt = rng_of(sp["seed"], 7, i)
    u.integration_time = np.full(nb, float(sp["dt"])) if sp["itime"] == "const" else rt.uniform(0.5, 1.0, nb) * sp["dt"]
    u.phase_center_id_array = np.zeros(nb, int)
    u.phase_center_app_ra = u.lst_array.copy()
    u.phase_center_app_dec = np.full(nb, np.deg2rad(-30.72))
    u.phase_center_frame_pa = np.zeros(nb)
    u.vis_units = sp["units"]
    shape = (nb, nf, len(pols))
    d = r.normal(size=shape) + 1j * r.normal(size=shape)
    auto = u.ant_1_array == u.ant_2_array
    if auto.any():
        d[auto] = r.uniform(20, 60, (auto.sum(), nf, len(pols)))
    if kind == "std":
        d = r.uniform(0.5, 3.0, shape) * (1 + 0j) if sp["seed"] % 2 else r.uniform(0.5, 3.0, shape) + 1j * r.uniform(0, 1, shape)
    fl = np.zeros(shape, bool)
    rf = rng_of(sp["seed"], 8, i)
    for bl in bls:
        m = [k for k, row in enumerate(rows) if row[0] == bl]
        m.sort(key=lambda k: rows[k][1])
        for p in range(len(pols)):
            fl[m, :, p] = flag_pattern(sp["fl"], nt, nf, rf)
    if kind == "wgts":
        d = (~fl).astype(complex)
    u.data_array, u.flag_array = d, (fl if kind != "wgts" else np.zeros(shape, bool))
    rn = rng_of(sp["seed"], 9, i)
    ns = np.ones(shape, np.float32)
    if sp["ns"] in ("blt", "zero"):
        ns *= rn.integers(1, 6, (nb, 1, 1))
    elif sp["ns"] == "full":
        ns *= rn.integers(1, 6, shape)
    if sp["ns"] == "zero":
        ns *= rn.random((nb, 1, 1)) > 0.25
    u.nsample_array = ns.astype(np.float32)
    u.blts_are_rectangular = None
    u.time_axis_faster_than_bls = None
    for a in ("filename", "_UVData__antpair2ind_cache", "_UVData__key2ind_cache"):
        pass
    u._clear_antpair2ind_cache(u) if hasattr(u, "_clear_antpair2ind_cache") else None
    u._clear_key2ind_cache(u) if hasattr(u, "_clear_key2ind_cache") else None
    u.history = "generated %d/%d" % (sp["seed"], i)
    return u


def build(sp):
    return [build_one(sp, i) for i in range(sp["nd"])]


class FlatBeam:
    """duck-typed beam: per-pixel response for exact_norm"""
    def __init__(self, seed, npix=48):
        self.seed, self.npix = seed, npix

    def beam_normalized_response(self, pol, nu):
        r = rng_of(self.seed, sum(map(ord, str(pol))) % 1000)
        base = r.uniform(0.1, 1, self.npix)
        nu = np.asarray(nu)
        return base[None] ** (nu[:, None] / 1e8), (nu / 1e8) ** -1.5, 2.0


def dsnap(u):
    """snapshot of the arrays of a UVData object"""
    out = {}
    for k in ("data_array", "flag_array", "nsample_array", "time_array", "lst_array", "ant_1_array", "ant_2_array", "freq_array", "polarization_array", "uvw_array",
              "integration_time", "channel_width", "vis_units", "history", "Ntimes", "Nblts", "Nbls", "Nfreqs", "Npols", "pol_convention"):
        v = getattr(u, k, None)
        out[k] = copy.deepcopy(v)
    out["extra"] = copy.deepcopy(dict(u.extra_keywords))
    return out


def rows_of(u, bl):
    """row numbers of a baseline in time order as stored, and whether it is stored conjugated"""
    a, b = bl
    m = np.where((u.ant_1_array == a) & (u.ant_2_array == b))[0]
    if len(m):
        return m, False
    m = np.where((u.ant_1_array == b) & (u.ant_2_array == a))[0]
    assert len(m)
    return m, True


CONJPOL = {-7: -8, -8: -7}


def vis(u, bl, pol, what="data_array"):
    """(Nfreqs, Ntimes) array of a baseline and polarization number, straight from the arrays"""
    m, conj = rows_of(u, bl)
    p = pol
    if conj:
        p = CONJPOL.get(pol, pol)
    k = list(u.polarization_array).index(p)
    x = getattr(u, what)[m][:, :, k].T
    return x.conj() if conj and what == "data_array" else x
