"""C25: pspec_run and the pipeline scripts against doing the same steps by hand."""
import copy
import os
import runpy
import sys
import warnings

import numpy as np
from hypothesis import strategies as st

from hera_pspec import PSpecContainer, PSpecData, utils
from hera_pspec.conversions import Cosmo_Conversions
from hera_pspec.pspecdata import get_pspec_run_argparser, pspec_run
from hera_pspec.uvwindow import FTBeam
from pv import beams, boot, dsets, uvps
from pv.core import Law, Skip
from pv.dsets import POLNUM
from pv.scratch import scratch
from pv.uvps import raises

RULE = ("Cases are generated datasets (1-3, with flags and differing baselines) with a run configuration; non-trivial when the run stores at least one non-zero spectrum and at least one preparation step or "
        "selection is active (scripts: at least one option given).")
ASSUMPTIONS = ["datasets have the same number of times (as PSpecData requires)", "files are written as uvh5; given baselines must be present in the files read",
               "stored spectra are compared to 1e-9 except for history and dataset file labels"]

warnings.simplefilter("ignore")
IGN = ("history", "labels", "label_1_array", "label_2_array", "filename_array")


def _memo(name, size=500000):
    """distances are integrated anew for each of 2000 frequencies: remember them (same values, per set of parameters)"""
    orig, mem = getattr(Cosmo_Conversions, name, None), {}
    if orig is None:
        return

    def fn(self, *a, **k):
        try:
            key = (tuple(sorted((x, v) for x, v in vars(self).items() if isinstance(v, (int, float)))), a, tuple(sorted(k.items())))
            if key in mem:
                return mem[key]
        except TypeError:
            return orig(self, *a, **k)
        if len(mem) > size:
            mem.clear()
        mem[key] = orig(self, *a, **k)
        return mem[key]
    setattr(Cosmo_Conversions, name, fn)


_memo("X2Y")


# ------------------------------------------------------------------------------------------------ configurations
@st.composite
def opts(draw, d, inter):
    n = d["nf"]
    o = {}
    pick = lambda k=3: draw(st.integers(0, k - 1)) == k // 2  # (the ends of a range are drawn more often)
    if pick(2):
        spws = []
        for _ in range(draw(st.integers(1, 2))):
            a = draw(st.integers(0, 1))
            spws.append([a, n - draw(st.integers(0, 1))])
        o["spw_ranges"] = spws
        if pick():
            o["n_dlys"] = [b - a - draw(st.integers(0, 1)) for a, b in spws]
    if pick(2):
        o["taper"] = draw(st.sampled_from(["hann", "bh", "blackman"]))
    if pick():
        o["store_cov"] = True
    elif pick():
        o["store_cov_diag"] = True
    if pick(4):
        o["norm"] = draw(st.sampled_from(["H^-1", "V^-1/2"]))
    if pick(4):
        o["input_data_weight"] = draw(st.sampled_from(["iC", "dayenu"]))
        if o["input_data_weight"] == "dayenu":
            o["r_params"] = draw(st.integers(0, 2))
    if "spw_ranges" in o and pick():
        o["filter_extensions"] = [[draw(st.integers(0, 1)), draw(st.integers(0, 1))] for _ in o["spw_ranges"]]
    if ("store_cov" in o or "store_cov_diag" in o or o.get("norm") == "V^-1/2") and pick(2):
        o["cov_model"] = draw(st.sampled_from(["dsets", "autos", "foreground_dependent", "mine"]))
    if "n_dlys" not in o and pick(8):
        o["exact_windows"] = True
        o["ftbeam"] = draw(st.integers(0, 2))
    if pick():
        o["store_window"] = False
    if pick():
        o["symmetric_taper"] = False
    if pick(5):
        o["return_q"] = True
    if pick(4):
        o["sampling"] = True
    if pick(6) and "norm" not in o:
        o["exact_norm"] = True
    elif pick(4):
        o["allow_fft"] = True
    if pick(2):
        o["broadcast_dset_flags"] = draw(st.sampled_from([True, True, False]))
        o["time_thresh"] = draw(st.sampled_from([0.05, 0.2, 0.5]))
    if pick():
        o["psname_ext"] = draw(st.sampled_from(["_a", "time1"]))
    if pick():
        o["groupname"] = draw(st.sampled_from(["grp", "a group"]))
    if pick():
        o["history"] = "made by a test"
    # baseline selection
    m = draw(st.sampled_from(["reds", "reds", "reds", "blps"]))
    if m == "reds":
        if pick():
            o["exclude_auto_bls"] = True
        if pick(4) and ("exclude_auto_bls" not in o or pick(4)):
            o["exclude_cross_bls"] = True
        if pick():
            o["exclude_permutations"] = False
        if pick(5):
            o["bl_len_range"] = draw(st.sampled_from([[0, 20.0], [10.0, 100.0], [20.0, 100.0]]))
        if pick(5):
            o["bl_deg_range"] = draw(st.sampled_from([[0, 30.0], [30.0, 180.0]]))
        if pick(5):
            o["bl_error_tol"] = draw(st.sampled_from([1e-3, 20.0]))
        if pick(30):  # (pspec refuses grouped baseline-pairs)
            o["Nblps_per_group"] = draw(st.sampled_from([1, 2]))
        if pick(4):
            o["include_autocorrs"] = True
        if pick(8):
            o["include_crosscorrs"] = False
        if pick(4):
            o["xant_flag_thresh"] = draw(st.sampled_from([0.3, 1.1]))
    else:
        o["blpairs"] = draw(st.lists(st.tuples(st.integers(0, 3), st.booleans(), st.integers(0, 3), st.booleans()).map(list), min_size=1, max_size=4, unique_by=lambda x: tuple(x)))
    return o


@st.composite
def run_case(draw, files=False):
    inter = draw(st.integers(0, 3)) == 0
    nd = 1 if inter else draw(st.sampled_from([1, 2, 2, 3]))
    d = draw(dsets.dspec(nd=nd, nf=(4, 7), nt=(2, 7) if inter else (1, 4), max_bl=4, npol=2, wgts=False, autos=draw(st.sampled_from([False, True])), layout="grid", pols=["xx", "yy"],
                         flags=draw(st.sampled_from(["none", "chan", "pix", "mix", "time", "edge"])), units=draw(st.sampled_from(["Jy", "Jy", "uncalib"]))))
    d["dtd"] = draw(st.sampled_from([0.0, 0.25, 0.99727, 0.99727]))
    b = st.booleans()
    c = dict(d=d, inter=inter, o=draw(opts(d, inter)), drop=draw(st.sampled_from([None, None, 0, 1])), beam=draw(st.sampled_from([None, "gauss", "flat"])), cosmo=draw(st.sampled_from([None, None, 0, 1])),
             jy=draw(b), reph=draw(st.sampled_from([None, None, 0, nd - 1])) if not inter else draw(st.sampled_from([None, 0, 1])), trim=draw(st.sampled_from([False, False, True])),
             cuts=draw(st.lists(st.tuples(st.integers(0, 1), st.integers(0, 1)).map(list), min_size=3, max_size=3)),
             labels=draw(st.sampled_from([None, None, ["zz", "aa", "b c"]])), pairs=draw(st.sampled_from([None, None, 0, 1])), polp=draw(st.sampled_from([None, None, None, "one", "cross", "rev"])),
             keepts=draw(b), pre=draw(st.sampled_from([False, False, False, True])))
    if c["beam"] is None:
        c["jy"] = False
    if c["beam"] == "flat" or c["o"].get("exact_norm"):
        c["beam"] = None if c["beam"] is None else "flat"
    if c["trim"]:
        d["dtd"] = 0.99727
        d["nt"] = max(d["nt"], 4)
    cm = c["o"].get("cov_model")
    if cm == "dsets" or draw(st.integers(0, 6)) == 0:
        c["std"] = True
    elif inter and draw(st.sampled_from([True, False])):
        # interleaved error bars
        c["std"], c["o"]["store_cov"], c["o"]["cov_model"] = True, True, "dsets"
        cm = "dsets"
    if cm in ("autos", "foreground_dependent"):
        d["autos"] = True
    if cm == "mine":
        if nd > 2 or c["trim"] or files:
            c["o"]["cov_model"] = "empirical"
        else:
            d["nt"], d["bls"] = min(d["nt"], 4 if inter else 2), d["bls"][:2]
    if c["o"].get("input_data_weight") == "iC":
        d["nt"] = max(d["nt"], 4)
    c["over"] = draw(st.sampled_from([None, None, True, False]))
    return c


class Case:
    def __init__(self, c):
        self.c = c
        sp = c["d"]
        self.nd = sp["nd"]
        us = dsets.build(sp)
        if c["drop"] is not None and len(sp["bls"]) > 1 and self.nd > 1:
            u = us[-1]
            gone = tuple(sp["bls"][c["drop"] % len(sp["bls"])])
            u.select(bls=[(a, b) for a, b in u.get_antpairs() if (a, b) != gone])
        if c["trim"] and self.nd > 1:
            for u, (a, b) in zip(us, c["cuts"]):
                t = np.unique(u.time_array)
                u.select(times=t[a:len(t) - b])
        self.us = us
        self.std = [dsets.build_one(sp, i, "std") for i in range(self.nd)] if c.get("std") else None
        if self.std is not None:
            for s, u in zip(self.std, us):
                s.select(bls=u.get_antpairs(), times=np.unique(u.time_array))
        self.cosmo = None
        if c["cosmo"] is not None:
            k = uvps.COSMOS[c["cosmo"]]
            self.cosmo = Cosmo_Conversions(**k) if isinstance(k, dict) else (k or Cosmo_Conversions())
        self.kw = copy.deepcopy(c["o"])
        for k in ("spw_ranges", "filter_extensions"):
            if k in self.kw:
                self.kw[k] = [tuple(x) for x in self.kw[k]]
        for k in ("bl_len_range", "bl_deg_range"):
            if k in self.kw:
                self.kw[k] = tuple(self.kw[k])
        bls = [tuple(b) for b in sp["bls"]] + [(2, 12)]
        self.blps = None
        if "blpairs" in self.kw:
            self.blps = []
            for i, ri, j, rj in self.kw["blpairs"]:
                x, y = bls[i % len(bls)], bls[j % len(bls)]
                x, y = (x[::-1] if ri else x), (y[::-1] if rj else y)
                if (x, y) not in self.blps:
                    self.blps.append((x, y))
            self.kw["blpairs"] = list(self.blps)
        if c["labels"]:
            self.kw["dset_labels"] = list(c["labels"][:self.nd])
        self.pairs = [(0, 0)] if self.nd == 1 else [(i, j) for i in range(self.nd) for j in range(i + 1, self.nd)]
        if c["pairs"] is not None and not c["inter"]:
            self.pairs = [[(0, 0), (self.nd - 1, 0)], [(self.nd - 1, self.nd - 1)]][c["pairs"]]
            self.pairs = list(dict.fromkeys(self.pairs))
            self.kw["dset_pairs"] = list(self.pairs)
        ps = sp["pols"]
        self.pols = [(p, p) for p in sorted(ps, key=lambda p: POLNUM[p])]
        if c["polp"] == "one":
            self.pols = [(ps[0], ps[0])]
        elif c["polp"] == "cross" and self.beam() is None:
            self.pols = [(ps[0], ps[-1])]
        elif c["polp"] == "rev":
            self.pols = [(p, p) for p in ps]
        if c["polp"]:
            self.kw["pol_pairs"] = list(self.pols)
        if c["inter"]:
            self.kw["interleave_times"] = True
        if c["reph"] is not None:
            self.kw["rephase_to_dset"] = c["reph"]
        if c["trim"]:
            self.kw["trim_dset_lsts"] = True
        if c["jy"]:
            self.kw["Jy2mK"] = True
        self.kw["verbose"] = False
        n2 = 2 if c["inter"] else self.nd
        if "r_params" in self.kw:
            i = self.kw["r_params"]
            rp = dict(filter_centers=[0.0] + [2e-7] * (i == 2), filter_half_widths=[1e-7 * (1 + i)] * (1 + (i == 2)), filter_factors=[1e-3] * (1 + (i == 2)))
            ants = sorted({a for u in us for b in u.get_antpairs() for a in b})
            self.kw["r_params"] = {(k, a, b, p): dict(rp) for k in range(n2) for a in ants for b in ants for p in ps}
        if self.kw.get("cov_model") == "mine":
            r = uvps.rng_of(sp["seed"], 71)
            # (one covariance of every kind, whatever the pair of visibilities)
            n = sp["nf"]
            A = r.normal(size=(n, 2 * n)) + 1j * r.normal(size=(n, 2 * n))
            C, P = A @ A.conj().T / n, 0.1 * (A @ A.T) / n
            vis = [b + (p,) for a in us[0].get_antpairs() for b in (tuple(int(x) for x in a), tuple(int(x) for x in a)[::-1]) for p in ps]
            self.kw["known_cov"] = {((i, j), (x, y), "mine", t, f, g): (C if (f, g) == (False, True) else P if not f else P.conj()) for i in range(n2) for j in range(n2) for x in vis for y in vis
                                    for t in range(sp["nt"] // (2 if c["inter"] else 1)) for f, g in ((False, True), (False, False), (True, True))}
        if "ftbeam" in self.kw:
            f = np.asarray(us[0].freq_array)
            self.kw["ftbeam"] = FTBeam.gaussian(f, 5.0 + self.kw["ftbeam"], "xx", npix=61)

    def beam(self, cosmo=None):
        c = self.c
        cosmo = cosmo or self.cosmo or Cosmo_Conversions()
        if c["beam"] == "gauss":
            return beams.PSpecBeamGauss(0.15, beams.BF, cosmo=cosmo)
        if c["beam"] == "flat":
            return beams.FlatBeam(1, cosmo=cosmo)
        return None

    def by_hand(self):
        """{psname: UVPSpec} and the group name, step by step"""
        c, kw = self.c, self.kw
        us, sd = copy.deepcopy(self.us), copy.deepcopy(self.std)
        labels = list(kw.get("dset_labels", ["dset%d" % i for i in range(self.nd)]))
        pairs = list(self.pairs)
        if c["trim"] and self.nd > 1:
            # (all datasets of the case lie on one LST grid, one per sidereal day)
            sets = [set(np.round(u.lst_array, 9)) for u in us]
            com = set.intersection(*sets)
            for k, u in enumerate(us):
                t = np.unique(u.time_array[[x in com for x in np.round(u.lst_array, 9)]])
                u.select(times=t)
                if sd:
                    sd[k].select(times=t)
        if c["inter"]:
            t = np.unique(us[0].time_array)
            n = len(t) // 2
            us = [us[0].select(times=t[0:2 * n:2], inplace=False), us[0].select(times=t[1:2 * n:2], inplace=False)]
            if sd:
                sd = [sd[0].select(times=t[0:2 * n:2], inplace=False), sd[0].select(times=t[1:2 * n:2], inplace=False)]
            labels = labels + ["dset1"]
            pairs = [(0, 1)]
        psd = PSpecData(us, [None] * len(us), labels=list(labels), dsets_std=sd, beam=self.beam())
        if c["reph"] is not None:
            psd.rephase_to_dset(c["reph"])
        if kw.get("broadcast_dset_flags", True):
            psd.broadcast_dset_flags(time_thresh=kw.get("time_thresh", 0.2), spw_ranges=kw.get("spw_ranges"))
        if c["jy"]:
            psd.Jy_to_mK()
        out = {}
        rk = {k: kw[k] for k in ("exclude_auto_bls", "exclude_cross_bls", "exclude_permutations", "Nblps_per_group", "bl_len_range", "bl_deg_range", "include_autocorrs", "include_crosscorrs", "xant_flag_thresh") if k in kw}
        rk["bl_tol"] = kw.get("bl_error_tol", 1.0)
        pk = {k: kw[k] for k in ("spw_ranges", "n_dlys", "taper", "store_cov", "store_cov_diag", "store_window", "symmetric_taper", "return_q", "sampling", "exact_norm", "allow_fft", "history", "norm", "input_data_weight", "r_params",
                                 "filter_extensions", "cov_model", "known_cov", "exact_windows", "ftbeam") if k in kw}
        pk = copy.deepcopy(pk)
        for i, j in pairs:
            if self.blps is None:
                b1, b2 = utils.calc_blpair_reds(us[i], us[j], filter_blpairs=True, **rk)[:2]
            else:
                have = [{frozenset(x) for x in us[k].get_antpairs()} for k in (i, j)]
                good = [(x, y) for x, y in self.blps if frozenset(x) in have[0] and frozenset(y) in have[1]]
                b1, b2 = [x for x, _ in good], [y for _, y in good]
            if len(b1) == 0:
                continue
            out["%s_x_%s%s" % (labels[i], labels[j], kw.get("psname_ext", ""))] = psd.pspec(b1, b2, (i, j), list(self.pols), verbose=False, **copy.deepcopy(pk))
        return kw.get("groupname", "_".join(labels)), out

    def run_kw(self, tmp):
        kw = copy.deepcopy(self.kw)
        other = Cosmo_Conversions(H0=55.0)
        if self.c["beam"] is not None:
            # a given cosmology replaces that of the beam
            kw["beam"] = self.beam(other if self.cosmo is not None else None)
        if self.cosmo is not None:
            kw["cosmo"] = self.cosmo
        if self.c.get("over") is not None:
            kw["overwrite"] = self.c["over"]
        return kw


def attempt(fn):
    try:
        return fn(), None
    except Exception as e:  # noqa: BLE001
        return None, e


def compare(fn, group, want, tol=1e-9, extra=(), some=False):
    """the container holds exactly these spectra"""
    if not want and not os.path.exists(fn):
        return
    psc = PSpecContainer(fn, mode="r", keep_open=False)
    groups = psc.groups()
    if not want:
        assert list(groups) in ([], [group]) and all(len(psc.spectra(g)) == 0 for g in groups), "spectra stored though no baseline-pair matches: %s" % groups
        return
    assert list(groups) == [group], "groups %s, expected %s" % (groups, group)
    assert sorted(psc.spectra(group)) == sorted(want) or (some and set(psc.spectra(group)) >= set(want)), "spectra %s, expected %s" % (psc.spectra(group), sorted(want))
    for nm, exp in want.items():
        got = psc.get_pspec(group, nm)
        uvps.same(got, exp, tol=tol, ignore=IGN + tuple(extra))


def run_objects(c, note):
    """pspec_run on loaded datasets stores what the steps by hand give"""
    k = Case(c)
    if c["trim"] and k.nd > 1:
        com = set.intersection(*[set(np.round(u.lst_array, 9)) for u in k.us])
        if not com or min(u.Ntimes for u in k.us) < 2:
            raise Skip("no common LSTs, or no LST spacing")
    exp, err = attempt(k.by_hand)
    if err is not None and not (isinstance(err, (ValueError, AssertionError, KeyError, NotImplementedError, np.linalg.LinAlgError)) or c["o"].get("exact_windows")):
        raise err
    with scratch() as tmp:
        fn = os.path.join(str(tmp), "out.h5")
        kw = k.run_kw(tmp)
        before = copy.deepcopy(kw.get("beam"))
        if c["pre"]:
            # an old result under the same name is replaced (overwrite is the default), one under another name stays
            g = kw.get("groupname", "_".join(kw.get("dset_labels", ["dset%d" % i for i in range(k.nd)]) + (["dset1"] if c["inter"] else [])))
            if exp and exp[1]:
                old = copy.deepcopy(list(exp[1].values())[0])
                old.data_array = {s: 7 * v for s, v in old.data_array.items()}
                psc = PSpecContainer(fn, mode="rw", keep_open=False)
                psc.set_pspec(g, list(exp[1])[0], old)
                psc.set_pspec(g, "other", old)
        sd = copy.deepcopy(k.std)
        res, err2 = attempt(lambda: pspec_run(copy.deepcopy(k.us), fn, dsets_std=sd, **kw))
        if c["pre"] and exp and exp[1] and c.get("over") is False:
            assert err2 is not None, "a stored spectrum was overwritten though overwrite=False"
            compare(fn, exp[0], {list(exp[1])[0]: old, "other": old}, some=True)
            note.nt()
            note.label("overwrite refused")
            return
        if err is not None or err2 is not None:
            assert err is not None and err2 is not None, "by hand: %r, pspec_run: %r" % (err, err2)
            raise Skip("refused: %s" % str(err)[:60])
        group, want = exp
        assert isinstance(res, PSpecData)
        if before is not None:
            assert before.cosmo.get_params() == kw["beam"].cosmo.get_params(), "the given beam object was changed"
        if c["pre"] and want:
            want = dict(want, other=old)
        compare(fn, group, want)
    note.nt(bool(want) and any(np.any(v) for u in want.values() for v in u.data_array.values()) and (len(c["o"]) > 0 or c["inter"] or c["jy"] or c["reph"] is not None))
    note.label("interleave" if c["inter"] else "", "rephase" if c["reph"] is not None else "", "trim" if c["trim"] else "", "jy" if c["jy"] else "", "nothing" if not want else "stored", *c["o"])


# ------------------------------------------------------------------------------------------------ files
@st.composite
def file_case(draw):
    c = draw(run_case(files=True))
    c["how"] = draw(st.lists(st.sampled_from(["one", "one", "time", "pol", "bl"]), min_size=3, max_size=3))
    # (every file must hold what is selected)
    c["how"] = ["one" if (h == "pol" and c["polp"] in ("one", "cross")) or (h == "bl" and "blpairs" in c["o"]) else h for h in c["how"]]
    c["path"] = draw(st.sampled_from(["str", "list", "glob"]))
    c["script"] = False
    return c


def write(u, how, base, path):
    """the dataset in one or more files; how they are named to pspec_run"""
    parts = [u]
    if how == "time" and u.Ntimes > 1:
        t = np.unique(u.time_array)
        parts = [u.select(times=t[:1], inplace=False), u.select(times=t[1:], inplace=False)]
    elif how == "pol" and u.Npols > 1:
        parts = [u.select(polarizations=[p], inplace=False) for p in u.polarization_array]
    elif how == "bl" and len(u.get_antpairs()) > 1:
        b = u.get_antpairs()
        parts = [u.select(bls=b[:1], inplace=False), u.select(bls=b[1:], inplace=False)]
    names = []
    for i, p in enumerate(parts):
        names.append("%s.%d.uvh5" % (base, i))
        p.write_uvh5(names[-1], clobber=True, run_check=False)
    if len(names) == 1 and path == "str":
        return names[0]
    return names if path == "list" else base + ".*.uvh5"


def sorted_snap(u):
    """the spectra in a canonical order"""
    u = copy.deepcopy(u)
    o = np.lexsort((u.time_avg_array, u.blpair_array))
    u.select(blpairs=None) if False else None
    s = uvps.snap(u)
    nb = u.Nblpts if hasattr(u, "Nblpts") else len(u.blpair_array)
    for k, v in s.items():
        if isinstance(v, np.ndarray) and v.ndim and v.shape[0] == nb and k.endswith("_array") and k not in ("freq_array", "dly_array", "spw_array", "polpair_array", "blpair_array_unique"):
            s[k] = v[o]
        elif isinstance(v, np.ndarray) and k.startswith("label_") and v.ndim == 3:
            s[k] = v[:, o]
        elif isinstance(v, dict) and k not in ("stats_array",):
            s[k] = {a: (b[o] if isinstance(b, np.ndarray) and b.shape[0] == nb else b) for a, b in v.items()}
    return s


def run_files(c, note):
    """the number of files, and how they are named, makes no difference"""
    k = Case(c)
    if c["trim"] and k.nd > 1:
        com = set.intersection(*[set(np.round(u.lst_array, 9)) for u in k.us])
        if not com or min(u.Ntimes for u in k.us) < 2:
            raise Skip("no common LSTs, or no LST spacing")
    if k.blps is not None:
        have = [{frozenset(x) for x in u.get_antpairs()} for u in k.us]
        if any(frozenset(x) not in h for p in k.blps for x in p for h in have):
            raise Skip("baselines absent from a file")
        # only the listed baselines are read
        au = set()
        if c["o"].get("cov_model") in ("autos", "foreground_dependent"):
            au = {(a, a) for p in k.blps for x in p for a in x}
        for u in k.us + (k.std or []):
            u.select(bls=sorted({x for p in k.blps for x in p} | au))
    if c["polp"] == "one":
        for u in k.us + (k.std or []):
            u.select(polarizations=sorted({POLNUM[x] for p in k.pols for x in p}))
    exp, err = attempt(k.by_hand)
    with scratch() as tmp:
        fn = os.path.join(str(tmp), "out.h5")
        full, fstd = Case(c).us, Case(c).std
        names = [write(u, h, os.path.join(str(tmp), "in%d" % i), c["path"]) for i, (u, h) in enumerate(zip(full, c["how"]))]
        stds = None if fstd is None else [write(u, "one", os.path.join(str(tmp), "std%d" % i), c["path"]) for i, u in enumerate(fstd)]
        stamp = {f: open(os.path.join(str(tmp), f), "rb").read() for f in sorted(os.listdir(str(tmp)))}
        res, err2 = attempt(lambda: pspec_run(names, fn, file_type="uvh5", dsets_std=stds, **k.run_kw(tmp)))
        for f, b in stamp.items():
            assert open(os.path.join(str(tmp), f), "rb").read() == b, "input file %s changed" % f
        if err is not None or err2 is not None:
            assert err is not None and err2 is not None, "by hand: %r, pspec_run: %r" % (err, err2)
            raise Skip("refused: %s" % str(err)[:60])
        group, want = exp
        assert isinstance(res, PSpecData)
        psc = PSpecContainer(fn, mode="r", keep_open=False) if want or os.path.exists(fn) else None
        if not want:
            assert psc is None or all(len(psc.spectra(g)) == 0 for g in psc.groups())
        else:
            assert list(psc.groups()) == [group] and sorted(psc.spectra(group)) == sorted(want)
            for nm, e in want.items():
                g = psc.get_pspec(group, nm)
                if g.blpair_array.tolist() != e.blpair_array.tolist() or not np.array_equal(g.time_avg_array, e.time_avg_array):
                    note.label("reordered")
                uvps.same(sorted_snap(g), sorted_snap(e), tol=1e-6, ignore=IGN)
    note.nt(bool(want) and any(np.any(v) for u in want.values() for v in u.data_array.values()))
    note.label(c["path"], *c["how"][:k.nd])


# ------------------------------------------------------------------------------------------------ rephasing
@st.composite
def reph_case(draw):
    d = draw(dsets.dspec(nd=draw(st.integers(2, 3)), nf=(2, 5), nt=(1, 4), max_bl=3, npol=3, autos=draw(st.booleans()), wgts=draw(st.booleans()), lstwrap=True))
    d["dtd"] = draw(st.sampled_from([0.1, 0.25, 0.45]))
    return dict(d=d, anchor=draw(st.integers(0, d["nd"] - 1)), inplace=draw(st.booleans()), name=draw(st.booleans()), again=draw(st.booleans()))


def rephase(c, note):
    """every sample of the other datasets gets the fringe phasor of its LST offset, and nothing else changes"""
    sp = c["d"]
    us = dsets.build(sp)
    wg = [dsets.build_one(sp, i, "wgts") for i in range(sp["nd"])] if sp["wg"] else [None] * sp["nd"]
    ref, wref = copy.deepcopy(us), copy.deepcopy(wg)
    psd = PSpecData(us, wg, labels=["a", "b", "c"][:sp["nd"]])
    a = c["anchor"]
    res = psd.rephase_to_dset("abc"[a] if c["name"] else a, inplace=c["inplace"])
    got = psd.dsets if c["inplace"] else res
    if not c["inplace"]:
        for u, r in zip(psd.dsets, ref):
            uvps.same(dsets.dsnap(u), dsets.dsnap(r))
    if c["again"]:
        # the datasets now have no single phase centre: a second call leaves them alone
        p2 = PSpecData(copy.deepcopy(got), wg)
        p2.rephase_to_dset((a + 1) % sp["nd"])
        for u, v in zip(p2.dsets, got):
            uvps.same(dsets.dsnap(u), dsets.dsnap(v), tol=1e-12)
    lat = np.deg2rad(ref[0].telescope.location.lat.deg)
    pos = dict(zip(ref[0].telescope.antenna_numbers, ref[0].telescope.get_enu_antpos()))
    grid = np.sort(np.unique(ref[a].time_array))
    glst = np.array([ref[a].lst_array[np.where(ref[a].time_array == t)[0][0]] for t in grid])
    for i, (g, r) in enumerate(zip(got, ref)):
        e = dsets.dsnap(r)
        s = dsets.dsnap(g)
        if i != a:
            t = np.sort(np.unique(r.time_array))
            ti = np.searchsorted(t, r.time_array)
            # a source at zenith takes the fringe phase it has at the anchor's LST (UVData: V_12 = exp(+2 pi i nu (x2 - x1).s / c))
            h = glst[ti] - r.lst_array
            src = np.array([-np.cos(lat) * np.sin(h), np.cos(lat) * np.sin(lat) * (1 - np.cos(h)), np.sin(lat) ** 2 + np.cos(lat) ** 2 * np.cos(h) - 1]).T
            b = np.array([pos[x] - pos[y] for x, y in zip(r.ant_1_array, r.ant_2_array)])
            tau = (src * b).sum(1) / 299792458.0
            ph = np.exp(-2j * np.pi * r.freq_array[None] * tau[:, None])
            e["data_array"] = r.data_array * ph[:, :, None]
        assert np.max(np.abs(s["data_array"] - e["data_array"])) < 1e-6 * np.max(np.abs(e["data_array"])), "visibilities of dataset %d (anchor %d)" % (i, a)
        s["data_array"] = e["data_array"]
        uvps.same(s, e)
    for w, v in zip(wg, wref):
        if w is not None:
            uvps.same(dsets.dsnap(w), dsets.dsnap(v))
    note.nt(True)
    note.label("inplace" if c["inplace"] else "copy", "again" if c["again"] else "")


# ------------------------------------------------------------------------------------------------ calibration
@st.composite
def cal_case(draw):
    d = draw(dsets.dspec(nd=draw(st.integers(1, 2)), nf=(3, 5), nt=(1, 4), max_bl=3, npol=4, autos=draw(st.booleans()), wgts=False, flags=draw(st.sampled_from(["none", "pix", "chan"])), units="uncalib", std=False))
    d["dtd"] = draw(st.sampled_from([0.0, 0.25, 0.99727]))
    return dict(d=d, cf=draw(st.booleans()), route=draw(st.sampled_from(["add", "psd", "psd", "add", "run", "run-one", "run-file", "run-files"])), std=draw(st.booleans()), units=draw(st.sampled_from([None, "Jy"])),
                none=draw(st.booleans()), form=draw(st.sampled_from(["list", "tuple", "single", "dict"])), conv=draw(st.sampled_from(["divide", "divide", "multiply"])), seed=draw(st.integers(0, 99)))


def gains(u, c, i):
    from pyuvdata import UVCal
    r = uvps.rng_of(c["seed"], 51, i)
    t = np.unique(u.time_array)
    uvc = UVCal.new(freq_array=u.freq_array, channel_width=u.channel_width, time_array=t, telescope=copy.deepcopy(u.telescope), gain_convention=c["conv"], cal_style="redundant", cal_type="gain", jones_array=np.array([-5, -6]),
                    integration_time=np.full(len(t), float(c["d"]["dt"])), empty=True, history="", wide_band=False, ant_array=np.array(u.telescope.antenna_numbers), gain_scale=c["units"], **({"pol_convention": "avg"} if c["units"] else {}))
    sh = uvc.gain_array.shape
    uvc.gain_array = r.uniform(0.5, 2, sh) * np.exp(2j * np.pi * r.random(sh))
    # (what flagged gains do to the values is pyuvdata's choice)
    uvc.flag_array = (r.random(sh) < 0.1) & (c["route"] in ("psd", "add"))
    uvc.quality_array = np.zeros(sh)
    return uvc


def calibrate(c, note):
    """gains are divided out of every visibility of their own dataset, and their flags propagated only when asked"""
    sp = c["d"]
    us = dsets.build(sp)
    sd = [dsets.build_one(sp, i, "std") for i in range(sp["nd"])] if c["std"] else None
    cals = [gains(u, c, i) for i, u in enumerate(us)]
    one = c["route"] == "run-one"
    if one:
        us, sd, cals = us[:1], sd[:1] if sd else None, cals[:1]
    nd = len(us)
    none = c["none"] and c["route"] in ("psd", "add") and nd > 1
    if none:
        cals[0] = None
    ref, rs = copy.deepcopy(us), copy.deepcopy(sd)
    bad = [np.zeros(u.data_array.shape, bool) for u in us]
    for i, cal in enumerate(cals):
        if cal is None:
            continue
        a = {int(n): k for k, n in enumerate(cal.ant_array)}
        for u in [ref[i]] + ([rs[i]] if rs else []):
            t = np.searchsorted(np.unique(u.time_array), u.time_array)
            for k, p in enumerate(u.polarization_array):
                j1, j2 = {-5: (0, 0), -6: (1, 1), -7: (0, 1), -8: (1, 0)}[int(p)]
                for row in range(u.Nblts):
                    x, y = a[int(u.ant_1_array[row])], a[int(u.ant_2_array[row])]
                    g = cal.gain_array[x, :, t[row], j1] * np.conj(cal.gain_array[y, :, t[row], j2])
                    u.data_array[row, :, k] = u.data_array[row, :, k] / g if c["conv"] == "divide" else u.data_array[row, :, k] * g
                    f = cal.flag_array[x, :, t[row], j1] | cal.flag_array[y, :, t[row], j2]
                    bad[i][row, :, k] = f
                    if c["cf"]:
                        u.flag_array[row, :, k] |= f
            if c["units"]:
                u.vis_units = c["units"]
    note.nt(True)
    note.label(c["route"], "flags" if c["cf"] else "", "std" if sd else "", c["conv"])
    cc = copy.deepcopy(cals)
    if c["route"] in ("psd", "add"):
        if c["route"] == "psd":
            psd = PSpecData(us, [None] * nd, dsets_std=sd, cals=cals, cal_flag=c["cf"])
        else:
            psd = PSpecData()
            how = c.get("form", "list")
            if how == "single":
                for i in range(nd):
                    psd.add(us[i], None, dsets_std=sd[i] if sd else None, cals=cals[i], cal_flag=c["cf"])
            elif how == "dict":
                nm = ["p", "q"][:nd]
                psd.add(dict(zip(nm, us)), None, dsets_std=dict(zip(nm, sd)) if sd else None, cals=dict(zip(nm[::-1], cals[::-1])), cal_flag=c["cf"])
                bad_ = [cals[:1], cals + [None], dict(nobody=None)]
            else:
                psd.add(us, [None] * nd, dsets_std=sd, cals=tuple(cals) if how == "tuple" else cals, cal_flag=c["cf"])
            n0 = [len(psd.dsets), len(psd.labels)]
            for x, w, y in ((us[:1], [None], cals[:1] + [None]), (us[:1], [None], ["cal"]), (us[:1], [None], us[0]), (dict(z=us[0]), None, cals[:1]), (dict(z=us[0]), None, {})):
                assert uvps.raises(psd.add, x, w, cals=y), "cals of the wrong form were accepted"
            assert [len(psd.dsets), len(psd.labels)] == n0
        pairs = list(zip(psd.dsets, ref)) + (list(zip(psd.dsets_std, rs)) if sd else [])
        for n, (g, e) in enumerate(pairs):
            x, y = dsets.dsnap(g), dsets.dsnap(e)
            z = g.data_array, e.data_array
            if n >= nd:  # standard deviations: only their sizes mean anything
                z = np.abs(z[0]), np.abs(z[1])
            assert np.max(np.abs(z[0] - z[1])[~bad[n % nd]], initial=0) <= 1e-6 * np.max(np.abs(z[1])), "calibrated visibilities"
            for k in ("data_array", "extra", "pol_convention", "history"):
                x.pop(k), y.pop(k)
            uvps.same(x, y)
    else:
        with scratch() as tmp:
            arg = cals
            if one:
                arg = cals[0]
            if c["route"].startswith("run-file"):
                arg = []
                for i, cal in enumerate(cals):
                    nm = [os.path.join(str(tmp), "cal%d.%d.calfits" % (i, j)) for j in range(2)]
                    if c["route"] == "run-files" and cal.Ntimes > 1:
                        cal.select(times=cal.time_array[:1], inplace=False).write_calfits(nm[0])
                        cal.select(times=cal.time_array[1:], inplace=False).write_calfits(nm[1])
                        arg.append(nm)
                    else:
                        cal.write_calfits(nm[0])
                        arg.append(nm[0])
            fn = os.path.join(str(tmp), "o.h5")
            kw = dict(verbose=False, pol_pairs=[(p, p) for p in sp["pols"]], dset_pairs=[(0, nd - 1)], broadcast_dset_flags=False, include_autocorrs=True)
            res, err = attempt(lambda: pspec_run(us, fn, cals=arg, cal_flag=c["cf"], **kw))
            f2 = os.path.join(str(tmp), "o2.h5")
            res2, err2 = attempt(lambda: pspec_run(ref, f2, **kw))
            assert (err is None) == (err2 is None), "with calibration %r, calibrated beforehand %r" % (err, err2)
            if err is not None:
                raise Skip("refused: %s" % str(err)[:60])
            p1, p2 = PSpecContainer(fn, mode="r", keep_open=False), PSpecContainer(f2, mode="r", keep_open=False)
            assert list(p1.groups()) == list(p2.groups())
            for g in p1.groups():
                assert sorted(p1.spectra(g)) == sorted(p2.spectra(g))
                for n in p1.spectra(g):
                    uvps.same(p1.get_pspec(g, n), p2.get_pspec(g, n), tol=2e-6, ignore=IGN + ("cal", "cal_array", "vis_units", "norm_units"))
    for a, b in zip(cals, cc):
        if b is not None:
            assert np.array_equal(a.gain_array, b.gain_array) and np.array_equal(a.flag_array, b.flag_array), "the calibration changed"


# ------------------------------------------------------------------------------------------------ scripts
def run_script(name, argv):
    old, env = sys.argv, dict(os.environ)
    sys.argv = [name] + argv
    try:
        runpy.run_path(os.path.join(boot.REPO, "scripts", name), run_name="__main__")
    finally:
        sys.argv = old
        os.environ.clear()
        os.environ.update(env)


def beamfile(path, seed=0):
    """a small HEALPix power beam on file"""
    from pyuvdata.uvbeam.initializers import new_uvbeam
    r = uvps.rng_of(seed, 61)
    d = r.uniform(0.2, 1, (1, 4, 6, 12)).astype(complex)
    d[..., 0] = 1.0
    b = new_uvbeam(telescope_name="t", data_normalization="peak", freq_array=np.linspace(90e6, 200e6, 6), polarization_array=[-5, -6, -7, -8], pixel_coordinate_system="healpix", nside=1, ordering="ring", data_array=d,
                   history="", feed_array=["x", "y"], feed_angle=np.array([np.pi / 2, 0.0]))
    b.write_beamfits(path)


@st.composite
def script_case(draw):
    c = draw(file_case())
    for x in ("exact_norm", "sampling", "exact_windows", "ftbeam", "r_params", "known_cov"):
        c["o"].pop(x, None)
    if c["o"].get("input_data_weight") == "dayenu":
        c["o"]["input_data_weight"] = "iC"
    c["beam"] = draw(st.sampled_from([None, None, "file"]))
    c["jy"] = c["jy"] and c["beam"] is not None
    c["cosmo"] = draw(st.sampled_from([None, None, [0.7, 0.05, 0.25, 60.0], [0.68, 0.049, 0.2644, 67.0, 0.31, 0.01]]))
    c["sep"] = draw(st.sampled_from(["~", " "]))
    c["pre"] = draw(st.sampled_from([False, True]))
    c["over"] = draw(st.booleans())
    return c


def script(c, note):
    """the pspec_run script does what pspec_run does with the same options"""
    cos, cc = c["cosmo"], dict(c, cosmo=None, beam=None, jy=False)
    k = Case(cc)
    kw = k.kw
    # scripts have other defaults: everything is given
    full = dict(exclude_permutations=False, store_window=False, broadcast_dset_flags=False, overwrite=False)
    o = {x: kw[x] for x in kw if x != "verbose"}
    kw2 = dict(full, **o)
    if c["jy"]:
        o["Jy2mK"] = kw2["Jy2mK"] = True
    kw2["overwrite"] = c["over"]
    kw2.pop("history", None)
    argv = []
    for x in ("exclude_auto_bls", "exclude_cross_bls", "exclude_permutations", "store_window", "broadcast_dset_flags", "store_cov", "store_cov_diag", "return_q", "include_autocorrs", "interleave_times", "trim_dset_lsts", "Jy2mK", "overwrite",
              "allow_fft"):
        if kw2.get(x):
            argv.append("--" + x)
    if kw2.get("include_crosscorrs") is False:
        argv.append("--exclude_crosscorrs")
    sep = c["sep"]
    js = lambda tt: (", " if sep == " " else ",").join(sep.join(str(v) for v in np.ravel(t)) for t in tt)
    for x in ("dset_pairs", "spw_ranges", "pol_pairs", "blpairs", "filter_extensions"):
        if x in kw2:
            if x != "pol_pairs" and sep == "~" and len(np.ravel(kw2[x])) == 1:
                continue
            argv += ["--" + x, js(kw2[x])]
    for x in ("dset_labels", "n_dlys", "bl_len_range", "bl_deg_range"):
        if x in kw2:
            argv += ["--" + x] + [str(v) for v in kw2[x]]
    for x in ("taper", "norm", "input_data_weight", "cov_model", "groupname", "psname_ext", "time_thresh", "bl_error_tol", "Nblps_per_group", "xant_flag_thresh", "rephase_to_dset"):
        if x in kw2:
            argv += ["--" + x, str(kw2[x])]
    if "symmetric_taper" in kw2:
        argv += ["--symmetric_taper", str(kw2["symmetric_taper"])]
    with scratch() as tmp:
        tmp = str(tmp)
        fn, f2 = os.path.join(tmp, "out.h5"), os.path.join(tmp, "out2.h5")
        if c["beam"]:
            kw2["beam"] = os.path.join(tmp, "beam.fits")
            beamfile(kw2["beam"])
            argv += ["--beam", kw2["beam"]]
        if cos:
            argv += ["--cosmo"] + [repr(v) for v in cos]
            kw2["cosmo"] = Cosmo_Conversions(*cos)
        names = [write(u, h, os.path.join(tmp, "in%d" % i), "glob") for i, (u, h) in enumerate(zip(k.us, c["how"]))]
        if k.std is not None:
            kw2["dsets_std"] = [write(u, "one", os.path.join(tmp, "std%d" % i), "glob") for i, u in enumerate(k.std)]
            argv += ["--dsets_std"] + kw2["dsets_std"]
        r1, e1 = attempt(lambda: pspec_run(names, f2, file_type="uvh5", verbose=False, **kw2))
        r2, e2 = attempt(lambda: run_script("pspec_run.py", names + [fn] + argv))
        if c["pre"] and e1 is None and e2 is None:
            # a second run replaces the spectra, or is refused
            r1, e1 = attempt(lambda: pspec_run(names, f2, file_type="uvh5", verbose=False, **kw2))
            r2, e2 = attempt(lambda: run_script("pspec_run.py", names + [fn] + argv))
            assert (e1 is None) == (e2 is None), "second run: function %r, script %r" % (e1, e2)
            note.label("again refused" if e1 else "again")
            e1 = e2 = None
        assert (e1 is None) == (e2 is None), "function %r, script %r" % (e1, e2)
        if e1 is not None:
            raise Skip("refused: %s" % type(e1).__name__)
        assert os.path.exists(fn) == os.path.exists(f2)
        if not os.path.exists(fn):
            raise Skip("nothing stored")
        p1, p2 = PSpecContainer(fn, mode="r", keep_open=False), PSpecContainer(f2, mode="r", keep_open=False)
        assert sorted(p1.groups()) == sorted(p2.groups()), "groups %s and %s" % (p1.groups(), p2.groups())
        n = 0
        for g in p1.groups():
            assert sorted(p1.spectra(g)) == sorted(p2.spectra(g))
            for s in p1.spectra(g):
                u1, u2 = p1.get_pspec(g, s), p2.get_pspec(g, s)
                uvps.same(u1, u2, tol=1e-12, ignore=("history",))
                n += 1
                if cos and c["beam"]:
                    assert u1.cosmo.get_params() == Cosmo_Conversions(*cos).get_params(), "cosmology of the result"
    note.nt(n > 0 and len(argv) > 0)
    note.label(*[x for x in argv if x.startswith("--")])


@st.composite
def boot_case(draw):
    b = st.booleans()
    return dict(sp=draw(uvps.spec(max_spw=1, max_blp=4, max_t=3, max_pol=1)), n=draw(st.integers(2, 5)), seed=draw(st.integers(0, 99)), time_avg=draw(st.sampled_from([None, "True", "False"])), ns=draw(st.sampled_from([None, "True", "False"])),
                rs=draw(st.sampled_from([None, "True", "False"])), ci=draw(st.sampled_from([None, [16.0], [16.0, 84.0]])), keep=draw(b), groups=draw(b), spectra=draw(st.sampled_from([None, ["g0/s0"], ["g0/s1", "g1/s0"]])),
                hist=draw(b))


def boots(c, note):
    """the bootstrap_run script does what grouping.bootstrap_run does with the same options"""
    from hera_pspec import grouping
    with scratch() as tmp:
        f1, f2 = os.path.join(str(tmp), "a.h5"), os.path.join(str(tmp), "b.h5")
        u0 = None
        for f in (f1, f2):
            psc = PSpecContainer(f, mode="rw", keep_open=False)
            for i, (g, s) in enumerate([("g0", "s0"), ("g0", "s1"), ("g1", "s0")]):
                u = uvps.build(dict(c["sp"], seed=c["sp"]["seed"] + i))
                u0 = u0 or u
                psc.set_pspec(g, s, u)
        groups = [[int(x) for x in u0.blpair_array[[u0.blpair_array.tolist().index(y) for y in dict.fromkeys(u0.blpair_array.tolist())]]]]
        kw = dict(Nsamples=c["n"], seed=c["seed"], time_avg=c["time_avg"] == "True", normal_std=c["ns"] != "False", robust_std=c["rs"] == "True", cintervals=c["ci"], keep_samples=c["keep"], spectra=c["spectra"], verbose=False,
                  blpair_groups=groups, add_to_history="hello there" if c["hist"] else "")
        argv = [f1, "--Nsamples", str(c["n"]), "--seed", str(c["seed"]), "--blpair_groups", ",".join(" ".join(str(b) for b in g) for g in groups)]
        for k, a in (("time_avg", c["time_avg"]), ("normal_std", c["ns"]), ("robust_std", c["rs"])):
            if a is not None:
                argv += ["--" + k, a]
        if c["ci"]:
            argv += ["--cintervals"] + [str(x) for x in c["ci"]]
        if c["keep"]:
            argv.append("--keep_samples")
        if c["spectra"]:
            argv += ["--spectra"] + c["spectra"]
        if c["hist"]:
            argv += ["--add_to_history", "hello there"]
        r1, e1 = attempt(lambda: grouping.bootstrap_run(f2, **kw))
        r2, e2 = attempt(lambda: run_script("bootstrap_run.py", argv))
        assert (e1 is None) == (e2 is None), "function %r, script %r" % (e1, e2)
        if e1 is not None:
            raise Skip("refused: %s" % type(e1).__name__)
        p1, p2 = PSpecContainer(f1, mode="r", keep_open=False), PSpecContainer(f2, mode="r", keep_open=False)
        n = 0
        for g in p2.groups():
            assert sorted(p1.spectra(g)) == sorted(p2.spectra(g)), "script stored %s, function %s" % (p1.spectra(g), p2.spectra(g))
            for s in p2.spectra(g):
                uvps.same(p1.get_pspec(g, s), p2.get_pspec(g, s), tol=1e-12)
                n += s.endswith("_avg")
    note.nt(n > 0)
    note.label(*["%s %s" % (k, c[k]) for k in ("time_avg", "ns", "rs")])


@st.composite
def msc_case(draw):
    from checks import c04
    return dict(sp=draw(uvps.spec(max_spw=2, max_blp=3, max_t=3, max_pol=2)), axis=draw(c04.AX), cuts=draw(c04.CUTS), dss=draw(st.sampled_from(["_x_", "_x_", ".X."])), ext=draw(st.sampled_from(["_", "_", "."])), verbose=draw(st.booleans()))


def merge(c, note):
    """the psc_merge_spectra script combines the spectra of each dataset pair"""
    from checks import c04
    parts = None
    with scratch() as tmp:
        fn = os.path.join(str(tmp), "a.h5")
        psc = PSpecContainer(fn, mode="rw", keep_open=False)
        ext = c["ext"] if not (c["dss"] == ".X." and c["ext"] == ".") else "_"
        whole = {}
        for i, g in enumerate(["g0", "g1"]):
            u = uvps.build(dict(c["sp"], seed=c["sp"]["seed"] + i))
            whole[g] = u
            parts = c04.split(u, c["axis"], c["cuts"])
            for j, p in enumerate(parts):
                psc.set_pspec(g, "d1%sd2%sp%d" % (c["dss"], ext, j), p)
        argv = [fn] + (["--dset_split_str", c["dss"]] if c["dss"] != "_x_" else []) + (["--ext_split_str", ext] if ext != "_" else []) + (["--verbose"] if c["verbose"] else [])
        run_script("psc_merge_spectra.py", argv)
        out = PSpecContainer(fn, mode="r", keep_open=False)
        assert sorted(out.groups()) == ["g0", "g1"]
        for g, u in whole.items():
            assert list(out.spectra(g)) == ["d1%sd2" % c["dss"]], "spectra %s" % out.spectra(g)
            got = out.get_pspec(g, out.spectra(g)[0])
            c04.same_cells(c04.cells(uvps.snap(u)), c04.cells(uvps.snap(got)))
            c04.check_meta(got, u)
    note.nt(len(parts) > 1)


@st.composite
def noise_case(draw):
    d = draw(dsets.dspec(nd=1, nf=(4, 6), nt=(2, 4), max_bl=3, npol=2, autos=True, layout="grid", pols=["xx", "yy"], flags="none", wgts=False, units="Jy", nsamp=False))
    return dict(d=d, err=draw(st.sampled_from([["P_N"], ["P_N", "P_SN"], None])), groups=draw(st.sampled_from([None, ["g0"], ["g1"], ["g0", "g1"]])), spectra=draw(st.sampled_from([None, ["g0/a"], ["g0/b", "g1/a"], ["g1/b"]])))


def noise(c, note):
    """the auto_noise_run script stores the noise errors of every selected spectrum, and changes no other spectrum"""
    with scratch() as tmp:
        tmp = str(tmp)
        fn, af, bf = os.path.join(tmp, "a.h5"), os.path.join(tmp, "autos.uvh5"), os.path.join(tmp, "beam.fits")
        beamfile(bf)
        from hera_pspec.pspecbeam import PSpecBeamUV
        u = dsets.build_one(c["d"], 0)
        autos = u.select(bls=[p for p in u.get_antpairs() if p[0] == p[1]], inplace=False)
        autos.write_uvh5(af, run_check=False)
        psd = PSpecData([u], [None], beam=PSpecBeamUV(bf))
        psc = PSpecContainer(fn, mode="rw", keep_open=False)
        bls = [tuple(b) for b in c["d"]["bls"]]
        pp = [(p, p) for p in c["d"]["pols"]]
        orig = {}
        for g, n, taper in (("g0", "a", "none"), ("g0", "b", "hann"), ("g1", "a", "bh"), ("g1", "b", "none")):
            orig[(g, n)] = psd.pspec(bls, bls, (0, 0), pp, taper=taper, verbose=False)
            psc.set_pspec(g, n, orig[(g, n)])
        argv = [fn, af, bf]
        if c["err"]:
            argv += ["--err_type"] + c["err"]
        if c["groups"]:
            argv += ["--groups"] + c["groups"]
        if c["spectra"]:
            argv += ["--spectra"] + c["spectra"]
        run_script("auto_noise_run.py", argv)
        T = utils.uvd_to_Tsys(autos, beam=bf)
        out = PSpecContainer(fn, mode="r", keep_open=False)
        n = 0
        assert sorted(out.groups()) == ["g0", "g1"]
        for (g, s), e in orig.items():
            e = copy.deepcopy(e)
            sel = (not c["groups"] or g in c["groups"]) and (not c["spectra"] or g + "/" + s in c["spectra"])
            if sel:
                utils.uvp_noise_error(e, T, err_type=c["err"] or "P_N")
                n += 1
            uvps.same(out.get_pspec(g, s), e, tol=1e-9)
    note.nt(n > 0)
    note.label("%s" % c["err"], "groups" if c["groups"] else "", "spectra" if c["spectra"] else "")


# ------------------------------------------------------------------------------------------------ listed baseline-pairs
@st.composite
def listed_case(draw):
    nd = draw(st.sampled_from([2, 2, 3, 1]))
    d = draw(dsets.dspec(nd=nd, nf=(4, 5), nt=(2, 3), max_bl=4, npol=1, wgts=False, layout="grid", pols=["xx"], flags=["none", "pix"], units="Jy", nsamp=False))
    d["dtd"] = draw(st.sampled_from([0.25, 0.99727]))
    n = len(d["bls"])
    ix = st.integers(0, n - 1)
    return dict(d=d, keep=draw(st.lists(st.lists(ix, min_size=1, max_size=n, unique=True), min_size=nd, max_size=nd)),
                blps=draw(st.lists(st.tuples(ix, st.booleans(), ix, st.booleans()).map(list), min_size=1, max_size=5, unique_by=lambda x: (x[0], x[2]))),
                pairs=draw(st.one_of(st.none(), st.lists(st.tuples(st.integers(0, nd - 1), st.integers(0, nd - 1)).map(list), min_size=1, max_size=3, unique_by=tuple))))


def listed(c, note):
    """of the baseline-pairs asked for, each dataset pair gets those whose first baseline is in its first and second in its second dataset"""
    d = c["d"]
    nd = d["nd"]
    bls = [tuple(b) for b in d["bls"]]
    us = dsets.build(d)
    have = []
    for u, k in zip(us, c["keep"]):
        own = {frozenset(bls[i]) for i in k}
        u.select(bls=[p for p in u.get_antpairs() if frozenset(p) in own])
        have.append(own)
    blps = [(bls[i][::-1] if ri else bls[i], bls[j][::-1] if rj else bls[j]) for i, ri, j, rj in c["blps"]]
    pairs = [tuple(x) for x in c["pairs"]] if c["pairs"] is not None else ([(0, 0)] if nd == 1 else [(i, j) for i in range(nd) for j in range(i + 1, nd)])
    kw = dict(dset_pairs=list(pairs)) if c["pairs"] is not None else {}
    want = {}
    psd = PSpecData(copy.deepcopy(us), [None] * nd, labels=["d%d" % i for i in range(nd)])
    psd.broadcast_dset_flags(time_thresh=0.2)
    cut = False
    for i, j in pairs:
        good = [(x, y) for x, y in blps if frozenset(x) in have[i] and frozenset(y) in have[j]]
        cut |= 0 < len(good) < len(blps)
        if good:
            want["d%d_x_d%d" % (i, j)] = psd.pspec([x for x, _ in good], [y for _, y in good], (i, j), [("xx", "xx")], verbose=False)
    with scratch() as tmp:
        fn = os.path.join(str(tmp), "out.h5")
        given = copy.deepcopy(blps)
        pspec_run(us, fn, blpairs=given, dset_labels=["d%d" % i for i in range(nd)], groupname="g", verbose=False, **kw)
        assert given == blps, "the list of baseline-pairs was changed"
        compare(fn, "g", want)
    note.nt(bool(want) and cut)
    note.label("cut" if cut else "", "some nothing" if len(want) < len(pairs) else "", "stored" if want else "nothing")


LAWS = [
    Law("objects", run_case(), run_objects, quick=150, thorough=6000, shards=4, weight=2, doc="pspec_run on objects == the steps by hand"),
    Law("files", file_case(), run_files, quick=60, thorough=2000, shards=2, doc="files in any split or naming == objects"),
    Law("listed", listed_case(), listed, quick=100, thorough=3000, shards=1, doc="requested baseline-pairs found in each pair of datasets"),
    Law("rephase", reph_case(), rephase, quick=100, thorough=4000, shards=1, doc="rephasing phasors"),
    Law("calibrate", cal_case(), calibrate, quick=100, thorough=3000, shards=1, doc="gains and their flags"),
    Law("script", script_case(), script, quick=60, thorough=2000, shards=2, doc="scripts/pspec_run.py == pspec_run"),
    Law("boots", boot_case(), boots, quick=40, thorough=1000, shards=1, doc="scripts/bootstrap_run.py == bootstrap_run"),
    Law("merge", msc_case(), merge, quick=40, thorough=1000, shards=1, doc="scripts/psc_merge_spectra.py"),
    Law("noise", noise_case(), noise, quick=40, thorough=1000, shards=1, doc="scripts/auto_noise_run.py == uvp_noise_error"),
]
