"""C03: UVPSpec.select."""
import copy

import numpy as np
from hypothesis import strategies as st

from pv import uvps
from pv.core import Law, Skip
from pv.uvps import build, raises, same, snap, tup, blpair_int, bl_int, polpair_int

RULE = "Cases are generated UVPSpecs (spec dict) plus a generated selection; non-trivial when at least one axis keeps a proper, non-empty subset."
ASSUMPTIONS = ["channel_width describes the visibility channels and is left alone by select", "times/lsts are requested with their stored values (stored times of one object differ by more than 1 ms)"]

from pyuvdata.utils import polnum2str


@st.composite
def selection(draw, sp):
    """A selection as JSON: what to ask for and in which spelling."""
    b = st.booleans()
    sel = {}
    n = len(sp["spws"])
    if draw(b):
        k = draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=n + 1))
        sel["spws"] = k
        sel["spw_form"] = draw(st.sampled_from(["int", "tuple", "np"]))
    bls = sorted({tuple(x) for bp in sp["blps"] for x in bp})
    if draw(st.integers(0, 3)) == 0:
        sel["bls"] = [list(x) for x in draw(st.lists(st.sampled_from(bls + [(3, 4)]), min_size=1, max_size=3, unique=True))]
        sel["only"] = draw(b)
        sel["bl_form"] = draw(st.sampled_from(["tuple", "int"]))
    if draw(b):
        sel["blps"] = draw(st.lists(st.sampled_from(sp["blps"]), min_size=1, max_size=3))
        sel["blp_form"] = draw(st.sampled_from(["tuple", "int"]))
    tl = draw(st.integers(0, 3))
    if tl in (1, 2):
        sel["times" if tl == 1 else "lsts"] = draw(st.lists(st.integers(0, sp["nt"] - 1), min_size=1, max_size=sp["nt"], unique=True))
    if draw(b):
        sel["pps"] = draw(st.lists(st.sampled_from(sp["pps"]), min_size=1, max_size=4))
        sel["pp_form"] = draw(st.sampled_from(["tuple", "int", "str"]))
    return sel


@st.composite
def case(draw, **kw):
    if draw(st.integers(0, 5)) == 3:  # rows and polarization pairs at irregular positions
        sp = draw(uvps.spec(**dict(kw, min_pol=4, max_pol=5)))
        sel = draw(selection(sp))
        for k in ("bls", "only", "bl_form", "times", "lsts"):
            sel.pop(k, None)
        n = len(sp["pps"])
        sel.update(pps=[sp["pps"][i] for i in draw(st.sampled_from([[0, 1, 3], [0, 2, 3], [n - 1, 2, 0, 1][:n - 1], [0, 1, 3, n - 1]]))], pp_form="int")
        sel["times"] = draw(st.sampled_from([x for x in ([0, 1, 3], [0, 2, 3], [0, 2], [0]) if max(x) < sp["nt"]]))
        if draw(st.booleans()):
            sel.update(blps=sp["blps"][:2], blp_form="int")
        return dict(sp=sp, sel=sel)
    sp = draw(uvps.spec(**kw))
    return dict(sp=sp, sel=draw(selection(sp)))


def time_values(u, sp):
    """stored time_avg for each integration index (first row that has it)"""
    out = {}
    dtj = sp["dt"] / 86400.0
    for r in range(u.Nbltpairs):
        t = int(round((u.time_1_array[r] - sp["t0"]) / dtj))
        out.setdefault(t, (u.time_avg_array[r], u.lst_avg_array[r]))
    return out


def kwargs_of(u, sp, sel):
    kw = {}
    if "spws" in sel:
        if sel["spw_form"] == "tuple":
            rr = u.get_spw_ranges()
            kw["spws"] = [rr[i] for i in sel["spws"]]
        elif sel["spw_form"] == "np":
            kw["spws"] = [np.int64(i) for i in sel["spws"]]
        else:
            kw["spws"] = list(sel["spws"])
    if "bls" in sel:
        kw["bls"] = [tuple(x) if sel["bl_form"] == "tuple" else bl_int(x) for x in sel["bls"]]
        kw["only_pairs_in_bls"] = sel["only"]
    if "blps" in sel:
        kw["blpairs"] = [tup(x) if sel["blp_form"] == "tuple" else blpair_int(x) for x in sel["blps"]]
    tv = time_values(u, sp)
    for nm, j in (("times", 0), ("lsts", 1)):
        if nm in sel:
            kw[nm] = np.array([tv[i][j] for i in sel[nm] if i in tv])
            if len(kw[nm]) == 0:
                raise Skip()
    if "pps" in sel:
        if sel["pp_form"] == "str" and all(p[0] == p[1] for p in sel["pps"]):
            kw["polpairs"] = [polnum2str(p[0]) for p in sel["pps"]]
        elif sel["pp_form"] == "tuple":
            kw["polpairs"] = [(polnum2str(p[0]), polnum2str(p[1])) if i % 2 else tuple(p) for i, p in enumerate(sel["pps"])]
        else:
            kw["polpairs"] = [polpair_int(p) for p in sel["pps"]]
    return kw


def expected_index(u, sp, sel):
    """Brute-force indices (rows, spws, pols) of the selection."""
    rows = []
    want_bls = {tuple(x) for x in sel.get("bls", [])}
    want_blps = {tup(x) for x in sel.get("blps", [])}
    dtj = sp["dt"] / 86400.0
    for r in range(u.Nbltpairs):
        i12 = str(int(u.blpair_array[r])).zfill(12)
        a = [int(i12[j:j + 3]) - 100 for j in (0, 3, 6, 9)]
        b1, b2 = (a[0], a[1]), (a[2], a[3])
        ok = "bls" not in sel and "blps" not in sel
        if "bls" in sel:
            ok |= (b1 in want_bls and b2 in want_bls) if sel["only"] else (b1 in want_bls or b2 in want_bls)
        if "blps" in sel:
            ok |= (b1, b2) in want_blps
        t = int(round((u.time_1_array[r] - sp["t0"]) / dtj))
        if "times" in sel:
            ok &= t in sel["times"]
        if "lsts" in sel:
            ok &= t in sel["lsts"]
        if ok:
            rows.append(r)
    spws = sorted(set(sel["spws"])) if "spws" in sel else list(range(u.Nspws))
    want = {polpair_int(p) for p in sel["pps"]} if "pps" in sel else None
    pols = [i for i, p in enumerate(u.polpair_array.tolist()) if want is None or p in want]
    return rows, spws, pols


def reference_select(s, rows, spws, pols):
    """Apply (rows, spws, pols) to a snapshot of a UVPSpec."""
    e = copy.deepcopy(s)
    for k in ("blpair_array", "time_1_array", "time_2_array", "time_avg_array", "lst_1_array", "lst_2_array", "lst_avg_array"):
        e[k] = s[k][rows]
    fm = np.isin(s["spw_freq_array"], spws)
    dm = np.isin(s["spw_dly_array"], spws)
    ren = {old: new for new, old in enumerate(spws)}
    e["freq_array"], e["dly_array"] = s["freq_array"][fm], s["dly_array"][dm]
    e["spw_freq_array"] = np.array([ren[int(x)] for x in s["spw_freq_array"][fm]])
    e["spw_dly_array"] = np.array([ren[int(x)] for x in s["spw_dly_array"][dm]])
    e["spw_array"] = np.arange(len(spws))
    e["Nspws"], e["Nspwfreqs"], e["Nspwdlys"] = len(spws), int(fm.sum()), int(dm.sum())
    e["Nfreqs"], e["Ndlys"] = len(set(e["freq_array"].tolist())), len(set(e["dly_array"].tolist()))
    e["Nbltpairs"] = len(rows)
    e["Nblpairs"] = len(set(e["blpair_array"].tolist()))
    e["Ntimes"] = e["Ntpairs"] = len(set(zip(e["time_1_array"].tolist(), e["time_2_array"].tolist())))
    bls = {int(str(int(x)).zfill(12)[j:j + 6]) for x in e["blpair_array"] for j in (0, 6)}
    bm = [i for i, x in enumerate(s["bl_array"].tolist()) if x in bls]
    e["bl_array"], e["bl_vecs"], e["Nbls"] = s["bl_array"][bm], s["bl_vecs"][bm], len(bm)
    e["polpair_array"], e["Npols"] = s["polpair_array"][pols], len(pols)
    e["scalar_array"] = s["scalar_array"][np.ix_(spws, pols)]
    for k in ("label_1_array", "label_2_array"):
        e[k] = s[k][np.ix_(spws, rows, pols)]
    if "OmegaP" in s:
        e["OmegaP"], e["OmegaPP"] = s["OmegaP"][:, pols], s["OmegaPP"][:, pols]

    def d(x):
        return {ren[o]: x[o][rows][..., pols] for o in spws}
    for k in ("data_array", "wgt_array", "integration_array", "nsample_array", "cov_array_real", "cov_array_imag", "window_function_array"):
        if k in s:
            e[k] = d(s[k])
    for k in ("window_function_kperp", "window_function_kpara"):
        if k in s:
            e[k] = {ren[o]: s[k][o][:, pols] for o in spws}
    if "stats_array" in s:
        e["stats_array"] = {n: d(s["stats_array"][n]) for n in s["stats_array"]}
    return e


def check_rparams(u, before):
    """weighting parameters kept for the (baseline, pol) combinations still present (those of absent ones are of no consequence)"""
    keys = set()
    for (spw, blp, pp) in u.get_all_keys():
        keys.add(blp[0] + (pp[0],))
        keys.add(blp[1] + (pp[1],))
    got = {k: v for k, v in u.get_r_params().items() if k in keys or k not in before}
    exp = {k: v for k, v in before.items() if k in keys}
    assert got == exp, "r_params after select: %s vs %s" % (sorted(got), sorted(exp))


def law_reference(c, note):
    """select keeps exactly the requested cells of every array and rebuilds all counts and indices"""
    sp, sel = c["sp"], c["sel"]
    u = build(sp)
    s0 = snap(u)
    rp0 = u.get_r_params()
    rows, spws, pols = expected_index(u, sp, sel)
    kw = kwargs_of(u, sp, sel)
    if len(rows) == 0:
        note.label("empty")
        note.nt()
        assert raises(u.select, inplace=False, **kw), "empty selection accepted"
        same(u, s0)
        return
    out = u.select(inplace=False, **kw)
    same(u, s0)
    exp = reference_select(s0, rows, spws, pols)
    same(out, exp, ignore=("r_params",))
    check_rparams(out, rp0)
    out.check()
    v = copy.deepcopy(u)
    v.select(inplace=True, **kw)
    same(v, out)
    # getters on the result give the same rows as on the input
    for ni, o in enumerate(spws):
        for bp in out.get_blpairs():
            i12 = blpair_int(bp)
            rr = [r for r in rows if s0["blpair_array"][r] == i12]
            nd = s0["data_array"][o].shape[1]
            sl = slice(-(nd - nd // 2 - 1), None) if s0["folded"] else slice(None)
            for p in pols:
                key = (ni, bp, int(s0["polpair_array"][p]))
                assert np.array_equal(out.get_data(key), s0["data_array"][o][rr][:, sl, p]), "get_data after select"
            m = s0["spw_dly_array"] == o
            dl = s0["dly_array"][m]
            assert np.array_equal(out.get_dlys(ni), dl[dl > 1e-10] if s0["folded"] else dl), "get_dlys after select"
    full = (len(rows), len(spws), len(pols)) == (s0["Nbltpairs"], s0["Nspws"], s0["Npols"])
    note.nt(not full)
    note.label(*[k for k in ("spws", "bls", "blps", "times", "lsts", "pps") if k in sel])
    if s0["folded"]:
        note.label("folded")


@st.composite
def case2(draw):
    sp = draw(uvps.spec())
    return dict(sp=sp, a=draw(selection(sp)), b=draw(selection(sp)), )


AXES = dict(spws=("spws", "spw_form"), rows=("bls", "only", "bl_form", "blps", "blp_form"), time=("times", "lsts"), pols=("pps", "pp_form"))


def law_commute(c, note):
    """selections on different axes commute, and equal selecting both at once"""
    sp = c["sp"]
    u = build(sp)
    a = {k: v for k, v in c["a"].items() if k in AXES["spws"] + AXES["rows"]}
    b = {k: v for k, v in c["b"].items() if k in AXES["time"] + AXES["pols"]}
    if sp["seed"] % 2:
        a = {k: v for k, v in c["a"].items() if k in AXES["pols"] + AXES["rows"]}
        b = {k: v for k, v in c["b"].items() if k in AXES["time"] + AXES["spws"]}
    ka, kb = kwargs_of(u, sp, a), kwargs_of(u, sp, b)
    rows = expected_index(u, sp, {**a, **b})[0]
    if not rows:
        raise Skip()
    # spw tuples are objects' frequency ranges, so they stay valid after other selections
    x = u.select(inplace=False, **ka).select(inplace=False, **kb)
    y = u.select(inplace=False, **kb).select(inplace=False, **ka)
    z = u.select(inplace=False, **ka, **kb)
    same(x, y, ignore=("r_params",))
    same(x, z, ignore=("r_params",))
    for q in (x, y, z):
        check_rparams(q, u.get_r_params())
    # idempotent: selecting again what is left (window indices are renumbered, so only the other axes)
    w = z.select(inplace=False, **{k: v for k, v in {**ka, **kb}.items() if k != "spws"})
    same(w, z, ignore=("r_params",))
    note.nt(bool(a) and bool(b))


def law_identity(c, note):
    """selecting everything, in any spelling, changes nothing"""
    sp = c["sp"]
    u = build(sp)
    s0 = snap(u)
    kw = {}
    if c["m"] & 1:
        kw["spws"] = list(range(u.Nspws))
    if c["m"] & 2:
        kw["blpairs"] = u.get_blpairs()
    if c["m"] & 4:
        kw["times"] = np.unique(u.time_avg_array)
    if c["m"] & 8:
        kw["polpairs"] = list(u.polpair_array)
    if c["m"] & 16:
        kw["bls"] = [u.bl_to_antnums(b) for b in u.bl_array]
    if c["m"] & 32 and not c["m"] & 4:
        kw["lsts"] = np.unique(u.lst_avg_array)
    out = u.select(inplace=False, **kw)
    same(out, s0, ignore=("r_params",))
    if u.r_params:
        assert out.get_r_params() == {k: v for k, v in u.get_r_params().items() if k in out.get_r_params()}
    note.nt(c["m"] != 0)


def law_refuse(c, note):
    """asking only for absent windows, baseline-pairs, times or polarizations is refused"""
    sp = c["sp"]
    u = build(sp)
    s0 = snap(u)
    k = c["k"]
    if k == "spw":
        kw = dict(spws=[u.Nspws + c["j"]])
    elif k == "spw+":
        kw = dict(spws=[0, u.Nspws])
    elif k == "blp":
        bad = ((1, 2), (850, 3 + c["j"]))
        kw = dict(blpairs=[bad if c["j"] % 2 else blpair_int(bad)])
    elif k == "bl":
        kw = dict(bls=[(850, 851 + c["j"])], only_pairs_in_bls=bool(c["j"] % 2))
    elif k == "time":
        kw = dict(times=[u.time_avg_array[0] + (c["j"] + 1) * 0.37 * sp["dt"] / 86400.0 + 11])
    elif k == "lst":
        kw = dict(lsts=[u.lst_avg_array.max() + 0.1 * (c["j"] + 1)])
    else:
        have = set(u.polpair_array.tolist())
        kw = dict(polpairs=[p for p in ((-8, -7), (4, 3), (-1, -4)) if polpair_int(p) not in have])
    assert raises(u.select, inplace=False, **kw), "selection %s matched nothing but was accepted" % kw
    same(u, s0)
    note.nt()
    note.label(k)


LAWS = [
    Law("reference", case(), law_reference, quick=500, shards=4, weight=5),
    Law("commute", case2(), law_commute, quick=200, shards=2, weight=2),
    Law("identity", st.fixed_dictionaries(dict(sp=uvps.spec(), m=st.integers(0, 63))), law_identity, quick=150),
    Law("refuse", st.fixed_dictionaries(dict(sp=uvps.spec(), k=st.sampled_from(["spw", "spw+", "blp", "bl", "time", "lst", "pol"]), j=st.integers(0, 3))), law_refuse, quick=120),
]
