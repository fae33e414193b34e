"""C21: differencing and matching of UVPSpecs."""
import numpy as np
from hypothesis import strategies as st

from hera_pspec import uvpspec_utils as uu
from pv import uvps
from pv.core import Law, Skip
from pv.uvps import build, close, raises, same, snap

from checks.c04 import cells, same_cells

RULE = ("Cases are two to four UVPSpecs derived from one generated layout by dropping and reordering windows, baseline-pairs, times and polarization pairs, with independent values and row orders; "
        "non-trivial when the objects share something and at least one of them loses something or is stored in another order.")
ASSUMPTIONS = ["baseline-pair-times are identified by their average LST (subtraction) or average time or LST (select_common) and occur once per object",
               "both objects of a difference hold the same statistics; covariances and window functions, for which no rule is documented, may be combined in quadrature, added (covariances) or averaged (windows)"]


@st.composite
def derived(draw, sp, n):
    """n specs sharing parts of sp"""
    out = []
    for i in range(n):
        d = dict(sp)
        for k in ("spws", "blps", "pps"):
            o = draw(st.permutations(range(len(sp[k]))))
            m = draw(st.sampled_from([len(o), len(o), max(1, len(o) - 1)]))
            d[k] = [sp[k][j] for j in o[:m]]
        if draw(st.sampled_from([0, 0, 0, 1])) and len(d["spws"]) > 1:
            d["spws"][-1] = dict(d["spws"][-1], nd=d["spws"][-1]["nd"] + 1)  # same channels, other delays
        d["seed"] = draw(st.integers(0, 2**20))
        d["order"] = draw(st.sampled_from(["bl", "t", "mix"]))
        d["day"] = draw(st.sampled_from([0, 0, 1]))
        d["nt"] = max(1, sp["nt"] - draw(st.sampled_from([0, 0, 1])))
        d["first"] = draw(st.sampled_from([0, 0, 1]))
        d["dscale"] = draw(st.sampled_from([1, 1, 1, 2]))  # delays of the first window as after averaging delays
        out.append(d)
    return out


def make(d):
    u = build(d)
    if d["first"] and len(set(u.time_avg_array)) > 1:
        u.select(times=np.unique(u.time_avg_array)[1:], inplace=True)
    if d["dscale"] != 1:
        m = u.spw_dly_array == 0
        u.dly_array[m] = u.dly_array[m] * d["dscale"]
        u.Ndlys = len(np.unique(u.dly_array))
    if d["day"]:
        u.time_1_array, u.time_2_array, u.time_avg_array = u.time_1_array + 1, u.time_2_array + 1, u.time_avg_array + 1
    return u


@st.composite
def scase(draw):
    sp = draw(uvps.spec(rparams=False, beam=False))
    return dict(sps=draw(derived(sp, draw(st.sampled_from([2, 2, 3, 4])))), axes=draw(st.lists(st.sampled_from(["spws", "blpairs", "polpairs", "times", "lsts"]), unique=True, max_size=4)), inplace=draw(st.booleans()))


def windows(s):
    f, d = np.asarray(s["spw_freq_array"]), np.asarray(s["spw_dly_array"])
    return [(tuple(s["freq_array"][f == i]), tuple(s["dly_array"][d == i])) for i in range(s["Nspws"])]


def common(sets):
    out = set(sets[0])
    for x in sets[1:]:
        out &= set(x)
    return out


def matching(c, note):
    """every object keeps exactly what all of them have, with untouched contents"""
    us = [make(d) for d in c["sps"]]
    ss = [snap(u) for u in us]
    kw = {k: k in c["axes"] for k in ("spws", "blpairs", "polpairs", "times", "lsts")}
    if kw["times"] and kw["lsts"]:
        assert raises(uu.select_common, us, inplace=False, **kw), "times and lsts together were accepted"
        for u, s in zip(us, ss):
            same(u, s)
        note.label("both times and lsts")
        return
    W = common([windows(s) for s in ss])
    B = common([s["blpair_array"].tolist() for s in ss])
    P = common([s["polpair_array"].tolist() for s in ss])
    T = common([s["time_avg_array"].tolist() for s in ss])
    L = common([s["lst_avg_array"].tolist() for s in ss])
    want, empty = [], False
    for s in ss:
        e = cells(s)
        keep = {k: v for k, v in e.items() if (not kw["spws"] or k[:2] in W) and (not kw["blpairs"] or k[2][0] in B) and (not kw["polpairs"] or k[3] in P)
                and (not kw["times"] or float(v["tavg"]) in T) and (not kw["lsts"] or float(v["lsts"][2]) in L)}
        empty |= not keep
        want.append(keep)
    for k, x in (("spws", W), ("blpairs", B), ("polpairs", P), ("times", T), ("lsts", L)):
        empty |= kw[k] and not x
    if empty:
        note.nt()
        note.label("nothing shared")
        assert raises(uu.select_common, us, inplace=False, **kw), "objects sharing nothing were accepted"
        for u, s in zip(us, ss):
            same(u, s)
        return
    got = uu.select_common(us, inplace=c["inplace"], **kw)
    if c["inplace"]:
        assert got is None
        got = us
    else:
        for u, s in zip(us, ss):
            same(u, s)
    assert len(got) == len(us)
    for g, w, s in zip(got, want, ss):
        g.check()
        same_cells(w, cells(snap(g)))
        assert g.Nblpairs == len({k[2][0] for k in w}) and g.Nspws == len({k[:2] for k in w}) and g.Npols == len({k[3] for k in w}) and g.Nbltpairs == len({k[2] for k in w}), "counts"
    note.nt(any(len(w) < len(cells(s)) for w, s in zip(want, ss)))
    note.label("%d objects" % len(us), *c["axes"])


@st.composite
def dcase(draw):
    sp = draw(uvps.spec(rparams=False, beam=False, stats=draw(st.sampled_from([[], ["P_N"], ["P_N", "bs_std"]]))))
    a, b = draw(derived(sp, 2))
    if draw(st.sampled_from([0, 0, 1])):
        b = dict(b, wf="none") if draw(st.booleans()) else dict(b, cov=False)
    if draw(st.booleans()):
        b["stats"] = b["stats"] + ["cov_diag"] if b["stats"] else []
    return dict(a=a, b=b)


def invq(a, b):
    with np.errstate(divide="ignore"):
        return np.sqrt(1 / (1 / np.asarray(a, float)**2 + 1 / np.asarray(b, float)**2))


def diff(c, note):
    """every shared cell holds the difference, with combined integrations, samples, weights and statistics; nothing else is left"""
    u1, u2 = make(c["a"]), make(c["b"])
    s1, s2 = snap(u1), snap(u2)
    e1, e2 = cells(s1), cells(s2)
    key = lambda k, v: (k[0], k[1], k[2][0], float(v["lsts"][2]), k[3])
    m1, m2 = {key(k, v): (k, v) for k, v in e1.items()}, {key(k, v): (k, v) for k, v in e2.items()}
    assert len(m1) == len(e1) and len(m2) == len(e2)
    K = set(m1) & set(m2)
    if not K:
        note.label("nothing shared")
        note.nt()
        assert raises(uu.subtract_uvp, u1, u2), "objects sharing nothing were subtracted"
        return
    out = uu.subtract_uvp(u1, u2)
    same(u1, s1), same(u2, s2)
    out.check()
    so = snap(out)
    eo = {key(k, v): (k, v) for k, v in cells(so).items()}
    assert set(eo) == K, "cells lost %d, cells that are not shared %d" % (len(K - set(eo)), len(set(eo) - K))
    w, top = {}, {}
    for k in K:
        w[k] = invq(m1[k][1]["wgt"], m2[k][1]["wgt"])
        g = (k[0], k[1], k[2], k[4])
        top[g] = max(top.get(g, 0), w[k].max())
    for k in K:
        k1, a = m1[k]
        b, o = m2[k][1], eo[k][1]
        assert eo[k][0] == k1, "times of the first object"
        assert close(o["data"], a["data"] - b["data"], 1e-12), "data of %s: %s, not %s - %s" % (k[2:], o["data"], a["data"], b["data"])
        assert close(o["integ"], invq(a["integ"], b["integ"]), 1e-10), "integration of %s" % (k[2:],)
        assert close(o["ns"], invq(a["ns"], b["ns"]), 1e-10), "samples of %s" % (k[2:],)
        t = top[(k[0], k[1], k[2], k[4])]
        assert close(o["wgt"], w[k] / t if t > 0 else w[k], 1e-10), "weights of %s: %s, not %s" % (k[2:], o["wgt"], w[k] / t if t > 0 else w[k])
        for n in c["a"]["stats"]:
            x, y = a["stat " + n], b["stat " + n]
            assert close(o["stat " + n], np.sqrt(x.real**2 + y.real**2) + 1j * np.sqrt(x.imag**2 + y.imag**2), 1e-10), "statistic %s of %s" % (n, k[2:])
        for n in ("cov_array_real", "cov_array_imag"):
            if n in a and n in b:
                assert close(o[n], np.hypot(a[n], b[n]), 1e-10) or close(o[n], a[n] + b[n], 1e-10), "%s of %s does not combine both" % (n, k[2:])
        n = "window_function_array"
        if n in a and n in b:
            assert any(close(o[n], x, 1e-10) for x in (np.hypot(a[n], b[n]), np.hypot(a[n], b[n]) / np.sqrt(2), (a[n] + b[n]) / 2)), "window functions of %s do not combine both" % (k[2:],)
        for n in ("scalar", "lab1", "lab2", "tavg", "lsts"):
            assert np.array_equal(o[n], a[n]), n
    assert so["Nblpairs"] == len({k[2] for k in K}) and so["Nspws"] == len({k[:2] for k in K}) and so["Npols"] == len({k[4] for k in K}), "counts"
    for n in ("vis_units", "norm_units", "weighting", "norm", "taper", "folded", "exact_windows", "channel_width"):
        if n != "channel_width":
            assert so[n] == s1[n], n
    note.nt(len(K) < max(len(m1), len(m2)) or c["a"]["order"] == "mix")
    if so["folded"]:
        note.label("folded")
    if any(not np.any(w[k]) for k in K):
        note.label("flagged")
    if len(K) < len({k[2:4] for k in m1} & {k[2:4] for k in m2}) * so["Nspws"] * so["Npols"]:
        note.label("ragged")


LAWS = [
    Law("select-common", scase(), matching, quick=400, shards=3, weight=3),
    Law("subtract", dcase(), diff, quick=500, shards=4, weight=4),
]
