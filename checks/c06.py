"""C06: folding."""
import copy

import numpy as np
from hypothesis import strategies as st

from hera_pspec import grouping
from pv import uvps
from pv.core import Law, Skip
from pv.uvps import assert_close, blpair_int, build, raises, same, snap, tup

RULE = "Cases are generated UVPSpecs with even and odd numbers of delays; non-trivial when there is at least one pair of opposite delays holding different values."
ASSUMPTIONS = ["delays are the symmetric Fourier delays that PSpecData writes (even numbers of delays have one unpaired most negative delay)",
               "window functions fold as the mean of their four quadrants, and errors in inverse quadrature, as the code documents"]


def pairs(dl):
    """[(index of +d, index of -d)] in ascending order of d, by value"""
    out = []
    for i, d in enumerate(dl):
        if d > 1e-12:
            j = [k for k, e in enumerate(dl) if abs(e + d) < 1e-6 * d]
            assert len(j) == 1
            out.append((i, j[0]))
    return out


def iq(a, b):
    with np.errstate(divide="ignore"):
        return 1 / np.sqrt(1 / a**2 + 1 / b**2)


def law_reference(c, note):
    """folded values, errors, covariances and windows are the documented combination of each +/- delay pair, seen through the getters"""
    sp = c["sp"]
    u = build(sp)
    s = snap(u)
    keys = [(w, bp, pp) for w in range(len(sp["spws"])) for bp in u.get_blpairs() for pp in map(tuple, sp["pps"])]
    kp = [u.get_kparas(w) for w in range(len(sp["spws"]))] if hasattr(u, "cosmo") else None
    if c["via"]:
        grouping.fold_spectra(u)
    else:
        u.fold_spectra()
    o = snap(u)
    u.check()
    assert o["folded"] is True
    diff = False
    for w, bp, pp in keys:
        key = (w, bp, pp)
        rows = [r for r, b in enumerate(s["blpair_array"].tolist()) if b == blpair_int(bp)]
        p = [tuple(x) for x in sp["pps"]].index(pp)
        dl = s["dly_array"][s["spw_dly_array"] == w]
        pr = pairs(dl)
        P, M = [i for i, _ in pr], [j for _, j in pr]
        assert np.array_equal(u.get_dlys(w), dl[P]), "get_dlys after folding"
        d = s["data_array"][w][rows][..., p]
        assert_close(u.get_data(key), (d[:, P] + d[:, M]) / 2, "folded data", 1e-13)
        diff |= bool(len(P)) and not np.allclose(d[:, P], d[:, M])
        assert np.array_equal(u.get_nsamples(key), 2 * s["nsample_array"][w][rows, p]), "nsamples"
        for n in s.get("stats_array", {}):
            x = np.asarray(s["stats_array"][n][w])[rows][..., p]
            e = iq(x[:, P].real, x[:, M].real)
            y = u.get_stats(n, key)
            assert_close(np.asarray(y).real, e, "folded statistic (real part)", 1e-12)
            if np.iscomplexobj(x):
                ei = iq(x[:, P].imag, x[:, M].imag)
                assert_close(np.asarray(y).imag, ei, "folded statistic (imaginary part)", 1e-12)
        if "cov_array_real" in s:
            for comp, k in (("real", "cov_array_real"), ("imag", "cov_array_imag")):
                x = s[k][w][rows][..., p]
                e = sum(x[:, a][:, :, b] for a in (P, M) for b in (P, M)) / 4
                assert_close(u.get_cov(key, component=comp), e, "folded covariance", 1e-12)
        if "window_function_array" in s:
            x = s["window_function_array"][w][rows][..., p]
            if s["exact_windows"]:
                e = (x[:, P] + x[:, M]) / 2
            else:
                e = sum(x[:, a][:, :, b] for a in (P, M) for b in (P, M)) / 4
            assert_close(u.get_window_function(key), e, "folded window function", 1e-12)
        if hasattr(u, "cosmo"):
            assert_close(u.get_kparas(w), kp[w][P], "get_kparas after folding", 1e-12)
    for w in range(s["Nspws"]):
        nd = s["data_array"][w].shape[1]
        assert o["data_array"][w].shape == s["data_array"][w].shape
        assert np.all(o["data_array"][w][:, : nd // 2] == 0), "negative delays hold power after folding"
    same({k: v for k, v in s.items() if k not in ("data_array", "nsample_array", "stats_array", "cov_array_real", "cov_array_imag", "window_function_array", "folded")},
         {k: v for k, v in o.items() if k not in ("data_array", "nsample_array", "stats_array", "cov_array_real", "cov_array_imag", "window_function_array", "folded")})
    assert u == copy.deepcopy(u), "folded object differs from its copy"
    # spw ranges now count positive delays only
    for w, r in enumerate(u.get_spw_ranges()):
        assert r[3] == len(u.get_dlys(w)), "get_spw_ranges counts %d delays of %d" % (r[3], len(u.get_dlys(w)))
    # folding again is refused and changes nothing
    assert raises(u.fold_spectra), "folded twice"
    same(u, o)
    note.nt(diff)
    note.label(*["even" if x["nd"] % 2 == 0 else "odd" for x in sp["spws"]], "wf=" + sp["wf"], *(["stats"] if sp["stats"] else []), *(["cov"] if sp["cov"] else []))


def law_symmetric(c, note):
    """a spectrum symmetric in delay is unchanged by folding, and its equal errors shrink by sqrt(2)"""
    u = build(c["sp"])
    for w in range(u.Nspws):
        dl = u.dly_array[u.spw_dly_array == w]
        for i, j in pairs(dl):
            u.data_array[w][:, j] = u.data_array[w][:, i]
            for n in getattr(u, "stats_array", {}):
                u.stats_array[n][w][:, j] = u.stats_array[n][w][:, i]
    v = copy.deepcopy(u)
    v.fold_spectra()
    for w in range(u.Nspws):
        P = [i for i, _ in pairs(u.dly_array[u.spw_dly_array == w])]
        for bp in u.get_blpairs():
            for pp in u.get_polpairs():
                k = (w, bp, pp)
                assert_close(v.get_data(k), u.get_data(k)[:, P], "folded symmetric spectrum", 1e-13)
                for n in getattr(u, "stats_array", {}):
                    a, b = np.asarray(v.get_stats(n, k)), np.asarray(u.get_stats(n, k))[:, P]
                    assert_close(a, b / np.sqrt(2), "error of a folded symmetric spectrum", 1e-12)
    note.nt()


def law_commute(c, note):
    """folding commutes with selection, and with averaging of data and covariances"""
    from checks.c03 import kwargs_of, expected_index
    sp = c["sp"]
    u = build(sp)
    if not expected_index(u, sp, c["sel"])[0]:
        raise Skip()
    kw = kwargs_of(u, sp, c["sel"])
    if c["sel"].get("spw_form") == "tuple":
        kw["spws"] = c["sel"]["spws"]
    f = copy.deepcopy(u)
    f.fold_spectra()
    a = f.select(inplace=False, **kw)
    b = u.select(inplace=False, **kw)
    b.fold_spectra()
    same(a, b)
    if sp["wf"] != "exact":
        fa = f.average_spectra(time_avg=True, inplace=False)
        af = u.average_spectra(time_avg=True, inplace=False)
        af.fold_spectra()
        for w in range(u.Nspws):
            for bp in fa.get_blpairs():
                for pp in fa.get_polpairs():
                    k = (w, bp, pp)
                    assert_close(fa.get_data(k), af.get_data(k), "fold(average) != average(fold)")
                    assert_close(fa.get_nsamples(k), af.get_nsamples(k), "nsamples of fold(average)")
                    assert_close(fa.get_integrations(k), af.get_integrations(k), "integrations of fold(average)")
                    if sp["cov"]:
                        assert_close(fa.get_cov(k), af.get_cov(k), "covariance of fold(average)")
    note.nt()


S = uvps.spec(folded=False)
S4 = st.tuples(S, st.sampled_from([0, 1, 2])).map(lambda t: dict(t[0], rstats=t[1]))


@st.composite
def case_sel(draw):
    from checks.c03 import selection
    sp = draw(uvps.spec(folded=False, stats=[]))
    return dict(sp=sp, sel=draw(selection(sp)))


LAWS = [
    Law("reference", st.fixed_dictionaries(dict(sp=S4, via=st.booleans())), law_reference, quick=1500, shards=5, weight=4),
    Law("symmetric", st.fixed_dictionaries(dict(sp=S4)), law_symmetric, quick=300),
    Law("commute", case_sel(), law_commute, quick=400, shards=2),
]
