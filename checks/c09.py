"""C09: keys, indices, integer codes."""
import copy

import numpy as np
from hypothesis import strategies as st
from pyuvdata.utils import polnum2str

from hera_pspec import uvpspec_utils as uu
from pv import uvps
from pv.core import Law, Skip
from pv.uvps import assert_close, bl_int, blpair_int, blvec, antpos_enu, build, polpair_int, raises, same, snap, tup

RULE = "Cases are generated UVPSpecs with a generated key and spelling, or generated antenna and polarization numbers; non-trivial when the object has more than one row, window or polarization, or the numbers are distinct."
ASSUMPTIONS = ["antenna numbers 0..899 and polarization numbers -8..4 (the ranges the integer codes are defined for)"]

FORMS = ["tuple", "dict", "ints", "npints", "strs", "samepol"]


def key_of(spw, bp, pp, form):
    if form == "ints":
        return (spw, blpair_int(bp), polpair_int(pp))
    if form == "npints":
        return (np.int64(spw), np.int64(blpair_int(bp)), np.int32(polpair_int(pp)))
    if form == "dict":
        return dict(spw=spw, blpair=tup(bp), polpair=tuple(pp))
    if form == "strs":
        return (spw, tup(bp), (polnum2str(pp[0]), polnum2str(pp[1])))
    if form == "samepol" and pp[0] == pp[1]:
        return (spw, tup(bp), polnum2str(pp[0]))
    return (spw, tup(bp), tuple(pp))


def law_getters(c, note):
    """every getter returns exactly the stored rows of its key, in storage order, whatever the spelling"""
    sp = c["sp"]
    u = build(sp)
    s = snap(u)
    n_keys = 0
    fs = c["forms"]
    for spw in range(len(sp["spws"])):
        nd = sp["spws"][spw]["nd"]
        pos = slice(-(nd - nd // 2 - 1), None) if s["folded"] else slice(None)
        for ib, bp in enumerate(sp["blps"]):
            rows = [r for r in range(s["Nbltpairs"]) if int(s["blpair_array"][r]) == blpair_int(bp)]
            for ip, pp in enumerate(sp["pps"]):
                key = key_of(spw, bp, pp, fs[(spw + ib + ip) % len(fs)])
                if not rows:
                    assert raises(u.get_data, key), "absent baseline-pair accepted"
                    continue
                n_keys += 1
                for omit in (False, True):
                    rr = [r for r in rows if not omit or s["integration_array"][spw][r, ip] > 1e-6]
                    g = lambda f, *a: np.asarray(f(*a, key, omit_flags=omit))  # noqa: E731
                    for nm, got, exp in (
                            ("data", g(u.get_data), s["data_array"][spw][rr][:, pos, ip]),
                            ("wgts", g(u.get_wgts), s["wgt_array"][spw][rr][..., ip]),
                            ("integrations", g(u.get_integrations), s["integration_array"][spw][rr][:, ip]),
                            ("nsamples", g(u.get_nsamples), s["nsample_array"][spw][rr][:, ip])):
                        assert got.shape == exp.shape and np.array_equal(got, exp), "get_%s%s" % (nm, " omit_flags" if omit else "")
                    if "cov_array_real" in s:
                        for comp in ("real", "imag"):
                            exp = s["cov_array_" + comp][spw][rr][:, pos, :, ip][:, :, pos]
                            assert np.array_equal(u.get_cov(key, component=comp, omit_flags=omit), exp), "get_cov " + comp
                        assert raises(u.get_cov, key, component="abs")
                    else:
                        assert raises(u.get_cov, key)
                    for st_ in sp["stats"]:
                        assert np.array_equal(g(u.get_stats, st_), s["stats_array"][st_][spw][rr][:, pos, ip]), "get_stats"
                    if sp["wf"] != "none":
                        exp = s["window_function_array"][spw][rr][:, pos][..., ip]
                        if sp["wf"] == "approx":
                            exp = exp[:, :, pos]
                        assert np.array_equal(g(u.get_window_function), exp), "get_window_function"
                    a, b, d = u.key_to_indices(key, omit_flags=omit)
                    assert (int(a), list(map(int, b)), int(d)) == (spw, rr, ip), "key_to_indices"
        dl = s["dly_array"][s["spw_dly_array"] == spw]
        exp = dl[dl > 1e-12] if s["folded"] else dl
        assert np.array_equal(u.get_dlys(spw), exp), "get_dlys"
        sr = u.get_spw_ranges()[spw]
        f = s["freq_array"][s["spw_freq_array"] == spw]
        assert_close(np.array(sr[:2]), np.array([f[0], f[0] + len(f) * uvps.CHAN]), "spw range", 1e-12)
        assert (sr[2], sr[3]) == (len(f), len(exp)), "spw range counts"
        assert u.get_spw_ranges(spw)[0] == sr and u.get_spw_ranges([spw])[0] == sr
    assert raises(u.get_stats, "no_such_stat", key_of(0, sp["blps"][0], sp["pps"][0], "tuple"))
    same(u, s)
    note.nt(n_keys > 1)
    note.label(*set(fs))


def law_indices(c, note):
    """index lookups agree with brute force; unions of several windows, pairs, polarizations; times select their own integration"""
    sp = c["sp"]
    u = build(sp)
    s = snap(u)
    present = [tup(b) for b in sp["blps"] if blpair_int(b) in s["blpair_array"]]
    pick = [present[i % len(present)] for i in c["i"]]
    want = {blpair_int(b) for b in pick}
    exp = [r for r in range(u.Nbltpairs) if int(u.blpair_array[r]) in want]
    for q in ([b for b in pick], [blpair_int(b) for b in pick]):
        assert list(u.blpair_to_indices(q)) == exp, "blpair_to_indices list"
    b0 = pick[0]
    e0 = [r for r in range(u.Nbltpairs) if int(u.blpair_array[r]) == blpair_int(b0)]
    for q in (b0, blpair_int(b0), np.int64(blpair_int(b0))):
        assert list(u.blpair_to_indices(q)) == e0, "blpair_to_indices"
    ws = sorted({i % u.Nspws for i in c["i"]})
    for arg in (ws, [u.get_spw_ranges()[w] for w in ws]) + ((ws[0], u.get_spw_ranges()[ws[0]]) if len(ws) == 1 else ()):
        assert list(u.spw_to_freq_indices(arg)) == [i for i, w in enumerate(s["spw_freq_array"]) if w in ws], "spw_to_freq_indices"
        assert list(u.spw_to_dly_indices(arg)) == [i for i, w in enumerate(s["spw_dly_array"]) if w in ws and (not u.folded or s["dly_array"][i] > 1e-12)], "spw_to_dly_indices"
        assert list(u.spw_indices(arg)) == ws, "spw_indices"
    pj = sorted({i % u.Npols for i in c["i"]})
    for f in (polpair_int, tuple, lambda p: (polnum2str(p[0]), polnum2str(p[1]))):
        arg = [f(sp["pps"][j]) for j in pj]
        assert list(u.polpair_to_indices(arg)) == pj, "polpair_to_indices"
        if len(pj) == 1:
            assert list(u.polpair_to_indices(arg[0])) == pj
    if len(pj) == 1 and sp["pps"][pj[0]][0] == sp["pps"][pj[0]][1]:
        assert list(u.polpair_to_indices(polnum2str(sp["pps"][pj[0]][0]))) == pj
    # times
    r = c["i"][0] % u.Nbltpairs
    t = u.time_avg_array[r]
    same_t = [k for k in range(u.Nbltpairs) if abs(u.time_avg_array[k] - t) < 0.2 * sp["dt"] / 86400]
    assert list(u.time_to_indices(t)) == same_t, "time_to_indices %s vs %s" % (list(u.time_to_indices(t)), same_t)
    assert list(u.time_to_indices(t, blpairs=pick)) == [k for k in same_t if int(u.blpair_array[k]) in want], "time_to_indices blpairs"
    assert list(u.time_to_indices(t, blpairs=pick[0])) == [k for k in same_t if int(u.blpair_array[k]) == blpair_int(pick[0])]
    # listings
    order = []
    for x in s["blpair_array"].tolist():
        if x not in order:
            order.append(x)
    assert [blpair_int(b) for b in u.get_blpairs()] == order, "get_blpairs"
    keys = u.get_all_keys()
    exp = {(w, b, (polnum2str(p[0]), polnum2str(p[1]))) for w in range(u.Nspws) for b in map(tup, sp["blps"]) for p in sp["pps"] if blpair_int(b) in order}
    assert len(keys) == len(exp) and set(keys) == exp, "get_all_keys"
    assert u.get_polpairs() == sorted({(polnum2str(p[0]), polnum2str(p[1])) for p in sp["pps"]}), "get_polpairs"
    # geometry
    L = {b: np.linalg.norm(antpos_enu(b[0]) - antpos_enu(b[1])) for bp in present for b in bp}
    seps = u.get_blpair_seps()
    expsep = []
    for x in s["blpair_array"]:
        i12 = str(int(x))
        a = [int(i12[j:j + 3]) - 100 for j in (0, 3, 6, 9)]
        expsep.append(0.5 * (L[(a[0], a[1])] + L[(a[2], a[3])]))
    assert np.allclose(seps, expsep, rtol=1e-6, atol=1e-6), "get_blpair_seps"
    for k in (0, 1):
        v = u.get_blpair_blvecs(use_second_bl=bool(k))
        exp = np.array([antpos_enu(b[k][0]) - antpos_enu(b[k][1]) for b in u.get_blpairs()])
        assert np.allclose(v, exp, atol=1e-5), "get_blpair_blvecs"
    # groups
    bls = sorted({b for bp in present for b in bp})
    grp = sorted({bls[i % len(bls)] for i in c["i"]})
    for only in (False, True):
        for arg in (grp, [bl_int(b) for b in grp]):
            g = u.get_blpair_groups_from_bl_groups([list(arg)], only_pairs_in_bls=only)
            e = sorted(blpair_int(b) for b in present if (b[0] in grp and b[1] in grp if only else b[0] in grp or b[1] in grp))
            assert [sorted(map(int, x)) for x in g] == ([sorted(set(e))] if e else []), "blpair groups from bl groups"
    same(u, s)
    note.nt(u.Nbltpairs > 1)
    note.label("dt%g" % sp["dt"], "folded" if u.folded else "unfolded")


def law_absent(c, note):
    """absent keys are refused rather than answered with other data"""
    sp = c["sp"]
    u = build(sp)
    ok = (0, blpair_int(u.get_blpairs()[0]), int(u.polpair_array[0]))
    have = set(u.blpair_array.tolist())
    k = c["k"]
    bad = list(ok)
    if k == 0:
        bad[0] = u.Nspws + c["j"]
    elif k == 1:
        for bp in u.get_blpairs():
            cands = [(bp[1], bp[0]), (bp[0][::-1], bp[1]), (bp[0], bp[1][::-1]), ((bp[0][0], bp[1][1]), (bp[1][0], bp[0][1]))]
            cands = [x for x in cands if blpair_int(x) not in have]
            if cands:
                x = cands[c["j"] % len(cands)]
                bad[1] = x if c["j"] % 2 else blpair_int(x)
                break
        else:
            raise Skip()
    else:
        pp = sp["pps"][0]
        cands = [p for p in ([pp[1], pp[0]], [pp[0], 3], [-7, pp[1]], [4, -8]) if p not in sp["pps"]]
        x = cands[c["j"] % len(cands)]
        bad[2] = tuple(x) if c["j"] % 2 else polpair_int(x)
    bad = tuple(bad)
    for f in (u.get_data, u.get_wgts, u.get_integrations, u.get_nsamples, u.key_to_indices):
        assert raises(f, bad), "%s answered for absent key %s" % (f.__name__, bad)
    if k == 0:
        for f in (u.spw_to_freq_indices, u.spw_to_dly_indices, u.spw_indices, u.get_dlys):
            assert raises(f, bad[0]) and raises(f, [0, bad[0]])
    if k == 1:
        assert raises(u.blpair_to_indices, bad[1]) and raises(u.blpair_to_indices, [ok[1], blpair_int(bad[1]) if isinstance(bad[1], tuple) else bad[1]])
    if k == 2:
        assert raises(u.polpair_to_indices, bad[2]) and raises(u.polpair_to_indices, [ok[2], bad[2]])
    note.nt()
    note.label("k%d" % k)


ANT = st.one_of(st.integers(0, 899), st.sampled_from([0, 1, 9, 10, 99, 100, 899, 898, 799, 800]))
POL = st.integers(-8, 4).filter(lambda p: p != 0)


def law_codes(c, note):
    """integer codes of baselines, pairs and polarization pairs are lossless and injective"""
    a = c["a"]
    u = build(dict(seed=1, spws=[dict(f0=0, nf=3, nd=3)], blps=[[[0, 1], [0, 1]]], nt=1, pps=[[-5, -5]], order="bl", dt=10.7, t0=2458042.1, lst0=0.3, off=0,
                   folded=False, cov=False, stats=[], wf="none", flags=0, drop=0, beam=False, cosmo=-1))
    bp = ((a[0], a[1]), (a[2], a[3]))
    bq = ((a[4], a[5]), (a[6], a[7]))
    i, j = u.antnums_to_blpair(bp), u.antnums_to_blpair(bq)
    assert str(i) == "".join("%03d" % (x + 100) for x in a[:4]), "antnums_to_blpair is the concatenation of antenna+100"
    assert u.blpair_to_antnums(i) == bp and u.blpair_to_antnums(np.int64(i)) == bp, "blpair round trip"
    assert (i == j) == (bp == bq), "blpair collision"
    b1, b2 = u.antnums_to_bl(bp[0]), u.antnums_to_bl(bp[1])
    assert b1 == bl_int(bp[0]) and u.bl_to_antnums(b1) == bp[0] and u.bl_to_antnums(np.int32(b1)) == bp[0], "baseline round trip"
    assert (b1 == b2) == (bp[0] == bp[1]), "baseline collision"
    assert int("%06d%06d" % (b1, b2)) == i
    p, q = tuple(c["p"][:2]), tuple(c["p"][2:])
    x = uu.polpair_tuple2int(p)
    assert x == (20 + p[0]) * 100 + 20 + p[1], "polpair code"
    assert uu.polpair_int2tuple(x) == p and uu.polpair_int2tuple(np.int32(x)) == p, "polpair round trip"
    ps = (polnum2str(p[0]), polnum2str(p[1]))
    assert uu.polpair_tuple2int(ps) == x and uu.polpair_int2tuple(x, pol_strings=True) == ps, "polpair string round trip"
    y = uu.polpair_tuple2int(q)
    assert (x == y) == (p == q), "polpair collision"
    assert uu.polpair_tuple2int([p, q]) == [x, y] and uu.polpair_int2tuple([x, y]) == [p, q] and uu.polpair_int2tuple(np.array([x, y])) == [p, q]
    assert uu.polpair_int2tuple([x, y], pol_strings=True)[1] == (polnum2str(q[0]), polnum2str(q[1]))
    if c["bad"] is not None:
        assert raises(uu.polpair_int2tuple, (20 + c["bad"]) * 100 + 20 + p[1]) and raises(uu.polpair_int2tuple, (20 + p[0]) * 100 + 20 + c["bad"]), "out-of-range polarization accepted"
    # cardinal orientation
    if all(k in (-5, -6, -7, -8) for k in p):
        card = {"east": {"x": "e", "y": "n"}, "north": {"x": "n", "y": "e"}}[c["xo"]]
        sp_ = tuple("".join(card[ch] for ch in s) for s in ps)
        assert uu.polpair_tuple2int(sp_, x_orientation=c["xo"]) == x, "cardinal polarization strings"
        assert uu.polpair_tuple2int([sp_, sp_], x_orientation=c["xo"]) == [x, x], "list of cardinal polarization strings"
        note.label("cardinal")
    note.nt(len(set(a)) > 4)


def law_set_stats(c, note):
    """set_stats then get_stats returns what was set and touches no other cell; set_stats_slice sets exactly the delays beyond the line"""
    sp = c["sp"]
    u = build(sp)
    s = snap(u)
    spw, pi = c["i"] % u.Nspws, c["i"] % u.Npols
    bp = u.get_blpairs()[c["i"] % len(u.get_blpairs())]
    rows = [r for r in range(u.Nbltpairs) if int(u.blpair_array[r]) == blpair_int(bp)]
    nd = sp["spws"][spw]["nd"]
    val = np.random.default_rng(c["i"]).normal(size=(len(rows), nd)) + 1j
    nm = (sp["stats"] + ["new_stat"])[c["i"] % (len(sp["stats"]) + 1)]
    u.set_stats(nm, (spw, bp, int(u.polpair_array[pi])), val)
    s2 = snap(u)
    exp = {w: (s["stats_array"][nm][w].copy() if nm in sp["stats"] else np.nan * np.ones(s["data_array"][w].shape)) for w in range(u.Nspws)}
    exp[spw] = exp[spw].astype(complex)
    for k, r in enumerate(rows):
        exp[spw][r, :, pi] = val[k]
    for w in exp:
        assert np.array_equal(np.asarray(s2["stats_array"][nm][w], complex), np.asarray(exp[w], complex), equal_nan=True), "set_stats wrote other cells"
    pos = slice(-(nd - nd // 2 - 1), None) if u.folded else slice(None)
    assert np.array_equal(u.get_stats(nm, (spw, bp, int(u.polpair_array[pi]))), val[:, pos])
    assert raises(u.set_stats, nm, (spw, bp, int(u.polpair_array[pi])), val[:, :-1])
    same({k: v for k, v in s2.items() if k != "stats_array"}, {k: v for k, v in s.items() if k != "stats_array"})
    if sp["stats"]:
        v = build(sp)
        st_ = sp["stats"][0]
        v.set_stats_slice(st_, c["m"], c["b"], above=c["above"], val=7e9)
        L = {b: np.linalg.norm(antpos_enu(b[0]) - antpos_enu(b[1])) for x in sp["blps"] for b in map(tuple, x)}
        hit = False
        for w in range(v.Nspws):
            dl = s["dly_array"][s["spw_dly_array"] == w] * 1e9
            for r in range(v.Nbltpairs):
                x = str(int(s["blpair_array"][r]))
                a = [int(x[j:j + 3]) - 100 for j in (0, 3, 6, 9)]
                lim = 0.5 * (L[(a[0], a[1])] + L[(a[2], a[3])]) * c["m"] + c["b"]
                edge = np.abs(np.abs(dl) - lim) < 1e-3
                m = np.abs(dl) > lim if c["above"] else np.abs(dl) < lim
                got, old = v.stats_array[st_][w][r], s["stats_array"][st_][w][r]
                # on folded spectra only the positive delays are exposed
                vis = (dl > 1e-3) if v.folded else np.ones(len(dl), bool)
                assert np.all(got[m & ~edge & vis] == 7e9), "set_stats_slice missed a delay"
                assert np.array_equal(got[~m & ~edge & vis], old[~m & ~edge & vis]), "set_stats_slice changed a delay on the other side"
                hit |= m.any()
        for o in sp["stats"][1:]:
            for w in range(v.Nspws):
                assert np.array_equal(v.stats_array[o][w], s["stats_array"][o][w])
        note.label("slice", "hit" if hit else "miss")
    note.nt(len(rows) < u.Nbltpairs or u.Nspws > 1)


I3 = st.lists(st.integers(0, 11), min_size=1, max_size=3)
LAWS = [
    Law("getters", st.fixed_dictionaries(dict(sp=uvps.spec(), forms=st.lists(st.sampled_from(FORMS), min_size=1, max_size=4))), law_getters, quick=500, shards=4, weight=5),
    Law("indices", st.fixed_dictionaries(dict(sp=uvps.spec(), i=I3)), law_indices, quick=600, shards=3, weight=4),
    Law("absent", st.fixed_dictionaries(dict(sp=uvps.spec(), k=st.integers(0, 2), j=st.integers(0, 5))), law_absent, quick=300),
    Law("codes", st.fixed_dictionaries(dict(a=st.lists(ANT, min_size=8, max_size=8), p=st.lists(POL, min_size=4, max_size=4), xo=st.sampled_from(["east", "north"]),
                                            bad=st.one_of(st.none(), st.sampled_from([5, 6, 20, -9, -12, -20])))), law_codes, quick=1500, weight=3),
    Law("set_stats", st.fixed_dictionaries(dict(sp=uvps.spec(), i=st.integers(0, 11), m=st.sampled_from([0, 10.0, 33.3]), b=st.sampled_from([0, 500.0, 1500.0]), above=st.booleans())), law_set_stats, quick=400, shards=2),
]
