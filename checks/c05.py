"""C05: average_spectra."""
import copy

import numpy as np
from hypothesis import strategies as st

from hera_pspec import grouping, utils
from pv import uvps
from pv.core import Law, Skip
from pv.uvps import assert_close, blpair_int, build, raises, same, snap, tup

RULE = ("Cases are generated UVPSpecs (uneven integrations, nsamples, flags, several windows and polarizations) with a generated grouping and options; "
        "non-trivial when at least two different rows are averaged into one.")
ASSUMPTIONS = [
    "when not averaging over time, the baseline-pairs of a group have the same times in the same order (documented requirement)",
    "groups are disjoint except in the law about repeated members",
    "an object with exact window functions drops baseline-pairs that are in no group (deliberate in the code)",
    "with error_weights, weights of the frequency-based arrays and integrations are those of the first stored delay (documented in the code)"]


@st.composite
def groups_of(draw, blps, weights=True):
    """disjoint groups of indices into blps"""
    n = len(blps)
    lab = draw(st.lists(st.sampled_from([0, 0, 1, -1]), min_size=n, max_size=n))
    order = draw(st.permutations(range(n)))
    g = {}
    for i in order:
        if lab[i] >= 0:
            g.setdefault(lab[i], []).append(i)
    return list(g.values())


@st.composite
def case(draw, **kw):
    time_avg = draw(st.booleans())
    sp = draw(uvps.spec(stats=draw(st.sampled_from([[], ["P_N"], ["P_N", "P_SN"], ["P_SN", "P_N"]])), max_blp=4,
                        orders=None if time_avg else ["bl", "t"], ragged=time_avg, **kw))
    sp["zns"] = draw(st.sampled_from([False, False, True])) and sp["flags"] > 0
    sp["rstats"] = draw(st.sampled_from([0, 1, 2, 3]))
    sp["sscale"] = draw(st.sampled_from([1, 1, 1e-6, 1e8]))
    groups = draw(groups_of(sp["blps"]))
    w = None
    if groups and draw(st.integers(0, 2)) == 0:
        w = [[draw(st.sampled_from([1, 2, 0.5, 3, 1.25, 0])) for _ in g] for g in groups]
        w = [[x or (1 if not any(g) else 0) for x in g] for g in w]
    if not draw(st.integers(0, 4)):
        groups, w = None, None
    return dict(sp=sp, groups=groups or None, w=w, time_avg=time_avg,
                ew=draw(st.sampled_from([None, None, "P_N"])) if sp["stats"] else None,
                ef=draw(st.sampled_from([None, "first", "all"])) if sp["stats"] else None,
                norm=draw(st.booleans()), form=draw(st.sampled_from(["int", "tuple"])), inplace=draw(st.booleans()),
                via=draw(st.sampled_from(["method", "function"])), uniform=draw(st.integers(0, 5)) == 0)


def call(u, c, **over):
    kw = dict(time_avg=c["time_avg"], error_field=error_field(c), error_weights=c["ew"])
    blps = c["sp"]["blps"]
    if c["groups"] is not None:
        kw["blpair_groups"] = [[blpair_int(blps[i]) if c["form"] == "int" else tup(blps[i]) for i in g] for g in c["groups"]]
        if c["w"] is not None:
            kw["blpair_weights"] = copy.deepcopy(c["w"])
            kw["normalize_weights"] = c["norm"]
    kw.update(over)
    args = copy.deepcopy(kw)
    v = copy.deepcopy(u) if c.get("inplace") else u
    if c.get("via", "method") == "method" and "normalize_weights" not in kw:
        out = v.average_spectra(inplace=bool(c.get("inplace")), **kw)
    else:
        out = grouping.average_spectra(v, inplace=bool(c.get("inplace")), **kw)
    assert kw == args, "arguments modified"
    if c.get("inplace"):
        assert out is None
        return v
    return out


def error_field(c):
    return {None: None, "first": c["sp"]["stats"][0] if c["sp"]["stats"] else None, "all": list(c["sp"]["stats"])}[c["ef"]]


def stat_list(c):
    ef = error_field(c)
    out = [] if ef is None else ([ef] if isinstance(ef, str) else list(ef))
    if c["ew"] and c["ew"] not in out:
        out.append(c["ew"])
    return out


def reference(s, c, members, mult):
    """Average of the rows of one group. members: list of row-index lists (one per baseline-pair), mult: their weights.

    Returns a list of output rows: dict name -> [spw][pol] -> array."""
    if c["time_avg"]:
        outs = [[(r, m) for rows, m in zip(members, mult) for r in rows]]
    else:
        outs = [[(rows[t], m) for rows, m in zip(members, mult)] for t in range(len(members[0]))]
    res = []
    for rm in outs:
        rows = [r for r, m in rm if m != 0]
        m = np.array([m for r, m in rm if m != 0], float)
        row = {}
        for spw in range(s["Nspws"]):
            for p in range(s["Npols"]):
                integ, ns = s["integration_array"][spw][rows, p], s["nsample_array"][spw][rows, p]
                if c["ew"]:
                    e = np.asarray(s["stats_array"][c["ew"]][spw])[rows, :, p].real
                    with np.errstate(divide="ignore"):
                        w = np.where(np.isfinite(e), 1.0 / e**2, 0.0)
                else:
                    w = np.repeat((integ**2 * ns)[:, None], s["data_array"][spw].shape[1], axis=1)
                mw = m[:, None] * w
                W = mw.sum(axis=0)
                with np.errstate(divide="ignore", invalid="ignore"):
                    def div(x, y):
                        return np.where(y > 0, x / np.where(y > 0, y, 1), 0.0)
                    e = dict(data=div((s["data_array"][spw][rows, :, p] * mw).sum(axis=0), W),
                             wgts=div((s["wgt_array"][spw][rows, :, :, p] * mw[:, :1, None]).sum(axis=0), W[0]),
                             integ=div((integ * mw[:, 0]).sum(), W[0]), nsmp=(ns * m).sum(), W=W)
                    WW = W[:, None] * W[None, :]
                    for k in ("cov_array_real", "cov_array_imag"):
                        if k in s:
                            e[k] = div((s[k][spw][rows][..., p] * m[:, None, None] * w[:, :, None] * w[:, None, :]).sum(axis=0), WW)
                    if "window_function_array" in s:
                        wf = s["window_function_array"][spw][rows][..., p]
                        ex = (slice(None), slice(None)) + (None,) * (wf.ndim - 2)
                        e["wf"] = div((wf * mw[ex]).sum(axis=0), W[ex[1:]])
                    for n in stat_list(c):
                        for part in ("real", "imag"):  # the errors of the real and imaginary parts
                            er = getattr(np.asarray(s["stats_array"][n][spw])[rows, :, p], part)
                            sq = np.where(np.isfinite(er), er**2, 0.0)
                            x = np.sqrt(div((sq * m[:, None] * w**2).sum(axis=0), W**2))
                            bad = (~np.isfinite(er) & (mw > 0)).any(axis=0)
                            e["stat %s %s" % (part, n)] = np.where(W > 0, np.where(bad, np.nan, x), np.inf if part == "real" else 0)
                row[spw, p] = e
        res.append((rm[0][0], rows, row))
    return res


def law_reference(c, note):
    """every output cell is the weighted mean, and the propagated errors, of exactly the rows of its group"""
    sp = c["sp"]
    u = build(sp)
    if c["uniform"]:
        for i in u.integration_array:
            u.integration_array[i][:] = 3.0
    s = snap(u)
    have = {}
    for r, b in enumerate(s["blpair_array"].tolist()):
        have.setdefault(b, []).append(r)
    # ragged objects may have lost some baseline-pairs altogether
    c = copy.deepcopy(c)
    if c["groups"] is not None:
        gw = []
        for gi, g in enumerate(c["groups"]):
            keep = [k for k, i in enumerate(g) if blpair_int(sp["blps"][i]) in have]
            if keep:
                gw.append(([g[k] for k in keep], [c["w"][gi][k] for k in keep] if c["w"] else None))
        if c["w"] and any(not sum(w) for _, w in gw):
            raise Skip()
        c["groups"] = [g for g, _ in gw] or None
        c["w"] = [w for _, w in gw] if c["w"] and gw else None
    out = call(u, c)
    same(u, s)
    out.check()
    o = snap(out)
    groups = c["groups"] if c["groups"] is not None else []
    full = [([blpair_int(sp["blps"][i]) for i in g], [1.0] * len(g) if not c["w"] else c["w"][k]) for k, g in enumerate(groups)]
    if c["w"] is not None and c["norm"]:
        full = [(g, [x * len(w) / sum(w) for x in w]) for g, w in full]
    used = {b for g, _ in full for b in g}
    if not (s["exact_windows"] and c["groups"] is not None):
        full += [([b], [1.0]) for b in have if b not in used]
    nrows = 0
    stats = stat_list(c)
    assert sorted(o.get("stats_array", {})) == sorted(set(stats)), "statistics kept: %s" % sorted(o.get("stats_array", {}))
    multi = False
    for g, mult in full:
        ref = reference(s, c, [have[b] for b in g], mult)
        rows = [r for r, b in enumerate(o["blpair_array"].tolist()) if b == g[0]]
        assert len(rows) == len(ref), "group of %s has %d rows, expected %d" % (g[0], len(rows), len(ref))
        nrows += len(rows)
        for r, (r0, members, row) in zip(rows, ref):
            multi |= len(members) > 1
            for (spw, p), e in row.items():
                w = "spw %d pol %d" % (spw, p)
                assert_close(o["data_array"][spw][r, :, p], e["data"], "data " + w)
                assert_close(o["wgt_array"][spw][r, :, :, p], e["wgts"], "weights " + w)
                assert_close(o["integration_array"][spw][r, p], e["integ"], "integration " + w)
                assert_close(o["nsample_array"][spw][r, p], e["nsmp"], "nsample " + w)
                for k in ("cov_array_real", "cov_array_imag"):
                    if k in e:
                        assert_close(o[k][spw][r, ..., p], e[k], k + " " + w)
                if "wf" in e:
                    assert_close(o["window_function_array"][spw][r, ..., p], e["wf"], "window function " + w)
                for n in stats:
                    x, y = np.asarray(o["stats_array"][n][spw])[r, :, p], e["stat real " + n]
                    if sp["rstats"] != 0:
                        assert np.all(np.nan_to_num(np.asarray(x).imag) == 0), "imaginary error of a real error"
                    else:
                        assert_close(np.asarray(x).imag, e["stat imag " + n], "imaginary statistic %s %s" % (n, w))
                    big = np.isnan(y)  # an infinite error entered with non-zero weight
                    xr = np.asarray(x).real
                    assert np.all((xr[big] > 1e8) | ~np.isfinite(xr[big])), "infinite error became %s" % xr[big]
                    assert_close(xr[~big], y[~big], "statistic %s %s" % (n, w))
                assert o["label_1_array"][spw, r, p] == s["label_1_array"][spw, have[g[0]][0] if c["time_avg"] else r0, p]
                assert o["label_2_array"][spw, r, p] == s["label_2_array"][spw, have[g[0]][0] if c["time_avg"] else r0, p]
            # times and lsts
            for k in ("time_1_array", "time_2_array", "time_avg_array", "lst_1_array", "lst_2_array", "lst_avg_array"):
                if c["time_avg"]:
                    x = s[k][have[g[0]]]
                    if k.startswith("time"):
                        assert abs(o[k][r] - x.mean()) < 1e-8, "%s of a time average" % k
                    else:
                        z = np.exp(1j * x).mean()
                        assert abs(np.exp(1j * o[k][r]) - z / abs(z)) < 1e-9, "%s of a time average" % k
                        assert 0 <= o[k][r] < 2 * np.pi
                else:
                    assert o[k][r] == s[k][r0], k
    assert nrows == o["Nbltpairs"], "%d rows instead of %d" % (o["Nbltpairs"], nrows)
    assert o["Nblpairs"] == len(full)
    bls = {b for g, _ in full for b in (int(str(g[0]).zfill(12)[:6]), int(str(g[0]).zfill(12)[6:]))}
    assert set(o["bl_array"].tolist()) == bls and o["Nbls"] == len(bls)
    vec = {int(b): v for b, v in zip(s["bl_array"], s["bl_vecs"])}
    for b, v in zip(o["bl_array"], o["bl_vecs"]):
        assert np.array_equal(v, vec[int(b)]), "baseline vector"
    if not c["time_avg"]:
        assert o["Ntimes"] == o["Ntpairs"] == len(set(zip(o["time_1_array"].tolist(), o["time_2_array"].tolist())))
    for k in ("freq_array", "dly_array", "scalar_array", "polpair_array", "spw_freq_array", "spw_dly_array", "folded", "cosmo", "OmegaP", "OmegaPP", "window_function_kperp",
              "window_function_kpara", "r_params", "norm", "vis_units", "norm_units", "Nspws", "Npols", "Ndlys", "Nfreqs", "exact_windows", "cov_model"):
        if k in s:
            same({k: s[k]}, {k: o[k]})
    # getters of the result return these rows (positive delays only when folded)
    for g, _ in full:
        k = (0, g[0], int(s["polpair_array"][0]))
        rows = [r for r, b in enumerate(o["blpair_array"].tolist()) if b == g[0]]
        nd = s["data_array"][0].shape[1]
        sl = slice(-(nd - nd // 2 - 1), None) if s["folded"] else slice(None)
        assert np.array_equal(out.get_data(k), o["data_array"][0][rows][:, sl, 0]), "getter of the average"
        assert out.get_data(k).shape[1] == len(out.get_dlys(0))
    note.nt(multi)
    note.label("time" if c["time_avg"] else "no-time", *(["groups"] if c["groups"] else []), *(["weights"] if c["w"] else []), *(["errw"] if c["ew"] else []),
               *(["folded"] if s["folded"] else []))


def content(s):
    from checks.c04 import cells
    return cells(s)


def law_spelling(c, note):
    """the order and spelling of groups, and the order of the members after the first, do not matter"""
    sp = c["sp"]
    if not c["groups"]:
        raise Skip()
    u = build(sp)
    have = set(u.blpair_array.tolist())
    if any(blpair_int(sp["blps"][i]) not in have for g in c["groups"] for i in g):
        raise Skip()
    a = call(u, c)
    r = np.random.default_rng(sp["seed"] + 5)
    o = r.permutation(len(c["groups"]))
    d = copy.deepcopy(c)
    d["groups"], d["w"] = [], [] if c["w"] else None
    for k in o:
        g = c["groups"][k]
        q = [0] + [1 + int(x) for x in r.permutation(len(g) - 1)]
        d["groups"].append([g[i] for i in q])
        if c["w"]:
            d["w"].append([c["w"][k][i] for i in q])
    d["form"] = "tuple" if c["form"] == "int" else "int"
    d["via"] = "function" if c["via"] == "method" else "method"
    b = call(u, d)
    ca, cb = content(snap(a)), content(snap(b))
    assert set(ca) == set(cb), "different output rows"
    for k in ca:
        for n in ca[k]:
            if n.startswith("lab"):
                assert ca[k][n] == cb[k][n]
            else:
                assert_close(ca[k][n], cb[k][n], n)
    # relative weights are relative
    if c["w"] and c["norm"]:
        e = copy.deepcopy(c)
        e["w"] = [[x * 8 for x in g] for g in c["w"]]
        cc = content(snap(call(u, e)))
        for k in ca:
            for n in ca[k]:
                if not n.startswith("lab"):
                    assert_close(ca[k][n], cc[k][n], n)
        note.label("scaled weights")
    note.nt(len(c["groups"]) > 1 or max(map(len, c["groups"])) > 2)


def law_copies(c, note):
    """a repeated member counts as often as it is given, i.e. as an integer weight"""
    sp = dict(c["sp"], wf="none" if c["sp"]["wf"] == "exact" else c["sp"]["wf"])
    u = build(sp)
    b = u.get_blpairs()
    if len(b) < 2:
        raise Skip()
    n = [c["n"][i] for i in range(len(b))]
    if not n[0]:
        n[0] = 1
    g = [x for x, k in zip(b, n) for _ in range(k)]
    kw = dict(time_avg=c["time_avg"], error_field=sp["stats"] or None, inplace=False)
    x = u.average_spectra(blpair_groups=[g], **kw)
    y = grouping.average_spectra(u, blpair_groups=[b], blpair_weights=[n], normalize_weights=False, **kw)
    bi = blpair_int(b[0])
    cx, cy = content(snap(x)), content(snap(y))
    for k in cy:
        if k[2][0] == bi:
            for m in cy[k]:
                if not m.startswith("lab"):
                    assert_close(cx[k][m], cy[k][m], m)
    note.nt(max(n) > 1)


def law_flagged(c, note):
    """data of rows with zero integration does not enter"""
    sp = c["sp"]
    u = build(sp)
    have = set(u.blpair_array.tolist())
    if c["groups"] and any(blpair_int(sp["blps"][i]) not in have for g in c["groups"] for i in g):
        raise Skip()
    c = dict(c, ew=None)
    a = call(u, c)
    n = 0
    for i in u.data_array:
        z = u.integration_array[i] == 0
        n += int(z.sum())
        u.data_array[i][np.broadcast_to(z[:, None, :], u.data_array[i].shape)] = 1e9 - 3e8j
        for k in ("cov_array_real", "cov_array_imag"):
            if hasattr(u, k):
                x = getattr(u, k)[i]
                x[np.broadcast_to(z[:, None, None, :], x.shape)] = 7e7
    b = call(u, c)
    same(a, b)
    note.nt(n > 0)


def law_const(c, note):
    """averaging equal spectra returns that spectrum, with n equal errors reduced by sqrt(n) under equal weights"""
    sp = dict(c["sp"], flags=0)
    u = build(sp)
    have = set(u.blpair_array.tolist())
    if c["groups"] and any(blpair_int(sp["blps"][i]) not in have for g in c["groups"] for i in g):
        raise Skip()
    for i in u.data_array:
        u.data_array[i][:] = u.data_array[i][:1]
    c = dict(c, ew=None)
    out = call(u, c)
    for i in u.data_array:
        e = np.repeat(u.data_array[i][:1], out.Nbltpairs, axis=0)
        # (a group in which nothing has samples has no average)
        e = np.where((out.integration_array[i] * out.nsample_array[i] > 0)[:, None, :] | (not sp.get("zns")), e, out.data_array[i])
        assert_close(out.data_array[i], e, "average of equal spectra")
    note.nt(out.Nbltpairs < u.Nbltpairs)


def law_refuse(c, note):
    """malformed groups and weights, unknown statistics, are refused and leave the object alone"""
    sp = dict(c["sp"], drop=0)
    u = build(sp)
    s = snap(u)
    b = u.get_blpairs()
    kw = {"empty": dict(blpair_groups=[[]]), "flat": dict(blpair_groups=b), "w_shape": dict(blpair_groups=[b], blpair_weights=[[1.0] * (len(b) + 1)]),
          "w_nogroups": dict(blpair_weights=[[1.0]]), "w_zero": dict(blpair_groups=[b], blpair_weights=[[0.0] * len(b)]),
          "absent": dict(blpair_groups=[[((850, 851), (850, 851))]]), "stat": dict(error_field="nonsense"), "ew": dict(error_weights="nonsense"),
          "absent2": dict(blpair_groups=[[b[0], ((850, 851), (850, 851))]])}[c["k"]]
    if c["k"] == "flat" and c["inplace"]:
        kw = dict(blpair_groups=[blpair_int(x) for x in b])
    assert raises(u.average_spectra, inplace=c["inplace"], time_avg=c["ta"], **kw), "accepted %s" % c["k"]
    same(u, s)
    note.nt()
    note.label(c["k"])


LAWS = [
    Law("reference", case(), law_reference, quick=3000, shards=7, weight=6),
    Law("spelling", case(), law_spelling, quick=800, shards=2, weight=2),
    Law("copies", st.fixed_dictionaries(dict(sp=uvps.spec(stats=["P_N"], orders=["bl", "t"], ragged=False, folded=False).map(lambda s: dict(s, rstats=1)),
                                             n=st.lists(st.integers(0, 3), min_size=4, max_size=4), time_avg=st.booleans())), law_copies, quick=400),
    Law("flagged", case(), law_flagged, quick=600, shards=2),
    Law("const", case(), law_const, quick=400),
    Law("refuse", st.fixed_dictionaries(dict(sp=uvps.spec(stats=["P_N"]), k=st.sampled_from(["empty", "flat", "w_shape", "w_nogroups", "w_zero", "absent", "absent2", "stat", "ew"]),
                                             inplace=st.booleans(), ta=st.booleans())), law_refuse, quick=150),
]
