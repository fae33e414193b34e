"""C07: spherical_average and spherical_wf_from_uvp."""
import copy

import numpy as np
from hypothesis import strategies as st

from hera_pspec import conversions, grouping
from pv import uvps
from pv.core import Law, Skip
from pv.uvps import assert_close, blpair_int, build, raises, same, snap, tup
from checks.c05 import groups_of

RULE = ("Cases are generated cylindrical UVPSpecs and generated k bins (contiguous or with gaps, covering all or part of the modes); "
        "non-trivial when some bin holds at least two modes of positive weight from different baseline-pairs or delays.")
ASSUMPTIONS = [
    "unfolded spectra; every baseline-pair has the same times in the same order (documented for averages)",
    "window functions of averaged spectra are checked when the object stores one k_parallel column per delay",
    "exact window functions: contiguous bins (the code takes bin edges from the bin centres and widths), no mode within 1e-6 of a bin edge"]


def kgrid(u, spw):
    """|k| of every (baseline-pair in storage order, delay), computed from baseline vectors, delays and the cosmology."""
    f = u.freq_array[u.spw_freq_array == spw]
    z = conversions.Cosmo_Conversions.f2z(np.mean(f)) if False else u.cosmo.f2z(np.mean(f))
    d = u.dly_array[u.spw_dly_array == spw]
    vec = {int(b): v for b, v in zip(u.bl_array, u.bl_vecs)}
    kperp = []
    for b in order_of(u):
        s = str(int(b)).zfill(12)
        v = [vec[int(s[:6])], vec[int(s[6:])]]
        kperp.append(np.mean([np.linalg.norm(x) for x in v]) * u.cosmo.bl_to_kperp(z, little_h=True))
    kpara = d * u.cosmo.tau_to_kpara(z, little_h=True)
    return np.sqrt(np.array(kperp)[:, None] ** 2 + kpara[None] ** 2)


def order_of(u):
    """the baseline-pairs in the order of UVPSpec.get_blpairs (first appearance)"""
    out = []
    for b in u.blpair_array.tolist():
        if b not in out:
            out.append(b)
    return out


@st.composite
def case(draw, wf=None, **kw):
    wf = draw(st.sampled_from(["none", "approx", "approx"])) if wf is None else wf
    stats = draw(st.sampled_from([[], ["P_N"], ["P_N", "P_SN"]]))
    sp = draw(uvps.spec(folded=False, cosmo=draw(st.sampled_from([0, 1, 2])), wf=wf, orders=["bl", "t"], ragged=False, stats=stats, eqnd=draw(st.booleans()) or wf == "exact", **kw))
    sp["zns"] = draw(st.sampled_from([False, False, True])) and sp["flags"] > 0
    sp["rstats"] = draw(st.sampled_from([0, 1, 2, 3]))
    sp["sscale"] = draw(st.sampled_from([1, 1, 1e-9, 1e8]))
    edges = draw(st.lists(st.integers(0, 60), min_size=2, max_size=7, unique=True))
    mode = ["none"] + (["err"] if stats else []) + (["cov"] if sp["cov"] else [])
    return dict(sp=sp, edges=sorted(edges), gap=draw(st.sampled_from([0, 0, 0.2])) if wf != "exact" else 0, weight=draw(st.sampled_from(mode)),
                theory=draw(st.sampled_from([0, 0, 3, 5])) if wf != "none" else 0, hi=draw(st.sampled_from([1.05, 1.05, 0.6, 3])))


def bins(c, u):
    """bin edges in h/Mpc away from every mode"""
    ks = np.concatenate([kgrid(u, i).ravel() for i in range(u.Nspws)])
    e = (np.array(c["edges"], float) + 0.137 / np.pi) / 60 * c["hi"] * ks.max()
    for i in range(len(e)):
        while np.min(np.abs(ks - e[i])) < 1e-6 * ks.max():
            e[i] += 3e-6 * ks.max()
    left, right = e[:-1].copy(), e[1:].copy()
    if c["gap"]:
        right -= c["gap"] * (right - left)
        if any(np.min(np.abs(ks - x)) < 1e-6 * ks.max() for x in right):
            raise Skip()
    return left, right


def theory(c, left, right):
    if not c["theory"]:
        return left, right, None
    n = c["theory"]
    t = np.linspace(min(0.5 * left[0] + 0.01, 0.6 * right[-1]), right[-1], n)
    w = np.diff(t).mean()
    return t - w / 2, t + w / 2, t


def kwargs(c, left, right):
    kw = dict(kbins=(left + right) / 2, bin_widths=right - left)
    tl, tr, t = theory(c, left, right)
    if t is not None:
        kw["kbins_theory"] = t
    if c["weight"] == "err":
        kw["error_weights"] = c["sp"]["stats"][0]
    if c["weight"] == "cov":
        kw["weight_by_cov"] = True
    return kw


def member(k, left, right):
    """index of the bin of each mode, -1 if in none"""
    m = (k[:, None] > left) & (k[:, None] <= right)
    return np.where(m.any(axis=1), m.argmax(axis=1), -1)


def sq(e):
    """square of an error bar, real and imaginary errors apart, clipped like the code's stand-in for infinity"""
    e = np.asarray(e)
    with np.errstate(invalid="ignore"):
        return np.clip(np.nan_to_num(e.real, nan=np.inf, posinf=np.inf) ** 2, 0, 1e40) + 1j * np.clip(np.nan_to_num(e.imag, nan=np.inf, posinf=np.inf) ** 2, 0, 1e40)


def law_reference(c, note):
    """every bin holds the weighted combination of exactly its modes; covariance, statistics and window functions follow the same map"""
    sp = c["sp"]
    u = build(sp)
    s = snap(u)
    left, right = bins(c, u)
    kw = kwargs(c, left, right)
    args = copy.deepcopy(kw)
    A = {}
    out = grouping.spherical_average(u, A=A, **kw)
    same(u, s)
    same(kw, args)
    check(c, u, s, out, left, right, note, A)


def check(c, u, s, out, left, right, note, A=None):
    out.check()
    o = snap(out)
    blps = order_of(u)
    rows = [np.where(s["blpair_array"] == b)[0] for b in blps]
    nt, npol, nk, nb = len(rows[0]), s["Npols"], len(left), len(blps)
    tl, tr, _ = theory(c, left, right)
    assert o["Nblpairs"] == 1 and o["Nbltpairs"] == nt == o["Ntpairs"] and set(o["blpair_array"].tolist()) == {int(s["blpair_array"][0])}
    nontrivial = False
    for spw in range(s["Nspws"]):
        K = kgrid(u, spw)
        nd = K.shape[1]
        km = K.ravel()
        ib = member(km, left, right)
        A0 = np.zeros((nb * nd, nk))
        A0[np.where(ib >= 0)[0], ib[ib >= 0]] = 1
        if A is not None:
            assert np.array_equal(A[spw], np.broadcast_to(A0[None, :, :, None], (nt, nb * nd, nk, npol))), "design matrix"
        for t in range(nt):
            for p in range(npol):
                r = [x[t] for x in rows]
                integ, ns = s["integration_array"][spw][r, p], s["nsample_array"][spw][r, p]
                d = s["data_array"][spw][r][:, :, p].ravel()
                E = np.zeros((nb * nd, nb * nd))
                for b in range(nb):
                    sl = slice(b * nd, (b + 1) * nd)
                    if c["weight"] == "cov":
                        E[sl, sl] = np.linalg.inv(s["cov_array_real"][spw][r[b], :, :, p])
                    elif c["weight"] == "err":
                        e = np.asarray(s["stats_array"][c["sp"]["stats"][0]][spw])[r[b], :, p].real
                        E[sl, sl] = np.diag(np.where(np.isfinite(e), 1 / np.where(np.isfinite(e), e, 1) ** 2, 0))
                    else:
                        E[sl, sl] = np.eye(nd) * (integ[b] * ns[b] > 0)
                N = A0.T @ E @ A0
                H = E @ A0 @ np.linalg.pinv(N, rcond=1e-12)
                H[:, np.diag(N) == 0] = 0  # empty bins stay empty
                w = "spw %d time %d pol %d" % (spw, t, p)
                assert_close(o["data_array"][spw][t, :, p], H.T @ d, "data " + w, 1e-8)
                nontrivial |= bool(np.any(np.sum(A0 * (np.abs(np.diag(E)) > 0)[:, None], axis=0) > 1))
                tr_ = np.array([np.trace(E[b * nd:(b + 1) * nd, b * nd:(b + 1) * nd]) for b in range(nb)])
                assert_close(o["nsample_array"][spw][t, p], ns.sum(), "nsample " + w)
                assert_close(o["integration_array"][spw][t, p], (integ * tr_).sum() / tr_.sum() if tr_.sum() > 0 else 0.0, "integration " + w)
                if "cov_array_real" in s:
                    C = np.zeros((nb * nd, nb * nd))
                    for b in range(nb):
                        sl = slice(b * nd, (b + 1) * nd)
                        C[sl, sl] = s["cov_array_real"][spw][r[b], :, :, p]
                    assert_close(o["cov_array_real"][spw][t, :, :, p], H.T @ C @ H, "covariance " + w, 1e-8)
                    assert not np.any(o["cov_array_imag"][spw]), "imaginary covariance is documented to be zero"
                for n in s.get("stats_array", {}):
                    e2 = sq(np.asarray(s["stats_array"][n][spw])[r][:, :, p].ravel())
                    v = np.einsum("ik,i,ik->k", H, e2, H)
                    x = np.asarray(o["stats_array"][n][spw])[t, :, p]
                    none = np.abs(H).sum(axis=0) == 0
                    assert np.all(np.abs(x[none]) >= 1e30), "statistic of an empty bin is %s" % x[none]
                    big = (np.abs(v) > 1e30) & ~none
                    assert np.all(np.abs(x[big]) > 1e15), "infinite error became finite"
                    ok = ~none & ~big
                    assert_close(np.asarray(x[ok]).real, np.sqrt(v.real[ok]), "statistic %s %s" % (n, w), 1e-8)
                    assert_close(np.asarray(x[ok]).imag, np.sqrt(v.imag[ok]), "statistic %s (imaginary) %s" % (n, w), 1e-8)
                if "window_function_array" in s and not s["exact_windows"]:
                    W = np.zeros((nk, len(tl)))
                    for b in range(nb):
                        Aw = np.zeros((nd, len(tl)))
                        j = member(K[b], tl, tr)
                        Aw[np.where(j >= 0)[0], j[j >= 0]] = 1
                        W += H[b * nd:(b + 1) * nd].T @ s["window_function_array"][spw][r[b], :, :, p] @ Aw
                    assert_close(o["window_function_array"][spw][t, :, :, p], W, "window function " + w, 1e-8)
        # weights: weighted sum normalised per channel
        x = o["wgt_array"][spw]
        assert x.shape == (nt,) + s["wgt_array"][spw].shape[1:] and np.all(np.isfinite(x)) and np.all(x >= 0) and np.all(x <= 1 + 1e-9)
        f = s["freq_array"][s["spw_freq_array"] == spw]
        z = u.cosmo.f2z(np.mean(f))
        assert_close(o["dly_array"][o["spw_dly_array"] == spw] * u.cosmo.tau_to_kpara(z, little_h=True), (left + right) / 2, "k bins as delays")
        assert_close(out.get_kparas(spw), (left + right) / 2, "k bins")
        assert np.max(np.abs(out.get_kperps(spw))) < 1e-9, "k_perp of a spherical average"
        for p in range(npol):
            k = (spw, int(s["blpair_array"][0]), int(s["polpair_array"][p]))
            assert np.array_equal(out.get_data(k), o["data_array"][spw][:, :, p]), "getter"
    r0 = rows[blps.index(int(s["blpair_array"][0]))]
    for k in ("time_1_array", "time_2_array", "time_avg_array", "lst_1_array", "lst_2_array", "lst_avg_array"):
        assert np.array_equal(o[k], s[k][r0]), "%s: %s instead of %s" % (k, o[k], s[k][r0])
    for k in ("label_1_array", "label_2_array"):
        assert np.array_equal(o[k], s[k][:, r0]), k
    for k in ("freq_array", "scalar_array", "polpair_array", "spw_freq_array", "spw_array", "cosmo", "OmegaP", "OmegaPP", "beam_freqs", "r_params", "norm", "vis_units", "norm_units",
              "Nspws", "Npols", "Nfreqs", "exact_windows", "cov_model", "folded", "labels", "taper", "weighting"):
        if k in s:
            same({k: s[k]}, {k: o[k]})
    assert o["Nspwdlys"] == nk * s["Nspws"] and sorted(set(o["bl_array"].tolist())) == sorted({int(str(int(s["blpair_array"][0])).zfill(12)[:6]), int(str(int(s["blpair_array"][0])).zfill(12)[6:])})
    note.nt(nontrivial)
    note.label(c["weight"], *(["wf"] if "window_function_array" in s else []), *(["gap"] if c["gap"] else []), "nb%d" % nb)


@st.composite
def case_upfront(draw):
    c = draw(case(wf=draw(st.sampled_from(["none", "approx", "exact"]))))
    if c["sp"]["wf"] == "exact":
        c["sp"]["blps"] = [[list(b), list(b)] for b in sorted({tuple(bp[0]) for bp in c["sp"]["blps"]})]
    c["groups"] = draw(groups_of(c["sp"]["blps"])) or None
    c["time_avg"] = draw(st.booleans())
    c["w"] = [[draw(st.sampled_from([1, 2, 0.5])) for _ in g] for g in c["groups"]] if c["groups"] and draw(st.booleans()) else None
    return c


def law_upfront(c, note):
    """averaging groups and times in the call equals averaging them first"""
    u = build(c["sp"])
    s = snap(u)
    left, right = bins(c, u)
    kw = kwargs(c, left, right)
    g = [[blpair_int(c["sp"]["blps"][i]) for i in x] for x in c["groups"]] if c["groups"] else None
    if g is None and not c["time_avg"]:
        raise Skip()
    ew = kw.get("error_weights")
    a = grouping.spherical_average(u, blpair_groups=copy.deepcopy(g), time_avg=c["time_avg"], blpair_weights=copy.deepcopy(c["w"]), **kw)
    same(u, s)
    v = copy.deepcopy(u)
    b = v.average_spectra(blpair_groups=copy.deepcopy(g), time_avg=c["time_avg"], blpair_weights=copy.deepcopy(c["w"]), error_weights=ew, inplace=False)
    if len(set(np.bincount(np.unique(b.blpair_array, return_inverse=True)[1]).tolist())) > 1:
        raise Skip()
    ref = grouping.spherical_average(b, **kw)
    same(a, ref, tol=1e-9, ignore=("history", "window_function_array") if s["exact_windows"] else ("history",))
    if s["exact_windows"]:
        for i in a.window_function_array:
            w = a.window_function_array[i]
            assert w.shape[0] == a.Nbltpairs and np.all(w >= 0), "exact windows of %d rows for %d rows of data" % (w.shape[0], a.Nbltpairs)
    note.nt(c["groups"] is not None or c["sp"]["nt"] > 1)
    note.label(*(["groups"] if g else []), *(["time"] if c["time_avg"] else []), *(["w"] if c["w"] else []))


def law_recover(c, note):
    """a field that depends on |k| only through its bin is recovered exactly whatever the weights; so is a constant"""
    u = build(c["sp"])
    left, right = bins(c, u)
    kw = kwargs(c, left, right)
    r = uvps.rng_of(c["sp"]["seed"], 3)
    truth = r.normal(size=len(left)) + 1j * r.normal(size=len(left))
    nb = len(order_of(u))
    full = {}
    for spw in range(u.Nspws):
        K = kgrid(u, spw)
        ib = member(K.ravel(), left, right).reshape(K.shape)
        for b, blp in enumerate(order_of(u)):
            for row in np.where(u.blpair_array == blp)[0]:
                junk = r.normal(size=(K.shape[1], u.Npols)) * 1e3
                u.data_array[spw][row] = np.where((ib[b] >= 0)[:, None], truth[ib[b]][:, None], 0 if c["weight"] == "cov" else junk)
        full[spw] = ib
    if c["weight"] == "cov" and any((x < 0).any() for x in full.values()):
        raise Skip()  # a mode outside the bins that is correlated with one inside enters the optimal estimate
    out = grouping.spherical_average(u, **kw)
    for spw in range(u.Nspws):
        d = out.data_array[spw]
        has = np.array([(full[spw] == k).any() for k in range(len(left))])
        assert np.allclose(d[:, ~has], 0), "empty bin is not zero"
        ok = (np.abs(d - truth[None, :, None]) < 1e-6) | (np.abs(d) < 1e-12)
        assert ok.all(), "bin value %s instead of %s" % (d[~ok][:1], truth)
        fl = np.ones((d.shape[0], d.shape[2]), bool)
        if c["weight"] == "none" and not c["sp"]["flags"]:
            assert (np.abs(d[:, has] - truth[None, has, None]) < 1e-6).all(), "an occupied bin was left empty"
    note.nt(any((x >= 0).sum() > 1 for x in full.values()))


@st.composite
def case_meta(draw):
    c = draw(case())
    c["perm"] = draw(st.permutations(range(len(c["sp"]["blps"]))))
    c["spw"] = draw(st.integers(0, len(c["sp"]["spws"]) - 1))
    c["pol"] = draw(st.integers(0, len(c["sp"]["pps"]) - 1))
    return c


def reorder(u, o):
    for k in ("blpair_array", "time_1_array", "time_2_array", "time_avg_array", "lst_1_array", "lst_2_array", "lst_avg_array"):
        setattr(u, k, getattr(u, k)[o])
    for k in ("label_1_array", "label_2_array"):
        setattr(u, k, getattr(u, k)[:, o])
    for k in ("data_array", "wgt_array", "integration_array", "nsample_array", "cov_array_real", "cov_array_imag", "window_function_array"):
        for i in getattr(u, k, {}):
            getattr(u, k)[i] = getattr(u, k)[i][o]
    for n in getattr(u, "stats_array", {}):
        for i in u.stats_array[n]:
            u.stats_array[n][i] = u.stats_array[n][i][o]


def law_metamorphic(c, note):
    """baseline-pair order, little_h spelling, and what other windows or polarizations are present do not matter"""
    u = build(c["sp"])
    left, right = bins(c, u)
    kw = kwargs(c, left, right)
    out = grouping.spherical_average(u, **kw)
    # k bins without little h
    kw2 = {k: (v * u.cosmo.h if k in ("kbins", "bin_widths", "kbins_theory") else v) for k, v in kw.items()}
    args = copy.deepcopy(kw2)
    b = grouping.spherical_average(u, little_h=False, **kw2)
    same(kw2, args)
    same(out, b, tol=1e-8)
    # scalar width
    if len(left) == 1 and len(set(kw["bin_widths"])) == 1:
        same(grouping.spherical_average(u, **dict(kw, bin_widths=float(kw["bin_widths"][0]))), out, tol=1e-10)
    # one window
    a = grouping.spherical_average(u.select(spws=[c["spw"]], inplace=False), **kw)
    b = out.select(spws=[c["spw"]], inplace=False)
    same(a, b, tol=1e-10, ignore=("history", "r_params"))
    # one polarization (weights are normalised over polarizations)
    pp = tuple(c["sp"]["pps"][c["pol"]])
    a = grouping.spherical_average(u.select(polpairs=[pp], inplace=False), **kw)
    b = out.select(polpairs=[pp], inplace=False)
    same(a, b, tol=1e-10, ignore=("history", "wgt_array", "r_params"))
    # order of the baseline-pairs
    sp2 = copy.deepcopy(c["sp"])
    blps = order_of(u)
    idx = np.concatenate([np.where(u.blpair_array == blps[i])[0] for i in c["perm"]])
    v = copy.deepcopy(u)
    reorder(v, idx)
    a = grouping.spherical_average(v, **kw)
    same(snap(a), snap(out), tol=1e-8, ignore=("history", "blpair_array", "bl_array", "bl_vecs", "Nbls", "label_1_array", "label_2_array"))
    note.nt(len(blps) > 1 or u.Nspws > 1)


def law_exact(c, note):
    """exact windows: data as without them; windows are the mode-averaged, count-rebinned and normalised cylindrical windows"""
    sp = c["sp"]
    # exact windows belong to pairs of redundant baselines (documented): pair each baseline with itself
    sp["blps"] = [[list(b), list(b)] for b in sorted({tuple(bp[0]) for bp in sp["blps"]})]
    u = build(sp)
    s = snap(u)
    left, right = bins(c, u)
    kw = kwargs(c, left, right)
    g = [[blpair_int(b)] for b in sp["blps"]]
    args = copy.deepcopy((kw, g))
    out = grouping.spherical_average(u, blpair_groups=g, **kw)
    same(u, s)
    same(dict(a=kw, b=g), dict(a=args[0], b=args[1]))
    tl, tr, _ = theory(c, left, right)
    e, et = np.r_[left, right[-1]], np.r_[tl, tr[-1]]
    blps = [blpair_int(b) for b in sp["blps"]]
    for spw in range(s["Nspws"]):
        K = kgrid(u, spw)
        Ko = [K[order_of(u).index(b)] for b in blps]
        f = s["freq_array"][s["spw_freq_array"] == spw]
        edge = min(np.min(np.abs(K[..., None] - x)) for x in e)
        # the window code takes the redshift at the middle of the band
        z0, z1 = u.cosmo.f2z(np.mean(f)), u.cosmo.f2z(f[0] + len(f) * uvps.CHAN / 2)
        slack = 1.5 * K.max() * abs(z1 - z0) / (1 + z0)
        w = out.window_function_array[spw]
        rows = [np.where(s["blpair_array"] == b)[0] for b in blps]
        nt = len(rows[0])
        assert w.shape == (nt, len(left), len(et) - 1, s["Npols"]), "shape %s" % (w.shape,)
        assert np.all(np.isfinite(w)) and np.all(w >= 0)
        sums = w.sum(axis=2)
        assert np.all(np.isclose(sums, 1) | np.isclose(sums, 0)), "rows sum to %s" % sums
        if edge < slack:
            note.label("edge")
            continue
        for p in range(s["Npols"]):
            kp, kq = s["window_function_kperp"][spw][:, p], s["window_function_kpara"][spw][:, p]
            kt = np.sqrt(kp[:, None] ** 2 + kq[None] ** 2)
            for t in range(nt):
                for m in range(len(left)):
                    acc, n = 0, 0
                    for b in range(len(blps)):
                        for d in range(K.shape[1]):
                            if e[m] <= Ko[b][d] < e[m + 1]:
                                fl = s["integration_array"][spw][rows[b][t], p] * s["nsample_array"][spw][rows[b][t], p] == 0
                                if c["weight"] == "err":
                                    x = np.asarray(s["stats_array"][sp["stats"][0]][spw])[rows[b][t], d, p].real
                                    fl = not np.isfinite(x)
                                acc = acc + (0 if fl else s["window_function_array"][spw][rows[b][t], d, :, :, p])
                                n += 1
                    ref = np.zeros(len(et) - 1)
                    if n and np.sum(acc) > 0:
                        for q in range(len(ref)):
                            mk = (et[q] <= kt) & (kt < et[q + 1])
                            ref[q] = acc[mk].mean() / n if mk.any() else 0
                        if ref.sum() > 0:
                            ref = ref / ref.sum()
                            note.nt(n > 1)
                    assert_close(w[t, m, :, p], ref, "exact window spw %d time %d bin %d pol %d" % (spw, t, m, p), 1e-8)
        note.label("checked")


@st.composite
def direct_case(draw):
    c = draw(case(wf="exact"))
    c.update(cuts=[draw(st.booleans()) for _ in range(4)], lens=draw(st.booleans()), noh=draw(st.booleans()), tavg=draw(st.booleans()), spw=draw(st.sampled_from([None, "int", "list", "one"])),
             wts=draw(st.booleans()), hobj=draw(st.booleans()), dflt=draw(st.sampled_from([False, False, True])))
    return c


def direct(c, note):
    """spherical_wf_from_uvp: windows of the averaged groups, whatever the units of the bins; arguments are left alone"""
    sp = c["sp"]
    sp["blps"] = [[list(b), list(b)] for b in sorted({tuple(bp[0]) for bp in sp["blps"]})]
    u = build(sp)
    if not c["hobj"]:
        u.norm_units = "Mpc^3"
    h = u.cosmo.h
    left, right = bins(c, u)
    tl, tr, t = theory(c, left, right)
    unit = 1.0 if c["hobj"] else h  # the grids of the object are in its own units
    e, et = np.r_[left, right[-1]] * unit, np.r_[tl, tr[-1]] * unit
    blps = order_of(u)
    groups, cur = [], []
    for b, cut in zip(blps, c["cuts"] + [True] * 9):
        cur.append(b)
        if cut:
            groups.append(cur)
            cur = []
    if cur:
        groups.append(cur)
    norm = {int(b): float(np.linalg.norm(v)) for b, v in zip(u.bl_array, u.bl_vecs)}
    lens = [norm[b // 1000000] for g in groups for b in g[:1]]
    if max(lens) < 1:
        raise Skip("zero baselines only")
    W = [[1.0 + 0.5 * k for k in range(len(g))] for g in groups] if c["wts"] else None
    err = sp["stats"][0] if c["weight"] == "err" else None
    given_h = c["hobj"] != c["noh"]
    f = (1.0 if c["hobj"] else 1 / h) if given_h else (h if c["hobj"] else 1.0)  # from the object's units to the caller's
    ein, etin = e * f, et * f
    args = dict(kbin_edges=ein, kbin_edges_theory=etin if c["theory"] else None, little_h=given_h, time_avg=c["tavg"], error_weights=err)
    if c["dflt"]:
        groups = [[u.antnums_to_blpair(b) if isinstance(b, tuple) else b for b in g] for g in u.get_red_blpairs()[0]]
        lens = list(u.get_red_blpairs()[1])
        W = None
    else:
        args.update(blpair_groups=[list(g) for g in groups], blpair_weights=W)
        if c["lens"]:
            args["blpair_lens"] = list(lens)
    spws = list(range(u.Nspws)) if c["spw"] is None else [u.Nspws - 1] if c["spw"] == "one" else [0]
    if c["spw"] is not None:
        args["spw_array"] = 0 if c["spw"] == "int" else list(spws)
    if not c["lens"] and not c["dflt"]:
        lens = [np.around(x, 8) for x in lens]
    keep, ks = copy.deepcopy(args), snap(u)
    out = grouping.spherical_wf_from_uvp(u, **args)
    same(args, keep)
    same(u, ks)
    v = u.average_spectra(blpair_groups=[list(g) for g in groups], blpair_weights=W, error_weights=err, time_avg=c["tavg"], inplace=False)
    assert sorted(out) == spws, "windows of %s, asked for %s" % (sorted(out), spws)
    if not c["theory"]:
        et = e
    done = 0
    for s in spws:
        fr = v.freq_array[v.spw_freq_array == s]
        z0, z1 = v.cosmo.f2z(np.mean(fr)), v.cosmo.f2z(fr[0] + len(fr) * uvps.CHAN / 2)
        kperp = np.array(lens) * v.cosmo.bl_to_kperp(z0, little_h=c["hobj"])
        kpara = v.dly_array[v.spw_dly_array == s] * v.cosmo.tau_to_kpara(z0, little_h=c["hobj"])
        K = np.sqrt(kperp[:, None] ** 2 + kpara[None] ** 2)
        w = out[s]
        nt = v.Ntimes
        assert w.shape == (nt, len(e) - 1, len(et) - 1, v.Npols), "shape %s" % (w.shape,)
        # lengths of groups come back rounded to 0.1 m or so when they are found by the code
        slack = 1.5 * K.max() * abs(z1 - z0) / (1 + z0) + (0.03 * v.cosmo.bl_to_kperp(z0, little_h=c["hobj"]) if not c["lens"] else 0)
        if min(np.min(np.abs(K - x)) for x in e) < slack:
            note.label("edge")
            continue
        for p in range(v.Npols):
            kt = np.sqrt(v.window_function_kperp[s][:, p][:, None] ** 2 + v.window_function_kpara[s][:, p][None] ** 2)
            if min(np.min(np.abs(kt - x)) for x in et) < 1e-9 * kt.max():
                continue
            for ti in range(nt):
                for m in range(len(e) - 1):
                    acc, n = 0, 0
                    for gi, g in enumerate(groups):
                        row = np.where(v.blpair_array == g[0])[0][ti]
                        for d in range(len(kpara)):
                            if e[m] <= K[gi, d] < e[m + 1]:
                                acc = acc + v.window_function_array[s][row, d, :, :, p]
                                n += 1
                    ref = np.zeros(len(et) - 1)
                    if n and np.sum(acc) > 0:
                        for q in range(len(ref)):
                            mk = (et[q] <= kt) & (kt < et[q + 1])
                            ref[q] = acc[mk].mean() / n if mk.any() else 0
                        if ref.sum() > 0:
                            ref = ref / ref.sum()
                            done += 1
                    assert_close(w[ti, m, :, p], ref, "window spw %d time %d bin %d pol %d" % (s, ti, m, p), 1e-8)
        note.label("checked")
    note.nt(done > 0)
    note.label("default groups" if c["dflt"] else "groups", "little_h %s, object %s" % (given_h, c["hobj"]))


def law_refuse(c, note):
    """overlapping bins, missing covariance and non-UVPSpec inputs are refused; the input is left alone"""
    u = build(c["sp"])
    s = snap(u)
    left, right = bins(c, u)
    k, w = (left + right) / 2, right - left
    if len(k) > 1:
        assert raises(grouping.spherical_average, u, k, w * 3 + 1), "overlapping bins accepted"
        assert raises(grouping.spherical_average, u, k, w[:-1]), "wrong number of widths accepted"
        note.nt()
    if not c["sp"]["cov"]:
        assert raises(grouping.spherical_average, u, k, w, weight_by_cov=True), "weight_by_cov without a covariance accepted"
    if not c["sp"]["stats"]:
        assert raises(grouping.spherical_average, u, k, w, error_weights="P_N"), "unknown error field accepted"
    assert raises(grouping.spherical_average, u.data_array, k, w)
    same(u, s)


LAWS = [
    Law("reference", case(), law_reference, quick=1200, shards=4, weight=4),
    Law("upfront", case_upfront(), law_upfront, quick=500, shards=2),
    Law("recover", case(), law_recover, quick=400, shards=1),
    Law("metamorphic", case_meta(), law_metamorphic, quick=400, shards=3, weight=3),
    Law("exact", case(wf="exact"), law_exact, quick=500, shards=2),
    Law("direct", direct_case(), direct, quick=400, shards=2),
    Law("refuse", case(), law_refuse, quick=60),
]
