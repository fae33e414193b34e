"""C08: average_in_delay_bins."""
import copy

import numpy as np
from hypothesis import strategies as st

from hera_pspec import grouping
from pv import uvps
from pv.core import Law, Skip
from pv.uvps import assert_close, build, raises, same, snap

RULE = ("Cases are generated unfolded UVPSpecs with a generated kernel and zero-bin kernel; non-trivial when some output bin averages at least two delays.")
ASSUMPTIONS = ["unfolded spectra (a folded object has no zero delay and is refused)", "kernels have a positive sum and non-negative entries; the zero-bin kernel fits in the window",
               "covariances have a positive diagonal where they are used to weight a statistic", "the kernel is applied in increasing delay order on both sides of zero"]


@st.composite
def case(draw, **kw):
    kw.setdefault("stats", draw(st.sampled_from([[], ["P_N"], ["P_N", "P_SN"], ["P_N", "bs_std"], ["cov_diag"]])))
    sp = draw(uvps.spec(folded=False, **kw))
    # longer windows than elsewhere: bins need room
    for s in sp["spws"]:
        s["nf"] += draw(st.integers(2, 9))
        s["nd"] = s["nf"] + draw(st.sampled_from([0, 0, 1, 2]))
    sp["rstats"] = draw(st.sampled_from([0, 1, 2, 3]))
    k = draw(st.lists(st.sampled_from([1, 1, 2, 0.5, 0, 3.5]), min_size=1, max_size=4))
    if sum(k) == 0:
        k[0] = 1
    h = draw(st.lists(st.sampled_from([1, 2, 0, 0.5]), min_size=0, max_size=1 if draw(st.booleans()) else 2))
    z = h[::-1] + [draw(st.sampled_from([1, 1, 3]))] + h
    return dict(sp=sp, kernel=k, zero=z, nozero=draw(st.booleans()), kt=draw(st.sampled_from(["int", "float", "list", "scaled"])),
                cws=draw(st.sampled_from([None, [], ["P_N"], ["P_N", "P_SN", "bs_std"]])))


def kern(c):
    k, z = np.array(c["kernel"], float), np.array(c["zero"], float)
    if c["kt"] == "list":
        return list(c["kernel"]), list(c["zero"])
    if c["kt"] == "int" and all(float(x).is_integer() for x in c["kernel"] + c["zero"]):
        return np.array(c["kernel"]).astype(int), np.array(c["zero"]).astype(int)
    if c["kt"] == "scaled":
        return k * 7.25, z * 0.125
    return k, z


def binning(dly, kernel, zero):
    """matrix (Nbins, Ndlys) of the documented binning"""
    n = len(dly)
    z = int(np.argmin(np.abs(dly)))
    npos = min(z, n - 1 - z)
    k, zk = np.array(kernel, float), np.array(zero, float)
    k, zk = k / k.sum(), zk / zk.sum()
    half = len(zk) // 2
    nb = (npos - half) // len(k)
    rows = []
    for b in range(nb, 0, -1):
        r = np.zeros(n)
        lo = z - half - b * len(k)
        r[lo:lo + len(k)] = k
        rows.append(r)
    r = np.zeros(n)
    r[z - half:z + half + 1] = zk
    rows.append(r)
    for b in range(nb):
        r = np.zeros(n)
        lo = z + half + 1 + b * len(k)
        r[lo:lo + len(k)] = k
        rows.append(r)
    return np.array(rows)


def run(u, c):
    k, z = kern(c)
    kw = dict(kernel=k)
    if not (c["nozero"] and c["zero"] == [1]):
        kw["zero_bin_kernel"] = z
    if c["cws"] is not None:
        kw["cov_weighted_stats"] = tuple(c["cws"])
    args = copy.deepcopy(kw)
    s = snap(u)
    out = grouping.average_in_delay_bins(u, **kw)
    same(kw, args)
    same(u, s)
    return out


def room(c):
    for s in c["sp"]["spws"]:
        if len(c["zero"]) // 2 > (s["nd"] - 1) // 2:
            raise Skip()
    if len(c["kernel"]) > sum(s["nd"] for s in c["sp"]["spws"]) // 2:
        raise Skip()


def law_reference(c, note):
    """data, window functions, covariances, statistics and delays are those of the kernel-weighted combinations; nothing else changes"""
    room(c)
    u = build(c["sp"])
    s = snap(u)
    out = run(u, c)
    out.check()
    o = snap(out)
    dl, sd = [], []
    cws = ("P_N", "P_SN") if c["cws"] is None else tuple(c["cws"])
    nt = False
    for spw in range(s["Nspws"]):
        d = s["dly_array"][s["spw_dly_array"] == spw]
        B = binning(d, c["kernel"], c["zero"])
        nt |= bool(((B > 0).sum(axis=1) > 1).any())
        dl.append(B @ d), sd.append([spw] * len(B))
        assert_close(o["data_array"][spw], np.einsum("bd,tdp->tbp", B, s["data_array"][spw]), "data")
        for k in ("cov_array_real", "cov_array_imag"):
            if k in s:
                assert_close(o[k][spw], np.einsum("bd,tdep,ce->tbcp", B, s[k][spw], B), k)
        if "window_function_array" in s:
            assert_close(o["window_function_array"][spw], np.einsum("bd,td...->tb...", B, s["window_function_array"][spw]), "window function")
        for n in s.get("stats_array", {}):
            e = np.asarray(s["stats_array"][n][spw])
            x = np.asarray(o["stats_array"][n][spw])
            for part in ("real", "imag"):
                ep, xp = getattr(e, part), getattr(x, part)
                fin = np.where(np.isfinite(ep), ep, 0)
                if n in cws and "cov_array_real" in s:
                    C = s["cov_array_real"][spw]
                    sg = np.sqrt(np.einsum("tddp->tdp", C))
                    R = C / sg[:, :, None] / sg[:, None]
                    v = np.sqrt(np.einsum("bd,tdp,tdep,tep,be->tbp", B, fin, R, fin, B))
                else:
                    v = np.sqrt(np.einsum("bd,tdp->tbp", B, fin**2))
                bad = np.einsum("bd,tdp->tbp", (B > 0).astype(float), ~np.isfinite(ep)) > 0
                if part == "real":
                    assert np.all(np.isinf(xp[bad])), "statistic %s: infinite error became %s" % (n, xp[bad][:3])
                    assert_close(xp[~bad], v[~bad], "statistic %s (%s)" % (n, part))
                elif not np.any(~np.isfinite(e.real)):
                    assert_close(xp, v, "statistic %s (%s)" % (n, part))
    assert o["dly_array"].shape == np.concatenate(dl).shape and np.allclose(o["dly_array"], np.concatenate(dl), rtol=1e-9, atol=1e-9 * np.abs(s["dly_array"]).max()), "delays"
    assert o["spw_dly_array"].tolist() == sum(sd, [])
    assert o["Nspwdlys"] == len(o["dly_array"]) and o["Ndlys"] == len(np.unique(o["dly_array"])), "counts of delays"
    rest = {"data_array", "cov_array_real", "cov_array_imag", "window_function_array", "stats_array", "dly_array", "spw_dly_array", "Nspwdlys", "Ndlys"}
    for k in s:
        if k not in rest:
            same({k: s[k]}, {k: o[k]})
    # accessors of the result
    for spw in range(s["Nspws"]):
        key = (spw, int(s["blpair_array"][0]), int(s["polpair_array"][-1]))
        rows = np.where(s["blpair_array"] == s["blpair_array"][0])[0]
        assert np.array_equal(out.get_data(key), o["data_array"][spw][rows][:, :, -1])
        assert np.array_equal(out.get_dlys(spw), o["dly_array"][o["spw_dly_array"] == spw]), "get_dlys"
        if "cov_array_real" in s:
            assert np.array_equal(out.get_cov(key), o["cov_array_real"][spw][rows][..., -1])
    note.nt(nt)
    note.label("even" if any(x["nd"] % 2 == 0 for x in c["sp"]["spws"]) else "odd", *(["cov"] if c["sp"]["cov"] else []), *c["sp"]["stats"], c["sp"]["wf"])


def law_identity(c, note):
    """a kernel of length one changes nothing except dropping an unpaired delay; a constant spectrum stays constant; scaling a kernel changes nothing"""
    room(c)
    u = build(c["sp"])
    s = snap(u)
    out = grouping.average_in_delay_bins(u, kernel=np.array([3.0]))
    for spw in range(s["Nspws"]):
        n = s["data_array"][spw].shape[1]
        cut = slice(1 - n % 2, None)
        assert_close(out.data_array[spw], s["data_array"][spw][:, cut], "data")
        assert_close(out.get_dlys(spw), s["dly_array"][s["spw_dly_array"] == spw][cut], "delays")
        for k in ("cov_array_real", "cov_array_imag"):
            if k in s:
                assert_close(getattr(out, k)[spw], s[k][spw][:, cut, cut], k)
    r = uvps.rng_of(c["sp"]["seed"], 5)
    for spw in u.data_array:
        u.data_array[spw][:] = r.normal(size=u.data_array[spw][:, :1].shape)
    out = run(u, c)
    for spw in u.data_array:
        assert_close(out.data_array[spw], np.broadcast_to(u.data_array[spw][:, :1], out.data_array[spw].shape), "constant spectrum")
        d = out.get_dlys(spw)
        if c["kernel"] == c["kernel"][::-1]:
            assert np.allclose(d, -d[::-1], atol=1e-9 * max(np.abs(d).max(), 1e-12)), "delays are not symmetric: %s" % d
    a = run(u, dict(c, kt="float"))
    b = run(u, dict(c, kt="scaled"))
    same(a, b, tol=1e-9)
    note.nt(len(c["kernel"]) > 1)


@st.composite
def case_commute(draw):
    c = draw(case(cov=draw(st.booleans())))
    c["sp"]["rstats"] = 1
    c["pick"] = [draw(st.integers(0, len(c["sp"]["spws"]) - 1)), draw(st.integers(0, len(c["sp"]["pps"]) - 1)), draw(st.integers(0, 3))]
    return c


def law_commute(c, note):
    """binning delays commutes with selecting windows, baseline-pairs and polarizations, and with averaging times"""
    room(c)
    u = build(c["sp"])
    out = run(u, c)
    i, j, k = c["pick"]
    s = c["sp"]["spws"][i]
    if len(c["kernel"]) <= s["nd"] // 2:
        a = run(u.select(spws=[i], inplace=False), c)
        b = out.select(spws=[i], inplace=False)
        same(a, b, tol=1e-9)
    pp = tuple(c["sp"]["pps"][j])
    same(run(u.select(polpairs=[pp], inplace=False), c), out.select(polpairs=[pp], inplace=False), tol=1e-9)
    bps = sorted(set(u.blpair_array.tolist()))
    b = bps[k % len(bps)]
    same(run(u.select(blpairs=[b], inplace=False), c), out.select(blpairs=[b], inplace=False), tol=1e-9)
    x = run(u.average_spectra(time_avg=True, inplace=False), c)
    y = out.average_spectra(time_avg=True, inplace=False)
    same(x, y, tol=1e-8, ignore=("stats_array",))
    note.nt(len(c["kernel"]) > 1)


def law_refuse(c, note):
    """kernels that are not 1D, too long or (zero bin) asymmetric or of even length, and folded objects, are refused"""
    u = build(c["sp"])
    s = snap(u)
    f = grouping.average_in_delay_bins
    assert raises(f, u, kernel=np.ones((2, 2)))
    assert raises(f, u, kernel=np.ones(len(u.dly_array)))
    assert raises(f, u, kernel=np.ones(1), zero_bin_kernel=np.ones(2))
    assert raises(f, u, kernel=np.ones(1), zero_bin_kernel=np.array([1.0, 2, 3]))
    same(u, s)
    u.fold_spectra()
    s = snap(u)
    assert raises(f, u, kernel=np.ones(2)), "folded spectra accepted"
    same(u, s)
    note.nt()


LAWS = [
    Law("reference", case(), law_reference, quick=900, shards=4, weight=4),
    Law("identity", case(), law_identity, quick=200, shards=1, weight=2),
    Law("commute", case_commute(), law_commute, quick=150, shards=2, weight=2),
    Law("refuse", case(), law_refuse, quick=50),
]
