"""C04: combining UVPSpecs inverts splitting."""
import copy
import os

import numpy as np
from hypothesis import strategies as st

from hera_pspec import conversions
from hera_pspec.uvpspec import combine_uvpspec, recursive_combine_uvpspec
from pv import uvps
from pv.core import Law, Skip
from pv.scratch import scratch
from pv.uvps import build, raises, same, snap

RULE = ("Cases are a generated UVPSpec, a generated partition of one axis (or a grid over several), a permutation of the pieces and of the rows inside them; "
        "non-trivial when at least two pieces with different content are combined.")
ASSUMPTIONS = ["pieces are dense, as every UVPSpec is", "beam integrals, cosmology and channel widths come from one analysis, as combine requires"]


def cells(s):
    """content of a UVPSpec snapshot by (window, blpair-time, polpair)"""
    out = {}
    for i in range(s["Nspws"]):
        f = tuple(s["freq_array"][np.asarray(s["spw_freq_array"]) == i].tolist())
        d = tuple(s["dly_array"][np.asarray(s["spw_dly_array"]) == i].tolist())
        for r in range(s["Nbltpairs"]):
            bt = (int(s["blpair_array"][r]), float(s["time_1_array"][r]), float(s["time_2_array"][r]))
            for p, pp in enumerate(np.asarray(s["polpair_array"]).tolist()):
                e = dict(data=s["data_array"][i][r, :, p], wgt=s["wgt_array"][i][r, :, :, p], integ=s["integration_array"][i][r, p],
                         ns=s["nsample_array"][i][r, p], scalar=s["scalar_array"][i, p],
                         lab1=str(s["labels"][s["label_1_array"][i, r, p]]), lab2=str(s["labels"][s["label_2_array"][i, r, p]]),
                         tavg=s["time_avg_array"][r], lsts=(s["lst_1_array"][r], s["lst_2_array"][r], s["lst_avg_array"][r]))
                for k in ("cov_array_real", "cov_array_imag", "window_function_array"):
                    if k in s:
                        e[k] = s[k][i][r, ..., p]
                for k in ("window_function_kperp", "window_function_kpara"):
                    if k in s:
                        e[k] = s[k][i][:, p]
                for n in s.get("stats_array", {}):
                    e["stat " + n] = s["stats_array"][n][i][r, :, p]
                key = (f, d, bt, pp)
                assert key not in out, "cell appears twice"
                out[key] = e
    return out


def same_cells(a, b, drop=()):
    assert set(a) == set(b), "cells lost %d, cells gained %d" % (len(set(a) - set(b)), len(set(b) - set(a)))
    for k in a:
        ea, eb = a[k], b[k]
        assert set(ea) - set(drop) == set(eb) - set(drop), "cell contents %s vs %s" % (sorted(ea), sorted(eb))
        for n in ea:
            if n not in drop:
                assert np.array_equal(ea[n], eb[n], equal_nan=not n.startswith("lab")), "%s of cell %s differs" % (n, (k[0][0], k[2:]))


def check_meta(out, u, hist=True):
    out.check()
    s, o = snap(u), snap(out)
    for k in ("Nspws", "Npols", "Nbltpairs", "Nblpairs", "Ntpairs", "Ntimes", "Nspwfreqs", "Nspwdlys", "Nfreqs", "Ndlys", "Nbls", "folded", "weighting",
              "vis_units", "norm_units", "norm", "taper", "exact_windows", "symmetric_taper", "cosmo", "beamfile", "cov_model"):
        assert s.get(k) == o.get(k), "%s: %r vs %r" % (k, o.get(k), s.get(k))
    bv = {int(b): tuple(v) for b, v in zip(s["bl_array"], s["bl_vecs"])}
    assert bv == {int(b): tuple(v) for b, v in zip(o["bl_array"], o["bl_vecs"])}, "baseline vectors"
    for k in ("channel_width", "beam_freqs", "telescope_location"):
        if k in s:
            assert np.array_equal(s[k], o[k]), k
    for k in ("OmegaP", "OmegaPP"):
        assert (k in s) == (k in o), k
        if k in s:
            a = {int(p): s[k][:, i] for i, p in enumerate(s["polpair_array"])}
            b = {int(p): o[k][:, i] for i, p in enumerate(o["polpair_array"])}
            assert set(a) == set(b) and all(np.array_equal(a[p], b[p]) for p in a), k
    used = {b + (p,) for _, blp, pp in u.get_all_keys() for b, p in zip(blp, pp)}
    ra, rb = [{k: v for k, v in x.get_r_params().items() if k in used} for x in (u, out)]
    assert ra == rb or not s["r_params"], "r_params"
    assert bool(s["r_params"]) == bool(o["r_params"])


def shuffle_rows(u, seed):
    """the same object with its blpair-times stored in another order"""
    r = np.random.default_rng(seed)
    o = r.permutation(u.Nbltpairs)
    for k in ("blpair_array", "time_1_array", "time_2_array", "time_avg_array", "lst_1_array", "lst_2_array", "lst_avg_array"):
        setattr(u, k, getattr(u, k)[o])
    for k in ("label_1_array", "label_2_array"):
        setattr(u, k, getattr(u, k)[:, o])
    for k in ("data_array", "wgt_array", "integration_array", "nsample_array", "cov_array_real", "cov_array_imag", "window_function_array"):
        if hasattr(u, k):
            for i in getattr(u, k):
                getattr(u, k)[i] = getattr(u, k)[i][o]
    for n in getattr(u, "stats_array", {}):
        for i in u.stats_array[n]:
            u.stats_array[n][i] = u.stats_array[n][i][o]


def relabel(u, seed):
    """the same object with its label list stored in another order"""
    r = np.random.default_rng(seed)
    o = r.permutation(len(u.labels))  # new[j] = old[o[j]]
    inv = np.argsort(o)
    u.labels = u.labels[o]
    u.label_1_array = inv[u.label_1_array].astype(np.int32)
    u.label_2_array = inv[u.label_2_array].astype(np.int32)


def partition(n, cuts):
    """cuts: list of group numbers, cycled over n items -> list of index lists"""
    g = {}
    for i in range(n):
        g.setdefault(cuts[i % len(cuts)], []).append(i)
    return list(g.values())


def split(u, axis, cuts):
    if axis == "spw":
        return [u.select(spws=g, inplace=False) for g in partition(u.Nspws, cuts)]
    if axis == "pol":
        return [u.select(polpairs=[int(u.polpair_array[i]) for i in g], inplace=False) for g in partition(u.Npols, cuts)]
    if axis == "blp":
        b = u.get_blpairs()
        return [u.select(blpairs=[b[i] for i in g], inplace=False) for g in partition(len(b), cuts)]
    t = np.unique(u.time_avg_array)
    return [u.select(times=t[g], inplace=False) for g in partition(len(t), cuts)]


CUTS = st.sampled_from([[0, 1], [1, 0, 0], [0, 1, 2], [0, 0, 1], [0, 1, 1, 2], [0]])
AX = st.sampled_from(["spw", "blp", "time", "pol"])


@st.composite
def case(draw):
    return dict(sp=draw(uvps.spec(max_blp=4)), axis=draw(AX), cuts=draw(CUTS),
                perm=draw(st.integers(0, 1000)), how=draw(st.sampled_from(["combine", "add", "recursive", "file"])), rows=draw(st.booleans()),
                merge=draw(st.booleans()))


def prepare(c, pieces):
    r = np.random.default_rng(c["perm"])
    pieces = [pieces[i] for i in r.permutation(len(pieces))]
    for i, p in enumerate(pieces):
        if c["rows"]:
            shuffle_rows(p, c["perm"] + i)
            relabel(p, c["perm"] + 7 * i)
    return pieces


def law_split(c, note):
    """split along one axis, shuffle pieces and rows, combine: same cells"""
    u = build(c["sp"])
    pieces = prepare(c, split(u, c["axis"], c["cuts"]))
    before = [snap(p) for p in pieces]
    for p, b in zip(pieces, before):
        p.history = b["history"] = "history of %d;" % id(p)
    if c["how"] == "recursive":
        out = recursive_combine_uvpspec(pieces)
    elif c["how"] == "add":
        out = pieces[0]
        for p in pieces[1:]:
            out = out + p
    elif c["how"] == "file" and len(pieces) > 1:
        with scratch() as d:
            names = []
            for i, p in enumerate(pieces):
                names.append(os.path.join(d, "p%d.h5" % i))
                p.write_hdf5(names[-1])
            out = combine_uvpspec(names, verbose=False)
    else:
        out = combine_uvpspec(pieces, merge_history=c["merge"], verbose=False)
    for p, b in zip(pieces, before):
        same(p, b)
    same_cells(cells(snap(u)), cells(snap(out)))
    check_meta(out, u)
    if c["how"] in ("combine", "add") and (c["merge"] or c["how"] == "add"):
        assert all(b["history"] in out.history for b in before), "history of a piece lost"
    note.nt(len(pieces) > 1)
    note.label(c["axis"], c["how"], "pieces=%d" % len(pieces))
    if len(pieces) > 1 and c["rows"]:
        note.label("rows shuffled")


@st.composite
def case_grid(draw):
    return dict(sp=draw(uvps.spec(max_blp=4)), axes=draw(st.permutations(["spw", "blp", "time", "pol"])), nax=draw(st.integers(2, 3)),
                cuts=[draw(CUTS) for _ in range(3)], perm=draw(st.integers(0, 1000)), rows=draw(st.booleans()))


def law_grid(c, note):
    """splits along several axes are undone axis by axis"""
    u = build(c["sp"])
    # a time split and a baseline-pair split are both splits of the blpairts axis, and undone in reverse order
    def rec(x, k):
        if k == c["nax"]:
            return x
        parts = split(x, c["axes"][k], c["cuts"][k])
        parts = prepare(dict(c, perm=c["perm"] + k), [rec(p, k + 1) for p in parts])
        return recursive_combine_uvpspec(parts) if k % 2 else combine_uvpspec(parts, verbose=False)
    n = [len(partition({"spw": u.Nspws, "pol": u.Npols, "blp": u.Nblpairs, "time": len(np.unique(u.time_avg_array))}[a], cc))
         for a, cc in zip(c["axes"][:c["nax"]], c["cuts"])]
    out = rec(u, 0)
    same_cells(cells(snap(u)), cells(snap(out)))
    check_meta(out, u)
    note.nt(sum(x > 1 for x in n) > 1)


def law_order(c, note):
    """the combined object does not depend on the order or nesting of the pieces"""
    u = build(c["sp"])
    pieces = split(u, c["axis"], c["cuts"])
    if len(pieces) < 2:
        raise Skip()
    a = combine_uvpspec(pieces, merge_history=False, verbose=False)
    q = prepare(dict(c, rows=False), pieces)
    b = recursive_combine_uvpspec(q)
    same(a, b, ignore=("r_params",))
    assert a.get_r_params() == b.get_r_params()
    note.nt()


STATIC = ["vis_units", "norm_units", "weighting", "norm", "taper", "folded", "cosmo", "channel_width", "telescope_location", "beamfile", "OmegaP",
          "OmegaPP", "beam_freqs", "missing_cosmo", "missing_OmegaP", "scalar", "r_params", "r_missing"]


@st.composite
def case_refuse(draw):
    return dict(sp=draw(uvps.spec(max_blp=4)), kind=draw(st.sampled_from(["total", "partial", "two_axes", "static", "static", "static"])),
                axis=draw(AX), axis2=draw(AX), static=draw(st.sampled_from(STATIC)), perm=draw(st.booleans()), how=draw(st.sampled_from(["combine", "add", "recursive"])))


def law_refuse(c, note):
    """overlapping pieces, pieces that differ along several axes, and pieces with different static metadata are refused"""
    sp = dict(c["sp"])
    if c["kind"] == "static" and c["static"] in ("OmegaP", "OmegaPP", "beam_freqs", "beamfile", "missing_OmegaP"):
        sp["beam"] = True
    if c["kind"] == "static" and "cosmo" in c["static"]:
        sp["cosmo"] = max(0, sp["cosmo"])
    if c["kind"] == "static" and c["static"].startswith("r_"):
        sp["rp"] = True
    u = build(sp)
    pieces = split(u, c["axis"], [0, 1])
    if c["kind"] == "total":
        ps = [u, copy.deepcopy(u)]
        ps[1].data_array[0] = ps[1].data_array[0] + 1
    elif len(pieces) < 2:
        raise Skip()
    elif c["kind"] == "partial":
        ps = [u, pieces[1]]
    elif c["kind"] == "two_axes":
        ax = {"blp": "blpt", "time": "blpt"}
        if ax.get(c["axis"], c["axis"]) == ax.get(c["axis2"], c["axis2"]):
            raise Skip()
        a, b = split(pieces[0], c["axis2"], [0, 1]), split(pieces[1], c["axis2"], [0, 1])
        if len(a) < 2 or len(b) < 2:
            raise Skip()
        if c["axis2"] in ("blp", "time") or c["axis"] in ("blp", "time"):
            # ragged objects may have no row in common, which is still a difference along that axis
            pass
        ps = [a[0], b[1]]
    else:
        ps = pieces[:2]
        x, s = ps[1], c["static"]
        if s in ("vis_units", "norm_units", "weighting", "norm", "taper", "beamfile"):
            setattr(x, s, "other")
        elif s == "folded":
            x.folded = not x.folded
        elif s == "cosmo":
            p = dict(x.cosmo.get_params())
            x.cosmo = conversions.Cosmo_Conversions(**dict(p, H0=p["H0"] + 5))
        elif s == "channel_width":
            x.channel_width = x.channel_width * 1.01
        elif s == "telescope_location":
            x.telescope_location = x.telescope_location + 400.0
        elif s in ("OmegaP", "OmegaPP"):
            if c["axis"] == "pol":
                raise Skip()
            getattr(x, s)[c["sp"]["seed"] % 9, 0] *= 1.02
        elif s == "beam_freqs":
            x.beam_freqs = x.beam_freqs * 1.01
        elif s == "missing_cosmo":
            del x.cosmo
        elif s == "missing_OmegaP":
            del x.OmegaP
        elif s == "scalar":
            if c["axis"] not in ("blp", "time"):
                raise Skip()
            x.scalar_array = x.scalar_array.copy()
            x.scalar_array[-1, -1] *= 1.01
        elif s == "r_missing":
            x.r_params = ""
        else:
            a, b = ps[0].get_r_params(), x.get_r_params()
            com = sorted(set(a) & set(b))
            if not com:
                raise Skip()
            from hera_pspec import uvpspec_utils as uu
            b[com[0]] = dict(b[com[0]], filter_centers=[0.25])
            x.r_params = uu.compress_r_params(b)
    if c["perm"]:
        ps = ps[::-1]
    s0 = [snap(p) for p in ps]
    f = dict(combine=lambda: combine_uvpspec(ps, verbose=False), add=lambda: ps[0] + ps[1], recursive=lambda: recursive_combine_uvpspec(ps))[c["how"]]
    assert raises(f), "combine accepted %s pieces (%s)" % (c["kind"], c["static"] if c["kind"] == "static" else c["axis"])
    for p, s in zip(ps, s0):
        same(p, s)
    note.nt()
    note.label(c["kind"] if c["kind"] != "static" else c["static"])


@st.composite
def case_opt(draw):
    return dict(sp=draw(uvps.spec(cov=True, stats=["P_N", "bs_std"], wf="approx")), axis=draw(AX), what=draw(st.sampled_from(["cov", "cov_model", "stat", "stats", "wf"])),
                which=draw(st.integers(0, 1)))


def law_optional(c, note):
    """optional arrays survive only if all pieces have them; everything else is still combined"""
    u = build(c["sp"])
    ps = split(u, c["axis"], [0, 1])
    if len(ps) < 2:
        raise Skip()
    x = ps[c["which"]]
    drop = ()
    if c["what"] == "cov":
        del x.cov_array_real, x.cov_array_imag, x.cov_model
        drop = ("cov_array_real", "cov_array_imag")
    elif c["what"] == "cov_model":
        x.cov_model = "dsets"
        drop = ("cov_array_real", "cov_array_imag")
    elif c["what"] == "stat":
        del x.stats_array["P_N"]
        drop = ("stat P_N",)
    elif c["what"] == "stats":
        del x.stats_array
        drop = ("stat P_N", "stat bs_std")
    else:
        del x.window_function_array
        drop = ("window_function_array",)
    out = combine_uvpspec(ps, verbose=False)
    co = cells(snap(out))
    same_cells(cells(snap(u)), co, drop=drop)
    assert not any(d in e for e in co.values() for d in drop), "%s of some pieces kept for all" % (drop,)
    note.nt()
    note.label(c["what"])


LAWS = [
    Law("split", case(), law_split, quick=1500, shards=6, weight=6),
    Law("grid", case_grid(), law_grid, quick=600, shards=3, weight=4),
    Law("order", case(), law_order, quick=300, shards=1, weight=2),
    Law("refuse", case_refuse(), law_refuse, quick=500, shards=2),
    Law("optional", case_opt(), law_optional, quick=150),
]
