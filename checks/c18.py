"""C18: pseudo-Stokes construction."""
import copy
import os
import runpy
import sys
import warnings

import numpy as np
from hypothesis import strategies as st

from hera_pspec import pstokes
from pv import boot, dsets, uvps
from pv.core import Law, Skip
from pv.dsets import POLNUM
from pv.scratch import scratch
from pv.uvps import raises

RULE = ("Cases are pairs of generated visibility datasets with one to four linear polarizations in any stored order, flags, sample counts (zeros included), conventions and spectral-window layouts; non-trivial when a "
        "pseudo-Stokes dataset was formed from a dataset holding more than one polarization, or from two different datasets, or when a request had to be refused.")
ASSUMPTIONS = ["baseline-times of the two datasets may be stored in different orders: then the pair is either refused or combined by key",
               "a sample neither input flags but one has zero samples of is flagged in the output (documented by the warning)"]

warnings.simplefilter("ignore")

W = {1: (-5, 1, -6, 1), 2: (-5, 1, -6, -1), 3: (-7, 1, -8, 1), 4: (-7, -1j, -8, 1j)}
NAME = {1: "pI", 2: "pQ", 3: "pU", 4: "pV"}


def oracle(u1, u2, s, conv):
    """(data, flags, nsamples) of shape (Nblts, Nfreqs) in the order of u1, with u2's samples looked up by baseline, time and channel"""
    p1, a, p2, b = W[s]
    k1, k2 = list(u1.polarization_array).index(p1), list(u2.polarization_array).index(p2)
    where = {(int(x), int(y), float(t)): i for i, (x, y, t) in enumerate(zip(u2.ant_1_array, u2.ant_2_array, u2.time_array))}
    rows = [where[(int(x), int(y), float(t))] for x, y, t in zip(u1.ant_1_array, u1.ant_2_array, u1.time_array)]
    d = (a * u1.data_array[:, :, k1] + b * u2.data_array[rows][:, :, k2]) * (1.0 if conv == "sum" else 0.5)
    n1, n2 = u1.nsample_array[:, :, k1].astype(float), u2.nsample_array[rows][:, :, k2].astype(float)
    f = u1.flag_array[:, :, k1] | u2.flag_array[rows][:, :, k2]
    ok = (n1 > 0) & (n2 > 0)
    n = np.zeros(n1.shape)
    n[ok] = 4 / (1 / n1[ok] + 1 / n2[ok])
    return d, f | ~ok & ~f, n


def judge(out, u1, u2, s, conv, snap):
    d, f, n = oracle(u1, u2, s, conv)
    assert list(out.polarization_array) == [s] and out.Npols == 1
    uvps.assert_close(out.data_array[:, :, 0], d, "data", 1e-6)
    assert np.array_equal(out.flag_array[:, :, 0], f), "flags"
    uvps.assert_close(out.nsample_array[:, :, 0], n, "nsamples", 1e-5)
    for k in ("time_array", "lst_array", "ant_1_array", "ant_2_array", "freq_array", "uvw_array", "integration_time", "channel_width", "vis_units"):
        assert np.array_equal(getattr(out, k), snap[k]), k


@st.composite
def dcase(draw):
    d = draw(dsets.dspec(nd=2, nf=(1, 7), nt=(1, 4), max_bl=4, npol=4, autos=draw(st.booleans()), wgts=False))
    d["dtd"] = 0.0
    d["pols2"] = draw(st.one_of(st.none(), st.permutations(["xx", "yy", "xy", "yx"]).flatmap(lambda x: st.integers(1, 4).map(lambda k: list(x)[:k]))))
    if draw(st.sampled_from([True, True, False])):
        d["pols2"] = draw(st.one_of(st.none(), st.permutations(["xx", "yy", "xy", "yx"]).map(list)))
        d["pols"] = list(draw(st.permutations(["xx", "yy", "xy", "yx"])))
    return dict(d=d, order=draw(st.sampled_from(["same"] * 9 + ["reorder", "conj", "times", "freqs"])), conv=draw(st.sampled_from(["none", "none", "avg", "avg", "sum", "sum", "sum", "mixed", "half"])), same=draw(st.sampled_from([False, False, True])),
                spw=draw(st.sampled_from([1, 1, 1, 2])), oseed=draw(st.integers(0, 99)), s=draw(st.integers(1, 4)), stype=draw(st.sampled_from(["int", "str", "np"])), check=draw(st.booleans()))


def permute(u, seed):
    """the same data with its baseline-times stored in another order"""
    p = uvps.rng_of(seed, 3).permutation(u.Nblts)
    for k in ("ant_1_array", "ant_2_array", "baseline_array", "time_array", "lst_array", "uvw_array", "integration_time", "phase_center_id_array", "phase_center_app_ra", "phase_center_app_dec",
              "phase_center_frame_pa", "data_array", "flag_array", "nsample_array"):
        setattr(u, k, getattr(u, k)[p])
    return u, p


def pair(c):
    sp = c["d"]
    u1 = dsets.build_one(sp, 0)
    if c["same"]:
        return u1, u1
    sp2 = dict(sp, pols=sp["pols2"] or sp["pols"])
    if sp["blorder"] == "mix":
        sp2["blorder"] = sp["blorder"] = "time"
        u1 = dsets.build_one(sp, 0)
    u2 = dsets.build_one(sp2, 1)
    if c["order"] == "reorder":
        u2, _ = permute(u2, c["oseed"])
    if c["order"] == "conj":
        m = u2.ant_1_array != u2.ant_2_array
        u2.ant_1_array[m], u2.ant_2_array[m] = u2.ant_2_array[m], u2.ant_1_array[m].copy()
        u2.baseline_array = u2.antnums_to_baseline(u2.ant_1_array, u2.ant_2_array)
        u2.uvw_array[m] *= -1
    if c["order"] == "times":
        u2.time_array = u2.time_array + 1e-3
    if c["order"] == "freqs":
        u2.freq_array = u2.freq_array + 2e4
    return u1, u2


def split_spw(u, n):
    if n == 2 and u.Nfreqs > 1:
        u.Nspws, u.spw_array = 2, np.array([0, 1])
        u.flex_spw_id_array = (np.arange(u.Nfreqs) >= u.Nfreqs // 2).astype(int)


def combine(c, note):
    """the output is the stated combination of the two inputs' samples, looked up by key; whatever cannot be combined is refused; inputs are untouched"""
    u1, u2 = pair(c)
    for i, u in enumerate([u1, u2]):
        split_spw(u, c["spw"])
        if c["conv"] in ("avg", "sum"):
            u.pol_convention = c["conv"]
        elif c["conv"] == "mixed":
            u.pol_convention = ["avg", "sum"][i]
        elif c["conv"] == "half" and i == 0:
            u.pol_convention = "sum"
        else:
            u.pol_convention = None
        u.vis_units = "Jy"
    conv = c["conv"] if c["conv"] in ("avg", "sum") else (u1.pol_convention or "avg")
    s = c["s"]
    arg = {"int": s, "str": NAME[s], "np": np.int64(s)}[c["stype"]]
    snaps = [dsets.dsnap(u) for u in (u1, u2)]
    refuse = W[s][0] not in u1.polarization_array or W[s][2] not in u2.polarization_array or (u1.pol_convention or "avg") != (u2.pol_convention or "avg")
    keys = [set(zip(u.ant_1_array.tolist(), u.ant_2_array.tolist(), u.time_array.tolist())) for u in (u1, u2)]
    refuse = refuse or keys[0] != keys[1] or not np.array_equal(u1.freq_array, u2.freq_array)
    call = lambda: pstokes.construct_pstokes(u1, u2, pstokes=arg, run_check=c["check"], history="more")  # noqa: E731
    reordered = not np.array_equal(u1.baseline_array, u2.baseline_array) or not np.array_equal(u1.time_array, u2.time_array)
    note.nt(refuse or u1.Npols > 1 or not c["same"])
    if refuse:
        assert raises(call), "combined what cannot be combined"
        note.label("refused")
    else:
        try:
            out = call()
        except ValueError:
            if not reordered:
                raise
            out = None
            note.label("reordered refused")
        if out is not None:
            judge(out, u1, u2, s, conv, snaps[0])
            assert out is not u1 and out is not u2
            assert not np.shares_memory(out.data_array, u1.data_array) and not np.shares_memory(out.flag_array, u1.flag_array)
            assert out.history.endswith("more")
            note.label("combined", conv, "npol%d" % u1.Npols)
    for u, sn in zip((u1, u2), snaps):
        uvps.same(dsets.dsnap(u), sn)


# ------------------------------------------------------------------------------------------------ arrays and single-polarization datasets
LIN = {"east": {-5: "ee", -6: "nn", -7: "en", -8: "ne"}, "north": {-5: "nn", -6: "ee", -7: "ne", -8: "en"}}
XY = {-5: "xx", -6: "yy", -7: "xy", -8: "yx"}


@st.composite
def acase(draw):
    d = draw(dsets.dspec(nd=2, nf=(1, 5), nt=(1, 3), max_bl=3, npol=1, autos=draw(st.booleans()), wgts=False))
    d["dtd"] = 0.0
    return dict(d=d, s=draw(st.integers(1, 4)), swap=draw(st.sampled_from([0, 0, 1, 2])), names=draw(st.sampled_from(["int", "str", "upper", "east", "north"])), sname=draw(st.sampled_from(["int", "str", "default"])),
                conv=draw(st.sampled_from([None, "avg", "sum"])), lists=draw(st.sampled_from(["dfn", "dfn", "dfn", "d", "f", "n", "fn", "dn", "df", ""])), kind=draw(st.sampled_from(["list", "tuple", "array"])), zeros=draw(st.sampled_from([0.0, 0.3, 1.0])), seed=draw(st.integers(0, 999)),
                bad=draw(st.sampled_from([None] * 5 + ["pol", "conv", "three", "shape", "scalar", "stokes", "other"])))


def arrays(c, note):
    """the array form combines data, flags and sample counts, whichever are given, for polarizations named in any way; the dataset form is the array form of two datasets"""
    s = c["s"]
    p1, a, p2, b = W[s]
    if c["swap"]:
        p1, a, p2, b = p2, b, p1, a
        if c["swap"] == 2:
            p2, b = p1, a
    nm = lambda p: {"int": p, "str": XY[p], "upper": XY[p].upper()}.get(c["names"]) or LIN[c["names"]][p]
    if c["sname"] == "default":
        if s != 1:
            c = dict(c, sname="str")
    sn = {"int": s, "str": NAME[s], "default": "pI"}[c["sname"]]
    xo = {} if c["names"] not in LIN else dict(x_orientation=c["names"])
    r = uvps.rng_of(c["seed"], 33)
    sh = tuple(int(x) for x in r.integers(1, 5, r.integers(1, 4)))
    d = [r.normal(size=sh) + 1j * r.normal(size=sh) for _ in (0, 1)]
    f = [r.random(sh) < 0.2 for _ in (0, 1)]
    n = [np.where(r.random(sh) < c["zeros"] * 0.5, 0, r.integers(1, 9, sh)).astype(float) for _ in (0, 1)]
    keep = copy.deepcopy((d, f, n))
    T = {"list": list, "tuple": tuple, "array": np.array}[c["kind"]]
    kw = dict(xo)
    for k, v, y in (("d", d, "data_list"), ("f", f, "flags_list"), ("n", n, "nsamples_list")):
        if k in c["lists"]:
            kw[y] = T(v)
    if c["conv"]:
        kw["pol_convention"] = c["conv"]
    F = lambda x=nm(p1), y=nm(p2), z=sn, **k: pstokes._combine_pol_arrays(x, y, z, **dict(kw, **k))
    out = F()
    assert len(out) == 3
    if "d" in c["lists"]:
        uvps.assert_close(out[0], (a * d[0] + b * d[1]) * (1.0 if c["conv"] == "sum" else 0.5), "data")
    else:
        assert out[0] is None
    ok = (n[0] > 0) & (n[1] > 0)
    if "f" in c["lists"]:
        assert np.array_equal(out[1], f[0] | f[1] | (~ok if "n" in c["lists"] else False)), "flags"
    else:
        assert out[1] is None
    if "n" in c["lists"]:
        want = np.zeros(sh)
        want[ok] = 4 / (1 / n[0][ok] + 1 / n[1][ok])
        uvps.assert_close(out[2], want, "nsamples")
    else:
        assert out[2] is None
    for x, y in zip((d, f, n), keep):
        assert all(np.array_equal(p, q) for p, q in zip(x, y)), "an input changed"
    assert all(x is None or not any(np.shares_memory(x, y) for z in (d, f, n) for y in z) for x in out)
    bad = {"pol": lambda: F(x={1: "xy", 2: -8, 3: -5, 4: "yy"}[s]), "other": lambda: F(y={1: "xy", 2: -8, 3: -5, 4: "yy"}[s]), "conv": lambda: F(pol_convention="mean"), "three": lambda: F(data_list=d + d[:1]),
           "shape": lambda: F(nsamples_list=[n[0], np.append(n[1], n[1], axis=0)]), "scalar": lambda: F(flags_list=3), "stokes": lambda: F(z=-5)}
    if c["bad"]:
        assert raises(bad[c["bad"]]), "accepted: " + c["bad"]
    # datasets
    us = [dsets.build_one(dict(c["d"], pols=[XY[p]]), i) for i, p in enumerate((p1, p2))]
    us[1] = us[0].copy() if c["d"]["blorder"] == "mix" else us[1]
    us[1].polarization_array = np.array([p2])
    for u in us:
        if c["conv"]:
            u.pol_convention = c["conv"]
    sn_ = [dsets.dsnap(u) for u in us]
    args = (us[0], us[1], nm(p1), nm(p2)) + (() if c["sname"] == "default" else (sn,))
    S = pstokes._combine_pol(*args, **xo)
    uvps.assert_close(S.data_array, (a * us[0].data_array + b * us[1].data_array) * (1.0 if c["conv"] == "sum" else 0.5), "data of the dataset", 1e-6)
    n0, n1 = us[0].nsample_array.astype(float), us[1].nsample_array.astype(float)
    ok = (n0 > 0) & (n1 > 0)
    assert np.array_equal(S.flag_array, us[0].flag_array | us[1].flag_array | ~ok), "flags of the dataset"
    uvps.assert_close(S.nsample_array, np.where(ok, 4 / (1 / np.where(ok, n0, 1) + 1 / np.where(ok, n1, 1)), 0), "nsamples of the dataset", 1e-6)
    assert list(S.polarization_array) == [s] and S.pol_convention == (c["conv"] or "avg") and str(us[0].history) in S.history and str(us[1].history) in S.history
    us2 = copy.deepcopy(us)
    us2[1].pol_convention = "sum" if c["conv"] != "sum" else "avg"
    assert raises(pstokes._combine_pol, *us2, nm(p1), nm(p2), sn, **xo) and raises(pstokes._combine_pol, us[0], us[1].data_array, nm(p1), nm(p2), sn, **xo)
    for u, y in zip(us, sn_):
        uvps.same(dsets.dsnap(u), y)
    note.nt(bool(c["lists"]))
    note.label(c["names"], c["lists"], c["conv"] or "default", c["bad"] or "")


# ------------------------------------------------------------------------------------------------ filter
@st.composite
def fcase(draw):
    d = draw(dsets.dspec(nd=1, nf=(1, 3), nt=(1, 2), max_bl=2, flags="none", wgts=False, autos=False))
    d["dtd"] = 0.0
    d["blorder"], d["units"] = "time", "Jy"
    return dict(d=d, pols=draw(st.lists(st.permutations(["xx", "yy", "xy", "yx"]).flatmap(lambda x: st.integers(1, 3).map(lambda k: list(x)[:k])), min_size=1, max_size=7)), s=draw(st.integers(1, 4)),
                stype=draw(st.sampled_from(["int", "str"])), bad=draw(st.sampled_from([None] * 6 + ["str", "tuple", "lin"])))


def filt(c, note):
    """the two datasets returned are the ones of the list whose first polarization is needed, in the order construct_pstokes wants them"""
    us = [dsets.build_one(dict(c["d"], pols=p), i) for i, p in enumerate(c["pols"])]
    snaps = [dsets.dsnap(u) for u in us]
    s = c["s"]
    arg = s if c["stype"] == "int" else NAME[s]
    firsts = [POLNUM[p[0]] for p in c["pols"]]
    need = [W[s][0], W[s][2]]
    if c["bad"]:
        note.nt()
        note.label("bad")
        arg = -5 if c["bad"] == "lin" else arg
        inp = us + ["not a dataset"] if c["bad"] == "str" else tuple(us) if c["bad"] == "tuple" else us
        assert raises(lambda: pstokes.filter_dset_on_stokes_pol(inp, arg)), "bad arguments accepted"
        return
    if not all(p in firsts for p in need):
        note.nt()
        note.label("refused")
        assert raises(lambda: pstokes.filter_dset_on_stokes_pol(us, arg)), "missing polarization"
        return
    out = pstokes.filter_dset_on_stokes_pol(us, arg)
    note.nt(len(us) > 2)
    assert len(out) == 2 and all(o is us[firsts.index(p)] for o, p in zip(out, need)), "wrong datasets"
    res = pstokes.construct_pstokes(out[0], out[1], pstokes=arg)
    judge(res, out[0], out[1], s, "avg", dsets.dsnap(out[0]))
    for u, sn in zip(us, snaps):
        uvps.same(dsets.dsnap(u), sn)


# ------------------------------------------------------------------------------------------------ files
@st.composite
def mcase(draw):
    d = draw(dsets.dspec(nd=2, nf=(2, 5), nt=(1, 4), max_bl=3, flags=draw(st.sampled_from(["none", "pix", "mix"])), wgts=False, autos=True))
    d.update(dtd=0.0, blorder="time", ns="one", dt=42.95, itime="const")
    d["pols"] = list(draw(st.sampled_from([("xx", "yy"), ("xx", "yy", "xy", "yx")])))
    return dict(d=d, s=draw(st.sampled_from([1, 2] if len(d["pols"]) == 2 else [1, 2, 3, 4])), which=draw(st.sampled_from(["both", "first", "second"])), sel=draw(st.sampled_from(["none", "none", "bls", "time", "ant_str", "ants", "pols"])),
                stype=draw(st.sampled_from(["int", "str"])))


def miriad(c, note):
    """miriad paths stand for the datasets they hold, with the requested baselines, times and polarizations only"""
    sp, s = c["d"], c["s"]
    with scratch() as tmp:
        us, paths = [], []
        for i in range(2):
            u = dsets.build_one(sp, i)
            u.vis_units, u.pol_convention = "Jy", None
            p = os.path.join(str(tmp), "d%d.uv" % i)
            u.write_miriad(p, clobber=True, run_check=False)
            us.append(u)
            paths.append(p)
        kw, sel = {}, {}
        bls = [tuple(x) for x in sp["bls"]]
        if c["sel"] == "bls":
            kw["bls"] = bls[:1]
            sel["bls"] = bls[:1]
        if c["sel"] == "time":
            t = np.unique(us[0].time_array)
            kw["time_range"] = [t[0] - 1e-4, t[0] + 1e-4]
        if c["sel"] == "ant_str":
            kw["ant_str"] = "cross"
        if c["sel"] == "ants":
            kw["antenna_nums"] = list(bls[0])
        if c["sel"] == "pols":
            kw["polarizations"] = [W[s][0], W[s][2]]
        read = [pstokes.miriad2pyuvdata(p, **(kw if c["which"] in ("both", w) else {})) for p, w in zip(paths, ("first", "second"))]
        # what was read is what was written, restricted
        r = read[0] if c["which"] != "second" else read[1]
        o = us[0] if c["which"] != "second" else us[1]
        m = np.ones(o.Nblts, bool)
        if c["sel"] == "bls":
            m = (o.ant_1_array == bls[0][0]) & (o.ant_2_array == bls[0][1])
        if c["sel"] == "time":
            m = np.abs(o.time_array - t[0]) < 1e-4
        if c["sel"] == "ant_str":
            m = o.ant_1_array != o.ant_2_array
        if c["sel"] == "ants":
            m = np.isin(o.ant_1_array, bls[0]) & np.isin(o.ant_2_array, bls[0])
        want = {(int(a), int(b), round(float(t), 6)) for a, b, t in zip(o.ant_1_array[m], o.ant_2_array[m], o.time_array[m])}
        have = {(int(a), int(b), round(float(t), 6)) for a, b, t in zip(r.ant_1_array, r.ant_2_array, r.time_array)}
        assert want == have, "baseline-times read"
        a1 = paths[0] if c["which"] in ("both", "first") else read[0]
        a2 = paths[1] if c["which"] in ("both", "second") else read[1]
        if c["which"] != "both" and c["sel"] not in ("none", "pols"):
            full = [x for x in (a1, a2) if not isinstance(x, str)][0]
            same = full.Nblts == r.Nblts
            if not same:
                note.label("refused")
                assert raises(lambda: pstokes.construct_pstokes(a1, a2, pstokes=s, **kw))
                return
        arg = s if c["stype"] == "int" else NAME[s]
        out = pstokes.construct_pstokes(a1, a2, pstokes=arg, **kw)
        note.nt()
        judge(out, read[0], read[1], s, "avg", dsets.dsnap(read[0]))
        note.label(c["which"], c["sel"])


# ------------------------------------------------------------------------------------------------ script
@st.composite
def scase(draw):
    d = draw(dsets.dspec(nd=1, nf=(2, 5), nt=(1, 3), max_bl=2, flags=draw(st.sampled_from(["none", "pix", "mix"])), wgts=False, autos=draw(st.booleans())))
    d.update(dtd=0.0, blorder="time")
    d["pols"] = list(draw(st.sampled_from([("xx", "yy"), ("xx", "yy", "xy", "yx"), ("yx", "xy", "yy", "xx")])))
    d["autos"] = d["autos"] and len(d["pols"]) == 2
    ok = [1, 2] if len(d["pols"]) == 2 else [1, 2, 3, 4]
    return dict(d=d, s=draw(st.one_of(st.none(), st.lists(st.sampled_from(ok), min_size=1, max_size=4, unique=True))), keep=draw(st.booleans()), inplace=draw(st.booleans()), conv=draw(st.sampled_from([None, "avg", "sum"])))


def script(c, note):
    """the pipeline script writes the requested pseudo-Stokes visibilities, with the original polarizations when asked to keep them"""
    from pyuvdata import UVData
    u = dsets.build_one(c["d"], 0)
    u.vis_units, u.pol_convention = "Jy", c["conv"]
    with scratch() as tmp:
        inp, outp = os.path.join(str(tmp), "in.uvh5"), os.path.join(str(tmp), "out.uvh5")
        u.write_uvh5(inp, clobber=True, run_check=False)
        argv = ["generate_pstokes_run.py", inp] + (["--pstokes"] + [NAME[s] for s in c["s"]] if c["s"] else []) + (["--clobber"] if c["inplace"] else ["--outputdata", outp]) + (["--keep_vispols"] if c["keep"] else [])
        old = sys.argv
        sys.argv = argv
        try:
            runpy.run_path(os.path.join(boot.REPO, "scripts", "generate_pstokes_run.py"), run_name="__main__")
        finally:
            sys.argv = old
        out = UVData()
        out.read(inp if c["inplace"] else outp)
        if not c["inplace"]:
            back = UVData()
            back.read(inp)
            assert np.array_equal(back.data_array, u.data_array) and list(back.polarization_array) == list(u.polarization_array), "input file changed"
    want = c["s"] or [1]
    note.nt(len(want) > 1 or c["keep"])
    note.label("keep" if c["keep"] else "drop", "default" if not c["s"] else "list")
    exp = set(want) | (set(u.polarization_array.tolist()) if c["keep"] else set())
    assert set(out.polarization_array.tolist()) == exp and out.Npols == len(exp), "polarizations in the output %s" % out.polarization_array
    key = {(int(a), int(b), float(t)): i for i, (a, b, t) in enumerate(zip(out.ant_1_array, out.ant_2_array, out.time_array))}
    rows = [key[(int(a), int(b), float(t))] for a, b, t in zip(u.ant_1_array, u.ant_2_array, u.time_array)]
    assert len(key) == u.Nblts == out.Nblts
    for k, p in enumerate(out.polarization_array):
        if p > 0:
            d, f, n = oracle(u, u, int(p), c["conv"] or "avg")
        else:
            j = list(u.polarization_array).index(p)
            d, f, n = u.data_array[:, :, j], u.flag_array[:, :, j], u.nsample_array[:, :, j]
        uvps.assert_close(out.data_array[rows][:, :, k], d, "data", 1e-5)
        assert np.array_equal(out.flag_array[rows][:, :, k], f), "flags"
        uvps.assert_close(out.nsample_array[rows][:, :, k], n, "nsamples", 1e-5)


LAWS = [
    Law("combine", dcase(), combine, quick=240, thorough=8000, shards=3),
    Law("arrays", acase(), arrays, quick=100, thorough=5000),
    Law("filter", fcase(), filt, quick=120, thorough=3000),
    Law("miriad", mcase(), miriad, quick=60, thorough=1500, shards=2),
    Law("script", scase(), script, quick=60, thorough=1500, shards=2),
]
