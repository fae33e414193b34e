"""C19: baseline pairing and redundancy grouping."""
import copy
import itertools
import os
import shutil
import warnings

import numpy as np
from hypothesis import strategies as st

from hera_pspec import utils
from pv import dsets, uvps
from pv.core import Law, Skip
from pv.scratch import scratch
from pv.uvps import raises

RULE = ("Cases are generated antenna layouts (jittered lattices with arbitrary antenna numbers and heights), flag patterns, filters and pairing options; non-trivial when at least one redundant group has two or more "
        "baselines (grouping laws), when a filter removed something, or when a request had to be refused.")
ASSUMPTIONS = ["antenna layouts are lattices whose distinct baseline vectors differ by several tolerances and whose position errors are a small fraction of it (clear-cut redundancy)",
               "length and angle cuts lie at least 0.5 m / 1.5 degrees away from the groups they separate; East-West angles count as 0",
               "with exclude_permutations, a pair whose two orders are not both available in the two datasets may be left out (combinations are formed before the data are consulted)"]

warnings.simplefilter("ignore")


# ------------------------------------------------------------------------------------------------ construct_blpairs
@st.composite
def pcase(draw):
    n = draw(st.integers(1, 6))
    bl = st.tuples(st.integers(0, 5), st.integers(0, 5)).map(list)
    return dict(bls=draw(st.lists(bl, min_size=n, max_size=n, unique_by=tuple)), xa=draw(st.booleans()), xc=draw(st.booleans()), xp=draw(st.booleans()), group=draw(st.booleans()), n=draw(st.integers(1, 7)))


def pairs(c, note):
    """the pairs are exactly the requested permutations, combinations and autos, each once, and grouping preserves them and their order"""
    bls = [tuple(x) for x in c["bls"]]
    keep = list(bls)
    kw = dict(exclude_auto_bls=c["xa"], exclude_cross_bls=c["xc"], exclude_permutations=c["xp"])
    if c["xa"] and c["xc"]:
        note.nt()
        assert raises(lambda: utils.construct_blpairs(bls, **kw)), "excluding everything was accepted"
        return
    b1, b2, bp = utils.construct_blpairs(bls, **kw)
    assert bls == keep, "the list of baselines was changed"
    assert list(zip(b1, b2)) == [tuple(x) for x in bp], "baseline lists and pairs disagree"
    have = [tuple(x) for x in bp]
    assert len(set(have)) == len(have), "repeated pair"
    auto = set() if c["xa"] else {(b, b) for b in bls}
    idx = {b: i for i, b in enumerate(bls)}
    cross = set() if c["xc"] else {(a, b) for a in bls for b in bls if a != b}
    if c["xp"]:
        cross = {p for p in cross if idx[p[0]] < idx[p[1]]}
        # either order of a combination will do
        assert {frozenset(p) for p in have if p[0] != p[1]} == {frozenset(p) for p in cross} and sum(p[0] != p[1] for p in have) == len(cross)
        assert {p for p in have if p[0] == p[1]} == auto
    else:
        assert set(have) == auto | cross, "pairs"
    note.nt(len(have) > 1)
    if c["group"]:
        g1, g2, gp = utils.construct_blpairs(bls, group=True, Nblps_per_group=c["n"], **kw)
        assert [x for g in gp for x in g] == bp and [x for g in g1 for x in g] == b1 and [x for g in g2 for x in g] == b2, "grouping changed the pairs"
        assert [len(x) for x in g1] == [len(x) for x in g2] == [len(x) for x in gp]
        assert all(len(x) == c["n"] for x in gp[:-1]) and all(1 <= len(x) <= c["n"] for x in gp[-1:]), "group sizes"


# ------------------------------------------------------------------------------------------------ layouts
@st.composite
def layout(draw, nmin=2, nmax=7):
    n = draw(st.integers(nmin, nmax))
    kind = draw(st.sampled_from(["square", "hex", "line", "rot"]))
    nums = draw(st.lists(st.one_of(st.integers(0, 12), st.integers(0, 340)), min_size=n, max_size=n, unique=True))
    cells = draw(st.lists(st.tuples(st.integers(0, 3), st.integers(0, 0 if kind == "line" else 2)), min_size=n, max_size=n, unique=True)) if not (kind == "line" and n > 4) else [(i, 0) for i in range(n)]
    return dict(kind=kind, nums=nums, cells=[list(x) for x in cells], high=draw(st.sampled_from([0, 0, 1])), jit=draw(st.sampled_from([0.0, 0.02, 0.02])), seed=draw(st.integers(0, 999)), tol=draw(st.sampled_from([1.0, 0.5, 2.0])), sx=draw(st.sampled_from([1, -1])))


def positions(lay):
    pos = {}
    r = uvps.rng_of(lay["seed"], 2)
    for a, (i, j) in zip(lay["nums"], lay["cells"]):
        x, y = {"square": (14.6 * i, 14.6 * j), "line": (14.6 * i, 0.0), "hex": (14.6 * i + 7.3 * j, 12.644 * j), "rot": (11.0 * i - 8.3 * j, 9.0 * i + 11.7 * j)}[lay["kind"]]
        z = 12.0 * ((i + j) % 2) if lay["high"] else 0.0
        pos[a] = np.array([lay["sx"] * x, y, z]) + lay["jit"] * lay["tol"] * r.uniform(-1, 1, 3)
    return pos


def classes(pos, tol):
    """brute-force redundant classes of unordered baselines: list of (representative vector, {frozenset: oriented (i, j) with pos_i - pos_j near the representative})"""
    out = []
    for a, b in itertools.combinations(sorted(pos), 2):
        v = pos[a] - pos[b]
        for rep, members in out:
            if np.all(np.abs(v - rep) < tol):
                members[frozenset((a, b))] = (a, b)
                break
            if np.all(np.abs(v + rep) < tol):
                members[frozenset((a, b))] = (b, a)
                break
        else:
            out.append((v, {frozenset((a, b)): (a, b)}))
    return out


def angle(v, tol):
    """angle East to North modulo 180 degrees, East-West as 0"""
    a = np.degrees(np.arctan2(v[1], v[0])) % 180.0
    return 0.0 if abs(v[1]) < tol and min(a, 180 - a) < 60 else a


def dang(a, b):
    d = abs(a - b) % 180.0
    return min(d, 180 - d)


@st.composite
def filters(draw):
    ln = draw(st.sampled_from([None, None, [0, 20.0], [10.0, 40.0], [0, 28.0], [18.0, 1e4], [100.0, 200.0]]))
    dg = draw(st.sampled_from([None, None, [0, 50.0], [20.0, 100.0], [0, 5.0], [5.0, 180], [100.0, 180]]))
    return dict(len=ln, deg=dg, ew=draw(st.sampled_from([0, 0, 0, 5.0, 17.0, 25.0])), xants=draw(st.one_of(st.none(), st.lists(st.integers(0, 6), max_size=2, unique=True))), xother=draw(st.booleans()))


def wanted(lay, pos, cls, f, ew=True):
    """classes surviving the filters; None for a class too close to a cut"""
    tol = lay["tol"]
    res = []
    for rep, mem in cls:
        ln, an = np.linalg.norm(rep), angle(rep, tol)
        ok = True
        for r, v, m in ((f["len"], ln, 0.5), (f["deg"], an, 1.5)):
            if r is None:
                continue
            for e in r:
                if abs(v - e) < m and not (m == 1.5 and ((e == 0 and an == 0) or e == 0)):
                    raise Skip("on a cut")
            ok = ok and (r[0] <= v <= r[1])
        if ew and f["ew"]:
            if abs(abs(rep[0]) - f["ew"]) < 0.5:
                raise Skip("on a cut")
            ok = ok and abs(rep[0]) > f["ew"]
        res.append(ok)
    return res


def xlist(lay, f):
    if f["xants"] is None:
        return None
    return [lay["nums"][i % len(lay["nums"])] for i in f["xants"]] + ([999] if f["xother"] else [])


# ------------------------------------------------------------------------------------------------ get_reds
@st.composite
def rcase(draw):
    return dict(lay=draw(layout()), f=draw(filters()), src=draw(st.sampled_from(["dict", "dict", "dict", "dict", "uvd", "path"])), data=draw(st.booleans()), autos=draw(st.sampled_from(["no", "no", "add", "only", "onlyno"])), drop=draw(st.integers(0, 3)), vec2=draw(st.booleans()))


def uvd_of(lay, pos, antpairs, seed, flags=None, times=2, nf=3):
    """a UVData holding the given baselines for an array with these antenna positions"""
    from pyuvdata import Telescope, UVData
    from pyuvdata.utils import ECEF_from_ENU
    loc = dsets._template("grid").telescope.location
    ants = sorted(pos)
    ecef = ECEF_from_ENU(np.array([pos[a] for a in ants]), center_loc=loc) - np.array([loc.x.value, loc.y.value, loc.z.value])
    tel = Telescope.new(name="HERA", location=loc, antenna_positions=dict(zip(ants, ecef)), antenna_diameters=14.0 * np.ones(len(ants)), instrument="generated", x_orientation="east", feeds=["x", "y"],
                        mount_type="fixed")
    u = UVData.new(freq_array=100e6 + 1e6 * np.arange(nf), polarization_array=np.array([-5]), times=2458116.3 + np.arange(times) * 1e-4, telescope=tel, antpairs=antpairs, do_blt_outer=True, integration_time=10.7,
                   channel_width=1e6, empty=True, vis_units="Jy")
    r = uvps.rng_of(seed, 3)
    u.data_array = r.normal(size=u.data_array.shape) + 0j
    u.flag_array = np.zeros(u.data_array.shape, bool)
    u.nsample_array = np.ones(u.data_array.shape, np.float32)
    return u


def judge_groups(reds, lens, angs, exp, pos, tol, autoset, lay):
    """reds are exactly the expected classes (sets of unordered baselines), consistently oriented, with their length and angle"""
    assert len(reds) == len(lens) == len(angs)
    got = [{frozenset(bl) for bl in g} for g in reds]
    assert all(len(s) == len(g) for s, g in zip(got, reds)), "baseline repeated in a group"
    want = [set(m) for m in exp] + ([{frozenset((a,)) for a in autoset}] if autoset else [])
    assert sorted(map(sorted, [[sorted(x) for x in g] for g in got])) == sorted(map(sorted, [[sorted(x) for x in g] for g in want])), "groups %s, expected %s" % (reds, want)
    for g, ln, an in zip(reds, lens, angs):
        vs = np.array([pos[a] - pos[b] for a, b in g])
        assert np.all(np.abs(vs - vs[0]) < tol), "orientations differ within a group"
        assert np.all(np.abs(np.linalg.norm(vs, axis=1) - ln) < tol), "length %s of %s" % (ln, g)
        if len(g[0]) == 2 and g[0][0] != g[0][1]:
            if np.hypot(*vs[0][:2]) > 5:
                assert dang(an, angle(vs[0], tol)) < 0.6, "angle %s of %s" % (an, g)
            assert 0 <= an <= 180
        else:
            assert ln == 0


def reds(c, note):
    """the groups partition exactly the baselines the filters keep, by vector, with the group's length and angle"""
    lay = c["lay"]
    pos = positions(lay)
    tol = lay["tol"]
    f = c["f"]
    kw = dict(bl_error_tol=tol)
    if f["len"]:
        kw["bl_len_range"] = tuple(f["len"])
    if f["deg"]:
        kw["bl_deg_range"] = tuple(f["deg"])
    if f["ew"]:
        kw["min_EW_cut"] = f["ew"]
    xants = xlist(lay, f)
    if xants is not None:
        kw["xants"] = xants
    if c["autos"] in ("add", "only"):
        kw["add_autos"] = True
    if c["autos"] in ("only", "onlyno"):
        kw["autos_only"] = True
    ants = sorted(pos)
    use = set(ants)
    if c["src"] == "dict":
        arg = {a: pos[a] for a in lay["nums"]}
        out = utils.get_reds(arg, **kw)
        assert set(arg) == set(pos) and all(np.array_equal(arg[a], pos[a]) for a in pos)
    else:
        present = ants[c["drop"]:] if len(ants) - c["drop"] >= 2 else ants
        u = uvd_of(lay, pos, list(itertools.combinations(present, 2)), lay["seed"])
        if c["data"]:
            kw["pick_data_ants"] = True
            use = set(present)
        if c["src"] == "uvd":
            out = utils.get_reds(u, **kw)
        else:
            with scratch() as tmp:
                p = os.path.join(tmp, "a.uvh5")
                u.write_uvh5(p)
                out = utils.get_reds(p, file_type="uvh5", **kw)
    pos = {a: pos[a] for a in use}
    cls = classes(pos, tol)
    ok = wanted(lay, pos, cls, f)
    bad = set(xants or [])
    exp = [] if "only" in c["autos"] else [m for m in ({k for k in mem if not k & bad} for (_, mem), o in zip(cls, ok) if o) if m]
    autoset = (use - bad) if c["autos"] in ("add", "only") else set()
    judge_groups(out[0], out[1], out[2], exp, pos, tol, autoset, lay)
    note.nt(any(len(m) > 1 for m in exp) or not all(ok) or c["autos"] != "no")
    note.label(c["src"], c["autos"])


# ------------------------------------------------------------------------------------------------ calc_blpair_reds
@st.composite
def bcase(draw):
    lay = draw(layout(nmin=3, nmax=7))
    return dict(lay=lay, f=draw(filters()), filt=draw(st.sampled_from([True, True, True, False])), xa=draw(st.booleans()), xc=draw(st.sampled_from([False, False, True])), xp=draw(st.booleans()), n=draw(st.sampled_from([None, None, 1, 2, 3, 5])),
                acorr=draw(st.sampled_from([False, False, True])), ccorr=draw(st.sampled_from([True, True, True, False])), extra=draw(st.booleans()), same=draw(st.sampled_from([True, False])), dens=draw(st.sampled_from([1.0, 1.0, 0.7])),
                thresh=draw(st.sampled_from([0.95, 0.95, 0.5, 0.2])), fseed=draw(st.integers(0, 99)), fdens=draw(st.sampled_from([0.0, 0.0, 0.3, 0.7])), shift=draw(st.sampled_from([0, 0, 0, 0, 1])))


def bad_ants(u, thresh, acorr, ccorr):
    good = set()
    for a, b in set(zip(u.ant_1_array.tolist(), u.ant_2_array.tolist())):
        if (a == b and not acorr) or (a != b and not ccorr):
            continue
        m = (u.ant_1_array == a) & (u.ant_2_array == b)
        f = u.flag_array[m]
        if f.sum() < f.size * thresh:
            good |= {a, b}
    return sorted(set(u.telescope.antenna_numbers.tolist()) - good)


def blpair_reds(c, note):
    """pairs are exactly the requested pairs of redundant baselines of unflagged antennas that the two datasets hold, grouped within redundant groups"""
    lay, f = c["lay"], c["f"]
    pos, tol = positions(lay), lay["tol"]
    ants = sorted(pos)
    r = uvps.rng_of(c["fseed"], 5)
    us = []
    for i in range(1 if c["same"] else 2):
        prs = [p for p in list(itertools.combinations(ants, 2)) + [(a, a) for a in ants] if r.random() < c["dens"]] or [(ants[0], ants[1])]
        prs = [p if r.random() < 0.8 else p[::-1] for p in prs]
        p2 = dict(pos)
        if c["shift"] and i == 1:
            p2[ants[-1]] = p2[ants[-1]] + np.array([3 * tol, 0, 0])
        u = uvd_of(lay, p2, prs, c["fseed"] + i)
        for p in prs:
            m = (u.ant_1_array == p[0]) & (u.ant_2_array == p[1])
            if r.random() < c["fdens"]:
                u.flag_array[m] = True
            elif r.random() < 0.3:
                u.flag_array[m] = r.random(u.flag_array[m].shape) < 0.4
        us.append(u)
    u1, u2 = us[0], us[-1]
    snaps = [dsets.dsnap(u) for u in (u1, u2)]
    xants = xlist(lay, f)
    xkeep = None if xants is None else list(xants)
    kw = dict(bl_tol=tol, filter_blpairs=c["filt"], xant_flag_thresh=c["thresh"], exclude_auto_bls=c["xa"], exclude_cross_bls=c["xc"], exclude_permutations=c["xp"], include_autocorrs=c["acorr"], include_crosscorrs=c["ccorr"])
    if f["len"]:
        kw["bl_len_range"] = tuple(f["len"])
    if f["deg"]:
        kw["bl_deg_range"] = tuple(f["deg"])
    if xants is not None:
        kw["xants"] = xants
    call = lambda **k: utils.calc_blpair_reds(u1, u2, **dict(kw, **k))  # noqa: E731
    if c["shift"] and not c["same"]:
        note.nt()
        assert raises(call), "arrays with different antenna positions were paired"
        return
    if c["xa"] and c["xc"]:
        cls = classes(pos, tol)
        try:
            out = call()
        except Exception:  # noqa: BLE001 - refused
            return
        assert out[0] == out[1] == out[2] == []
        return
    out = call(extra_info=True)
    assert xants == xkeep, "xants list changed"
    for u, s in zip((u1, u2), snaps):
        uvps.same(dsets.dsnap(u), s)
    b1, b2, bp, x1, x2, rg, lens, angs = out
    if not c["extra"]:
        o2 = call()
        assert len(o2) == 5 and all(list(a) == list(b) for a, b in zip(o2, out))
    ex = [bad_ants(u, c["thresh"], c["acorr"], c["ccorr"]) if c["filt"] else [] for u in (u1, u2)]
    add = list(xants or [])
    assert list(x1) == ex[0] + add and list(x2) == ex[1] + add, "excluded antennas %s %s, expected %s %s" % (x1, x2, ex[0] + add, ex[1] + add)
    bad = set(x1) | set(x2)
    cls = classes(pos, tol)
    ok = wanted(lay, pos, cls, dict(f, ew=0), ew=False)
    groups = [{k: v for k, v in mem.items() if not k & bad} for (_, mem), o in zip(cls, ok) if o] if c["ccorr"] else []
    groups = [g for g in groups if g]
    if c["acorr"]:
        groups.append({frozenset((a,)): (a, a) for a in ants if a not in bad})
    held = [{frozenset(p) for p in zip(u.ant_1_array.tolist(), u.ant_2_array.tolist())} for u in (u1, u2)]
    cls_of = {k: i for i, g in enumerate(groups) for k in g}
    # lists
    if c["n"]:
        g1, g2, gp, x1b, x2b, grg, glens, gangs = call(extra_info=True, Nblps_per_group=c["n"])
        flat = lambda x: [z for y in x for z in y]  # noqa: E731
        assert (flat(g1), flat(g2), flat(gp), flat(grg)) == (b1, b2, bp, rg), "grouping changed the pairs"
        assert [len(x) for x in g1] == [len(x) for x in g2] == [len(x) for x in gp] == [len(x) for x in grg]
        byred = {}
        for g in grg:
            assert len(g) >= 1 and len(set(g)) == 1, "group mixes redundant groups"
            byred.setdefault(g[0], []).append(len(g))
        assert all(all(n == c["n"] for n in ns[:-1]) and 1 <= ns[-1] <= c["n"] for ns in byred.values()), "group sizes"
    assert [tuple(x) for x in bp] == list(zip(b1, b2)) and len(rg) == len(bp)
    have = [(frozenset(p), frozenset(q)) for p, q in bp]
    assert len(set(have)) == len(have), "repeated pair"
    red2cls = {}
    for (p, q), k in zip(bp, rg):
        fp, fq = frozenset(p), frozenset(q)
        assert fp in cls_of and fq in cls_of, "baseline %s or %s was excluded" % (p, q)
        assert cls_of[fp] == cls_of[fq], "pair %s %s is not redundant" % (p, q)
        assert red2cls.setdefault(k, cls_of[fp]) == cls_of[fp]
        vp, vq = pos[p[0]] - pos[p[1]], pos[q[0]] - pos[q[1]]
        assert np.all(np.abs(vp - vq) < tol), "orientation of %s %s" % (p, q)
        assert abs(np.linalg.norm(vp) - lens[k]) < tol, "length"
        if np.hypot(*vp[:2]) > 5:
            assert dang(angs[k], angle(vp, tol)) < 0.6, "angle"
    assert len(set(red2cls.values())) == len(red2cls), "one redundant group under two indices"
    valid = lambda p, q: not c["filt"] or (p in held[0] and q in held[1])  # noqa: E731
    hs = set(have)
    n = 0
    for g in groups:
        for p in g:
            for q in g:
                if p == q:
                    w = not c["xa"] and valid(p, p)
                    assert ((p, p) in hs) == w, "auto pair %s" % sorted(p)
                elif c["xc"]:
                    assert (p, q) not in hs
                elif not c["xp"]:
                    assert ((p, q) in hs) == valid(p, q), "pair %s %s" % (sorted(p), sorted(q))
                else:
                    k = ((p, q) in hs) + ((q, p) in hs)
                    v = valid(p, q) + valid(q, p)
                    assert k <= 1 and (k == 1 or v < 2), "combination of %s and %s appears %d times" % (sorted(p), sorted(q), k)
                    assert not ((p, q) in hs and not valid(p, q)), "pair not in the data"
                    n += k
    note.nt(bool(have) and (any(len(g) > 1 for g in groups) or bad))
    note.label("pairs" if have else "none", "filt" if c["filt"] else "all")


# ------------------------------------------------------------------------------------------------ lens and angles
@st.composite
def acase(draw):
    x = st.one_of(st.sampled_from([0.0, -0.0, 14.6, -14.6, 0.001, -0.001, 300.0, -300.0, 0.4, -0.4, 2.5, -2.5]), st.floats(-200, 200, allow_subnormal=False))
    return dict(v=draw(st.lists(st.tuples(x, x, x).map(list), min_size=1, max_size=8)), tol=draw(st.sampled_from([1.0, 0.3, 3.0])), d=draw(st.sampled_from([2, 3])), kind=draw(st.sampled_from(["list", "array"])))


def lens_angs(c, note):
    """lengths are norms; angles are those of the East-North vector modulo 180 degrees, the same for a vector and its reverse, with East-West vectors (within tolerance) at 0"""
    vs = [np.array(v[:c["d"]], float) for v in c["v"]]
    vs = [v for v in vs if np.hypot(*v[:2]) > 4 * c["tol"]]
    if not vs:
        return
    note.nt()
    mk = (lambda x: np.array(x)) if c["kind"] == "array" else list
    ln, an = utils.get_bl_lens_angs(mk(vs), bl_error_tol=c["tol"])
    lr, ar = utils.get_bl_lens_angs(mk([-v for v in vs]), bl_error_tol=c["tol"])
    assert len(ln) == len(an) == len(vs)
    for v, l1, a1, l2, a2 in zip(vs, ln, an, lr, ar):
        assert np.isclose(l1, np.sqrt(np.sum(v ** 2)), rtol=1e-9) and l1 == l2
        t = np.degrees(np.arctan2(v[1], v[0]))
        width = np.degrees(np.arcsin(min(1, c["tol"] / np.hypot(*v[:2]))))
        assert 0 <= a1 <= 180 and 0 <= a2 <= 180
        assert dang(a1, t) < 1e-6 or (abs(v[1]) <= c["tol"] and a1 == 0 and dang(0, t) <= width + 1e-6), "angle %s of %s" % (a1, v)
        if abs(abs(v[1]) - c["tol"]) > 1e-9:
            assert abs(a1 - a2) < 1e-9, "angle of %s is %s, of its reverse %s" % (v, a1, a2)


# ------------------------------------------------------------------------------------------------ get_blvec_reds
@st.composite
def vcase(draw):
    return dict(kind=draw(st.sampled_from(["dict", "uvp"])), nd=draw(st.sampled_from([2, 3])), n=draw(st.integers(1, 8)), seed=draw(st.integers(0, 9999)), tol=draw(st.sampled_from([1.0, 0.5])), lens=draw(st.booleans()), scale=draw(st.sampled_from([1, 1, 10, 40])),
                sp=draw(uvps.spec(max_spw=1, max_t=1, max_pol=1, cov=False, stats=[], wf="none", max_blp=4)))


def cluster_vecs(n, seed, scale, tol):
    """n planar vectors out of a few clear-cut classes with small jitter"""
    r = uvps.rng_of(seed, 4)
    base = np.array([[14.6, 0], [0, 14.6], [29.2, 0], [7.3, 12.64], [-7.3, 12.64], [14.6, -14.6], [-14.6, 0], [43.8, 14.6], [20.0, 25.0], [-29.2, 3.0], [25.0, -20.0]]) * scale
    pick = r.permutation(len(base))[: r.integers(1, 6)]
    k = pick[r.integers(0, len(pick), n)]
    return k, base, base[k] + r.uniform(-1, 1, (n, 2)) * 0.05 * tol


def blvec_reds(c, note):
    """groups collect exactly the keys whose East-North vectors (or lengths) agree, in order of increasing length, labelled with their length and angle"""
    tol = c["tol"]
    if c["kind"] == "dict":
        k, base, v = cluster_vecs(c["n"], c["seed"], c["scale"], tol)
        r = uvps.rng_of(c["seed"], 6)
        keys = [(int(i), 100 + int(i)) for i in r.permutation(c["n"])]
        arg = {key: np.append(x, r.uniform(-0.4, 0.4)) if c["nd"] == 3 else x.copy() for key, x in zip(keys, v)}
        vec = {key: np.asarray(x)[:2] for key, x in arg.items()}
    else:
        u = uvps.build(c["sp"])
        k, base, v = cluster_vecs(len(u.bl_array), c["seed"], c["scale"], 0.2 * tol)
        r = uvps.rng_of(c["seed"], 6)
        u.bl_vecs = uvps.enu2ecef(np.hstack([v, r.uniform(-0.4, 0.4, (len(v), 1))]))
        bv = dict(zip([u.bl_to_antnums(b) for b in u.bl_array], v))
        vec = {bp: (bv[bp[0]] + bv[bp[1]]) / 2 for bp in u.get_blpairs()}
        arg = u
    before = uvps.snap(arg) if c["kind"] == "uvp" else copy.deepcopy(arg)
    # clear-cut only
    same = {}
    for a, b in itertools.combinations(vec, 2):
        if c["lens"]:
            d = abs(np.linalg.norm(vec[a]) - np.linalg.norm(vec[b]))
        else:
            d = np.max(np.abs(vec[a] - vec[b]))
        if 0.3 * tol < d < 3 * tol:
            raise Skip("close lengths")
        same[(a, b)] = d < tol
    g, ln, an, tag = utils.get_blvec_reds(arg, bl_error_tol=tol, match_bl_lens=c["lens"])
    assert len(g) == len(ln) == len(an) == len(tag)
    flat = [x for y in g for x in y]
    assert sorted(flat) == sorted(vec) and len(flat) == len(vec), "groups do not partition the keys"
    where = {x: i for i, y in enumerate(g) for x in y}
    for (a, b), s in same.items():
        assert (where[a] == where[b]) == s, "%s and %s" % (a, b)
    for i, y in enumerate(g):
        w = ln[i] * np.array([np.cos(np.radians(an[i])), np.sin(np.radians(an[i]))])
        assert any(np.allclose(w, vec[x], rtol=0, atol=1e-5) or np.allclose(w, -vec[x], rtol=0, atol=1e-5) for x in y), "length and angle of group %d" % i
        assert tag[i] == "%03.0f_%03.0f" % (ln[i], an[i]), "tag"
    assert all(ln[i] <= ln[i + 1] + 1.0 for i in range(len(ln) - 1)), "groups are not in order of length: %s" % ln
    note.nt(any(same.values()) or len(g) > 1)
    if c["kind"] == "uvp":
        uvps.same(uvps.snap(u), before)
    else:
        assert list(arg) == list(before) and all(np.array_equal(arg[x], before[x]) for x in arg)


# ------------------------------------------------------------------------------------------------ UVPSpec groups
@st.composite
def ucase(draw):
    return dict(sp=draw(uvps.spec(max_spw=1, max_t=2, max_pol=1, cov=False, stats=[], wf="none")), seed=draw(st.integers(0, 9999)), ltol=draw(st.sampled_from([None, 1.0, 0.5, 3.0])), atol=draw(st.sampled_from([None, 1.0, 4.0])), scale=draw(st.sampled_from([1, 1, 20])), flip=draw(st.booleans()))


def uvp_reds(c, note):
    """baselines (and pairs inside one group) of a UVPSpec are partitioned by length and angle modulo 180 degrees, with the group's average length and angle"""
    u = uvps.build(c["sp"])
    r = uvps.rng_of(c["seed"], 8)
    n = len(u.bl_array)
    lt, at = c["ltol"] or 1.0, c["atol"] or 1.0
    base = np.array([[14.6, 0.0], [0, 14.6], [29.2, 0], [7.3, 12.64], [43.8, 14.6], [-29.2, 6.0], [-350.0, 3.5]]) * c["scale"]
    v = base[r.permutation(len(base))[: r.integers(1, 5)]]
    v = v[r.integers(0, len(v), n)] + r.uniform(-1, 1, (n, 2)) * 0.1 * min(lt, 14.6 * c["scale"] * np.radians(at))
    if c["flip"]:
        v = v * r.choice([-1, 1], (n, 1))
    vec = np.hstack([v, r.uniform(-0.05, 0.05, (n, 1))])
    u.bl_vecs = uvps.enu2ecef(vec)
    before = uvps.snap(u)
    kw = {}
    if c["ltol"]:
        kw["bl_len_tol"] = c["ltol"]
    if c["atol"]:
        kw["bl_ang_tol"] = c["atol"]
    g, ln, an = u.get_red_bls(**kw)
    gp, lp, ap = u.get_red_blpairs(**kw)
    uvps.same(uvps.snap(u), before)
    bls = [int(b) for b in u.bl_array]
    L = dict(zip(bls, np.linalg.norm(vec, axis=1)))
    A = dict(zip(bls, np.degrees(np.arctan2(v[:, 1], v[:, 0])) % 180))
    flat = [int(b) for y in g for b in y]
    assert sorted(flat) == sorted(bls), "groups do not partition the baselines"
    where = {int(b): i for i, y in enumerate(g) for b in y}
    for a, b in itertools.combinations(bls, 2):
        # jitter is 0.1 of the tolerances, classes are many tolerances apart
        same = abs(L[a] - L[b]) < 0.6 * lt and dang(A[a], A[b]) < 0.6 * at
        if not same and abs(L[a] - L[b]) < 1.5 * lt and dang(A[a], A[b]) < 2.5 * at:
            raise Skip("close")
        assert (where[a] == where[b]) == same, "baselines %s %s: lengths %s %s angles %s %s" % (a, b, L[a], L[b], A[a], A[b])
    for y, x1, x2 in zip(g, ln, an):
        ls = [L[int(b)] for b in y]
        assert abs(x1 - np.mean(ls)) < 1e-6, "length"
        assert all(dang(x2, A[int(b)]) < at for b in y), "angle"
        if all(abs(v[bls.index(int(b)), 1]) > 1.01 * lt for b in y):
            # (the angle of baselines within the tolerance of east-west may be taken as zero)
            d = [(A[int(b)] - A[int(y[0])] + 90) % 180 - 90 for b in y]
            assert 0 <= x2 < 180 and dang(x2, A[int(y[0])] + np.mean(d)) < 1e-6, "average angle %s of %s" % (x2, [A[int(b)] for b in y])
    assert len(gp) == len(lp) == len(ap) == len(g)
    assert np.allclose(lp, ln) and np.allclose(ap, an)
    bps = [(int(u.antnums_to_bl(p[0])), int(u.antnums_to_bl(p[1])), int(u.antnums_to_blpair(p))) for p in u.get_blpairs()]
    for i in range(len(g)):
        want = sorted(k for a, b, k in bps if where[a] == where[b] == i)
        assert sorted(int(x) for x in gp[i]) == want, "pairs of group %d" % i
    note.nt(any(len(y) > 1 for y in g))


# ------------------------------------------------------------------------------------------------ config_pspec_blpairs
@st.composite
def gcase(draw):
    lay = draw(layout(nmin=2, nmax=5))
    f = draw(filters())
    if draw(st.booleans()):
        # a compact redundant array with one bad antenna and no other cut
        n = draw(st.integers(4, 5))
        lay = dict(lay, kind="line" if n == 5 else "square", nums=(lay["nums"] + [x for x in range(400, 410)])[:n], cells=[[i, 0] for i in range(n)] if n == 5 else [[0, 0], [1, 0], [0, 1], [1, 1]], high=0)
        f = dict(f, len=None, deg=None, xants=[draw(st.integers(0, n - 1))])
    P, G = ["xx", "yy", "xy"], ["even", "odd", "third"]
    files = draw(st.lists(st.tuples(st.sampled_from(G), st.sampled_from(P), st.sampled_from(["1.2", "1.3"])).map(list), min_size=1, max_size=6, unique_by=tuple))
    n = draw(st.integers(1, 4))
    pick = st.tuples(st.sampled_from(P), st.sampled_from(P)).map(list)
    pickg = st.tuples(st.sampled_from(G), st.sampled_from(G)).map(list)
    if draw(st.sampled_from([True, True, True, False])):
        # requests for what exists
        pols, grps = [], []
        for _ in range(n):
            a, b = draw(st.sampled_from(files)), draw(st.sampled_from(files))
            pols.append([a[1], b[1]])
            grps.append([a[0], b[0]])
        pick, pickg = st.just(pols), st.just(grps)
    else:
        pick, pickg = st.lists(pick, min_size=n, max_size=n), st.lists(pickg, min_size=n, max_size=n)
    return dict(lay=lay, f=f, files=files, pols=draw(pick), grps=draw(pickg), xa=draw(st.booleans()), xp=draw(st.booleans()), acorr=draw(st.booleans()),
                pat=draw(st.sampled_from([None, None, None, ["1.2"], [".yy."], ["even"], ["nothing"], ["1.2", "odd"]])), star=draw(st.sampled_from([True, True, False])), tlist=draw(st.booleans()), bad=draw(st.sampled_from([False] * 7 + [True])))


def config(c, note):
    """every requested group and polarization pair with files gets the array's pairs of redundant baselines that pass the filters; pairs without files are absent"""
    lay, f = c["lay"], c["f"]
    pos, tol = positions(lay), 1.0
    lay = dict(lay, tol=1.0)
    if c["lay"]["tol"] != 1.0:
        pos = positions(lay)
    u = uvd_of(lay, pos, [(sorted(pos)[0], sorted(pos)[1])], 1)
    kw = dict(exclude_auto_bls=c["xa"], exclude_permutations=c["xp"], include_autocorrs=c["acorr"], file_type="uvh5", verbose=False)
    if f["len"]:
        kw["bl_len_range"] = tuple(f["len"])
    if f["deg"]:
        kw["bl_deg_range"] = tuple(f["deg"])
    xants = xlist(lay, f)
    if xants is not None:
        kw["xants"] = xants
    if c["pat"]:
        kw["exclude_patterns"] = list(c["pat"])
    with scratch() as tmp:
        base = os.path.join(tmp, "x.uvh5")
        u.write_uvh5(base)
        for g, p, t in c["files"]:
            shutil.copy(base, os.path.join(tmp, "zen.%s.LST.%s.%s.HH.h5" % (g, t, p)))
        tm = [os.path.join(tmp, "zen.{group}.LST.%s.{pol}.HH.h5" % t) for t in (["*"] if c["star"] else ["1.2", "1.3"])]
        if c["star"] and not c["tlist"]:
            tm = tm[0]
        pp, gp = [tuple(x) for x in c["pols"]], [tuple(x) for x in c["grps"]]
        if c["bad"]:
            note.nt()
            assert raises(lambda: utils.config_pspec_blpairs(tm, pp, gp + [("even", "odd")], **kw))
            return
        pols, grps = {x for y in pp for x in y}, {x for y in gp for x in y}
        left = [(g, p) for g, p, t in c["files"] if g in grps and p in pols and not any(x in "zen.%s.LST.%s.%s.HH.h5" % (g, t, p) for x in (c["pat"] or []))]
        if any(x in tmp for x in (c["pat"] or [])):
            raise Skip("scratch name")
        if not left:
            note.label("no files")
            if not c["pat"]:
                raise Skip("no files")  # not claimed
            out = utils.config_pspec_blpairs(tm, pp, gp, **kw) if [1 for g, p, t in c["files"] if g in grps and p in pols] else {}
            assert len(out) == 0, "groups without files"
            return
        out = utils.config_pspec_blpairs(tm, pp, gp, **kw)
    want = {(g, p) for g, p in zip(gp, pp) if (g[0], p[0]) in left and (g[1], p[1]) in left}
    assert set(out) == want, "group and polarization pairs %s, expected %s" % (set(out), want)
    bad = set(xants or [])
    cls = classes(pos, tol)
    ok = wanted(lay, pos, cls, f, ew=False)
    groups = [{k for k in mem if not k & bad} for (_, mem), o in zip(cls, ok) if o] + ([{frozenset((a,)) for a in pos if a not in bad}] if c["acorr"] else [])
    exp = set()
    for g in groups:
        for a in g:
            for b in g:
                if a == b and not c["xa"] or a != b:
                    exp.add((a, b))
    for bps in out.values():
        have = [(frozenset(a), frozenset(b)) for a, b in bps]
        assert len(set(have)) == len(have)
        if c["xp"]:
            assert len([1 for a, b in have if a != b and (b, a) in have]) == 0
            assert set(have) <= exp and {frozenset(x) for x in have} == {frozenset(x) for x in exp}, "pairs"
        else:
            assert set(have) == exp, "pairs"
        note.nt(bool(have))
    note.label("found" if out else "none")


LAWS = [
    Law("pairs", pcase(), pairs, quick=300, thorough=20000),
    Law("reds", rcase(), reds, quick=300, thorough=10000, shards=2),
    Law("blpair_reds", bcase(), blpair_reds, quick=150, thorough=5000, shards=3),
    Law("lens_angs", acase(), lens_angs, quick=400, thorough=20000),
    Law("blvec_reds", vcase(), blvec_reds, quick=300, thorough=10000),
    Law("uvp_reds", ucase(), uvp_reds, quick=250, thorough=8000),
    Law("config", gcase(), config, quick=80, thorough=3000, shards=2),
]
