"""C17: bootstrap resampling."""
import copy
import os

import numpy as np
from hypothesis import strategies as st

from hera_pspec import grouping, utils
from hera_pspec.container import PSpecContainer
from pv import uvps
from pv.core import Law, Skip
from pv.scratch import scratch
from pv.uvps import assert_close, blpair_int, build, raises, same, snap, tup
from checks.c05 import groups_of

RULE = ("Cases are generated UVPSpecs with generated baseline-pair groups, seeds and options, and generated baseline lists; "
        "non-trivial when some group has at least two members.")
ASSUMPTIONS = ["when not averaging over time, the baseline-pairs of a group have the same times in the same order (documented requirement of averages)",
               "draws are uniform: tested on pooled counts with a 6 sigma threshold at fixed seeds"]


@st.composite
def case(draw, **kw):
    time_avg = draw(st.booleans())
    kw.setdefault("stats", [])
    sp = draw(uvps.spec(max_blp=4, max_spw=2, orders=None if time_avg else ["bl", "t"], ragged=False, cov=draw(st.integers(0, 4)) == 0,
                        wf=draw(st.sampled_from(["none", "none", "approx"])), **kw))
    groups = draw(groups_of(sp["blps"])) or [list(range(len(sp["blps"])))]
    return dict(sp=sp, groups=groups, time_avg=time_avg, seed=draw(st.integers(0, 10**6)), form=draw(st.sampled_from(["int", "tuple"])))


def grp(c, sp=None):
    blps = (sp or c["sp"])["blps"]
    return [[blpair_int(blps[i]) if c["form"] == "int" else tup(blps[i]) for i in g] for g in c["groups"]]


def law_average(c, note):
    """a bootstrap average is average_spectra with integer draw counts of the group's members as weights, reproducible from the seed, blind to other data"""
    u = build(c["sp"])
    s = snap(u)
    g = grp(c)
    keep = copy.deepcopy(g)
    out, w = grouping.bootstrap_average_blpairs(u, g, time_avg=c["time_avg"], seed=c["seed"])
    same(u, s)
    assert g == keep, "groups modified"
    assert [len(x) for x in w] == [len(x) for x in g]
    for x in w:
        x = np.array(x, float)
        assert np.all(x >= 0) and np.all(x == np.round(x)) and x.sum() == len(x), "draw counts %s" % x
    ref = u.average_spectra(blpair_groups=copy.deepcopy(g), blpair_weights=[list(map(float, x)) for x in w], time_avg=c["time_avg"], inplace=False)
    same(out, ref, tol=1e-10)
    # the same seed gives the same draw; a list of one object is the same thing
    (out2,), (w2,) = grouping.bootstrap_average_blpairs([u], g, time_avg=c["time_avg"], seed=c["seed"])
    same(out, out2)
    assert [list(map(float, x)) for x in w] == [list(map(float, x)) for x in w2]
    # poison everything that is in no group
    used = [blpair_int(c["sp"]["blps"][i]) for x in c["groups"] for i in x]
    other = ~np.isin(u.blpair_array, used)
    v = copy.deepcopy(u)
    for i in v.data_array:
        v.data_array[i][other] = 1e30
        v.integration_array[i][other] *= 3
    out3, w3 = grouping.bootstrap_average_blpairs(v, g, time_avg=c["time_avg"], seed=c["seed"])
    for x in c["groups"]:
        b = blpair_int(c["sp"]["blps"][x[0]])
        for key in [(i, b, int(p)) for i in range(u.Nspws) for p in u.polpair_array]:
            assert np.array_equal(out3.get_data(key), out.get_data(key)), "data outside the groups leaked in"
            assert np.array_equal(out3.get_nsamples(key), out.get_nsamples(key))
            if len(x) == 1 and not c["time_avg"]:
                fl = u.get_integrations(key) == 0
                assert_close(out.get_data(key), np.where(fl[:, None], 0, u.get_data(key)), "single-member group")
    note.nt(any(len(x) > 1 for x in c["groups"]))
    note.label("time" if c["time_avg"] else "no-time", *(["other"] if other.any() else []))


@st.composite
def case_uniform(draw):
    n = draw(st.integers(2, 6))
    return dict(n=n, seed=draw(st.integers(0, 10**6)), what=draw(st.sampled_from(["blpairs", "bls"])), split=draw(st.sampled_from([False, True, "overlap"])))


def law_uniform(c, note):
    """draws are uniform with replacement over exactly the members"""
    n, N = c["n"], 400 if c["what"] == "bls" else 60
    tot = np.zeros(n)
    hist = 0
    if c["what"] == "bls":
        bls = [(0, i) for i in range(n)] if not c["split"] else [[(0, i), (1, i)] for i in range(n)]
        grouping.sample_baselines(bls, seed=c["seed"])
        for _ in range(N):
            x = grouping.sample_baselines(bls)
            assert len(x) == n and all(y in bls for y in x)
            idx = [bls.index(y) for y in x]
            tot += np.bincount(idx, minlength=n)
            hist += len(set(idx)) < n
    else:
        sp = dict(seed=1, spws=[dict(f0=0, nf=3, nd=3)], blps=[[[0, i + 1], [0, i + 1]] for i in range(n)], nt=1, pps=[[-5, -5]], order="bl", dt=10.7, t0=2458042.1, lst0=0.3,
                  off=0, folded=False, cov=False, stats=[], wf="none", flags=0, drop=0, beam=False, cosmo=-1)
        u = build(sp)
        np.random.seed(c["seed"])
        g = [[blpair_int(b) for b in sp["blps"]]]
        us = u
        if c["split"]:  # two objects that share no baseline-pairs, or whose shared ones count in each
            k = n // 2 if c["split"] != "overlap" else 1 + c["seed"] % n
            us = [u.select(blpairs=g[0][:k], inplace=False), u.select(blpairs=g[0][n // 2:] if c["split"] != "overlap" else g[0], inplace=False)]
            n = n if c["split"] != "overlap" else n + k
            tot = np.zeros(n)
        for _ in range(N):
            _, w = grouping.bootstrap_average_blpairs(us, g, time_avg=False)
            w = np.array(w[0] if not c["split"] else list(w[0][0]) + list(w[1][0]), float).ravel()
            assert w.sum() == n and len(w) == n
            tot += w
            hist += (w == 0).any()
    # each count is binomial(N*n, 1/n)
    sd = np.sqrt(N * n * (1 / n) * (1 - 1 / n))
    assert np.all(np.abs(tot - N) < 6 * sd + 1), "draws are not uniform: %s of %d" % (tot, N)
    p = 1 - float(np.prod(np.arange(1, n + 1) / n))  # probability that something is left out
    assert abs(hist - N * p) < 6 * np.sqrt(N * p * (1 - p)) + 1, "draws are not with replacement: %d of %d leave something out" % (hist, N)
    note.nt()


def biweight(x):
    """biweight midvariance along axis 0 (c=9, all samples kept), from its definition"""
    M = np.median(x, axis=0)
    d = x - M
    mad = np.median(np.abs(d), axis=0)
    with np.errstate(divide="ignore", invalid="ignore"):
        uu = (d / (9.0 * mad)) ** 2
        m = np.abs(uu) < 1
        num = np.sum(np.where(m, d**2 * (1 - uu) ** 4, 0), axis=0)
        den = np.sum(np.where(m, (1 - uu) * (1 - 5 * uu), 0), axis=0)
        v = len(x) * num / den**2
    return np.where(mad == 0, 0.0, v)


@st.composite
def case_err(draw):
    c = draw(case(folded=draw(st.booleans())))
    c.update(n=draw(st.integers(2, 9)), normal=draw(st.booleans()), robust=draw(st.booleans()), ci=draw(st.sampled_from([None, [16, 84], [2.5, 50.0, 97.72], [5]])),
             default=draw(st.booleans()), file=draw(st.integers(0, 3)) == 0, equal=draw(st.integers(0, 3)) == 0)
    return c


def law_error(c, note):
    """error estimates are the statistics of the returned realizations, attached to the all-sample average"""
    with scratch() as d:
        _error(c, note, d)


def _error(c, note, d):
    u = build(c["sp"])
    g = grp(c)
    if c["equal"]:  # identical members
        for i in u.data_array:
            for x in c["groups"]:
                rows = [np.where(u.blpair_array == blpair_int(c["sp"]["blps"][k]))[0] for k in x]
                for r in rows[1:]:
                    for a in (u.data_array, u.integration_array, u.nsample_array):
                        a[i][r] = a[i][rows[0]]
    s = snap(u)
    if c["default"]:
        seps = utils.get_blvec_reds(u)[0]
        g = None
    kw = dict(time_avg=c["time_avg"], Nsamples=c["n"], seed=c["seed"], normal_std=c["normal"], robust_std=c["robust"], cintervals=c["ci"], add_to_history="xyzzy")
    if g is not None:
        kw["blpair_groups"] = g
    keep = copy.deepcopy(kw)
    arg = u
    if c["file"]:
        arg = os.path.join(d, "boot.h5")
        u.write_hdf5(arg, overwrite=True)
    avg, boots, wgts = grouping.bootstrap_resampled_error(arg, **kw)
    same(u, s)
    assert kw == keep, "arguments modified"
    avg.check()
    assert len(boots) == len(wgts) == c["n"]
    gg = g if g is not None else seps
    ref = u.average_spectra(blpair_groups=copy.deepcopy(gg), time_avg=c["time_avg"], inplace=False)
    same(avg, ref, tol=1e-10, ignore=("history", "stats_array"))
    assert "xyzzy" in avg.history
    for b, w in zip(boots, wgts):
        for x in w:
            assert np.all(np.array(x) >= 0) and np.sum(x) == len(x)
        same(b, u.average_spectra(blpair_groups=copy.deepcopy(gg), blpair_weights=[list(map(float, x)) for x in w], time_avg=c["time_avg"], inplace=False), tol=1e-10)
    names = (["bs_std"] if c["normal"] else []) + (["bs_robust_std"] if c["robust"] else []) + ["bs_cinterval_%05.2f" % x for x in c["ci"] or []]
    assert sorted(getattr(avg, "stats_array", {})) == sorted(names), "statistics %s" % sorted(getattr(avg, "stats_array", {}))
    bset = sorted(set(avg.blpair_array.tolist()))
    single = {b for b in bset if b not in {(blpair_int(y) if not isinstance(y, (int, np.integer)) else int(y)) for x in gg if len(x) > 1 for y in x}}
    nt = False
    for spw in range(u.Nspws):
        for b in bset:
            for p in u.polpair_array:
                k = (spw, int(b), int(p))
                D = np.array([x.get_data(k) for x in boots])
                nt |= bool(np.ptp(D.real) > 0)
                sc = 1e-9 * (1 + np.abs(D).max())
                for n in names:
                    x = avg.get_stats(n, k)
                    assert x.shape == D.shape[1:], "shape of %s" % n
                    if n == "bs_std":
                        r = [np.sqrt(np.mean((y - y.mean(axis=0)) ** 2, axis=0)) for y in (D.real, D.imag)]
                    elif n == "bs_robust_std":
                        r = [np.sqrt(biweight(y)) for y in (D.real, D.imag)]
                    else:
                        q = float(n.rsplit("_", 1)[1])
                        r = [np.percentile(y, q, axis=0) for y in (D.real, D.imag)]
                    for y, z in zip((x.real, x.imag), r):
                        fin = np.isfinite(z)
                        assert np.all(np.abs(y - z)[fin] <= sc + 1e-6 * np.abs(z)[fin]), "%s of %s: %s instead of %s" % (n, k, y[:1], z[:1])
                    if n == "bs_std" and (b in single or (c["equal"] and not c["default"])):
                        assert np.all(np.abs(x) < 1e-6 * (1 + np.abs(D).max())), "scatter of a group with identical members"
    # reproducible from the seed
    a2, b2, w2 = grouping.bootstrap_resampled_error(u, **kw)
    same(avg, a2, tol=1e-12, ignore=("history",) if c["file"] else ())
    for x, y in zip(boots, b2):
        same(x, y, tol=1e-12, ignore=("history",) if c["file"] else ())
    note.nt(nt)
    note.label(*names[:2], *(["default"] if c["default"] else []), *(["folded"] if c["sp"]["folded"] else []))


@st.composite
def case_multi(draw):
    c = draw(case(folded=False))
    c["where"] = draw(st.lists(st.sampled_from([0, 1, 2]), min_size=len(c["sp"]["blps"]), max_size=len(c["sp"]["blps"])))
    c["drop_pol"] = draw(st.booleans())
    c["drop_spw"] = draw(st.sampled_from([None, None, 0, 1]))
    return c


def law_multi(c, note):
    """several objects: draws are shared among them, each average is over its own draws, and objects from which nothing is drawn carry nothing"""
    u = build(c["sp"])
    ints = [blpair_int(b) for b in c["sp"]["blps"]]
    parts = [[b for b, w in zip(ints, c["where"]) if w == 2 or w == k] for k in (0, 1)]
    if not all(parts):
        raise Skip()
    us = [u.select(blpairs=p, inplace=False) for p in parts]
    if c["drop_pol"] and u.Npols > 1:
        us[1].select(polpairs=[tuple(c["sp"]["pps"][0])], inplace=True)
    spws = list(range(u.Nspws))
    if c["drop_spw"] is not None and u.Nspws > 1 and len(set(u.get_spw_ranges())) == u.Nspws:
        us[1].select(spws=[c["drop_spw"]], inplace=True)
        spws = [c["drop_spw"]]
        note.label("windows differ")
    ss = [snap(x) for x in us]
    g = grp(c)
    outs, ws = grouping.bootstrap_average_blpairs(us, g, time_avg=c["time_avg"], seed=c["seed"])
    for x, y in zip(us, ss):
        same(x, y)
    gi = [[ints[i] for i in x] for x in c["groups"]]
    pps = sorted(set(us[0].polpair_array.tolist()) & set(us[1].polpair_array.tolist()))
    for k in range(len(gi)):
        tot = sum(np.sum(w[k]) for w in ws)
        avail = sum(len([b for b in gi[k] if b in p]) for p in parts)
        assert tot == avail, "group %d: %s draws from %d" % (k, tot, avail)
    for o, w, p, x in zip(outs, ws, parts, us):
        assert sorted(o.polpair_array.tolist()) == pps
        for k, members in enumerate(gi):
            mine = [b for b in members if b in p]
            assert len(w[k]) == len(mine)
            if not mine:
                assert not np.isin(members, o.blpair_array).any()
                continue
            assert o.Nspws == len(spws), "windows common to the objects"
            for spw in range(len(spws)):
                for pp in pps:
                    key = (spw, mine[0], pp)
                    if np.sum(w[k]) == 0:
                        assert not np.any(o.get_nsamples(key)) and not np.any(o.get_integrations(key)) and not np.any(o.get_data(key)) and not np.any(o.get_wgts(key))
                        note.label("undrawn")
                        continue
                    ref = x.average_spectra(blpair_groups=[mine], blpair_weights=[[float(y) for y in w[k]]], time_avg=c["time_avg"], inplace=False)
                    rk = (spws[spw] if x.Nspws == u.Nspws else 0, mine[0], pp)
                    assert o.get_spw_ranges()[spw] == u.get_spw_ranges()[spws[spw]]
                    assert_close(o.get_data(key), ref.get_data(rk), "average", 1e-10)
                    assert_close(o.get_nsamples(key), ref.get_nsamples(rk), "nsamples", 1e-10)
    note.nt(any(len(x) > 1 for x in gi))


@st.composite
def case_groups(draw):
    n = draw(st.integers(1, 14))
    return dict(n=n, k=draw(st.integers(1, 15)), rem=draw(st.booleans()), rand=draw(st.booleans()), seed=draw(st.integers(0, 1000)))


def law_groups(c, note):
    """group_baselines partitions the list into equal groups (remainder dropped or in the last), in order or as a seeded permutation"""
    bls = [(i, i + 1) for i in range(c["n"])]
    keep = list(bls)
    f = grouping.group_baselines
    if c["k"] > c["n"]:
        assert raises(f, bls, c["k"], keep_remainder=c["rem"]), "more groups than baselines accepted"
        return
    g = f(bls, c["k"], keep_remainder=c["rem"], randomize=c["rand"], seed=c["seed"])
    assert bls == keep, "input modified"
    n = c["n"] // c["k"]
    rem = c["n"] - n * c["k"]
    assert len(g) == c["k"]
    assert [len(x) for x in g] == [n] * (c["k"] - 1) + [n + (rem if c["rem"] else 0)], "sizes %s" % [len(x) for x in g]
    flat = [y for x in g for y in x]
    assert len(set(flat)) == len(flat) and set(flat) <= set(bls), "not a partition"
    if not c["rand"]:
        assert flat == bls[:len(flat)], "order"
    else:
        assert g == f(bls, c["k"], keep_remainder=c["rem"], randomize=True, seed=c["seed"]), "not reproducible"
        if c["n"] >= 6:
            assert any([y for x in f(bls, 1, randomize=True, seed=c["seed"] + j) for y in x] != bls for j in range(3)), "not randomized"
    assert raises(f, [[b] for b in bls], c["k"]), "groups of groups accepted"
    a = grouping.sample_baselines(bls, seed=c["seed"])
    assert a == grouping.sample_baselines(bls, seed=c["seed"]) and len(a) == len(bls) and set(a) <= set(bls) and bls == keep
    note.nt(c["n"] > 1)
    note.label("rem" if rem else "even", "rand" if c["rand"] else "order")


@st.composite
def case_run(draw):
    c = draw(case(folded=False))
    c.update(n=draw(st.integers(1, 3)), keep=draw(st.booleans()), names=draw(st.lists(st.sampled_from(["a/x", "a/y", "b/x"]), min_size=1, max_size=3, unique=True)),
             sel=draw(st.booleans()), path=draw(st.booleans()), over=draw(st.booleans()), default=draw(st.booleans()))
    return c


def law_run(c, note):
    """bootstrap_run stores for each requested spectrum the result of bootstrap_resampled_error and touches nothing else"""
    with scratch() as d:
        _run(c, note, d)


def _run(c, note, d):
    f = os.path.join(d, "boots.h5")
    if os.path.exists(f):
        os.remove(f)
    names = ["a/x", "a/y", "b/x"]
    us = {}
    psc = PSpecContainer(f, mode="rw", keep_open=False, swmr=False)
    for i, n in enumerate(names):
        sp = copy.deepcopy(c["sp"])
        sp["seed"] += i
        us[n] = build(sp)
        psc.set_pspec(*n.split("/"), us[n])
    kw = dict(time_avg=c["time_avg"], Nsamples=c["n"], seed=c["seed"], normal_std=True, robust_std=False, cintervals=[16, 84], verbose=False)
    if not c["default"]:
        kw["blpair_groups"] = grp(c)
    todo = c["names"] if c["sel"] else names
    arg = f if c["path"] else psc
    grouping.bootstrap_run(arg, spectra=list(todo) + ["a/nope"] if c["sel"] else None, keep_samples=c["keep"], **kw)
    psc = PSpecContainer(f, mode="r", keep_open=False, swmr=False)
    want = {}
    for n in names:
        want[n] = None
        if n in todo:
            want[n + "_avg"] = None
            if c["keep"]:
                for i in range(c["n"]):
                    want[n + "_bs%d" % i] = None
    have = sorted(g + "/" + x for g in psc.groups() for x in psc.spectra(g))
    assert have == sorted(want), "container holds %s instead of %s" % (have, sorted(want))
    for n in names:
        same(psc.get_pspec(*n.split("/")), us[n])
        if n in todo:
            avg, boots, _ = grouping.bootstrap_resampled_error(us[n], **kw)
            same(psc.get_pspec(*(n + "_avg").split("/")), avg, tol=1e-12)
            if c["keep"]:
                for i, b in enumerate(boots):
                    same(psc.get_pspec(*(n + "_bs%d" % i).split("/")), b, tol=1e-12)
    # again: refused without overwrite, replaced with it
    kw["seed"] += 1
    args = (f,)
    if c["over"]:
        grouping.bootstrap_run(*args, spectra=list(todo), overwrite=True, **kw)
        avg = grouping.bootstrap_resampled_error(us[todo[0]], **kw)[0]
    else:
        assert raises(grouping.bootstrap_run, *args, spectra=list(todo), overwrite=False, **kw), "existing averages overwritten"
        kw["seed"] -= 1
        avg = grouping.bootstrap_resampled_error(us[todo[0]], **kw)[0]
    psc = PSpecContainer(f, mode="r", keep_open=False, swmr=False)
    same(psc.get_pspec(*(todo[0] + "_avg").split("/")), avg, tol=1e-12)
    assert raises(grouping.bootstrap_run, f, spectra=["a/nope"], **kw), "no such spectra accepted"
    note.nt(any(len(x) > 1 for x in c["groups"]) or c["default"])


LAWS = [
    Law("average", case(), law_average, quick=400, shards=2, weight=2),
    Law("error", case_err(), law_error, quick=250, shards=3, weight=3),
    Law("multi", case_multi(), law_multi, quick=250, shards=1),
    Law("run", case_run(), law_run, quick=40, shards=1, weight=2),
    Law("uniform", case_uniform(), law_uniform, quick=40, thorough=400),
    Law("groups", case_groups(), law_groups, quick=300),
]
