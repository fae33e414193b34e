"""C23: statistical, spectral-range and orchestration utilities."""
import contextlib
import copy
import io
import os
import sys
import warnings

import numpy as np
import yaml
from hypothesis import strategies as st

from hera_pspec import utils
from hera_pspec.utils import Cosmo_Conversions  # noqa: F401
from pv import dsets, uvps
from pv.core import Law, Skip
from pv.scratch import scratch
from pv.uvps import raises

RULE = ("Cases are generated arrays, spectral intervals, angle sets, failure patterns and configuration trees; non-trivial when weights are unequal (moments), the interval cuts the band (ranges), angles wrap (averages), "
        "at least one job fails (monitor) or the tree has something to convert (configuration).")
ASSUMPTIONS = ["a persistently failing job is tried at least maxiter and at most maxiter+1 times (documentation and log message count differently)", "redshift bounds lie between channels",
               "uvd_time_difference is given evenly spaced integrations with every baseline at every time"]

warnings.simplefilter("ignore")
TWOPI = 2 * np.pi


def cdist(a, b):
    d = np.abs(np.asarray(a) - np.asarray(b)) % TWOPI
    return np.minimum(d, TWOPI - d)


# ------------------------------------------------------------------------------------------------ circular average
@st.composite
def acase(draw):
    return dict(seed=draw(st.integers(0, 9999)), shape=draw(st.sampled_from([[1], [2], [3], [7], [3, 2], [2, 3, 2]])), centre=draw(st.sampled_from([0.0, 6.283, 3.14159, 1.0, 5.0, -2.0])), width=draw(st.sampled_from([0.0, 1e-9, 0.01, 0.5, 1.5])),
                turns=draw(st.booleans()), rot=draw(st.sampled_from([0.0, 0.3, 3.0, -7.0, 6.283185307179586])), axis=draw(st.integers(0, 2)), sym=draw(st.booleans()), lst=draw(st.booleans()))


def circular(c, note):
    """the average of angles is their mean direction in [0, 2 pi): equivariant under rotation, unaffected by full turns and order, and the arithmetic mean where nothing wraps"""
    r = uvps.rng_of(c["seed"], 1)
    x = r.uniform(-1, 1, c["shape"]) * c["width"]
    ax = c["axis"] % x.ndim
    if c["sym"]:
        x = np.concatenate([x, -x], axis=ax)
    a = x + c["centre"]
    if c["turns"]:
        a = a % TWOPI
    arg = a.tolist() if c["lst"] else a
    keep = copy.deepcopy(arg)
    m = utils.circular_average(arg, axis=ax)
    assert np.array_equal(np.asarray(arg), np.asarray(keep))
    assert np.shape(m) == x.mean(axis=ax).shape
    assert np.all(np.asarray(m) >= 0) and np.all(np.asarray(m) < TWOPI), "outside [0, 2 pi): %r" % m
    # directions: the sum of unit vectors points to the mean
    z = np.cos(a).sum(axis=ax), np.sin(a).sum(axis=ax)
    assert np.all(cdist(m, np.arctan2(z[1], z[0])) < 1e-9), "not the mean direction"
    if c["sym"] and c["width"] < 1.5:
        assert np.all(cdist(m, c["centre"]) < 1e-9), "symmetric angles"
    if c["width"] <= 0.01:
        assert np.all(cdist(m, (x + c["centre"]).mean(axis=ax)) < 1e-6), "arithmetic mean"
    m2 = utils.circular_average(a + c["rot"], axis=ax)
    assert np.all(cdist(m2, np.asarray(m) + c["rot"]) < 1e-8), "not rotation equivariant"
    m3 = utils.circular_average(np.flip(a, axis=ax) + TWOPI * r.integers(-2, 3, a.shape), axis=ax)
    assert np.all(cdist(m3, m) < 1e-8), "order or full turns matter"
    note.nt(a.shape[ax] > 1)
    if a.ndim == 1:
        assert cdist(utils.circular_average(a), m) < 1e-12


# ------------------------------------------------------------------------------------------------ covariance
@st.composite
def ccase(draw):
    return dict(seed=draw(st.integers(0, 9999)), m=draw(st.integers(1, 5)), m2=draw(st.integers(1, 5)), n=draw(st.integers(1, 6)), two=draw(st.booleans()), c1=draw(st.booleans()), c2=draw(st.booleans()), real=draw(st.booleans()),
                w=draw(st.sampled_from(["ones", "bool", "int", "float", "zero"])), bad=draw(st.sampled_from([None] * 8 + ["neg", "complex"])), default=draw(st.booleans()))


def covariance(c, note):
    """cov is the weighted second moment minus the product of weighted means, element by element, for all four conjugation choices; complex or negative weights are refused"""
    r = uvps.rng_of(c["seed"], 2)

    def dat(m):
        d = r.normal(size=(m, c["n"]))
        return d if c["real"] else d + 1j * r.normal(size=d.shape)

    def wt(m):
        s = (m, c["n"])
        return {"ones": np.ones(s), "bool": (r.random(s) > 0.3).astype(float), "int": r.integers(0, 4, s), "float": r.uniform(0, 2, s), "zero": r.uniform(0, 2, s) * (r.random((m, 1)) > 0.4)}[c["w"]]
    d1, w1 = dat(c["m"]), wt(c["m"])
    d2, w2 = (dat(c["m2"]), wt(c["m2"])) if c["two"] else (d1, w1)
    if c["bad"]:
        note.nt()
        w = w1 - 10.0 if c["bad"] == "neg" else w1 * (1 + 0.5j) + 1j
        assert raises(lambda: utils.cov(d1, w, d2, w2) if c["two"] else utils.cov(d1, w)), "bad weights accepted"
        if c["two"]:
            w = w2 - 10.0 if c["bad"] == "neg" else w2 + 1j
            assert raises(lambda: utils.cov(d1, w1, d2, w)), "bad second weights accepted"
        return
    snap = [x.copy() for x in (d1, w1, d2, w2)]
    kw = {} if c["default"] else dict(conj_1=c["c1"], conj_2=c["c2"])
    C = utils.cov(d1, w1, d2, w2, **kw) if c["two"] else utils.cov(d1, w1, **kw)
    assert all(np.array_equal(a, b) for a, b in zip(snap, (d1, w1, d2, w2))), "inputs changed"
    k1, k2 = (False, True) if c["default"] else (c["c1"], c["c2"])
    e1, e2 = d1.conj() if k1 else d1, d2.conj() if k2 else d2
    E = np.zeros((d1.shape[0], d2.shape[0]), complex)
    for i in range(E.shape[0]):
        for j in range(E.shape[1]):
            W = sum(float(w1[i, t]) * float(w2[j, t]) for t in range(c["n"]))
            S = sum(w1[i, t] * w2[j, t] * e1[i, t] * e2[j, t] for t in range(c["n"]))
            s1, s2 = float(w1[i].sum()), float(w2[j].sum())
            m1 = (w1[i] * e1[i]).sum() / s1 if s1 else 0
            m2 = (w2[j] * e2[j]).sum() / s2 if s2 else 0
            E[i, j] = (S / W if W else 0) - m1 * m2
    assert C.shape == E.shape and np.allclose(C, E, rtol=1e-9, atol=1e-12), "covariance %s, expected %s" % (C, E)
    if not c["two"] and c["default"] and c["w"] == "ones":
        assert np.allclose(C, np.conj(C).T) and np.all(np.linalg.eigvalsh(C) > -1e-9), "not Hermitian non-negative"
    note.nt(c["w"] != "ones" and c["n"] > 1)


# ------------------------------------------------------------------------------------------------ variance from autocorrelations
@st.composite
def vcase(draw):
    d = draw(dsets.dspec(nd=1, nf=(2, 7), nt=(1, 4), max_bl=3, autos=True, npol=2, pols=["xx", "yy"], wgts=False))
    a, b = draw(st.integers(0, d["nf"])), draw(st.integers(0, d["nf"]))
    return dict(d=d, spw=[min(a, b), max(a, b)] if a != b else [0, d["nf"]], zero=draw(st.sampled_from([0, 0.3, 0.6, 1.0])), flip=draw(st.booleans()), pnum=draw(st.booleans()), vw=draw(st.booleans()))


def autovar(c, note):
    """the variance predicted from autocorrelations is |V_aa V_bb| / (dt df nsamples) for every baseline, time and channel, with the documented replacement of zero sample counts"""
    sp = c["d"]
    u = dsets.build_one(sp, 0)
    r = uvps.rng_of(sp["seed"], 4)
    u.nsample_array = u.nsample_array * (r.random(u.nsample_array.shape) >= c["zero"])
    if c["vw"]:
        u.channel_width = u.channel_width * r.uniform(0.5, 1, u.Nfreqs)
    s = slice(*c["spw"])
    snap = dsets.dsnap(u)
    for bl in [tuple(x) for x in sp["bls"]]:
        for p in sp["pols"]:
            pn = dsets.POLNUM[p]
            key = (bl[::-1] if c["flip"] else bl) + ((pn if c["pnum"] else {"xx": "ee", "yy": "nn"}[p]),)
            ms, _ = dsets.rows_of(u, bl)
            for t in range(sp["nt"]):
                k = list(u.polarization_array).index(pn)
                A = [u.data_array[dsets.rows_of(u, (x, x))[0][t], s, k] for x in bl]
                n = u.nsample_array[ms[t], s, k].astype(float)
                med = np.median(n[n > 0]) if (n > 0).any() else 0
                n = np.where(n > 0, n, med)
                with np.errstate(divide="ignore"):
                    e = np.where(n > 0, np.abs(A[0]) * np.abs(A[1]) / np.median(u.integration_time) / u.channel_width[s] / n, np.inf)
                v = utils.variance_from_auto_correlations(u, key, tuple(c["spw"]), t)
                assert np.shape(v) == e.shape
                assert np.array_equal(np.isinf(v), np.isinf(e)) and np.allclose(v[np.isfinite(v)], e[np.isfinite(e)], rtol=1e-6), "variance %s, expected %s" % (v, e)
                note.nt(bool((n > 0).any()))
    uvps.same(dsets.dsnap(u), snap)
    b = tuple(sp["bls"][0])
    assert raises(lambda: utils.variance_from_auto_correlations(u, b, tuple(c["spw"]), 0)) and raises(lambda: utils.variance_from_auto_correlations(u, b + ("ee",), list(c["spw"]) + [1], 0))


# ------------------------------------------------------------------------------------------------ spectral ranges
class Holder:
    def __init__(self, f):
        self.freq_array = f


@st.composite
def rcase(draw):
    n = draw(st.integers(1, 12))
    ints = st.tuples(st.integers(-6, 2 * n + 6), st.integers(-6, 2 * n + 6)).map(list)
    return dict(n=n, f0=draw(st.sampled_from([100e6, 120.5e6, 151.3e6])), df=draw(st.sampled_from([0.1e6, 0.12207e6, 1e6])), ints=draw(st.lists(ints, min_size=1, max_size=4)), single=draw(st.booleans()), be=draw(st.sampled_from([True, False, False])),
                z=draw(st.booleans()), kind=draw(st.sampled_from(["holder", "uvd", "uvp", "gap"])), seed=draw(st.integers(0, 99)), sp=draw(uvps.spec(max_t=1, max_pol=1, max_blp=1, cov=False, stats=[], wf="none")), order=draw(st.sampled_from(["sorted", "sorted", "sorted", "swap"])), bad=draw(st.sampled_from([None] * 9 + ["list", "obj"])))


def ranges(c, note):
    """the returned indices are the first and last channel inside the half-open interval, (None, None) when there is none; reversed or out-of-range intervals are refused"""
    if c["kind"] == "uvp":
        obj = uvps.build(c["sp"])
        freqs = np.array(obj.freq_array)
        grid0, step = freqs.min(), uvps.CHAN
    else:
        freqs = c["f0"] + c["df"] * np.arange(c["n"])
        grid0, step = c["f0"], c["df"]
        if c["kind"] == "gap":
            freqs = freqs[uvps.rng_of(c["seed"]).random(c["n"]) > 0.3]
            if not len(freqs):
                raise Skip("empty")
        obj = Holder(freqs)
        if c["kind"] == "uvd":
            obj = dsets.build_one(dict(seed=1, nf=3, nt=1, bls=[[0, 1]], pols=["xx"], autos=False, f0=100., df=1., t0=2458116.3, dt=10., dtd=0, fl="none", layout="grid", units="Jy", blorder="time", ns="one", itime="const", std=False, wg=False), 0)
            obj.freq_array = freqs
    fs = np.sort(freqs)
    note.label(c["kind"], "z" if c["z"] else "f")

    def edge(k):
        # even: exactly on a channel of the grid (frequencies only), odd: between two
        v = grid0 + step * (k / 2)
        if c["z"]:
            v = grid0 + step * ((k // 2) + (0.4 if k % 2 else 0.6))
        if not c["z"] and k % 2 == 0 and np.min(np.abs(freqs - v)) < 1:
            v = float(freqs[np.argmin(np.abs(freqs - v))])
        return v
    iv = []
    for a, b in c["ints"]:
        lo, hi = edge(a), edge(b)
        if c["order"] == "sorted":
            lo, hi = min(lo, hi), max(lo, hi)
        iv.append((lo, hi))
    if c["single"]:
        iv = iv[:1]
    if c["z"]:
        zs = [(1420.40575177e6 / hi - 1, 1420.40575177e6 / lo - 1) for lo, hi in iv]
        arg = zs[0] if c["single"] else zs
        fn = lambda o, **k: utils.spw_range_from_redshifts(o, arg, **k)  # noqa: E731
    else:
        arg = iv[0] if c["single"] else iv
        fn = lambda o, **k: utils.spw_range_from_freqs(o, arg, **k)  # noqa: E731
    if c["bad"] == "list" and not c["z"]:
        note.nt()
        assert raises(lambda: utils.spw_range_from_freqs(obj, np.array([100e6, 110e6]))), "not a tuple"
        return
    if c["bad"] == "obj":
        note.nt()
        assert raises(lambda: fn(np.arange(3.)), ), "no frequencies"
        return
    refuse = any(lo > hi for lo, hi in iv) or (c["be"] and any(lo < fs[0] or hi > fs[-1] for lo, hi in iv))
    keep = copy.deepcopy(arg)
    call = (lambda: fn(obj)) if c["be"] else (lambda: fn(obj, bounds_error=False))
    if refuse:
        note.nt()
        note.label("refused")
        assert raises(call), "accepted an interval outside the band or reversed"
        return
    out = call()
    assert arg == keep
    outs = [out] if c["single"] else list(out)
    assert len(outs) == len(iv) and isinstance(out, tuple if c["single"] else list)
    for (lo, hi), o in zip(iv, outs):
        ins = [i for i, f in enumerate(freqs) if lo <= f < hi]
        e = (ins[0], ins[-1]) if ins else (None, None)
        assert tuple(o) == e, "%s for [%s, %s), expected %s" % (o, lo, hi, e)
        note.nt(0 < len(ins) < len(freqs))


# ------------------------------------------------------------------------------------------------ delays and Fourier modes
@st.composite
def dcase(draw):
    return dict(n=draw(st.integers(2, 12)), nd=draw(st.one_of(st.none(), st.integers(1, 14))), df=draw(st.sampled_from([1e5, 122070.3125, 1e6])), f0=draw(st.sampled_from([0.0, 1e8])), rev=draw(st.booleans()), ext=draw(st.integers(0, 3)), ph=draw(st.sampled_from([0, 0, 1, 2.5])))


def fourier(c, note):
    """delays are the Fourier dual of the channels; the response matrix of a mode is the rank-one projector onto that delay, the same with and without the FFT"""
    f = c["f0"] + c["df"] * np.arange(c["n"])
    nd = c["nd"] or c["n"]
    d = utils.get_delays(f, **({} if c["nd"] is None else dict(n_dlys=c["nd"])))
    e = (np.arange(nd) - nd // 2) / (nd * c["df"])
    assert d.shape == (nd,) and np.allclose(d, e, rtol=1e-9, atol=1e-18), "delays %s" % d
    note.nt(nd != c["n"] or c["n"] % 2)
    x = uvps.rng_of(c["n"], nd, 3).normal(size=(2, c["n"] + c["ext"])) @ np.eye(c["n"] + c["ext"])
    y = x[0] + 1j * x[1]
    for m in range(nd):
        kw = dict(n_extend=c["ext"], phase_correction=c["ph"])
        Q = utils.get_Q_alt(m, nd, c["n"], **kw)
        Q2 = utils.get_Q_alt(m, nd, c["n"], allow_fft=False, **kw)
        assert Q.shape == (c["n"] + c["ext"],) * 2 and np.allclose(Q, Q2, atol=1e-9), "FFT and direct responses differ"
        ft = np.sum(y * np.exp(-2j * np.pi * d[m] * c["df"] * np.arange(len(y))))
        q = np.conj(y) @ Q @ y
        assert np.isclose(q, abs(ft) ** 2, rtol=1e-7, atol=1e-8), "mode %d" % m
    T = utils.get_Q_alt_tensor(nd, n_freqs=c["n"], n_extend=c["ext"])
    assert T.shape == (nd, c["n"] + c["ext"], c["n"] + c["ext"]) and all(np.allclose(T[m], utils.get_Q_alt(m, nd, c["n"], n_extend=c["ext"])) for m in range(nd))
    assert raises(lambda: utils.get_Q_alt(nd, nd, c["n"])) and raises(lambda: utils.get_Q_alt(-1, nd, c["n"])), "mode outside the range"


# ------------------------------------------------------------------------------------------------ job monitor
@st.composite
def jcase(draw):
    n = draw(st.integers(0, 7))
    fails = draw(st.lists(st.sampled_from([0, 0, 0, 1, 2, 3, 99]), min_size=n, max_size=n))
    if draw(st.sampled_from([False] * 6 + [True])):
        fails = [max(1, x) for x in fails]
    return dict(fails=fails, maxiter=draw(st.integers(1, 4)), kind=draw(st.sampled_from(["range", "str", "tuple", "gen", "dict", "shift", "dup"])), M=draw(st.sampled_from(["map", "list", "map2", "pool"])), lf=draw(st.booleans()), verbose=draw(st.booleans()), code=draw(st.sampled_from([1, -3, 255])))


def monitor(c, note):
    """every item is run once; exactly the items that failed are run again, at most the allowed number of times; the indices reported are exactly those still failing"""
    n = len(c["fails"])
    items = {"range": list(range(n)), "str": ["job%d" % i for i in range(n)], "tuple": [(i, "x") for i in range(n)], "gen": list(range(10, 10 + n)), "dict": ["k%d" % i for i in range(n)], "shift": [n - 1 - i for i in range(n)], "dup": [i // 2 for i in range(n)]}[c["kind"]]
    left = {}
    if c["kind"] == "dup":
        fails = [c["fails"][2 * (i // 2)] for i in range(n)]
        fails = [f if f in (0, 99) else 99 for f in fails]
    else:
        fails = c["fails"]
    for x, f in zip(items, fails):
        left[x] = f
    tries = []

    def run(x):
        tries.append(x)
        if left[x] > 0:
            left[x] -= 1
            return c["code"]
        return 0
    it = {"range": range(n), "gen": (x for x in list(items)), "dict": {x: 1 for x in items}}.get(c["kind"], items)
    M = {"map": map, "list": lambda f, xs: [f(x) for x in xs], "map2": lambda f, xs: iter([f(x) for x in xs]), "pool": None}[c["M"]]
    if c["M"] == "pool":
        from multiprocessing.pool import ThreadPool
        pool = ThreadPool(1)
        M = pool.map
    lf = io.StringIO() if c["lf"] else None
    out = io.StringIO()
    call = lambda: utils.job_monitor(run, it, "test", M=M, maxiter=c["maxiter"], verbose=c["verbose"], **(dict(lf=lf) if lf else {}))  # noqa: E731
    try:
        with contextlib.redirect_stdout(out):
            if n == 0 or all(f > 0 for f in fails):
                note.nt()
                assert raises(call), "no error although every job failed"
                assert sorted(map(str, tries)) == sorted(map(str, items)), "a first run of every job"
                return
            got = call()
    finally:
        if c["M"] == "pool":
            pool.terminate()
    note.nt(any(fails))
    note.label("fail" if any(fails) else "ok", c["kind"])
    count = {}
    for x in tries:
        count[x] = count.get(x, 0) + 1
    mult = {x: items.count(x) for x in items}
    slack = set()
    for x, f in zip(items, fails):
        t = count.get(x, 0) / mult[x]
        need = min(f + 1, c["maxiter"])
        if f >= c["maxiter"]:
            assert c["maxiter"] <= t <= c["maxiter"] + 1, "job %r tried %s times" % (x, t)
            if t > c["maxiter"] and f == c["maxiter"]:
                slack.add(x)
        else:
            assert t == need, "job %r tried %s times, expected %s" % (x, t, need)
    still = [i for i, (x, f) in enumerate(zip(items, fails)) if f >= c["maxiter"] and x not in slack]
    assert sorted(int(i) for i in got) == still, "reported %s, still failing %s" % (got, still)
    text = out.getvalue()
    assert bool(text.strip()) == c["verbose"], "output"
    if lf:
        assert lf.getvalue().strip(), "nothing in the log"
        assert ("failed" in lf.getvalue()) == bool(still), "log message"


# ------------------------------------------------------------------------------------------------ configuration files
leaf = st.one_of(st.just("None"), st.integers(-5, 5), st.booleans(), st.sampled_from(["xx", "", "none", "a b", "None "]), st.floats(-5, 5).map(lambda x: round(x, 3)), st.none())
flat = st.lists(leaf, max_size=3)
ltree = st.one_of(leaf, flat, st.lists(flat, min_size=1, max_size=3))
tree = st.recursive(st.dictionaries(st.sampled_from("abcdef"), ltree, max_size=4), lambda ch: st.dictionaries(st.sampled_from("abcdef"), st.one_of(ltree, ch, st.lists(ch, min_size=1, max_size=2)), max_size=4), max_leaves=6)


def conv(x):
    if isinstance(x, dict):
        return {k: conv(v) for k, v in x.items()}
    if isinstance(x, list):
        if x and all(isinstance(i, list) for i in x):
            return [tuple(conv(j) for j in i) for i in x]
        return [conv(i) for i in x]
    return None if x == "None" else x


def config(c, note):
    """a configuration file is read back with every 'None' as None and every list of lists as a list of tuples, at any depth, and nothing else changed"""
    with scratch() as tmp:
        p = os.path.join(tmp, "c.yaml")
        with open(p, "w") as f:
            yaml.safe_dump(c["t"], f)
        out = utils.load_config(p)
        assert raises(lambda: utils.load_config(os.path.join(tmp, "absent.yaml")))
    e = conv(c["t"])
    assert repr(out) == repr(e) or (out == e and repr(sorted_repr(out)) == repr(sorted_repr(e))), "read %r, expected %r" % (out, e)
    note.nt(e != c["t"])
    note.nt("None" in str(c["t"]))


def sorted_repr(x):
    if isinstance(x, dict):
        return {k: sorted_repr(x[k]) for k in sorted(x)}
    if isinstance(x, (list, tuple)):
        return type(x)(sorted_repr(i) for i in x)
    return x


# ------------------------------------------------------------------------------------------------ log, flatten
@st.composite
def lcase(draw):
    return dict(msg=draw(st.text(alphabet="ab c\n%{}", max_size=12)), lvl=draw(st.integers(0, 4)), tb=draw(st.booleans()), f=draw(st.booleans()), verbose=draw(st.booleans()), lists=draw(st.lists(st.lists(st.integers(0, 9), max_size=4), max_size=5)))


def logging(c, note):
    """log prints when verbose, writes the file always, indented, with the traceback; flatten joins lists in order"""
    tb = None
    if c["tb"]:
        try:
            raise KeyError("lost-key")
        except KeyError:
            tb = sys.exc_info()
    f, out = (io.StringIO() if c["f"] else None), io.StringIO()
    with contextlib.redirect_stdout(out):
        utils.log(c["msg"], f=f, lvl=c["lvl"], tb=tb, verbose=c["verbose"])
    pre = "  " * c["lvl"] + c["msg"]
    if c["verbose"]:
        assert out.getvalue().startswith(pre) and (("lost-key" in out.getvalue()) == c["tb"])
    else:
        assert out.getvalue() == ""
    if f:
        assert f.getvalue().startswith(pre) and (("lost-key" in f.getvalue()) == c["tb"])
    assert utils.flatten(c["lists"]) == sum(c["lists"], [])
    note.nt(c["tb"] or c["lvl"] > 0)


# ------------------------------------------------------------------------------------------------ time differences
@st.composite
def tcase(draw):
    d = draw(dsets.dspec(nd=1, nf=(1, 4), nt=(2, 9), max_bl=3, npol=2, wgts=False, autos=draw(st.booleans())))
    d["itime"], d["units"] = "const", "Jy"
    return dict(d=d, k=draw(st.sampled_from([0, 0, 1, 2, 3, 8])))


def timediff(c, note):
    """every sample of a time-differenced dataset is the difference of two consecutive integrations of its baseline, over the square root of two; the input is untouched"""
    u = dsets.build_one(c["d"], 0)
    snap = dsets.dsnap(u)
    o = utils.uvd_time_difference(u, (c["k"] + 0.5) * c["d"]["dt"])
    uvps.same(dsets.dsnap(u), snap)
    times = np.unique(u.time_array)
    row = {(int(a), int(b), float(t)): i for i, (a, b, t) in enumerate(zip(u.ant_1_array, u.ant_2_array, u.time_array))}
    n = len(times)
    step = max(1, min(c["k"] + 1, n - 2))
    assert sorted(set(o.time_array.tolist())) == times[0:n - 1:step].tolist(), "times kept: every %d-th" % step
    assert o.Nblts == len(set(zip(o.ant_1_array.tolist(), o.ant_2_array.tolist(), o.time_array.tolist()))) == len(times[0:n - 1:step]) * u.Nbls
    for i, (a, b, t) in enumerate(zip(o.ant_1_array, o.ant_2_array, o.time_array)):
        t2 = float(times[list(times).index(t) + 1])
        e = (u.data_array[row[(int(a), int(b), float(t))]] - u.data_array[row[(int(a), int(b), t2)]]) / np.sqrt(2)
        assert np.allclose(o.data_array[i], e, rtol=1e-9), "baseline %s at %s" % ((a, b), t)
    note.nt(u.Nbls > 1)


LAWS = [
    Law("circular", acase(), circular, quick=300, thorough=20000),
    Law("cov", ccase(), covariance, quick=300, thorough=20000),
    Law("autovar", vcase(), autovar, quick=120, thorough=4000, shards=2),
    Law("ranges", rcase(), ranges, quick=300, thorough=20000),
    Law("fourier", dcase(), fourier, quick=200, thorough=8000),
    Law("monitor", jcase(), monitor, quick=400, thorough=20000),
    Law("config", st.fixed_dictionaries(dict(t=tree)), config, quick=250, thorough=8000),
    Law("log", lcase(), logging, quick=150, thorough=5000),
    Law("timediff", tcase(), timediff, quick=100, thorough=4000, shards=2),
]
