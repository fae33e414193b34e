"""C28: equality of UVPSpec and Cosmo_Conversions objects is decided by what they hold."""
import copy
import io
import os
import warnings
from contextlib import redirect_stdout

import numpy as np
from hypothesis import strategies as st

from hera_pspec import UVPSpec
from hera_pspec.conversions import Cosmo_Conversions
from pv import uvps
from pv.core import Law, Skip
from pv.scratch import scratch
from pv.uvps import build, same, snap

RULE = ("Cases are generated UVPSpecs (covariances, statistics, windows, filter parameters, cosmology present or not, any data units) with one changed element, shape, entry or attribute, or none; "
        "non-trivial when the object holds the attribute that is changed (or, where nothing is changed, when it holds optional attributes).")
ASSUMPTIONS = ["differences between 1e-7 and 1e-3 of an array's largest value, and between 1e-8 and 1e-4 days for times, are neither claimed to be seen nor to be ignored"]

warnings.simplefilter("ignore")


def equal(a, b):
    """== and != of two objects in both orders, which must not disagree"""
    r = [a == b, b == a, not (a != b), not (b != a)]
    assert all(isinstance(x, (bool, np.bool_)) for x in r), "== does not answer True or False: %s" % (r,)
    assert len(set(map(bool, r))) == 1, "a == b, b == a, not a != b, not b != a are %s" % (r,)
    return bool(r[0])


def leaves(u):
    """every array, string or number the object holds, as paths of attribute and keys"""
    out = []

    def walk(path, v):
        if isinstance(v, dict):
            for k in v:
                walk(path + (k,), v[k])
        else:
            out.append(path)
    for k, v in vars(u).items():
        if not k.startswith("_"):
            walk((k,), v)
    return sorted(out, key=str)


def get(u, path):
    v = getattr(u, path[0])
    for k in path[1:]:
        v = v[k]
    return v


def put(u, path, v):
    if len(path) == 1:
        setattr(u, path[0], v)
    else:
        get(u, path[:-1])[path[-1]] = v


@st.composite
def case(draw):
    sp = draw(uvps.spec(max_spw=2, max_blp=3, max_t=2, max_pol=2))
    return dict(sp=sp, rstats=draw(st.sampled_from([0, 1, 3])), which=draw(st.floats(0, 1, exclude_max=True)), at=draw(st.floats(0, 1, exclude_max=True)), size=draw(st.sampled_from([2e-3, 0.1, 3.0])), sign=draw(st.sampled_from([1, -1])),
                how=draw(st.sampled_from(["value"] * 6 + ["drop", "shape", "key"])), imag=draw(st.booleans()), scale=draw(st.sampled_from([1, 1, 1e-12, 1e-20, 1e15])), kind=draw(st.booleans()), one=draw(st.booleans()))


def make(c):
    u = build(dict(c["sp"], rstats=c["rstats"]))
    for i in u.data_array:
        u.data_array[i] *= c["scale"]
        for n in ("cov_array_real", "cov_array_imag"):
            if hasattr(u, n):
                getattr(u, n)[i] *= c["scale"] ** 2
        for s in getattr(u, "stats_array", {}):
            u.stats_array[s][i] = u.stats_array[s][i] * c["scale"]
    return u


def differ(c, note):
    """one different value, entry, shape or attribute makes two objects unequal, and only as far as that attribute is compared"""
    u = make(c)
    v = copy.deepcopy(u)
    assert equal(u, v), "an object is not equal to its copy"
    paths = leaves(u)
    names = sorted({p[0] for p in paths})
    if c["kind"]:  # any attribute with the same probability, else any array
        n = names[int(c["which"] * len(names))]
        sub = [p for p in paths if p[0] == n]
        path = sub[int(c["at"] * len(sub))]
    else:
        path = paths[int(c["which"] * len(paths))]
    x = get(v, path)
    how = c["how"]
    a = np.asarray(x)
    if how == "shape" and (a.ndim == 0 or a.dtype.kind in "SUO" or a.shape[0] < 2):
        how = "drop"
    if how == "key" and len(path) == 1:
        how = "drop"
    if how == "drop":
        delattr(v, path[0])
    elif how == "key":
        if len(path) == 3 and c["one"]:
            del getattr(v, path[0])[path[1]]
        else:
            del get(v, path[:-1])[path[-1]]
    elif how == "shape":
        put(v, path, np.array(x[:-1]) if c["one"] else np.array(x[:1]))
    elif isinstance(x, Cosmo_Conversions):
        p = dict(x.get_params())
        k = sorted(p)[int(c["at"] * len(p))]
        p[k] = p[k] * (1 + c["size"] / 10)
        put(v, path, Cosmo_Conversions(**p))
    elif isinstance(x, (bool, np.bool_)):
        put(v, path, not x)
    elif isinstance(x, str):
        put(v, path, x + "x" if c["sign"] > 0 or not x else x[:-1])
    elif isinstance(x, (int, np.integer)):
        put(v, path, x + c["sign"])
    else:
        y = np.array(x)
        i = np.unravel_index(int(c["at"] * y.size), y.shape)
        if y.dtype.kind in "SU":
            y = y.astype("U30")
            y[i] = y[i] + "x"
        elif y.dtype.kind in "iu":
            y[i] = y[i] + 1 if c["sign"] > 0 or y[i] == 0 else y[i] - 1
        elif y.dtype.kind == "b":
            y[i] = not y[i]
        elif path[0].startswith("time_"):
            y[i] += c["sign"] * c["size"] * 0.05
        else:
            fin = np.isfinite(y)
            s = max(np.abs(y[fin]).max() if fin.any() else 0, 0) or 1.0
            if not np.isfinite(y[i]):
                y[i] = s
            else:
                y[i] = y[i] + c["sign"] * s * c["size"] * (1j if c["imag"] and np.iscomplexobj(y) else 1)
        put(v, path, y)
    keep = snap(u), snap(v)
    assert not equal(u, v), "objects with different %s (%s) are equal" % ("/".join(map(str, path)), how)
    with redirect_stdout(io.StringIO()):
        assert not u.__eq__(v, verbose=True), "a verbose comparison answers otherwise"
    other = [n for n in names if n != path[0]]
    assert u.__eq__(v, params=other) and v.__eq__(u, params=other), "objects that differ in %s alone differ in other attributes" % path[0]
    assert not u.__eq__(v, params=[path[0]]), "%s is not compared alone" % path[0]
    for w, k in zip((u, v), keep):
        same(w, k)
    note.nt()
    note.label(how, path[0])


def agree(c, note):
    """copies, re-read objects, objects that differ by rounding or have missing values at the same places are equal"""
    u = make(c)
    r = np.random.default_rng(c["sp"]["seed"])
    if c["one"]:  # missing values
        for i in u.data_array:
            u.data_array[i][int(c["at"] * u.Nbltpairs)] = np.nan
    v = copy.deepcopy(u)
    for p in leaves(v):
        x = get(v, p)
        if isinstance(x, np.ndarray) and x.dtype.kind in "fc":
            if p[0].startswith("time_"):
                put(v, p, x + 1e-8 * r.uniform(-1, 1, x.shape))
            else:
                put(v, p, x * (1 + 1e-8 * r.uniform(-1, 1, x.shape)))
    assert equal(u, u) and equal(u, copy.deepcopy(u)), "an object is not equal to itself or its copy"
    assert equal(u, v), "objects that differ by rounding are unequal"
    if c["one"]:
        i = 0
        w = copy.deepcopy(u)
        m = np.isnan(w.data_array[i].real)
        w.data_array[i][np.unravel_index(np.argmax(m), m.shape)] = c["scale"]
        assert not equal(u, w), "a missing value equals a number"
    with scratch() as d:
        f = os.path.join(d, "u.h5")
        u.write_hdf5(f)
        w, m1, m2 = UVPSpec(), UVPSpec(), UVPSpec()
        w.read_hdf5(f)
        m1.read_hdf5(f, just_meta=True)
        m2.read_hdf5(f, just_meta=True)
    assert equal(u, w), "the object read back is not equal to the one written"
    assert equal(m1, m2), "metadata read twice is not equal"
    assert not equal(m1, w), "metadata alone equals the full object"
    note.nt(bool(c["sp"]["stats"] or c["sp"]["cov"] or c["sp"]["wf"] != "none"))


def others(c, note):
    """comparison with anything else is False, not an error; cosmologies are equal exactly when their parameters are"""
    u = build(c["sp"])
    for x in (None, 3, "uvp", [u], {}, np.float64(1.0), UVPSpec(), Cosmo_Conversions()):
        assert not (u == x) and (u != x), "equal to %r" % (x,)
    assert u in [None, 1, "a", u] and [None, u].index(u) == 1, "not found in a list"
    assert equal(UVPSpec(), UVPSpec()), "two empty objects"
    p = dict(uvps.COSMOS[c["cosmo"]])
    a, b = Cosmo_Conversions(**p), Cosmo_Conversions(**p)
    assert equal(a, b), "cosmologies with the same parameters"
    q = dict(a.get_params())
    k = sorted(q)[int(c["at"] * len(q))]
    q[k] = q[k] * (1 + c["size"])
    assert not equal(a, Cosmo_Conversions(**q)), "cosmologies with different %s" % k
    for x in (None, 1.0, p, u):
        assert not (a == x) and (a != x), "a cosmology is equal to a %s" % type(x)
    if c["sp"]["cosmo"] >= 0:
        v = copy.deepcopy(u)
        v.cosmo = None
        assert not equal(u, v), "with and without cosmology"
    note.nt()


LAWS = [
    Law("differ", case(), differ, quick=1500, thorough=60000, shards=4, weight=2, doc="one different value, entry, shape or attribute is seen, in that attribute alone"),
    Law("agree", case(), agree, quick=120, thorough=6000, shards=2, doc="copies, rounding and re-reading keep objects equal"),
    Law("others", st.fixed_dictionaries(dict(sp=uvps.spec(max_spw=1, max_blp=2, max_t=1, max_pol=1), cosmo=st.integers(0, 2), at=st.floats(0, 1, exclude_max=True), size=st.sampled_from([1e-6, 0.01, -0.1]))), others, quick=60, thorough=2000,
        doc="comparison with anything else is False; cosmologies"),
]
