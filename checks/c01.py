"""C01: UVPSpec HDF5 round trip."""
import os

import h5py
import numpy as np
from hypothesis import strategies as st

from checks.c03 import case, case2, expected_index, kwargs_of, selection
from hera_pspec.uvpspec import UVPSpec
from pv import uvps
from pv.core import Law, Skip
from pv.scratch import scratch
from pv.uvps import build, raises, same, snap

RULE = "Cases are generated UVPSpecs (spec dict) with read options; non-trivial when the object has several windows, pols or rows (round trip) or the read keeps a proper subset (partial reads)."
ASSUMPTIONS = ["HDF5 attributes are limited to 64 kB each by the file format, so history, r_params and freq_array stay below that",
               "dataset labels are ASCII (the file format stores them as byte strings)"]


def rp_equal(a, b):
    """weighting parameters agree for every (baseline, pol) the object holds"""
    keys = set()
    for (_, blp, pp) in b.get_all_keys():
        keys |= {blp[0] + (pp[0],), blp[1] + (pp[1],)}
    ra, rb = a.get_r_params(), b.get_r_params()
    assert {k: v for k, v in ra.items() if k in keys} == {k: v for k, v in rb.items() if k in keys}, "r_params"


def law_roundtrip(c, note):
    """write then read gives the same object in every attribute, also through a group, twice, and into a used object"""
    u = build(c["sp"])
    if c["uni"]:
        u.history = u.history + " \u00b5K \u2603\n"
    if c["special"]:
        u.data_array[0].flat[0] = np.nan + 1j * np.inf
        for st_ in c["sp"]["stats"]:
            u.stats_array[st_][0].flat[-1] = np.inf
        u.integration_array[0].flat[0] = 0.0
    s0 = snap(u)
    with scratch() as d:
        f = os.path.join(d, "a.h5")
        u.write_hdf5(f)
        same(u, s0)
        v = UVPSpec() if not c["used"] else build(dict(c["sp"], seed=c["sp"]["seed"] + 1, cov=True, stats=["zz_top"], wf="approx", beam=True, cosmo=1, off=1))
        v.read_hdf5(f)
        same(v, s0)
        assert c["special"] or (v == u and u == v), "re-read object compares unequal"
        v.check()
        # second generation
        g = os.path.join(d, "b.h5")
        v.write_hdf5(g)
        w = UVPSpec()
        w.read_hdf5(g)
        same(w, v)
        # group inside a bigger file
        with h5py.File(os.path.join(d, "c.h5"), "w") as h:
            grp = h.create_group("x/y")
            u.write_to_group(grp)
        with h5py.File(os.path.join(d, "c.h5"), "r") as h:
            x = UVPSpec()
            x.read_from_group(h["x/y"])
        same(x, s0)
        # overwrite protection and overwrite
        before = open(f, "rb").read()
        other = build(dict(c["sp"], seed=c["sp"]["seed"] + 5))
        assert raises(other.write_hdf5, f), "existing file overwritten without overwrite=True"
        assert open(f, "rb").read() == before, "refused write changed the file"
        other.write_hdf5(f, overwrite=True)
        y = UVPSpec()
        y.read_hdf5(f)
        same(y, other)
    note.nt(u.Nspws > 1 or u.Npols > 1 or u.Nbltpairs > 1)
    note.label("wf_" + c["sp"]["wf"], "folded" if u.folded else "unfolded", *[k for k in ("cov", "stats", "beam", "rp") if c["sp"][k]])


DATA = ("data_array", "wgt_array", "integration_array", "nsample_array", "cov_array_real", "cov_array_imag", "stats_array",
        "window_function_array", "window_function_kperp", "window_function_kpara")


def law_meta(c, note):
    """a metadata-only read has the same metadata (also under a selection) and no data arrays"""
    sp, sel = c["sp"], c["sel"]
    u = build(sp)
    rows, spws, pols = expected_index(u, sp, sel)
    if not rows:
        raise Skip()
    kw = kwargs_of(u, sp, sel)
    with scratch() as d:
        f = os.path.join(d, "a.h5")
        u.write_hdf5(f)
        m = UVPSpec()
        m.read_hdf5(f, just_meta=True, **kw)
        full = UVPSpec()
        full.read_hdf5(f, **kw)
    s = snap(m)
    for k in DATA:
        assert not s.get(k), "metadata-only read loaded %s" % k
    e = {k: v for k, v in snap(full).items() if k not in DATA}
    same({k: v for k, v in s.items() if k not in DATA}, e)
    note.nt(len(rows) < u.Nbltpairs or len(spws) < u.Nspws or len(pols) < u.Npols)
    note.label(*[k for k in ("spws", "bls", "blps", "times", "lsts", "pps") if k in sel])


def law_partial(c, note):
    """reading with a selection equals reading everything and selecting"""
    sp, sel = c["sp"], c["sel"]
    u = build(sp)
    rows, spws, pols = expected_index(u, sp, sel)
    kw = kwargs_of(u, sp, sel)
    with scratch() as d:
        f = os.path.join(d, "a.h5")
        u.write_hdf5(f)
        p = UVPSpec()
        if not rows:
            assert raises(p.read_hdf5, f, **kw), "empty partial read accepted"
            note.label("empty")
            return
        p.read_hdf5(f, **kw)
        q = UVPSpec()
        q.read_hdf5(f)
    skw = dict(kw)
    # the reader's default for only_pairs_in_bls is False
    q.select(inplace=True, **skw)
    same(p, q, ignore=("r_params",))
    rp_equal(p, q)
    e = u.select(inplace=False, **skw)
    same(p, e, ignore=("r_params",))
    note.nt(len(rows) < u.Nbltpairs or len(spws) < u.Nspws or len(pols) < u.Npols)
    note.label(*[k for k in ("spws", "bls", "blps", "times", "lsts", "pps") if k in sel], "wf_" + sp["wf"])


def law_default_bls(c, note):
    """without only_pairs_in_bls a partial read keeps pairs with either baseline in the list"""
    sp = c["sp"]
    u = build(sp)
    bls = [u.bl_to_antnums(u.bl_array[c["j"] % u.Nbls])]
    with scratch() as d:
        f = os.path.join(d, "a.h5")
        u.write_hdf5(f)
        p = UVPSpec()
        p.read_hdf5(f, bls=bls)
    e = u.select(bls=bls, only_pairs_in_bls=False, inplace=False)
    same(p, e, ignore=("r_params",))
    note.nt(e.Nbltpairs < u.Nbltpairs)


@st.composite
def legacy_case(draw):
    sp = draw(uvps.spec(same_pol=True, wf=draw(st.sampled_from(["none", "approx"]))))
    return dict(sp=sp, sel=draw(selection(sp)) if draw(st.booleans()) else None, old=draw(st.lists(st.sampled_from(["bytes", "nblpts", "pols", "exact"]), min_size=1, max_size=4, unique=True)), meta=draw(st.booleans()))


def law_legacy(c, note):
    """files written by older versions (byte strings, Nblpairts, pol_array, no exact_windows) are read whole and in part as the same object"""
    sp = c["sp"]
    u = build(sp)
    kw = {}
    if c["sel"]:
        if not expected_index(u, sp, c["sel"])[0]:
            raise Skip()
        kw = kwargs_of(u, sp, c["sel"])
    with scratch() as d:
        f, g = os.path.join(d, "a.h5"), os.path.join(d, "b.h5")
        u.write_hdf5(f)
        u.write_hdf5(g)
        with h5py.File(f, "r+") as h:
            if "bytes" in c["old"]:
                for k in list(h.attrs):
                    if isinstance(h.attrs[k], str):
                        h.attrs[k] = np.bytes_(h.attrs[k].encode())
            if "nblpts" in c["old"]:
                h.attrs["Nblpairts"] = h.attrs["Nbltpairs"]
                del h.attrs["Nbltpairs"]
            if "pols" in c["old"]:
                h.attrs["pol_array"] = np.array([p[0] for p in sp["pps"]])
                del h.attrs["polpair_array"]
            if "exact" in c["old"]:
                del h.attrs["exact_windows"]
        p, q = UVPSpec(), UVPSpec()
        p.read_hdf5(f, just_meta=c["meta"], **kw)
        q.read_hdf5(g, just_meta=c["meta"], **kw)
    a, b = snap(p), snap(q)
    same(a, b, ignore=("r_params",))
    if not c["meta"]:
        rp_equal(p, q)
    assert "Nblpairts" not in a and "pol_array" not in a
    note.nt(bool(kw) or len(c["old"]) > 1)
    note.label(*c["old"], "part" if kw else "whole")


LAWS = [
    Law("roundtrip", st.fixed_dictionaries(dict(sp=uvps.spec(), used=st.booleans(), uni=st.booleans(), special=st.booleans())), law_roundtrip, quick=500, shards=4, weight=5),
    Law("meta", case(), law_meta, quick=300, shards=2, weight=3),
    Law("partial", case(), law_partial, quick=800, shards=4, weight=5),
    Law("legacy", legacy_case(), law_legacy, quick=60),
    Law("default_bls", st.fixed_dictionaries(dict(sp=uvps.spec(), j=st.integers(0, 3))), law_default_bls, quick=80),
]
