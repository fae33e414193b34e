"""C02: a PSpecContainer is a map (group, spectrum) -> UVPSpec over any history."""
import copy
import gc
import os
import pickle
import shutil
from unittest import mock

import h5py
import numpy as np
from hypothesis import strategies as st
from typer.testing import CliRunner

from checks import c04
from hera_pspec import cli, container
from hera_pspec.container import PSpecContainer, combine_psc_spectra
from pv import uvps
from pv.core import Law, Skip
from pv.scratch import scratch
from pv.uvps import build, raises, same, snap

RULE = ("Cases are generated operation histories (open in each mode, store one or several with and without overwrite, failing stores, fetch, partial fetch, list, "
        "save, second reader) over a small name space compared step by step with a dictionary; or a set of split spectra to merge back. Non-trivial when the history "
        "stores at least two spectra and overwrites, fails or reopens at least once, or when at least two parts are merged.")
ASSUMPTIONS = ["a second reader opens the file while no keep-open writer holds it (HDF5 file locking)", "names are plain HDF5 link names"]

GROUPS = ["g0", "g1", "grp two"]
NAMES = ["a", "b", "a_1", "a__old", "c_x_d"]

SMALL = dict(max_spw=2, max_blp=2, max_t=2, max_pol=2)


def pool(seeds, sp):
    """a few distinct valid objects derived from one spec"""
    return [build(dict(sp, seed=sp["seed"] + 101 * k, folded=bool(k % 2), nt=1 + (sp["nt"] + k) % 3)) for k in range(seeds)]


@st.composite
def op(draw):
    g = st.sampled_from(GROUPS[:2] * 3 + GROUPS[2:])
    n = st.sampled_from(NAMES)
    i = st.integers(0, 3)
    kind = draw(st.sampled_from(["set"] * 6 + ["setlist", "setlist", "get", "get", "getall", "partial", "list", "save", "reopen", "reopen", "reopen", "bad", "bad", "fault", "fault",
                                         "badkey", "reader"]))
    d = dict(op=kind)
    if kind in ("set", "bad", "fault", "get", "partial"):
        d.update(g=draw(g), n=draw(n), i=draw(i), ow=draw(st.booleans()))
    if kind == "partial":
        d["meta"] = draw(st.booleans())
    if kind == "bad":
        d["how"] = draw(st.sampled_from(["type", "wrongattr", "missing", "grouplist", "namelist"]))
    if kind == "fault":
        d["at"] = draw(st.integers(0, 30))
    if kind == "setlist":
        d.update(g=draw(g), items=draw(st.lists(st.tuples(n, i).map(list), min_size=1, max_size=3, unique_by=lambda x: x[0])), ow=draw(st.booleans()),
                 bad=draw(st.sampled_from([-1, -1, 0, 1, 2])))
    if kind in ("getall", "badkey"):
        d.update(g=draw(g))
    if kind == "reopen":
        d.update(mode=draw(st.sampled_from(["rw", "rw", "rw", "r"])), keep=draw(st.booleans()), swmr=draw(st.sampled_from([False, False, False, True])))
    return d


@st.composite
def history(draw):
    return dict(sp=draw(uvps.spec(**SMALL)), keep=draw(st.booleans()), ops=draw(st.lists(op(), min_size=4, max_size=24)))


def check_all(psc, model, deep):
    """the container shows exactly the model"""
    assert sorted(psc.groups()) == sorted(g for g in model), "groups %s, stored %s" % (sorted(psc.groups()), sorted(model))
    for g in model:
        assert sorted(psc.spectra(g)) == sorted(model[g]), "spectra of %s: %s, stored %s" % (g, sorted(psc.spectra(g)), sorted(model[g]))
    t = psc.tree(return_str=False)
    assert {g: sorted(v) for g, v in t.items()} == {g: sorted(v) for g, v in model.items()}, "tree"
    s = psc.tree()
    cur, seen = None, {}
    for line in s.splitlines():
        if line.startswith("("):
            cur = line[1:-1]
            seen[cur] = []
        elif line.strip():
            seen[cur].append(line.split("|--", 1)[1])
    assert {g: sorted(v) for g, v in seen.items()} == {g: sorted(v) for g, v in model.items()}, "printed tree"
    if deep:
        for g in model:
            for n in model[g]:
                same(psc.get_pspec(g, n), model[g][n])


def run_history(c, note):
    from hera_pspec import UVPSpec
    objs = pool(4, c["sp"])
    snaps = [snap(o) for o in objs]
    refs = []
    with scratch() as d:
        # what one object looks like after one write and read (C01 decides that it is the object itself)
        for k, o in enumerate(objs):
            f = os.path.join(d, "ref%d.h5" % k)
            o.write_hdf5(f)
            r = UVPSpec()
            r.read_hdf5(f)
            refs.append(snap(r))
        path = os.path.join(d, "c.h5")
        psc = PSpecContainer(path, mode="rw", keep_open=c["keep"])
        if not c["keep"]:
            psc.save()
        cur = dict(mode="rw", keep=c["keep"], swmr=False)
        model = {}
        nset = nother = 0
        for step, o in enumerate(c["ops"]):
            k = o["op"]
            before = copy.copy({g: dict(v) for g, v in model.items()})
            ro = cur["mode"] == "r"
            deep = False
            exists = k in ("set", "bad", "fault", "get", "partial") and o["n"] in model.get(o["g"], {})
            if k in ("set", "fault"):
                u = objs[o["i"]]
                refuse = ro or (exists and not o["ow"]) or (cur["swmr"] and not exists)
                inj = mock.patch.object(h5py.Group, "create_dataset", _failing(o["at"])) if k == "fault" else mock.patch.object(container, "__doc__", container.__doc__)
                ok = True
                with inj:
                    try:
                        psc.set_pspec(o["g"], o["n"], u, overwrite=o["ow"])
                    except Exception:  # noqa: BLE001
                        ok = False
                        if k == "set" and not refuse and not cur["swmr"]:
                            raise
                if refuse:
                    assert not ok, "store of %s/%s was not refused (mode %s, exists %s, overwrite %s, swmr %s)" % (o["g"], o["n"], cur["mode"], exists, o["ow"], cur["swmr"])
                    note.label("refused")
                    deep = True
                if ok:
                    model.setdefault(o["g"], {})[o["n"]] = refs[o["i"]]
                    nset += 1
                    nother += exists
                    note.label("overwrite" if exists else "store")
                else:
                    nother += 1
                    deep = True
                    note.label("failed store" + (" over existing" if exists and not refuse else ""))
                same(u, snaps[o["i"]])
            elif k == "bad":
                u = objs[o["i"]]
                g, n = o["g"], o["n"]
                if o["how"] == "type":
                    u = "not a spectrum"
                elif o["how"] == "wrongattr":
                    u = copy.deepcopy(u)
                    u.time_avg_array = "noon"
                elif o["how"] == "missing":
                    u = copy.deepcopy(u)
                    del u.time_avg_array
                elif o["how"] == "grouplist":
                    g = [g]
                else:
                    n = [n]
                assert raises(psc.set_pspec, g, n, u, overwrite=o["ow"]), "invalid store (%s) accepted" % o["how"]
                deep = True
                nother += 1
                note.label("invalid " + o["how"])
            elif k == "setlist":
                names = [x[0] for x in o["items"]]
                us = [objs[x[1]] for x in o["items"]]
                bad = o["bad"] if o["bad"] < len(us) else -1
                if bad >= 0:
                    us[bad] = {"not": "a spectrum"}
                err = None
                try:
                    psc.set_pspec(o["g"], names, us, overwrite=o["ow"])
                except Exception as e:  # noqa: BLE001
                    err = repr(e)
                # items are stored in order up to the first that is refused
                m = dict(model.get(o["g"], {}))
                expect_err = False
                for j, (n, i) in enumerate(o["items"]):
                    if ro or (cur["swmr"]) or j == bad or (n in m and not o["ow"]):
                        expect_err = True
                        break
                    m[n] = refs[i]
                if cur["swmr"] and not ro:  # only spectra that exist can be replaced
                    old = model.get(o["g"], {})
                    m = _observed(psc, o["g"], {**old, **{n: refs[i] for n, i in o["items"] if n in old}}, base=old)
                else:
                    assert (err is not None) == expect_err, "list store: %r, expected %s" % (err, "a refusal" if expect_err else "success")
                    if err is not None:
                        # all, some or none of the items before the refused one may be there
                        m = _observed(psc, o["g"], m, base=model.get(o["g"], {}))
                if m:
                    model[o["g"]] = m
                deep = True
                nset += len(m)
                note.label("list" + (" refused" if err is not None else ""))
            elif k == "get":
                if exists:
                    got = psc.get_pspec(o["g"], o["n"])
                    same(got, model[o["g"]][o["n"]])
                    note.label("get")
                else:
                    assert _keyerror(psc.get_pspec, o["g"], o["n"]), "missing spectrum %s/%s" % (o["g"], o["n"])
            elif k == "partial":
                if not exists:
                    continue
                ref = model[o["g"]][o["n"]]
                if o["meta"]:
                    got = snap(psc.get_pspec(o["g"], o["n"], just_meta=True))
                    assert "data_array" not in got and int(got["Nbltpairs"]) == int(ref["Nbltpairs"])
                    assert np.array_equal(got["blpair_array"], ref["blpair_array"]), "partial read"
                else:
                    bp = int(ref["blpair_array"][-1])
                    got = psc.get_pspec(o["g"], o["n"], blpairs=[bp], spws=[0])
                    rows = np.asarray(ref["blpair_array"]) == bp
                    assert np.array_equal(got.data_array[0], ref["data_array"][0][rows]), "partial read"
                note.label("partial")
            elif k == "getall":
                if o["g"] not in model:
                    assert _keyerror(psc.get_pspec, o["g"]) and _keyerror(psc.spectra, o["g"]), "missing group"
                    continue
                names, got = psc.spectra(o["g"]), psc.get_pspec(o["g"])
                assert len(got) == len(names) == len(model[o["g"]])
                for n, g in zip(names, got):
                    same(g, model[o["g"]][n])
                note.label("getall")
            elif k == "badkey":
                assert _keyerror(psc.get_pspec, "no such group", "a") and _keyerror(psc.spectra, "no such group")
                if o["g"] in model:
                    assert _keyerror(psc.get_pspec, o["g"], "nothing")
            elif k == "save":
                psc.save()
            elif k == "reader":
                if not ro and not cur["keep"]:
                    check_all(PSpecContainer(path, mode="r", keep_open=False), model, True)
                    note.label("second reader")
            elif k == "reopen":
                del psc
                gc.collect()
                psc = PSpecContainer(path, mode=o["mode"], keep_open=o["keep"], swmr=o["swmr"])
                cur = dict(mode=o["mode"], keep=o["keep"], swmr=o["swmr"])
                deep = True
                nother += 1
                note.label("reopen %s%s%s" % (o["mode"], " swmr" if o["swmr"] else "", "" if o["keep"] else " transactional"))
            if not cur["keep"] and not cur["swmr"]:
                # between operations the file is complete on disk: another process can read it (here, a copy of it)
                other = shutil.copy(path, os.path.join(d, "copy.h5"))
                check_all(PSpecContainer(other, mode="r", keep_open=False), model, False)
                os.remove(other)
            check_all(psc, model, deep)
        del psc
        gc.collect()
        check_all(PSpecContainer(path, mode="r", keep_open=True), model, True)
    note.nt(nset >= 2 and nother >= 1)


def _observed(psc, g, m, base=None):
    """the entries of m actually listed (a list store may be abandoned on the way), every one of `base` must be there"""
    have = psc.spectra(g) if g in psc.groups() else []
    assert set(have) <= set(m), "unexpected spectra %s" % (set(have) - set(m))
    out = {}
    for n in have:
        got = psc.get_pspec(g, n)
        cands = [m[n]] + ([base[n]] if base and n in base else [])
        assert any(not raises(same, got, x) for x in cands), "spectrum %s/%s is neither the old nor the new one" % (g, n)
        out[n] = snap(got)
    for n in (base or {}):
        assert n in out, "%s lost" % n
    return out


def _failing(at):
    real = h5py.Group.create_dataset
    count = [0]

    def create_dataset(self, *a, **k):
        if count[0] == at:
            raise OSError("injected: no space left on device")
        count[0] += 1
        return real(self, *a, **k)
    return create_dataset


def _keyerror(fn, *a):
    try:
        fn(*a)
    except KeyError:
        return True
    return False


# ------------------------------------------------------------------------------------------------ merging
@st.composite
def merge_case(draw):
    return dict(sp=draw(uvps.spec(max_spw=2, max_blp=4, max_t=3, max_pol=2)), axis=draw(c04.AX), cuts=draw(c04.CUTS), keep=draw(st.booleans()), path=draw(st.booleans()),
                split=draw(st.sampled_from(["_x_", "_x_", "_x_", None, ""])), pairs=draw(st.integers(1, 3)), lone=draw(st.booleans()), clash=draw(st.sampled_from([False, False, True])),
                exists=draw(st.sampled_from([False, False, False, True])), groups=draw(st.sampled_from([None, None, "one", "missing"])), perm=draw(st.integers(0, 999)),
                ext=draw(st.sampled_from(["_", "_", "."])), history=draw(st.booleans()))


def run_merge(c, note):
    u = build(dict(c["sp"], seed=c["sp"]["seed"]))
    parts = c04.split(u, c["axis"], c["cuts"])
    pairs = [("d1", "d2"), ("d1", "d20"), ("d11", "d2")][:c["pairs"]]
    ext = c["ext"]
    base = [("_x_".join(p) if c["split"] else "uvp%s" % "".join(p)) for p in pairs]
    objs = {b: build(dict(c["sp"], seed=c["sp"]["seed"] + 31 * k)) for k, b in enumerate(base)}
    with scratch() as d:
        path = os.path.join(d, "c.h5")
        psc = PSpecContainer(path, mode="rw", keep_open=c["keep"])
        stored = {}
        for g in ("g0", "g1"):
            store = []
            for b in base:
                ps = c04.split(objs[b], c["axis"], c["cuts"])
                store += [(b + ext + "p%d" % i, p) for i, p in enumerate(ps)]
            if c["clash"]:  # the first pair cannot be merged: a part overlaps another
                store.append((base[0] + ext + "zz", c04.split(objs[base[0]], c["axis"], c["cuts"])[0]))
            if c["exists"]:
                store.append((base[-1], objs[base[-1]]))
            order = np.random.default_rng(c["perm"]).permutation(len(store))
            for j in order:
                psc.set_pspec(g, store[j][0], store[j][1])
            stored[g] = {n: snap(psc.get_pspec(g, n)) for n, _ in store}
        groups = {None: None, "one": ["g1"], "missing": ["g1", "nope"]}[c["groups"]]
        if c["path"]:
            del psc
            gc.collect()
        arg = path if c["path"] else psc
        kw = {}
        if ext != "_":
            kw["ext_split_str"] = ext
        if c["split"] != "_x_":
            kw["dset_split_str"] = c["split"]
        combine_psc_spectra(arg, groups=groups, merge_history=c["history"], verbose=False, **kw)
        if not c["path"]:
            del psc
            gc.collect()
        out = PSpecContainer(path, mode="r", keep_open=False)
        assert sorted(out.groups()) == ["g0", "g1"]
        nparts = 0
        for g in ("g0", "g1"):
            want = dict(stored[g])
            if groups is None or g in groups:
                for k, b in enumerate(base):
                    mine = [n for n in stored[g] if n.startswith(b + ext)]
                    if (c["exists"] and b == base[-1]) or (c["clash"] and k == 0):
                        continue  # refused: everything stays
                    for n in mine:
                        del want[n]
                    want[b] = objs[b]
                    nparts = max(nparts, len(mine))
            assert sorted(out.spectra(g)) == sorted(want), "after the merge %s holds %s, expected %s" % (g, sorted(out.spectra(g)), sorted(want))
            for n, w in want.items():
                got = out.get_pspec(g, n)
                if isinstance(w, dict):
                    same(got, w)
                else:
                    c04.same_cells(c04.cells(snap(w)), c04.cells(snap(got)))
                    c04.check_meta(got, w)
    note.nt(nparts >= 2)
    note.label(c["axis"], "groups %s" % c["groups"], "clash" if c["clash"] else "clean", "transactional" if not c["keep"] else "open", "exists" if c["exists"] else "new")


# ------------------------------------------------------------------------------------------------ fast merge
@st.composite
def cli_case(draw):
    return dict(sp=draw(uvps.spec(max_spw=2, max_blp=4, max_t=2, max_pol=2)), cuts=draw(st.sampled_from([[0, 1, 2, 3], [0, 1, 2, 3], [0, 1], [1, 0, 0], [0, 1, 1]])), names=draw(st.integers(1, 2)),
                batch=draw(st.sampled_from([None, 1, 2, 3, 7])), extras=draw(st.integers(0, 2)), progress=draw(st.booleans()), perm=draw(st.integers(0, 99)), preexist=draw(st.booleans()))


def run_cli(c, note):
    names = ["interleave", "time_avg"][:c["names"]]
    if len(names) > 1:  # the names of one file hold the same baseline pairs, as in the single-baseline files the command is for
        c["sp"]["drop"] = 0
    objs = {n: build(dict(c["sp"], seed=c["sp"]["seed"] + 7 * k)) for k, n in enumerate(names)}
    extra = ["nights", "lst range"][:c["extras"]]
    pieces = {n: c04.split(o, "blp", c["cuts"]) for n, o in objs.items()}
    nf = len(pieces[names[0]])
    with scratch() as d:
        order = np.random.default_rng(c["perm"]).permutation(nf)
        meta = {x: {} for x in extra}
        for j in range(nf):
            f = os.path.join(d, "blpair.%02d.h5" % order[j])
            psc = PSpecContainer(f, mode="rw", keep_open=False)
            for n in names:
                psc.set_pspec("stokespol", n, pieces[n][j])
                psc.set_pspec("other", n, pieces[n][j])
            psc.set_pspec("stokespol", "unrelated", pieces[names[0]][j])
            del psc
            gc.collect()
            with h5py.File(f, "a") as h:
                for x in extra:
                    h["header"].attrs[x] = 100 * j + len(x)
                    meta[x][tuple(pieces[names[-1]][j].get_blpairs()[0])] = 100 * j + len(x)
        out = os.path.join(d, "merged.v1")
        if c["preexist"]:
            PSpecContainer(out + ".pspec.h5", mode="rw", keep_open=False).set_pspec("keep", "me", objs[names[0]])
        args = ["fast-merge-baselines", "--pattern", os.path.join(d, "blpair.*.h5"), "--group", "stokespol", "--outpath", out]
        for n in names:
            args += ["--names", n]
        for x in extra:
            args += ["--extras", x]
        if c["batch"]:
            args += ["--batch-size", str(c["batch"])]
        args += ["--progress" if c["progress"] else "--no-progress"]
        r = CliRunner().invoke(cli.app, args)
        assert r.exit_code == 0, "exit %s: %r %s" % (r.exit_code, r.exception, r.output[-500:])
        psc = PSpecContainer(out + ".pspec.h5", mode="r", keep_open=False)
        assert sorted(psc.groups()) == sorted(["stokespol"] + (["keep"] if c["preexist"] else [])), psc.groups()
        assert sorted(psc.spectra("stokespol")) == sorted(names), psc.spectra("stokespol")
        for n in names:
            got = psc.get_pspec("stokespol", n)
            c04.same_cells(c04.cells(snap(objs[n])), c04.cells(snap(got)))
            c04.check_meta(got, objs[n])
        for x in extra:
            with open(out + ".%s.pkl" % x, "rb") as f:
                got = pickle.load(f)
            assert {tuple(map(tuple, k)): int(v) for k, v in got.items()} == meta[x], "extras %s: %s, expected %s" % (x, got, meta[x])
        # the inputs are read only
        for j in range(nf):
            p = PSpecContainer(os.path.join(d, "blpair.%02d.h5" % order[j]), mode="r", keep_open=False)
            assert sorted(p.spectra("stokespol")) == sorted(names + ["unrelated"])
    note.nt(nf >= 2)
    note.label("files %d" % nf, "batch %s" % c["batch"], "names %d" % len(names), "extras %d" % len(extra))


LAWS = [
    Law("history", history(), run_history, quick=150, thorough=4000, shards=4,
        doc="an operation history leaves the container equal to a dictionary given the same operations"),
    Law("merge", merge_case(), run_merge, quick=66, thorough=2500, shards=3,
        doc="combine_psc_spectra: each dataset pair's parts become the spectrum that was split; nothing else changes"),
    Law("fast_merge", cli_case(), run_cli, quick=60, thorough=2000, shards=2,
        doc="fast-merge-baselines: the merged file holds the combined spectra and the extras of every file"),
]
