"""C22: out-of-place operations leave their inputs alone; in-place ones end in the same state."""
import copy
import os
import warnings

import numpy as np
from hypothesis import strategies as st

from hera_pspec import grouping, loss
from hera_pspec import uvpspec_utils as uu
from hera_pspec.container import PSpecContainer
from hera_pspec.uvpspec import combine_uvpspec, get_uvp_overlap, recursive_combine_uvpspec
from pv import dsets, uvps
from pv.core import Law, Skip
from pv.scratch import scratch
from pv.uvps import build, raises, same, snap

from checks import c03, c07, c08, c13

RULE = ("Cases are generated UVPSpecs (or visibility data sets) with a generated sequence of operations and arguments; non-trivial when the operations change something, so that an aliased or mutated input would show.")
ASSUMPTIONS = ["private caches (attributes starting with an underscore) are not part of an object's state",
               "PSpecData methods that are documented to edit the loaded data (Jy_to_mK, trim_dset_lsts, broadcast_dset_flags, rephase_to_dset in place) are not out-of-place operations"]

warnings.simplefilter("ignore")


# ------------------------------------------------------------------------------------------------ memory
def arrays(x, path="", depth=0, seen=None):
    """all arrays reachable from an object or container, with their paths"""
    seen = set() if seen is None else seen
    if id(x) in seen or depth > 6:
        return
    if isinstance(x, np.ndarray):
        if x.size and x.dtype != object:
            yield path, x
        return
    if isinstance(x, dict):
        seen.add(id(x))
        for k, v in x.items():
            yield from arrays(v, "%s[%s]" % (path, k), depth + 1, seen)
    elif isinstance(x, (list, tuple)):
        seen.add(id(x))
        for i, v in enumerate(x):
            yield from arrays(v, "%s[%d]" % (path, i), depth + 1, seen)
    elif type(x).__name__ in ("UVPSpec", "UVData"):
        seen.add(id(x))
        for k, v in vars(x).items():
            if type(v).__name__ == "UVParameter":
                v = v.value
            if type(v).__name__ != "PSpecParam":
                yield from arrays(v, "%s.%s" % (path, k), depth + 1, seen)


def apart(out, ins, what):
    """the result shares no memory with the inputs"""
    a = list(arrays(out, "result"))
    for p, x in arrays(ins, "input"):
        for q, y in a:
            assert not np.may_share_memory(x, y), "%s: %s is the same memory as %s" % (what, q, p)


def other(u, sp, j, **kw):
    return build(dict(sp, seed=sp["seed"] + 1 + j, **kw))


# ------------------------------------------------------------------------------------------------ operations with inplace
@st.composite
def op(draw, sp):
    k = draw(st.sampled_from(["select", "average", "deltasq", "bias", "cov", "select"]))
    d = dict(op=k)
    if k == "select":
        d["kw"] = draw(c03.selection(sp))
    elif k == "average":
        d.update(time_avg=draw(st.booleans()), all=draw(st.booleans()), ew=draw(st.sampled_from([None, "P_N"])), ef=draw(st.sampled_from([None, "P_N", "all"])), w=draw(st.booleans()))
    elif k == "bias":
        d.update(t=draw(st.sampled_from([None, 2.0, 1.37])), d=draw(st.sampled_from([None, 3.0])))
    elif k == "cov":
        d.update(taper=draw(st.sampled_from(["blackmanharris", "hann"])))
    return d


def callable_of(d, u, sp):
    """-> (argument containers, f(u, inplace) -> result)"""
    k = d["op"]
    if k == "select":
        kw = c03.kwargs_of(u, sp, d["kw"])
        return kw, lambda v, i: v.select(inplace=i, **kw)
    if k == "average":
        blps = u.get_blpairs()
        kw = dict(time_avg=d["time_avg"], error_weights=d["ew"])
        if d["ef"]:
            kw["error_field"] = ["P_N", "P_SN"] if d["ef"] == "all" else d["ef"]
        if d["all"]:
            kw["blpair_groups"] = [list(blps)]
            if d["w"]:
                kw["blpair_weights"] = [[1.0 + 0.5 * i for i in range(len(blps))]]
        return kw, lambda v, i: v.average_spectra(inplace=i, **kw)
    if k == "deltasq":
        return {}, lambda v, i: v.convert_to_deltasq(inplace=i)
    if k == "bias":
        kw = {n: None if d[x] is None else {int(s): d[x] + s for s in range(u.Nspws)} for n, x in (("total_bias", "t"), ("data_bias", "d"))}
        return kw, lambda v, i: loss.apply_bias_correction(v, inplace=i, **kw)
    return {}, lambda v, i: v.add_approximate_covariance("P_N", inplace=i, taper=d["taper"])


def applicable(d, u):
    if d["op"] == "deltasq":
        return "Delta^2" not in u.norm_units and "k^3" not in u.norm_units and hasattr(u, "cosmo")
    if d["op"] == "average" and d["all"]:
        # an average over pairs needs the same times in the same order
        t = [tuple(u.time_avg_array[u.blpair_array == b]) for b in dict.fromkeys(u.blpair_array.tolist())]
        return d["time_avg"] or len(set(t)) == 1
    return True


@st.composite
def chain_case(draw):
    sp = draw(uvps.spec(stats=["P_N", "P_SN"], eqnd=True, cosmo=draw(st.sampled_from([0, 1, 2])), ragged=False, orders=["bl", "t"]))
    return dict(sp=sp, ops=draw(st.lists(op(sp), min_size=1, max_size=4)))


def chain(c, note):
    """a history of operations: every intermediate object stays as it was, shares nothing with its successor, and the in-place history ends in the same state"""
    sp = c["sp"]
    u = build(sp)
    v = copy.deepcopy(u)  # follows in place
    hist = [(u, snap(u))]
    done = []
    for n, d in enumerate(c["ops"]):
        if d["op"] == "select" and n:
            d = dict(d, kw={k: x for k, x in d["kw"].items() if k in ("pps", "pp_form")})  # other axes may have changed
        if not applicable(d, u):
            continue
        try:
            kw, f = callable_of(d, u, sp)
        except Skip:
            continue
        keep = copy.deepcopy(kw)
        try:
            r = f(u, False)
        except Exception:
            # refused: nothing may have changed, and in place it is refused, too
            for x, s in hist:
                same(x, s)
            assert raises(f, copy.deepcopy(u), True), "%s is refused out of place but accepted in place" % d["op"]
            note.label("refused " + d["op"])
            continue
        same(kw, keep)
        for x, s in hist:
            same(x, s)
        assert r is not u
        apart(r, [x for x, _ in hist], d["op"])
        apart(r, kw, d["op"] + " arguments")
        kw2, f2 = callable_of(d, v, sp)
        q = f2(v, True)
        assert q is None or q is v, "%s in place returned another object" % d["op"]
        same(kw2, keep)
        same(v, r)
        apart(v, kw2, d["op"] + " arguments in place")
        hist.append((r, snap(r)))
        u = r
        done.append(d["op"])
    if not done:
        raise Skip("no applicable operation")
    # writing into the last result changes none of the earlier objects
    last = hist.pop()[0]
    for p, x in arrays(last):
        if x.dtype.kind in "fci":
            x[...] = 7
    for x, s in hist:
        same(x, s)
    note.nt(any(sorted(map(str, a)) != sorted(map(str, b)) or a["data_array"][0].shape != b["data_array"][0].shape or not np.array_equal(a["data_array"][0], b["data_array"][0]) for (_, a), (_, b) in zip(hist, hist[1:]))
            or len(done) > 0)
    note.label(*done)


# ------------------------------------------------------------------------------------------------ operations returning new objects
@st.composite
def fresh_case(draw):
    k = draw(st.sampled_from(["spherical", "delaybins", "subtract", "combine", "recursive", "add", "common", "bootstrap", "boot_avg", "noise", "copy"]))
    if k == "spherical":
        return dict(k=k, c=draw(c07.case()), A=draw(st.booleans()))
    if k == "delaybins":
        return dict(k=k, c=draw(c08.case()))
    kw = dict(stats=["P_N"])
    if k in ("subtract", "common"):
        kw.update(ragged=False)
    if k in ("bootstrap", "boot_avg"):
        kw.update(orders=["bl", "t"], ragged=False)
    if k == "noise":
        kw.update(cosmo=draw(st.sampled_from([0, 1])), beam=True)
    return dict(k=k, c=dict(sp=draw(uvps.spec(**kw))), axis=draw(st.sampled_from(["spw", "blp", "pol", "time"])), seed=draw(st.integers(0, 5)), time_avg=draw(st.booleans()))


def fresh(c, note):
    """operations that return new objects: inputs and arguments stay bit for bit, and share nothing with the result"""
    sp, k = c["c"]["sp"], c["k"]
    u = build(sp)
    ins, kw = [u], {}
    if k == "spherical":
        kw = c07.kwargs(c["c"], *c07.bins(c["c"], u))
        if c["A"]:
            kw["A"] = {}
        f = lambda: grouping.spherical_average(u, **kw)
    elif k == "delaybins":
        c08.room(c["c"])
        kk, z = c08.kern(c["c"])
        kw = dict(kernel=kk, zero_bin_kernel=z)
        f = lambda: grouping.average_in_delay_bins(u, **kw)
    elif k == "subtract":
        ins.append(other(u, sp, 0))
        f = lambda: uu.subtract_uvp(*ins)
    elif k == "common":
        ins.append(other(u, sp, 0).select(spws=[0], inplace=False))
        f = lambda: uu.select_common(ins, times=not c["time_avg"], lsts=c["time_avg"], inplace=False)
    elif k in ("combine", "recursive", "add"):
        from checks.c04 import split
        ins = split(u, c["axis"] if c["axis"] in ("spw", "blp", "pol") else "spw", [0, 1])
        if len(ins) < 2:
            raise Skip("one piece")
        f = {"combine": lambda: combine_uvpspec(ins, verbose=False), "recursive": lambda: recursive_combine_uvpspec(ins), "add": lambda: ins[0] + ins[1]}[k]
    elif k == "bootstrap":
        kw = dict(blpair_groups=[u.get_blpairs()], cintervals=[16.0, 84.0])
        f = lambda: grouping.bootstrap_resampled_error(u, Nsamples=5, seed=c["seed"], time_avg=c["time_avg"], **kw)
    elif k == "boot_avg":
        ins = [u, other(u, sp, 0)]
        kw = dict(blpair_groups=[u.get_blpairs()])
        f = lambda: grouping.bootstrap_average_blpairs(ins, seed=c["seed"], time_avg=c["time_avg"], **kw)
    elif k == "noise":
        kw = dict(spw=0, polpair=int(u.polpair_array[0]), Tsys={b: np.full(int((u.blpair_array == b).sum()), 200.0) for b in u.blpair_array.tolist()}, blpairs=list(u.get_blpairs()), scalar=3.0)
        f = lambda: u.generate_noise_spectra(**kw)
    else:
        f = lambda: copy.deepcopy(u)
    snaps = [snap(x) for x in ins]
    order = list(ins)
    keep = copy.deepcopy({n: v for n, v in kw.items() if n != "A"})
    try:
        out = f()
    except Exception:
        if k in ("subtract", "combine", "add", "bootstrap", "copy"):
            raise
        out = None  # the value laws decide what may be refused
        note.label("refused " + k)
    assert len(ins) == len(order) and all(a is b for a, b in zip(ins, order)), "%s changed its list of inputs" % k
    for x, s in zip(ins, snaps):
        same(x, s)
    same({n: v for n, v in kw.items() if n != "A"}, keep)
    if out is not None:
        apart(out, ins, k)
        apart(out, {n: v for n, v in kw.items() if n != "A"}, k + " arguments")
        # again: the same answer (no state was left anywhere)
        again = f() if k not in ("spherical",) or not c.get("A") else None
        if again is not None:
            cmp(out, again)
    note.nt(out is not None)
    note.label(k)


def cmp(a, b):
    if isinstance(a, (list, tuple)):
        assert len(a) == len(b)
        for x, y in zip(a, b):
            cmp(x, y)
    elif isinstance(a, dict):
        assert list(map(str, a)) == list(map(str, b))
        for k in a:
            cmp(a[k], b[k])
    elif isinstance(a, np.ndarray):
        assert np.array_equal(a, b, equal_nan=a.dtype.kind in "fc"), "a second identical call gave another answer"
    elif type(a).__name__ == "UVPSpec":
        same(a, b)
    else:
        assert a is b or a == b


# ------------------------------------------------------------------------------------------------ readers
READERS = ["getters", "write", "store", "overlap", "k", "plot_spectrum", "plot_waterfall", "plot_wedge", "reds", "noise"]


@st.composite
def reader_case(draw):
    sp = draw(uvps.spec(stats=["P_N"], cosmo=draw(st.sampled_from([0, 1])), ragged=False, orders=["bl", "t"], max_ant=6))
    return dict(sp=sp, rs=draw(st.lists(st.sampled_from(READERS), min_size=1, max_size=3, unique=True)), o=[draw(st.booleans()) for _ in range(5)])


def readers(c, note):
    """reading, writing, storing, comparing and plotting leave the object as it was"""
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    from hera_pspec import plot
    u = build(c["sp"])
    s = snap(u)
    o = c["o"]
    key = (0, u.get_blpairs()[0], int(u.polpair_array[0]))
    for r in c["rs"]:
        if r == "getters":
            u.get_data(key, omit_flags=o[0]), u.get_wgts(key), u.get_integrations(key), u.get_nsamples(key), u.get_dlys(0), u.get_stats("P_N", key), u.get_spw_ranges(), u.get_all_keys(), u.get_r_params()
            u.get_blpair_seps(), u.get_blpair_blvecs(), u.get_ENU_bl_vecs(), u.key_to_indices(key), u.get_polpairs(), repr(u), u == copy.deepcopy(u), u.units
            if hasattr(u, "cov_array_real"):
                u.get_cov(key), u.get_cov(key, component="imag")
            if hasattr(u, "window_function_array"):
                u.get_window_function(key)
        elif r == "write":
            with scratch() as d:
                u.write_hdf5(os.path.join(d, "x.h5"), overwrite=True)
        elif r == "store":
            with scratch() as d:
                p = PSpecContainer(os.path.join(d, "c.h5"), mode="rw", keep_open=o[0], swmr=False)
                p.set_pspec("g", ["a", "b"], [u, u], overwrite=o[1])
                v = p.get_pspec("g", "a")
                same(u, s)
                apart(v, u, "get_pspec")
        elif r == "overlap":
            v = u.select(polpairs=[int(u.polpair_array[0])], inplace=False)
            w = u.select(polpairs=[int(u.polpair_array[-1])], inplace=False)
            v = w if o[0] else v
            sv = snap(v)
            try:
                get_uvp_overlap([w, v], just_meta=o[1], verbose=False)
            except Exception:
                note.label("overlap refused")
            same(v, sv)
        elif r == "k":
            u.get_kparas(0, little_h=o[0]), u.get_kperps(0, little_h=o[0])
        elif r == "reds":
            u.get_red_bls(), u.get_red_blpairs()
        elif r == "noise":
            u.generate_noise_spectra(0, int(u.polpair_array[0]), 300.0, scalar=2.0)
        elif r == "plot_spectrum":
            b = [[x] for x in u.get_blpairs()]
            if o[0]:
                b = [u.get_blpairs()]
            kb = copy.deepcopy(b)
            plot.delay_spectrum(u, b, 0, int(u.polpair_array[0]), average_blpairs=o[0], average_times=o[1], fold=o[2] and not u.folded, delay=o[3], deltasq=o[4] and not o[3], error=None if o[0] or o[1] else "P_N")
            assert b == kb, "delay_spectrum changed its list of baseline-pairs"
        elif r == "plot_waterfall":
            b = [[x] for x in u.get_blpairs()]
            if o[0]:
                b = [u.get_blpairs()]
            kb = copy.deepcopy(b)
            plot.delay_waterfall(u, b, 0, int(u.polpair_array[0]), average_blpairs=o[0], fold=o[2] and not u.folded, delay=o[3], deltasq=o[4] and not o[3])
            assert b == kb, "delay_waterfall changed its list of baseline-pairs"
        elif len(u.get_dlys(0)) > (4 if o[2] and not u.folded else 1):  # a wedge needs at least two delays
            try:
                plot.delay_wedge(u, 0, int(u.polpair_array[0]), fold=o[2] and not u.folded, delay=o[3], rotate=o[0], deltasq=o[4] and not o[3])
            except ValueError:  # fewer than two baseline lengths
                note.label("wedge refused")
        plt.close("all")
        try:
            same(u, s)
        except AssertionError as e:
            raise AssertionError("%s changed the object: %s" % (r, e))
    note.nt()
    note.label(*c["rs"])


# ------------------------------------------------------------------------------------------------ visibility data
VIS = ["pspec", "accessors", "rephase", "pstokes", "filter", "difference", "tsys", "noise_error", "reds", "ranges", "auto_var"]


@st.composite
def vis_case(draw):
    k = draw(st.sampled_from(VIS))
    if k in ("pspec", "accessors"):
        return dict(k=k, c=draw(c13.case()), i=draw(st.integers(0, 3)))
    d = draw(dsets.dspec(nd=2, nf=(3, 7), nt=(2, 5), max_bl=3, npol=4, autos=True, wgts=False, units="Jy"))
    if k in ("pstokes", "filter"):
        d["dtd"] = 0.0
    return dict(k=k, d=d, i=draw(st.integers(0, 3)))


def usnap(u):
    return copy.deepcopy(u), dsets.dsnap(u)


def usame(u, keep, what):
    try:
        same(dsets.dsnap(u), keep[1])
    except AssertionError as e:
        raise AssertionError("%s changed its input: %s" % (what, e))
    assert u == keep[0], "%s changed its input" % what


def visdata(c, note):
    """analysing visibility data leaves the data, weights and arguments as they were, and results share nothing with them"""
    from hera_pspec import PSpecData, pstokes, utils
    k, i = c["k"], c["i"]
    kw, call = {}, None
    if k in ("pspec", "accessors"):
        q = c13.Call(c["c"])
        c13.in_domain(q)
        ins = [x for x in list(q.psd.dsets) + list(q.psd.wgts) if x is not None]
        if k == "pspec":
            kw = q.kwargs()
            b1, b2, dd, pols = [b for b, _ in q.blps], [b for _, b in q.blps], tuple(q.c["dd"]), list(q.polargs)
            args = [b1, b2, pols]
            kw["__args"] = args
            call = lambda: q.psd.pspec(b1, b2, dd, pols, **{n: v for n, v in kw.items() if n != "__args"})
        else:
            d0 = q.c["dd"][0]
            key = (d0,) + q.blps[0][0] + (q.pols[0][0],)
            call = lambda: [np.array(x) for x in (q.psd.x(key), q.psd.w(key), q.psd.Y(key), q.psd.C_model(key, model="empirical"), q.psd.R(key))] and None
    else:
        us = dsets.build(c["d"])
        ins = list(us)
        if k == "rephase":
            ins = [copy.deepcopy(x) for x in us]
            psd = PSpecData(ins, [None, None])
            call = lambda: psd.rephase_to_dset(i % 2, inplace=False)
        elif k == "pstokes":
            name = ["pI", "pQ", "pU", "pV"][i]
            call = lambda: pstokes.construct_pstokes(us[0], us[1], pstokes=name)
        elif k == "filter":
            us = [u.select(polarizations=[p], inplace=False) for u in us for p in c["d"]["pols"]]
            ins = list(us)
            call = lambda: pstokes.filter_dset_on_stokes_pol(us, ["pI", "pQ", "pU", "pV"][i])
        elif k == "difference":
            call = lambda: utils.uvd_time_difference(us[0], c["d"]["dt"] * (1 + i % 2) * 1.01)
        elif k in ("tsys", "noise_error"):
            beam = dsets.FlatBeam(1)
            from pv import beams
            beam = beams.FlatBeam(1)
            if k == "tsys":
                call = lambda: utils.uvd_to_Tsys(us[0], beam)
                ins = ins[:1]
            else:
                if "xx" not in c["d"]["pols"]:
                    raise Skip("no xx")
                bl = tuple(c["d"]["bls"][0])
                psd = PSpecData(copy.deepcopy(us[:1]) * 2, [None, None], beam=beam)
                uvp = psd.pspec([bl], [bl], (0, 1), [("xx", "xx")], spw_ranges=[(0, c["d"]["nf"])], verbose=False)
                T = utils.uvd_to_Tsys(us[0], beam)
                ins = [T]
                call = lambda: utils.uvp_noise_error(uvp, T, err_type=["P_N"])
        elif k == "reds":
            call = lambda: (utils.get_reds(us[0], bl_error_tol=1.0), utils.calc_blpair_reds(us[0], us[1], exclude_permutations=bool(i % 2))) and None
        elif k == "ranges":
            f = us[0].freq_array
            rng_ = [(float(f[0]), float(f[-1]))]
            kw["freq_range"] = rng_
            call = lambda: utils.spw_range_from_freqs(us[0], rng_) and None
        else:
            if "xx" not in c["d"]["pols"]:
                raise Skip("no xx")
            call = lambda: utils.variance_from_auto_correlations(us[0], tuple(c["d"]["bls"][0]) + ("xx",), (0, c["d"]["nf"]), 0)
    keeps = [usnap(x) for x in ins]
    keep = copy.deepcopy(kw)
    try:
        out = call()
    except Exception as e:  # which requests are refused is settled by other properties
        out = None
        note.label("refused %s: %s" % (k, type(e).__name__))
    for x, y in zip(ins, keeps):
        usame(x, y, k)
    if kw:
        same(kw, keep)
    if out is not None and k != "filter":  # the filter returns the matching datasets themselves
        apart(out, ins, k)
    if k == "rephase" and out is not None:
        psd.rephase_to_dset(i % 2, inplace=True)
        for a, b in zip(psd.dsets, out):
            same(dsets.dsnap(a), dsets.dsnap(b))
            assert a == b, "rephasing in place and in a copy differ"
    note.nt(True)
    note.label(k)


LAWS = [
    Law("chain", chain_case(), chain, quick=300, shards=3, weight=3),
    Law("fresh", fresh_case(), fresh, quick=400, shards=3, weight=3),
    Law("visdata", vis_case(), visdata, quick=150, thorough=4000, shards=3, weight=3),
    Law("readers", reader_case(), readers, quick=60, thorough=1500, shards=3, weight=3),
]
