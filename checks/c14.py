"""C14: weights and flags decide what enters an estimate, regardless of history."""
import copy
import warnings

import numpy as np
from hypothesis import strategies as st

from hera_pspec import PSpecData
from pv import beams, dsets, uvps
from pv.core import Law, Skip
from pv.dsets import POLNUM
from pv.uvps import raises
from checks.c12 import near, R_of, empirical_cov

RULE = ("Cases are generated datasets with flag patterns, windows and sequences of setter, getter and pspec calls; non-trivial when some but not all samples of a used visibility are flagged "
        "(flag laws) or when a getter was evaluated before a later change of state (history law).")
ASSUMPTIONS = ["a channel counts as flagged for a visibility when it is flagged at every time (documented); single flagged samples are handled by broadcasting the flags first",
               "outside the windows given to broadcast_dset_flags only 'no flag is ever cleared' is claimed", "flags are changed through PSpecData methods, not by editing arrays behind cached matrices"]

warnings.simplefilter("ignore")


# ------------------------------------------------------------------------------------------------ broadcasting
@st.composite
def bc_case(draw):
    d = draw(dsets.dspec(nd=draw(st.integers(1, 2)), nf=(3, 12), nt=(1, 9), max_bl=3, npol=2, flags=draw(st.sampled_from(["chan", "pix", "pix", "mix", "time", "all", "edge", "none"])), wgts=False))
    n = d["nf"]
    k = draw(st.integers(0, 3))
    if k == 0:
        spws = None
    else:
        cuts = sorted(draw(st.lists(st.integers(0, n), min_size=2 * min(k, 2), max_size=2 * min(k, 2), unique=True))) if n >= 2 * min(k, 2) - 1 else [0, n]
        spws = [[cuts[2 * i], cuts[2 * i + 1]] for i in range(len(cuts) // 2)]
    return dict(d=d, spws=spws, thresh=draw(st.sampled_from([0.2, 0.2, 0.05, 0.34, 0.5, 0.9])), unflag=draw(st.sampled_from([False] * 5 + [True])), bseed=draw(st.integers(0, 99)), dens=draw(st.sampled_from([0.05, 0.2, 0.5])))


def broadcast(c, note):
    """within each window the flags become an outer union of channels and times, exactly as the threshold says, and no flag is cleared"""
    sp = c["d"]
    uvds = dsets.build(sp)
    r = uvps.rng_of(c["bseed"], 1)
    for u in uvds:
        if sp["fl"] == "pix":
            u.flag_array |= r.random(u.flag_array.shape) < c["dens"]
    before = [u.flag_array.copy() for u in uvds]
    snaps = [dsets.dsnap(u) for u in uvds]
    psd = PSpecData(uvds, [None] * len(uvds))
    kw = {} if c["spws"] is None else dict(spw_ranges=[tuple(s) for s in c["spws"]])
    psd.broadcast_dset_flags(time_thresh=c["thresh"], unflag=c["unflag"], **kw)
    spws = [(0, sp["nf"])] if c["spws"] is None else [tuple(s) for s in c["spws"]]
    changed = False
    for u, b, s in zip(uvds, before, snaps):
        s["flag_array"] = u.flag_array.copy()
        uvps.same(dsets.dsnap(u), s)  # nothing else is touched
        f = u.flag_array
        if c["unflag"]:
            e = b.copy()
            for a, z in spws:
                e[:, a:z] = False
            assert np.array_equal(f, e), "unflag"
            changed = changed or b.any()
            continue
        assert not (b & ~f).any(), "a flag was cleared"
        for bl in {(int(x), int(y)) for x, y in zip(u.ant_1_array, u.ant_2_array)}:
            m = np.where((u.ant_1_array == bl[0]) & (u.ant_2_array == bl[1]))[0]
            for p in range(len(sp["pols"])):
                w0 = b[m][:, :, p]
                for i, (a, z) in enumerate(spws):
                    got = f[m][:, a:z, p]
                    chan, time = got.all(0), got.all(1)
                    assert np.array_equal(got, chan[None] | time[:, None]), "flags of %s are not separable in window %s" % (bl, (a, z))
                if len(spws) == 1:
                    # the rule: over times that are not flagged at all frequencies
                    a, z = spws[0]
                    live = [t for t in range(len(m)) if not w0[t].all()]
                    chan = np.array([sum(w0[t, k] for t in live) > c["thresh"] * len(live) * (1 + 1e-12) if live else False for k in range(sp["nf"])])[a:z]
                    time = (w0[:, a:z] & ~chan[None]).any(1)
                    assert np.array_equal(f[m][:, a:z, p], chan[None] | time[:, None]), "flags of %s after broadcasting in %s" % (bl, (a, z))
        changed = changed or (0 < b.sum() < b.size)
    # broadcasting separable flags changes nothing
    if not c["unflag"] and len(spws) == 1 and spws[0] == (0, sp["nf"]):
        mid = [u.flag_array.copy() for u in uvds]
        psd.broadcast_dset_flags(time_thresh=c["thresh"], **kw)
        for u, m in zip(uvds, mid):
            assert np.array_equal(u.flag_array, m), "broadcasting twice"
    note.nt(bool(changed))
    note.label(sp["fl"], "windows %s" % (None if c["spws"] is None else len(spws)), "unflag" if c["unflag"] else "")


# ------------------------------------------------------------------------------------------------ poisoning
@st.composite
def poison_case(draw):
    w = draw(st.sampled_from(["identity", "identity", "dayenu", "iC"]))
    d = draw(dsets.dspec(nd=2, nf=(5, 10), nt=(1, 5) if w != "iC" else (9, 13), max_bl=3, npol=2, flags=draw(st.sampled_from(["chan", "pix", "mix", "time", "edge"])), wgts=False, std=False))
    n = d["nf"]
    a, b = draw(st.sampled_from([(0, n), (0, n), (1, n), (1, n - 1)]))
    return dict(d=d, w=w, spw=[a, b], ext=draw(st.sampled_from([[0, 0], [0, 0], [a, n - b]])), taper=draw(st.sampled_from(["none", "hann", "bh"])), sym=draw(st.booleans()), thresh=draw(st.sampled_from([0.2, 0.5])),
                norm="I", mag=draw(st.sampled_from([1.0, 1e3, 1e8])), b1=draw(st.integers(0, 2)), b2=draw(st.integers(0, 2)), bc=draw(st.booleans()), wg=draw(st.sampled_from([False, False, True])),
                bseed=draw(st.integers(0, 99)), cov=draw(st.sampled_from([None, None, "empirical"])))


RP = dict(filter_centers=[0.0], filter_half_widths=[2e-7], filter_factors=[1e-3])


def poison(c, note):
    """after broadcasting (or for whole flagged channels) the values in flagged samples change no spectrum of an integration that counts"""
    sp = c["d"]
    a, b = c["spw"]
    uvds = dsets.build(sp)
    if not c["bc"]:  # keep only channels flagged at all times
        for u in uvds:
            for bl in {(int(x), int(y)) for x, y in zip(u.ant_1_array, u.ant_2_array)}:
                m = np.where((u.ant_1_array == bl[0]) & (u.ant_2_array == bl[1]))[0]
                u.flag_array[m] = u.flag_array[m].all(0)[None]
    wide = (a - c["ext"][0], b + c["ext"][1])
    p0 = PSpecData(copy.deepcopy(uvds), [None, None])
    p0.broadcast_dset_flags(spw_ranges=[wide], time_thresh=c["thresh"])
    flags = [u.flag_array.copy() for u in p0.dsets]
    bad = copy.deepcopy(uvds)
    r = uvps.rng_of(c["bseed"], 2)
    n = 0
    for u, f in zip(bad, flags):
        n += f.sum()
        # (pseudo-inverses leave rounding errors in flagged rows)
        u.data_array = np.where(f, (c["mag"] if c["w"] == "identity" else min(c["mag"], 1e3)) * (r.normal(size=f.shape) + 1j * r.normal(size=f.shape)), u.data_array)
    wg = [None, None]
    out = []
    bls = [tuple(x) for x in sp["bls"]]
    b1, b2 = bls[c["b1"] % len(bls)], bls[c["b2"] % len(bls)]
    pols = [(p, p) for p in sp["pols"]]
    for us in (uvds, bad):
        us = copy.deepcopy(us)
        if c["wg"]:
            # the same flags as external weights, none in the data
            wg = copy.deepcopy(us)
            for w, f, u in zip(wg, flags, us):
                w.data_array = (~f).astype(complex)
                u.flag_array[:] = False
        else:
            wg = [None, None]
        psd = PSpecData(us, wg)
        if c["bc"] and not c["wg"]:
            psd.broadcast_dset_flags(spw_ranges=[wide], time_thresh=c["thresh"])
        kw = dict(input_data_weight=c["w"], taper=c["taper"], symmetric_taper=c["sym"], norm=c["norm"], spw_ranges=(a, b), verbose=False, filter_extensions=tuple(c["ext"]))
        if c["cov"]:
            kw.update(store_cov=True, cov_model=c["cov"])
        if c["w"] == "dayenu":
            kw["r_params"] = {(i,) + bl + (p,): RP for i in (0, 1) for bl in (b1, b2) for p in sp["pols"]}
        try:
            out.append(psd.pspec([b1], [b2], (0, 1), pols, **kw))
        except Exception as e:
            if "singular" in str(e).lower() or "band-dependent" in str(e) or "Singular" in type(e).__name__:
                out.append(str(e))
            else:
                raise
    if c["w"] == "iC":
        # (decided on the clean data alone)
        for i, bl in ((0, b1), (1, b2)):
            for p in sp["pols"]:
                for us, fl in ((uvds, flags),):
                    x, f = dsets.vis(us[i], bl, POLNUM[p])[:, a:b].T, dsets.vis(us[i], bl, POLNUM[p], "flag_array")[:, a:b].T
                    f = f | dsets.vis(p0.dsets[i], bl, POLNUM[p], "flag_array")[:, a:b].T if c["bc"] or c["wg"] else f
                    x = x[~f.all(1)][:, ~f.all(0)]
                    if x.shape[0] < 2 or x.shape[1] < 2 or np.linalg.cond(np.cov(x)) > 1e6:
                        raise Skip("ill-conditioned covariance")
    if isinstance(out[0], str) or isinstance(out[1], str):
        assert isinstance(out[0], str) and isinstance(out[1], str), "flagged values decide whether the spectrum is refused: %s" % [x if isinstance(x, str) else "" for x in out]
        raise Skip("refused")
    u, v = out
    assert np.array_equal(u.wgt_array[0], v.wgt_array[0]) and np.array_equal(u.integration_array[0], v.integration_array[0]), "weights and integrations"
    for j in range(u.Npols):
        good = u.integration_array[0][:, j] > 0
        x, y = u.data_array[0][:, :, j], v.data_array[0][:, :, j]
        if c["w"] == "identity":
            lost = not np.isfinite(x[good]).all()
            assert lost == (not np.isfinite(y[good]).all()), "values in flagged samples decide whether there is an estimate"
        else:
            lost = not np.max(np.abs(x[good]), initial=0) < 1e4 * sp["nf"] * max(np.abs(w.data_array).max() for w in uvds) ** 2
        if lost:
            # no (or hardly any) channel carries both visibilities: no estimate
            note.label("no estimate")
            continue
        near(y[good], x[good], "data with other values in flagged samples", 1e-6)
        if c["cov"]:
            near(v.cov_array_real[0][good][:, :, :, j], u.cov_array_real[0][good][:, :, :, j], "covariance with other values in flagged samples", 1e-6)
        # fully flagged integrations have zero integration
        w = u.wgt_array[0][:, :, :, j]
        dead = (w.sum(1) == 0).any(1)
        assert np.all(u.integration_array[0][dead, j] == 0), "integration of fully flagged times"
    used = [dsets.vis(uvds[i], bl, POLNUM[p], "flag_array") for i, bl in ((0, b1), (1, b2)) for p in sp["pols"]]
    note.nt(any(0 < f.sum() < f.size for f in used))
    note.label(c["w"], sp["fl"], "wgts" if c["wg"] else "flags", "bc" if c["bc"] else "chan", c["norm"])


# ------------------------------------------------------------------------------------------------ history
OPS = ["spw", "spw", "taper", "weight", "sym", "ext", "ndly", "rp", "eval", "eval", "eval", "eval", "pspec", "flags", "unflag", "scale", "Jy", "add", "setC", "setiC", "clear", "trim", "poisoned"]


@st.composite
def hist_case(draw):
    d = draw(dsets.dspec(nd=2, nf=(5, 8), nt=(10, 13), max_bl=2, npol=2, flags=draw(st.sampled_from(["none", "none", "none", "none", "chan", "pix", "edge"])), wgts=False, units="Jy"))
    n = d["nf"]
    ops = []
    if draw(st.integers(0, 3)):
        ops += [["weight", draw(st.sampled_from(["identity", "iC", "iC"]))], ["eval", draw(st.sampled_from(["R", "q", "G", "H", "C", "Cx", "iC", "V"])), draw(st.integers(0, 1)), draw(st.integers(0, 1))]]
    for _ in range(draw(st.integers(2, 10))):
        o = draw(st.sampled_from(OPS))
        if o != "eval" and draw(st.integers(0, 3)) < 3:
            # something cached just before the state changes
            ops.append(["eval", draw(st.sampled_from(["R", "R", "q", "C", "Cx", "iC", "Y", "H", "V"])), draw(st.integers(0, 1)), draw(st.integers(0, 1))])
        if o in ("spw",):
            a = draw(st.integers(0, 2))
            b = n - draw(st.integers(0, 2))
            ops.append([o, a, max(b, a + 3), draw(st.sampled_from([None, None, 3]))])
        elif o == "taper":
            ops.append([o, draw(st.sampled_from(["none", "bh", "hann"]))])
        elif o == "weight":
            ops.append([o, draw(st.sampled_from(["identity", "iC", "iC", "dayenu"]))])
        elif o == "sym":
            ops.append([o, draw(st.booleans())])
        elif o == "ext":
            ops.append([o, draw(st.integers(0, 2)), draw(st.integers(0, 2))])
        elif o == "ndly":
            ops.append([o, draw(st.sampled_from([None, 3]))])
        elif o == "rp":
            ops.append([o, draw(st.integers(0, 1)), draw(st.integers(0, 2))])
        elif o == "eval":
            ops.append([o, draw(st.sampled_from(["R", "R", "q", "G", "H", "C", "Cx", "iC", "Y", "V", "cov"])), draw(st.integers(0, 1)), draw(st.integers(0, 1))])
        elif o == "pspec":
            ops.append([o, draw(st.sampled_from(["identity", "identity", "iC"])), draw(st.sampled_from(["none", "hann"])), draw(st.booleans()), draw(st.integers(0, 1)), draw(st.integers(0, 2)), draw(st.sampled_from([None, 3]))])
        elif o == "flags":
            ops.append([o, draw(st.integers(0, 2)), draw(st.sampled_from([0.2, 0.5]))])
        elif o in ("setC", "setiC"):
            ops.append([o, draw(st.integers(0, 1)), draw(st.integers(0, 9))])
        else:
            ops.append([o])
    final = draw(st.sampled_from(["identity", "iC", "iC", "dayenu"]))
    if draw(st.booleans()):
        # everything the final state uses is cached, then one thing changes
        final = draw(st.sampled_from(["identity", "iC"]))
        k = draw(st.integers(0, 1))
        ops += [["weight", final], ["taper", draw(st.sampled_from(["none", "bh", "hann"]))], ["eval", draw(st.sampled_from(["R", "R", "q", "H"])), k, draw(st.integers(0, 1))]]
        ops.append(draw(st.sampled_from([["sym", False], ["sym", True], ["spw", 1, n, None], ["spw", 0, n - 1, None], ["ext", 1, 0], ["setC", k, 3], ["setiC", 1 - k, 4], ["flags", 1, 0.2], ["unflag"], ["trim"], ["Jy"], ["add"]])))
    return dict(d=d, ops=ops, final=final)


def rparam(i):
    return dict(filter_centers=[0.0, 1e-7 * i], filter_half_widths=[1e-7 * (1 + i)] * 2, filter_factors=[1e-2] * 2)


class Model:
    """the state that should matter"""

    def __init__(self, c):
        self.n = c["d"]["nf"]
        self.spw, self.nd, self.ext, self.sym, self.taper, self.weight = (0, self.n), self.n, (0, 0), True, "none", "identity"
        self.rp, self.C, self.iC = {}, {}, {}

    def set_ext(self, l, r):
        if (l or r) and self.sym:
            self.sym = False
        new = (min(l, self.spw[0]), min(r, self.n - self.spw[1]))
        if new != self.ext:
            self.C, self.iC = {}, {}
        self.ext = new

    def set_spw(self, a, b, nd):
        if (a, b) != self.spw:
            self.C, self.iC = {}, {}
        self.spw = (a, b)
        self.nd = nd or b - a
        if sum(self.ext):
            self.set_ext(*self.ext)


def ev(psd, what, k1, k2):
    if what == "R":
        return psd.R(k1)
    if what == "q":
        return psd.q_hat(k1, k2)
    if what == "G":
        return psd.get_G(k1, k2)
    if what == "H":
        return psd.get_H(k1, k2)
    if what == "C":
        return psd.C_model(k1)
    if what == "Cx":
        return psd.C_model(k1, include_extension=True)
    if what == "iC":
        return psd.iC(k2)
    if what == "Y":
        return psd.Y(k2)
    if what == "V":
        return psd.get_unnormed_V(k1, k2)
    if what == "cov":
        return psd.cross_covar_model(k1, k2)


def history(c, note):
    """getters and pspec on an object with any history equal those of a fresh object brought to the same state directly"""
    sp = c["d"]
    uvds = dsets.build(sp)
    psd = PSpecData(uvds, [None, None], beam=beams.FlatBeam(1))
    m = Model(c)
    bls = [tuple(b) for b in sp["bls"]]
    keys = [(0, bls[0], sp["pols"][0]), (1, bls[-1], sp["pols"][-1])]
    seen = False
    nt_ = False

    def rps():
        return [k for k in keys if k not in m.rp]

    for op in c["ops"]:
        o = op[0]
        if o == "spw":
            m.set_spw(op[1], op[2], op[3])
            psd.set_spw((op[1], op[2]), ndlys=op[3])
        elif o == "taper":
            m.taper = op[1]
            psd.set_taper(op[1])
        elif o == "weight":
            m.weight = op[1]
            psd.set_weighting(op[1])
        elif o == "sym":
            if op[1] and sum(m.ext):
                assert raises(psd.set_symmetric_taper, True), "symmetric taper with an extension"
            else:
                m.sym = op[1]
                psd.set_symmetric_taper(op[1])
        elif o == "ext":
            m.set_ext(op[1], op[2])
            psd.set_filter_extension((op[1], op[2]))
        elif o == "ndly":
            m.nd = op[1] or m.spw[1] - m.spw[0]
            psd.set_Ndlys(op[1])
        elif o == "rp":
            w = m.weight
            psd.set_weighting("dayenu")
            psd.set_r_param(keys[op[1]], rparam(op[2]))
            m.rp[keys[op[1]]] = rparam(op[2])
            psd.set_weighting(w)
        elif o == "eval":
            k1, k2 = keys[op[2]], keys[op[3]]
            if m.weight == "dayenu" and rps():
                continue
            if op[1] in ("G", "H", "V", "q", "R") and m.weight == "iC" and op[1] != "R":
                pass
            try:
                ev(psd, op[1], k1, k2)
            except np.linalg.LinAlgError:
                raise Skip("singular")
            seen = True
            continue
        elif o == "pspec":
            _, w, taper, sym, cov, ext, nd = op
            a, b = m.spw
            l, r = min(ext, a), min(ext, m.n - b)
            try:
                psd.pspec([keys[0][1]], [keys[0][1]], (0, 1), [(sp["pols"][0], sp["pols"][0])], input_data_weight=w, taper=taper, symmetric_taper=sym, spw_ranges=[(a, b)], n_dlys=[nd], verbose=False, store_cov=bool(cov),
                          filter_extensions=[(l, r)])
            except ValueError as e:
                if "band-dependent" in str(e):
                    raise Skip("band-dependent normalization")
                raise
            except np.linalg.LinAlgError:
                raise Skip("singular")
            m.weight, m.taper, m.sym, m.ext, m.nd = w, taper, sym and not (l or r), (0, 0), nd or b - a
            m.C, m.iC = {}, {}
            seen = True
            continue
        elif o in ("flags", "unflag"):
            rng = [(m.spw[0] - m.ext[0], m.spw[1] + m.ext[1])] if o == "flags" and op[1] == 0 else None
            psd.broadcast_dset_flags(spw_ranges=rng, time_thresh=op[2] if o == "flags" else 0.2, unflag=o == "unflag")
            m.C, m.iC = {}, {}
            # (it leaves its last window selected)
            a, b = rng[0] if rng else (0, m.n)
            m.set_spw(a, b, None)
        elif o == "Jy":
            psd.Jy_to_mK()
            m.C, m.iC = {}, {}
        elif o == "trim":
            if sp["dtd"] == 0.25:
                continue  # no common LSTs
            psd.trim_dset_lsts(lst_tol=4)
            m.C, m.iC = {}, {}
        elif o == "clear":
            psd.clear_cache()
            m.C, m.iC = {}, {}
        elif o == "add":
            extra = dsets.build_one(sp, 0)
            extra.data_array = extra.data_array * 2
            psd.add([extra], [None])
            if m.C or m.iC:
                psd.clear_cache()  # (whether matrices set by the user survive is not claimed)
            m.__dict__.update(spw=(0, m.n), nd=m.n, ext=(0, 0), C={}, iC={})
        elif o in ("setC", "setiC"):
            d, bl = psd.parse_blkey(keys[op[1]])
            nn = m.spw[1] - m.spw[0] + sum(m.ext)
            r = uvps.rng_of(op[2], nn)
            A = r.normal(size=(nn, nn)) + 1j * r.normal(size=(nn, nn))
            A = A @ A.conj().T + np.eye(nn)
            ck = ((d, d), (bl, bl), "empirical", None, False, True)
            if o == "setC":
                psd.set_C({ck: A})
                m.C[ck] = A
                m.iC.pop(ck, None)
            else:
                psd.set_iC({ck: A})
                m.iC[ck] = A
        else:
            continue
        nt_ = nt_ or seen
    m.weight = c["final"]
    psd.set_weighting(c["final"])
    for k in keys:
        if c["final"] == "dayenu" and k not in m.rp:
            psd.set_r_param(k, rparam(1))
            m.rp[k] = rparam(1)
    # the fresh object
    new = PSpecData(copy.deepcopy(psd.dsets), [None] * len(psd.dsets), beam=psd.primary_beam)
    new.set_weighting("dayenu")
    for k, v in m.rp.items():
        new.set_r_param(k, v)
    new.set_weighting(m.weight)
    new.set_taper(m.taper)
    new.set_symmetric_taper(False)
    new.set_spw(m.spw, ndlys=m.nd)
    new.set_filter_extension(m.ext)
    if not sum(m.ext):
        new.set_symmetric_taper(m.sym)
    if m.C:
        new.set_C(m.C)
    if m.iC:
        new.set_iC(m.iC)
    for k in keys:
        w = new.w(k)
        sel = np.where(w.max(1) > 0)[0]
        if not len(sel):
            raise Skip("everything flagged")
        if m.weight == "iC" and np.linalg.cond(new.C_model(k)[np.ix_(sel, sel)]) > 1e7:
            raise Skip("ill-conditioned covariance")
    got = (psd.spw_range, psd.spw_Ndlys, tuple(psd.filter_extension), psd.symmetric_taper, psd.taper, psd.data_weighting)
    assert got == (m.spw, m.nd, m.ext, m.sym, m.taper, m.weight), "state %s, expected %s" % (got, (m.spw, m.nd, m.ext, m.sym, m.taper, m.weight))
    for k1, k2 in ((keys[0], keys[1]), (keys[1], keys[0])):
        for what in ("Y", "C", "Cx", "R", "q", "G", "H", "iC", "V", "cov"):
            if what == "iC" and np.linalg.cond(new.C_model(k2)) > 1e6 and not m.iC:
                continue
            near(ev(psd, what, k1, k2), ev(new, what, k1, k2), "%s after the history" % what, 1e-6)
    bl = keys[0][1]
    args = dict(input_data_weight="identity", taper="hann", verbose=False, store_cov=True, cov_model="empirical")
    pp = [(p, p) for p in sp["pols"]]
    out = []
    for o in (psd, new):
        try:
            out.append(o.pspec([bl], [bl], (0, 1), pp, **args))
        except ValueError as e:
            if "band-dependent" not in str(e):
                raise
            out.append(None)
    a, b = out
    if a is None or b is None:
        assert a is b, "only one of the objects refuses"
        raise Skip("band-dependent normalization")
    uvps.same(uvps.snap(a), uvps.snap(b), tol=1e-9, ignore=("history", "labels", "label_1_array", "label_2_array"))
    note.nt(nt_)
    note.label(*sorted({o[0] for o in c["ops"]}), "final " + c["final"])


# ------------------------------------------------------------------------------------------------ several spectra in one call
@st.composite
def batch_case(draw):
    w = draw(st.sampled_from(["identity", "identity", "identity", "iC", "dayenu"]))
    d = draw(dsets.dspec(nd=2, nf=(5, 9), nt=(1, 3) if w != "iC" else (10, 12), max_bl=4, npol=2, flags="none", wgts=False, std=False, units="Jy"))
    n = d["nf"]
    a, b = draw(st.sampled_from([(0, n), (0, n), (1, n), (0, n - 1)]))
    ch = draw(st.lists(st.integers(a, b - 1), min_size=2, max_size=2, unique=True))
    m = 2 * len(d["bls"]) * len(d["pols"])
    return dict(d=d, w=w, spws=[[a, b]] + draw(st.sampled_from([[], [[0, n]]])), ch=ch, fl=draw(st.lists(st.integers(0, 3), min_size=m, max_size=m)), taper=draw(st.sampled_from(["none", "hann"])),
                norm=draw(st.sampled_from(["I", "H^-1", "H^-1", "V^-1/2"])), cross=draw(st.booleans()), exact=draw(st.sampled_from([False, False, True])), sampling=draw(st.booleans()),
                nd=draw(st.sampled_from([None, 3])), rp=draw(st.lists(st.integers(0, 2), min_size=m, max_size=m)), again=draw(st.booleans()), cov=draw(st.sampled_from([None, None, "empirical", "autos"])))


def batch(c, note):
    """a spectrum does not depend on which other spectra are asked for in the same call, or before"""
    sp = c["d"]
    if c["cov"] == "autos":  # (samples without data have no variance)
        sp = dict(sp, autos=True, ns="full" if sp["ns"] == "zero" else sp["ns"])
    uvds = dsets.build(sp)
    bls = [tuple(b) for b in sp["bls"]]
    sets = [[], [c["ch"][0]], [c["ch"][1]], c["ch"]]
    rp = {}
    slots = [(i, b, p) for i in range(2) for b in bls for p in sp["pols"]]
    for (i, b, p), f, q in zip(slots, c["fl"], c["rp"]):
        m, _ = dsets.rows_of(uvds[i], b)
        uvds[i].flag_array[m[:, None], sets[f], list(uvds[i].polarization_array).index(POLNUM[p])] = True
        rp[(i,) + b + (p,)] = rparam(q)
    pairs = [(x, y) for x in bls for y in bls] if c["cross"] else [(x, x) for x in bls]
    pols = [(p, p) for p in sp["pols"]]
    norm = "I" if c["exact"] else c["norm"]  # the only one supported with exact_norm
    kw = dict(input_data_weight=c["w"], norm=norm, taper=c["taper"], spw_ranges=[tuple(x) for x in c["spws"]], n_dlys=[c["nd"]] * len(c["spws"]), sampling=c["sampling"], exact_norm=c["exact"], verbose=False)
    if c["w"] == "dayenu":
        kw["r_params"] = rp
    if c["cov"]:
        kw.update(store_cov=True, cov_model=c["cov"])

    def fresh():
        return PSpecData(copy.deepcopy(uvds), [None, None], beam=beams.FlatBeam(1) if c["exact"] else None)

    def run(psd, pairs, pols):
        try:
            with np.errstate(all="ignore"):
                u = psd.pspec([x for x, _ in pairs], [y for _, y in pairs], (0, 1), pols, **copy.deepcopy(kw))
            if not all(np.isfinite(x).all() for a in (u.data_array, u.window_function_array) for x in a.values()):
                raise Skip("no finite normalization")  # (too few channels left)
            return u
        except np.linalg.LinAlgError:
            raise Skip("singular")
        except ValueError as e:
            if "band-dependent" in str(e):
                raise Skip("band-dependent normalization")
            raise
    psd = fresh()
    if c["again"]:  # another call before, with the pairs the other way round
        run(psd, [(y, x) for x, y in pairs][::-1], pols)
    u = run(psd, pairs, pols)
    for x, y in pairs[:4]:
        for p in pols:
            v = run(fresh(), [(x, y)], [p])
            for i in range(u.Nspws):
                k = (i, (x, y), p)
                near(u.get_data(k), v.get_data(k), "spectrum %s among others" % (k,), 1e-7)
                if c["cov"]:
                    near(u.get_cov(k), v.get_cov(k), "covariance %s among others" % (k,), 1e-7)
                # (windows are stored per row)
                near(u.get_window_function(k), v.get_window_function(k), "window function %s among others" % (k,), 1e-7)
    n = len(set(c["fl"]))
    note.nt(len(pairs) * len(pols) > 1 and n > 1)
    note.label(c["w"], norm, "again" if c["again"] else "first", str(c["cov"]))


# ------------------------------------------------------------------------------------------------ filter parameters
@st.composite
def rp_case(draw):
    d = draw(dsets.dspec(nd=2, nf=(6, 8), nt=(1, 2), max_bl=2, npol=2, wgts=False, flags=draw(st.sampled_from(["none", "chan"])), pols=["xx", "yy"]))
    key = st.sampled_from(draw(st.lists(st.tuples(st.integers(0, 1), st.integers(0, 1), st.integers(0, 1)).map(list), min_size=1, max_size=3)))
    op = st.one_of(st.tuples(st.just("rp"), key, st.integers(0, 2), st.booleans()), st.tuples(st.just("rp"), key, st.integers(0, 2), st.booleans()), st.tuples(st.just("eval"), key), st.tuples(st.just("eval"), key),
                   st.tuples(st.just("taper"), st.sampled_from(["none", "hann"])), st.tuples(st.just("weight"), st.sampled_from(["identity", "dayenu", "dayenu"])), st.tuples(st.just("spw"), st.sampled_from([0, 1])),
                   st.tuples(st.just("ext"), st.integers(0, 1)), st.tuples(st.just("sym"), st.booleans()))
    return dict(d=d, ops=[list(o) for o in draw(st.lists(op, min_size=3, max_size=12))])


def rparams(c, note):
    """under dayenu weighting R of a visibility follows the filter parameters last set for it, those of the others stay"""
    sp = c["d"]
    us = dsets.build(sp)
    bls = [tuple(b) for b in sp["bls"]]
    K = lambda k: (k[0], bls[k[1] % len(bls)], sp["pols"][k[2] % len(sp["pols"])])
    P = [dict(filter_centers=[0.0], filter_half_widths=[h], filter_factors=[f]) for h, f in ((1e-7, 1e-2), (4e-7, 1e-2), (4e-7, 1e-5))]
    psd = PSpecData(us, [None, None])
    psd.set_weighting("dayenu")
    rp, ev_, w = {}, set(), "dayenu"
    for o in c["ops"] + [["weight", "dayenu"]] + [["eval", [i, j, k]] for i in (0, 1) for j in range(len(bls)) for k in range(len(sp["pols"]))]:
        if o[0] == "rp":
            k = K(o[1])
            if o[3]:
                # (parameters are kept under the weighting of the moment)
                psd.set_weighting("dayenu")
            if psd.data_weighting == "dayenu":
                if k in ev_ and rp.get(k) != o[2]:
                    note.nt(True)
                    note.label("changed")
                rp[k] = o[2]
            psd.set_r_param(k, copy.deepcopy(P[o[2]]))
            psd.set_weighting(w)
        elif o[0] == "taper":
            psd.set_taper(o[1])
        elif o[0] == "weight":
            w = o[1]
            psd.set_weighting(w)
        elif o[0] == "spw":
            psd.set_spw((0, sp["nf"] - o[1]))
        elif o[0] == "ext":
            psd.set_filter_extension((0, o[1]))
        elif o[0] == "sym":
            if not (o[1] and sum(psd.filter_extension)):
                psd.set_symmetric_taper(o[1])
        else:
            k = K(o[1])
            if w == "dayenu" and k not in rp:
                continue
            new = PSpecData(us, [None, None])
            new.set_weighting(w)
            new.set_taper(psd.taper)
            new.set_symmetric_taper(False)
            new.set_spw(psd.spw_range)
            new.set_filter_extension(psd.filter_extension)
            if not sum(psd.filter_extension):
                new.set_symmetric_taper(psd.symmetric_taper)
            if w == "dayenu":
                new.set_r_param(k, copy.deepcopy(P[rp[k]]))
                ev_.add(k)
            near(psd.R(k), new.R(k), "R of %s with parameters %s" % (k, rp.get(k)), 1e-6)


# ------------------------------------------------------------------------------------------------ in-place dataset operations
@st.composite
def trim_case(draw):
    d = draw(dsets.dspec(nd=draw(st.integers(2, 3)), nf=(3, 5), nt=(3, 7), max_bl=2, npol=2, wgts=draw(st.booleans()), flags="chan", units="Jy"))
    d["dtd"] = 0.99727
    cuts = [[draw(st.integers(0, 1)), draw(st.integers(0, 1))] for _ in range(d["nd"])]
    return dict(d=d, cuts=cuts, std=draw(st.booleans()), ragged=draw(st.booleans()), beam=draw(st.sampled_from(["flat", "gauss"])), wrap=draw(st.sampled_from([None, None, 0, 1, 2, 3])))


def dataset_ops(c, note):
    """trimming to common LSTs keeps exactly those, of data, weights and standard deviations alike; Jy to mK scales each polarization and channel by the beam's factor, once"""
    sp = c["d"]
    full = dsets.build(sp)
    wg = [dsets.build_one(sp, i, "wgts") for i in range(sp["nd"])]
    sd = [dsets.build_one(sp, i, "std") for i in range(sp["nd"])]
    if c["wrap"] is not None:  # LST passes zero after some integrations
        dl = sp["dt"] / 86400.0 * 2 * np.pi
        for u in full + wg + sd:
            u.lst_array = (np.searchsorted(np.unique(u.time_array), u.time_array) * dl - (c["wrap"] + 0.5) * dl) % (2 * np.pi)
    fresh = copy.deepcopy(full)
    keep = []
    for i, (a, b) in enumerate(c["cuts"]):
        t = np.unique(full[i].time_array)
        keep.append(range(a, len(t) - b))
        for u in (full[i], wg[i], sd[i]):
            u.select(times=t[list(keep[-1])])
    common = sorted(set.intersection(*[set(k) for k in keep]))
    if not common or min(len(k) for k in keep) < 2:
        raise Skip("no common LSTs, or no LST spacing")
    c["ragged"] = c["ragged"] and len(sp["pols"]) > 1
    if c["ragged"]:
        full[0].select(polarizations=[full[0].polarization_array[0]])
        wg[0].select(polarizations=[wg[0].polarization_array[0]])
        sd[0].select(polarizations=[sd[0].polarization_array[0]])
    ref = [copy.deepcopy(x) for x in (full, wg, sd)]
    beam = beams.FlatBeam(2) if c["beam"] == "flat" else beams.PSpecBeamGauss(0.2, beams.BF)
    psd = PSpecData(full, wg if sp["wg"] else [None] * sp["nd"], dsets_std=sd if c["std"] else None, beam=beam)
    psd.trim_dset_lsts(lst_tol=4)
    groups = [("dsets", psd.dsets, ref[0])]
    if sp["wg"]:
        groups.append(("wgts", psd.wgts, ref[1]))
    if c["std"]:
        groups.append(("dsets_std", psd.dsets_std, ref[2]))
    for nm, got, exp in groups:
        for i, (g, e) in enumerate(zip(got, exp)):
            t = np.unique(fresh[i].time_array)[common]
            e.select(times=t)
            uvps.same({k: v for k, v in dsets.dsnap(g).items() if k != "history"}, {k: v for k, v in dsets.dsnap(e).items() if k != "history"})
    assert psd.Ntimes == len(common), "Ntimes %d after trimming to %d" % (psd.Ntimes, len(common))
    # units
    psd.Jy_to_mK()
    for nm, got, exp in groups:
        for g, e in zip(got, exp):
            f = np.ones((1, sp["nf"], g.Npols))
            if nm != "wgts":
                for j, p in enumerate(g.polarization_array):
                    om = np.interp(g.freq_array, beam.beam_freqs, beam.power_beam_int(dsets.NUMPOL[int(p)]))
                    f[0, :, j] = 1e-20 * 2.99792458e10**2 / (2 * 1.380649e-16 * np.asarray(g.freq_array) ** 2 * om)
                assert g.vis_units == "mK", nm
            near(g.data_array, e.data_array * f, "%s in mK" % nm, 2e-3)
            assert np.array_equal(g.flag_array, e.flag_array) and np.array_equal(g.nsample_array, e.nsample_array)
    s = [dsets.dsnap(u) for u in psd.dsets]
    psd.Jy_to_mK()
    for a, u in zip(s, psd.dsets):
        uvps.same(dsets.dsnap(u), a)
    note.nt(any(len(k) != len(common) for k in keep))
    note.label("wgts" if sp["wg"] else "", "std" if c["std"] else "", "ragged" if c["ragged"] else "")


LAWS = [
    Law("broadcast", bc_case(), broadcast, quick=300, thorough=10000, shards=2, doc="broadcast_dset_flags makes flags separable by its rule, clears none"),
    Law("poison", poison_case(), poison, quick=150, thorough=6000, shards=3, doc="values in flagged samples change no spectrum"),
    Law("history", hist_case(), history, quick=200, thorough=10000, shards=4, weight=2, doc="any sequence of calls leaves the object equal to a fresh one in the same state"),
    Law("batch", batch_case(), batch, quick=250, thorough=8000, shards=3, weight=2, doc="spectra asked for together equal those asked for alone"),
    Law("rparams", rp_case(), rparams, quick=300, thorough=10000, doc="R under dayenu weighting follows the last filter parameters of its own key"),
    Law("dataset_ops", trim_case(), dataset_ops, quick=80, thorough=2500, shards=1, doc="trim_dset_lsts and Jy_to_mK act on data, weights and standard deviations consistently"),
]
