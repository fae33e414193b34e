"""C13: pspec() against a direct evaluation of the estimator from the visibilities."""
import copy
import warnings

import numpy as np
from hypothesis import strategies as st

from hera_pspec import PSpecData
from pv import beams, dsets, uvps
from pv.core import Law, Skip
from pv.dsets import POLNUM
from pv.uvps import COSMOS, raises
from checks import c12
from checks.c12 import G_of, H_of, Q_of, R_of, modes_of, near, q_of, taper_of, empirical_cov

RULE = ("Cases are generated datasets (1-3 datasets with flags, weights, nsamples, integration times, baselines stored in any order) with a pspec call (baseline-pairs, polarization pairs, windows, options); "
        "non-trivial when at least one requested spectrum is non-zero and the call asks for more than one spectrum.")
ASSUMPTIONS = ["matrices that must be inverted have condition number below 1e6 (other cases are skipped and counted)", "pspec scalars are compared to 0.2 per cent (the code integrates on a grid)"]

warnings.simplefilter("ignore")
LST0 = 2458116.1701573  # (a time at which the LST at the telescope is zero)
PAIR = {"xy": "yx", "yx": "xy"}


@st.composite
def case(draw, weights=("identity", "identity", "identity", "iC", "dayenu"), simple=False):
    w = draw(st.sampled_from(weights))
    d = draw(dsets.dspec(nd=None, nf=(4, 9), nt=(1, 4) if w != "iC" else (8, 12), max_bl=3, npol=3, autos=draw(st.sampled_from([False, False, True])),
                         flags=draw(st.sampled_from(["none", "chan", "pix", "mix", "all", "edge", "time"] if w != "iC" else ["none", "none", "chan", "edge"]))))
    n = d["nf"]
    if draw(st.integers(0, 4)) == 0:  # the LSTs of the j-th times of two datasets lie on both sides of zero
        d["t0"], d["dtd"] = LST0 - (draw(st.integers(0, d["nt"] - 1)) + 0.1) * d["dt"] / 86400, draw(st.sampled_from([0.25, 0.45]))
    spws = []
    for _ in range(draw(st.sampled_from([1, 1, 2, 3]))):
        a = draw(st.sampled_from([0, 0, 1, 2]))
        b = draw(st.sampled_from([n, n, n - 1, n - 2]))
        if b - a < 3:
            a, b = 0, n
        ext = [0, 0]
        if not simple and draw(st.integers(0, 3)) == 0:
            ext = [draw(st.integers(0, a)), draw(st.integers(0, n - b))]
        spws.append(dict(w=[a, b], ext=ext, nd=draw(st.sampled_from([b - a, b - a, b - a, b - a - 1]))))
    beam = draw(st.sampled_from([None, None, "gauss", "flat"]))
    return dict(d=d, weight=w, spws=spws, dd=[draw(st.integers(0, d["nd"] - 1)), draw(st.integers(0, d["nd"] - 1))],
                blps=draw(st.lists(st.tuples(st.integers(0, 2), st.booleans(), st.integers(0, 2), st.booleans()).map(list), min_size=1, max_size=4)),
                pols=draw(st.lists(st.tuples(st.integers(0, 2), st.integers(0, 2)).map(list), min_size=1, max_size=3)), same=draw(st.sampled_from([True, True, False])),
                spell=draw(st.sampled_from(["str", "tup", "int", "mixed"])), badpol=draw(st.sampled_from([None] * 8 + [0, 1])),
                norm=draw(st.sampled_from(["I", "I", "I", "H^-1", "V^-1/2"])), taper=draw(st.sampled_from(["none", "none", "blackman-harris", "hann", "bh", "tukey"])), sym=draw(st.booleans()),
                sampling=draw(st.booleans()), beam=beam, bseed=draw(st.integers(0, 3)), cosmo=draw(st.sampled_from([None, 0, 1, 2])), lh=draw(st.booleans()),
                exact=draw(st.sampled_from([False] * 6 + [True])), retq=draw(st.sampled_from([False] * 5 + [True])), wf=draw(st.sampled_from([True, True, False])), fft=draw(st.sampled_from([False, False, True])),
                rp=dict(filter_centers=draw(st.sampled_from([[0.0], [0.0, 2e-7]])), filter_half_widths=[draw(st.sampled_from([1e-7, 3e-7]))], filter_factors=[draw(st.sampled_from([1e-2, 1e-4]))]),
                hist=draw(st.sampled_from(["", "more history"])), spwform=draw(st.sampled_from(["list", "tuple", "none"])), ndform=draw(st.sampled_from(["list", "none"])))


class Call:
    """everything the case describes: the PSpecData object, the arguments, and the data by key"""

    def __init__(self, c):
        self.c = c
        sp = c["d"]
        self.uvds = dsets.build(sp)
        self.wgts = [dsets.build_one(sp, i, "wgts") for i in range(sp["nd"])] if sp["wg"] else [None] * sp["nd"]
        if sp["wg"]:
            for u in self.uvds:
                u.flag_array[:] = False
        self.labels = ["zz", "aa", "mm"][:sp["nd"]]
        self.cosmo = uvps.COSMOS[c["cosmo"]] if c["cosmo"] is not None else None
        from hera_pspec.conversions import Cosmo_Conversions
        self.cosmo = Cosmo_Conversions(**self.cosmo) if isinstance(self.cosmo, dict) else (self.cosmo or Cosmo_Conversions())
        self.beam = None
        self.ratio = None
        if c["beam"] == "gauss":
            fw = 0.12 + 0.03 * c["bseed"]
            self.beam = beams.PSpecBeamGauss(fw, beams.BF, cosmo=self.cosmo)
            r = 2 * np.log(2) / (np.pi * fw * fw)
            self.ratio = lambda f, pol: np.full(np.shape(f), r)
        elif c["beam"] == "flat":
            self.beam = beams.FlatBeam(c["bseed"], cosmo=self.cosmo)
            self.ratio = lambda f, pol: 0.5 / (0.05 * (1 + (sum(map(ord, pol)) % 7) / 10) * (f / 150e6) ** -1.5)
        # polarization pairs
        ps = sp["pols"]
        self.pols = []
        for a, b in c["pols"]:
            p = (ps[a % len(ps)], ps[b % len(ps)])
            if c["same"] or self.beam is not None:
                p = (p[0], p[0])
            if p not in self.pols:
                self.pols.append(p)
        cross = any(PAIR.get(x, x) not in ps for p in self.pols for x in p)
        # baseline-pairs, without repetition
        bls = [tuple(b) for b in sp["bls"]]
        if sp["autos"]:
            bls = bls[:2] + [(bls[0][0], bls[0][0])]
        self.blps = []
        for i, ri, j, rj in c["blps"]:
            b1, b2 = bls[i % len(bls)], bls[j % len(bls)]
            b1 = b1[::-1] if ri and not cross else b1
            b2 = b2[::-1] if rj and not cross else b2
            if (b1, b2) not in self.blps:
                self.blps.append((b1, b2))
        # spellings
        self.polargs = []
        for k, p in enumerate(self.pols):
            if c["spell"] == "str" and p[0] == p[1]:
                self.polargs.append(p[0])
            elif c["spell"] == "int":
                self.polargs.append((POLNUM[p[0]], POLNUM[p[1]]))
            elif c["spell"] == "mixed" and k == 0:
                self.polargs.append((p[0], POLNUM[p[1]]))
            else:
                self.polargs.append(p)
        rp = c["rp"]
        self.rp = dict(filter_centers=list(rp["filter_centers"]), filter_half_widths=rp["filter_half_widths"] * len(rp["filter_centers"]), filter_factors=rp["filter_factors"] * len(rp["filter_centers"]))
        self.psd = PSpecData(copy.deepcopy(self.uvds), copy.deepcopy(self.wgts), labels=list(self.labels), beam=self.beam)

    def r_params(self):
        if self.c["weight"] != "dayenu":
            return None
        d1, d2 = self.c["dd"]
        out = {}
        for b1, b2 in self.blps:
            for p1, p2 in self.pols:
                out[(d1,) + b1 + (p1,)] = copy.deepcopy(self.rp)
                out[(d2,) + b2 + (p2,)] = copy.deepcopy(self.rp)
        return out

    def kwargs(self):
        c = self.c
        spws = [tuple(s["w"]) for s in c["spws"]]
        exts = [tuple(s["ext"]) for s in c["spws"]]
        nds = [s["nd"] for s in c["spws"]]
        kw = dict(input_data_weight=c["weight"], norm=c["norm"], taper=c["taper"], sampling=c["sampling"], little_h=c["lh"], symmetric_taper=c["sym"], return_q=c["retq"], store_window=c["wf"],
                  exact_norm=c["exact"], allow_fft=c["fft"] and not c["exact"], history=c["hist"], verbose=False, spw_ranges=spws, n_dlys=nds)
        if any(e != (0, 0) for e in exts):
            kw["filter_extensions"] = exts
        if len(spws) == 1 and c["spwform"] != "list":
            kw["spw_ranges"] = spws[0]
            if spws[0] == (0, c["d"]["nf"]) and c["spwform"] == "none":
                del kw["spw_ranges"]
            if "filter_extensions" in kw:
                kw["filter_extensions"] = exts[0]
            kw["n_dlys"] = nds[0]
        if c["ndform"] == "none" and all(n == b - a for n, (a, b) in zip(nds, spws)):
            del kw["n_dlys"]
        if c["weight"] == "dayenu":
            kw["r_params"] = self.r_params()
        return kw

    def run(self, blps=None, pols=None, **over):
        blps = self.blps if blps is None else blps
        kw = dict(self.kwargs(), **over)
        return self.psd.pspec([b for b, _ in blps], [b for _, b in blps], tuple(self.c["dd"]), self.polargs if pols is None else pols, **kw)

    # ------------------------------------------------------------------ the oracle
    def key(self, side, bl, p, sl=slice(None)):
        i = self.c["dd"][side]
        x = dsets.vis(self.uvds[i], bl, POLNUM[p])[sl]
        if self.wgts[i] is None:
            w = (~dsets.vis(self.uvds[i], bl, POLNUM[p], "flag_array")[sl]).astype(float)
        else:
            w = dsets.vis(self.wgts[i], bl, POLNUM[p]).real[sl]
        return x, w

    def expected(self, s, blp, p):
        """(Ndly, Ntimes) spectrum without the cosmological scalar, and the window matrix"""
        c = self.c
        (a, b), ext, nd = s["w"], tuple(s["ext"]), s["nd"]
        nf = b - a
        sl = slice(a - ext[0], b + ext[1])
        x1, w1 = self.key(0, blp[0], p[0], sl)
        x2, w2 = self.key(1, blp[1], p[1], sl)
        freqs = np.asarray(self.uvds[0].freq_array)[sl]
        o = dict(nf=nf, nd=nd, ext=ext, weight=c["weight"], taper=c["taper"], sym=c["sym"] and ext == (0, 0), rp=self.rp)
        R1, R2 = R_of(o, x1, w1, freqs), R_of(o, x2, w2, freqs)
        if c["exact"]:
            B = np.ones((nf, nf))
            if self.beam is not None:
                res, om, N = self.beam.beam_normalized_response(p[0], freqs[ext[0]:ext[0] + nf])
                B = np.pi / (3 * N * N) * (res / om[:, None]) @ (res / om[:, None]).T
            Q = Q_of(nf, nd) * B[None] / (nd * c["d"]["df"] * 1e6)
            y1, y2 = R1 @ x1, R2 @ x2
            q = np.array([[0.5 * y1[:, t].conj() @ Q[k] @ y2[:, t] for t in range(x1.shape[1])] for k in range(nd)])
            i = np.arange(nf)
            snc = np.ones((nf, nf)) if c["sampling"] else np.sinc((i[:, None] - i[None]) / nf)
            G = np.array([[np.trace(R1.conj().T @ Q[k] @ R2 @ Q[t]) for t in range(nd)] for k in range(nd)]) / 2
            H = np.array([[np.trace(R1.conj().T @ Q[k] @ R2 @ (Q[t] * snc)) for t in range(nd)] for k in range(nd)]) / 2
            G, H = (G if np.any(G) else np.eye(nd) / 2), (H if np.any(H) else np.eye(nd) / 2)
        else:
            q = q_of(R1, x1, R2, x2, nf, nd)
            G, H = G_of(R1, R2, nf, nd, ext), H_of(R1, R2, nf, nd, ext, c["sampling"])
        sg, sh = G.sum(1), H.sum(1)
        if np.min(np.abs(sg)) < 1e-6 * np.max(np.abs(G)) or np.min(np.abs(sh)) < 1e-6 * np.max(np.abs(H)):
            raise Skip("degenerate response")
        adj = 1.0
        if c["norm"] == "I":
            M, W = np.diag(1 / sg), H / sh[:, None]
            if not c["exact"]:
                ratio = sh.real / sg.real
                if c["weight"] == "identity":
                    if (np.abs(ratio - ratio.mean()) > 0.9e-4 * ratio.mean()).any():
                        raise Skip("band-dependent normalization (refused by pspec)")
                    ratio = np.full(nd, ratio.mean())
                adj = nd / (nf * ratio)
                if c["taper"] != "none":
                    adj = adj * np.mean(np.asarray(taper_of(c["taper"], nf)) ** 2)
                adj = adj[:, None]
        elif c["norm"] == "H^-1":
            if np.linalg.cond(H) > 1e5:
                return None, None  # (response not invertible: no value is claimed)
            M, W = np.linalg.inv(H), np.eye(nd)
        else:
            E = np.array([R1.conj().T @ k @ R2 for k in Q_of(nf, nd)]) / 2
            C1, C2 = empirical_cov(x1, w1), empirical_cov(x2, w2)
            P21, S21 = empirical_cov(x2, w2, x1, w1, False, False), empirical_cov(x2, w2, x1, w1, True, True)
            V = np.array([[np.trace(E[k] @ C2 @ E[l].conj().T @ C1) + np.trace(E[k] @ P21 @ E[l].conj() @ S21) for l in range(nd)] for k in range(nd)])
            for u, v in ((w1, w1), (w2, w2), (w1, w2)):
                if ((u @ v.T == 0) & (u.any(1)[:, None] & v.any(1)[None])).any():
                    raise Skip("no covariance estimate")
            if np.max(np.abs(V)) < 1e-10 or np.linalg.cond(V) > 1e5 or np.linalg.eigvalsh((V + V.conj().T) / 2).min() <= 0:
                raise Skip("covariance not invertible")
            lam, U = np.linalg.eigh((V + V.conj().T) / 2)
            Vh = U @ np.diag(lam ** -0.5) @ U.conj().T
            rs = (Vh @ H).sum(1)
            if np.min(np.abs(rs)) < 1e-4 * np.max(np.abs(Vh @ H)):
                raise Skip("degenerate row sum")
            M = Vh / rs[:, None]
            W = M @ H
        return (q if c["retq"] else (M @ q) * adj), W


def in_domain(k):
    c = k.c
    if c["exact"]:
        # exact_norm is defined for M of the identity and without extensions
        if c["norm"] != "I" or any(sum(s["ext"]) for s in c["spws"]):
            c["norm"] = "I"
            for s in c["spws"]:
                s["ext"] = [0, 0]
        if c["beam"] == "gauss":
            raise Skip("a Gaussian beam has no pixel response")
    if c["norm"] != "I" and any(sum(s["ext"]) for s in c["spws"]):
        for s in c["spws"]:
            s["ext"] = [0, 0]
    if c["norm"] == "V^-1/2" and c["d"]["nt"] < 3:
        raise Skip("too few times for a covariance")


def spectra(c, note):
    """every requested spectrum is there once, has the estimator's value and describes its own visibilities"""
    k = Call(c)
    in_domain(k)
    want = {}
    for i, s in enumerate(c["spws"]):
        for b in k.blps:
            for p in k.pols:
                want[i, b, p] = k.expected(s, b, p)
    before = [dsets.dsnap(u) for u in k.psd.dsets] + [dsets.dsnap(w) for w in k.psd.wgts if w is not None]
    polargs = list(k.polargs)
    if c["badpol"] is not None:
        missing = [p for p in ("xx", "yy", "pI") if p not in c["d"]["pols"]][0]
        polargs.insert(min(c["badpol"], len(polargs)), (missing, missing))
    u = k.run(pols=polargs)
    u.check()
    for a, b in zip(before, [dsets.dsnap(x) for x in k.psd.dsets] + [dsets.dsnap(w) for w in k.psd.wgts if w is not None]):
        uvps.same(b, a)
    d1, d2 = c["dd"]
    U1, U2 = k.uvds[d1], k.uvds[d2]
    nt, nb, npol, ns = c["d"]["nt"], len(k.blps), len(k.pols), len(c["spws"])
    # counts
    assert (u.Nspws, u.Nblpairs, u.Npols, u.Ntpairs, u.Nbltpairs) == (ns, nb, npol, nt, nb * nt), "counts %s" % ([u.Nspws, u.Nblpairs, u.Npols, u.Ntpairs, u.Nbltpairs],)
    assert len(u.blpair_array) == nb * nt
    assert [uvps.polpair_int((POLNUM[a], POLNUM[b])) if False else (20 + POLNUM[a]) * 100 + 20 + POLNUM[b] for a, b in k.pols] == list(u.polpair_array), "polpair_array"
    rows = {}
    for r, bp in enumerate(u.blpair_array):
        rows.setdefault(int(bp), []).append(r)
    assert set(rows) == {uvps.blpair_int(b) for b in k.blps}, "baseline-pairs"
    # metadata per row
    for b in k.blps:
        rr = rows[uvps.blpair_int(b)]
        m1, m2 = dsets.rows_of(U1, b[0])[0], dsets.rows_of(U2, b[1])[0]
        for nm, e in (("time_1_array", U1.time_array[m1]), ("time_2_array", U2.time_array[m2]), ("lst_1_array", U1.lst_array[m1]), ("lst_2_array", U2.lst_array[m2]),
                      ("time_avg_array", (U1.time_array[m1] + U2.time_array[m2]) / 2)):
            near(getattr(u, nm)[rr], e, nm, 1e-12)
        z = np.exp(1j * u.lst_avg_array[rr])
        e = np.exp(1j * U1.lst_array[m1]) + np.exp(1j * U2.lst_array[m2])
        near(z, e / np.abs(e), "lst_avg_array", 1e-9)
    # baselines
    ecef = dict(zip(U1.telescope.antenna_numbers, U1.telescope.antenna_positions))
    bls = {uvps.bl_int(b) for bp in k.blps for b in bp}
    assert sorted(bls) == sorted(int(b) for b in u.bl_array) and u.Nbls == len(bls), "bl_array"
    for b, v in zip(u.bl_array, u.bl_vecs):
        a1, a2 = int(b) // 1000 - 100, int(b) % 1000 - 100
        near(v, ecef[a1] - ecef[a2], "bl_vecs", 1e-9, 1e-6)
    # windows
    fr = np.asarray(U1.freq_array)
    nz = False
    for i, s in enumerate(c["spws"]):
        (a, b), nd = s["w"], s["nd"]
        nf = b - a
        assert np.array_equal(u.freq_array[u.spw_freq_array == i], fr[a:b]), "freq_array"
        near(u.dly_array[u.spw_dly_array == i], modes_of(nd) / (nd * c["d"]["df"] * 1e6), "dly_array")
        for j, p in enumerate(k.pols):
            sc = 1.0
            if k.beam is not None:
                sc = beams.scalar(k.cosmo, lambda f: k.ratio(f, p[0]), fr[a], c["d"]["df"] * 1e6, nf, taper="none" if c["norm"] == "H^-1" else c["taper"], little_h=c["lh"], exact=c["exact"], num=4001)
            near(u.scalar_array[i, j], sc, "scalar_array", 2e-3)
            for bp in k.blps:
                rr = rows[uvps.blpair_int(bp)]
                P, W = want[i, bp, p]
                got = u.data_array[i][rr][:, :, j].T
                tol = 1e-7 if c["weight"] == "identity" and c["norm"] == "I" else 1e-4
                if P is not None:
                    near(got, P * (1.0 if c["retq"] else u.scalar_array[i, j]), "data of %s %s window %d" % (bp, p, i), tol)
                    nz = nz or np.any(P)
                if c["wf"] and P is not None:
                    near(u.window_function_array[i][rr][:, :, :, j], np.repeat(W.real[None], nt, 0), "window function", tol)
                (_, w1), (_, w2) = k.key(0, bp[0], p[0], slice(a, b)), k.key(1, bp[1], p[1], slice(a, b))
                near(u.wgt_array[i][rr][:, :, :, j], np.moveaxis(np.array([w1, w2]), 0, 2).transpose(1, 0, 2), "weights")
                integ = []
                for side, UU, ww in ((0, U1, w1), (1, U2, w2)):
                    n = dsets.vis(UU, bp[side], POLNUM[p[side]], "nsample_array")[a:b].astype(float)
                    navg = (n * ww).sum(0) / np.where(ww.sum(0) > 0, ww.sum(0), 1)
                    integ.append(navg * UU.integration_time[dsets.rows_of(UU, bp[side])[0]])
                e = np.array([2 / (1 / x + 1 / y) if x > 0 and y > 0 else 0.0 for x, y in zip(*integ)])
                near(u.integration_array[i][rr][:, j], e, "integration", 1e-6)
                assert np.all(u.nsample_array[i][rr][:, j] == 1), "nsample"
                near(u.get_data((i, bp, p)), got.T, "get_data")
    # labels and static metadata
    l1, l2 = k.labels[d1], k.labels[d2]
    assert np.all(np.asarray(u.labels)[np.asarray(u.label_1_array)] == l1) and np.all(np.asarray(u.labels)[np.asarray(u.label_2_array)] == l2), "labels"
    assert u.vis_units == c["d"]["units"] and u.taper == c["taper"] and u.weighting == c["weight"] and u.norm == ("Unnormalized" if c["retq"] else c["norm"])
    assert u.norm_units == ("Hz str [beam normalization not specified]" if k.beam is None else ("h^-3 Mpc^3" if c["lh"] else "Mpc^3")), u.norm_units
    assert u.symmetric_taper == (c["sym"] and not any(sum(s["ext"]) for s in c["spws"])), "symmetric_taper"
    assert c["hist"] in u.history and U1.history in u.history and U2.history in u.history, "history"
    loc = U1.telescope.location
    near(u.telescope_location, [loc.x.value, loc.y.value, loc.z.value], "telescope_location")
    if k.beam is not None:
        assert u.cosmo == k.cosmo
        for j, p in enumerate(k.pols):
            near(u.OmegaP[:, j], k.beam.power_beam_int(p[0]), "OmegaP")
            near(u.OmegaPP[:, j], k.beam.power_beam_sq_int(p[0]), "OmegaPP")
    if c["weight"] == "dayenu":
        from hera_pspec.uvpspec_utils import decompress_r_params
        assert decompress_r_params(u.r_params) == k.r_params(), "r_params"
    # the same object answers the same again, whatever was computed in between
    k.run(blps=k.blps[:1], pols=[k.polargs[-1]], taper="hann" if c["taper"] == "none" else "none", norm="I") if c["weight"] == "identity" and not c["exact"] and ok_taper(k) else None
    again = k.run(pols=polargs)
    uvps.same(uvps.snap(again), uvps.snap(u), tol=1e-9, ignore=("history",))
    note.nt(nz and ns * nb * npol > 1)
    note.label(c["weight"], c["norm"], "beam %s" % c["beam"], "exact" if c["exact"] else "alt", "spws %d" % ns, "ext" if any(sum(s["ext"]) for s in c["spws"]) else "no ext", "wgts" if c["d"]["wg"] else "flags",
               "q" if c["retq"] else "p", "same dset" if d1 == d2 else "two dsets", c["d"]["fl"])


def ok_taper(k):
    """no window is refused for a band-dependent normalization with the other taper"""
    return all(s["nd"] == s["w"][1] - s["w"][0] and not sum(s["ext"]) for s in k.c["spws"]) and k.c["d"]["fl"] == "none"


@st.composite
def ref_case(draw):
    c = draw(case(weights=("identity",), simple=True))
    c["norm"], c["exact"], c["taper"] = "I", False, "none"
    for s in c["spws"]:
        s["nd"] = s["w"][1] - s["w"][0]
    c["how"] = draw(st.integers(0, 11))
    return c


def refusals(c, note):
    """malformed requests are refused, equivalent spellings agree"""
    k = Call(c)
    b1, b2 = [b for b, _ in k.blps], [b for _, b in k.blps]
    spws = [tuple(s["w"]) for s in c["spws"]]
    dd = tuple(c["dd"])
    kw = dict(verbose=False, little_h=c["lh"])
    P = k.psd.pspec
    h = c["how"]
    p0 = k.polargs
    if h == 0:
        assert raises(P, b1, b2 + [b2[0]], dd, p0, **kw), "baseline lists of different lengths"
    elif h == 1:
        assert raises(P, [], [], dd, p0, **kw) and raises(P, tuple(b1), tuple(b2), dd, p0, **kw), "empty or non-list baselines"
    elif h == 2:
        assert raises(P, b1, b2, (dd[0],), p0, **kw) and raises(P, b1, b2, dd[0], p0, **kw) and raises(P, b1, b2, ("zz", "zz"), p0, **kw), "malformed dsets"
    elif h == 3:
        assert raises(P, b1, b2, dd, p0, spw_ranges=spws, n_dlys=[3] * (len(spws) + 1), **kw), "n_dlys of another length"
        assert raises(P, b1, b2, dd, p0, spw_ranges=spws, filter_extensions=[(0, 0)] * (len(spws) + 1), **kw), "filter_extensions of another length"
    elif h == 4:
        assert raises(P, b1, b2, dd, [("pI", "pI")], **kw), "polarization that no dataset has"
    elif h == 5:
        assert raises(P, [[b1[0], b1[0]]], [[b2[0], b2[0]]], dd, p0, **kw), "groups of baselines"
        assert raises(P, [b1[0]], [[b2[0]]], dd, p0, **kw), "tuple against list"
    elif h == 6:
        assert raises(P, b1, b2, dd, p0, norm="nonsense", **kw) and raises(P, b1, b2, dd, p0, input_data_weight="nonsense", **kw), "unknown norm or weighting"
    elif h == 7:
        if len(k.pols) and len(c["d"]["pols"]) > 1:
            k.psd.primary_beam = beams.PSpecBeamGauss(0.2, beams.BF)
            a, b = c["d"]["pols"][:2]
            assert raises(P, b1, b2, dd, [(a, b)], **kw), "mixed polarizations with a beam"
    elif h == 8:
        assert raises(P, b1, b2, dd, p0, input_data_weight="dayenu", r_params={}, **kw), "dayenu without parameters"
    elif h == 9:
        u = copy.deepcopy(k.uvds[0])
        u.channel_width = u.channel_width * 2
        q = PSpecData([k.uvds[0], u], [None, None])
        assert raises(q.pspec, b1[:1], b2[:1], (0, 1), p0, **kw), "channel widths differ"
    elif h == 10:
        try:
            a = P(b1, b2, dd, p0, spw_ranges=spws, **kw)
        except ValueError:
            raise Skip("band-dependent normalization")
        e = P([[b] for b in b1], [[b] for b in b2], list(dd), [x if isinstance(x, tuple) else (x, x) for x in p0], spw_ranges=spws, n_dlys=[s[1] - s[0] for s in spws], **kw)
        uvps.same(uvps.snap(a), uvps.snap(e), tol=1e-12, ignore=("history",))
    else:
        try:
            a = P(b1, b2, dd, p0, spw_ranges=spws, **kw)
        except ValueError:
            raise Skip("band-dependent normalization")
        # the order of the request orders nothing but the storage
        e = P(b1[::-1], b2[::-1], dd, p0[::-1], spw_ranges=spws, **kw)
        for i in range(len(spws)):
            for bp in k.blps:
                for p in k.pols:
                    near(e.get_data((i, bp, p)), a.get_data((i, bp, p)), "data after reordering the request")
                    near(e.get_integrations((i, bp, p)), a.get_integrations((i, bp, p)), "integrations after reordering the request")
    note.nt(True)
    note.label("how %d" % h)


# ------------------------------------------------------------------------------------------------ putting datasets into the object
@st.composite
def build_case(draw):
    adds = []
    for _ in range(draw(st.integers(1, 3))):
        n = draw(st.integers(1, 2))
        adds.append(dict(form=draw(st.sampled_from(["list", "list", "tuple", "dict", "single"] if n == 1 else ["list", "list", "tuple", "dict"])), n=n, w=draw(st.sampled_from(["none", "nones", "all", "some"])),
                         s=draw(st.sampled_from(["none", "none", "all", "some"])), labels=draw(st.one_of(st.none(), st.lists(st.sampled_from(["a", "b", "dset1", "a.1"]), min_size=n, max_size=n)))))
    d = draw(dsets.dspec(nd=6, nf=(3, 5), nt=(1, 2), max_bl=2, npol=2, wgts=False))
    return dict(d=d, adds=adds, ctor=draw(st.booleans()), pick=draw(st.integers(0, 5)), bad=draw(st.integers(0, 5)))


def construct(c, note):
    """datasets, weights and standard deviations given in any form are those found under their index and their label; malformed collections are refused whole"""
    sp = c["d"]
    pool = [dsets.build_one(sp, i) for i in range(6)]
    wpool = [dsets.build_one(sp, i, "wgts") for i in range(6)]
    spool = [dsets.build_one(sp, i, "std") for i in range(6)]
    keep = [dsets.dsnap(u) for u in pool + wpool + spool]
    want = []  # (label asked for or None, dataset, weights, std)
    psd = None if c["ctor"] else PSpecData()
    k = 0
    for j, a in enumerate(c["adds"]):
        n, ctor = a["n"], psd is None
        ds = pool[k:k + n]
        w = {"none": None, "nones": [None] * n, "all": wpool[k:k + n], "some": [wpool[k]] + [None] * (n - 1)}[a["w"]]
        s = {"none": None, "all": spool[k:k + n], "some": [spool[k]] + [None] * (n - 1)}[a["s"]]
        if ctor and s is not None and n > 1 and a["s"] == "some":
            s = spool[k:k + n]  # (the constructor takes standard deviations of all datasets or of none)
        k += n
        lab = a["labels"]
        ws, ss = [None] * n if w is None else w, [None] * n if s is None else s
        form = a["form"]
        if form == "dict":
            lab = list(dict.fromkeys(lab or ["p", "q"][:n]))
            lab += ["z", "y"][:n - len(lab)]
            D = lambda v: None if v is None else dict(zip(lab, v))
            args, kw = [D(ds), D(w)], dict(dsets_std=D(s))
        elif form == "single" and not ctor:
            args, kw = [ds[0], None if w is None else w[0]], dict(dsets_std=None if s is None else s[0], labels=None if lab is None else lab[0])
        else:
            T = {"list": list, "tuple": tuple, "single": list}[form]
            L = lambda v: None if v is None else T(v)
            args, kw = [L(ds), L(w)], dict(dsets_std=L(s), labels=lab if lab is None else list(lab))
        asked = [list(x) if isinstance(x, list) else dict(x) if isinstance(x, dict) else x for x in args + list(kw.values())]
        if ctor:
            psd = PSpecData(*args[:2], **kw)
        else:
            psd.add(*args, **kw)
        for x, y in zip(asked, args + list(kw.values())):
            assert type(x) is type(y) and (x is y or len(x) == len(y) and all(p is q for p, q in zip(x, y))), "an argument changed"
        want += list(zip(lab or [None] * n, ds, ws, ss))
        # a refused collection leaves the object alone
        before = (list(psd.dsets), list(psd.wgts), list(psd.labels), list(psd.dsets_std))
        bads = [([pool[0]], [None, None], {}), (dict(a=pool[0]), [None], {}), (dict(a=pool[0]), None, dict(labels=["b"])), ([pool[0]], [None], dict(labels=["x", "y"])), (["nothing"], [None], {}),
                ([pool[0]], ["nothing"], {}), ([pool[0]], [None], dict(dsets_std=["nothing"])), ([pool[0]], [None], dict(dsets_std=[None, None])), (dict(a=pool[0]), None, dict(dsets_std=[None])), (pool[0].data_array, None, {})]
        b = bads[(c["bad"] + j) % len(bads)]
        assert raises(psd.add, b[0], b[1], **b[2]), "a malformed collection was accepted: %s" % (b,)
        for x, y in zip(before, (psd.dsets, psd.wgts, psd.labels, psd.dsets_std)):
            assert len(x) == len(y) and all(p is q or p == q for p, q in zip(x, y)), "a refused collection was kept"
    N = len(want)
    assert len(psd.dsets) == len(psd.wgts) == len(psd.dsets_std) == len(psd.labels) == N, "number of datasets"
    for i, (l, u, w, s) in enumerate(want):
        assert psd.dsets[i] is u, "dataset %d" % i
        assert psd.wgts[i] is w, "weights of dataset %d" % i
        assert psd.dsets_std[i] is s, "standard deviations of dataset %d" % i
        name = psd.labels[i]
        asked = "dset%d" % i if l is None else l
        assert name == asked or (name.startswith(asked + ".") and asked in psd.labels[:i]), "label %r of a dataset called %r" % (name, asked)
        assert psd.dset_idx(name) == i and psd.dset_idx(i) == i and psd.dset_idx(np.int64(i)) == i, "dset_idx"
    assert len(set(psd.labels)) == N, "labels are not unique: %s" % psd.labels
    assert raises(psd.dset_idx, "nobody") and raises(psd.dset_idx, 1.5) and raises(psd.dset_idx, None), "dset_idx of nothing"
    s = str(psd)
    assert "%d dataset" % N in s and all(l in s for l in psd.labels), "str()"
    # reading by index and by label
    nf = sp["nf"]
    i = c["pick"] % N
    l, u, w, sd = want[i]
    bls = [tuple(b) for b in sp["bls"]]
    for bl in bls:
        for p in sp["pols"]:
            x = dsets.vis(u, bl, POLNUM[p])
            for key in ((i, bl, p), (psd.labels[i], bl, p), (i,) + bl + (p,), (i, bl, POLNUM[p])):
                near(psd.x(key), x, "x(%s)" % (key,))
                near(psd.w(key), (~dsets.vis(u, bl, POLNUM[p], "flag_array")).astype(float) if w is None else dsets.vis(w, bl, POLNUM[p]).real, "w(%s)" % (key,))
                if sd is not None:
                    near(psd.dx(key), dsets.vis(sd, bl, POLNUM[p]), "dx(%s)" % (key,))
            other = {"xy": "yx", "yx": "xy"}.get(p, p)
            assert psd.check_key_in_dset(bl + (p,), i) and psd.check_key_in_dset(bl, i) and psd.check_key_in_dset((p,), i) and psd.check_key_in_dset(p, i), "check_key_in_dset of what is there"
            if other in sp["pols"]:  # (read reversed, a cross polarization is its other)
                assert psd.check_key_in_dset(bl[::-1] + (p,), i), "check_key_in_dset of a reversed baseline"
    miss = [p for p in ("xx", "yy", "xy", "yx") if p not in sp["pols"]]
    assert not psd.check_key_in_dset((77, 78), i) and not psd.check_key_in_dset((77, 78, sp["pols"][0]), i), "check_key_in_dset of a missing baseline"
    for p in miss:
        assert not psd.check_key_in_dset((p,), i) and (bls[0][0] == bls[0][1] or {"xy": "yx", "yx": "xy"}.get(p, p) in sp["pols"] or not psd.check_key_in_dset(bls[0] + (p,), i)), "check_key_in_dset of a missing polarization"
    assert raises(psd.check_key_in_dset, (1, 2, "xx", 4), i), "a key of four parts"
    assert psd.Nfreqs == nf and tuple(psd.spw_range) == (0, nf) and psd.spw_Ndlys == nf and psd.Ntimes == want[0][1].Ntimes
    near(psd.freqs, want[0][1].freq_array, "freqs")
    for u, b in zip(pool + wpool + spool, keep):
        uvps.same(dsets.dsnap(u), b)
    note.nt(N > 1)
    note.label("ctor" if c["ctor"] else "add", *["%s w %s s %s" % (a["form"], a["w"], a["s"]) for a in c["adds"]])


# ------------------------------------------------------------------------------------------------ datasets with different polarizations
@st.composite
def pol_case(draw):
    d = draw(dsets.dspec(nd=2, nf=(3, 6), nt=(1, 3), max_bl=2, pols=["xx", "yy", "pI", "pQ"], npol=4, wgts=False, flags=draw(st.sampled_from(["none", "chan", "pix"]))))
    ps = d["pols"]
    sub = st.lists(st.sampled_from(ps), min_size=1, max_size=len(ps), unique=True)
    return dict(d=d, sub=[draw(sub), draw(sub)], dd=draw(st.sampled_from([[0, 1], [0, 1], [1, 0], [0, 0], [1, 1]])), spell=draw(st.booleans()),
                req=draw(st.lists(st.tuples(st.sampled_from(ps), st.sampled_from(ps)).map(list), min_size=1, max_size=5, unique_by=tuple)), cov=draw(st.booleans()))


def polsets(c, note):
    """of the requested polarization-pairs those are estimated whose first is in the first dataset and whose second is in the second; none of them: refused"""
    sp = c["d"]
    full = dsets.build(sp)
    us = []
    for u, sub in zip(full, c["sub"]):
        v = u.select(polarizations=[POLNUM[x] for x in sub], inplace=False, run_check=False)
        us.append(v)
    dd = c["dd"]
    args = ([tuple(sp["bls"][0])], [tuple(sp["bls"][-1])], tuple(dd))
    kw = dict(verbose=False, taper="none", store_window=True, store_cov=c["cov"])
    pols = [tuple(x) if c["spell"] else tuple(POLNUM[y] for y in x) for x in c["req"]]
    ok = [p for p, (x, y) in zip(pols, c["req"]) if x in c["sub"][dd[0]] and y in c["sub"][dd[1]]]
    psd = PSpecData(us, [None, None], labels=["a", "b"])
    if not ok:
        assert raises(psd.pspec, *args, pols, **kw), "no polarization-pair that the datasets have"
        note.nt(True)
        note.label("none")
        return
    try:
        u = psd.pspec(*args, pols, **kw)
    except ValueError as e:
        if "band-dependent" not in str(e):
            raise
        raise Skip("band-dependent normalization")
    r = PSpecData(full, [None, None], labels=["a", "b"]).pspec(*args, ok, **kw)
    uvps.same(uvps.snap(u), uvps.snap(r), tol=1e-12, ignore=("history",))
    note.nt(len(ok) < len(pols))


LAWS = [
    Law("construct", build_case(), construct, quick=150, thorough=6000, doc="datasets, weights and standard deviations are found under their index and label, whatever the form they were given in"),
    Law("spectra", case(), spectra, quick=250, thorough=10000, shards=6, weight=3, doc="each requested spectrum once, with the estimator's value and its visibilities' metadata"),
    Law("polsets", pol_case(), polsets, quick=120, thorough=3000, doc="only polarization-pairs that the datasets have are estimated"),
    Law("refusals", ref_case(), refusals, quick=100, thorough=3000, shards=2, doc="malformed requests are refused; spelling and order of the request do not matter"),
]
