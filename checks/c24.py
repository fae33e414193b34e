"""C24: analytic bandpower covariances are the Gaussian propagation of the visibility covariances."""
import copy
import warnings

import numpy as np
from hypothesis import strategies as st

from hera_pspec import PSpecData
from pv import beams, dsets, uvps
from pv.core import Law, Skip
from pv.dsets import POLNUM
from checks import c12
from pv.uvps import raises
from checks.c12 import G_of, H_of, Q_of, R_of, empirical_cov, near, prepare, q_of

RULE = ("Cases are generated visibilities, flags, weights, standard deviations, autocorrelations or random covariances with an estimator configuration; non-trivial when the expected "
        "covariance of at least one time is non-zero and at least three delays are estimated.")
ASSUMPTIONS = ["Isserlis' theorem applied to the real and imaginary parts of the visibilities as one real Gaussian vector is the reference propagation", "pairs of channels that are never jointly unflagged have no empirical covariance (excluded)",
               "every autocorrelation and number of samples used by the 'autos' model is positive"]

warnings.simplefilter("ignore")


# ------------------------------------------------------------------------------------------------ brute-force propagation
def sigma(C11, C12, C22, P11, P12, P22):
    """covariance of the real vector (Re x1, Im x1, Re x2, Im x2) from <x y^dagger> and <x y^T>"""
    def block(C, P):
        return np.block([[(C + P).real, (P - C).imag], [(P + C).imag, (C - P).real]]) / 2
    return np.block([[block(C11, P11), block(C12, P12)], [block(C12, P12).T, block(C22, P22)]])


def propagate(B, S):
    """B: (Nd, 4n, 4n) complex forms q_a = z^T B_a z; returns cov(Re, Re), cov(Im, Im), cov(Re, Im)"""
    sym = lambda A: (A + A.transpose(0, 2, 1)) / 2
    Ar, Ai = sym(B.real) @ S, sym(B.imag) @ S
    rr = 2 * np.einsum("aij,bji->ab", Ar, Ar)
    ii = 2 * np.einsum("aij,bji->ab", Ai, Ai)
    ri = 2 * np.einsum("aij,bji->ab", Ar, Ai)
    return rr, ii, ri


def forms(E):
    """q_a = x1^dagger E_a x2 as forms of the real vector"""
    n, m = E.shape[1:]
    L1 = np.hstack([np.eye(n), 1j * np.eye(n), np.zeros((n, 2 * m))])
    L2 = np.hstack([np.zeros((m, 2 * n)), np.eye(m), 1j * np.eye(m)])
    return np.einsum("ki,akl,lj->aij", L1.conj(), E, L2, optimize=True)


def E_of(R1, R2, Q):
    return 0.5 * np.einsum("ij,ajk,kl->ail", R1.conj().T, Q, R2, optimize=True)


def natural(E, x1, w1, x2, w2, t=None):
    """rounding scale of the covariances: the square of the largest possible |q|"""
    a, b = np.abs(x1 * w1), np.abs(x2 * w2)
    a, b = (a.max(1), b.max(1)) if t is None else (a[:, t], b[:, t])
    return float(np.einsum("i,aij,j->a", a, np.abs(E), b).max()) ** 2


def auto_var(u, bl, p, sl, t):
    """variance from the autocorrelations of both antennas"""
    v = lambda a, b, k="data_array": dsets.vis(u, (a, b), POLNUM[p], k)[sl]
    n = dsets.vis(u, bl, POLNUM[p], "nsample_array")[sl]
    assert n.size
    return np.abs(v(bl[0], bl[0])[:, t]) * np.abs(v(bl[1], bl[1])[:, t]) / np.median(u.integration_time) / np.asarray(u.channel_width)[sl] / n[:, t]


def clip(S):
    S = S.copy()
    bad = S.diagonal().real <= 0
    S[bad] = 0
    S[:, bad] = 0
    return S


def q_cov(model, E, x1, w1, x2, w2, extra, t):
    """covariances of Re q and Im q (and their cross-covariance) at time t"""
    B = forms(E)
    n = E.shape[1]
    Z = np.zeros((n, n))
    if model == "empirical":
        S = sigma(empirical_cov(x1, w1), empirical_cov(x1, w1, x2, w2), empirical_cov(x2, w2), empirical_cov(x1, w1, x1, w1, False, False), empirical_cov(x1, w1, x2, w2, False, False), empirical_cov(x2, w2, x2, w2, False, False))
        return propagate(B, S)
    if model == "dsets":
        (s1, s2) = extra
        C1, C2 = np.diag(np.abs(w1[:, t] * s1[:, t]) ** 2), np.diag(np.abs(w2[:, t] * s2[:, t]) ** 2)
        return propagate(B, sigma(C1, Z, C2, Z, Z, Z))
    if model == "autos":
        return propagate(B, sigma(np.diag(extra[0](t)), Z, np.diag(extra[1](t)), Z, Z, Z))
    if model == "fg":
        N1, N2 = np.diag(extra[0](t)), np.diag(extra[1](t))
        y1, y2 = w1[:, t] * x1[:, t], w2[:, t] * x2[:, t]
        Cs = (np.outer(y1, y2.conj()) + np.outer(y2, y1.conj())) / 2
        EH = E.conj().transpose(0, 2, 1)
        tr = lambda A, C, D: np.einsum("aij,jk,bkl,li->ab", A, C, EH, D, optimize=True)
        V = tr(E, N2, N1) + clip(tr(E, Cs, N1) + tr(E, N2, Cs))
        # circular: <q q> = 0
        return V.real / 2, V.real / 2, None
    raise ValueError(model)


# ------------------------------------------------------------------------------------------------ cases
def zdiag_ok(S, V):
    """no diagonal element of the coupling term too close to the threshold of the clipping"""
    d = S.diagonal().real
    return np.min(np.abs(d)) > 1e-6 * np.max(np.abs(d))


@st.composite
def an_case(draw):
    model = draw(st.sampled_from(["empirical", "empirical", "dsets", "dsets", "autos", "fg", "fg"]))
    ws = ("identity", "identity", "iC", "dayenu")
    c = draw(c12.options(weights=ws, max_nf=7))
    c["model"] = model
    c["d"]["autos"] = model in ("autos", "fg")
    c["d"]["ns"] = draw(st.sampled_from(["one", "blt", "full"])) if model in ("autos", "fg") else c["d"]["ns"]
    if model in ("empirical",) and c["d"]["nt"] < 3:
        c["d"]["nt"] = 4
    c["d"]["std"] = model == "dsets"
    c["mseed"], c["mdim"] = draw(st.integers(0, 999)), draw(st.sampled_from(["id", "2d", "3d", "real", "imag"]))
    c["exact"] = draw(st.sampled_from([False, False, False, True])) and c["ext"] == [0, 0]
    c["rot"] = draw(st.sampled_from([0, 0, 1]))
    if model in ("autos", "fg"):
        c["rev"] = False
    c["same"] = draw(st.sampled_from([False, False, False, True]))
    return c


def coverage(ws, model):
    for u, v in ((ws[0], ws[0]), (ws[1], ws[1]), (ws[0], ws[1])):
        if model == "empirical" and ((u @ v.T == 0) & (u.any(1)[:, None] & v.any(1)[None])).any():
            raise Skip("channels never jointly unflagged")


def setup_case(c):
    """the configured PSpecData and the pieces of the oracle"""
    psd, keys, xs, ws, o, freqs, uvds = prepare(c)
    if c.get("same"):
        keys[1], xs[1], ws[1] = keys[0], xs[0], ws[0]
    model = c["model"]
    sp = c["d"]
    a, b = c["spw"]
    sl = slice(a - c["ext"][0], b + c["ext"][1])
    beam = None
    if c.get("exact"):
        beam = beams.FlatBeam(1)
    stds = [dsets.build_one(sp, i, "std") for i in range(2)] if model == "dsets" else None
    if beam is not None or stds is not None:
        psd = PSpecData(psd.dsets, psd.wgts, dsets_std=stds, labels=["red", "blue"], beam=beam)
        c12.configure(psd, c, keys)
    info = []
    for k in keys:
        d, bl = psd.parse_blkey(k)
        info.append((d, tuple(int(z) for z in bl[:2]), bl[2]))
    extra = None
    if model == "dsets":
        extra = [dsets.vis(stds[d], bl, POLNUM[p])[sl] for d, bl, p in info]
    if model in ("autos", "fg"):
        extra = [(lambda t, d=d, bl=bl, p=p: auto_var(uvds[d], bl, p, sl, t)) for d, bl, p in info]
    R1, R2 = R_of(o, xs[0], ws[0], freqs), R_of(o, xs[1], ws[1], freqs)
    nf, nd = o["nf"], o["nd"]
    Q = Q_of(nf, nd)
    if c.get("exact"):
        res, om, N = beam.beam_normalized_response("pI", freqs)
        Q = Q * (np.pi / (3 * N * N) * (res / om[:, None]) @ (res / om[:, None]).T)[None] / (nd * sp["df"] * 1e6)
    E = E_of(R1, R2, Q)
    return psd, keys, info, xs, ws, o, E, extra, uvds


def analytic(c, note):
    """get_analytic_covariance equals the Gaussian propagation for Re q, Im q, Re p and Im p at each time"""
    coverage_needed = c["model"]
    psd, keys, info, xs, ws, o, E, extra, uvds = setup_case(c)
    coverage(ws, coverage_needed)
    nd, nt = o["nd"], c["d"]["nt"]
    r = uvps.rng_of(c["mseed"], 3)
    M = {"id": np.eye(nd), "2d": r.normal(size=(nd, nd)) + 1j * r.normal(size=(nd, nd)), "3d": r.normal(size=(nt, nd, nd)) + 1j * r.normal(size=(nt, nd, nd)), "real": r.normal(size=(nd, nd)),
         "imag": 1j * r.normal(size=(nd, nd))}[c["mdim"]]
    name = {"fg": "foreground_dependent"}.get(c["model"], c["model"])
    got = psd.get_analytic_covariance(keys[0], keys[1], M=M, exact_norm=c["exact"], pol="pI" if c["exact"] else False, model=name)
    nz = False
    Ms = M if M.ndim == 3 else np.repeat(M[None], nt, 0)
    for g in got:
        assert g.shape == (nt, nd, nd), "shape %s" % (g.shape,)
    for t in range(nt):
        if c["model"] == "fg":
            rr, ii, ri = q_cov("fg", E, xs[0], ws[0], xs[1], ws[1], extra, t)
            V = full_fg(E, xs, ws, extra, t)
            want = [V.real / 2, V.real / 2]
            X = Ms[t] @ V @ Ms[t].conj().T
            want += [X.real / 2, X.real / 2]
        else:
            rr, ii, ri = q_cov(c["model"], E, xs[0], ws[0], xs[1], ws[1], extra, t)
            m = Ms[t]
            pr = m.real @ rr @ m.real.T + m.imag @ ii @ m.imag.T - m.real @ ri @ m.imag.T - m.imag @ ri.T @ m.real.T
            pi = m.imag @ rr @ m.imag.T + m.real @ ii @ m.real.T + m.imag @ ri @ m.real.T + m.real @ ri.T @ m.imag.T
            want = [rr, ii, pr, pi]
        tol = 1e-6 if c["weight"] == "identity" else 1e-4
        qs, ps = max(np.abs(want[0]).max(), np.abs(want[1]).max()), max(np.abs(want[2]).max(), np.abs(want[3]).max())
        if c["model"] == "empirical":
            nat = 1e-9 * natural(E, xs[0], ws[0], xs[1], ws[1])
            qs, ps = max(qs, nat), max(ps, nat * np.abs(Ms[t]).sum(1).max() ** 2)
        for g, e, nm, s in zip(got, want, ("Re q", "Im q", "Re p", "Im p"), (qs, qs, ps, ps)):
            near(g[t], e, "covariance of %s at time %d" % (nm, t), tol, floor=s if s > 0 else 1e-300)
            assert np.abs(g[t].imag).max() <= tol * max(s, 1e-300), "complex covariance of %s" % nm
            near(g[t], g[t].T, "symmetry of the covariance of %s" % nm, tol, floor=s if s > 0 else 1e-300)
            if c["model"] in ("dsets", "autos") or (c["model"] == "empirical" and all((w == w[:, :1]).all() for w in ws)) or (c["model"] == "fg" and c["mdim"] == "id"):
                assert g[t].diagonal().real.min() >= -1e-9 * s, "negative variance of %s" % nm
        nz = nz or qs > 0
    note.nt(nz and nd >= 3)
    note.label(c["model"], c["weight"], "exact" if c["exact"] else "", "M " + c["mdim"], "ext" if sum(c["ext"]) else "", "same vis" if c["same"] else "")


def full_fg(E, xs, ws, extra, t):
    """the complex covariance <q_a q_b^*> of the foreground_dependent model"""
    N1, N2 = np.diag(extra[0](t)), np.diag(extra[1](t))
    y1, y2 = ws[0][:, t] * xs[0][:, t], ws[1][:, t] * xs[1][:, t]
    Cs = (np.outer(y1, y2.conj()) + np.outer(y2, y1.conj())) / 2
    EH = E.conj().transpose(0, 2, 1)
    tr = lambda A, C, D: np.einsum("aij,jk,bkl,li->ab", A, C, EH, D, optimize=True)
    S = tr(E, Cs, N1) + tr(E, N2, Cs)
    if not zdiag_ok(S, None):
        raise Skip("coupling term at the clipping threshold")
    return tr(E, N2, N1) + clip(S)


def fullV(c, note):
    """get_unnormed_V equals <q_a q_b^*> of the same propagation"""
    psd, keys, info, xs, ws, o, E, extra, uvds = setup_case(c)
    coverage(ws, c["model"])
    nt = c["d"]["nt"]
    t = c["mseed"] % nt
    kw = dict(model=c["model"], time_index=None if c["model"] == "empirical" else t, exact_norm=c["exact"], pol="pI" if c["exact"] else False)
    rr, ii, ri = q_cov(c["model"], E, xs[0], ws[0], xs[1], ws[1], extra, t)
    want = rr + ii + 1j * (ri.T - ri)
    got = psd.get_unnormed_V(keys[0], keys[1], **kw)
    nat = 1e-9 * natural(E, xs[0], ws[0], xs[1], ws[1]) if c["model"] == "empirical" else 0
    tol = 1e-6 if c["weight"] == "identity" else 1e-4
    near(got, want, "V", tol, floor=max(np.abs(want).max(), nat, 1e-300))
    if c["model"] != "fg":
        # of all times, of some, of a set of baselines (which it combines with inverse weights)
        kw.pop("time_index")
        allV = []
        for i in range(nt):
            r2, i2, x2 = q_cov(c["model"], E, xs[0], ws[0], xs[1], ws[1], extra, i)
            allV.append(r2 + i2 + 1j * (x2.T - x2))
        allV = np.array(allV)
        if np.abs(allV).min() > 1e-6 * np.abs(allV).max() > 0 and np.abs(allV).max() > 10 * nat:
            floor = max(np.abs(allV).max(), nat)
            near(psd.cov_q_hat(keys[0], keys[1], **kw), allV, "cov_q_hat", 10 * tol, floor=floor)
            near(psd.cov_q_hat(keys[0], keys[1], time_indices=t, **kw), allV[[t]], "cov_q_hat of a time", 10 * tol, floor=floor)
            ts = [t, 0, nt - 1]
            near(psd.cov_q_hat(keys[0], keys[1], time_indices=ts, **kw), allV[ts], "cov_q_hat of times", 10 * tol, floor=floor)
            other = psd.cov_q_hat(keys[0], keys[0], **kw)
            both = psd.cov_q_hat([keys[0], keys[0]], [keys[1], keys[0]], **kw)
            inv = 1 / allV + 1 / other
            if np.isfinite(inv).all() and np.abs(inv).min() > 1e-6 * np.abs(inv).max() and np.abs(other).min() > 1e-6 * np.abs(other).max():
                near(both, 2 / inv, "cov_q_hat of two baselines", 100 * tol, floor=max(floor, np.abs(2 / inv).max()))
            note.label("several")
        assert raises(psd.cov_q_hat, keys[0], keys[1], time_indices=nt, **kw) and raises(psd.cov_q_hat, keys[0], keys[1], time_indices=[-1], **kw), "a time that does not exist"
        assert raises(psd.cov_q_hat, [keys[0]], [keys[1]] * 2, **kw), "lists of different lengths"
    r = uvps.rng_of(c["mseed"], 5)
    M = r.normal(size=want.shape) + 1j * r.normal(size=want.shape) * (c["mdim"] != "real")
    near(psd.cov_p_hat(M, np.array([want, 2 * want])), np.array([M @ want @ M.conj().T] * 2) * np.array([1, 2])[:, None, None], "cov_p_hat", 1e-6)
    note.nt(np.any(want) and o["nd"] >= 3)
    note.label(c["model"], c["weight"])


# ------------------------------------------------------------------------------------------------ external covariances
@st.composite
def known_case(draw):
    c = draw(c12.options(weights=("identity", "identity", "dayenu"), max_nf=6))
    c["d"]["nt"] = draw(st.integers(1, 3))
    c["model"] = "none"
    c.update(kseed=draw(st.integers(0, 9999)), circ=draw(st.sampled_from(["full", "full", "circular", "independent"])), const=draw(st.booleans()), mseed=draw(st.integers(0, 99)), name=draw(st.sampled_from(["mine", "sim"])), exact=False)
    return c


def known(c, note):
    """covariances given by the user (full band) are cut to the window and propagated, with all their cross terms"""
    psd, keys, info, xs, ws, o, E, extra, uvds = setup_case(c)
    n, nt, nd = c["d"]["nf"], c["d"]["nt"], o["nd"]
    a, b = c["spw"]
    sl = slice(a - c["ext"][0], b + c["ext"][1])
    parse = [psd.parse_blkey(k) for k in keys]
    kc, sig = {}, []
    one = parse[0] == parse[1]
    for t in range(nt):
        r = uvps.rng_of(c["kseed"], 0 if c["const"] else t)
        A = r.normal(size=(2 * n, 4 * n)) + 1j * r.normal(size=(2 * n, 4 * n))
        if one:
            A[n:] = A[:n]
        C, P = A @ A.conj().T, A @ A.T
        if c["circ"] != "full":
            P = np.zeros_like(P)
        if c["circ"] == "independent" and not one:
            C[:n, n:] = C[n:, :n] = 0
        blk = lambda X, i, j: X[i * n:(i + 1) * n, j * n:(j + 1) * n]
        for i in (0, 1):
            for j in (0, 1):
                (di, bi), (dj, bj) = parse[i], parse[j]
                base = ((di, dj), (bi, bj), c["name"], t)
                kc[base + (False, True)] = blk(C, i, j)
                kc[base + (False, False)] = blk(P, i, j)
                kc[base + (True, True)] = blk(P, i, j).conj()
        cut = lambda X, i, j: blk(X, i, j)[sl, sl]
        sig.append(sigma(cut(C, 0, 0), cut(C, 0, 1), cut(C, 1, 1), cut(P, 0, 0), cut(P, 0, 1), cut(P, 1, 1)))
    keep = {k: v.copy() for k, v in kc.items()}
    r = uvps.rng_of(c["mseed"], 3)
    M = r.normal(size=(nd, nd)) + 1j * r.normal(size=(nd, nd))
    got = psd.get_analytic_covariance(keys[0], keys[1], M=M, model=c["name"], known_cov=kc)
    assert set(kc) == set(keep) and all(np.array_equal(kc[k], keep[k]) for k in keep), "the given covariances changed"
    B = forms(E)
    for t in range(nt):
        rr, ii, ri = propagate(B, sig[t])
        pr = M.real @ rr @ M.real.T + M.imag @ ii @ M.imag.T - M.real @ ri @ M.imag.T - M.imag @ ri.T @ M.real.T
        pi = M.imag @ rr @ M.imag.T + M.real @ ii @ M.real.T + M.imag @ ri @ M.real.T + M.real @ ri.T @ M.imag.T
        for g, e, nm in zip(got, (rr, ii, pr, pi), ("Re q", "Im q", "Re p", "Im p")):
            near(g[t], e, "covariance of %s at time %d" % (nm, t), 1e-6, floor=max(np.abs(rr).max(), 1e-300))
    note.nt(bool(np.any(E)) and nd >= 3)
    note.label(c["circ"], "constant" if c["const"] else "varying", "same visibility" if one else "")


# ------------------------------------------------------------------------------------------------ what pspec stores
@st.composite
def store_case(draw, adj=False):
    model = "empirical" if adj else draw(st.sampled_from(["empirical", "dsets", "autos", "fg"]))
    d = draw(dsets.dspec(nd=2, nf=(4, 7), nt=(1, 3) if model != "empirical" else (4, 7), max_bl=2, npol=2, flags=draw(st.sampled_from(["none", "chan", "edge", "none", "pix", "time"])), wgts=False, units="mK", autos=model in ("autos", "fg")))
    if model in ("autos", "fg"):
        d["ns"] = draw(st.sampled_from(["one", "blt", "full"]))
    n = d["nf"]
    return dict(d=d, model=model, spws=[[0, n]] if draw(st.booleans()) else [[0, n - 1], [1, n]], w="iC" if adj else draw(st.sampled_from(["identity", "identity", "iC"] if model == "empirical" else ["identity"])), norm="I" if adj else draw(st.sampled_from(["I", "I", "H^-1"])),
                taper=draw(st.sampled_from(["none", "hann", "bh"])), beam=draw(st.booleans()), diag=draw(st.booleans()), retq=draw(st.sampled_from([False, False, True])), both=draw(st.booleans()), auto=draw(st.booleans()), lh=draw(st.booleans()),
                drop=draw(st.booleans()), less=draw(st.sampled_from([0, 1, 2])) if adj else 0)


def stored(c, note):
    """pspec stores these covariances (or the root of their diagonals) per time, pair, window and polarization in the units of the spectrum"""
    sp = c["d"]
    uvds = dsets.build(sp)
    stds = [dsets.build_one(sp, i, "std") for i in range(2)] if c["model"] == "dsets" else None
    beam = beams.FlatBeam(3) if c["beam"] else None
    bls = [tuple(b) for b in sp["bls"]]
    b1s, b2s = [bls[0], bls[-1]], [bls[0], bls[0]]
    if len(bls) == 1:
        b1s, b2s = bls, bls
    pols = [(p, p) for p in sp["pols"]]
    dd = (0, 0) if c["auto"] else (0, 1)
    name = {"fg": "foreground_dependent"}.get(c["model"], c["model"])
    psd = PSpecData(copy.deepcopy(uvds), [None, None], dsets_std=stds, beam=beam)
    kw = dict(input_data_weight=c["w"], norm=c["norm"], taper=c["taper"], spw_ranges=[tuple(s) for s in c["spws"]], verbose=False, cov_model=name, little_h=c["lh"])
    if c["less"]:  # fewer delays than channels
        kw["n_dlys"] = [b - a - c["less"] for a, b in c["spws"]]
    try:
        u = psd.pspec(b1s, b2s, dd, pols, store_cov=c["both"] or not c["diag"], store_cov_diag=c["diag"], return_q=c["retq"], **kw)
        q = psd.pspec(b1s, b2s, dd, pols, return_q=True, **kw)
        p = psd.pspec(b1s, b2s, dd, pols, **kw)
    except ValueError as e:
        if "band-dependent" in str(e):
            raise Skip("band-dependent normalization")
        raise
    assert hasattr(u, "cov_array_real") == (not c["diag"]), "covariance arrays"
    if not c["diag"]:
        assert u.cov_model == name
    else:
        assert list(u.stats_array) == [name + "_diag"], "stats arrays"
    nz = False
    for i, (a, b) in enumerate(c["spws"]):
        nf, nd = b - a, b - a - c["less"]
        for j, (pol, _) in enumerate(pols):
            for bp in dict.fromkeys(zip(b1s, b2s)):
                xw = [(dsets.vis(uvds[d], bl, POLNUM[pol])[a:b], (~dsets.vis(uvds[d], bl, POLNUM[pol], "flag_array")[a:b]).astype(float)) for d, bl in zip(dd, bp)]
                (x1, w1), (x2, w2) = xw
                try:
                    coverage((w1, w2), c["model"])
                except Skip:
                    continue
                o = dict(nf=nf, nd=nd, ext=(0, 0), weight=c["w"], taper=c["taper"], sym=True, rp=None)
                R1, R2 = R_of(o, x1, w1, None), R_of(o, x2, w2, None)
                if not ((np.abs(R1) > 0).any() and (np.abs(R2) > 0).any()):
                    continue
                E = E_of(R1, R2, Q_of(nf, nd))
                rows = u.blpair_to_indices(bp)
                sc = u.scalar_array[i, j]
                if c["retq"]:
                    F = np.eye(nd)
                elif c["norm"] == "I":
                    Q0, P0 = q.data_array[i][rows][:, :, j], p.data_array[i][rows][:, :, j]
                    t0 = np.argmax(np.abs(Q0).min(1))
                    if not np.abs(Q0[t0]).min() > 1e-6 * np.abs(Q0).max() or not np.isfinite(P0[t0]).all():
                        continue
                    F = np.diag(P0[t0] / Q0[t0])
                else:
                    H = H_of(R1, R2, nf, nd, (0, 0), False)
                    if np.linalg.cond(H) > 1e5:
                        continue
                    F = np.linalg.inv(H) * (sc if beam is not None else 1.0)
                extra = None
                if c["model"] == "dsets":
                    extra = [dsets.vis(stds[d], bl, POLNUM[pol])[a:b] for d, bl in zip(dd, bp)]
                if c["model"] in ("autos", "fg"):
                    extra = [(lambda t, d=d, bl=bl: auto_var(uvds[d], bl, pol, slice(a, b), t)) for d, bl in zip(dd, bp)]
                for t in range(sp["nt"]):
                    if c["model"] == "fg":
                        try:
                            V = full_fg(E, (x1, x2), (w1, w2), extra, t)
                        except Skip:
                            continue
                        X = F @ V @ F.conj().T
                        cr = ci = X.real / 2
                    else:
                        rr, ii, ri = q_cov(c["model"], E, x1, w1, x2, w2, extra, t)
                        cr = F.real @ rr @ F.real.T + F.imag @ ii @ F.imag.T - F.real @ ri @ F.imag.T - F.imag @ ri.T @ F.real.T
                        ci = F.imag @ rr @ F.imag.T + F.real @ ii @ F.real.T + F.imag @ ri @ F.real.T + F.real @ ri.T @ F.imag.T
                    nat = 1e-9 * natural(E, x1, w1, x2, w2) * np.abs(F).sum(1).max() ** 2 if c["model"] == "empirical" else 0
                    s = max(np.abs(cr).max(), np.abs(ci).max(), nat, 1e-300)
                    tol = 1e-5 if c["w"] == "identity" and c["norm"] == "I" else 2e-4
                    row = rows[t]
                    if not c["diag"]:
                        near(u.cov_array_real[i][row][:, :, j], cr, "cov_array_real of %s %s window %d time %d" % (bp, pol, i, t), tol, floor=s)
                        near(u.cov_array_imag[i][row][:, :, j], ci, "cov_array_imag of %s %s window %d time %d" % (bp, pol, i, t), tol, floor=s)
                    else:
                        g = u.stats_array[name + "_diag"][i][row][:, j]
                        for h, e, nm in ((g.real, cr, "real"), (g.imag, ci, "imaginary")):
                            dg = e.diagonal()
                            if dg.min() < -1e-6 * s:
                                continue  # weights that vary over time: the empirical covariance is not positive
                            assert np.isfinite(h).all(), "standard deviation of the %s part is not a number" % nm
                            near(h ** 2, np.clip(dg, 0, None), "variance of the %s part" % nm, tol, floor=s)
                    nz = nz or np.any(cr)
    note.nt(nz)
    note.label(c["model"], c["w"], c["norm"], "diag" if c["diag"] else "cov", "q" if c["retq"] else "p", "beam" if c["beam"] else "", "same dset" if c["auto"] else "")


LAWS = [
    Law("analytic", an_case(), analytic, quick=160, thorough=8000, shards=3, doc="get_analytic_covariance against Isserlis propagation of the real Gaussian vector"),
    Law("fullV", an_case().filter(lambda c: c["model"] != "fg"), fullV, quick=100, thorough=5000, shards=2, doc="get_unnormed_V against the same"),
    Law("known", known_case(), known, quick=80, thorough=4000, shards=2, doc="user-supplied covariances"),
    Law("stored", store_case(), stored, quick=100, thorough=5000, shards=3, doc="covariances and standard deviations stored by pspec"),
    Law("stored_adj", store_case(adj=True), stored, quick=40, thorough=2500, doc="the same with a data weighting, whose normalization depends on the delay"),
]
