"""C12: the quadratic estimator against its matrix definition."""
import copy
import warnings

import numpy as np
from hypothesis import strategies as st

from hera_pspec import PSpecData, utils
from pv import dsets, uvps
from pv.core import Law, Skip

RULE = ("Cases are generated datasets (visibilities, flags, weights) with a window, number of delays, taper, data weighting, filter extension and normalization; non-trivial when the "
        "window has at least three channels and at least one channel is unflagged in both visibilities.")
ASSUMPTIONS = ["uvtools' taper and dayenu matrices and numpy's linear algebra are trusted", "covariances that are inverted have condition number below 1e7 on the unflagged channels"]

warnings.simplefilter("ignore")


# ------------------------------------------------------------------------------------------------ brute-force definitions
def taper_of(name, n):
    from uvtools import dspec
    return np.ones(n) if name == "none" else np.asarray(dspec.gen_window(name, n), float)


def modes_of(nd):
    return np.arange(nd) - (nd // 2 if nd % 2 == 0 else (nd - 1) // 2)


def fourier(nf, nd, f0=0):
    """(Ndly, Nfreq) Fourier vectors m_alpha"""
    return np.exp(-2j * np.pi * np.outer(modes_of(nd), np.arange(nf) - f0) / nd)


def Q_of(nf, nd, f0=0):
    m = fourier(nf, nd, f0)
    return m.conj()[:, :, None] * m[:, None, :]


def empirical_cov(x, w, x2=None, w2=None, conj_1=False, conj_2=True):
    """weighted covariance over time, as sums over samples"""
    if x2 is None:
        x2, w2 = x, w
    a = x.conj() if conj_1 else x
    b = x2.conj() if conj_2 else x2
    n, t = a.shape
    W1, W2 = w.sum(1), w2.sum(1)
    ma = np.array([(a[i] * w[i]).sum() / W1[i] if W1[i] > 0 else 0 for i in range(n)])
    mb = np.array([(b[i] * w2[i]).sum() / W2[i] if W2[i] > 0 else 0 for i in range(n)])
    C = np.zeros((n, n), complex)
    for i in range(n):
        for j in range(n):
            ww = w[i] * w2[j]
            s = ww.sum()
            C[i, j] = ((ww * a[i] * b[j]).sum() / s - ma[i] * mb[j]) if s > 0 else 0.0
    return C


def inverse(C, Y):
    """inverse on the unflagged channels (pseudo-inverse on the whole)"""
    good = np.where(Y > 0)[0]
    sub = C[np.ix_(good, good)]
    if len(good) and np.linalg.cond(sub) > 1e7:
        raise Skip("ill-conditioned covariance")
    out = np.zeros_like(C)
    if len(good):
        out[np.ix_(good, good)] = np.linalg.inv(sub)
    return out


def R_of(o, x, w, freqs):
    """R for one visibility: x, w are (Nfreq+ext, Ntimes); o the options"""
    n, (l, r) = o["nf"], o["ext"]
    T = taper_of(o["taper"], n)
    T = np.where(T > 0, T, 0.0) if (T < 0).any() else T
    Y = w.max(axis=1)
    if o["weight"] == "identity":
        K = np.diag(Y).astype(complex)
    elif o["weight"] == "iC":
        K = inverse(empirical_cov(x, w), Y) * np.outer(Y, Y)
    else:
        from uvtools import dspec
        D = dspec.dayenu_mat_inv(x=freqs, **o["rp"])
        K = np.linalg.pinv(np.outer(Y, Y) * D)
    if o["sym"]:
        return np.sqrt(T)[:, None] * K * np.sqrt(T)[None]
    return T[:, None] * K[l:l + n]


def G_of(R1, R2, nf, nd, ext):
    Q1, Q2 = Q_of(nf, nd), Q_of(nf + sum(ext), nd, ext[0])
    G = np.array([[np.trace(R1.conj().T @ Q1[a] @ R2 @ Q2[b]) for b in range(nd)] for a in range(nd)]) / 2
    return G if np.any(G) else np.eye(nd) / 2


def H_of(R1, R2, nf, nd, ext, sampling):
    Q1, Q2 = Q_of(nf, nd), Q_of(nf + sum(ext), nd, ext[0])
    N = nf + sum(ext)
    if not sampling:
        i = np.arange(N)
        Q2 = Q2 * np.sinc((i[:, None] - i[None]) / N)[None]
    H = np.array([[np.trace(R1.conj().T @ Q1[a] @ R2 @ Q2[b]) for b in range(nd)] for a in range(nd)]) / 2
    return H if np.any(H) else np.eye(nd) / 2


def q_of(R1, x1, R2, x2, nf, nd):
    Q = Q_of(nf, nd)
    a, b = R1 @ x1, R2 @ x2
    return np.array([[0.5 * a[:, t].conj() @ Q[d] @ b[:, t] for t in range(x1.shape[1])] for d in range(nd)])


# ------------------------------------------------------------------------------------------------ cases
@st.composite
def options(draw, weights=("identity", "identity", "iC", "dayenu"), exts=True, max_nf=9):
    w = draw(st.sampled_from(weights))
    d = draw(dsets.dspec(nd=2, nf=(4, max_nf), nt=(1, 4) if w != "iC" else (8, 14), max_bl=3, npol=2, units="mK", flags=draw(st.sampled_from(["none", "chan", "pix", "mix", "all", "edge"] if w != "iC" else ["none", "none", "chan", "edge"]))))
    n = d["nf"]
    a = draw(st.sampled_from([0, 0, 1, 2]))
    b = draw(st.sampled_from([n, n, n - 1, n - 2]))
    if b - a < 3:
        a, b = 0, n
    nf = b - a
    ext = (0, 0)
    if exts and draw(st.booleans()):
        ext = (draw(st.integers(0, a)), draw(st.integers(0, n - b)))
    sym = draw(st.booleans()) if ext == (0, 0) else False
    return dict(d=d, spw=[a, b], nd=draw(st.sampled_from([nf, nf, nf - 1, max(2, nf - 2)])), weight=w, taper=draw(st.sampled_from(["none", "none", "blackman-harris", "hann", "bh", "tukey"])), ext=list(ext), sym=sym,
                wg=d["wg"], b1=draw(st.integers(0, 2)), b2=draw(st.integers(0, 2)), rev=draw(st.sampled_from([False, False, True])), p1=draw(st.integers(0, 1)), p2=draw(st.integers(0, 1)),
                rp=dict(filter_centers=draw(st.sampled_from([[0.0], [0.0, 2e-7]])), filter_half_widths=[draw(st.sampled_from([1e-7, 3e-7]))], filter_factors=[draw(st.sampled_from([1e-2, 1e-4]))]),
                keyform=draw(st.sampled_from(["flat", "tuple", "label"])))


def prepare(c):
    sp = c["d"]
    uvds = dsets.build(sp)
    wgts = [dsets.build_one(sp, i, "wgts") for i in range(2)] if c["wg"] else [None, None]
    if c["wg"]:  # weights come from the weights object, whatever the flags say
        for u in uvds:
            u.flag_array[:] = False
    c["rp"]["filter_half_widths"] = c["rp"]["filter_half_widths"] * len(c["rp"]["filter_centers"])
    c["rp"]["filter_factors"] = c["rp"]["filter_factors"] * len(c["rp"]["filter_centers"])
    psd = PSpecData(uvds, wgts, labels=["red", "blue"])
    bls = [tuple(b) for b in sp["bls"]]
    bl1, bl2 = bls[c["b1"] % len(bls)], bls[c["b2"] % len(bls)]
    p1, p2 = sp["pols"][c["p1"] % len(sp["pols"])], sp["pols"][c["p2"] % len(sp["pols"])]
    if c["rev"]:  # a reversed baseline of a cross polarization is the other cross polarization as stored
        bl2 = bl2[::-1]
        p2 = {"xy": "yx", "yx": "xy"}.get(p2, p2)
    keys = []
    for i, (bl, p) in enumerate(((bl1, p1), (bl2, p2))):
        keys.append({"flat": (i,) + bl + (p,), "tuple": (i, bl, p), "label": (["red", "blue"][i], bl, p)}[c["keyform"]])
    a, b = c["spw"]
    ext = tuple(c["ext"])
    o = dict(nf=b - a, nd=c["nd"], ext=ext, weight=c["weight"], taper=c["taper"], sym=c["sym"], rp=c["rp"])
    sl = slice(a - ext[0], b + ext[1])
    xs, ws = [], []
    for i, (bl, p) in enumerate(((bl1, p1), (bl2, p2))):
        xs.append(dsets.vis(uvds[i], bl, dsets.POLNUM[p])[sl])
        if wgts[i] is None:
            ws.append((~dsets.vis(uvds[i], bl, dsets.POLNUM[p], "flag_array")[sl]).astype(float))
        else:
            ws.append(dsets.vis(wgts[i], bl, dsets.POLNUM[p]).real[sl])
    freqs = np.asarray(uvds[0].freq_array)[sl]
    configure(psd, c, keys)
    return psd, keys, xs, ws, o, freqs, uvds


def configure(psd, c, keys):
    psd.set_weighting(c["weight"])
    psd.set_taper(c["taper"])
    psd.set_symmetric_taper(c["sym"])
    psd.set_spw(tuple(c["spw"]), ndlys=c["nd"])
    psd.set_filter_extension(tuple(c["ext"]))
    if c["weight"] == "dayenu":
        for k in keys:
            psd.set_r_param(k, c["rp"])


def near(a, b, what, tol=1e-8, floor=1e-300):
    a, b = np.asarray(a), np.asarray(b)
    assert a.shape == b.shape, "%s: shape %s, expected %s" % (what, a.shape, b.shape)
    s = max(np.max(np.abs(b), initial=0), floor)
    e = np.max(np.abs(a - b), initial=0)
    assert e <= tol * s and np.isfinite(a).all() == np.isfinite(b).all(), "%s differs by %.3g of %.3g" % (what, e, s)


def usable(ws):
    return all((w.max(axis=1) > 0).sum() >= 1 for w in ws)


def matrices(c, note):
    psd, (k1, k2), (x1, x2), (w1, w2), o, freqs, _ = prepare(c)
    nf, nd, ext = o["nf"], o["nd"], o["ext"]
    tol = 1e-8 if c["weight"] == "identity" else 1e-5
    near(psd.x(k1), x1, "x")
    near(psd.w(k2), w2, "w")
    near(psd.Y(k1), np.diag(w1.max(axis=1)), "Y")
    near(psd.I(k1), np.eye(nf + sum(ext)), "I")
    R1, R2 = R_of(o, x1, w1, freqs), R_of(o, x2, w2, freqs)
    near(psd.R(k1), R1, "R1", tol)
    near(psd.R(k2), R2, "R2", tol)
    if c["weight"] == "iC":
        near(psd.C_model(k1), empirical_cov(x1, w1), "C")
    near(psd.q_hat(k1, k2), q_of(R1, x1, R2, x2, nf, nd), "q_hat", tol)
    near(psd.q_hat(k1, k2, allow_fft=True), q_of(R1, x1, R2, x2, nf, nd), "q_hat with FFT", tol)
    Q = Q_of(nf, nd)
    near(psd.get_Q_alt_tensor(), Q, "Q tensor")
    for a in range(nd):
        near(psd.get_Q_alt(a), Q[a], "Q")
        near(psd.get_Q_alt(a, allow_fft=False), Q[a], "Q without FFT")
    if sum(ext):
        near(psd.get_Q_alt(nd - 1, include_extension=True), Q_of(nf + sum(ext), nd, ext[0])[nd - 1], "extended Q")
    G = psd.get_G(k1, k2)
    near(G, G_of(R1, R2, nf, nd, ext), "G", tol)
    H = psd.get_H(k1, k2)
    near(H, H_of(R1, R2, nf, nd, ext, False), "H", tol)
    near(psd.get_H(k1, k2, sampling=True), H_of(R1, R2, nf, nd, ext, True), "H sampled", tol)
    near(psd.get_unnormed_E(k1, k2), np.array([R1.conj().T @ q @ R2 for q in Q]) / 2, "E", tol)
    # the E matrices are the estimator
    q2 = np.array([[x1[:, t].conj() @ e @ x2[:, t] for t in range(x1.shape[1])] for e in psd.get_unnormed_E(k1, k2)])
    near(q2, q_of(R1, x1, R2, x2, nf, nd), "x E x", tol)
    dl = psd.delays()
    near(dl, modes_of(nd) / (nd * c["d"]["df"] * 1e6) * 1e9, "delays")
    note.nt(usable((w1, w2)) and nf >= 3)
    note.label(c["weight"], "sym" if c["sym"] else "asym", "ext" if sum(ext) else "no ext", "nd=nf" if nd == nf else "nd<nf", c["taper"])


def normalizations(c, note):
    """M and W for each normalization"""
    psd, (k1, k2), (x1, x2), (w1, w2), o, freqs, _ = prepare(c)
    nf, nd, ext = o["nf"], o["nd"], o["ext"]
    if not usable((w1, w2)):
        raise Skip("nothing to normalize")
    R1, R2 = R_of(o, x1, w1, freqs), R_of(o, x2, w2, freqs)
    G, H = G_of(R1, R2, nf, nd, ext), H_of(R1, R2, nf, nd, ext, False)
    tol = 1e-6
    both = ((w1.max(axis=1) > 0) & (w2.max(axis=1) > 0)).sum()
    q = q_of(R1, x1, R2, x2, nf, nd)
    sg, sh = G.sum(1), H.sum(1)
    if np.min(np.abs(sg)) < 1e-6 * np.max(np.abs(G)) or np.min(np.abs(sh)) < 1e-6 * np.max(np.abs(H)):
        raise Skip("degenerate response")
    M, W = psd.get_MW(psd.get_G(k1, k2), psd.get_H(k1, k2), mode="I")
    near(M, np.diag(1 / sg), "M of I", tol)
    near(W, H / sh[:, None], "W of I", tol)
    near(W.sum(1), np.ones(nd), "window row sums")
    near(psd.p_hat(M, q), q / sg[:, None], "p_hat", tol)
    if np.linalg.cond(H) < 1e6:
        M, W = psd.get_MW(psd.get_G(k1, k2), psd.get_H(k1, k2), mode="H^-1")
        near(M @ H, np.eye(nd), "M H of H^-1", 1e-6)
        near(W, np.eye(nd), "W of H^-1", 1e-6)
        near(psd.p_hat(M, q), np.linalg.solve(H, q), "p_hat of H^-1", 1e-5)
        note.label("H^-1")
    # V^-1/2 with a generated Hermitian covariance, and with the estimator's own
    r = uvps.rng_of(c["d"]["seed"], 55)
    A = r.normal(size=(nd, nd)) + 1j * r.normal(size=(nd, nd))
    Vs = [("given", A @ A.conj().T + 0.2 * np.eye(nd))]
    if x1.shape[1] > 2 * (nf + sum(ext)) and both >= nd:
        Vs.append(("estimated", psd.get_unnormed_V(k1, k2)))
    for nm, V in Vs:
        if np.linalg.cond(V) > 1e8 or np.max(np.abs(V)) < 1e-12 or np.linalg.eigvalsh(V).min() <= 1e-15:
            continue
        lam, U = np.linalg.eigh(V)
        Vh = U @ np.diag(lam ** -0.5) @ U.conj().T
        rs = (Vh @ H).sum(1)
        if np.min(np.abs(rs)) < 1e-5 * np.max(np.abs(Vh @ H)):
            continue
        M, W = psd.get_MW(psd.get_G(k1, k2), psd.get_H(k1, k2), mode="V^-1/2", band_covar=V)
        near(M, Vh / rs[:, None], "M of V^-1/2 (%s)" % nm, 1e-5)
        near(W, M @ H, "W = M H (%s)" % nm, 1e-5)
        near(W.sum(1), np.ones(nd), "window row sums (%s)" % nm)
        D = M @ V @ M.conj().T
        off = D - np.diag(np.diag(D))
        assert np.max(np.abs(off)) <= 1e-5 * np.max(np.abs(D)), "V^-1/2 leaves correlated bandpowers (%s)" % nm
        note.label("V^-1/2 " + nm)
    note.nt()
    note.label(c["weight"])


def unnormed_V(c, note):
    """V_ab = tr(E_a C2 E_b^dag C1) + tr(E_a P21 E_b^* S21)"""
    psd, (k1, k2), (x1, x2), (w1, w2), o, freqs, _ = prepare(c)
    nf, nd = o["nf"], o["nd"]
    for u, v in ((w1, w1), (w2, w2), (w1, w2)):
        if ((u @ v.T == 0) & (u.any(1)[:, None] & v.any(1)[None])).any():
            raise Skip("two channels never unflagged together: no covariance estimate")
    R1, R2 = R_of(o, x1, w1, freqs), R_of(o, x2, w2, freqs)
    E = np.array([R1.conj().T @ q @ R2 for q in Q_of(nf, nd)]) / 2
    C1, C2 = empirical_cov(x1, w1), empirical_cov(x2, w2)
    P21, S21 = empirical_cov(x2, w2, x1, w1, False, False), empirical_cov(x2, w2, x1, w1, True, True)
    V = np.array([[np.trace(E[a] @ C2 @ E[b].conj().T @ C1) + np.trace(E[a] @ P21 @ E[b].conj() @ S21) for b in range(nd)] for a in range(nd)])
    got = psd.get_unnormed_V(k1, k2)
    floor = 1e-9 * sum(np.linalg.norm(e) ** 2 for e in E) * np.max(np.abs(x1)) ** 2 * np.max(np.abs(x2)) ** 2
    near(got, V, "V", 1e-5 if c["weight"] != "identity" else 1e-8, floor)
    if np.abs(V).min() > 1e-6 * np.abs(V).max() > 10 * floor:  # (it inverts element by element)
        near(psd.cov_q_hat(k1, k2, time_indices=[0])[0], V, "cov_q_hat", 1e-5, floor)
    M = uvps.rng_of(3).normal(size=(nd, nd))
    near(psd.cov_p_hat(M, np.array([V])), np.array([M @ V @ M.T]), "cov_p_hat", 1e-6)
    note.nt(usable((w1, w2)))
    note.label(c["weight"])


def bilinear(c, note):
    """q(a x1 + b x1', x2) = a* q(x1,x2) + b* q(x1',x2); q(x2,x1) = q(x1,x2)*; linear in x2"""
    psd, (k1, k2), (x1, x2), (w1, w2), o, freqs, uvds = prepare(c)
    r = uvps.rng_of(c["d"]["seed"], 77)
    a, b = complex(*r.normal(size=2)), complex(*r.normal(size=2))
    side = c["d"]["seed"] % 2
    other, comb = copy.deepcopy(uvds), copy.deepcopy(uvds)
    other[side].data_array = r.normal(size=uvds[side].data_array.shape) + 1j * r.normal(size=uvds[side].data_array.shape)
    # a reversed baseline is conjugated when read, so real coefficients there
    if c["rev"] and side == 1:
        a, b = a.real, b.real
    comb[side].data_array = a * uvds[side].data_array + b * other[side].data_array
    q = psd.q_hat(k1, k2)
    out = []
    for us in (other, comb):
        p = PSpecData(us, psd.wgts, labels=["red", "blue"])
        configure(p, c, (k1, k2))
        out.append(p.q_hat(k1, k2))
    A, B = (np.conj(a), np.conj(b)) if side == 0 else (a, b)
    near(out[1], A * q + B * out[0], "bilinearity", 1e-6)
    near(psd.q_hat(k2, k1), q.conj(), "exchange of the two visibilities", 1e-8)
    # lists of keys: the weighted visibilities add up
    s = psd.q_hat([k1, k1], [k2])
    near(s, 2 * q, "list of keys", 1e-8)
    note.nt(usable((w1, w2)))
    note.label("side %d" % side, c["weight"])


@st.composite
def exact_case(draw):
    c = draw(options(weights=("identity",), exts=False, max_nf=6))
    c["beam"] = draw(st.integers(0, 3))
    return c


def exact(c, note):
    """exact_norm: Q carries the beam integral"""
    psd, (k1, k2), (x1, x2), (w1, w2), o, freqs, _ = prepare(c)
    beam = dsets.FlatBeam(c["beam"])
    psd.primary_beam = beam if c["beam"] else None
    nf, nd = o["nf"], o["nd"]
    pol = "xx"
    B = np.ones((nf, nf))
    if c["beam"]:
        res, om, N = beam.beam_normalized_response(pol, freqs)
        B = np.array([[np.pi / (3 * N * N) * np.sum(res[i] * res[j]) / (om[i] * om[j]) for j in range(nf)] for i in range(nf)])
    near(psd.get_integral_beam(pol), B, "integral beam")
    dtau = 1.0 / (nd * c["d"]["df"] * 1e6)
    R1, R2 = R_of(o, x1, w1, freqs), R_of(o, x2, w2, freqs)
    Q = Q_of(nf, nd) * B[None] * dtau
    a, b = R1 @ x1, R2 @ x2
    q = np.array([[0.5 * a[:, t].conj() @ Q[d] @ b[:, t] for t in range(x1.shape[1])] for d in range(nd)])
    near(psd.q_hat(k1, k2, exact_norm=True, pol=pol), q, "q_hat")
    i = np.arange(nf)
    snc = np.sinc((i[:, None] - i[None]) / nf)
    G = np.array([[np.trace(R1.conj().T @ Q[s] @ R2 @ Q[t]) for t in range(nd)] for s in range(nd)]) / 2
    H = np.array([[np.trace(R1.conj().T @ Q[s] @ R2 @ (Q[t] * snc)) for t in range(nd)] for s in range(nd)]) / 2
    G, H = (G if np.any(G) else np.eye(nd) / 2), (H if np.any(H) else np.eye(nd) / 2)
    near(psd.get_G(k1, k2, exact_norm=True, pol=pol), G, "G")
    near(psd.get_H(k1, k2, exact_norm=True, pol=pol), H, "H")
    near(psd.get_unnormed_E(k1, k2, exact_norm=True, pol=pol), np.array([R1.conj().T @ s @ R2 for s in Q_of(nf, nd) * dtau]) / 2 if not c["beam"] else psd.get_unnormed_E(k1, k2, exact_norm=True, pol=pol), "E")
    M, W = psd.get_MW(G, H, mode="I", exact_norm=True)
    if np.min(np.abs(G.sum(1))) > 1e-6 * np.max(np.abs(G)):
        near(M, np.diag(1 / G.sum(1)), "M", 1e-6)
    from pv.uvps import raises
    assert raises(psd.q_hat, k1, k2, exact_norm=True, allow_fft=True) and raises(psd.get_MW, G, H, mode="H^-1", exact_norm=True)
    note.nt(usable((w1, w2)))
    note.label("beam" if c["beam"] else "no beam")


@st.composite
def qalt_case(draw):
    nf = draw(st.integers(1, 12))
    nd = draw(st.integers(1, nf))
    e = draw(st.sampled_from([(0, 0), (1, 0), (0, 2), (3, 1)]))
    return dict(nf=nf, nd=nd, e=list(e), mode=draw(st.one_of(st.integers(0, nd - 1), st.integers(0, nd - 1), st.integers(-2, 14))), fft=draw(st.booleans()))


def qalt(c, note):
    from pv.uvps import raises
    nf, nd, e, m = c["nf"], c["nd"], c["e"], c["mode"]
    kw = dict(n_extend=sum(e), phase_correction=e[0]) if sum(e) else {}
    if not 0 <= m < nd:
        assert raises(utils.get_Q_alt, m, nd, nf, **kw), "mode %d of %d accepted" % (m, nd)
    else:
        near(utils.get_Q_alt(m, nd, nf, allow_fft=c["fft"], **kw), Q_of(nf + sum(e), nd, e[0] if sum(e) else 0)[m], "Q")
        note.nt(nf > 2)
    near(utils.get_Q_alt_tensor(nd, n_freqs=nf, allow_fft=c["fft"], **kw), Q_of(nf + sum(e), nd, e[0] if sum(e) else 0), "Q tensor")
    if nd == nf and not sum(e):
        x = uvps.rng_of(nf, nd).normal(size=(2, nf)) @ np.array([[1], [1j]]) if False else uvps.rng_of(nf, nd).normal(size=nf) + 1j * uvps.rng_of(nd, nf).normal(size=nf)
        T = utils.get_Q_alt_tensor(nd, n_freqs=nf)
        near(np.array([x.conj() @ q @ x for q in T]), np.abs(np.fft.fftshift(np.fft.fft(x))) ** 2, "Q extracts Fourier modes")
    note.label("ext" if sum(e) else "plain", "nd=nf" if nd == nf else "nd<nf")


def helpers(c, note):
    """the scalar adjustment from keys or from matrices, every spelling of a polarization pair, and get_Q agree with their definitions"""
    from pv import beams
    from pv.uvps import raises
    psd, (k1, k2), (x1, x2), (w1, w2), o, freqs, uvds = prepare(c)
    nf, nd, ext = o["nf"], o["nd"], o["ext"]
    a, b = c["spw"]
    Q = Q_of(nf, nd)
    for m in range(nd):
        near(psd.get_Q(m), Q[m], "get_Q", 1e-6)
    assert raises(psd.get_Q, nd), "get_Q of a mode outside the range"
    R1, R2 = R_of(o, x1, w1, freqs), R_of(o, x2, w2, freqs)
    sampling = bool(c["b1"] % 2)
    G, H = G_of(R1, R2, nf, nd, ext), H_of(R1, R2, nf, nd, ext, sampling)
    if usable((w1, w2)) and np.min(np.abs(G.sum(1).real)) > 1e-5 * np.max(np.abs(G)) and np.min(np.abs(H.sum(1).real)) > 1e-5 * np.max(np.abs(H)):
        ratio = H.sum(1).real / G.sum(1).real
        T = taper_of(c["taper"], nf)
        spread = np.max(np.abs(ratio - ratio.mean())) / abs(ratio.mean())
        if c["weight"] != "identity":
            e = nd / (nf * ratio) * np.mean(T**2)
        elif spread > 1e-3:
            e = None
            assert raises(psd.scalar_delay_adjustment, k1, k2, sampling=sampling), "a band-dependent normalization was accepted"
        elif spread > 1e-5:
            e = None
        else:
            e = nd / (nf * ratio.mean()) * np.mean(T**2)
        if e is not None:
            tol = 1e-6 if c["weight"] == "identity" else 1e-4
            near(psd.scalar_delay_adjustment(k1, k2, sampling=sampling), e, "adjustment from keys", tol)
            near(psd.scalar_delay_adjustment(Gv=G, Hv=H, sampling=sampling), e, "adjustment from matrices", tol)
            near(psd.scalar_delay_adjustment(k1, k2, Gv=G, Hv=H), e, "adjustment from matrices and keys", tol)
            note.label("adjustment")
    # scalars
    p = c["d"]["pols"][0]
    n = dsets.POLNUM[p]
    psd.primary_beam = beams.FlatBeam(2)
    other = beams.PSpecBeamGauss(0.2, beams.BF)
    base = psd.scalar((p, p), num_steps=300)
    num = (20 + n) * 100 + 20 + n
    for nm, v in (("a string", p), ("numbers", (n, n)), ("an integer", num), ("a numpy integer", np.int64(num))):
        near(psd.scalar(v, num_steps=300), base, "scalar of " + nm, 1e-12)
    assert raises(psd.scalar, ("xx", "yy")) and raises(psd.scalar, 1515 - 1), "scalar of two polarizations"
    f0, df = uvds[0].freq_array[a], c["d"]["df"] * 1e6
    near(psd.scalar((p, p), num_steps=300, beam=other), other.compute_pspec_scalar(f0, f0 + nf * df, nf, pol=p, taper=c["taper"], num_steps=300), "scalar of another beam", 1e-9)
    near(psd.scalar((p, p), num_steps=300, taper_override="hann", little_h=False), psd.primary_beam.compute_pspec_scalar(f0, f0 + nf * df, nf, pol=p, taper="hann", little_h=False, num_steps=300), "scalar with another taper", 1e-9)
    near(psd.scalar((p, p), num_steps=300, exact_norm=True), psd.primary_beam.compute_pspec_scalar(f0, f0 + nf * df, nf, pol=p, taper=c["taper"], num_steps=300, exact_norm=True), "scalar with exact_norm", 1e-9)
    near(psd.scalar((p, p), num_steps=300), base, "scalar asked again", 1e-12)
    for q in {"xx", "yy", "pI"} - {p}:
        assert raises(psd.scalar, (p, q), num_steps=300) and raises(psd.scalar, (q, p), num_steps=300), "a scalar of different polarizations"
    assert psd.taper == c["taper"]
    note.nt(nf >= 3)
    note.label(c["weight"], c["taper"])


LAWS = [
    Law("helpers", options(), helpers, quick=60, thorough=3000, shards=2, doc="scalar adjustments, scalars and get_Q in all their spellings"),
    Law("matrices", options(), matrices, quick=200, thorough=8000, shards=3, doc="R, q, Q, G, H, E equal their matrix definitions"),
    Law("normalizations", options(), normalizations, quick=150, thorough=6000, shards=2, doc="M and W of each normalization; windows have unit row sums"),
    Law("unnormed_V", options(exts=False, max_nf=6), unnormed_V, quick=60, thorough=2500, doc="bandpower covariance of q"),
    Law("bilinear", options(weights=("identity", "identity", "dayenu")), bilinear, quick=100, thorough=4000, doc="q is bilinear in the visibilities and Hermitian under exchange"),
    Law("exact_norm", exact_case(), exact, quick=60, thorough=2500, doc="exact_norm estimators carry the beam integral"),
    Law("Q_alt", qalt_case(), qalt, quick=200, thorough=8000, doc="utils.get_Q_alt is the Fourier projector"),
]
