BASE = """sp = dict(seed=5, spws=[dict(f0=3, nf=5, nd=5), dict(f0=20, nf=4, nd=4)], blps=[[[0, 1], [0, 1]], [[0, 2], [0, 3]], [[4, 5], [0, 1]]], nt=3, pps=[[-5, -5], [-6, -5]],
    order="bl", dt=10.7, t0=2458042.1, lst0=0.3, off=0, folded=False, cov=True, stats=["P_N"], wf="none", flags=0, drop=0, beam=False, cosmo=0, labels=2, rp=False)
"""
DBASE = """import dlib
ds = dict(seed=5, nd=2, nf=8, nt=3, bls=[[0, 1], [1, 2]], pols=["xx"], autos=True, f0=120.0, df=0.2, t0=2458116.3, dt=10.737, dtd=0.0, fl="none", layout="grid", units="Jy",
    blorder="bl", ns="one", itime="const", std=False, wg=False)
"""
BUGS = [
dict(id="C18-zero-second", property="C18", needs="unflagged samples whose nsamples are zero in the second visibility only",
     breaks="samples with no data in the second polarization are not flagged in the pseudo-Stokes visibility",
     edits=[("pstokes.py", '''        valid_nsamples = (nsamples_list[0] > 0) & (nsamples_list[1] > 0)''', '''        valid_nsamples = nsamples_list[0] > 0''')],
     demo="""import dlib
from hera_pspec import pstokes
ds = dict(seed=5, nd=1, nf=4, nt=3, bls=[[0, 1]], pols=["xx", "yy"], autos=False, f0=120.0, df=0.2, t0=2458116.3, dt=10.737, dtd=0.0, fl="none", layout="grid", units="Jy",
    blorder="bl", ns="one", itime="const", std=False, wg=False)
u, = dlib.build(ds)
u.nsample_array[1, :, 1] = 0
v = pstokes.construct_pstokes(u, u, pstokes="pI")
assert v.flag_array[1].all() and not v.flag_array[[0, 2]].any(), v.flag_array
assert (v.nsample_array[1] == 0).all()
"""),
dict(id="C17-multi-draw", property="C17", needs="two or more UVPSpecs that hold the same baseline-pairs of a group",
     breaks="draws only cover the first len(group) of the members, so the later objects' spectra are never drawn",
     edits=[("grouping.py", '''        draw = np.random.randint(low=0, high=num_avail, size=num_avail)''', '''        draw = np.random.randint(low=0, high=len(grp), size=num_avail)''')],
     demo=BASE + """from hera_pspec import grouping
u = lib.build(sp)
v = copy.deepcopy(u)
tot = 0
for s in range(30):
    _, w = grouping.bootstrap_average_blpairs([u, v], [[int(x) for x in np.unique(u.blpair_array)]], time_avg=True, seed=s)
    tot += np.sum(w[1])
assert tot > 0, "second object never drawn"
"""),
dict(id="C07-kperp-row", property="C07", needs="several baseline-pairs of different lengths with more than one time",
     breaks="k_perp is read from the b-th row instead of a row of the b-th baseline-pair",
     edits=[("grouping.py", '''            kmags = np.sqrt(kperps[blpt_inds][0] ** 2 + kparas**2)''', '''            kmags = np.sqrt(kperps[b] ** 2 + kparas**2)''')],
     demo="""from hera_pspec import grouping
sp = dict(seed=5, spws=[dict(f0=3, nf=6, nd=6)], blps=[[[0, 1], [0, 1]], [[0, 2], [0, 2]], [[0, 12], [0, 12]]], nt=3, pps=[[-5, -5]],
    order="bl", dt=10.7, t0=2458042.1, lst0=0.3, off=0, folded=False, cov=False, stats=[], wf="none", flags=0, drop=0, beam=True, cosmo=0, labels=2, rp=False)
u = lib.build(sp)
kmax = np.sqrt(u.get_kperps(0).max() ** 2 + np.abs(u.get_kparas(0)).max() ** 2)
bins = np.linspace(0, kmax * 1.01, 200)
b, w = bins[1:] - bins[1] / 2, bins[1]
A = {}
grouping.spherical_average(u, b, w, time_avg=False, A=A)
for i, blp in enumerate(u.get_blpairs()):
    k = np.sqrt(u.get_kperps(0)[u.blpair_to_indices(blp)][0] ** 2 + u.get_kparas(0) ** 2)
    nd = len(k)
    got = [np.where(A[0][0, i * nd + j, :, 0])[0] for j in range(nd)]
    for j in range(nd):
        assert len(got[j]) == 1 and abs(b[got[j][0]] - k[j]) <= w / 2 * 1.0001, (blp, k[j], b[got[j]])
"""),
dict(id="C04-scalar-order", property="C04", needs="objects with different baseline-pairs whose polarization pairs are stored in a different order, combined along baseline-pair-times",
     breaks="the combined object's scalars are taken in the first object's order and belong to another polarization pair",
     edits=[("uvpspec.py", '''                    if j == 0:
                        u.scalar_array[i, k] = uvps[l].scalar_array[m, q]''', '''                    if j == 0:
                        u.scalar_array[i, k] = uvps[l].scalar_array[m, k]''')],
     demo=BASE + """from hera_pspec import uvpspec
u = lib.build(sp)
print(u.polpair_array, u.scalar_array)
a = u.select(bls=[(0, 1)], inplace=False)
b = u.select(blpairs=[((0, 2), (0, 3))], inplace=False)
a = u.select(blpairs=[((0, 1), (0, 1))], inplace=False)
c = uvpspec.combine_uvpspec([a, b])
assert set(c.polpair_array) == set(u.polpair_array)
for p in u.polpair_array:
    i, j = list(u.polpair_array).index(p), list(c.polpair_array).index(p)
    assert np.allclose(c.scalar_array[:, j], u.scalar_array[:, i])
"""),
dict(id="C14-weights-sum", property="C14", needs="identity weighting and two baseline-pairs in one call whose flags have the same sum but are spread differently over the two visibilities",
     breaks="the cached normalization is looked up by the sum of the two visibilities' weights instead of by both",
     edits=[("pspecdata.py", '''                        Y = np.vstack(
                            [self.Y(key1).diagonal(), self.Y(key2).diagonal()]
                        )''', '''                        Y = self.Y(key1).diagonal() + self.Y(key2).diagonal()''')],
     demo=DBASE + """from hera_pspec import PSpecData
d = dlib.build(ds)
def flag(i, bl, ch):
    d[i].flag_array[dlib.rows_of(d[i], bl)[0][:, None], ch] = True
flag(0, (0, 1), [2, 5])
flag(0, (1, 2), [2]); flag(1, (1, 2), [5])
ps = lambda: PSpecData(dsets=copy.deepcopy(d), wgts=[None, None])
kw = dict(dsets=(0, 1), pols=[("xx", "xx")], spw_ranges=[(0, 8)], input_data_weight="identity", norm="H^-1", taper="none", verbose=False)
both = ps().pspec([(0, 1), (1, 2)], [(0, 1), (1, 2)], **kw)
one = ps().pspec([(1, 2)], [(1, 2)], **kw)
k = (0, ((1, 2), (1, 2)), ("xx", "xx"))
assert np.allclose(both.get_data(k), one.get_data(k), rtol=1e-8, atol=0), np.abs(both.get_data(k) / one.get_data(k))
"""),
dict(id="C19-reversed-second", property="C19", needs="a second dataset that lacks a baseline which the first one holds in the reversed antenna order",
     breaks="baseline-pairs are listed whose second baseline is not in the second dataset",
     edits=[("utils.py", '''                    (bl2 in uvd2_bls) or (bl2[::-1] in uvd2_bls)''', '''                    (bl2 in uvd2_bls) or (bl2[::-1] in uvd1_bls)''')],
     demo=DBASE + """from hera_pspec import utils
ds["bls"] = [[0, 1], [1, 2], [3, 4], [0, 3], [0, 4]]
ds["autos"] = False
d = dlib.build(ds)
a = copy.deepcopy(d[0])
a.conjugate_bls("ant2<ant1")
b = d[1].select(bls=[(0, 1), (1, 2), (0, 3), (0, 4)], inplace=False)
for x, y in ((a, b), (d[0], b)):
    out = utils.calc_blpair_reds(x, y, exclude_auto_bls=False, exclude_permutations=False)
    have = set(y.get_antpairs()) | {p[::-1] for p in y.get_antpairs()}
    assert len(out[2]) and all(q in have for p, q in out[2]), out[2]
"""),
dict(id="C24-fg-weights", property="C24", needs="the foreground-dependent covariance of visibilities with different flags",
     breaks="the second visibility is weighted with the first one's flags in the signal-noise terms",
     edits=[("pspecdata.py", '''                x2 = self.w(key2)[:, time_index] * self.x(key2)[:, time_index]
                E12_x1''', '''                x2 = self.w(key1)[:, time_index] * self.x(key2)[:, time_index]
                E12_x1''')],
     demo=DBASE + """from hera_pspec import PSpecData
d = dlib.build(ds)
r = dlib.rows_of(d[1], (1, 2))[0]
d[1].flag_array[r[:, None], [2, 5]] = True
def cov(big):
    e = copy.deepcopy(d)
    if big:
        e[1].data_array[r[:, None], [2, 5]] = 300.0
    ps = PSpecData(dsets=e, wgts=[None, None])
    u = ps.pspec([(0, 1)], [(1, 2)], dsets=(0, 1), pols=[("xx", "xx")], spw_ranges=[(0, 8)], input_data_weight="identity", norm="I", taper="none", verbose=False,
                 store_cov=True, cov_model="foreground_dependent")
    return u.get_cov((0, ((0, 1), (1, 2)), ("xx", "xx")))
assert np.allclose(cov(False), cov(True), rtol=1e-6, atol=0), "data of flagged channels enter the covariance"
"""),
dict(id="C12-complex-R", property="C12", needs="a complex weighting matrix, e.g. a dayenu filter that is not centred on zero delay",
     breaks="the bandpower response uses the transpose of R1 where its conjugate transpose is defined",
     edits=[("pspecdata.py", '''            iR1Q1[ch] = np.dot(np.conj(R1).T, Q1)  # R_1 Q_alt''', '''            iR1Q1[ch] = np.dot(R1.T, Q1)  # R_1 Q_alt''')],
     demo=DBASE + """from hera_pspec import PSpecData
ps = PSpecData(dsets=dlib.build(ds), wgts=[None, None])
ps.set_spw((0, 8)); ps.set_Ndlys()
k1, k2 = (0, 0, 1, "xx"), (1, 0, 1, "xx")
rp = dict(filter_centers=[1e-6], filter_half_widths=[3e-7], filter_factors=[1e-3])
ps.set_weighting("dayenu")
ps.set_r_param(k1, rp); ps.set_r_param(k2, rp)
H = ps.get_H(k1, k2, sampling=True)
R1, R2 = ps.R(k1), ps.R(k2)
e = np.array([[0.5 * np.trace(R1.conj().T @ ps.get_Q_alt(i) @ R2 @ ps.get_Q_alt(j)) for j in range(8)] for i in range(8)])
assert np.allclose(H, e), np.abs(H - e).max()
"""),
dict(id="C08-corr-denominator", property="C08", needs="a covariance whose variances differ between delays and a statistic that is averaged with it",
     breaks="the correlation matrix used for covariance-weighted statistics is divided by one delay's variance instead of both standard deviations",
     edits=[("grouping.py", '''            denom = diag[:, :, None] * diag[:, None]''', '''            denom = diag[:, :, None] ** 2''')],
     demo="""from hera_pspec import grouping
sp = dict(seed=5, spws=[dict(f0=3, nf=12, nd=12)], blps=[[[0, 1], [0, 1]]], nt=2, pps=[[-5, -5]],
    order="bl", dt=10.7, t0=2458042.1, lst0=0.3, off=0, folded=False, cov=True, stats=["P_N"], wf="none", flags=0, drop=0, beam=False, cosmo=0, labels=2, rp=False)
u = lib.build(sp)
c = u.cov_array_real[0]
s = np.sqrt(np.einsum("tiip->tip", c))
u.stats_array = {"P_N": {0: s.astype(complex)}}
o = grouping.average_in_delay_bins(u, kernel=np.ones(3), cov_weighted_stats=("P_N",))
# the statistic is the square root of the diagonal of the covariance, so it must stay so
assert np.allclose(o.stats_array["P_N"][0].real ** 2, np.einsum("tiip->tip", o.cov_array_real[0])), "not the binned covariance"
"""),
dict(id="C26-imag-errors", property="C26", needs="plotting the imaginary component with error bars",
     breaks="the error bars of the imaginary part are the real part's errors",
     edits=[("plot.py", '''                    "errs": cast(errs[i]) if errs is not None else None,''', '''                    "errs": np.real(errs[i]) if errs is not None else None,''')],
     demo=BASE + """from hera_pspec import plot
import matplotlib.pyplot as plt
u = lib.build(sp)
u.stats_array["P_N"][0] = np.abs(u.stats_array["P_N"][0].real) + 3j
k = (0, ((0, 1), (0, 1)), ("xx", "xx"))
f = plot.delay_spectrum(u, [k[1]], 0, k[2], component="imag", error="P_N", logscale=False, lines=True, times=[np.unique(u.time_avg_array)[0]])
seg = f.axes[0].collections[0].get_segments()
assert np.allclose([s[1][1] - s[0][1] for s in seg], 6.0), seg
"""),
dict(id="C20-cross-pol", property="C20", needs="a polarization pair with two different beams",
     breaks="the window function of a mixed polarization pair uses the first beam twice",
     edits=[("uvwindow.py", '''                        np.conj(fnu[1][mask, i]) * fnu[0][mask, i]''', '''                        np.conj(fnu[0][mask, i]) * fnu[0][mask, i]''')],
     demo="""from hera_pspec.uvwindow import FTBeam, UVWindow
from hera_pspec.conversions import Cosmo_Conversions
from astropy import units
n, ms, f = 101, 1.0, 120e6 + 2.5e5 * np.arange(6)
q = np.arange(-(n // 2), n // 2 + 1) / (2 * ms)
X, Y = np.meshgrid(q, q, indexing="ij")
def ft(e):
    return np.array([np.exp(-(np.pi * 0.12) ** 2 * (X**2 * e + Y**2 / e)) for _ in f])
a, b = FTBeam(ft(1.0), "xx", f, ms), FTBeam(ft(4.0), "yy", f, ms)
def wf(x, y):
    w = UVWindow([x, y], taper=None, little_h=True, cosmo=Cosmo_Conversions())
    return w.get_cylindrical_wf(29.2)
ab, ba, aa = wf(a, b), wf(b, a), wf(a, a)
assert np.allclose(ab, ba, rtol=1e-6, atol=1e-9), "window depends on the order of the polarizations"
assert not np.allclose(ab, aa, rtol=1e-3, atol=1e-9), "second beam ignored"
"""),
dict(id="C16-second-flags", property="C16", needs="flags on an antenna autocorrelation that differ between the antennas of the second baseline",
     breaks="the flags of the second baseline's second antenna are ignored",
     edits=[("utils.py", '''                        auto_Tsys.get_flags(blp[1][0], blp[1][0], pol)[
                            tinds2, spw_start:spw_stop
                        ]
                        | auto_Tsys.get_flags(blp[1][1], blp[1][1], pol)[''', '''                        auto_Tsys.get_flags(blp[1][0], blp[1][0], pol)[
                            tinds2, spw_start:spw_stop
                        ]
                        | auto_Tsys.get_flags(blp[1][0], blp[1][0], pol)[''')],
     demo=DBASE + """from hera_pspec import PSpecData, utils
from hera_pspec.conversions import Cosmo_Conversions
d = dlib.build(ds)
ps = PSpecData(d, [None, None])
u = ps.pspec([(0, 1)], [(1, 2)], (0, 1), [("xx", "xx")], input_data_weight="identity", norm="I", taper="none", spw_ranges=[(0, 8)], verbose=False)
u.cosmo = Cosmo_Conversions()
u.beam_freqs = np.linspace(95e6, 195e6, 9)
u.OmegaP = 0.05 * np.ones((9, 1)); u.OmegaPP = 0.5 * u.OmegaP
T = d[0].select(bls=[(0, 0), (1, 1), (2, 2)], inplace=False)
T.data_array[:] = 100.0
r = dlib.rows_of(T, (2, 2))[0]
T.flag_array[r[:, None], [1, 4]] = True
T.data_array[r[:, None], [1, 4]] = 1e5
utils.uvp_noise_error(u, T, err_type="P_N", num_steps_scalar=300)
e = u.generate_noise_spectra(0, ("xx", "xx"), 100.0, num_steps=300)
e = list(e.values())[0]
got = u.stats_array["P_N"][0][:, :, 0].real
assert np.allclose(got, np.real(e), rtol=1e-3), (got[:, 0], e[:, 0])
"""),
]
