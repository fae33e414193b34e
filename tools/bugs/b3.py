BASE = """sp = dict(seed=5, spws=[dict(f0=3, nf=5, nd=5), dict(f0=20, nf=5, nd=5)], blps=[[[0, 1], [0, 1]], [[0, 2], [0, 3]], [[4, 5], [0, 1]]], nt=3, pps=[[-5, -5], [-6, -5]],
    order="bl", dt=10.7, t0=2458042.1, lst0=0.3, off=0, folded=False, cov=True, stats=["P_N"], wf="none", flags=0, drop=0, beam=False, cosmo=0, labels=2, rp=False)
"""
DBASE = """import dlib
ds = dict(seed=5, nd=2, nf=8, nt=3, bls=[[0, 1], [1, 2]], pols=["xx"], autos=True, f0=120.0, df=0.2, t0=2458116.3, dt=10.737, dtd=0.0, fl="none", layout="grid", units="Jy",
    blorder="bl", ns="one", itime="const", std=False, wg=False)
"""
BUGS = [
dict(id="C13-adjust-once", property="C13", needs="baselines whose flags differ, with a taper or fewer delays than channels, computed in one call",
     breaks="the wide-bin adjustment of the first baseline-pair is used for all of them, so a spectrum depends on what else was asked for",
     edits=[("pspecdata.py", '''                        sa = self.scalar_delay_adjustment(Gv=Gv, Hv=Hv)
                        if isinstance(sa, float):
                            pv *= sa''', '''                        if k == 0:
                            sa = self.scalar_delay_adjustment(Gv=Gv, Hv=Hv)
                        if isinstance(sa, float):
                            pv *= sa''')],
     demo=DBASE + """from hera_pspec import pspecdata
us = dlib.build(ds)
for u in us:
    for k, bl in enumerate([(0, 1), (1, 2)]):
        u.flag_array[u.antpair2ind(*bl, ordered=False), 2 + k] = True
        u.flag_array[u.antpair2ind(*bl, ordered=False), 5:5 + k] = True
def run(bls):
    p = pspecdata.PSpecData(dsets=copy.deepcopy(us), wgts=[None, None])
    return p.pspec(bls, bls, (0, 1), [("xx", "xx")], taper="hann", n_dlys=4, verbose=False)
ap = sorted(set(us[0].get_antpairs()))
ap = [b for b in ap if b[0] != b[1]]
both = run(ap)
for b in ap:
    one = run([b])
    key = (0, (b, b), "xx")
    assert np.allclose(both.get_data(key), one.get_data(key), rtol=1e-8), b
"""),
dict(id="C25-second-bls", property="C25", needs="requested baseline-pairs whose second baseline is missing from the second dataset, or missing from the first only",
     breaks="whether a requested pair exists is looked up in the first dataset for both baselines",
     edits=[("pspecdata.py", '''                    _bl2 in dset2_bls or _bl2[::-1] in dset2_bls''', '''                    _bl2 in dset1_bls or _bl2[::-1] in dset1_bls''')],
     demo=DBASE + """from hera_pspec import pspecdata, container
a, b = dlib.build(ds)
ap = [x for x in sorted(set(a.get_antpairs())) if x[0] != x[1]]
a.select(bls=[ap[0]])
b.select(bls=ap)
b2 = copy.deepcopy(b)
d = tempfile.mkdtemp()
try:
    f = os.path.join(d, "o.h5")
    # a pair of two different baselines is redundant only by tolerance
    pspecdata.pspec_run([a, b], f, dset_pairs=[(0, 1)], blpairs=[(ap[0], ap[0]), (ap[0], ap[1])], pol_pairs=[("xx", "xx")], verbose=False, overwrite=True, dset_labels=["a", "b"])
    u = container.PSpecContainer(f, mode="r", keep_open=False).get_pspec("a_b", "a_x_b")
    assert len(u.get_blpairs()) == 2, u.get_blpairs()
finally:
    import shutil
    shutil.rmtree(d)
"""),
dict(id="C27-sky-autos", property="C27", needs="antennas with different autocorrelations",
     breaks="noise of a baseline follows the first antenna's autocorrelation instead of the geometric mean of both",
     edits=[("testing.py", '''        Tsys_jy = np.sqrt(autos[(bl[0], bl[0], bl[2])] * autos[(bl[1], bl[1], bl[2])])''',
                           '''        Tsys_jy = np.sqrt(autos[(bl[0], bl[0], bl[2])] * autos[(bl[0], bl[0], bl[2])])''')],
     demo=DBASE + """from hera_pspec import testing, pspecbeam
ds.update(nd=1, nf=40, nt=30, pols=["pI"])
u, = dlib.build(ds)
for k, p in enumerate(sorted(set(u.get_antpairs()))):
    if p[0] == p[1]:
        u.data_array[u.antpair2ind(*p, ordered=False)] = 10.0 * 100.0 ** (p[0] % 2)
fr = np.linspace(100e6, 200e6, 20)
beam = pspecbeam.PSpecBeamFromArray({"pI": np.full(20, 0.05)}, {"pI": np.full(20, 0.02)}, fr)
v = testing.sky_noise_sim(u, beam, cov_amp=1e-30, cov_length_scale=0.01, bl_loop_seed=3)
x = {}
for p in sorted(set(u.get_antpairs())):
    if p[0] != p[1]:
        a0, a1 = (u.get_data(q, q, "pI").real.mean() for q in p)
        x[p] = np.sqrt(np.mean(np.abs(v.get_data(*p, "pI")) ** 2)) / np.sqrt(a0 * a1)
x = list(x.values())
assert np.allclose(x, x[0], rtol=0.2), x
"""),
dict(id="C09-omit-spw", property="C09", needs="integrations that are flagged in one spectral window and not in another",
     breaks="omit_flags drops rows by the integration times of the first window whatever window is asked for",
     edits=[("uvpspec.py", '''            integs = self.integration_array[spw_ind][blpairts_inds, polpair_ind]''', '''            integs = self.integration_array[0][blpairts_inds, polpair_ind]''')],
     demo=BASE + """u = lib.build(sp)
r = u.blpair_to_indices(u.get_blpairs()[0])
u.integration_array[1][r[1], :] = 0
key = lambda s: (s, u.get_blpairs()[0], u.polpair_array[0])
assert len(u.get_data(key(0), omit_flags=True)) == 3 and len(u.get_data(key(1), omit_flags=True)) == 2
"""),
dict(id="C11-second-sep", property="C11", needs="baseline-pairs of two baselines of different length",
     breaks="the separation (and k_perp) of a baseline-pair is that of its first baseline, not the mean of the two",
     edits=[("uvpspec.py", '''            avg_sep = np.mean([blseps[bls.index(bl[0])], blseps[bls.index(bl[1])]])''', '''            avg_sep = np.mean([blseps[bls.index(bl[0])], blseps[bls.index(bl[0])]])''')],
     demo=BASE + """u = lib.build(sp)
vec = dict(zip(u.bl_array.tolist(), u.get_ENU_bl_vecs()))
for blp in u.get_blpairs():
    want = np.mean([np.linalg.norm(vec[u.antnums_to_bl(b)]) for b in blp])
    assert np.allclose(u.get_blpair_seps()[u.blpair_to_indices(blp)], want), blp
"""),
dict(id="C21-stats-imag", property="C21", needs="two spectra with different statistics that have imaginary parts",
     breaks="the imaginary error bars of a difference ignore the second spectrum",
     edits=[("uvpspec_utils.py", '''+ 1j * np.sqrt(stat1.imag**2 + stat2.imag**2)''', '''+ 1j * np.sqrt(stat1.imag**2 + stat1.imag**2)''')],
     demo=BASE + """from hera_pspec import uvpspec_utils
u = lib.build(sp)
w = copy.deepcopy(u)
for s in w.stats_array["P_N"]:
    w.stats_array["P_N"][s] = w.stats_array["P_N"][s].real * 3 + 5j * np.abs(w.stats_array["P_N"][s])
d = uvpspec_utils.subtract_uvp(u, w)
for k in d.get_all_keys():
    a, b = u.get_stats("P_N", k), w.get_stats("P_N", k)
    assert np.allclose(d.get_stats("P_N", k), np.sqrt(a.real ** 2 + b.real ** 2) + 1j * np.sqrt(a.imag ** 2 + b.imag ** 2)), k
"""),
dict(id="C23-auto-var", property="C23", needs="nsamples that change after the second integration",
     breaks="the variance of later integrations is divided by the nsamples of the second one",
     edits=[("utils.py", '''    nsample_bl = uvd.get_nsamples(bl)[time_index, spw]''', '''    nsample_bl = uvd.get_nsamples(bl)[min(time_index, 1), spw]''')],
     demo="""import dlib
from hera_pspec import utils
ds = dict(seed=5, nd=1, nf=8, nt=4, bls=[[0, 1], [1, 2]], pols=["xx"], autos=True, f0=120.0, df=0.2, t0=2458116.3, dt=10.737, dtd=0.0, fl="none", layout="grid", units="Jy",
    blorder="bl", ns="one", itime="const", std=False, wg=False)
u, = dlib.build(ds)
bl = [p for p in u.get_antpairs() if p[0] != p[1]][0]
i = u.antpair2ind(*bl, ordered=False)
u.nsample_array[i] = np.arange(1, 5)[:, None, None]
for t in range(4):
    v = utils.variance_from_auto_correlations(u, bl + ("xx",), (2, 6), t)
    a = [np.abs(u.get_data(b, b, "xx"))[t, 2:6] for b in bl]
    assert np.allclose(v, a[0] * a[1] / np.median(u.integration_time) / u.channel_width[2:6] / (t + 1)), t
"""),
dict(id="C22-tsys-copy", property="C22", needs="autocorrelation data used again after the system temperature was taken from it",
     breaks="uvd_to_Tsys converts and trims the caller's data in place",
     edits=[("utils.py", '''    uvd = copy.deepcopy(uvd)
    # get uvd metadata''', '''    uvd = copy.copy(uvd)
    # get uvd metadata''')],
     demo=DBASE + """from hera_pspec import utils, pspecbeam
ds.update(nd=1)
u, = dlib.build(ds)
fr = np.linspace(100e6, 200e6, 20)
beam = pspecbeam.PSpecBeamFromArray({"xx": np.full(20, 0.05)}, {"xx": np.full(20, 0.02)}, fr)
was = copy.deepcopy(u)
utils.uvd_to_Tsys(u, beam)
assert u.Nblts == was.Nblts and (u.data_array == was.data_array).all()
"""),
dict(id="C15-noise-taper", property="C15", needs="a noise scalar with a taper",
     breaks="the taper enters the noise scalar, which is defined without it",
     edits=[("pspecbeam.py", '''        dBpp_over_BpSq = 1.0 / (integration_freqs[-1] - integration_freqs[0])''', '''        dBpp_over_BpSq = dBpp_over_BpSq * (integration_freqs[-1] - integration_freqs[0])''')],
     demo="""from hera_pspec import pspecbeam
fr = np.linspace(100e6, 200e6, 20)
b = pspecbeam.PSpecBeamFromArray({"xx": np.full(20, 0.05)}, {"xx": np.full(20, 0.02)}, fr)
a = [b.compute_pspec_scalar(120e6, 130e6, 50, num_steps=200, pol="xx", taper=t, noise_scalar=True) for t in ("none", "blackman-harris")]
assert np.isclose(a[0], a[1], rtol=1e-6), a
"""),
dict(id="C02-error-open", property="C02", needs="a refused store or failed lookup in transactional mode, followed by another process or handle",
     breaks="a container that opens its file for every operation leaves it open after an operation that failed",
     edits=[("container.py", '''            # Close file before raising error
            if not psc.keep_open:
                psc._close()
            raise err''', '''            # Close file before raising error
            if not psc.keep_open and nested:
                psc._close()
            raise err''')],
     demo=BASE + """from hera_pspec import container
u = lib.build(sp)
d = tempfile.mkdtemp()
try:
    f = os.path.join(d, "c.h5")
    c = container.PSpecContainer(f, mode="rw", keep_open=False)
    c.set_pspec("g", "a", u)
    try:
        c.set_pspec("g", "a", u)
        raise SystemExit("stored twice")
    except AttributeError:
        pass
    import shutil
    g = shutil.copy(f, os.path.join(d, "copy.h5"))  # (what another process sees)
    r = container.PSpecContainer(g, mode="r", keep_open=False)
    assert r.groups() == ["g"] and r.spectra("g") == ["a"]
finally:
    import shutil
    shutil.rmtree(d)
"""),
dict(id="C01-read-window", property="C01", needs="reading a spectral window other than the first from a file with window functions",
     breaks="the window functions of the first windows in the file are read whatever windows are asked for",
     edits=[("uvpspec_utils.py", '''                    _window_function = h5file[f"window_function_spw{s_old}"]''', '''                    _window_function = h5file[f"window_function_spw{s}"]''')],
     demo=BASE + """sp["wf"] = "approx"
from hera_pspec import UVPSpec
u = lib.build(sp)
d = tempfile.mkdtemp()
try:
    f = os.path.join(d, "c.h5")
    u.write_hdf5(f)
    v = UVPSpec()
    v.read_hdf5(f, spws=[1])
    assert np.array_equal(v.window_function_array[0], u.window_function_array[1])
finally:
    import shutil
    shutil.rmtree(d)
"""),
]
