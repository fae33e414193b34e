BASE = """sp = dict(seed=5, spws=[dict(f0=3, nf=5, nd=5), dict(f0=20, nf=4, nd=4)], blps=[[[0, 1], [0, 1]], [[0, 2], [0, 3]], [[4, 5], [0, 1]]], nt=3, pps=[[-5, -5], [-6, -5]],
    order="bl", dt=10.7, t0=2458042.1, lst0=0.3, off=0, folded=False, cov=True, stats=["P_N"], wf="none", flags=0, drop=0, beam=False, cosmo=0, labels=2, rp=False)
"""
BUGS = [
dict(id="C03-bls-lsts", property="C03", needs="a selection by baselines and LSTs in the same call, without baseline-pairs",
     breaks="the LST mask starts from all rows instead of the rows of the requested baselines, so the baseline selection is dropped",
     edits=[("uvpspec_utils.py", '''        assert times is None, "Cannot select on lsts and times simultaneously."
        if bls is None and blpairs is None:''', '''        assert times is None, "Cannot select on lsts and times simultaneously."
        if bls is None or blpairs is None:''')],
     demo=BASE + """u = lib.build(sp)
l = np.unique(u.lst_avg_array)[:2]
a = u.select(bls=[(0, 2), (0, 3)], inplace=False).select(lsts=l, inplace=False)
b = u.select(bls=[(0, 2), (0, 3)], lsts=l, inplace=False)
assert a.Nbltpairs == b.Nbltpairs == 2 and set(b.blpair_array) == set(a.blpair_array), b.blpair_array
"""),
dict(id="C05-errweight-cov", property="C05", needs="time averaging with error_weights that differ between delays, and a covariance",
     breaks="the imaginary covariance of a time average uses the row's weight twice instead of the weights of both delays",
     edits=[("grouping.py", '''                                np.sum(cov_imag * w[:, :, None] * w[:, None, :], axis=0)
                                / wsum[:, None]''', '''                                np.sum(cov_imag * w[:, :, None] * w[:, :, None], axis=0)
                                / wsum[:, None]''')],
     demo=BASE + """u = lib.build(sp)
o = u.average_spectra(time_avg=True, error_weights="P_N", inplace=False)
k = (0, ((0, 1), (0, 1)), ("xx", "xx"))
w = 1 / u.get_stats("P_N", k).real ** 2
for c in ("real", "imag"):
    e = np.einsum("ti,tij,tj->ij", w, u.get_cov(k, component=c).real, w) / np.outer(w.sum(0), w.sum(0))
    assert np.allclose(o.get_cov(k, component=c)[0], e), c
"""),
dict(id="C06-odd-cov", property="C06", needs="an odd number of delays and a covariance whose off-diagonal quadrants are not symmetric",
     breaks="the real covariance of an odd-delay window folds the lower-left quadrant without reversing it",
     edits=[("grouping.py", '''                rightleft = uvp.cov_array_real[spw][
                    :, Ndlys // 2 + 1 :, : Ndlys // 2, :
                ][:, :, ::-1, :]''', '''                rightleft = uvp.cov_array_real[spw][
                    :, Ndlys // 2 + 1 :, : Ndlys // 2, :
                ][:, ::-1, :, :]''')],
     demo=BASE + """u = lib.build(sp)
c = u.cov_array_real[0].copy()
u.fold_spectra()
f = c[:, ::-1]
e = 0.25 * (c + c[:, ::-1] + c[:, :, ::-1] + c[:, ::-1, ::-1])
assert np.allclose(u.cov_array_real[0][:, 3:, 3:], e[:, 3:, 3:])
"""),
dict(id="C10-closed-no-h", property="C10", needs="a closed universe and distances without little h",
     breaks="the transverse distance of a closed universe mixes h^-1 Mpc and Mpc",
     edits=[("conversions.py", '''                    np.sqrt(np.abs(self.Om_k)) * self.DC(z, little_h=little_h) / DH''', '''                    np.sqrt(np.abs(self.Om_k)) * self.DC(z) / DH''')],
     demo="""from hera_pspec.conversions import Cosmo_Conversions
C = Cosmo_Conversions(Om_L=0.9, Om_b=0.05, Om_c=0.25, H0=70.0)
assert np.isclose(C.DM(8.0, little_h=False), C.DM(8.0) / 0.7)
assert np.isclose(C.X2Y(8.0, little_h=False), C.X2Y(8.0) / 0.7**3)
"""),
dict(id="C11-deltasq-cov", property="C11", needs="a covariance",
     breaks="the imaginary covariance is scaled by k_i^6 instead of k_i^3 k_j^3",
     edits=[("uvpspec.py", '''                cov = uvp.cov_array_imag[spw]
                uvp.cov_array_imag[spw] = np.einsum(
                    "tip,tijp,tjp->tijp", coeff, cov, coeff''', '''                cov = uvp.cov_array_imag[spw]
                uvp.cov_array_imag[spw] = np.einsum(
                    "tip,tijp,tip->tijp", coeff, cov, coeff''')],
     demo=BASE + """u = lib.build(sp)
v = u.convert_to_deltasq(inplace=False)
assert np.allclose(v.cov_array_real[0] / u.cov_array_real[0], v.cov_array_imag[0] / u.cov_array_imag[0])
"""),
dict(id="C04-pol-label", property="C04", needs="pieces split by polarization whose label lists differ",
     breaks="when polarizations are combined the second label index is taken from the new object's list instead of being translated",
     edits=[("uvpspec.py", '''                    # Labels
                    lbl1 = uvps[l].label_1_array[m, n, q]
                    lbl2 = uvps[l].label_2_array[m, n, q]
                    u.label_1_array[i, j, k] = u_lbls[uvps[l].labels[lbl1]]
                    u.label_2_array[i, j, k] = u_lbls[uvps[l].labels[lbl2]]

                    # scalar array''', '''                    # Labels
                    lbl1 = uvps[l].label_1_array[m, n, q]
                    lbl2 = uvps[l].label_2_array[m, n, q]
                    u.label_1_array[i, j, k] = u_lbls[uvps[l].labels[lbl1]]
                    u.label_2_array[i, j, k] = u_lbls[uvps[l].labels[lbl1]]

                    # scalar array''')],
     demo=BASE + """from hera_pspec import uvpspec
u = lib.build(sp)
b = u.get_blpairs()
ps = [u.select(blpairs=[x], inplace=False) for x in b]
o = uvpspec.combine_uvpspec(ps, verbose=False)
for x in b:
    p = u.select(blpairs=[x], inplace=False)
    q = o.select(blpairs=[x], inplace=False)
    A, B = [np.array(z.labels)[np.moveaxis(z.label_2_array, 2, 0)].tolist() for z in (p, q)]
    pa = {int(y): A[i] for i, y in enumerate(p.polpair_array)}
    qa = {int(y): B[i] for i, y in enumerate(q.polpair_array)}
    assert pa == qa
"""),
]
