"""C26: plots draw the spectra, axes and errors stored in the object."""
import copy
import os
import warnings

import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt  # noqa: E402
import numpy as np
from hypothesis import strategies as st
from matplotlib.collections import LineCollection, QuadMesh

from hera_pspec import conversions, plot
from pyuvdata.utils import polnum2str
from pv import dsets, uvps
from pv.core import Law, Skip
from pv.scratch import scratch
from pv.uvps import build, close, raises, rng_of

RULE = ("Cases are generated UVPSpecs (or visibility data) with generated plotting options; the drawn artists (line data, image arrays and extents, "
        "mesh corners and cell values, error bars, labels) are read back from matplotlib and compared with the stored numbers. Non-trivial when at least two "
        "different spectra are drawn.")
ASSUMPTIONS = ["averaging, folding and unit conversion are decided by C05, C07 and C11; here they are taken from the object",
               "fonts, colours, tick formatting and figure layout are not claimed"]
warnings.simplefilter("ignore")


def group_ids(u, c, form):
    """groups of blpair ints -> what the caller passes"""
    out = []
    for g in c:
        ids = []
        for k, b in enumerate(g):
            ids.append(u.blpair_to_antnums(b) if (form == "tuple" or (form == "mix" and k % 2)) else (np.int64(b) if form == "np" else int(b)))
        out.append(ids)
    return out


def polarg(u, i, form):
    pi = int(u.polpair_array[i])
    pp = u.polpair_int2tuple([pi])[0] if hasattr(u, "polpair_int2tuple") else (pi // 100 - 20, pi % 100 - 20)
    pp = (pi // 100 - 20, pi % 100 - 20)
    if form == "int":
        return pi
    if form == "nums":
        return pp
    s = tuple(polnum2str(p) for p in pp)
    if form == "one" and s[0] == s[1]:
        return s[0]
    return s


def draw_groups(draw, n, maxg=3):
    order = draw(st.permutations(range(n)))
    cuts = draw(st.lists(st.booleans(), min_size=n, max_size=n))
    groups, cur = [], []
    for k in order:
        if cur and cuts[k]:
            groups.append(cur)
            cur = []
        cur.append(k)
    groups.append(cur)
    if draw(st.booleans()) and len(groups) > 1:
        groups = groups[:-1]
    return groups[:maxg]


@st.composite
def common_case(draw, **kw):
    d = dict(ragged=False, orders=["bl", "t"], cosmo=draw(st.sampled_from([0, 1, 2])), cov=False, wf="none", max_blp=4)
    d.update(kw)
    sp = draw(uvps.spec(**d))
    n = len(sp["blps"])
    return dict(sp=sp, spw=draw(st.integers(0, len(sp["spws"]) - 1)), pol=draw(st.integers(0, len(sp["pps"]) - 1)),
                groups=draw_groups(draw, n), form=draw(st.sampled_from(["tuple", "int", "mix", "np"])),
                pform=draw(st.sampled_from(["int", "nums", "str", "one"])), bare=draw(st.booleans()), own=draw(st.booleans()),
                delay=draw(st.booleans()), fold=draw(st.booleans()), deltasq=draw(st.booleans()), avg=draw(st.booleans()),
                times=draw(st.sampled_from([None, None, 1, 2])), comp=None)


def prepare(c):
    sp = dict(c["sp"])
    u = build(sp)
    blps = [uvps.blpair_int(uvps.tup(b)) for b in sp["blps"]]
    groups = [[blps[k] for k in g] for g in c["groups"]]
    ids = group_ids(u, groups, c["form"])
    if c["bare"]:
        ids = [g[0] if len(g) == 1 else g for g in ids]
    times = None
    if c["times"] is not None:
        times = np.unique(u.time_avg_array)[::c["times"]]
    pol = polarg(u, c["pol"], c["pform"])
    pp = (int(u.polpair_array[c["pol"]]) // 100 - 20, int(u.polpair_array[c["pol"]]) % 100 - 20)
    return u, groups, ids, times, pol, pp


def reduced(u, c, groups, times, time_avg=False, err=None):
    """the object after the options' selection, averaging, folding and conversion"""
    v = copy.deepcopy(u)
    if times is not None:
        v = v.select(times=times, inplace=False)
    if c["avg"]:
        v = v.average_spectra(blpair_groups=[list(g) for g in groups], time_avg=time_avg, error_field=err, inplace=False)
    elif time_avg:
        v = v.average_spectra(time_avg=True, error_field=err, inplace=False)
    if c["fold"] and not v.folded:
        v.fold_spectra()
    if c["deltasq"] and not c["delay"]:
        v.convert_to_deltasq()
    return v


def xaxis(v, c):
    s = c["spw"]
    return v.get_dlys(s) * 1e9 if c["delay"] else v.get_kparas(s)


CAST = {"real": np.real, "imag": np.imag, "abs": np.abs}


def fresh(c):
    plt.close("all")
    if c["own"]:
        return plt.subplots(1, 1)[1]
    return None


# ------------------------------------------------------------------------------------------------ delay_spectrum
@st.composite
def spectrum_case(draw):
    c = draw(common_case(stats=draw(st.sampled_from([[], ["P_N"], ["bs_std", "P_SN"]]))))
    c.update(comp=draw(st.sampled_from(["real", "imag", "abs"])), tavg=draw(st.booleans()), log=draw(st.booleans()),
             lines=draw(st.sampled_from([True, True, False])), markers=draw(st.booleans()), err=draw(st.booleans()), pstats=draw(st.sampled_from([False, False, True])),
             lab=draw(st.sampled_from(["auto", "key", "blpair", "blpairt"])), legend=draw(st.booleans()), titles=draw(st.sampled_from([True, True, False])))
    return c


def spectrum(c, note):
    """delay_spectrum draws one curve per baseline-pair and integration with the stored values, axis, errors and labels"""
    u, groups, ids, times, pol, pp = prepare(c)
    stats = c["sp"]["stats"]
    err = stats[0] if (c["err"] and stats) else None
    pst = stats[-1] if (c["pstats"] and stats) else None
    fields = sorted({x for x in (err, pst) if x}) or None
    v = reduced(u, c, groups, times, time_avg=c["tavg"], err=fields)
    fold = c["fold"] and not u.folded
    exp, errs, labs = [], [], []
    s = c["spw"]
    for g in groups:
        for b in (g[:1] if c["avg"] else g):
            key = (s, int(b), pp)
            y = CAST[c["comp"]](v.get_stats(pst, key) if pst else v.get_data(key)).astype(float).copy()
            dead = np.asarray(v.get_integrations(key)) == 0
            y[dead] = np.nan
            e = None
            if err:
                e = CAST[c["comp"]](v.get_stats(err, key)).astype(float).copy()
                e[dead] = np.nan
            rows = v.blpair_to_indices(int(b))
            for i in range(len(y)):
                exp.append(y[i]), errs.append(None if e is None else e[i])
                labs.append((g, b, v.time_avg_array[rows][i], v.lst_avg_array[rows][i]))
    if pst is not None and any(np.isinf(y).any() for y in exp):
        raise Skip("infinite statistics")
    x = xaxis(v, c)
    ax = fresh(c)
    kw = dict(average_blpairs=c["avg"], average_times=c["tavg"], fold=fold, delay=c["delay"], deltasq=c["deltasq"], legend=c["legend"], component=c["comp"],
              lines=c["lines"], markers=c["markers"], logscale=c["log"], label_type=c["lab"], title_legend=c["titles"], ax=ax)
    if times is not None:
        kw["times"] = times
    if err:
        kw["error"] = err
    if pst:
        kw["plot_stats"] = pst
    if v.Ntimes * len(groups) > 100:
        raise Skip("too many")
    fig = plot.delay_spectrum(u, ids, s, pol, **kw)
    if ax is None:
        assert fig is not None, "no figure was returned"
        ax = fig.axes[0]
    ln = [l for l in ax.lines if len(l.get_xdata()) or True]
    curves = [l for l in ln if l.get_linestyle() not in ("None", "none", "")]
    pts = [l for l in ln if l.get_linestyle() in ("None", "none", "") and l.get_marker() not in ("None", "none", None, "")]
    if c["lines"]:
        assert len(curves) == len(exp), "%d curves for %d spectra" % (len(curves), len(exp))
        for k, (l, y) in enumerate(zip(curves, exp)):
            assert close(np.asarray(l.get_xdata(), float), x), "curve %d: delays / k_parallel" % k
            w = np.abs(y) if c["log"] else y
            assert close(np.ma.filled(np.ma.asarray(l.get_ydata(), float), np.nan), w), "curve %d: values %s, stored %s" % (k, l.get_ydata(), w)
            if c["titles"]:
                label_ok(l.get_label(), c, labs, k, v)
    else:
        assert not curves, "lines=False drew lines"
    if c["markers"]:
        if c["log"]:
            assert len(pts) == 2 * len(exp), "%d marker sets for %d spectra" % (len(pts), len(exp))
            for k, y in enumerate(exp):
                for l, m, full in ((pts[2 * k], y >= 0, True), (pts[2 * k + 1], y < 0, False)):
                    assert close(np.asarray(l.get_xdata(), float), x[m]) and close(np.asarray(l.get_ydata(), float), np.abs(y[m])), "markers of spectrum %d" % k
                    assert (str(l.get_markerfacecolor()).lower() != "none") == full, "filled markers are the positive bandpowers"
        else:
            assert len(pts) == len(exp)
            for k, y in enumerate(exp):
                assert close(np.asarray(pts[k].get_xdata(), float), x) and close(np.asarray(pts[k].get_ydata(), float), y), "markers of spectrum %d" % k
    else:
        assert not pts, "markers=False drew markers"
    bars = [a for a in ax.collections if isinstance(a, LineCollection)]
    if err:
        assert len(bars) == len(exp), "%d sets of error bars for %d spectra" % (len(bars), len(exp))
        for k, (a, y, e) in enumerate(zip(bars, exp, errs)):
            w = np.abs(y) if c["log"] else y
            seg = {round(float(q[0][0]), 9): (float(q[0][1]), float(q[1][1])) for q in a.get_segments() if len(q) == 2}
            for xx, ww, ee in zip(x, w, e):
                if np.isfinite(ww) and np.isfinite(ee):
                    lo, hi = seg[round(float(xx), 9)]
                    assert np.isclose(lo, ww - ee, rtol=1e-9, atol=1e-12) and np.isclose(hi, ww + ee, rtol=1e-9, atol=1e-12), "error bar of spectrum %d: %s..%s, stored %s +- %s" % (k, lo, hi, ww, ee)
    else:
        assert not bars, "error bars without error="
    assert ax.get_yscale() == ("log" if c["log"] else "linear")
    note.nt(len(exp) > 1)
    note.label("avg" if c["avg"] else "each", "times" if times is not None else "all times", "err" if err else "no err", "spectra %s" % (">4" if len(exp) > 4 else "<=4"))
    plt.close("all")


def label_ok(lab, c, labs, k, v):
    g, b, t, lst = labs[k]
    names = [v.blpair_to_antnums(int(x)) for x in (g if True else [b])]
    blp = str(names[0]) if len(names) == 1 else str(names)
    if c["lab"] == "key":
        assert blp in lab and ("%d" % c["spw"]) in lab, "label %r of blpair %s" % (lab, blp)
    elif c["lab"] == "blpair":
        assert blp in lab, "label %r of blpair %s" % (lab, blp)
    elif c["lab"] == "blpairt":
        assert blp in lab and ("%.5f" % t) in lab, "label %r of blpair %s time %s" % (lab, blp, t)
    else:
        if len({tuple(x[0]) for x in labs}) > 1:
            assert blp in lab, "label %r of blpair %s, others are drawn" % (lab, blp)
        if len({x[3] for x in labs}) > 1:
            h = (lst % (2 * np.pi)) * 12 / np.pi
            assert ("%.3f" % h) in lab, "label %r of lst %s" % (lab, h)


# ------------------------------------------------------------------------------------------------ delay_waterfall
@st.composite
def waterfall_case(draw):
    c = draw(common_case(stats=[], max_t=5))
    c.update(comp=draw(st.sampled_from(["real", "imag", "abs", "abs-real", "abs-imag"])), log=draw(st.booleans()), hrs=draw(st.booleans()),
             bar=draw(st.booleans()), ttype=draw(st.sampled_from(["blpair", "blpair", "blvec"])), own=draw(st.booleans()))
    return c


def waterfall(c, note):
    """delay_waterfall draws for each baseline-pair the component of its spectra, in time order, over its delays and LSTs"""
    u, groups, ids, times, pol, pp = prepare(c)
    v = reduced(u, c, groups, times)
    fold = c["fold"] and not u.folded
    s = c["spw"]
    want = []
    for g in groups:
        for b in (g[:1] if c["avg"] else g):
            key = (s, int(b), pp)
            d = v.get_data(key)
            p = {"real": np.real, "imag": np.imag, "abs": np.abs, "abs-real": lambda z: np.abs(z.real), "abs-imag": lambda z: np.abs(z.imag)}[c["comp"]](d).astype(float).copy()
            p[np.asarray(v.get_integrations(key)) == 0] = np.nan
            want.append((int(b), p, v.lst_avg_array[v.blpair_to_indices(int(b))]))
    x = xaxis(v, c)
    plt.close("all")
    n = len(want)
    axes, fig = None, None
    if c["own"]:
        fig, axes = plt.subplots(n, 1)
        axes = axes if n == 1 else [list(axes), np.array(axes)][c["sp"]["seed"] % 2]
    kw = dict(component=c["comp"], average_blpairs=c["avg"], fold=fold, delay=c["delay"], deltasq=c["deltasq"], log=c["log"], lst_in_hrs=c["hrs"], axes=axes, title_type=c["ttype"], colorbar=c["bar"])
    if times is not None:
        kw["times"] = times
    f = plot.delay_waterfall(u, ids, s, pol, **kw)
    fig = f if axes is None else fig
    assert fig is not None, "no figure was returned"
    drawn = [a for a in fig.axes if a.images]
    assert len(drawn) == n, "%d images for %d baseline-pairs" % (len(drawn), n)
    for a, (b, p, lst) in zip(drawn, want):
        im = a.images[0]
        got = np.ma.filled(np.ma.asarray(im.get_array(), float), np.nan)
        name = "baseline-pair %s" % (v.blpair_to_antnums(b),)
        compare_image(got, p, c, name)
        if c["ttype"] == "blpair":
            A, B = v.blpair_to_antnums(b)
            assert "%s" % (A,) in a.get_title() and "%s" % (B,) in a.get_title(), "title %r of %s" % (a.get_title(), name)
        e = im.get_extent()
        assert close(np.array(e[:2]), np.array([x[0], x[-1]])), "horizontal extent %s, delays %s..%s" % (e[:2], x[0], x[-1])
        f_ = 12 / np.pi if c["hrs"] else 1.0
        period = 24.0 if c["hrs"] else 2 * np.pi
        for edge, l in ((e[3], lst[0]), (e[2], lst[-1])):
            q = (edge - l * f_) / period
            assert abs(q - np.rint(q)) < 1e-9, "LST edge %s of %s, stored LSTs %s" % (edge, name, lst * f_)
        assert abs((e[2] - e[3]) - float(np.sum((np.diff(lst) + np.pi) % (2 * np.pi) - np.pi)) * f_) < 1e-8, "LST range %s of %s" % (e[2:], name)
    note.nt(n > 1 or len(want[0][1]) > 1)
    note.label(c["comp"], "avg" if c["avg"] else "each", "flagged" if any(np.isnan(p).any() for _, p, _ in want) else "unflagged", "n=%d" % n)
    plt.close("all")


def compare_image(got, p, c, name):
    assert got.shape == p.shape, "%s: image of shape %s for spectra of shape %s" % (name, got.shape, p.shape)
    if c["log"] and c["comp"] in ("real", "imag"):
        pos = p > 0
        assert close(got[pos], np.log10(p[pos])), "%s: positive bandpowers" % name
        assert np.isnan(got[np.isnan(p)]).all(), "%s: flagged rows are drawn" % name
        neg = p < 0
        assert np.isfinite(got[neg]).all(), "%s: negative bandpowers have to be near zero, drawn as %s" % (name, got[neg])
        if neg.any() and pos.any() and np.nanmin(np.abs(p)) > 1e-9:
            assert got[neg].max() < got[pos].min(), "%s: negative bandpowers are drawn above positive ones" % name
        return
    with np.errstate(all="ignore"):
        w = np.log10(np.abs(p)) if c["log"] else p
    assert np.array_equal(np.isnan(got), np.isnan(w)), "%s: flagged rows %s" % (name, np.isnan(got).any(1))
    m = ~np.isnan(w)
    assert close(got[m], w[m]), "%s: drawn %s, stored %s" % (name, got[m][:3], w[m][:3])


# ------------------------------------------------------------------------------------------------ delay_wedge
@st.composite
def wedge_case(draw):
    c = draw(common_case(stats=draw(st.sampled_from([[], ["P_N"]])), max_blp=4, flags=draw(st.sampled_from([0, 0, 0.3]))))
    c.update(comp=draw(st.sampled_from(["real", "imag", "abs", "abs-real", "abs-imag"])), log=draw(st.booleans()), rotate=draw(st.booleans()), sel=draw(st.booleans()), ew=draw(st.booleans()),
             hor=draw(st.booleans()), center=draw(st.booleans()), tol=draw(st.sampled_from([1.0, 0.1, 20.0])), bar=draw(st.booleans()), flip=draw(st.booleans()))
    return c


def wedge(c, note):
    """delay_wedge draws the time average of each redundant group in the cell of its length (k_perp) and delay (k_parallel)"""
    from hera_pspec import utils
    u, groups, ids, times, pol, pp = prepare(c)
    if isinstance(pol, str):
        pol = (pol, pol)
    chosen = [b for g in groups for b in g]
    blpairs = [u.blpair_to_antnums(b) if c["form"] != "int" else int(b) for b in chosen] if c["sel"] else None
    v = copy.deepcopy(u)
    if times is not None or blpairs is not None:
        v = v.select(blpairs=blpairs, times=times, inplace=False)
    ew = "P_N" if c["ew"] and c["sp"]["stats"] else None
    try:
        grp = utils.get_blvec_reds(v, bl_error_tol=c["tol"], match_bl_lens=True)[0]
        v.average_spectra(blpair_groups=grp, time_avg=True, error_weights=ew, inplace=True)
    except Exception as e:
        raise Skip("grouping: %s" % type(e).__name__)
    fold = c["fold"] and not u.folded
    if fold:
        v.fold_spectra()
    if c["deltasq"] and not c["delay"]:
        v.convert_to_deltasq()
    s = c["spw"]
    lit = True
    bls = {int(b): float(np.linalg.norm(q)) for b, q in zip(v.bl_array, v.bl_vecs)}
    rows, rev = [], {}
    for r in sorted(set(v.blpair_array.tolist())):
        key = (s, int(r), pp)
        d = np.asarray(v.get_data(key))
        assert d.shape[0] == 1
        A, B = v.blpair_to_antnums(int(r))
        sep = 0.5 * (bls[uvps.bl_int(A)] + bls[uvps.bl_int(B)])
        rows.append((sep, d[0]))
    rows.sort(key=lambda q: q[0])
    x = v.get_dlys(s) * 1e9
    seps = np.array([q[0] for q in rows])
    k1, k2 = 1.0, 1.0
    if not c["delay"]:
        cos = conversions.Cosmo_Conversions(**uvps.COSMOS[c["sp"]["cosmo"]])
        z = cos.f2z(np.mean(v.freq_array[v.spw_to_freq_indices(s)]))
        k1, k2 = cos.tau_to_kpara(z, little_h=lit) / 1e9, cos.bl_to_kperp(z, little_h=lit)
    if len(x) < 2:
        raise Skip("one delay")
    if len(rows) > 1 and np.min(np.diff(seps)) < 1e-6:
        raise Skip("two groups of the same length")
    plt.close("all")
    ax = plt.subplots()[1] if c["own"] else None
    kw = dict(fold=fold, delay=c["delay"], rotate=c["rotate"], component=c["comp"], log10=c["log"], red_tol=c["tol"], center_line=c["center"], horizon_lines=c["hor"], ax=ax, deltasq=c["deltasq"],
              colorbar=c["bar"], flip_xax=c["flip"], flip_yax=c["flip"], error_weights=ew)
    if times is not None:
        kw["times"] = times
    if blpairs is not None:
        kw["blpairs"] = blpairs
    if len(rows) < 2:
        assert raises(plot.delay_wedge, u, s, pol, **kw), "a wedge of a single baseline length"
        note.label("one length")
        plt.close("all")
        return
    fig = plot.delay_wedge(u, s, pol, **kw)
    ax = fig.axes[0] if ax is None else ax
    mesh = [q for q in ax.collections if isinstance(q, QuadMesh)]
    assert len(mesh) == 1
    Z = np.ma.filled(np.ma.asarray(mesh[0].get_array(), float), np.nan)
    co = np.asarray(mesh[0].get_coordinates())
    xe, ye = co[0, :, 0], co[:, 0, 1]
    Z = Z.reshape(len(ye) - 1, len(xe) - 1)
    lx, ly = ax.get_xlabel(), ax.get_ylabel()
    par = "tau" if c["delay"] else "parallel"
    assert (par in lx) != (par in ly), "axis labels %r, %r" % (lx, ly)
    assert (par in ly) == c["rotate"], "rotate=%s: labels %r, %r" % (c["rotate"], lx, ly)
    if par in ly:
        Z, xe, ye = Z.T, ye, xe
    # now rows are lengths and columns delays
    xa, ya = x * k1, seps * k2
    assert Z.shape == (len(ya), len(xa)), "mesh of %s cells for %d lengths and %d delays" % (Z.shape, len(ya), len(xa))
    for nm, edges, cen in (("delay", xe, xa), ("length", ye, ya)):
        ex = np.concatenate([[cen[0] - (cen[1] - cen[0]) / 2], (cen[1:] + cen[:-1]) / 2, [cen[-1] + (cen[-1] - cen[-2]) / 2]])
        assert np.allclose(edges, ex, rtol=1e-7, atol=1e-9 * np.abs(cen).max()), "%s edges %s around %s" % (nm, edges, cen)
    for k, (sep, d) in enumerate(rows):
        p = {"real": np.real, "imag": np.imag, "abs": np.abs, "abs-real": lambda z: np.abs(z.real), "abs-imag": lambda z: np.abs(z.imag)}[c["comp"]](d).astype(float)
        tiny = np.abs(p) < 1e-12 * (np.abs(p).max() + 1e-300)
        if (p == 0).any() or tiny.any():
            note.label("zero cells")
            continue
        compare_image(Z[k][None, :], p[None, :], c, "length %.2f" % sep)
    if c["hor"]:
        hor = seps / 299792458.0 * 1e9 * k1
        white = []
        for l in ax.lines:
            X, Y = np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float)
            if c["rotate"]:
                X, Y = Y, X
            if len(X) == 2 and X[0] == X[1] and abs(X[0]) > 1e-6 * hor.max():
                white.append((X[0], sorted(Y)))
        for k, h in enumerate(hor):
            for sg in ((1, -1) if not v.folded else (1,)) if h else ():
                assert any(abs(w[0] - sg * h) < 1e-7 * abs(h) and np.allclose(w[1], ye[k:k + 2], rtol=1e-7, atol=1e-9) for w in white), "no horizon line at %s for length %.2f" % (sg * h, seps[k])
        assert len(white) == int(np.sum(hor > 1e-6 * hor.max())) * (1 if v.folded else 2), "%d horizon lines for %d lengths: %s, %s" % (len(white), len(hor), white, hor)
    note.nt()
    note.label(c["comp"], "sel" if blpairs is not None else "all", "times" if times is not None else "all times", "delay" if c["delay"] else "k", "rows=%d" % len(rows))
    plt.close("all")


# ------------------------------------------------------------------------------------------------ refusals
@st.composite
def refuse_case(draw):
    c = draw(common_case(stats=["P_N"], max_t=4, ragged=False))
    c.update(what=draw(st.sampled_from(["bl", "type", "error", "stats", "many", "comp", "bl in group"])))
    return c


def refuse(c, note):
    """a baseline where a baseline-pair is needed, unknown errors or statistics and oversized plots are refused"""
    u, groups, ids, times, pol, pp = prepare(c)
    w = c["what"]
    s = c["spw"]
    plt.close("all")
    blp = u.blpair_to_antnums(groups[0][0])
    if w == "bl":
        for f in (plot.delay_spectrum, plot.delay_waterfall):
            assert raises(f, u, list(blp), s, pol), "%s accepted baselines as baseline-pairs" % f.__name__
            assert raises(f, u, blp, s, pol), "%s accepted one bare baseline-pair" % f.__name__
    elif w == "bl in group":
        for f in (plot.delay_spectrum, plot.delay_waterfall):
            assert raises(f, u, [list(blp)], s, pol), "%s accepted baselines as baseline-pairs" % f.__name__
    elif w == "type":
        for f in (plot.delay_spectrum, plot.delay_waterfall):
            assert raises(f, u, ["xx"], s, pol) and raises(f, u, [[1.5]], s, pol), "%s accepted strings or floats" % f.__name__
    elif w == "error":
        assert raises(plot.delay_spectrum, u, ids, s, pol, error="nope"), "unknown error statistic"
    elif w == "stats":
        assert raises(plot.delay_spectrum, u, ids, s, pol, plot_stats="nope"), "unknown statistic"
    elif w == "comp":
        assert raises(plot.delay_waterfall, u, ids, s, pol, component="phase"), "unknown component"
        assert raises(plot.delay_wedge, u, s, pp, component="phase"), "unknown component"
    else:
        many = [[groups[0][0]]] * (100 // u.Ntimes + 1)
        assert raises(plot.delay_spectrum, u, many, s, pol), "more than 100 spectra without force_plot"
        fig = plot.delay_spectrum(u, many, s, pol, force_plot=True)
        assert len(fig.axes[0].lines) == len(many) * u.Ntimes
    note.nt()
    note.label(w)
    plt.close("all")


# ------------------------------------------------------------------------------------------------ plot_uvdata_waterfalls
@st.composite
def uvd_case(draw):
    return dict(d=draw(dsets.dspec(nd=1, nf=(3, 6), nt=(1, 3), max_bl=3, npol=draw(st.integers(1, 2)), flags=draw(st.sampled_from(["none", "pix", "time"])))),
                data=draw(st.sampled_from(["data", "flags", "nsamples"])), mode=draw(st.sampled_from(["log", "abs", "real", "imag", "phs"])),
                fmt=draw(st.sampled_from(["png", "PNG", "pdf", "svg", None])), ext=draw(st.sampled_from(["", ".png", "ng", ".pdf", "df", ".x"])), rng=draw(st.booleans()))


def uvd(c, note):
    """plot_uvdata_waterfalls writes one file per baseline and polarization, drawing the requested array"""
    import matplotlib.figure
    from uvtools.plot import data_mode
    U = dsets.build(c["d"])[0]
    ext, fmt = c["ext"], c["fmt"]
    if fmt is None and ext not in (".png", ".pdf"):
        raise Skip("no format to deduce")
    seen = []
    orig = matplotlib.figure.Figure.savefig

    def save(self, fname, *a, **k):
        seen.append((os.path.basename(str(fname)), np.array(self.axes[0].images[0].get_array()), self.axes[0].images[0].get_clim(), k.get("format"), len(self.axes)))

    plt.close("all")
    with scratch() as d:
        kw = dict(vmin=-1.0, vmax=2.0) if c["rng"] else {}
        matplotlib.figure.Figure.savefig = save
        try:
            plot.plot_uvdata_waterfalls(U, os.path.join(d, "w.{pol}.{bl}") + ext, data=c["data"], plot_mode=c["mode"], format=fmt, **kw)
        finally:
            matplotlib.figure.Figure.savefig = orig
    want = {}
    from pyuvdata.utils import polnum2str as p2s
    for bl in sorted({(int(a), int(b)) for a, b in zip(U.ant_1_array, U.ant_2_array)}):
        for p in U.polarization_array:
            ps = p2s(p, x_orientation=U.telescope.get_x_orientation_from_feeds())
            name = "w.%s.%d.%d%s" % (ps, bl[0], bl[1], ext)
            if fmt is not None and not name.lower().endswith("." + fmt.lower()):
                name += "." + fmt
            want[name] = dsets.vis(U, bl, p, {"data": "data_array", "flags": "flag_array", "nsamples": "nsample_array"}[c["data"]]).T
    names = sorted(s[0].lower() for s in seen)
    assert names == sorted(x.lower() for x in want), "files %s, expected %s" % (names, sorted(want))
    low = {k.lower(): v for k, v in want.items()}
    for nm, arr, clim, f, nax in seen:
        with np.errstate(all="ignore"):
            w = data_mode(np.array(low[nm.lower()]), mode=c["mode"])
        a, w = np.asarray(np.ma.filled(np.ma.asarray(arr, float), np.nan)), np.asarray(w, float)
        assert a.shape == w.shape and np.allclose(np.nan_to_num(a, nan=7, posinf=8, neginf=9), np.nan_to_num(w, nan=7, posinf=8, neginf=9)) or (c["mode"] == "log" and (low[nm.lower()] == 0).any()), "%s: image" % nm
        if c["rng"]:
            assert np.allclose(clim, (-1, 2)), "%s: colour scale %s" % (nm, clim)
        assert nax == 2, "%s: %d axes" % (nm, nax)
    note.nt(len(want) > 1)
    note.label(c["data"], "fmt %s%s" % (ext, fmt))
    plt.close("all")


LAWS = [
    Law("spectrum", spectrum_case(), spectrum, quick=660, shards=3),
    Law("waterfall", waterfall_case(), waterfall, quick=400, shards=3),
    Law("wedge", wedge_case(), wedge, quick=700, shards=3),
    Law("refuse", refuse_case(), refuse, quick=120),
    Law("uvdata", uvd_case(), uvd, quick=120, shards=2),
]
