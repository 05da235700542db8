"""C20: what the figures show. Oracle: the calibrator's data and independently computed solutions, read back from the figures."""
import numpy as np

from rvm import plotload as pl
from rvm import fitload, gen, refs

ID = "C20"
LEVEL = "exploration"
RULE = "a fitted calibrator whose figures were read back, distinct by problem and arguments"
ASSUMPTIONS = [
    "data are compared as drawn lines, markers and segments, not as rendered pixels",
    "samples that cannot be drawn on a logarithmic scale are not judged",
    "peaks whose distance from a line is within 1e-6 of the tolerance, and ties in support, are not judged",
]
REQUIRED = {"arc-matplotlib": 60, "arc-plotly": 60, "fit-spectrum-matplotlib": 50, "fit-spectrum-plotly": 50, "fit-solution": 100, "fit-residuals": 100,
            "search-pairs": 100, "search-candidates": 100, "search-best": 100, "calibration-lines": 15, "simulated-arc": 15, "second-figures": 25}
CHUNK = 2
LINES = dict(min_intensity=5.0, min_distance=0.0, brightest_n_lines=None, vacuum=False, label=False, log=False)
CASE_SECONDS = 180


def cases(tier):
    return 180 if tier == "quick" else 3000


def run(ctx, rng, i):
    if i % 6 == 5:
        return calibration_lines(ctx, rng, i)
    fk = {"fit_type": str(rng.choice(["legendre", "chebyshev"]))} if rng.random() < 0.1 else {}
    got = pl.fitted(rng, fit_kw=fk)
    if got is None:
        ctx.tag("no-fit")
        return
    c, p = got
    kind = fk.get("fit_type", "poly")
    args = [arc(ctx, rng, c, p), solution(ctx, rng, c, p, kind), search(ctx, rng, c, p, kind)]
    if rng.random() < 0.4 and changed(ctx, rng, c, p):
        # the figures follow what was done since
        args += [solution(ctx, rng, c, p, kind), search(ctx, rng, c, p, kind)]
        ctx.counts["second-figures"] += 1
    ctx.case(True, kind=p["kind"], gap=p["gap"], peaks=len(p["peaks"]), lo=round(p["sg"].lo, 3), basis=kind, args=args)


def changed(ctx, rng, c, p):
    """Something else is done with the calibrator."""
    q = rng.random()
    if q < 0.3:
        c.manual_refit(degree=1)
    elif q < 0.55:
        co = np.array(c.fit_coeff, float)
        co[0] += float(rng.uniform(-2, 2))
        m = c.match_peaks(co, refine=False, tolerance=8.0, robust_refit=bool(rng.random() < 0.5))
        return len(m[1]) > 3
    elif q < 0.75:
        c.remove_pix_wave_pair(int(rng.integers(0, len(c.matched_peaks))))
        return True
    else:
        c.add_user_atlas(["Y"] * 2, [float(v) for v in rng.uniform(p["min_w"], p["max_w"], 2)])
        p["atlas"] = np.array(c.atlas.get_lines(), float)
        return fitload.attempt(c, True, max_tries=20, fit_deg=1) is not None
    return True


def figures(c, fn, **kw):
    """Both libraries' figures of one call."""
    import matplotlib.pyplot as plt

    c.use_matplotlib()
    fig = fn(display=False, **kw)
    fig = fig if fig is not None else plt.gcf()
    m = dict(curves=pl.mpl_curves(fig), points=pl.mpl_points(fig), vlines=pl.mpl_vlines(fig), hlines=pl.mpl_hlines(fig),
             xlim=[ax.get_xlim() for ax in fig.axes])
    pl.close_all()
    c.use_plotly()
    js = fn(display=False, return_jsonstring=True, **kw)
    t = pl.plotly_traces(js)
    q = dict(curves=[(x, y) for mode, x, y in t if "lines" in mode], points=[(x, y) for mode, x, y in t if mode == "markers"],
             vlines=[pl.plotly_vlines(js)], hlines=[float(y[0]) for mode, x, y in t if len(y) == 2 and y[0] == y[1]])
    return {"matplotlib": m, "plotly": q}


def logs(s):
    with np.errstate(all="ignore"):
        return np.where(s > 0, np.log10(np.where(s > 0, s, 1.0)), np.nan)


def arc(ctx, rng, c, p):
    kw = dict(log_spectrum=bool(rng.random() < 0.4))
    x = np.arange(len(c.pixel_list)) if p["spectrum"] is None else np.arange(len(p["spectrum"]))
    if p["spectrum"] is not None and (p["gap"] or rng.random() < 0.3):
        x = np.asarray(c.pixel_list)
        kw["pixel_list"] = x if rng.random() < 0.5 else list(x)
    f = figures(c, c.plot_arc, **kw)
    if p["spectrum"] is not None:
        s = np.asarray(p["spectrum"], float)
        y = s / s.max()
        y = logs(y) if kw["log_spectrum"] else y
        for lib in f:
            ctx.check(any(pl.same_curve(g, (x, y)) for g in f[lib]["curves"]), "arc-" + lib, kind=p["kind"], log=kw["log_spectrum"],
                      drawn=[g[0].shape for g in f[lib]["curves"]], gap=p["gap"])
            ctx.check(pl.drawn_at(f[lib]["vlines"], p["peaks"]), "arc-peaks", lib=lib, kind=p["kind"], log=kw["log_spectrum"])
    return dict(kw, pixel_list="pixel_list" in kw)


def solution(ctx, rng, c, p, kind):
    co = np.array(c.fit_coeff, float)
    kw = dict(log_spectrum=bool(rng.random() < 0.4), plot_atlas=bool(rng.random() < 0.6), tolerance=float(rng.choice([2.0, 5.0, 10.0])))
    if rng.random() < 0.5:
        if rng.random() < 0.4:
            # somebody else's coefficients
            co = co.copy()
            co[0] += float(rng.uniform(-4, 4))
        kw["fit_coeff"] = co if rng.random() < 0.5 else [float(v) for v in co]
    s = p["spectrum"]
    if rng.random() < 0.4:
        s = (np.asarray(s, float) if s is not None else rng.random(len(c.pixel_list))) * 3.0
        kw["spectrum"] = s if rng.random() < 0.5 else [float(v) for v in s]
    pk = np.asarray(p["peaks"], float)
    at = np.asarray(p["atlas"], float)
    mp, ma = np.asarray(c.matched_peaks, float), np.asarray(c.matched_atlas, float)
    val = lambda q: refs.poly(q, co)
    near = np.array([at[np.argmin(np.abs(at - w))] for w in val(pk)]) - val(pk)
    border = np.any(np.abs(np.abs(near) - kw["tolerance"]) < 1e-6)
    sel = np.abs(near) < kw["tolerance"]
    d = dict(kind=p["kind"], kw={k: (v if np.isscalar(v) else "given") for k, v in kw.items()}, basis=kind)
    if not sel.any():
        # plotly has nothing to show
        c.use_matplotlib()
        ctx.tag("no-peak-within-tolerance")
        return d
    f = figures(c, c.plot_fit, **kw)
    wave = val(np.asarray(c.pixel_list, float))
    for lib in f:
        g = f[lib]
        if s is not None:
            y = np.asarray(s, float)
            y = logs(y) if kw["log_spectrum"] else y
            ctx.check(any(pl.same_curve(q, (wave, y)) for q in g["curves"]), "fit-spectrum-" + lib, **d)
            ctx.check(pl.drawn_at(g["vlines"], val(pk), val(mp), at if kw["plot_atlas"] else []), "fit-peaks", lib=lib, **d)
        ctx.check(any(pl.same_curve(q, (wave, c.pixel_list)) for q in g["curves"]), "fit-solution", lib=lib, **d)
        if lib == "matplotlib":
            x, r = mp, ma - val(mp)
            ctx.check(pl.drawn_at(g["vlines"], at, *((val(pk), val(mp)) if s is not None else ())) or not kw["plot_atlas"], "fit-atlas", lib=lib, **d)
        else:
            if border:
                continue
            x, r = pk[sel], near[sel]
        ctx.check(any(pl.same_set(q, (val(x), r)) for q in g["points"]), "fit-residuals", lib=lib, **d)
        ctx.check(any(pl.same_set(q, (val(x), x)) for q in g["points"]), "fit-points", lib=lib, **d)
        rms = float(np.sqrt(np.mean(r**2)))
        ctx.check(any(abs(h - rms) < 1e-6 for h in g["hlines"]) and any(abs(h + rms) < 1e-6 for h in g["hlines"]), "fit-rms", lib=lib, rms=rms, **d)
    return d


def best(cands, n, weighted):
    """Per peak: (support per line, n)."""
    sup = {}
    for px, wl, w in cands:
        for a, b, k in zip(px, wl, w):
            d = sup.setdefault(float(a), {})
            d[float(b)] = d.get(float(b), 0.0) + (float(k) if weighted else 1.0)
    return sup


def is_best(got, sup, n):
    gx, gy = (np.asarray(v, float) for v in got)
    if len(gx) != len(gy):
        return "not points"
    by = {}
    for a, b in zip(gx, gy):
        by.setdefault(float(a), []).append(float(b))
    if set(by) != set(sup):
        return "peaks differ"
    for a, ls in by.items():
        want = sup[a]
        if len(set(ls)) != len(ls) or not set(ls) <= set(want):
            return "lines of peak %r" % a
        if len(ls) != min(n, len(want)):
            return "%d lines for peak %r, wanted %d" % (len(ls), a, min(n, len(want)))
        out = [v for k, v in want.items() if k not in ls]
        if out and max(out) > min(want[k] for k in ls) * (1 + 1e-9):
            return "a better supported line of peak %r is missing" % a
    return None


def search(ctx, rng, c, p, kind):
    n, w = int(rng.integers(1, 6)), bool(rng.random() < 0.5)
    kw = dict(top_n_candidate=n, weighted=w)
    if rng.random() < 0.15:
        kw = {}
        n, w = 3, True
    co = None
    if rng.random() < 0.6:
        co = np.array(c.fit_coeff, float)
        kw["fit_coeff"] = co if rng.random() < 0.5 else [float(v) for v in co]
    if rng.random() < 0.6:
        # settings of a fit, not of this figure
        c.set_ransac_properties(top_n_candidate=int(rng.integers(1, 6)), candidate_weighted=bool(rng.random() < 0.5))
    f = figures(c, c.plot_search_space, **kw)
    pairs = np.asarray(c.pairs, float)
    px = np.concatenate([np.asarray(q[0], float) for q in c.candidates])
    wl = np.concatenate([np.asarray(q[1], float) for q in c.candidates])
    sup = best(c.candidates, n, w)
    d = dict(n=n, weighted=w, basis=kind)
    for lib in f:
        pts = f[lib]["points"]
        ctx.check(any(pl.same_set(q, (pairs[:, 0], pairs[:, 1])) for q in pts), "search-pairs", lib=lib, **d)
        ctx.check(any(pl.same_set(q, (px, wl)) for q in pts), "search-candidates", lib=lib, **d)
        why = [is_best(q, sup, n) for q in pts]
        ctx.check(None in why, "search-best", lib=lib, why=why, **d)
        if co is not None:
            ctx.check(any(pl.same_set(q, (p["peaks"], refs.poly(p["peaks"], co))) for q in pts), "search-solution", lib=lib, **d)
    ctx.tag("pairs-shown", len(pairs))
    return d


def calibration_lines(ctx, rng, i):
    from rascal.plotting import plot_calibration_lines

    cat = refs.catalogue()
    pool = ["Ne", "Ar", "Kr", "Xe", "Hg", "He", "Fe", "Th"]
    lo = float(np.round(rng.uniform(3500, 8000), 1))
    hi = lo + float(rng.integers(250, 600))
    extra = {}
    if rng.random() < 0.25:
        extra["linelist"] = ctx.tmp("list.csv")
        pool = ["He", "Q1", "Xx"]
        cat = own_list(rng, extra["linelist"], pool, lo, hi)
    scale = 1.0
    if rng.random() < 0.5:
        scale = extra["pixel_scale"] = float(rng.choice([0.3, 0.5, 1.0, 2.0]))
    if rng.random() < 0.5:
        extra["fig_kwarg"] = {"figsize": (6, 4)}
    lamp = [str(e) for e in rng.choice(pool, int(rng.integers(1, 4)), replace=False)]
    vac = bool(rng.random() < 0.3)
    mi = float(rng.choice([0.0, 5.0, 5.0, 50.0, 300.0, 1000.0]))
    md = float(rng.choice([0.0, 0.0, 1.0, 5.0, 20.0]))
    nb = int(rng.integers(1, 30)) if rng.random() < 0.3 else None
    kw = gen.spare(rng, dict(min_atlas_wavelength=lo, max_atlas_wavelength=hi, min_intensity=mi, min_distance=md, brightest_n_lines=nb,
                             vacuum=vac, label=bool(rng.random() < 0.3), log=bool(rng.random() < 0.3)), **LINES)
    atm = {}
    if rng.random() < 0.3 and not vac:
        atm = dict(pressure=float(rng.uniform(5e4, 1.1e5)), temperature=float(rng.uniform(263, 303)), relative_humidity=float(rng.uniform(0, 100)))
    el, wl, it = np.array(cat[0]), np.asarray(cat[1], float), np.asarray(cat[2], float)
    w = wl if vac else refs.vac_to_air(wl, atm.get("temperature", 273.15), atm.get("pressure", 101325.0), atm.get("relative_humidity", 0.0))
    m = np.isin(el, lamp) & (w >= lo) & (w <= hi)
    e, w, t = el[m], w[m], it[m]
    edge = np.any(np.abs(w - lo) < 1e-4) or np.any(np.abs(w - hi) < 1e-4)
    if nb is not None and len(t) > nb:
        o = np.argsort(-t, kind="stable")
        if t[o[nb - 1]] == t[o[nb]]:
            edge = True
        k = np.sort(o[:nb])
        e, w, t = e[k], w[k], t[k]
    every = (w, t)
    k = t >= mi
    e, w, t = e[k], w[k], t[k]
    if md > 0 and len(w):
        gaps = np.abs(w[:, None] - w[None, :])
        if np.any(np.abs(gaps - md) < 1e-4):
            edge = True
        k = refs.separated(w, md)
        e, w, t = e[k], w[k], t[k]
    arg = [x.lower() if rng.random() < 0.2 else x for x in lamp]
    if len(arg) == 1 and rng.random() < 0.4:
        arg = arg[0]
    fig = plot_calibration_lines(arg, display=False, **kw, **atm, **extra)
    if not edge:
        d = dict(lamp=lamp, kw=kw, atm=atm, extra=extra)
        groups = marks(fig)
        bad = []
        each = {x: (w[e == x], t[e == x]) for x in lamp if np.any(e == x)}
        # every element has its mark set, or the sets are drawn together
        if not any(same(x, y, w, t) for _, x, y in groups):
            bad += [("missing", x, len(v[0])) for x, v in each.items() if not any(same(a, b, *v) for _, a, b in groups)]
        # a set that names an element holds that element's lines
        for label, x, y in groups:
            name = [q for q in lamp if q.lower() == label]
            if name and not same(x, y, *each.get(name[0], (np.zeros(0), np.zeros(0)))):
                bad.append(("label", name[0], len(x)))
            if not within(x, y, w, t):
                bad.append(("other", label, len(x)))
        ctx.check(not bad, "calibration-lines", bad=bad, drawn=[(g[0], len(g[1])) for g in groups], lines=len(w), **d)
        ctx.check(any(is_arc(x, y, lo, hi, *every, sigma=2.5 * scale) for x, y in pl.mpl_curves(fig)), "simulated-arc", lines=len(every[0]), **d)
        ctx.tag("calibration-lines-shown", len(w))
    pl.close_all()
    ctx.case(len(w) > 0 and not edge, lamp=lamp, kw=kw, atm=atm, lines=len(w))


def own_list(rng, path, pool, lo, hi):
    """A line list with lines in any order, two of them close together."""
    n = int(rng.integers(5, 60))
    el = rng.choice(pool, n)
    wl = np.round(rng.uniform(lo - 50, hi + 50, n), 4)
    if n > 8:
        wl[3] = wl[5] + 0.0004
    it = np.round(rng.permutation(n) * 17.0 + rng.uniform(1, 9), 1)
    with open(path, "w") as f:
        f.write("element,wavelength,intensity,source\n")
        for a, b, c in zip(el, wl, it):
            f.write("{},{!r},{!r},x\n".format(a, float(b), float(c)))
    return [str(x) for x in el], wl, it


def marks(fig):
    """Sets of marked points: markers, and upright lines that rise from the baseline."""
    from matplotlib.collections import LineCollection, PathCollection

    out = []
    f = lambda a: np.ma.filled(np.ma.asarray(a, float), np.nan)
    for ax in fig.axes:
        names = {}
        for k in ax.containers:
            for child in k.get_children():
                names[id(child)] = k.get_label()
        name = lambda a: str(names.get(id(a), a.get_label())).lower()
        for c in ax.collections:
            if isinstance(c, PathCollection):
                o = f(c.get_offsets())
                out.append((name(c), o[:, 0], o[:, 1]))
            elif isinstance(c, LineCollection):
                tips = [q[np.argmax(np.abs(q[:, 1]))] for q in map(f, c.get_segments())
                        if len(q) == 2 and q[0, 0] == q[1, 0] and min(np.abs(q[:, 1])) == 0]
                if tips:
                    tips = np.array(tips)
                    out.append((name(c), tips[:, 0], tips[:, 1]))
        for l in ax.get_lines():
            x, y = f(l.get_xdata()), f(l.get_ydata())
            if pl.upright(x, y):
                tips = [(a[0], b[np.argmax(np.abs(b))]) for a, b in pl.segments(x, y) if min(np.abs(b)) == 0]
                if tips:
                    out.append((name(l), *np.array(tips).T))
            elif str(l.get_marker()).lower() not in ("none", "", " "):
                out.append((name(l), x, y))
    return out


def within(x, y, w, t):
    """Every mark is one of the lines."""
    k = ~(np.isnan(x) | np.isnan(y))
    return all(np.any((np.abs(w - a) < 2e-4) & (np.abs(t - b) <= 1e-9 * np.abs(b) + 1e-9)) for a, b in zip(x[k], y[k]))


def is_arc(x, y, lo, hi, w, t, sigma):
    """The sum of a Gaussian for every line."""
    if len(x) < 100 or x.min() > lo + 0.01 or x.max() < hi - 0.01 or x.min() < lo - 0.01 or x.max() > hi + 0.01:
        return False
    k = np.linspace(0, len(x) - 1, 500).astype(int)
    if len(w):
        k = np.union1d(k, np.clip(np.searchsorted(x, w[:300]), 0, len(x) - 1))
    want = (t * np.exp(-((x[k, None] - w) ** 2) / (2 * sigma**2))).sum(axis=1)
    return bool(np.allclose(y[k], want, rtol=0, atol=3e-3 * max(1e-6, want.max() if len(want) else 0)))


def same(gx, gy, w, t):
    if gx.shape != w.shape:
        return False
    a, b = np.lexsort((gy, np.round(gx, 4))), np.lexsort((t, np.round(w, 4)))
    return bool(np.allclose(gx[a], w[b], rtol=0, atol=1e-4) and np.allclose(gy[a], t[b], rtol=1e-9))
