"""C11: recovery of the true dispersion. Oracle: the synthetic ground truth; success fractions per mode are required."""
import numpy as np

from rvm import gen, refs

ID = "C11"
LEVEL = "exploration"
RULE = "a well-posed synthetic arc that was fitted and compared with its true dispersion, distinct by problem and mode"
ASSUMPTIONS = [
    "decided on success fractions per mode, well below the fractions observed on the unchanged tree",
    "dispersions up to degree 2 (3 in the mode cubic) whose ends lie within the stated range tolerance",
]
CHUNK = 1
CASE_SECONDS = 200
# mode -> required fraction of solved arcs
MODES = {
    "random": 0.8,
    "unweighted": 0.78,
    "constrained": 0.9,
    "filter-close": 0.78,
    "cubic": 0.78,
    "wide-range": 0.6,
    "hough-off": 0.8,
    "brute-force": 0.9,
    "guess": 0.9,
    "curved": 0.9,
    "integer-peaks": 0.75,
    "gap": 0.78,
    "contaminated": 0.75,
    "pipeline": 0.85,
    "legendre": 0.78,
    "chebyshev": 0.78,
}
ORDER = list(MODES)
REQUIRED = {"slope-window": 100, "solved-fraction": len(ORDER), "increasing": 150, "true-matches": 150}


def cases(tier):
    return (40 if tier == "quick" else 300) * len(ORDER)


def run(ctx, rng, i):
    mode = ORDER[i % len(ORDER)]
    slope_window(ctx, rng)
    if mode == "pipeline":
        p, c, fit, kind = pipeline(ctx, rng)
    else:
        p, c, fit, kind = synthetic(ctx, rng, mode)
    r = gen.fit(c, **fit)
    ok, info = False, {}
    if r is not None:
        co = np.asarray(r[0], float)
        err = float(np.max(np.abs(refs.poly(p["true_px"], co) - p["true_wl"])))
        ok = err < (1.0 if mode == "curved" else p["tol"])
        info = dict(err=round(err, 4))
    if ok:
        x = np.linspace(0, p["sg"].npix - 1, 400)
        ctx.check(np.all(np.diff(refs.poly(x, co)) > 0), "increasing", coeff=co, mode=mode)
        true = {(float(a), float(b)) for a, b in zip(p["det_px"], p["true_wl"])}
        good = sum((float(a), float(b)) in true for a, b in zip(r[1], r[2]))
        ctx.check(good >= 0.8 * len(r[1]), "true-matches", good=good, n=len(r[1]), mode=mode)
        ctx.tag("matched-pairs", len(r[1]))
        ctx.tag("true-pairs", good)
    ctx.tag("solved-" + mode, int(ok))
    ctx.data = dict(mode=mode, ok=bool(ok))
    ctx.case(True, mode=mode, n=len(p["peaks"]), lo=round(p["sg"].lo, 3), npix=p["sg"].npix, ok=ok, **info)


def synthetic(ctx, rng, mode):
    kw = dict(n=int(rng.integers(22, 30)), keep=1.0, spurious=int(rng.integers(0, 2)), extra=int(rng.integers(0, 3)),
              deg=int(rng.integers(1, 3)), rt=50.0, noise=0.1)
    hough, ransac, cons, fit = dict(num_slopes=1000, xbins=100, ybins=100), {}, False, dict(max_tries=200)
    if mode == "unweighted":
        ransac["candidate_weighted"] = False
    elif mode == "constrained":
        cons = True
        kw["nl"] = (20.0, 5.0, 2.0)
    elif mode == "filter-close":
        ransac["filter_close"] = True
    elif mode == "cubic":
        kw["deg"] = 3
    elif mode == "wide-range":
        kw["rt"] = 200.0
        fit["max_tries"] = 500
    elif mode == "integer-peaks":
        kw["npix"] = int(rng.integers(1400, 2100))
        kw["span"] = float(rng.uniform(1500, 4000))
    elif mode == "hough-off":
        ransac["hough_weight"] = 0.0
        fit["max_tries"] = 300
    elif mode == "contaminated":
        kw.update(keep=0.85, spurious=4, extra=6)
        fit["max_tries"] = 400
    elif mode == "brute-force":
        kw.update(n=int(rng.integers(7, 9)), deg=1, spurious=0, extra=0)
        # up to several hundred combinations, whatever the number of tries
        ransac.update(sample_size=int(rng.choice([2, 3])), top_n_candidate=2)
        fit = dict(brute_force=True)
        if rng.random() < 0.5:
            fit["max_tries"] = int(rng.choice([1, 10]))
    elif mode == "curved":
        # turns over a third of a detector length away
        kw["deg"] = 2
    if mode == "curved":
        kw["sg"] = sg = gen.Spectrograph(rng, deg=2)
        sg.c[2] = float(rng.choice([-1, 1])) * sg.span / 8 / rng.uniform(1.5, 1.9)
    p = gen.problem(rng, **kw)
    sg, rt = p["sg"], p["rt"]
    # within the stated range, tolerance and non-linearity
    p["min_w"] = float(sg.wave(0) + rng.uniform(-0.5, 0.5) * rt)
    p["max_w"] = float(sg.wave(sg.npix - 1) + rng.uniform(-0.5, 0.5) * rt)
    p["det_px"] = p["true_px"]
    fit["fit_deg"] = kw["deg"]
    props = {}
    if mode in ("guess", "curved"):
        ransac["linear"] = False
        t = sg.coeff()
        t[0] += rng.uniform(-3, 3)
        fit["fit_coeff"] = list(t)
    elif mode == "integer-peaks":
        p["det_px"] = np.round(p["true_px"])
        p["peaks"] = np.unique(np.round(p["peaks"]))
        if rng.random() < 0.5:
            p["peaks"] = p["peaks"].astype(int)
    elif mode == "gap":
        # two detectors with a gap between them
        a, b = int(sg.npix * rng.uniform(0.4, 0.45)), int(sg.npix * rng.uniform(0.5, 0.55))
        on = lambda q: (q < a) | (q >= b)
        p["peaks"] = p["peaks"][on(p["peaks"])]
        k = on(p["true_px"])
        p["true_px"], p["true_wl"], p["det_px"] = p["true_px"][k], p["true_wl"][k], p["det_px"][k]
        props["pixel_list"] = np.r_[np.arange(a), np.arange(b, sg.npix)]
    elif mode in ("legendre", "chebyshev"):
        fit["fit_type"] = mode
    c = gen.calibrator(p, hough=hough, ransac=ransac, constrain=cons, seed=int(rng.integers(0, 2**31)), **props)
    return p, c, fit, fit.get("fit_type", "poly")


def pipeline(ctx, rng):
    """Lamp lines of the shipped catalogue, a spectrum, peak finding, refining, fitting."""
    from scipy.signal import find_peaks

    from rascal.calibrator import Calibrator
    from rascal.util import refine_peaks

    el, wl, it = refs.catalogue()
    el = np.array(el)
    while True:
        sg = gen.Spectrograph(rng, npix=int(rng.integers(1200, 2100)), lo=float(rng.uniform(3800, 4600)), span=float(rng.uniform(3000, 4500)), deg=2)
        lamp = [str(e) for e in rng.choice(["Ne", "Ar", "Kr", "Xe", "Hg", "He"], int(rng.integers(2, 4)), replace=False)]
        w0, w1 = sg.wave(0), sg.wave(sg.npix - 1)
        a = refs.vac_to_air(wl)
        sep = float(14 * sg.span / sg.npix)
        m = np.isin(el, lamp) & (it >= 100) & (a > w0 - 50) & (a < w1 + 50)
        a = np.sort(a[m])
        if len(a) and np.any(np.abs(np.diff(a) - sep) < 1e-6):
            continue
        a = a[refs.separated(a, sep)] if len(a) else a
        seen = a[(a > w0 + 20) & (a < w1 - 20)]
        if len(seen) >= 14:
            break
    px = sg.pixel(seen)
    x = np.arange(sg.npix)
    s = sum(rng.uniform(0.3, 1.0) * np.exp(-0.5 * ((x - q) / 2.0) ** 2) for q in px)
    s = 1000.0 * s + rng.normal(0, 1.0, sg.npix) + 10
    est = find_peaks(s, height=100, distance=5, prominence=50)[0]
    peaks = refine_peaks(s, est, window_width=5)
    c = Calibrator(peaks, s)
    c.set_calibrator_properties(num_pix=sg.npix, seed=int(rng.integers(0, 2**31)))
    c.set_hough_properties(num_slopes=1000, xbins=100, ybins=100, min_wavelength=float(w0 + rng.uniform(-25, 25)),
                           max_wavelength=float(w1 + rng.uniform(-25, 25)), range_tolerance=50.0, linearity_tolerance=100.0)
    c.set_ransac_properties(sample_size=5, top_n_candidate=5, filter_close=False, ransac_tolerance=2.0, minimum_fit_error=1e-9)
    c.add_atlas(lamp, min_atlas_wavelength=w0 - 50, max_atlas_wavelength=w1 + 50, min_intensity=100, min_distance=sep, candidate_tolerance=10.0)
    det = np.array([peaks[np.argmin(np.abs(peaks - q))] if len(peaks) else np.nan for q in px])
    at = np.array(c.atlas.get_lines())
    tw = np.array([at[np.argmin(np.abs(at - w))] if len(at) else np.nan for w in seen])
    ctx.check(np.allclose(tw, seen, rtol=0, atol=0.01), "pipeline-atlas", lamp=lamp, bad=np.nanmax(np.abs(tw - seen)))
    p = dict(sg=sg, peaks=peaks, true_px=px, true_wl=tw, det_px=det, tol=0.5)
    return p, c, dict(max_tries=400, fit_deg=2), "poly"


def slope_window(ctx, rng):
    """Every straight dispersion through the stated ends is inside the slope window."""
    from rascal.calibrator import Calibrator

    n = int(rng.integers(50, 3000))
    lo = float(rng.uniform(1000, 9000))
    hi = lo + float(rng.uniform(300, 9000))
    rt = float(rng.uniform(0, 600))
    c = Calibrator(np.sort(rng.uniform(0, n, 5)))
    pl = dict(num_pix=n)
    ends = (0.0, n - 1.0)
    if rng.random() < 0.3:
        a = rng.integers(0, 500)
        pl["pixel_list"] = np.arange(n) + a
    props = lambda: c.set_calibrator_properties(**pl)
    hough = lambda: c.set_hough_properties(min_wavelength=lo, max_wavelength=hi, range_tolerance=rt)
    for f in ((props, hough) if rng.random() < 0.5 else (hough, props)):
        f()
    w0 = lo + rt * np.r_[-1, 1, -1, 1, rng.uniform(-1, 1, 10)]
    w1 = hi + rt * np.r_[-1, -1, 1, 1, rng.uniform(-1, 1, 10)]
    s = (w1 - w0) / (ends[1] - ends[0])
    e = 1e-9 * max(1, np.abs(s).max())
    ctx.check(np.all((s >= c.min_slope - e) & (s <= c.max_slope + e)), "slope-window", lo=lo, hi=hi, rt=rt, n=n,
              window=[c.min_slope, c.max_slope], slopes=[s.min(), s.max()])


def finalize(ctx, results):
    for m in ORDER:
        rs = [r for r in results if r["data"].get("mode") == m]
        k = sum(r["data"]["ok"] for r in rs)
        if len(rs) < 10:
            continue
        ctx.check(k >= MODES[m] * len(rs), "solved-fraction", mode=m, solved=k, of=len(rs), required=MODES[m])
        ctx.tag("of-" + m, len(rs))
