"""C22: settings. Monitor: shadow settings compared after every setter call, and their effect on what is computed next."""
import numpy as np

from rvm import fitload, gen
from rvm.props.c21 import Trials

ID = "C22"
LEVEL = "exploration"
RULE = "a history of at least four setter calls that changed at least three settings, distinct by history"
ASSUMPTIONS = [
    "defaults are those of the documentation where the code agrees with it, else those of a fresh calibrator",
    "logging settings are not judged",
]
REQUIRED = {"settings": 3000, "pixel-list": 3000, "intercept-limits": 3000, "slope-limits": 3000, "plotting-library": 3000, "defaults": 300,
            "transform-follows": 100, "fit-follows": 40}
CHUNK = 8
CASE_SECONDS = 60

HOUGH = "num_slopes xbins ybins min_wavelength max_wavelength range_tolerance linearity_tolerance".split()
RANSAC = ("sample_size top_n_candidate linear filter_close ransac_tolerance candidate_weighted hough_weight minimum_matches "
          "minimum_peak_utilisation minimum_fit_error").split()
DOCUMENTED = dict(min_wavelength=3000, max_wavelength=9000, range_tolerance=500, linearity_tolerance=100, sample_size=5, top_n_candidate=5,
                  linear=True, filter_close=False, candidate_weighted=True, hough_weight=1.0, minimum_matches=0, minimum_peak_utilisation=0,
                  minimum_fit_error=1e-4)


def cases(tier):
    return 6000 if tier == "quick" else 40000


def value(rng, k):
    r = rng.random
    return {
        "num_slopes": lambda: int(rng.integers(10, 300)) if r() < 0.8 else float(rng.integers(10, 300)),
        "xbins": lambda: int(rng.integers(4, 60)),
        "ybins": lambda: int(rng.integers(4, 60)),
        "min_wavelength": lambda: float(rng.uniform(0, 5000)) if r() < 0.8 else int(rng.integers(0, 5000)),
        "max_wavelength": lambda: float(rng.uniform(6000, 11000)) if r() < 0.8 else int(rng.integers(6000, 11000)),
        "range_tolerance": lambda: float(rng.choice([0.0, 50.0, 137.5, 500.0])) if r() < 0.8 else 0,
        "linearity_tolerance": lambda: float(rng.choice([0.0, 20.0, 111.0, 300.0])) if r() < 0.8 else 0,
        "sample_size": lambda: int(rng.integers(1, 9)),
        "top_n_candidate": lambda: int(rng.integers(1, 9)),
        "linear": lambda: bool(r() < 0.5),
        "filter_close": lambda: bool(r() < 0.5),
        "ransac_tolerance": lambda: float(rng.choice([0.5, 1.0, 2.0, 7.0])),
        "candidate_weighted": lambda: bool(r() < 0.5),
        "hough_weight": lambda: float(rng.choice([0.0, 0.5, 1.0, 10.0])) if r() < 0.7 else 0,
        "minimum_matches": lambda: int(rng.integers(1, 12)),
        "minimum_peak_utilisation": lambda: float(rng.choice([0.0, 0.3, 1.0])) if r() < 0.7 else 0,
        "minimum_fit_error": lambda: float(rng.choice([0.0, 1e-9, 1e-3, 0.1])) if r() < 0.7 else 0,
    }[k]()


def run(ctx, rng, i):
    from rascal.atlas import Atlas
    from rascal.calibrator import Calibrator

    if i % 20 == 7:
        return fit_follows(ctx, rng, i)
    n = int(rng.integers(100, 1500))
    peaks = np.sort(rng.uniform(5, n - 5, int(rng.integers(3, 9))))
    spec = None
    if rng.random() < 0.5:
        spec = rng.random(n) if rng.random() < 0.7 else list(rng.random(n))
    c = Calibrator(peaks, spec) if spec is not None else Calibrator(peaks)
    fresh = Calibrator(np.array([10.0, 500.0, 700.0]))
    sh = {k: getattr(fresh, k) for k in HOUGH + RANSAC}
    for k, v in DOCUMENTED.items():
        ctx.check(getattr(c, k) == v, "defaults", setting=k, got=getattr(c, k), documented=v)
    lib = "matplotlib"
    ctx.check(c.which_plotting_library() == lib, "defaults", got=c.which_plotting_library())
    npix, supplied = (n if spec is not None else None), None
    ctx.check(spec is None or c.num_pix == n, "defaults", num_pix=c.num_pix, spectrum=n)
    ctx.check(np.max(peaks) <= np.max(c.pixel_list) + 1, "defaults", pixel_list=np.max(c.pixel_list), peaks=peaks)
    ops, touched = [], set()

    def audit():
        d = dict(ops=ops[-8:])
        bad = {k: [getattr(c, k), sh[k]] for k in HOUGH + RANSAC if not (getattr(c, k) == sh[k])}
        ctx.check(not bad, "settings", bad=bad, **d)
        pl = np.asarray(c.pixel_list)
        if supplied is not None:
            ctx.check(np.array_equal(pl, supplied), "pixel-list", got=pl, want=supplied, **d)
        elif npix is not None:
            ctx.check(np.array_equal(pl, np.arange(npix)), "pixel-list", got=pl, want=npix, **d)
        ctx.check(npix is None or c.num_pix == npix, "pixel-list", got=c.num_pix, want=npix, **d)
        w0, w1, rt, lt = (sh[k] for k in ("min_wavelength", "max_wavelength", "range_tolerance", "linearity_tolerance"))
        ctx.check(np.isclose(c.min_intercept, w0 - rt, atol=1e-9) and np.isclose(c.max_intercept, w0 + rt, atol=1e-9), "intercept-limits",
                  got=[c.min_intercept, c.max_intercept], want=[w0 - rt, w0 + rt], **d)
        span = float(np.max(pl) - np.min(pl))
        want = [((w1 - w0) - 2 * (rt + lt)) / span, ((w1 - w0) + 2 * (rt + lt)) / span]
        ctx.check(np.allclose([c.min_slope, c.max_slope], want, rtol=1e-9, atol=1e-12), "slope-limits", got=[c.min_slope, c.max_slope], want=want, **d)
        ctx.check(c.which_plotting_library() == lib, "plotting-library", got=c.which_plotting_library(), want=lib, **d)

    audit()
    for _ in range(int(rng.integers(3, 12))):
        op = str(rng.choice(["calibrator", "hough", "ransac", "library", "atlas", "known"], p=[0.28, 0.28, 0.24, 0.1, 0.06, 0.04]))
        if op == "calibrator":
            kw = {}
            if rng.random() < 0.5:
                npix = kw["num_pix"] = int(rng.integers(int(peaks.max()) + 2, 2000))
            if rng.random() < 0.25:
                m = int(rng.integers(int(peaks.max()) + 2, 2000))
                v = np.arange(m) + int(rng.integers(0, 3))
                if rng.random() < 0.5:
                    v = np.delete(v, slice(m // 3, m // 2))
                q = rng.random()
                if q < 0.3:
                    # two detectors, the second one first
                    v = np.r_[v[m // 3 :], v[: m // 3]]
                elif q < 0.4:
                    v = v[::-1].copy()
                kw["pixel_list"] = v if rng.random() < 0.5 else [int(q) for q in v]
                supplied = np.array(v)
            if rng.random() < 0.3:
                lib = kw["plotting_library"] = str(rng.choice(["matplotlib", "plotly"]))
            if rng.random() < 0.2:
                kw["seed"] = int(rng.integers(0, 1000))
            c.set_calibrator_properties(**kw)
            if rng.random() < 0.3 and isinstance(kw.get("pixel_list"), np.ndarray):
                kw["pixel_list"] += 1000
            touched |= set(kw)
            ops.append([op, {k: (v if np.isscalar(v) else "given") for k, v in kw.items()}])
        elif op in ("hough", "ransac"):
            names = HOUGH if op == "hough" else RANSAC
            kw = {k: value(rng, k) for k in names if rng.random() < 0.3}
            if rng.random() < 0.2:
                kw.update({k: None for k in names if k not in kw})
            (c.set_hough_properties if op == "hough" else c.set_ransac_properties)(**kw)
            sh.update({k: (int(v) if k == "num_slopes" else v) for k, v in kw.items() if v is not None})
            touched |= set(k for k in kw if kw[k] is not None)
            ops.append([op, kw])
        elif op == "library":
            lib = str(rng.choice(["matplotlib", "plotly"]))
            (c.use_matplotlib if lib == "matplotlib" else c.use_plotly)()
            touched.add("plotting_library")
            ops.append([op, lib])
        elif op == "atlas":
            a = Atlas()
            a.add_user_atlas(["X"] * 6, [float(v) for v in rng.uniform(3500, 7000, 6)])
            c.set_atlas(a, candidate_tolerance=float(rng.choice([5.0, 20.0])), constrain_poly=bool(rng.random() < 0.3))
            ops.append([op])
        else:
            c.set_known_pairs(100.0, 5000.0)
            ops.append([op])
        audit()
    if i % 10 == 0 and sh["range_tolerance"] > 0 and c.min_slope < c.max_slope:
        transform_follows(ctx, rng, c, peaks, sh, ops)
    ctx.case(len(ops) >= 4 and len(touched) >= 3, ops=ops)


def transform_follows(ctx, rng, c, peaks, sh, ops):
    """The next Hough transform is computed with the settings in force."""
    from rascal.atlas import Atlas

    # one line through the middle of the window for every peak, so that the transform is not empty
    m = (sh["max_wavelength"] - sh["min_wavelength"]) / float(np.ptp(c.pixel_list))
    a = Atlas()
    a.add_user_atlas(["X"] * len(peaks), [float(sh["min_wavelength"] + m * x) for x in peaks])
    c.set_atlas(a)
    c.do_hough_transform()
    pts = np.asarray(c.ht.hough_points, float)
    s = np.unique(pts[:, 0])
    d = dict(ops=ops[-6:], num_slopes=sh["num_slopes"], bins=[sh["xbins"], sh["ybins"]])
    ctx.check(np.asarray(c.ht.hist).shape == (sh["xbins"], sh["ybins"]), "transform-follows", got=np.asarray(c.ht.hist).shape, **d)
    grid = np.linspace(c.min_slope, c.max_slope, sh["num_slopes"])
    tol = 1e-9 * max(1.0, np.abs(grid).max())
    k = np.clip(np.searchsorted(grid, s), 1, len(grid) - 1)
    off = np.minimum(np.abs(grid[k] - s), np.abs(grid[k - 1] - s))
    ctx.check(len(s) and np.all(off < tol), "transform-follows", off=off.max() if len(off) else None, **d)
    ctx.check(np.all((pts[:, 1] >= c.min_intercept - 1e-6) & (pts[:, 1] <= c.max_intercept + 1e-6)), "transform-follows", **d)


def fit_follows(ctx, rng, i):
    """The next fit uses the sampling settings in force."""
    p = gen.problem(rng, n=int(rng.integers(12, 20)), deg=1, spurious=0, extra=int(rng.integers(0, 4)), rt=50.0)
    c = gen.calibrator(p, hough=dict(num_slopes=100, xbins=20, ybins=20))
    hist = []
    for _ in range(int(rng.integers(1, 4))):
        kw = dict(sample_size=int(rng.integers(1, 9)), top_n_candidate=int(rng.integers(1, 6)), ransac_tolerance=float(rng.choice([1.0, 5.0])))
        kw = {k: v for k, v in kw.items() if rng.random() < 0.7}
        c.set_ransac_properties(**kw)
        hist.append(kw)
    size = 5
    topn = 5
    for kw in hist:
        size, topn = kw.get("sample_size", size), kw.get("top_n_candidate", topn)
    had = False
    deg = int(rng.integers(1, 5))
    with Trials() as t:
        r = fitload.attempt(c, had, fit_deg=deg, max_tries=10, candidate_tolerance=10.0)
    d = dict(history=hist, deg=deg)
    np_ = len(set(map(float, c.candidate_peak)))
    want = min(max(min(size, len(c.atlas)), deg + 1), np_)
    ctx.counts["fit-follows"] += 1
    for x, y, w in t.calls:
        if not ctx.check(len(x) == want, "sample-size", got=len(x), want=want, **d):
            break
    by = {}
    for a, b in zip(c.candidate_peak, c.candidate_arc):
        by.setdefault(float(a), []).append(float(b))
    ctx.check(not by or max(len(v) for v in by.values()) <= topn, "top-n", want=topn, got=max((len(v) for v in by.values()), default=0), **d)
    ctx.check(r is None or len(r[0]) == deg + 1, "degree", **d)
    ctx.case(True, **d)
