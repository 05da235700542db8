"""Generators of spectrographs, spectra and calibrators (the workloads)."""
import numpy as np

ELEMENTS = ["He", "Ne", "Ar", "Kr", "Xe", "Hg", "Cu", "Cd", "Zn", "Na", "Fe", "Th", "Li", "H"]


class Spectrograph:
    """A dispersion lam(x) on a detector: linear term plus Chebyshev non-linearity."""

    def __init__(self, rng, npix=None, lo=None, span=None, deg=None, nl=(60.0, 20.0, 8.0)):
        self.npix = int(npix if npix is not None else rng.integers(400, 2100))
        self.lo = float(lo if lo is not None else rng.uniform(3000, 6000))
        self.span = float(span if span is not None else rng.uniform(1500, 5000))
        self.deg = int(deg if deg is not None else rng.integers(1, 5))
        c = np.zeros(5)
        for k in range(2, self.deg + 1):
            c[k] = rng.uniform(-1, 1) * nl[k - 2]
        self.c = c

    def wave(self, x):
        u = 2 * np.asarray(x, dtype=float) / (self.npix - 1) - 1
        return self.lo + self.span * (u + 1) / 2 + np.polynomial.chebyshev.chebval(u, self.c)

    def pixel(self, w):
        x = np.arange(self.npix, dtype=float)
        y = np.interp(w, self.wave(x), x)
        for _ in range(30):  # Newton
            d = (self.wave(y + 0.5) - self.wave(y - 0.5))
            y = y - (self.wave(y) - w) / d
        return y

    def monotonic(self, margin=0.25):
        m = margin * self.npix
        w = self.wave(np.arange(-m, self.npix + m))
        return bool(np.all(np.diff(w) > 0))

    def coeff(self):
        """Power-basis coefficients, lowest order first."""
        x = np.linspace(0, self.npix - 1, 50)
        p = np.polynomial.Polynomial.fit(x, self.wave(x), self.deg)
        return p.convert().coef


def lines(rng, sg, n, min_sep_frac=1 / 80.0, edge=0.0):
    w0, w1 = sg.wave(0), sg.wave(sg.npix - 1)
    d = (w1 - w0)
    out = []
    tries = 0
    while len(out) < n and tries < 20000:
        tries += 1
        c = rng.uniform(w0 + edge * d, w1 - edge * d)
        if all(abs(c - o) > sg.span * min_sep_frac for o in out):
            out.append(c)
    return np.sort(out)


def problem(rng, n=None, keep=0.9, spurious=None, extra=None, noise=0.1, tol=5.0, sg=None, rt=100.0, **kw):
    """A synthetic arc: peaks, atlas lines and truth."""
    sg = sg or Spectrograph(rng, **kw)
    n = int(n if n is not None else rng.integers(15, 30))
    true = lines(rng, sg, n)
    disp = sg.span / sg.npix
    px = sg.pixel(true) + rng.normal(0, noise * min(1.0, tol / disp / 3), len(true))
    seen = rng.random(len(true)) < keep
    if seen.sum() < min(6, len(true)):
        seen[:] = True
    ns = int(rng.integers(0, 4)) if spurious is None else spurious
    ne = int(rng.integers(0, 5)) if extra is None else extra
    peaks = np.concatenate([px[seen], rng.uniform(0, sg.npix - 1, ns)])
    atlas = np.concatenate([true, rng.uniform(sg.lo - rt, sg.lo + sg.span + rt, ne)])
    return {
        "sg": sg,
        "peaks": np.unique(peaks),
        "atlas": np.sort(atlas),
        "true_px": px[seen],
        "true_wl": true[seen],
        "min_w": sg.lo + rng.uniform(-0.4, 0.4) * rt,
        "max_w": sg.lo + sg.span + rng.uniform(-0.4, 0.4) * rt,
        "rt": rt,
        "tol": tol,
    }


def calibrator(p, seed=None, spectrum=None, hough=None, ransac=None, cand_tol=10.0, constrain=False, **props):
    from rascal.atlas import Atlas
    from rascal.calibrator import Calibrator

    c = Calibrator(p["peaks"], spectrum) if spectrum is not None else Calibrator(p["peaks"])
    c.set_calibrator_properties(num_pix=p["sg"].npix, seed=seed, **props)
    h = dict(
        num_slopes=500,
        xbins=60,
        ybins=60,
        min_wavelength=p["min_w"],
        max_wavelength=p["max_w"],
        range_tolerance=p["rt"],
        linearity_tolerance=100.0,
    )
    h.update(hough or {})
    c.set_hough_properties(**h)
    r = dict(sample_size=5, top_n_candidate=5, filter_close=False, ransac_tolerance=p["tol"], minimum_fit_error=1e-9)
    r.update(ransac or {})
    c.set_ransac_properties(**r)
    a = Atlas()
    a.add_user_atlas(["X"] * len(p["atlas"]), list(p["atlas"]))
    c.set_atlas(a, candidate_tolerance=cand_tol, constrain_poly=constrain)
    return c


def spectrum_of(p, rng, sigma=2.0, noise=0.002, scale=1000.0):
    x = np.arange(p["sg"].npix)
    s = np.zeros(len(x))
    for q in p["peaks"]:
        s += rng.uniform(0.3, 1.0) * np.exp(-0.5 * ((x - q) / sigma) ** 2)
    return scale * (s + noise * rng.random(len(x)) + 0.01)


def fit(c, **kw):
    """Run a fit; None if it raises the documented failure."""
    k = dict(max_tries=100, progress=False, candidate_tolerance=10.0, fit_deg=3)
    k.update(kw)
    try:
        return c.fit(**lean(k, FIT))
    except AssertionError as e:
        if "Couldn't fit" in str(e):
            return None
        raise


# documented defaults
FIT = dict(max_tries=500, fit_deg=4, fit_coeff=None, fit_tolerance=5.0, fit_type="poly", candidate_tolerance=2.0, brute_force=False)


def lean(kw, defaults):
    """Without the arguments that have their documented default anyway."""
    return {k: v for k, v in kw.items() if not (k in defaults and isinstance(v, (int, float, str, type(None))) and v == defaults[k])}


def spare(rng, kw, **defaults):
    """Leave out arguments that have their documented default anyway."""
    out = {}
    for k, v in kw.items():
        d = defaults.get(k, spare)
        same = d is not spare and (v is d or (isinstance(v, (int, float)) and isinstance(d, (int, float)) and v == d))
        if not (same and rng.random() < 0.6):
            out[k] = v
    return out
