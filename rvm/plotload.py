"""Fitted calibrators to plot, snapshots of their state, and readers of the figures' data."""
import copy
import json
import random

import numpy as np

from rvm import gen

STATE = (
    "peaks spectrum pairs pixel_list num_pix matched_peaks matched_atlas fit_coeff rms residual peak_utilisation atlas_utilisation "
    "candidates candidate_peak candidate_arc hough_lines hough_points num_slopes xbins ybins min_wavelength max_wavelength "
    "range_tolerance linearity_tolerance min_intercept max_intercept min_slope max_slope sample_size top_n_candidate linear "
    "filter_close ransac_tolerance candidate_weighted hough_weight minimum_matches minimum_peak_utilisation minimum_fit_error "
    "pix_known wave_known constrain_poly candidate_tolerance fit_deg fit_type max_tries plot_with_matplotlib plot_with_plotly plotting_library"
).split()


def freeze(o):
    """A comparable deep value."""
    if isinstance(o, np.ndarray):
        return ("nd", o.shape, o.dtype.str, tuple(freeze(v) for v in o.tolist()) if o.dtype == object else o.tobytes())
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, tuple(freeze(v) for v in o))
    if isinstance(o, dict):
        return ("dict", tuple(sorted((str(k), freeze(v)) for k, v in o.items())))
    if isinstance(o, float):
        return ("f", repr(o))
    if isinstance(o, np.generic):
        return ("g", o.dtype.str, o.tobytes())
    return (type(o).__name__, repr(o))


def snapshot(c):
    s = {k: freeze(getattr(c, k)) for k in STATE if hasattr(c, k)}
    if c.atlas is not None:
        s["atlas"] = freeze([list(c.atlas.get_lines()), list(c.atlas.get_elements()), list(c.atlas.get_intensities())])
    if hasattr(c, "fit_coeff") and c.fit_coeff is not None:
        s["basis"] = freeze(np.asarray(c.polyval(np.linspace(0, 10, 4), np.asarray(c.fit_coeff, float))))
    for k in ("hough_points", "hist", "xedges", "yedges", "min_slope", "max_slope", "min_intercept", "max_intercept", "hough_lines"):
        if hasattr(c.ht, k):
            s["ht." + k] = freeze(getattr(c.ht, k))
    return s


def changed(a, b):
    return sorted(k for k in set(a) | set(b) if a.get(k) != b.get(k))


def rng_state():
    return freeze([list(np.random.get_state()), list(random.getstate())])


def fitted(rng, spectrum="any", gap=None, quick=True, fit_kw=None):
    """(calibrator, problem) after a successful fit; None if unlucky three times."""
    for _ in range(3):
        p = gen.problem(rng, n=int(rng.integers(10, 20)), deg=int(rng.integers(1, 3)), rt=50.0, npix=int(rng.integers(300, 900)),
                        spurious=int(rng.integers(0, 3)))
        sg = p["sg"]
        p["min_w"] = float(sg.wave(0) + rng.uniform(-20, 20))
        p["max_w"] = float(sg.wave(sg.npix - 1) + rng.uniform(-20, 20))
        s = gen.spectrum_of(p, rng)
        props = {}
        if gap or (gap is None and rng.random() < 0.3):
            a, b = int(sg.npix * 0.45), int(sg.npix * 0.55)
            props["pixel_list"] = np.r_[np.arange(a), np.arange(b, sg.npix)]
            # the sub-pixel position next to the gap has no raw pixel of its own
            p["peaks"] = p["peaks"][(p["peaks"] < a - 1) | (p["peaks"] >= b)]
            s = s[props["pixel_list"]]
        kind = spectrum
        if kind == "any":
            kind = str(rng.choice(["array", "list", "int", "none", "negative"], p=[0.4, 0.2, 0.15, 0.1, 0.15]))
        if kind == "list":
            s = [float(v) for v in s]
        elif kind == "int":
            s = s.astype(int)
        elif kind == "negative":
            s = s - 15.0
        elif kind == "none":
            s = None
        if rng.random() < 0.2:
            p["peaks"] = list(p["peaks"])
        c = make(rng, p, s, props)
        r = gen.fit(c, max_tries=40, fit_deg=int(rng.integers(2, 4)), **(fit_kw or {}))
        if r is not None and len(r[1]) >= 5:
            p["spectrum"], p["kind"], p["gap"] = s, kind, bool(props)
            return c, p
    return None


def make(rng, p, s, props):
    return gen.calibrator(p, spectrum=s, hough=dict(num_slopes=200, xbins=30, ybins=30),
                          ransac=dict(top_n_candidate=int(rng.integers(1, 6))), seed=int(rng.integers(0, 2**31)),
                          constrain=bool(rng.random() < 0.3), **props)


# -- reading figures ---------------------------------------------------------------------------
def close_all():
    import matplotlib.pyplot as plt

    plt.close("all")


def mpl_curves(fig):
    """Every (x, y) drawn as a line."""
    return [(np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float)) for ax in fig.axes for l in ax.get_lines()]


def mpl_points(fig):
    """Every set of markers."""
    from matplotlib.collections import PathCollection

    out = []
    for ax in fig.axes:
        for c in ax.collections:
            if isinstance(c, PathCollection):
                o = np.ma.filled(np.ma.asarray(c.get_offsets(), float), np.nan)
                out.append((o[:, 0], o[:, 1]))
        for l in ax.get_lines():
            if str(l.get_linestyle()).lower() in ("none", "", " "):
                out.append((np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float)))
    return out


def segments(x, y):
    """The pieces of a line that is interrupted by gaps."""
    x, y = (np.asarray(v, float) for v in (x, y))
    if x.shape != y.shape or x.ndim != 1:
        return []
    gap = np.isnan(x) | np.isnan(y)
    out, start = [], 0
    for k in list(np.flatnonzero(gap)) + [len(x)]:
        if k > start:
            out.append((x[start:k], y[start:k]))
        start = k + 1
    return out


def upright(x, y):
    """x positions of a line that consists of vertical segments only."""
    s = segments(x, y)
    if s and all(len(a) == 2 and a[0] == a[1] and b[0] != b[1] for a, b in s):
        return [float(a[0]) for a, b in s]
    return []


def mpl_vlines(fig):
    """x positions of vertical segments, per collection."""
    from matplotlib.collections import LineCollection

    out = []
    for ax in fig.axes:
        for c in ax.collections:
            if isinstance(c, LineCollection):
                xs = [float(s[0][0]) for s in c.get_segments() if len(s) == 2 and s[0][0] == s[1][0] and s[0][1] != s[1][1]]
                if xs:
                    out.append(np.array(xs))
        for l in ax.get_lines():
            xs = upright(l.get_xdata(), l.get_ydata())
            if xs:
                out.append(np.array(xs))
    return out


def drawn_at(vlines, want, *others):
    """One group of vertical lines is at the wanted places, or all of them are at these and the others'."""
    if any(same_values(v, want) for v in vlines):
        return True
    al = np.concatenate(vlines) if len(vlines) else np.zeros(0)
    return same_values(al, np.concatenate([np.asarray(v, float) for v in (want,) + others]))


def mpl_hlines(fig):
    from matplotlib.collections import LineCollection

    out = []
    for ax in fig.axes:
        for c in ax.collections:
            if isinstance(c, LineCollection):
                out += [float(s[0][1]) for s in c.get_segments() if len(s) == 2 and s[0][1] == s[1][1]]
        for l in ax.get_lines():
            y = np.asarray(l.get_ydata(), float)
            if len(y) == 2 and y[0] == y[1]:
                out.append(float(y[0]))
    return out


def num(a):
    """plotly JSON arrays, which may be base64 encoded."""
    if isinstance(a, dict) and "bdata" in a:
        import base64

        return np.frombuffer(base64.b64decode(a["bdata"]), dtype=a["dtype"]).astype(float)
    return np.array([np.nan if v is None else v for v in (a or [])], float)


def plotly_traces(js):
    """[(mode, x, y)] of a figure's JSON."""
    d = json.loads(js)
    return [(t.get("mode", ""), num(t.get("x")), num(t.get("y"))) for t in d["data"]]


def plotly_vlines(js):
    d = json.loads(js)
    xs = [float(s["x0"]) for s in d["layout"].get("shapes", []) if s.get("type") == "line" and s["x0"] == s["x1"]]
    for mode, x, y in plotly_traces(js):
        xs += upright(x, y)
    return np.array(xs)


def same_curve(got, want, tol=1e-9):
    gx, gy = got
    wx, wy = (np.asarray(v, float) for v in want)
    if gx.shape != wx.shape or gy.shape != wy.shape:
        return False
    # a wanted nan or infinity is not judged
    f = np.isfinite(wy)
    s = 1e-9 + tol * max(1.0, np.abs(wx).max() if len(wx) else 1, np.abs(wy[f]).max() if f.any() else 1)
    return bool(np.allclose(gx, wx, rtol=0, atol=s) and np.allclose(gy[f], wy[f], rtol=0, atol=s))


def same_set(got, want, tol=1e-9):
    """Equal as multisets of points."""
    gx, gy = got
    if len(gx) != len(gy):
        return False
    g = np.column_stack([np.asarray(gx, float), np.asarray(gy, float)])
    w = np.column_stack([np.asarray(v, float) for v in want])
    if g.shape != w.shape:
        return False
    if not len(g):
        return True
    o = lambda a: a[np.lexsort((np.round(a[:, 1], 6), np.round(a[:, 0], 6)))]
    s = 1e-6 + tol * max(1.0, np.abs(w).max())
    return bool(np.allclose(o(g), o(w), rtol=0, atol=s))


def same_values(got, want, tol=1e-9):
    g, w = np.sort(np.asarray(got, float)), np.sort(np.asarray(want, float))
    return g.shape == w.shape and bool(np.allclose(g, w, rtol=0, atol=1e-6 + tol * (np.abs(w).max() if len(w) else 1)))
