"""C05: Hough points. Oracle: direct enumeration of slopes x pairs / pairs of points."""
import numpy as np

from rvm import gen

ID = "C05"
LEVEL = "exploration"
RULE = "a transform in which some but not all of the trial lines are admissible, distinct by point set and limits"
ASSUMPTIONS = ["intercepts within 1e-9 relative of a limit are judged only on exactly representable (dyadic) inputs"]
REQUIRED = {"sampled": 250, "sampled-exact": 80, "brute-force": 200, "brute-force-exact": 60, "calibrator": 40, "used-before": 100}
CHUNK = 4


def cases(tier):
    return 8000 if tier == "quick" else 150000


def sort_rows(a, step=None, lo=None):
    a = np.asarray(a, dtype=float).reshape(-1, 2)
    if step:
        k = np.round((a[:, 0] - lo) / step)
    else:
        k = np.array([float("%.10e" % v) for v in a[:, 0]])
    return a[np.lexsort((a[:, 1], k))]


def compare(ctx, mon, got, want, border, scale, step=None, lo=None, **d):
    """want: sure rows; border: rows that may or may not be present."""
    got = np.asarray(got, dtype=float)
    if not ctx.check(got.ndim == 2 and got.shape[1] == 2, "two-columns", shape=got.shape):
        return False
    ctx.check(np.all(np.isfinite(got)), "finite", **d)
    if border:
        # drop border rows from both sides
        b = np.array(border)
        keep = np.ones(len(got), bool)
        for r in b:
            keep &= ~((np.abs(got[:, 0] - r[0]) < 1e-9 * (1 + abs(r[0]))) & (np.abs(got[:, 1] - r[1]) < 1e-7 * scale))
        got = got[keep]
        w = np.asarray(want, float).reshape(-1, 2)
        keep = np.ones(len(w), bool)
        for r in b:
            keep &= ~((np.abs(w[:, 0] - r[0]) < 1e-9 * (1 + abs(r[0]))) & (np.abs(w[:, 1] - r[1]) < 1e-7 * scale))
        want = w[keep]
    g, w = sort_rows(got, step, lo), sort_rows(want, step, lo)
    ok = g.shape == w.shape and np.allclose(g, w, rtol=1e-9, atol=1e-9 * scale)
    return ctx.check(ok, mon, found=[len(g), len(w)], g=g[:3], w=w[:3], **d)


def ref_sampled(x, y, lim, n):
    m0, m1, c0, c1 = lim
    slopes = [m0 + (m1 - m0) * k / (n - 1) if n > 1 else m0 for k in range(n)]
    if n > 1:
        slopes[-1] = m1
    rows, border = [], []
    eps = 1e-9 * max(abs(c0), abs(c1), 1)
    for m in slopes:
        c = y - m * x
        for v in c:
            if min(abs(v - c0), abs(v - c1)) < eps:
                border.append((m, v))
            if c0 <= v <= c1:
                rows.append((m, v))
    return rows, border


def ref_brute(x, y, lim):
    m0, m1, c0, c1 = lim
    rows, border = [], []
    for i in range(len(x)):
        for j in range(i + 1, len(x)):
            if x[i] == x[j]:
                continue
            m = (y[j] - y[i]) / (x[j] - x[i])
            c = y[i] - m * x[i]
            near = min(abs(m - m0), abs(m - m1)) < 1e-10 * (1 + abs(m)) or min(abs(c - c0), abs(c - c1)) < 1e-9 * (1 + abs(c))
            if near:
                border.append((m, c))
            if m0 < m < m1 and c0 < c < c1:
                rows.append((m, c))
    return rows, border


def run(ctx, rng, i):
    from rascal.houghtransform import HoughTransform

    kind = int(rng.integers(0, 5))
    n = int(rng.choice([1, 2, 3, 8, 30, 80]))
    exact = kind in (1, 3)
    if exact:
        x = rng.integers(0, 64, n).astype(float)
        y = 4000.0 + rng.integers(0, 256, n)
        lim = (0.5 * int(rng.integers(0, 4)), 0.5 * int(rng.integers(4, 9)), 3900.0 + rng.integers(0, 100), 4000.0 + rng.integers(0, 200))
        ns = int(rng.choice([2, 3, 5, 9, 17]))
        if (lim[1] - lim[0]) / (ns - 1) * 4096 % 1:
            ns = 2
    else:
        x = rng.uniform(0, 2000, n)
        y = rng.uniform(3000, 9000, n)
        m0 = rng.uniform(-1, 3)
        c0 = rng.uniform(1000, 5000)
        lim = (m0, m0 + rng.uniform(0, 4), c0, c0 + rng.uniform(0, 3000))
        ns = int(rng.choice([1, 2, 10, 101, 500]))
        if rng.random() < 0.3:
            x = np.round(x / 50) * 50  # repeated pixels
        if rng.random() < 0.2:
            x = np.sort(x)
    dt = rng.random()
    if dt < 0.2 and exact:
        x, y = x.astype(int), y.astype(int)
    x0, y0 = x.copy(), y.copy()
    xf, yf = x.astype(float), y.astype(float)
    scale = max(abs(lim[2]), abs(lim[3]), 1)
    ht = HoughTransform()
    used = rng.random() < 0.4
    if used:
        # the object has served another purpose
        q = rng.random()
        ht.set_constraints(*(lim if q < 0.3 else (lim[0] - 0.5, lim[1] + 0.25, lim[2] - 100.0, lim[3] + 50.0)))
        xo, yo = (x, y) if rng.random() < 0.5 else (x + 1, y + 3)
        if rng.random() < 0.6:
            ht.generate_hough_points(xo, yo, ns if rng.random() < 0.6 else ns + 3)
        elif n >= 2:
            ht.generate_hough_points_brute_force(xo, yo)
        if rng.random() < 0.5 and ht.hough_points is not None and len(ht.hough_points):
            ht.bin_hough_points(7, 5)
        ctx.counts["used-before"] += 1
    ht.set_constraints(*lim)
    d = dict(used=bool(used), n=n, limits=lim, num_slopes=ns, x=x[:5], y=y[:5], kind=kind)
    if kind in (0, 1):
        ht.generate_hough_points(x, y, ns)
        rows, border = ref_sampled(xf, yf, lim, ns)
        step = (lim[1] - lim[0]) / (ns - 1) if ns > 1 else 1.0
        ok = compare(ctx, "sampled", ht.hough_points, rows, [] if exact else border, scale, step or 1.0, lim[0], **d)
        if exact:
            ctx.check(ok, "sampled-exact", **d)
        ctx.case(0 < len(rows) < ns * n, **d)
        ctx.tag("points", len(rows))
        total = ns * n
    elif kind in (2, 3) and n >= 2:
        ht.generate_hough_points_brute_force(x, y)
        rows, border = ref_brute(xf, yf, lim)
        # slopes formed by division are not exact: keep the border only when the arithmetic is
        ok = compare(ctx, "brute-force", ht.hough_points, rows, border if not exact else [b for b in border if not float(b[0] * 64).is_integer()], scale, **d)
        if exact:
            ctx.check(ok, "brute-force-exact", **d)
        perm = rng.permutation(n)
        h2 = HoughTransform()
        h2.set_constraints(*lim)
        h2.generate_hough_points_brute_force(x[perm], y[perm])
        compare(ctx, "order-independent", h2.hough_points, rows, border if not exact else [b for b in border if not float(b[0] * 64).is_integer()], scale, **d)
        ctx.case(0 < len(rows) < n * (n - 1) / 2, **d)
        ctx.tag("points", len(rows))
        ctx.tag("equal-pixel-pairs", int(sum((x[:, None] == x[None, :]).sum() - n for _ in [0]) // 2))
    else:
        # through a calibrator: the limits are the calibrator's, the points its pairs
        p = gen.problem(rng, n=int(rng.integers(4, 9)))
        brute = bool(rng.random() < 0.4)
        c = gen.calibrator(p, hough=dict(num_slopes=int(rng.choice([2, 50, 200])), xbins=20, ybins=20), constrain=bool(rng.random() < 0.3))
        if len(c.pairs) < 2:
            return
        if rng.random() < 0.5:
            # not the first transform of this calibrator
            c.do_hough_transform(brute_force=bool(rng.random() < 0.5))
            q = rng.random()
            if q < 0.4:
                c.set_hough_properties(num_slopes=int(rng.choice([3, 60])), range_tolerance=p["rt"] * float(rng.uniform(0.8, 2)))
            elif q < 0.7:
                c.add_user_atlas(["Y"], [float(rng.uniform(p["min_w"], p["max_w"]))])
            if len(c.pairs) < 2:
                return
        c.do_hough_transform(brute_force=brute)
        lim = (c.min_slope, c.max_slope, c.min_intercept, c.max_intercept)
        f = ref_brute if brute else ref_sampled
        rows, border = f(c.pairs[:, 0], c.pairs[:, 1], lim, *(() if brute else (c.num_slopes,)))
        step = None if brute else (lim[1] - lim[0]) / (c.num_slopes - 1)
        compare(ctx, "calibrator", c.hough_points, rows, border, scale, step, lim[0], brute=brute)
        ctx.check(np.array_equal(c.hough_points, c.ht.hough_points), "calibrator-in-step")
        ctx.case(len(rows) > 0, through="calibrator", brute=brute, pairs=len(c.pairs), limits=lim)
        return
    ctx.check(np.array_equal(x, x0) and np.array_equal(y, y0), "inputs-kept", **d)
    hp = np.asarray(ht.hough_points)
    if len(hp):
        tol = 1e-9 * scale
        ctx.check(hp[:, 1].min() >= lim[2] - tol and hp[:, 1].max() <= lim[3] + tol and hp[:, 0].min() >= lim[0] - 1e-9 and hp[:, 0].max() <= lim[1] + 1e-9,
                  "inside-limits", **d)
    if i % 10 == 0:
        ok4 = [1.0, 2.0, 3.0, 4.0]
        k = int(rng.integers(0, 4))
        before = (ht.min_slope, ht.max_slope, ht.min_intercept, ht.max_intercept)
        ok4[k] = float(rng.choice([np.nan, np.inf, -np.inf]))
        ctx.raises("non-finite-limits-rejected", ht.set_constraints, *ok4)
        ctx.check(before == (ht.min_slope, ht.max_slope, ht.min_intercept, ht.max_intercept), "non-finite-limits-rejected", what="changed")
