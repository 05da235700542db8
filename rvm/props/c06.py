"""C06: binning and ranking of the Hough space. Oracle: own bin counts; conservation."""
import numpy as np

from rvm import gen

ID = "C06"
LEVEL = "exploration"
RULE = "a binned transform with at least two different non-zero counts, distinct by its history of add and bin calls"
ASSUMPTIONS = ["the order of equally populated bins is not judged"]
REQUIRED = {"conservation": 400, "counts": 400, "one-line-per-bin": 400, "ranking": 400, "add": 150}
CHUNK = 4


def cases(tier):
    return 3500 if tier == "quick" else 60000


def audit(ctx, ht, xb, yb, **d):
    pts = np.asarray(ht.hough_points, float)
    h, xe, ye = np.asarray(ht.hist), np.asarray(ht.xedges, float), np.asarray(ht.yedges, float)
    if not ctx.check(h.shape == (xb, yb) and xe.shape == (xb + 1,) and ye.shape == (yb + 1,), "bin-number", shape=h.shape, **d):
        return
    ctx.check(h.sum() == len(pts), "conservation", total=h.sum(), points=len(pts), **d)
    ix = np.clip(np.searchsorted(xe, pts[:, 0], side="right") - 1, 0, xb - 1)
    iy = np.clip(np.searchsorted(ye, pts[:, 1], side="right") - 1, 0, yb - 1)
    want = np.zeros((xb, yb))
    np.add.at(want, (ix, iy), 1)
    ctx.check(np.array_equal(want, h), "counts", worst=float(np.abs(want - h).max()), **d)
    if len(pts):
        ctx.check(np.all(np.diff(xe) > 0) and np.all(np.diff(ye) > 0) and pts[:, 0].min() >= xe[0] and pts[:, 0].max() <= xe[-1]
                  and pts[:, 1].min() >= ye[0] and pts[:, 1].max() <= ye[-1], "edges-enclose", **d)
    lines = np.asarray(ht.hough_lines, float)
    if not ctx.check(lines.shape == (xb * yb, 2), "one-line-per-bin", shape=lines.shape, **d):
        return
    wx, wy = np.diff(xe), np.diff(ye)
    i = np.clip(np.searchsorted(xe, lines[:, 0], side="right") - 1, 0, xb - 1)
    j = np.clip(np.searchsorted(ye, lines[:, 1], side="right") - 1, 0, yb - 1)
    fx = np.abs(lines[:, 0] - (xe[i] + xe[i + 1]) / 2) / wx[i]
    fy = np.abs(lines[:, 1] - (ye[j] + ye[j + 1]) / 2) / wy[j]
    # very narrow bins far from zero lose digits
    tol = 1e-6 + 1e-12 * (np.abs(lines[:, 0]) / wx[i] + np.abs(lines[:, 1]) / wy[j])
    ctx.check(np.all(fx < tol) and np.all(fy < tol), "bin-centres", worst=[float(fx.max()), float(fy.max())], **d)
    ctx.check(len(set(zip(i.tolist(), j.tolist()))) == xb * yb, "one-line-per-bin", **d)
    c = h[i, j]
    ctx.check(np.all(np.diff(c) <= 0), "ranking", **d)
    return len(set(c[c > 0].tolist())) > 1


def run(ctx, rng, i):
    from rascal.houghtransform import HoughTransform

    if i % 10 == 0:
        p = gen.problem(rng, n=8)
        xb, yb = int(rng.integers(2, 60)), int(rng.integers(2, 60))
        c = gen.calibrator(p, hough=dict(num_slopes=100, xbins=xb, ybins=yb))
        c.do_hough_transform(brute_force=bool(rng.random() < 0.3))
        nt = audit(ctx, c.ht, xb, yb, through="calibrator")
        ctx.check(np.array_equal(np.asarray(c.hough_lines), np.asarray(c.ht.hough_lines)) and np.array_equal(c.hough_points, c.ht.hough_points), "calibrator-in-step")
        ctx.case(nt, through="calibrator", xb=xb, yb=yb, n=len(c.hough_points), lim=[c.min_slope, c.max_intercept])
        return

    def cloud(m):
        k = rng.random()
        a = np.column_stack((rng.normal(2, 0.3, m), rng.normal(4000, 100, m)))
        if k < 0.3:
            a = np.column_stack((rng.integers(0, 8, m) / 4.0, 4000.0 + rng.integers(0, 8, m)))  # on bin edges
        elif k < 0.4:
            a[:] = a[:1]  # a single place
        return a

    ht = HoughTransform()
    start = rng.random()
    if start < 0.5:
        ht.set_constraints(0.0, 5.0, 3000.0, 5000.0)
        ht.generate_hough_points(rng.uniform(0, 500, 8), rng.uniform(3500, 5500, 8), int(rng.integers(2, 60)))
    else:
        ht.hough_points = cloud(int(rng.choice([1, 2, 20, 500])))
    ops, nt = [len(ht.hough_points)], False
    if len(ht.hough_points) == 0:
        return
    for _ in range(int(rng.integers(1, 6))):
        if rng.random() < 0.45:
            old = ht.hough_points.copy()
            new = cloud(int(rng.choice([0, 1, 3, 50, 300])) or 1)
            src = new.copy()
            if rng.random() < 0.5:
                o = HoughTransform()
                o.hough_points = src
                ht.add_hough_points(o)
                ops.append(["add-ht", len(new)])
            else:
                ht.add_hough_points(src)
                ops.append(["add", len(new)])
            ctx.check(np.array_equal(src, new), "add", what="argument changed")
            got = np.asarray(ht.hough_points)
            ctx.check(got.shape == (len(old) + len(new), 2) and np.array_equal(got[: len(old)], old) and np.array_equal(got[len(old):], new), "add", ops=ops)
        else:
            xb, yb = int(rng.choice([1, 2, 5, 10, 33, 80])), int(rng.choice([1, 2, 7, 10, 40]))
            before = ht.hough_points.copy()
            ht.bin_hough_points(xb, yb)
            ops.append(["bin", xb, yb])
            ctx.check(np.array_equal(before, ht.hough_points), "points-kept", ops=ops)
            nt = bool(audit(ctx, ht, xb, yb, ops=ops)) or nt
    ctx.raises("bad-type-rejected", ht.add_hough_points, [[1.0, 2.0]], exc=TypeError)
    ctx.case(nt, ops=ops, first=ht.hough_points[0])
