"""C08: candidate pairs under configuration histories. Oracle: product / quadrilateral of the current settings."""
import numpy as np

from rvm import gen, refs

ID = "C08"
LEVEL = "exploration"
RULE = "a configuration history with an edit after the atlas was set, whose pairs changed at least once"
ASSUMPTIONS = [
    "pairs within 1e-6 Angstrom of a side of the quadrilateral are not judged",
    "an Atlas object edited directly has to be set again before the pairs are judged",
]
REQUIRED = {"pairs": 2000, "set-again": 300, "pairs-constrained": 400, "removed-not-matched": 15}
CHUNK = 4


def cases(tier):
    return 2500 if tier == "quick" else 40000


def expected(c, constrained, ct):
    """(sure pairs, undecided pairs) as rows."""
    pk = np.asarray(c.peaks, float)
    at = np.asarray(c.atlas.get_lines(), float)
    if not len(pk) or not len(at):
        return np.zeros((0, 2)), np.zeros((0, 2))
    P = np.array([(a, b) for a in pk for b in at])
    if not constrained:
        return P, np.zeros((0, 2))
    xm = float(np.max(c.pixel_list))
    lo0, hi0 = c.min_wavelength - c.range_tolerance - ct, c.min_wavelength + c.range_tolerance + ct
    lo1, hi1 = c.max_wavelength - c.range_tolerance - ct, c.max_wavelength + c.range_tolerance + ct
    f = P[:, 0] / xm
    lo, hi = lo0 + f * (lo1 - lo0), hi0 + f * (hi1 - hi0)
    d = np.minimum(P[:, 1] - lo, hi - P[:, 1])
    dx = np.minimum(P[:, 0], xm - P[:, 0])
    inside = (d >= 0) & (dx >= 0)
    border = (np.abs(d) < 1e-5) | (np.abs(dx) < 1e-6)
    return P[inside & ~border], P[border]


def rows(a):
    a = np.asarray(a, float).reshape(-1, 2)
    return a[np.lexsort((a[:, 1], a[:, 0]))]


def audit(ctx, c, constrained, ct, ops):
    got = np.asarray(c.pairs, float)
    if not ctx.check(got.ndim == 2 and got.shape[1] == 2, "pairs-shape", shape=got.shape, ops=ops):
        return False
    sure, border = expected(c, constrained, ct)
    bs = {tuple(b) for b in border}
    g = np.array([r for r in got if tuple(r) not in bs]).reshape(-1, 2)
    g, w = rows(g), rows(sure)
    ok = g.shape == w.shape and np.array_equal(g, w)
    ctx.check(ok, "pairs", ops=ops, found=[len(g), len(w)], constrained=constrained)
    if constrained:
        ctx.check(ok, "pairs-constrained", ops=ops)
    return ok


def run(ctx, rng, i):
    from rascal.atlas import Atlas
    from rascal.calibrator import Calibrator

    if i % 12 == 0:
        return removed_not_matched(ctx, rng, i)
    n = int(rng.choice([1, 3, 8, 20]))
    npix = int(rng.integers(100, 1500))
    peaks = np.sort(rng.uniform(20, npix, n))
    if rng.random() < 0.2:
        peaks = list(peaks)
    c = Calibrator(peaks)
    ops, sizes = [], []
    cons, ct, has, last = False, 10.0, False, None
    wl = lambda k: [float(x) for x in rng.uniform(3200, 6500, k)]
    for step in range(int(rng.integers(3, 11))):
        op = str(rng.choice(["props", "hough", "set", "user", "cat", "remove", "clear", "ransac"], p=[0.12, 0.25, 0.2, 0.12, 0.06, 0.15, 0.05, 0.05]))
        if step == 0 and rng.random() < 0.6:
            op = "set"
        if op == "props":
            if rng.random() < 0.7:
                v = int(rng.integers(100, 1500))
                c.set_calibrator_properties(num_pix=v)
                ops.append(["num_pix", v])
            else:
                o = int(rng.integers(0, 300))
                pl = np.arange(400) + o
                if rng.random() < 0.4:
                    pl = np.r_[pl[150:], pl[:150]]
                c.set_calibrator_properties(num_pix=400, pixel_list=pl)
                ops.append(["pixel_list", o])
        elif op == "hough":
            kw = {}
            if rng.random() < 0.6:
                kw["min_wavelength"] = float(rng.uniform(3300, 4300))
            if rng.random() < 0.6:
                kw["max_wavelength"] = float(rng.uniform(5000, 6500))
            if rng.random() < 0.6:
                kw["range_tolerance"] = float(rng.choice([20.0, 100.0, 400.0]))
            if rng.random() < 0.3:
                kw["linearity_tolerance"] = float(rng.choice([10.0, 100.0]))
            c.set_hough_properties(**kw)
            ops.append(["hough", kw])
        elif op == "ransac":
            c.set_ransac_properties(sample_size=4)
            ops.append(["ransac"])
        elif op == "set":
            again = last is not None and rng.random() < 0.4
            if again:
                # the same object once more, changed or not
                a = last
                k = "same"
                q = rng.random()
                if q < 0.4:
                    a.add_user_atlas(["S"] * 2, wl(2))
                elif q < 0.6 and a.get_lines():
                    a.remove_atlas_lines_range(float(rng.choice(a.get_lines())), float(rng.choice([0.5, 200.0])))
                elif q < 0.7:
                    a.clear()
                elif q < 0.8:
                    a.clear()
                    a.add_user_atlas(["S"] * 3, wl(3))
                k = ["same", round(float(q), 2)]
                ctx.counts["set-again"] += 1
            else:
                a = Atlas()
                k = int(rng.choice([0, 1, 5, 15]))
                if k:
                    a.add_user_atlas(["X"] * k, wl(k))
            lines = list(a.get_lines())
            kw = {}
            cons, ct = False, 10.0
            if rng.random() < 0.5:
                kw["constrain_poly"] = cons = True
            if rng.random() < 0.6:
                kw["candidate_tolerance"] = ct = float(rng.choice([1.0, 10.0, 60.0]))
            c.set_atlas(a, **kw)
            has, last = True, a
            ctx.check(list(c.atlas.get_lines()) == lines, "pairs", what="atlas not taken over", ops=ops)
            ops.append(["set_atlas", k, kw])
        elif op in ("user", "cat"):
            kw = {}
            cons, ct = False, 10
            if rng.random() < 0.5:
                kw["constrain_poly"] = cons = True
            if rng.random() < 0.5:
                kw["candidate_tolerance"] = ct = float(rng.choice([1.0, 30.0]))
            if op == "user":
                k = int(rng.integers(1, 6))
                c.add_user_atlas(["U"] * k, wl(k), **kw)
            else:
                x = float(rng.uniform(3500, 6000))
                c.add_atlas([str(rng.choice(["He", "Ne", "Ar"]))], min_atlas_wavelength=x, max_atlas_wavelength=x + 400, **kw)
            has = True
            ops.append([op, kw])
        elif op == "remove" and has:
            L = c.atlas.get_lines()
            w = float(rng.choice(L)) if L and rng.random() < 0.8 else 5000.0
            t = float(rng.choice([0.5, 50.0, 400.0]))
            c.remove_atlas_lines_range(w, t)
            ops.append(["remove", w, t])
        elif op == "clear" and has:
            c.clear_atlas()
            ops.append(["clear"])
        else:
            continue
        if has:
            if not audit(ctx, c, cons, ct, ops):
                return
            sizes.append(len(c.pairs))
    ctx.tag("pairs-judged", sum(sizes))
    ctx.case(len(set(sizes)) > 1 and len(ops) > 2, ops=ops, n=n, sizes=sizes)


def removed_not_matched(ctx, rng, i):
    """A line removed through the calibrator never shows up in a later result."""
    p = gen.problem(rng, n=16, spurious=0, extra=0, keep=1.0, deg=1)
    c = gen.calibrator(p, constrain=bool(rng.random() < 0.4))
    if rng.random() < 0.5:
        gen.fit(c, fit_deg=1, max_tries=20)
    gone = [float(x) for x in rng.choice(p["true_wl"], 4, replace=False)]
    for g in gone:
        c.remove_atlas_lines_range(g, 0.5)
    c.do_hough_transform()
    r = gen.fit(c, fit_deg=1, max_tries=40)
    left = set(c.atlas.get_lines())
    ctx.check(not left & set(gone) and len(left) == len(p["atlas"]) - 4, "removed-not-matched", what="atlas")
    audit(ctx, c, c.constrain_poly, c.candidate_tolerance, ["removal of 4 lines"])
    cand = set(float(x) for x in c.candidate_arc) if hasattr(c, "candidate_arc") else set()
    ctx.check(not cand & set(gone), "removed-not-matched", what="candidates", bad=sorted(cand & set(gone)))
    if r is not None:
        ctx.check(set(float(x) for x in r[2]) <= left, "removed-not-matched", what="fit")
        m = c.match_peaks(r[0], refine=False, tolerance=20.0)
        ctx.check(set(float(x) for x in m[2]) <= left, "removed-not-matched", what="match")
    ctx.case(True, removed=gone, fitted=r is not None)
