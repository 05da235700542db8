"""C24: the trial that wins. Monitor: every trial fit is recorded and scored again; the outcome has to be that of the best acceptable one."""
from itertools import combinations

import numpy as np

from rvm import fitload, gen, polyhook, refs

ID = "C24"
LEVEL = "exploration"
RULE = "a fit whose recorded trials were all scored by the oracle, distinct by problem and settings"
ASSUMPTIONS = [
    "trial fits are observed as calls of numpy.polynomial's least-squares fits during fit()",
    "trials whose intercept, monotonicity, errors or score are within rounding of a limit or of each other may be decided either way",
    "the Hough density between bin centres is the bicubic interpolation of the histogram, clipped at zero",
]
REQUIRED = {"winner": 120, "no-acceptable-trial": 10, "initial-kept": 8, "initial-outperformed": 3, "sample": 200, "all-combinations": 10,
            "coefficients-of-winner": 120, "candidates-reached": 8, "drawn-evenly": 6}
CHUNK = 2
CASE_SECONDS = 120
LIMIT = 5000


def cases(tier):
    return 300 if tier == "quick" else 6000


class Trials:
    def __enter__(self):
        self.calls, self.n = [], 0
        polyhook.LISTENERS.append(self.see)
        return self

    def see(self, x, y, deg, a, k):
        self.n += 1
        if self.n <= LIMIT:
            self.calls.append((np.array(x, float), np.array(y, float)))

    def __exit__(self, *a):
        polyhook.LISTENERS.remove(self.see)


def run(ctx, rng, i):
    if i % 10 == 3:
        return reach(ctx, rng)
    lim = {"minimum_fit_error": float(rng.choice([0.0, 1e-9, 1e-4, 0.05]))}
    if rng.random() < 0.3:
        lim["minimum_matches"] = int(rng.choice([3, 6, 8, 10, 12]))
    if rng.random() < 0.3:
        lim["minimum_peak_utilisation"] = float(rng.choice([0.2, 0.5, 0.7, 0.9]))
    desc, p, kw, fit = fitload.random_fit(rng, small=i % 10 == 7, limits=lim)
    if "fit_coeff" not in fit and not fit.get("brute_force") and rng.random() < 0.15 and desc["family"] != "few":
        t = p["sg"].coeff()
        t = np.r_[t, 0.0] if len(t) < 2 else t
        fit["fit_coeff"] = t + np.r_[rng.normal(0, 1.0), np.zeros(len(t) - 1)]
        if rng.random() < 0.5:
            kw["ransac"]["linear"] = False
    if rng.random() < 0.15:
        kw["ransac"]["filter_close"] = True
    if desc["family"] == "few" and not fit.get("brute_force"):
        lim["minimum_fit_error"] = kw["ransac"]["minimum_fit_error"] = 0.0
    # samples without an acceptable outcome are redrawn up to 1000 times per try
    fit["max_tries"] = min(fit["max_tries"], int(rng.choice([1, 2, 3] if len(lim) > 1 else [2, 4, 20])))
    desc["fit"] = dict(fit)
    c = gen.calibrator(p, seed=int(rng.integers(0, 2**31)), **kw)
    known = (np.zeros(0), np.zeros(0))
    if rng.random() < 0.2:
        n = int(rng.integers(1, 3))
        x = rng.uniform(0, p["sg"].npix, n)
        known = (x, p["sg"].wave(x))
        c.set_known_pairs(*known)
    had = False
    if rng.random() < 0.2:
        had = fitload.attempt(c, **dict(fit, max_tries=2)) is not None
    with Trials() as t:
        r = fitload.attempt(c, had, **fit)
    d = dict(desc, lim=lim, known=len(known[0]), trials=t.n)
    ok = t.n <= LIMIT
    if ok:
        judge(ctx, c, p, kw, fit, known, t.calls, r, d)
    else:
        ctx.tag("too-many-trials")
    ctx.case(ok and t.n > 0, **dict(desc, lim=lim, known=len(known[0]), returned=r is not None))


def settings(c, p, kw, fit):
    ra = kw["ransac"]
    deg = len(fit["fit_coeff"]) - 1 if fit.get("fit_coeff") is not None else fit.get("fit_deg", 4)
    size = min(ra["sample_size"], len(c.atlas))
    size = deg + 1 if size <= deg else size
    need = min(ra.get("minimum_matches", 0), len(c.atlas), len(p["peaks"]))
    w = ra.get("hough_weight", 1.0)
    return deg, size, need, w


def pool(c, p, kw):
    """The candidate pairs, without the lines closer than three times the tolerance to another one if these are to be left out."""
    x, y = np.asarray(c.candidate_peak, float), np.asarray(c.candidate_arc, float)
    if kw["ransac"].get("filter_close") and len(y):
        u = np.unique(y)
        gap = np.diff(u)
        if np.any(np.abs(gap - 3 * p["tol"]) < 1e-6):
            return None
        # of two close lines, the shorter
        drop = u[:-1][gap < 3 * p["tol"]]
        k = ~np.isin(y, drop)
        x, y = x[k], y[k]
    return x, y


def judge(ctx, c, p, kw, fit, known, calls, r, d):
    deg, size, need, weight = settings(c, p, kw, fit)
    got = pool(c, p, kw)
    if got is None:
        return
    x, y = got
    pairs = set(zip(x.tolist(), y.tolist()))
    peaks = np.unique(x)
    size = min(size, len(peaks)) if len(peaks) > deg else 0
    brute = bool(fit.get("brute_force"))
    samples = []
    for tx, ty in calls:
        rest = list(zip(tx.tolist(), ty.tolist()))
        for k in zip(known[0].tolist(), known[1].tolist()):
            if k in rest:
                rest.remove(k)
        bad = [q for q in rest if q not in pairs]
        alone = brute or (len({a for a, _ in rest}) == len(rest) and len({b for _, b in rest}) == len(rest))
        if not ctx.check(not bad and alone and len(rest) == size, "sample", rest=rest, size=size, foreign=bad, **d):
            return
        samples.append(tuple(sorted(rest)))
    if brute and size:
        want = sorted(tuple(sorted(q)) for q in combinations(list(zip(x.tolist(), y.tolist())), size))
        ctx.check(sorted(samples) == want, "all-combinations", tried=len(samples), combinations=len(want), **d)
    if size and not calls and r is not None:
        ctx.tag("trials-not-observed")
        return
    if not size:
        ctx.check(r is None and not calls, "no-acceptable-trial", deg=deg, candidates=len(peaks), **d)
        return
    cand = {a: y[x == a] for a in peaks}
    lo, hi = p["min_w"] - p["rt"], p["min_w"] + p["rt"]
    dens = density(c, weight)
    options = []  # (score, sure, inlier pairs, initial?)
    ini = fit.get("fit_coeff")
    if ini is not None:
        options += score(c, p, kw, cand, peaks, np.asarray(ini, float), need, deg, dens, ini=True)
    span = np.ptp(peaks)
    line = np.arange(peaks[0] - 0.2 * span, peaks[-1] + 0.2 * span, 1)
    done = set()
    for (tx, ty), s in zip(calls, samples):
        if s in done:
            continue
        done.add(s)
        co = np.polynomial.polynomial.polyfit.__wrapped__(tx, ty, deg)
        slack = 1e-9 * (np.abs(co) * np.abs(line).max() ** np.arange(len(co))).max() + 1e-9
        if not (lo - slack <= co[0] <= hi + slack):
            continue
        step = np.diff(refs.poly(line, co)).min() if len(line) > 1 else np.inf
        if step <= -slack:
            continue
        sure = lo + slack < co[0] < hi - slack and step > slack
        options += score(c, p, kw, cand, peaks, co, need, deg, dens, sure=sure)
    ctx.tag("trials-scored", len(done))
    # best first; whether a trial leaves too small an error is only worked out where it matters
    options.sort(key=lambda o: o[0])
    kept, best = [], np.inf
    for o in options:
        if o[0] > best * (1 + 1e-7):
            break
        v = large_enough(p, kw, o, deg)
        if v is False:
            continue
        o = (o[0], o[1] and v is True) + o[2:]
        kept.append(o)
        if o[1]:
            best = min(best, o[0])
    ctx.tag("acceptable-trials", len(kept))
    if r is None:
        ctx.check(not np.isfinite(best), "no-acceptable-trial", best=[o[:3] for o in kept][:2], **d)
        return
    allowed = kept
    mine = frozenset(zip(np.asarray(r[1], float).tolist(), np.asarray(r[2], float).tolist()))
    won = [o for o in allowed if mine in o[2]]
    if not ctx.check(won, "winner", returned=sorted(mine), best=[sorted(o[2][0]) for o in allowed][:2], score=best,
                     options=len(options), mine=[o[0] for o in options if mine in o[2]][:1], **d):
        return
    co = np.asarray(r[0], float)
    scale = 1e-6 * p["tol"] + 1e-9 * top(p)
    at = lambda q: refs.poly(peaks, q)
    if any(o[3] for o in won):
        if len(won) == 1 or np.array_equal(co, np.asarray(ini, float)):
            ctx.check(np.array_equal(co, np.asarray(ini, float)), "initial-kept", got=co, want=ini, **d)
            return
    from rascal import models

    if ini is not None:
        ctx.counts["initial-outperformed"] += 1
    ref = models.robust_polyfit(np.asarray(r[1], float), np.asarray(r[2], float), deg)
    ctx.check(np.allclose(at(co), at(ref), rtol=0, atol=scale), "coefficients-of-winner", got=co, want=ref, off=np.abs(at(co) - at(ref)).max(), **d)


def density(c, weight):
    """Hough density along the tangents of a dispersion."""
    from scipy.interpolate import RectBivariateSpline

    if weight == 0:
        return lambda co: 0.0
    ht = c.ht
    hx, hy = (np.asarray(e, float) for e in (ht.xedges, ht.yedges))
    f = RectBivariateSpline((hx[1:] + hx[:-1]) / 2, (hy[1:] + hy[:-1]) / 2, np.asarray(ht.hist, float))
    px = np.asarray(c.pixel_list, float)

    def total(co):
        g = refs.poly(px, np.asarray(co)[1:] * np.arange(1, len(co)))
        return weight * np.clip(f(g, refs.poly(px, co) - g * px, grid=False), 0, None).sum()

    return total


def score(c, p, kw, cand, peaks, co, need, deg, dens, sure=True, ini=False):
    """[(score, certainly acceptable, possible sets of inliers, initial)]; empty if certainly unacceptable."""
    tol = p["tol"]
    near = {}
    for a in peaks:
        e = np.abs(refs.poly(a, co) - cand[a])
        k = int(np.argmin(e))
        w = float(cand[a][k])
        if np.sum(e <= e[k] + 1e-7) > 1 and len(set(cand[a][e <= e[k] + 1e-7])) > 1:
            sure = False
        near.setdefault(w, []).append((float(e[k]), float(a)))
    errs, inl = [], []
    edge = False
    for w, q in near.items():
        q.sort()
        if len(q) > 1 and q[1][0] - q[0][0] < 1e-7:
            sure = False
        errs.append(min(q[0][0], tol))
        edge |= abs(q[0][0] - tol) < 1e-7
        if q[0][0] < tol:
            inl.append((q[0][1], w))
    n = len(inl)
    if edge:
        sure = False
    elif n <= deg or n < need or n < kw["ransac"].get("minimum_peak_utilisation", 0) * len(p["peaks"]) - 1e-9:
        return []
    e0 = kw["ransac"]["minimum_fit_error"]
    if ini:
        rms = np.sqrt(np.mean([e * e for e in errs if e < tol])) if n else 0.0
        if rms < e0 * (1 - 1e-9):
            return []
        sure &= rms > e0 * (1 + 1e-9)
    dof = len(errs) - len(co) + 1
    if dof <= 0:
        return []
    s = sum(errs) / dof / (dens(co) + 1e-9)
    return [(s, bool(sure), [frozenset(inl)], ini)]


def top(p):
    return abs(float(p["sg"].wave(p["sg"].npix)))


def large_enough(p, kw, o, deg):
    """Whether the fit to the inliers leaves at least the least error: yes, no, or None if that is too close to tell."""
    from rascal import models

    e0 = kw["ransac"]["minimum_fit_error"]
    if o[3] or e0 <= 0:
        return True
    px, wl = np.array(sorted(o[2][0])).T
    if len(px) <= deg:
        return None
    try:
        rb = models.robust_polyfit(px, wl, deg)
    except np.linalg.LinAlgError:
        return False
    rms = np.sqrt(np.mean(np.clip(refs.poly(px, rb) - wl, -p["tol"], p["tol"]) ** 2))
    lee = 1e-6 * e0 + 1e-10 * top(p)
    return True if rms > e0 + lee else False if rms < e0 - lee else None


def reach(ctx, rng):
    """Over many tries every candidate pair is sampled."""
    p = gen.problem(rng, n=int(rng.integers(9, 16)), keep=1.0, spurious=int(rng.integers(0, 3)), extra=int(rng.integers(0, 5)), deg=1, rt=50.0, noise=0.1)
    top = int(rng.choice([2, 3, 5]))
    crowd = rng.random() < 0.6
    if crowd:
        # a band with many more peaks than elsewhere
        a = rng.uniform(0.1, 0.8)
        p["peaks"] = np.unique(np.r_[p["peaks"], (a + rng.uniform(0, 0.06, int(rng.integers(7, 12)))) * p["sg"].npix])
        top = int(rng.choice([3, 5, 8]))
    kw = dict(hough=dict(num_slopes=200, xbins=30, ybins=30), ransac=dict(sample_size=int(rng.integers(3, 6)), top_n_candidate=top,
              candidate_weighted=bool(rng.random() < 0.5)))
    fit = dict(fit_deg=2, max_tries=2000, candidate_tolerance=20.0)
    c = gen.calibrator(p, seed=int(rng.integers(0, 2**31)), **kw)
    with Trials() as t:
        r = fitload.attempt(c, **fit)
    x, y = np.asarray(c.candidate_peak, float), np.asarray(c.candidate_arc, float)
    calls = t.calls[:LIMIT]
    seen = {}
    for tx, ty in calls:
        for q in zip(tx.tolist(), ty.tolist()):
            seen[q] = seen.get(q, 0) + 1
    d = dict(trials=len(calls), pairs=len(x), top=top, size=kw["ransac"]["sample_size"])
    if len(calls) >= 1500 and len(x):
        # a peak's share of the samples is at least that of a uniform draw, divided by the number of peaks in the fullest tenth of the range
        dens = np.histogram(np.unique(x), bins=10)[0].max()
        least = len(calls) * kw["ransac"]["sample_size"] / len(np.unique(x)) / dens / top
        never = [q for q in zip(x.tolist(), y.tolist()) if q not in seen]
        if least >= 60:
            ctx.check(not never, "candidates-reached", never=never, expected=least, **d)
        else:
            ctx.tag("reach-not-judged")
        ctx.tag("pairs-reached", len(seen))
        evenly(ctx, rng, {a: y[x == a] for a in np.unique(x)}, calls, d)
    ctx.case(len(calls) >= 1500, **d, lo=round(p["sg"].lo, 3), returned=r is not None)


def evenly(ctx, rng, cand, calls, d):
    """A peak is drawn with a probability inverse to the number of peaks in its tenth of the range."""
    peaks = np.array(sorted(cand))
    n, edges = np.histogram(peaks, bins=10)
    if np.any(np.abs(peaks[:, None] - edges[1:-1]) < 1e-9):
        return
    many = n[np.clip(np.searchsorted(edges, peaks, side="right") - 1, 0, 9)]
    if len(peaks) < max(6, d["size"] + 2):
        return
    w = (1.0 / many) / (1.0 / many).sum()
    draws = []
    for _ in range(4000):
        q = rng.choice(peaks, d["size"], replace=False, p=w)
        used = set()
        for a in q:
            # samples that run out of lines are given up
            free = [v for v in cand[a] if v not in used]
            if not free:
                break
            used.add(free[rng.integers(0, len(free))])
        else:
            draws.append(q)
    if len(draws) < 1000:
        return
    calls = calls[:3000]
    share = lambda draws: np.array([np.isin(peaks, q) for q in draws]).mean(axis=0)
    want, got = share(draws), share([c[0] for c in calls])
    off = np.abs(got - want) - 0.25 * np.minimum(want, 1 - want)
    noise = np.sqrt(want * (1 - want) * (1 / len(calls) + 1 / len(draws)))
    k = int(np.argmax(off - 6 * noise))
    ctx.check(off[k] <= 6 * noise[k], "drawn-evenly", peak=peaks[k], share=got[k], expected=want[k], peaks=peaks, many=many, **d)
    ctx.tag("crowded-arcs", int(many.max() >= 5))
