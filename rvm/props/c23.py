"""C23: candidate sets. Oracle: recomputed from the pairs and the Hough lines; support ranking recomputed per peak."""
import numpy as np

from rvm import fitload, gen, refs

ID = "C23"
LEVEL = "exploration"
RULE = "a fit whose candidate sets were recomputed and that had a peak with at least two candidate lines"
ASSUMPTIONS = [
    "pairs within 1e-9 (relative) of the tolerance and ties in support are not judged",
    "the scale of the Gaussian is (range tolerance + linearity tolerance) * 1.1775, as the code documents",
]
REQUIRED = {"sets": 5000, "members": 5000, "weights": 5000, "one-on-line": 200, "top-n": 200, "ranking": 1000, "guess-shift": 100, "guess-complete": 15}
CHUNK = 4
CASE_SECONDS = 60


def cases(tier):
    return 420 if tier == "quick" else 8000


def run(ctx, rng, i):
    if i % 8 == 3:
        return guess(ctx, rng, i)
    fam = str(rng.choice(["plain", "dense", "clusters", "few"]))
    kw = dict(rt=float(rng.choice([20.0, 50.0, 100.0, 300.0])), deg=int(rng.integers(1, 4)), npix=int(rng.integers(300, 1500)))
    if fam == "dense":
        kw.update(n=int(rng.integers(10, 20)), extra=int(rng.integers(20, 80)))
    elif fam == "few":
        kw.update(n=int(rng.integers(4, 7)), spurious=0, extra=0)
    p = gen.problem(rng, **kw)
    if fam == "clusters":
        # several atlas lines within the tolerance of the same peak
        p["atlas"] = np.sort(np.concatenate([p["atlas"], p["atlas"] + rng.normal(0, 4, len(p["atlas"])), p["atlas"] + rng.normal(0, 1, len(p["atlas"]))]))
    shuffle = rng.random() < 0.3
    if shuffle:
        p["atlas"] = rng.permutation(p["atlas"])
        p["peaks"] = rng.permutation(p["peaks"])
    if rng.random() < 0.2:
        p["peaks"] = list(p["peaks"])
    lt = float(rng.choice([0.0, 50.0, 100.0, 250.0]))
    topn, w = int(rng.integers(1, 9)), bool(rng.random() < 0.5)
    ct = float(rng.choice([0.5, 2.0, 5.0, 10.0, 30.0]))
    c = gen.calibrator(p, hough=dict(num_slopes=int(rng.choice([50, 200])), xbins=int(rng.integers(5, 30)), ybins=int(rng.integers(5, 30)), linearity_tolerance=lt),
                       ransac=dict(top_n_candidate=topn, candidate_weighted=w, sample_size=int(rng.integers(2, 6))),
                       constrain=bool(rng.random() < 0.3), cand_tol=float(rng.choice([2.0, 10.0])), seed=int(rng.integers(0, 2**31)))
    planted = None
    if rng.random() < 0.5:
        # lines that pass exactly through pairs, through a loaded set of Hough lines
        c.do_hough_transform()
        pr = np.asarray(c.pairs, float)
        if len(pr) >= 2:
            m = rng.uniform(c.min_slope, c.max_slope, 4) if c.max_slope > c.min_slope else np.full(4, 1.0)
            k = rng.integers(0, len(pr), 4)
            c.hough_lines = np.concatenate([np.column_stack([m, pr[k, 1] - m * pr[k, 0]]), np.asarray(c.hough_lines, float)[:60]])
            planted = k
    fits = 1 + int(rng.random() < 0.4)
    desc = dict(family=fam, rt=kw["rt"], lt=lt, n=topn, weighted=w, ct=ct, peaks=len(p["peaks"]), atlas=len(p["atlas"]), planted=planted is not None)
    nontrivial = False
    for f in range(fits):
        if f:
            ct = float(rng.choice([1.0, 7.0, 20.0]))
            topn, w = int(rng.integers(1, 9)), bool(rng.random() < 0.5)
            c.set_ransac_properties(top_n_candidate=topn, candidate_weighted=w)
            if rng.random() < 0.5:
                # the pairs change, the lines need not
                planted = None
                c.add_user_atlas(["Y"] * 3, [float(v) for v in rng.uniform(p["min_w"], p["max_w"], 3)])
                if rng.random() < 0.5 and len(c.pairs):
                    c.do_hough_transform()
        fitload.attempt(c, f > 0, fit_deg=1, max_tries=2, candidate_tolerance=ct)
        nontrivial |= audit(ctx, c, ct, kw["rt"] + lt, topn, w, planted, dict(desc, fit=f, ct=ct, n=topn, weighted=w))
    ctx.case(nontrivial, **desc, lo=round(p["sg"].lo, 3))


def guess(ctx, rng, i):
    """Candidates around a guessed polynomial."""
    rt = float(rng.choice([5.0, 20.0, 100.0]))
    p = gen.problem(rng, rt=rt, extra=int(rng.integers(0, 60)), npix=int(rng.integers(300, 1500)))
    ct = float(rng.choice([1.0, 5.0, 20.0]))
    c = gen.calibrator(p, hough=dict(num_slopes=100, xbins=20, ybins=20), ransac=dict(linear=False), seed=int(rng.integers(0, 2**31)))
    t = p["sg"].coeff()
    t[0] += rng.uniform(-1, 1) * rt
    fitload.attempt(c, fit_coeff=list(t), max_tries=2, candidate_tolerance=ct)
    pairs = np.asarray(c.pairs, float).reshape(-1, 2)
    pr = set(map(tuple, pairs.tolist()))
    off_all = pairs[:, 1] - refs.poly(pairs[:, 0], t)
    n = 0
    got = set()
    for x, y, w in c.candidates:
        x, y, w = (np.asarray(v, float) for v in (x, y, w))
        off = y - refs.poly(x, t)
        mine = set(zip(x.tolist(), y.tolist()))
        got |= mine
        ok = np.all(np.abs(off) <= rt + ct + 1e-6) and mine <= pr and np.all((w > 0) & (w <= 1 + 1e-9))
        if not ctx.check(ok, "guess-members", off=np.abs(off).max() if len(off) else 0, rt=rt, ct=ct):
            return
        n += len(x)
        if len(x):
            # the set belongs to one shift of the guess: within the tolerance of it, and weighted by the distance from it
            r = rt * np.sqrt(-2 * np.log(np.clip(w, 1e-300, 1)))
            ok = False
            for d in (off[0] - r[0], off[0] + r[0]):
                e = np.abs(off_all - d)
                want = set(map(tuple, pairs[e < ct - 1e-4].tolist()))
                maybe = set(map(tuple, pairs[e < ct + 1e-4].tolist()))
                ok |= bool(abs(d) <= rt + 1e-4 and want <= mine <= maybe and np.allclose(np.exp(-(((off - d) / rt) ** 2) / 2), w, rtol=0, atol=1e-5))
            if not ctx.check(ok, "guess-shift", off=off, weights=w, rt=rt, ct=ct, inside=int(np.sum(np.abs(off_all) <= rt))):
                return
    # one shift per Hough line, spread over the whole range tolerance: none of the pairs in range is missed
    k = len(c.hough_lines)
    share = np.clip((np.minimum(off_all + ct, rt) - np.maximum(off_all - ct, -rt)) / (2 * rt), 0, 1)
    sure = pairs[share * k >= 30]
    if len(sure):
        miss = [q for q in map(tuple, sure.tolist()) if q not in got]
        ctx.check(not miss, "guess-complete", missing=miss, sets=len(c.candidates), lines=k, rt=rt, ct=ct)
    ctx.tag("guess-candidates", n)
    ctx.case(n > 0, family="guess", rt=rt, ct=ct, peaks=len(p["peaks"]), lo=round(p["sg"].lo, 3))


def audit(ctx, c, ct, width, topn, weighted, planted, d):
    pr = np.asarray(c.pairs, float).reshape(-1, 2)
    lines = np.asarray(c.hough_lines, float)
    if not ctx.check(len(c.candidates) == len(lines), "sets", got=len(c.candidates), want=len(lines), **d):
        return False
    ctx.counts["sets"] += len(lines) - 1
    sig = width * 1.1775
    seen = 0
    for j, ((m, b), cand) in enumerate(zip(lines, c.candidates)):
        x, y, w = (np.asarray(v, float) for v in cand)
        if not ctx.check(x.shape == y.shape == w.shape, "members", shapes=[x.shape, y.shape, w.shape], **d):
            return False
        r = np.abs(m * pr[:, 0] + b - pr[:, 1])
        eps = 1e-9 * (1 + np.abs(pr[:, 1]))
        sure, border = r <= ct - eps, np.abs(r - ct) < eps
        got = sorted(zip(x.tolist(), y.tolist()))
        want = sorted(map(tuple, pr[sure].tolist()))
        if border.any():
            bs = {tuple(q) for q in pr[border].tolist()}
            got = [q for q in got if q not in bs]
            want = [q for q in want if q not in bs]
        if not ctx.check(got == want, "members", line=j, got=len(got), want=len(want), **d):
            return False
        dist = np.abs(m * x + b - y)
        ref = np.exp(-(dist**2) / (2 * sig**2)) if sig > 0 else np.where(dist == 0, 1.0, 0.0)
        if not ctx.check(np.allclose(w, ref, rtol=1e-6, atol=1e-9), "weights", line=j, got=w[:4], want=ref[:4], **d):
            return False
        if planted is not None and j < len(planted):
            q = pr[planted[j]]
            hit = (x == q[0]) & (y == q[1])
            ctx.check(hit.any() and np.allclose(w[hit], 1.0, atol=1e-9), "one-on-line", line=j, w=w[hit], **d)
        seen += len(x)
    ctx.tag("candidates", seen)
    # what enters sampling
    sup = {}
    for x, y, w in c.candidates:
        for a, b, k in zip(np.asarray(x, float).tolist(), np.asarray(y, float).tolist(), np.asarray(w, float).tolist()):
            q = sup.setdefault(a, {})
            q[b] = q.get(b, 0.0) + (k if weighted else 1.0)
    by = {}
    for a, b in zip(c.candidate_peak, c.candidate_arc):
        by.setdefault(float(a), []).append(float(b))
    ctx.check(len(c.candidate_peak) == len(c.candidate_arc) and set(by) == set(sup), "top-n", missing=sorted(set(sup) - set(by))[:4],
              extra=sorted(set(by) - set(sup))[:4], **d)
    for a in set(by) & set(sup):
        ls, want = by[a], sup[a]
        if not ctx.check(len(set(ls)) == len(ls) == min(topn, len(want)) and set(ls) <= set(want), "top-n", peak=a, got=ls, want=min(topn, len(want)), **d):
            return False
        out = [v for k, v in want.items() if k not in ls]
        if out:
            ctx.check(max(out) <= min(want[k] for k in ls) * (1 + 1e-9), "ranking", peak=a, lost=max(out), kept=min(want[k] for k in ls), **d)
    return any(len(v) >= 2 for v in sup.values())
