"""C15: manual pair editing. Shadow pair list compared after every operation, refits against a reference optimum."""
import numpy as np

from rvm import gen, refs

ID = "C15"
LEVEL = "exploration"
RULE = "an editing history on a fitted calibrator with at least one addition and one removal or refit, distinct by its operations"
ASSUMPTIONS = ["an added pair whose pixel equals an existing one may be put before or after it",
               "where the pairs are not sorted by pixel only their content is judged"]
REQUIRED = {"add": 400, "remove": 300, "list": 800, "refit": 300, "refit-supplied": 60, "aligned": 800, "below-all": 60, "above-all": 60, "rejected": 60}
CHUNK = 8


def cases(tier):
    return 2500 if tier == "quick" else 40000


def state(c):
    return [np.asarray(c.matched_peaks, float).ravel(), np.asarray(c.matched_atlas, float).ravel()]


def same(a, b):
    return len(a[0]) == len(b[0]) and len(a[1]) == len(b[1]) and np.array_equal(a[0], b[0]) and np.array_equal(a[1], b[1])


def audit(ctx, c, sh, ops):
    got = state(c)
    ok = ctx.check(same(got, sh), "aligned", ops=ops, got=got, want=sh)
    lst = c.get_pix_wave_pairs()
    ok &= ctx.check(len(lst) == len(sh[0]) and all(t[0] == k and float(t[1]) == sh[0][k] and float(t[2]) == sh[1][k] for k, t in enumerate(lst)),
                    "list", ops=ops, got=lst, want=sh)
    return ok


def run(ctx, rng, i):
    p = gen.problem(rng, n=int(rng.integers(10, 18)), spurious=0, extra=0, keep=1.0, deg=int(rng.integers(1, 3)), rt=50.0, noise=0.3)
    c = gen.calibrator(p, hough=dict(num_slopes=100, xbins=20, ybins=20))
    kind = "poly"
    start = str(rng.choice(["fit", "match", "nothing"], p=[0.5, 0.35, 0.15]))
    if start == "fit":
        kind = "poly" if rng.random() < 0.6 else str(rng.choice(["legendre", "chebyshev"]))
        r = gen.fit(c, fit_deg=max(1, p["sg"].deg), max_tries=3, fit_type=kind)
        if r is None:
            start = "match"
    if start == "match":
        r = c.match_peaks(p["sg"].coeff(), tolerance=10.0, robust_refit=bool(rng.random() < 0.5))
    sh = state(c)
    if start != "nothing":
        ctx.check(len(sh[0]) == len(sh[1]) > 0, "aligned", start=start)
    fitted = start != "nothing"
    ops = [start]
    if not audit(ctx, c, sh, ops):
        return
    adds = others = 0
    for step in range(int(rng.integers(3, 20))):
        op = str(rng.choice(["add", "add", "remove", "refit", "supplied", "bad"]))
        if op == "add":
            q = rng.random()
            lo, hi = (sh[0].min(), sh[0].max()) if len(sh[0]) else (100.0, 200.0)
            if q < 0.2:
                x = lo - rng.uniform(1, 50)
                ctx.counts["below-all"] += 1
            elif q < 0.4:
                x = hi + rng.uniform(1, 50)
                ctx.counts["above-all"] += 1
            elif q < 0.5 and len(sh[0]):
                x = float(rng.choice(sh[0]))
            else:
                x = rng.uniform(lo, hi)
            w = float(p["sg"].wave(x) + rng.normal(0, 0.5))
            x = float(x)
            if rng.random() < 0.2:
                x = int(round(x))
            if rng.random() < 0.2:
                x, w = np.float64(x), np.float64(w)
            srt = bool(np.all(np.diff(sh[0]) >= 0))
            c.add_pix_wave_pair(x, w)
            ops.append(["add", float(x), float(w)])
            got = state(c)
            ok = len(got[0]) == len(got[1]) == len(sh[0]) + 1
            hit = False
            if ok:
                for k in range(len(got[0])):
                    if got[0][k] == x and got[1][k] == w and same([np.delete(got[0], k), np.delete(got[1], k)], sh):
                        hit = True
            ctx.check(ok and hit, "add", ops=ops, before=sh, got=got)
            if not (ok and hit):
                return
            if srt:
                ctx.check(bool(np.all(np.diff(got[0]) >= 0)), "add", what="not in pixel order", ops=ops, got=got[0])
            sh = got
            adds += 1
        elif op == "remove" and len(sh[0]):
            k = int(rng.integers(0, len(sh[0])))
            c.remove_pix_wave_pair(k if rng.random() < 0.7 else np.int64(k))
            ops.append(["remove", k])
            sh = [np.delete(sh[0], k), np.delete(sh[1], k)]
            ctx.check(same(state(c), sh), "remove", ops=ops, got=state(c), want=sh)
            others += 1
        elif op in ("refit", "supplied"):
            sh2 = refit(ctx, rng, c, p, sh, op, fitted, ops, kind)
            if sh2 is None:
                continue
            sh = sh2
            fitted = True
            others += 1
        elif op == "bad":
            bad(ctx, rng, c, sh, ops)
        else:
            continue
        if not audit(ctx, c, sh, ops):
            return
    ctx.case(adds > 0 and others > 0, start=start, ops=ops)


def bad(ctx, rng, c, sh, ops):
    """Impossible edits are refused and change nothing."""
    n = len(sh[0])
    k = int(rng.integers(0, 3))
    f0 = None if c.fit_coeff is None else np.array(c.fit_coeff, float)
    if k == 0:
        ctx.raises("rejected", c.remove_pix_wave_pair, n + int(rng.integers(0, 4)))
    elif k == 1:
        ctx.raises("rejected", c.manual_refit, [1.0, 2.0, 3.0], [1.0, 2.0], 1)
    else:
        ctx.raises("rejected", c.manual_refit, None, None, n + int(rng.integers(0, 2)))
    ctx.check(same(state(c), sh) and (f0 is None or np.array_equal(np.asarray(c.fit_coeff, float), f0)), "rejected", ops=ops, k=k)


def refit(ctx, rng, c, p, sh, op, fitted, ops, kind):
    """Returns the new shadow, or None if the refit is not possible here."""
    kw = {}
    val = refs.poly
    if op == "supplied":
        m = int(rng.integers(5, 14))
        x = np.sort(rng.uniform(0, p["sg"].npix, m))
        y = p["sg"].wave(x) + rng.normal(0, 0.3, m)
        if rng.random() < 0.3:
            o = rng.permutation(m)
            x, y = x[o], y[o]
        if rng.random() < 0.2:
            y[int(rng.integers(0, m))] += 3000.0
        if rng.random() < 0.5:
            x, y = list(x), list(y)
        kw.update(matched_peaks=x, matched_atlas=y)
        n = m
    else:
        x, y = sh
        n = len(set(x))
    if rng.random() < 0.6 or not fitted or c.fit_coeff is None:
        kw["degree"] = deg = int(rng.integers(1, 4))
    else:
        deg = len(c.fit_coeff) - 1
    q = rng.random()
    if q < 0.25:
        g = p["sg"].coeff()
        g = np.r_[g, np.zeros(4)][: deg + 1] * rng.uniform(0.95, 1.05, deg + 1)
        kw["x0"] = [float(v) for v in g]
        if rng.random() < 0.5:
            kw.pop("degree", None)
    if n < deg + 2 or np.std(np.asarray(x, float)) < 5:
        return None
    X, Y = np.array(x, float), np.array(y, float)
    if np.linalg.cond(np.vander(X / X.std(), deg + 1)) > 1e5:
        return None
    keep = [np.array(x, float), np.array(y, float), list(kw.get("x0", []))]
    r = c.manual_refit(**kw)
    ops.append([op, {k: v for k, v in kw.items() if k in ("degree", "x0")}, n])
    d = dict(ops=ops, deg=deg, n=n)
    if op == "supplied":
        ctx.check(np.array_equal(np.asarray(kw["matched_peaks"], float), keep[0]) and np.array_equal(np.asarray(kw["matched_atlas"], float), keep[1]),
                  "refit-supplied", what="arguments changed", **d)
    ctx.check(list(kw.get("x0", [])) == keep[2], "refit", what="x0 changed", **d)
    if not ctx.check(len(r) == 5, "refit", what="shape", **d):
        return None
    coeff, mp, ma, rms, res = r
    coeff = np.asarray(coeff, float)
    ok = ctx.check(coeff.shape == (deg + 1,) and np.all(np.isfinite(coeff)), "refit", coeff=coeff, **d)
    ctx.check(same([np.asarray(mp, float), np.asarray(ma, float)], [X, Y]), "refit", what="pairs", **d)
    if ok:
        s = Y.std() or 1.0
        pred, best = refs.huber_fit(X, Y, deg)
        mine = refs.huber_cost((Y - val(X, coeff)) / s)
        ctx.check(mine <= best * (1 + 1e-4) + 1e-9 * n, "refit", cost=mine, best=best, **d)
        e = np.max(np.abs(val(X, coeff) - pred(X)))
        # beyond the quadratic part of the loss the minimum can be flat
        flat = np.max(np.abs(Y - pred(X))) > 0.9 * s
        ctx.check(e < 1e-3 * s or flat, "refit", predictions_differ=float(e), **d)
        ref = Y - val(X, coeff)
        big = np.max(np.abs(Y))
        ctx.check(np.allclose(np.abs(np.asarray(res, float)), np.abs(ref), rtol=0, atol=1e-9 * big), "refit", what="residuals", got=res, want=ref, **d)
        ctx.check(np.isclose(rms, np.sqrt(np.mean(ref**2)), rtol=1e-6, atol=1e-9 * big), "refit", rms=rms, want=float(np.sqrt(np.mean(ref**2))), **d)
        ctx.check(np.array_equal(np.asarray(c.fit_coeff, float), coeff) and np.isclose(c.rms, rms) and np.array_equal(np.asarray(c.residuals, float), np.asarray(res, float)),
                  "refit", what="stored", **d)
    if op == "supplied":
        ctx.counts["refit-supplied"] += 1
        # the arrays are the caller's
        for v in (x, y):
            if isinstance(v, list):
                v[0] = -5.0
                v.append(1.0)
            else:
                v[:] = v[::-1].copy()
        ctx.check(same(state(c), [X, Y]), "refit-supplied", what="followed the caller's arrays", got=state(c), want=[X, Y], **d)
    ctx.tag("degree-%d-%s" % (deg, kind))
    return [X, Y]
