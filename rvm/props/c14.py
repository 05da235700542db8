"""C14: matching peaks to a given solution. Oracle on every match_peaks return."""
import numpy as np

from rvm import gen, refs

ID = "C14"
LEVEL = "exploration"
RULE = "a match of peaks to lines with at least one pair, distinct by problem, tolerance and mode"
ASSUMPTIONS = [
    "pairs within 1e-9 of the tolerance are not judged, nor the optimum of a refit whose condition number in x / std(x) exceeds 1e5",
    "the least-squares optimum of well separated residuals is the reference of the robust refit",
]
REQUIRED = {"one-to-one": 400, "within-tolerance": 250, "uncontested-matched": 150, "refit": 150, "unchanged-coefficients": 60, "residuals": 400,
            "stored": 400, "input-unchanged": 400, "several-lines-near-a-peak": 60, "refined": 30, "refined-orders": 8, "after-a-fit": 150, "atlas-changed-between": 100, "other-basis": 150}
CHUNK = 8
MATCH = dict(tolerance=10.0, refine=False, robust_refit=True)  # documented defaults


def cases(tier):
    return 2000 if tier == "quick" else 40000


def make(rng, small=False):
    dense = str(rng.choice(["sparse", "dense", "clustered", "tiny", "unrelated"]))
    kw = dict(n=int(rng.integers(4, 25)), spurious=int(rng.integers(0, 6)), noise=float(rng.choice([0.0, 0.1, 1.0])), deg=int(rng.integers(1, 5)))
    if small:
        kw.update(deg=1, n=12, npix=400)
        dense = "sparse"
    p = gen.problem(rng, **kw)
    if dense == "dense":
        p["atlas"] = np.sort(np.r_[p["atlas"], rng.uniform(p["sg"].lo, p["sg"].lo + p["sg"].span, int(rng.integers(20, 120)))])
    elif dense == "clustered":
        near = rng.choice(p["atlas"], min(6, len(p["atlas"])), replace=False)
        p["atlas"] = np.r_[p["atlas"], near + rng.uniform(0.05, 3), near - rng.uniform(0.05, 3)]
        if rng.random() < 0.5:
            k = rng.choice(p["peaks"], min(4, len(p["peaks"])), replace=False)
            p["peaks"] = np.unique(np.r_[p["peaks"], k + rng.uniform(0.2, 1.5)])
    elif dense == "tiny":
        p["peaks"] = p["peaks"][: int(rng.integers(1, 4))]
        p["atlas"] = p["atlas"][: int(rng.integers(1, 6))]
    elif dense == "unrelated":
        p["atlas"] = rng.uniform(p["sg"].lo, p["sg"].lo + p["sg"].span, len(p["atlas"]))
    if rng.random() < 0.2:
        p["atlas"] = np.r_[p["atlas"], p["atlas"][:2]]  # a line listed twice
    if rng.random() < 0.5:
        p["atlas"] = rng.permutation(p["atlas"])
    if rng.random() < 0.2:
        p["peaks"] = rng.permutation(p["peaks"])
    if rng.random() < 0.15:
        p["peaks"] = list(p["peaks"])
    elif rng.random() < 0.1:
        p["peaks"] = np.unique(np.round(np.asarray(p["peaks"]))).astype(int)
    return dense, p


def run(ctx, rng, i):
    dense, p = make(rng, i % 33 == 7)
    c = gen.calibrator(p)
    sol = p["sg"].coeff()
    if rng.random() < 0.5:
        sol = sol + np.r_[rng.normal(0, 2), np.zeros(len(sol) - 1)]
    kind = "poly" if rng.random() < 0.7 else str(rng.choice(["legendre", "chebyshev"]))
    tol = float(rng.choice([0.05, 0.5, 2.0, 5.0, 10.0, 40.0, 150.0]))
    refine = i % 33 == 7
    refit = bool(rng.random() < 0.6)
    kw = dict(tolerance=tol, refine=refine, robust_refit=refit)
    if i % 50 == 0 and not refine:
        kw = dict(robust_refit=refit)  # defaults
        tol = 10.0
    if refine:
        if rng.random() < 0.7:
            kw["n_delta"] = int(rng.integers(1, len(sol)))
        if rng.random() < 0.5:
            kw["min_frac"] = float(rng.choice([0.1, 0.3, 0.8]))
        if rng.random() < 0.3:
            kw["method"] = "Powell"
        if rng.random() < 0.3:
            kw["convergence"] = 1e-3
    if refit and rng.random() < 0.4:
        kw["fit_deg"] = int(rng.integers(1, 4))
    stored = bool(rng.random() < 0.3)
    if stored:
        c.fit_coeff = sol.copy()
        given = None
    else:
        given = list(sol) if rng.random() < 0.4 and not refine else sol.copy()
    if not stored and rng.random() < 0.3:
        # something older in store
        c.fit_coeff = sol * 1.5
        c.matched_peaks, c.matched_atlas = [1.0, 2.0], [3.0, 4.0]
    if rng.random() < 0.3 or kind != "poly":
        # after a fit of its own, of some other degree
        first = dict(max_tries=3 if rng.random() < 0.7 else 1, fit_deg=int(rng.integers(1, 4)), fit_type=kind)
        try:
            if gen.fit(c, **first) is not None:
                ctx.counts["after-a-fit"] += 1
        except Exception as e:
            ctx.tag("first-fit-" + type(e).__name__)
        if stored:
            c.fit_coeff = sol.copy()
    for k in range(1 if rng.random() < 0.7 else 2):
        if k and rng.random() < 0.6:
            q = rng.random()
            if q < 0.6:
                c.add_user_atlas(["Y"] * 3, [float(v) for v in rng.uniform(p["sg"].lo, p["sg"].lo + p["sg"].span, 3)])
            elif len(c.atlas) > 3:
                c.remove_atlas_lines_range(float(rng.choice(c.atlas.get_lines())), 5.0)
            ctx.counts["atlas-changed-between"] += 1
        one(ctx, rng, c, p, sol, given, stored and k == 0, tol, kw, dense, kind)
        given = sol.copy()


def one(ctx, rng, c, p, sol, given, stored, tol, kw, dense, kind):
    val = refs.poly
    pk = np.asarray(p["peaks"], float)
    at = np.unique(np.asarray(c.atlas.get_lines(), float))
    lam = val(pk, sol)
    D = np.abs(lam[:, None] - at[None, :])
    near = np.abs(D - tol) < 1e-9
    inr = (D < tol) & ~near
    deg = kw.get("fit_deg", len(sol) - 1)
    d = dict(kind=dense, peaks=len(pk), atlas=len(at), stored=stored, basis=kind, **kw)
    refine, refit = kw.get("refine", False), kw["robust_refit"]
    keep = None if given is None else list(given)
    try:
        a = gen.lean(kw, MATCH)
        r = c.match_peaks(**a) if given is None else c.match_peaks(given, **a)
    except Exception as e:
        # nothing to match, or nothing to refine with
        if not inr.any() and not near.any():
            ctx.tag("nothing-in-range")
            return
        if refit and min(inr.any(axis=1).sum(), inr.any(axis=0).sum()) <= deg and isinstance(e, (ValueError, AssertionError)):
            ctx.tag("too-few-pairs-to-refit")
            return
        if refine and isinstance(e, (ValueError, AssertionError)):
            ctx.tag("refinement-failed")
            return
        raise
    if given is not None:
        ctx.check(list(given) == keep and isinstance(given, (list, np.ndarray)), "input-unchanged", **d)
    else:
        ctx.counts["input-unchanged"] += 1
    if refine and r[1] is None:
        ctx.tag("refinement-failed")
        return
    if not ctx.check(len(r) == 7, "shape", **d):
        return
    coeff, mp, ma, rms, res, pu, au = r
    coeff, mp, ma, res = (np.asarray(v, float) for v in (coeff, mp, ma, res))
    if not ctx.check(mp.ndim == 1 and mp.shape == ma.shape == res.shape, "equal-length", n=[mp.shape, ma.shape, res.shape], **d):
        return
    ctx.check(len(set(mp)) == len(mp) and len(set(ma)) == len(ma), "one-to-one", mp=mp, ma=ma, **d)
    ctx.check(set(mp) <= set(pk) and set(ma) <= set(at), "one-to-one", what="not from the inputs", mp=mp, ma=ma, **d)
    if not refine:
        e = np.abs(val(mp, sol) - ma)
        ctx.check(np.all(e <= tol + 1e-9), "within-tolerance", worst=float(e.max() if len(e) else 0), tol=tol, **d)
        if not near.any():
            # a line only this peak can have
            own = inr & (inr.sum(axis=0) == 1)[None, :]
            want = set(pk[own.any(axis=1)])
            ctx.check(want <= set(mp), "uncontested-matched", missing=sorted(want - set(mp)), tol=tol, **d)
        if (inr.sum(axis=1) > 1).any():
            ctx.counts["several-lines-near-a-peak"] += 1
    else:
        ctx.counts["refined"] += 1
    if refit:
        if len(mp) > deg and np.all(np.isfinite(coeff)):
            ctx.check(coeff.shape == (deg + 1,), "refit", what="degree", got=coeff, **d)
        if len(mp) > deg and mp.std() > 0 and np.linalg.cond(np.vander(mp / mp.std(), deg + 1)) > 1e5:
            ctx.tag("ill-conditioned-refit")
        elif len(mp) > deg and np.all(np.isfinite(coeff)):
            pred, best = refs.huber_fit(mp, ma, deg)
            s = ma.std() or 1.0
            mine = refs.huber_cost((ma - val(mp, coeff)) / s)
            ctx.check(mine <= best * (1 + 1e-4) + 1e-9 * len(mp), "refit", cost=mine, best=best, n=len(mp), **d)
            if len(mp) >= deg + 3:
                x = mp
                e = np.max(np.abs(val(x, coeff) - pred(x)))
                # beyond the quadratic part of the loss the minimum can be flat
                flat = np.max(np.abs(ma - pred(mp))) > 0.9 * s
                ctx.check(e < 1e-3 * s or flat, "refit", predictions_differ=float(e), n=len(mp), **d)
        else:
            ctx.tag("underdetermined-refit")
    elif not refine:
        ctx.check(coeff.shape == np.shape(sol) and np.array_equal(coeff, sol), "unchanged-coefficients", got=coeff, want=sol, **d)
    else:
        n = kw.get("n_delta", len(sol) - 1)
        ctx.check(coeff.shape == np.shape(sol) and np.array_equal(coeff[n:], np.asarray(sol, float)[n:]), "refined-orders", got=coeff, was=sol, **d)
    ref = ma - val(mp, coeff)
    big = np.max(np.abs(ma)) if len(ma) else 1.0
    ctx.check(np.allclose(res, ref, rtol=0, atol=1e-9 * big + 1e-9), "residuals", got=res[:5], want=ref[:5], **d)
    ctx.check(np.isclose(rms, np.sqrt(np.mean(ref**2)), rtol=1e-6, atol=1e-9 * big), "residuals", rms=rms, want=float(np.sqrt(np.mean(ref**2))), **d)
    ctx.check(np.isclose(pu, len(mp) / len(pk)) and np.isclose(au, len(ma) / len(c.atlas)), "utilisation", got=[pu, au], **d)
    eq = lambda a, b: np.array_equal(np.asarray(a, float), np.asarray(b, float))
    ctx.check(eq(c.fit_coeff, coeff) and eq(c.matched_peaks, mp) and eq(c.matched_atlas, ma) and eq(c.residuals, res) and eq(c.rms, rms)
              and eq(c.peak_utilisation, pu) and eq(c.atlas_utilisation, au), "stored", **d)
    ctx.check(np.array_equal(np.asarray(c.peaks, float), pk), "stored", what="peaks changed", **d)
    ctx.tag("pairs", len(mp))
    if kind != "poly":
        ctx.counts["other-basis"] += 1
    ctx.case(len(mp) > 0, **d)
