"""Random fitting problems and settings shared by the fit monitors."""
import numpy as np

from rvm import gen


def random_fit(rng, small=False, limits=None, basis=True):
    """(description, problem, constructor kwargs, fit kwargs)"""
    fam = str(rng.choice(["easy", "noisy", "spurious", "dense", "few", "missing"]))
    kw = dict(rt=float(rng.choice([50.0, 100.0])))
    if fam == "easy":
        kw.update(n=int(rng.integers(12, 25)), keep=1.0, spurious=0, extra=0, deg=int(rng.integers(1, 3)))
    elif fam == "noisy":
        kw.update(n=int(rng.integers(12, 25)), noise=1.0)
    elif fam == "spurious":
        kw.update(n=int(rng.integers(10, 18)), spurious=int(rng.integers(3, 10)))
    elif fam == "dense":
        kw.update(n=int(rng.integers(15, 30)), extra=int(rng.integers(10, 60)))
    elif fam == "few":
        kw.update(n=int(rng.integers(5, 9)), spurious=0, extra=0, keep=1.0)
    else:
        kw.update(n=int(rng.integers(15, 25)), keep=0.6)
    p = gen.problem(rng, **kw)
    if rng.random() < 0.15:
        p["peaks"] = np.unique(np.round(p["peaks"]))
        if rng.random() < 0.5:
            p["peaks"] = p["peaks"].astype(int)
    tol = float(rng.choice([0.5, 1.0, 5.0, 10.0]))
    ransac = dict(
        sample_size=int(rng.integers(2, 8)),
        top_n_candidate=int(rng.choice([1, 2, 5, 8])),
        filter_close=bool(rng.random() < 0.2),
        ransac_tolerance=tol,
        candidate_weighted=bool(rng.random() < 0.6),
        minimum_fit_error=float(rng.choice([1e-9, 1e-4])),
    )
    hw = rng.random()
    if hw < 0.5:
        ransac["hough_weight"] = float(rng.choice([0.0, 0.1, 1.0, 5.0]))
    p["tol"] = tol
    fit = dict(
        fit_deg=int(rng.choice([1, 2, 3, 4])),
        max_tries=int(rng.choice([5, 20, 50])),
        candidate_tolerance=float(rng.choice([2.0, 5.0, 10.0, 30.0])),
    )
    if basis and rng.random() < 0.15:
        fit["fit_type"] = str(rng.choice(["legendre", "chebyshev"]))
    if fam == "few":
        # exact solutions are below the minimum fit error and are retried up to the cap: keep it short
        fit.update(fit_deg=min(fit["fit_deg"], 2), max_tries=4)
    cons = dict(constrain=bool(rng.random() < 0.3), cand_tol=float(rng.choice([10.0, 30.0])))
    if rng.random() < 0.2 and fam != "few":
        # start from a solution: exact, close or unrelated
        t = p["sg"].coeff()
        t = np.r_[t, 0.0] if len(t) < 2 else t
        q = rng.random()
        if q < 0.4:
            t = t + np.r_[rng.normal(0, 3), np.zeros(len(t) - 1)]
        elif q < 0.6:
            t = t * rng.uniform(0.9, 1.1, len(t))
        fit["fit_coeff"] = list(t) if rng.random() < 0.5 else t
        if rng.random() < 0.5:
            ransac["linear"] = False
    if small or rng.random() < 0.1:
        p["peaks"] = p["peaks"][: max(4, min(7, len(p["peaks"])))]
        ransac.update(top_n_candidate=int(rng.choice([1, 2])), sample_size=int(rng.choice([2, 3])))
        fit.update(brute_force=True, fit_deg=int(rng.choice([1, 2])))
        fit.pop("fit_coeff", None)
        ransac.pop("linear", None)
    if limits is not None:
        ransac.update(limits)
    hough = dict(num_slopes=int(rng.choice([100, 400])), xbins=int(rng.choice([20, 50])), ybins=int(rng.choice([20, 50])))
    desc = dict(family=fam, peaks=len(p["peaks"]), atlas=len(p["atlas"]), rt=p["rt"], ransac=ransac,
                fit={k: v for k, v in fit.items()}, hough=hough, **cons)
    return desc, p, dict(hough=hough, ransac=ransac, **cons), fit


def attempt(c, had_result=False, **kw):
    """The result of a fit, or None if it raised the failure a user is told to expect."""
    kw = dict(dict(progress=False), **kw)
    try:
        return c.fit(**gen.lean(kw, gen.FIT))
    except AssertionError as e:
        if "Couldn't fit" in str(e) or had_result:
            return None
        raise


def audit(ctx, c, p, r, fit, tag="", ransac_tol=None):
    """Everything C09 states about one returned result."""
    from rvm import refs

    kind = fit.get("fit_type", "poly")
    tol = ransac_tol if ransac_tol is not None else p["tol"]
    d = dict(fit=fit, tag=tag)
    if not ctx.check(isinstance(r, tuple) and len(r) == 7, "result-shape", **d):
        return
    coeff, mp, ma, rms, res, pu, au = r
    coeff = np.asarray(coeff, float)
    want = len(fit["fit_coeff"]) if fit.get("fit_coeff") is not None else fit.get("fit_deg", 4) + 1
    ctx.check(coeff.shape == (want,) and np.all(np.isfinite(coeff)), "coefficients", coeff=coeff, want=want, **d)
    mp, ma, res = np.asarray(mp, float), np.asarray(ma, float), np.asarray(res, float)
    if not ctx.check(mp.shape == ma.shape == res.shape and mp.ndim == 1 and len(mp) > 0, "equal-length", n=[mp.shape, ma.shape, res.shape], **d):
        return
    ctx.check(len(set(mp)) == len(mp) and len(set(ma)) == len(ma), "one-to-one", mp=mp, ma=ma, **d)
    ctx.check(set(mp) <= set(np.asarray(p["peaks"], float)) and set(ma) <= set(np.asarray(c.atlas.get_lines(), float)), "drawn-from-inputs",
              bad=[sorted(set(mp) - set(np.asarray(p["peaks"], float)))[:3], sorted(set(ma) - set(np.asarray(c.atlas.get_lines(), float)))[:3]], **d)
    raw = refs.poly(mp, coeff) - ma
    ref = np.where(np.abs(raw) > tol, tol, raw)
    scale = 1e-6 * max(1.0, np.abs(np.vander(mp, len(coeff), increasing=True) * coeff).max() * 1e-6)
    near = np.abs(np.abs(raw) - tol) < 1e-6 + scale
    ctx.check(np.allclose(res[~near], ref[~near], rtol=0, atol=1e-7 + scale), "residuals", got=res, want=ref, **d)
    ctx.check(np.isclose(rms, np.sqrt(np.mean(res**2)), rtol=1e-9, atol=1e-12), "rms", got=rms, want=float(np.sqrt(np.mean(res**2))), **d)
    ctx.check(np.isclose(pu, len(mp) / len(p["peaks"]), rtol=1e-12) and np.isclose(au, len(ma) / len(c.atlas), rtol=1e-12), "utilisation",
              got=[pu, au], want=[len(mp) / len(p["peaks"]), len(ma) / len(c.atlas)], **d)
    eq = lambda a, b: np.array_equal(np.asarray(a, float), np.asarray(b, float))
    ctx.check(eq(c.fit_coeff, coeff) and eq(c.matched_peaks, mp) and eq(c.matched_atlas, ma) and eq(c.rms, rms) and eq(c.residual, res)
              and eq(c.peak_utilisation, pu) and eq(c.atlas_utilisation, au), "stored", **d)
    ctx.tag("pairs-matched", len(mp))
    ctx.tag("result-" + kind)
    if fit.get("brute_force"):
        ctx.tag("result-brute-force")
    return raw
