"""C10: acceptance limits. Monitor on every returned fit and every rejected setting."""
import numpy as np

from rvm import fitload, gen

ID = "C10"
LEVEL = "exploration"
RULE = "a fit run under at least one binding acceptance limit that either returned or failed, distinct by limits and problem"
ASSUMPTIONS = ["limits compared with a relative slack of 1e-9"]
REQUIRED = {"minimum-matches": 60, "minimum-utilisation": 60, "minimum-error": 60, "tolerance": 60, "more-than-degree": 60,
            "unsatisfiable-raises": 25, "rejected": 60, "second-fit": 15}
CHUNK = 2
CASE_SECONDS = 60


def cases(tier):
    return 320 if tier == "quick" else 6000


def judge(ctx, c, p, r, lim, fit):
    mp = np.asarray(r[1], float)
    rms = float(r[3])
    n = len(mp)
    need = min(lim.get("minimum_matches", 0), len(p["peaks"]), len(c.atlas))
    d = dict(limits=lim, n=n, rms=rms, fit=fit, peaks=len(p["peaks"]), atlas=len(c.atlas))
    ctx.check(n >= need, "minimum-matches", **d)
    ctx.check(n >= lim.get("minimum_peak_utilisation", 0) * len(p["peaks"]) - 1e-9, "minimum-utilisation", **d)
    ctx.check(r[5] >= lim.get("minimum_peak_utilisation", 0) - 1e-9, "minimum-utilisation", got=r[5], **d)
    ctx.check(rms >= lim.get("minimum_fit_error", 1e-9) * (1 - 1e-9), "minimum-error", **d)
    ctx.check(rms <= p["tol"] * (1 + 1e-9), "tolerance", tol=p["tol"], **d)
    ctx.check(n > len(r[0]) - 1, "more-than-degree", **d)
    ctx.check(np.all(np.abs(np.asarray(r[4], float)) <= p["tol"] * (1 + 1e-9)), "tolerance", tol=p["tol"], **d)


def run(ctx, rng, i):
    if i % 4 == 3:
        rejected(ctx, rng)
    lim = {}
    if rng.random() < 0.6:
        lim["minimum_matches"] = int(rng.choice([1, 5, 8, 10, 12, 15, 20, 1000]))
    if rng.random() < 0.6:
        lim["minimum_peak_utilisation"] = float(rng.choice([0.0, 0.3, 0.5, 0.7, 0.8, 0.9, 1.0]))
    if rng.random() < 0.6:
        lim["minimum_fit_error"] = float(rng.choice([0.0, 1e-9, 1e-3, 0.05, 0.1, 0.2, 0.5, 1.0, 2.0]))
    if i % 5 == 0:
        return unsatisfiable(ctx, rng, i)
    desc, p, kw, fit = fitload.random_fit(rng, small=i % 16 == 9, limits=lim)
    # samples that break the limits are redrawn up to 1000 times per try
    fit["max_tries"] = 1 if desc["family"] == "few" else min(fit["max_tries"], int(rng.integers(1, 5)))
    desc["fit"] = dict(fit)
    c = gen.calibrator(p, **kw)
    had = False
    if rng.random() < 0.4:
        # an earlier, unconstrained success must not leak into the limited fit
        c.set_ransac_properties(minimum_peak_utilisation=0, minimum_fit_error=1e-9)
        c.minimum_matches = 0 if "minimum_matches" not in lim else c.minimum_matches
        if "minimum_matches" in lim:
            c.set_ransac_properties(minimum_matches=1)
        f0 = dict(fit)
        f0["max_tries"] = 5
        had = fitload.attempt(c, **f0) is not None
        c.set_ransac_properties(**lim)
        if "minimum_fit_error" not in lim:
            lim["minimum_fit_error"] = 1e-9
    else:
        lim.setdefault("minimum_fit_error", kw["ransac"]["minimum_fit_error"])
    r = fitload.attempt(c, had, **fit)
    if had:
        ctx.counts["second-fit"] += 1
    if r is None:
        ctx.tag("fit-failed")
    else:
        judge(ctx, c, p, r, lim, fit)
    ctx.case(bool(lim), **desc, limits=lim, returned=r is not None, second=had)


def unsatisfiable(ctx, rng, i):
    """Limits that no solution can satisfy: the fit has to raise, never return."""
    p = gen.problem(rng, n=int(rng.integers(10, 15)), spurious=0, extra=0, keep=1.0, deg=1, noise=0.3, rt=50.0)
    kind = int(rng.integers(0, 3))
    lim = {}
    fit = dict(fit_deg=int(rng.integers(1, 3)), max_tries=1, candidate_tolerance=10.0)
    if kind == 0:
        # a fit with no error smaller than the tolerance can exist
        lim["minimum_fit_error"] = p["tol"] * float(rng.uniform(1.05, 3))
    elif kind == 1:
        # more matches than there are lines that can be matched
        p["peaks"] = np.unique(np.r_[p["peaks"], rng.uniform(0, p["sg"].npix - 1, 40)])
        lim["minimum_peak_utilisation"] = float(rng.uniform(0.5, 1.0))
        p["atlas"] = p["atlas"][: int(len(p["peaks"]) * lim["minimum_peak_utilisation"]) - 4]
    else:
        # too few lines for the degree
        k = int(rng.integers(1, 4))
        p["peaks"] = p["peaks"][:k]
        p["atlas"] = p["atlas"][:8]
        fit["fit_deg"] = k + int(rng.integers(0, 2))
    c = gen.calibrator(p, hough=dict(num_slopes=100, xbins=20, ybins=20), ransac=lim)
    had = False
    if kind == 0 and rng.random() < 0.5:
        c.set_ransac_properties(minimum_fit_error=1e-9)
        had = fitload.attempt(c, fit_deg=1, max_tries=10, candidate_tolerance=10.0) is not None
        c.set_ransac_properties(**lim)
        if had:
            ctx.counts["second-fit"] += 1
    e = ctx.raises("unsatisfiable-raises", c.fit, progress=False, **fit)
    ctx.check(e is None or isinstance(e, AssertionError), "unsatisfiable-raises", error=repr(e), kind=kind)
    ctx.case(True, kind=kind, limits=lim, fit=fit, peaks=len(p["peaks"]), atlas=len(p["atlas"]), second=had)


def rejected(ctx, rng):
    p = gen.problem(rng, n=6)
    c = gen.calibrator(p)
    good = dict(minimum_matches=int(rng.integers(1, 9)), minimum_peak_utilisation=float(rng.uniform(0, 1)), minimum_fit_error=float(rng.uniform(0, 1)))
    c.set_ransac_properties(**good)
    for bad in (dict(minimum_matches=0), dict(minimum_matches=-3), dict(minimum_peak_utilisation=-0.01), dict(minimum_peak_utilisation=1.01),
                dict(minimum_fit_error=-1e-6)):
        ctx.raises("rejected", c.set_ransac_properties, **bad)
        got = {k: getattr(c, k) for k in good}
        ctx.check(got == good, "rejected", bad=bad, got=got, want=good)
    edge = dict(minimum_matches=1, minimum_peak_utilisation=float(rng.choice([0.0, 1.0])), minimum_fit_error=0.0)
    c.set_ransac_properties(**edge)
    ctx.check({k: getattr(c, k) for k in edge} == edge, "edge-accepted", want=edge)
