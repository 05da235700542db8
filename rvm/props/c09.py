"""C09: consistency of fit results. Monitor on the return value and stored state of every fit."""
import numpy as np

from rvm import fitload, gen

ID = "C09"
LEVEL = "exploration"
RULE = "a fit that returned a solution, distinct by problem family, settings and fit arguments"
ASSUMPTIONS = [
    "residuals within 1e-6 of the cap are judged neither as capped nor as uncapped",
    "coefficients are judged as a power series, whichever basis the trial fits use",
]
REQUIRED = {"result-shape": 120, "one-to-one": 120, "residuals": 120, "rms": 120, "utilisation": 120, "stored": 120, "drawn-from-inputs": 120}
CHUNK = 2
CASE_SECONDS = 60


def cases(tier):
    return 320 if tier == "quick" else 6000


def run(ctx, rng, i):
    desc, p, kw, fit = fitload.random_fit(rng, small=i % 10 == 9)
    c = gen.calibrator(p, **kw)
    if rng.random() < 0.2:
        k = int(rng.integers(1, 3))
        px = rng.uniform(0, p["sg"].npix, k)
        c.set_known_pairs(px, p["sg"].wave(px))
        desc["known"] = k
    n = 1 if rng.random() < 0.7 else 3
    had, ok = False, 0
    for k in range(n):
        f = dict(fit)
        if k:
            f["fit_deg"] = int(rng.integers(1, 4))
            f.pop("fit_coeff", None)
            if not c.linear:
                f["fit_coeff"] = fit["fit_coeff"]
            if rng.random() < 0.4:
                p["tol"] = float(rng.choice([0.7, 3.0, 8.0]))
                c.set_ransac_properties(ransac_tolerance=p["tol"])
            if rng.random() < 0.4 and desc["family"] != "few":
                # other lines from now on
                extra = [float(v) for v in rng.uniform(p["min_w"], p["max_w"], 2)]
                if rng.random() < 0.5:
                    c.add_user_atlas(["Y"] * 2, extra, candidate_tolerance=10.0)
                elif len(c.atlas) > 8:
                    c.remove_atlas_lines_range(float(rng.choice(c.atlas.get_lines())), 1.0)
                if rng.random() < 0.5 and len(c.pairs):
                    c.do_hough_transform()
        r = fitload.attempt(c, had, **f)
        if r is None:
            ctx.tag("fit-failed")
            continue
        had = True
        ok += 1
        fitload.audit(ctx, c, p, r, f, tag=k)
    ctx.case(ok > 0, **desc, repeats=n)
