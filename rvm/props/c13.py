"""C13: reproducibility and isolation. Offline comparison of recorded runs, fingerprints of every array argument."""
import json
import os
import subprocess
import sys

import numpy as np

from rvm import gen, repro
from rvm.core import SRC, VERIF, Inconclusive

ID = "C13"
LEVEL = "exploration"
RULE = "a calibration program run at least twice (repeated, after other work, in another process), or a session whose arguments were fingerprinted, distinct by program"
ASSUMPTIONS = ["same machine, libraries and thread count", "the seed is set before the fit, as documented"]
REQUIRED = {"repeat": 50, "other-process": 30, "after-other-work": 50, "caller-changes": 20, "arguments-unchanged": 200, "no-shared-state": 40, "seed-matters": 1}
CHUNK = 1
CASE_SECONDS = 240


def cases(tier):
    return 90 if tier == "quick" else 900


def same(ctx, a, b, monitor, **d):
    bad = sorted(k for k in set(a) | set(b) if a.get(k) != b.get(k))
    ctx.check(not bad, monitor, differ=bad, **d)


def run(ctx, rng, i):
    if i % 3 == 2:
        return arguments(ctx, rng, i)
    seeds = [int(rng.integers(0, 10**6)) for _ in range(3 if i % 3 == 0 else 2)]
    base = [repro.execute(s) for s in seeds]
    for s, b in zip(seeds, base):
        ctx.data.setdefault("digests", []).append([s, b["fit0"], b["candidates0"]])
        ctx.tag("fit-returned" if b["fit0"] != "failed" else "fit-failed")
    # again, in another order, with other work and settings in between
    for k in np.random.default_rng(seeds[0]).permutation(len(seeds)):
        s = seeds[k]
        same(ctx, base[k], repro.execute(s), "repeat", program=s)
        ev = []

        def hook(what, c, p):
            ev.append(what)
            st = np.random.get_state()
            other = gen.problem(rng, n=8)
            oc = gen.calibrator(other, seed=int(rng.integers(0, 1000)), hough=dict(num_slopes=50, xbins=10, ybins=10))
            if what == "configured":
                np.random.random(int(rng.integers(1, 50)))
                gen.fit(oc, max_tries=1, fit_deg=1)
                if len(np.asarray(p["peaks"])) > 2:
                    p["peaks"] = np.asarray(p["peaks"], float) * 1.0
            else:
                oc.do_hough_transform()
                c.get_pix_wave_pairs()
                np.random.set_state(st)

        same(ctx, base[k], repro.execute(s, dict(plotting_library=str(rng.choice(["matplotlib", "plotly"]))), hook), "after-other-work", program=s)
    if i % 3 == 0:
        settings = [dict(log_level=str(rng.choice(["debug", "info", "error", "critical"])), progress=bool(rng.random() < 0.6),
                         plotting_library=str(rng.choice(["matplotlib", "plotly"]))) for _ in seeds]
        jobs = [[s, t, int(rng.integers(1, 10**6))] for s, t in zip(seeds, settings)]
        env = dict(os.environ, PYTHONHASHSEED=str(int(rng.integers(1, 10**6))))
        env.pop("TQDM_DISABLE", None)
        q = subprocess.run([sys.executable, os.path.join(VERIF, "rvm", "repro.py"), VERIF, SRC, json.dumps(jobs)], env=env, cwd=ctx.tmp(),
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=200)
        line = [v for v in q.stdout.splitlines() if v.startswith("RESULT ")]
        if not line:
            ctx.check(False, "other-process", problem="child failed", stderr=q.stderr[-1500:])
            return
        for s, b, r, t in zip(seeds, base, json.loads(line[0][7:]), settings):
            same(ctx, b, r, "other-process", program=s, settings=t)
    ctx.case(True, programs=seeds, child=i % 3 == 0)


def finalize(ctx, results):
    """The runs compared are not trivially alike: other programs give other results."""
    fits = [d[1] for r in results for d in r["data"].get("digests", []) if d[1] != "failed"]
    ctx.check(len(fits) > 10 and len(set(fits)) > 0.9 * len(fits), "seed-matters", programs=len(fits), distinct=len(set(fits)))


def fp(o):
    import copy

    return (type(o), getattr(o, "dtype", None), repro.digest(o))


def guarded(ctx, name, fn, *a, **k):
    before = [fp(v) for v in a] + [fp(k[n]) for n in sorted(k)]
    ids = list(a) + [k[n] for n in sorted(k)]
    r = fn(*a, **k)
    after = [fp(v) for v in ids]
    ctx.check(before == after, "arguments-unchanged", call=name, changed=[n for n, (x, y) in enumerate(zip(before, after)) if x != y])
    return r


def snap(c):
    return {k: repro.digest(v) for k, v in vars(c).items() if isinstance(v, (int, float, str, bool, type(None), list, tuple, np.ndarray))}


def arguments(ctx, rng, i):
    from rascal import models, util
    from rascal.atlas import Atlas
    from rascal.calibrator import Calibrator
    from rascal.houghtransform import HoughTransform

    g = lambda name, fn, *a, **k: guarded(ctx, name, fn, *a, **k)
    p = gen.problem(rng, n=int(rng.integers(10, 16)), spurious=1, extra=3, deg=int(rng.integers(1, 3)), rt=50.0, noise=0.3)
    spec = gen.spectrum_of(p, rng)
    aslist = rng.random() < 0.5
    peaks = [float(v) for v in p["peaks"]] if aslist else np.array(p["peaks"])
    spectrum = [float(v) for v in spec] if rng.random() < 0.5 else np.array(spec)
    c = g("Calibrator", Calibrator, peaks, spectrum)
    twin = Calibrator(peaks, spectrum)
    # the caller's arrays change afterwards
    want = [repro.digest(list(peaks)), repro.digest(list(spectrum))]
    for arr in (peaks, spectrum):
        if isinstance(arr, list):
            arr[0] = -99.0
            arr.append(1e9)
        else:
            arr[:] = -1.0
    for z in (c, twin):
        ctx.check([repro.digest(list(z.peaks)), repro.digest(list(z.spectrum))] == want, "caller-changes", listed=aslist)
    npix = len(spec)
    pl = np.arange(npix) if rng.random() < 0.5 else list(range(npix))
    if rng.random() < 0.5:
        g("set_calibrator_properties", c.set_calibrator_properties, num_pix=npix, pixel_list=pl, seed=5)
    else:
        c.set_calibrator_properties(seed=5)
    c.set_hough_properties(num_slopes=100, xbins=20, ybins=20, min_wavelength=p["min_w"], max_wavelength=p["max_w"], range_tolerance=p["rt"], linearity_tolerance=100.0)
    c.set_ransac_properties(sample_size=5, top_n_candidate=5, ransac_tolerance=5.0, minimum_fit_error=1e-9)
    t0 = snap(twin)
    els, wl, it = ["X"] * len(p["atlas"]), [float(v) for v in p["atlas"]], [1.0] * len(p["atlas"])
    if rng.random() < 0.5:
        wl, it = np.array(wl), np.array(it)
    vac = bool(rng.random() < 0.3)
    if rng.random() < 0.5:
        a = Atlas()
        g("Atlas.add_user_atlas", a.add_user_atlas, els, wl, it, vacuum=vac)
        c.set_atlas(a)
        b = Atlas()
        ctx.check(len(b) == 0 and len(a) == len(wl), "no-shared-state", what="atlas")
    else:
        g("Calibrator.add_user_atlas", c.add_user_atlas, els, wl, it, vacuum=vac)
    if vac:
        c.clear_atlas()
        c.add_user_atlas(els, [float(v) for v in p["atlas"]])
    if rng.random() < 0.5:
        kp = np.array([10.0, 20.0]) if rng.random() < 0.5 else [10.0, 20.0]
        kw = np.asarray(p["sg"].wave([10.0, 20.0]))
        g("set_known_pairs", c.set_known_pairs, kp, list(kw) if rng.random() < 0.5 else kw)
    deg = max(1, p["sg"].deg)
    fc = p["sg"].coeff()
    fc = fc if rng.random() < 0.5 else [float(v) for v in fc]
    r = None
    try:
        if rng.random() < 0.5 and len(fc) > 1:
            r = g("fit", c.fit, max_tries=5, fit_coeff=fc, candidate_tolerance=10.0, progress=False)
        else:
            r = c.fit(max_tries=5, fit_deg=deg, candidate_tolerance=10.0, progress=False)
    except AssertionError as e:
        if "Couldn't fit" not in str(e):
            raise
    if r is not None:
        co = np.array(r[0]) if rng.random() < 0.5 else [float(v) for v in r[0]]
        g("match_peaks", c.match_peaks, co, refine=False, tolerance=10.0, robust_refit=bool(rng.random() < 0.5))
        if i % 2:
            co = np.array(co)
            try:
                g("match_peaks(refine)", c.match_peaks, co, n_delta=1, refine=True, tolerance=20.0, robust_refit=True)
            except ValueError:
                ctx.tag("refinement-failed")
        if c.matched_peaks is not None and len(c.matched_peaks) > deg + 1:
            mp, ma = np.array(c.matched_peaks, float), np.array(c.matched_atlas, float)
            if rng.random() < 0.5:
                mp, ma = list(mp), list(ma)
            x0 = [float(v) for v in r[0]]
            g("manual_refit", c.manual_refit, mp, ma, len(x0) - 1, x0)
            keep = repro.digest([list(mp), list(ma)])
            c.remove_pix_wave_pair(0)
            c.add_pix_wave_pair(1.0, 2.0)
            ctx.check(repro.digest([list(mp), list(ma)]) == keep, "arguments-unchanged", call="edits after manual_refit")
    ctx.check(snap(twin) == t0 and twin.atlas is None and twin.ht.hough_points is None, "no-shared-state", what="calibrator")
    # two atlases, two transforms
    h1, h2 = HoughTransform(), HoughTransform()
    for h in (h1, h2):
        h.set_constraints(0.5, 5.0, 2000.0, 7000.0)
    x, y = np.array(c.pairs[:40, 0]), np.array(c.pairs[:40, 1])
    g("generate_hough_points", h1.generate_hough_points, x, y, num_slopes=30)
    ctx.check(h2.hough_points is None, "no-shared-state", what="transform")
    g("generate_hough_points_brute_force", h2.generate_hough_points_brute_force, x, y)
    extra = np.array([[1.0, 3000.0], [2.0, 3500.0]])
    g("add_hough_points", h1.add_hough_points, extra)
    n2 = len(h2.hough_points)
    g("add_hough_points", h1.add_hough_points, h2.hough_points)
    h1.bin_hough_points(5, 5)
    ctx.check(len(h2.hough_points) == n2, "no-shared-state", what="added transform")
    # functions
    w = np.sort(rng.uniform(3000, 9000, 12))
    w = list(w) if rng.random() < 0.5 else w
    g("vacuum_to_air_wavelength", util.vacuum_to_air_wavelength, w)
    g("air_to_vacuum_wavelength", util.air_to_vacuum_wavelength, w)
    s2 = np.array(spec) if rng.random() < 0.5 else [float(v) for v in spec]
    e2 = np.round(p["peaks"][:5]) if rng.random() < 0.5 else [int(v) for v in p["peaks"][:5]]
    g("refine_peaks", util.refine_peaks, s2, e2)
    g("robust_polyfit", models.robust_polyfit, np.arange(9.0), np.arange(9.0) ** 2, 2, [0.1, 0.2, 0.9])
    g("robust_polyfit", models.robust_polyfit, np.arange(9.0), np.arange(9.0) ** 2, 2, np.array([0.1, 0.2, 0.9]))
    g("load_calibration_lines", util.load_calibration_lines, ["Ne", "Ar"], 5000, 5600, 10, 2, brightest_n_lines=9)
    ctx.tag("session")
    ctx.case(True, session=i, peaks=p["peaks"][:4], fitted=r is not None)
