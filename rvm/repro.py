"""Seeded calibration programs and their digests; also run as a child process by the C13 check."""
import hashlib
import json
import os
import sys

import numpy as np


def flat(o, out):
    """A bit-exact textual form."""
    if isinstance(o, (list, tuple)):
        out.append("[%d" % len(o))
        for v in o:
            flat(v, out)
    elif isinstance(o, np.ndarray):
        flat(o.tolist(), out)
    elif isinstance(o, (float, np.floating)):
        out.append(float(o).hex())
    elif isinstance(o, (int, np.integer)):
        out.append(str(int(o)))
    else:
        out.append(repr(o))
    return out


def digest(o):
    return hashlib.sha1("|".join(flat(o, [])).encode()).hexdigest()[:16]


def program(seed):
    """Everything that determines the calibration, as plain data."""
    from rvm import fitload

    rng = np.random.default_rng([13, seed])
    desc, p, kw, fit = fitload.random_fit(rng, small=seed % 9 == 8)
    fit["max_tries"] = 1 if desc["family"] == "few" else min(fit["max_tries"], 4)
    if rng.random() < 0.25 and desc["family"] != "few" and not fit.get("brute_force"):
        # candidates around a supplied solution are drawn at random
        t = p["sg"].coeff()
        fit["fit_coeff"] = [float(v) for v in (t if len(t) > 1 else np.r_[t, 0.0])]
        fit.pop("fit_type", None)
        kw["ransac"]["linear"] = False
    rseed = int(rng.integers(0, 2**31))
    if seed % 4 == 1:
        rseed = [0, 0, 1, 2**32 - 1, np.int64(rseed), np.uint32(0)][seed // 4 % 6]
    return desc, p, kw, fit, rseed, [str(e) for e in rng.permutation(["Ne", "Ar", "He", "Kr"])[: int(rng.integers(1, 4))]]


def lookalike(seed, kind, p, kw):
    """Another calibration that agrees with this one in many of its settings."""
    rng = np.random.default_rng([14, seed, kind])
    p, kw = dict(p), {k: (dict(v) if isinstance(v, dict) else v) for k, v in kw.items()}
    n = p["sg"].npix
    if kind in (0, 3):
        pk = np.asarray(p["peaks"], float)
        p["peaks"] = np.unique(np.clip(pk + rng.uniform(-0.03, 0.03, len(pk)) * n, 0, n - 1))
    if kind in (1, 3):
        a = np.asarray(p["atlas"], float)
        p["atlas"] = np.sort(a + rng.uniform(-60, 60, len(a)))
    if kind == 2:
        p["min_w"], p["max_w"] = p["min_w"] + 15.0, p["max_w"] - 20.0
        kw["ransac"]["ransac_tolerance"] = 3.3
    return p, kw


def execute(seed, settings=None, hook=None, like=None):
    """Digests of every result of the program. settings must not matter."""
    from rvm import fitload, gen
    from rascal.atlas import Atlas

    st = settings or {}
    desc, p, kw, fit, rseed, els = program(seed)
    if like is not None:
        p, kw = lookalike(seed, like, p, kw)
    out = {}
    c = gen.calibrator(p, seed=rseed, **kw, **{k: st[k] for k in ("log_level", "plotting_library") if k in st})
    if hook:
        hook("configured", c, p)
    c.set_calibrator_properties(seed=rseed, **{k: st[k] for k in ("log_level",) if k in st})
    had = False
    for k in range(2):
        r = fitload.attempt(c, had, **dict(fit, progress=st.get("progress", False)))
        out["fit%d" % k] = digest(list(r)) if r is not None else "failed"
        had = had or r is not None
        out["candidates%d" % k] = digest([list(c.candidate_peak), list(c.candidate_arc)])
        if hook:
            hook("fitted", c, p)
    out["hough"] = digest([np.asarray(c.hough_points), np.asarray(c.ht.hist), np.asarray(c.hough_lines)])
    out["pairs"] = digest(np.asarray(c.pairs))
    if r is not None and "fit_type" not in fit:
        m = c.match_peaks(tolerance=8.0, refine=False, robust_refit=True)
        out["match"] = digest(list(m))
        if len(c.matched_peaks) > 4:
            c.add_pix_wave_pair(float(p["peaks"][0]) + 0.5, float(p["sg"].wave(p["peaks"][0] + 0.5)))
            c.remove_pix_wave_pair(2)
            out["refit"] = digest(list(c.manual_refit(degree=1)))
    a = Atlas(els, min_atlas_wavelength=4000, max_atlas_wavelength=6000, min_intensity=20, min_distance=5)
    out["atlas"] = digest([a.get_lines(), [str(e) for e in a.get_elements()], a.get_intensities()])
    out["rng"] = digest(np.random.get_state()[1])
    return out


def child(argv):
    sys.path.insert(0, argv[0])
    sys.path.insert(0, argv[1])
    import logging
    import warnings

    warnings.simplefilter("ignore")
    jobs = json.loads(argv[2])
    logging.getLogger("Calibrator").addHandler(logging.NullHandler())
    import matplotlib

    matplotlib.use("Agg")
    res = []
    for seed, settings, burn in jobs:
        if burn % 3:
            # similar calibrations have been done before in this process
            for kind in (burn % 4, (burn // 4) % 4):
                try:
                    execute(seed, like=kind)
                except (AssertionError, ValueError):
                    pass
        np.random.seed(burn)
        np.random.random(burn % 1000)
        res.append(execute(seed, settings))
    print("RESULT " + json.dumps(res))


if __name__ == "__main__":
    child(sys.argv[1:])
