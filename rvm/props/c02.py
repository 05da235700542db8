"""C02: separation and brightest-N filters. Oracle: brute-force neighbours / ranking."""
import numpy as np

from rvm import gen, refs

ID = "C02"
LEVEL = "exploration"
RULE = "a selection in which the brightest-N or the separation filter removes some but not all lines"
ASSUMPTIONS = [
    "separations are judged on the vacuum list, or in air up to 0.1 percent around the threshold",
    "which of equally bright lines survives the cut at N is not judged",
]
REQUIRED = {"separation-exact": 200, "separation": 200, "brightest-count": 200, "brightest-not-fainter": 200,
            "filter_separation": 100, "atlas-per-element": 60, "order-of-filters": 60}
CHUNK = 4


def cases(tier):
    return 1600 if tier == "quick" else 40000


def write(rng, path):
    """A line list on an exact binary grid of 1/4 Angstrom with unique intensities."""
    n = int(rng.choice([1, 2, 3, 10, 40, 120]))
    span = int(rng.choice([100, 1000, 8000]))
    n = min(n, span // 2)
    wl = 4000 + 0.25 * rng.choice(np.arange(span), n, replace=False)
    order = rng.random()
    if order < 0.5:
        wl = np.sort(wl)
    elif order < 0.65:
        wl = np.sort(wl)[::-1]
    it = rng.permutation(n) + 1.0
    el = [str(rng.choice(["He", "Ne", "Ar"])) for _ in range(n)]
    with open(path, "w") as f:
        for e, w, x in zip(el, wl, it):
            f.write("%s,%.2f,%.1f\n" % (e, w, x))
    return el, wl, it, order < 0.5


def key(r):
    return sorted((round(float(w), 7), str(e).lower(), float(i)) for e, w, i in zip(*r))


def run(ctx, rng, i):
    from rascal.atlas import Atlas
    from rascal.util import filter_separation, load_calibration_lines

    # direct use of the mask
    n = int(rng.choice([0, 1, 2, 3, 10, 50]))
    w = 0.5 * rng.choice(np.arange(200), n, replace=False)
    if rng.random() < 0.6:
        w = np.sort(w)
    s = 0.5 * int(rng.integers(0, 12))
    keep = w.copy()
    m = np.asarray(filter_separation(w, s)) if rng.random() < 0.5 or n == 0 else np.asarray(filter_separation(list(w), s))
    ctx.check(m.shape == (n,) and np.array_equal(m.astype(bool), refs.separated(w, s)) and np.array_equal(w, keep),
              "filter_separation", w=w, sep=s, mask=m)

    custom = rng.random() < 0.6
    base = dict(min_atlas_wavelength=2500.0, max_atlas_wavelength=12000.0)
    if custom:
        path = ctx.tmp("l.csv")
        el, wl, it, is_sorted = write(rng, path)
        base.update(linelist=path)
        pool = sorted(set(el))
        elements = [str(x) for x in rng.choice(pool, int(rng.integers(1, len(pool) + 1)), replace=False)]
        vac = rng.random() < 0.8
    else:
        el, wl, it = refs.catalogue()
        elements = [str(x) for x in rng.choice(gen.ELEMENTS, int(rng.integers(1, 4)), replace=False)]
        lo = rng.uniform(3000, 8000)
        base.update(min_atlas_wavelength=lo, max_atlas_wavelength=lo + rng.uniform(200, 4000))
        vac = rng.random() < 0.5
    base.update(vacuum=vac, elements=elements)
    thr = float(rng.choice([0.0, 1.0, 5.0, 10.0, 30.0, 100.0]))
    N = None if rng.random() < 0.35 else int(rng.choice([0, 1, 2, 5, 20, 100, 5000]))
    sep = float(rng.choice([0.0, 0.25, 0.5, 1.0, 2.5, 10.0, 40.0, 300.0]))
    L = lambda **k: load_calibration_lines(**{**base, **k})
    all_ = L(min_intensity=thr, min_distance=0)
    cut = L(min_intensity=thr, min_distance=0, brightest_n_lines=N)
    fin = L(min_intensity=thr, min_distance=sep, brightest_n_lines=N)
    A, C, F = key(all_), key(cut), key(fin)
    desc = dict(elements=elements, thr=thr, N=N, sep=sep, vacuum=vac, custom=custom, n=[len(A), len(C), len(F)],
                lo=base["min_atlas_wavelength"])
    ctx.case(0 < len(F) < len(A), **desc)
    ctx.tag("removed-by-brightness", len(A) - len(C))
    ctx.tag("removed-by-separation", len(C) - len(F))
    if custom:
        # the unfiltered list is the file (vacuum: exactly)
        low = [e.lower() for e in elements]
        want = sorted((round(float(w), 7), e.lower(), float(x)) for e, w, x in zip(el, wl, it) if e.lower() in low and x >= thr)
        if vac:
            ctx.check(A == want, "unfiltered", **desc)
    # brightest N
    want_n = len(A) if N is None else min(N, len(A))
    ctx.check(len(C) == want_n, "brightest-count", **desc)
    pool = list(A)
    sub = True
    for x in C:
        if x in pool:
            pool.remove(x)
        else:
            sub = False
    ctx.check(sub, "brightest-subset", **desc)
    if sub and C and pool:
        ctx.check(min(x[2] for x in C) >= max(x[2] for x in pool), "brightest-not-fainter", **desc)
    # separation among the survivors
    w = np.array([x[0] for x in C])
    if len(w) == len(set(w)):
        d = np.full(len(w), np.inf)
        if len(w) > 1:
            g = np.diff(w)  # C is sorted by wavelength
            d = np.minimum(np.r_[np.inf, g], np.r_[g, np.inf])
        exact = vac and custom
        fuzz = 0.0 if exact else 2e-3 * sep + 1e-5
        if exact:
            must, may = d >= sep, d >= sep
        else:
            must, may = d >= sep + fuzz, d >= sep - fuzz
        got = [x in F for x in C]
        okm = all(g or not m for g, m in zip(got, must)) and all(m or not g for g, m in zip(got, may)) and len(F) == sum(got)
        if sep == 0:
            okm = okm and F == C
        ctx.check(okm, "separation", **desc, bad=[(x, float(y), g) for x, y, g, m, n in zip(C, d, got, must, may) if (m and not g) or (g and not n)][:5])
        if exact:
            ctx.check(okm, "separation-exact", **desc)
            if len(w) == 1:
                ctx.check(len(F) == 1, "only-line-kept", **desc)
        if N is not None and sep > 0:
            ctx.check(okm, "order-of-filters", **desc)
    # the same through Atlas.add, which filters every element separately
    if i % 2 == 0:
        b = dict(base)
        els = b.pop("elements")
        a = Atlas()
        k = {} if N is None and rng.random() < 0.5 else dict(brightest_n_lines=N)
        a.add(elements=els, min_intensity=thr, min_distance=sep, **b, **k)
        want = []
        for e in els:
            want += key(load_calibration_lines(**{**b, "elements": [e]}, min_intensity=thr, min_distance=sep,
                                               brightest_n_lines=N if "brightest_n_lines" in k else 1000))
        ctx.check(key((a.get_elements(), a.get_lines(), a.get_intensities())) == sorted(want), "atlas-per-element", **desc)
