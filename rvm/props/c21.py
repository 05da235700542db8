"""C21: known pairs. Monitors: the arguments of every trial polynomial fit, and the outcome against the truth."""
import numpy as np

from rvm import fitload, gen, polyhook, refs

ID = "C21"
LEVEL = "exploration"
RULE = "a fit with known pairs set through a history of valid and invalid calls, distinct by problem and history"
ASSUMPTIONS = [
    "trial fits are observed as calls of numpy.polynomial's least-squares fits during fit()",
    "effect on the solution is decided on aggregated success fractions",
]
REQUIRED = {"known-stored": 300, "rejected": 120, "not-matched": 60, "second-fit": 30, "consistent-solved": 1, "contradictory-changes": 1}
CHUNK = 2
CASE_SECONDS = 120


def cases(tier):
    return 320 if tier == "quick" else 6000


class Trials:
    """Records the points of every trial fit."""

    def __enter__(self):
        self.calls, self.n = [], 0
        polyhook.LISTENERS.append(self.see)
        return self

    def see(self, x, y, deg, a, k):
        self.n += 1
        if len(self.calls) < 4000:
            self.calls.append((np.array(x, float), np.array(y, float), k.get("w", a[2] if len(a) > 2 else None)))

    def __exit__(self, *a):
        polyhook.LISTENERS.remove(self.see)


def given(rng, pix, wave):
    """The same pairs as numbers, lists, tuples or arrays."""
    k = str(rng.choice(["list", "array", "tuple", "scalar", "int"]))
    if k == "scalar" and len(pix) == 1:
        return (float(pix[0]), float(wave[0])), k
    if k == "int" and len(pix):
        return ([int(v) for v in np.round(pix)], np.round(wave).astype(int)), k
    if k == "array":
        return (np.array(pix, float), np.array(wave, float)), k
    if k == "tuple":
        return (tuple(pix), tuple(wave)), k
    return ([float(v) for v in pix], [float(v) for v in wave]), "list"


def bad_call(rng):
    q = int(rng.integers(0, 7))
    n = int(rng.integers(1, 4))
    p, w = [float(v) for v in rng.uniform(0, 500, n)], [float(v) for v in rng.uniform(4000, 6000, n)]
    if q == 0:
        return p + [1.0], w
    if q == 1:
        return p, w[:-1]
    if q == 2:
        p[int(rng.integers(0, n))] = None
    elif q == 3:
        w[int(rng.integers(0, n))] = None
    elif q == 4:
        p = np.array(p)
        p[int(rng.integers(0, n))] = np.nan
    elif q == 5:
        w = np.array(w)
        w[int(rng.integers(0, n))] = np.nan
    else:
        return (None, 5000.0) if rng.random() < 0.5 else (100.0, np.nan)
    return p, w


def run(ctx, rng, i):
    kind = ["history", "consistent", "contradictory", "history"][i % 4]
    p = gen.problem(rng, n=int(rng.integers(18, 26)), keep=1.0, spurious=0, extra=1, deg=int(rng.integers(1, 3)), rt=50.0, noise=0.1,
                    npix=int(rng.integers(700, 2000)))
    sg = p["sg"]
    p["min_w"] = float(sg.wave(0) + rng.uniform(-20, 20))
    p["max_w"] = float(sg.wave(sg.npix - 1) + rng.uniform(-20, 20))
    fit = dict(fit_deg=int(rng.integers(1, 4)) if kind == "history" else 2, max_tries=dict(history=20, consistent=150, contradictory=20)[kind])
    ransac = {}
    if kind == "history":
        ransac = dict(sample_size=int(rng.integers(2, 7)), candidate_weighted=bool(rng.random() < 0.5))
        if rng.random() < 0.2:
            fit["fit_type"] = str(rng.choice(["legendre", "chebyshev"]))
        if rng.random() < 0.15:
            p["peaks"] = p["peaks"][:6]
            fit.update(brute_force=True, fit_deg=1)
            ransac.update(sample_size=2, top_n_candidate=2)
    c = gen.calibrator(p, hough=dict(num_slopes=300 if kind == "history" else 1000, xbins=50, ybins=50), ransac=ransac, seed=int(rng.integers(0, 2**31)))
    ops, known = [], (np.zeros(0), np.zeros(0))
    if kind == "history":
        for _ in range(int(rng.integers(1, 6))):
            if rng.random() < 0.4:
                b = bad_call(rng)
                ctx.raises("rejected", c.set_known_pairs, *b)
                ops.append(["bad", [repr(v) for v in b]])
            else:
                n = int(rng.choice([0, 1, 1, 2, 3]))
                x = rng.uniform(-0.2 * sg.npix, 1.2 * sg.npix, n)
                if n and rng.random() < 0.3:
                    x[0] = rng.choice(p["peaks"])
                y = sg.wave(x) + rng.choice([0.0, 1.0, 30.0]) * rng.normal(0, 1, n)
                args, how = given(rng, x, y)
                if n == 0 and rng.random() < 0.5:
                    args = ()
                c.set_known_pairs(*args)
                known = tuple(np.array(np.ravel(a), float) for a in args) if args else (np.zeros(0), np.zeros(0))
                if how == "array":
                    # the caller goes on using the arrays
                    for a in args:
                        a += 77.0
                ops.append([how, n])
            stored(ctx, c, known, ops)
    else:
        n = int(rng.integers(1, 4))
        x = rng.uniform(-0.1 * sg.npix, 1.1 * sg.npix, n)
        y = sg.wave(x)
        if kind == "contradictory":
            x = rng.uniform(0.35, 0.65, n) * sg.npix
            y = sg.wave(x) + rng.choice([-1, 1]) * rng.uniform(0.25, 0.4) * sg.span
        args, how = given(rng, x, y)
        if kind == "consistent" and how == "int":
            args = ([float(v) for v in x], [float(v) for v in y])
        c.set_known_pairs(*args)
        known = tuple(np.array(np.ravel(a), float) for a in args)
        stored(ctx, c, known, [how])
    with Trials() as t:
        r = fitload.attempt(c, **fit)
    trials(ctx, c, p, known, t, dict(kind=kind, ops=ops, fit=fit))
    if kind == "history" and rng.random() < 0.5:
        # other pairs, or none, for the next fit
        n = int(rng.choice([0, 0, 1, 2]))
        x = rng.uniform(0, sg.npix, n)
        y = sg.wave(x)
        c.set_known_pairs(*([x, y] if n or rng.random() < 0.5 else []))
        known = (x, y)
        stored(ctx, c, known, "second")
        with Trials() as t:
            r2 = fitload.attempt(c, r is not None, **fit)
        r = r2 if r2 is not None else r
        trials(ctx, c, p, known, t, dict(kind=kind, ops=ops + ["second"], fit=fit))
        ctx.counts["second-fit"] += 1
    ok = False
    if r is not None:
        mp, ma = set(map(float, r[1])), set(map(float, r[2]))
        pk, at = set(map(float, p["peaks"])), set(map(float, p["atlas"]))
        ctx.check(mp <= pk and ma <= at, "not-matched", peaks=sorted(mp - pk), lines=sorted(ma - at), known=known, kind=kind)
        ok = np.max(np.abs(refs.poly(p["true_px"], r[0]) - p["true_wl"])) < p["tol"]
    ctx.data = dict(kind=kind, ok=bool(ok), failed=r is None)
    ctx.case(True, kind=kind, ops=ops, fit=fit, lo=round(sg.lo, 3), known=[np.round(k, 3) for k in known], solved=bool(ok), returned=r is not None)


def stored(ctx, c, known, ops):
    got = [np.zeros(0) if v is None else np.asarray(v, float).ravel() for v in (c.pix_known, c.wave_known)]
    ctx.check(all(np.array_equal(a, b) for a, b in zip(got, known)), "known-stored", got=got, want=known, ops=ops)


def trials(ctx, c, p, known, t, d):
    ctx.tag("trial-fits", t.n)
    if known[0].size:
        ctx.tag("trial-fits-with-known", t.n)
    pk, at = set(map(float, p["peaks"])), set(map(float, p["atlas"]))
    for x, y, w in t.calls:
        rest = list(zip(x.tolist(), y.tolist()))
        missing = []
        for k in zip(known[0].tolist(), known[1].tolist()):
            if k in rest:
                rest.remove(k)
            else:
                missing.append(k)
        if not ctx.check(not missing, "anchored", missing=missing, points=[x, y], **d):
            return
        ok = len(rest) >= 1 and all(a in pk and b in at for a, b in rest) and len({a for a, _ in rest}) == len(rest)
        if d["fit"].get("brute_force"):
            # a combination may hold several lines of one peak
            ok = len(rest) >= 1 and all(a in pk and b in at for a, b in rest)
        if not ctx.check(ok, "sample", rest=rest, known=known, **d):
            return
        if w is not None and known[0].size:
            ctx.tag("weighted-trial")


def finalize(ctx, results):
    for kind, m in (("consistent", "consistent-solved"), ("contradictory", "contradictory-changes")):
        rs = [r["data"] for r in results if r["data"].get("kind") == kind]
        k = sum(r["ok"] for r in rs)
        ctx.tag("solved-" + kind, k)
        ctx.tag("of-" + kind, len(rs))
        if len(rs) >= 20:
            ctx.check(k >= 0.75 * len(rs) if kind == "consistent" else k <= 0.3 * len(rs), m, solved=k, of=len(rs))
