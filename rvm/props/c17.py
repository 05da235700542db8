"""C17: peak refinement. Ground-truth oracle on synthetic Gaussian spectra."""
import numpy as np

ID = "C17"
LEVEL = "exploration"
RULE = "a refined spectrum with at least one line, distinct by its lines, window and number type"
ASSUMPTIONS = [
    "no background, noise below 0.2 percent of the line, width 0.8 pixel to a quarter of the window, lines further apart than two windows plus four widths",
    "accuracy bound 0.05 pixel (clean: 0.01), centre at least one width from the first and last pixel",
]
REQUIRED = {"centre": 3000, "edge-line": 300, "fractional-estimate": 1000, "integer-type": 200, "distinct": 1000, "order": 1000, "independent": 500,
            "input-unchanged": 1000, "duplicate-estimates": 100, "missing-samples": 100}
CHUNK = 8


def cases(tier):
    return 6000 if tier == "quick" else 100000


def run(ctx, rng, i):
    from rascal import util

    w = int(rng.integers(6, 16))
    npix = int(rng.integers(4 * w + 40, 1500))
    smax = w / 4.0
    lines = []
    k = int(rng.integers(1, 14))
    sig = []
    sep = lambda a, sa, b, sb: abs(a - b) > 2 * w + 4 * (sa + sb) + 4
    for t in range(k * 20):
        s = float(rng.uniform(0.8, smax))
        q = rng.random()
        if q < 0.25:
            x = float(rng.choice([rng.uniform(s, w), npix - 1 - rng.uniform(s, w)]))
        elif q < 0.3:
            x = float(rng.choice([s + 0.05, npix - 1 - s - 0.05]))
        else:
            x = float(rng.uniform(s, npix - 1 - s))
        if all(sep(x, s, a, b) for a, b in zip(lines, sig)):
            lines.append(x)
            sig.append(s)
        if len(lines) >= k:
            break
    lines, sig = np.array(lines), np.array(sig)
    scale = float(10 ** rng.uniform(-3, 6))
    dt = str(rng.choice(["float", "float", "list", "int", "float32", "intlist"]))
    if dt.startswith("int"):
        scale = float(10 ** rng.uniform(4, 6))
    px = np.arange(npix)
    amp = rng.uniform(0.2, 1.0, len(lines)) * scale
    s = np.zeros(npix)
    for x, g, a in zip(lines, sig, amp):
        s += a * np.exp(-0.5 * ((px - x) / g) ** 2)
    noise = 0.0
    if rng.random() < 0.3:
        noise = 0.002
        s = s + rng.normal(0, noise * amp.min(), npix)
    nans = False
    if dt in ("float", "float32", "list") and rng.random() < 0.2:
        far = np.ones(npix, bool)
        for x, g in zip(lines, sig):
            far &= np.abs(px - x) > 4 * g
        bad = far & (rng.random(npix) < 0.1)
        s[bad] = np.nan
        nans = bool(bad.any())
    if dt == "int":
        s = np.round(s).astype(np.int64)
    elif dt == "intlist":
        s = [int(v) for v in np.round(s)]
    elif dt == "list":
        s = [float(v) for v in s]
    elif dt == "float32":
        s = s.astype(np.float32)
    order = rng.permutation(len(lines)) if rng.random() < 0.4 else np.argsort(lines)
    off = rng.uniform(-1, 1, len(lines)) * min(2.0, w / 4.0)
    est = np.clip(lines[order] + off[order], 0, npix - 1)
    which = list(order)
    frac = rng.random() < 0.6
    if not frac:
        est = np.round(est).astype(int)
    dup = noise == 0.0 and not dt.startswith("int") and dt != "float32" and rng.random() < 0.2
    if dup:
        j = int(rng.integers(0, len(which)))
        pos = int(rng.integers(0, len(which) + 1))
        est = np.insert(est, pos, est[j] + (1 if est[j] < npix - 2 else -1))
        which.insert(pos, which[j])
    first = list(dict.fromkeys(which))
    if rng.random() < 0.4:
        est = list(est)
    keep_s, keep_e = np.array(s, copy=True), np.array(est, copy=True)
    d = dict(window=w, npix=npix, dtype=dt, noise=noise, lines=lines, sigma=sig, estimates=est, nans=nans, dup=dup)
    kw = {} if w == 10 and rng.random() < 0.7 else dict(window_width=w)
    r = np.asarray(util.refine_peaks(s, est, **kw), float)
    ctx.check(np.array_equal(np.asarray(s), keep_s, equal_nan=True) and np.array_equal(np.asarray(est), keep_e), "input-unchanged", **d)
    ctx.check(len(set(r)) == len(r), "distinct", got=r, **d)
    ctx.check(len(r) == 0 or (r.min() >= 0 and r.max() < npix), "inside", got=r, **d)
    tol = 0.05 if noise or dt.startswith("int") or dt == "float32" else 0.01
    ok = ctx.check(len(r) == len(first), "all-refined", got=r, **d)
    if ok:
        # in the order of the estimates, each at its centre
        e = np.abs(r - lines[first])
        for v in e:
            ctx.check(v < tol, "centre", error=float(v), got=r, want=lines[first], **d)
        ctx.counts["order"] += 1
        near = (lines[first] < w) | (lines[first] > npix - 1 - w)
        ctx.counts["edge-line"] += int(near.sum())
        for name, yes in (("fractional-estimate", frac), ("integer-type", dt.startswith("int")), ("duplicate-estimates", dup), ("missing-samples", nans)):
            if yes:
                ctx.counts[name] += 1
        # a line is refined to the same place whatever else is asked for
        if len(first) > 1 and not dup:
            j = int(rng.integers(0, len(first)))
            one = np.asarray(util.refine_peaks(s, [est[j]], **kw), float)
            ctx.check(len(one) == 1 and abs(one[0] - r[j]) < 1e-6, "independent", alone=one, together=r[j], **d)
            half = [est[v] for v in range(len(first)) if v % 2 == j % 2]
            two = np.asarray(util.refine_peaks(s, half, **kw), float)
            ctx.check(len(two) == len(half) and np.allclose(two, r[j % 2 :: 2], atol=1e-6), "independent", alone=two, together=r, **d)
        if rng.random() < 0.2:
            # amplitude scale
            f = float(10 ** rng.uniform(-4, 4))
            r2 = np.asarray(util.refine_peaks(np.asarray(s, float) * f, est, **kw), float)
            ctx.check(len(r2) == len(r) and np.allclose(r2, r, atol=1e-3), "scale-free", got=r2, want=r, **d)
    ctx.tag("lines", len(lines))
    ctx.case(len(lines) > 0, window=w, npix=npix, dtype=dt, lines=lines, noise=noise)
