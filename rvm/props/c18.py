"""C18: synthetic spectra. Inversion oracle and setting-history monitor."""
import numpy as np

from rvm import gen, refs

ID = "C18"
LEVEL = "exploration"
RULE = "a setting history whose last query returned at least one pixel, distinct by coefficients and limits"
ASSUMPTIONS = ["dispersions monotonic over the whole real line, or with one turning point off the detector (any pixel with the right wavelength is accepted)", "wavelength reproduced within 0.01 Angstrom (or 1e-6 of the span)"]
REQUIRED = {"wavelengths": 600, "inversion": 500, "rejected": 150, "limits-retained": 150, "model-replaced": 200, "input-unchanged": 600}
CHUNK = 8


def cases(tier):
    return 4000 if tier == "quick" else 100000


def monotonic(rng, deg):
    """Coefficients, lowest order first, of a polynomial increasing everywhere (odd degree), or of
    a quadratic/quartic that is increasing from well below the lowest wavelength on."""
    lo = float(rng.uniform(2000, 6000))
    slope = float(rng.uniform(0.3, 6)) * float(rng.choice([1, 1, 1, -1]))
    scale = float(rng.choice([500.0, 2000.0]))
    if deg == 1:
        return [lo, slope]
    if deg == 3:
        # slope * (1 + e2 u + e3 u^2) > 0 everywhere
        e3 = rng.uniform(0.02, 0.3)
        e2 = rng.uniform(-1, 1) * np.sqrt(e3)
        return [lo, slope, slope * e2 / scale / 2, slope * e3 / scale**2 / 3]
    if deg == 5:
        e5 = rng.uniform(0.01, 0.1)
        e3 = rng.uniform(0.05, 0.3)
        e2 = rng.uniform(-0.5, 0.5) * np.sqrt(e3)
        return [lo, slope, slope * e2 / scale / 2, slope * e3 / scale**2 / 3, 0.0, slope * e5 / scale**4 / 5]
    return None


def get(ctx, s, cs, lo, hi, wl, ops):
    keep = list(wl)
    px, w = s.get_pixels(wl)
    ctx.check(list(wl) == keep, "input-unchanged", ops=ops)
    want = [v for v in keep if lo < v < hi]
    w = np.asarray(w, float)
    if not ctx.check(w.shape == (len(want),) and np.array_equal(w, np.asarray(want, float)), "wavelengths", ops=ops, limits=[lo, hi], got=w, want=want):
        return 0
    px = np.asarray(px, float)
    if not ctx.check(px.shape == w.shape, "inversion", ops=ops, shape=px.shape):
        return 0
    if len(w):
        e = np.max(np.abs(refs.poly(px, cs) - w))
        ctx.check(e < max(1e-2, 1e-6 * np.ptp(w)), "inversion", ops=ops, error=float(e), coefficients=cs, pixels=px[:5], wavelengths=w[:5])
    return len(w)


def run(ctx, rng, i):
    from rascal.synthetic import SyntheticSpectrum

    ops, n = [], 0
    if i % 4 == 3:
        return detector(ctx, rng, SyntheticSpectrum)
    lo, hi = 200.0, 1200.0
    cs = None
    kw = {}
    if rng.random() < 0.6:
        lo, hi = sorted(rng.uniform(1000, 9000, 2))
        kw = dict(min_wavelength=float(lo), max_wavelength=float(hi))
        if rng.random() < 0.3:
            kw = {k: int(v) for k, v in kw.items()}
        lo, hi = kw["min_wavelength"], kw["max_wavelength"]
        if hi <= lo:
            kw, lo, hi = {}, 200.0, 1200.0
    if rng.random() < 0.6:
        cs = monotonic(rng, int(rng.choice([1, 3, 5])))
        kw["coefficients"] = arg(rng, cs)
    ops.append(["new", kw])
    s = SyntheticSpectrum(**kw)
    if cs is not None:
        ctx.check(list(kw["coefficients"]) == list(cs), "input-unchanged", ops=ops)
    for step in range(int(rng.integers(2, 8))):
        op = str(rng.choice(["model", "limits", "bad", "get"]))
        if op == "model":
            had = cs is not None
            cs = monotonic(rng, int(rng.choice([1, 3, 5])))
            a = arg(rng, cs)
            s.set_model(a)
            ops.append(["model", cs])
            ctx.check(list(a) == list(cs), "input-unchanged", ops=ops)
            if had:
                ctx.counts["model-replaced"] += 1
        elif op == "limits":
            a, b = [float(v) for v in sorted(rng.uniform(1000, 12000, 2))]
            q = int(rng.integers(0, 4))
            if q == 0:
                s.set_wavelength_limit(a, b)
            elif q == 1 and a < hi:
                s.set_wavelength_limit(a)
                b = hi
            elif q == 2 and b > lo:
                s.set_wavelength_limit(max_wavelength=np.float64(b) if rng.random() < 0.5 else b)
                a = lo
            else:
                s.set_wavelength_limit(None, None)
                a, b = lo, hi
            if q:
                ctx.counts["limits-retained"] += 1
            lo, hi = a, b
            ops.append(["limits", q, lo, hi])
        elif op == "bad":
            bad = [dict(min_wavelength="1"), dict(max_wavelength=[1.0]), dict(min_wavelength=hi), dict(min_wavelength=hi + 1.0), dict(max_wavelength=lo),
                   dict(min_wavelength=9.0, max_wavelength=8.0), dict(min_wavelength=9.0, max_wavelength=9.0), dict(min_wavelength=1.0, max_wavelength="9"),
                   dict(min_wavelength="9", max_wavelength=1e5)]
            b = bad[int(rng.integers(0, len(bad)))]
            ctx.raises("rejected", s.set_wavelength_limit, **b)
            ctx.check((s.min_wavelength, s.max_wavelength) == (lo, hi), "rejected", bad=b, ops=ops, got=[s.min_wavelength, s.max_wavelength])
            for m in ("12", 3.0, (1.0, 2.0), None):
                ctx.raises("rejected", s.set_model, m, exc=TypeError)
            if cs is not None:
                ctx.raises("rejected", s.get_pixels, float(lo + 1), exc=TypeError)
            ops.append(["bad", b])
        if cs is not None:
            wl = rng.uniform(lo - 0.2 * (hi - lo), hi + 0.2 * (hi - lo), int(rng.integers(1, 12)))
            if rng.random() < 0.3:
                wl = np.r_[wl, lo, hi, np.nextafter(lo, 1e9), np.nextafter(hi, 0)]
            if rng.random() < 0.5:
                wl = np.sort(wl)
            if rng.random() < 0.4:
                wl = [float(v) for v in wl]
            elif rng.random() < 0.1:
                wl = wl.astype(int)
            n = get(ctx, s, cs, lo, hi, wl, ops)
            ctx.tag("degree-%d" % (len(cs) - 1))
    if cs is None:
        cs = monotonic(rng, 1)
        s.set_model(arg(rng, cs))
        n = get(ctx, s, cs, lo, hi, list(np.linspace(lo, hi, 7)), ops)
    ctx.case(n > 0, ops=ops)


def detector(ctx, rng, SyntheticSpectrum):
    """Dispersions that increase over a detector, of every degree, one after the other on one object."""
    s = None
    ops = []
    for k in range(int(rng.integers(1, 4))):
        sg = gen.Spectrograph(rng, deg=int(rng.integers(1, 5)))
        cs = [float(v) for v in sg.coeff()]
        # at most one turning point anywhere, and that off the detector
        roots = np.roots([k * v for k, v in enumerate(cs)][:0:-1]) if len(cs) > 2 else np.zeros(0)
        real = roots[np.abs(roots.imag) < 1e-6 * np.abs(roots)]
        if not sg.monotonic(0.1) or len(real) > 1:
            continue
        lo, hi = float(sg.wave(0)), float(sg.wave(sg.npix - 1))
        if s is None:
            s = SyntheticSpectrum(arg(rng, cs), lo, hi)
        else:
            s.set_wavelength_limit(lo, hi)
            s.set_model(arg(rng, cs))
            ctx.counts["model-replaced"] += 1
        ops.append([cs, lo, hi])
        wl = rng.uniform(lo - 50, hi + 50, int(rng.integers(3, 15)))
        n = get(ctx, s, cs, lo, hi, wl if rng.random() < 0.5 else list(wl), ops)
        ctx.tag("detector-degree-%d" % sg.deg)
        ctx.case(n > 0, detector=ops)


def arg(rng, cs):
    return np.array(cs) if rng.random() < 0.5 else list(cs)
