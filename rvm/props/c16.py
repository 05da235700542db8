"""C16: robust polynomial fitting. Monitor on the returns of the rascal.models functions."""
import numpy as np

from rvm import refs

ID = "C16"
LEVEL = "exploration"
RULE = "a fitted data set or evaluated model, distinct by degree, scale, noise and initial guess"
ASSUMPTIONS = [
    "offset of y below 20 standard deviations, condition number of the problem in x / std(x) below 1e5",
    "the loss of a returned fit may exceed the reference minimum by 1e-5 of it or by 1e-12 of the spread per point",
]
REQUIRED = {"exact": 300, "optimal": 300, "not-beaten": 300, "order-of-points": 150, "initial-guess": 150, "polynomial": 150, "input-unchanged": 300, "basis-fit": 200, "integers": 150}
CHUNK = 8


def cases(tier):
    return 2400 if tier == "quick" else 40000


def data(rng, deg, n):
    """x, truth predictor; well conditioned."""
    for _ in range(100):
        sx = float(10 ** rng.uniform(-2, 4))
        lo = float(rng.choice([0.0, -1.0, 0.3, rng.uniform(-2, 0.5)]))
        if deg >= 4:
            lo = float(rng.choice([0.0, -1.0]))
        x = sx * (lo + rng.random(n) * 2) if rng.random() < 0.5 else sx * (lo + 2 * np.arange(n) / n)
        if len(np.unique(x)) < deg + 1:
            continue
        A = np.vander(x / x.std(), deg + 1)
        if np.linalg.cond(A) > 1e5:
            continue
        return x
    return None


def cost(x, y, c):
    return refs.huber_cost((y - refs.poly(x, c)) / y.std())


def run(ctx, rng, i):
    from rascal import models

    if i % 8 == 7:
        return model(ctx, rng, models)
    if i % 8 == 6:
        return bases(ctx, rng, models)
    deg = int(rng.integers(1, 7))
    n = int(rng.choice([deg + 1, deg + 2, deg + 5, 15, 30, 80]))
    n = max(n, deg + 1)
    x = data(rng, deg, n)
    if x is None:
        deg, n = 1, 12
        x = np.arange(n) * 7.0
    if rng.random() < 0.25:
        # whole pixels
        xi = np.round(x)
        if len(np.unique(xi)) >= deg + 1 and np.linalg.cond(np.vander(xi / xi.std(), deg + 1)) < 1e5:
            x = xi.astype(int)
            ctx.counts["integers"] += 1
    # truth: order one in the scaled variable
    cs = rng.normal(0, 1, deg + 1)
    sy = float(10 ** rng.uniform(-1, 4))
    off = float(rng.choice([0.0, 1.0, 5.0])) if rng.random() < 0.7 else float(rng.uniform(-3, 3))
    truth = cs / x.std() ** np.arange(deg + 1) * sy
    truth[0] += off * sy
    y0 = refs.poly(x, truth)
    if y0.std() < 0.3 * sy:
        truth[1] += sy / x.std() * 3
        y0 = refs.poly(x, truth)
    noisy = rng.random() < 0.6
    nz = 0.0
    y = y0.copy()
    outl = 0
    if noisy:
        nz = float(rng.choice([1e-4, 1e-2, 0.1, 0.5]))
        y = y + rng.normal(0, nz * y0.std(), n)
        if rng.random() < 0.5 and n >= deg + 5:
            outl = int(rng.integers(1, max(2, n // 6)))
            k = rng.choice(n, outl, replace=False)
            y[k] += rng.choice([-1, 1], outl) * y0.std() * rng.uniform(3, 40, outl)
    if abs(y.mean()) > 20 * y.std():
        y = y - y.mean()
        nz = nz or 1e-4
    if nz and rng.random() < 0.2 and y.std() > 1e3:
        y = np.round(y).astype(int)
        ctx.counts["integers"] += 1
    guess = None
    mode = str(rng.choice(["none", "none", "truth", "near", "random", "lsq", "integers"]))
    if mode == "truth":
        guess = truth.copy()
    elif mode == "near":
        guess = truth * rng.uniform(0.9, 1.1, deg + 1)
    elif mode == "random":
        guess = rng.normal(0, 1, deg + 1) * sy / x.std() ** np.arange(deg + 1)
    elif mode == "lsq":
        guess = np.polynomial.polynomial.polyfit(x, y, deg)
    elif mode == "integers":
        guess = [int(np.clip(round(float(v)), -(10**9), 10**9)) for v in truth]
        if rng.random() < 0.5:
            guess = np.array(guess)
    if guess is not None and mode != "integers" and rng.random() < 0.6:
        guess = [float(g) for g in guess]
    xs, ys, gs = x.copy(), y.copy(), None if guess is None else list(guess)
    d = dict(deg=deg, n=n, noise=nz, outliers=outl, guess=mode, sx=float(x.std()), sy=float(y.std()))
    kw = {} if deg == 3 and rng.random() < 0.7 else dict(degree=deg)
    if guess is not None:
        kw["x0"] = guess
    p = models.robust_polyfit(x, y, **kw)
    ctx.check(np.array_equal(x, xs) and np.array_equal(y, ys) and (guess is None or list(guess) == gs), "input-unchanged", **d)
    p = np.asarray(p, float)
    if not ctx.check(p.shape == (deg + 1,) and np.all(np.isfinite(p)), "shape", p=p, **d):
        return
    A = np.vander(x / x.std(), deg + 1)
    kappa = float(np.linalg.cond(A))
    if guess is not None:
        ctx.counts["initial-guess"] += 1
    if nz == 0:
        # on the polynomial, between the points too
        q = np.linspace(x.min(), x.max(), 41)
        e = np.max(np.abs(refs.poly(q, p) - refs.poly(q, truth))) / y.std()
        ctx.check(e < 2e-4, "exact", error=e, kappa=kappa, p=p, truth=truth, **d)
    c = cost(x, y, p)
    pred, _ = refs.huber_fit(x, y, deg)
    ref = refs.huber_cost((y - pred(x)) / y.std())
    slack = 1e-5 * ref + 1e-9 * n
    ctx.check(c <= ref + slack, "optimal", cost=c, ref=ref, kappa=kappa, **d)
    ls = np.polynomial.Polynomial.fit(x, y, deg)
    worst = refs.huber_cost((y - ls(x)) / y.std())
    bump = min(refs.huber_cost((y - refs.poly(x, p) - d_ * y.std() * (x / np.abs(x).max()) ** k) / y.std())
               for k in range(deg + 1) for d_ in (-0.01, 0.01, -0.1, 0.1))
    ctx.check(c <= worst + slack and c <= bump + slack, "not-beaten", cost=c, lsq=worst, bump=bump, **d)
    if i % 3 == 0:
        o = rng.permutation(n)
        p2 = np.asarray(models.robust_polyfit(x[o], y[o], deg), float)
        e = np.max(np.abs(refs.poly(x, p2) - refs.poly(x, p))) / y.std()
        # a flat minimum leaves the predictions less determined than the loss
        flat = np.max(np.abs(y - pred(x))) > 0.9 * y.std()
        ctx.check((e < 5e-3 or flat) and abs(cost(x, y, p2) - c) <= slack, "order-of-points", diff=e, costs=[c, cost(x, y, p2)], **d)
    ctx.tag("noise-%g" % nz)
    ctx.case(True, **d)


def bases(ctx, rng, models):
    """The least-squares fits in other bases return the power series of the least-squares polynomial."""
    name = str(rng.choice(["legendre", "chebyshev"]))
    fit = getattr(models, name + "_polyfit")
    deg = int(rng.integers(1, 6))
    n = int(rng.choice([deg + 1, deg + 2, 20]))
    x = rng.uniform(-1, 1, n) * float(rng.choice([1.0, 3.0, 50.0]))
    for _ in range(50):
        if np.linalg.cond(np.vander(x / np.abs(x).max(), deg + 1)) < 1e4:
            break
        x = np.sort(np.cos(np.pi * (np.arange(n) + 0.5) / n)) * np.abs(x).max()
    truth = rng.normal(0, 1, deg + 1) / np.abs(x).max() ** np.arange(deg + 1) * 100
    if rng.random() < 0.3:
        truth[-1] = 0.0  # of lower degree than fitted
    y = refs.poly(x, truth) + (rng.normal(0, 5, n) if rng.random() < 0.5 else 0.0)
    if rng.random() < 0.3:
        x, y = list(x), list(y)
    keep = [list(x), list(y)]
    p = np.asarray(fit(x, y, deg), float)
    d = dict(basis=name, deg=deg, n=n, x=keep[0], truth=truth)
    ctx.check([list(x), list(y)] == keep, "input-unchanged", **d)
    if ctx.check(p.shape == (deg + 1,) and np.all(np.isfinite(p)), "basis-fit", got=p, **d):
        ls = np.polynomial.Polynomial.fit(x, y, deg)
        q = np.linspace(min(x), max(x), 30)
        e = np.max(np.abs(refs.poly(q, p) - ls(q))) / max(np.max(np.abs(y)), 1e-9)
        ctx.check(e < 1e-6, "basis-fit", error=e, got=p, **d)
    ctx.case(True, **d)


def model(ctx, rng, models):
    deg = int(rng.integers(0, 7))
    kind = str(rng.choice(["int", "float", "mixed", "array", "intarray"]))
    a = rng.normal(0, 3, deg + 1)
    if kind == "int":
        a = [int(v * 3) for v in a]
    elif kind == "mixed":
        a = [int(v * 3) if k % 2 else float(v) for k, v in enumerate(a)]
    elif kind == "float":
        a = [float(v) for v in a]
    elif kind == "intarray":
        a = (a * 3).astype(int)
    keep = list(a)
    xs = {
        "int": int(rng.integers(-9, 9)),
        "float": float(rng.uniform(-4, 4)),
        "np": np.float32(rng.uniform(-4, 4)),
        "array": rng.uniform(-4, 4, 7),
        "intarray": rng.integers(-6, 6, 5),
        "2d": rng.uniform(-2, 2, (3, 2)),
    }
    f = models.polynomial(a, deg) if deg != 3 or rng.random() < 0.5 else models.polynomial(a)
    for k, x in xs.items():
        want = refs.poly(x, [float(v) for v in keep][::-1])
        got = np.asarray(f(x), float)
        tol = 1e-9 * (1 + np.max(refs.poly(np.abs(np.asarray(x, float)), np.abs(np.asarray(keep, float))[::-1]))) * (1e4 if k == "np" else 1)
        ctx.check(np.allclose(got, want, rtol=0, atol=tol) and (deg == 0 or got.shape == np.shape(x)), "polynomial", kind=kind, x=k, a=keep, got=got, want=want)
    x, y = xs["array"], rng.normal(0, 2, 7)
    r = models.poly_cost_function(a, x, y, deg)
    ctx.check(np.allclose(r, y - refs.poly(x, [float(v) for v in keep][::-1]), atol=1e-7), "cost-function", a=keep)
    xn, yn = models.normalise_input(x, y)
    ctx.check(np.allclose([np.std(xn), np.std(yn)], 1) and np.allclose(xn * x.std(), x) and np.allclose(yn * y.std(), y), "normalised")
    ctx.check(list(a) == keep, "input-unchanged", a=keep)
    ctx.case(True, model=kind, deg=deg, a=[float(v) for v in keep])
