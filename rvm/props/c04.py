"""C04: refractive index and air/vacuum conversion. Oracle: independent modified Edlen equation."""
import numpy as np

from rvm import refs

ID = "C04"
LEVEL = "exploration"
RULE = "a set of wavelengths and conditions at which both conversions were compared with the reference, distinct by conditions"
ASSUMPTIONS = ["the reference implements the NIST Engineering Metrology Toolbox formulas independently (IAPWS-IF97 check value verified at start)"]
REQUIRED = {"air": 800, "vacuum": 800, "round-trip": 800, "index": 300, "form": 300, "published": 8}
CHUNK = 8

# Engineering Metrology Toolbox style anchor values (n - 1) * 1e8 computed by hand from the formula
# are covered by the reference; here the published refractivity table of Birch and Downs (1993/94),
# standard air 15 C, 101325 Pa, dry, 450 ppm CO2: (vacuum nm, (n-1)*1e8)
PUBLISHED = [(632.9908, 27653.0)]


def cases(tier):
    return 2400 if tier == "quick" else 40000


def run(ctx, rng, i):
    from rascal import util

    n = int(rng.choice([1, 2, 7, 40]))
    lam = rng.uniform(2000, 20000, n)
    cond = {}
    if rng.random() < 0.85:
        cond = dict(temperature=float(rng.uniform(273.15, 313.15)), pressure=float(rng.uniform(5e4, 1.1e5)),
                    relative_humidity=float(rng.choice([0.0, 100.0, rng.uniform(0, 100)])))
        for k in list(cond):
            if rng.random() < 0.15:
                cond.pop(k)
    if cond.get("temperature") and rng.random() < 0.2:
        cond["temperature"] = float(round(cond["temperature"]))
        if rng.random() < 0.5:
            cond["temperature"] = int(cond["temperature"])
    T, p, rh = cond.get("temperature", 273.15), cond.get("pressure", 101325.0), cond.get("relative_humidity", 0.0)
    ctx.case(True, lam=lam[:5], n=n, cond=cond)
    form = int(rng.integers(0, 5))
    arg = {0: lam.copy(), 1: list(lam), 2: float(lam[0]), 3: tuple(lam), 4: np.float64(lam[0])}[form]
    if form in (2, 4):
        lam = lam[:1]
    if form == 0 and rng.random() < 0.3:
        lam = np.round(lam)
        arg = lam.astype(int) if rng.random() < 0.5 else [int(x) for x in lam]
    keep = np.array(arg, dtype=float)
    pos = (T, p, rh) if len(cond) == 3 and rng.random() < 0.3 else None
    call = lambda f, a: f(a, *pos) if pos else f(a, **cond)
    air = call(util.vacuum_to_air_wavelength, arg)
    vac = call(util.air_to_vacuum_wavelength, arg)
    ctx.check(np.array_equal(np.array(arg, dtype=float), keep), "form", what="argument modified")
    ctx.check(np.shape(air) == np.shape(arg) and np.shape(vac) == np.shape(arg), "form", shape=[np.shape(air), np.shape(arg)])
    air, vac = np.atleast_1d(np.asarray(air, float)), np.atleast_1d(np.asarray(vac, float))
    ra, rv = refs.vac_to_air(lam, T, p, rh), refs.air_to_vac(lam, T, p, rh)
    ctx.check(np.allclose(air, ra, rtol=3e-12, atol=0), "air", cond=cond, lam=lam, got=air, want=ra)
    ctx.check(np.allclose(vac, rv, rtol=3e-12, atol=0), "vacuum", cond=cond, lam=lam, got=vac, want=rv)
    ctx.check(np.all((air < lam) & (lam < vac) & ((lam - air) / lam < 4e-4) & ((lam - air) / lam > 0.9e-4)), "shift", cond=cond, got=air)
    back = np.atleast_1d(np.asarray(call(util.vacuum_to_air_wavelength, vac), float))
    forth = np.atleast_1d(np.asarray(call(util.air_to_vacuum_wavelength, air), float))
    ctx.check(np.allclose(back, lam, rtol=0, atol=2e-3) and np.allclose(forth, lam, rtol=0, atol=2e-3), "round-trip", lam=lam, back=back, forth=forth)
    # element-wise agreement between forms
    one = [float(call(util.vacuum_to_air_wavelength, float(x))) for x in lam[:3]]
    ctx.check(np.allclose(one, air[: len(one)], rtol=1e-14, atol=0), "form", one=one, many=air[:3])
    # the building blocks, in their documented units
    t = T - 273.15
    psat = util.get_vapour_pressure(t)
    ctx.check(np.isclose(psat, refs.saturation_vapour_pressure(T), rtol=1e-9), "index", t=t, got=psat)
    pv = util.get_vapour_partial_pressure(rh, psat)
    ctx.check(np.isclose(pv, rh / 100 * psat, rtol=1e-12), "index", got=pv)
    idx = np.atleast_1d(np.asarray(util.edlen_refraction(arg, t, p, pv), float))
    ctx.check(np.allclose(idx, refs.refractive_index(lam, T, p, rh), rtol=0, atol=3e-13), "index", got=idx)
    # humid air is optically thinner, denser air thicker
    if rh == 0.0:
        w = np.asarray(util.vacuum_to_air_wavelength(lam, T, p, 80.0), float)
        ctx.check(np.all(w > air[: len(w)]) if len(w) == len(air) else False, "humidity-sign")
    for nm, val in PUBLISHED:
        got = (float(util.edlen_refraction(nm * 10, 15.0, 101325.0, 0.0)) - 1) * 1e8
        ctx.check(abs(got - val) < 60, "published", nm=nm, got=got, want=val)
