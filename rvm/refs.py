"""Independent reference implementations the oracles compare the real code with."""
import csv
import math
import os

import numpy as np

from .core import SRC

_CAT = None


def catalogue():
    """(elements, wavelengths, intensities) of the shipped line list, parsed independently."""
    global _CAT
    if _CAT is None:
        el, wl, it = [], [], []
        path = os.path.join(SRC, "rascal", "arc_lines", "nist_clean.csv")
        with open(path, newline="") as f:
            for row in csv.reader(f):
                if not row or row[0].lstrip().startswith("#"):
                    continue
                el.append(row[0].strip())
                wl.append(float(row[1]))
                it.append(float(row[2]))
        _CAT = (el, np.array(wl), np.array(it))
    return _CAT


def saturation_vapour_pressure(T):
    """IAPWS-IF97 region 4 saturation pressure in Pa, T in Kelvin."""
    k = (
        None,
        0.11670521452767e4,
        -0.72421316703206e6,
        -0.17073846940092e2,
        0.12020824702470e5,
        -0.32325550322333e7,
        0.14915108613530e2,
        -0.48232657361591e4,
        0.40511340542057e6,
        -0.23855557567849,
        0.65017534844798e3,
    )
    om = T + k[9] / (T - k[10])
    a = om * om + k[1] * om + k[2]
    b = k[3] * om * om + k[4] * om + k[5]
    c = k[6] * om * om + k[7] * om + k[8]
    return 1e6 * (2 * c / (-b + math.sqrt(b * b - 4 * a * c))) ** 4


assert abs(saturation_vapour_pressure(300.0) - 3536.58941) < 1e-4


def refractive_index(lam, T=273.15, p=101325.0, rh=0.0):
    """Modified Edlen equation (NIST Engineering Metrology Toolbox), lam in Angstrom, T in K,
    p in Pa, rh in percent."""
    lam = np.asarray(lam, dtype=float)
    t = T - 273.15
    s = (1e4 / lam) ** 2
    ns1 = 1e-8 * (8342.54 + 2406147.0 / (130.0 - s) + 15998.0 / (38.9 - s))
    x = (1.0 + 1e-8 * (0.601 - 0.00972 * t) * p) / (1.0 + 0.003661 * t)
    ntp1 = p * ns1 * x / 96095.43
    pv = rh / 100.0 * saturation_vapour_pressure(T)
    return 1.0 + ntp1 - 1e-10 * (292.75 / T) * (3.7345 - 0.0401 * s) * pv


def vac_to_air(lam, T=273.15, p=101325.0, rh=0.0):
    return np.asarray(lam, dtype=float) / refractive_index(lam, T, p, rh)


def air_to_vac(lam, T=273.15, p=101325.0, rh=0.0):
    return np.asarray(lam, dtype=float) * refractive_index(lam, T, p, rh)


def poly(x, c):
    """Power series, lowest order first."""
    x = np.asarray(x, dtype=float)
    r = np.zeros_like(x)
    for a in list(c)[::-1]:
        r = r * x + a
    return r


def cheb(x, c):
    return sum(a * np.cos(n * np.arccos(x)) for n, a in enumerate(c)) if np.all(np.abs(x) <= 1) else None


def separated(wl, sep):
    """Mask of the lines whose nearest neighbour is at least sep away."""
    wl = np.asarray(wl, dtype=float)
    out = np.ones(len(wl), dtype=bool)
    for i in range(len(wl)):
        if len(wl) > 1:
            d = np.abs(wl - wl[i])
            d[i] = np.inf
            out[i] = d.min() >= sep
    return out


def huber(r, delta=1.35):
    a = np.abs(r)
    return np.sum(np.where(a <= delta, 0.5 * a * a, delta * (a - 0.5 * delta)))


def huber_fit(x, y, deg, f=1.0):
    """Global minimum of the Huber loss of (y - p(x)) / std(y) over polynomials of the degree:
    Newton/IRLS in an orthogonal basis (a convex problem). Returns a predictor and the loss."""
    x, y = np.asarray(x, float), np.asarray(y, float)
    s = y.std() or 1.0
    lo, hi = x.min(), x.max()
    u = lambda q: 2 * (np.asarray(q, float) - lo) / ((hi - lo) or 1.0) - 1
    A = np.polynomial.legendre.legvander(u(x), deg)
    b = (y - y.mean()) / s
    c = np.linalg.lstsq(A, b, rcond=None)[0]
    best, cb = huber_cost(b - A @ c, f), c
    for _ in range(500):
        r = b - A @ c
        w = np.sqrt(np.minimum(1.0, f / np.maximum(np.abs(r), 1e-300)))
        c2 = np.linalg.lstsq(A * w[:, None], b * w, rcond=None)[0]
        k = huber_cost(b - A @ c2, f)
        if k < best:
            best, cb = k, c2
        if np.max(np.abs(c2 - c)) < 1e-14 * max(1.0, np.max(np.abs(c2))):
            break
        c = c2
    return (lambda q: y.mean() + s * np.polynomial.legendre.legval(u(q), cb)), best


def huber_cost(r, f=1.0):
    a = np.abs(np.asarray(r, float))
    return float(np.sum(np.where(a <= f, 0.5 * a * a, f * (a - 0.5 * f))))
