"""C01: line-list selection. Oracle: independent selection from the parsed catalogue / file."""
import itertools
import os
from collections import Counter

import numpy as np

from rvm import gen, refs

ID = "C01"
LEVEL = "exploration"
RULE = (
    "a selection from the shipped catalogue or a generated list file whose expected content is neither "
    "trivially empty nor the whole file, distinct by its arguments"
)
ASSUMPTIONS = [
    "lines within 2e-3 Angstrom of a limit are not judged when limits are air wavelengths",
    "list-file fields have at most 12 characters",
]
REQUIRED = {"selection": 200, "selection-again": 200, "atlas-selection": 60, "empty-selection": 20, "custom-list": 40}
CHUNK = 4
# documented defaults
LOAD = dict(min_atlas_wavelength=3000.0, max_atlas_wavelength=15000.0, min_intensity=10, vacuum=False, linelist="nist", brightest_n_lines=None)
ATLAS = dict(min_atlas_wavelength=3000.0, max_atlas_wavelength=5000.0, min_intensity=10, vacuum=False, linelist="nist")
ADD = dict(min_intensity=10, vacuum=False, linelist="nist")


def cases(tier):
    return 1600 if tier == "quick" else 40000


def spell(rng, e):
    return {0: e, 1: e.lower(), 2: e.upper(), 3: e.swapcase()}[int(rng.integers(0, 4))]


def conditions(rng):
    if rng.random() < 0.3:
        return {}
    return dict(
        pressure=float(rng.uniform(5e4, 1.1e5)),
        temperature=float(rng.uniform(273.15, 313)),
        relative_humidity=float(rng.uniform(0, 100)),
    )


def write_list(rng, path):
    n = int(rng.choice([0, 1, 2, 5, 30, 200], p=[0.0, 0.1, 0.1, 0.2, 0.3, 0.3]))
    el = [str(rng.choice(["He", "Ne", "Q1", "Xx", "ar"])) for _ in range(n)]
    digits = int(rng.choice([0, 2, 2, 4, 6]))
    wl = rng.choice(np.arange(300000, 900000), n, replace=False) / 100.0 + np.round(rng.uniform(0, 0.009, n), 6)
    wl = np.array([float("%.*f" % (digits, w)) for w in wl])
    if n > 1 and rng.random() < 0.4:
        # several lines at the very same wavelength
        k = int(rng.integers(1, max(2, n // 2)))
        wl[rng.choice(n, k)] = wl[rng.choice(n, k)]
    if rng.random() < 0.5:
        wl = np.sort(wl)
    it = np.round(rng.uniform(0, 500, n), 1)
    sep = str(rng.choice([",", ", "]))
    with open(path, "w") as f:
        if rng.random() < 0.5:
            f.write("# element, wavelength, intensity\n")
        for e, w, i in zip(el, wl, it):
            f.write("%s%s%.*f%s%.1f\n" % (e, sep, digits, w, sep, i))
    return el, wl, it


def expected(cat, elements, lo, hi, thr, vac, cond):
    """Multiset of surely selected lines and of undecidable (border) ones."""
    el, wl, it = cat
    low = [e.lower() for e in elements]
    out = wl if vac else refs.vac_to_air(wl, *(cond.get(k, d) for k, d in (("temperature", 273.15), ("pressure", 101325.0), ("relative_humidity", 0.0)))) if len(wl) else wl
    sure, maybe = [], []
    for e, w, i, v in zip(el, out, it, wl):
        if e.lower() not in low:
            continue
        t = thr[low.index(e.lower())] if isinstance(thr, (list, np.ndarray)) else thr
        if t is not None and not i >= t:
            continue
        if not vac and min(abs(w - lo), abs(w - hi)) < 2e-3:
            maybe.append((e, w, i, float(v)))
        elif lo <= w <= hi:
            sure.append((e, w, i, float(v)))
    return sure, maybe


def judge(ctx, mon, got, sure, maybe, per_element=False, **detail):
    """got: list of (element, wavelength, intensity). Lines at the very same wavelength are one group, of which
    any one member has to be there (exactly once, or once for each element if they were loaded one by one)."""
    key = lambda t: (round(t[2], 6), str(t[0]).lower())
    pool, groups = {}, {}
    for tag, src in (("sure", sure), ("maybe", maybe)):
        for t in src:
            g = (t[3], t[0].lower()) if per_element else t[3]
            pool.setdefault(key(t), []).append((t[1], g))
            groups.setdefault(g, [tag, 0])
    extra = []
    for e, w, i in got:
        for c in pool.get((round(float(i), 6), str(e).lower()), []):
            if not groups[c[1]][1] and abs(c[0] - w) < 2e-3:
                groups[c[1]][1] = 1
                break
        else:
            extra.append((str(e), float(w), float(i)))
    missing = [g for g, (tag, n) in groups.items() if tag == "sure" and not n]
    ctx.check(not extra and not missing, mon, extra=extra[:8], missing=missing[:8], n_got=len(got), n_expected=len(groups), **detail)
    if len(groups) < len(sure) + len(maybe):
        ctx.tag("same-wavelength")
    return not extra and not missing


def run(ctx, rng, i):
    from rascal.atlas import Atlas
    from rascal.calibrator import Calibrator
    from rascal.util import load_calibration_lines

    cat = refs.catalogue()
    linelist = "nist"
    custom = rng.random() < 0.3
    if custom:
        linelist = ctx.tmp("list.csv")
        cat = write_list(rng, linelist)
        pool = ["He", "Ne", "Q1", "Xx", "Ar", "Kr"]
    else:
        linelist = str(rng.choice(["nist", "NIST", "Nist"])) if rng.random() < 0.2 else "nist"
        pool = sorted(set(cat[0]))
    k = int(rng.choice([1, 1, 2, 3, 5]))
    elements = [str(e) for e in rng.choice(pool, min(k, len(pool)), replace=False)]
    if rng.random() < 0.15:
        elements.append("Zz")  # no such element
    shown = [spell(rng, e) for e in elements]
    vac = bool(rng.random() < 0.5)
    cond = conditions(rng)
    mode = rng.random()
    lo = float(rng.uniform(2500, 9000))
    hi = lo + float(rng.uniform(0, 6000))
    member = [w for e, w in zip(cat[0], cat[1]) if e.lower() in [x.lower() for x in elements]]
    if vac and mode < 0.35 and len(member) >= 2:
        # limits exactly on lines: inclusive
        lo, hi = sorted(float(x) for x in rng.choice(member, 2, replace=False))
        ctx.tag("limits-on-lines")
    elif mode > 0.9:
        lo, hi = 5.0, 6.0  # nothing there
    elif mode > 0.75:
        # one or both of the default limits
        lo, hi = (3000.0, 15000.0) if mode > 0.85 else (3000.0, 5000.0) if mode > 0.8 else (min(lo, 4900.0), 5000.0)
    if rng.random() < 0.3:
        lo, hi = int(lo) if lo == int(lo) or mode >= 0.35 else lo, int(hi) if mode >= 0.35 else hi
    t = rng.random()
    vals = sorted({x for e, x in zip(cat[0], cat[2]) if e.lower() in [y.lower() for y in elements]})
    pick = lambda: float(rng.choice(vals)) if vals and rng.random() < 0.6 else float(rng.uniform(0, 300))
    if t < 0.2:
        thr = None
    elif t < 0.6:
        thr = pick()
        if rng.random() < 0.3:
            thr = np.float64(thr)
        elif rng.random() < 0.3:
            thr = int(thr)
    elif t < 0.65:
        thr = 0
    elif t < 0.7:
        thr = 10
    else:
        thr = [pick() for _ in elements]
        if rng.random() < 0.4:
            thr = np.array(thr)
    sure, maybe = expected(cat, elements, lo, hi, thr, vac, cond)
    desc = dict(elements=shown, lo=lo, hi=hi, thr=thr, vacuum=vac, cond=cond, custom=custom)
    ctx.case(0 < len(sure) < len(cat[0]), **desc)
    arg = shown[0] if len(shown) == 1 and rng.random() < 0.5 else shown
    if isinstance(arg, str) and isinstance(thr, (list, np.ndarray)):
        arg = shown
    before = (repr(arg), repr(thr))
    r = load_calibration_lines(
        elements=arg, min_distance=0, **cond, **gen.spare(rng, dict(
            min_atlas_wavelength=lo, max_atlas_wavelength=hi, min_intensity=thr, vacuum=vac, linelist=linelist, brightest_n_lines=None), **LOAD)
    )
    ctx.check(before == (repr(arg), repr(thr)), "arguments-kept")
    el, wl, it = r
    ctx.check(len(el) == len(wl) == len(it), "equal-length", n=[len(el), len(wl), len(it)])
    ok = judge(ctx, "selection", list(zip(el, wl, it)), sure, maybe, **desc)
    if not sure and not maybe:
        ctx.check(len(wl) == 0, "empty-selection", n=len(wl))
    if custom:
        ctx.check(ok, "custom-list", **desc)
    ctx.tag("lines-returned", len(wl))
    # values, not just membership: wavelengths accurate to 1e-6 relative to the reference
    exp = np.sort(list({t[3]: t[1] for t in sure + maybe}.values()))
    if ok and len(wl) == len(exp):
        ctx.check(np.allclose(np.sort(np.asarray(wl, float)), exp, rtol=1e-10, atol=0), "wavelength-values",
                  worst=float(np.max(np.abs(np.sort(wl) - exp))) if len(exp) else 0)
    # the same through Atlas.add and the calibrator (threshold scalar)
    if not isinstance(thr, (list, np.ndarray)):
        kw = dict(min_atlas_wavelength=lo, max_atlas_wavelength=hi, min_intensity=thr, min_distance=0, vacuum=vac,
                  linelist=linelist, **cond)
        how = int(rng.integers(0, 2 if custom else 3))
        if how == 0:
            a = Atlas(elements=arg, **gen.spare(rng, kw, **ATLAS))
        elif how == 1:
            a = Atlas()
            a.add(elements=arg, brightest_n_lines=None, **gen.spare(rng, kw, **ADD))
        else:
            c = Calibrator([10.0, 20.0, 30.0])
            c.set_calibrator_properties(num_pix=100)
            c.set_hough_properties(min_wavelength=lo, max_wavelength=hi + 1)
            kw.pop("linelist")
            c.add_atlas(elements=arg, **gen.spare(rng, kw, **ADD))
            a = c.atlas
        n_el = Counter(t[0].lower() for t in sure + maybe)
        if how == 1 or not n_el or max(n_el.values()) < 1000:
            judge(ctx, "atlas-selection", list(zip(a.get_elements(), a.get_lines(), a.get_intensities())), sure, maybe,
                  per_element=True, how=how, **desc)
    if i % 2 == 0:
        again(ctx, rng, cat, elements, arg, dict(lo=lo, hi=hi, thr=thr, vac=vac, cond=cond), linelist, custom, r, sure, maybe)
    if i % 8 == 0:
        ctx.raises("unknown-list-rejected", load_calibration_lines, elements=["He"], linelist="no-such-list")
        ctx.raises("unknown-list-rejected", load_calibration_lines, elements=["He"], linelist=3.5)


def again(ctx, rng, cat, elements, arg, kw, linelist, custom, first, sure, maybe):
    """The same selection repeated with one thing changed; the earlier result is the caller's, who may overwrite it."""
    from rascal.util import load_calibration_lines

    def load():
        return load_calibration_lines(elements=arg, min_atlas_wavelength=kw["lo"], max_atlas_wavelength=kw["hi"], min_intensity=kw["thr"],
                                      min_distance=0, vacuum=kw["vac"], linelist=linelist, brightest_n_lines=None, **kw["cond"])

    for v in first:
        if isinstance(v, np.ndarray) and len(v):
            v[:] = v[::-1].copy()
            v[0] = "Zz" if v.dtype.kind in "USO" else -7.0
    r = load()
    judge(ctx, "selection-again", list(zip(*r)), sure, maybe, what="overwritten result")
    for _ in range(2):
        what = str(rng.choice(["vac", "cond", "lo", "hi", "thr", "file"]))
        if what == "vac":
            kw["vac"] = not kw["vac"]
        elif what == "cond":
            kw["cond"] = dict(kw["cond"], **{str(rng.choice(["temperature"])): float(rng.uniform(273.15, 313)), "pressure": float(rng.uniform(5e4, 1.1e5))})
            kw["vac"] = False
        elif what == "lo":
            kw["lo"] = float(kw["lo"] - rng.uniform(0, 1500))
        elif what == "hi":
            kw["hi"] = float(kw["hi"] + rng.uniform(0, 1500))
        elif what == "thr":
            kw["thr"] = None if rng.random() < 0.3 else float(rng.uniform(0, 300))
        elif custom:
            cat = write_list(rng, linelist)
        else:
            continue
        sure, maybe = expected(cat, elements, kw["lo"], kw["hi"], kw["thr"], kw["vac"], kw["cond"])
        judge(ctx, "selection-again", list(zip(*load())), sure, maybe, what=what, **kw)
