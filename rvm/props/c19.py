"""C19: plotting leaves the calibration alone. Monitors: state snapshots, random state, directory listings, display stand-ins."""
import os

import numpy as np

from rvm import fitload, plotload as pl

ID = "C19"
LEVEL = "exploration"
RULE = "a fitted calibrator with at least two plotting calls, distinct by problem and call arguments"
ASSUMPTIONS = [
    "display calls are counted at matplotlib.pyplot.show and plotly.io.show",
    "with return_jsonstring and display both on, the documentation contradicts itself; displaying is then not judged",
]
REQUIRED = {"calibrator-unchanged": 250, "arguments-unchanged": 250, "random-state": 250, "files": 250, "display": 250, "same-behaviour": 30}
CHUNK = 2
CASE_SECONDS = 180
MAGIC = {
    "png": lambda b: b.startswith(b"\x89PNG"),
    "jpg": lambda b: b.startswith(b"\xff\xd8"),
    "svg": lambda b: b"<svg" in b[:5000],
    "pdf": lambda b: b.startswith(b"%PDF"),
    "iframe": lambda b: b"<html" in b[:5000].lower() or b"<div" in b[:5000].lower(),
}
DEFAULT = {"arc": "rascal_arc", "fit": "rascal_solution", "search": "rascal_hough_search_space", "lines": "rascal_arc"}


def cases(tier):
    return 130 if tier == "quick" else 2500


class Shows:
    """Stand-ins counting what would be displayed."""

    def __enter__(self):
        import matplotlib.pyplot as plt
        import plotly.io as pio

        self.n = 0
        self.mods = [(plt, plt.show), (pio, pio.show)]

        def count(*a, **k):
            self.n += 1

        for m, _ in self.mods:
            m.show = count
        return self

    def __exit__(self, *a):
        for m, f in self.mods:
            m.show = f


def listing(d):
    out = set()
    for r, _, fs in os.walk(d):
        out |= {os.path.relpath(os.path.join(r, f), d) for f in fs}
    return out


def run(ctx, rng, i):
    got = pl.fitted(rng)
    if got is None:
        ctx.tag("no-fit")
        return
    c, p = got
    twin = None
    if i % 3 == 0:
        import copy

        twin = copy.deepcopy(c)
    home = ctx.tmp("cwd")
    os.makedirs(home)
    os.chdir(home)
    calls = []
    for k in range(int(rng.integers(2, 5))):
        calls.append(one(ctx, rng, c, p, home, k))
        pl.close_all()
    if twin is not None:
        (c.use_matplotlib if twin.plot_with_matplotlib else c.use_plotly)()
        out = []
        for q in (c, twin):
            np.random.seed(5)
            r = fitload.attempt(q, True, max_tries=5, fit_deg=2)
            m = q.match_peaks(np.asarray(q.fit_coeff, float), refine=False) if r is not None else None
            out.append(pl.freeze([r, m]))
        ctx.check(out[0] == out[1], "same-behaviour", calls=calls)
    ctx.case(True, kind=p["kind"], gap=p["gap"], peaks=len(p["peaks"]), lo=round(p["sg"].lo, 3), calls=calls)


def one(ctx, rng, c, p, home, k):
    lib = str(rng.choice(["matplotlib", "plotly"]))
    what = str(rng.choice(["arc", "fit", "search", "lines"], p=[0.3, 0.34, 0.26, 0.1]))
    if what == "lines":
        lib = "matplotlib"
    (c.use_matplotlib if lib == "matplotlib" else c.use_plotly)()
    save = bool(rng.random() < 0.55)
    types = [str(t) for t in rng.permutation(["png", "jpg", "svg", "pdf", "iframe", "bmp", "html"])[: int(rng.integers(1, 4))]]
    kw = dict(save_fig=save, display=bool(rng.random() < 0.4))
    if save or rng.random() < 0.3:
        kw["fig_type"] = "+".join(types)
    else:
        types = ["png"]
    name = None
    r = rng.random()
    if r < 0.3:
        name = "plot%d" % k
    elif r < 0.45:
        name = "plot%d.v2" % k
    elif r < 0.7:
        os.makedirs(os.path.join(home, "d%d" % k), exist_ok=True)
        name = os.path.join(home, "d%d" % k, "fig")
    if name is not None:
        kw["filename"] = name
    if what != "lines" and rng.random() < 0.4:
        kw["return_jsonstring"] = True
    mine = {}
    if what != "lines" and rng.random() < 0.4:
        kw["renderer"] = str(rng.choice(["json", "browser", "png", "notebook"]))
    if what == "arc":
        kw["log_spectrum"] = bool(rng.random() < 0.4)
        if rng.random() < 0.4 and c.spectrum is not None:
            mine["pixel_list"] = np.asarray(c.pixel_list).copy() if rng.random() < 0.5 else list(np.asarray(c.pixel_list))
        fn = c.plot_arc
    elif what == "fit":
        kw["log_spectrum"] = bool(rng.random() < 0.4)
        kw["plot_atlas"] = bool(rng.random() < 0.6)
        kw["tolerance"] = float(rng.choice([5.0, 10.0]))
        if rng.random() < 0.7:
            f = np.array(c.fit_coeff, float)
            mine["fit_coeff"] = f if rng.random() < 0.5 else [float(v) for v in f]
        if rng.random() < 0.4:
            s = np.asarray(c.spectrum if c.spectrum is not None else rng.random(len(c.pixel_list)), float) * 2 - 5.0
            q = rng.random()
            mine["spectrum"] = s if q < 0.5 else ([float(v) for v in s] if q < 0.8 else s.astype(int))
        fn = c.plot_fit
    elif what == "search":
        kw["top_n_candidate"] = int(rng.integers(1, 6))
        kw["weighted"] = bool(rng.random() < 0.5)
        if rng.random() < 0.5:
            f = np.array(c.fit_coeff, float)
            mine["fit_coeff"] = f if rng.random() < 0.5 else [float(v) for v in f]
        fn = c.plot_search_space
    else:
        from rascal.plotting import plot_calibration_lines as fn

        lo = float(rng.uniform(4000, 7000))
        mine["elements"] = [["Ne", "Ar"], ["Hg"], ["Kr", "Xe"]][int(rng.integers(0, 3))]
        kw.update(min_atlas_wavelength=lo, max_atlas_wavelength=lo + 400, label=bool(rng.random() < 0.3), log=bool(rng.random() < 0.3))
    before, rs, fz, files = pl.snapshot(c), pl.rng_state(), pl.freeze(mine), listing(home)
    d = dict(what=what, lib=lib, kw=kw, given={a: type(b).__name__ for a, b in mine.items()}, kind=p["kind"])
    with Shows() as shows:
        fn(**mine, **kw)
    ctx.check(pl.freeze(mine) == fz, "arguments-unchanged", **d)
    diff = pl.changed(before, pl.snapshot(c))
    ctx.check(not diff, "calibrator-unchanged", changed=diff, **d)
    ctx.check(pl.rng_state() == rs, "random-state", **d)
    ok = ["png", "jpg", "svg", "pdf"] + (["iframe"] if lib == "plotly" else [])
    base = name if name is not None else DEFAULT[what]
    base = os.path.relpath(os.path.join(home, base), home)
    want = {base + "." + t for t in types if t in ok} if save else set()
    new = listing(home)
    # a default name may have been written before
    ctx.check(new == files | want, "files", missing=sorted(want - new), unexpected=sorted(new - files - want), gone=sorted(files - new), **d)
    for f in sorted(want & new):
        data = open(os.path.join(home, f), "rb").read()
        ctx.check(MAGIC[f.rsplit(".", 1)[1]](data), "file-type", file=f, head=repr(data[:40]), **d)
        ctx.tag("saved-" + lib + "-" + f.rsplit(".", 1)[1])
        os.remove(os.path.join(home, f))
    if not kw["display"]:
        ctx.check(shows.n == 0, "display", shown=shows.n, **d)
    elif not (kw.get("return_jsonstring") and lib == "plotly"):
        ctx.check(shows.n == 1, "display", shown=shows.n, **d)
    ctx.tag("plot-%s-%s" % (what, lib))
    if name is not None:
        kw["filename"] = os.path.relpath(os.path.join(home, name), home)
    return dict(what=what, lib=lib, **kw)
