"""C12: termination. Work counter on executed branches and trial fits inside the package."""
import math
import os
import sys

import numpy as np

from rvm import gen, polyhook
from rvm.core import PKG

ID = "C12"
LEVEL = "exploration"
RULE = "a fit that ran to its end under the work counter, distinct by family, peaks and settings"
ASSUMPTIONS = [
    "'a fixed number of retries per try' is judged as at most 3000 trial fits per try (one per combination with brute force)",
    "between two trial fits at most 1 million branches may be executed inside the package",
]
REQUIRED = {"terminates": 300, "trial-fits-bounded": 300, "brute-force-bounded": 15, "related-error": 100, "returned": 40}
CHUNK = 1
CASE_SECONDS = 400
RETRIES = 3000
BRANCHES = 1_000_000
UNSEEN = 40_000_000
TOOL = 4


class OverBudget(BaseException):
    pass


class Work:
    """Counts branches and jumps inside rascal, and polynomial trial fits."""

    def __init__(self, fits):
        self.fits, self.max_fits = 0, fits
        self.since, self.total, self.worst = 0, 0, 0
        self.cache = {}

    def __enter__(self):
        m = sys.monitoring
        m.use_tool_id(TOOL, "rvm-work")
        ev = m.events.JUMP | m.events.BRANCH
        cache = self.cache

        def on(code, off, dst):
            k = cache.get(code)
            if k is None:
                k = cache[code] = os.path.realpath(code.co_filename).startswith(PKG)
            if not k:
                return m.DISABLE
            self.since += 1
            # where no trial fit is ever seen, the stretch is the whole fit
            if self.since > (BRANCHES if self.fits else UNSEEN):
                raise OverBudget("%d branches without a trial fit, in %s" % (self.since, code.co_name))

        m.register_callback(TOOL, m.events.JUMP, on)
        m.register_callback(TOOL, m.events.BRANCH, on)
        m.set_events(TOOL, ev)
        polyhook.LISTENERS.append(self.counted)
        return self

    def counted(self, *a):
        self.fits += 1
        self.total += self.since
        self.worst = max(self.worst, self.since)
        self.since = 0
        if self.fits > self.max_fits:
            raise OverBudget("%d trial fits" % self.fits)

    def __exit__(self, *a):
        m = sys.monitoring
        m.set_events(TOOL, 0)
        m.free_tool_id(TOOL)
        m.restart_events()
        polyhook.LISTENERS.remove(self.counted)
        self.total += self.since
        self.worst = max(self.worst, self.since)


def cases(tier):
    return 1500 if tier == "quick" else 20000


FAMS = ["positions", "unrelated", "known", "limits", "few", "duplicates", "brute", "close", "reversed", "solvable", "bounds", "equal"]


def positions(rng, n):
    """Peak positions that stress histogram edges and index arithmetic."""
    q = int(rng.integers(0, 9))
    if q == 0:
        return np.array([0.0, 1, 2, 3, 10, 51, 100])
    if q == 1:
        return np.arange(n) * float(rng.choice([1.0, 10.0, 33.0]))
    if q == 2:
        return np.cumsum(2.0 ** np.arange(min(n, 10)))
    if q == 3:
        return np.unique(np.r_[0.0, rng.integers(0, 11, n) * 100.0 / 10, 100.0])
    if q == 4:
        return np.unique(np.r_[100 + rng.random(n // 2) * 1e-3, 900 + rng.random(n - n // 2) * 1e-3])
    if q == 5:
        return np.unique(np.r_[rng.uniform(0, 30, n - 1), 1000.0])
    if q == 6:
        return np.sort(rng.uniform(0, 800, n)) + 0.1
    if q == 7:
        return np.unique(rng.integers(0, 1000, n))
    return np.unique(np.round(rng.uniform(0, 1000, n), 1))


def run(ctx, rng, i):
    fam = FAMS[i % len(FAMS)]
    kw = dict(fit_deg=int(rng.integers(1, 4)), max_tries=int(rng.choice([1, 1, 2])), candidate_tolerance=float(rng.choice([5.0, 10.0, 50.0])))
    ransac = dict(sample_size=int(rng.integers(1, 8)), top_n_candidate=int(rng.choice([1, 3, 8])), filter_close=False)
    if rng.random() < 0.5:
        ransac["candidate_weighted"] = False
    if rng.random() < 0.4:
        ransac["hough_weight"] = float(rng.choice([0.0, 0.5]))
    hough = dict(num_slopes=60, xbins=15, ybins=15)
    p = gen.problem(rng, n=int(rng.integers(8, 20)), deg=1, rt=100.0, npix=1024, noise=float(rng.choice([0.0, 0.1, 3.0])))
    known = None
    degenerate = False
    sg = p["sg"]
    if fam == "positions":
        p["peaks"] = positions(rng, int(rng.integers(7, 24)))
        q = np.asarray(p["peaks"], float)
        w = 3500 + 4.0 * q + 1e-4 * q * q * float(rng.integers(0, 2))
        p["atlas"] = np.unique(w)
        p.update(min_w=3500.0, max_w=3500.0 + 4 * 1023, rt=100.0)
        kw["fit_deg"] = 1 if rng.random() < 0.6 else kw["fit_deg"]
    elif fam == "unrelated":
        p["atlas"] = np.sort(rng.uniform(sg.lo - 100, sg.lo + sg.span + 100, int(rng.integers(1, 60))))
    elif fam == "known":
        k = int(rng.integers(1, 4))
        q = rng.uniform(-500, 1500, k)
        known = (q, sg.wave(q) + rng.choice([-1, 1], k) * 10 ** rng.uniform(0, 5, k))
        if rng.random() < 0.3:
            known = (np.r_[q, q], np.r_[known[1], known[1] + 500])
    elif fam == "limits":
        z = int(rng.integers(0, 4))
        if z == 0:
            ransac["minimum_fit_error"] = float(rng.choice([1.0, 6.0, 100.0]))
        elif z == 1:
            ransac["minimum_matches"] = int(rng.choice([8, 15, 1000]))
        elif z == 2:
            ransac["minimum_peak_utilisation"] = float(rng.choice([0.9, 1.0]))
            p["peaks"] = np.unique(np.r_[p["peaks"], rng.uniform(0, 1023, 6)])
        else:
            ransac["ransac_tolerance"] = float(rng.choice([1e-12, 1e-3]))
    elif fam == "few":
        p["peaks"] = p["peaks"][: int(rng.integers(1, 5))]
        p["atlas"] = p["atlas"][: int(rng.integers(1, 6))]
        degenerate = True
    elif fam == "duplicates":
        z = int(rng.integers(0, 4))
        if z == 0:
            p["atlas"] = np.repeat(p["atlas"][: int(rng.integers(1, 4))], 8)
        elif z == 1:
            p["atlas"] = np.sort(np.r_[p["atlas"], p["atlas"]])
        elif z == 2:
            p["peaks"] = np.sort(np.r_[p["peaks"], p["peaks"][: int(rng.integers(1, 6))]])
        else:
            p["atlas"] = np.r_[p["atlas"][:3], p["atlas"][:3] + 1e-9, p["atlas"]]
    elif fam == "brute":
        p["peaks"] = p["peaks"][: int(rng.integers(4, 7))]
        ransac.update(top_n_candidate=int(rng.choice([1, 2])), sample_size=int(rng.integers(1, 4)))
        kw.update(brute_force=True, fit_deg=int(rng.integers(1, 3)))
        if rng.random() < 0.4:
            p["atlas"] = np.sort(rng.uniform(sg.lo, sg.lo + sg.span, 9))
    elif fam == "close":
        ransac["filter_close"] = True
        ransac["ransac_tolerance"] = float(rng.choice([1.0, 5.0, 60.0, 300.0]))
        p["atlas"] = np.sort(np.r_[p["atlas"], p["atlas"] + rng.uniform(0, 4, len(p["atlas"]))])
    elif fam == "reversed":
        p["peaks"] = np.sort(1023 - np.asarray(p["peaks"]))
    elif fam == "bounds":
        # every line outside, or a window that admits almost nothing
        z = int(rng.integers(0, 3))
        if z == 0:
            p["min_w"] += 3000
            p["max_w"] += 3000
            degenerate = True
        elif z == 1:
            p["rt"] = 1e-3
            degenerate = True
        else:
            p["min_w"], p["max_w"] = p["max_w"] - 200, p["max_w"]
            degenerate = True
    elif fam == "equal":
        n = int(rng.integers(6, 30))
        p["peaks"] = np.linspace(10, 1000, n)
        p["atlas"] = sg.lo + np.linspace(0, sg.span, int(rng.integers(6, 40)))
        ransac["minimum_fit_error"] = 1e-4
    if rng.random() < 0.15:
        # candidates around a supplied solution
        t = sg.coeff()
        t = t if len(t) > 1 else np.r_[t, 0.0]
        if rng.random() < 0.5:
            t = t * rng.uniform(0.5, 1.5, len(t))
        kw["fit_coeff"] = list(t)
        ransac["linear"] = bool(rng.random() < 0.5)
        kw.pop("brute_force", None)
    elif rng.random() < 0.1:
        kw["fit_type"] = str(rng.choice(["legendre", "chebyshev"]))
    if rng.random() < 0.15:
        p["peaks"] = list(p["peaks"])
    d = dict(family=fam, peaks=p["peaks"], atlas=len(p["atlas"]), fit=kw, ransac=ransac, known=known)
    c = gen.calibrator(p, hough=hough, ransac=ransac, constrain=bool(rng.random() < 0.2))
    if known is not None:
        c.set_known_pairs(*known)
    brute = kw.get("brute_force", False)
    if len(c.pairs) == 0:
        ctx.tag("no-pairs")
        degenerate = True
    outcome = "returned"
    budget = RETRIES * kw["max_tries"] + 20
    if brute:
        n = len(p["peaks"]) * ransac["top_n_candidate"]
        k = min(max(ransac["sample_size"], kw["fit_deg"] + 1), n)
        budget = math.comb(n, k) + 20
    with Work(budget) as w:
        try:
            c.fit(progress=False, **kw)
        except OverBudget as e:
            outcome = "over"
            ctx.violate("terminates" if "branches" in str(e) else ("brute-force-bounded" if brute else "trial-fits-bounded"), error=str(e), **d)
        except AssertionError as e:
            outcome = "failed" if "Couldn't fit" in str(e) else repr(e)
        except Exception as e:
            outcome = repr(e)
            import traceback

            tb = traceback.format_exc()[-900:]
    ctx.counts["terminates"] += 1
    ctx.counts["brute-force-bounded" if brute else "trial-fits-bounded"] += 1
    ctx.tag("trial-fits", w.fits)
    ctx.tag("branches", w.total)
    if outcome == "returned":
        ctx.counts["returned"] += 1
    elif outcome == "failed":
        ctx.counts["related-error"] += 1
    elif outcome != "over":
        # nothing to work with may be any error
        ctx.check(degenerate, "related-error", outcome=outcome, trace=locals().get("tb"), **d)
    ctx.tag("outcome-" + (outcome if outcome in ("returned", "failed", "over") else "other-error"))
    ctx.case(outcome != "over" and w.fits > 0, fits=w.fits, worst_stretch=w.worst, **d)
