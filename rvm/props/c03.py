"""C03: atlas contents under edit histories. Oracle: a list model updated alongside."""
import numpy as np

from rvm import gen, refs

ID = "C03"
LEVEL = "exploration"
RULE = "an edit history of at least four operations including a removal that deletes some but not all lines"
ASSUMPTIONS = [
    "the order of the lines added by one catalogue selection is not judged",
    "editing an Atlas object directly while a calibrator uses it is judged only on the atlas",
]
REQUIRED = {"contents": 2000, "removal-boundary": 100, "parallel-accessors": 2000, "independence": 100}
CHUNK = 4
ADD = dict(min_intensity=10.0, min_distance=10.0)


def cases(tier):
    return 1200 if tier == "quick" else 10000


def same(a, b):
    return str(a[0]) == str(b[0]) and abs(float(a[1]) - float(b[1])) <= 1e-9 * abs(float(b[1])) and float(a[2]) == float(b[2])


def run(ctx, rng, i):
    from rascal.atlas import Atlas
    from rascal.calibrator import Calibrator
    from rascal.util import load_calibration_lines

    through = bool(rng.random() < 0.4)
    other = Atlas()
    other.add_user_atlas(["O"], [5555.5], [7])
    if through:
        c = Calibrator([10.0, 30.0, 70.0])
        c.set_calibrator_properties(num_pix=100)
        lo, hi, rt = 4000.0, 5000.0, float(rng.choice([50.0, 100.0]))
        c.set_hough_properties(min_wavelength=lo, max_wavelength=hi, range_tolerance=rt)
        if rng.random() < 0.5:
            c.set_atlas(Atlas())
        target = lambda: c.atlas
    else:
        lo, hi, rt = 4100.0, 4900.0, 100.0
        kind = rng.random()
        c = Atlas() if kind < 0.5 else Atlas(min_atlas_wavelength=lo, max_atlas_wavelength=hi, range_tolerance=rt)
        target = lambda: c
        if kind < 0.5:
            lo, hi, rt = 3000.0, 5000.0, 500.0
    model = []  # list of segments: (ordered?, [(el, wl, int)])
    user_seen = False
    ops = []
    hit = False

    def flat():
        return [t for _, s in model for t in s]

    def audit(op):
        a = target()
        if a is None:
            ctx.check(not flat(), "contents", op=op)
            return True
        got = list(zip(a.get_elements(), a.get_lines(), a.get_intensities()))
        n = [len(a), len(a.get_elements()), len(a.get_lines()), len(a.get_intensities())]
        ok = ctx.check(len(set(n)) == 1, "parallel-accessors", lengths=n, ops=ops)
        want = flat()
        good = len(got) == len(want)
        k = 0
        for ordered, seg in model:
            part = got[k : k + len(seg)]
            k += len(seg)
            if not ordered:
                srt = lambda l: sorted(l, key=lambda t: (float(t[1]), str(t[0]), float(t[2])))
                part, seg = srt(part), srt(seg)
            good = good and len(part) == len(seg) and all(same(x, y) for x, y in zip(part, seg))
        ctx.check(good, "contents", ops=ops, n=[len(got), len(want)],
                  first=[(x, y) for x, y in zip(got, want) if not same(x, y)][:4])
        return good and ok

    n_ops = int(rng.integers(4, 14))
    for k in range(n_ops):
        op = str(rng.choice(["cat", "user", "user1", "remove", "remove-exact", "clear"], p=[0.22, 0.25, 0.15, 0.2, 0.13, 0.05]))
        if k == 0:
            op = str(rng.choice(["cat", "user"]))
        a = target()
        if op == "cat":
            els = [str(e) for e in rng.choice(gen.ELEMENTS, int(rng.integers(1, 3)), replace=False)]
            kw = dict(min_intensity=float(rng.choice([1, 5, 10, 20])), min_distance=float(rng.choice([0, 1, 10])))
            default = not user_seen and rng.random() < 0.5 or (through and rng.random() < 0.5)
            lim = dict(min_atlas_wavelength=lo - rt, max_atlas_wavelength=hi + rt)
            if not default:
                x = float(rng.uniform(3500, 8000))
                lim = dict(min_atlas_wavelength=x, max_atlas_wavelength=x + float(rng.uniform(10, 800)))
            cond = {} if rng.random() < 0.5 else dict(vacuum=True) if rng.random() < 0.5 else dict(
                pressure=8e4, temperature=290.0, relative_humidity=40.0)
            ops.append(["add", els, lim if not default else "default", kw, cond])
            arg = els[0] if len(els) == 1 and rng.random() < 0.5 else list(els)
            if through:
                c.add_atlas(arg, **gen.spare(rng, kw, **ADD), **cond, **({} if default else lim))
            else:
                c.add(arg, **gen.spare(rng, kw, **ADD), **cond, **({} if default else lim))
            seg = []
            for e in els:
                r = load_calibration_lines(elements=[e], brightest_n_lines=1000, **lim, **kw, **{"vacuum": False, **cond})
                seg.append((False, list(zip(r[0], r[1], r[2]))))
            model.extend(seg)
        elif op in ("user", "user1"):
            user_seen = True
            n = 1 if op == "user1" else int(rng.integers(1, 12))
            el = [str(rng.choice(["Aa", "Bb", "He"])) for _ in range(n)]
            wl = [float(x) for x in np.round(rng.uniform(3000, 9000, n) * 4) / 4]
            it = [float(x) for x in np.round(rng.uniform(0, 99, n))] if rng.random() < 0.6 else None
            vac = bool(rng.random() < 0.3)
            cond = dict(pressure=9e4, temperature=288.0, relative_humidity=30.0) if vac and rng.random() < 0.7 else {}
            form = int(rng.integers(0, 4))
            if form == 0:
                ael, awl, ait = list(el), list(wl), None if it is None else list(it)
            elif form == 1:
                ael, awl, ait = np.array(el), np.array(wl), None if it is None else np.array(it)
            elif form == 2:
                ael, awl, ait = tuple(el), tuple(wl), None if it is None else tuple(it)
            else:
                ael, awl, ait = list(el), np.array(wl), None if it is None else list(it)
            if n == 1 and rng.random() < 0.7:
                ael, awl, ait = el[0], (wl[0] if rng.random() < 0.5 else np.float64(wl[0])), None if it is None else it[0]
            ops.append(["user", el, wl, it, vac, form])
            args = dict(elements=ael, wavelengths=awl, intensities=ait, vacuum=vac, **cond)
            if it is None and rng.random() < 0.5:
                args.pop("intensities")
            args = gen.spare(rng, args, vacuum=False)
            (c if through else a).add_user_atlas(**args)
            out = refs.vac_to_air(wl, *(cond.get(q, d) for q, d in (("temperature", 273.15), ("pressure", 101325.0), ("relative_humidity", 0.0)))) if vac else wl
            model.append((True, list(zip(el, out, it or [0.0] * n))))
            # what was passed in is the caller's: scribbling on it must not reach the atlas
            if isinstance(awl, (list, np.ndarray)):
                ctx.check(list(awl) == wl, "independence", what="argument changed", ops=ops[-1:])
                awl[0] = -1.0
                if isinstance(ait, (list, np.ndarray)):
                    ait[0] = -1.0
                got = a.get_lines() if a is not None else []
                ctx.check(-1.0 not in [float(x) for x in got], "independence", ops=ops[-1:])
        elif op in ("remove", "remove-exact"):
            if a is None:
                continue
            cur = flat()
            w0 = float(rng.choice([float(t[1]) for t in cur])) if cur and rng.random() < 0.8 else float(rng.uniform(3000, 9000))
            tol = float(rng.choice([0.5, 5.0, 50.0, 500.0]))
            default = rng.random() < 0.2
            if op == "remove-exact" and not cur:
                op = "remove"
            if op == "remove-exact":
                # lines exactly at the tolerance stay
                w0 = round(w0 * 4) / 4
                tol = float(rng.choice([0.25, 1.0, 16.0]))
                add = [w0 - tol, w0 - tol / 2, w0, w0 + tol / 2, w0 + tol]
                target().add_user_atlas(["Ed"] * 5, list(add))
                model.append((True, [("Ed", x, 0.0) for x in add]))
                user_seen = True
                default = False
            if default:
                tol = 10
            ops.append(["remove", w0, tol])
            (c if through else a).remove_atlas_lines_range(w0, **({} if default else dict(tolerance=tol)))
            new = []
            for o, s in model:
                # lines within 1e-9 of the border are re-read from the atlas only when exact
                new.append((o, [t for t in s if not abs(float(t[1]) - w0) < tol]))
            gone = sum(len(s) for _, s in model) - sum(len(s) for _, s in new)
            hit = hit or 0 < gone < len(flat())
            model = new
            ctx.tag("lines-removed", gone)
            if op == "remove-exact":
                left = [float(x) for x in target().get_lines()]
                ctx.check(w0 - tol in left and w0 + tol in left and w0 not in left, "removal-boundary", w0=w0, tol=tol)
        else:
            if a is None:
                continue
            ops.append(["clear"])
            (c.clear_atlas if through else c.clear)()
            model = []
        # read-only accessors hand out copies
        if target() is not None and rng.random() < 0.3:
            for l in (target().get_lines(), target().get_elements(), target().get_intensities()):
                if isinstance(l, list):
                    l.append(1.0)
                    l.reverse()
        if not audit(op):
            break
    if rng.random() < 0.2 and target() is not None:
        n = len(target())
        ctx.raises("length-mismatch-rejected", target().add_user_atlas, ["A", "B"], [4000.0])
        ctx.raises("length-mismatch-rejected", target().add_user_atlas, ["A", "B"], [4000.0, 4001.0], [1.0])
        ctx.check(len(target()) == n, "length-mismatch-rejected")
        for bad in (np.nan, np.inf):
            ctx.raises("limits-rejected", target().add, ["He"], min_atlas_wavelength=bad, max_atlas_wavelength=5000.0)
            ctx.raises("limits-rejected", target().add, ["He"], min_atlas_wavelength=4000.0, max_atlas_wavelength=bad)
    ctx.check(other.get_lines() == [5555.5] and len(other) == 1, "independence", what="another atlas changed")
    if not through:
        ctx.check(len(Atlas()) == 0, "independence", what="new atlas not empty")
    ctx.case(hit and len(ops) >= 4, through=through, ops=ops)
