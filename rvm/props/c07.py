"""C07: saving and loading Hough transforms. Oracle: full-precision equality, and equality of what the
original and the reloaded transform do next; truncated files as crash points."""
import json
import os

import numpy as np

from rvm import gen
from rvm.props.c06 import audit

ID = "C07"
LEVEL = "exploration"
RULE = "a transform with points that was saved and reloaded (or a damaged file that was offered), distinct by content and history"
ASSUMPTIONS = ["a transform is saved after it has been binned", "damage means truncation, deletion or an unknown type, not altered bytes"]
REQUIRED = {"restored": 200, "rebin": 60, "extend": 60, "save-again": 60, "truncated-rejected": 400, "receiver-unchanged": 400, "overwritten": 30,
            "fit-uses-loaded": 15, "calibrator-round-trip": 25, "in-memory": 60}
CHUNK = 4
ATTRS = ("hough_points", "hist", "xedges", "yedges", "min_slope", "max_slope", "min_intercept", "max_intercept")


def cases(tier):
    return 1500 if tier == "quick" else 25000


def state(ht):
    out = {}
    for a in ATTRS + ("hough_lines",):
        v = getattr(ht, a)
        out[a] = None if v is None else np.array(v, dtype=float)
    return out


def same(a, b, skip=()):
    for k in a:
        if k in skip:
            continue
        x, y = a[k], b[k]
        if (x is None) != (y is None):
            return k
        if x is not None and (x.shape != y.shape or not np.array_equal(x, y)):
            return k
    return None


def lines_equal(a, b):
    """Same lines in an order of the same counts (ties may be ordered differently)."""
    x, y = np.array(a.hough_lines, float), np.array(b.hough_lines, float)
    if x.shape != y.shape:
        return False
    def cnt(ht, l):
        i = np.searchsorted(ht.xedges, l[:, 0]) - 1
        j = np.searchsorted(ht.yedges, l[:, 1]) - 1
        return np.asarray(ht.hist)[i, j]
    s = lambda l: l[np.lexsort((l[:, 1], l[:, 0]))]
    return np.allclose(s(x), s(y), rtol=1e-12, atol=0) and np.array_equal(cnt(a, x), cnt(b, y))


def make(rng):
    from rascal.houghtransform import HoughTransform

    ht = HoughTransform()
    k = rng.random()
    if k < 0.2:
        ht.set_constraints(0, 5, 3000, 5000)
    elif k < 0.4:
        ht.set_constraints(np.int64(0), np.float64(5.25), np.float32(3000.5), np.int32(5000))
    else:
        ht.set_constraints(float(rng.uniform(-1, 1)), float(rng.uniform(2, 6)), float(rng.uniform(2500, 3200)), float(rng.uniform(4500, 6000)))
    n = int(rng.choice([2, 3, 12]))
    x, y = rng.uniform(0, 500, n), rng.uniform(3500, 5500, n)
    if rng.random() < 0.3:
        ht.generate_hough_points_brute_force(x, y)
    else:
        ht.generate_hough_points(x, y, int(rng.choice([2, 10, 60])))
    if rng.random() < 0.3:
        ht.add_hough_points(np.column_stack((rng.normal(2, 1, 7), rng.normal(4000, 300, 7))))
    return ht


def load(ctx, ht, path, ft, ext):
    ht.load(filename=path + ("." + ft if ext else ""), filetype=ft)


def run(ctx, rng, i):
    from rascal.houghtransform import HoughTransform

    if i % 10 == 1:
        return calibrator_case(ctx, rng, i)
    ht = make(rng)
    xb, yb = int(rng.choice([1, 3, 10, 25])), int(rng.choice([1, 2, 10, 25]))
    ht.bin_hough_points(xb, yb)
    ref = state(ht)
    if i % 3 == 0:
        return damage(ctx, rng, ht, i)
    path = ctx.tmp(str(rng.choice(["ht", "a.b", "x.npy", "y.json", "with space"])))
    fmt = str(rng.choice(["npy", "json", "npy+json", "json+npy"]))
    delim = "+"
    if "+" in fmt and rng.random() < 0.4:
        delim = str(rng.choice(["-", "|", ","]))
        fmt = fmt.replace("+", delim)
    if rng.random() < 0.3:
        # other files of the same name are overwritten
        old = make(rng)
        old.bin_hough_points(int(rng.integers(1, 30)), int(rng.integers(1, 30)))
        old.save(filename=path, fileformat="npy+json")
        for g in {"npy", "json"} - set(fmt.split(delim)):
            os.remove(path + "." + g)
        ctx.counts["overwritten"] += 1
    ht.save(filename=path, fileformat=fmt, **({} if delim == "+" else {"delimiter": delim}))
    ctx.check(same(ref, state(ht)) is None, "save-keeps", changed=same(ref, state(ht)))
    want = sorted(os.path.basename(path) + "." + f for f in fmt.split(delim))
    ctx.check(sorted(os.listdir(ctx.tmp())) == want, "files-written", got=sorted(os.listdir(ctx.tmp())), want=want, fmt=fmt)
    ctx.case(len(ht.hough_points) > 0, fmt=fmt, n=len(ht.hough_points), bins=[xb, yb], lim=[ref[k] for k in ATTRS[4:]])
    mem = ht.save(fileformat=fmt, to_disk=False, **({} if delim == "+" else {"delimiter": delim}))
    parts = dict(zip(["npy", "json"], mem if len(fmt.split(delim)) == 2 else [mem, mem]))
    for f in fmt.split(delim):
        m = parts[f]
        if f == "json":
            m = json.loads(json.dumps(m))
            vals = [np.array(m[a], dtype=float).reshape(ref[a].shape) for a in ATTRS]
        else:
            vals = [np.array(v, dtype=float).reshape(ref[a].shape) for v, a in zip(m, ATTRS)]
        ctx.check(all(np.array_equal(v, ref[a]) for v, a in zip(vals, ATTRS)), "in-memory", fmt=f)
    ctx.check(sorted(os.listdir(ctx.tmp())) == want, "in-memory", what="to_disk=False wrote a file")
    for f in fmt.split(delim):
        # into a fresh transform, or into one with other content
        h2 = HoughTransform() if rng.random() < 0.5 else make(rng)
        ext = bool(rng.random() < 0.4) and not path.endswith("." + f) or path.endswith("." + f)
        load(ctx, h2, path, f, ext)
        s2 = state(h2)
        bad = same(ref, s2, skip=("hough_lines",))
        ctx.check(bad is None, "restored", attribute=bad, fmt=f, got=s2.get(bad), want=ref.get(bad))
        ctx.check(lines_equal(ht, h2), "restored", attribute="hough_lines", fmt=f)
        ctx.check(np.asarray(h2.hough_points).dtype.kind == "f" and np.asarray(h2.hough_points).ndim == 2, "usable-type", dtype=str(np.asarray(h2.hough_points).dtype))
        # and it behaves as the original
        a, b = int(rng.integers(1, 20)), int(rng.integers(1, 20))
        o = HoughTransform()
        o.set_constraints(ht.min_slope, ht.max_slope, ht.min_intercept, ht.max_intercept)
        o.hough_points = ht.hough_points.copy()
        new = np.column_stack((rng.normal(2, 1, 5), rng.normal(4000, 300, 5)))
        if rng.random() < 0.6:
            o.add_hough_points(new)
            h2.add_hough_points(new if rng.random() < 0.5 else _as_ht(new))
            ctx.check(np.array_equal(o.hough_points, h2.hough_points), "extend", fmt=f)
            # a loaded transform can itself be the extension
            h3 = make(rng)
            n3 = len(h3.hough_points)
            h3.add_hough_points(h2)
            ctx.check(len(h3.hough_points) == n3 + len(h2.hough_points), "extend", fmt=f)
        if len(o.hough_points):
            o.bin_hough_points(a, b)
            h2.bin_hough_points(a, b)
            ctx.check(np.array_equal(o.hist, h2.hist) and np.array_equal(o.xedges, h2.xedges) and lines_equal(o, h2), "rebin", fmt=f)
            audit(ctx, h2, a, b, fmt=f)
        again = ctx.tmp("again")
        f2 = str(rng.choice(["npy", "json"]))
        kw = dict(filename=again, fileformat=f2)
        if rng.random() < 0.5:
            # all defaults: a file "hough_transform.npy" here
            os.chdir(ctx.tmp())
            kw.pop("filename")
            if f2 == "npy":
                kw.pop("fileformat")
        h2.save(**kw)
        h4 = HoughTransform()
        if "fileformat" in kw:
            kw["filetype"] = kw.pop("fileformat")
        h4.load(**kw)
        bad = same(state(h2), state(h4), skip=("hough_lines",))
        ctx.check(bad is None and lines_equal(h2, h4), "save-again", attribute=bad, fmt=[f, f2])


def _as_ht(a):
    from rascal.houghtransform import HoughTransform

    h = HoughTransform()
    h.hough_points = a
    return h


def damage(ctx, rng, ht, i):
    from rascal.houghtransform import HoughTransform

    f = "npy" if i % 2 else "json"
    path = ctx.tmp("full")
    ht.save(filename=path, fileformat=f)
    blob = open(path + "." + f, "rb").read()
    n = len(blob)
    if f == "json":
        n = len(blob.rstrip())
    cuts = {0, 1, n - 1, n // 2} | {int(x) for x in rng.integers(0, n, 25 if ctx.tier == "quick" else 120)}
    recv = make(rng)
    recv.bin_hough_points(4, 5)
    ref = state(recv)
    ctx.case(len(ht.hough_points) > 0, damaged=f, bytes=n, cuts=len(cuts))
    cut_path = ctx.tmp("cut")
    for k in sorted(cuts):
        open(cut_path + "." + f, "wb").write(blob[:k])
        ctx.raises("truncated-rejected", recv.load, filename=cut_path, filetype=f)
        bad = same(ref, state(recv))
        if not ctx.check(bad is None, "receiver-unchanged", attribute=bad, fmt=f, cut=k, of=n):
            return
    for kw in (dict(filename=ctx.tmp("missing"), filetype=f), dict(filename=path, filetype="csv"), dict(filename=path, filetype="NPZ")):
        ctx.raises("bad-file-rejected", recv.load, **kw)
        ctx.check(same(ref, state(recv)) is None, "receiver-unchanged", **kw)
    # the intact file still loads into the same receiver
    recv.load(filename=path, filetype=f)
    ctx.check(same(state(ht), state(recv), skip=("hough_lines",)) is None, "restored", after="damage")


def calibrator_case(ctx, rng, i):
    p = gen.problem(rng, n=int(rng.integers(10, 16)), spurious=0, extra=0, keep=1.0)
    h = dict(num_slopes=300, xbins=30, ybins=30)
    c1 = gen.calibrator(p, hough=h)
    c1.do_hough_transform(brute_force=bool(rng.random() < 0.3))
    f = str(rng.choice(["npy", "json"]))
    path = ctx.tmp("cal")
    kw = dict(filename=path, fileformat=f)
    q = rng.random()
    if q < 0.25:
        kw["fileformat"] = str(rng.choice(["npy+json", "json+npy"]))
    elif q < 0.5:
        kw.update(delimiter=str(rng.choice(["-", "|", ","])))
        kw["fileformat"] = kw["delimiter"].join(["json", "npy"][:: int(rng.choice([1, -1]))])
    elif q < 0.75:
        os.chdir(ctx.tmp())
        path = "hough_transform"
        kw.pop("filename")
        if f == "npy":
            kw.pop("fileformat")
    c1.save_hough_transform(**kw)
    kinds = kw.get("fileformat", "npy").split(kw.get("delimiter", "+"))
    ctx.check(sorted(os.listdir(ctx.tmp())) == sorted(os.path.basename(path) + "." + k for k in kinds), "calibrator-round-trip", what="files", **kw)
    mem = c1.save_hough_transform(to_disk=False, **{k: v for k, v in kw.items() if k != "filename"})
    if ctx.check(mem is not None, "in-memory", what="calibrator returned nothing"):
        for k, m in dict(zip(["npy", "json"], mem)).items() if len(kinds) == 2 else {kinds[0]: mem}.items():
            m = m["hough_points"] if k == "json" else m[0]
            ctx.check(np.array_equal(np.array(m, float).reshape(-1, 2), c1.hough_points), "in-memory", what="through the calibrator", **kw)
    c2 = gen.calibrator(p, hough=h)
    if rng.random() < 0.5:
        c2.do_hough_transform()
    c2.load_hough_transform(**({} if path == "hough_transform" and rng.random() < 0.7 else dict(filename=path)), **({} if f == "npy" and rng.random() < 0.5 else dict(filetype=f)))
    bad = same(state(c1.ht), state(c2.ht), skip=("hough_lines",))
    ctx.check(bad is None and np.array_equal(np.array(c2.hough_points, float), c1.hough_points) and lines_equal(c1.ht, c2.ht)
              and np.array_equal(np.array(c2.hough_lines), np.array(c2.ht.hough_lines)), "calibrator-round-trip", attribute=bad, fmt=f)
    # the next fit uses the loaded transform: same result as with the original, and different points than a recomputation
    marker = c1.ht.hough_points[: max(1, len(c1.ht.hough_points) // 2)]
    c1.ht.hough_points = marker.copy()
    c1.ht.bin_hough_points(30, 30)
    c1.save_hough_transform(filename=path, fileformat=f)
    c2.load_hough_transform(filename=path, filetype=f)
    res = []
    for c in (c1, c2):
        if c is c1:
            c.hough_points, c.hough_lines = c.ht.hough_points, list(c2.hough_lines)
        np.random.seed(1234)
        res.append(gen.fit(c, max_tries=30))
    ctx.check(np.array_equal(np.array(c2.hough_points, float), marker) and np.array_equal(np.array(c2.ht.hough_points, float), marker),
              "fit-uses-loaded", what="transform replaced by fit")
    ctx.check(len(c2.candidates) == len(c2.hough_lines), "fit-uses-loaded", n=[len(c2.candidates), len(c2.hough_lines)])
    a, b = res
    ctx.check((a is None) == (b is None) and (a is None or np.allclose(a[0], b[0], rtol=1e-9)), "fit-uses-loaded", what="different result", res=[r and r[0] for r in res])
    ctx.case(True, through="calibrator", fmt=f, n=len(marker), lo=p["min_w"])
