"""C26: windows on datasets give the values of the dataset, whatever the window and the order of access."""
import itertools
import numpy as np, h5py
from ..run import Check, THOROUGH, f, enc
from ..work import rng_for, NODATA


def dataset(rng, nd, many=False):
    n = [int(rng.choice([2, 3, 4, 5, 8, 13, int(rng.integers(6, 40))])) for _ in range(nd)]
    nv = int(rng.choice([1, 1, 2, 3, 5] if not many and rng.random() < 0.95 else [17, 40, 70]))
    v = rng.uniform(-5000, 5000, (*n, nv))
    if rng.random() < 0.15:
        v *= 10.0**rng.integers(-12, 13, nv)
    if nd == 3 and rng.random() < 0.5:
        v[rng.random(v.shape) < rng.choice([0.01, 0.1, 0.5])] = NODATA
    return v.astype(rng.choice([np.float32, np.float64]))


def walk(rng, n, k):
    """Indices: jumps, sweeps forth and back, repeated places, grid points and their neighbours."""
    out = []
    p = rng.uniform(0, 1, len(n))*(np.array(n)-1)
    while len(out) < k:
        mode = int(rng.integers(0, 5))
        if mode == 0:
            p = rng.uniform(0, 1, len(n))*(np.array(n)-1)
        elif mode == 1:
            step = rng.normal(size=len(n))*rng.choice([0.1, 1.0, 3.0])
            for _ in range(int(rng.integers(3, 20))):
                p = p + step
                hit = (p < 0) | (p > np.array(n)-1)
                step = np.where(hit, -step, step)
                p = np.clip(p, 0, np.array(n)-1)
                out.append(p.copy())
        elif mode == 2:
            p = np.round(p)
        elif mode == 3:
            p = np.clip(np.round(p) + rng.choice([0.5, -0.5, 1e-13, -1e-13, 1e-9, -1e-9, 1e-3, -1e-3], len(n)), 0, np.array(n)-1)
        else:
            p = np.where(rng.random(len(n)) < 0.5, rng.choice([0.0, 1.0], len(n))*(np.array(n)-1), p)
        out.append(p.copy())
    return out[:k]


def interpolation(v, p, missing):
    """Per value: list of acceptable (value or NODATA, tolerance)."""
    nd = len(p)
    lo = [min(max(int(np.floor(x)), 0), v.shape[a]-2) for a, x in enumerate(p)]
    fr = [x - i for x, i in zip(p, lo)]
    out = []
    c = v[tuple(slice(i, i+2) for i in lo)].astype(np.float64)
    for m in range(v.shape[-1]):
        acc = val = 0.0
        big, hit, near = 0.0, False, False
        for o in itertools.product((0, 1), repeat=nd):
            w = [fr[a] if o[a] else 1-fr[a] for a in range(nd)]
            u = c[(*o, m)]
            if missing and u == np.float64(v.dtype.type(NODATA)):
                hit |= min(w) > 1e-11
                near |= min(w) > 0
                continue
            val += np.prod(w)*u
            big = max(big, abs(u))
        a = []
        if hit or near:
            a.append((NODATA, 0.0))
        if not hit:
            a.append((val, 1e-10*big + 1e-300))
        out.append(a)
    return out


def one(ck, i):
    rng = rng_for("C26", i)
    many = i % 8 in (3, 6)
    nd = (2 if i % 8 == 3 else 3) if many else int(rng.choice([2, 3, 3]))
    v = dataset(rng, nd, many)
    n, nv = v.shape[:-1], v.shape[-1]
    path = ck.ws.path("w%d.h5" % i)
    with h5py.File(path, "w") as h:
        kw = {}
        if rng.random() < 0.4:
            kw = dict(chunks=tuple(int(rng.integers(1, s+1)) for s in v.shape), compression=rng.choice([None, "gzip"]))
        h.create_dataset("g/values", data=v, **kw)
    windows = {}
    ops = []
    for k in range(4):
        d = [int(rng.choice([2, 2, 3, 4, 5, int(rng.integers(2, s+3)), s, s+7])) for s in n]
        windows[str(k)] = d
        ops.append("h.new %d %s %s %d %s" % (k, enc(path), enc("g/values"), nd+1, " ".join(map(str, d + [nv + (5 if k == 3 else 0)]))))
    pts = walk(rng, n, 150 if not THOROUGH else 400)
    todo = []
    for p in pts:
        for k in rng.permutation(4)[:int(rng.integers(1, 5))]:
            for kind in ("int", "near") if rng.random() < 0.5 else (str(rng.choice(["int", "near"])),):
                todo.append((kind, str(k), p, len(ops)))
                ops.append("h.%s %d %d %d %s" % (kind, k, nv, nd, " ".join(map(f, p))))
    bad = ["h.new x %s %s %d %s" % (enc(path), enc("g/values"), r, " ".join(["2"]*r)) for r in (nd, nd+2)] + ["h.new x %s %s %d %s" % (enc(path), enc("g/none"), nd+1, " ".join(["2"]*(nd+1)))]
    tr = ck.drive(ops + bad)
    if ck.crash(tr, "data window", [path]):
        return
    for e, o in zip(tr.events[len(ops):], bad):
        if e.ok:
            ck.violation("window not fitting the dataset accepted", o, [o], [path])
        ck.case(("bad", i, o.split()[4]))
    if not all(e.ok for e in tr.events[:4]):
        ck.violation("window refused", str([e.args for e in tr.events[:4]]), ops[:4], [path])
        return
    nearest = {}
    for kind, k, p, at in todo:
        e = tr.events[at]
        what = None
        if not e.ok:
            what = "refused: %s" % e.args
        else:
            got = e.floats()
            if kind == "int":
                acc = interpolation(v, p, nd == 3)
                for g, a in zip(got, acc):
                    if not any(g == w if w == NODATA else abs(g - w) <= t for w, t in a):
                        what = "interpolated value %r, expected one of %s" % (g, a)
            else:
                choices = []
                for x in p:
                    r = np.floor(x + 0.5)
                    choices.append({int(r)} | ({int(np.ceil(x - 0.5))} if abs(x - np.floor(x) - 0.5) < 1e-9 else set()) | ({int(np.floor(x)), int(np.ceil(x))} if abs(x - np.floor(x) - 0.5) < 1e-9 else set()))
                okv = False
                for c in itertools.product(*choices):
                    w = v[c].astype(np.float64)
                    w = np.where(np.abs(1 - w/NODATA) < 1e-3, NODATA, w)
                    okv |= list(w) == got
                first = nearest.setdefault(tuple(p), (got, k))
                if okv and first[0] != got:
                    what = "nearest value %r, but %r with window %s" % (got, first[0], windows[first[1]])
                if not okv:
                    what = "nearest value %r, expected %r" % (got, v[tuple(int(np.floor(x+0.5)) for x in p)].tolist())
        ck.case((i, kind, k, tuple(p)), dict(window=windows[k], dataset=v.shape, index=list(p), kind=kind, event=e.args) if rng.random() < 1e-4 else None)
        ck.count("interpolations" if kind == "int" else "nearest_points")
        if what:
            ck.violation("%s over a window wrong" % kind, "%s at index %s of dataset %s with window %s" % (what, list(p), v.shape, windows[k]), ops[:at+1], [path])
            return
    ck.count("windows", 4)


def main():
    ck = Check("C26", "Random datasets (2-D and 3-D, one to five values, stored as float32/float64, chunked or not, with missing data), each read through four windows of "
               "different sizes at the places of random walks (jumps, sweeps, grid points, half-way points, ends); each (dataset, window, place) counts once.",
               assumptions=["windows have at least two points along each axis, places lie inside the dataset"])
    ck.map(lambda i: one(ck, i), range(150 if THOROUGH else 40))
    return ck.finish(minimum=3000)
