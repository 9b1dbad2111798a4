"""Workloads and judgements shared by the checks of the query interface."""
import math
import numpy as np
from . import model as vm
from .run import enc, f, SEED

NODATA = vm.NODATA
import warnings
warnings.filterwarnings("ignore", category=RuntimeWarning)


def rng_for(*key):
    import zlib
    return np.random.default_rng([SEED] + [zlib.crc32(str(k).encode()) for k in key])


def grid_choice(rng, positions, lo=0):
    """An index into positions; near the ends and the middle more often."""
    n = len(positions)
    if rng.random() < 0.3:
        return int(rng.choice([0, n-1, max(0, n-2), min(1, n-1), n//2]))
    return int(rng.integers(0, n))


def model_points(rng, m, n, where=("interior", "grid", "face", "contact", "edge", "surface")):
    """Points inside the model in logical model coordinates: list of (kind, xm, ym, zl)."""
    out = []
    Lx, Ly, D = m.dims
    for _ in range(n):
        kind = str(rng.choice(list(where)))
        b = m.blocks[int(rng.integers(0, len(m.blocks)))]
        x, y = float(rng.uniform(0, Lx)), float(rng.uniform(0, Ly))
        z = float(rng.uniform(b.z_bot, b.z_top))
        if kind == "grid":
            px, py, pz = b.x.positions(), b.y.positions(), b.z.positions()
            x, y = float(px[grid_choice(rng, px)]), float(py[grid_choice(rng, py)])
            z = b.z_top - float(pz[grid_choice(rng, pz)])
        elif kind == "face":
            a = int(rng.integers(0, 3))
            px, py, pz = b.x.positions(), b.y.positions(), b.z.positions()
            if a == 0:
                x = float(px[grid_choice(rng, px)])
            elif a == 1:
                y = float(py[grid_choice(rng, py)])
            else:
                z = b.z_top - float(pz[grid_choice(rng, pz)])
        elif kind == "contact":
            z = float(rng.choice([b.z_top, b.z_bot])) + float(rng.choice([0.0, 1e-3, -1e-3, 1.0, -1.0]))
            z = min(max(z, -D), 0.0)
        elif kind == "edge":
            d = float(rng.choice([1e-9, 1e-6, 1e-3, 1.0])) * (1e-5 if m.geographic else 1.0)
            w = int(rng.integers(0, 4))
            if w == 0:
                x = d
            elif w == 1:
                x = Lx - d
            elif w == 2:
                y = d
            else:
                y = Ly - d
        elif kind == "surface":
            z = -float(rng.choice([1e-6, 1e-3, 0.1, 5.0]))
        out.append((kind, x, y, z))
    return out


def sweep(rng, m, n):
    """Points along a line through the model, as a moving receiver would ask for: many window changes on big grids."""
    Lx, Ly, D = m.dims
    a, b = rng.uniform(0, 1, 2), rng.uniform(0, 1, 2)
    t = np.linspace(0, 1, n)
    return [("sweep", float((a[0]*(1-s)+b[0]*s)*Lx), float((a[1]*(1-s)+b[1]*s)*Ly), float(rng.uniform(-D, 0))) for s in t]


def physical(m, pts, crs):
    """Logical points -> coordinates in `crs` (as a caller would give them)."""
    out = []
    for kind, x, y, z in pts:
        X, Y, Z = m.point(x, y, z, crs)
        out.append((kind, float(X), float(Y), float(Z)))
    return out


def init_ops(prefix, h, files, names, crs):
    return "%s.init %s %d %s %d %s %s" % (prefix, h, len(files), " ".join(enc(p) for p in files), len(names),
                                          " ".join(enc(n) for n in names), enc(crs))


def judge_point(models, names, crs, p, status, values, exact_z=False):
    """None if acceptable, else a description. models in order of precedence."""
    x, y, z = p
    edge = None
    for m in models:
        loc = m.locate(x, y, z, crs, exact_z=exact_z)
        ins = loc["inside"]
        if ins is False:
            continue
        acc = m.values(loc, [m.column(n) for n in names])
        good = status == 0 and all(vm.matches(v, a) for v, a in zip(values, acc))
        if good:
            return None
        if ins is True:
            if status != 0:
                return "status %s for a point inside (logical %.9g %.9g %.9g): values %s" % (status, loc["x"], loc["y"], loc["z"], values)
            return "values %s at logical (%.12g, %.12g, %.12g), expected one of %s" % (
                values, loc["x"], loc["y"], loc["z"], [[(v, t) for v, t in a[:4]] for a in acc])
        edge = "acceptable values would be %s" % [[(v, t) for v, t in a[:4]] for a in acc]
        # at the edge: the next model, or none, may answer as well
    if status == 1 and all(v == NODATA for v in values):
        return None
    return "status %s values %s for a point %s (expected warning and no-data)" % (
        status, values, ("at the edge of a model, " + edge) if edge else "outside all models")
