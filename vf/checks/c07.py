"""C07: elevations of the top of the model and of topography/bathymetry."""
import os
import numpy as np
from .. import model as vm
from ..run import Check, THOROUGH, f
from ..work import *


def one(ck, i):
    rng = rng_for("C07", i)
    size = "large" if i % 3 == 1 else "small"
    ci = int(rng.integers(0, len(vm.CRSES)))
    ms, grid = [], None
    if i % 4 == 2:  # elevations of the caller are not those of the models
        rng2 = rng_for("C07", "vertical", i)
        grid = ck.ws.path("geoid%d.gtx" % i)
        ci = vm.vertical_crs(rng2, grid)
        ck.count("cases_with_vertical_system")
    extent = {4: "tiny", 8: "huge"}.get(i % 12)
    if extent:
        ck.count("cases_" + extent)
    for j in range(int(rng.integers(1, 4)) if i % 12 != 5 else int(rng.integers(5, 20))):
        ms.append(vm.random_model(rng, kind="exact" if i % 4 == 3 else "general", extent=extent, size=size if j == 0 else "small", crs=ci, max_blocks=2,
                                  columns=[("vs", "m/s")], topo=rng.random() < 0.8, topo_bathy=rng.random() < 0.6))
    for j, m in enumerate(ms):
        m.write(ck.ws.path("m%d-%d.h5" % (i, j)), **(dict(surface_opts=dict(chunks=True, compression="gzip")) if rng.random() < 0.4 else {}))
    paths = [m.path for m in ms]
    files = paths + [grid]
    crs = ms[0].crs if rng.random() < (0.1 if grid else 1.0 if extent == "huge" else 0.4) else str(rng.choice([c for c in ms[0].others]))
    pts = []
    for m in ms:
        pts += physical(m, model_points(rng, m, 120 if THOROUGH else 50, ("interior", "edge", "face", "grid")) +
                        (sweep(rng, m, 80) if size == "large" else []), crs)
        Lx, Ly, D = m.dims
        for s in (m.top, m.topo):
            if s is not None:
                px, py = s.x.positions(), s.y.positions()
                g = [("vertex", float(px[grid_choice(rng, px)]), float(py[grid_choice(rng, py)]), -1.0) for _ in range(25)]
                pts += physical(m, g, crs)
        pts += physical(m, [("outside", float(rng.choice([-0.1, 1.1]))*Lx, float(rng.uniform(0, 1))*Ly, -1.0) for _ in range(8)], crs)
    pts = [pts[k] for k in rng.permutation(len(pts))]
    ops = ["q.new 1", init_ops("q", 1, paths, ["vs"], crs)]
    for _, x, y, z in pts:
        ops += ["q.top 1 %s %s" % (f(x), f(y)), "q.topo 1 %s %s" % (f(x), f(y))]
    tr = ck.drive(ops)
    if not ck.crash(tr, "elevation query", files):
        if not tr.events[1].ok:
            return ck.violation("valid model refused", tr.events[1].args, ops[:2], files)
        for n, (k, x, y, z) in enumerate(pts):
            for which, e in (("top", tr.events[2+2*n]), ("topo", tr.events[3+2*n])):
                bad = "exception " + e.args if not e.ok else judge(ms, crs, x, y, which, e.floats()[0])
                if bad:
                    ck.violation("elevation of %s wrong" % which, "%s point %r caller=%s model=%s: %s" % (k, (x, y), crs, [m.crs for m in ms], bad),
                                 ops[:2] + ops[2+2*n:4+2*n], files)
                    return
            ck.count("points_" + k)
            v = tr.events[2+2*n].floats()[0]
            ck.count("no_data" if v == NODATA else "zero" if v == 0.0 else "elevations")
            ck.case((i, x, y), dict(crs=crs, point=[x, y], top=v, topo=tr.events[3+2*n].floats()[0]) if n == 5 else None)
    for p in files if grid else paths:
        os.unlink(p)


def judge(ms, crs, x, y, which, value):
    for m in ms:
        el = m.elevation(x, y, crs, which)
        if el is None:
            continue
        s, tol = el
        loc = m.locate(x, y, s - 1e-3, crs, ez_extra=tol)
        if loc["inside"] is False:
            continue
        if abs(value - s) <= tol:
            return None
        if loc["inside"] is True:
            return "%r, expected %r within %g" % (value, s, tol)
        edge = s
    if value == NODATA:
        return None
    return "%r, expected no-data" % value


def main():
    ck = Check("C07", "Up to three overlapping random models with and without surfaces (uniform/variable spacing, smaller and larger than the cached window); "
               "points at surface grid points, edges, inside, outside, and along sweeps; both elevations judged by an independent bilinear reference.",
               assumptions=["PROJ as called through pyproj is trusted for coordinate transformation"])
    ck.map(lambda i: one(ck, i), range(400 if THOROUGH else 72))
    return ck.finish(minimum=2000)
