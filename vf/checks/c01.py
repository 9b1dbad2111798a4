"""C01: every value equals the trilinear interpolation of the stored grid at the point."""
import numpy as np
from .. import model as vm
from ..run import Check, THOROUGH, f, SEED
from ..work import *


def one(ck, i):
    rng = rng_for("C01", i)
    kind = "exact" if i % 4 == 3 else "general"
    size = "large" if i % 5 == 2 else "small"
    m = vm.random_model(rng, kind=kind, size=size, crs=i % len(vm.CRSES) if i % 3 == 0 else None,
                        variable=[None, True, False][i % 3] if size == "large" else None)
    rng2 = rng_for("C01", "more", i)
    if i % 8 in (4, 7):  # many blocks, deep grids and many values
        cols = [(n, u) for n, u in zip(vm.NAMES, vm.UNITS)] + [("value-%d" % k, "none") for k in range(int(rng2.integers(0, 30)))]
        m = vm.random_model(rng2, kind=kind, max_blocks=14 if i % 8 == 4 else 3, columns=[cols[int(k)] for k in rng2.permutation(len(cols))], tall=True)
        ck.count("models_many_values_deep")
    if i % 48 in (10, 34):  # counts beyond one byte
        cols = [("value-%d" % k, "none") for k in range(int(rng2.integers(257, 320)) if i % 48 == 10 else 1)]
        while True:
            m = vm.random_model(rng2, kind="general", max_blocks=1 if i % 48 == 10 else 400, columns=cols, dims=(2000.0, 3000.0, 44000.0), crs=0)
            if i % 48 == 10 or len(m.blocks) > 256:
                break
        ck.count("models_with_hundreds_of_%s" % ("values" if i % 48 == 10 else "blocks"))
    grid, extent = None, {1: "tiny", 9: "tiny", 13: "huge", 21: "huge"}.get(i % 24)
    if extent:
        m = vm.random_model(rng2, kind="general", size=size, extent=extent, max_blocks=8)
        ck.count("models_" + extent)
    if i % 6 == 5:  # elevations of the caller are not those of the model
        grid = ck.ws.path("geoid%d.gtx" % i)
        m = vm.random_model(rng2, kind="general", size=size, crs=vm.vertical_crs(rng2, grid))
        ck.count("models_with_vertical_system")
    opts = {}
    if rng.random() < 0.4:
        opts["block_opts"] = dict(compression="gzip") if rng.random() < 0.5 else dict(chunks=True)
    if rng2.random() < 0.3:
        for b in m.blocks:
            b.data = b.data.astype(np.float32).astype(np.float64)
        opts.setdefault("block_opts", {})["dtype"] = np.float32
    path = m.write(ck.ws.path("m%d.h5" % i), **opts)
    crs = m.crs if not grid and (kind == "exact" or extent == "huge" or rng.random() < 0.3) else str(rng.choice(m.others))
    npts = 500 if THOROUGH else 160
    pts = physical(m, model_points(rng, m, npts) + (sweep(rng, m, npts//2) if size == "large" else []), crs)
    if grid:  # several elevations at one place, one after the other
        pts = [q for k, x, y, z in pts for q in [(k, x, y, z)] + [("column", x, y, z*s) for s in rng2.uniform(0.3, 1.5, int(rng2.integers(0, 3)))]]
    names = [c[0] for c in m.columns]
    ops = ["q.new 1", init_ops("q", 1, [path], names, crs)]
    ops += ["q.q 1 %d %s %s %s" % (len(names), f(x), f(y), f(z)) for _, x, y, z in pts]
    tr = ck.drive(ops)
    judged = 0
    if not ck.crash(tr, "query in the domain", [path, grid]):
        if not tr.events[1].ok:
            ck.violation("valid model refused", tr.events[1].args, ops[:2], [path, grid])
            return
        for (k, x, y, z), e in zip(pts, tr.events[2:]):
            if not e.ok:
                ck.violation("exception in the domain", e.args, ops, [path, grid])
                break
            v = e.floats()
            bad = judge_point([m], names, crs, (x, y, z), int(v[0]), v[1:])
            if bad:
                what = "%s variable=%s az=%g crs=%s caller=%s" % (k, [[a.coords is not None for a in (b.x, b.y, b.z)] for b in m.blocks], m.azimuth, m.crs, crs)
                ck.violation("value differs from the interpolated stored grid", bad + " [" + what + "]", ops[:2] + ["q.q 1 %d %s %s %s" % (len(names), f(x), f(y), f(z))], [path, grid])
                break
            judged += 1
            ck.count("points_" + k)
            ck.case((i, x, y, z), dict(model=i, crs=m.crs, caller=crs, azimuth=m.azimuth, blocks=len(m.blocks), point=[x, y, z], values=v[1:]) if judged == 7 else None)
        ck.count("models")
        ck.count("models_with_window_changes", int(size == "large"))
        ck.count("models_variable_axis", int(any(a.coords is not None for b in m.blocks for a in (b.x, b.y, b.z))))
    import os
    os.unlink(path)
    if grid:
        os.unlink(grid)


def main():
    ck = Check("C01", "Random models (kinds of axes, CRS, rotation, topography, blocks, columns; rough fields; vertical systems in other units or above a geoid) written as files; points in "
               "the domain (interior, at grid points, faces, block contacts, edges, top surface, sweeps over large grids). Every answer of the "
               "real library is judged by an independent reference interpolation; each (model, point) counts once.",
               assumptions=["PROJ as called through pyproj is trusted for coordinate transformation", "h5py writes what it is given",
                            "discontinuities closer than the roundoff of the coordinates accept the answers of both sides"])
    n = 600 if THOROUGH else 96
    ck.map(lambda i: one(ck, i), range(n))
    return ck.finish(minimum=2000)
