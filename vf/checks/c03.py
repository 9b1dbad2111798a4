"""C03: exact domain membership; points outside give a warning and no-data, and nothing ever aborts."""
import math, os
import numpy as np
from .. import model as vm
from ..run import Check, THOROUGH, f
from ..work import *


def decimal_model(rng):
    """Extents that are decimal multiples of decimal spacings: neither exactly representable."""
    geo = rng.random() < 0.4
    res = float(rng.choice([0.1, 0.05, 0.3, 0.7] if geo else [0.1, 33.3, 100.1, 250.7, 12.5]))
    nx, ny = (int(k) for k in rng.integers(3, 40, 2))
    zres = float(rng.choice([0.1, 33.3, 100.1, 7.7]))
    dig = lambda v: float(repr(round(v, 6)))
    dims = [dig(res*(nx-1)), dig(res*(ny-1)), 0.0]
    blocks, zt, cols = [], 0.0, [("vs", "m/s")]
    for i in range(int(rng.integers(1, 4))):
        nz = int(rng.integers(2, 12))
        var = rng.random() < 0.3
        z = vm.Axis(res=zres, n=nz, descending=True) if not var else vm.Axis(coords=[dig(zt - zres*k) for k in range(nz)], descending=True)
        xa = vm.Axis(res=res, n=nx) if rng.random() < 0.6 else vm.Axis(coords=[dig(res*k) for k in range(nx)])
        ya = vm.Axis(res=res, n=ny) if rng.random() < 0.6 else vm.Axis(coords=[dig(res*k) for k in range(ny)])
        blocks.append(vm.Block("b%d" % i, xa, ya, z, zt, rng.uniform(1, 1000, (nx, ny, nz, 1))))
        zt = dig(zt - zres*(nz-1))
    dims[2] = -zt
    top = None
    if rng.random() < 0.6:
        top = vm.Surface(vm.Axis(res=res, n=nx) if rng.random() < 0.5 else vm.Axis(coords=[dig(res*k) for k in range(nx)]), vm.Axis(res=res, n=ny),
                         rng.uniform(-0.3*dims[2], 0.5*dims[2], (nx, ny)))
    name, origin, _, others = vm.CRSES[3 if geo else int(rng.integers(0, 3))]
    return vm.Model(crs=name, others=others, geographic=geo, origin=origin, azimuth=float(rng.choice([0.0, 0.0, 90.0, 30.0])), dims=tuple(dims),
                    top=top, topo=None, blocks=blocks, columns=cols, kind="decimal")


def boundary_points(rng, m, n):
    """[(x, y, z in the CRS of the model, tag, exact_z)] on and around the boundary of the domain."""
    out = []
    Lx, Ly, D = m.dims
    flat = m.top is None
    exact = m.kind == "exact"
    ox, oy = m.origin
    for _ in range(n):
        b = m.blocks[int(rng.integers(0, len(m.blocks)))]
        # horizontal position, at a grid point of the top surface so that its elevation is free of roundoff
        s = m.top or b
        px, py = s.x.positions(), s.y.positions()
        i, j = grid_choice(rng, px), grid_choice(rng, py)
        x, y = float(px[i]), float(py[j])
        zt = float(m.top.data[i, j]) if m.top is not None else 0.0
        tag = str(rng.choice(["top", "bottom", "side", "corner", "above", "below", "beyond", "contact"]))
        z = float(rng.uniform(-0.9*D, zt - 1.0)) if zt - 1.0 > -0.9*D else -0.5*D
        ez = False
        nud = lambda v: float(rng.choice([v, np.nextafter(v, -np.inf), np.nextafter(v, np.inf)]))
        if tag == "top":
            z, ez = zt, exact
        elif tag == "bottom":
            z, ez = -D, exact
        elif tag == "side":
            w = int(rng.integers(0, 4))
            x, y = [(0.0, y), (Lx, y), (x, 0.0), (x, Ly)][w]
        elif tag == "corner":
            x, y, z = float(rng.choice([0.0, Lx])), float(rng.choice([0.0, Ly])), float(rng.choice([-D, -0.5*D, -0.25*D]))
            ez = exact and flat
        elif tag == "above":
            z = zt + float(rng.choice([3e-4, 1e-2, 1.0, 1e4]))*max(1.0, (zt + D)/D)
        elif tag == "below":
            z = -D - float(rng.choice([1e-3, 1.0, 1e6]))
        elif tag == "beyond":
            d = float(rng.choice([1e-9, 1e-3, 10.0, 1e7]))
            w = int(rng.integers(0, 4))
            x, y = [(-d, y), (Lx + d, y), (x, -d), (x, Ly + d)][w]
        elif tag == "contact":
            b = m.blocks[int(rng.integers(0, len(m.blocks)))]
            z = float(rng.choice([b.z_top, b.z_bot]))
            if not flat:
                z = zt + z*(zt + D)/D
            z = nud(z)
            ez = False
        X, Y = m.from_model(x, y)
        if exact and tag == "side":
            # one unit of roundoff to either side of the edge
            if rng.random() < 0.5:
                X, Y = nud(X), nud(Y)
        out.append((X, Y, z, tag, ez and m.azimuth == 0.0))
    return out


HOSTILE = [math.nan, math.inf, -math.inf, 1e308, -1e308, 1e20, -1e20, 5e-324, 1e15, -1e15]


def one(ck, i):
    rng = rng_for("C03", i)
    k = i % 3
    m = decimal_model(rng) if k == 0 else vm.random_model(rng, kind="exact" if k == 1 else "general", max_blocks=3, azimuth=None,
                                                          size="large" if i % 7 == 4 else "small")
    grid = None
    if i % 9 == 5:  # elevations of other callers are not those of the model
        grid = ck.ws.path("geoid%d.gtx" % i)
        rng2 = rng_for("C03", "vertical", i)
        m = vm.random_model(rng2, max_blocks=3, crs=vm.vertical_crs(rng2, grid), size="small")
        ck.count("models_with_vertical_system")
    extent = {7: "tiny", 8: "huge"}.get(i % 9)
    if extent:
        m = vm.random_model(rng_for("C03", "extent", i), max_blocks=8, extent=extent)
        ck.count("models_" + extent)
    path = m.write(ck.ws.path("m%d.h5" % i))
    names = [c[0] for c in m.columns][:2]
    n = 500 if THOROUGH else 150
    pts = [(x, y, z, t, e, m.crs) for x, y, z, t, e in boundary_points(rng, m, n)]
    inner = physical(m, model_points(rng, m, 20), m.crs)
    for kk, x, y, z in inner:
        pts.append((x, y, z, "inside-" + kk, False, m.crs))
        h = [x, y, z]
        for _ in range(int(rng.integers(1, 4))):
            h[int(rng.integers(0, 3))] = float(rng.choice(HOSTILE))
        pts.append((*h, "hostile", False, m.crs))
    others = [c for c in m.others if c != m.crs]
    if others and extent != "huge":
        crs2 = str(rng.choice(others))
        for (kk, X, Y, Z) in physical(m, model_points(rng, m, 20, ("edge", "interior", "grid")), crs2):
            pts.append((X, Y, Z, "other-crs", False, crs2))
        for _ in range(20):  # anywhere on and off the Earth
            pts.append((float(rng.uniform(-100, 100)), float(rng.uniform(-400, 400)), float(rng.uniform(-1e5, 1e4)), "anywhere", False, crs2))
        for _ in range(10):
            h = [37.0, -122.0, 0.0]
            for _ in range(int(rng.integers(1, 4))):
                h[int(rng.integers(0, 3))] = float(rng.choice(HOSTILE))
            pts.append((*h, "hostile", False, crs2))
    crss = sorted(set(p[5] for p in pts))
    ops = []
    for q, c in enumerate(crss):
        ops += ["q.new %d" % q, init_ops("q", q, [path], names, c), "m.new %d" % q, "m.open %d %s" % (q, enc(path)), "m.load %d" % q,
                "m.crs %d %s" % (q, enc(c)), "m.init %d" % q]
    base, per = len(ops), 5
    order = rng.permutation(len(pts))
    pts = [pts[o] for o in order]
    for x, y, z, t, e, c in pts:
        q = crss.index(c)
        a = "%s %s %s" % (f(x), f(y), f(z))
        ops += ["q.q %d %d %s" % (q, len(names), a), "m.in %d %s" % (q, a), "m.q %d %d %s" % (q, len(m.columns), a), "q.top %d %s %s" % (q, f(x), f(y)), "q.topo %d %s %s" % (q, f(x), f(y))]
    tr = ck.drive(ops)
    if not ck.crash(tr, "query anywhere", [path, grid]):
        for e, op in zip(tr.events[:base], ops):
            if not e.ok:
                return ck.violation("valid model refused", e.args, ops[:base], [path, grid])
        for n, (x, y, z, t, ez, c) in enumerate(pts):
            eq, em, ev, et, eb = tr.events[base+per*n:base+per*n+per]
            rep = ops[:base] + ops[base+per*n:base+per*n+per]
            if not (eq.ok and em.ok and et.ok and eb.ok):
                ck.violation("exception for a point", "%s %r: %s" % (t, (x, y, z), [e.args for e in (eq, em, et, eb) if not e.ok]), rep, [path, grid])
                break
            v = eq.floats()
            bad = judge_point([m], names, c, (x, y, z), int(v[0]), v[1:], exact_z=ez)
            ins = m.locate(x, y, z, c, exact_z=ez)["inside"]
            if not bad and ins is not None and int(em.args[0]) != int(ins):
                bad = "membership %s, expected %s" % (em.args[0], ins)
            if not bad and int(em.args[0]) != (1 if int(v[0]) == 0 else 0):
                bad = "membership %s but query status %d" % (em.args[0], int(v[0]))
            if not bad and ev.ok != (em.args[0] == "1"):  # the model itself refuses points outside
                bad = "membership %s but Model::query %s" % (em.args[0], "returned values" if ev.ok else "failed: " + ev.args)
            if not bad and ev.ok and [float(ev.args[m.column(nm)]) for nm in names] != v[1:]:
                bad = "Model::query returned %s but Query::query %s" % (ev.args, v[1:])
            if bad:
                ck.violation("membership or answer wrong (%s)" % t, "%s point %r kind=%s dims=%r: %s" % (t, (x, y, z), m.kind, m.dims, bad), rep, [path, grid])
                break
            ck.count("points_" + t)
            ck.count({True: "inside", False: "outside", None: "within_roundoff_of_edge"}[ins])
            ck.case((i, repr((x, y, z))), dict(tag=t, point=[repr(x), repr(y), repr(z)], status=int(v[0])) if n % 50 == 3 else None)
        if not ck.violations and tr.events[-1].ok is None:
            pass
    os.unlink(path)
    if grid:
        os.unlink(grid)


def main():
    ck = Check("C03", "Models with exactly representable, decimal and random extents; points on the boundary, one unit of roundoff beside it, at block contacts, "
               "outside, non-finite and untransformable; each (model, point) counts once. The oracle decides membership from the specification of the "
               "model; where the answer is free of roundoff it is exact.",
               assumptions=["elevations up to 0.2 mm above the top may count as the top (documented tolerance)"])
    ck.map(lambda i: one(ck, i), range(400 if THOROUGH else 90))
    return ck.finish(minimum=3000)
