"""C11: a virtual borehole samples the column from the surface to the maximum depth."""
import os, copy, math
from fractions import Fraction
import numpy as np
from .. import model as vm
from ..run import Check, THOROUGH, f, enc
from ..work import *
from ..apps import *


def one(ck, i):
    rng = rng_for("C11", i)
    d = ck.ws.folder("c", i)
    cols = [("Value-%d%s" % (k, "-long"*(k % 7)), ("m/s", "none", "kg/m**3")[k % 3]) for k in range(int(rng.choice([18, 45])))] if i % 9 == 7 else None
    m = vm.random_model(rng, nodata=float(rng.choice([0.0, 0.03])), topo=bool(rng.random() < 0.75), columns=cols)
    models = [m]
    if rng.random() < 0.3:
        o = copy.copy(m)
        o._tr = {}
        o.origin = (m.origin[0] + float(rng.uniform(-0.6, 0.6))*m.dims[0], m.origin[1] + float(rng.uniform(-0.6, 0.6))*m.dims[1])
        o.blocks = [vm.Block(b.name, b.x, b.y, b.z, b.z_top, np.where(b.data == vm.NODATA, b.data, b.data + 1000.0)) for b in m.blocks]
        models = [o, m] if rng.random() < 0.5 else [m, o]
    for k, o in enumerate(models):
        o.write(os.path.join(d, "m%d.h5" % k))
    crs = str(rng.choice([m.crs] + m.others))
    cols = [c[0] for c in m.columns]
    names = [str(c) for c in rng.permutation(cols)[:int(rng.integers(1, len(cols)+1))]]
    out = os.path.join(d, "out.txt")
    where = str(rng.choice(["in", "in", "in", "in", "edge", "away"]))
    _, x, y, _ = physical(m, model_points(rng, m, 1, where=("edge",) if where == "edge" else ("interior", "grid")), crs)[0]
    if where == "away":
        X, Y = m.from_model(m.dims[0]*float(rng.choice([-0.4, 1.6])), m.dims[1]*float(rng.uniform(-0.3, 1.3)))
        x, y = [float(v) for v in m.to_crs(crs, X, Y, 0.0)[:2]]
        if rng.random() < 0.3:
            X, Y = m.from_model(m.dims[0]*float(rng.uniform(0.1, 0.9)), m.dims[1]*float(rng.uniform(0.1, 0.9)))
            y, x = [float(v) for v in m.to_crs(crs, X, Y, 0.0)[:2]]  # coordinates in the wrong order
    if not (math.isfinite(x) and math.isfinite(y)):
        return
    xs, ys = ("%r" % x, "%r" % y) if rng.random() < 0.5 else ("%.6f" % x, "%.6f" % y)
    x, y = float(xs), float(ys)
    D = m.dims[2]
    r = int(rng.integers(0, 10))
    dz, depth = None, None
    if r == 0:
        pass
    elif r == 1:
        dz = float(rng.choice([0.1, 0.3, 0.7, 1.1])) * float(rng.choice([1.0, 10.0, 100.0]))
        depth = dz*int(rng.integers(1, 60))          # a multiple, up to roundoff
        depth = float("%.10g" % depth)
    elif r == 2:
        dz, depth = float(rng.choice([0.5, 1.0, 25.0, 100.0])), 0.0
    elif r == 3:
        dz = round(float(rng.uniform(20.0, 400.0)), 2)
        depth = round(float(rng.uniform(0.0, 1.3*D)), 1)
    elif r == 4:
        depth = float(rng.choice([1000.0, 123.0, 2500.0]))  # default increment
    elif r == 5:
        dz = float(rng.choice([7.0, 33.0, 123.25]))         # default depth
    elif r == 6:
        dz, depth = 1e4, 10.0                               # only the first row
    elif r == 7:  # the last increment just misses the maximum depth, or just fits
        dz = float(rng.choice([1.0, 10.0, 12.5, 100.0]))
        depth = float("%.10g" % (dz*(int(rng.integers(1, 40)) + float(rng.choice([-1e-2, -6e-3, -1e-3, -1e-4, 1e-4, 1e-3, 1e-2])))))
    elif r == 8:
        dz = D/16.0
        depth = D
    else:  # the last row is at the bottom of the model, or just below it
        tr = ck.drive(["q.new 1", init_ops("q", 1, [m.path], names, crs), "q.top 1 %s %s" % (f(x), f(y))])
        top = tr.events[2].floats()[0] if len(tr.events) > 2 and tr.events[2].ok else vm.NODATA
        n = int(rng.integers(1, 30))
        dz = float("%.10g" % ((max(top, 0.0) + D)/n*float(rng.choice([1.0, 1.0 + 1e-6, 1.0 + 1e-4/n]))))
        depth = float("%.10g" % (dz*n))
    if i % 40 == 13:  # thousands of rows
        dz, depth = [(0.5, 2600.0), (0.1, 450.0), (1.0, 9000.0)][int(rng.integers(0, 3))]
    opt = [("models", ",".join(os.path.basename(o.path) for o in models)), ("output", "out.txt"), ("location", xs + "," + ys), ("values", ",".join(names))]
    ds = "%.10g" % dz if dz is not None else "10"
    zs = "%.10g" % depth if depth is not None else "5000"
    if dz is not None:
        opt.append(("dz", ds))
    if depth is not None:
        opt.append(("max-depth", zs))
    if crs != "EPSG:4326" or rng.random() < 0.5:
        opt.append(("points-coordsys", crs))
    n = int(Fraction(zs)/Fraction(ds))  # exact decimal arithmetic: number of increments within the depth
    dz = float(ds)
    ran = run_app(ck, "borehole", as_options(rng, opt), d)
    replay = [out] + [o.path for o in models]

    def bad(key, text):
        replay_files(ck, ran, text, key, replay)
    if ran.crash:
        return bad("abnormal end", ran.crash)
    ops = ["q.new 1", init_ops("q", 1, [o.path for o in models], names, crs), "q.top 1 %s %s" % (f(x), f(y))]
    tr = ck.drive(ops)
    if ck.crash(tr, "reference", replay) or not tr.events[2].ok:
        return
    top = tr.events[2].floats()[0]
    inside = [o.locate(x, y, -1e-3*D, crs)["inside"] for o in models] if where == "away" else [True]
    if top == vm.NODATA:
        if ran.rc == 0 or not (ran.out + ran.err).strip():
            return bad("location outside the models not refused", "exit status %d, text %r" % (ran.rc, ran.out + ran.err))
        if os.path.exists(out) and any(not ln.startswith("#") for ln in open(out)):
            return bad("rows written for a location outside the models", "see out.txt")
        ck.case((i, "outside"), dict(location=(x, y), status=ran.rc, text=(ran.out + ran.err)[:100]))
        ck.count("refused_locations")
        return
    if where == "away" and not any(v is not False for v in inside):
        return  # the library disagrees with the oracle: judged by C03 and C07
    if ran.rc != 0:
        return bad("valid run failed", "exit status %d: %s" % (ran.rc, (ran.out + ran.err)[-400:]))
    comments, rows, _ = table(out)
    head = comments[-1].lstrip("#").split() if comments else []
    if [h.lower() for h in head[:2]] != ["elevation", "depth"] or head[2:] != names:
        return bad("header does not name the columns", repr(comments))
    more = int(Fraction(zs)/Fraction(ds) + Fraction(2, 10**6))  # a last row beyond the maximum depth by roundoff is accepted
    if len(rows) == more + 1:
        n = more
    if len(rows) != n + 1:
        return bad("wrong number of rows", "%d rows for increment %s and maximum depth %s (expected %d)" % (len(rows), ds, zs, n+1))
    off = [0.0, -1e-6, -2e-6] if top != 0.0 else [0.0]
    pts = [top - dz*k + o for k in range(n+1) for o in off]
    tr = ck.drive(ops + ["q.q 1 %d %s %s %s" % (len(names), f(x), f(y), f(z)) for z in pts])
    if ck.crash(tr, "reference", replay):
        return
    ev = tr.events[3:]
    for k, row in enumerate(rows):
        z, dep = float(row[0]), float(row[1])
        if abs(z - (top - dz*k)) > 1.01e-6*abs(top - dz*k) + 2e-5:
            return bad("wrong elevation", "row %d has elevation %s, expected %.9g (surface %.9g)" % (k, row[0], top - dz*k, top))
        if abs(dep - dz*k) > 1.01e-6*dz*k + 1e-6:
            return bad("wrong depth", "row %d has depth %s, expected %.9g" % (k, row[1], dz*k))
        cand = [e.floats(1) for e in ev[k*len(off):(k+1)*len(off)] if e.ok]
        if k == 0 and top != 0.0 and ev[1].ok and ev[1].args[0] == "0":
            cand = [e.floats(1) for e in ev[:len(off)] if e.ok and e.args[0] == "0"]  # the surface is in the model
        ok = False
        for c in cand:
            if len(row) == 2 + len(c) and all(seven(t, v) for t, v in zip(row[2:], c)):
                ok = True
        if not ok and len(cand) > 1 and len(row) == 2 + len(cand[0]):
            # the offset moves a steep value by more than its last digit
            ok = all(any(seven(t, c[j]) for c in cand) or min(c[j] for c in cand)*1.0 - 2e-6*abs(cand[0][j]) <= float(t) <= max(c[j] for c in cand) + 2e-6*abs(cand[0][j])
                     for j, t in enumerate(row[2:]))
        if not ok:
            return bad("values differ from the library", "row %d is %s, the library gives %s" % (k, row, cand))
        ck.case((i, k), dict(row=row, library=cand[0]) if k == 5 else None)
    ck.count("boreholes")
    ck.count("last_row_on_maximum_depth", int(Fraction(zs) == n*Fraction(ds)))


def main():
    ck = Check("C11", "Random models, locations (inside, on edges, outside), increments and depths (multiples up to decimal roundoff, larger than the model, zero, "
               "defaults); every row is compared with queries of the library below the surface.", programs=("driver", "borehole"),
               assumptions=["rows carry seven significant digits", "the first row may lie a micrometre below the surface, an offset of the program against roundoff"])
    ck.map(lambda i: one(ck, i), range(900 if THOROUGH else 140))
    return ck.finish(minimum=1500)
