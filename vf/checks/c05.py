"""C05: order of models, order of values, units."""
import os
import numpy as np
from .. import model as vm
from ..run import Check, THOROUGH, f
from ..work import *
from .c07 import judge as judge_elevation

CRS_INDEX = [0, 3, 4]  # these overlap around 37N 122W


def recase(rng, s):
    return "".join(c.upper() if rng.random() < 0.5 else c.lower() for c in s)


def relocate(rng, m, lonlat):
    """Moves the model so that it covers the point."""
    X, Y, _ = m.transformer("EPSG:4326").transform(lonlat[1], lonlat[0], 0.0)
    xm, ym = float(rng.uniform(0.1, 0.9))*m.dims[0], float(rng.uniform(0.1, 0.9))*m.dims[1]
    c, s = m.rot()
    m.origin = (X - (xm*c + ym*s), Y - (-xm*s + ym*c))


def one(ck, i):
    rng = rng_for("C05", i)
    ncol = int(rng.integers(1, 6))
    idx = rng.permutation(len(vm.NAMES))
    base = [(vm.NAMES[k], vm.UNITS[k]) for k in idx[:ncol]]
    rest = [(vm.NAMES[k], vm.UNITS[k]) for k in idx[ncol:]]
    lonlat = (-122.0 + float(rng.uniform(-0.3, 0.3)), 37.2 + float(rng.uniform(-0.3, 0.3)))
    ms, entry, grid = [], None, None
    if i % 8 == 3:  # elevations of the caller are not those of the models
        grid = ck.ws.path("geoid%d.gtx" % i)
        entry = vm.vertical_crs(rng_for("C05", "vertical", i), grid)
        ck.count("cases_with_vertical_system")
    for j in range(int(rng.integers(2, 6)) if i % 10 else int(rng.integers(9, 18)) if i != 40 else 270):
        cols = base + [(n, u if rng.random() < 0.5 else "other") for n, u in rest[:int(rng.integers(0, len(rest)+1))]]
        cols = [(recase(rng, n) if rng.random() < 0.5 else n, recase(rng, u) if rng.random() < 0.2 else u) for n, u in
                [cols[k] for k in rng.permutation(len(cols))]]
        m = vm.random_model(rng, dims=(2000.0, 3000.0, 4000.0) if i == 40 and j < 260 else None, topo=False if i == 40 else None, crs=0 if i == 40 else entry or int(rng.choice(CRS_INDEX)), columns=cols, max_blocks=2, nodata=float(rng.choice([0.0, 0.05])))
        if rng.random() < (0.85 if i != 40 else 1.0 - j/270.0):
            relocate(rng, m, lonlat)
        m.write(ck.ws.path("m%d-%d.h5" % (i, j)))
        ms.append(m)
    order = [ms[k] for k in rng.permutation(len(ms))]
    crs = str(rng.choice(["EPSG:4326", "EPSG:26910", "EPSG:4979"]))
    if grid:
        crs = str(rng.choice(entry[3]))
    paths = [m.path for m in order]
    files = paths + [grid]
    ops, judged, refusals, heights = ["q.new 1"], [], [], []
    # refusals leave the handle usable; what is wrong comes after few or many others

    def before():
        return [base[int(k)][0] for k in rng4.integers(0, ncol, int(rng4.choice([1, 1, 3, 9, 17, 40])))]
    rng4 = rng_for("C05", "refusals", i)
    for _ in range(2):
        kind = int(rng.integers(0, 3))
        if kind == 0:
            refusals.append((len(ops), "missing value"))
            nn = before() + ["no-such-value"]
            nn = [nn[k] for k in rng.permutation(len(nn))]
            ops.append(init_ops("q", 1, paths, nn, crs))
        elif kind == 1:
            # a value present in some models only
            have = [set(c[0].lower() for c in m.columns) for m in order]
            part = sorted(set.union(*have) - set.intersection(*have))
            if part:
                refusals.append((len(ops), "value missing from some models"))
                ops.append(init_ops("q", 1, paths, before() + [part[0]], crs))
        else:
            common = set.intersection(*[set(c[0].lower() for c in m.columns) for m in order])
            for n in sorted(common):
                u = {m.columns[m.column(n)][1].lower() for m in order}
                if len(u) > 1:
                    refusals.append((len(ops), "units differ"))
                    ops.append(init_ops("q", 1, paths, before() + [n], crs))
                    break
    rng3 = rng_for("C05", "again", i)
    recent = []
    for step in range(5 if THOROUGH else 3):
        names = [base[k][0] for k in rng.permutation(ncol)[:int(rng.integers(1, ncol+1))]]
        if rng.random() < 0.2:
            names.append(names[0])
        names = [recase(rng, n) for n in names]
        initat = len(ops)
        if step and i != 40:  # the same handle with the models in another order, or only some of them
            order = [order[k] for k in rng3.permutation(len(order))][:len(order) if rng3.random() < 0.7 else max(1, len(order)-1)]
            if len(recent) > 12:  # the points asked last, first again
                recent = [recent[-1]] + [recent[k] for k in rng3.permutation(len(recent)-1)[:11]]
            ck.count("opened_again")
        ops.append(init_ops("q", 1, [m.path for m in order], names, crs))
        for m in [None] + order:
            if m is None:
                pts, recent = recent, []
            else:
                pts = [(x, y, z) for k, x, y, z in physical(m, model_points(rng, m, (16 if step < 2 else 4) if i != 40 else 1), crs)]
                recent += pts
            for x, y, z in pts:
                judged.append((len(ops), (x, y, z), names, initat, order))
                ops.append("q.q 1 %d %s %s %s" % (len(names), f(x), f(y), f(z)))
                if i != 40 and len(judged) % 6 == 0:
                    which = ("top", "topo")[len(judged) // 6 % 2]
                    heights.append((len(ops), (x, y), which, initat, order))
                    ops.append("q.%s 1 %s %s" % (which, f(x), f(y)))
    tr = ck.drive(ops)
    if not ck.crash(tr, "query of several models", files):
        for at, why in refusals:
            if tr.events[at].ok:
                ck.violation("%s accepted" % why, ops[at], ops[:at+1], files)
            ck.count("refusals")
        for at, p, names, initat, order in judged:
            if not tr.events[initat].ok:
                ck.violation("valid request refused", tr.events[initat].args, ops[:initat+1], files)
                break
            e = tr.events[at]
            v = e.floats() if e.ok else []
            bad = ("exception " + e.args) if not e.ok else judge_point(order, names, crs, p, int(v[0]), v[1:])
            if bad:
                ck.violation("answer of several models wrong", "values %s at %r: %s" % (names, p, bad), ops[:initat+1] + ops[max(initat+1, at-20):at+1], files)
                break
            locs = [m.locate(*p, crs)["inside"] for m in order]
            n = sum(1 for l in locs if l)
            ck.count("points_in_%s_models" % (n if n < 3 else "3+"))
            if n:
                ck.count("answered_by_model_%d" % locs.index(True))
            ck.case((i, p, tuple(names)), dict(point=p, inside=locs, names=names, got=e.args) if n > 1 and at % 41 == 0 else None)
        for at, p, which, initat, order in heights if not ck.violations else []:
            e = tr.events[at]
            bad = ("exception " + e.args) if not e.ok else judge_elevation(order, crs, *p, which, e.floats()[0])
            if bad:
                ck.violation("elevation from several models wrong", "elevation of %s at %r: %s" % (which, p, bad), ops[:initat+1] + ops[max(initat+1, at-20):at+1], files)
                break
            ck.count("elevations_" + ("of_no_model" if e.floats()[0] == NODATA else "judged"))
            ck.case((i, p, which), None)
    for m in ms:
        os.unlink(m.path)
    if grid:
        os.unlink(grid)


def main():
    ck = Check("C05", "Two to five (in every tenth case up to seventeen, in one 270) overlapping models in three coordinate systems, columns permuted, extra columns, names and units in mixed case, requests in any order with "
               "repeats; each point is judged against the first containing model. Each query counts once.",
               assumptions=["PROJ as called through pyproj is trusted for coordinate transformation"])
    ck.map(lambda i: one(ck, i), [40] + [i for i in range(400 if THOROUGH else 80) if i != 40])
    if not ck.violations and (ck.extra.get("refusals", 0) < 20 or ck.extra.get("answered_by_model_1", 0) < 50):
        from ..run import CheckError
        raise CheckError("too few refusals or overlapping points observed")
    return ck.finish(minimum=2000)
