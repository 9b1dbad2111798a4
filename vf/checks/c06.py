"""C06: squashing is exactly the documented change of elevation."""
import os
import numpy as np
from .. import model as vm
from ..run import Check, THOROUGH, f
from ..work import *


def judge(ms, names, crs, p, status, values, squash, minelev):
    """As judge_point, with the elevation mapped separately for each model."""
    x, y, z = p
    acc = None
    for m in ms:
        zs, extra = z, 0.0
        if squash and z > minelev:
            el = m.elevation(x, y, crs, "top" if squash == 1 else "topo")
            if el is None:
                continue
            s, tol = el
            zs = s + z*(minelev - s)/minelev
            extra = 2*tol*(1.0 + abs(z/minelev)) + 8*vm.EPS*(abs(s) + abs(z))
        loc = m.locate(x, y, zs, crs, ez_extra=extra)
        if loc["inside"] is False:
            continue
        acc = m.values(loc, [m.column(n) for n in names])
        if status == 0 and all(vm.matches(v, a) for v, a in zip(values, acc)):
            return None
        if loc["inside"] is True:
            return "status %s values %s; expected one of %s (elevation %r moved to %r)" % (status, values, acc, z, zs)
    if status == 1 and all(v == NODATA for v in values):
        return None
    return "status %s values %s; expected %s" % (status, values, "no-data" if acc is None else acc)


def one(ck, i):
    rng = rng_for("C06", i)
    ci = int(rng.integers(0, len(vm.CRSES)))
    cols = None
    ms, grid = [], None
    if i % 4 == 3:  # elevations of the caller are not those of the models
        grid = ck.ws.path("geoid%d.gtx" % i)
        ci = vm.vertical_crs(rng_for("C06", "vertical", i), grid)
        ck.count("cases_with_vertical_system")
    for j in range(int(rng.integers(1, 4))):
        m = vm.random_model(rng, kind="general", crs=ci, max_blocks=3, columns=cols, topo=rng.random() < 0.85, topo_bathy=rng.random() < 0.7)
        if j == 0:
            cols = m.columns
        elif rng.random() < 0.7:  # overlap the first model
            m.origin = ms[0].origin
            m.azimuth = ms[0].azimuth
        ms.append(m)
    if rng.random() < 0.3:  # shallow model over a deep one: squashing must be decided model by model
        ms[0].top = None
    for j, m in enumerate(ms):
        m.write(ck.ws.path("m%d-%d.h5" % (i, j)))
    paths = [m.path for m in ms]
    files = paths + [grid]
    names = [c[0] for c in cols]
    crs = ms[0].crs if rng.random() < (0.1 if grid else 0.5) else str(rng.choice(ms[0].others))
    ops = ["q.new 1", init_ops("q", 1, paths, names, crs), "q.new 2", init_ops("q", 2, paths, names, crs)]
    judged = []
    for step in range(14 if THOROUGH else 7):
        D = min(m.dims[2] for m in ms)
        minelev = -float(rng.choice([0.05*D, 0.3*D, 1.0*D, 5000.0, 10000.0, 1.5*D]))
        if rng_for("C06", "size", i, step).random() < 0.2:  # just below sea level, or far below any model
            minelev = -float(rng_for("C06", "small", i, step).choice([0.01, 0.5, 3.0, 40.0, 1.0e6]))
            ck.count("unusual_minimum")
        how = int(rng.integers(0, 5))
        if how == 0:  # minimum elevation alone selects the top surface (when squashing was off)
            ops += ["q.sq 1 0", "q.min 1 %s" % f(minelev)]
            sq = 1
        elif how == 1:
            ops += ["q.min 1 %s" % f(minelev), "q.sq 1 0"]
            sq = 0
        elif how == 2:
            ops += ["q.sq 1 2", "q.min 1 %s" % f(minelev)]
            sq = 2
        else:
            sq = int(rng.integers(1, 3))
            ops += ["q.min 1 %s" % f(minelev), "q.sq 1 %d" % sq]
        if step:  # the question asked last, under the new settings
            pts = [judged[-1][1]] + [judged[-1-int(k)][1] for k in rng_for("C06", "again", i, step).integers(1, 14, 2)]
            ck.count("repeated_after_change", len(pts))
            if step % 3 == 2:  # and with the models in another order
                ms = ms[1:] + ms[:1]
                ops += [init_ops("q", h, [m.path for m in ms], names, crs) for h in (1, 2)]
                ck.count("handle_opened_again")
        else:
            pts = []
        for m in ms:
            for k, x, y, zl in model_points(rng, m, 14, ("interior", "grid", "face", "contact")):
                X, Y, Z = m.point(x, y, zl, crs)
                pick = int(rng.integers(0, 8))
                if pick == 0:
                    Z = 0.0
                elif pick == 1:
                    Z = minelev
                elif pick == 2:
                    Z = float(np.nextafter(minelev, np.inf))
                elif pick == 3:
                    Z = float(rng.uniform(minelev, 0.0))
                elif pick == 4:
                    Z = float(rng.uniform(-100.0, 50.0))
                pts.append((float(X), float(Y), float(Z)))
            for p in pts:
                judged.append((len(ops), p, sq, minelev, ms))
                ops.append("q.q 1 %d %s %s %s" % (len(names), *map(f, p)))
                ops.append("q.q 2 %d %s %s %s" % (len(names), *map(f, p)))
            pts = []
    tr = ck.drive(ops)
    if not ck.crash(tr, "squashed query", files):
        if not (tr.events[1].ok and tr.events[3].ok):
            return ck.violation("valid model refused", tr.events[1].args, ops[:2], files)
        for at, p, sq, me, ms in judged:
            e, plain = tr.events[at], tr.events[at+1]
            bad = None
            if not e.ok:
                bad = "exception " + e.args
            elif (sq == 0 or p[2] <= me) and not same(e.floats(), plain.floats()):
                bad = "differs from the unsquashed answer %s where squashing must not act: %s" % (plain.args, e.args)
            else:
                v = e.floats()
                bad = judge(ms, names, crs, p, int(v[0]), v[1:], sq, me)
            if bad:
                ck.violation("squashed answer wrong (mode %d)" % sq, "point %r minimum %r: %s" % (p, me, bad),
                             ops[:at+1], files)
                break
            moved = e.args != plain.args
            ck.count("answers_changed_by_squashing" if moved else "answers_unchanged")
            ck.count("mode_%d" % sq)
            ck.case((i, at, p), dict(point=p, mode=sq, minimum=me, squashed=e.args, plain=plain.args) if moved and at % 31 == 0 else None)
    for p in files if grid else paths:
        os.unlink(p)


def same(a, b):
    return len(a) == len(b) and a[0] == b[0] and all(u == v or abs(u-v) <= 1e-9*max(abs(u), abs(v)) + 1e-9 for u, v in zip(a[1:], b[1:]))


def main():
    ck = Check("C06", "Up to three overlapping models with differing surfaces; sequences of setting changes; points above, at and below the minimum elevation. Judged "
               "against the reference at the mapped elevation, and against the answer of an unsquashed handle (to roundoff) where squashing must not act. Each query counts once.",
               assumptions=["PROJ as called through pyproj is trusted for coordinate transformation"])
    ck.map(lambda i: one(ck, i), range(300 if THOROUGH else 64))
    if ck.extra.get("answers_changed_by_squashing", 0) < 100 and not ck.violations:
        from ..run import CheckError
        raise CheckError("squashing hardly ever acted")
    return ck.finish(minimum=1000)
