"""C02: answers do not depend on the history of the handle."""
import copy
import os
import numpy as np
from .. import model as vm
from ..run import Check, THOROUGH, f
from ..work import *


def history(rng, m, n):
    """Logical points visited the way that moves the cached window around: jumps, back-tracking, grid points at
    likely window boundaries, long sweeps in each direction, repeats."""
    Lx, Ly, D = m.dims
    pts = []
    b = m.blocks[0]
    cur = [0.5*Lx, 0.5*Ly, -0.2*D]
    while len(pts) < n:
        mode = int(rng.integers(0, 6))
        if mode == 0:
            pts += sweep(rng, m, 12)
        elif mode == 1:  # along one axis through grid points, both ways
            ax = int(rng.integers(0, 2))
            b = m.blocks[int(rng.integers(0, len(m.blocks)))]
            p = (b.x, b.y)[ax].positions()
            step = int(rng.choice([1, 7, 31, 32, 63, 64]))
            k0 = int(rng.integers(0, len(p)))
            idx = [k % len(p) for k in range(k0, k0 + 8*step, step)]
            if rng.random() < 0.5:
                idx = idx[::-1]
            z = float(rng.uniform(b.z_bot, b.z_top))
            for k in idx:
                c = [cur[0], cur[1], z]
                c[ax] = float(p[k])
                pts.append(("axis", *c))
        elif mode == 2 and pts:
            for _ in range(4):
                pts.append(pts[int(rng.integers(0, len(pts)))])
        elif mode == 3:  # relative moves of about a window
            for _ in range(6):
                for ax, ag in ((0, b.x), (1, b.y)):
                    p = ag.positions()
                    k = int(np.searchsorted(p, cur[ax])) + int(rng.choice([-64, -63, -33, -32, -31, -1, 0, 1, 30, 31, 32, 33, 62, 63, 64]))
                    cur[ax] = float(p[min(max(k, 0), len(p)-1)])
                pts.append(("window", cur[0], cur[1], float(rng.uniform(-D, 0))))
        elif mode == 4:
            pts += [("corner", float(rng.choice([0.0, Lx])), float(rng.choice([0.0, Ly])), float(rng.uniform(-D, 0)))]
        else:
            pts += model_points(rng, m, 4)
    return pts[:n]


def same(a, b, scale):
    """Equal up to roundoff: statuses and no-data exactly, values to 1e-11 of the largest stored value."""
    if a == b or type(a) is not list or len(a) != len(b):
        return a == b
    if len(a) == 1:  # elevation
        u, v = float(a[0]), float(b[0])
        return (u == NODATA) == (v == NODATA) and abs(u - v) <= 1e-7
    if a[0] != b[0]:
        return False
    for u, v, s in zip(map(float, a[1:]), map(float, b[1:]), scale):
        if u != v and ((u == NODATA) != (v == NODATA) or not abs(u - v) <= 1e-11*s):
            return False
    return True


def one(ck, i):
    rng = rng_for("C02", i)
    kind = "exact" if i % 2 else "general"
    nod = float(rng.choice([0.0, 0.0, 0.02]))
    m = vm.random_model(rng, kind=kind, size="large", nodata=nod, max_blocks=2, topo=rng.random() < 0.8)
    grid = None
    if i % 5 == 4:  # elevations of the caller are not those of the models
        grid = ck.ws.path("geoid%d.gtx" % i)
        rng2 = rng_for("C02", "vertical", i)
        entry = vm.vertical_crs(rng2, grid)
        kind = "general"
        m = vm.random_model(rng2, kind=kind, size="large", crs=entry, nodata=nod, max_blocks=2, topo=True)
        ck.count("histories_with_vertical_system")
    paths = [m.write(ck.ws.path("m%d.h5" % i))]
    models = [m]
    if rng.random() < 0.5:
        m2 = vm.random_model(rng, kind=kind, size="small", crs=entry if grid else [c[0] for c in vm.CRSES].index(m.crs), columns=m.columns, max_blocks=2)
        m2.write(ck.ws.path("n%d.h5" % i))
        models.append(m2)
        paths.append(m2.path)
        if rng.random() < 0.5:
            paths.reverse()
    crs = m.crs if kind == "exact" or rng.random() < (0.0 if grid else 0.5) else str(rng.choice(m.others))
    names = [c[0] for c in m.columns]
    n = 400 if THOROUGH else 110
    pts = physical(m, history(rng, m, n), crs)
    if grid:  # other elevations at the same place, later or at once
        for k in range(len(pts)//3):
            _, x, y, z = pts[int(rng2.integers(0, len(pts)))]
            at = int(rng2.integers(0, len(pts)))
            pts[at:at] = [("column", x, y, z), ("column", x, y, z*float(rng2.uniform(0.2, 1.5)))]
    for k in range(len(pts)//12):
        pts.insert(int(rng.integers(0, len(pts))), ("outside", *pts[int(rng.integers(0, len(pts)))][1:3], float(rng.choice([1e5, -1e6, float("nan")]))))
    # the history: two handles sharing the files, interleaved, with settings switched along the way
    minelev, squash = None, 0
    confs = [(paths, names, crs)]  # the handle is opened again with other files, values or coordinates along the way
    rng3 = rng_for("C02", "again", i)
    twin = copy.copy(m)  # same place and shape, other contents
    twin.blocks = [copy.copy(b) for b in m.blocks]
    for b in twin.blocks:
        b.data = np.where(b.data > -1e19, b.data + 1.0, b.data)
    for name in ("top", "topo"):
        if getattr(m, name) is not None:
            setattr(twin, name, copy.copy(getattr(m, name)))
            getattr(twin, name).data = getattr(m, name).data - 16.0
    paths.append(twin.write(ck.ws.path("t%d.h5" % i)))
    files = paths
    paths = [p for p in paths if p != twin.path]
    confs[0] = (paths, names, crs)
    confs.append(([twin.path] + paths[1:], names, crs))
    confs.append((paths[::-1] if len(paths) > 1 else [twin.path, paths[0]], names, crs))
    confs.append((paths, [names[k] for k in rng3.permutation(len(names))], crs))
    confs.append((paths, names, str(rng3.choice(m.others)) if kind != "exact" else crs))
    conf = 0
    ops = ["q.new 1", init_ops("q", 1, paths, names, crs), "q.new 2", init_ops("q", 2, paths, names, crs)]
    index, plan = [], []
    last = None
    for _, x, y, z in pts:
        changed = False
        if rng3.random() < 0.05:
            conf = int(rng3.integers(0, len(confs)))
            ops.append(init_ops("q", 1, *confs[conf]))
            changed = True
            ck.count("handle_opened_again")
        if rng.random() < 0.06:
            changed = True
            minelev = float(rng.choice([-2000.0, -5000.0, -300.0]))
            squash = int(rng.integers(0, 3))
            if squash == 0 and rng.random() < 0.5:
                ops += ["q.sq 1 0", "q.min 1 %s" % f(minelev)]
                squash = 1
            else:
                ops += ["q.min 1 %s" % f(minelev), "q.sq 1 %d" % squash]
        if changed and last and rng3.random() < 0.8:  # the same question under the new conditions, then on
            plan.append((len(ops), last, minelev, squash, conf, True))
            ops.append(last)
            ck.count("repeated_after_change")
        if rng.random() < 0.3:
            _, u, v, w = pts[int(rng.integers(0, len(pts)))]
            ops.append("q.q 2 %d %s %s %s" % (len(names), f(u), f(v), f(w)))
        r = rng.random()
        op = ("q.q 1 %d %s %s %s" % (len(names), f(x), f(y), f(z))) if r < 0.75 else ("q.%s 1 %s %s" % ("top" if r < 0.88 else "topo", f(x), f(y)))
        plan.append((len(ops), op, minelev, squash, conf, False))
        ops.append(op)
        last = op
    # every operation again on a handle of its own
    pick = range(len(plan)) if THOROUGH else sorted(set(rng.choice(len(plan), size=min(60, len(plan)), replace=False)) | {k for k, p in enumerate(plan) if p[5]})
    fresh = []
    for k in pick:
        at, op, me, sq, cf, _ = plan[k]
        seq = ["q.new 9", init_ops("q", 9, *confs[cf])]
        if me is not None:
            seq += ["q.min 9 %s" % f(me), "q.sq 9 %d" % sq]
        seq.append(op.replace(" 1 ", " 9 ", 1))
        ops += seq
        fresh.append((at, len(ops)-1, k))
    tr = ck.drive(ops)
    if not ck.crash(tr, "query history", files + [grid]):
        if not (tr.events[1].ok and tr.events[3].ok):
            return ck.violation("valid model refused", tr.events[1].args, ops[:2], files + [grid])
        size = {nm: 1.0 + max(max((float(np.abs(b.data[..., mm.column(nm)][b.data[..., mm.column(nm)] > -1e19]).max(initial=0.0)) for b in mm.blocks)) for mm in models) for nm in names}
        for at, af, k in fresh:
            a, b = tr.events[at], tr.events[af]
            if a.ok != b.ok or not same(a.args, b.args, [size[nm] for nm in confs[plan[k][4]][1]]):
                keep = ops[:at+1] + ops[af - (2 if plan[k][2] is None else 4):af+1]
                ck.violation("answer depends on the history", "%s: after %d earlier operations %s, on a fresh handle %s" % (ops[at], at, a.args, b.args), keep, files + [grid])
                break
            ck.case((i, k, ops[at]), dict(op=ops[at], history=at, result=a.args) if k % 37 == 5 else None)
        ck.count("operations", len(plan))
        ck.count("histories")
        ck.count("setting_changes", sum(1 for o in ops if o.startswith("q.sq 1")))
    for p in files + ([grid] if grid else []):
        os.unlink(p)


def endurance(ck, i):
    """The same questions again and again, many thousand times, on one handle."""
    rng = rng_for("C02", "endurance", i)
    m = vm.random_model(rng, size="small", topo=i % 2 == 0, max_blocks=3)
    path = m.write(ck.ws.path("e%d.h5" % i))
    crs = str(rng.choice(m.others))
    names = [c[0] for c in m.columns]
    pts = physical(m, model_points(rng, m, 150), crs)
    qs = ["q.q 1 %d %s %s %s" % (len(names), *map(f, p[1:])) for p in pts] + ["q.%s 1 %s %s" % (("top", "topo")[k % 2], f(p[1]), f(p[2])) for k, p in enumerate(pts[:30])]
    n = (300000, 150000)[i % 2] if THOROUGH else (70000, 25000)[i % 2]
    k = rng.integers(0, len(qs), n)
    ops = ["q.new 1", init_ops("q", 1, [path], names, crs)] + qs + [qs[int(q)] for q in k]
    tr = ck.drive(ops)
    if not ck.crash(tr, "long history", [path]):
        size = [1.0 + max(float(np.abs(b.data[..., j][b.data[..., j] > -1e19]).max(initial=0.0)) for b in m.blocks) for j in range(len(names))]
        for at, q in enumerate(k):
            a, b = tr.events[2+int(q)], tr.events[2+len(qs)+at]
            if a.args != b.args and (a.ok != b.ok or not same(a.args, b.args, size)):
                ck.violation("answer depends on the history", "%s: at first %s, after %d operations %s" % (qs[int(q)], a.args, at+len(qs), b.args), None, [path])
                break
        ck.count("operations_of_long_histories", n)
        ck.case((i, "endurance"), dict(operations=n))
    os.unlink(path)


def main():
    ck = Check("C02", "Histories of point and elevation queries, setting changes and a second handle on the same files, over grids larger than the cached window; "
               "operations are repeated on fresh handles and must agree to roundoff. Each compared operation of a history counts once.")
    ck.map(lambda i: one(ck, i), range(200 if THOROUGH else 56))
    ck.map(lambda i: endurance(ck, i), range(4))
    return ck.finish(minimum=1000)
