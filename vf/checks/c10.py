"""C10: the point-query programs write one correct row per input point, in order."""
import os
import numpy as np
from .. import model as vm
from ..run import Check, THOROUGH, f, enc
from ..work import *
from ..apps import *


def number(rng, v):
    """A way to write a number in a points file; the value meant is float() of it."""
    r = int(rng.integers(0, 7))
    if r == 0:
        return "%.3f" % v
    if r == 1:
        return "%.9e" % v
    if r == 2:
        return ("%+.4f" % v)
    if r == 3:
        return "%.12g" % v
    if r == 4 and v == int(v):
        return "%d" % v
    if r == 5:
        return ("%.4E" % v) if abs(v) > 1e5 else "%.5f" % v
    return repr(float(v))


def points_text(rng, pts, nc):
    """Text of a points file: random blanks, line ends and final newline; and the points it gives."""
    style = int(rng.integers(0, 5))
    eol = "\r\n" if style == 1 else "\n"
    rows, given = [], []
    for p in pts:
        t = [number(rng, v) for v in p[:nc]]
        given.append([float(x) for x in t])
        sep = str(rng.choice([" ", "\t", "   "]))
        ln = sep.join(t)
        if style == 2:
            ln = " \t"[int(rng.integers(0, 2))]*int(rng.integers(0, 4)) + ln + " "*int(rng.integers(0, 3))
        if style == 3 and rng.random() < 0.1:
            ln += eol + " "*int(rng.integers(0, 2))
        rows.append(ln)
    text = eol.join(rows)
    end = int(rng.integers(0, 4))
    if end == 0:
        pass  # no final newline
    elif end == 1:
        text += eol
    elif end == 2:
        text += eol*3
    else:
        text += eol + "  \t "
    if style == 4:
        text = eol*2 + text
    return text, given


def neighbours(rng, pts):
    """The points, some of them followed by rows that repeat them or are next to them."""
    out = []
    for p in pts:
        out.append(p)
        while rng.random() < 0.4 and len(out) < 8000:
            x, y, z = p
            r = int(rng.integers(0, 6))
            d = float(rng.choice([1e-6, 1e-4, 1e-3, 1e-2, 1.0]))*float(rng.choice([-1.0, 1.0]))
            if r == 1:
                z += d
            elif r == 2:
                x += d*(1e-4 if abs(x) < 400.0 else 1.0)
            elif r == 3:
                y += d*(1e-4 if abs(y) < 400.0 else 1.0)
            elif r == 4:
                z += 300.0*float(rng.normal())
            elif r == 5 and len(out) > 1:
                x, y, z = out[-2]  # back to the row before
            p = (x, y, z)
            out.append(p)
    return out


MALFORMED = ("truncated", "truncated", "word", "nan", "comma", "comment", "hex", "huge")


def malformed(ck, i):
    """A points file whose rows are not all numbers: the program must fail, and say so."""
    rng = rng_for("C10", i, 7)
    d = ck.ws.folder("b", i)
    m = vm.random_model(rng)
    m.write(os.path.join(d, "m.h5"))
    elev_app = bool(i % 2)
    app = "queryelev" if elev_app else "query"
    nc = 2 if elev_app else 3
    n = int(rng.choice([1, 2, 5, 40]))
    pts = [tuple(map(float, p[1:])) for p in physical(m, model_points(rng, m, n), m.crs)]
    pts = [p for p in pts if np.all(np.isfinite(p))][:n]
    if not pts:
        return
    toks = [[repr(v) for v in p[:nc]] for p in pts]
    how = MALFORMED[i//2 % len(MALFORMED)]
    at = int(rng.integers(0, len(toks)))
    if how == "truncated":
        at = len(toks)-1
        toks[at] = toks[at][:int(rng.integers(1, nc))]
    elif how == "comment":
        toks.insert(at, ["#", "comment"])
    else:
        toks[at][int(rng.integers(0, nc))] = {"word": "east", "nan": "--", "comma": "1,5", "hex": "zz12", "huge": "1.0e5x"}[how]
    text = "\n".join(" ".join(t) for t in toks) + str(rng.choice(["", "\n", " ", "\n\n"]))
    with open(os.path.join(d, "points.txt"), "w") as fo:
        fo.write(text)
    opt = [("models", "m.h5"), ("points", "points.txt"), ("output", "out.txt"), ("points-coordsys", m.crs)]
    if not elev_app:
        opt.append(("values", m.columns[0][0]))
    args = as_options(rng, opt)
    if rng.random() < 0.25:  # options given twice: the last one counts
        o, v = [p for p in opt if p[0] != "log"][int(rng.integers(0, len([p for p in opt if p[0] != "log"])))]
        args = ["--%s=%s" % (o, {"squash-min-elev": "-123.0", "surface": "top_surface", "squash-surface": "top_surface", "points-coordsys": "EPSG:4326"}.get(o, "other"))] + args
    ran = run_app(ck, app, args, d)
    replay = [os.path.join(d, "points.txt"), m.path]
    if ran.crash:
        return replay_files(ck, ran, ran.crash, "abnormal end of " + app, replay)
    if ran.rc == 0:
        return replay_files(ck, ran, "exit status 0 for a points file whose row %d is %r (file ends with %r)" % (at, " ".join(toks[at]), text[-20:]),
                            "%s accepted a malformed points file" % app, replay)
    if not (ran.err + ran.out).strip():
        return replay_files(ck, ran, "exit status %d and no message" % ran.rc, "%s failed without a message" % app, replay)
    ck.count("malformed_points_refused")
    ck.case((i, "malformed", how))


def one(ck, i):
    rng = rng_for("C10", i)
    d = ck.ws.folder("c", i)
    nm = int(rng.choice([1, 1, 1, 2, 3]))
    cols = [("Value-%d%s" % (k, "-long"*(k % 7)), ("m/s", "none", "kg/m**3")[k % 3]) for k in range(int(rng.choice([18, 45])))] if i % 9 == 7 else None
    m = vm.random_model(rng, nodata=float(rng.choice([0.0, 0.03])), topo=bool(rng.random() < 0.75), columns=cols)
    models = [m]
    for k in range(nm-1):  # overlapping models with the same columns
        import copy
        o = copy.copy(m)
        o._tr = {}
        o.origin = (m.origin[0] + float(rng.uniform(-0.7, 0.7))*m.dims[0], m.origin[1] + float(rng.uniform(-0.7, 0.7))*m.dims[1])
        o.blocks = [vm.Block(b.name, b.x, b.y, b.z, b.z_top, np.where(b.data == vm.NODATA, b.data, b.data + 1000.0*(k+1))) for b in m.blocks]
        models.append(o)
    for k, o in enumerate(models):
        o.write(os.path.join(d, "m%d.h5" % k))
    at = (lambda name: os.path.join(d, name)) if i % 7 in (2, 3) else (lambda name: name)
    files = [at(os.path.basename(o.path)) for o in models]
    crs = str(rng.choice([m.crs] + m.others))
    cols = [c[0] for c in m.columns]
    names = [str(c) for c in rng.permutation(cols)[:int(rng.integers(1, len(cols)+1))]]
    names = [n.upper() if rng.random() < 0.2 else (n.lower() if rng.random() < 0.2 else n) for n in names]
    npts = int(rng.choice([0, 1, 2, 3, 17, 64, 250]))
    if rng.random() < 0.04:
        npts = 6000
    pts = []
    for o in models:
        pts += [p[1:] for p in physical(o, model_points(rng, o, npts//nm + 1), crs)]
    pts = [tuple(map(float, p)) for p in pts if np.all(np.isfinite(p))]
    for k in range(len(pts)):
        if rng.random() < 0.12:
            x, y, z = pts[k]
            pts[k] = (x, y, float(rng.choice([5e4, -1e6, 0.0]))) if rng.random() < 0.5 else (x*1.5 + 3.0, y*0.9, z)
    pts = [pts[int(k)] for k in rng.permutation(len(pts))][:npts]
    if rng.random() < 0.5:
        pts = neighbours(rng, pts)
    if pts and rng.random() < 0.3:  # zeros, also as the last number of the file
        k = [-1, int(rng.integers(0, len(pts)))][int(rng.integers(0, 2))]
        pts[k] = [(0.0, 0.0, 0.0), (0.0, pts[k][1], pts[k][2]), (pts[k][0], 0.0, 0.0), (pts[k][0], pts[k][1], 0.0)][int(rng.integers(0, 4))]
    elev_app = rng.random() < 0.4
    text, given = points_text(rng, pts, 2 if elev_app else 3)
    with open(os.path.join(d, "points.txt"), "w", newline="") as fo:
        fo.write(text)
    out = os.path.join(d, "out.txt")
    if rng.random() < 0.3:
        with open(out, "w") as fo:
            fo.write("old contents\n"*200000 if npts < 100 else "x")
    opt = [("models", ",".join(files)), ("points", at("points.txt")), ("output", at("out.txt"))]
    if crs != "EPSG:4326" or rng.random() < 0.5:
        opt.append(("points-coordsys", crs))
    if rng.random() < 0.3:
        opt.append(("log", at("log.txt")))
    ops = ["q.new 1", init_ops("q", 1, [o.path for o in models], names, crs)]
    squash = "off"
    if elev_app:
        kind = "top"
        r = rng.random()
        if r < 0.5:
            kind = "topo"
            opt.append(("surface", "topography_bathymetry"))
        elif r < 0.75:
            opt.append(("surface", "top_surface"))
        ops += ["q.%s 1 %s %s" % (kind, f(x), f(y)) for x, y in given]
    else:
        opt.append(("values", ",".join(names)))
        r = int(rng.integers(0, 6))
        me = float(rng.choice([-10000.0, -3000.0, -1500.5]))
        surf = {1: None, 2: "top_surface", 3: "topography_bathymetry", 4: "none", 5: "topography_bathymetry"}.get(r)
        if r:
            squash = "%s %s" % (surf, me if r != 5 else "default")
            if r != 5:
                opt.append(("squash-min-elev", "%g" % me))
            else:
                me = -10000.0
            if surf:
                opt.append(("squash-surface", surf))
            if surf != "none":
                ops += ["q.sq 1 %d" % (2 if surf == "topography_bathymetry" else 1), "q.min 1 " + f(me)]
        ops += ["q.q 1 %d %s %s %s" % (len(names), f(x), f(y), f(z)) for x, y, z in given]
    nq = len(ops) - len(given)
    app = "queryelev" if elev_app else "query"
    args = as_options(rng, opt)
    if rng.random() < 0.25:  # options given twice: the last one counts
        o, v = [p for p in opt if p[0] != "log"][int(rng.integers(0, len([p for p in opt if p[0] != "log"])))]
        args = ["--%s=%s" % (o, {"squash-min-elev": "-123.0", "surface": "top_surface", "squash-surface": "top_surface", "points-coordsys": "EPSG:4326"}.get(o, "other"))] + args
    ran = run_app(ck, app, args, d)
    replay = [os.path.join(d, n) for n in ("points.txt", "out.txt")] + [o.path for o in models]

    def bad(key, text):
        replay_files(ck, ran, text, key, replay)
    if ran.crash:
        return bad("abnormal end of " + app, ran.crash)
    if ran.rc != 0:
        return bad("valid run of %s failed" % app, "exit status %d: %s" % (ran.rc, ran.err[-400:]))
    tr = ck.drive(ops)
    if ck.crash(tr, "reference queries", [o.path for o in models]):
        return
    comments, rows, _ = table(out)
    head = comments[-1].lstrip("#").split() if comments else []
    if head != ["x0", "x1"] + (["elevation"] if elev_app else ["x2"] + names):
        return bad("header of %s does not name the columns" % app, repr(comments))
    if len(comments) > 1 and not comments[0].endswith(" " + " ".join(args)):
        return bad("header of %s does not repeat the command line" % app, repr(comments))
    if len(rows) != len(given):
        return bad("%s wrote %s rows" % (app, "fewer" if len(rows) < len(given) else "more"), "%d rows for %d points; points file ends with %r" % (len(rows), len(given), text[-30:]))
    for k, (row, p, e) in enumerate(zip(rows, given, tr.events[nq:])):
        if not e.ok:
            continue  # judged by the checks of the library
        want = p + (e.floats() if elev_app else e.floats(1))
        if len(row) != len(want) or not all(seven(t, v) for t, v in zip(row, want)):
            return bad("row of %s differs from the library" % app, "row %d is %s, expected %s (squash %s)" % (k, row, ["%.6e" % v for v in want], squash))
        ck.case((i, k), dict(app=app, row=row, library=want, squash=squash) if k == 3 and i % 5 == 0 else None)
    ck.count("runs_" + app)
    ck.count("points_in_%d_models" % nm, len(given))
    if not elev_app:
        ck.count("nodata_values", sum(float(t) == vm.NODATA for r in rows for t in r[3:]))
    if not given:
        ck.case((i, "empty"))


def main():
    ck = Check("C10", "Random models, points files (0 to 6000 points; blanks, line ends, missing final newline, points outside) and option vectors given to the "
               "programs; every row is compared with a query of the library at the point of that row.",
               programs=("driver", "query", "queryelev"),
               assumptions=["rows carry seven significant digits, the format of the programs"])
    ck.map(lambda i: one(ck, i), range(700 if THOROUGH else 110))
    ck.map(lambda i: malformed(ck, i), range(320 if THOROUGH else 48))
    return ck.finish(minimum=1500)
