"""C08: the C and Python interfaces agree with the C++ interface and contain failures."""
import copy, json, os
import numpy as np
from .. import model as vm, build
from ..run import Check, CheckError, THOROUGH, f, dec, enc, py_drive
from ..work import *


def close(a, b):
    return a == b or abs(a - b) <= 1e-9*max(abs(a), abs(b)) + 1e-9


def compare(ck, i, rng):
    """The same history through C++ and C."""
    cols = None
    if i % 5 == 3:  # many values with long names
        cols = [("%s value %03d%s" % (rng.choice(["a", "Some"]), k, " with a long name"*int(rng.integers(0, 8))), "unit %d" % (k % 3)) for k in range(int(rng.choice([17, 33, 70])))]
    m = vm.random_model(rng, nodata=float(rng.choice([0.0, 0.05])), topo=rng.random() < 0.8, columns=cols)
    m.write(ck.ws.path("m%d.h5" % i))
    m.files, others = [m.path], []
    if i % 4 == 1:  # models which overlap, whose order matters
        along = float(rng.uniform(0.0, 2.0*np.pi))
        for k in range(int(rng.choice([1, 2, 4, 6, 8, 12]))):
            o = copy.copy(m)
            o.origin = (m.origin[0] + 0.08*(k+1)*m.dims[0]*np.sin(along), m.origin[1] + 0.08*(k+1)*m.dims[1]*np.cos(along))
            o.blocks = []
            for b in m.blocks:
                c = copy.copy(b)
                c.data = (b.data + np.float32(7.25*(k+1))).astype(np.float32)
                o.blocks.append(c)
            m.files.append(o.write(ck.ws.path("m%d-%d.h5" % (i, k))))
            others.append(o)
        # Each in turn has points which none of those before it contain, or any order.
        m.files = m.files[::-1] if rng.random() < 0.3 else m.files if rng.random() < 0.6 else [m.files[k] for k in rng.permutation(len(m.files))]
    names = [c[0] for c in m.columns]
    if rng.random() < 0.3:  # in any order and case, also more than once
        names = [str(q) for q in rng.permutation(names + [str(rng.choice(names))]*int(rng.integers(0, 3)))]
        names = [q.upper() if rng.random() < 0.2 else q for q in names]
    crs = m.crs if rng.random() < 0.5 else str(rng.choice(m.others))
    ops = ["q.new 1", "c.new 1", init_ops("q", 1, m.files, names, crs), init_ops("c", 1, m.files, names, crs)]
    pairs = []
    pts = physical(m, model_points(rng, m, 60), crs)
    for o in others:
        pts += physical(o, model_points(rng, o, 40), crs)
    for _ in range(25):
        k, x, y, z = pts[int(rng.integers(0, len(pts)))]
        pts.append(("out", x, y, float(rng.choice([1e6, -1e7, np.nan, np.inf]))))
    pts = [pts[k] for k in rng.permutation(len(pts))]
    for _, x, y, z in pts:
        r = rng.random()
        if r < 0.1:
            sq = int(rng.integers(0, 3))
            ops += ["q.sq 1 %d" % sq, "c.sq 1 %d" % sq]
        elif r < 0.15:
            me = float(rng.choice([-1000.0, -4000.0]))
            ops += ["q.min 1 " + f(me), "c.min 1 " + f(me)]
        reset = rng.random() < 0.6
        if reset:
            ops.append("c.reset 1")
        kind = str(rng.choice(["q", "q", "q", "top", "topo"]))
        pairs.append((len(ops), kind, reset))
        tail = ("%d %s %s %s" % (len(names), f(x), f(y), f(z))) if kind == "q" else "%s %s" % (f(x), f(y))
        ops += ["q.%s 1 %s" % (kind, tail), "c.%s 1 %s" % (kind, tail), "c.status 1", "c.msg 1"]
    ops += ["q.fin 1", "c.fin 1", "c.del 1"]
    tr = ck.drive(ops)
    if not ck.crash(tr, "C interface", m.files):
        if not tr.events[2].ok or tr.events[3].args != ["0"]:
            ck.violation("C initialisation differs", "%s / %s" % (tr.events[2].args, tr.events[3].args), ops[:4], m.files)
        last = None
        for at, kind, reset in pairs:
            a, b, st, msg = tr.events[at:at+4]
            if not a.ok or not b.ok:
                ck.violation("unexpected failure of a query", "%s %s" % (a.args, b.args), ops[:at+2], m.files)
                break
            va, vb = a.floats(), b.floats()
            bad = None
            if kind == "q":
                want = int(va[0])
                if not all(close(u, v) for u, v in zip(va[1:], vb[1:])) or len(va) != len(vb):
                    bad = "values differ: C++ %s, C %s" % (va[1:], vb[1:])
                if int(vb[0]) != int(st.args[0]):
                    bad = "returned status %s, handle says %s" % (vb[0], st.args[0])
            else:
                want = 1 if va[0] == NODATA else 0
                if not close(va[0], vb[0]):
                    bad = "elevations differ: C++ %s, C %s" % (va, vb)
            if reset or last is None:
                last = (0, "")
            if want:
                last = (want, None)
            if bad is None and int(st.args[0]) != last[0]:
                bad = "status %s, expected %s" % (st.args[0], last[0])
            if bad is None and last[1] is not None and dec(msg.args[0]) != last[1]:
                bad = "message %r of an earlier call, now %r" % (last[1], dec(msg.args[0]))
            last = (last[0], dec(msg.args[0]))
            if bad is None and want and not dec(msg.args[0]):
                bad = "no message"
            if bad:
                ck.violation("C interface differs from C++", "%s: %s" % (ops[at+1], bad), ops[:at+4], m.files)
                break
            ck.case((i, at, ops[at]), dict(op=ops[at+1], cxx=a.args, c=b.args, status=st.args) if at % 97 == 1 else None)
            ck.count("compared_calls_c")
    return m, names, crs, pts


def failures(ck, i, rng, m):
    """Sequences of calls with failing ones anywhere: errors are reported and the process lives."""
    ops, judge = ["c.new 1"], []
    state = "new"
    names = [c[0] for c in m.columns]
    D = m.dims
    good = init_ops("c", 1, [m.path], names, m.crs)
    badinit = [init_ops("c", 1, ["/nonexistent/x.h5"], names, m.crs), init_ops("c", 1, [m.path, "/nonexistent/x.h5"], names, m.crs),
               init_ops("c", 1, [m.path], names + ["nothing"], m.crs), init_ops("c", 1, [m.path], names, "no crs"),
               init_ops("c", 1, [ck.ws.path("text.h5")], names, m.crs)]
    X, Y, Z = m.point(0.5*D[0], 0.5*D[1], -0.5*D[2], m.crs)
    for _ in range(40):
        r = int(rng.integers(0, 11))
        ops.append("c.reset 1")
        if r == 0:
            state = "good"
            judge.append((len(ops), "ok"))
            ops.append(good)
        elif r == 1:
            state = "failed"
            judge.append((len(ops), "err"))
            ops.append(str(rng.choice(badinit)))
        elif r == 2:
            judge.append((len(ops), "fin"))
            if state == "good":
                state = "finalized"
            ops.append("c.fin 1")
        elif r in (3, 4):
            judge.append((len(ops), "qok" if state == "good" else "err"))
            ops.append("c.q 1 %d %s %s %s" % (len(names), f(X), f(Y), f(Z)))
        elif r == 5:
            judge.append((len(ops), "elevok" if state == "good" else "elevbad"))
            ops.append("c.%s 1 %s %s" % (rng.choice(["top", "topo"]), f(X), f(Y)))
        elif r == 6:
            judge.append((len(ops), "err"))
            ops.append("c.sq 1 %d" % int(rng.choice([-1, 3, 99])))
        elif r == 7:
            judge.append((len(ops), "err"))
            ops.append("c.qnull 1 %s %s %s" % (f(X), f(Y), f(Z)))
        elif r == 8:
            state = "failed"
            judge.append((len(ops), "err"))
            ops.append("c.initbad 1 %d %s %s %s" % (int(rng.integers(0, 7)), enc(m.path), enc(names[0]), enc(m.crs)))
        elif r == 9:
            judge.append((len(ops), "errvoid"))
            ops.append("c.lognull 1")
        else:
            judge.append((len(ops), "null"))
            ops.append(str(rng.choice(["c.q - %d 1 2 3" % len(names), "c.fin -", "c.sq - 1", "c.min - -100", init_ops("c", "-", [m.path], names, m.crs),
                                       "c.top - 1 2", "c.topo - 1 2", "c.del -", "c.haseh -", "c.reset -", "c.logon - 1", "c.msg -", "c.getlog -", "c.qnull - 1 2 3",
                                       "c.status -"])))
        ops += ["c.status 1", "c.msg 1"]
    tr = ck.drive(ops)
    if ck.crash(tr, "failing C calls", [m.path]):
        return
    for at, what in judge:
        e, st, msg = tr.events[at:at+3]
        bad = None
        if not e.ok:
            bad = "an exception left the C interface: " + e.args
        elif what == "ok" and e.args != ["0"]:
            bad = "valid call failed: %s %s" % (e.args, msg.args)
        elif what == "qok" and (e.args[0] != "0" or float(e.args[1]) == 12345.678):
            bad = "query of a ready handle: %s" % e.args
        elif what == "elevok" and (int(st.args[0]) != (1 if float(e.args[0]) == NODATA else 0) or (float(e.args[0]) == NODATA and
                                                                                                   (not dec(msg.args[0]) or ops[at].startswith("c.top ")))):
            # Topography/bathymetry below the bottom of the model has no elevation, which is a warning.
            bad = "elevation of a ready handle: %s %s" % (e.args, msg.args)
        elif what == "err" and (e.args[0] != "2" or st.args[0] != "2" or not dec(msg.args[0])):
            bad = "failing call gave %s, status %s, message %r" % (e.args, st.args, dec(msg.args[0]))
        elif what == "errvoid" and (st.args[0] != "2" or not dec(msg.args[0])):
            bad = "failing call gave status %s, message %r" % (st.args, dec(msg.args[0]))
        elif what == "elevbad" and (float(e.args[0]) != NODATA or st.args[0] == "0" or not dec(msg.args[0])):
            bad = "elevation from a handle that is not ready gave %s, status %s" % (e.args, st.args)
        elif what == "null":
            op = ops[at].split()[0]
            if op in ("c.top", "c.topo") and float(e.args[0]) != NODATA:
                bad = "elevation from a null handle: %s" % e.args
            elif op in ("c.q", "c.fin", "c.sq", "c.min", "c.init", "c.qnull") and e.args[0] != "2":
                bad = "null handle gave status %s" % e.args
            elif st.args[0] != "0":
                bad = "call with a null handle changed another handle"
        if bad:
            ck.violation("failure of a C call not contained or not reported", "%s: %s" % (ops[at], bad), ops[:at+3], [m.path])
            return
        ck.case((i, at, what), None)
        ck.count("failing_calls_" + what)


def python(ck, i, rng, m, names, crs, pts, pkg):
    """Arrays of points of all layouts through Python against the C++ interface."""
    ops, ref, want, judge = [], ["q.new 1", init_ops("q", 1, m.files, names, crs), "m.new 2", "m.crs 2 " + enc(crs), "m.open 2 " + enc(m.path), "m.load 2", "m.init 2"], 0, []
    a, z = dict(h=1), dict(h=2)
    # before initialisation everything fails with an exception
    p1 = [float(v) for v in pts[0][1:]]
    for o in (dict(op="new", **a), dict(op="newmodel", **z)):
        ops.append(o)
    for o in (dict(op="q", p=p1, nc=3, **a), dict(op="m.in", p=p1, nc=3, **z), dict(op="m.q", p=p1, nc=3, **z), dict(op="m.init", **z), dict(op="m.load", **z),
              dict(op="init", files=[m.path, "/nonexistent.h5"], names=names, crs=crs, **a), dict(op="q", p=p1, nc=3, **a),
              dict(op="init", files=[m.path], names=names + ["nothing"], crs=crs, **a), dict(op="q", p=p1, nc=3, **a),
              dict(op="m.open", file="/nonexistent.h5", **z), dict(op="m.load", **z), dict(op="m.in", p=p1, nc=3, **z)):
        judge.append((len(ops), "exc", None))
        ops.append(o)
    ops += [dict(op="init", files=m.files, names=names, crs=crs, **a), dict(op="m.crs", crs=crs, **z), dict(op="m.open", file=m.path, **z), dict(op="m.load", **z)]
    judge.append((len(ops), "exc", None))
    ops.append(dict(op="m.in", p=p1, nc=3, **z))
    ops.append(dict(op="m.init", **z))
    inside = [p for p in pts if m.locate(p[1], p[2], p[3], crs)["inside"] is True]
    for _ in range(14):
        n = int(rng.choice([0, 1, 1, 2, 5, 17, 40, 150]))
        if rng.random() < 0.03:
            n = int(rng.choice([1025, 5000]))
        how = str(rng.choice(["c", "f", "list", "strided", "reversed", "readonly", "f4", "int"]))
        kind = str(rng.choice(["q", "q", "top", "topo", "m.in", "m.q", "m.q-out", "shape"]))
        if rng.random() < 0.2:
            sq = int(rng.integers(0, 3))
            ops.append(dict(op="squash", v=["SQUASH_NONE", "SQUASH_TOP_SURFACE", "SQUASH_TOPOGRAPHY_BATHYMETRY"][sq], **a))
            ops.append(dict(op="min", v=-2000.0, **a))
            ref += ["q.sq 1 %d" % sq, "q.min 1 -2000"]
        src = inside if kind == "m.q" and inside else pts
        if how == "list":
            n = max(n, 1)  # an empty list has no second dimension
        sel = [src[int(k)][1:] for k in rng.integers(0, len(src), n)]
        if len(sel) > 1 and rng.random() < 0.4:
            # a walk: consecutive points share coordinates, repeat, or differ in one
            for k in range(1, n):
                if rng.random() < 0.7:
                    p = list(sel[k-1])
                    a_ = int(rng.integers(0, 3))
                    if rng.random() < 0.9:
                        p[a_] = sel[k][a_]
                    sel[k] = tuple(p)
            if kind == "m.q":
                sel = [p for p in sel if m.locate(p[0], p[1], p[2], crs)["inside"] is True] or [src[0][1:]]
                n = len(sel)
        if how == "int":
            sel = [(float(round(x)), float(round(y)), float(round(w))) if np.isfinite(w) else (float(round(x)), float(round(y)), -5.0) for x, y, w in sel]
        elif how == "f4":
            sel = [tuple(float(np.float32(v)) for v in p) for p in sel]
        if kind == "m.q" and (how in ("f4", "int")):
            how = "c"
            sel = [src[int(k)][1:] for k in rng.integers(0, len(src), n)]
        if kind == "m.q" and not inside:
            continue
        if kind == "shape":
            sp = [list(s) for s in ((4, 2), (3,), (0,), (2, 3, 1), (3, 1), (2, 4))][int(rng.integers(0, 6))]
            o = str(rng.choice(["q", "m.in", "m.q"]))
            judge.append((len(ops), "exc", None))
            ops.append(dict(op=o, shape=sp, nc=3, h=2 if o[0] == "m" else 1))
            judge.append((len(ops), "exc", None))
            ops.append(dict(op=str(rng.choice(["top", "topo"])), shape=[[4, 3], [2], [2, 2, 1]][int(rng.integers(0, 3))], nc=2, h=int(rng.integers(1, 3))))
            judge.append((len(ops), "exc", None))
            ops.append(dict(op="q", p=[], nc=3, how="text", h=1))
            continue
        if kind == "m.q-out":
            D = m.dims
            X, Y, Z = m.point(0.5*D[0], 0.5*D[1], 0.0, crs)
            judge.append((len(ops), "exc", None))
            ops.append(dict(op="m.q", p=[float(X), float(Y), float(Z) + 1e6], nc=3, **z))
            continue
        if kind in ("top", "topo"):
            h = int(rng.integers(1, 3))
            judge.append((len(ops), kind, (len(ref), n, 1)))
            ops.append(dict(op=kind, p=[list(p[:2]) for p in sel], nc=2, how=how, h=h))
            ref += ["%s.%s %d %s %s" % ("q" if h == 1 else "m", kind, h, f(p[0]), f(p[1])) for p in sel]
        elif kind == "q":
            judge.append((len(ops), "q", (len(ref), n, len(names))))
            ops.append(dict(op="q", p=[list(p) for p in sel], nc=3, how=how, **a))
            ref += ["q.q 1 %d %s %s %s" % (len(names), *map(f, p)) for p in sel]
        elif kind == "m.in":
            judge.append((len(ops), "m.in", (len(ref), n, 1)))
            ops.append(dict(op="m.in", p=[list(p) for p in sel], nc=3, how=how, **z))
            ref += ["m.in 2 %s %s %s" % tuple(map(f, p)) for p in sel]
        else:
            judge.append((len(ops), "m.q", (len(ref), n, len(m.columns))))
            ops.append(dict(op="m.q", p=[list(p) for p in sel], nc=3, how=how, **z))
            ref += ["m.q 2 %d %s %s %s" % (len(m.columns), *map(f, p)) for p in sel]
    ops += [dict(op="fin", **a), dict(op="m.close", **z)]
    for o in (dict(op="q", p=p1, nc=3, **a), dict(op="m.in", p=p1, nc=3, **z), dict(op="m.q", p=p1, nc=3, **z), dict(op="m.load", **z)):
        judge.append((len(ops), "exc", None))
        ops.append(o)
    ev, crash, err = py_drive(pkg, ops)
    if crash:
        o = ops[len(ev)] if len(ev) < len(ops) else "end"
        return ck.violation("python process died: %s: %s" % (o["op"] if isinstance(o, dict) else o, crash), "during %s" % json.dumps(o)[:300],
                            [json.dumps(o) for o in ops[:len(ev)+1]], [m.path], err[-4000:])
    tr = ck.drive(ref)
    if ck.crash(tr, "reference of the Python interface", [m.path]):
        return
    for at, what, where in judge:
        kind, val = ev[at]
        bad = None
        if what == "exc":
            if kind != "EXC":
                bad = "failing call raised nothing: %s" % val
            elif not val[1]:
                bad = "exception without message"
            ck.count("python_exceptions")
        elif kind != "OK":
            bad = "valid call raised %s" % val
        else:
            r0, n, nc = where
            es = tr.events[r0:r0+n]
            if what == "q":
                if val["vs"] != [n, nc] or val["es"] != [n]:
                    bad = "shapes %s %s" % (val["vs"], val["es"])
                for j in range(n if not bad else 0):
                    w = es[j].floats()
                    if val["e"][j] != int(w[0]) or not all(close(u, v) for u, v in zip(val["v"][j], w[1:])):
                        bad = "row %d: %s %s, C++ gives %s" % (j, val["e"][j], val["v"][j], w)
            else:
                if val["vs"] != ([n, nc] if what == "m.q" else [n]):
                    bad = "shape %s" % val["vs"]
                for j in range(n if not bad else 0):
                    w = es[j].floats()
                    g = val["v"][j] if what == "m.q" else [val["v"][j]]
                    if not all(close(float(u), v) for u, v in zip(g, w)):
                        bad = "row %d: %s, C++ gives %s" % (j, g, w)
            ck.count("python_rows_compared", n)
            ck.count("python_arrays_" + ops[at].get("how", "c"))
        if bad:
            ck.violation("Python interface: " + ("failure not raised" if what == "exc" else "differs from C++"), "%s: %s" % (json.dumps(ops[at])[:300], bad),
                         [json.dumps(o) for o in ops[:at+1]], [m.path])
            return
        ck.case((i, at, json.dumps(ops[at])[:100]), dict(op=ops[at]["op"], how=ops[at].get("how"), n=where[1]) if where and at % 7 == 0 else None)


def damaged(ck, i, rng, m, names, crs, pts, pkg):
    """A block of which a part cannot be read: an array of points raises exactly when one of its points fails on its own."""
    import h5py
    bad = ck.ws.path("d%d.h5" % i)
    keep = m.path
    low = np.min([b.data.shape for b in m.blocks], axis=0)
    m.write(bad, block_opts=dict(chunks=tuple(int(min(k, n)) for k, n in zip((3, 3, 3, 99), low)), fletcher32=True, compression="gzip"))
    m.path = keep
    with h5py.File(bad, "r") as h5:
        places = []
        for b in m.blocks:
            ds = h5["blocks"][b.name].id
            places += [(ds.get_chunk_info(k).byte_offset, ds.get_chunk_info(k).size) for k in range(ds.get_num_chunks())]
    with open(bad, "r+b") as fo:
        for k in rng.permutation(len(places))[:max(1, int(len(places)*rng.choice([0.02, 0.1, 0.3])))]:
            fo.seek(places[k][0])
            fo.write(b"\xa5"*places[k][1])
    good = [p for p in pts if np.isfinite(p[3])]
    inside = [p for p in good if m.locate(p[1], p[2], p[3], crs)["inside"] is True]
    ops, ref, judge = [], [], []
    for h in range(10, 20):
        sel = [good[int(k)][1:] for k in rng.integers(0, len(good), int(rng.choice([2, 3, 6, 20])))]
        one = h >= 17 and inside
        if one:
            sel = [inside[int(k)][1:] for k in rng.integers(0, len(inside), int(rng.choice([2, 3, 6])))]
            ops += [dict(op="newmodel", h=h), dict(op="m.crs", crs=crs, h=h), dict(op="m.open", file=bad, h=h), dict(op="m.load", h=h), dict(op="m.init", h=h)]
            ref += ["m.new %d" % h, "m.crs %d %s" % (h, enc(crs)), "m.open %d %s" % (h, enc(bad)), "m.load %d" % h, "m.init %d" % h]
        else:
            ops += [dict(op="new", h=h), dict(op="init", files=[bad], names=names, crs=crs, h=h)]
            ref += ["q.new %d" % h, init_ops("q", h, [bad], names, crs)]
        judge.append((len(ops), len(ref), len(sel), one))
        ops.append(dict(op="m.q" if one else "q", p=[list(map(float, p)) for p in sel], nc=3, h=h))
        ref += ["%s.q %d %d %s %s %s" % ("m" if one else "q", h, len(m.columns) if one else len(names), *map(f, p)) for p in sel]
    ev, crash, err = py_drive(pkg, ops)
    if crash:
        return ck.violation("python process died on a damaged file: %s" % crash, "after %d operations" % len(ev), [json.dumps(o) for o in ops[:len(ev)+1]], [bad], err[-4000:])
    tr = ck.drive(ref)
    if ck.crash(tr, "damaged file", [bad]):
        return
    for at, r0, n, one in judge:
        es = tr.events[r0:r0+n]
        first = next((j for j, e in enumerate(es) if not e.ok or (not one and int(e.floats()[0]) == 2)), None)
        kind, val = ev[at]
        fault = None
        if first is not None:
            ck.count("python_arrays_with_a_failing_point")
            ck.count("python_%s_failing_after_the_first_point" % ("model_queries" if one else "queries"), first > 0)
            if kind != "EXC":
                fault = "point %d fails on its own, but the array of %d points raised nothing" % (first, n)
            elif not val[1]:
                fault = "exception without message"
        elif kind != "OK":
            fault = "no point fails on its own, but the array raised %s" % val
        else:
            for j in range(n):
                w = es[j].floats()
                if not all(close(u, v) for u, v in zip(([] if one else [val["e"][j]]) + list(val["v"][j]), w)):
                    fault = "row %d: %s, C++ gives %s" % (j, val["v"][j], w)
        ck.case((i, "damaged", at), None)
        if fault:
            return ck.violation("Python interface on a damaged file", fault, [json.dumps(o) for o in ops[:at+1]], [bad])
    os.unlink(bad)


def main():
    ck = Check("C08", "Histories through the C++ and the C handle in step, sequences with failing calls (null handles, before initialisation, after failed initialisation, "
               "after finalisation, unknown settings), and arrays of all layouts through the Python module. Each compared or failing call counts once.",
               assumptions=["the Python extension is built from the tree without sanitizers"])
    with open(ck.ws.path("text.h5"), "w") as fo:
        fo.write("not an HDF5 file\n"*100)
    try:
        pkg = build.stage_python(os.path.join(ck.ws.dir, "py"))
    except build.BuildError as e:
        raise CheckError(str(e))

    def one(i):
        rng = rng_for("C08", i)
        m, names, crs, pts = compare(ck, i, rng)
        for k in range(2):
            failures(ck, i, rng, m)
        python(ck, i, rng, m, names, crs, pts, pkg)
        damaged(ck, i, rng, m, names, crs, pts, pkg)
        for p in m.files:
            os.unlink(p)
    ck.map(one, range(160 if THOROUGH else 32))
    return ck.finish(minimum=1000)
