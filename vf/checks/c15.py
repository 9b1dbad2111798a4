"""C15: life cycles of handles."""
import hashlib, os, subprocess
import h5py
import numpy as np
from .. import model as vm, build
from ..run import Check, CheckError, THOROUGH, f, enc, dec, py_drive
from ..work import *

CYCLES = 10
IDS = ("files", "groups", "datatypes", "dataspaces", "datasets", "attributes", "property lists", "error stacks")


def digest(path):
    with open(path, "rb") as fi:
        h = hashlib.blake2b(fi.read()).hexdigest()
    s = os.stat(path)
    return h, s.st_size, s.st_mtime_ns


def damaged(ck, tag, m, rng):
    """Files that fail at different stages: list of paths."""
    raw = open(m.path, "rb").read()
    out = ["/nonexistent/model.h5", "", os.path.dirname(m.path)]

    def put(name, data):
        p = ck.ws.path(tag, name)
        with open(p, "wb") as fo:
            fo.write(data)
        out.append(p)
    put("empty.h5", b"")
    put("text.h5", b"not a model\n"*50)
    put("cut.h5", raw[:len(raw)//2])

    def edit(name, fn):
        p = ck.ws.path(tag, name)
        with open(p, "wb") as fo:
            fo.write(raw)
        with h5py.File(p, "r+") as h:
            fn(h)
        out.append(p)
    blk = m.blocks[-1].name

    def drop(where, key):
        def fn(h):
            del h[where].attrs[key]
        return fn

    def put_attr(where, key, v):
        def fn(h):
            del h[where].attrs[key]
            h[where].attrs[key] = v
        return fn
    edit("notitle.h5", drop("/", "title"))
    edit("nolicense.h5", drop("/", "license"))
    edit("nocrs.h5", put_attr("/", "crs", "no such system"))
    edit("units.h5", put_attr("/", "data_units", np.array([b"furlong"]*len(m.columns))))
    edit("dims.h5", put_attr("/", "dim_x", "text"))
    edit("values.h5", put_attr("/", "data_values", np.array([b"a"])))

    def noblock(h):
        del h["blocks"]
    edit("noblocks.h5", noblock)

    def shape(h):
        at = dict(h["blocks"][blk].attrs)
        del h["blocks"][blk]
        d = h["blocks"].create_dataset(blk, data=np.zeros((2, 2)))
        d.attrs.update(at)
    edit("rank.h5", shape)

    def blockattr(h):
        a = h["blocks"][blk].attrs
        for k in list(a):
            if k.startswith("y_"):
                del a[k]
    edit("block.h5", blockattr)
    if m.top is not None:
        def surf(h):
            a = h["surfaces/top_surface"].attrs
            for k in list(a):
                if k.startswith("x_"):
                    del a[k]
        edit("surface.h5", surf)
    return out


class History:
    """One cycle: operations, with what is to be judged."""

    def __init__(self, ck, tag, rng):
        self.ck, self.rng = ck, rng
        self.models = []
        for k in range(3):
            m = vm.random_model(rng, nodata=float(rng.choice([0.0, 0.02])), topo=rng.random() < 0.7)
            m.write(ck.ws.path(tag, "m%d.h5" % k))
            self.models.append(m)
        self.bad = damaged(ck, tag, self.models[0], rng)
        self.tag = tag
        self.ops, self.judge = [], []
        self.log = ck.ws.path(tag, "log.txt")

    def op(self, text, judge=None):
        if judge:
            if text[0] == "c":  # the status returned is that of the last failure since the last reset
                self.ops.append("c.reset " + text.split()[1])
            self.judge.append((len(self.ops), judge))
        self.ops.append(text)

    def init(self, kind, h):
        """An initialisation; returns the models it opens, or None if it has to fail."""
        rng = self.rng
        k = int(rng.integers(0, 10))
        first = self.models[int(rng.integers(0, 3))]
        names = [first.columns[0][0]]
        crs = first.crs if rng.random() < 0.6 else str(rng.choice(first.others))
        if k < 5:
            names = [c[0] for c in first.columns]
            self.op(init_ops(kind, h, [first.path], names, crs), ("init", kind, True))
            return [first], names, crs
        if k == 5:  # the same file twice
            self.op(init_ops(kind, h, [first.path, first.path], names, crs), ("init", kind, True))
            return [first, first], names, crs
        bad = str(rng.choice(self.bad))
        files = [[bad], [first.path, bad], [bad, first.path], [first.path], [first.path], []][int(rng.integers(0, 6))]
        if bad.endswith("units.h5") and bad in files:  # readable, but the units differ from those of the original
            files = [bad, self.models[0].path]
            names = [self.models[0].columns[0][0]]
        if files == [first.path]:
            if rng.random() < 0.5:
                names = names + ["no such value"]
            else:
                crs = str(rng.choice(["", "no crs", "+proj=none", "EPSG:999999", "+proj=utm +zone=99"]))
        elif files == []:
            names, crs = [], crs
        self.op(init_ops(kind, h, files, names, crs), ("init", kind, False) if files else None)
        self.failed = bool(files)
        return None

    def build(self, n):
        rng = self.rng
        live = {}
        self.left = {}

        def query(kind, h):
            st = live[(kind, h)]
            if st is None and (kind, h) in self.left:  # nothing is left of the models of a handle that failed to initialise again
                m, crs = self.left[kind, h]
                _, X, Y, Z = physical(m, model_points(rng, m, 1, ("interior",)), crs)[0]
                for w in ("top", "topo"):
                    self.op("%s.%s %s %s %s" % (kind, w, h, f(X), f(Y)), ("gone",))
                self.op("%s.q %s 16 %s %s %s" % (kind, h, f(X), f(Y), f(Z)), ("gone",))
                return
            if st is None:
                if kind == "c":
                    self.op("c.q %s 16 %s %s %s" % (h, f(1e5), f(2e5), f(-10.0)))
                return
            ms, names, crs = st
            m = ms[int(rng.integers(0, len(ms)))]
            for _, X, Y, Z in physical(m, model_points(rng, m, int(rng.integers(1, 6))), crs):
                if rng.random() < 0.1:
                    Z = 1e7
                w = str(rng.choice(["q", "q", "q", "top", "topo"]))
                if w == "q":
                    self.op("%s.q %s %d %s %s %s" % (kind, h, len(names), f(X), f(Y), f(Z)), ("q", ms, names, crs, (X, Y, Z)) if not live.get((kind, h, "sq")) else None)
                else:
                    self.op("%s.%s %s %s %s" % (kind, w, h, f(X), f(Y)))
        for _ in range(n):
            kind = str(rng.choice(["q", "c", "q", "c", "m", "t", "g"]))
            h = kind + str(int(rng.integers(0, 2)))
            r = rng.random()
            if kind in "qc":
                key = (kind, h)
                if key not in live:
                    self.op("%s.new %s" % (kind, h))
                    live[key] = None
                    if rng.random() < 0.15:
                        continue
                    live[key] = self.init(kind, h)
                elif r < 0.2:
                    st = live[key]
                    live[key] = self.init(kind, h)
                    self.left.pop(key, None)
                    if st and live[key] is None and self.failed:
                        self.left[key] = st[0][0], st[2]
                        query(kind, h)
                    live.pop(key + ("sq",), None)
                    self.op("%s.sq %s 0" % (kind, h))
                elif r < 0.6:
                    query(kind, h)
                elif r < 0.7:
                    self.op("%s.%s %s %s" % (kind, *(("sq", h, int(rng.integers(0, 3))) if rng.random() < 0.5 else ("min", h, "-3000.0"))))
                    live[key + ("sq",)] = True
                elif r < 0.78:
                    self.op("%s.logfile %s %s" % (kind, h, enc(self.log)))
                    self.op("%s.logon %s %d" % (kind, h, int(rng.integers(0, 2))))
                elif r < 0.88:
                    self.op("%s.fin %s" % (kind, h))
                    live[key] = None
                    self.left.pop(key, None)
                else:
                    self.op("%s.del %s" % (kind, h))
                    live.pop(key)
                    self.left.pop(key, None)
                    live.pop(key + ("sq",), None)
            elif kind == "m":
                self.op("m.new " + h)
                if rng.random() < 0.4:
                    self.op("m.open %s %s" % (h, enc(str(rng.choice(self.bad)))))
                    self.op("m.load " + h) if rng.random() < 0.5 else None
                m = self.models[int(rng.integers(0, 3))]
                if rng.random() < 0.8:
                    self.op("m.open %s %s" % (h, enc(m.path)), ("ok",))
                    for _ in range(int(rng.integers(1, 3))):
                        self.op("m.load " + h, ("ok",))
                    crs = m.crs
                    self.op("m.crs %s %s" % (h, enc(crs)))
                    for _ in range(int(rng.integers(1, 3))):
                        self.op("m.init " + h, ("ok",))
                    for _, X, Y, Z in physical(m, model_points(rng, m, 3, ("interior",)), crs):
                        self.op("m.q %s %d %s %s %s" % (h, len(m.columns), f(X), f(Y), f(Z)))
                        self.op("m.top %s %s %s" % (h, f(X), f(Y)))
                    if rng.random() < 0.5:
                        self.op("m.close " + h)
                        if rng.random() < 0.3:
                            self.op("m.close " + h)
                if rng.random() < 0.7:
                    self.op("m.del " + h)
            elif kind == "t":
                a = str(rng.choice(["EPSG:4326", "EPSG:26910", "EPSG:3310", "+proj=bad", "", "+proj=utm +zone=11 +type=crs"]))
                b = str(rng.choice(["EPSG:4326", "EPSG:26910", "EPSG:3310", "+proj=utm +zone=99"]))
                self.op("t.new " + h)
                self.op("t.set %s %s %s" % (h, enc(a), enc(b)))
                for _ in range(int(rng.integers(1, 3))):
                    self.op("t.init " + h)
                self.op("t.xy t9 " + enc(a))
                self.op("t.units " + enc(a))
                if rng.random() < 0.5:
                    self.op("t.del " + h)
            else:
                self.op("g.new " + h)
                self.op("g.size %s 3 4 2" % h)
                self.op("g.labels %s 2 'one 'two" % h)
                self.op("g.crs %s %s" % (h, enc(str(rng.choice(["EPSG:26910", "EPSG:4326", "+proj=bad"])))))
                self.op("g.bbox %s 0 400 0 300" % h)
                self.op("g.nodata %s -999" % h)
                path = ck_path(self, "r%d.tiff" % int(rng.integers(0, 2))) if rng.random() < 0.8 else "/nonexistent/r.tiff"
                self.op("g.create %s %s" % (h, enc(path)))
                self.op("g.close " + h) if rng.random() < 0.5 else None
                self.op("g.read %s %s" % (h, enc(str(rng.choice([path, self.bad[4], "/nonexistent.tiff"])))))
                self.op("g.bands " + h)
                if rng.random() < 0.7:
                    self.op("g.del " + h)
        # everything is destroyed, in any order
        for key in [list(live)[int(k)] for k in rng.permutation(len(live))]:
            if len(key) == 2:
                if rng.random() < 0.3:
                    self.op("%s.fin %s" % key)
                self.op("%s.del %s" % key)
        for h in ("m0", "m1", "t0", "t1", "t9", "g0", "g1"):
            self.op("%s.del %s" % (h[0], h))


def ck_path(self, name):
    return self.ck.ws.path(self.tag, name)


def growing(v):
    """The amount by which a sequence keeps growing, or 0."""
    d = [b - a for a, b in zip(v, v[1:])]
    return min(d[-6:]) if len(d) >= 6 and min(d[-6:]) > 0 else 0


def one(ck, i):
    rng = rng_for("C15", i)
    H = History(ck, "h%d" % i, rng)
    H.build(90 if THOROUGH else 45)
    paths = [m.path for m in H.models] + [p for p in H.bad if os.path.isfile(p)]
    files = [m.path for m in H.models]
    before = {p: digest(p) for p in paths}
    probe = ["s.heap", "s.h5", "s.fds", "s.ids"]
    N = len(H.ops) + len(probe)
    ops = (H.ops + probe)*CYCLES
    tr = ck.drive(ops)
    if ck.crash(tr, "life cycle", files):
        return
    for p in paths:
        if digest(p) != before[p]:
            ck.violation("model file changed", p, H.ops, files)
    st = [tr.events[c*N + len(H.ops):(c+1)*N] for c in range(CYCLES)]
    heap = [int(e[0].args[0]) for e in st]
    g = growing(heap)
    if g:
        ck.violation("memory is left behind", "at least %d bytes per cycle: %s" % (g, heap), ops, files)
    h5 = [int(e[1].args[0]) for e in st]
    if any(h5):
        ck.violation("HDF5 objects are left open", "%s" % h5, H.ops + probe, files)
    fds = [int(e[2].args[0]) for e in st]
    if fds[-1] > fds[1]:
        ck.violation("files are left open", "%s" % fds, ops, files)
    ids = [[int(v) for v in e[3].args] for e in st]
    for k, name in enumerate(IDS):
        v = [x[k] for x in ids]
        if v[-1] > v[1]:
            ck.violation("HDF5 identifiers are left behind: " + name, "%s" % v, ops, files)
    for at, j in H.judge:
        e = tr.events[at]
        if j[0] == "ok" and not e.ok:
            ck.violation("life cycle: step fails", "%s: %s" % (H.ops[at], e.args), H.ops[:at+1], files)
        elif j[0] == "init":
            done = e.ok and (j[1] == "q" or e.args[0] == "0")
            if done != j[2]:
                ck.violation("life cycle: initialisation %s" % ("fails" if j[2] else "succeeds"), "%s: %s" % (H.ops[at], e.args), H.ops[:at+1], files)
            ck.count("initialisations_ok" if done else "initialisations_failed")
        elif j[0] == "gone":
            if e.ok and (e.floats()[0] == 0.0 if ".q " in H.ops[at] else e.floats()[0] != NODATA):
                ck.violation("life cycle: answer of a handle that failed to initialise", "%s: %s" % (H.ops[at], e.args), H.ops[:at+1], files)
            ck.count("asked_after_failed_initialisation")
        elif j[0] == "q":
            if not e.ok:
                ck.violation("life cycle: query fails", "%s: %s" % (H.ops[at], e.args), H.ops[:at+1], files)
                continue
            v = e.floats()
            t = judge_point(j[1], j[2], j[3], j[4], int(v[0]), v[1:])
            if t:
                ck.violation("life cycle: wrong answer", "%s: %s" % (H.ops[at], t), H.ops[:at+1], files)
            ck.count("answers_judged")
        ck.case((i, at), dict(op=H.ops[at][:80], heap=heap[-3:], h5=h5[-1], fds=fds[-1]) if at < 3 else None)
    # the same operations give the same answers in every cycle
    for c in range(1, CYCLES):
        for k in range(len(H.ops)):
            a, b = tr.events[k], tr.events[c*N + k]
            if c == 1 and H.ops[k][:2] == "g.":  # rasters are there from the second cycle on
                continue
            if H.ops[k][:2] == "g.":
                a = tr.events[N + k]
            if a.ok != b.ok or (a.ok and a.args != b.args):
                ck.violation("life cycle: later cycle differs", "cycle %d: %s: %s, before %s" % (c, H.ops[k], b.args, a.args), ops[:c*N+k+1], files)
                return
    ck.count("cycles", CYCLES)


def python(ck, pkg, i):
    rng = rng_for("C15py", i)
    m = vm.random_model(rng)
    m.write(ck.ws.path("py%d" % i, "m.h5"))
    bad = [p for p in damaged(ck, "py%d" % i, m, rng) if p]
    names = [c[0] for c in m.columns]
    ops = []
    for _ in range(20):
        h = "h%d" % int(rng.integers(0, 3))
        ops.append(dict(op="new", h=h))
        for _ in range(int(rng.integers(1, 4))):
            fl = [m.path] if rng.random() < 0.6 else [str(rng.choice(bad))]
            ops.append(dict(op="init", h=h, files=fl, names=names if rng.random() < 0.8 else ["none"], crs=m.crs))
        p = [[float(v) for v in q[1:]] for q in physical(m, model_points(rng, m, 20), m.crs)]
        for w, nc in (("q", 3), ("top", 2), ("topo", 2)):
            ops.append(dict(op=w, h=h, p=[q[:nc] for q in p], nc=nc, how=str(rng.choice(["c", "f", "list", "strided", "f4", "text"]))))
        if rng.random() < 0.5:
            ops.append(dict(op="fin", h=h))
        ops.append(dict(op="newmodel", h="m"))
        ops.append({"op": "m.open", "h": "m", "file": m.path if rng.random() < 0.6 else str(rng.choice(bad))})
        ops.append({"op": "m.load", "h": "m"})
        ops.append({"op": "m.meta", "h": "m"})
        ops.append({"op": "m.close", "h": "m"})
    for h in ("h0", "h1", "h2", "m"):
        ops += [dict(op="new", h=h), dict(op="del", h=h)]
    before = digest(m.path)
    n = len(ops) + 1
    cyc = 40
    ev, crash, err = py_drive(pkg, (ops + [dict(op="state")])*cyc)
    if crash:
        ck.violation("Python life cycle: " + crash, "abnormal end after %d operations" % len(ev), None, [m.path], err[-3000:])
        return
    st = [ev[c*n + n - 1][1] for c in range(cyc)]
    heap = [s["heap"] for s in st]
    # the allocator of Python settles slowly; a leak shows as steady growth through the last three blocks of cycles
    if min(heap[15] - heap[8], heap[27] - heap[15], heap[39] - heap[27]) > 12*1000:
        ck.violation("Python: memory is left behind", "%s" % heap, None, [m.path])
    if st[-1]["fds"] > st[1]["fds"]:
        ck.violation("Python: files are left open", "%s" % [s["fds"] for s in st], None, [m.path])
    if digest(m.path) != before:
        ck.violation("model file changed", "by the Python interface", None, [m.path])
    ck.case(("py", i), dict(python_heap=heap[-3:], fds=st[-1]["fds"]))
    ck.count("python_cycles", cyc)


def together(ck, i):
    """The same file open in several processes."""
    rng = rng_for("C15t", i)
    m = vm.random_model(rng)
    m.write(ck.ws.path("t%d" % i, "m.h5"))
    names = [c[0] for c in m.columns]
    pts = [p[1:] for p in physical(m, model_points(rng, m, 10), m.crs)]
    ops = ["q.new q", init_ops("q", "q", [m.path], names, m.crs)] + ["q.q q %d %s %s %s" % (len(names), f(a), f(b), f(c)) for a, b, c in pts]
    before = digest(m.path)
    p = subprocess.Popen([ck.build["driver"]], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=build.ENV, text=True)
    p.stdin.write("\n".join(ops[:5]) + "\n")
    p.stdin.flush()
    first = [p.stdout.readline() for _ in range(5)]
    with h5py.File(m.path, "r") as h:
        tr = ck.drive(ops)
        list(h["blocks"])
    p.stdin.write("\n".join(ops[5:]) + "\nq.del q\n")
    p.stdin.close()
    first += p.stdout.read().splitlines()
    p.stdout.close()
    p.wait()
    if not ck.crash(tr, "several processes", [m.path]):
        for k, e in enumerate(tr.events):
            a = first[k].split()
            if not e.ok or a[1:2] != ["OK"] or a[2:] != e.args:
                ck.violation("several processes: answers differ", "%s: %s and %s" % (ops[k], first[k].strip(), e.args), ops, [m.path])
                break
            ck.case(("t", i, k), None)
    if digest(m.path) != before:
        ck.violation("model file changed", "while open in two processes", ops, [m.path])


def main():
    ck = Check("C15", "Random life-cycle histories over Query, C handles, Model, CRSTransformer and GeoTiff objects with failing steps, each repeated %d times; heap bytes, HDF5 identifiers and file descriptors after each "
               "cycle, answers against an independent evaluation and between cycles, digests of the files." % CYCLES)
    pkg = os.path.dirname(ck.ws.path("pkg", "x"))
    build.stage_python(pkg)
    jobs = [lambda k=k: one(ck, k) for k in range(400 if THOROUGH else 48)] + [lambda k=k: python(ck, pkg, k) for k in range(24 if THOROUGH else 4)] + \
           [lambda k=k: together(ck, k) for k in range(16 if THOROUGH else 4)]
    ck.map(lambda j: j(), jobs)
    return ck.finish(minimum=500)
