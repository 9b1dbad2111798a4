"""C22: failing reads."""
import os
import h5py
import numpy as np
from .. import model as vm
from ..run import Check, THOROUGH, f, enc, dec
from ..work import *
from .c02 import history, same


def plan(rng, m, crs, n, kind):
    """Operations of one history after initialisation, without the handle."""
    names = [c[0] for c in m.columns]
    pts = physical(m, history(rng, m, n), crs)
    out = []
    for _, x, y, z in pts:
        r = rng.random()
        if r < 0.05:
            z = 1e7
        out.append("%s.q %%s %d %s %s %s" % (kind, len(names), f(x), f(y), f(z)) if r < 0.75 else "%s.%s %%s %s %s" % (kind, "top" if r < 0.88 else "topo", f(x), f(y)))
    return out


def outcome(kind, events):
    """'error' or the answer (list of tokens)."""
    e = events[0]
    if kind == "q":
        return "error" if not e.ok or (len(e.args) > 1 and e.args[0] == "2") else e.args
    st = events[1].args[0]
    return "error" if st == "2" else e.args


class Run:
    def __init__(self, ck, tag, m, files, crs, body, kind, scale):
        self.ck, self.m, self.files, self.crs, self.body, self.kind, self.scale = ck, m, files, crs, body, kind, scale
        self.names = [c[0] for c in m.columns]
        self.init = init_ops(kind, "%s", files, self.names, crs)
        self.ops, self.steps = [], []

    def do(self, op, h, tag):
        if self.kind == "c":
            self.ops.append("c.reset " + h)
        self.steps.append((len(self.ops), tag))
        self.ops.append(op.replace("%s", h))
        if self.kind == "c":
            self.ops.append("c.status " + h)

    def new(self, h):
        self.ops.append("%s.new %s" % (self.kind, h))

    def delete(self, h):
        self.ops.append("%s.del %s" % (self.kind, h))


def faults(ck, i):
    rng = rng_for("C22", i)
    kind = "qc"[i % 2]
    large = i % 3 == 0
    m = vm.random_model(rng, size="large" if large else "small", nodata=float(rng.choice([0.0, 0.02])), topo=rng.random() < 0.8, max_blocks=2 if large else 3)
    opts = {}
    if rng.random() < 0.6:
        opts["block_opts"] = dict(chunks=True, compression=[None, "gzip"][int(rng.integers(0, 2))], shuffle=bool(rng.random() < 0.5), fletcher32=bool(rng.random() < 0.3))
        opts["surface_opts"] = dict(chunks=True, compression="gzip") if rng.random() < 0.5 else {}
    files = [m.write(ck.ws.path("f%d" % i, "a.h5"), **opts)]
    if rng.random() < 0.4:
        m2 = vm.random_model(rng, crs=[c[0] for c in vm.CRSES].index(m.crs), columns=m.columns, max_blocks=2)
        files.append(m2.write(ck.ws.path("f%d" % i, "b.h5")))
    crs = m.crs if rng.random() < 0.6 else str(rng.choice(m.others))
    body = plan(rng, m, crs, 14 if large else 8, kind)
    scale = [float(np.abs(b[b > -1e19]).max(initial=0.0)) for b in (np.concatenate([blk.data[..., k].ravel() for blk in m.blocks]) for k in range(len(m.columns)))]
    scale = [max(s, 1e6) for s in scale]
    ref = Run(ck, "ref", m, files, crs, body, kind, scale)
    ref.ops.append("s.reads")
    ref.new("1")
    ref.do(ref.init, "1", "init")
    at_init = len(ref.ops)
    ref.ops.append("s.reads")
    for op in body:
        ref.do(op, "1", "q")
    at_body = len(ref.ops)
    ref.ops.append("s.reads")
    ref.delete("1")
    tr = ck.drive(ref.ops)
    if ck.crash(tr, "without faults", files):
        return
    n_init, n_body = int(tr.events[at_init].args[0]), int(tr.events[at_body].args[0])
    want = [outcome(kind, tr.events[a:a+2]) for a, t in ref.steps]
    if "error" in want:
        return ck.violation("query fails without faults", str(ref.ops[ref.steps[want.index("error")][0]]), ref.ops, files)
    ck.count("reads_of_initialisation", n_init)
    ck.count("reads_of_queries", n_body)
    want = want[1:]
    # where to fail: every read of the queries, reads of the initialisation
    cap = 400 if THOROUGH else 45
    pos = list(range(n_body)) if n_body <= cap else sorted(int(k) for k in rng.choice(n_body, cap, replace=False))
    ipos = list(range(n_init)) if n_init <= cap//2 else sorted(int(k) for k in rng.choice(n_init, cap//2, replace=False))
    jobs = [("q", p) for p in pos] + [("i", p) for p in ipos]
    r = Run(ck, "faults", m, files, crs, body, kind, scale)
    marks = []
    for where, p in jobs:
        mode = int(rng.choice([0, 0, 2, 3, 1]))
        length = int(rng.choice([1, 1, 1, 2, 5, -1]))
        at = len(r.ops)
        r.new("1")
        if where == "q":
            r.do(r.init, "1", ("init", "ok"))
        r.ops.append("s.arm %d %d %d" % (p, length, mode))
        if where == "i":
            r.do(r.init, "1", ("init", "fault"))
        for k, op in enumerate(body):
            r.do(op, "1", ("fault", k, mode))
        fired = len(r.ops)
        r.ops.append("s.disarm")
        # reads work again: on the same handle, on the same handle initialised again, on a fresh one
        if where == "q" and mode != 1:
            for k in [int(q) for q in rng.permutation(len(body))[:6]]:
                r.do(body[k], "1", ("after", k, mode))
        r.do(r.init, "1", ("init", "ok"))
        for k in [int(q) for q in rng.permutation(len(body))[:3]]:
            r.do(body[k], "1", ("after", k, mode))
        r.new("2")
        r.do(r.init, "2", ("init", "ok"))
        k = int(rng.integers(0, len(body)))
        r.do(body[k], "2", ("after", k, mode))
        for h in ("1", "2") if rng.random() < 0.5 else ("2", "1"):
            r.delete(h)
        left = len(r.ops)
        r.ops += ["s.h5", "s.fds"]
        marks.append((at, fired, left, len(r.ops), where, p, mode, length))
    tr = ck.drive(r.ops)
    if ck.crash(tr, "failing reads", files):
        return
    tags = dict(r.steps)
    fds0 = int(tr.events[marks[0][2]+1].args[0])
    for at, fired, left, end, where, p, mode, length in marks:
        what = "read %d of %s, mode %d, %d failing" % (p, "queries" if where == "q" else "initialisation and queries", mode, length)
        n_fired = int(tr.events[fired].args[0])
        errors = 0
        initialised = True
        for k in range(at, end):
            t = tags.get(k)
            if t is None:
                continue
            o = outcome(kind, tr.events[k:k+2])
            if t[0] == "init":
                if t[1] == "ok" and o == "error":
                    ck.violation("initialisation fails after reads work again", what + ": " + str(tr.events[k].args), r.ops[at:end], files)
                if t[1] == "fault" and o == "error":
                    errors += 1
                    initialised = False
                continue
            if o == "error":
                if t[0] == "after":
                    ck.violation("query fails after reads work again", "%s: %s: %s" % (what, r.ops[k], tr.events[k].args), r.ops[at:end], files)
                errors += 1
                continue
            if mode == 1 and t[0] == "fault":
                continue  # HDF5 itself takes the end of a file for zeros
            if not same(o, want[t[1]], scale):
                if t[0] == "fault" and not initialised and o == ["-1e+20"]:
                    continue  # no elevation from a handle without models, whose initialisation reported the error
                ck.violation("wrong answer %s" % ("while reads fail" if t[0] == "fault" else "after reads work again"), "%s: %s: %s, without faults %s" % (what, r.ops[k], o, want[t[1]]), r.ops[at:end], files)
            ck.count("answers_compared")
        if n_fired:
            ck.count("faults_fired")
            ck.count("errors_reported", errors)
            if mode in (0, 2) and not errors:
                # HDF5 reads ahead: the library may try again without the caller noticing, then answers are right, too
                ck.count("faults_without_effect")
            ck.case((i, where, p, mode, length), dict(fault=what, errors=errors) if errors else None)
        if int(tr.events[left].args[0]) != 0:
            ck.violation("HDF5 objects are left open", "%s: %s" % (what, tr.events[left].args), r.ops[at:end], files)
        if int(tr.events[left+1].args[0]) > fds0:
            ck.violation("files are left open", "%s: %s, before %d" % (what, tr.events[left+1].args, fds0), r.ops[at:end], files)
        fds0 = int(tr.events[left+1].args[0])


def chunks(ck, i):
    """Parts of the data that cannot be decoded."""
    rng = rng_for("C22chunk", i)
    kind = "qc"[i % 2]
    m = vm.random_model(rng, size="large" if i % 2 else "small", topo=rng.random() < 0.8, max_blocks=2, nodata=float(rng.choice([0.0, 0.02])), style="rough")
    block_opts = [dict(chunks=True, compression="gzip"), dict(chunks=True, compression="gzip", shuffle=True), dict(chunks=True, fletcher32=True)][int(rng.integers(0, 3))]
    surface_opts = [dict(chunks=True, compression="gzip"), dict(chunks=True, fletcher32=True)][int(rng.integers(0, 2))]
    good = m.write(ck.ws.path("d%d" % i, "good.h5"), block_opts=block_opts, surface_opts=surface_opts)
    data = bytearray(open(good, "rb").read())
    where = []
    with h5py.File(good, "r") as h:
        sets = ["blocks/" + b.name for b in m.blocks] + (["surfaces/" + k for k in h["surfaces"]] if "surfaces" in h else [])
        for name in sets:
            d = h[name]
            for k in range(d.id.get_num_chunks()):
                c = d.id.get_chunk_info(k)
                where.append((name, c.byte_offset, c.size))
    for _ in range(int(rng.integers(1, 4))):
        name, off, size = where[int(rng.integers(0, len(where)))]
        w = max(1, min(size//4, 40))
        at = off + int(rng.integers(size//4, max(size//4+1, size - w)))
        data[at:at+w] = bytes(v ^ 0x5a for v in data[at:at+w])
    bad = ck.ws.path("d%d" % i, "bad.h5")
    with open(bad, "wb") as fo:
        fo.write(data)
    crs = m.crs
    body = plan(rng, m, crs, 80 if THOROUGH else 40, kind)
    runs = []
    for p in (good, bad):
        r = Run(ck, "chunk", m, [p], crs, body, kind, None)
        r.new("1")
        r.do(r.init, "1", "init")
        for op in body:
            r.do(op, "1", "q")
        r.delete("1")
        r.ops += ["s.h5"]
        tr = ck.drive(r.ops)
        if ck.crash(tr, "damaged chunk", [good, bad]):
            return
        runs.append((r, tr, [outcome(kind, tr.events[a:a+2]) for a, t in r.steps]))
    (r0, t0, a), (r1, t1, b) = runs
    if "error" in a:
        return ck.violation("query fails on an undamaged file", str(r0.ops[r0.steps[a.index("error")][0]]), r0.ops, [good])
    if t1.events[-1].args != ["0"]:
        ck.violation("HDF5 objects are left open", "after reading a damaged chunk: %s" % t1.events[-1].args, r1.ops, [bad])
    scale = [1e6]*len(m.columns)
    errors = 0
    for k, (u, v) in enumerate(zip(a, b)):
        if v == "error":
            errors += 1
        elif k and not same(v, u, scale):
            ck.violation("wrong answer from a damaged chunk", "%s: %s, undamaged %s" % (r1.ops[r1.steps[k][0]], v, u), r1.ops, [bad])
        ck.case(("chunk", i, k), None)
    ck.count("chunk_errors_reported", errors)
    ck.count("damaged_files")


def main():
    ck = Check("C22", "Histories of initialisation and queries with one or more reads failing at every position (refused, end of file, short), through the C++ and the C interface; every answer while reads fail is an error or "
               "the right one, every answer afterwards the right one; files with chunks that cannot be decoded; open identifiers and descriptors after each history.",
               assumptions=["a premature end of the file inside stored values is read as zeros by HDF5 itself; for this kind of fault only crashes and recovery are judged"])
    jobs = [lambda k=k: faults(ck, k) for k in range(120 if THOROUGH else 24)] + [lambda k=k: chunks(ck, k) for k in range(120 if THOROUGH else 24)]
    ck.map(lambda j: j(), jobs)
    return ck.finish(minimum=500)
