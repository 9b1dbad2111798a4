"""C09: status, message and log of a handle record exactly the failures that happened."""
import os
import numpy as np
from .. import model as vm
from ..run import Check, THOROUGH, f, dec, enc
from ..work import *

norm = lambda s: "".join(s.split())


def log_matches(content, entries):
    """Does the log consist of the entries (text or (text, optional)) in order?"""
    rest = norm(content)
    for e in entries:
        text, optional = e if isinstance(e, tuple) else (e, False)
        t = norm(text)
        if rest.startswith(t):
            rest = rest[len(t):]
        elif not optional:
            return False
    return not rest


class Shadow:
    """What an error handler should say, from the documentation of its functions."""

    def __init__(self):
        self.status, self.message = 0, ""
        self.file, self.on = None, False
        self.logs = {}      # path -> entries
        self.sealed = {}    # path -> entries that must be in the file by now

    def event(self, status, message):
        self.status, self.message = status, message

    def log(self, text):
        if self.on and self.file:
            self.logs[self.file].append(text)

    def setfile(self, path):
        self.seal()
        self.file, self.on = path, True
        self.logs[path] = []
        self.sealed[path] = 0

    def logging(self, on):
        self.seal()
        self.on = on

    def seal(self):
        if self.file:
            self.sealed[self.file] = len(self.logs[self.file])


TEXT = ["plain message", "", "a", "two\nlines\n", "with %s %n percent", "ünïcode – ✓", "x"*3000, "ERROR: something", " leading and trailing "]


def raw(ck, i):
    """ErrorHandler objects driven directly."""
    rng = rng_for("C09raw", i)
    d = ck.ws.folder("raw", i)
    nh = int(rng.integers(1, 4))
    sh = {h: Shadow() for h in range(nh)}
    ops, judge = [], []
    for h in range(nh):
        ops.append("e.new %d" % h)
        judge.append(None)
    serial = 0
    for _ in range(120):
        h = int(rng.integers(0, nh))
        s = sh[h]
        r = rng.random()
        j = None
        if r < 0.2:
            serial += 1
            t = str(rng.choice(TEXT)) + "#%d" % serial if rng.random() < 0.8 else str(rng.choice(TEXT))
            k = int(rng.integers(1, 3))
            ops.append("e.%s %d %s" % ("setwarn" if k == 1 else "seterr", h, enc(t)))
            s.event(k, t)
        elif r < 0.45:
            serial += 1
            t = str(rng.choice(TEXT)) + "|%d|" % serial + "z"*(20000 if i % 6 == 5 else 0)
            ops.append("e.log %d %s" % (h, enc(t)))
            s.log(t)
        elif r < 0.52:
            ops.append("e.reset %d" % h)
            s.event(0, "")
        elif r < 0.6:
            p = os.path.join(d, "log%d-%d.txt" % (h, int(rng.integers(0, 2))))
            ops.append("e.logfile %d %s" % (h, enc(p)))
            s.setfile(p)
        elif r < 0.64:
            on = bool(rng.random() < 0.5)
            ops.append("e.logon %d %d" % (h, on))
            s.logging(on)
        elif r < 0.66 and s.file is not None:
            ops.append("e.getlog %d" % h)
            j = ("file", s.file)
        elif r < 0.68 and s.file is not None:
            s.logging(False)
            ops.append("e.logon %d 0" % h)
            judge.append(None)
            ops.append("s.cat " + enc(s.file))
            j = ("content", s.file, list(s.logs[s.file]))
        elif r < 0.84:
            ops.append("e.status %d" % h)
            j = ("status", s.status)
        else:
            ops.append("e.msg %d" % h)
            j = ("msg", s.message)
        judge.append(j)
    for h in range(nh):
        ops.append("e.del %d" % h)
        judge.append(None)
        for p, t in sh[h].logs.items():
            ops.append("s.cat " + enc(p))
            judge.append(("content", p, t))
    tr = ck.drive(ops)
    if ck.crash(tr, "error handler"):
        return
    for k, (j, e) in enumerate(zip(judge, tr.events)):
        if not e.ok:
            ck.violation("operation of the error handler failed", "%s: %s" % (ops[k], e.args), ops[:k+1])
            return
        if j is None:
            continue
        got = e.args[0]
        bad = None
        if j[0] == "status" and int(got) != j[1]:
            bad = "status %s, expected %s" % (got, j[1])
        elif j[0] == "msg" and dec(got) != j[1]:
            bad = "message %r, expected %r" % (dec(got)[:200], j[1][:200])
        elif j[0] == "file" and dec(got) != j[1]:
            bad = "log file name %r, expected %r" % (dec(got), j[1])
        elif j[0] == "content" and not log_matches(dec(got), j[2]):
            bad = "log %r, expected %r" % (dec(got)[:400], "".join(j[2])[:400])
        if bad:
            ck.violation("error handler state wrong", "%s: %s" % (ops[k][:80], bad), ops[:k+1])
            return
        ck.case((i, k, j[0]), dict(op=ops[k][:100], result=got[:100]) if k % 61 == 0 else None)
        ck.count("observed_" + j[0])


def handle(ck, i):
    """The same through handles of the C interface with successful, warning and failing queries."""
    rng = rng_for("C09", i)
    m = vm.random_model(rng, topo=bool(rng.random() < 0.6), max_blocks=2, kind="exact" if rng.random() < 0.5 else None)
    path = os.path.join(ck.ws.folder("h", i), "m.h5")
    m.write(path)
    names = [c[0] for c in m.columns]
    # a copy whose first block cannot be decoded: every query of values there is an error
    bad = os.path.join(ck.ws.folder("h", i), "bad.h5")
    b0 = m.blocks[0]
    m.write(bad, block_opts=dict(chunks=tuple(min(n, 8) for n in b0.data.shape), compression="gzip", fletcher32=True) if len(m.blocks) == 1 else dict(chunks=True, compression="gzip", fletcher32=True))
    m.path = path
    import h5py
    with h5py.File(bad, "r") as h5:
        places = []
        for b in m.blocks:
            ds = h5["blocks"][b.name].id
            places += [(ds.get_chunk_info(k).byte_offset, ds.get_chunk_info(k).size) for k in range(ds.get_num_chunks())]
    with open(bad, "r+b") as fo:
        for off, n in places:
            fo.seek(off)
            fo.write(b"\xa5"*n)
    nh = int(rng.integers(1, 4))
    sh, ready, breaks = {}, {}, {}
    ops, judge = [], []

    def put(op, j=None):
        ops.append(op)
        judge.append(j)
    for h in range(nh):
        put("c.new %d" % h)
        sh[h], ready[h] = Shadow(), False
        breaks[h] = bool(rng.random() < 0.35)
    pts = physical(m, model_points(rng, m, 25, where=("interior",)), m.crs)
    away = [("out", x, y, z) for (_, x, y, _), z in zip(pts, rng.choice([3e6, -4e7], len(pts)))]
    farxy = [("far", x + 1e7, y + 2e7, z) if not m.geographic else ("far", x + 60.0, y*0.1 + 3.0, z) for _, x, y, z in pts]
    d = os.path.dirname(path)
    inits = {h: init_ops("c", h, [bad if breaks[h] else path], names, m.crs) for h in range(nh)}
    for step in range(110):
        h = int(rng.integers(0, nh))
        s = sh[h]
        r = rng.random()
        if not ready[h] and (r < 0.3 or step < nh):
            put(inits[h], ("ret", h, None, False))
            ready[h] = True
        elif r < 0.4:
            kind, x, y, z = pts[int(rng.integers(0, len(pts)))]
            put("c.q %d %d %s %s %s" % (h, len(names), f(x), f(y), f(z)), ("ret", h, ((2 if breaks[h] else None) if ready[h] else 2), breaks[h] if ready[h] else "maybe", (x, y, z)))
        elif r < 0.55:
            kind, x, y, z = (away if rng.random() < 0.5 else farxy)[int(rng.integers(0, len(pts)))]
            put("c.q %d %d %s %s %s" % (h, len(names), f(x), f(y), f(z)), ("ret", h, 1 if ready[h] else 2, True if ready[h] else "maybe", (x, y, z)))
        elif r < 0.62:
            far = rng.random() < 0.5
            _, x, y, _ = (farxy if far else pts)[int(rng.integers(0, len(pts)))]
            if ready[h]:
                put("c.%s %d %s %s" % (rng.choice(["top", "topo"]), h, f(x), f(y)), ("elev", h, 1 if far else None, far, (x, y)))
        elif r < 0.68:
            put("c.reset %d" % h, ("reset", h))
        elif r < 0.75:
            p = os.path.join(d, "log%d-%d.txt" % (h, int(rng.integers(0, 2))))
            put("c.logfile %d %s" % (h, enc(p)), ("setfile", h, p))
        elif r < 0.81:
            on = bool(rng.random() < 0.6)
            put("c.logon %d %d" % (h, on), ("logon", h, on))
        elif r < 0.85:
            put(str(rng.choice(["c.sq %d 7", "c.sq %d -1"])) % h, ("ret", h, 2, False))
        elif r < 0.87:
            put("c.sq %d 0" % h, ("ret", h, None, False))
        elif r < 0.89:
            put("c.qnull %d %s %s %s" % (h, f(pts[0][1]), f(pts[0][2]), f(pts[0][3])), ("ret", h, 2, False))
        elif r < 0.895:
            put("c.lognull %d" % h, ("elev", h, 2, False))
        elif r < 0.91 and ready[h]:
            put("c.fin %d" % h, ("ret", h, None, False))
            ready[h] = False
        elif r < 0.93:
            put(init_ops("c", h, ["/nonexistent/m.h5"], names, m.crs), ("ret", h, 2, False))
            ready[h] = False
        put("c.status %d" % h, ("status", h))
        put("c.msg %d" % h, ("msg", h))
    for h in range(nh):
        put("c.del %d" % h, ("del", h))
    files = sorted({os.path.join(d, "log%d-%d.txt" % (h, k)) for h in range(nh) for k in range(2)})
    for p in files:
        put("s.cat " + enc(p), ("content", p))
    tr = ck.drive(ops)
    if ck.crash(tr, "handles", [path, bad]):
        return
    # the shadow follows the events; texts of messages are learned from the handle right after each event
    pend = {}

    def bad_(k, text):
        ck.violation("status, message or log of a handle wrong", "%s: %s" % (ops[k][:120], text), ops[:k+1], [path, bad])
    for k, (j, e) in enumerate(zip(judge, tr.events)):
        if not e.ok:
            return bad_(k, "exception %s" % e.args)
        if j is None:
            continue
        if j[0] in ("ret", "elev"):
            s, ev, logged = sh[j[1]], j[2], j[3]
            if ev is not None:
                s.status = ev
                pend[j[1]] = (logged, j[4] if len(j) > 4 else None, k)
            if j[0] == "ret" and e.args[0] != str(s.status):
                return bad_(k, "returned %s, status should be %s" % (e.args[0], s.status))
            ck.count({None: "success", 1: "warnings", 2: "errors"}[ev])
        elif j[0] == "reset":
            sh[j[1]].event(0, "")
            pend.pop(j[1], None)
        elif j[0] == "setfile":
            sh[j[1]].setfile(j[2])
        elif j[0] == "logon":
            sh[j[1]].logging(j[2])
        elif j[0] == "status":
            if int(e.args[0]) != sh[j[1]].status:
                return bad_(k, "status %s, expected %s after the operations so far" % (e.args[0], sh[j[1]].status))
        elif j[0] == "msg":
            s, got = sh[j[1]], dec(e.args[0])
            if j[1] in pend:
                logged, pt, at = pend.pop(j[1])
                if not got.strip():
                    return bad_(k, "no message after %s" % ops[at])
                if pt is not None and logged is True and not all(("%.6e" % v) in got for v in pt):
                    return bad_(k, "message %r does not name the point of %s" % (got[:300], ops[at]))
                s.message = got
                if logged:
                    s.log((got, logged == "maybe"))
                    ck.count("logged_events", int(s.on))
            elif got != s.message:
                return bad_(k, "message %r changed without an event (was %r)" % (got[:300], s.message[:300]))
        elif j[0] == "content":
            want = None
            for s in sh.values():
                if j[1] in s.logs:
                    want = s.logs[j[1]]
            got = dec(e.args[0])
            if want is None:
                if os.path.exists(j[1]):
                    return bad_(k, "a log file appeared that was never named")
            elif not log_matches(got, want):
                return bad_(k, "log holds %r, expected %r" % (got[-900:], want[-6:]))
            ck.count("logs_compared")
        ck.case((i, k, j[0]), dict(op=ops[k][:120], result=[a[:80] for a in e.args[:2]]) if k % 97 == 0 else None)


def main():
    ck = Check("C09", "Random histories of error handlers and of several C handles side by side (queries inside, outside, of undecodable data, failing calls, resets, "
               "log files switched off, on, and to other names), followed by a shadow state machine; every observed status, message, log content counts.",
               assumptions=["white space between log entries is not compared", "entries are judged after logging was switched off, redirected or the handle destroyed"])
    ck.map(lambda i: raw(ck, i), range(80 if THOROUGH else 24))
    ck.map(lambda i: handle(ck, i), range(240 if THOROUGH else 48))
    return ck.finish(minimum=1500)
