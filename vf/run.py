"""Running the real code, judging its traces and reporting."""
import concurrent.futures, errno, hashlib, json, os, shutil, signal, subprocess, sys, tempfile, threading, time, traceback
from . import build
from .build import ENV, VERIF, REPO

SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"


class CheckError(Exception):
    """The machinery itself failed: no verdict."""


def enc(s):
    out = ["'"]
    for c in s.encode("utf-8", "surrogateescape"):
        out.append(chr(c) if 32 < c < 127 and c != 37 else "%%%02x" % c)
    return "".join(out)


def dec(t):
    if t == "NULL":
        return None
    b, i, t = bytearray(), 1, t
    while i < len(t):
        if t[i] == "%":
            b.append(int(t[i+1:i+3], 16))
            i += 3
        else:
            b.append(ord(t[i]))
            i += 1
    return b.decode("utf-8", "surrogateescape")


def f(v):
    return "%.17g" % v


class Event:
    __slots__ = ("ok", "kind", "args")

    def __init__(self, tokens):
        self.ok = tokens[0] == "OK"
        if self.ok:
            self.kind, self.args = None, tokens[1:]
        else:
            self.kind, self.args = tokens[1], dec(tokens[2]) if len(tokens) > 2 else ""

    def floats(self, start=0):
        return [float(t) for t in self.args[start:]]


class Trace:
    """Events of one driver process. `crash` describes an abnormal end (and the operation in progress)."""

    def __init__(self, ops, out, err, rc, timed_out):
        self.ops, self.err, self.rc, self.timed_out = ops, err, rc, timed_out
        self.events, self.crash, self.ended = [], None, False
        lines = out.split("\n")
        for ln in lines:
            t = ln.split()
            if len(t) >= 2 and t[0].isdigit() and t[1] in ("OK", "EXC"):
                self.events.append(Event(t[1:]))
            elif t and t[0] == "END":
                self.ended = True
        if rc == 97:
            raise CheckError("driver misuse: " + err[-2000:])
        if timed_out:
            self.crash = "timeout"
        elif rc != 0 or not self.ended:
            self.crash = crash_kind(err, rc)
        self.crash_op = ops[len(self.events)] if (self.crash and len(self.events) < len(ops)) else None


def crash_kind(err, rc):
    import re
    for ln in err.splitlines():
        if "Assertion" in ln:
            m = re.search(r"Assertion [`'](.*)' failed", ln)
            fn = re.search(r":(\d+): (.*): Assertion", ln)
            return "assertion: " + (m.group(1)[:100] if m else ln[-160:]) + (" in " + fn.group(2)[-90:] if fn else "")
        if "runtime error:" in ln:
            return "undefined behaviour: " + ln.split("runtime error:")[1].strip()[:160]
        if "ERROR: AddressSanitizer" in ln or "ERROR: LeakSanitizer" in ln:
            m = re.search(r"Sanitizer: ([\w-]+)", ln)
            where = re.search(r"#\d+ 0x[0-9a-f]+ in (geomodelgrids::[^\s(]+)", err)
            return "memory error: " + (m.group(1) if m else ln) + (" in " + where.group(1) if where else "")
        if "terminate called" in ln:
            return "uncaught exception: " + err.strip()[-200:]
    return "exit status %d %s" % (rc, err.strip()[-200:])


class Workspace:
    def __init__(self, prop):
        self.dir = tempfile.mkdtemp(prefix="vf-%s-" % prop, dir=os.environ.get("VF_TMP", "/tmp"))

    def path(self, *p):
        q = os.path.join(self.dir, *p)
        os.makedirs(os.path.dirname(q), exist_ok=True)
        return q

    def folder(self, kind, i):
        """A directory of its own for a case; its path is now and then very long or has characters out of the ordinary."""
        more = {2: ("d"*180, "e"*150), 3: ("a b", "\u00e9=+#"), 5: ("x"*60,)}.get(i % 7 if isinstance(i, int) else 0, ())
        q = os.path.join(self.dir, "%s%s" % (kind, i), *more)
        os.makedirs(q, exist_ok=True)
        return q

    def cleanup(self):
        if self.dir.startswith("/tmp/vf-") or "VF_TMP" in os.environ:
            shutil.rmtree(self.dir, ignore_errors=True)


def run_process(cmd, stdin=None, cwd=None, env=None, timeout=300):
    """(stdout, stderr, returncode, timed_out); a timed-out process is run once more with more time."""
    for attempt, limit in enumerate((timeout, 2*timeout)):
        p = subprocess.Popen(cmd, stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL, stdout=subprocess.PIPE,
                             stderr=subprocess.PIPE, cwd=cwd, env=env or ENV, start_new_session=True)
        try:
            out, err = p.communicate(stdin.encode() if isinstance(stdin, str) else stdin, timeout=limit)
            return out.decode("utf-8", "surrogateescape"), err.decode("utf-8", "surrogateescape"), p.returncode, False
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            out, err = p.communicate()
    return out.decode("utf-8", "surrogateescape"), err.decode("utf-8", "surrogateescape"), p.returncode, True


class Check:
    """One run of the check of one property."""

    def __init__(self, prop, level_rule, programs=("driver",), assumptions=()):
        self.prop, self.rule = prop, level_rule
        self.t0 = time.time()
        self.ws = Workspace(prop)
        try:
            self.build = build.Build("asan", programs) if programs else None
        except build.BuildError as e:
            raise CheckError(str(e))
        self.lock = threading.Lock()
        self.violations = []  # (key, text, replay dir)
        self.known_hits = {}
        self.known = load_known(prop)
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.extra = {}
        self.assumptions = list(assumptions)

    # -- counting --------------------------------------------------------------------------------
    def case(self, identity, sample=None, n=1):
        """Counts one judged case; `identity` None for a trivial one."""
        self.evaluations += n
        if identity is not None:
            self.distinct.add(hashlib.blake2b(repr(identity).encode(), digest_size=8).digest())
        if sample is not None and len(self.samples) < 6:
            self.samples.append(sample)

    def count(self, key, n=1):
        self.extra[key] = self.extra.get(key, 0) + n

    # -- execution -------------------------------------------------------------------------------
    def drive(self, ops, timeout=300, env=None, cwd=None):
        out, err, rc, to = run_process([self.build["driver"]], stdin="\n".join(ops) + "\n", timeout=timeout, env=env, cwd=cwd)
        return Trace(ops, out, err, rc, to)

    def map(self, fn, items, workers=8):
        def guarded(item):
            try:
                return fn(item)
            except (CheckError, MemoryError):
                raise
            except Exception as e:
                if getattr(e, "errno", None) in (errno.ENOSPC, errno.ENOMEM, errno.EMFILE, errno.EAGAIN):
                    raise
                # what the code under test left behind is not what the oracle can read: that is an outcome too
                self.violation("outcome the oracle cannot interpret: " + type(e).__name__, "%s: %s" % (type(e).__name__, str(e)[:400]), None, extra=traceback.format_exc())
        with concurrent.futures.ThreadPoolExecutor(workers) as ex:
            return list(ex.map(guarded, items))

    # -- verdicts --------------------------------------------------------------------------------
    def violation(self, key, text, ops=None, files=(), extra=None):
        """Reports a violation unless the known-findings file lists `key`."""
        with self.lock:
            self._violation(key, text, ops, files, extra)

    def _violation(self, key, text, ops, files, extra):
        for k in self.known:
            if k["match"] in key:
                self.known_hits.setdefault(k["match"], (k, text))
                return
        if any(v[0] == key for v in self.violations) or len(self.violations) >= 20:
            return
        d = os.path.join(VERIF, "replay", "%s-%d" % (self.prop, len(self.violations)))
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        script = "\n".join(ops) + "\n" if ops else ""
        for p in files:
            if p and os.path.exists(p):
                shutil.copy(p, d)
                script = script.replace(os.path.dirname(p) + "/", "./")
        with open(os.path.join(d, "README"), "w") as fo:
            fo.write("property %s seed %d tier %s\n%s\n%s\nReplay: run the instrumented driver (python3 -m vf.replay %s) here on script.txt\n"
                     % (self.prop, SEED, TIER, key, text, d))
        if script:
            with open(os.path.join(d, "script.txt"), "w") as fo:
                fo.write(script)
        if extra:
            with open(os.path.join(d, "detail.txt"), "w") as fo:
                fo.write(extra)
        self.violations.append((key, text, d))
        print("  violation [%s]: %s" % (key, text[:600]), flush=True)

    def crash(self, trace, context, files=()):
        """Verdict on an abnormal end of the driver; returns True if there was one."""
        if not trace.crash:
            return False
        op = (trace.crash_op or "end of process").split()[0]
        if trace.crash == "timeout":
            self.violation("hang in %s (%s)" % (op, context), "no result within the generous limit, twice", trace.ops, files, trace.err)
        else:
            self.violation("%s: %s: %s" % (context, op, trace.crash), "abnormal end during: %s" % (trace.crash_op or "")[:300], trace.ops, files, trace.err[-6000:])
        return True

    def finish(self, minimum=1):
        wall = time.time() - self.t0
        self.ws.cleanup()
        for m, (k, text) in sorted(self.known_hits.items()):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        if not self.violations and len(self.distinct) < minimum:
            raise CheckError("only %d distinct non-trivial cases observed (expected at least %d)" % (len(self.distinct), minimum))
        cov = dict(evaluations=self.evaluations, distinct_nontrivial=len(self.distinct), rule=self.rule, samples=self.samples or ["none"])
        cov.update(self.extra)
        ev = dict(property=self.prop, tier="thorough" if THOROUGH else "quick", seed=SEED, level="exploration", coverage=cov,
                  assumptions=self.assumptions, wall_s=round(wall, 2), violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as fo:
            json.dump(ev, fo, indent=1, default=str)
        for key, text, d in self.violations:
            print("VIOLATION property=%s replay=%s" % (self.prop, os.path.relpath(d, VERIF)))
        print("%s: %d evaluations, %d distinct, %d violations, %.1f s" % (self.prop, self.evaluations, len(self.distinct), len(self.violations), wall))
        return 1 if self.violations else 0


def load_known(prop):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as fi:
        return [k for k in json.load(fi)["known"] if k["property"] == prop]


def py_drive(pkgdir, ops, timeout=300):
    """Runs operations over the Python interface; (events, crash). Events: ("OK", value) or ("EXC", [type, message])."""
    env = dict(ENV, PYTHONPATH=pkgdir)
    out, err, rc, to = run_process(["/usr/bin/python3", os.path.join(VERIF, "harness", "pydrive.py")],
                                   stdin="".join(json.dumps(o) + "\n" for o in ops), env=env, timeout=timeout)
    ev = []
    ended = False
    for ln in out.splitlines():
        if ln.startswith("OK ") or ln.startswith("EXC "):
            k, v = ln.split(" ", 1)
            ev.append((k, json.loads(v)))
        elif ln == "END":
            ended = True
    crash = None
    if to:
        crash = "timeout"
    elif not ended:
        crash = crash_kind(err, rc)
        if "ModuleNotFoundError" in err or "ImportError" in err or "unknown operation" in err:
            raise CheckError("python driver: " + err[-1500:])
    return ev, crash, err
