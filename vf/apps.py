"""Running the programs of the tree (instrumented) and reading what they wrote."""
import os
from .run import run_process, crash_kind, enc, f


class Ran:
    def __init__(self, cmd, out, err, rc, timed_out):
        self.cmd, self.out, self.err, self.rc, self.timed_out = cmd, out, err, rc, timed_out
        self.crash = None
        if timed_out:
            self.crash = "no result within the generous limit, twice"
        elif rc < 0 or rc == 99 or rc > 100 or "Sanitizer" in err or "runtime error:" in err:
            self.crash = crash_kind(err, rc)


def run_app(ck, name, args, cwd, timeout=240, env=None):
    cmd = [ck.build[name]] + list(args)
    return Ran(cmd, *run_process(cmd, cwd=cwd, timeout=timeout, env=env))


def table(path):
    """(comment lines, rows of numbers as text); None if the file does not exist."""
    if not os.path.exists(path):
        return None
    with open(path, encoding="utf-8", errors="surrogateescape") as fi:
        text = fi.read()
    lines = text.split("\n")
    return [ln for ln in lines if ln.startswith("#")], [ln.split() for ln in lines if ln.strip() and not ln.startswith("#")], text


def seven(text, value):
    """Does the text give the value to seven significant digits?"""
    try:
        v = float(text)
    except ValueError:
        return False
    return abs(v - value) <= 1.01e-6*abs(value) + 1e-300 or v == value


def as_options(rng, pairs):
    """Options in random order and either form."""
    out = []
    for k in rng.permutation(len(pairs)):
        o, v = pairs[int(k)]
        if v is None:
            out.append("--" + o)
        elif rng.random() < 0.6:
            out.append("--%s=%s" % (o, v))
        else:
            out += ["--" + o, v]
    return out


def replay_files(ck, ran, text, key, files=()):
    ck.violation(key, text + "\n" + " ".join(ran.cmd), None, files, extra=ran.err[-4000:] + ran.out[-2000:])
