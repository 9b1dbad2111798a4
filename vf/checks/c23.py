"""C23: command lines of the programs."""
import configparser, filecmp, io, os, re, shutil
import numpy as np
from .. import model as vm, build
from ..run import Check, THOROUGH, VERIF, run_process, crash_kind
from ..work import *
from ..apps import run_app, as_options, replay_files, Ran
from ..create import Setup, write_config

BADNUM = ["abc", "1.0abc", "", " ", "1.0.0", "--5", "nan", "inf", "-inf", "1e999", "1,5,7,9,11", "0x", "one", "1 2", "+-1", "1e", "١"]


class Program:
    """Options of a program: name -> (required, kind). Kinds: models, values, points, output, number, crs, surface, flag ..."""

    def __init__(self, name, options, docs):
        self.name, self.options, self.docs = name, options, docs


PROGRAMS = [
    Program("query", {"values": (True, "values"), "models": (True, "models"), "points": (True, "points"), "output": (True, "output"), "squash-min-elev": (False, "minelev"),
                      "squash-surface": (False, "squash"), "points-coordsys": (False, "crs"), "log": (False, "log")}, "query.md"),
    Program("queryelev", {"models": (True, "models"), "points": (True, "points2"), "output": (True, "output"), "surface": (False, "surface"), "points-coordsys": (False, "crs"), "log": (False, "log")}, None),
    Program("borehole", {"location": (True, "location"), "values": (True, "values"), "models": (True, "models"), "output": (True, "output"), "max-depth": (False, "maxdepth"), "dz": (False, "dz"),
                         "points-coordsys": (False, "crs"), "log": (False, "log")}, "borehole.md"),
    Program("isosurface", {"bbox": (True, "bbox"), "hresolution": (True, "hres"), "isosurface": (True, "iso"), "max-depth": (True, "isodepth"), "models": (True, "models"), "output": (True, "output"),
                           "depth-reference": (False, "reference"), "num-search-points": (False, "nsearch"), "vresolution": (False, "vres"), "prefer-deep": (False, "flag"), "bbox-coordsys": (False, "crs"),
                           "log": (False, "log")}, "isosurface.md"),
    Program("info", {"models": (True, "models"), "verify": (False, "flag"), "description": (False, "flag"), "blocks": (False, "flag"), "coordsys": (False, "flag"), "values": (False, "flag"), "all": (False, "flag")}, "info.md"),
]


class World:
    """A folder with inputs for the programs."""

    def __init__(self, ck, i, rng):
        self.d = ck.ws.folder("w", i)
        self.m = vm.random_model(rng, topo=rng.random() < 0.8, max_blocks=2, style="smooth")
        self.m.write(os.path.join(self.d, "m.h5"))
        self.m2 = vm.random_model(rng, crs=[c[0] for c in vm.CRSES].index(self.m.crs), columns=self.m.columns, max_blocks=2)
        self.m2.write(os.path.join(self.d, "second model.h5"))
        self.crs = self.m.crs if rng.random() < 0.5 else str(rng.choice(self.m.others))
        pts = physical(self.m, model_points(rng, self.m, 5, where=("interior",)), self.crs)
        self.pts = pts
        with open(os.path.join(self.d, "pts 3.txt"), "w") as fo:
            fo.write("".join("%r %r %r\n" % p[1:] for p in pts))
        with open(os.path.join(self.d, "pts2.txt"), "w") as fo:
            fo.write("".join("%r %r\n" % p[1:3] for p in pts))
        with open(os.path.join(self.d, "text.h5"), "w") as fo:
            fo.write("no model\n")
        os.makedirs(os.path.join(self.d, "folder"), exist_ok=True)
        self.rng = rng
        X = [p[1] for p in pts]
        Y = [p[2] for p in pts]
        self.box = [min(X), max(X), min(Y), max(Y)]
        a, b = self.box[1]-self.box[0], self.box[3]-self.box[2]
        # both extents a few pixels
        if a < b/8:
            self.box[1] = self.box[0] + b/8
        if b < a/8:
            self.box[3] = self.box[2] + a/8
        self.hres = min(self.box[1]-self.box[0], self.box[3]-self.box[2])/2.3

    def value(self, kind):
        rng, m = self.rng, self.m
        names = [c[0] for c in m.columns]
        if kind == "values":
            return ",".join(names[int(k)] for k in rng.permutation(len(names))[:int(rng.integers(1, len(names)+1))])
        if kind == "models":
            return str(rng.choice(["m.h5", "m.h5,second model.h5", "second model.h5,m.h5"]))
        if kind == "points":
            return "pts 3.txt"
        if kind == "points2":
            return "pts2.txt"
        if kind == "output":
            return "out"
        if kind == "minelev":
            return str(rng.choice(["-1000.0", "-5e3", "-2.5E+3", "-777"]))
        if kind == "squash":
            return str(rng.choice(["top_surface", "topography_bathymetry", "none"]))
        if kind == "surface":
            return str(rng.choice(["top_surface", "topography_bathymetry"]))
        if kind == "reference":
            return str(rng.choice(["top_surface", "topography_bathymetry"]))
        if kind == "crs":
            return self.crs
        if kind == "log":
            return "log file.txt"
        if kind == "location":
            return "%r,%r" % self.pts[0][1:3]
        if kind == "maxdepth":
            return str(rng.choice(["100", "250.5", "0", "1e2"]))
        if kind == "dz":
            return str(rng.choice(["10", "25.0", "7.5", "1E1"]))
        if kind == "bbox":
            return "%r,%r,%r,%r" % tuple(self.box)
        if kind == "hres":
            # createGeoToXY: geographic systems give latitude first
            return repr(self.hres)
        if kind == "iso":
            return "%s,%r" % (names[0], float(np.median(m.blocks[0].data[..., 0])))
        if kind == "isodepth":
            return str(rng.choice(["500", "1500.0"]))
        if kind == "nsearch":
            return str(rng.choice(["3", "10", "25"]))
        if kind == "vres":
            return str(rng.choice(["10", "25.0"]))
        return None


def required(prog, w, extra=0.4):
    """A valid command line as pairs."""
    out = []
    for o, (req, kind) in prog.options.items():
        if req or kind == "crs" or w.rng.random() < extra:
            out.append((o, w.value(kind)))
    if prog.name == "info" and not any(o != "models" for o, _ in out):
        out.append(("all", None))
    return out


def result(prog, w, ran):
    """What a successful run left: comparable and independent of the order of options."""
    if prog.name == "info":
        return ran.out
    p = os.path.join(w.d, "out")
    if not os.path.exists(p):
        return None
    data = open(p, "rb").read()
    return data if prog.name == "isosurface" else b"\n".join(data.split(b"\n")[1:])  # without the line naming the command


def clean(w):
    for n in ("out", "log file.txt"):
        p = os.path.join(w.d, n)
        if os.path.lexists(p):
            os.unlink(p)


def good(ck, w, prog, i, j):
    pairs = required(prog, w)
    clean(w)
    base = run_app(ck, prog.name, ["--%s=%s" % p if p[1] is not None else "--" + p[0] for p in pairs], w.d)
    files = [os.path.join(w.d, n) for n in ("m.h5", "second model.h5", "pts 3.txt", "pts2.txt")]
    if base.crash or base.rc != 0:
        return replay_files(ck, base, "valid command line refused (%d): %s" % (base.rc, base.err[-300:]), "%s: %s" % (prog.name, base.crash or "valid command line refused"), files)
    first = result(prog, w, base)
    if not first:
        return replay_files(ck, base, "no output", prog.name + ": no output", files)
    for _ in range(3):
        clean(w)
        args = as_options(w.rng, pairs)
        ran = run_app(ck, prog.name, args, w.d)
        if ran.crash or ran.rc != 0 or result(prog, w, ran) != first:
            replay_files(ck, ran, "status %d; other result than %s\n%s" % (ran.rc, base.cmd, ran.err[-300:]), "%s: %s" % (prog.name, ran.crash or "order or form of options matters"), files)
        ck.case((i, prog.name, j, tuple(args)), dict(command=args) if j == 0 else None)
        ck.count("accepted")


def refused(ck, w, prog, i, args, why, late=False):
    """The command has to fail with a message, and to leave the output as it was."""
    clean(w)
    p = os.path.join(w.d, "out")
    there = w.rng.random() < 0.3
    if there:
        with open(p, "w") as fo:
            fo.write("earlier result\n")
    ran = run_app(ck, prog.name, args, w.d)
    kind = re.sub(r"'.*?'|=.*", "", why)
    files = [os.path.join(w.d, n) for n in ("m.h5", "pts 3.txt", "pts2.txt")]
    if ran.crash:
        return replay_files(ck, ran, "abnormal end: " + ran.crash, "%s: %s: %s" % (prog.name, kind, ran.crash), files)
    if ran.rc == 0:
        return replay_files(ck, ran, why + ": succeeds", "%s: %s: succeeds" % (prog.name, kind), files)
    if not (ran.err + ran.out).strip():
        return replay_files(ck, ran, why + ": no message", "%s: %s: no message" % (prog.name, kind), files)
    if late:
        pass  # the mistake is in the points, which are read after the output is opened
    elif there:
        if open(p).read() != "earlier result\n":
            return replay_files(ck, ran, why + ": earlier output is changed", "%s: %s: output changed" % (prog.name, kind), files)
    elif os.path.lexists(p) and os.path.getsize(p) > 0 and open(p, "rb").read(5) != b"":
        return replay_files(ck, ran, why + ": output is left", "%s: %s: output left" % (prog.name, kind), files)
    ck.case((i, prog.name, why, tuple(args)), dict(command=args, message=(ran.err + ran.out)[-80:]) if w.rng.random() < 0.01 else None)
    ck.count("refused")


def bad(ck, w, prog, i):
    rng = w.rng
    base = required(prog, w, 0.3)

    def with_(o, v):
        return [p for p in base if p[0] != o] + [(o, v)]

    def go(pairs, why, late=False):
        refused(ck, w, prog, i, as_options(rng, pairs), why, late)
    # omissions
    for o, (req, kind) in prog.options.items():
        if req:
            go([p for p in base if p[0] != o], "without --" + o)
    reqs = [o for o, (r, k) in prog.options.items() if r]
    if len(reqs) > 2:
        drop = [reqs[int(k)] for k in rng.permutation(len(reqs))[:2]]
        go([p for p in base if p[0] not in drop], "without two options")
    # unknown options, options without value, values for flags
    for u in ("--unknown", "--unknown=1", "-Z", "--%sx" % reqs[0], "--output-file=o"):
        k = int(rng.integers(0, len(base)+1))
        args = as_options(rng, base[:k]) + [u] + as_options(rng, base[k:])
        refused(ck, w, prog, i, args, "unknown option " + re.sub("x?$", "", u))
    o = [o for o, (r, k) in prog.options.items() if k != "flag"][int(rng.integers(0, sum(k != "flag" for r, k in prog.options.values())))]
    refused(ck, w, prog, i, as_options(rng, [p for p in base if p[0] != o]) + ["--" + o], "option without its value")
    for o, (r, k) in prog.options.items():
        if k == "flag" and rng.random() < 0.5:
            refused(ck, w, prog, i, as_options(rng, [p for p in base if p[0] != o]) + ["--%s=1" % o], "value for a flag")
    # values
    numbers = {"minelev": [], "maxdepth": ["-1", "-1e-3", "-1e300"], "dz": ["0", "-1", "-0.0"], "hres": ["0", "-5", "0.0"], "vres": ["0", "-1"], "isodepth": ["0", "-1"],
               "nsearch": ["0", "1", "2", "-3", "2.5", "1e12", "99999999999"]}
    for o, (r, k) in prog.options.items():
        if k in numbers:
            for v in [BADNUM[int(q)] for q in rng.permutation(len(BADNUM))[:5 if not THOROUGH else 20]] + numbers[k]:
                go(with_(o, v), "--%s='%s'" % (o, v))
        elif k in ("location", "bbox"):
            n = 2 if k == "location" else 4
            good_ = w.value(k).split(",")
            cases = [",".join(good_[:n-1]), ",".join(good_[:1]), "", ",".join(good_ + ["5"]), ",".join(good_).replace(",", " "), ",".join(good_).replace(",", ";")]
            for _ in range(4):
                c = list(good_)
                c[int(rng.integers(0, n))] = str(rng.choice(["abc", "", "1x", "nan", "inf", "1 2"]))
                cases.append(",".join(c))
            if k == "bbox":
                cases += [",".join([good_[1], good_[0], good_[2], good_[3]]), ",".join([good_[0], good_[1], good_[3], good_[2]])]
            for v in cases:
                go(with_(o, v), "--%s='%s'" % (o, v))
        elif k == "iso":
            nm, val = w.value(k).split(",")
            for v in (nm, nm + ",", nm + ",abc", nm + "," + val + ",1", "," + val, nm + "," + val + "x", nm + ",nan", "no_such_value," + val, ""):
                go(with_(o, v), "--%s='%s'" % (o, v))
        elif k == "values":
            for v in ("no_such_value", w.value(k) + ",no_such_value", "", ",", w.value(k).replace(",", ";") + ";"):
                go(with_(o, v), "--%s='%s'" % (o, v))
        elif k == "models":
            for v in ("missing.h5", "text.h5", "folder", "", "m.h5,missing.h5", "missing.h5,m.h5", "m.h5;second model.h5", ","):
                if prog.name == "info" and "," not in v and v:
                    continue  # reported per model
                go(with_(o, v), "--%s='%s'" % (o, v))
        elif k in ("points", "points2"):
            for v in ("missing.txt", "folder", ""):
                go(with_(o, v), "--%s='%s'" % (o, v), v == "folder")
        elif k == "output":
            for v in ("nowhere/out", "folder", "", "m.h5/out"):
                go(with_(o, v), "--%s='%s'" % (o, v))
            if prog.name != "isosurface":
                go(with_(o, "/dev/full"), "--output to a full device")
                if "max-depth" in prog.options:  # less than the buffer of the stream, and more
                    for depth in ("100", "20000"):
                        go([p for p in with_(o, "/dev/full") if p[0] not in ("max-depth", "dz")] + [("max-depth", depth)], "--output to a full device, depth " + depth)
        elif k == "crs":
            for v in ("no system", "", "EPSG:999999", "+proj=nothing"):
                go(with_(o, v), "--%s='%s'" % (o, v))
        elif k in ("squash", "surface", "reference"):
            for v in ("bottom", "", "top", "top_surface ", "topography"):
                go(with_(o, v), "--%s='%s'" % (o, v))


def helps(ck, w, prog, i):
    rng = w.rng
    ways = [["--help"], [], ["--help"] + as_options(rng, required(prog, w)), as_options(rng, required(prog, w)) + ["--help"], ["-h"]]
    text = None
    for args in ways:
        clean(w)
        ran = run_app(ck, prog.name, args, w.d)
        if ran.crash or ran.rc != 0:
            replay_files(ck, ran, "status %d: %s" % (ran.rc, ran.err[-300:]), "%s: help fails" % prog.name)
            continue
        text = text or ran.out
        if ran.out != text or "Usage" not in ran.out:
            replay_files(ck, ran, ran.out[:300], "%s: help differs" % prog.name)
        if os.path.exists(os.path.join(w.d, "out")):
            replay_files(ck, ran, "writes output when asked for help", "%s: help writes output" % prog.name)
        for o in list(prog.options) + ["help"]:
            if "--" + o not in ran.out:
                replay_files(ck, ran, "--%s is not described" % o, "%s: usage lacks an option" % prog.name)
        ck.case((prog.name, i, tuple(args)), None)
        ck.count("helps")


def create(ck, pkg, i):
    """The application creating models, as a process."""
    rng = rng_for("C23", "create", i)
    S = Setup(rng, variable=0.3)
    d = os.path.dirname(ck.ws.path("cr%d" % i, "x"))
    sec = S.config(None, "m.h5")
    sec["geomodelgrids"]["comment"] = str(rng.choice(["100% sure", "50%(off)", "plain", "a = b: c", "first\n    second", "UPPER Case %d"]))
    names = ["a.cfg", "B.cfg"][:int(rng.integers(1, 3))]
    write_config(rng, sec, d, names)
    app = os.path.join(pkg, "geomodelgrids_create_model")
    env = dict(build.ENV, PYTHONPATH=pkg + ":" + os.path.join(VERIF, "harness"))

    def run(args):
        cmd = ["/usr/bin/python3", app] + args
        return Ran(cmd, *run_process(cmd, cwd=d, env=env))

    files = [os.path.join(d, n) for n in names]

    def expect(args, ok, why, made=None):
        p = os.path.join(d, "m.h5")
        if os.path.exists(p):
            os.unlink(p)
        ran = run(args)
        if ran.timed_out or ran.rc < 0 or ran.rc > 100:
            replay_files(ck, ran, why, "create_model: abnormal end", files)
        elif (ran.rc == 0) != ok:
            replay_files(ck, ran, "%s: status %d\n%s" % (why, ran.rc, ran.err[-1500:]), "create_model: %s: %s" % (why, "refused" if ok else "succeeds"), files)
        elif not ok and not ran.err.strip():
            replay_files(ck, ran, why, "create_model: no message", files)
        elif made is not None and os.path.exists(p) != made:
            replay_files(ck, ran, "%s: model %s" % (why, "missing" if made else "written"), "create_model: %s: model %s" % (why, "missing" if made else "written"), files)
        ck.case(("create", i, tuple(args)), None)
        ck.count("create_runs")
        return ran
    c = ",".join(names)
    forms = [["--config=" + c], ["--config", c]]
    import hashlib, h5py
    expect(["--help"], True, "help", False)
    expect(["--config=" + c, "--help"], True, "help", False)
    expect([], False, "without options", False)
    expect(["--all"], False, "without --config", False)
    expect(["--config=" + c, "--unknown"], False, "unknown option", False)
    expect(["--config"], False, "option without its value", False)
    expect(["--config=missing.cfg", "--all"], False, "missing file", False)
    expect(["--config=" + c + ",missing.cfg", "--all"], False, "missing file", False)
    digest = None
    for k in range(4):
        args = forms[k % 2] + ["--all"] + [["--quiet"], ["--debug"], ["--log=my.log"], ["--log", "my.log"]][k]
        args = args if k % 2 else args[-1:] + args[:-1] if k != 3 else args
        ran = expect(args, True, "creation", True)
        if os.path.exists(os.path.join(d, "m.h5")):
            with h5py.File(os.path.join(d, "m.h5"), "r") as h:
                got = []
                h.visititems(lambda n, o: got.append((n, hashlib.blake2b(o[()].tobytes()).hexdigest() if isinstance(o, h5py.Dataset) else None, sorted((k2, repr(v)) for k2, v in o.attrs.items()))))
                got.append(sorted((k2, repr(v)) for k2, v in h.attrs.items()))
            if digest is not None and got != digest:
                replay_files(ck, ran, "another model", "create_model: form of options matters", files)
            digest = got
    ran = expect(["--config=" + c, "--show-parameters"], True, "showing parameters", False)
    if ran.rc == 0:
        P = configparser.RawConfigParser()
        P.optionxform = str
        try:
            P.read_string(ran.out)
            for s, kv in sec.items():
                for k, v in kv.items():
                    want = re.sub(r"\n[ \t]+", "\n", v)
                    got = P[s].get(k) if P.has_section(s) else None
                    if got is None or got != want:
                        replay_files(ck, ran, "[%s] %s is shown as %r, configured %r" % (s, k, got, want), "create_model: parameters shown differ", files)
                        break
            ck.count("parameters_shown")
        except configparser.Error as e:
            replay_files(ck, ran, str(e), "create_model: parameters cannot be read back", files)
    for s, k, v in (("coordsys", "origin_x", "east"), ("domain", "dim_y", ""), ("domain", "batch_size", "many"), (S.blocks[0][0], "z_top_offset", "x"), ("geomodelgrids", "data_source", "no.such.Source"),
                    ("geomodelgrids", "filename", "nowhere/m.h5"), ("data", "layout", "cell"), ("domain", "blocks", "[none]"), (S.blocks[0][0], "chunk_size", "(1, 2, 3, b)")):
        with open(os.path.join(d, "over.cfg"), "w") as fo:
            fo.write("[%s]\n%s = %s\n" % (s, k, v))
        ran = expect(["--config=" + c + ",over.cfg", "--all"], False, "unusable " + k)
    for s in ("coordsys", "data", "domain", "geomodelgrids", S.blocks[0][0]):
        part = {k: v for k, v in sec.items() if k != s}
        write_config(rng, part, d, ["part.cfg"])
        expect(["--config=part.cfg", "--all"], False, "missing section")


def main():
    ck = Check("C23", "Generated command lines of every program: valid ones in different orders and forms must give the same result, each single mistake (omission, unknown option, malformed or out-of-range value, "
               "unusable file, directory or name) must be refused with a message and without output; help; the application creating models as a process.",
               programs=("driver", "info", "query", "queryelev", "borehole", "isosurface"))
    pkg = os.path.dirname(ck.ws.path("pkg", "x"))
    build.stage_python(pkg)

    def one(i, prog):
        w = World(ck, i*10 + PROGRAMS.index(prog), rng_for("C23", i, prog.name))
        helps(ck, w, prog, i)
        for j in range(4):
            good(ck, w, prog, i, j)
        bad(ck, w, prog, i)
    n = 12 if THOROUGH else 2
    jobs = [lambda i=i, p=p: one(i, p) for i in range(n) for p in PROGRAMS] + [lambda i=i: create(ck, pkg, i) for i in range(24 if THOROUGH else 4)]
    ck.map(lambda j: j(), jobs)
    return ck.finish(minimum=300)
