"""Builds instrumented binaries from /repo's current working tree (never from its build products).

Objects are cached in /verif/build (ignored by git), keyed by a digest of the compiler flags and of every
file that can take part in the compilation, so that nothing stale is ever used.
"""
import concurrent.futures, fcntl, glob, hashlib, os, shutil, subprocess, sys, sysconfig

REPO = os.environ.get("VF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("VF_BUILD", os.path.join(VERIF, "build"))
HARNESS = os.path.join(VERIF, "harness")

COMMON = ["-std=c++14", "-g1", "-DWITH_GDAL", "-I" + HARNESS, "-I" + os.path.join(REPO, "libsrc"),
          "-I/usr/include/hdf5/serial", "-I/usr/include/gdal", "-D_GLIBCXX_ASSERTIONS", "-Wno-ignored-qualifiers", "-w"]
SAN = ["-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
LIBS = ["-L/usr/lib/x86_64-linux-gnu/hdf5/serial", "-lhdf5", "-lproj", "-lgdal", "-lpthread"]
VARIANTS = {
    "asan": dict(cxx="g++", flags=["-O1"] + SAN, link=SAN),
    "plain": dict(cxx="g++", flags=["-O1", "-fPIC"], link=[]),
}


class BuildError(Exception):
    pass


def tree_digest():
    """Digest of all C/C++ sources and headers of the tree and of the harness."""
    h = hashlib.sha256()
    roots = [os.path.join(REPO, d) for d in ("libsrc", "bin", "modulesrc")] + [HARNESS]
    for root in roots:
        for d, dirs, files in sorted(os.walk(root)):
            dirs.sort()
            for f in sorted(files):
                if f.endswith((".cc", ".hh", ".h", ".c", ".icc")) or "." not in f:
                    p = os.path.join(d, f)
                    h.update(p.encode() + b"\0")
                    with open(p, "rb") as fin:
                        h.update(hashlib.sha256(fin.read()).digest())
    h.update(repr((COMMON, VARIANTS, LIBS)).encode())
    return h.hexdigest()[:20]


def _run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-4000:]))


def lib_sources():
    return sorted(glob.glob(os.path.join(REPO, "libsrc", "geomodelgrids", "**", "*.cc"), recursive=True))


def _digest_of(src, flags, headers):
    h = hashlib.sha256()
    h.update(repr(flags).encode())
    h.update(headers)
    with open(src, "rb") as f:
        h.update(f.read())
    h.update(src.encode())
    return h.hexdigest()[:24]


def _headers_digest():
    h = hashlib.sha256()
    for root in (os.path.join(REPO, "libsrc"), HARNESS):
        for d, dirs, files in sorted(os.walk(root)):
            dirs.sort()
            for f in sorted(files):
                if f.endswith((".hh", ".h", ".icc")) or f == "portinfo":
                    with open(os.path.join(d, f), "rb") as fin:
                        h.update(f.encode() + hashlib.sha256(fin.read()).digest())
    return h.digest()


class Build:
    """Binaries of one variant."""

    def __init__(self, variant="asan", programs=("driver",), module=False):
        self.variant = variant
        self.dir = None
        self.paths = {}
        self._build(variant, programs, module)

    def _build(self, variant, programs, module):
        v = VARIANTS[variant]
        headers = _headers_digest()
        objdir = os.path.join(BUILD, "obj")
        os.makedirs(objdir, exist_ok=True)
        with open(os.path.join(BUILD, ".lock"), "w") as lock:
            fcntl.flock(lock, fcntl.LOCK_EX)
            flags = COMMON + v["flags"]
            jobs = {}

            def obj(src, extra=()):
                fl = flags + list(extra)
                o = os.path.join(objdir, _digest_of(src, fl, headers) + ".o")
                if not os.path.exists(o):
                    jobs[o] = [v["cxx"]] + fl + ["-c", src, "-o", o + ".tmp"]
                return o

            libobjs = [obj(s) for s in lib_sources()]
            links = {}
            for prog in programs:
                src = os.path.join(HARNESS, prog + ".cc") if prog in ("driver",) else os.path.join(REPO, "bin", prog + ".cc")
                links[prog] = ([obj(src)], [])
            if module:
                import pybind11
                ext = ["-fPIC", "-I" + pybind11.get_include(), "-I" + sysconfig.get_paths()["include"], "-fvisibility=hidden"]
                import numpy
                ext.append("-I" + numpy.get_include())
                links["_geomodelgrids.so"] = ([obj(s, ext) for s in sorted(glob.glob(os.path.join(REPO, "modulesrc", "*.cc")))], ["-shared"])

            def compile_one(item):
                o, cmd = item
                _run(cmd)
                os.rename(o + ".tmp", o)
            if jobs:
                with concurrent.futures.ThreadPoolExecutor(8) as ex:
                    list(ex.map(compile_one, jobs.items()))

            def link_one(item):
                name, (objs, extra) = item
                key = hashlib.sha256(repr((objs, libobjs, v["link"], extra, LIBS)).encode()).hexdigest()[:16]
                d = os.path.join(BUILD, "bin", variant + "-" + key)
                out = os.path.join(d, name)
                if not os.path.exists(out):
                    os.makedirs(d, exist_ok=True)
                    # executables override pread: exported so that libhdf5 finds it first
                    _run([v["cxx"]] + v["link"] + extra + ([] if extra else ["-rdynamic"]) + objs + libobjs + LIBS + ["-o", out + ".tmp"])
                    os.rename(out + ".tmp", out)
                self.paths[name] = out
            with concurrent.futures.ThreadPoolExecutor(8) as ex:
                list(ex.map(link_one, links.items()))

    def __getitem__(self, name):
        return self.paths[name]


def stage_python(dest):
    """Copy of the Python package of the tree with the extension built from it."""
    b = Build("plain", programs=(), module=True)
    pkg = os.path.join(dest, "geomodelgrids")
    shutil.copytree(os.path.join(REPO, "geomodelgrids"), pkg, ignore=shutil.ignore_patterns("__pycache__", "*.am", "*.in"))
    shutil.copy(b["_geomodelgrids.so"], pkg)
    shutil.copy(os.path.join(REPO, "bin", "geomodelgrids_create_model"), dest)
    return dest


PROGRAMS = ("info", "query", "queryelev", "borehole", "isosurface")
ENV = dict(os.environ, LC_ALL="C.UTF-8", TZ="UTC", PROJ_NETWORK="OFF", PYTHONDONTWRITEBYTECODE="1",
           ASAN_OPTIONS="abort_on_error=0:exitcode=99:detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=4096",
           UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=99")

ENV.pop("HDF5_USE_FILE_LOCKING", None)

if __name__ == "__main__":
    import time
    t = time.time()
    b = Build("asan", ("driver",) + PROGRAMS)
    print(b.paths, time.time() - t)
    t = time.time()
    b = Build("plain", (), module=True)
    print(b.paths, time.time() - t)
