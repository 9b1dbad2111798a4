"""C13: a damaged or inconsistent model file is refused, never misread."""
import os, shutil
import numpy as np
from .. import model as vm
from ..run import Check, THOROUGH, f, enc, dec, run_process, ENV
from ..work import *
from ..apps import *

TEXT = ["title", "id", "description", "history", "comment", "creator_name", "creator_email", "creator_institution", "acknowledgement",
        "repository_name", "repository_url", "repository_doi", "version", "license", "data_layout", "crs"]
LISTS = ["keywords", "authors", "references", "data_values", "data_units"]
NUMS = ["dim_x", "dim_y", "dim_z", "origin_x", "origin_y", "y_azimuth"]


def setattr_(o, name, value, **kw):
    if name in o.attrs:
        del o.attrs[name]
    o.attrs.create(name, value, **kw)


def redo(h, path, data, attrs=None):
    """Replaces a dataset, keeping its attributes."""
    old = {k: h[path].attrs[k] for k in h[path].attrs} if attrs is None else attrs
    del h[path]
    ds = h.create_dataset(path, data=data)
    for k, v in old.items():
        ds.attrs[k] = v
    return ds


def mutations(m, rng):
    """(name, what must happen, word of the message, function of the open file)."""
    import h5py
    out = []

    def add(name, expect, word, fn):
        out.append((name, expect, word, fn))
    for a in TEXT + LISTS + NUMS:
        add("missing " + a, "refuse", a, lambda h, a=a: h.attrs.__delitem__(a))
    for a in TEXT:
        add("number for text " + a, "refuse", a, lambda h, a=a: setattr_(h, a, 3.5))
        add("list for text " + a, "refuse", a, lambda h, a=a: setattr_(h, a, ["a", "b"], dtype=h5py.string_dtype()))
        add("empty for text " + a, "refuse", a, lambda h, a=a: setattr_(h, a, h5py.Empty("f8")))
    for a in LISTS:
        add("numbers for list " + a, "refuse", a, lambda h, a=a: setattr_(h, a, [1.0, 2.0]))
        add("table for list " + a, "refuse", a, lambda h, a=a: setattr_(h, a, np.array([["a", "b"], ["c", "d"]], dtype=object), dtype=h5py.string_dtype()))
        add("scalar for list " + a, "refuse", a, lambda h, a=a: setattr_(h, a, "text"))
    for a in NUMS:
        add("text for number " + a, "refuse", a, lambda h, a=a: setattr_(h, a, "12.5"))
        add("vector for number " + a, "refuse", a, lambda h, a=a: setattr_(h, a, [1.0, 2.0]))
        add("fixed text for number " + a, "refuse", a, lambda h, a=a: setattr_(h, a, np.bytes_("10")))
        add("empty for number " + a, "refuse", a, lambda h, a=a: setattr_(h, a, h5py.Empty("f8")))
        for v in (np.nan, np.inf, -np.inf, 0.0, -1.0, 1e308):
            add("%s is %g" % (a, v), "any", "", lambda h, a=a, v=v: setattr_(h, a, v))
    add("layout cell", "refuse", "layout", lambda h: setattr_(h, "data_layout", "cell"))
    add("layout empty", "refuse", "", lambda h: setattr_(h, "data_layout", ""))
    for c in ("", "nonsense", "EPSG:0", "EPSG:4326:7", "{", "+proj=unknown", "A"*5000):
        add("crs %s" % c[:12], "refuse", "", lambda h, c=c: setattr_(h, "crs", c))
    n = len(m.columns)
    names = [c[0] for c in m.columns]
    add("one name too many", "refuse", "", lambda h: setattr_(h, "data_values", names + ["extra"]))
    add("one unit too many", "refuse", "unit", lambda h: setattr_(h, "data_units", ["m"]*(n+1)))
    if n > 1:
        add("one name too few", "refuse", "", lambda h: setattr_(h, "data_values", names[:-1]))
        add("one unit too few", "refuse", "unit", lambda h: setattr_(h, "data_units", ["m"]*(n-1)))
    add("no names", "refuse", "", lambda h: setattr_(h, "data_values", np.array([], dtype="S1")))
    add("no units", "refuse", "", lambda h: setattr_(h, "data_units", np.array([], dtype="S1")))

    def both(fn):
        return fn
    objs = ["blocks/" + b.name for b in m.blocks]
    surfs = [s for s, v in (("surfaces/top_surface", m.top), ("surfaces/topography_bathymetry", m.topo)) if v is not None]
    add("no blocks group", "refuse", "blocks", lambda h: h.__delitem__("blocks"))

    def emptyblocks(h):
        del h["blocks"]
        h.create_group("blocks")
    add("empty blocks group", "any", "", emptyblocks)

    def blocksds(h):
        del h["blocks"]
        h["blocks"] = np.zeros((2, 2, 2, n))
    add("dataset for the blocks group", "refuse", "blocks", blocksds)

    def dangling(h, p):
        del h[p]
        h[p] = h5py.SoftLink("/nowhere")

    def external(h, p):
        del h[p]
        h[p] = h5py.ExternalLink("not-there.h5", "/x")

    def cyclic(h, p):
        del h[p]
        h[p] = h5py.SoftLink("/" + p)

    def group(h, p):
        del h[p]
        h.create_group(p)

    def datatype(h, p):
        del h[p]
        h[p] = np.dtype("f8")
    for p in objs + surfs + (["surfaces"] if surfs else []):
        add("dangling link " + p, "refuse", "", lambda h, p=p: dangling(h, p))
        add("external link to nothing " + p, "refuse", "", lambda h, p=p: external(h, p))
        add("link to itself " + p, "refuse", "", lambda h, p=p: cyclic(h, p))
        add("type in place of " + p, "refuse", "", lambda h, p=p: datatype(h, p))
        if p != "surfaces":
            add("group in place of " + p, "refuse", "", lambda h, p=p: group(h, p))
        else:
            def sds(h):
                del h["surfaces"]
                h["surfaces"] = np.zeros((2, 2, 1))
            add("dataset in place of surfaces", "refuse", "", sds)
    for p in objs + surfs:
        blk = p.startswith("blocks")
        last = n if blk else 1
        obj = next(b for b in m.blocks if "blocks/" + b.name == p) if blk else (m.top if "top_s" in p else m.topo)
        axes = [("x", obj.x), ("y", obj.y)] + ([("z", obj.z)] if blk else [])
        for nm, ax in axes:
            at = nm + ("_resolution" if ax.coords is None else "_coordinates")
            add("missing %s %s" % (p, at), "refuse", at, lambda h, p=p, at=at: h[p].attrs.__delitem__(at))
            add("text for %s %s" % (p, at), "refuse", at, lambda h, p=p, at=at: setattr_(h[p], at, "10.0"))
            add("empty %s %s" % (p, at), "refuse", at, lambda h, p=p, at=at: setattr_(h[p], at, h5py.Empty("f8")))
            add("table for %s %s" % (p, at), "refuse", at, lambda h, p=p, at=at: setattr_(h[p], at, [[1.0, 2.0], [3.0, 4.0]]))
            if ax.coords is None:
                add("vector for %s %s" % (p, at), "refuse", at, lambda h, p=p, at=at: setattr_(h[p], at, [1.0, 2.0]))
                for v in (np.nan, np.inf, 0.0, -100.0, 1e-300, 1e300):
                    add("%s %s is %g" % (p, at, v), "any", "", lambda h, p=p, at=at, v=v: setattr_(h[p], at, v))
            else:
                c = ax.coords
                add("too few %s %s" % (p, at), "refuse", "coordinates", lambda h, p=p, at=at, c=c: setattr_(h[p], at, c[:-1]))
                add("too many %s %s" % (p, at), "refuse", "coordinates", lambda h, p=p, at=at, c=c: setattr_(h[p], at, np.append(c, c[-1]*2 - c[-2])))
                add("no %s %s" % (p, at), "refuse", "coordinates", lambda h, p=p, at=at: setattr_(h[p], at, np.array([])))
                add("scalar for %s %s" % (p, at), "refuse", "coordinates", lambda h, p=p, at=at: setattr_(h[p], at, 3.0))
                for v in (np.nan, np.inf, -np.inf):
                    def nonfinite(h, p=p, at=at, c=c, v=v):
                        d = np.array(c)
                        d[len(d)//2] = v
                        setattr_(h[p], at, d)
                    add("%s in %s %s" % (v, p, at), "refuse", "finite", nonfinite)

                def dup(h, p=p, at=at, c=c):
                    d = np.array(c)
                    d[len(d)//2] = d[len(d)//2 - 1]
                    setattr_(h[p], at, d)
                add("duplicate in %s %s" % (p, at), "any", "", dup)
                add("constant %s %s" % (p, at), "any", "", lambda h, p=p, at=at, c=c: setattr_(h[p], at, np.full(len(c), c[0])))
                add("shuffled %s %s" % (p, at), "accept", "", lambda h, p=p, at=at, c=c: setattr_(h[p], at, np.array(c)[::-1]))
                # a resolution as well takes precedence: no judgement of the values
                add("both for %s %s" % (p, nm), "any", "", lambda h, p=p, nm=nm: setattr_(h[p], nm + "_resolution", 1.0))
        if blk and obj.z.coords is None:
            add("missing %s z_top" % p, "refuse", "z_top", lambda h, p=p: h[p].attrs.__delitem__("z_top"))
            add("text for %s z_top" % p, "refuse", "z_top", lambda h, p=p: setattr_(h[p], "z_top", "0.0"))
            add("vector for %s z_top" % p, "refuse", "z_top", lambda h, p=p: setattr_(h[p], "z_top", [0.0, 1.0]))
            for v in (np.nan, np.inf):
                add("%s z_top is %s" % (p, v), "refuse", "z_top", lambda h, p=p, v=v: setattr_(h[p], "z_top", v))
        sh = obj.data.shape + (() if blk else (1,))
        add("%s of lower rank" % p, "refuse", "", lambda h, p=p, sh=sh: redo(h, p, np.zeros(sh[:-1])))
        add("%s of higher rank" % p, "refuse", "", lambda h, p=p, sh=sh: redo(h, p, np.zeros(sh + (1,))))
        add("%s scalar" % p, "refuse", "", lambda h, p=p: redo(h, p, 1.5))
        add("%s null" % p, "refuse", "", lambda h, p=p: redo(h, p, h5py.Empty("f4")))
        for k in range(len(sh) - 1):
            for s in (0, 1):
                t = list(sh)
                t[k] = s
                add("%s has size %d along axis %d" % (p, s, k), "refuse", "", lambda h, p=p, t=tuple(t): redo(h, p, np.zeros(t)))
            t = list(sh)
            t[k] += 1
            if axes[k][1].coords is not None:
                add("%s has one more row along axis %d" % (p, k), "refuse", "", lambda h, p=p, t=tuple(t): redo(h, p, np.zeros(t)))
        for s in {0, last+1, last-1}:
            add("%s has %d values" % (p, s), "refuse", "", lambda h, p=p, t=sh[:-1] + (s,): redo(h, p, np.zeros(t)))
        add("%s of text" % p, "refuse-query", "", lambda h, p=p, sh=sh: redo(h, p, np.full(sh, b"abc")))
        add("%s of records" % p, "refuse-query", "", lambda h, p=p, sh=sh: redo(h, p, np.zeros(sh, dtype=[("a", "f4"), ("b", "i4")])))
    # forms of the same content
    def attr_text(h, form):
        for a in TEXT:
            v = h.attrs[a]
            if form == "fixed":
                setattr_(h, a, np.bytes_(v.encode()))
            elif form == "padded":
                setattr_(h, a, np.array(v.encode(), dtype="S%d" % (len(v.encode()) + 9)))
            elif form == "ascii":
                setattr_(h, a, v, dtype=h5py.string_dtype("ascii"))
            elif form == "one":
                setattr_(h, a, [v], dtype=h5py.string_dtype())
            elif form == "utf8":
                setattr_(h, a, v.encode(), dtype=h5py.string_dtype("utf-8", len(v.encode()) + 3))
        for a in LISTS:
            v = [str(s) for s in h.attrs[a]]
            if form in ("fixed", "padded"):
                setattr_(h, a, np.array([s.encode() for s in v], dtype="S%d" % (max(len(s.encode()) for s in v) + (9 if form == "padded" else 0))))
            elif form == "ascii":
                setattr_(h, a, v, dtype=h5py.string_dtype("ascii"))
            elif form == "utf8":
                setattr_(h, a, [s.encode() for s in v], dtype=h5py.string_dtype("utf-8", max(len(s.encode()) for s in v) + 3))
    for form in ("fixed", "padded", "ascii", "one", "utf8"):
        add("text as " + form, "accept", "", lambda h, form=form: attr_text(h, form))

    def numbers(h, form):
        for o in [h] + [h[p] for p in objs + surfs]:
            for a in list(o.attrs):
                v = o.attrs[a]
                if isinstance(v, (float, np.floating)):
                    setattr_(o, a, np.array([v]) if form == "one" else np.array(v, dtype=form))
                elif isinstance(v, np.ndarray) and v.dtype.kind == "f" and form != "one":
                    setattr_(o, a, v.astype(form))
    for form in ("one", ">f8", np.longdouble):
        add("numbers as %s" % form, "accept", "", lambda h, form=form: numbers(h, form))

    def store(h, how):
        for p in objs + surfs:
            d, at = h[p][...], {k: h[p].attrs[k] for k in h[p].attrs}
            del h[p]
            if how == "double":
                ds = h.create_dataset(p, data=d.astype("f8"))
            elif how == "swapped":
                ds = h.create_dataset(p, data=d.astype(">f4"))
            elif how == "chunked":
                ds = h.create_dataset(p, data=d, chunks=tuple(max(1, s//2) for s in d.shape))
            elif how == "packed":
                ds = h.create_dataset(p, data=d, compression="gzip", shuffle=True, fletcher32=True)
            elif how == "linked":
                ds = h.create_dataset("elsewhere/" + p, data=d)
                h[p] = h5py.SoftLink("/elsewhere/" + p)
            elif how == "extendible":
                ds = h.create_dataset(p, data=d, maxshape=tuple(None for _ in d.shape), chunks=True)
            for k, v in at.items():
                ds.attrs[k] = v
    for how in ("double", "swapped", "chunked", "packed", "linked", "extendible"):
        add("data " + how, "accept", "", lambda h, how=how: store(h, how))

    def extra(h):
        h.attrs["something_else"] = [1, 2, 3]
        h.create_group("other").create_dataset("x", data=[1.0])
        if "surfaces" in h:
            h["surfaces"].create_dataset("moho", data=[[1.0]])
    add("additional content", "accept", "", extra)
    add("no auxiliary", "accept", "", lambda h: h.attrs.__delitem__("auxiliary"))
    add("auxiliary number", "refuse", "", lambda h: setattr_(h, "auxiliary", 5))
    return out


def judge(ck, i, m, name, expect, word, path, good, pts, refs, other):
    names = [c[0] for c in m.columns]
    ops = ["q.new 1", init_ops("q", 1, [path], names, m.crs)]
    ops += ["q.q 1 %d %s %s %s" % (len(names), f(x), f(y), f(z)) for _, x, y, z in pts]
    ops += ["q.top 1 %s %s" % (f(pts[0][1]), f(pts[0][2])), "q.topo 1 %s %s" % (f(pts[0][1]), f(pts[0][2]))]
    # the C interface and the model interface on the same file
    ops += ["c.new 1", init_ops("c", 1, [path], names, m.crs), "c.msg 1", "m.new 1", "m.open 1 " + enc(path), "m.load 1", "m.init 1", "m.del 1", "c.del 1"]
    # a good file afterwards with the same handle
    back = len(ops)
    ops += [init_ops("q", 1, [good], names, m.crs)] + ["q.q 1 %d %s %s %s" % (len(names), f(x), f(y), f(z)) for _, x, y, z in pts[:3]] + ["q.del 1"]
    tr = ck.drive(ops, timeout=8 if other else 300)
    if tr.crash and any(s in tr.err for s in ("allocation-size-too-big", "out-of-memory", "requested allocation size", "bad_alloc")):
        ck.count("excluded_allocations")
        return
    ck.count("files")
    if tr.crash:
        if other and (in_library(tr.err) or (tr.crash == "timeout" and slow_library(path))):
            ck.count("excluded_crashes_of_the_hdf5_library")
            return
        if other and tr.crash == "timeout":  # slow rather than hanging?
            again = ck.drive(ops, timeout=100)
            if again.crash != "timeout" and (not again.crash or in_library(again.err)):
                ck.count("slow_files")
                return
            tr = again
        return ck.crash(tr, name.split(" blocks/")[0].split(" surfaces/")[0], [path])

    def bad(key, text):
        ck.violation("%s: %s" % (key, name.replace(str(i), "")), text, ops, [path, good])
    ev = tr.events
    init = ev[1]
    if other is None and expect in ("refuse", "refuse-query"):
        if init.ok and expect == "refuse":
            return bad("accepted", "queries give %s" % [e.args for e in ev[2:4]])
        if not init.ok:
            if not init.args.strip():
                return bad("no message", "error without text")
            if word and word.lower() not in init.args.lower():
                return bad("message does not name the problem", "%r does not mention %r" % (init.args, word))
            c = ev[2 + len(pts) + 2 + 1]
            if c.args != ["1"] and c.args != ["2"]:
                return bad("C interface accepts", str(c.args))
            for e in ev[2:2+len(pts)]:
                if e.ok and e.args[0] == "0":
                    return bad("values from a model that was refused", str(e.args))
        else:
            # of wrong type, found when the data are read
            es = [e for e in ev[2:2+len(pts)]]
            if any(e.ok and e.args[0] == "0" and e.args != r.args for e, r in zip(es, refs)):
                return bad("wrong values", "%s instead of %s" % ([e.args for e in es if e.ok][:3], refs[0].args))
            if all(e.ok and e.args[0] != "2" for e in ev[2:2+len(pts)+2]):
                return bad("accepted", "no failure when queried: %s" % [e.args for e in es[:3]])
        ck.case((i, name), dict(damage=name, message=init.args if not init.ok else "on reading"))
    elif other is None and expect == "accept":
        if not init.ok:
            return bad("refused a valid file", init.args)
        for e, r in zip(ev[2:2+len(pts)], refs):
            a, b = e.floats() if e.ok else [], r.floats()
            if len(a) != len(b) or any(abs(u - v) > 1e-9*abs(v) + 1e-12 for u, v in zip(a, b)):
                return bad("other values from equivalent file", "%s instead of %s" % (e.args, r.args))
        ck.case((i, name))
    else:
        ck.case((i, name))
    # afterwards
    if not ev[back].ok:
        return bad("handle unusable afterwards", "initialising with a good file: %s" % ev[back].args)
    for e, r in zip(ev[back+1:back+4], refs[:3]):
        if not e.ok or e.args != r.args:
            return bad("other values afterwards", "%s instead of %s" % (e.args, r.args))


def in_library(err):
    """Is the report of the sanitizer about the HDF5 library decoding the file by itself?"""
    import re
    for ln in err.splitlines():
        mm = re.match(r"\s+#\d+ 0x[0-9a-f]+\s+(in (\S+))?.*", ln)
        if not mm:
            continue
        if "libhdf5" in ln or (mm.group(2) or "").startswith("H5"):
            return True
        if "geomodelgrids" in ln or "driver" in ln:
            return False
    return False


def slow_library(path):
    """Does a plain reader of the format hang, too?"""
    code = ("import h5py,sys\n"
            "def look(n,o):\n"
            "    for a in list(o.attrs):\n"
            "        try: o.attrs[a]\n"
            "        except Exception: pass\n"
            "try:\n"
            "    h=h5py.File(sys.argv[1],'r'); look('/',h); h.visititems(look)\n"
            "except Exception: pass\n")
    out, err, rc, to = run_process(["/usr/bin/python3", "-c", code, path], timeout=8)
    return to


def one(ck, i):
    import h5py
    rng = rng_for("C13", i)
    m = vm.random_model(rng, kind="general", topo=i % 5 != 4, topo_bathy=i % 2 == 0, variable=[None, True, False][i % 3], max_blocks=2, style="rough")
    good = m.write(ck.ws.path("c%d" % i, "good.h5"))
    names = [c[0] for c in m.columns]
    pts = physical(m, model_points(rng, m, 8, where=("interior",)), m.crs)
    tr = ck.drive(["q.new 1", init_ops("q", 1, [good], names, m.crs)] + ["q.q 1 %d %s %s %s" % (len(names), f(x), f(y), f(z)) for _, x, y, z in pts])
    if ck.crash(tr, "reference", [good]) or not tr.events[1].ok:
        return ck.violation("refused a valid file", str(tr.events[1].args), tr.ops, [good]) if not tr.crash else None
    refs = tr.events[2:]
    muts = mutations(m, rng)
    pick = range(len(muts)) if THOROUGH or i < 2 else sorted(rng.choice(len(muts), size=min(len(muts), 60), replace=False))
    for k in pick:
        name, expect, word, fn = muts[int(k)]
        path = ck.ws.path("c%d" % i, "bad%d.h5" % k)
        shutil.copy(good, path)
        try:
            with h5py.File(path, "r+") as h:
                fn(h)
        except Exception as e:
            raise RuntimeError("mutation %s: %s" % (name, e))
        judge(ck, i, m, name, expect, word, path, good, pts, refs, None)
        if not ck.violations:
            os.remove(path)
    # damage of the bytes
    raw = open(good, "rb").read()

    def put(name, data, expect, k):
        path = ck.ws.path("c%d" % i, "raw%s.h5" % k)
        with open(path, "wb") as fo:
            fo.write(data)
        judge(ck, i, m, name, expect, "", path, good, pts, refs, None if expect == "refuse" else "bytes")
        if not ck.violations:
            os.remove(path)
    put("empty file", b"", "refuse", "e")
    put("text file", b"This is not a model.\n"*40, "refuse", "t")
    put("random bytes", rng.bytes(5000), "refuse", "r")
    put("signature only", raw[:8], "refuse", "s")
    put("no signature", b"\0" + raw[1:], "refuse", "n")
    for k in range(30 if THOROUGH else 6):
        n = int(rng.integers(9, len(raw))) if rng.random() < 0.7 else len(raw) - int(rng.integers(1, 30))
        put("truncated", raw[:n], "refuse", "c%d" % k)
    for k in range(150 if THOROUGH else 25):
        b = bytearray(raw)
        r = rng.random()
        meta = [p for p in range(0, len(raw), 512) if raw[p:p+512].count(0) > 64] or [0]
        for _ in range(int(rng.integers(1, 4))):
            at = int(rng.choice(meta)) + int(rng.integers(0, 512)) if rng.random() < 0.8 else int(rng.integers(0, len(raw)))
            at = min(at, len(raw) - 1)
            if r < 0.5:
                b[at] ^= 1 << int(rng.integers(0, 8))
            elif r < 0.8:
                b[at] = int(rng.integers(0, 256))
            else:
                w = int(rng.integers(2, 40))
                b[at:at+w] = bytes(len(b[at:at+w]))
        put("bytes changed", bytes(b), "any", "b%d" % k)


def programs(ck, i):
    """The programs on damaged files end with an error, not a crash."""
    import h5py
    rng = rng_for("C13", "p", i)
    m = vm.random_model(rng, topo=True, max_blocks=2)
    d = os.path.dirname(ck.ws.path("p%d" % i, "x"))
    good = m.write(os.path.join(d, "good.h5"))
    with open(os.path.join(d, "pts"), "w") as fo:
        fo.write("%r %r %r\n" % physical(m, model_points(rng, m, 1, where=("interior",)), m.crs)[0][1:])
    muts = [x for x in mutations(m, rng) if x[1] == "refuse"]
    for k in rng.choice(len(muts), size=40 if THOROUGH else 12, replace=False):
        name, expect, word, fn = muts[int(k)]
        path = os.path.join(d, "bad%d.h5" % k)
        shutil.copy(good, path)
        with h5py.File(path, "r+") as h:
            fn(h)
        b = os.path.basename(path)
        for app, args in (("info", ["--models=" + b, "--all"]), ("info", ["--models=" + b, "--verify"]),
                          ("query", ["--models=" + b, "--values=" + m.columns[0][0], "--points=pts", "--output=out", "--points-coordsys=" + m.crs])):
            ran = run_app(ck, app, args, d)
            if ran.crash:
                replay_files(ck, ran, ran.crash + ": " + name, "%s: abnormal end: %s" % (app, ran.crash), [path])
            elif app == "query" and ran.rc == 0:
                replay_files(ck, ran, name, "query succeeds", [path])
            elif not (ran.out + ran.err).strip():
                replay_files(ck, ran, name, "%s: no message" % app, [path])
            ck.case((i, name, app, args[1][:5]))
            ck.count("program_runs")


def main():
    ck = Check("C13", "Every kind of damage of every part of random files (missing, wrong type, rank, size, count, links), equivalent files in other storage, truncations and changed bytes; "
               "each file is opened through the C++, C and model interfaces and the programs, and the handle is used with a good file afterwards.", programs=("driver", "info", "query"),
               assumptions=["invalid accesses inside the HDF5 library while it decodes damaged bytes are not counted", "datasets of a type that cannot be read as numbers may be reported when first read"])
    n = 24 if THOROUGH else 10
    ck.map(lambda i: one(ck, i) if i < n else programs(ck, i - n), range(n + (8 if THOROUGH else 6)))
    return ck.finish(minimum=800)
