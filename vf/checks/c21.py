"""C21: metadata of models created and updated."""
import copy, hashlib, json, os
import h5py
import numpy as np
from .. import build
from ..create import *
from ..run import Check, THOROUGH, enc, dec, py_drive
from ..work import rng_for

POOL = ["", "Plain text", "Größe und Ort – überall 日本語 🌋", "comma, semicolon; colon: (x)", "100% %s %(title)s %%", "two\nlines", "first\n\nthird\nfourth", "x"*5000, "None", "[in brackets]", "(a)",
        "a = b", "# hash", "; semi", "'quoted' \"twice\"", "back\\slash \\n", "tab\tinside", "1.0", "true", "${x}", "e\u0301 combining", "<&>", "https://doi.org/10.1000/1?a=b&c=%20d#e", "0012", "NaN", "A and B; C", "two  blanks", "UPPER lower", "x.", "-", "'"]
ITEMS = ["a", "Größe", "two words", "100%", "x"*300, "日本", "it's", "\"q\"", "a=b", "#", "1", "Doe, J.", "semi;colon", "(y)", "a [b] c", "é", "z", "Smith, J. and Doe, K.", "A and B", "R&D", "C:\\x\\n", "none", "null", "NaN", "TRUE", "007", "1e5", "u.s.", "a/b", "ö and ü", "* bullet", "-x", "$HOME", "~", "a  b"]


def one_line(s):
    return s.replace("\n", " ")


def metadata(rng):
    m = plain_meta()
    for k in TEXT:
        if rng.random() < 0.7:
            m[k] = str(rng.choice(POOL))
    for k, d in LISTS.items():
        n = int(rng.choice([0, 1, 1, 2, 3, 12, 80]))
        items = [v for v in ITEMS if d not in v]
        m[k] = [str(rng.choice(items)) for _ in range(n)]
        if n > 1 and rng.random() < 0.2:  # an entry left blank keeps its place
            m[k][int(rng.integers(0, n))] = ""
    return m


def deep(rng, level=0):
    k = rng.random()
    if level < 3 and k < 0.4:
        return {str(rng.choice(["zero", "fault blocks", "ü", "", "100%", "z"])) + str(j): deep(rng, level+1) for j in range(int(rng.integers(0, 4)))}
    if level < 3 and k < 0.55:
        return [deep(rng, level+1) for _ in range(int(rng.integers(0, 4)))]
    return [0, 1, -7, 2.5, 1e-300, None, True, False, "text", "Größe \"q\" \\ \n %", 10**12][int(rng.integers(0, 11))]


def auxiliary(rng):
    return {"k%d" % j: deep(rng) for j in range(int(rng.integers(0, 5)))}


def list_text(rng, items, delim):
    """Ways to write a list."""
    if (items and not (items[0][:1] in "[(" and items[-1][-1:] in "])")) and all(items) and rng.random() < 0.3:
        return delim.join(" "*int(rng.integers(0, 2)) + v for v in items).strip()  # without brackets
    return listing(rng, items, delim)


def indent(v):
    return v.replace("\n", "\n    ")


def sections(rng, S, m, filename, aux):
    c = S.config(None if rng.random() < 0.5 else 40, filename, m)
    for k, d in LISTS.items():
        c["geomodelgrids"][k] = list_text(rng, m[k], d)
    for k in TEXT:
        c["geomodelgrids"][k] = indent(m[k])
    c["data"]["values"] = list_text(rng, S.values, ",")
    c["data"]["units"] = list_text(rng, S.units, ",")
    how, value = aux
    if how == "config":
        c["data"]["auxiliary"] = indent(json.dumps(value, ensure_ascii=bool(rng.random() < 0.5), indent=[None, 1][int(rng.random() < 0.3)]))
        if rng.random() < 0.4:  # the configuration takes precedence over the data source
            c["source"]["auxiliary"] = json.dumps({"of the source": 1})
    elif how == "source":
        c["source"]["auxiliary"] = json.dumps(value)
    return c


def vary(rng, S):
    """The same numbers of points, values and blocks under another description."""
    T = copy.deepcopy(S)
    T.origin = [S.origin[0] + float(rng.uniform(-1, 1)), S.origin[1]] if rng.random() < 0.7 else S.origin
    T.azimuth = float(rng.choice([S.azimuth, 0.0, float(rng.uniform(-180, 360)), -1e-300, 359.99999999999994]))
    T.dims = [d*float(rng.choice([1.0, 1.0, 2.0])) for d in S.dims]
    T.crs = str(rng.choice([S.crs, S.crs, "+proj=utm +zone=10 +datum=WGS84 +units=m +type=crs", WKT]))
    if rng.random() < 0.6:
        T.values = [v + str(rng.choice(["", "_2", " (new)", "ü"])) for v in S.values]
        T.units = [str(rng.choice(["m", "µm", "none", "kg/m**3", "%"])) for _ in S.units]

    def flip(g, z=None):
        if rng.random() < 0.5:
            return g
        if g.coords is None:
            p = g.res*np.arange(g.n)
            return Grid(g.n, coords=[float(v) for v in (p if z is None else g.top - p)], top=g.top)
        return Grid(g.n, res=float(rng.uniform(0.1, 500)), top=g.top)
    T.top = tuple(flip(g) for g in S.top)
    T.blocks = [(b[0], flip(b[1]), flip(b[2]), flip(b[3], True)) for b in S.blocks]
    return T


def setup_wkt():
    import pyproj
    return pyproj.CRS("EPSG:26910").to_wkt("WKT2_2019")


WKT = setup_wkt()


def S_last(S):
    return S.blocks[-1][0]


def expected(S, m, aux):
    root = dict(m)
    root.update(data_values=S.values, data_units=S.units, data_layout="vertex", crs=S.crs, origin_x=S.origin[0], origin_y=S.origin[1], y_azimuth=S.azimuth,
                dim_x=S.dims[0], dim_y=S.dims[1], dim_z=S.dims[2], auxiliary=aux)
    out = {"/": root}

    def axes(g):
        e = {}
        for a, q in zip("xyz", g):
            if q.coords is None:
                e[a + "_resolution"] = q.res
                if a == "z":
                    e["z_top"] = q.top
            else:
                e[a + "_coordinates"] = [float(v) for v in q.coords]
        return e
    if S.has_top:
        out["surfaces/top_surface"] = axes(S.top)
    if S.has_topo:
        out["surfaces/topography_bathymetry"] = axes(S.top)
    for b in S.blocks:
        out["blocks/" + b[0]] = axes(b[1:])
    return out


def plain(v):
    if isinstance(v, bytes):
        return v.decode("utf-8")
    if isinstance(v, np.ndarray):
        return [plain(q) for q in v.tolist()]
    if isinstance(v, np.generic):
        return plain(v.item())
    return v


def stored(path):
    at, data = {}, {}
    with h5py.File(path, "r") as h:
        def visit(name, o):
            at[name] = {k: plain(v) for k, v in o.attrs.items()}
            if isinstance(o, h5py.Dataset):
                data[name] = (o.shape, o.dtype.str, o.chunks, o.compression, hashlib.blake2b(np.ascontiguousarray(o[()]).tobytes()).hexdigest())
        visit("/", h)
        h.visititems(visit)
    return at, data


def differs(at, exp):
    for name, e in exp.items():
        if name not in at:
            return "%s is missing" % name
        for k, v in e.items():
            if k not in at[name]:
                return "attribute %s of %s is missing" % (k, name)
            g = at[name][k]
            if k == "auxiliary":
                try:
                    g = json.loads(g)
                except ValueError:
                    return "auxiliary is not JSON: %r" % g
            if g != v or isinstance(g, str) != isinstance(v, str):
                return "attribute %s of %s is %r, configured %r" % (k, name, str(g)[:300], str(v)[:300])
        extra = set(at[name]) - set(e)
        if extra:
            return "attributes %s of %s were not configured" % (sorted(extra), name)
    return None


def kind(text):
    w = text.split()
    return " ".join(w[:2] if w[0] == "attribute" else w[:1])


class Tokens:
    def __init__(self, t):
        self.t, self.i = t, 0

    def s(self):
        self.i += 1
        return self.t[self.i-1]

    def strings(self):
        return [dec(self.s()) for _ in range(int(self.s()))]

    def axis(self):
        self.s()
        if self.s() == "v":
            return [float(self.s()) for _ in range(int(self.s()))]
        return float(self.s())


def library(ev_meta, ev_info, S, m, aux_raw):
    """What the library says that differs from the configuration."""
    t = Tokens(ev_meta.args)
    for k in ("title", "id", "description", "keywords", "history", "comment", "creator_name", "creator_email", "creator_institution", "acknowledgement", "authors", "references",
              "repository_name", "repository_url", "repository_doi", "license", "version", "auxiliary"):
        g = t.strings() if k in LISTS else dec(t.s())
        w = aux_raw if k == "auxiliary" else m[k]
        if g != w:
            return "%s is %r, configured %r" % (k, str(g)[:300], str(w)[:300])
    t = Tokens(ev_info.args)
    t.s()
    g = [t.strings()]
    t.s()
    g.append(t.strings())
    t.s()
    g.append(int(t.s()))
    t.s()
    g.append([float(t.s()) for _ in range(3)])
    t.s()
    g.append([float(t.s()) for _ in range(2)])
    t.s()
    g.append(float(t.s()))
    t.s()
    g.append(dec(t.s()))
    for k, a, w in zip(("value names", "units", "layout", "dimensions", "origin", "azimuth", "crs"), g, (S.values, S.units, 0, S.dims, S.origin, S.azimuth, S.crs)):
        if a != w and not (k == "layout"):
            return "%s: %r, configured %r" % (k, a, w)

    def ax(q, z=False):
        return q.res if q.coords is None else [float(v) for v in q.coords]
    for has in (S.has_top, S.has_topo):
        t.s()
        if (t.s() == "1") != has:
            return "surface: present in one only"
        if has:
            n = [int(t.s()), int(t.s())]
            a = [t.axis(), t.axis()]
            if n != [q.n for q in S.top] or a != [ax(q) for q in S.top]:
                return "surface: %s %s" % (n, a)
    t.s()
    nb = int(t.s())
    got = {}
    for _ in range(nb):
        name = dec(t.s())
        n = [int(t.s()) for _ in range(3)]
        nv = int(t.s())
        z = [float(t.s()), float(t.s())]
        got[name] = (n, nv, z, [t.axis() for _ in range(3)])
    if sorted(got) != sorted(b[0] for b in S.blocks):
        return "blocks: %s" % sorted(got)
    for b in S.blocks:
        n, nv, z, a = got[b[0]]
        g = b[3]
        top = g.top if g.coords is None else max(g.coords)
        bot = top - g.res*(g.n-1) if g.coords is None else min(g.coords)
        if n != [q.n for q in b[1:]] or nv != S.nv or a != [ax(q) for q in b[1:]] or z[0] != top or abs(z[1] - bot) > 1e-9*max(1.0, abs(bot)):
            return "block: %s: %s %s %s %s" % (b[0], n, nv, z, a)
    return None


def check_state(ck, pkg, items, what):
    """items: (path, S, m, aux, files, previous data or None). Returns digests."""
    out, good = [], []
    for path, S, m, aux, files, before in items:
        try:
            at, data = stored(path)
        except (OSError, UnicodeDecodeError, KeyError) as e:
            ck.violation(what + ": file cannot be read", str(e), None, files)
            out.append(None)
            continue
        out.append(data)
        d = differs(at, expected(S, m, aux))
        if d:
            ck.violation("%s: %s" % (what, kind(d)), d, None, files)
        else:
            good.append((path, S, m, at["/"]["auxiliary"], files))
        if before is not None and data != before:
            ck.violation(what + ": stored values or datasets change", str([k for k in set(data) | set(before) if data.get(k) != before.get(k)]), None, files)
        ck.count("attributes_compared", sum(len(e) for e in expected(S, m, aux).values()))
        ck.case((what, path, json.dumps(m, sort_keys=True)), dict(what=what, title=m["title"][:40], keywords=len(m["keywords"]), auxiliary=len(aux)))
    ops = []
    for path, S, m, aux, files in good:
        ops += ["m.new m", "m.open m %s" % enc(path), "m.load m", "m.meta m", "m.info m", "m.close m", "m.del m"]
    if ops:
        tr = ck.drive(ops)
        if not ck.crash(tr, "read metadata of created models"):
            for k, (path, S, m, aux, files) in enumerate(good):
                e = tr.events[7*k:7*k+7]
                bad = [x for x in e if not x.ok]
                if bad:
                    ck.violation(what + ": library refuses the model", bad[0].args[:500], ops[7*k:7*k+7], files)
                    continue
                d = library(e[3], e[4], S, m, aux)
                if d:
                    ck.violation("%s: library differs: %s" % (what, d.split(":")[0].split(" is ")[0]), d, ops[7*k:7*k+7], files)
                ck.count("models_read_by_library")
        ops = []
        for path, S, m, aux, files in good:
            ops += [dict(op="newmodel", h="m"), {"op": "m.open", "h": "m", "file": path}, {"op": "m.load", "h": "m"}, {"op": "m.meta", "h": "m"}, {"op": "m.close", "h": "m"}]
        ev, crash, err = py_drive(pkg, ops)
        if crash:
            ck.violation("Python: abnormal end reading metadata", crash, None, extra=err[-3000:])
        else:
            for k, (path, S, m, aux, files) in enumerate(good):
                kindof, r = ev[5*k+3]
                bad = [x for x in ev[5*k:5*k+5] if x[0] != "OK"]
                if bad:
                    ck.violation(what + ": Python interface refuses the model", str(bad[0][1])[:500], None, files)
                    continue
                exp = dict(m, auxiliary=aux)
                d = [k2 for k2 in exp if r["info"][k2] != exp[k2]]
                d += [k2 for k2, w in (("names", S.values), ("units", S.units), ("dims", S.dims), ("origin", S.origin), ("az", S.azimuth), ("crs", S.crs)) if r[k2] != w]
                if d:
                    ck.violation("%s: Python interface differs: %s" % (what, d[0]), "%s: %r" % (d[0], r["info"].get(d[0], r.get(d[0]))), None, files)
                ck.count("models_read_by_python")
    return out


def group(ck, pkg, g):
    rng = rng_for("C21", g)
    N = 12 if THOROUGH else 7
    cases = []
    for j in range(N):
        S = Setup(rng, variable=0.5, variable_z=0.3, many=j == 1)
        d = os.path.dirname(ck.ws.path("g%d-%d" % (g, j), "x"))
        cases.append(dict(S=S, d=d, path=os.path.join(d, "m.h5"), data=None))

    def config(c, S, m, aux, tag):
        names = [tag + "%d.cfg" % q for q in range(int(rng.integers(1, 4)))]
        write_config(rng, sections(rng, S, m, "m.h5", aux), c["d"], names)
        c["files"] = [os.path.join(c["d"], n) for n in names] + [c["path"]]
        return "--config=" + ",".join(names)

    def run(round_, what, prepare):
        requests, state = [], []
        for c in cases:
            line, S, m, aux = prepare(c)
            requests.append(dict(cwd=c["d"], runs=[c["bad"], line] if c.get("bad") else [line]))
            c["was_bad"], c["bad"] = bool(c.get("bad")), None
            state.append((c, S, m, aux))
        res, crash, err = run_creations(pkg, requests)
        if crash:
            ck.violation(what + " ends abnormally: " + crash.split(":")[0], "%s at %s" % (crash, requests[len(res)] if len(res) < len(requests) else None), None, extra=err[-4000:])
            return False
        items, used = [], []
        for (c, S, m, aux), r in zip(state, res):
            if c["was_bad"]:
                ck.count("failing_updates")
                if r[0][0] == "OK":
                    ck.violation("unusable configuration is accepted", "see bad.cfg", None, c["files"] + [os.path.join(c["d"], "bad.cfg")])
            if r[-1][0] != "OK":
                ck.violation("%s fails: %s" % (what, r[-1][1].split(":")[0]), r[-1][1], None, c["files"])
                cases.remove(c)
                continue
            items.append((c["path"], S, m, aux, c["files"], c["data"]))
            used.append(c)
        for c, d in zip(used, check_state(ck, pkg, items, what)):
            c["data"] = d
        return True

    def first(c):
        S, m, aux = c["S"], metadata(rng), (str(rng.choice(["none", "config", "source"])), auxiliary(rng))
        c["aux"] = aux
        return [config(c, S, m, aux, "a"), "--all", "--quiet"], S, m, aux[1] if aux[0] != "none" else {}

    def update(c):
        m = metadata(rng)
        T = vary(rng, c["S"]) if rng.random() < 0.8 else c["S"]
        aux = (str(rng.choice(["none", "config"])), auxiliary(rng))
        c["bad"] = None
        if rng.random() < 0.2:  # an update that fails comes first
            X = sections(rng, T, m, "m.h5", aux)
            sec, key, bad = [("geomodelgrids", "license", None), ("coordsys", "origin_x", "east"), ("domain", "dim_z", None), (S_last(T), "chunk_size", "(1, a)"), ("data", "layout", "cell"),
                             ("domain", "blocks", "[nowhere]"), ("data", "auxiliary", "{not json")][int(rng.integers(0, 7))]
            X[sec].pop(key, None)
            if bad is not None:
                X[sec][key] = bad
            write_config(rng, X, c["d"], ["bad.cfg"])
            c["bad"] = ["--config=bad.cfg", "--update-metadata"]
        return [config(c, T, m, aux, "b"), "--update-metadata"], T, m, aux[1] if aux[0] != "none" else {}

    def domain(c):
        """Only the domain is imported again: what describes surfaces and blocks stays."""
        m = metadata(rng)
        aux = (str(rng.choice(["none", "config", "source"])), auxiliary(rng))
        return [config(c, c["S"], m, aux, "c"), "--import-domain"], c["S"], m, aux[1] if aux[0] != "none" else {}

    def back(c):
        m = metadata(rng)
        aux = (str(rng.choice(["none", "config", "source"])), auxiliary(rng))
        return [config(c, c["S"], m, aux, "d"), "--update-metadata"], c["S"], m, aux[1] if aux[0] == "config" else {}
    if run(0, "creation", first) and run(1, "update of metadata", update) and run(2, "update of metadata", update) and run(3, "update of metadata", back) and run(4, "import of domain", domain):
        # importing everything again over the updated file
        for c in cases:
            c["data"] = None

        def again(c):
            m = metadata(rng)
            aux = (str(rng.choice(["none", "config", "source"])), auxiliary(rng))
            return [config(c, c["S"], m, aux, "e")] + [["--all"], ["--all", "--update-metadata"], ["--import-surfaces", "--import-domain", "--import-blocks", "--update-metadata"],
                                                         ["--update-metadata", "--import-surfaces", "--import-domain"], ["--update-metadata", "--import-domain"]][int(rng.integers(0, 5))], c["S"], m, aux[1] if aux[0] != "none" else {}
        run(5, "creation over an existing file", again)


def main():
    ck = Check("C21", "Random metadata (unusual text, empty and long lists, nested auxiliary data, all kinds of axes) written by the application, then updated repeatedly; every attribute is compared with the configuration "
               "as read by h5py, by the instrumented library and by the Python interface, and every dataset with the one before the update.")
    pkg = os.path.dirname(ck.ws.path("pkg", "x"))
    build.stage_python(pkg)
    ck.map(lambda g: group(ck, pkg, g), range(64 if THOROUGH else 16))
    return ck.finish(minimum=100)
