"""C14: model information shows what is stored, and verification is exact."""
import os, copy, math, re
import numpy as np
from .. import model as vm
from ..run import Check, THOROUGH, f, enc
from ..work import *
from ..apps import *


def consistent(rng, crs=None, many=False):
    """A model that conforms to the specification: blocks on multiples of the resolution of the surface."""
    m = vm.random_model(rng, topo=bool(rng.random() < 0.75), variable=bool(rng.random() < 0.3), crs=crs)
    N = [int(rng.choice([4, 6, 12, 24])), int(rng.choice([6, 8, 12]))]
    L = m.dims
    uni = [rng.random() < 0.8, rng.random() < 0.8]
    ax = [vm.Axis(res=L[k]/N[k], n=N[k]+1) if uni[k] else vm.rand_axis(rng, L[k], N[k]+1, True) for k in (0, 1)]
    if m.top is not None:
        m.top = vm.Surface(ax[0], ax[1], rng.uniform(0.0, 500.0, (N[0]+1, N[1]+1)))
        if m.topo is not None:
            m.topo = vm.Surface(ax[0], ax[1], m.top.data - 10.0)
    for b in m.blocks:
        n = []
        for k, a in ((0, "x"), (1, "y")):
            d = int(rng.choice([q for q in range(1, N[k]+1) if N[k] % q == 0]))
            if rng.random() < 0.75:
                setattr(b, a, vm.Axis(res=L[k]/d, n=d+1))
            else:
                setattr(b, a, vm.rand_axis(rng, L[k], max(3, d+1), True))
            n.append(getattr(b, a).n)
        b.data = rng.uniform(-1, 1, (n[0], n[1], b.z.n, len(m.columns))).astype(np.float32)
    if many:  # more blocks than fit in a byte
        n = int(rng.integers(257, 330))
        h = m.dims[2]/n
        order = rng.permutation(n)
        m.blocks = [vm.Block("layer%d" % order[k], m.blocks[0].x, m.blocks[0].y, vm.Axis(res=h, n=2, descending=True), -k*h,
                             rng.uniform(-1, 1, (m.blocks[0].x.n, m.blocks[0].y.n, 2, len(m.columns))).astype(np.float32)) for k in range(n)]
    return m


def texts(rng, m):
    """Unusual but legal descriptions."""
    pool = ["", "Plain text", "Größe und Ort – überall", "comma, semicolon; colon: (x)", "  leading and trailing  ", "100% %s %d", "two\nlines", "x"*400, "OK", "FAIL"]
    for k in ("title", "id", "description", "history", "comment", "creator_name", "creator_email", "creator_institution", "acknowledgement",
              "repository_name", "repository_url", "repository_doi", "license", "version"):
        if rng.random() < 0.4:
            m.meta[k] = str(rng.choice(pool)) if rng.random() < 0.8 else "%s of %d" % (k, rng.integers(0, 999))
    for k in ("keywords", "authors", "references"):
        if rng.random() < 0.5:
            n = int(rng.integers(0, 5))
            v = ["" if rng.random() < 0.12 else str(rng.choice(pool[1:7])) + str(j) for j in range(n)]
            m.meta[k] = v if n else np.array([], dtype="S1")
    m.meta["auxiliary"] = [np.bytes_('{"zero": 0}'), "", "free text"][int(rng.integers(0, 3))]
    if rng.random() < 0.3:
        m.columns = [(n, str(rng.choice(["m", "kg/m**3", "None", "", "µm"]))) for n, u in m.columns]


def num(t, v, digits=6):
    try:
        x = float(t)
    except ValueError:
        return False
    return x == v or abs(x - v) <= 0.51*10.0**(1-digits)*abs(v)


def pairs(line):
    """x=1, y=2 -> {x: '1', y: '2'}"""
    return dict(re.findall(r"(\w)=(\S+?)(?:,|$)", line.split(":", 1)[1].strip()))


def section(out, names):
    """Text of each model."""
    parts, at = [], 0
    for n in names:
        head = "Model: %s\n" % n
        k = out.find(head, at)
        if k < 0:
            return None
        parts.append(k)
        at = k + len(head)
    return [out[a:b] for a, b in zip(parts, parts[1:] + [len(out)])]


def shown(m, flags, text):
    """None or what is wrong with the information shown."""
    meta = vm.default_meta(m.title)
    meta.update(m.meta)
    meta = {k: (v.decode() if isinstance(v, bytes) else [s.decode() if isinstance(s, bytes) else str(s) for s in v] if isinstance(v, (list, np.ndarray)) else str(v)) for k, v in meta.items()}
    ind = "    "
    if "description" in flags:
        exp = [("Title", meta["title"]), ("Id", meta["id"]), ("Description", meta["description"]), ("Keywords", ", ".join(meta["keywords"])), ("History", meta["history"]),
               ("Comment", meta["comment"]), ("Creator", "%s, %s, %s" % (meta["creator_name"], meta["creator_institution"], meta["creator_email"])),
               ("Authors", "; ".join(meta["authors"])), ("Acknowledgement", meta["acknowledgement"]),
               ("Repository", "%s %s" % (meta["repository_name"], meta["repository_url"])), ("DOI", meta["repository_doi"]), ("Version", meta["version"]), ("License", meta["license"])]
        for k, v in exp:
            if "%s%s: %s\n" % (ind, k, v) not in text:
                return "description: %s is not shown as %r" % (k, v)
        if "%sReferences:\n%s%s\n" % (ind, ind*2, ("\n" + ind*2).join(meta["references"])) not in text:
            return "references are not shown as %s" % meta["references"]
        if meta["auxiliary"] and "Auxiliary information: %s\n" % meta["auxiliary"] not in text:
            return "auxiliary information is not shown"
        if not meta["auxiliary"] and "\n" + ind + "Auxiliary information" in text:
            return "auxiliary information is shown, none stored"
        p = pairs(re.search(r"\n    Dimensions of model: .*", text).group(0))
        if not all(num(p[a], m.dims[k]) for k, a in enumerate("xyz")):
            return "dimensions shown as %s, stored %s" % (p, m.dims)
        g = re.search(r"Bounding box \(WGS84\):((?: \([^)]*\))+)\n", text)
        c = [tuple(float(v) for v in s.split(",")) for s in re.findall(r"\(([^)]*)\)", g.group(1))] if g else []
        if len(c) != 4:
            return "no bounding box"
        L = m.dims
        for (u, v), (xm, ym) in zip(c, [(0, 0), (L[0], 0), (L[0], L[1]), (0, L[1])]):
            X, Y = m.from_model(xm, ym)
            la, lo = m.to_crs("EPSG:4326", X, Y, 0.0)[:2]
            if abs(u - la) > 2e-4 or abs(v - lo) > 2e-4:
                return "corner of the bounding box shown at %s, is at %s" % ((u, v), (la, lo))
    if "coordsys" in flags:
        if "\n        CRS (PROJ, EPSG, WKT): %s\n" % m.crs not in text:
            return "coordinate system is not shown"
        import pyproj
        want = {"degree": "degree", "metre": "meter"}[pyproj.CRS(m.crs).axis_info[0].unit_name]
        g = re.search(r"\n        Coordinate system units: x=(.*), y=(.*), z=(.*)\n", text)
        if not g or any(s.replace("metre", "meter") != want for s in g.groups()[:2]):
            return "units %s, expected %s" % (g and g.groups(), want)
        p = pairs(re.search(r"\n        Origin: .*", text).group(0))
        if not (num(p["x"], m.origin[0]) and num(p["y"], m.origin[1])):
            return "origin shown as %s, stored %s" % (p, m.origin)
        a = re.search(r"\n        Azimuth .*: (\S+)\n", text)
        if not a or not num(a.group(1), m.azimuth):
            return "azimuth shown as %s, stored %s" % (a and a.group(1), m.azimuth)
    if "values" in flags:
        want = "    Values stored in model:\n" + "".join("        %d: %s (%s)\n" % (k, n, u) for k, (n, u) in enumerate(m.columns)) + "        Vertex-based data\n"
        if want not in text:
            return "values are not shown as %r" % want
    if "blocks" in flags:
        at = text.find("\n    Surfaces\n")
        if at < 0:
            return "no surfaces"
        lines = text[at+1:].split("\n")
        want = ["    Surfaces"]

        def axis(a):
            return None if a.coords is None else "variable"
        for head, s in (("Top surface", m.top), ("Topography/bathymetry", m.topo)):
            want.append("        %s:" % head)
            if s is None:
                want.append("            None")
            else:
                want.append("            Number of points: x=%d, y=%d" % (s.x.n, s.y.n))
                want.append(("            Resolution: ", [s.x, s.y]))
        bl = sorted(m.blocks, key=lambda b: -b.z_top)
        want.append("    Blocks (%d)" % len(bl))
        for b in bl:
            want.append("        Block '%s'" % b.name)
            want.append(("            Resolution: ", [b.x, b.y, b.z]))
            want.append(("            Elevation of top of block in logical space: ", b.z_top))
            want.append("            Number of points: x=%d, y=%d, z=%d" % (b.x.n, b.y.n, b.z.n))
            want.append(("            Dimensions: ", [b.x.length(), b.y.length(), b.z.length()]))
        for w, ln in zip(want, lines):
            if isinstance(w, str):
                if w != ln:
                    return "blocks: shown %r, expected %r" % (ln, w)
                continue
            if not ln.startswith(w[0]):
                return "blocks: shown %r, expected %r" % (ln, w[0])
            if isinstance(w[1], list):
                p = pairs(ln)
                for v, a in zip(w[1], "xyz"):
                    if isinstance(v, vm.Axis):
                        if not (p.get(a) == "variable" if v.coords is not None else num(p.get(a, ""), v.res)):
                            return "resolution shown as %s, expected %s" % (ln, v.res)
                    elif not num(p.get(a, ""), v):
                        return "dimensions shown as %s, expected %s" % (ln, w[1])
            elif not num(ln[len(w[0]):], w[1]):
                return "top of block shown as %s, expected %s" % (ln, w[1])
        if len([ln for ln in lines if ln.startswith("        Block '")]) != len(bl):
            return "wrong number of blocks"
    return None


def information(ck, i):
    rng = rng_for("C14", "i", i)
    d = ck.ws.folder("i", i)
    models = []
    for k in range(int(rng.choice([1, 1, 2, 3]))):
        m = consistent(rng, many=i == 3) if i == 3 or rng.random() < 0.5 else vm.random_model(rng)
        texts(rng, m)
        m.write(os.path.join(d, "m%d.h5" % k))
        models.append(m)
    flags = [x for x in ("description", "coordsys", "values", "blocks") if rng.random() < 0.6]
    opt = [("models", ",".join(os.path.basename(m.path) for m in models))]
    if rng.random() < 0.3 or not flags:
        opt.append(("all", None))
        flags = ["description", "coordsys", "values", "blocks"]
    else:
        opt += [(x, None) for x in flags]
    ran = run_app(ck, "info", as_options(rng, opt), d)
    files = [m.path for m in models]
    if ran.crash or ran.rc != 0:
        return replay_files(ck, ran, ran.crash or "exit status %d" % ran.rc, "valid run failed", files)
    parts = section(ran.out, [os.path.basename(m.path) for m in models])
    if parts is None:
        return replay_files(ck, ran, "not every model is shown", "model missing", files)
    for m, text in zip(models, parts):
        try:
            e = shown(m, flags, text)
        except (AttributeError, KeyError, ValueError) as x:
            e = "unreadable output (%s)" % x
        if e:
            return replay_files(ck, ran, e, "information differs: " + re.sub(r"[^a-z ].*", "", e), files)
        for x in flags:
            ck.case((i, m.path, x), dict(shown=x, text=text[:200]) if x == "blocks" else None)
        others = {"description": "\n    Title: ", "coordsys": "\n    Coordinate system:", "values": "\n    Values stored", "blocks": "\n    Blocks ("}
        for x, t in others.items():
            if x not in flags and t in text and "two\nlines" not in text:
                return replay_files(ck, ran, "%s shown without being asked for" % x, "not asked for", files)


def lines_of(text):
    """Verification lines: {what: ok}"""
    out = {}
    for g in re.finditer(r"(?m)^        Verifying (.*?) ?\.\.\.(OK|FAIL)$", text):
        out[g.group(1)] = g.group(2) == "OK"
    return out


def breaks(rng, m):
    """(name, object that must fail (None: any; '' : none), function of the open file)"""
    out = [("unchanged", "", lambda h: None)]
    always = {0}
    bl = sorted(m.blocks, key=lambda b: -b.z_top)
    big = lambda: float(rng.choice([1.001, 0.999, 0.5, 2.0, 1.00001]))

    def scale(o, a, fac):
        o.attrs[a] = np.asarray(o.attrs[a])*fac if isinstance(o.attrs[a], np.ndarray) else float(o.attrs[a])*fac
    objs = [("surface 'top surface'", "surfaces/top_surface", m.top), ("surface 'topography/bathymetry'", "surfaces/topography_bathymetry", m.topo)]
    objs = [o for o in objs if o[2] is not None] + [("block '%s'" % b.name, "blocks/" + b.name, b) for b in bl]
    for what, p, o in objs:
        for a in "xy":
            at = a + ("_resolution" if getattr(o, a).coords is None else "_coordinates")
            fac = big()
            out.append(("%s of %s times %g" % (at, p, fac), what, lambda h, p=p, at=at, fac=fac: scale(h[p], at, fac)))
            tiny = 1 + float(rng.choice([1e-12, -1e-12]))
            out.append(("%s of %s changed by roundoff" % (at, p), "", lambda h, p=p, at=at, fac=tiny: scale(h[p], at, fac)))
            if at.endswith("n"):
                for v in (np.nan, np.inf, 0.0, -1.0, 1e300, 1e-300):
                    out.append(("%s of %s is %g" % (at, p, v), what, lambda h, p=p, at=at, v=v: h[p].attrs.__setitem__(at, v)))
            out.append(("no %s of %s" % (at, p), "metadata", lambda h, p=p, at=at: h[p].attrs.__delitem__(at)))
    if m.top is not None:
        for b in bl:
            for a in "xy":
                t, o = getattr(m.top, a), getattr(b, a)
                if t.coords is None and o.coords is None:
                    N = t.n - 1
                    bad = [q for q in range(2, 2*N) if N % q != 0 and abs(N/q - round(N/q)) > 1e-2]
                    if bad:
                        q = int(rng.choice(bad))

                        def refit(h, p="blocks/" + b.name, a=a, q=q):
                            at = {k: h[p].attrs[k] for k in h[p].attrs}
                            s = list(h[p].shape)
                            s[0 if a == "x" else 1] = q + 1
                            del h[p]
                            ds = h.create_dataset(p, data=np.zeros(s, dtype="f4"))
                            for k, v in at.items():
                                ds.attrs[k] = v
                            ds.attrs[a + "_resolution"] = m.dims[0 if a == "x" else 1]/q
                        out.append(("%s resolution of block %s not a multiple" % (a, b.name), "block '%s'" % b.name, refit))
        if m.topo is not None:
            for a in "xy":
                if getattr(m.top, a).coords is None:
                    def retopo(h, a=a, n=int(getattr(m.top, a).n) + 2):
                        p = "surfaces/topography_bathymetry"
                        at = {k: h[p].attrs[k] for k in h[p].attrs}
                        s = list(h[p].shape)
                        s[0 if a == "x" else 1] = n
                        del h[p]
                        ds = h.create_dataset(p, data=np.zeros(s, dtype="f4"))
                        for k, v in at.items():
                            ds.attrs[k] = v
                        ds.attrs[a + "_resolution"] = m.dims[0 if a == "x" else 1]/(n-1)
                    def revary(h, a=a, n=int(getattr(m.top, a).n)):
                        at = h["surfaces/topography_bathymetry"].attrs
                        del at[a + "_resolution"]
                        at[a + "_coordinates"] = np.linspace(0.0, m.dims[0 if a == "x" else 1], n)
                    if getattr(m.topo, a).coords is None and m.topo.data.shape[0 if a == "x" else 1] == getattr(m.top, a).n:
                        out.append(("topography of variable %s resolution" % a, "resolution of top surface matches resolution of topography/bathymetry", revary))
                    out.append(("topography of another %s resolution" % a, "resolution of top surface matches resolution of topography/bathymetry", retopo))
    Z = "blocks span vertical dimension of domain"
    for b in bl:
        p = "blocks/" + b.name
        if len(bl) > 1:
            out.append(("block %s missing" % b.name, Z, lambda h, p=p: h.__delitem__(p)))
        if b.z.coords is None:
            for v in (0.01, -0.01, 100.0, -100.0):
                out.append(("z_top of %s moved by %g" % (b.name, v), Z, lambda h, p=p, v=v: h[p].attrs.__setitem__("z_top", float(h[p].attrs["z_top"]) + v)))
            out.append(("z_resolution of %s scaled" % b.name, Z, lambda h, p=p, fac=float(rng.choice([1.002, 0.998, 0.5, 2.0])): scale(h[p], "z_resolution", fac)))
            for v in (np.nan, np.inf, 0.0, -5.0):
                out.append(("z_resolution of %s is %g" % (b.name, v), Z, lambda h, p=p, v=v: h[p].attrs.__setitem__("z_resolution", v)))
            out.append(("no z_top of %s" % b.name, "metadata", lambda h, p=p: h[p].attrs.__delitem__("z_top")))
        else:
            def moved(h, p=p, k=int(rng.choice([0, -1])), v=float(rng.choice([0.5, 50.0]))):
                c = np.array(h[p].attrs["z_coordinates"])
                c[k] += v if k == 0 else -v
                h[p].attrs["z_coordinates"] = c
            out.append(("end of z_coordinates of %s moved" % b.name, Z, moved))
    # one end of a block moved, everything else as it was
    for k, b in enumerate(bl):
        for end, v in (("top", 0.5), ("top", -0.5), ("bottom", 0.5), ("bottom", -0.5)):
            def stretched(h, p="blocks/" + b.name, b=b, end=end, v=v*float(rng.choice([1.0, 0.01, 40.0]))):
                a = h[p].attrs
                if b.z.coords is not None:
                    c = np.array(a["z_coordinates"], dtype=float)
                    c[int(np.argmax(c) if end == "top" else np.argmin(c))] += v
                    a["z_coordinates"] = c
                else:
                    n = h[p].shape[2] - 1
                    zt, zb = float(a["z_top"]), float(a["z_top"]) - n*float(a["z_resolution"])
                    zt, zb = (zt + v, zb) if end == "top" else (zt, zb + v)
                    a["z_top"], a["z_resolution"] = zt, (zt - zb)/n
            always.add(len(out)) if (k, end) in ((0, "top"), (len(bl)-1, "bottom")) else None
            out.append(("%s of %s alone moved %s" % (end, b.name, "up" if v > 0 else "down"), Z, stretched))
    import h5py

    def none(h):
        del h["blocks"]
        h.create_group("blocks")
    out.append(("no blocks", Z, none))
    for k, a in enumerate(("dim_x", "dim_y", "dim_z")):
        what = Z if k == 2 else "block '%s'" % bl[0].name
        fac = float(rng.choice([1.001, 0.9, 2.0]))
        out.append(("%s times %g" % (a, fac), what, lambda h, a=a, fac=fac: h.attrs.__setitem__(a, float(h.attrs[a])*fac)))
        for v in (np.nan, np.inf, 0.0, -10.0):
            out.append(("%s is %g" % (a, v), what, lambda h, a=a, v=v: h.attrs.__setitem__(a, v)))
    for a in ("title", "keywords", "license", "data_values", "data_units", "data_layout", "dim_x", "dim_z", "crs", "origin_x", "origin_y", "y_azimuth", "references", "version",
              "id", "description", "history", "comment", "creator_name", "creator_institution", "creator_email", "acknowledgement", "authors", "repository_name", "repository_url", "repository_doi"):
        out.append(("no " + a, "metadata", lambda h, a=a: h.attrs.__delitem__(a)))
    out.append(("cell layout", "metadata", lambda h: h.attrs.__setitem__("data_layout", "cell")))
    out.append(("unknown crs", "model coordinate system", lambda h: h.attrs.__setitem__("crs", "nonsense")))
    out.append(("names and blocks differ", "metadata", lambda h: h.attrs.__setitem__("data_values", ["a"]*(len(m.columns)+1))))
    out.append(("names and units differ", "metadata", lambda h: h.attrs.__setitem__("data_units", ["a"]*(len(m.columns)+1))))
    return out, always


def verification(ck, i):
    import h5py, shutil
    rng = rng_for("C14", "v", i)
    d = ck.ws.folder("v", i)
    m = consistent(rng, crs=int(rng.choice([0, 1, 2, 3])), many=i == 3)
    texts(rng, m)
    good = m.write(os.path.join(d, "good.h5"))
    cases, always = breaks(rng, m)
    pick = range(len(cases)) if THOROUGH else sorted(always | set(map(int, 1 + rng.choice(len(cases)-1, size=min(len(cases)-1, 14), replace=False))))
    for k in pick:
        name, what, fn = cases[int(k)]
        path = os.path.join(d, "bad%d.h5" % k)
        shutil.copy(good, path)
        with h5py.File(path, "r+") as h:
            fn(h)
        # the model between two good ones, whose information must not mix
        order = [[path], ["good.h5", path, "good.h5"], [path, "good.h5"]][int(rng.integers(0, 3))]
        order = [os.path.basename(o) for o in order]
        flag = str(rng.choice(["verify", "verify", "all"]))
        ran = run_app(ck, "info", as_options(rng, [("models", ",".join(order)), (flag, None)]), d)

        def bad(key, text):
            replay_files(ck, ran, text + " (" + name + ")", key, [good, path])
        if ran.crash:
            bad("abnormal end: " + ran.crash, ran.crash)
            continue
        parts = section(ran.out, order)
        if parts is None:
            # with --all, information that is missing may end the program after the report
            parts = section(ran.out, order[:order.index(os.path.basename(path)) + 1])
            if parts is None or flag != "all" or not (what == "metadata" or name == "unknown crs" or "is" in name):
                bad("model missing", "not every model is shown")
                continue
        for o, text in zip(order, parts):
            L = lines_of(text)
            want = "" if o == "good.h5" else what
            nb = len(m.blocks)
            if want == "":
                exp = ["metadata", "model coordinate system"] + (["surface 'top surface'"] if m.top is not None else []) + \
                    (["surface 'topography/bathymetry'", "resolution of top surface matches resolution of topography/bathymetry"] if m.topo is not None else []) + \
                    ["block '%s'" % b.name for b in m.blocks] + ["blocks span vertical dimension of domain"]
                if set(exp) - set(L):
                    bad("not verified", "no verification of %s" % sorted(set(exp) - set(L)))
                    break
                if not all(L[e] for e in exp):
                    bad("consistent model fails", "%s of %s" % ([e for e in L if not L[e]], "the consistent model" if o == "good.h5" else "a model with " + name))
                    break
            elif L.get(want, True):
                bad("inconsistent model passes: %s" % re.sub(r"'.*'", "", want), "%s is not reported: %s" % (want, L))
                break
            elif what == "metadata" and name.startswith("no ") and name.split()[1] not in text:
                bad("missing metadata is not named", text[:800])
                break
        else:
            ck.case((i, name, flag), dict(change=name, fails=what))
            ck.count("failing_models" if what else "consistent_models")


def main():
    ck = Check("C14", "Random models with unusual descriptions, shown with random options and compared with what was written; consistent models and each with one random inconsistency, "
               "alone and between consistent ones, verified.", programs=("info",),
               assumptions=["numbers are shown to six significant digits", "the exit status of a failed verification is not specified"])
    n = 240 if THOROUGH else 100
    ck.map(lambda i: information(ck, i) if i < n else verification(ck, i - n), range(n + (60 if THOROUGH else 40)))
    return ck.finish(minimum=500)
