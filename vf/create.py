"""Model creation: random configurations, running the application, and what its result must be."""
import copy, json, os, math
import numpy as np
from . import build
from .run import VERIF, CheckError, crash_kind, run_process

TEXT = ("title", "id", "description", "history", "comment", "version", "creator_name", "creator_institution", "creator_email", "acknowledgement",
        "repository_name", "repository_url", "repository_doi", "license")
LISTS = {"keywords": ",", "authors": "|", "references": "|"}


def plain_meta(rng=None):
    m = {k: "Text for " + k for k in TEXT}
    m.update(keywords=["a", "b c"], authors=["Doe, J.", "Smith, K."], references=["One (2020)", "Two, 2021"])
    return m


def decimal(v):
    """As people write it: lengths are not always the product of number and resolution to the last bit."""
    return float("%.12g" % v)


class Grid:
    """An axis as configured: uniform (res, n) or coordinates."""

    def __init__(self, n, res=None, coords=None, top=None):
        self.n, self.res, self.coords, self.top = n, res, coords, top

    def pos(self):
        return self.res*np.arange(self.n) if self.coords is None else np.array(self.coords)


def number(rng, v):
    """One of the ways to write a number exactly."""
    k = rng.random()
    if k < 0.6:
        return repr(float(v))
    if k < 0.8 and float(v).is_integer() and abs(v) < 1e15:
        return "%d" % v
    return "%.17e" % v


def listing(rng, items, delim=","):
    items = list(items)
    k = rng.random()
    o, c = ("[", "]") if k < 0.7 else ("(", ")")
    gap = " "*int(rng.integers(0, 3))
    if len(items) > 1 and rng.random() < 0.15 and all(q.strip() and q.strip()[0] not in '#;' for q in items):  # over several lines
        gap = "\n    " if len(gap) < 2 else "\n\t"
    return o + (delim + gap).join(items) + c


class Setup:
    """A random model to be created."""

    def __init__(self, rng, variable=0.3, variable_z=0.1, long=False, many=False):
        self.rng = rng
        self.meta = plain_meta()
        self.nv = int(rng.integers(1, 6))
        self.values = ["v%d" % k for k in range(self.nv)]
        self.units = ["m", "kg/m**3", "None", "m/s", "K"][:self.nv]
        geo = rng.random() < 0.2
        self.crs = "EPSG:4326" if geo else str(rng.choice(["EPSG:26910", "EPSG:3310", "EPSG:3488"]))
        self.origin = [float(rng.uniform(34, 40)), float(rng.uniform(-124, -118))] if geo else [float(rng.uniform(-1e5, 9e5)), float(rng.uniform(-3e5, 4.5e6))]
        self.azimuth = float(rng.choice([0.0, 0.0, 90.0, -35.5, 12.25, float(rng.uniform(-180, 360))]))
        unit = 1e-5 if geo else 1.0
        self.scale = 1e5 if geo else 1.0
        fine = [float(rng.choice([10.0, 50.0, 0.1, 33.3, 1000.0, 0.7, float(rng.uniform(1, 500))]))*unit for _ in range(2)]
        N = [int(rng.choice([4, 6, 8, 12, 20, 24])) for _ in range(2)]
        if long:  # a strip of many points
            k = int(rng.integers(0, 2))
            N[k], N[1-k] = int(rng.choice([96, 120, 240, 360])), int(rng.choice([2, 4, 6]))
            fine[k] = float(rng.choice([0.1, 0.3, 0.7, 33.3, 1.1, 0.01, 12.7]))*unit
        var = [rng.random() < variable, rng.random() < variable]
        coords = [np.concatenate([[0.0], np.cumsum(rng.uniform(0.5, 2.0, n))])*f if v else None for n, f, v in zip(N, fine, var)]
        if not geo:
            coords = [None if c is None else np.round(c, 3) for c in coords]
        L = [float(c.max()) if c is not None else decimal(n*f) for n, f, c in zip(N, fine, coords)]
        self.has_top = rng.random() < 0.75
        self.has_topo = self.has_top and rng.random() < 0.6
        if not self.has_top:
            self.has_topo = rng.random() < 0.2

        def axis(k, skip):
            if coords[k] is None:
                return Grid(N[k]//skip + 1, res=decimal(fine[k]*skip))
            c = coords[k][::skip]
            if skip > 1 and rng.random() < 0.5:  # any coordinates of the surface
                inner = sorted(int(q) for q in rng.choice(np.arange(1, N[k]), size=min(N[k]-1, int(rng.integers(1, 5))), replace=False))
                c = coords[k][[0] + inner + [N[k]]]
            elif (len(coords[k]) - 1) % skip:
                c = np.append(c, coords[k][-1])
            if not geo and rng.random() < 0.4:  # coordinates of the surface up to roundoff and below the tolerance
                c = c.copy()
                c[1:-1] += rng.uniform(-1, 1, len(c)-2)*float(rng.choice([1e-9, 1e-3]))*min(1.0, float(np.abs(np.diff(coords[k])).min()))
            return Grid(len(c), coords=[float(v) for v in c])
        self.top = (axis(0, 1), axis(1, 1))
        nb = int(rng.choice([1, 2, 3])) if not many else int(rng.integers(9, 15))
        self.blocks = []
        z = 0.0
        for b in range(nb):
            g = [axis(k, int(rng.choice([q for q in range(1, N[k]+1) if N[k] % q == 0]))) for k in (0, 1)]
            if rng.random() < variable_z:
                d = np.round(np.cumsum(rng.uniform(20, 800, int(rng.integers(1, 6)))), 2)
                zc = [z] + [z - float(v) for v in d]
                self.blocks.append(("block%d" % b, g[0], g[1], Grid(len(zc), coords=zc, top=z)))
                z = zc[-1]
            else:
                dz = float(rng.choice([5.0, 20.0, 100.0, 0.1, 333.3, float(rng.uniform(1, 900))]))
                n = int(rng.integers(1, 7))
                self.blocks.append(("block%d" % b, g[0], g[1], Grid(n+1, res=dz, top=z)))
                z -= n*dz
        self.dims = L + [-z]
        self.offset = float(rng.choice([0.0, 0.0, -1.0, -0.01]))
        self.aux = None

    def scaled(self, k):
        """The same numbers of points on another grid."""
        t = copy.deepcopy(self)
        for g in list(t.top) + [g for b in t.blocks for g in b[1:]]:
            if g.coords is None:
                g.res *= k
            else:
                g.coords = [v*k for v in g.coords]
            if g.top is not None:
                g.top *= k
        t.dims = [v*k for v in t.dims]
        return t

    def config(self, batch, filename, meta=None):
        """Sections of the configuration."""
        rng, m = self.rng, meta or self.meta
        num = lambda v: number(rng, v)
        S = {}
        g = {k: m[k] for k in TEXT}
        for k, d in LISTS.items():
            g[k] = listing(rng, m[k], d)
        g.update(filename=filename, data_source="vf_source.Source")
        S["geomodelgrids"] = g
        S["coordsys"] = dict(crs=self.crs, origin_x=num(self.origin[0]), origin_y=num(self.origin[1]), y_azimuth=num(self.azimuth))
        S["data"] = dict(values=listing(rng, self.values), units=listing(rng, self.units), layout="vertex")
        if self.aux is not None:
            S["data"]["auxiliary"] = self.aux
        S["domain"] = dict(dim_x=num(self.dims[0]), dim_y=num(self.dims[1]), dim_z=num(self.dims[2]), blocks=listing(rng, [b[0] for b in self.blocks]))
        if batch is not None:
            S["domain"]["batch_size"] = str(batch)

        def grid(name, axes, chunk):
            s = {}
            for a, ax in zip("xyz", axes):
                if ax.coords is None:
                    s[a + "_resolution"] = num(ax.res)
                else:
                    s[a + "_coordinates"] = listing(rng, [num(v) for v in ax.coords])
            s["chunk_size"] = "(" + ", ".join("%d" % max(1, min(int(c), int(w))) for c, w in chunk) + ")"
            S[name] = s
            return s
        if self.has_top:
            grid("top_surface", self.top, [(rng.integers(1, 9), self.top[0].n), (rng.integers(1, 9), self.top[1].n), (1, 1)])
        if self.has_topo:
            grid("topography_bathymetry", self.top, [(rng.integers(1, 9), self.top[0].n), (rng.integers(1, 9), self.top[1].n), (1, 1)])
        z = 0.0
        for name, x, y, zg in self.blocks:
            s = grid(name, (x, y, zg), [(rng.integers(1, 9), x.n), (rng.integers(1, 9), y.n), (rng.integers(1, 5), zg.n), (rng.integers(1, 5), self.nv)])
            if zg.coords is None:
                s["z_top"] = num(zg.top)
                s["z_bot"] = num(decimal(zg.top - zg.res*(zg.n-1)))
            s["z_top_offset"] = num(self.offset)
        S["source"] = dict(scale=repr(self.scale))
        return S

    # -- what must come out ----------------------------------------------------------------------
    def physical(self, x, y):
        a = math.radians(self.azimuth)
        X, Y = np.meshgrid(x, y, indexing="ij")
        return X*math.cos(a) + Y*math.sin(a), -X*math.sin(a) + Y*math.cos(a)  # relative to the origin


def write_config(rng, S, d, names):
    """Writes sections into one or several files in which later ones override; list of file names."""
    n = len(names)
    parts = [dict() for _ in range(n)]
    for sec, kv in S.items():
        for k, v in kv.items():
            at = int(rng.integers(0, n))
            parts[at].setdefault(sec, {})[k] = v
            if at > 0 and rng.random() < 0.1:  # overridden later
                parts[int(rng.integers(0, at))].setdefault(sec, {})[k] = v if k in ("filename", "blocks") else "overridden"
    for name, p in zip(names, parts):
        with open(os.path.join(d, name), "w", encoding="utf-8") as fo:
            for sec in [list(p)[int(q)] for q in rng.permutation(len(p))] if p else []:
                fo.write("[%s]\n" % sec)
                for k, v in p[sec].items():
                    fo.write("%s %s %s\n" % (k, "=:"[int(rng.random() < 0.1)], v.replace("%", "%%")))
                fo.write("\n")
    return names


def run_creations(pkg, requests, timeout=300):
    """Results of each request (list of [kind, text] per command line), and a crash description or None."""
    env = dict(build.ENV, PYTHONPATH=pkg + ":" + os.path.join(VERIF, "harness"))
    out, err, rc, to = run_process(["/usr/bin/python3", os.path.join(VERIF, "harness", "create.py")], stdin="".join(json.dumps(r) + "\n" for r in requests), env=env, timeout=timeout)
    lines = out.splitlines()
    if "READY" not in lines:
        raise CheckError("cannot run the application: " + err[-1500:])
    res = [json.loads(ln[2:]) for ln in lines if ln.startswith("R ")]
    crash = None
    if to or "END" not in lines:
        crash = "timeout" if to else crash_kind(err, rc)
    return res, crash, err
