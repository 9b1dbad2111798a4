"""C24: data sources."""
import configparser, os, json, math, datetime
import h5py
import numpy as np
import pyproj
from .. import build
from ..create import *
from ..run import Check, THOROUGH, VERIF, f, enc
from ..work import rng_for, init_ops, NODATA
import sys
EV = os.path.join(VERIF, "harness", "ev")
sys.path.insert(0, EV)
import evlib


def planar_setup(rng, variable, variable_z):
    while True:
        s = Setup(rng, variable=variable, variable_z=variable_z)
        if s.scale == 1.0:
            return s


def no_surfaces(s, S):
    s.has_top = s.has_topo = False
    S.pop("top_surface", None)
    S.pop("topography_bathymetry", None)


def read(path):
    """Values of all blocks, surfaces and attributes of the file."""
    with h5py.File(path, "r") as h:
        return ({n: h["blocks"][n][:] for n in h["blocks"]}, {n: h["surfaces"][n][:] for n in h["surfaces"]} if "surfaces" in h else {},
                {k: h.attrs[k] for k in h.attrs}, {n: {k: h["blocks"][n].attrs[k] for k in h["blocks"][n].attrs} for n in h["blocks"]})


def elevations(gz):
    return np.array(gz.coords) if gz.coords is not None else gz.top - gz.pos()


def reach(q):
    """The larger of the spacings to the points next to each point."""
    if len(q) < 2:
        return np.array([np.inf])
    d = np.abs(np.diff(q))
    return np.maximum(np.append(d, 0.0), np.append(0.0, d))


# -- tables ----------------------------------------------------------------------------------------
class Table:
    """Rows at the grid points of all blocks."""

    def __init__(self, rng, d):
        self.rng = rng
        s = self.s = planar_setup(rng, 0.5, 0.5)
        while sum(a.n*b.n*c.n for _, a, b, c in s.blocks) > 6000:
            s = self.s = planar_setup(rng, 0.5, 0.5)
        s.has_top = s.has_topo = False
        place = {}  # grid points (micrometers) -> local coordinates
        for name, gx, gy, gz in s.blocks:
            for x in gx.pos():
                for y in gy.pos():
                    for z in elevations(gz):
                        place[tuple(int(round(v*1e6/20)) for v in (x, y, z))] = (x, y, z)
        keys = list(place)
        drop = rng.choice([0.0, 0.0, 0.05, 0.5])
        keep = [k for k in keys if rng.random() >= drop] or keys[:1]
        if rng.random() < 0.07:
            keep = [keys[int(rng.integers(0, len(keys)))]]
        rows = np.array([place[k] for k in keep])
        vals = rng.uniform(-1e4, 1e4, (len(rows), s.nv))
        self.value = {k: v for k, v in zip(keep, vals)}
        self.rows = rows
        L = np.array(s.dims)
        far = []  # places beyond the model
        for _ in range(int(rng.choice([0, 0, 5, 30]))):
            p = np.array([rng.uniform(0, L[0]), rng.uniform(0, L[1]), -rng.uniform(0, L[2])])
            a = int(rng.integers(0, 3))
            p[a] = [rng.choice([-1.2, 2.3])*L[a], -L[2]*rng.choice([-1.2, 2.3])][a == 2]
            far.append(p)
        for _ in range(int(rng.choice([0, 4, 20]))):  # just beyond the reach of the points at an end of the model
            _, *g = s.blocks[int(rng.integers(0, len(s.blocks)))]
            q = [g[0].pos(), g[1].pos(), elevations(g[2])]
            p = np.array([float(rng.choice(c)) for c in q])
            a = int(rng.integers(0, 3))
            e = int(rng.integers(0, 2))
            c = q[a]
            if len(c) < 2 or (a == 2 and abs(c[0 if e == 0 else -1]) > 1e-9 and abs(c[0 if e == 0 else -1] + L[2]) > 1e-9):
                continue
            p[a] = c[0] + (c[0] - c[1])*rng.uniform(0.55, 0.95) if e == 0 else c[-1] + (c[-1] - c[-2])*rng.uniform(0.55, 0.95)
            far.append(p)
        self.rows = np.vstack([rows] + [np.array(far).reshape((-1, 3))])
        order = rng.permutation(len(rows) + len(far)) if rng.random() < 0.7 else np.arange(len(rows) + len(far))
        X = np.vstack([rows] + [np.array(far).reshape((-1, 3))])
        V = np.vstack([vals, rng.uniform(-1e4, 1e4, (len(far), s.nv))])
        a = math.radians(s.azimuth)
        px = s.origin[0] + X[:, 0]*math.cos(a) + X[:, 1]*math.sin(a)
        py = s.origin[1] - X[:, 0]*math.sin(a) + X[:, 1]*math.cos(a)
        self.crs = str(rng.choice([s.crs, s.crs, "EPSG:4326", "EPSG:3857"]))
        if self.crs != s.crs:
            qx, qy = pyproj.Transformer.from_crs(s.crs, self.crs, always_xy=True).transform(px, py)
            bx, by = pyproj.Transformer.from_crs(self.crs, s.crs, always_xy=True).transform(qx, qy)
            if (np.abs(bx - px) < 1e-4).all() and (np.abs(by - py) < 1e-4).all():
                px, py = qx, qy
            else:  # too far from the area of the projection
                self.crs = s.crs
        ncol = 3 + s.nv + int(rng.integers(0, 3))
        self.cols = [int(v) for v in rng.permutation(ncol)[:3 + s.nv]]
        A = rng.uniform(-1, 1, (len(X), ncol))
        for c, v in zip(self.cols, [px, py, X[:, 2]] + list(V.T)):
            A[:, c] = v
        self.flag = str(rng.choice(["#", "#", "%", "!"]))
        with open(os.path.join(d, "table.txt"), "w") as fo:
            fo.write(self.flag + " a comment 1 2 3\n")
            for k in order:
                fo.write(rng.choice([" ", "  ", "\t"]).join("%.17g" % v for v in A[k]) + (" %s remark" % self.flag if rng.random() < 0.05 else "") + "\n")
                if rng.random() < 0.01:
                    fo.write(rng.choice(["\n", self.flag + " more\n"]))
        self.text = "%d rows, %d beyond the model, %d of %d grid points without row, coordinates in %s" % (len(rows) + len(far), len(far), len(keys) - len(keep), len(keys), self.crs)

    def sections(self, d, batch):
        S = self.s.config(None, "m.h5")
        no_surfaces(self.s, S)
        S["geomodelgrids"]["data_source"] = "geomodelgrids.create.data_srcs.csv.datasrc.CSVFile"
        S["csv"] = dict(filename="table.txt", crs=self.crs)
        if self.flag != "#":
            S["csv"]["comment_flag"] = self.flag.replace("%", "%")
        S["csv.columns"] = {n: str(c) for n, c in zip(["x", "y", "z"] + self.s.values, self.cols)}
        return S

    def batches(self):
        return [None]

    def wrong(self, ck, path):
        s = self.s
        blocks, surf, attrs, _ = read(path)
        for name, gx, gy, gz in s.blocks:
            v = blocks[name]
            X, Y, Z = gx.pos(), gy.pos(), elevations(gz)
            if v.shape != (len(X), len(Y), len(Z), s.nv):
                return "shape", "%s: %s" % (name, v.shape)
            near = None
            for i, x in enumerate(X):
                for j, y in enumerate(Y):
                    for k, z in enumerate(Z):
                        e = self.value.get(tuple(int(round(q*1e6/20)) for q in (x, y, z)))
                        if e is None:
                            if near is None:  # reach of a row: within half the spacing at the point
                                near = [reach(q) for q in (X, Y, -Z)]
                            dist = np.abs(self.rows - (x, y, z))
                            if (dist <= 0.51*np.array([near[0][i], near[1][j], near[2][k]])).all(axis=1).any():
                                ck.count("points_left_open")
                            elif (v[i, j, k] != np.float32(NODATA)).any():
                                return "value where no row is near", "%s %s at %s: %s" % (name, (i, j, k), (x, y, z), v[i, j, k])
                            else:
                                ck.count("points_without_row")
                        elif not (np.abs(v[i, j, k] - e) <= 1e-3 + 1e-6*np.abs(e)).all():
                            return "not the value of the row at the grid point", "%s %s at %s: stored %s, row %s" % (name, (i, j, k), (x, y, z), v[i, j, k], e)
                        else:
                            ck.count("points_with_row")
        return None, None

    def queries(self, rng, path):
        s = self.s
        blocks = read(path)[0]
        ops, want = ["q.new q", init_ops("q", "q", [path], s.values, s.crs)], []
        for name, gx, gy, gz in s.blocks:
            X, Y, Z = gx.pos(), gy.pos(), elevations(gz)
            if min(len(X), len(Y), len(Z)) < 3:
                continue
            for _ in range(5):
                i, j, k = (int(rng.integers(1, len(q) - 1)) for q in (X, Y, Z))
                v = blocks[name][i, j, k]
                if (blocks[name][i-1:i+2, j-1:j+2, k-1:k+2] == np.float32(NODATA)).any():
                    continue
                x, y = s.physical([X[i]], [Y[j]])
                want.append((len(ops), (name, i, j, k), v, 2e-3*np.ptp(blocks[name][i-1:i+2, j-1:j+2, k-1:k+2], axis=(0, 1, 2)) + 0.02))
                ops.append("q.q q %d %s %s %s" % (s.nv, f(s.origin[0] + x[0, 0]), f(s.origin[1] + y[0, 0]), f(Z[k])))
        return ops + ["q.del q"], want


# -- gridded files -----------------------------------------------------------------------------------
class Gridded:
    def __init__(self, rng, d):
        self.rng = rng
        self.nv = int(rng.integers(1, 4))
        self.names = ["vs", "vp", "rho"][:self.nv]
        n = self.n = [int(rng.choice([2, 3, 5, 9, 17, 31, 121])) for _ in range(2)] + [int(rng.choice([2, 3, 6, 11]))]
        kind = str(rng.choice(["f8", "f8", "f4"]))
        num = {"f8": np.float64, "f4": np.float32}[kind]
        self.kind = kind
        step = [float(rng.choice([1.0, 0.5, 0.1, 0.025, 2.0])) for _ in range(2)]
        lo = [float(np.round(rng.uniform(-150, -60) if rng.random() < 0.7 else rng.uniform(0, 120), 2)), float(np.round(rng.uniform(-45, 25), 2))]
        self.lon, self.lat = [num(lo[a]) + num(step[a])*np.arange(n[a]) for a in (0, 1)]
        self.unit, self.scale = [("km", 1e3), ("m", 1.0), ("kilometers", 1e3), ("meters", 1.0), ("feet", 0.3048)][int(rng.integers(0, 5))]
        dmin = float(rng.choice([0.0, 0.0, 5.0, 24.5, -3.0]))*(1 if self.scale > 1 else 1e3)
        self.even = rng.random() < 0.5
        if self.even:
            dd = float(rng.choice([1.0, 5.0, 0.5, 10.0]))*(1 if self.scale > 1 else 1e3)
            self.depth = num(dmin) + num(dd)*np.arange(n[2])
        else:
            steps = rng.choice([1.0, 2.0, 5.0, 10.0, 20.0], size=n[2] - 1)
            if len(steps) > 1 and steps.std() < 0.1:
                steps[0] += 3.0
            if len(steps) > 1 and rng.random() < 0.4:  # not quite evenly spaced
                steps = float(rng.choice([1.0, 5.0, 10.0]))*(1.0 + np.round(rng.uniform(-1, 1, len(steps)), 2)*float(rng.choice([0.2, 0.1, 0.03])))
                steps[0] = steps[1]*1.05
            else:
                steps = steps*float(rng.choice([1.0, 1.0, 0.05, 0.01]))
            self.even = len(steps) == 1
            self.depth = num(dmin) + np.concatenate([[0], np.cumsum(steps)]).astype(num)*num(1 if self.scale > 1 else 1e3)
        self.lon, self.lat, self.depth = [q.astype(num) for q in (self.lon, self.lat, self.depth)]
        self.mask = rng.random() < 0.5
        self.data = {}
        variables, arrays = [], {}
        order = [("longitude", self.lon), ("latitude", self.lat), ("depth", self.depth)]
        at = int(rng.integers(0, 4))
        for name in self.names:
            v = rng.uniform(1, 9, (n[2], n[1], n[0])).astype(np.float32)
            fill = 99999.0
            if self.mask:
                v[rng.random(v.shape) < 0.1] = fill
            self.data[name] = np.where(v == fill, np.float32(NODATA), v)
            arrays["v_" + name] = v
            variables.append((name, dict(units="km/s", long_name="long name of " + name, **({"_FillValue": fill} if self.mask else {}))))
        for name, q in order:
            arrays["v_" + name] = q
        variables[at:at] = [(nm, {}) for nm, _ in order]
        whole = all(float(q[k]).is_integer() for q in (self.lon, self.lat, self.depth) for k in (0, -1))
        akind = "i4" if whole and rng.random() < 0.5 else kind
        A = {}
        for c, q in (("lon", self.lon), ("lat", self.lat), ("vertical", self.depth)):
            A["geospatial_%s_min" % c], A["geospatial_%s_max" % c] = [akind, float(q[0])], [akind, float(q[-1])]
        A.update(geospatial_lon_units=str(rng.choice(["degrees_east", "degrees", "degrees_east "])), geospatial_lat_units=str(rng.choice(["degrees_north", "degrees"])), geospatial_vertical_units=self.unit,
                 title=" A title ", id="an-id", summary="Summary", keywords="a, b ,c", history="Past", comment="Comment", data_revision="r1", author_name="Doe, J.", author_email="doe@x.org",
                 author_institution="Inst", acknowledgement="Ack", reference="Doe (2020)", license="CC0")
        np.savez(os.path.join(d, "grid.npz"), meta=json.dumps(dict(attrs=A, variables=variables)), **arrays)
        os.rename(os.path.join(d, "grid.npz"), os.path.join(d, "grid.nc"))
        self.text = "%s longitudes, latitudes, depths (%s, %s, %s depths from %g %s)" % (n, kind, akind, "even" if self.even else "uneven", dmin, self.unit)

    def batches(self):
        n = int(np.prod(self.n))
        return [None, int(self.rng.integers(max(1, n//20), n + 2)), int(self.rng.integers(max(1, n//20), n + 2))]

    def sections(self, d, batch):
        rng = self.rng
        S = dict(geomodelgrids=dict(filename="m.h5", data_source="geomodelgrids.create.data_srcs.iris_emc.datasrc.EMCNetCDF", repository_name="None", repository_url="N/A", repository_doi="None"),
                 domain=dict(note="domain comes from the file"), block=dict(chunk_size="(%s)" % ", ".join(str(int(rng.integers(1, k + 1))) for k in self.n + [self.nv])), iris_emc=dict(filename="grid.nc"))
        if batch:
            S["domain"]["batch_size"] = str(batch)
        return S

    def bad_units(self, rng, base, d, S):
        with np.load(os.path.join(base, "grid.nc")) as z:
            a = dict(z)
        meta = json.loads(str(a.pop("meta")))
        which = str(rng.choice(["lon", "lat", "vertical"]))
        unit = str(rng.choice(UNKNOWN if which == "vertical" else ["radians", "m", "degrees_south", "", "gon"]))
        meta["attrs"]["geospatial_%s_units" % which] = unit
        np.savez(os.path.join(d, "grid.npz"), meta=json.dumps(meta), **a)
        os.rename(os.path.join(d, "grid.npz"), os.path.join(d, "grid.nc"))
        return "%s in %r" % (which, unit)

    def wrong(self, ck, path):
        blocks, surf, attrs, battrs = read(path)
        v = blocks["block"]
        e = np.stack([np.transpose(self.data[n]) for n in self.names], axis=3)
        if v.shape != e.shape:
            return "shape", "%s, expected %s" % (v.shape, e.shape)
        if not (v == e).all():
            k = np.argwhere(v != e)
            j = tuple(int(q) for q in k[0])
            return "not the value of the grid point", "%d of %d differ, first at %s: %s, in the source %s" % (len(k), v.size, j, v[j], e[j])
        ck.count("points_of_grids", e[..., 0].size)
        text = lambda q: [w.decode() if isinstance(w, bytes) else str(w) for w in q]
        want = dict(data_values=self.names, data_units=["km/s"]*self.nv, title="A title", id="an-id", description="Summary", keywords=["a", "b", "c"], version="r1", creator_name="Doe, J.",
                    authors=["Doe, J."], references=["Doe (2020)"], creator_email="doe@x.org", creator_institution="Inst", license="CC0", comment="Comment", acknowledgement="Ack",
                    repository_name="None", repository_url="N/A")
        for k, w in want.items():
            g = text(attrs[k]) if isinstance(w, list) else str(attrs[k])
            if g != w:
                return "attribute", "%s: %s, expected %s" % (k, g, w)
        if not str(attrs["history"]).startswith("Past\n"):
            return "attribute", "history: %s" % attrs["history"]
        if json.loads(attrs["auxiliary"]) != {"values": {n: "long name of " + n for n in self.names}}:
            return "attribute", "auxiliary: %s" % attrs["auxiliary"]
        b = battrs["block"]
        z = -self.scale*self.depth.astype(float)
        got = b["z_top"] - b["z_resolution"]*np.arange(self.n[2]) if "z_resolution" in b else np.array(b["z_coordinates"])
        if got.shape != z.shape or not (np.abs(got - z) <= 1e-2 + 3e-6*np.abs(z)).all():
            return "elevations", "%s, expected %s" % (got, z)
        for a, q in (("x", self.lon), ("y", self.lat)):
            o = float(attrs["origin_" + a])
            if abs(o - float(q[0])) > 1e-9 or abs(b[a + "_resolution"]*(len(q) - 1) - (float(q[-1]) - float(q[0]))) > 1e-4:
                return "grid", "%s: origin %s, resolution %s for %s" % (a, o, b[a + "_resolution"], q)
        return None, None

    def queries(self, rng, path):
        ops, want = ["q.new q", init_ops("q", "q", [path], self.names, "EPSG:4979")], []
        e = np.stack([np.transpose(self.data[n]) for n in self.names], axis=3)
        n = self.n
        for _ in range(12):
            i, j, k = (int(rng.integers(0, q)) for q in n)
            z = -self.scale*float(self.depth[k])
            ww = [0.5 if q < n[a] - 1 else -0.5 for a, q in ((0, i), (1, j), (2, k))]  # towards a neighbour: a little inside of the grid
            near = [sorted((q, q + (1 if w > 0 else -1))) for q, w in zip((i, j, k), ww)]
            cell = e[near[0][0]:near[0][1]+1, near[1][0]:near[1][1]+1, near[2][0]:near[2][1]+1]
            if (cell == np.float32(NODATA)).any():
                continue
            eps = 1e-3
            lon = float(self.lon[i])*(1 - eps) + float(self.lon[i + (1 if ww[0] > 0 else -1)])*eps
            lat = float(self.lat[j])*(1 - eps) + float(self.lat[j + (1 if ww[1] > 0 else -1)])*eps
            z = z*(1 - eps) - self.scale*float(self.depth[k + (1 if ww[2] > 0 else -1)])*eps
            if z > -0.01:
                continue
            want.append((len(ops), (i, j, k), e[i, j, k], 6*eps*9 + 0.01))
            ops.append("q.q q %d %s %s %s" % (self.nv, f(lat), f(lon), f(z)))
        return ops + ["q.del q"], want


# -- geologic models ---------------------------------------------------------------------------------
FB = ["Bay Block", "Coastal_Belt", "E_Diablo Range", "GVS", "West (upper) Diablo"]
ZN = ["<null>", "Cs_Coast Ranges", "GV gabbro", "K", "water", "lower crust: mafic"]
RULES = '''"""Rules."""
FB = %r
ZN = %r
NV = %d
INTS = %r


def rules(fault_block, zone):
    def rule(x, y, depth):
        if zone == "" or fault_block == "":
            return tuple([-1.0e+20]*NV)
        if zone in INTS:
            return tuple([1500, 2500, 0, 13, 7][:NV])
        base = [x, depth, y + 0.25, 100.0*FB.index(fault_block) + ZN.index(zone) + 0.5, depth + x]
        return tuple(base[:NV])
    return rule
'''


UNKNOWN = ["furlong", "inches", "", "degrees", "mm", "Kilofeet", "1000 m", "none"]


class Geologic:
    def __init__(self, rng, d):
        self.rng = rng
        while True:
            s = self.s = planar_setup(rng, 0.3, 0.0)
            if s.nv >= 4 and (s.has_top or s.has_topo) and sum(a.n*b.n*c.n for _, a, b, c in s.blocks) < 20000:
                break
        self.nv = s.nv - 2
        s.values = s.values[:self.nv] + ["fault_block_id", "zone_id"]
        md = self.md = os.path.join(d, "ev")
        os.makedirs(md)
        units = [("m", 1.0), ("km", 1e3), ("ft", 0.3048), ("kilometer", 1e3)]
        self.hu, self.h = units[int(rng.integers(0, 4))]
        self.vu, self.v = units[int(rng.integers(0, 4))]
        self.grd = {}
        for what, flag in (("top", True), ("topo", s.has_topo)):
            self.grd[what] = []
            for k in range(int(rng.integers(1, 4))):
                g = dict(a=rng.uniform(-60, 90)/self.v, b=rng.uniform(0, 80)/self.v, c=rng.uniform(0, 60)/self.v, kx=7e-5*self.h, ky=9e-5*self.h, p=rng.uniform(0, 6))
                name = "%s%d.2grd" % (what, k)
                json.dump(g, open(os.path.join(md, name), "w"))
                self.grd[what].append((name, g))
        fbs = list(rng.permutation(FB))[:int(rng.integers(1, 5))]
        zns = list(rng.permutation(ZN))[:int(rng.integers(2, 6))]
        ids = lambda names: [(int(k), str(nm)) for k, nm in zip(rng.permutation(30)[:len(names)], names)]
        self.fb, self.zn = ids(FB), ids(ZN)
        a = math.radians(s.azimuth)

        def planes(n, vertical):
            out = []
            for _ in range(n):
                x, y = rng.uniform(0, s.dims[0]), rng.uniform(0, s.dims[1])
                px = (s.origin[0] + x*math.cos(a) + y*math.sin(a))/self.h
                py = (s.origin[1] - x*math.sin(a) + y*math.cos(a))/self.h
                t = rng.uniform(0, 2*math.pi)
                w = [math.cos(t), math.sin(t), 0.0] if vertical else [0.1*math.cos(t), 0.1*math.sin(t), 1.0]
                z = -rng.uniform(0, s.dims[2])/self.v
                out.append(w + [w[0]*px + w[1]*py + w[2]*z])
            return out
        fl = [str(q) for q in rng.permutation(fbs)]
        zl = [str(q) for q in rng.permutation(zns)]
        if rng.random() < 0.5:  # parts outside of the geologic model
            zl[int(rng.integers(0, len(zl)))] = ""
            if rng.random() < 0.5:
                fl[int(rng.integers(0, len(fl)))] = ""
        self.model = dict(fault_planes=planes(len(fl) - 1, True), zone_planes=planes(len(zl) - 1, False), fault_labels=fl, zone_labels=zl, indent=str(rng.choice(["", "  "])),
                          sections=[q for q in [("Fault Block Names", self.fb), ("Zone Names:", self.zn)][::int(rng.choice([-1, 1]))]])
        json.dump(self.model, open(os.path.join(md, "model.seq"), "w"))
        self.ints = [z for z in ZN if rng.random() < 0.3]
        self.rules = "vfrules_" + "".join(rng.choice(list("abcdefghij"), 12))
        with open(os.path.join(md, self.rules + ".py"), "w") as fo:
            fo.write(RULES % (FB, ZN, self.nv, self.ints))
        sys.dont_write_bytecode = True
        self.text = "%d fault blocks, %d zones (%s outside), units %s and %s, %d + %d grids" % (len(fl), len(zl), zl.count(""), self.hu, self.vu, len(self.grd["top"]), len(self.grd["topo"]))

    def batches(self):
        n = max(a.n*b.n*c.n for _, a, b, c in self.s.blocks)
        return [None, int(self.rng.integers(max(1, n//8), n + 2))]

    def sections(self, d, batch):
        S = self.s.config(batch, "m.h5")
        g = S["geomodelgrids"]
        g["data_source"] = "geomodelgrids.create.data_srcs.earthvision.datasrc.RulesDataSrc"
        lst = lambda q: listing(self.rng, [nm for nm, _ in self.grd[q]])
        S["earthvision"] = dict(model_dir=self.md, top_surface_2grd=lst("top"), topography_bathymetry_2grd=lst("topo"), geologic_model="model.seq", elev_units=self.vu, xy_units=self.hu,
                                rules_fn=self.rules + ".rules", rules_pythonpath=self.md)
        S["earthvision.environment"] = dict(PATH=EV + ":/usr/bin:/bin", PYTHONDONTWRITEBYTECODE="1")
        return S

    def bad_units(self, rng, base, d, S):
        which, unit = str(rng.choice(["elev_units", "xy_units"])), str(rng.choice(UNKNOWN))
        S["earthvision"][which] = unit
        return "%s %r" % (which, unit)

    def wrong(self, ck, path):
        s = self.s
        blocks, surfs, attrs, _ = read(path)
        left = [n for n in os.listdir(self.md) if n.endswith(".dat")]
        if left:
            return "files left", str(left)
        ids = {k: (dict((nm, q) for q, nm in l) | {"": NODATA}) for k, l in (("fault_block_ids", self.fb), ("zone_ids", self.zn))}
        if json.loads(attrs["auxiliary"]) != ids:
            return "ids", "auxiliary: %s, expected %s" % (attrs["auxiliary"], ids)
        surf = {}
        for flag, name, what in ((s.has_top, "top_surface", "top"), (s.has_topo, "topography_bathymetry", "topo")):
            if not flag:
                continue
            x, y = s.physical(s.top[0].pos(), s.top[1].pos())
            x, y = (x + s.origin[0])/self.h, (y + s.origin[1])/self.h
            e = np.max([np.vectorize(lambda p, q: evlib.elevation(g, p, q), otypes=[float])(x, y)*self.v for _, g in self.grd[what]], axis=0)
            got = surfs[name][:, :, 0]
            if got.shape != e.shape or not (np.abs(got - e) <= 0.02).all():
                return "surface", "%s: %s, expected %s" % (name, got.ravel()[:5], e.ravel()[:5])
            surf[what] = got.astype(float)
            ck.count("surface_points", e.size)
        for name, gx, gy, gz in s.blocks:
            v = blocks[name]
            X, Y = gx.pos(), gy.pos()
            if v.shape != (len(X), len(Y), gz.n, self.nv + 2):
                return "shape", "%s: %s" % (name, v.shape)
            ix = [int(np.argmin(np.abs(s.top[0].pos() - q))) for q in X]
            iy = [int(np.argmin(np.abs(s.top[1].pos() - q))) for q in Y]
            zl = elevations(gz)
            px, py = s.physical(X, Y)
            px, py = px + s.origin[0], py + s.origin[1]
            if s.has_top:
                t = surf["top"][np.ix_(ix, iy)][:, :, None]
                z = -s.dims[2] + (t + s.dims[2])/s.dims[2]*(zl[None, None, :] + s.dims[2])
            else:
                z = np.broadcast_to(zl, (len(X), len(Y), gz.n)).copy()
            z[:, :, 0] += s.offset
            ground = surf["topo" if s.has_topo else "top"][np.ix_(ix, iy)]
            for i in range(len(X)):
                for j in range(len(Y)):
                    for k in range(gz.n):
                        x, y, zz = px[i, j], py[i, j], z[i, j, k]
                        p = (x/self.h, y/self.h, zz/self.v)
                        if min([abs(evlib.side(q, *p)) for q in self.model["fault_planes"] + self.model["zone_planes"]] or [9e9]) < 0.3*max(1/self.h, 1/self.v):
                            ck.count("points_left_open")
                            continue
                        fb, zn = evlib.label(self.model, *p)
                        want = [ids["fault_block_ids"][fb], ids["zone_ids"][zn]]
                        if not (v[i, j, k, self.nv:] == np.array(want, dtype=np.float32)).all():
                            return "ids at a point", "%s %s: %s, expected %s (%s, %s)" % (name, (i, j, k), v[i, j, k], want, fb, zn)
                        depth = ground[i, j] - (zz - (s.offset if k == 0 else 0.0))
                        if zn == "" or fb == "":
                            e = [NODATA]*self.nv
                        elif zn in self.ints:
                            e = [1500, 2500, 0, 13, 7][:self.nv]
                        else:
                            e = [x, depth, y + 0.25, 100.0*FB.index(fb) + ZN.index(zn) + 0.5, depth + x][:self.nv]
                        tol = np.array([0.1 + 2e-7*abs(q) for q in e])
                        if not (np.abs(v[i, j, k, :self.nv] - np.array(e)) <= tol).all():
                            return "not the values of the rules", "%s %s: %s, expected %s (%s, %s, depth %s)" % (name, (i, j, k), v[i, j, k], e, fb, zn, depth)
                        ck.count("points_by_rules")
        return None, None

    def queries(self, rng, path):
        return None, None


KINDS = [("table", Table), ("gridded file", Gridded), ("geologic model", Geologic)]


def group(ck, pkg, g):
    rng = rng_for("C24", g)
    requests, meta = [], []
    for j in range(9 if not THOROUGH else 24):
        kind, cls = KINDS[j % 3]
        base = os.path.dirname(ck.ws.path("g%d-%d" % (g, j), "x"))
        src = cls(rng, base)
        runs = []
        if kind == "geologic model":  # a program fails: no model; later runs are not disturbed by what is left
            d = os.path.join(base, "failing")
            os.makedirs(d)
            S = src.sections(d, src.batches()[-1])
            plan = "%s:%d:%s" % (rng.choice(["ev_facedump", "ev_fp", "ev_label"], p=[0.1, 0.4, 0.5]), int(rng.choice([1, 1, 2, 3])), rng.choice(["part", "none", "late", "kill"]))
            S["earthvision.environment"]["VF_EV_FAIL"] = plan
            write_config(rng, S, d, ["a.cfg"])
            requests.append(dict(cwd=d, runs=[["--config=a.cfg", "--all"]]))
            runs.append((d, plan))
        if rng.random() < 0.5 and kind != "table":  # units that are not known are refused, not taken for metres or degrees
            d = os.path.join(base, "refused")
            os.makedirs(d)
            S = src.sections(d, None)
            bad = src.bad_units(rng, base, d, S)
            write_config(rng, S, d, ["a.cfg"])
            requests.append(dict(cwd=d, runs=[["--config=a.cfg", "--all"]]))
            runs.append((d, bad))
        for k, batch in enumerate(src.batches()):
            d = os.path.join(base, "run%d" % k)
            os.makedirs(d)
            for n in ("table.txt", "grid.nc"):
                if os.path.exists(os.path.join(base, n)):
                    os.symlink(os.path.join(base, n), os.path.join(d, n))
            conf = write_config(rng, src.sections(d, batch), d, ["a.cfg"])
            steps = [[["--all"]], [["--import-domain"], ["--import-surfaces"], ["--import-blocks"]]][int(rng.random() < 0.3)]
            requests.append(dict(cwd=d, runs=[["--config=a.cfg"] + a for a in steps]))
            runs.append((d, batch))
        meta.append((kind, src, runs))
    res, crash, err = run_creations(pkg, requests)
    if crash:
        ck.violation("creation ends abnormally: " + crash.split(":")[0], "%s at request %s" % (crash, requests[len(res)] if len(res) < len(requests) else None), None, extra=err[-4000:])
        return
    at = 0
    for kind, src, runs in meta:
        first = None
        for d, batch in runs:
            r = res[at]
            at += 1
            path = os.path.join(d, "m.h5")
            files = [q for q in (os.path.join(d, n) for n in ("a.cfg", "table.txt", "grid.nc", "m.h5")) if os.path.exists(q)]
            bad = [x for x in r if x[0] != "OK"]
            if d.endswith("failing"):
                count = os.path.join(src.md, ".calls-" + batch.split(":")[0])
                failed = os.path.exists(count) and int(open(count).read()) >= int(batch.split(":")[1])
                if failed != bool(bad):
                    ck.violation("%s: %s" % (kind, "failure of a program ignored" if failed else "creation fails"), "%s, %s: %s" % (src.text, batch, r), None, files)
                ck.case((g, d), dict(source=kind, what="fails", plan=batch))
                ck.count("failing_programs", int(failed))
                continue
            if d.endswith("refused"):
                if not bad:
                    ck.violation("%s: unknown units accepted" % kind, "%s: %s" % (batch, r), None, files)
                ck.case((g, d), dict(source=kind, what="unknown units", units=batch))
                ck.count("unknown_units")
                continue
            if bad:
                ck.violation("%s: creation fails: %s" % (kind, bad[0][1].split(":")[0]), "%s, batch size %s: %s" % (src.text, batch, bad[0][1]), None, files)
                continue
            key, text = src.wrong(ck, path)
            if key:
                ck.violation("%s: %s" % (kind, key), "%s, batch size %s: %s" % (src.text, batch, text), None, files)
                continue
            if first is None:
                first = path
                ops, want = src.queries(rng, path)
                if want:
                    tr = ck.drive(ops)
                    if not ck.crash(tr, "query created model", [path]):
                        for k, where, v, tol in want:
                            e = tr.events[k]
                            got = e.floats(1) if e.ok else None
                            if got is None or not (np.abs(np.array(got) - v) <= tol).all():
                                ck.violation("%s: query at a grid point differs" % kind, "%s: %s: %s, stored %s" % (src.text, where, e.args if got is None else got, v), ops, [path])
                                break
                            ck.count("grid_points_queried")
            ck.case((g, d), dict(source=kind, what=src.text, batch=batch))
            ck.count(kind.replace(" ", "_") + "s")


def shipped(ck, pkg, n):
    """The configuration of the New Zealand model that is part of the repository, with a table at some of its grid points."""
    rng = rng_for("C24", "shipped", n)
    cfg = os.path.join(build.REPO, "models", "gns_nz", "seismic_nzcvm_2_3.cfg")
    if not os.path.exists(cfg):
        return ck.count("shipped_configuration_missing")
    p = configparser.ConfigParser()
    p.read(cfg)
    listed = lambda t: [q.strip() for q in t.strip("[]() ").split(",")]
    num = lambda sec, key: float(p.get(sec, key))
    cols = {k.lower(): int(v) for k, v in p.items("csv.columns")}
    names = listed(p.get("data", "values"))
    d = os.path.dirname(ck.ws.path("nz%d" % n, "x"))
    X, Y, Z = (np.array([float(q) for q in listed(p.get("block", c + "_coordinates"))]) for c in "xyz")
    keep = rng.random((len(X), len(Y), len(Z))) < (0.05 if n % 2 else 0.3)
    I = np.argwhere(keep)
    lx, ly, lz = X[I[:, 0]], Y[I[:, 1]], Z[I[:, 2]]
    a = math.radians(num("coordsys", "y_azimuth"))
    px = num("coordsys", "origin_x") + lx*math.cos(a) + ly*math.sin(a)
    py = num("coordsys", "origin_y") - lx*math.sin(a) + ly*math.cos(a)
    there = pyproj.Transformer.from_crs(p.get("coordsys", "crs"), p.get("csv", "crs"), always_xy=True)
    back = pyproj.Transformer.from_crs(p.get("csv", "crs"), p.get("coordsys", "crs"), always_xy=True)
    lon, lat = there.transform(px, py)
    bx, by = back.transform(lon, lat)
    ok = (np.abs(bx - px) < 1.0) & (np.abs(by - py) < 1.0)
    I, lon, lat, lz = I[ok], lon[ok], lat[ok], lz[ok]
    A = rng.uniform(-1, 1, (len(I), 1 + max(cols.values())))
    V = rng.uniform(1, 9000, (len(I), len(names)))
    A[:, cols["x"]], A[:, cols["y"]], A[:, cols["z"]] = lon, lat, lz
    for k, name in enumerate(names):
        A[:, cols[name.lower()]] = V[:, k]
    np.savetxt(os.path.join(d, "table.txt"), A[rng.permutation(len(A))], fmt="%.12g", header="a header")
    with open(os.path.join(d, "here.cfg"), "w") as fo:
        fo.write("[geomodelgrids]\nfilename = m.h5\n[csv]\nfilename = table.txt\n")
    res, crash, err = run_creations(pkg, [dict(cwd=d, runs=[["--config=%s,here.cfg" % cfg, "--all"]])])
    if crash or res[0][0][0] != "OK":
        return ck.violation("table: creation fails", "shipped configuration of New Zealand: %s" % (crash or res[0]), None, extra=err[-3000:])
    want = np.full((len(X), len(Y), len(Z), len(names)), np.float32(NODATA))
    want[I[:, 0], I[:, 1], I[:, 2]] = V
    got = read(os.path.join(d, "m.h5"))[0].get("block")
    if got is None or got.shape != want.shape:
        return ck.violation("table: shape", "shipped configuration: %s" % (None if got is None else (got.shape,)), None)
    off = np.argwhere(np.abs(got - want) > 1e-2 + 1e-6*np.abs(want))
    if len(off):
        j = tuple(int(q) for q in off[0])
        return ck.violation("table: not the value of the row at the grid point", "shipped configuration of New Zealand, %d of %d differ, first at %s: stored %s, expected %s"
                            % (len(off), want.size, j, got[j], want[j]), None, [os.path.join(d, "here.cfg")])
    ck.case(("shipped", n), dict(source="table", what="models/gns_nz/seismic_nzcvm_2_3.cfg, %d rows for %d grid points" % (len(I), keep.size)))
    ck.count("points_with_row", len(I))
    ck.count("points_without_row", int(keep.size - len(I)))


def main():
    ck = Check("C24", "Random tables, gridded files and geologic models (with stand-ins for the netCDF4 package and for the EarthVision programs) are turned into models by the application; every stored value is compared with the "
               "entry of the source at the location of its grid point, and models made of tables and gridded files are queried at grid points.")
    pkg = os.path.dirname(ck.ws.path("pkg", "x"))
    build.stage_python(pkg)
    ck.map(lambda g: group(ck, pkg, g), range(64 if THOROUGH else 16))
    ck.map(lambda n: shipped(ck, pkg, n), range(4 if THOROUGH else 1))
    return ck.finish(minimum=100)
