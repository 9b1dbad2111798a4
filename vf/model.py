"""Random GeoModelGrids models: specification, HDF5 writer, and an independent reference evaluation.

The reference is written from the documentation of the file format, in the style "which answers are
acceptable at this point": at a discontinuity of the answer (edge of the domain, contact of blocks, face
shared with missing data) closer than the roundoff of the coordinates, both sides are acceptable.
"""
import math
import numpy as np

NODATA = -1.0e+20
EPS = 2.220446049250313e-16


class Axis:
    """Grid coordinates along one axis. Horizontal: ascending from 0; vertical: descending from z_top."""

    def __init__(self, res=None, n=None, coords=None, start=0.0, descending=False):
        self.res, self.start, self.descending = res, start, descending
        if coords is not None:
            self.coords = np.array(coords, dtype=np.float64)
            self.n = len(self.coords)
        else:
            self.coords = None
            self.n = n

    def positions(self):
        """Coordinates relative to the start, non-negative and increasing (depth below top for z)."""
        if self.coords is None:
            return self.res * np.arange(self.n)
        d = self.coords - self.coords[0]
        return -d if self.descending else d

    def length(self):
        return float(self.positions()[-1])

    def locate(self, c, eps):
        """Cells (index, fraction) in which relative coordinate c may fall, given its uncertainty."""
        if not hasattr(self, "_p"):
            self._p = self.positions()
            self._d = np.diff(self._p)
        p = self._p
        out = []
        seen = set()
        for cc in (c, c - eps, c + eps):
            i = int(np.searchsorted(p, cc, side="right")) - 1
            i = min(max(i, 0), self.n - 2)
            if i not in seen:
                seen.add(i)
                f = (c - p[i]) / self._d[i]
                out.append((i, min(max(f, 0.0), 1.0)))
        return out

    def attrs(self, name):
        if self.coords is None:
            return {name + "_resolution": self.res}
        return {name + "_coordinates": self.coords}


class Surface:
    def __init__(self, x, y, data):
        self.x, self.y, self.data = x, y, np.asarray(data, dtype=np.float32)

    def evaluate(self, x, y, ex, ey):
        """(value, uncertainty)"""
        vals = []
        for i, fx in self.x.locate(x, ex):
            for j, fy in self.y.locate(y, ey):
                c = self.data[i:i+2, j:j+2].astype(np.float64)
                v = (c[0, 0]*(1-fx)*(1-fy) + c[1, 0]*fx*(1-fy) + c[0, 1]*(1-fx)*fy + c[1, 1]*fx*fy)
                rng = float(c.max() - c.min())
                tol = 8*rng*(ex/self.x._d[i] + ey/self.y._d[j]) + 256*EPS*float(np.abs(c).max()) + 1e-12*rng
                vals.append((v, tol))
        v0 = vals[0][0]
        return v0, max(abs(v - v0) + t for v, t in vals)


class Block:
    def __init__(self, name, x, y, z, z_top, data):
        self.name, self.x, self.y, self.z, self.z_top = name, x, y, z, z_top
        self.data = np.asarray(data, dtype=np.float32)

    @property
    def z_bot(self):
        return self.z_top - self.z.length()

    def evaluate(self, x, y, z, ex, ey, ez, columns):
        """List over columns of lists of acceptable (value, tolerance); value None stands for no-data."""
        out = [[] for _ in columns]
        for i, fx in self.x.locate(x, ex):
            for j, fy in self.y.locate(y, ey):
                for k, fz in self.z.locate(self.z_top - z, ez):
                    c = self.data[i:i+2, j:j+2, k:k+2, :].astype(np.float64)
                    wx, wy, wz = (1-fx, fx), (1-fy, fy), (1-fz, fz)
                    w = np.einsum("i,j,k->ijk", wx, wy, wz)
                    # roundoff in units of the cell
                    r = ex/self.x._d[i] + ey/self.y._d[j] + ez/self.z._d[k]
                    edge = r + 4e-12
                    on = np.einsum("i,j,k->ijk", *[[min(a, 1.0) > edge for a in ww] for ww in (wx, wy, wz)]).astype(bool)
                    for m, col in enumerate(columns):
                        v = c[..., col]
                        bad = np.abs(1.0 - v/NODATA) < 1e-3
                        if (bad & on).any():
                            out[m].append((None, 0.0))
                            continue
                        if (bad & (w > 0)).any():
                            out[m].append((None, 0.0))  # within roundoff of a face shared with missing data
                        good = np.where(bad, 0.0, v)
                        wg = np.where(bad, 0.0, w)
                        s = wg.sum()
                        if s <= 0:
                            continue
                        val = float((wg*good).sum() / s)
                        okv = v[~bad]
                        tol = 16*r*float(okv.max() - okv.min()) + (2e-11 if bad.any() else 256*EPS)*float(np.abs(okv).max()) + 1e-11*float(okv.max()-okv.min())
                        out[m].append((val, tol))
        return out


class Model:
    """Specification of a model. Columns: list of (name, units)."""

    def __init__(self, **kw):
        self.title = "Random model"
        self.meta = {}
        self.top = None
        self.topo = None
        self.path = None
        self.__dict__.update(kw)
        self._tr = {}

    # -- file ------------------------------------------------------------------------------------
    def write(self, path, **opts):
        import h5py
        self.path = path
        h5 = h5py.File(path, "w")
        for k, v in default_meta(self.title).items():
            h5.attrs[k] = v
        for k, v in self.meta.items():
            h5.attrs[k] = v
        h5.attrs["data_values"] = [c[0] for c in self.columns]
        h5.attrs["data_units"] = [c[1] for c in self.columns]
        h5.attrs["data_layout"] = "vertex"
        h5.attrs["crs"] = self.crs
        h5.attrs["origin_x"], h5.attrs["origin_y"] = self.origin
        h5.attrs["y_azimuth"] = self.azimuth
        h5.attrs["dim_x"], h5.attrs["dim_y"], h5.attrs["dim_z"] = self.dims
        if self.top is not None or self.topo is not None:
            g = h5.create_group("surfaces")
            for key, s in (("top_surface", self.top), ("topography_bathymetry", self.topo)):
                if s is not None:
                    ds = g.create_dataset(key, data=s.data[..., np.newaxis], **opts.get("surface_opts", {}))
                    for ax, nm in ((s.x, "x"), (s.y, "y")):
                        for k, v in ax.attrs(nm).items():
                            ds.attrs[k] = v
        g = h5.create_group("blocks")
        for b in self.blocks:
            ds = g.create_dataset(b.name, data=b.data, **opts.get("block_opts", {}))
            for ax, nm in ((b.x, "x"), (b.y, "y"), (b.z, "z")):
                for k, v in ax.attrs(nm).items():
                    ds.attrs[k] = v
            if b.z.coords is None:
                ds.attrs["z_top"] = b.z_top
        h5.close()
        return path

    # -- coordinates -----------------------------------------------------------------------------
    def transformer(self, crs):
        import pyproj
        if crs not in self._tr:
            self._tr[crs] = pyproj.Transformer.from_crs(crs, self.crs, always_xy=False)
        return self._tr[crs]

    def to_crs(self, crs, X, Y, Z):
        if crs == self.crs:
            return X, Y, Z
        import pyproj
        return self.transformer(crs).transform(X, Y, Z, direction="INVERSE")

    def rot(self):
        a = math.radians(self.azimuth)
        return math.cos(a), math.sin(a)

    def from_model(self, xm, ym):
        """Model horizontal coordinates -> model CRS."""
        c, s = self.rot()
        return self.origin[0] + xm*c + ym*s, self.origin[1] - xm*s + ym*c

    def point(self, xm, ym, zl, crs):
        """Coordinates in `crs` of the point with logical model coordinates."""
        X, Y = self.from_model(xm, ym)
        zt = 0.0
        if self.top is not None:
            zt, _ = self.top.evaluate(min(max(xm, 0.0), self.top.x.length()), min(max(ym, 0.0), self.top.y.length()), 0.0, 0.0)
        D = self.dims[2]
        Z = zt + zl*(zt + D)/D
        return self.to_crs(crs, X, Y, Z)

    def horizontal(self, x, y, z, crs):
        """Model coordinates, elevation in the CRS of the model, and roundoff of the horizontal coordinates."""
        X, Y, Z = (x, y, z) if crs == self.crs else self.transformer(crs).transform(x, y, z)
        c, s = self.rot()
        dx, dy = X - self.origin[0], Y - self.origin[1]
        if crs == self.crs and self.azimuth == 0.0:
            return dx, dy, Z, 0.0
        scale = max(abs(X), abs(Y), abs(self.origin[0]), abs(self.origin[1]), self.dims[0], self.dims[1])
        return dx*c - dy*s, dx*s + dy*c, Z, (64 if crs == self.crs else 512)*EPS*scale

    # -- evaluation ------------------------------------------------------------------------------
    def locate(self, x, y, z, crs, exact_z=False, zsnap=2e-4, ez_extra=0.0):
        """dict with logical coordinates, uncertainties and `inside` (True/False/None: either acceptable)."""
        if not (math.isfinite(x) and math.isfinite(y) and math.isfinite(z)):
            return dict(inside=False)
        xm, ym, Z, e = self.horizontal(x, y, z, crs)
        if not (math.isfinite(xm) and math.isfinite(ym) and math.isfinite(Z)):
            return dict(inside=False)
        r = dict(x=xm, y=ym, Z=Z, e=e)
        L = self.dims
        over = max(-xm, xm - L[0], -ym, ym - L[1])  # > 0: outside
        if over > e:
            r["inside"] = False
            return r
        amb = e > 0 and over >= -e
        zt, ezt = 0.0, 0.0
        if self.top is not None:
            eg = max(e, 32*EPS*max(L[0], L[1]))
            zt, ezt = self.top.evaluate(xm, ym, eg, eg)
        D = L[2]
        zl = -D*((zt - Z)/(zt + D))
        ez = 0.0
        if not exact_z:
            ez = 4*ezt*max(1.0, D/abs(zt + D)) + 32*EPS*(D + abs(Z) + abs(zt))
            if crs != self.crs:
                ez += 64*EPS*(abs(Z) + D)
        ez += ez_extra
        r.update(z=zl, ez=ez, zt=zt, ezt=ezt)
        if zl > zsnap + ez or zl < -D - ez:
            r["inside"] = False
        elif amb or zl > 0 or (ez > 0 and (zl > -ez or zl < -D + ez)):
            r["inside"] = None
        else:
            r["inside"] = True
        return r

    def values(self, loc, columns):
        """Acceptable values of a point located inside (or at the edge)."""
        out = [[] for _ in columns]
        z, ez = max(min(loc["z"], 0.0), -self.dims[2]), loc["ez"]
        tol = 0.0 if (ez == 0 and self.kind == "exact") else ez + 8*EPS*self.dims[2]
        eg = max(loc["e"], 32*EPS*max(self.dims[0], self.dims[1]))
        for b in sorted(self.blocks, key=lambda b: -b.z_top):
            if b.z_bot - tol <= z <= b.z_top + tol:
                for o, a in zip(out, b.evaluate(loc["x"], loc["y"], z, eg, eg, max(ez, 32*EPS*self.dims[2]), columns)):
                    o.extend(a)
                if z >= b.z_bot + tol:
                    break  # the uppermost of the blocks that share the point answers
        return out

    def column(self, name):
        return [c[0].lower() for c in self.columns].index(name.lower())

    def surface(self, which):
        return self.top if which == "top" else (self.topo if self.topo is not None else self.top)

    def elevation(self, x, y, crs, which):
        """Elevation of a surface in the CRS of the caller: (value, tolerance); None when not defined here."""
        s = self.surface(which)
        if s is None:
            return 0.0, 0.0
        if not (math.isfinite(x) and math.isfinite(y)):
            return None
        xm, ym, Z, e = self.horizontal(x, y, 0.0, crs)
        if not (math.isfinite(xm) and math.isfinite(ym)):
            return None
        eg = max(e, 32*EPS*max(self.dims[0], self.dims[1]))
        if xm < -eg or ym < -eg or xm > s.x.length() + eg or ym > s.y.length() + eg:
            return None
        v, t = s.evaluate(xm, ym, eg, eg)
        if crs == self.crs:
            return v, t
        X, Y = self.from_model(xm, ym)
        out = self.to_crs(crs, X, Y, v)
        return out[2], 2*t*(abs(out[2]/v) if v else 1.0) + 64*EPS*abs(out[2]) + 1e-9


def matches(value, acceptable):
    for v, tol in acceptable:
        if v is None:
            if value == NODATA:
                return True
        elif math.isfinite(value) and abs(value - v) <= tol:
            return True
    return False


def default_meta(title):
    return dict(title=title, id="random-model", description="A model.", keywords=["key one", "key two"],
                history="First version", comment="A comment", creator_name="John Doe", creator_email="johndoe@agency.org",
                creator_institution="Agency", acknowledgement="Thank you", authors=["Smith, Jim", "Doe, John"],
                references=["Reference 1", "Reference 2"], repository_name="Some repository", repository_url="http://somewhere.org",
                repository_doi="http://doi.org", license="CC0", version="1.0.0", auxiliary=np.bytes_('{"zero": 0}'))


# -- generation -----------------------------------------------------------------------------------
# model CRS: (name, origin, is_geographic, [compatible CRS of callers])
CRSES = [
    ("EPSG:26910", (560000.0, 4140000.0), False, ["EPSG:26910", "EPSG:4326", "EPSG:4269", "EPSG:26911", "EPSG:3488", "EPSG:4979"]),
    ("EPSG:32611", (420000.0, 3760000.0), False, ["EPSG:32611", "EPSG:4326", "EPSG:32610", "EPSG:4979"]),
    ("EPSG:3488", (-150000.0, 10000.0), False, ["EPSG:3488", "EPSG:4326", "EPSG:26910"]),
    ("EPSG:4326", (37.0, -122.0), True, ["EPSG:4326", "EPSG:26910", "EPSG:4979"]),
    ("+proj=tmerc +datum=WGS84 +lon_0=-122 +lat_0=37 +k=0.9996 +units=m +type=crs", (-2000.0, 3000.0), False, ["EPSG:4326", "EPSG:32610"]),
]
# the same with vertical systems: elevations in other units, or above a geoid given as a grid ({grid})
UTM10 = "+proj=utm +zone=10 +datum=WGS84 +units=m"
VERTICAL = [
    ("EPSG:26910+6360", (560000.0, 4140000.0), False, ["EPSG:26910+5703", "EPSG:26910+8228", "EPSG:4269+5703", "EPSG:26911+5703"]),
    ("EPSG:26910+5703", (560000.0, 4140000.0), False, ["EPSG:26910+6360", "EPSG:26910+8228", "EPSG:4269+8228"]),
    (UTM10 + " +geoidgrids={grid} +type=crs", (560000.0, 4140000.0), False, ["EPSG:4979", "+proj=longlat +datum=WGS84 +geoidgrids={grid} +vunits=us-ft +type=crs"]),
    (UTM10 + " +vunits=us-ft +type=crs", (560000.0, 4140000.0), False, ["EPSG:4979", UTM10 + " +vunits=km +type=crs"]),
    (UTM10 + " +vunits=ft +geoidgrids={grid} +type=crs", (560000.0, 4140000.0), False, ["EPSG:4979"]),
    ("EPSG:4979", (37.0, -122.0), True, ["+proj=longlat +datum=WGS84 +geoidgrids={grid} +type=crs", UTM10 + " +geoidgrids={grid} +vunits=us-ft +type=crs"]),
]


def vertical_crs(rng, path):
    """An entry like those of CRSES with a vertical system; writes the grid of geoid heights (GTX) to `path`.

    The heights vary by tens of metres over a kilometre, so that the horizontal place at which they are taken matters."""
    import struct
    la, lo, d, n = 35.0, -125.0, 0.02, 260
    with open(path, "wb") as fo:
        fo.write(struct.pack(">ddddii", la, lo, d, d, n, n))
        fo.write(rng.uniform(-60.0, 60.0, (n, n)).astype(">f4").tobytes())
    name, origin, geo, others = VERTICAL[int(rng.integers(0, len(VERTICAL)))]
    return name.format(grid=path), origin, geo, [o.format(grid=path) for o in others]


NAMES = ["Vp", "Vs", "density", "Qp", "Qs", "zone_id", "fault-block", "temperature"]
UNITS = ["m/s", "m/s", "kg/m**3", "None", "None", "None", "none", "K"]


def rand_axis(rng, length, n, variable, scale_round=None):
    """Axis of n points from 0 to length."""
    if not variable or n < 3:
        return Axis(res=length/(n-1), n=n)
    while True:
        d = rng.uniform(0.2, 2.0, n-1)
        c = np.concatenate([[0.0], np.cumsum(d)])
        c = c/c[-1]*length
        c[-1] = length
        if scale_round:
            c = np.round(c/scale_round)*scale_round
            c[-1] = length
        if (np.diff(c) > length*1e-4/n).all():
            return Axis(coords=c)


def random_field(rng, shape, style):
    """Stored values. Rough fields leave no way for a wrong cell, axis or weight to go unnoticed."""
    if style == "rough":
        return rng.uniform(-5000.0, 5000.0, shape)
    if style == "smooth":
        g = np.meshgrid(*[np.linspace(0, 1, s) for s in shape], indexing="ij")
        return 3000 + 800*g[0] - 400*g[1]*g[2] + 150*np.sin(9*g[2]+5*g[0]) + 1000*g[3]
    if style == "mixed":
        v = rng.uniform(-1.0, 1.0, shape)
        return v * 10.0**rng.integers(-6, 7, shape[-1])
    raise ValueError(style)


def random_model(rng, kind="general", columns=None, crs=None, max_blocks=4, nodata=0.0, topo=None, origin_shift=(0.0, 0.0),
                 style=None, dims=None, azimuth=None, size="small", variable=None, topo_bathy=None, tall=False, extent=None):
    """extent: None (tens of km), 'tiny' (a building site) or 'huge' (a continent).
    kind: 'general' or 'exact' (all coordinates and spacings dyadic, no rotation, so that the answer at
    grid points and boundaries is free of roundoff)."""
    exact = kind == "exact"
    ci = crs if crs is not None else int(rng.integers(0, len(CRSES)))
    name, origin, geo, others = ci if isinstance(ci, tuple) else CRSES[ci]
    if exact:
        geo_scale = 1.0/4096 if geo else 1.0
    if columns is not None:
        cols = columns
    else:
        k = int(rng.integers(1, 6))
        idx = rng.permutation(len(NAMES))[:k]
        cols = [(NAMES[i], UNITS[i]) for i in idx]
    if azimuth is None:
        azimuth = 0.0 if exact else float(rng.choice([0.0, 90.0, -90.0, 180.0, 270.0, 45.0, float(rng.uniform(-360, 360)), float(rng.uniform(-30, 30))]))
    unit = (2.0**-6 if geo else 256.0)
    if dims is None:
        if exact:
            dims = (unit*int(rng.integers(4, 40))*16, unit*int(rng.integers(4, 40))*16, 256.0*int(rng.integers(8, 60)))
        else:
            lh = 0.7 if geo else 60000.0
            lh *= dict(tiny=1.0/300, huge=40.0).get(extent, 1.0)
            lv = dict(tiny=1.0e-4, huge=16.0).get(extent, 1.0)
            dims = (float(rng.uniform(0.05, 1.0)*lh), float(rng.uniform(0.05, 1.0)*lh), float(rng.uniform(2000.0, 45000.0)*lv))
            if rng.random() < 0.5:
                dims = tuple(round(d, (2 if geo and i < 2 else -1) + 3*(extent == "tiny")) for i, d in enumerate(dims))
    origin = (origin[0] + origin_shift[0], origin[1] + origin_shift[1])
    if not exact:
        origin = (origin[0] + float(rng.uniform(-1, 1))*(0.2 if geo else 20000.0), origin[1] + float(rng.uniform(-1, 1))*(0.2 if geo else 20000.0))

    def axis(length, big, quant):
        if size == "large" and big:
            n = int(rng.integers(130, 330)) if big == "surface" else int(rng.integers(66, 160))
        else:
            n = int(rng.integers(2, 14))
        var = (rng.random() < 0.4) if variable is None else variable
        if exact:
            n = 2**int(rng.integers(0, 4)) + 1
            if size == "large" and big:
                n = 2**(8 if big == "surface" else 7) + 1
            if var and n > 3:
                r = length/(n-1)
                keep = [0] + sorted(int(i) for i in rng.choice(np.arange(1, n-1), size=max(1, (n-2)//2), replace=False)) + [n-1]
                return Axis(coords=[i*r for i in keep])
            return Axis(res=length/(n-1), n=n)
        return rand_axis(rng, length, n, var)

    def surf(lo, hi, mean, big="surface"):
        x, y = axis(dims[0], big, unit), axis(dims[1], big, unit)
        data = mean + rng.uniform(lo, hi, (x.n, y.n))
        if exact:
            data = np.round(data/16.0)*16.0
        s = Surface(x, y, data)
        if x.coords is not None and rng.random() < 0.3:
            off = -5.0*unit  # only differences of coordinates matter
            x.coords = x.coords + off
        return s

    has_top = (rng.random() < 0.7) if topo is None else topo
    top = tb = None
    if has_top:
        amp = float(rng.choice([10.0, 300.0, 2500.0]))*(2.0e-4 if extent == "tiny" else 1.0)
        top = surf(-amp*0.4, amp, 0.0)
        if (rng.random() < 0.5) if topo_bathy is None else topo_bathy:
            # the ground: nowhere above the top surface
            if rng.random() < 0.5:
                d = rng.choice([0.0, 1.0], top.data.shape)*rng.uniform(0, amp, top.data.shape)
                tb = Surface(top.x, top.y, np.round((top.data - d)/16.0)*16.0 - 16.0*(d > 0) if exact else top.data - d)
                if exact:
                    tb.data = np.minimum(tb.data, top.data)
            else:
                lo = float(top.data.min())
                tb = surf(-amp, 0.0, lo - min(1.0, amp))
    nb = int(rng.integers(1, max_blocks+1))
    if exact:
        q = 128.0
        cuts = sorted(set(int(c) for c in rng.integers(1, int(dims[2]/q), nb-1))) if nb > 1 else []
        edges = [0.0] + [-q*c for c in cuts] + [-dims[2]]
    else:
        cuts = np.sort(rng.uniform(0.05, 0.95, nb-1))
        if rng.random() < 0.5:
            edges = [0.0] + [-round(float(c)*dims[2], 2 if extent == "tiny" else -1) for c in cuts] + [-dims[2]]
        else:
            edges = [0.0] + [-float(c)*dims[2] for c in cuts] + [-dims[2]]
        keep = [edges[0]]
        for e in edges[1:]:
            if keep[-1] - e > (0.01 if extent == "tiny" else 5.0):
                keep.append(e)
        keep[-1] = -dims[2]
        edges = keep
    blocks = []
    bnames = [f"block_{i}" for i in range(len(edges)-1)]
    if rng.random() < 0.5 and len(bnames) <= 6:
        bnames = [str(s) for s in rng.permutation(["top", "middle", "bottom", "deep", "zeta", "alpha"])[:len(bnames)]]
    for i, bn in enumerate(bnames):
        zt, zb = edges[i], edges[i+1]
        x, y = axis(dims[0], "block" if (size == "large" and i < 2) else None, unit), axis(dims[1], "block" if (size == "large" and i < 2) else None, unit)
        nz = int(rng.integers(2, 9))
        if tall and rng.random() < 0.5:
            nz = int(rng.integers(60, 300))
        L = zt - zb
        if (rng.random() < 0.4 if variable is None else variable) and nz > 2:
            if exact:
                m = int(L/128.0)
                if m >= 2:
                    inner = sorted(int(c) for c in rng.choice(np.arange(1, m), size=min(nz-2, m-1), replace=False))
                    z = Axis(coords=[zt] + [zt - 128.0*c for c in inner] + [zb], descending=True)
                else:
                    z = Axis(coords=[zt, zb], descending=True)
            else:
                f = np.sort(rng.uniform(0, 1, nz-2))
                c = np.concatenate([[0], f, [1]])
                if np.diff(c).min() < (1e-6 if tall else 1e-3):
                    c = np.linspace(0, 1, nz)**1.3
                zc = zt - c*L
                zc[0], zc[-1] = zt, zb
                z = Axis(coords=zc, descending=True)
        else:
            if exact:
                nz = 2**int(rng.integers(0, 4) if not tall else rng.integers(5, 9)) + 1
            z = Axis(res=L/(nz-1), n=nz, descending=True)
        st = style or str(rng.choice(["rough", "rough", "mixed", "smooth"]))
        data = random_field(rng, (x.n, y.n, z.n, len(cols)), st)
        if nodata > 0:
            data = np.where(rng.random(data.shape) < nodata, NODATA, data)
        blocks.append(Block(bn, x, y, z, zt, data))
    return Model(crs=name, others=others, geographic=geo, origin=origin, azimuth=azimuth, dims=dims, top=top, topo=tb,
                 blocks=blocks, columns=cols, kind=kind)
