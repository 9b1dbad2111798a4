"""C12: isosurface maps hold the depth at which the field crosses the requested value."""
import os, copy, math
import numpy as np
from .. import model as vm
from ..run import Check, THOROUGH, f, enc
from ..work import *
from ..apps import *


def make_model(rng, extent=None):
    style = str(rng.choice(["mono", "mono", "rough", "smooth", "missing"]))
    m = vm.random_model(rng, crs=int(rng.choice([0, 0, 1, 2, 4, 3])), extent=extent, topo=bool(rng.random() < 0.75), style="rough" if style != "smooth" else None,
                        nodata=0.02 if style == "missing" else 0.0)
    if style == "mono":
        D = m.dims[2]
        slope = rng.uniform(0.0, 1.0, 2)
        for b in m.blocks:
            dep = (-b.z_top + b.z.positions())/D
            h = slope[0]*b.x.positions()[:, None]/m.dims[0] + slope[1]*b.y.positions()[None, :]/m.dims[1]
            v = np.empty(b.data.shape)
            for c in range(v.shape[-1]):
                v[..., c] = 500.0*(c+1) + 3000.0*(dep**(1 + 0.3*c))[None, None, :] + 600.0*h[..., None]
            b.data = v.astype(np.float32)
    return m, style


def kinks(models, x, y, crs, topcrs):
    """Elevations in `crs` between which the column is linear, for models that contain the location."""
    out = []
    for m in models:
        xm, ym, _, e = m.horizontal(x, y, 0.0, crs)
        zt = m.top.evaluate(min(max(xm, 0.0), m.dims[0]), min(max(ym, 0.0), m.dims[1]), 0.0, 0.0)[0] if m.top is not None else 0.0
        D = m.dims[2]
        for b in m.blocks:
            for p in b.z.positions():
                zl = b.z_top - float(p)
                out.append(zt + zl*(zt + D)/D)
    return out


def one(ck, i):
    from osgeo import gdal, osr
    gdal.UseExceptions()
    rng = rng_for("C12", i)
    d = ck.ws.folder("c", i)
    m, style = make_model(rng, {5: "tiny"}.get(i % 8))
    models = [m]
    if rng.random() < 0.25:
        o = copy.copy(m)
        o._tr = {}
        o.origin = (m.origin[0] + float(rng.uniform(-0.6, 0.6))*m.dims[0], m.origin[1] + float(rng.uniform(-0.6, 0.6))*m.dims[1])
        models = [o, m] if rng.random() < 0.5 else [m, o]
    for k, o in enumerate(models):
        o.write(os.path.join(d, "m%d.h5" % k))
    cands = [c for c in [m.crs] + m.others if c not in ("EPSG:4979",)]
    crs = str(rng.choice(cands))
    geo = crs in ("EPSG:4326", "EPSG:4269")
    D = m.dims[2]
    # box around (part of) the model in the caller's coordinates
    a, b = sorted(rng.uniform(-0.15, 1.15, 2)), sorted(rng.uniform(-0.15, 1.15, 2))
    if a[1] - a[0] < 0.1 or b[1] - b[0] < 0.1:
        a, b = [0.1, 0.9], [0.2, 0.8]
    cor = [m.to_crs(crs, *m.from_model(s*m.dims[0], t*m.dims[1]), 0.0)[:2] for s in a for t in b]
    c0, c1 = [float(c[0]) for c in cor], [float(c[1]) for c in cor]
    if not all(math.isfinite(v) for v in c0 + c1):
        return
    box = [float("%.6g" % v) if geo else round(v, int(rng.integers(-1, 3))) for v in (min(c0), max(c0), min(c1), max(c1))]
    if not (box[1] > box[0] and box[3] > box[2]):
        return
    nx = int(rng.integers(1, 8))
    res = (box[3]-box[2] if geo else box[1]-box[0])/nx
    if rng.random() < 0.5:
        res *= float(rng.uniform(0.7, 1.0))
    res = float("%.5g" % res) if rng.random() < 0.5 else res
    # in the order of easting, northing
    ex = (box[2], box[3], box[0], box[1]) if geo else tuple(box)
    fx, fy = (ex[1] - ex[0])/res, (ex[3] - ex[2])/res
    if any(abs((v + 0.5) % 1.0) < 1e-6 or abs((v + 0.5) % 1.0) > 1 - 1e-6 for v in (fx, fy)) or min(fx, fy) < 0.5 or fx*fy > 90:
        return
    numx, numy = int(math.floor(fx + 0.5)), int(math.floor(fy + 0.5))
    cols = [c[0] for c in m.columns]
    depth = float("%.6g" % (D*float(rng.choice([0.05, 0.3, 0.7, 0.9, 1.0, 1.3])))) if rng.random() < 0.9 else float(rng.choice([50.0, 5.0]))
    vres = float("%.4g" % (depth*10.0**float(rng.uniform(-4.0, 0.1))))
    dv = rng.random() < 0.2
    if dv:
        vres = 10.0
    n = int(rng.choice([3, 4, 5, 7, 10, 10, 16, 25]))
    iso = []
    for _ in range(int(rng.choice([1, 2, 3, 3, 5, 8]))):
        nm = str(rng.choice(cols))
        c = m.column(nm)
        v = np.concatenate([bl.data[..., c].ravel() for bl in m.blocks]).astype(float)
        v = v[np.abs(v/NODATA - 1.0) > 1e-3]
        if not len(v):
            return
        q = float(np.quantile(v, rng.uniform(-0.0, 1.0)))
        if rng.random() < 0.1:
            q = float(v.max()) + 1.0
        iso.append((nm, "%.5g" % q))
    ref = str(rng.choice(["default", "topography_bathymetry", "top_surface", "TOP_SURFACE"]))
    deep = bool(rng.random() < 0.4)
    opt = [("models", ",".join(os.path.basename(o.path) for o in models)), ("output", "out.tif"), ("bbox", ",".join("%r" % v for v in box)),
           ("hresolution", "%r" % res), ("max-depth", "%r" % depth)] + [("isosurface", "%s,%s" % p) for p in iso]
    if not dv:
        opt.append(("vresolution", "%r" % vres))
    if n != 10 or rng.random() < 0.5:
        opt.append(("num-search-points", str(n)))
    if ref != "default":
        opt.append(("depth-reference", ref))
    if deep:
        opt.append(("prefer-deep", None))
    if crs != "EPSG:4326" or rng.random() < 0.5:
        opt.append(("bbox-coordsys", crs))
    # the order of bands is that of the options given: keep it
    args = as_options(rng, [p for p in opt if p[0] != "isosurface"])
    isoargs = []
    for p in opt:
        if p[0] == "isosurface":
            isoargs += as_options(rng, [p])
    args = isoargs + args if rng.random() < 0.5 else args + isoargs
    ran = run_app(ck, "isosurface", args, d)
    out = os.path.join(d, "out.tif")
    replay = [out] + [o.path for o in models]

    def bad(key, text):
        replay_files(ck, ran, text, key, replay)
    if ran.crash:
        return bad("abnormal end", ran.crash)
    if ran.rc != 0 or not os.path.exists(out):
        return bad("valid run failed", "exit status %d: %s" % (ran.rc, (ran.out + ran.err)[-500:]))
    ds = gdal.Open(out)
    gt = ds.GetGeoTransform()
    if (ds.RasterXSize, ds.RasterYSize, ds.RasterCount) != (numx, numy, len(iso)):
        return bad("wrong size of raster", "%s, expected %s" % ((ds.RasterXSize, ds.RasterYSize, ds.RasterCount), (numx, numy, len(iso))))
    tolx = 1e-9*max(abs(v) for v in ex) + 1e-7*res
    want = (ex[0], res, 0.0, ex[2] + numy*res, 0.0, -res)
    if any(abs(g - w) > tolx for g, w in zip(gt, want)):
        return bad("wrong georeference", "%s, expected %s" % (gt, want))
    srs = osr.SpatialReference()
    srs.SetFromUserInput(crs)
    got = ds.GetSpatialRef()
    if got is None or not got.IsSame(srs, ["IGNORE_DATA_AXIS_TO_SRS_AXIS_MAPPING=YES", "CRITERION=EQUIVALENT"]):
        return bad("wrong coordinate system", got.ExportToWkt() if got is not None else "none")
    bands = []
    for k, (nm, v) in enumerate(iso):
        b = ds.GetRasterBand(k+1)
        lab = b.GetDescription().rsplit("=", 1)
        if len(lab) != 2 or lab[0] != nm or abs(float(lab[1]) - float(v)) > 1e-5*abs(float(v)):
            return bad("wrong band label", "%r for isosurface %s" % (b.GetDescription(), (nm, v)))
        if b.GetNoDataValue() is None or abs(b.GetNoDataValue()/NODATA - 1.0) > 1e-6:
            return bad("wrong no-data value", str(b.GetNoDataValue()))
        bands.append(b.ReadAsArray())
    del ds
    # library: reference elevation and coarse samples of each column
    names = [p[0] for p in iso]
    init = ["q.new 1", init_ops("q", 1, [o.path for o in models], names, crs)]
    pix = [(r, c) for r in range(numy) for c in range(numx)]
    loc = {}
    for r, c in pix:
        x, y = ex[0] + (c + 0.5)*res, ex[2] + (numy - r - 1 + 0.5)*res
        loc[r, c] = (y, x) if geo else (x, y)
    sc = "top" if ref.lower() == "top_surface" else "topo"
    tr = ck.drive(init + ["q.%s 1 %s %s" % (sc, f(loc[p][0]), f(loc[p][1])) for p in pix])
    if ck.crash(tr, "reference", replay):
        return
    tops = {p: e.floats()[0] for p, e in zip(pix, tr.events[2:])}
    ops, plan = [], []

    def ask(p, z):
        ops.append("q.q 1 %d %s %s %s" % (len(iso), f(loc[p][0]), f(loc[p][1]), f(z)))
        return len(ops) - 1
    eps = min(1e-4, depth/2)
    for p in pix:
        t = tops[p]
        stored = [float(b[p]) for b in bands]
        if t == NODATA:
            plan.append((p, None, None, None))
            continue
        co = [ask(p, t - eps)] + [ask(p, t - eps - (depth - eps)*j/(n-1)) for j in range(1, n)]
        kz = [t - z for z in kinks(models, loc[p][0], loc[p][1], crs, t)]
        fine = []
        for s in stored:
            if abs(s/NODATA - 1.0) < 1e-6 or s == 0.0 or not math.isfinite(s):
                fine.append(None)
                continue
            w = vres*1.0001 + 1e-6*abs(s)
            lo, hi = max(s - w, eps*0.5), min(s + w, depth*(1 + 1e-7))
            dd = sorted([lo + (hi - lo)*j/24.0 for j in range(25)] + [q for q in kz if lo < q < hi] + [q + e for q in kz for e in (-1e-6*depth, 1e-6*depth) if lo < q + e < hi])
            fine.append((s, lo, hi, [ask(p, t - q) for q in dd], ask(p, t - s), any(lo - 1e-3 < q < hi + 1e-3 for q in kz)))
        plan.append((p, co, fine, stored))
    tr = ck.drive(init + ops)
    if ck.crash(tr, "reference", replay):
        return
    ev = [e.floats(1) for e in tr.events[2:]]
    for p, co, fine, stored in plan:
        if co is None:
            for k in range(len(iso)):
                if abs(float(bands[k][p])/NODATA - 1.0) > 1e-6:
                    inside = [o.locate(loc[p][0], loc[p][1], -1e-3*D, crs)["inside"] for o in models]
                    return bad("column outside the models is not no-data", "pixel %s band %d holds %g, library gives no elevation (inside: %s)" % (p, k, bands[k][p], inside))
            ck.case((i, p, "outside"))
            ck.count("outside_columns")
            continue
        for k, (nm, tt) in enumerate(iso):
            T, s = float(tt), stored[k]
            v = [ev[j][k] for j in co]
            missing = style == "missing" or any(q == NODATA for q in v)
            what = "pixel %s, %s=%s, %s, samples every %.6g: %s" % (p, nm, tt, "deepest" if deep else "shallowest", depth/(n-1), v)
            if not math.isfinite(s):
                return bad("not a number", what)
            isnd = abs(s/NODATA - 1.0) < 1e-6
            near = 1e-9*abs(T)
            if isnd:
                if v[0] > T + near and not missing and not (deep and v[-1] < T):
                    return bad("column that exceeds the target at the top is not zero or a crossing", what)
            elif s == 0.0:
                if v[0] <= T - near:
                    return bad("zero for a column that does not exceed the target at the top", what)
            else:
                _, lo, hi, idx, own, kinky = fine[k]
                if not (0.0 < s <= depth*(1 + 2e-7)):
                    return bad("depth out of range", "%g: %s" % (s, what))
                vv = [ev[j][k] for j in idx]
                gap = any(q == NODATA for q in vv)
                if not (min(vv) <= T + near and max(vv) >= T - near):
                    return bad("no crossing at the stored depth", "depth %.9g, values within +-%g: %s; %s" % (s, vres, vv, what))
                if not kinky and not gap and not missing:
                    # linear here: interpolation gives the depth exactly, up to single precision
                    slope = abs(vv[-1] - vv[0])/(hi - lo) if hi > lo else 0.0
                    if abs(ev[own][k] - T) > slope*2.5e-7*abs(s) + 1e-9*(abs(T) + abs(vv[0])) + 1e-3*abs(vv[-1] - vv[0]):
                        return bad("crossing not interpolated", "depth %.9g holds %.9g, values within +-%g: %s; %s" % (s, ev[own][k], vres, vv, what))
                    ck.count("interpolated_crossings")
            # the interval of the first search, where it decides
            z = [eps + (depth - eps)*j/(n-1) for j in range(n)]
            sel = None
            if not missing:
                if not deep:
                    hit = [j for j in range(1, n) if v[j] >= T]
                    if hit and (hit[0] > 1 or v[0] < T - near):
                        sel = hit[0] - 1
                    elif not hit:
                        sel = -1 if v[0] < T else None
                else:
                    hit = [j for j in range(n-1) if v[j] < T]
                    if hit:
                        j = hit[-1]
                        sel = j if v[j+1] >= T else -1 - j
            elif deep and v[-1] == NODATA and style != "missing":
                ck.count("columns_below_the_model")
                real = [j for j in range(n-1) if v[j] != NODATA and v[j] < T]
                if real and v[real[-1] + 1] >= T and all(q == NODATA for q in v[v.index(NODATA):]):
                    sel = real[-1]
            if sel is not None and sel >= 0:
                tol = 1e-6*depth
                if any(abs(q - T) <= near for q in v):
                    tol = depth/(n-1)
                if isnd or s == 0.0 or not (z[sel] - tol <= s <= z[sel+1] + tol):
                    return bad("not the %s crossing" % ("deepest" if deep else "shallowest"), "stored %.9g, expected within %.9g..%.9g; %s" % (s, z[sel], z[sel+1], what))
                ck.count("selected_crossings")
            elif sel is not None and not isnd and s == 0.0:
                return bad("zero for a column that does not reach the target", what)
            elif sel is not None and not isnd and style == "mono" and len(models) == 1:
                return bad("depth for a column that does not reach the target", "stored %.9g; %s" % (s, what))
            ck.case((i, p, k), dict(pixel=p, isosurface=iso[k], stored=s, samples=v[:6]) if p == (0, 0) else None)
            ck.count("nodata_columns", int(isnd))
            ck.count("zero_columns", int(s == 0.0))
    ck.count("rasters")


def main():
    ck = Check("C12", "Random models (monotone, rough, smooth and partly missing columns, several models), boxes, resolutions, references, search points and targets; "
               "every pixel is judged against samples of its column taken from the library, and the raster is read with the GDAL bindings.", programs=("driver", "isosurface"),
               assumptions=["preferring the deepest crossing, a column that ends below the target may read no-data", "a crossing is a depth at which the value rises to the target; with several crossings between two points of the first search any of them is accepted"])
    ck.map(lambda i: one(ck, i), range(800 if THOROUGH else 180))
    return ck.finish(minimum=1500)
