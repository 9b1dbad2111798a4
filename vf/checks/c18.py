"""C18: GeoTIFF rasters."""
import os
import numpy as np
from osgeo import gdal, osr
import pyproj
from ..run import Check, THOROUGH, f, enc, dec, Trace, run_process
from ..work import rng_for

gdal.UseExceptions()
osr.UseExceptions()
CRS = ["EPSG:4326", "EPSG:4269", "EPSG:26910", "EPSG:32610", "EPSG:3310", "EPSG:3488", "EPSG:2193", "EPSG:3857", "EPSG:2227", "EPSG:31467", "EPSG:32760",
       "+proj=utm +zone=11 +datum=WGS84 +type=crs", "+proj=aea +lat_1=34 +lat_2=40.5 +lat_0=0 +lon_0=-120 +x_0=0 +y_0=-4000000 +datum=NAD83 +units=m +no_defs +type=crs",
       "+proj=tmerc +lon_0=-123.0 +lat_0=35.0 +k_0=0.9996 +datum=NAD83 +units=m +type=crs", "+proj=longlat +datum=WGS84 +no_defs +type=crs", "+proj=utm +zone=10 +datum=WGS84", "EPSG:4979"]
BADCRS = ["nonsense", "EPSG:99999999", "+proj=nope +type=crs", "GEOGCS[\"x\"", "EPSG:"]


def data(rng, n):
    style = int(rng.integers(0, 4))
    if style == 0:
        v = rng.uniform(-1e4, 1e4, n)
    elif style == 1:
        v = np.round(rng.uniform(0, 9, n))
    elif style == 2:
        v = rng.choice([0.0, -0.0, 1e-40, 3.4e38, -3.4e38, np.inf, -np.inf, -1e20, 1.5], n)
    else:
        v = np.arange(n)*0.25
    return v.astype(np.float32)


def label(rng, k):
    return str(rng.choice(["Vs", "topo_bathy", "Größe", "two words", "a:b/c%d", "x"*200, "depth, m"])) + str(k)


def tall(rng):
    if rng.random() < 0.15:
        return [(1, 1), (1, 500), (500, 1), (3, 300), (129, 65), (300, 257)][int(rng.integers(0, 6))]
    return int(rng.integers(1, 40)), int(rng.integers(1, 40))


def box(rng, crs):
    geo = crs in ("EPSG:4326", "EPSG:4269", "EPSG:4979") or "longlat" in crs
    x, y = (float(rng.uniform(-170, 100)), float(rng.uniform(-80, 40))) if geo else (float(rng.uniform(-5e5, 5e5)), float(rng.uniform(-5e6, 5e6)))
    w, h = (float(rng.uniform(1e-3, 30)), float(rng.uniform(1e-3, 30))) if geo else (float(10**rng.uniform(0, 6)), float(10**rng.uniform(0, 6)))
    return x, x + w, y, y + h


def srs(text):
    s = osr.SpatialReference()
    s.SetFromUserInput(text)
    s.SetAxisMappingStrategy(osr.OAMS_TRADITIONAL_GIS_ORDER)
    return s


def same_crs(a, b):
    a, b = pyproj.CRS(a), pyproj.CRS(b)
    if a.equals(b, ignore_axis_order=True):
        return True
    t1 = pyproj.Transformer.from_crs("EPSG:4326", a, always_xy=True)
    t2 = pyproj.Transformer.from_crs("EPSG:4326", b, always_xy=True)
    g = a.area_of_use
    lon, lat = (0.5*(g.west+g.east), 0.5*(g.south+g.north)) if g else (-121.0, 37.0)
    p, q = t1.transform(lon, lat), t2.transform(lon, lat)
    return all(abs(u-v) < 1e-3*max(1.0, 1e-5*abs(u)) for u, v in zip(p, q))


def bits(a, b):
    a, b = np.asarray(a, dtype=np.float32), np.asarray(b, dtype=np.float32)
    return a.shape == b.shape and np.array_equal(a.view(np.uint32), b.view(np.uint32))


def session(ck, i):
    """Many rasters in one process: some written, some read, handles reused."""
    rng = rng_for("C18", i)
    d = os.path.dirname(ck.ws.path("g%d" % i, "x"))
    ops, todo = [], []

    def op(o):
        ops.append(o)
        return len(ops) - 1
    handles = ["a", "b", "c"]
    for h in handles:
        op("g.new " + h)
    written = []
    for j in range(14):
        h = str(rng.choice(handles))
        kind = str(rng.choice(["write", "write", "write", "foreign", "again", "bad", "badfile", "renew"]))
        if kind == "renew":
            op("g.del " + h)
            op("g.new " + h)
            continue
        if kind == "write":
            rows, cols = tall(rng)
            nb = int(rng.choice([1, 2, 3, 7, 12])) if rows*cols < 20000 else 1
            crs = str(rng.choice(CRS))
            bb = box(rng, crs)
            nodata = float(np.float32(rng.choice([-1e20, -9999.0, 0.0, 1e-30, -3.4e38, float(rng.uniform(-1, 1))])))
            labels = [label(rng, k) for k in range(nb)]
            path = os.path.join(d, "w%d.tif" % j)
            v = data(rng, rows*cols*nb)
            op("g.size %s %d %d %d" % (h, rows, cols, nb))
            op("g.labels %s %d %s" % (h, nb, " ".join(map(enc, labels))))
            op("g.crs %s %s" % (h, enc(crs)))
            op("g.bbox %s %s" % (h, " ".join(map(f, bb))))
            op("g.nodata %s %s" % (h, f(nodata)))
            first = op("g.create %s %s" % (h, enc(path)))
            op("g.fill %s %s" % (h, " ".join(map(f, v))))
            ex = op("g.getbbox " + h)
            last = op("g.write " + h)
            if rng.random() < 0.5:
                op("g.close " + h)
            elif rng.random() < 0.3:
                op("g.del " + h)
                op("g.new " + h)
            todo.append(("write", first, last, ex, path, rows, cols, nb, labels, crs, bb, nodata, v))
            written.append((path, rows, cols, nb, labels, crs, bb, v))
        elif kind == "foreign":
            rows, cols = tall(rng)
            nb = int(rng.choice([1, 2, 4]))
            crs = str(rng.choice(CRS[:11]))
            bb = box(rng, crs)
            path = os.path.join(d, "f%d.tif" % j)
            dt = [gdal.GDT_Float32, gdal.GDT_Float64, gdal.GDT_Int16, gdal.GDT_Byte][int(rng.integers(0, 4))]
            opts = [["COMPRESS=DEFLATE"], [], ["TILED=YES", "BLOCKXSIZE=16", "BLOCKYSIZE=16"], ["INTERLEAVE=BAND"], ["COMPRESS=LZW", "PREDICTOR=2"] if dt in (gdal.GDT_Int16, gdal.GDT_Byte) else []][int(rng.integers(0, 5))]
            ds = gdal.GetDriverByName("GTiff").Create(path, cols, rows, nb, dt, opts)
            if rng_for("C18", "nocrs", i, j).random() < 0.25:
                crs = None
            else:
                ds.SetProjection(srs(crs).ExportToWkt())
            ds.SetGeoTransform([bb[0], (bb[1]-bb[0])/cols, 0, bb[3], 0, (bb[2]-bb[3])/rows])
            v = rng.integers(0, 255, (nb, rows, cols)).astype(np.float32)
            labels = [label(rng, k) if rng.random() < 0.8 else "" for k in range(nb)]
            for k in range(nb):
                ds.GetRasterBand(k+1).WriteArray(v[k])
                if labels[k]:
                    ds.GetRasterBand(k+1).SetDescription(labels[k])
            ds = None
            written.append((path, rows, cols, nb, labels, crs, bb, v.ravel()))
        if kind in ("again", "foreign") and written:
            w = written[-1] if kind == "foreign" else written[int(rng.integers(0, len(written)))]
            # a handle that is still open for writing this file may not have stored all of it
            for g in handles:
                op("g.close " + g)
            a = op("g.read %s %s" % (h, enc(w[0])))
            ix = [op("g.%s %s" % (x, h)) for x in ("getsize", "getlabels", "getcrs", "getbbox", "bands")]
            if rng.random() < 0.5:
                op("g.close " + h)
            todo.append(("read", a, ix) + w)
        elif kind == "bad":
            c = int(rng.integers(0, 9))
            op("g.close " + h)
            if c < 3:
                s = [1, 1, 1]
                s[c] = 0
                b = op("g.size %s %d %d %d" % tuple([h] + s))
            elif c == 3:
                op("g.size %s 4 5 3" % h)
                b = op("g.labels %s 2 %s %s" % (h, enc("a"), enc("b")))
            elif c == 4:
                b = op("g.crs %s %s" % (h, enc("")))
            elif c == 5:
                op("g.size %s 4 5 1" % h)
                op("g.labels %s 1 %s" % (h, enc("a")))
                op("g.bbox %s 0 1 0 1" % h)
                op("g.crs %s %s" % (h, enc(str(rng.choice(BADCRS)))))
                b = op("g.create %s %s" % (h, enc(os.path.join(d, "bad%d.tif" % j))))
            elif c == 6:
                op("g.size %s 4 5 1" % h)
                op("g.labels %s 1 %s" % (h, enc("a")))
                op("g.crs %s %s" % (h, enc("EPSG:4326")))
                op("g.bbox %s 0 1 0 1" % h)
                b = op("g.create %s %s" % (h, enc(os.path.join(d, "no", "such", "dir.tif"))))
            elif c == 7:
                b = op("g.write " + h)
            else:
                op("g.size %s 4 5 2" % h)
                op("g.labels %s 2 %s %s" % (h, enc("a"), enc("b")))
                op("g.size %s 4 5 1" % h)
                op("g.crs %s %s" % (h, enc("EPSG:4326")))
                op("g.bbox %s 0 1 0 1" % h)
                b = op("g.create %s %s" % (h, enc(os.path.join(d, "bad%d.tif" % j))))
            todo.append(("bad", b))
        elif kind == "badfile":
            path = os.path.join(d, "x%d.tif" % j)
            c = int(rng.integers(0, 5))
            if c == 1:
                with open(path, "wb") as fo:
                    fo.write(b"II*\0" + bytes(rng.integers(0, 255, 60).tolist()))
            elif c == 2:
                gdal.GetDriverByName("GTiff").Create(path, 5, 4, 1, gdal.GDT_Float32)  # no transformation
            elif c == 3:
                ds = gdal.GetDriverByName("GTiff").Create(path, 5, 4, 1, gdal.GDT_Float32)
                ds.SetGeoTransform([0, 1, [0.3, 0.3, 0.0][j % 3], 0, [0.2, 0.0, 1e-3][j % 3], -1])  # rotated or sheared
                ds = None
            elif c == 4:
                # the reader must notice that data is missing
                ds = gdal.GetDriverByName("GTiff").Create(path, 50, 40, 1, gdal.GDT_Float32)
                ds.SetGeoTransform([0, 1, 0, 0, 0, -1])
                ds.GetRasterBand(1).WriteArray(rng.uniform(0, 1, (40, 50)))
                ds = None
                os.truncate(path, os.path.getsize(path)//2)
            b = op("g.read %s %s" % (h, enc(path)))
            todo.append(("bad", b))
    for h in handles:
        op("g.del " + h)
    tr = ck.drive(ops)
    if ck.crash(tr, "raster"):
        return
    ev = tr.events
    last = {}
    for t in todo:
        if t[0] == "bad":
            if ev[t[1]].ok:
                ck.violation("invalid raster parameters accepted: " + ops[t[1]].split()[0], "%s" % ops[max(0, t[1]-5):t[1]+1], ops)
            ck.case((i, t[1], "bad"))
        elif t[0] == "read":
            a, ix, path, rows, cols, nb, labels, crs, bb, v = t[1:]
            if not ev[a].ok:
                ck.violation("valid raster refused", "%s: %s" % (path, ev[a].args), ops, [path])
                continue
            size, lab, gc, gb, bands = [ev[k] for k in ix]
            got = [int(x) for x in size.args]
            if got != [rows, cols, nb]:
                ck.violation("size read differs", "%s, stored %s" % (got, (rows, cols, nb)), ops, [path])
                continue
            if [dec(x) for x in lab.args[1:]] != labels:
                ck.violation("labels read differ", "%s, stored %s" % ([dec(x) for x in lab.args[1:]], labels), ops, [path])
            g = gb.floats()
            sx, sy = (bb[1]-bb[0]), (bb[3]-bb[2])
            if any(abs(u-w) > 1e-9*(sx if k < 2 else sy) + 1e-14*abs(w) for k, (u, w) in enumerate(zip(g, bb))):
                ck.violation("extent read differs", "%s, stored %s" % (g, bb), ops, [path])
            if crs is None:
                if dec(gc.args[0]) != "":
                    ck.violation("coordinate system read differs", "%s, stored none" % dec(gc.args[0])[:300], ops, [path])
                ck.count("rasters_without_coordinate_system")
            elif not same_crs(dec(gc.args[0]), crs):
                ck.violation("coordinate system read differs", "%s, stored %s" % (dec(gc.args[0])[:300], crs), ops, [path])
            if not bits(bands.floats(1), v):
                ck.violation("pixels read differ", path, ops, [path])
            ck.case((i, a, "read"))
        else:
            first, lst, ex, path, rows, cols, nb, labels, crs, bb, nodata, v = t[1:]
            if not all(ev[k].ok for k in range(first, lst+1)):
                ck.violation("valid raster not written", "%s: %s" % (crs, [e.args for e in ev[first:lst+1] if not e.ok]), ops)
                continue
            g = ev[ex].floats()
            if any(abs(u-w) > 1e-9*abs(bb[1]-bb[0] if k < 2 else bb[3]-bb[2]) + 1e-14*abs(w) for k, (u, w) in enumerate(zip(g, bb))):
                ck.violation("extent of an open raster differs", "%s, given %s" % (g, bb), ops)
            e = check_file(path, rows, cols, nb, labels, crs, bb, nodata, v)
            if e:
                ck.violation("raster written differs: " + e.split(":")[0], e, ops, [path])
            ck.case((i, first, "write"), dict(size=(rows, cols, nb), crs=crs, extent=bb, labels=labels))
    ck.count("processes")


def check_file(path, *args):
    try:
        return contents_wrong(gdal.Open(path), *args)
    except RuntimeError as e:
        return "unreadable: %s" % e


def contents_wrong(ds, rows, cols, nb, labels, crs, bb, nodata, v):
    if (ds.RasterYSize, ds.RasterXSize, ds.RasterCount) != (rows, cols, nb):
        return "size: %s" % ((ds.RasterYSize, ds.RasterXSize, ds.RasterCount),)
    g = ds.GetGeoTransform()
    want = [bb[0], (bb[1]-bb[0])/cols, 0.0, bb[3], 0.0, (bb[2]-bb[3])/rows]
    if any(abs(a-b) > 1e-12*abs(b) for a, b in zip(g, want)):
        return "geotransform: %s, expected %s" % (g, want)
    if not same_crs(ds.GetProjection(), crs):
        return "coordinate system: %s, expected %s" % (ds.GetProjection()[:300], crs)
    a = v.reshape(nb, rows, cols)
    for k in range(nb):
        b = ds.GetRasterBand(k+1)
        if b.GetDescription() != labels[k]:
            return "label: %r, expected %r" % (b.GetDescription(), labels[k])
        if np.float32(b.GetNoDataValue()) != np.float32(nodata):
            return "no-data value: %r, expected %r" % (b.GetNoDataValue(), nodata)
        if not bits(b.ReadAsArray(), a[k]):
            return "pixels: of band %d" % k
    return None


def full(ck, i):
    """Writing fails for lack of space: never an abnormal end."""
    rng = rng_for("C18", "full", i)
    d = os.path.dirname(ck.ws.path("l%d" % i, "x"))
    rows, cols, nb = int(rng.integers(20, 60)), int(rng.integers(20, 60)), int(rng.choice([1, 2]))
    v = rng.uniform(-1, 1, rows*cols*nb).astype(np.float32)
    path = os.path.join(d, "r.tif")
    labels = ["b%d" % k for k in range(nb)]
    bb = box(rng, "EPSG:26910")
    ops = ["g.new a", "g.size a %d %d %d" % (rows, cols, nb), "g.labels a %d %s" % (nb, " ".join(map(enc, labels))), "g.crs a " + enc("EPSG:26910"),
           "g.bbox a " + " ".join(map(f, bb)), "g.nodata a -1e20", "g.create a " + enc(path), "g.fill a " + " ".join(map(f, v)), "g.write a", "g.close a", "g.del a"]
    def go(limit):
        out, err, rc, to = run_process(["python3", "-c", LIMITED, str(limit), ck.build["driver"]], stdin="\n".join(ops) + "\n")
        return Trace(ops, out, err, rc, to)
    tr = go(-1)
    if ck.crash(tr, "raster"):
        return
    if not all(e.ok for e in tr.events):
        return ck.violation("valid raster not written", "%s" % [e.args for e in tr.events if not e.ok], ops)
    size = os.path.getsize(path)
    for limit in [int(rng.integers(0, size)), size - int(rng.integers(1, 200)), size - 1, size]:
        os.unlink(path) if os.path.exists(path) else None
        tr = go(limit)
        if ck.crash(tr, "no space"):
            return
        if all(e.ok for e in tr.events):
            e = check_file(path, rows, cols, nb, labels, "EPSG:26910", bb, -1e20, v)
            if e and not opens(path):
                return ck.violation("failure to write not reported", "%s although the file may hold %d of %d bytes only" % (e, limit, size), ops)
            # the raster library itself does not report that pixels could not be written
            ck.count("unreported_by_raster_library" if e else "complete_within_limit")
        else:
            if limit == size:
                return ck.violation("valid raster not written", "%s" % [e.args for e in tr.events if not e.ok], ops)
            ck.count("write_failures_reported")
        ck.case((i, limit, "full"))


LIMITED = """
import os, resource, signal, sys
signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
if int(sys.argv[1]) >= 0:
    resource.setrlimit(resource.RLIMIT_FSIZE, (int(sys.argv[1]),)*2)
os.execv(sys.argv[2], sys.argv[2:])
"""


def opens(path):
    try:
        return gdal.Open(path) is not None
    except RuntimeError:
        return False


def main():
    ck = Check("C18", "Rasters of random shape, contents and description written and read in one process with reused handles, judged by an independent reader; invalid parameters and files; "
               "writing with little space.", assumptions=["the installed raster library itself is right"])
    n = 300 if THOROUGH else 60
    ck.map(lambda i: session(ck, i), range(n))
    ck.map(lambda i: full(ck, i), range(n//4))
    return ck.finish(minimum=300)
