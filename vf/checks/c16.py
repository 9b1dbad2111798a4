"""C16: coordinate transformation, axis order and units."""
import math
import numpy as np
import pyproj
from pyproj.database import query_crs_info
from ..run import Check, THOROUGH, f, enc, dec
from ..work import rng_for

NAMES = {"metre": "meter", "kilometre": "kilometer"}
BAD = ["nonsense", "EPSG:", "EPSG:ABCD", "EPSG:99999999", "+proj=nope +type=crs", "+proj=utm +type=crs", "GEOGCS[\"WGS 84\",DATUM", "EPSG:4326+", "EPSG:26910+99999",
       "+init=epsg:none", "PROJCS[]", "EPSG 4326", "\u00e9\u00e8", "%s%n", "+proj=utm +zone=99 +datum=WGS84 +type=crs", "+proj=nope", "+proj=utm", "proj=nope +zone=3"]
COMMON = ["EPSG:4326", "EPSG:4269", "EPSG:26910", "EPSG:32610", "EPSG:3310", "EPSG:3488", "EPSG:4979", "EPSG:4978", "EPSG:2193", "EPSG:27200", "EPSG:26910+5703", "EPSG:4326+5773",
          "OGC:CRS84", "EPSG:2227", "EPSG:32133", "EPSG:31467", "EPSG:5041", "EPSG:3857"]

# Systems of moving plates: their relation depends on time, and without a time it is that at the epoch of reference.
MOVING = [("EPSG:9000", (112, -44, 154, -10), ("EPSG:7844", "EPSG:7842", "EPSG:7843")), ("EPSG:9000", (-125, 25, -70, 49), ("EPSG:6318", "EPSG:6319", "EPSG:6340")),
          ("EPSG:7912", (-125, 25, -70, 49), ("EPSG:6319", "EPSG:6318")), ("EPSG:7789", (-10, 36, 30, 60), ("EPSG:4936", "EPSG:4937")), ("EPSG:9000", (-10, 36, 30, 60), ("EPSG:4258", "EPSG:25832")),
          ("EPSG:7912", (-10, 36, 30, 60), ("EPSG:4937", "EPSG:4936")), ("EPSG:9989", (-170, -70, 170, 70), ("EPSG:7912", "EPSG:9000")), ("EPSG:8999", (-170, -70, 170, 70), ("EPSG:9000", "EPSG:7912"))]


def proj_strings(rng):
    lon, lat = float(rng.integers(-170, 170)), float(rng.integers(-70, 70))
    p = str(rng.choice(["tmerc", "lcc", "aea", "merc", "utm", "stere", "laea", "longlat", "geocent"]))
    s = "+proj=" + p
    if p == "utm":
        z = int(rng.integers(1, 61))
        s += " +zone=%d" % z
        lon, lat = z*6 - 183.0, abs(lat)
    elif p == "lcc" or p == "aea":
        s += " +lat_1=%g +lat_2=%g +lat_0=%g +lon_0=%g" % (lat - 3, lat + 4, lat, lon)
        if lat - 3 <= 0 <= lat + 4:
            return proj_strings(rng)
    elif p == "tmerc":
        s += " +lat_0=%g +lon_0=%g +k=0.9996 +x_0=%g +y_0=%g" % (lat, lon, rng.integers(0, 10)*1e5, rng.integers(-3, 3)*1e5)
    elif p == "merc":
        s += " +lon_0=%g" % lon
    elif p != "longlat" and p != "geocent":
        s += " +lat_0=%g +lon_0=%g" % (lat, lon)
    s += " +" + str(rng.choice(["datum=WGS84", "datum=NAD83", "ellps=GRS80", "ellps=GRS80 +towgs84=0,0,0,0,0,0,0", "ellps=bessel", "ellps=intl +towgs84=84,274,65,0,0,0,0"]))
    if p not in ("longlat", "geocent"):
        s += str(rng.choice(["", " +units=m", " +units=km", " +units=us-ft", " +units=ft"]))
    if rng.random() < 0.2 and p != "geocent":
        s += " +vunits=" + str(rng.choice(["m", "km", "us-ft"]))
    s += " +no_defs"
    if rng.random() < 0.7:
        s += " +type=crs"
    return s, (lon - 2, lat - 2, lon + 2, lat + 2)


def choose(rng, pool):
    """(string, crs, area west, south, east, north)"""
    k = rng.random()
    if k < 0.35:
        s, area = proj_strings(rng)
        if rng.random() < 0.15:
            s2 = pyproj.CRS(s).to_wkt()
            s = s2
        return s, pyproj.CRS(s), area
    if k < 0.6:
        s = str(rng.choice(COMMON))
    else:
        i = pool[int(rng.integers(0, len(pool)))]
        s = "%s:%s" % (i.auth_name, i.code)
    c = pyproj.CRS(s)
    a = c.area_of_use
    return (c.to_wkt() if rng.random() < 0.1 else s), c, ((a.west, a.south, a.east, a.north) if a else (-120, 30, -110, 40))


def horizontal(c):
    if c.is_bound:
        return horizontal(c.source_crs)
    return c.sub_crs_list[0] if c.is_compound else c


def axes(c):
    """Axes of the coordinate system, of the horizontal and then the vertical one."""
    if c.is_bound:
        return axes(c.source_crs)
    if c.is_compound:
        return [a for s in c.sub_crs_list for a in axes(s)]
    return list(c.axis_info)


def near(a, b, scale=1.0, tol=1e-9):
    return (a == b) or (math.isnan(a) and math.isnan(b)) or abs(a - b) <= tol*max(scale, abs(a), abs(b))


PLANAR = ["EPSG:26909", "EPSG:26910", "EPSG:26911", "EPSG:32611", "EPSG:3310", "EPSG:3488", "EPSG:2227", "EPSG:26910+5703", "EPSG:26911+6360"]
GEO = ["EPSG:4326", "EPSG:4269", "EPSG:4979", "OGC:CRS84"]


def several(rng, op):
    """Transformers used in turn for the same numbers: between systems of which the numbers are valid in all."""
    pairs = []
    for _ in range(5):
        if pairs and rng.random() < 0.7:  # one of the two systems is that of another transformer
            a, b = pairs[int(rng.integers(0, len(pairs)))]
            a, b = (a, str(rng.choice(PLANAR + GEO))) if rng.random() < 0.5 else (str(rng.choice(PLANAR if a in PLANAR else GEO)), b)
        else:
            a, b = (str(v) for v in rng.choice(PLANAR + GEO, 2, replace=False))
            if rng.random() < 0.7:
                a = str(rng.choice(PLANAR))
        pairs.append((a, b))
    trs = []
    for k, (a, b) in enumerate(pairs):
        try:
            trs.append(pyproj.Transformer.from_crs(a, b))
        except pyproj.exceptions.ProjError:
            trs.append(None)
            continue
        op("t.new s%d" % k, None)
        op("t.set s%d %s %s" % (k, enc(a), enc(b)), None)
        op("t.init s%d" % k, ("init", a, b))
    pts = {True: [(float(rng.uniform(3e5, 7e5)), float(rng.uniform(3.9e6, 4.3e6)), float(rng.uniform(-3e3, 1e3))) for _ in range(2)],
           False: [(float(rng.uniform(34, 40)), float(rng.uniform(34, 40)), float(rng.uniform(-3e3, 1e3))) for _ in range(2)]}
    for q in pts.values():
        q.append((q[0][0], q[0][1], q[0][2] - 1.0))
        q.append((q[0][0], q[1][1], q[0][2]))
    for _ in range(40):
        k = int(rng.integers(0, len(pairs)))
        if trs[k] is None:
            continue
        a, b = pairs[k]
        back = rng.random() < 0.3
        p = pts[(b if back else a) in PLANAR][int(rng.integers(0, 4))]
        two = rng.random() < 0.25
        X = trs[k].transform(p[0], p[1], 0.0 if two else p[2], direction="INVERSE" if back else "FORWARD")
        kind = ("i" if back else "f") + ("2" if two else "")
        op("t.%s s%d %s" % (kind, k, " ".join(map(f, p[:2] if two else p))), ("in turn, " + kind, a, b, p, X))


def one(ck, i, pool):
    rng = rng_for("C16", i)
    ops, meta = ["t.new h"], [None]

    def op(o, m):
        ops.append(o)
        meta.append(m)
    for j in range(9):
        try:
            s, c, area = choose(rng, pool)
            moving = j >= 8
            if moving:
                s, area, ds = MOVING[int(rng.integers(0, len(MOVING)))]
                c, d = pyproj.CRS(s), str(rng.choice(ds))
                dc = pyproj.CRS(d)
            else:
                d, dc, darea = choose(rng, pool) if rng.random() < 0.3 else (("EPSG:4326", pyproj.CRS("EPSG:4326"), area) if rng.random() < 0.6 else ("EPSG:4979", pyproj.CRS("EPSG:4979"), area))
            if rng.random() < 0.5:
                s, d, c, dc = d, s, dc, c
            tr = pyproj.Transformer.from_crs(s, d)
            geo = pyproj.Transformer.from_crs("EPSG:4979", s, always_xy=False)
        except pyproj.exceptions.ProjError:
            ck.count("unsupported_pairs")
            continue
        op("t.set h %s %s" % (enc(s), enc(d)), None)
        op("t.init h", ("init", s, d))
        w, so, e, n = area
        if e < w:
            e += 360
        for k in range(6):
            lo, la = float(rng.uniform(w, e)), float(rng.uniform(so, n))
            lo = (lo + 180) % 360 - 180
            z = float(rng.choice([0.0, 0.0, 10.0, -3000.0, float(rng.uniform(-5e3, 3e3))]))
            x, y, zz = geo.transform(la, lo, z)
            if not all(map(math.isfinite, (x, y, zz))):
                continue
            X = tr.transform(x, y, zz)
            B = tr.transform(*X, direction="INVERSE") if all(map(math.isfinite, X)) else None
            op("t.f h %s %s %s" % (f(x), f(y), f(zz)), ("f", s, d, (x, y, zz), X))
            op("t.f2 h %s %s" % (f(x), f(y)), ("f2", s, d, (x, y, 0.0), tr.transform(x, y, 0.0)))
            if B:
                op("t.i h %s %s %s" % tuple(map(f, X)), ("i", s, d, X, B, (x, y, zz)))
                op("t.i2 h %s %s" % tuple(map(f, X[:2])), ("i2", s, d, (X[0], X[1], 0.0), tr.transform(X[0], X[1], 0.0, direction="INVERSE")))
        for t, tc in ((s, c), (d, dc)):
            ax = axes(tc)
            unit = [NAMES.get(a.unit_name, a.unit_name) for a in ax]
            want = (unit + ["meter (assumed)"]*(3-len(unit)))[:3] if len(unit) >= 2 else None
            if want:
                op("t.units " + enc(t), ("units", t, want))
                mask = int(rng.integers(1, 8))
                op("t.unitsn %d %s" % (mask, enc(t)), ("units", t, [w if mask & (1 << q) else "" for q, w in enumerate(want)]))
            hc = horizontal(tc)
            dirs = [a.direction for a in axes(hc)[:2]]
            if tc.is_geocentric or dirs not in (["north", "east"], ["east", "north"]):
                continue
            op("t.xy x " + enc(t), ("init", t, "x, y"))
            for k in range(3):
                geographic = hc.is_geographic
                p = (float(rng.uniform(-80, 80)), float(rng.uniform(-80, 80)), float(rng.uniform(-1e3, 1e3))) if geographic else \
                    tuple(float(v) for v in pyproj.Transformer.from_crs("EPSG:4979", t).transform(float(rng.uniform(so, n)), (float(rng.uniform(w, e)) + 180) % 360 - 180, 0.0))
                if not all(map(math.isfinite, p)):
                    continue
                q = (p[1], p[0], p[2]) if dirs[0] == "north" else p
                op("t.f x %s %s %s" % tuple(map(f, p)), ("xy", t, "x, y", p, q))
                op("t.i x %s %s %s" % tuple(map(f, q)), ("xyi", t, "x, y", q, p))
        if rng.random() < 0.4:
            b = str(rng.choice(BAD))
            pair = (b, d) if rng.random() < 0.5 else (s, b)
            op("t.set h %s %s" % tuple(map(enc, pair)), None)
            op("t.init h", ("bad", pair))
            op("t.units " + enc(b), ("bad", b))
            op("t.xy y " + enc(b), ("bad", b))
    several(rng, op)
    op("t.units " + enc(""), ("units", "", ["unknown", "unknown", "meter (assumed)"]))
    tr = ck.drive(ops)
    if ck.crash(tr, "transformation"):
        return
    for m, e, o in zip(meta, tr.events, ops):
        if m is None:
            continue
        if m[0] == "bad":
            if e.ok:
                ck.violation("malformed coordinate system accepted", "%s: %s" % (m[1], e.args), [o])
            ck.case(m)
        elif not e.ok:
            ck.violation("supported coordinate system refused", "%s: %s" % (m, e.args), ops)
        elif m[0] == "units":
            got = [dec(a) for a in e.args]
            if got != m[2]:
                ck.violation("wrong units", "%s: %s, expected %s" % (m[1], got, m[2]), [o])
            ck.case(m)
        elif m[0] != "init":
            got = e.floats()
            want = m[4]
            # the reference is another client of the same projection library: agreement to roundoff
            if not all(near(a, b, tol=2e-9) for a, b in zip(got, want)):
                ck.violation("wrong position (%s)" % m[0], "%s -> %s: %s gives %s, expected %s" % (m[1], m[2], m[3], got, want), ops)
            ck.case((m[0], m[1], m[2], m[3]), dict(frm=m[1][:80], to=m[2][:80], point=m[3], result=got) if i % 7 == 0 else None)
            if m[0] == "i" and all(near(a, b, tol=1e-7) for a, b in zip(m[4], m[5])):
                ck.count("inverted")


def main():
    ck = Check("C16", "Random pairs of coordinate systems (database, composed, well-known text), points within their areas; results compared with an independent client of the projection library; "
               "units and axis order compared with its description; malformed names.",
               assumptions=["the installed projection library itself is right"])
    pool = [i for i in query_crs_info(auth_name="EPSG", pj_types=["GEOGRAPHIC_2D_CRS", "GEOGRAPHIC_3D_CRS", "PROJECTED_CRS", "GEOCENTRIC_CRS", "COMPOUND_CRS"]) if i.area_of_use]
    ck.map(lambda i: one(ck, i, pool), range(400 if THOROUGH else 32))
    return ck.finish(minimum=1000)
