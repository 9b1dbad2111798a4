"""C20: creating a model."""
import copy, os, math, hashlib
import h5py
import numpy as np
from .. import build
from ..create import *
from ..run import Check, THOROUGH, VERIF, f, enc
from ..work import rng_for, init_ops
import sys
sys.path.insert(0, os.path.join(VERIF, "harness"))


def top(x, y):
    return 120.0 + 80.0*np.sin(x*7.0e-5) + 60.0*np.cos(y*9.0e-5)


def topo(x, y):
    return top(x, y) - 40.0 - 30.0*np.sin((x + 2.0*y)*5.0e-5)


def contents(path):
    out = {}
    with h5py.File(path, "r") as h:
        def visit(name, o):
            at = {k: (v.tobytes() if isinstance(v, np.ndarray) and v.dtype != object else repr(v)) for k, v in o.attrs.items()}
            out[name] = (at, o.shape, o.dtype.str, hashlib.blake2b(o[()].tobytes()).hexdigest()) if isinstance(o, h5py.Dataset) else (at,)
        visit("/", h)
        h.visititems(visit)
    return out


def weight(k):
    return 1.0 if k < 3 else 1.0e-5*(k//3)


def close(a, b, tol):
    return a.shape == b.shape and bool((np.abs(a.astype(float) - b) <= tol).all())


def wrong(ck, s, path):
    """(key, text) of the first thing wrong with the created file, or None; known differences are returned separately."""
    with h5py.File(path, "r") as h:
        surf = None
        for flag, name, fn in ((s.has_top, "top_surface", top), (s.has_topo, "topography_bathymetry", topo)):
            if flag != ("surfaces" in h and name in h["surfaces"]):
                return "surface", "%s %s" % (name, "missing" if flag else "not asked for"), None
            if flag:
                x, y = s.physical(s.top[0].pos(), s.top[1].pos())
                e = fn(x*s.scale, y*s.scale)[:, :, None]
                v = h["surfaces"][name][:]
                if not close(v, e, 2e-4):
                    return "surface", "%s: %s stored, shape %s, expected %s shape %s" % (name, v.ravel()[:4], v.shape, e.ravel()[:4], e.shape), None
                if name == "top_surface":
                    surf = v[:, :, 0].astype(float)
        known = None
        if sorted(h["blocks"]) != sorted(b[0] for b in s.blocks):
            return "blocks", "%s" % sorted(h["blocks"]), None
        for name, gx, gy, gz in s.blocks:
            v = h["blocks"][name][:]
            px, py = gx.pos(), gy.pos()
            if v.shape != (gx.n, gy.n, gz.n, s.nv):
                return "block shape", "%s: %s, expected %s" % (name, v.shape, (gx.n, gy.n, gz.n, s.nv)), None
            x, y = s.physical(px, py)
            zl = gz.pos() if gz.coords is not None else gz.top - gz.pos()
            alt = None if gz.coords is None else gz.top - gz.pos()

            def warp(zz):
                if surf is None:
                    out = np.broadcast_to(zz, (gx.n, gy.n, gz.n)).copy()
                else:
                    ix = [int(np.argmin(np.abs(s.top[0].pos() - q))) for q in px]
                    iy = [int(np.argmin(np.abs(s.top[1].pos() - q))) for q in py]
                    t = surf[np.ix_(ix, iy)][:, :, None]
                    D = s.dims[2]
                    out = -D + (t + D)/D*(zz[None, None, :] + D)
                out[:, :, 0] += s.offset
                return out

            def all_values(zz):
                base = [np.broadcast_to(x[:, :, None], zz.shape), np.broadcast_to(y[:, :, None], zz.shape), zz]
                return np.stack([base[k % 3]*weight(k) for k in range(s.nv)], axis=3)
            e = all_values(warp(zl))
            w = np.array([weight(k) for k in range(s.nv)])
            tol = 1e-3*w*np.ones_like(e) + 2.5e-7*np.abs(e)
            if s.scale != 1.0:
                hor = [k for k in range(s.nv) if k % 3 < 2]
                tol[..., hor] = 1e-9*w[hor] + 2.5e-7*np.abs(e[..., hor])
            if not close(v, e, tol):
                if alt is not None and close(v, all_values(warp(alt)), tol):
                    known = "z_coordinates of %s: values computed for elevations %s instead of %s" % (name, warp(alt)[0, 0, :4], warp(zl)[0, 0, :4])
                else:
                    k = np.argwhere(np.abs(v - e) > tol)
                    j = tuple(int(q) for q in k[0])
                    return "block values", "%s: %d of %d differ, first at %s: stored %s, expected %s" % (name, len(k), v.size, j, v[j], e[j]), None
    return None, None, known


def query_ops(rng, s, path):
    """Queries at grid points: (ops, expectations)."""
    ops = ["q.new q", init_ops("q", "q", [path], s.values, s.crs)]
    want = []
    with h5py.File(path, "r") as h:
        surf = h["surfaces/top_surface"][:, :, 0].astype(float) if s.has_top else None
        for name, gx, gy, gz in s.blocks:
            v = h["blocks"][name]
            px, py = gx.pos(), gy.pos()
            X, Y = s.physical(px, py)
            for _ in range(12):
                i, j, k = (int(rng.integers(0, g.n)) for g in (gx, gy, gz))
                zl = gz.coords[k] if gz.coords is not None else gz.top - gz.res*k
                if surf is not None:
                    t = surf[np.argmin(np.abs(s.top[0].pos() - px[i])), np.argmin(np.abs(s.top[1].pos() - py[j]))]
                    z = -s.dims[2] + (t + s.dims[2])/s.dims[2]*(zl + s.dims[2])
                else:
                    z = zl
                inner = 0 < i < gx.n-1 and 0 < j < gy.n-1
                contact = k in (0, gz.n-1)
                if contact:  # within the block rather than at its contact, where the neighbour may answer
                    step = (gz.coords[k] - gz.coords[1 if k == 0 else k-1]) if gz.coords is not None else (gz.res if k == 0 else -gz.res)
                    dz = -2e-3*step
                    near = v[i, j, 1 if k == 0 else k-1, :]
                    want.append((len(ops), name, (i, j, k), v[i, j, k, :]*0.998 + near*0.002, inner))
                else:
                    dz = 0.0
                    want.append((len(ops), name, (i, j, k), v[i, j, k, :], inner))
                # the same physical point in the coordinate system of the model
                fac = (t + s.dims[2])/s.dims[2] if surf is not None else 1.0
                ops.append("q.q q %d %s %s %s" % (s.nv, f(s.origin[0] + X[i, j]), f(s.origin[1] + Y[i, j]), f(z + dz*fac)))
    return ops + ["q.del q"], want


def mismatch(ck, pkg, g):
    """Blocks with points between those of the top surface are refused rather than given elevations of other points."""
    rng = rng_for("C20", "mismatch", g)
    requests, meta = [], []
    for j in range(4):
        s = Setup(rng)
        while not s.has_top:
            s = Setup(rng)
        d = os.path.dirname(ck.ws.path("x%d-%d" % (g, j), "x"))
        S = s.config([None, int(rng.integers(5, 500))][j % 2], "m.h5")
        k = int(rng.integers(0, len(s.blocks)))
        name, axis = s.blocks[k][0], int(rng.integers(0, 2))
        gr, top_gr = s.blocks[k][1+axis], s.top[axis]
        if gr.coords is None:
            S[name]["xy"[axis] + "_resolution"] = repr(float(top_gr.res*(gr.res//top_gr.res + rng.uniform(0.1, 0.9))))
        else:
            c, t = list(gr.coords), np.array(top_gr.coords)
            q = int(rng.integers(0, gr.n))
            i = int(np.argmin(np.abs(t - c[q])))
            i += -1 if i == len(t)-1 else 0
            c[q] = float(t[i] + rng.uniform(0.2, 0.8)*(t[i+1] - t[i]))
            S[name]["xy"[axis] + "_coordinates"] = "[" + ", ".join(repr(v) for v in c) + "]"
        write_config(rng, S, d, ["a.cfg"])
        requests.append(dict(cwd=d, runs=[["--config=a.cfg", "--all"]]))
        meta.append((d, name, "xy"[axis], s.scale, S[name]))
        # the surface in the file is another one than configured
        d = os.path.dirname(ck.ws.path("y%d-%d" % (g, j), "x"))
        o = s.scaled(float(rng.choice([1.003, 0.5, 2.0, 1.0 + 1e-6])))
        if rng.random() < 0.5:  # along one axis only
            o = copy.deepcopy(o)
            keep = int(rng.integers(0, 2))
            o.top = tuple(s.top[q] if q == keep else o.top[q] for q in (0, 1))
            o.blocks = [tuple(b[1+q-1] if q == 0 else (sb[q] if q-1 == keep else b[q]) for q in range(4)) for b, sb in zip(o.blocks, s.blocks)]
            o.dims[keep] = s.dims[keep]
        write_config(rng, s.config(None, "m.h5"), d, ["a.cfg"])
        write_config(rng, o.config(None, "m.h5"), d, ["b.cfg"])
        requests.append(dict(cwd=d, runs=[["--config=a.cfg", "--import-domain", "--import-surfaces"], ["--config=b.cfg", "--import-blocks"]]))
        meta.append((d, None, None, s.scale, None))
    res, crash, err = run_creations(pkg, requests)
    if crash:
        ck.violation("creation ends abnormally: " + crash.split(":")[0], "%s" % crash, None, extra=err[-4000:])
        return
    for r, m in zip(res, meta):
        if m[1] is None:
            if r[0][0] != "OK":
                ck.violation("surfaces refused", r[0][1], None, [m[0] + "/a.cfg"])
            elif r[1][0] == "OK":
                ck.violation("blocks imported with a top surface of another grid", "configured otherwise than stored", None, [m[0] + "/a.cfg", m[0] + "/b.cfg", m[0] + "/m.h5"])
            ck.count("surfaces_of_another_grid_refused")
        elif all(x[0] == "OK" for x in r):
            ck.violation("block between the points of the top surface accepted", "block %s, %s axis: %s" % (m[1], m[2], m[4]), None, [m[0] + "/a.cfg", m[0] + "/m.h5"])
        ck.case(("mismatch", m[0]))
        ck.count("mismatched_blocks_refused")


def group(ck, pkg, g):
    rng = rng_for("C20", g)
    requests, meta = [], []
    for j in range(6 if not THOROUGH else 12):
        s = Setup(rng, variable=True, variable_z=True) if j == 0 and g % 4 == 0 else Setup(rng, long=j == 1 and g % 2 == 1)
        pts = max(s.top[0].n*s.top[1].n, max(a.n*b.n*c.n for _, a, b, c in s.blocks))
        variants = []
        for k in range(3):
            d = os.path.dirname(ck.ws.path("g%d-%d-%d" % (g, j, k), "x"))
            batch = [None, 0, 10**9, 1, int(rng.integers(1, max(2, pts//40+2))), int(rng.integers(1, pts+2)), pts, pts-1][int(rng.integers(0, 8))] if k else [None, int(rng.integers(1, pts+2))][int(rng.integers(0, 2))]
            if batch == 1 and pts > 250:
                batch = int(rng.integers(pts//50, pts))
            conf = write_config(rng, s.config(batch, "m.h5"), d, ["a.cfg", "b.cfg", "c.cfg"][:int(rng.integers(1, 4))])
            c = "--config=" + ",".join(conf)
            how = int(rng.integers(0, 8)) if k else 0
            steps = [[["--all"]], [["--import-domain"], ["--import-surfaces"], ["--import-blocks"]], [["--import-domain", "--import-surfaces", "--import-blocks"]],
                     [["--import-surfaces"], ["--import-blocks"], ["--import-domain"], ["--import-surfaces"]], [["--all"], ["--all"]]][min(how, 4)]
            runs = [[c] + a if rng.random() < 0.7 else a + ["--config", c[9:]] for a in steps]
            before = []
            if how > 4:  # there is a file already: of another grid, of other dimensions, or of a creation that failed
                runs = runs[-1:]
                o = s.scaled(1.5)
                if how == 6:
                    o = Setup(rng)
                    o.blocks, o.has_top, o.has_topo = o.blocks[:len(s.blocks)], o.has_top and s.has_top, o.has_topo and s.has_topo
                S = (s if how == 7 else o).config(batch, "m.h5")
                if how == 7:
                    S["source"]["fail_after"] = str(int(rng.integers(0, len(s.blocks) + s.has_top + s.has_topo)))
                write_config(rng, S, d, ["before.cfg"])
                before = [["--config=before.cfg", "--all"]]
            runs = before + [r + (["--quiet"] if rng.random() < 0.2 else []) + (["--debug"] if rng.random() < 0.2 else []) for r in runs]
            requests.append(dict(cwd=d, runs=runs))
            variants.append((d, batch, how, len(before)))
        meta.append((s, variants))
    res, crash, err = run_creations(pkg, requests)
    if crash:
        ck.violation("creation ends abnormally: " + crash.split(":")[0], "%s at request %s" % (crash, requests[len(res)] if len(res) < len(requests) else None), None, extra=err[-4000:])
        return
    at = 0
    for s, variants in meta:
        first = None
        for d, batch, how, before in variants:
            r = res[at]
            if how == 7 and r[0][0] == "OK":
                ck.violation("creation succeeds though the data source failed", "batch size %s" % batch, None, [os.path.join(d, "before.cfg"), os.path.join(d, "m.h5")])
            if how in (5, 6) and r[0][0] != "OK":
                ck.violation("creation fails: " + r[0][1].split(":")[0], "batch size %s: %s" % (batch, r[0][1]), None, [os.path.join(d, "before.cfg")])
            if before:
                ck.count("created_over_" + ("another_grid", "other_dimensions", "failed_creation")[how-5])
            r = r[before:]
            at += 1
            path = os.path.join(d, "m.h5")
            files = [os.path.join(d, n) for n in ("before.cfg", "a.cfg", "b.cfg", "c.cfg", "m.h5")]
            bad = [x for x in r if x[0] != "OK"]
            if bad:
                ck.violation("creation fails: " + bad[0][1].split(":")[0], "batch size %s, steps %d: %s" % (batch, how, bad[0][1]), None, files)
                continue
            key, text, known = wrong(ck, s, path)
            if key:
                ck.violation("created file differs: " + key, "batch size %s, steps %d: %s" % (batch, how, text), None, files)
                continue
            if known:
                ck.violation("values of blocks with variable z coordinates are computed for mirrored elevations", known, None, files)
            c = contents(path)
            if first is None:
                first = c
                ops, want = query_ops(rng, s, path)
                tr = ck.drive(ops)
                if not ck.crash(tr, "query created model", [path]):
                    for k, name, ijk, v, inner in want:
                        e = tr.events[k]
                        got = e.floats(1) if e.ok else None
                        if e.ok and e.args[0] == "0":
                            # float32 values; the tolerance covers the snapping of elevations near contacts
                            tol = 0.02*np.ptp(np.append(v, 0)) if s.scale != 1.0 else 1e-5*np.abs(v) + 2.1e-2*np.array([weight(k) for k in range(s.nv)])
                            if not (np.abs(np.array(got) - v) <= tol).all():
                                ck.violation("query at a grid point differs", "%s %s: %s, stored %s" % (name, ijk, got, v), ops, [path])
                            ck.count("grid_points_queried")
                        elif inner:
                            ck.violation("no answer at a grid point", "%s %s: %s" % (name, ijk, e.args), ops, [path])
            elif c != first:
                ck.violation("file depends on batches, files or steps", "batch sizes %s, steps %s: %s" % ([v[1] for v in variants], how, [k for k in set(c) | set(first) if c.get(k) != first.get(k)][:4]), None, files)
            ck.case((g, d), dict(grid=[(b[0], b[1].n, b[2].n, b[3].n) for b in s.blocks], batch=batch, steps=how))
            ck.count("points_compared", sum(b[1].n*b[2].n*b[3].n for b in s.blocks))


def main():
    ck = Check("C20", "Random configurations run with different batch sizes, numbers of files and orders of steps; the file is compared with an independent computation of where every grid point is, "
               "all variants with each other, and queries at grid points with the stored values.")
    pkg = os.path.dirname(ck.ws.path("pkg", "x"))
    build.stage_python(pkg)
    ck.map(lambda g: group(ck, pkg, g), range(64 if THOROUGH else 16))
    ck.map(lambda g: mismatch(ck, pkg, g), range(64 if THOROUGH else 12))
    return ck.finish(minimum=100)
