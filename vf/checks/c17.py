"""C17: coordinate to index lookup."""
import numpy as np, math
from ..run import Check, THOROUGH, f
from ..work import rng_for


def one(ck, i):
    rng = rng_for("C17", i)
    ops, meta = [], []
    for j in range(30):
        uniform = rng.random() < 0.3
        if uniform:
            dx = float(rng.choice([0.1, 0.05, 1.0, 250.0, float(10.0**rng.uniform(-6, 6)), 2.0**int(rng.integers(-8, 12))]))
            n = int(rng.integers(1, 400))
            pos = dx*np.arange(n)
            coords, desc = None, False
            extra = [float(u) for u in rng.uniform(-3*dx, (n+3)*dx, 12)]
        else:
            n = int(rng.choice([1, 2, 2, 3, 4, 5, int(rng.integers(3, 40)), int(rng.integers(40, 600))]))
            step = 10.0**rng.uniform(-4, 4)
            start = float(rng.choice([0.0, 0.0, -5000.0, float(rng.uniform(-1e5, 1e5))]))
            style = int(rng.integers(0, 3))
            if style == 0:
                d = rng.uniform(0.1, 3.0, n-1)*step
            elif style == 1:
                d = 10.0**rng.uniform(-2, 2, n-1)*step
            else:
                d = np.floor(rng.uniform(1, 9, n-1))*(2.0**int(rng.integers(-3, 8)))
                start = float(round(start))
            asc = start + np.concatenate([[0.0], np.cumsum(d)])
            if len(np.unique(asc)) < n or (n > 1 and np.diff(asc).min() < 1e-9*np.abs(asc).max()):
                continue
            desc = rng.random() < 0.5
            coords = asc[::-1] if desc else asc
            pos = np.abs(coords - coords[0])
            extra = [float(u) for u in rng.uniform(-0.5*pos[-1]-1, 1.5*pos[-1]+1, 12)]
        q = [float(pos[k]) for k in (rng.integers(0, n, 12))] + [0.0, float(pos[-1])]
        q += [float(np.nextafter(p, s)) for p in q[:6] for s in (-np.inf, np.inf)]
        q += [float(rng.uniform(0, pos[-1])) for _ in range(20)] if n > 1 else []
        for _ in range(8 if n > 1 else 0):  # close to a grid coordinate, on either side
            k, s = int(rng.integers(0, n)), int(rng.choice([-1, 1]))
            if 0 <= k + s < n:
                q.append(float(pos[k] + (pos[k+s] - pos[k])*10.0**rng.uniform(-9, -1)))
        q += extra + [1e300, -1e300, math.inf, -math.inf, math.nan, 1e20]
        if uniform:
            ops.append("i.u %s %d %s" % (f(dx), len(q), " ".join(map(f, q))))
            given = None
        else:
            given = rng.permutation(coords)
            ops.append("i.v %d %d %s %d %s" % (int(desc), n, " ".join(map(f, given)), len(q), " ".join(map(f, q))))
        meta.append((uniform, coords, pos, q))
    # refusals
    bad = ["i.u 0 1 0", "i.u -1 1 0", "i.v 0 0 1 0", "i.vnull 0 3 1 2 3 0"]
    tr = ck.drive(ops + bad)
    if ck.crash(tr, "index lookup"):
        return
    for e, op in zip(tr.events[len(ops):], bad):
        if e.ok:
            ck.violation("degenerate grid accepted", op, [op])
        ck.case(("bad", op))
    for (uniform, coords, pos, q), e, op in zip(meta, tr.events, ops):
        if not e.ok:
            ck.violation("valid grid refused", e.args, [op])
            continue
        r = e.floats()
        n = len(pos)
        scale = max(abs(pos[-1]), np.abs(coords).max() if coords is not None else 0.0)
        ulp = 4*2.3e-16*max(scale, 1e-280)
        err = None
        for x, ix in zip(q, r):
            if math.isnan(x):
                if 0 <= ix <= n-1:
                    err = "not-a-number mapped to index %r" % ix
                continue
            if x < -ulp or x > pos[-1] + ulp:
                if 0 <= ix <= n-1:
                    err = "coordinate %r outside the grid mapped to index %r inside" % (x, ix)
                elif math.isfinite(x) and not (ix < 0) == (x < 0):
                    err = "coordinate %r outside the grid mapped to index %r on the wrong side" % (x, ix)
                ck.case((op[:80], x))
                continue
            if n == 1:
                continue
            k = min(max(int(np.searchsorted(pos, x, side="right")) - 1, 0), n-2)
            want = k + (x - pos[k])/(pos[k+1] - pos[k])
            near = min(pos[k+1]-pos[k], pos[k]-pos[k-1] if k else np.inf, pos[k+2]-pos[k+1] if k+2 < n else np.inf)
            tol = 2*ulp/near + 1e-14*n
            if not abs(ix - want) <= tol:
                err = "index %r of coordinate %r, expected %r (between grid coordinates %r and %r)" % (ix, x, want, pos[k], pos[k+1])
            ck.case((op[:80], x), dict(coords=None if coords is None else list(coords[:6]), x=x, index=ix) if rng.random() < 1e-3 else None)
        inside = sorted((x, ix) for x, ix in zip(q, r) if not math.isnan(x) and 0 <= x <= pos[-1])
        for (x0, i0), (x1, i1) in zip(inside, inside[1:]):
            if i1 < i0 - 1e-12*max(1.0, i0) and not err and x1 - x0 > 8*ulp:
                err = "not monotonic: %r -> %r, %r -> %r" % (x0, i0, x1, i1)
        ck.count("grids_uniform" if uniform else ("grids_descending" if coords[-1] < coords[0] else "grids_ascending"))
        if err:
            ck.violation("index lookup wrong", err, [op])
            return


def main():
    ck = Check("C17", "Random uniform and variable grids (1 to 600 coordinates, permuted on input, ascending/descending, offset origins) looked up at grid "
               "coordinates, their floating-point neighbours, interior, outside and non-finite coordinates; each (grid, coordinate) counts once.",
               assumptions=["index errors up to a few units of roundoff of the coordinate are accepted"])
    ck.map(lambda i: one(ck, i), range(200 if THOROUGH else 40))
    return ck.finish(minimum=5000)
