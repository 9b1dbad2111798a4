"""C04: no-data at a contributing grid point, and only that, makes a value no-data."""
import os
import numpy as np
from .. import model as vm
from ..run import Check, THOROUGH, f
from ..work import *


def one(ck, i):
    rng = rng_for("C04", i)
    kind = "exact" if i % 3 else "general"
    size = "large" if i % 6 == 4 else "small"
    columns = None if rng.random() < 0.7 else [("value%d" % k, "none") for k in rng.permutation(24)[:int(rng.integers(8, 22))]]
    m = vm.random_model(rng, kind=kind, size=size, columns=columns, nodata=float(rng.choice([0.02, 0.15, 0.5])), max_blocks=3)
    if rng.random() < 0.5:  # a whole missing region as in real models (e.g. outside the area studied)
        for b in m.blocks:
            nx = b.x.n
            b.data[:max(1, nx//3), :, :, 0] = NODATA
    if rng.random() < 0.3:  # values of any size, also just short of the marker
        for b in m.blocks:
            big = rng.choice([-1.0, -1.0, 1.0], b.data.shape)*10.0**rng.uniform(6.0, 19.9, b.data.shape)
            at = (rng.random(b.data.shape) < 0.1) & (b.data != NODATA)
            b.data = np.where(at, big, b.data)
            ck.count("huge_values", int(at.sum()))
    path = m.write(ck.ws.path("m%d.h5" % i))
    crs = m.crs if kind == "exact" or rng.random() < 0.5 else str(rng.choice(m.others))
    pts = physical(m, model_points(rng, m, 400 if THOROUGH else 150, ("interior", "grid", "grid", "face", "face", "contact")) +
                   (sweep(rng, m, 60) if size == "large" else []), crs)
    names = [c[0] for c in m.columns]
    ops = ["q.new 1", init_ops("q", 1, [path], names, crs)]
    order = rng.permutation(len(pts))
    pts = [pts[k] for k in order]
    ops += ["q.q 1 %d %s %s %s" % (len(names), f(x), f(y), f(z)) for _, x, y, z in pts]
    tr = ck.drive(ops)
    if not ck.crash(tr, "query next to missing data", [path]):
        if not tr.events[1].ok:
            return ck.violation("valid model refused", tr.events[1].args, ops[:2], [path])
        for n, ((k, x, y, z), e) in enumerate(zip(pts, tr.events[2:])):
            v = e.floats() if e.ok else None
            bad = judge_point([m], names, crs, (x, y, z), int(v[0]), v[1:]) if e.ok else "exception " + e.args
            if bad:
                ck.violation("missing data misjudged", bad, ops[:2] + ops[2:3+n], [path])
                break
            nod = sum(1 for u in v[1:] if u == NODATA)
            ck.count("values_no_data", nod)
            ck.count("values_present", len(names) - nod)
            ck.count("points_mixed", int(0 < nod < len(names)))
            ck.count("points_" + k)
            ck.case((i, x, y, z), dict(model=i, kind=k, point=[x, y, z], values=v[1:]) if 0 < nod < len(names) and n % 40 == 0 else None)
    os.unlink(path)


def main():
    ck = Check("C04", "Random models with no-data markers scattered per value and in whole regions; points at grid points, on faces and inside cells. "
               "The reference knows which grid points contribute; each (model, point) counts once.",
               assumptions=["a weight within roundoff of zero may count as contributing or not"])
    ck.map(lambda i: one(ck, i), range(400 if THOROUGH else 72))
    return ck.finish(minimum=1000)
