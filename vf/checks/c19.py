"""C19: batches tile the grid exactly once within the limit."""
import json, os
import numpy as np
from ..run import Check, THOROUGH, VERIF, run_process, crash_kind
from .. import build
from ..work import rng_for


def judge(dims, limit, got):
    if isinstance(got, str):
        return got
    b = np.array(got, dtype=np.int64).reshape(-1, 2*len(dims))
    lo, hi = b[:, 0::2], b[:, 1::2]
    if len(b) == 0:
        return "no batches"
    if (lo < 0).any() or (hi > np.array(dims)).any():
        return "batch beyond the grid"
    if (hi <= lo).any():
        return "empty batch"
    size = np.prod(hi - lo, axis=1)
    if limit and size.max() > limit:
        return "batch of %d points" % size.max()
    if size.sum() != np.prod(np.array(dims, dtype=object)):
        return "%d points in batches, %d in the grid" % (size.sum(), np.prod(dims))
    # with as many points as the grid, every point is covered once if no two batches share one: marks on the cells between all cuts
    cuts = [np.unique(np.concatenate([lo[:, k], hi[:, k]])) for k in range(len(dims))]
    mark = np.zeros([len(c)-1 for c in cuts], dtype=np.int32)
    for q in b:
        s = tuple(slice(np.searchsorted(cuts[k], q[2*k]), np.searchsorted(cuts[k], q[2*k+1])) for k in range(len(dims)))
        mark[s] += 1
    if (mark != 1).any():
        return "points in %d batches" % mark.max()
    return None


def group(args):
    pkg, cases = args
    text = "".join(json.dumps([d, m, 4*int(np.prod(d)) + 10 if np.prod(d) < 20000 else 40000]) + "\n" for d, m in cases)
    out, err, rc, to = run_process(["/usr/bin/python3", os.path.join(VERIF, "harness", "batches.py")], stdin=text, env=dict(build.ENV, PYTHONPATH=pkg))
    lines = out.splitlines()
    if to or rc != 0 or lines[-1:] != ["END"]:
        at = cases[len(lines)] if len(lines) < len(cases) else None
        return [("no end" if to else "abnormal end", at, "timeout" if to else crash_kind(err, rc))], []
    bad = []
    for (d, m), ln in zip(cases, lines):
        e = judge(d, m, json.loads(ln))
        if e:
            bad.append(("%dD: " % len(d) + "".join(c for c in e if not c.isdigit()), (d, m), e + "\n" + ln[:2000]))
    return bad, [ln.count("[")-1 for ln in lines[:-1]]


def main():
    ck = Check("C19", "Every small grid with every small limit, random large ones; the sequence of batches is checked to cover every point once.", programs=())
    pkg = os.path.dirname(ck.ws.path("pkg", "x"))
    build.stage_python(pkg)
    rng = rng_for("C19")
    n2, n3 = (20, 8) if THOROUGH else (11, 5)
    cases = [((x, y), m) for x in range(1, n2+1) for y in range(1, n2+1) for m in list(range(1, x*y+2)) + [None, 0]]
    cases += [((x, y, z), m) for x in range(1, n3+1) for y in range(1, n3+1) for z in range(1, n3+1) for m in list(range(1, x*y*z+2)) + [None, 0]]
    ck.count("exhaustive", len(cases))
    for _ in range(60000 if THOROUGH else 3000):
        d = tuple(int(10**rng.uniform(0, 5 if rng.random() < 0.5 else 2)) for _ in range(int(rng.choice([2, 3]))))
        v = int(np.prod(np.array(d, dtype=object)))
        k = int(rng.integers(1, 1500))
        m = max(1, v//k + int(rng.integers(-2, 3)))
        s = str(rng.choice(["v", "v", "square", "line", "slab"]))
        if s == "square":
            m = int(rng.integers(1, 400))**len(d) + int(rng.integers(-1, 2))
        elif s == "line":
            m = d[int(rng.integers(0, len(d)))] + int(rng.integers(-1, 2))
        elif s == "slab":
            m = d[0]*d[-1] + int(rng.integers(-1, 2))
        if m < 1 or v/m > 1500:
            continue
        cases.append((d, m))
    parts = [cases[k::16] for k in range(16)]
    import concurrent.futures, multiprocessing
    with concurrent.futures.ProcessPoolExecutor(8, mp_context=multiprocessing.get_context("fork")) as ex:
        for p, (bad, counts) in zip(parts, ex.map(group, [(pkg, p) for p in parts])):
            for kind, at, text in bad:
                ck.violation("batches: " + kind, "grid and limit %s: %s" % (at, text), None, extra=text)
            for (d, m), n in zip(p, counts):
                ck.case((d, m), dict(grid=d, limit=m, batches=n) if int(np.prod(np.array(d, dtype=object))) > 10**5 else None)
                ck.count("batches", n)
    return ck.finish(minimum=5000)
