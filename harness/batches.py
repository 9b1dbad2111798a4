"""Runs the batch generators: one JSON request per line; one line with the list of batches (ranges) per request."""
import json, sys
from geomodelgrids.create.utils.batch import BatchGenerator2D, BatchGenerator3D

for line in sys.stdin:
    dims, limit, cap = json.loads(line)
    try:
        g = BatchGenerator2D(*dims, limit) if len(dims) == 2 else BatchGenerator3D(*dims, limit)
        out = []
        for b in g:
            out.append([int(v) for r in ([b.x_range, b.y_range] if len(dims) == 2 else [b.x_range, b.y_range, b.z_range]) for v in r])
            if len(out) > cap:
                out = "endless"
                break
        print(json.dumps(out))
    except Exception as e:
        print(json.dumps("%s: %s" % (type(e).__name__, e)))
print("END")
