"""Operation interpreter over the Python interface: one JSON operation per line of standard input, one event per line."""
import json, sys
import numpy as np
import geomodelgrids


def points(spec):
    a = np.array(spec["p"], dtype=np.float64).reshape(-1, spec["nc"]) if "shape" not in spec else np.zeros(spec["shape"])
    how = spec.get("how", "c")
    if how == "f":
        a = np.asfortranarray(a)
    elif how == "list":
        a = a.tolist()
    elif how == "strided":
        b = np.full((2*a.shape[0], a.shape[1]+2), 1e9)
        b[::2, 1:-1] = a
        a = b[::2, 1:-1]
    elif how == "reversed":
        a = np.ascontiguousarray(a[::-1])[::-1]
    elif how == "f4":
        a = a.astype(np.float32)
    elif how == "int":
        a = a.astype(np.int64)
    elif how == "readonly":
        a.flags.writeable = False
    elif how == "text":
        a = np.array([["a"]*spec["nc"]])
    return a


H = {}
for line in sys.stdin:
    op = json.loads(line)
    print("START", flush=True)
    try:
        o, h, r = op["op"], op.get("h"), None
        if o == "new":
            H[h] = geomodelgrids.Query()
        elif o == "newmodel":
            H[h] = geomodelgrids.Model()
        elif o == "init":
            H[h].initialize(op["files"], op["names"], op["crs"])
        elif o == "squash":
            H[h].set_squashing(getattr(geomodelgrids.Query, op["v"]))
        elif o == "min":
            H[h].set_squash_min_elev(op["v"])
        elif o == "q":
            a = points(op)
            v, e = H[h].query(a)
            r = dict(v=np.asarray(v).tolist(), vs=list(v.shape), e=[int(i) for i in e], es=list(e.shape), dt=str(v.dtype))
        elif o == "top" or o == "topo":
            v = (H[h].query_top_elevation if o == "top" else H[h].query_topobathy_elevation)(points(op))
            r = dict(v=v.tolist(), vs=list(v.shape))
        elif o == "fin":
            H[h].finalize()
        elif o == "eh":
            eh = H[h].get_error_handler()
            r = int(eh.get_status())
            eh.reset_status()
        elif o == "del":
            del H[h]
        elif o == "m.open":
            H[h].open(op["file"], geomodelgrids.Model.READ)
        elif o == "m.load":
            H[h].load_metadata()
        elif o == "m.crs":
            H[h].set_input_crs(op["crs"])
        elif o == "m.init":
            H[h].initialize()
        elif o == "m.close":
            H[h].close()
        elif o == "m.in":
            v = H[h].contains(points(op))
            r = dict(v=[bool(i) for i in v], vs=list(v.shape))
        elif o == "m.q":
            v = H[h].query(points(op))
            r = dict(v=v.tolist(), vs=list(v.shape))
        elif o == "m.meta":
            m = H[h]
            i = m.info if hasattr(m, "info") else m.get_info()
            r = dict(names=m.value_names, units=m.value_units, dims=m.dims, origin=m.origin, az=m.y_azimuth, crs=m.crs,
                     info={k: getattr(i, k) for k in ("title", "id", "description", "keywords", "history", "comment", "creator_name",
                           "creator_institution", "creator_email", "acknowledgement", "authors", "references", "repository_name",
                           "repository_url", "repository_doi", "version", "license", "auxiliary")})
        elif o == "state":
            import ctypes, gc, os
            gc.collect()

            class Info(ctypes.Structure):
                _fields_ = [(k, ctypes.c_size_t) for k in ("arena", "ordblks", "smblks", "hblks", "hblkhd", "usmblks", "fsmblks", "uordblks", "fordblks", "keepcost")]
            fn = ctypes.CDLL(None).mallinfo2
            fn.restype = Info
            i = fn()
            r = dict(heap=i.uordblks + i.hblkhd, fds=len(os.listdir("/proc/self/fd")))
        else:
            raise SystemExit("unknown operation " + o)
        print("OK " + json.dumps(r), flush=True)
    except Exception as err:
        print("EXC " + json.dumps([type(err).__name__, str(err)]), flush=True)
print("END", flush=True)
