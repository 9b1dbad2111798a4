"""Helpers of the demonstrations: small models, the programs, C++ snippets. Works in a scratch folder of its own."""
import atexit, os, shutil, subprocess, sys, tempfile
import h5py
import numpy as np

REPO = "/repo"
BLD = REPO + "/_build"
NODATA = -1.0e+20
D = tempfile.mkdtemp(prefix="demo-")
atexit.register(shutil.rmtree, D, True)
os.chdir(D)


def model(path, blocks, dims, crs="EPSG:3488", origin=(10000.0, -20000.0), azimuth=0.0, top=None, topo=None, values=("one",), units=None, attrs=None):
    """blocks: list of dict(name, z_top, data[nx,ny,nz,nv], x, y, z) with x, y, z a resolution or coordinates. Surfaces: dict(data, x, y)."""
    with h5py.File(path, "w") as h:
        a = dict(title="Demo", id="demo", description="Demonstration", version="1.0.0", history="none", comment="none", creator_name="A B", creator_email="a@b.c",
                 creator_institution="none", acknowledgement="none", license="none", doi="none", repository_name="none", repository_url="none", repository_doi="none")
        for k, v in a.items():
            h.attrs[k] = v
        for k in ("keywords", "authors", "references"):
            h.attrs[k] = np.array(["a", "b"], dtype=h5py.string_dtype())
        h.attrs["auxiliary"] = "{}"
        h.attrs["data_values"] = list(values)
        h.attrs["data_units"] = list(units or ["none"]*len(values))
        h.attrs["data_layout"] = "vertex"
        h.attrs["crs"] = crs
        h.attrs["origin_x"], h.attrs["origin_y"], h.attrs["y_azimuth"] = origin[0], origin[1], azimuth
        h.attrs["dim_x"], h.attrs["dim_y"], h.attrs["dim_z"] = [float(d) for d in dims]
        for k, v in (attrs or {}).items():
            h.attrs[k] = v

        def axis(ds, nm, v):
            if np.ndim(v):
                ds.attrs[nm+"_coordinates"] = np.array(v, dtype=np.float64)
            else:
                ds.attrs[nm+"_resolution"] = float(v)
        if top or topo:
            g = h.create_group("surfaces")
            for key, s in (("top_surface", top), ("topography_bathymetry", topo)):
                if s:
                    ds = g.create_dataset(key, data=np.asarray(s["data"], dtype=np.float32)[..., None])
                    axis(ds, "x", s["x"])
                    axis(ds, "y", s["y"])
        g = h.create_group("blocks")
        for b in blocks:
            ds = g.create_dataset(b["name"], data=np.asarray(b["data"], dtype=b.get("dtype", np.float32)), chunks=b.get("chunks"))
            for nm in "xyz":
                axis(ds, nm, b[nm])
            if not np.ndim(b["z"]):
                ds.attrs["z_top"] = float(b["z_top"])
    return path


def grid(v, n):
    return np.array(v, dtype=np.float64) if np.ndim(v) else v*np.arange(n)


def field(fns, x, y, z, z_top, shape):
    """Values of functions of the model coordinates at the points of the grid."""
    gx, gy = grid(x, shape[0]), grid(y, shape[1])
    gx, gy = gx - gx[0], gy - gy[0]
    gz = np.array(z, dtype=float) if np.ndim(z) else z_top - z*np.arange(shape[2])
    X, Y, Z = np.meshgrid(gx, gy, gz, indexing="ij")
    return np.stack([np.broadcast_to(f(X, Y, Z), X.shape) for f in fns], axis=-1)


def block(name, fns, shape, x, y, z, z_top=0.0, **kw):
    return dict(name=name, z_top=z_top, x=x, y=y, z=z, data=field(fns, x, y, z, z_top, shape), **kw)


def to_crs(m_xy, origin=(10000.0, -20000.0), azimuth=0.0):
    a = np.radians(azimuth)
    x, y = m_xy
    return origin[0] + x*np.cos(a) + y*np.sin(a), origin[1] - x*np.sin(a) + y*np.cos(a)


def program(name, *args, **kw):
    return subprocess.run([BLD + "/bin/.libs/geomodelgrids_" + name, *args], cwd=D, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=250, **kw)


def rows(path):
    return np.array([[float(t) for t in l.split()] for l in open(path) if l.strip() and not l.startswith("#")])


def cxx(source, *args, cc=False, link=()):
    """Compile and run a program using the library."""
    src = os.path.join(D, "p.c" if cc else "p.cc")
    with open(src, "w") as f:
        f.write(source)
    exe = os.path.join(D, "p")
    subprocess.check_call([*(["gcc"] if cc else ["g++", "-std=c++17"]), "-g", "-I" + REPO + "/libsrc", "-I" + BLD, "-I/usr/include/hdf5/serial", src, "-o", exe,
                           "-L" + BLD + "/libsrc/geomodelgrids/.libs", "-lgeomodelgrids", "-L/usr/lib/x86_64-linux-gnu/hdf5/serial", "-lhdf5", "-lproj", *link])
    p = subprocess.run([exe, *map(str, args)], cwd=D, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=250)
    return p


def query(models, values, crs="EPSG:3488"):
    """Python query object."""
    import geomodelgrids
    q = geomodelgrids.Query()
    q.initialize(list(models), list(values), crs)
    return q


def close(got, want, tol=1e-3):
    got, want = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
    ok = got.shape == want.shape and bool(np.all(np.abs(got - want) <= tol*(1 + np.abs(want))))
    if not ok:
        print("got", got, "expected", want)
        sys.exit(1)
