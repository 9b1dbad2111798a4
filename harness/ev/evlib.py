"""What the stand-ins for the EarthVision programs know: surfaces and labels are simple functions of the coordinates (in the units of the model)."""
import atexit, json, math, os, signal, sys


def called(name, output=None):
    """Fails as asked by the environment, PROGRAM:CALL:part|none|late|kill, possibly leaving part of the output or all of it."""
    plan = os.environ.get("VF_EV_FAIL")
    if not plan:
        return
    prog, call, how = plan.split(":")
    if prog != name:
        return
    count = ".calls-" + name
    n = 1 + (int(open(count).read()) if os.path.exists(count) else 0)
    with open(count, "w") as fo:
        fo.write(str(n))
    if n == int(call) and how in ("late", "kill"):
        def leave():
            sys.stdout.flush()
            if how == "kill":
                os.kill(os.getpid(), signal.SIGKILL)
            os._exit(3)
        atexit.register(leave)
        return
    if n == int(call):
        if output and how == "part":
            with open(output, "w") as fo:
                fo.write("1.0\n")
        sys.stderr.write(name + ": no license\n")
        sys.exit(1)


def elevation(g, x, y):
    return g["a"] + g["b"]*math.sin(x*g["kx"] + g["p"]) + g["c"]*math.cos(y*g["ky"])


def side(plane, x, y, z):
    return plane[0]*x + plane[1]*y + plane[2]*z - plane[3]


def label(m, x, y, z):
    """Names of the fault block and of the zone."""
    fb = sum(side(p, x, y, z) > 0 for p in m["fault_planes"])
    zn = sum(side(p, x, y, z) > 0 for p in m["zone_planes"])
    return m["fault_labels"][fb], m["zone_labels"][zn]
