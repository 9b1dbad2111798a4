"""python3 -m vf.replay DIR: runs the instrumented driver on DIR/script.txt (relative file names refer to DIR)."""
import os, subprocess, sys
from . import build

if __name__ == "__main__":
    d = os.path.abspath(sys.argv[1])
    b = build.Build("asan", ("driver",))
    sys.exit(subprocess.call([b["driver"], os.path.join(d, "script.txt")], cwd=d, env=build.ENV))
