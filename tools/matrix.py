#!/usr/bin/python3
"""Run checks against planted bugs: tools/matrix.py [-c CHECK,...] NAME ...   (default: the check of the bug's property)"""
import json, os, subprocess, sys, shutil, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
checks = None
if args[:1] == ["-c"]:
    checks = args[1].split(",")
    args = args[2:]
names = args or sorted(os.listdir(VERIF+"/seeded"))
for name in names:
    d = os.path.join(VERIF, "seeded", name)
    prop = json.load(open(d+"/meta.json"))["property"]
    scr, bld = "/tmp/mx-%d" % os.getpid(), "/tmp/mxb-%d" % os.getpid()
    shutil.rmtree(scr, ignore_errors=True)
    subprocess.check_call(["git", "clone", "-q", "/repo", scr])
    for f in ("configure", "portinfo.in", "Makefile.in", "_build"):
        if os.path.exists("/repo/"+f) and not os.path.exists(scr+"/"+f):
            subprocess.check_call(["cp", "-a", "/repo/"+f, scr])
    subprocess.check_call(["git", "-C", scr, "apply", d+"/patch.diff"])
    for c in checks or [prop]:
        t = time.time()
        p = subprocess.run(["python3", "check.py", c], cwd=VERIF, env=dict(os.environ, VF_REPO=scr, VF_BUILD=bld, VERIF_SEED=os.environ.get("VERIF_SEED", "1")), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        v = [l for l in p.stdout.splitlines() if l.startswith("VIOLATION property=%s " % c)]
        print("%-6s %-8s %s rc=%d violations=%d %.0fs" % (name, c, "CAUGHT" if p.returncode == 1 and v else "MISSED", p.returncode, len(v), time.time()-t), flush=True)
        if p.returncode not in (0, 1):
            print(p.stdout[-1500:])
    shutil.rmtree(scr, ignore_errors=True)
shutil.rmtree("/tmp/mxb-%d" % os.getpid(), ignore_errors=True)
