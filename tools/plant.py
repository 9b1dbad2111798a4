#!/usr/bin/python3
"""Make and confirm planted bugs: tools/plant.py WORKER SPEC.py ...

A spec defines PROPERTY, NEEDS, WHAT, EDITS = [(file, old, new)], DEMO (text of demo.py) and optionally CHECKS. The worker's
scratch copy of the tree is mounted over /repo in a namespace of its own, where it is built, tested and demonstrated.
Prints one line per spec; with a good one seeded/<name>/ is written.
"""
import json, os, re, shutil, subprocess, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = json.load(open("/opt/vp/BASELINE.json"))
BASE = set(BASE.get("passed") or BASE.get("stable") or next(v for v in BASE.values() if isinstance(v, list)))
ORIG = "5d4c8e9f438ee0188928234ce2590e4760a9c476"
SH = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
export LD_LIBRARY_PATH=/repo/_build/libsrc/geomodelgrids/.libs PYTHONPATH=/repo/_build/stage:$here PROJ_NETWORK=OFF PYTHONDONTWRITEBYTECODE=1 LC_ALL=C.UTF-8
exec /usr/bin/python3 "$here/demo.py"
'''


def ns(scr, cmd, timeout=900):
    p = subprocess.run(["unshare", "-m", "bash", "-c", "mount --bind %s /repo && cd /repo && %s" % (scr, cmd)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def main():
    worker, specs = sys.argv[1], sys.argv[2:]
    scr = "/tmp/scr-" + worker
    head = subprocess.check_output(["git", "-C", "/repo", "rev-parse", "HEAD"], text=True).strip()
    if not os.path.isdir(scr):
        subprocess.check_call(["cp", "-a", "/repo", scr])
    subprocess.check_call(["git", "-C", scr, "fetch", "-q", "/repo", "HEAD"])
    subprocess.check_call(["git", "-C", scr, "checkout", "-q", "-f", head])
    for spec in specs:
        name = os.path.basename(spec)[:-3]
        S = {}
        exec(open(spec).read(), S)
        work = "/tmp/plantwork-%s-%s" % (worker, name)
        shutil.rmtree(work, ignore_errors=True)
        os.makedirs(work)
        open(work+"/demo.py", "w").write(S["DEMO"].lstrip("\n"))
        open(work+"/demo.sh", "w").write(SH)
        shutil.copy(VERIF+"/tools/demolib.py", work)
        for f, text in S.get("FILES", {}).items():
            open(os.path.join(work, f), "w").write(text)
        subprocess.check_call(["git", "-C", scr, "checkout", "-q", "--", "."])
        rc, out = ns(scr, "bash /opt/vp/build.sh >/tmp/plant-%s.build 2>&1 || exit 88; bash %s/demo.sh" % (worker, work))
        if rc:
            print(name, "BAD: demo fails on the unchanged tree", rc, out[-1500:])
            continue
        bad = None
        for f, old, new in S["EDITS"]:
            p = os.path.join(scr, f)
            s = open(p).read()
            if s.count(old) != 1:
                bad = "text found %d times in %s: %s" % (s.count(old), f, old[:60])
                break
            open(p, "w").write(s.replace(old, new))
        if bad:
            print(name, "BAD:", bad)
            continue
        diff = subprocess.check_output(["git", "-C", scr, "diff"], text=True)
        gone = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---") and l[1:].strip()]
        orig = "".join(subprocess.check_output(["git", "-C", scr, "show", "%s:%s" % (ORIG, f)], text=True) for f in {e[0] for e in S["EDITS"]}).split("\n")
        if not gone or any(l not in orig for l in gone):
            print(name, "NOTE: changed lines not original:", [l.strip() for l in gone if l not in orig][:3])
            if not any(l in orig for l in gone):
                continue
        rc, out = ns(scr, "bash /opt/vp/build.sh >/tmp/plant-%s.build 2>&1" % worker)
        if rc:
            print(name, "BAD: does not build", open("/tmp/plant-%s.build" % worker).read()[-1500:])
            continue
        rc, out = ns(scr, "bash %s/demo.sh" % work)
        if rc == 0:
            print(name, "BAD: demo passes with the bug", out[-500:])
            continue
        demo = out
        o = "/tmp/plant-%s.json" % worker
        ns(scr, "bash /opt/vp/test.sh %s >/tmp/plant-%s.test 2>&1" % (o, worker))
        missing = sorted(BASE - set(json.load(open(o))["passed"]))
        if missing:
            print(name, "BAD: tests fail:", missing[:6])
            continue
        d = os.path.join(VERIF, "seeded", name)
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(work, d)
        shutil.rmtree(work)
        open(d+"/patch.diff", "w").write(diff)
        json.dump(dict(property=S["PROPERTY"], needs=S["NEEDS"], what_it_breaks=S["WHAT"]), open(d+"/meta.json", "w"), indent=1)
        print(name, "good; demo with bug: rc", rc, demo.strip()[-160:].replace("\n", " | "))
        sys.stdout.flush()
    subprocess.check_call(["git", "-C", scr, "checkout", "-q", "--", "."])


main()
