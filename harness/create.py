"""Runs the model creation application: one JSON request (list of command lines and where to run them) per line."""
import io, json, os, sys, contextlib
from geomodelgrids.create.apps import create_model

print("READY", flush=True)
for line in sys.stdin:
    r = json.loads(line)
    os.chdir(r["cwd"])
    out = []
    for args in r["runs"]:
        sys.argv = ["geomodelgrids_create_model"] + args
        text = io.StringIO()
        try:
            with contextlib.redirect_stdout(text), contextlib.redirect_stderr(text):
                create_model.cli()
            out.append(["OK", text.getvalue()])
        except SystemExit as e:
            out.append(["EXIT", str(e.code) + " " + text.getvalue()])
        except Exception as e:
            out.append(["EXC", "%s: %s" % (type(e).__name__, e)])
    print("R " + json.dumps(out), flush=True)
print("END", flush=True)
