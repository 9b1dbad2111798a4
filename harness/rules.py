"""Asks the rules of the shipped models: one JSON request (module, attribute or null, fault block, zone, points) per line."""
import importlib, json, sys

print("READY", flush=True)
for line in sys.stdin:
    module, fn, fb, zone, points = json.loads(line)
    out = []
    try:
        m = importlib.import_module(module)
        rule = m.get_rules(fb, zone) if fn is None else getattr(m, fn, None)
        if rule is None:
            out = ["ABSENT", ""]
        else:
            out = ["OK", [[float(v) for v in rule(*p)] for p in points]]
    except Exception as e:
        out = ["EXC", "%s: %s" % (type(e).__name__, e)]
    print("R " + json.dumps(out), flush=True)
print("END", flush=True)
