"""Persistent worker: runs under the interpreter of the code under test.

  worker.py                 serve JSON-lines requests {"p": property, "case": {...}} on stdin
  worker.py --replay FILE   replay a saved failure (exit 1 if it still fails, 0 if not)
"""

import importlib
import json
import os
import sys
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
warnings.simplefilter("ignore")
sys.setrecursionlimit(5000)


def load(prop):
    return importlib.import_module("checks." + prop.lower()).check


def run(prop, case):
    import core
    try:
        tags = load(prop)(case)
        return {"ok": True, "nt": bool(tags), "tags": sorted(set(tags or ()))}
    except core.Violation as err:
        return {"ok": False, "msg": str(err)[:2000]}
    except (MemoryError, KeyboardInterrupt, SystemExit):
        raise
    except BaseException as err:
        # the inputs are valid: nothing in the code under test (or in the result it gives) may raise here
        return {"ok": False, "msg": ("unexpected %s: %s\n" % (type(err).__name__, err) + "".join(traceback.format_tb(err.__traceback__)[-6:]))[:3000], "exc": type(err).__name__}


def serve():
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    import core
    out.write(json.dumps({"ready": True}) + "\n")
    out.flush()
    for line in sys.stdin:
        req = json.loads(line)
        out.write(json.dumps(run(req["p"], req["case"])) + "\n")
        out.flush()


def replay(path):
    with open(path) as f:
        rec = json.load(f)
    for case in rec.get("history", []):
        run(rec["property"], case)
    res = run(rec["property"], rec["case"])
    if res["ok"]:
        print("replay passes: property=%s" % rec["property"])
        return 0
    print("replay fails: property=%s\n%s" % (rec["property"], res["msg"]))
    return 1


if __name__ == "__main__":
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        sys.exit(replay(sys.argv[2]))
    serve()
