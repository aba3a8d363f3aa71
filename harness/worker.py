"""Worker process: worker.py <recorder module> <cases> <trace>.  Runs in the repository's own venv."""
import faulthandler, json, os, signal, sys, traceback
sys.path.insert(0, os.environ.get("DREIMAC_REPO", "/repo"))
import importlib


class CaseTimeout(BaseException):
    pass


def _alarm(*a):
    raise CaseTimeout()


def main():
    module, inp, out = sys.argv[1:4]
    try:
        mod = importlib.import_module(module)
    except Exception:
        # the package under test does not import: that is an observation, not a failure of ours
        tb = traceback.format_exc()
        if "dreimac" not in tb:
            print(tb)
            sys.exit(7)
        with open(out, "a") as f, open(out + ".progress", "w") as g:
            for line in open(inp):
                c = json.loads(line)
                g.write("start %s\ndone %s\n" % (c["id"], c["id"]))
                f.write(json.dumps({"id": c["id"], "case": c["id"], "kind": "crash", "what": tb[-400:]}) + "\n")
        return
    signal.signal(signal.SIGALRM, _alarm)
    late = 0
    with open(out, "a") as f, open(out + ".progress", "w") as g:
        for line in open(inp):
            c = json.loads(line)
            g.write("start %s\n" % c["id"])
            g.flush()
            limit = int(c.get("limit", 120 if c.get("jit") else 30))
            signal.alarm(limit)
            faulthandler.dump_traceback_later(limit + 3, file=sys.stderr)      # read by the engine
            try:
                events = list(mod.run(c))
            except CaseTimeout:
                late += 1
                events = [{"kind": "crash", "what": "no answer within the time limit"}]
            except Exception:
                events = [{"kind": "crash", "what": traceback.format_exc()[-800:]}]
            finally:
                signal.alarm(0)
                faulthandler.cancel_dump_traceback_later()
            for k, e in enumerate(events):
                e["case"] = c["id"]
                e.setdefault("id", c["id"] if len(events) == 1 else "%s/%d" % (c["id"], k))
                f.write(json.dumps(e, separators=(",", ":"), default=_plain) + "\n")
            f.flush()
            g.write("done %s\n" % c["id"])
            g.flush()
            if late >= 2:
                sys.exit(9)             # enough seen


def _plain(x):
    import numpy as np
    if isinstance(x, np.bool_):
        return bool(x)
    if isinstance(x, np.integer):
        return int(x)
    if isinstance(x, np.ndarray):
        return x.tolist()
    raise TypeError("not an observation: %r" % (type(x),))


main()
