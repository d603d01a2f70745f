"""Replay harness assignments against the real, uninstrumented code.

usage: replay.py <harness module file> <jobs.json> <out.json>       (run with the project's interpreter)"""
import json
import os
import sys
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
REPO_LIB = os.environ.get("SYMX_REPO_LIB", "/repo/sdk/python/lib")
if REPO_LIB not in sys.path:
    sys.path.insert(0, REPO_LIB)
sys.dont_write_bytecode = True
warnings.simplefilter("ignore")


def origin(e):
    """Where an exception that escaped the harness was raised: 'sdk', 'harness' or 'other'."""
    tb = traceback.extract_tb(e.__traceback__)
    for fr in reversed(tb):
        if fr.filename.startswith(os.path.join(REPO_LIB, "pulumi")):
            return "sdk"
        if "/harness/" in fr.filename:
            return "harness"
    return "other"


def run_one(mod, cellname, values):
    from symx.concrete import Concrete, Stop
    from symx import common

    cell = {c.name: c for c in mod.CELLS}[cellname]
    sx = Concrete(values)
    sx.stuck = False
    exc = None
    try:
        common.reset(sx)
        with common.watchdog(sx):
            cell.fn(sx, **cell.params)
    except Stop:
        pass
    except common.Stuck:
        pass
    except common.Skip as e:
        exc = ("skip", str(e), "harness")
    except Exception as e:  # noqa
        exc = (type(e).__name__, "".join(traceback.format_exception(e))[-3000:], origin(e))
    finally:
        common.cleanup(sx)
    if sx.stuck:
        sx.failed.append(("never-ends", "still running after 20 s"))
    return {"stuck": sx.stuck, "labels": sx.labels, "failed": sx.failed, "aborted": sx.aborted, "exc": exc,
            "obs": sx.observations}


def main():
    modname, jobs, out = sys.argv[1:4]
    import importlib

    mod = importlib.import_module("harness." + modname)
    with open(jobs) as f:
        js = json.load(f)
    res = []
    for j in js:
        stuck = sum(1 for r in res if r and r["stuck"])
        res.append(run_one(mod, j["cell"], j["values"]) if stuck < 2 else None)
    with open(out, "w") as f:
        json.dump(res, f)


if __name__ == "__main__":
    main()
