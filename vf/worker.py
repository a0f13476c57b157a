"""Runs one rank: reads cases (JSON lines) from a FIFO, runs the property's
check on each against the code built from /repo, writes the outcome back."""
import importlib.util
import json
import os
import sys
import traceback


class Violation(AssertionError):
    """The property does not hold for this case."""


def load(path):
    spec = importlib.util.spec_from_file_location("prop_" + os.path.basename(path)[:-3], path)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def in_code_under_test(tb, root):
    """Whether the innermost frames of a traceback are in the code under test:
    then the exception is that code's answer to a valid input."""
    last_cut = last_harness = -1
    verif = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    for n, fr in enumerate(traceback.extract_tb(tb)):
        fn = fr.filename
        if fn.startswith(os.path.join(root, "pmesh")) or fn.startswith("pmesh/") \
                or "/pmesh/_" in fn or fn.startswith("_window.pyx"):
            last_cut = n
        elif fn.startswith(os.path.join(verif, "props")) or (fn.startswith(os.path.join(verif, "vf"))
                                                              and not fn.endswith("shim.py")):
            last_harness = n
    return last_cut > last_harness


def main():
    fifodir, root, propfile = sys.argv[1:4]
    import warnings
    warnings.simplefilter("ignore")
    from mpi4py import MPI
    world = MPI.COMM_WORLD
    import numpy
    numpy.seterr(all="ignore")
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    sys.modules["worker"] = sys.modules["__main__"]
    import shim
    shim.install()
    import pmesh
    assert os.path.dirname(os.path.abspath(pmesh.__file__)) == os.path.join(root, "pmesh"), pmesh.__file__
    sys.path.insert(0, os.path.dirname(propfile))
    prop = load(propfile)
    fin = open(os.path.join(fifodir, "in.%d" % world.rank), "r")
    fout = open(os.path.join(fifodir, "out.%d" % world.rank), "w")
    fout.write(json.dumps({"status": "ready"}) + "\n")
    fout.flush()
    for line in fin:
        case = json.loads(line)
        if case is None:
            break
        try:
            info = prop.check(case, world)
            res = {"status": "ok", "info": info or {}}
        except Violation as e:
            res = {"status": "violation", "msg": str(e)[:4000],
                   "tb": traceback.format_exc()[-4000:]}
        except Exception as e:
            kind = "raised" if in_code_under_test(e.__traceback__, root) else "harness"
            res = {"status": kind, "msg": "%s: %s" % (type(e).__name__, str(e)[:2000]),
                   "tb": traceback.format_exc()[-4000:]}
        fout.write(json.dumps(res) + "\n")
        fout.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
