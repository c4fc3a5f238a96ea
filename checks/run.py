"""run.py <property id>: entry point of every check (run in /verif with /opt/venv/bin/python -B)."""
import json, os, sys, traceback, warnings
HERE = os.path.dirname(os.path.abspath(__file__))
os.environ.setdefault("PYTHONHASHSEED", "0")
os.environ["MPLBACKEND"] = "Agg"
os.environ.setdefault("MPLCONFIGDIR", os.path.join(os.path.dirname(HERE), "out", "mpl"))
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
sys.dont_write_bytecode = True
sys.path.insert(0, os.environ.get("VF_REPO", "/repo"))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "harness"))
sys.path.insert(0, HERE)
warnings.simplefilter("ignore")


def main(pid):
    import importlib
    import shutil
    import vf
    c = vf.Check(pid)
    try:
        try:
            mod = importlib.import_module(pid.lower())
        except vf.Machinery:
            raise
        mod.main(c)
        return c.finish()
    except Exception as x:
        traceback.print_exc()
        shutil.rmtree(c.scratch, ignore_errors=True)
        if isinstance(x, (vf.Machinery, OSError, MemoryError)):
            return 2
        # an object of the code under test that the driver cannot even observe (missing attribute, wrong
        # type of result, error where none can be) is outside the specification as well
        path = os.path.join(vf.OUT, "%s-%d.replay.json" % (pid, os.getpid()))
        with open(path, "w") as f:
            json.dump({"unobservable": traceback.format_exc().splitlines(), "last events": c.events[-5:]}, f, indent=1)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    except BaseException:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    rc = main(sys.argv[1])
    sys.stdout.flush()
    os._exit(rc)
