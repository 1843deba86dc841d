"""run one property's check: python3-vt -m osqpsa.main C07"""
import importlib.util, os, sys, time, traceback
from . import lib

def main():
    pid = sys.argv[1]
    sys.setrecursionlimit(20000)
    path = os.path.join(lib.HERE, "checks", pid + ".py")
    sys.path.insert(0, os.path.join(lib.HERE, "checks"))
    spec = importlib.util.spec_from_file_location("check_" + pid, path)
    mod = importlib.util.module_from_spec(spec)
    sys.modules[spec.name] = mod
    t0 = time.time()
    try:
        spec.loader.exec_module(mod)
        rc = mod.main(pid, t0)
    except lib.PG.BuildError as e:
        print("the source does not compile: %s" % e)
        rc = 3
    except Exception:
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    os._exit(rc)

main()
