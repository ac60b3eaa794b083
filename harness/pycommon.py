import sys, math, os, types, importlib.util
import numpy as np
import _gaussianfft as gf

REPO = os.environ.get("VERIF_REPO", "/repo")


def load_package():
    """the package gaussianfft of /repo on top of the extension just built"""
    v = types.ModuleType("gaussianfft._version")
    v.__version__ = "0"
    sys.modules["gaussianfft._version"] = v
    sys.path.insert(0, REPO)
    import gaussianfft
    return gaussianfft


class Fail(Exception):
    pass


def run(f):
    n = 0
    for line in sys.stdin:
        line = line.rstrip("\n")
        if not line:
            continue
        try:
            f(line.split())
            print("OK %d" % n)
        except Fail as e:
            print("FAIL %s :: %s" % (line, str(e).replace("\n", " ")))
        except Exception as e:
            print("FAIL %s :: %s: %s" % (line, type(e).__name__, str(e).replace("\n", " ")))
        sys.stdout.flush()
        n += 1
