"""run.py Cxx [--thorough] [--replay FILE]: run the monitors of one property against /repo's working tree."""
import importlib
import logging
import os
import sys
import warnings

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
REPO = os.environ.get("VMON_REPO", "/repo")
sys.path.insert(0, os.path.join(REPO, "src"))
warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)


def main():
    pid = sys.argv[1]
    from vmon import core
    import numpy
    numpy.seterr(all="ignore")
    import climate_indices
    src = os.path.realpath(os.path.dirname(climate_indices.__file__))
    want = os.path.realpath(os.path.join(REPO, "src", "climate_indices"))
    if src != want:
        print(f"INCONCLUSIVE property={pid}: imported {src}, not {want}")
        return 2
    registry = importlib.import_module("checks").registry()
    return core.main(registry[pid](), sys.argv[2:])


if __name__ == "__main__":
    code = main()
    sys.stdout.flush()
    os._exit(code)
