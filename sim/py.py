"""The Python implementation of /repo, imported from its working tree."""
import os
import sys
import importlib

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DIR = REPO + "/pythonref"


def load(*names):
    """Import modules of /repo/pythonref (and the stand-in for the external polyntt package, if that is missing)."""
    sys.dont_write_bytecode = True
    if DIR not in sys.path:
        sys.path.insert(0, DIR)
    if VERIF + "/standins" not in sys.path:
        sys.path.append(VERIF + "/standins")
    ms = [importlib.import_module(n) for n in names]
    return ms if len(ms) > 1 else ms[0]
