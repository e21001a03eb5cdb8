import importlib
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VSYM_REPO", "/repo")


def load(prop):
    """import the harness modules of a property: checks/<id lower>*.py"""
    os.environ.setdefault("NUMBA_DISABLE_JIT", "1")
    sys.dont_write_bytecode = True
    for p in (HERE, REPO):
        if p not in sys.path:
            sys.path.insert(0, p)
    sys.setrecursionlimit(20000)
    names = sorted(f[:-3] for f in os.listdir(os.path.join(HERE, "checks"))
                   if f.lower().startswith(prop.lower()) and f.endswith(".py"))
    if not names:
        raise SystemExit("no checks for %s" % prop)
    for n in names:
        importlib.import_module("checks." + n)
    import skdecide
    assert os.path.realpath(skdecide.__file__).startswith(REPO + "/"), skdecide.__file__
