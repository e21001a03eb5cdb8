"""Make the z3 package of the verification tool venv importable from the repo's own interpreter,
without exposing any other package of that venv to the code under test."""
import importlib.util
import os
import sys

_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def load():
    if "z3" in sys.modules:
        return sys.modules["z3"]
    try:
        import z3  # noqa: F401  (already reachable)
        return sys.modules["z3"]
    except ImportError:
        pass
    init = os.path.join(_SITE, "z3", "__init__.py")
    spec = importlib.util.spec_from_file_location("z3", init, submodule_search_locations=[os.path.dirname(init)])
    mod = importlib.util.module_from_spec(spec)
    sys.modules["z3"] = mod
    spec.loader.exec_module(mod)
    return mod


z3 = load()
