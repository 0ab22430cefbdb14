"""Import z3 from the tooling venv without exposing the rest of it."""
import importlib.util
import sys

_P = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3"
try:
    import z3  # noqa
except ImportError:
    _spec = importlib.util.spec_from_file_location(
        "z3", _P + "/__init__.py", submodule_search_locations=[_P])
    z3 = importlib.util.module_from_spec(_spec)
    sys.modules["z3"] = z3
    _spec.loader.exec_module(z3)
