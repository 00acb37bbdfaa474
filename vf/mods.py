"""Loading parts of causalnex whose package __init__ needs libraries that are not installed here."""
import importlib
import os
import sys
import types

from . import core


def seed_structure():
    """Make ``causalnex.structure`` importable without running its __init__ (which needs torch).
    Attributes resolve lazily to the real classes and submodules of /repo."""
    if "causalnex.structure" in sys.modules:
        return
    import causalnex
    pkg = types.ModuleType("causalnex.structure")
    pkg.__path__ = [os.path.join(core.REPO, "causalnex", "structure")]
    pkg.__package__ = "causalnex.structure"

    def getattr_(name):
        if name.startswith("__"):
            raise AttributeError(name)
        if name == "StructureModel":
            return importlib.import_module("causalnex.structure.structuremodel").StructureModel
        try:
            return importlib.import_module("causalnex.structure." + name)
        except ModuleNotFoundError:
            raise AttributeError(name)
    pkg.__getattr__ = getattr_
    sys.modules["causalnex.structure"] = pkg
    causalnex.structure = pkg


def seed_scipy():
    """Emulate the scipy the repository requires (<1.6) in one respect: newer versions return a read-only
    view of the bounds as solution when every variable is fixed by its bounds."""
    import scipy.optimize as so
    if getattr(so.minimize, "_vf", False):
        return
    orig = so.minimize

    def minimize(*a, **k):
        res = orig(*a, **k)
        x = getattr(res, "x", None)
        if x is not None and not x.flags.writeable:
            res.x = x.copy()
        return res
    minimize._vf = True
    so.minimize = minimize


def get(name):
    """Import a causalnex submodule, e.g. get('structure.notears')."""
    if name.startswith("structure"):
        seed_scipy()
    if name.startswith("structure") or name in ("plots.plots", "network.network", "inference.inference", "evaluation.evaluation"):
        seed_structure()
    m = importlib.import_module("causalnex." + name)
    patch_code_type()
    return m


def patch_code_type():
    """Python 3.8's types.CodeType for the inference module (see codecompat)."""
    m = sys.modules.get("causalnex.inference.inference")
    if m is not None and getattr(m, "types", None) is types and sys.version_info >= (3, 11):
        from .codecompat import TypesModule
        m.types = TypesModule()
