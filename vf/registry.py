"""Maps property ids to the module defining them."""
import importlib

MODULES = {}
META = {}


def _m(mod, *ids):
    for i in ids:
        MODULES[i] = mod


_m("bbn_exact", "B01", "B02", "B10")
_m("bbn_misc", "B03", "B04", "B05", "B09", "B11")
_m("bbn_tree", "B06", "B07", "B08")
_m("structure", "S01", "S02", "S03", "S04")
_m("learn", "N01", "N02", "N03", "N04", "N05", "N06")
_m("dynamic", "Y01", "Y02", "Y03", "Y04", "Y05")
_m("gen", "G01", "G02", "G03")
_m("network", "K01", "K02", "K03", "K04", "I01", "I02", "E01", "E02")
_m("misc", "M01", "M02", "D01", "D02", "P01", "P02")
_m("torchnt", "T01", "T02", "T03", "T04", "T05", "T06", "T07")
_m("sklearnw", "T08", "T09")
_m("plotdag", "P03")


def load(pid):
    m = importlib.import_module("vf.props." + MODULES[pid])
    return m.PROPS[pid]()


class _Meta(dict):
    def __missing__(self, pid):
        # metadata must be readable without importing the code under test
        from . import meta
        return {"rule": meta.RULES.get(pid, ""), "assumptions": meta.ASSUMPTIONS.get(pid, meta.ASSUMPTIONS["*"])}


META = _Meta()
