"""Cases per property: (name, build(g, sc), options)."""
import importlib

from . import base


def of(prop, tier):
    return importlib.import_module("vsx.cases." + prop.lower()).cases(tier)
