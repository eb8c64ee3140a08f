import importlib

PROPS = ["P%02d" % i for i in range(1, 20)]


def load(prop):
    mod = importlib.import_module("vf.props." + prop.lower())
    return {t.name: t for t in mod.TARGETS}


def rule(prop):
    return importlib.import_module("vf.props." + prop.lower()).RULE


def assumptions(prop):
    mod = importlib.import_module("vf.props." + prop.lower())
    return getattr(mod, "ASSUMPTIONS", [])
