"""Registry of properties: every module here adds its entries to PROPS."""
PROPS = {}


def add(pid, how, *scenarios, tech=None):
    PROPS[pid] = {"how": how, "scenarios": list(scenarios), "tech": tech}


def more(pid, *scenarios):
    PROPS[pid]["scenarios"] += list(scenarios)


from . import header, stream, pipeline, binding, crypto, keys, erase, files, failures, panics, secrets, cli  # noqa: E402,F401
