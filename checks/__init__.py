"""Property checks, by id."""


def registry():
    from . import fitted, formulas, history, palmers
    mods = [fitted, formulas, history, palmers]
    try:
        from . import cli, extra
        mods += [cli, extra]
    except ImportError as e:
        if "checks" not in str(e):
            raise
    out = {}
    for m in mods:
        for v in vars(m).values():
            if isinstance(v, type) and getattr(v, "pid", "C00") != "C00" and v.__module__ == m.__name__:
                out[v.pid] = v
    return out
