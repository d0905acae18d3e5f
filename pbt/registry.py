"""Property id -> Prop; each module under props/ defines PROPS."""
import importlib
import os
import pkgutil

from . import props as _props

_all = None


def load():
    global _all
    if _all is None:
        _all = {}
        for m in pkgutil.iter_modules(_props.__path__):
            mod = importlib.import_module(f"{_props.__name__}.{m.name}")
            for p in getattr(mod, "PROPS", ()):
                assert p.id not in _all, p.id
                _all[p.id] = p
    return _all


def get(pid):
    return load()[pid]
