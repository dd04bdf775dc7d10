import importlib, os, pkgutil


def get(prop):
    here = os.path.dirname(__file__)
    for m in sorted(x.name for x in pkgutil.iter_modules([here])):
        if m == 'registry':
            continue
        f = getattr(importlib.import_module('checks.' + m), prop.lower(), None)
        if f is not None:
            return f()
    raise SystemExit(f'unknown property {prop}')
