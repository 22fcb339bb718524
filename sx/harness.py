"""Registry of the scenarios (harnesses) of every property."""
import importlib
import os
import sys

REGISTRY = {}


class Scenario(object):
    def __init__(self, prop, fn, params, tier, opts):
        self.prop = prop
        self.fn = fn
        self.params = params
        self.tier = tier
        self.opts = opts

    @property
    def name(self):
        p = ','.join('%s=%s' % (k, _short(self.params[k]))
                     for k in sorted(self.params))
        return '%s(%s)' % (self.fn.__name__, p)


def _short(v):
    return str(v).replace(' ', '')


def scenario(prop, quick=None, thorough=None, **opts):
    """Register a harness with the parameter sets of each tier."""
    def deco(fn):
        lst = REGISTRY.setdefault(prop, [])
        for tier, sets in (('quick', [{}] if quick is None and
                            thorough is None else quick),
                           ('thorough', thorough)):
            for p in sets or ():
                p = dict(p)
                o = dict(opts)
                o.update(p.pop('_opts', {}))
                lst.append(Scenario(prop, fn, p, tier, o))
        return fn
    return deco


def load(prop):
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    if here not in sys.path:
        sys.path.insert(0, here)
    importlib.import_module('props.' + prop.lower())
    return REGISTRY.get(prop, [])


def product(**kw):
    """All combinations of the given lists, as parameter sets."""
    import itertools
    keys = sorted(kw)
    return [dict(zip(keys, vals))
            for vals in itertools.product(*[kw[k] for k in keys])]
