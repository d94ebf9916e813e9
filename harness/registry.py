"""property id -> specification of its check"""
import importlib

MODULES = ['complexes', 'builders', 'readers', 'spectral', 'filters', 'trend', 'gp', 'plots', 'misc', 'history', 'reports', 'equivariance']


class Spec:
    def __init__(s, prop, cases, bounds, quick_s=40, thorough_s=600, assumptions=(), preload=(), note='', technique=''):
        s.prop, s._cases, s.bounds = prop, cases, bounds
        s.quick_s, s.thorough_s, s.assumptions, s.preload, s.note = quick_s, thorough_s, assumptions, preload, note
        s.technique = technique

    def cases(s, tier):
        for c in s._cases(tier):
            if len(c) == 2:
                yield c[0], c[1], {}
            else:
                yield c


SPECS = {}


def spec(prop, **kw):
    def deco(f):
        SPECS[prop] = Spec(prop, f, **kw)
        return f
    return deco


def load_all():
    for m in MODULES:
        try:
            importlib.import_module('harness.' + m)
        except ModuleNotFoundError as e:
            if e.name != 'harness.' + m:
                raise


def get(prop):
    load_all()
    return SPECS[prop]
