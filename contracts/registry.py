"""The table of distances by name (C05)."""
from common import *
from cxxtypes import StrSort

METRIC = [('euclidean', 'Euclidean,double'), ('manhattan', 'Manhattan,double'), ('chebyshev', 'Chebyshev,double'), ('cosine', 'Cosine,double *'), ('sorensen', 'Sorensen,double *')]
TABLE = [x for n, t in METRIC for x in ((n, 'pairwiseDistance<%s>' % t), (n + '_dtw', 'warpedDistance<%s>' % t))]
USERS = ('_initializeAllDistanceMap', 'getDistanceFromName', 'getAllDistanceName')


def table(eng):
    return [(eng.string(n), eng.fun_const(f)) for n, f in TABLE]


def filled(c, upto=None):
    """the map holds the distances of the table (the first so many) under their names and nothing else"""
    has, val = c('gAllDistanceMap.dom'), c('gAllDistanceMap[]')
    k = z3.Const('k!q', StrSort)
    t = table(c.eng)
    inn = lambda i: T if upto is None else upto > i
    return z3.And(*[Imp(inn(i), z3.And(sel(has, n), sel(val, n) == f)) for i, (n, f) in enumerate(t)],
                  z3.ForAll([k], Imp(sel(has, k), z3.Or(*[z3.And(inn(i), k == n) for i, (n, f) in enumerate(t)])), patterns=[sel(has, k)]))


def empty(c):
    has = c('gAllDistanceMap.dom')
    k = z3.Const('k!q', StrSort)
    return z3.ForAll([k], z3.Not(sel(has, k)), patterns=[sel(has, k)])


def registry_ok(c):
    """the map is filled on first use"""
    return z3.Or(empty(c), filled(c))


def known(c, s):
    return z3.Or(*[s == n for n, f in table(c.eng)])


def registered(c, s, f):
    """f is the distance named s"""
    return z3.And(*[Imp(s == n, f == g) for n, g in table(c.eng)])


class RegBase(Contract):
    props = ('C05',)
    assumes = ('the lists of distances and names hold their initialisers: no function writes them (checked over all functions of the library on each run)',)

    def requires(self, c):
        return [('map of distances empty or filled', registry_ok(c))]

    def modifies(self, c):
        return [('global', 'gAllDistanceMap')]

    def facts(self, eng):
        if self.key != '_initializeAllDistanceMap':
            return []
        out = []
        for nm in ('gAllDistance', 'gAllDistanceName'):
            v = eng.global_init(nm, USERS)
            g = eng.getk(('g', nm))
            out += [x == y for x, y in zip(g.l, v.l)]
        return out


def fill_inv(c):
    i = c('i')
    return [('position', z3.And(0 <= i, i <= len(TABLE))), ('filled so far', filled(c, i))]


@contract
class FillMap(RegBase):
    key = '_initializeAllDistanceMap'
    loops = {0: Loop(fill_inv, decreases=lambda c: len(TABLE) - c('i'))}

    def ensures(self, c):
        return [('every distance is registered under its own name', filled(c))]


@contract
class FromName(RegBase):
    key = 'getDistanceFromName'
    params = ('distance_name',)

    def throws(self, c):
        return z3.Not(known(c, c('distance_name')))

    def on_throw(self, c):
        return [('map of distances empty or filled', registry_ok(c))]

    def ensures(self, c):
        return [('the distance of that name', registered(c, c('distance_name'), c('res'))), ('map of distances filled', filled(c))]
