"""Lower bounds of the Euclidean warped distance and the cascade that uses them (C03, C02)."""
from common import *
from series import *
from distance import *
from distance import METRICS
from envelope import CACHE

EUC = METRICS[0]
Keo = z3.Function('Keo', RA, I, I, RA, I, I, I, R)    # points, offset, length of the enveloped series; points, offset of the other; band; count


def bound_facts():
    """what the bounds need beyond float_facts; lemma BoundFacts proves the statements of exact arithmetic"""
    x, y, z = [z3.Real(n + '!q') for n in 'xyz']
    fa = lambda vs, b, *p: z3.ForAll(vs, b, patterns=[z3.MultiPattern(*k) if isinstance(k, (list, tuple)) else k for k in p])
    return [fa([x, y], z3.Implies(z3.And(0 <= x, x <= y), fsq(x) <= fsq(y)), [fsq(x), fsq(y)]),
            fa([x, y, z], z3.Implies(y <= z, z3.And(fsub(x, z) <= fsub(x, y))), [fsub(x, y), fsub(x, z)]),
            fa([x, y], z3.Implies(x == 0, fadd(x, y) == y), fadd(x, y))]


@lemma
class BoundFacts(Lemma):
    plain = True

    def goals(self):
        x, y, z = z3.Reals('x y z')
        return [('squares grow', [0 <= x, x <= y], x * x <= y * y), ('differences fall', [y <= z], x - z <= x - y), ('adding to zero', [x == 0], x + y == y)]


class Side:
    """the Keogh bound of a grid: b against the envelope of a, or a against the envelope of b"""

    def __init__(self, g):
        self.g = g
        self.len = z3.If(g.m < g.n, g.m, g.n)

    def env(self, i):
        g = self.g
        return EnvMax(g.A, g.oa, g.m, i, g.r), EnvMin(g.A, g.oa, g.m, i, g.r)

    def K(self, k):
        g = self.g
        return Keo(g.A, g.oa, g.m, g.B, g.ob, g.r, k)

    def cost(self, p, i):
        up, lo = self.env(i)
        x = sel(self.g.B, self.g.ob + i)
        return z3.If(x > up, add(p, fsq(fsub(x, up))), z3.If(x < lo, add(p, fsq(fsub(x, lo))), p))

    def define(self, k):
        return z3.And(self.K(z3.IntVal(0)) == 0, Imp(z3.And(0 <= k, k < self.len), self.K(k + 1) == self.cost(self.K(k), k)))

    def grows(self):
        j, k = q('j', 'k')
        return forall([j, k], Imp(z3.And(0 <= j, j <= k, k <= self.len), z3.And(0 <= self.K(j), self.K(j) <= self.K(k), self.K(k) < INF)), [self.K(j), self.K(k)])


@lemma
class KeoghBound(Lemma):
    def goals(self):
        g, pre = free_grid(EUC)
        s = Side(g)
        pre = pre + float_facts() + bound_facts()
        x, y, u, v, j, k = z3.Ints('x y u v j k')
        ok = lambda p, w: z3.And(g.inside(p, w), g.inband(p, w))
        rng = lambda t: z3.And(0 <= t, t < INF)
        below = lambda p, w: z3.And(rng(g.opt(p, w)), Imp(w < s.len, s.K(w + 1) <= g.opt(p, w)), Imp(w >= s.len, s.K(s.len) <= g.opt(p, w)))
        ih = forall([u, v], Imp(z3.And(ok(u, v), u + v < x + y), below(u, v)), g.opt(u, v))
        env = Imp(z3.And(ok(x, y), y < g.m), z3.And(sel(g.A, g.oa + x) <= s.env(y)[0], s.env(y)[1] <= sel(g.A, g.oa + x)))
        steps = [s.define(y), s.define(y - 1), s.grows()]
        d = z3.Real('d')
        return [('the bound never falls (induction on the count)', pre + [0 <= j, j <= k, k < s.len, z3.And(0 <= s.K(j), s.K(j) <= s.K(k), s.K(k) < INF), s.define(k)], z3.And(s.K(j) <= s.K(k + 1), s.K(k + 1) < INF)),
                ('the bound starts at zero', pre + [s.define(z3.IntVal(0))], rng(s.K(z3.IntVal(0)))),
                ('a point costs no less than its distance to the envelope', pre + [ok(x, y), y < s.len, env, d >= 0], s.cost(d, y) <= g.red(d, x, y)),
                ('no path costs less than the bound of the points it has passed (induction on the cell)',
                 pre + [ok(x, y), g.define(x, y), ih, Imp(y < s.len, s.cost(s.K(y), y) <= g.red(s.K(y), x, y))] + steps, below(x, y))]


@lemma
class KimBound(Lemma):
    def goals(self):
        g, pre = free_grid(EUC)
        pre = pre + float_facts()
        x, y, u, v = z3.Ints('x y u v')
        z = z3.IntVal(0)
        ok = lambda p, w: z3.And(g.inside(p, w), g.inband(p, w))
        first = g.red(z3.RealVal(0), z, z)
        last = lambda p, w: g.red(first, p, w)
        below = lambda p, w: z3.And(g.opt(p, w) < INF, first <= g.opt(p, w), Imp(z3.Or(p > 0, w > 0), last(p, w) <= g.opt(p, w)))
        ih = forall([u, v], Imp(z3.And(ok(u, v), u + v < x + y), below(u, v)), g.opt(u, v))
        return [('a path costs no less than its first and last pair (induction on the cell)', pre + [ok(x, y), g.define(x, y), ih], below(x, y))]


@lemma
class Symmetric(Lemma):
    def goals(self):
        g, pre = free_grid(EUC)
        h = Grid(EUC, g.B, g.ob, g.n, g.A, g.oa, g.m, g.r)
        x, y, u, v = z3.Ints('x y u v')
        ok = lambda p, w: z3.And(g.inside(p, w), g.inband(p, w))
        ih = forall([u, v], Imp(z3.And(ok(u, v), u + v < x + y), g.opt(u, v) == h.opt(v, u)), g.opt(u, v), h.opt(v, u))
        return [('least costs do not depend on the order of the series (induction on the cell)', pre + float_facts() + [ok(x, y), g.define(x, y), h.define(y, x), ih], g.opt(x, y) == h.opt(y, x))]


def apart(c, a, b):
    """neither the points nor the envelopes of b are the envelope arrays of a"""
    out = []
    for f in CACHE[:2]:
        e = c('%s.%s.blk' % (a, f))
        out.append(z3.Or(e == 0, z3.And(e != ts_blk(c, b), *[e != c('%s.%s.blk' % (b, h)) for h in CACHE[:2]])))
    return z3.And(*out)


def usable(c, p):
    return z3.And(whole(c, p), ts_len(c, p) >= 1, destroyable(c, p), cache_ok(c, p))


def D(c):
    return grid(c, EUC).distance()


class Bound(Contract):
    props = ('C03', 'C02')
    params = ('a', 'b', 'dropout')
    assumes = (EXACT, 'points and cut-off are not NaN; points are finite')

    def requires(self, c):
        return [('series with points', z3.And(usable(c, 'a'), usable(c, 'b'), apart(c, 'a', 'b'), apart(c, 'b', 'a'))), ('a number', c('dropout') <= INF), ('band ratio not negative', c.glob('warpingBandRatio') >= 0)]

    def facts(self, eng):
        c = eng.ctx()
        return float_facts() + bound_facts() + band_facts(c, ts_len(c, 'a'), ts_len(c, 'b')) + self.more(c)

    def more(self, c):
        return []

    def kept(self, c, *ps):
        return [('series stay usable', z3.And(*[usable(c, p) for p in ps], apart(c, 'a', 'b'), apart(c, 'b', 'a'))),
                ('points untouched', z3.And(*[sel(c.mem(), ts_blk(c, p)) == sel(c.old.mem(), ts_blk(c, p)) for p in ('a', 'b')]))]


@contract
class Kim(Bound):
    key = 'kimLowerBound'
    lemmas = ('FloatFacts', 'KimBound')

    def more(self, c):
        g = grid(c, EUC)
        z = z3.IntVal(0)
        e = (g.m - 1, g.n - 1)
        first = g.red(z3.RealVal(0), z, z)
        return [Imp(g.inband(*e), z3.And(0 <= g.opt(*e), g.opt(*e) < INF, first <= g.opt(*e), Imp(z3.Or(e[0] > 0, e[1] > 0), g.red(first, *e) <= g.opt(*e))))]

    def ensures(self, c):
        return [('never above the warped distance', c('res') <= D(c))]


def keogh_env(c):
    """what the two envelope pointers point at"""
    g = grid(c, EUC)
    i, = q('i')
    o = []
    for nm, k in (('aUpper', 0), ('aLower', 1)):
        b, off = c(nm + '.blk'), c(nm + '.off')
        e = sel(sel(c.mem(), b), i)
        o += [off == 0, sel(c.size(), b) >= g.m, forall(i, Imp(between(0, i, g.m), e == Side(g).env(i)[k]), e)]
    return z3.And(*o)


def keogh_here(c):
    s = Side(grid(c.old, EUC))
    g, i = s.g, c('i')
    up, lo = s.env(i)
    return [s.define(i)] + env_def(g.A, g.oa, g.m, g.r) + [
        ('the envelope encloses the point', Imp(between(0, i, g.m), z3.And(lo <= Pt(g.A, g.oa, i), Pt(g.A, g.oa, i) <= up))),
        ('the lower envelope is not above the upper one', Imp(between(0, i, g.m), lo <= up))]


@contract
class Keogh(Bound):
    key = 'keoghLowerBound'
    lemmas = ('FloatFacts', 'BoundFacts', 'KeoghBound')
    allocates = True
    loops = {0: Loop(lambda c: [('position', z3.And(0 <= c('i'), c('i') <= c('len'))), ('bound so far', z3.And(c('lb') == Side(grid(c.old, EUC)).K(c('i')), 0 <= c('lb'), c('lb') < INF))],
                     decreases=lambda c: c('len') - c('i'), hints=lambda c: keogh_here(c))}

    def modifies(self, c):
        return [c.lv('a.' + f) for f in CACHE]

    def frees(self, c):
        return [c('a.keoghLower.blk'), c('a.keoghUpper.blk')]

    def more(self, c):
        s = Side(grid(c, EUC))
        g = s.g
        e = (g.m - 1, g.n - 1)
        return [s.grows(), Imp(g.inband(*e), z3.And(0 <= g.opt(*e), g.opt(*e) < INF, s.K(s.len) <= g.opt(*e))), s.define(z3.IntVal(0))] + pt_def(g.A, g.oa)

    def ensures(self, c):
        return [('never above the warped distance', c('res') <= D(c.old))] + self.kept(c, 'a', 'b')


def symmetric(c):
    g, h = grid(c, EUC), grid(c, EUC, 'b', 'a')
    return [g.opt(g.m - 1, g.n - 1) == h.opt(g.n - 1, g.m - 1)] + band_facts(c, g.n, g.m)


class Both(Bound):
    allocates = True

    def modifies(self, c):
        return [c.lv('%s.%s' % (p, f)) for f in CACHE for p in 'ab']

    def frees(self, c):
        return [c('%s.%s.blk' % (p, f)) for p in 'ab' for f in CACHE[:2]]


@contract
class CrossKeogh(Both):
    key = 'crossKeoghLowerBound'
    lemmas = ('FloatFacts', 'Symmetric')

    def more(self, c):
        return symmetric(c)

    def ensures(self, c):
        return [('never above the warped distance, infinite if that is above the cut-off', z3.Or(c('res') <= D(c.old), z3.And(c('res') == INF, D(c.old) > c.old('dropout'))))] + self.kept(c, 'a', 'b')


@contract
class Cascade(Both):
    key = 'cascadeDistance'
    creates = ('Euclidean',)
    props = ('C02', 'C03')
    params = ('a', 'b', 'dropout', 'matching')
    lemmas = ('FloatFacts',)

    def modifies(self, c):
        return Both.modifies(self, c) + [('key', ('static',)), c.lv('matching')]

    def ensures(self, c):
        return cut_off(c, D(c.old)) + [('nothing is written when no alignment is asked for', Imp(c.old('matching.len') > 0, c('matching.len') == c.old('matching.len')))] + self.kept(c, 'a', 'b')
