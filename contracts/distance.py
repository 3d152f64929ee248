"""Pairwise and warped distances, lower bounds (C01, C02, C03, C05, C06)."""
from common import *
from series import Pt, pt_def

EXACT = 'floating-point arithmetic behaves like arithmetic on the reals extended by infinity where the proofs compare distances: no rounding, no overflow'


def fmax(x, y):
    return z3.If(x < y, y, x)


def imax(x, y):
    return z3.If(x < y, y, x)


def fabs(x):
    return z3.If(x >= 0, x, -x)


def add(x, y):
    zero = lambda t: z3.is_rational_value(t) and t.numerator_as_long() == 0
    return x if zero(y) else y if zero(x) else fadd(x, y)


def real(x):
    return z3.ToReal(x)


def float_facts():
    """what the proofs use about the arithmetic on distances; lemma FloatFacts proves each statement
    of exact arithmetic"""
    x, y, z, w = [z3.Real(n + '!q') for n in 'xyzw']
    fa = lambda vs, b, *p: z3.ForAll(vs, b, patterns=[z3.MultiPattern(*k) if isinstance(k, (list, tuple)) else k for k in p])
    return [
        fa([x], z3.And(fsq(x) >= 0, fsq(x) < INF), fsq(x)),
        fa([x, y], fsq(fsub(x, y)) == fsq(fsub(y, x)), fsq(fsub(x, y))),
        fa([x, y], z3.And(fsub(x, y) == -fsub(y, x), z3.Implies(x <= y, fsub(x, y) <= 0), z3.Implies(x >= y, fsub(x, y) >= 0)), fsub(x, y)),
        fa([x, y], z3.And(-INF < fsub(x, y), fsub(x, y) < INF), fsub(x, y)),
        fa([x, y], fadd(x, y) == fadd(y, x), fadd(x, y)),
        fa([x, y], z3.And(z3.Implies(y >= 0, fadd(x, y) >= x), z3.Implies(x >= 0, fadd(x, y) >= y), z3.Implies(z3.And(x < INF, y < INF), fadd(x, y) < INF), z3.Implies(z3.And(x <= INF, y <= INF), fadd(x, y) <= INF)), fadd(x, y)),
        fa([x, y, z], z3.Implies(x <= z, fadd(x, y) <= fadd(z, y)), [fadd(x, y), fadd(z, y)]),
        fa([x], z3.And(fsqrt(x) >= 0, fsqrt(x) <= INF, z3.Implies(x < INF, fsqrt(x) < INF)), fsqrt(x)),
        fa([x, y], z3.Implies(z3.And(0 <= x, x < y), fsqrt(x) < fsqrt(y)), [fsqrt(x), fsqrt(y)]),
        fa([x, z], z3.And(z3.Implies(z3.And(x >= 0, z > 0), fdiv(x, z) >= 0), fdiv(x, z) <= INF, z3.Implies(z3.And(x < INF, z > 0), fdiv(x, z) < INF)), fdiv(x, z)),
        fa([x, y, z], z3.Implies(z3.And(z > 0, x < y), fdiv(x, z) < fdiv(y, z)), [fdiv(x, z), fdiv(y, z)]),
        fa([x, y, z], z3.Implies(z3.And(z > 0, x >= 0, fmul(fmul(y, y), z) < x), fsqrt(fdiv(x, z)) > y), [fmul(fmul(y, y), z), fsqrt(fdiv(x, z))]),
    ]


@lemma
class FloatFacts(Lemma):
    """the facts about distances hold of the operations on real numbers (bounds by infinity, which
    say that nothing overflows, are assumed)"""
    plain = True

    def goals(self):
        x, y, z, s, t = z3.Reals('x y z s t')
        root = lambda r, v: z3.And(r >= 0, r * r == v)
        return [('squares', [], x * x >= 0), ('squares of differences', [], (x - y) * (x - y) == (y - x) * (y - x)),
                ('differences', [], z3.And(x - y == -(y - x), z3.Implies(x <= y, x - y <= 0), z3.Implies(x >= y, x - y >= 0))),
                ('sums', [], z3.And(x + y == y + x, z3.Implies(y >= 0, x + y >= x), z3.Implies(x <= z, x + y <= z + y))),
                ('roots', [root(s, x), root(t, y)], z3.Implies(x < y, s < t)),
                ('quotients', [z > 0], z3.And(z3.Implies(x >= 0, x / z >= 0), z3.Implies(x < y, x / z < y / z))),
                ('normalisation and its inverse', [z > 0, x >= 0, root(s, t), t * z == x], z3.Implies(y * y * z < x, s > y)),
                ]


class AccGrows(Lemma):
    """accumulated cost never falls: induction on the number of further points"""
    def goals(self):
        m = self.m
        A, B = z3.Consts('A B', RA)
        oa, ob, j, k = z3.Ints('oa ob j k')
        f = lambda i: m.Acc(A, oa, B, ob, i)
        d = f(k + 1) == m.reduce(f(k), sel(A, oa + k), sel(B, ob + k))
        return [('no further point', float_facts(), f(j) <= f(j)), ('one more point', float_facts() + [0 <= j, j <= k, f(j) <= f(k), d], f(j) <= f(k + 1))]


class Metric:
    def dist(self, x, y):
        raise NotImplementedError


class Euclidean(Metric):
    name = 'Euclidean'
    init = z3.RealVal(0)

    def dist(self, x, y):
        return fsq(fsub(x, y))

    def reduce(self, p, x, y):
        return add(p, self.dist(x, y))

    def norm(self, t, n1, n2):
        return fsqrt(fdiv(t, real(imax(n1, n2))))

    def norm_dtw(self, t, n1, n2):
        return fdiv(fsqrt(t), real(2 * imax(n1, n2)))


class Manhattan(Metric):
    name = 'Manhattan'
    init = z3.RealVal(0)

    def dist(self, x, y):
        return fabs(fsub(x, y))

    def reduce(self, p, x, y):
        return add(p, self.dist(x, y))

    def norm(self, t, n1, n2):
        return fdiv(t, real(imax(n1, n2)))

    def norm_dtw(self, t, n1, n2):
        return fdiv(t, real(2 * imax(n1, n2)))


class Chebyshev(Metric):
    name = 'Chebyshev'
    init = -INF

    def dist(self, x, y):
        return fabs(fsub(x, y))

    def reduce(self, p, x, y):
        return fmax(p, self.dist(x, y))

    def norm(self, t, n1, n2):
        return t

    norm_dtw = norm


METRICS = [Euclidean(), Manhattan(), Chebyshev()]
for m in METRICS:
    m.Acc = z3.Function('Acc' + m.name, RA, I, RA, I, I, R)           # points, offset of both, count: accumulated cost


def arr(c, p):
    return sel(c.mem(), ts_blk(c, p)), ts_off(c, p)


def point(c, p, k):
    return sel(*[arr(c, p)[0], arr(c, p)[1] + k])


def acc(c, m, k):
    return m.Acc(*arr(c, 'a'), *arr(c, 'b'), k)


def acc_def(c, m, k):
    """accumulated cost of the first k pairs of points"""
    return [acc(c, m, z3.IntVal(0)) == m.init, Imp(k >= 0, acc(c, m, k + 1) == m.reduce(acc(c, m, k), point(c, 'a', k), point(c, 'b', k)))]


def readable(c, p):
    return ts_ok(c, p)


def cut_off(c, D):
    drop = c.old('dropout')
    return [('a distance not above the cut-off is exact', Imp(D <= drop, c('res') == D)),
            ('a distance above the cut-off stays above', Imp(D > drop, c('res') > drop))]


class Pairwise(Contract):
    props = ('C05', 'C02')
    params = ('a', 'b', 'dropout', 'matching')
    assumes = (EXACT,)

    def requires(self, c):
        return [('readable', z3.And(ts_ok(c, 'a'), ts_ok(c, 'b'))), ('not empty', ts_len(c, 'a') >= 1), ('a number', c('dropout') <= INF)]

    def facts(self, eng):
        c = eng.ctx()
        m = self.m
        j, k = q('j', 'k')
        return float_facts() + [acc(c, m, z3.IntVal(0)) == m.init,
                                forall([j, k], Imp(z3.And(0 <= j, j <= k), acc(c, m, j) <= acc(c, m, k)), [acc(c, m, j), acc(c, m, k)])]

    def throws(self, c):
        return ts_len(c, 'a') != ts_len(c, 'b')

    def modifies(self, c):
        return [('key', ('static',))]

    def total(self, c):
        return acc(c, self.m, c('i'))

    def inv(self, c):
        m, i = self.m, c('i')
        return [('position', z3.And(0 <= i, i <= ts_len(c, 'a'))), ('accumulated so far', c('total') == acc(c, m, i)),
                ('cost never falls', z3.And(z3.Or(i == 0, acc(c, m, i) >= 0), acc(c, m, i) < INF)),
                ('not dropped', z3.Not(c('dropped')))]

    def exact(self, c):
        return self.m.norm(acc(c, self.m, ts_len(c, 'a')), ts_len(c, 'a'), ts_len(c, 'b'))

    def ensures(self, c):
        return cut_off(c, self.exact(c))


def pairwise(m):
    L = type('AccGrows' + m.name, (AccGrows,), dict(m=m))
    lemma(L)

    class P(Pairwise):
        key = 'pairwiseDistance<%s,double>' % m.name
        creates = (m.name,)
        lemmas = ('FloatFacts', L.__name__)
    P.m = m
    P.__name__ = 'Pairwise' + m.name
    P.loops = {0: Loop(lambda c: P().inv(c), decreases=lambda c: ts_len(c, 'a') - c('i'), hints=lambda c: acc_def(c, m, c('i')))}
    return contract(P)


PAIR = {m.name: pairwise(m) for m in METRICS}


# ---- warping band -------------------------------------------------------------------------------
def band(c, n):
    """floor of ratio times length, at most length - 1"""
    f = ffloor(fmul(real(n), c.glob('warpingBandRatio')))
    return z3.If(n - 1 < f, n - 1, f)


Band = z3.Function('Band', I, I, R, I)      # both lengths, ratio


def band2(c, m, n):
    return Band(m, n, c.glob('warpingBandRatio'))


def band_facts(c, m, n):
    return band_axioms() + [band2(c, m, n) == band(c, imax(m, n))]


def band_axioms():
    x, y = z3.Reals('x!q y!q')
    return [z3.ForAll([x, y], z3.Implies(z3.And(x >= 0, y >= 0), ffloor(fmul(x, y)) >= 0), patterns=[ffloor(fmul(x, y))])]


@contract
class BandSize(Contract):
    key = 'calculateWarpingBandSize'
    props = ('C01', 'C18')
    params = ('length',)

    def ensures(self, c):
        return [('floor of ratio times length, at most length - 1', c('res') == band(c, c('length')))]


@contract
class SetRatio(Contract):
    key = 'setWarpingBandRatio'
    props = ('C01', 'C18')
    params = ('ratio',)

    def modifies(self, c):
        return [('global', 'warpingBandRatio')]

    def ensures(self, c):
        return [('ratio set', c.glob('warpingBandRatio') == c('ratio'))]


# ---- warped distances ----------------------------------------------------------------------------
for m in METRICS:
    args = [RA, I, I, RA, I, I, I, I, I, R]        # points, offset, length of both; band; cell
    m.Opt = z3.Function('Opt' + m.name, *args)     # least accumulated cost of a path to the cell
    m.Prv = z3.Function('Prv' + m.name, *args)     # least of its predecessors


class Grid:
    """the cells of the table of two series"""

    def __init__(self, metric, A, oa, m, B, ob, n, r):
        self.k, self.A, self.oa, self.m, self.B, self.ob, self.n, self.r = metric, A, oa, m, B, ob, n, r
        self.args = (A, oa, m, B, ob, n, r)

    def opt(self, x, y):
        return self.k.Opt(*self.args, x, y)

    def prv(self, x, y):
        return self.k.Prv(*self.args, x, y)

    def inside(self, x, y):
        return z3.And(0 <= x, x < self.m, 0 <= y, y < self.n)

    def inband(self, x, y):
        return z3.And(x - y <= self.r, y - x <= self.r)

    def norm(self, t):
        return self.k.norm_dtw(t, self.m, self.n)

    def N(self, x, y):
        return self.norm(self.opt(x, y))

    def red(self, p, x, y):
        return self.k.reduce(p, sel(self.A, self.oa + x), sel(self.B, self.ob + y))

    def preds(self, x, y):
        return [(z3.And(self.inside(u, v), self.inband(u, v)), self.opt(u, v)) for u, v in ((x - 1, y - 1), (x, y - 1), (x - 1, y))]

    def define(self, x, y):
        """definition of the least cost of cell (x, y)"""
        p = self.prv(x, y)
        ps = self.preds(x, y)
        return Imp(z3.And(self.inside(x, y), self.inband(x, y)),
                   z3.If(z3.And(x == 0, y == 0), self.opt(x, y) == self.red(self.k.init, x, y),
                         z3.And(self.opt(x, y) == self.red(p, x, y), z3.Or(*[z3.And(g, p == o) for g, o in ps]), *[Imp(g, p <= o) for g, o in ps])))

    def distance(self):
        e = (self.m - 1, self.n - 1)
        return z3.If(self.inband(*e), self.N(*e), INF)


def grid(c, metric, a='a', b='b'):
    la, lb = ts_len(c, a), ts_len(c, b)
    return Grid(metric, *arr(c, a), la, *arr(c, b), lb, band2(c, la, lb))


def free_grid(metric):
    A, B = z3.Consts('A B', RA)
    oa, ob, m, n, r = z3.Ints('oa ob m n r')
    return Grid(metric, A, oa, m, B, ob, n, r), [m >= 1, n >= 1, r >= 0]


class PathLemma(Lemma):
    def goals(self):
        g, pre = free_grid(self.m)
        pre = pre + float_facts()
        x, y, u, v, i, u2, v2 = z3.Ints('x y u v i u2 v2')
        ok = lambda p, w: z3.And(g.inside(p, w), g.inband(p, w))
        rng = lambda p, w: z3.And(0 <= g.opt(p, w), g.opt(p, w) < INF)
        ih = forall([u, v], Imp(z3.And(ok(u, v), u + v < x + y), rng(u, v)), g.opt(u, v))
        step = pre + [ok(x, y), g.define(x, y)]
        low = z3.Real('low')
        row = forall([v], Imp(ok(i, v), low <= g.N(i, v)), g.opt(i, v))
        rih = forall([u, v], Imp(z3.And(ok(u, v), u >= i, u + v < x + y), low <= g.N(u, v)), g.opt(u, v))
        s = z3.Real('s')
        move = z3.And(x - u >= 0, x - u <= 1, y - v >= 0, y - v <= 1, x + y > u + v)
        return [('least costs are finite and not negative (induction on the cell)', step + [ih], rng(x, y)),
                ('no later cell is cheaper than the cheapest of a row (induction on the cell)', step + [ih, rng(x, y), 0 <= i, i <= x, row, rih], low <= g.N(x, y)),
                ('a path starts with the cost of its first cell', pre + [g.define(z3.IntVal(0), z3.IntVal(0))], g.red(g.k.init, z3.IntVal(0), z3.IntVal(0)) == g.opt(z3.IntVal(0), z3.IntVal(0))),
                ('a path never costs less than the least cost of its cell (induction on the path)', step + [ih, rng(x, y), ok(u, v), move, s >= g.opt(u, v), s <= INF], g.red(s, x, y) >= g.opt(x, y)),
                ('the least cost of a cell is reached through a predecessor in the band', step + [z3.Or(x > 0, y > 0)],
                 z3.Or(*[z3.And(k, g.opt(x, y) == g.red(o, x, y)) for k, o in g.preds(x, y)]))]


def lemma_rows(c, g, i, low):
    """instance of the second statement of PathLemma"""
    y, = q('y')
    ok = lambda p, w: z3.And(g.inside(p, w), g.inband(p, w))
    e = (g.m - 1, g.n - 1)
    return Imp(z3.And(0 <= i, i < g.m, forall(y, Imp(ok(i, y), low <= g.N(i, y)), g.opt(i, y))), Imp(ok(*e), low <= g.N(*e)))


def cell(c, t, x, y):
    return sel(sel(c(t + '[][]'), x), y)


class Warped(Contract):
    props = ('C01', 'C02', 'C06')
    params = ('a', 'b', 'dropout', 'matching')
    assumes = (EXACT, 'points and cut-off are not NaN; points are finite')
    shards = 4

    def g(self, c):
        return grid(c, self.m)

    def requires(self, c):
        return [('readable', z3.And(ts_ok(c, 'a'), ts_ok(c, 'b'))), ('a number', c('dropout') <= INF), ('band ratio not negative', c.glob('warpingBandRatio') >= 0)]

    def throws(self, c):
        return z3.Or(ts_len(c, 'a') == 0, ts_len(c, 'b') == 0)

    def modifies(self, c):
        return [('key', ('static',)), c.lv('matching')]

    def facts(self, eng):
        c = eng.ctx()
        z = z3.IntVal(0)
        return float_facts() + band_facts(c, ts_len(c, 'a'), ts_len(c, 'b')) + [self.g(c).define(z, z)]

    # invariants
    def table(self, c, done):
        g = self.g(c)
        x, y = q('x', 'y')
        co, nc = cell(c, 'cost', x, y), cell(c, 'ncost', x, y)
        o = [('tables keep their shape', z3.And(c('cost.len') == g.m, c('ncost.len') == g.m, g.r >= 0,
                                                forall(x, Imp(between(0, x, g.m), sel(c('cost[].len'), x) == g.n), sel(c('cost[].len'), x)),
                                                forall(x, Imp(between(0, x, g.m), sel(c('ncost[].len'), x) == g.n), sel(c('ncost[].len'), x)))),
             ('cells filled so far hold the least cost', forall([x, y], Imp(z3.And(g.inside(x, y), done(x, y)), z3.And(co == g.opt(x, y), 0 <= co, co < INF)), co, g.opt(x, y))),
             ('cells filled so far hold the normalised least cost', forall([x, y], Imp(z3.And(g.inside(x, y), done(x, y)), nc == g.N(x, y)), nc, g.opt(x, y))),
             ('other cells are infinite', forall([x, y], Imp(z3.And(g.inside(x, y), z3.Not(done(x, y))), nc == INF), nc))]
        return o

    def column(self, c):
        i, g = c('i'), self.g(c)
        return [('row', z3.And(1 <= i, z3.Or(i <= g.r + 1), i <= g.m))] + self.table(c, lambda x, y: z3.And(y == 0, x < i))

    def first_row(self, c):
        j, g = c('j'), self.g(c)
        return [('column', z3.And(1 <= j, j <= g.r + 1, j <= g.n))] + self.table(c, lambda x, y: z3.Or(z3.And(y == 0, x <= g.r), z3.And(x == 0, y < j)))

    def done(self, c, i):
        g = self.g(c)
        return lambda x, y: z3.And(g.inband(x, y), z3.Or(x < i, y == 0))

    def rows(self, c):
        i, g = c('i'), self.g(c)
        return [('row', z3.And(1 <= i, i <= g.m)), ('not dropped', z3.Not(c('dropped')))] + self.table(c, self.done(c, i))

    def columns(self, c):
        i, j, g = c('i'), c('j'), self.g(c)
        lo = z3.If(i - g.r < 0, 0, i - g.r)
        y, = q('y')
        b = c('bestSoFar')
        return ([('column', z3.And(lo <= j, z3.Or(j <= i + g.r + 1), z3.Or(j <= g.n, j == lo)))]
                + self.table(c, lambda x, y: z3.And(g.inband(x, y), z3.Or(x < i, y == 0, z3.And(x == i, y < j))))
                + [('best of the row so far', z3.And(b <= INF, forall(y, Imp(z3.And(lo <= y, y < j, y < g.n), b <= g.N(i, y)), g.opt(i, y))))])

    def trace(self, c):
        g = self.g(c)
        i, j, L = c('i'), c('j'), c('matching.len')
        f, s = c('matching[].first'), c('matching[].second')
        k, = q('k')
        good = z3.And(g.inband(g.m - 1, g.n - 1), z3.Not(c('dropped')))
        return [('cell inside the table', g.inside(i, j)), ('entries counted', L >= 0),
                ('cell in the band', Imp(good, g.inband(i, j))),
                ('path so far stays in the band', Imp(good, forall(k, Imp(between(0, k, L), z3.And(g.inside(sel(f, k), sel(s, k)), g.inband(sel(f, k), sel(s, k)))), sel(f, k)))),
                ('path so far advances and adds up', Imp(good, forall(k, Imp(z3.And(1 <= k, k < L), self.step(g, sel(f, k), sel(s, k), sel(f, k - 1), sel(s, k - 1))), sel(f, k)))),
                ('path so far starts at the last points', Imp(good, z3.If(L == 0, z3.And(i == g.m - 1, j == g.n - 1), z3.And(sel(f, 0) == g.m - 1, sel(s, 0) == g.n - 1)))),
                ('path so far leads to the cell', Imp(z3.And(good, L > 0), self.step(g, i, j, sel(f, L - 1), sel(s, L - 1))))]

    def step(self, g, u, v, x, y):
        """(u, v) comes just before (x, y) on a cheapest path"""
        return z3.And(x - u >= 0, x - u <= 1, y - v >= 0, y - v <= 1, x + y > u + v, g.opt(x, y) == g.red(g.opt(u, v), x, y))

    def ensures(self, c):
        g = grid(c.old, self.m)
        k, = q('k')
        asked = c.old('matching.len') == 0
        D = g.distance()
        f, s, L = c('matching[].first'), c('matching[].second'), c('matching.len')
        good = z3.And(asked, D <= c.old('dropout'), g.inband(g.m - 1, g.n - 1))
        return cut_off(c, D) + [
            ('nothing is written when no alignment is asked for', Imp(z3.Not(asked), z3.And(L == c.old('matching.len'), f == c.old('matching[].first'), s == c.old('matching[].second')))),
            ('the alignment runs from the first to the last points', Imp(good, z3.And(L >= 1, sel(f, 0) == 0, sel(s, 0) == 0, sel(f, L - 1) == g.m - 1, sel(s, L - 1) == g.n - 1))),
            ('the alignment stays in the band', Imp(good, forall(k, Imp(between(0, k, L), z3.And(g.inside(sel(f, k), sel(s, k)), g.inband(sel(f, k), sel(s, k)))), sel(f, k)))),
            ('the alignment advances by single steps and its cost adds up to the distance', Imp(good, forall(k, Imp(z3.And(0 <= k, k < L - 1), self.step(g, sel(f, k), sel(s, k), sel(f, k + 1), sel(s, k + 1))), sel(f, k))))]


def warped(m):
    L = type('Paths' + m.name, (PathLemma,), dict(m=m, props=('C01', 'C02', 'C06')))
    lemma(L)

    class W(Warped):
        key = 'warpedDistance<%s,double>' % m.name
        creates = (m.name,)
        lemmas = ('FloatFacts', L.__name__)
    W.m = m
    W.__name__ = 'Warped' + m.name
    w = W()
    z = z3.IntVal(0)
    W.loops = {
        0: Loop(w.column, decreases=lambda c: w.g(c).m - c('i'), hints=lambda c: [w.g(c).define(c('i'), z)]),
        1: Loop(w.first_row, decreases=lambda c: w.g(c).n - c('j'), hints=lambda c: [w.g(c).define(z, c('j'))]),
        2: Loop(w.rows, decreases=lambda c: w.g(c).m - c('i')),
        3: Loop(w.columns, decreases=lambda c: w.g(c).n - c('j'), hints=lambda c: [w.g(c).define(c('i'), c('j'))],
                exit_hints=lambda c: [lemma_rows(c, w.g(c), c('i'), c('bestSoFar'))]),
        4: Loop(w.trace, decreases=lambda c: c('i') + c('j'), hints=lambda c: [w.g(c).define(c('i'), c('j'))]),
        5: Loop(lambda c: [('row', c('i') >= 0)], decreases=lambda c: w.g(c).m - c('i')),
        6: Loop(lambda c: [('column', c('j') >= 0)], decreases=lambda c: w.g(c).n - c('j')),
    }
    return contract(W)


WARP = {m.name: warped(m) for m in METRICS}


# ---- cosine and Sorensen: accumulators of several numbers -----------------------------------------
class Sums:
    def point(self, x, y):
        """what a pair of points adds to each sum"""


class Cosine(Sums):
    name, count = 'Cosine', 3

    def point(self, x, y):
        return [fsq(x), fsq(y), fmul(x, y)]

    def norm(self, t):
        return fdiv(t[2], fsqrt(fmul(t[0], t[1])))


class Sorensen(Sums):
    name, count = 'Sorensen', 2

    def point(self, x, y):
        return [fabs(fsub(x, y)), fabs(add(x, y))]

    def norm(self, t):
        return fdiv(t[0], t[1])


def sums_contract(s):
    s.Acc = [z3.Function('Acc%s%d' % (s.name, i), RA, I, RA, I, I, R) for i in range(s.count)]

    def accs(c, k):
        return [f(*arr(c.old, 'a'), *arr(c.old, 'b'), k) for f in s.Acc]

    def define(c, k):
        ps = s.point(point(c.old, 'a', k), point(c.old, 'b', k))
        return [Imp(k >= 0, x == add(y, p)) for x, y, p in zip(accs(c, k + 1), accs(c, k), ps)]

    def inv(c):
        i, b = c('i'), c('total.blk')
        T = sel(c.mem(), b)
        return [('position', z3.And(0 <= i, i <= ts_len(c, 'a'))),
                ('the sums have an array of their own', z3.And(c('total.off') == 0, b > 0, sel(c.size(), b) == s.count, sel(c.old.size(), b) < 0)),
                ('accumulated so far', z3.And(*[sel(T, k) == a for k, a in enumerate(accs(c, i))])),
                ('not dropped', z3.Not(c('dropped')))]

    class P(Contract):
        key = 'pairwiseDistance<%s,double *>' % s.name
        creates = (s.name,)
        props = ('C05',)
        params = ('a', 'b', 'dropout', 'matching')
        assumes = ('no floating-point operation yields NaN',)
        allocates = True
        loops = {0: Loop(inv, decreases=lambda c: ts_len(c, 'a') - c('i'), hints=lambda c: define(c, c('i')))}

        def requires(self, c):
            return [('readable', z3.And(ts_ok(c, 'a'), ts_ok(c, 'b'))), ('not empty', ts_len(c, 'a') >= 1), ('a number', c('dropout') <= INF)]

        def facts(self, eng):
            c = eng.ctx()
            x, y = z3.Reals('x!q y!q')
            return [a == 0 for a in accs(c, z3.IntVal(0))] + [z3.ForAll([x, y], fmul(x, y) == fmul(y, x), patterns=[fmul(x, y)]), z3.ForAll([x, y], fdiv(x, y) <= INF, patterns=[fdiv(x, y)]),
                                                             z3.ForAll([x, y], z3.And(fadd(x, y) == fadd(y, x), z3.Implies(x == 0, fadd(x, y) == y)), patterns=[fadd(x, y)]),
                                                             z3.ForAll([x, y], fsub(x, y) == -fsub(y, x), patterns=[fsub(x, y)])]

        def throws(self, c):
            return ts_len(c, 'a') != ts_len(c, 'b')

        def modifies(self, c):
            return [('key', ('static',))]

        def ensures(self, c):
            return [('is the definition over all points', Imp(c('dropout') == INF, c('res') == s.norm(accs(c, ts_len(c, 'a')))))]
    P.__name__ = 'Pairwise' + s.name
    return contract(P)


SUMS = [sums_contract(Cosine()), sums_contract(Sorensen())]


def warped_sums(s):
    """the warped cosine and Sorensen distances have no exact meaning; they must stay inside their arrays, free each once and end"""
    def dims(c):
        return ts_len(c, 'a'), ts_len(c, 'b'), band2(c, ts_len(c, 'a'), ts_len(c, 'b'))

    def inside(c, x, y):
        m, n, r = dims(c)
        return z3.And(0 <= x, x < m, 0 <= y, y < n)

    def inband(c, x, y):
        m, n, r = dims(c)
        return z3.And(x - y <= r, y - x <= r)

    def blk(c, x, y):
        return sel(sel(c('cost[][].blk'), x), y)

    def off(c, x, y):
        return sel(sel(c('cost[][].off'), x), y)

    def shape(c):
        m, n, r = dims(c)
        x, = q('x')
        return [('tables keep their shape', z3.And(c('cost.len') == m, c('ncost.len') == m, r >= 0,
                                                   forall(x, Imp(between(0, x, m), sel(c('cost[].len'), x) == n), sel(c('cost[].len'), x)),
                                                   forall(x, Imp(between(0, x, m), sel(c('ncost[].len'), x) == n), sel(c('ncost[].len'), x))))]

    def distinct(c):
        x, y, u, v = q('x', 'y', 'u', 'v')
        return [('no two cells share an array', forall([x, y, u, v], Imp(z3.And(inside(c, x, y), inside(c, u, v), z3.Or(x != u, y != v), blk(c, x, y) != 0), blk(c, x, y) != blk(c, u, v)),
                                                       [blk(c, x, y), blk(c, u, v)]))]

    def owned(c, live):
        x, y = q('x', 'y')
        b = blk(c, x, y)
        return [('every cell has no array or one of its own', forall([x, y], Imp(z3.And(inside(c, x, y), live(x, y)), z3.Or(b == 0, z3.And(b > 0, off(c, x, y) == 0, sel(c.size(), b) == s.count, sel(c.old.size(), b) < 0))), b))]

    def table(c, done):
        x, y = q('x', 'y')
        nc = cell(c, 'ncost', x, y)
        return shape(c) + owned(c, lambda x, y: T) + distinct(c) + [
            ('cells filled so far have an array', forall([x, y], Imp(z3.And(inside(c, x, y), done(x, y)), blk(c, x, y) != 0), blk(c, x, y))),
            ('other cells are infinite', forall([x, y], Imp(inside(c, x, y), z3.And(nc <= INF, Imp(z3.Not(done(x, y)), nc == INF))), nc))]

    def column(c):
        m, n, r = dims(c)
        i = c('i')
        return [('row', z3.And(1 <= i, i <= r + 1, i <= m))] + table(c, lambda x, y: z3.And(y == 0, x < i))

    def first_row(c):
        m, n, r = dims(c)
        j = c('j')
        return [('column', z3.And(1 <= j, j <= r + 1, j <= n))] + table(c, lambda x, y: z3.Or(z3.And(y == 0, x <= r), z3.And(x == 0, y < j)))

    def rows(c):
        m, n, r = dims(c)
        i = c('i')
        return [('row', z3.And(1 <= i, i <= m))] + table(c, lambda x, y: z3.And(inband(c, x, y), z3.Or(x < i, y == 0)))

    def columns(c):
        m, n, r = dims(c)
        i, j = c('i'), c('j')
        lo = z3.If(i - r < 0, 0, i - r)
        return ([('column', z3.And(lo <= j, j <= i + r + 1, z3.Or(j <= n, j == lo)))]
                + table(c, lambda x, y: z3.And(inband(c, x, y), z3.Or(x < i, y == 0, z3.And(x == i, y < j)))))

    def trace(c):
        return [('cell inside the table', inside(c, c('i'), c('j'))), ('entries counted', c('matching.len') >= 0)]

    def others(c):
        b, = q('b')
        z, z0 = c.size(), c.old.size()
        return [('arrays of others stay', forall(b, Imp(sel(z0, b) >= 0, sel(z, b) == sel(z0, b)), sel(z, b), sel(z0, b)))]

    def clean_rows(c):
        i = c('i')
        return [('row', i >= 0)] + owned(c, lambda x, y: x >= i) + others(c)

    def clean(c):
        i, j = c('i'), c('j')
        return [('column', j >= 0)] + owned(c, lambda x, y: z3.Or(x > i, z3.And(x == i, y >= j))) + others(c)

    M, N = (lambda c: ts_len(c, 'a')), (lambda c: ts_len(c, 'b'))

    class W(Contract):
        key = 'warpedDistance<%s,double *>' % s.name
        creates = (s.name,)
        props = ('C05',)
        params = ('a', 'b', 'dropout', 'matching')
        allocates = True
        shards = 3
        loops = {
            0: Loop(column, decreases=lambda c: M(c) - c('i')),
            1: Loop(first_row, decreases=lambda c: N(c) - c('j')),
            2: Loop(rows, decreases=lambda c: M(c) - c('i')),
            3: Loop(columns, decreases=lambda c: N(c) - c('j')),
            4: Loop(trace, decreases=lambda c: c('i') + c('j')),
            5: Loop(clean_rows, decreases=lambda c: M(c) - c('i')),
            6: Loop(clean, decreases=lambda c: N(c) - c('j')),
        }

        def requires(self, c):
            return [('readable', z3.And(ts_ok(c, 'a'), ts_ok(c, 'b'))), ('band ratio not negative', c.glob('warpingBandRatio') >= 0)]

        def facts(self, eng):
            c = eng.ctx()
            x, y = z3.Reals('x!q y!q')
            return band_facts(c, ts_len(c, 'a'), ts_len(c, 'b')) + [z3.ForAll([x, y], fdiv(x, y) <= INF, patterns=[fdiv(x, y)])]

        def throws(self, c):
            return z3.Or(ts_len(c, 'a') == 0, ts_len(c, 'b') == 0)

        def modifies(self, c):
            return [('key', ('static',)), c.lv('matching')]

        def ensures(self, c):
            return [('nothing is written when no alignment is asked for', Imp(c.old('matching.len') > 0, c('matching.len') == c.old('matching.len')))]
    W.__name__ = 'Warped' + s.name
    return contract(W)


WSUMS = [warped_sums(Cosine()), warped_sums(Sorensen())]
