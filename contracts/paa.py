"""Reduction by averages of blocks and the search on reduced series (C16)."""
from common import *
from series import Sum, sum_def, whole, destroyable
from groups import Win, win_facts, query, GROUP_ASSUMES
from search import Exhaustive, DistOf, named
import registry
from execu import idiv, imod

# block of the reduced points: where it starts, relative to the first, and how many points it has
Cnt = z3.Function('Cnt', I, I, I, I)          # points, block size, block


def blocks(n, bs):
    """number of blocks of n >= 1 points"""
    return idiv(n - 1, bs) + 1


def cnt_facts():
    n, s, b = q('n', 's', 'b')
    return [forall([n, s, b], Cnt(n, s, b) == z3.If(n - mul(b, s) < s, n - mul(b, s), s), Cnt(n, s, b))]


def avg(A, off, n, bs, b):
    c = Cnt(n, bs, b)
    return fdiv(Sum(A, off + mul(b, bs), c), z3.ToReal(c))


def div_fact(a, b):
    """quotient and remainder of a >= 0 by b > 0"""
    x, r = idiv(a, b), imod(a, b)
    return Imp(z3.And(a >= 0, b > 0), z3.And(a == mul(x, b) + r, 0 <= r, r < b, 0 <= x, x <= a, Imp(a < b, x == 0)))


def div_step(a, b):
    """from a to a + 1"""
    x, r, y, t = idiv(a, b), imod(a, b), idiv(a + 1, b), imod(a + 1, b)
    return Imp(z3.And(a >= 0, b > 0), z3.If(r + 1 == b, z3.And(y == x + 1, t == 0, mul(y, b) == mul(x, b) + b), z3.And(y == x, t == r + 1)))


@lemma
class DivFacts(Lemma):
    plain = True

    def goals(self):
        a, b, x, r, y, t, d = z3.Ints('a b x r y t d')
        base = [a >= 0, b > 0, a == x * b + r, 0 <= r, r < b, a + 1 == y * b + t, 0 <= t, t < b]
        return [('quotient and remainder', [a >= 0, b > 0, x == a / b, r == a % b], z3.And(a == x * b + r, 0 <= r, r < b)),
                ('quotient not negative', [a >= 0, b > 0, a == x * b + r, 0 <= r, r < b, d == -x - 1, d >= 0, d * b >= 0, -x * b == d * b + b], F),
                ('quotient zero below the divisor', [a >= 0, b > 0, a < b, a == x * b + r, 0 <= r, r < b, x >= 1, (x - 1) * b >= 0], F),
                ('quotient at most the number', [a >= 0, b > 0, a == x * b + r, 0 <= r, x >= 0, x * (b - 1) >= 0], x <= a),
                ('one quotient only', [b > 0, x * b + r == y * b + t, 0 <= r, r < b, 0 <= t, t < b, d == y - x, d >= 1, y * b == x * b + d * b, d * b >= b], F),
                ('next in the same block', [b > 0, (x + 1) * b == x * b + b], z3.And(a == x * b + r, r + 1 == b) == z3.And(a + 1 == (x + 1) * b, r == a - x * b))]


def points(c, p):
    return sel(c.mem(), ts_blk(c, p)), ts_off(c, p), ts_len(c, p)


def reduced(c, p, A, off, n, bs):
    """p is an array of its own with the reduced points"""
    b, = q('b')
    x = sel(sel(c.mem(), ts_blk(c, p)), b)
    return [('one point per block', z3.And(c(p + '.length') == blocks(n, bs), c(p + '.start') == 0, c(p + '.end') == blocks(n, bs), c(p + '.data.off') == 0, sel(c.size(), ts_blk(c, p)) == blocks(n, bs), ts_blk(c, p) != 0, c(p + '.isOwnerOfData'))),
            ('each the average of its block', forall(b, Imp(between(0, b, blocks(n, bs)), x == avg(A, off, n, bs, b)), x))]


def fresh_of(c, p):
    return ('an array of its own', sel(c.old.size(), ts_blk(c, p)) < 0)


def paa_inv(c):
    A, off, n = points(c.old, 'source')
    bs, i, cnt = c('blockSize'), c('i'), c('count')
    b, = q('b')
    x = sel(sel(c.mem(), ts_blk(c, 'dest')), b)
    full = i == n
    return [('position', z3.And(0 <= i, i <= n)), ('points of the block so far', cnt == z3.If(full, 0, imod(i, bs))),
            ('their sum', c('sum') == z3.If(full, z3.RealVal(0), Sum(A, off + mul(idiv(i, bs), bs), cnt))),
            ('blocks so far', forall(b, Imp(between(0, b, z3.If(full, blocks(n, bs), idiv(i, bs))), x == avg(A, off, n, bs, b)), x)),
            ('source unchanged', sel(c.mem(), ts_blk(c, 'source')) == A)]


def paa_hints(c):
    A, off, n = points(c.old, 'source')
    bs, i = c('blockSize'), c('i')
    return [div_fact(i, bs), div_fact(i + 1, bs), div_step(i, bs), div_fact(n - 1, bs)] + sum_def(A, off + mul(idiv(i, bs), bs), imod(i, bs)) + \
        [Sum(A, off + mul(idiv(i + 1, bs), bs), 0) == 0, Cnt(n, bs, idiv(i, bs)) == Cnt(n, bs, idiv(i, bs))]


@contract
class TsPAA(Contract):
    key = 'tsPAA'
    props = ('C16',)
    params = ('source', 'blockSize')
    lemmas = ('MulFacts', 'DivFacts')
    allocates = True
    loops = {0: Loop(paa_inv, decreases=lambda c: ts_len(c, 'source') - c('i'), hints=paa_hints, entry_hints=lambda c: [div_fact(z3.IntVal(0), c('blockSize')), Sum(points(c.old, 'source')[0], points(c.old, 'source')[1] + mul(idiv(z3.IntVal(0), c('blockSize')), c('blockSize')), 0) == 0])}

    def requires(self, c):
        return [('source well formed', whole(c, 'source')), ('source not empty', ts_len(c, 'source') >= 1), ('block size positive', c('blockSize') >= 1)]

    def facts(self, eng):
        return cnt_facts()

    def ensures(self, c):
        A, off, n = points(c.old, 'source')
        return reduced(c, 'res', A, off, n, c.old('blockSize')) + [fresh_of(c, 'res')]


# the cached reductions ----------------------------------------------------------------------------
def least(a, b):
    return z3.If(b < a, b, a)


class Cache:
    """paaMat[i][o] is the reduction of series i from position o on"""

    def __init__(self, c):
        self.c = c
        d = 'self.dataset'
        self.n, self.M, self.blk, self.off, self.lens = c(d + '.itemCount'), c(d + '.maxCol'), c(d + '.data.blk'), c(d + '.data.off'), c(d + '.lengths[]')
        self.A = sel(c.old.mem(), self.blk)
        self.rows = c('self.paaMat.len')
        self.cols = c('self.paaMat[].len')

    def f(self, i, o, leaf):
        return sel(sel(self.c('self.paaMat[][].' + leaf), i), o)

    def row(self, i, bs, upto):
        """the reductions of series i from the positions below upto on"""
        o, b = q('o', 'b')
        n = sel(self.lens, i) - o
        blk = self.f(i, o, 'data.blk')
        x = sel(sel(self.c.mem(), blk), b)
        have = between(0, o, upto)
        own = z3.And(self.f(i, o, 'start') == 0, self.f(i, o, 'length') == blocks(n, bs), self.f(i, o, 'end') == blocks(n, bs), self.f(i, o, 'data.off') == 0, self.f(i, o, 'isOwnerOfData'), blk > 0, blocks(n, bs) >= 1, sel(self.c.size(), blk) == blocks(n, bs))
        return [('reductions of a series', [o], Imp(have, own), self.f(i, o, 'data.blk')),
                ('averages of its blocks', [o, b], Imp(z3.And(have, between(0, b, blocks(n, bs))), x == avg(self.A, Win(self.off, self.M, i, o), n, bs, b)), x)]

    def all(self, bs, upto):
        i, = q('i')
        w = least(bs, sel(self.lens, i))
        return [('one entry per series', self.rows == self.n),
                ('one reduction per position in a block', forall(i, Imp(between(0, i, upto), sel(self.cols, i) == w), sel(self.cols, i)))] + \
            [(nm, forall([i] + vs, Imp(between(0, i, upto), g), p)) for nm, vs, g, p in self.row(i, bs, w)]


def cache_facts(c):
    d = 'self.dataset'
    return cnt_facts() + win_facts(c(d + '.data.off'), c(d + '.maxCol'))


@contract
class NewPAA(Contract):
    key = 'PAAWrapper::PAAWrapper'
    heap_params = ('TimeSeriesSet',)
    props = ('C16',)
    params = ('dataset',)
    allocates = True
    loops = {0: Loop(lambda c: [('position', z3.And(0 <= c('i'), c('i') <= c('dataset.itemCount'))), ('one entry per series', c('self.paaMat.len') == c('i'))], decreases=lambda c: c('dataset.itemCount') - c('i'))}

    def requires(self, c):
        return [('dataset well formed', ds_ok(c, 'dataset'))]

    def modifies(self, c):
        return [c.lv('self')]

    def ensures(self, c):
        return [('one entry per series', c('self.paaMat.len') == c('dataset.itemCount')), ('of this data set', c.name('self.dataset') == c.name('dataset'))]


def reduce_rows(c):
    k, b = Cache(c), c('blockSize')
    return [('position', z3.And(0 <= c('i'), c('i') <= k.n)), ('block size', b == eff(c))] + k.all(b, c('i')) + kept(c)


def reduce_row(c):
    k, b, i = Cache(c), c('blockSize'), c('i')
    o = c('offset')
    return [('position', z3.And(0 <= i, i < k.n, 0 <= o, o <= least(b, sel(k.lens, i)), c('itemLength') == sel(k.lens, i), sel(k.cols, i) == o)), ('block size', b == eff(c))] + k.all(b, i) + \
        [(nm, forall(vs, g, p)) for nm, vs, g, p in k.row(i, b, o)] + kept(c)


def eff(c):
    """the block size used: none is longer than the longest series"""
    m = c.old('self.dataset.maxCol')
    return least(c.old('blockSize'), z3.If(m < 1, 1, m))


def kept(c):
    k = Cache(c)
    return [('data unchanged', sel(c.mem(), k.blk) == k.A)]


@contract
class Generate(Contract):
    key = 'PAAWrapper::generatePAAMatrix'
    props = ('C16',)
    params = ('blockSize',)
    lemmas = ('MulFacts', 'DivFacts')
    allocates = True
    loops = {0: Loop(reduce_rows, decreases=lambda c: c('self.dataset.itemCount') - c('i')),
             1: Loop(reduce_row, decreases=lambda c: c('itemLength') - c('offset'), hints=lambda c: [div_fact(c('itemLength') - c('offset') - 1, c('blockSize'))])}

    def requires(self, c):
        k = Cache(c)
        return [('dataset well formed', ds_ok(c, 'self.dataset')), ('data there', Imp(k.n > 0, k.blk > 0)), ('one entry per series', k.rows == k.n)]

    def facts(self, eng):
        return cache_facts(eng.ctx())

    def throws(self, c):
        return c('blockSize') < 1

    def modifies(self, c):
        return [c.lv('self.paaMat'), c.lv('self.blockSize')]

    def ensures(self, c):
        return [('block size', c('self.blockSize') == eff(c))] + Cache(c).all(c('self.blockSize'), Cache(c).n)


def cached(c):
    k = Cache(c)
    return [('dataset well formed', ds_ok(c, 'self.dataset')), ('data there', Imp(k.n > 0, k.blk > 0)), ('block size positive', c('self.blockSize') >= 1)] + k.all(c('self.blockSize'), k.n)


class Window:
    """the window asked for"""

    def __init__(self, c):
        o = c.old
        k = Cache(o)
        i, s, e = o('index'), o('start'), o('end')
        whole_row = z3.And(s < 0, e < 0)
        self.i, self.s, self.e = i, z3.If(whole_row, 0, s), z3.If(whole_row, sel(k.lens, i), e)
        self.k, self.bs = k, o('self.blockSize')
        self.len = self.e - self.s
        self.bad = z3.Or(i < 0, i >= k.n, self.s < 0, self.s >= self.e, self.e > sel(k.lens, i))


def copy_inv(c):
    w = Window(c)
    k, bs, i, p = w.k, w.bs, c('i'), c('paaStart')
    b, = q('b')
    x = sel(sel(c.mem(), ts_blk(c, 'paaTS')), b)
    return [('position', z3.And(p <= i, i <= c('paaEnd'))),
            ('blocks so far', forall(b, Imp(between(0, b, i - p), x == avg(k.A, Win(k.off, k.M, w.i, c('start')), w.len, bs, b)), x)),
            ('others unchanged', z3.And(sel(c.mem(), k.blk) == k.A, sel(c.mem(), c('wholePAA.data.blk')) == sel(c.old.mem(), c('wholePAA.data.blk'))))]


def copy_hints(c):
    w = Window(c)
    k, bs, i, p, o, s = w.k, w.bs, c('i'), c('paaStart'), c('offset'), c('start')
    n = sel(k.lens, w.i) - o
    return [div_fact(n - 1, bs), Win(k.off, k.M, w.i, o) == Win(k.off, k.M, w.i, o),
            ('block of the row', mul(i, bs) == mul(p, bs) + mul(i - p, bs)), ('next block', mul(i + 1, bs) == mul(i, bs) + bs),
            ('same points', Win(k.off, k.M, w.i, o) + mul(i, bs) == Win(k.off, k.M, w.i, s) + mul(i - p, bs)),
            ('whole block', Imp(i < c('paaEnd'), z3.And(Cnt(n, bs, i) == bs, Cnt(w.len, bs, i - p) == bs))),
            ('in the row', Imp(i < c('paaEnd'), between(0, i, blocks(n, bs))))]


def copy_entry(c):
    w = Window(c)
    bs, o, s, e = w.bs, c('offset'), c('start'), c('end')
    return [div_fact(s, bs), div_fact(s - o, bs), div_fact(e - o, bs), div_fact(w.len, bs), div_fact(w.len - 1, bs), div_step(w.len - 1, bs),
            ('first block', z3.And(idiv(s - o, bs) == idiv(s, bs), s - o == mul(idiv(s, bs), bs))),
            ('sum of products', mul(idiv(s, bs) + idiv(w.len, bs), bs) == mul(idiv(s, bs), bs) + mul(idiv(w.len, bs), bs)),
            ('blocks in between', z3.And(idiv(e - o, bs) == idiv(s, bs) + idiv(w.len, bs), imod(e - o, bs) == imod(w.len, bs)))]


@contract
class GetPAA(Contract):
    key = 'PAAWrapper::getPAA'
    props = ('C16',)
    params = ('index', 'start', 'end')
    lemmas = ('MulFacts', 'DivFacts')
    allocates = True
    loops = {0: Loop(copy_inv, decreases=lambda c: c('paaEnd') - c('i'), hints=copy_hints, entry_hints=copy_entry)}

    def requires(self, c):
        return cached(c)

    def facts(self, eng):
        return cache_facts(eng.ctx())

    def throws(self, c):
        return Window(c).bad

    def ensures(self, c):
        w = Window(c)
        k = w.k
        return reduced(c, 'res', k.A, Win(k.off, k.M, w.i, w.s), w.len, w.bs) + [fresh_of(c, 'res')]


# distance, query points, offset, count, window points, offset, count, block size: the distance between the reduced forms
RedDist = z3.Function('RedDist', I, RA, I, I, RA, I, I, I, R)


@contract
class SearchPAA(Exhaustive):
    """as the exhaustive search, between the reduced query and the reduced windows"""
    key = 'PAAWrapper::getKBestMatchesPAA'
    props = ('C16',)
    params = ('query', 'k', 'distanceName')
    lemmas = ('MulFacts', 'DivFacts')
    data = 'self.dataset'
    assumes = GROUP_ASSUMES + ('a distance depends on the points of its two arguments only, not on the arrays they are stored in',)

    @staticmethod
    def parts(c, i, l, s):
        o = c.old
        A, off, n = query(o)
        bs = o('self.blockSize')
        return (A, off, n, bs), (sel(o.mem(), o('self.dataset.data.blk')), Win(o('self.dataset.data.off'), o('self.dataset.maxCol'), i, s), l, bs)

    def dist(self, c, i, l, s):
        x, y = self.parts(c, i, l, s)
        return RedDist(DistOf(named(c)), *x[:3], *y)

    @staticmethod
    def on_dist(eng, f, A, B, drop, r, d):
        c = eng.ctx()
        x, y = SearchPAA.parts(c, c('idx'), c('intervalLength'), c('start'))
        b, = q('b')
        # both arguments hold the averages: their distance is the one of the reduced forms
        is_red = lambda P, z: z3.And(P[2] == blocks(z[2], z[3]), forall(b, Imp(between(0, b, P[2]), sel(P[0], P[1] + b) == avg(*z, b)), sel(P[0], P[1] + b)))
        return [Imp(z3.And(is_red(A, x), is_red(B, y)), d == SearchPAA.dist(SearchPAA, c, c('idx'), c('intervalLength'), c('start')))]

    def more(self, c):
        x, _ = self.parts(c, z3.IntVal(0), z3.IntVal(0), z3.IntVal(0))
        k = Cache(c)
        b = ts_blk(c, 'paaQuery')
        return [('the distance of that name', c('warpedDistance') == DistOf(named(c))),
                ('a warped distance', z3.Or(*[DistOf(named(c)) == f for (n, f), (t, _) in zip(registry.table(c.eng), registry.TABLE) if t.endswith('_dtw')]))] + \
            [('query: ' + nm, g) for nm, g in reduced(c, 'paaQuery', *x)] + [('query: array of its own', sel(c.old.size(), b) < 0), ('data unchanged', Imp(k.n > 0, sel(c.mem(), k.blk) == k.A))] + k.all(c('self.blockSize'), k.n)

    def here(self, c):
        return super().here(c) + [div_fact(c('intervalLength') - 1, c('self.blockSize'))]

    def requires(self, c):
        return super().requires(c) + [r for r in cached(c) if r[0] != 'dataset well formed'] + [('query well formed', whole(c, 'query')), ('query not empty', c('query.length') >= 1)]

    def facts(self, eng):
        c = eng.ctx()
        return super().facts(eng) + cnt_facts() + [div_fact(c('query.length') - 1, c('self.blockSize'))]

    def throws(self, c):
        return z3.Or(c('k') <= 0, z3.Not(registry.known(c, named(c))))
