"""The order in which lengths are searched (C18)."""
from common import *
from distance import band, real, EXACT

Gap = z3.Function('Gap', R, I, I)       # band ratio, length: the shortest query that length can be aligned with


def band_of(ratio, n):
    f = ffloor(fmul(real(n), ratio))
    return z3.If(n - 1 < f, n - 1, f)


def gap_facts(ratio):
    h, v = q('h', 'v')
    return [forall(h, Gap(ratio, h) == h - band_of(ratio, h), Gap(ratio, h)),
            forall([h, v], Imp(z3.And(1 <= h, h <= v), Gap(ratio, h) <= Gap(ratio, v)), [Gap(ratio, h), Gap(ratio, v)])]


@lemma
class GapGrows(Lemma):
    """a longer series needs a query at least as long: from one length to the next, with multiplication and floor of the reals"""
    def goals(self):
        h = z3.Int('h')
        r, t = z3.Reals('r t')
        fl = lambda x: z3.ToInt(x)
        g = lambda n, f: n - z3.If(n - 1 < f, n - 1, f)
        return [('small ratios', [h >= 1, 0 <= r, r <= 1, t == z3.ToReal(h) * r], g(h, fl(t)) <= g(h + 1, fl(t + r))),
                ('the next product', [], z3.ToReal(h + 1) * r == z3.ToReal(h) * r + r),
                ('large ratios: the product', [h >= 1, r > 1], z3.ToReal(h) * r >= z3.ToReal(h)),
                ('large ratios', [h >= 1, t >= z3.ToReal(h)], g(h, fl(t)) == 1)]


def alignable(c, v):
    """length v admits a path with the query"""
    return alignable_with(c.old.glob('warpingBandRatio'), c.old('queryLength'), v)


def alignable_with(ra, n, v):
    return z3.If(v <= n, v >= Gap(ra, n), Gap(ra, v) <= n)


def start(c):
    n, t = c.old('queryLength'), c.old('totalLength')
    return z3.If(t < n - 1, t, n - 1)


def inv(c):
    n, t, low, high, L, o, pos = c.old('queryLength'), c.old('totalLength'), c('low'), c('high'), c('order.len'), c('order[]'), c('pos')
    ra = c.old.glob('warpingBandRatio')
    k, v = q('k', 'v')
    x = sel(o, k)
    own = n <= t
    return [('bounds', z3.And(low <= start(c), z3.Or(low >= 1, low == start(c)), high >= n + 1, z3.Or(high <= t + 1, high == n + 1), L >= 0)),
            ('own length first', Imp(own, z3.And(L >= 1, sel(o, 0) == n))),
            ('visited lengths can be aligned', forall(k, Imp(between(0, k, L), z3.Or(z3.And(own, k == 0), z3.And(z3.Or(k > 0, z3.Not(own)), z3.Or(z3.And(low < x, x <= start(c), x >= 2, x >= Gap(ra, n)), z3.And(n < x, x < high, x <= t, Gap(ra, x) <= n))))), x)),
            ('each once', forall(k, Imp(between(0, k, L), sel(pos, x) == k), x)),
            ('passed lengths are visited', forall(v, Imp(z3.Or(z3.And(low < v, v <= start(c)), z3.And(n < v, v < high, v <= t)), z3.And(0 <= sel(pos, v), sel(pos, v) < L, sel(o, sel(pos, v)) == v)), sel(pos, v))),
            ('stops below', Imp(c('lowStop'), z3.Or(low < 2, low < Gap(ra, n)))),
            ('stops above', Imp(c('highStop'), z3.Or(high > t, Gap(ra, high) > n)))]


def all_visited(c):
    n, t, o, p = c.old('queryLength'), c.old('totalLength'), c('order[]'), c('pos')
    v, = q('v')
    return forall(v, Imp(z3.And(2 <= v, v <= t, v != n, alignable(c, v)), z3.And(0 <= sel(p, v), sel(p, v) < c('order.len'), sel(o, sel(p, v)) == v)), Gap(c.old.glob('warpingBandRatio'), v))


def measure(c):
    t, low, high = c.old('totalLength'), c('low'), c('high')
    return z3.If(c('lowStop'), 0, z3.If(low < 0, 0, low) + 1) + z3.If(c('highStop'), 0, z3.If(high > t, 0, t - high + 1) + 1)


def ghost_init(eng):
    ty = Ty('heap', INT)
    eng.ghost['pos'] = (('ghost', 'pos'), ty)
    eng.st.env[('ghost', 'pos')] = Val(ty, [z3.K(I, z3.IntVal(0))])
    if True:
        step(eng, init=True)


def step(eng, init=False):
    """the places of the last two entries"""
    c = eng.ctx()
    key = ('ghost', 'pos')
    o, L = c('order[]'), c('order.len')
    p = eng.st.env[key].l[0]
    for d in (2, 1):
        p = z3.If(L >= d, z3.Store(p, sel(o, L - d), L - d), p)
    n = eng.fresh('pos', p.sort())
    eng.assume(n == p)
    eng.st.env[key] = Val(eng.st.env[key].ty, [n])


@contract
class TraverseOrder(Contract):
    key = 'generateTraverseOrder'
    props = ('C18', 'C08', 'C09')
    params = ('queryLength', 'totalLength')
    lemmas = ('GapGrows',)
    assumes = (EXACT,)
    loops = {0: Loop(inv, decreases=measure, ghost_init=ghost_init, ghost_step=step,
                     hints=lambda c: [Gap(c.old.glob('warpingBandRatio'), x) == Gap(c.old.glob('warpingBandRatio'), x) for x in (c('high'), c.old('queryLength'))],
                     exit_hints=lambda c: [('where each length is', all_visited(c))])}

    def requires(self, c):
        return [('a query', c('queryLength') >= 1), ('band ratio not negative', c.glob('warpingBandRatio') >= 0)]

    def facts(self, eng):
        c = eng.ctx()
        ra = c.glob('warpingBandRatio')
        from distance import band_axioms
        return gap_facts(ra) + band_axioms() + [Gap(ra, c('queryLength')) == c('queryLength') - band_of(ra, c('queryLength'))]

    def ensures(self, c):
        n, t, L, o = c.old('queryLength'), c.old('totalLength'), c('res.len'), c('res[]')
        j, k, v = q('j', 'k', 'v')
        return [('own length first', Imp(n <= t, z3.And(L >= 1, sel(o, 0) == n))),
                ('never a length beyond the longest', forall(k, Imp(between(0, k, L), z3.And(sel(o, k) >= 1, sel(o, k) <= t)), sel(o, k))),
                ('only lengths that can be aligned', forall(k, Imp(z3.And(between(0, k, L), sel(o, k) != n), z3.And(sel(o, k) >= 2, alignable(c, sel(o, k)))), sel(o, k))),
                ('each once', forall([j, k], Imp(z3.And(0 <= j, j < k, k < L), sel(o, j) != sel(o, k)), [sel(o, j), sel(o, k)])),
                ('every length that can be aligned', forall(v, Imp(z3.And(2 <= v, v <= t, alignable(c, v)), z3.Exists([k], z3.And(0 <= k, k < L, sel(o, k) == v, ))), Gap(c.old.glob('warpingBandRatio'), v)))]
