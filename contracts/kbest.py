"""The search for the k best over groups (C09)."""
from common import *
from groups import *
from search import *
import order

# where each group is kept, by the group's number: -1 when not kept
GHOST_VARS['kept'] = Ty('heap', INT)
KEPT = ('gg', 'kept')
# a group's number; Gl, Gi give back its length and index
Gn, Gl, Gi = z3.Function('Gn', I, I, I), z3.Function('Gl', I, I), z3.Function('Gi', I, I)
Sum = z3.Function('Sum', IA, I, I)      # of the first n entries


# constant zero; name a term so that the solver uses the facts about it
MarkI, MarkR = z3.Function('MarkI', I, I), z3.Function('MarkR', R, I)


def named_term(t):
    return (MarkR if t.sort() == R else MarkI)(t) == 0


def group_numbers():
    l, i = q('l', 'i')
    w = Gn(l, i)
    return [forall([l, i], z3.And(Gl(w) == l, Gi(w) == i), w)]


@lemma
class Sums(Lemma):
    """sums of the first entries: what pushing, popping, rearranging and erasing do to them"""

    def goals(self):
        a, b, p, r = [z3.Const(x, IA) for x in 'abpr']
        n, m, x, i = z3.Ints('n m x i')
        S = Sum
        step = lambda a, n: S(a, n + 1) == S(a, n) + a[n]
        st = z3.Store(a, m, x)
        diff = lambda n: S(st, n) == S(a, n) + z3.If(z3.And(0 <= m, m < n), x - a[m], 0)
        same = lambda n: z3.ForAll([i], Imp(z3.And(0 <= i, i < n), a[i] == b[i]))
        inv = lambda p, r, n: z3.ForAll([i], Imp(z3.And(0 <= i, i < n), z3.And(0 <= p[i], p[i] < n, r[p[i]] == i, 0 <= r[i], r[i] < n, p[r[i]] == i)))
        per = lambda b, p, n: z3.ForAll([i], Imp(z3.And(0 <= i, i < n), b[i] == a[p[i]]))
        k = r[n]
        b2, p2, r2 = z3.Store(b, k, b[n]), z3.Store(p, k, p[n]), z3.Store(r, p[n], k)
        sh = lambda n: z3.ForAll([i], Imp(z3.And(0 <= i, i < n), b[i] == a[i + 1]))
        return [('one entry changed: none', [S(st, 0) == 0, S(a, 0) == 0], diff(z3.IntVal(0))),
                ('one entry changed: one more', [n >= 0, diff(n), step(st, n), step(a, n)], diff(n + 1)),
                ('equal entries: none', [S(b, 0) == 0, S(a, 0) == 0], S(a, 0) == S(b, 0)),
                ('equal entries: one more', [n >= 0, same(n + 1), Imp(same(n), S(a, n) == S(b, n)), step(a, n), step(b, n)], S(a, n + 1) == S(b, n + 1)),
                ('rearranged: none', [S(b, 0) == 0, S(a, 0) == 0], S(a, 0) == S(b, 0)),
                ('rearranged: the last entry exchanged', [n >= 0, inv(p, r, n + 1), per(b, p, n + 1), k != n], z3.And(inv(p2, r2, n), per(b2, p2, n))),
                ('rearranged: the last entry in place', [n >= 0, inv(p, r, n + 1), per(b, p, n + 1), k == n], z3.And(inv(p, r, n), per(b, p, n), b[n] == a[n])),
                ('rearranged: one more', [n >= 0, inv(p, r, n + 1), per(b, p, n + 1), step(a, n), step(b, n),
                                          z3.If(k == n, z3.And(S(b, n) == S(a, n), b[n] == a[n]), z3.And(S(b2, n) == S(a, n), S(b2, n) == S(b, n) + b[n] - b[k]))], S(b, n + 1) == S(a, n + 1)),
                ('first erased: none', [S(b, 0) == 0, S(a, 0) == 0, S(a, 1) == S(a, 0) + a[0]], S(b, 0) == S(a, 1) - a[0]),
                ('first erased: one more', [n >= 0, sh(n + 1), S(b, n) == S(a, n + 1) - a[0], step(b, n), step(a, n + 1)], S(b, n + 1) == S(a, n + 2) - a[0])]


def ghost_write(eng, key, w):
    for x in eng.wlog:
        x.append((key, None))
    eng.st.env[key] = Val(GHOST_VARS[key[1]], [w])


def leaf_of(eng, v, leaf):
    return dict(zip([s for s, _ in eng.types.leaves(v.ty)], v.l))[leaf]


class Kept:
    """groups kept so far, as the vector and the ghost tell"""

    def __init__(self, c, k, p='bestSoFar'):
        self.k, self.n, self.w = k, c(p + '.len'), c('kept')
        self.arr = c(p + '[].members')
        self.el = lambda x, j: sel(c(p + '[].' + x), j)
        self.heap = c.heap(p)

    def at(self, l, i):
        return sel(self.w, Gn(l, i))

    def sum(self):
        return self.k + Sum(self.arr, self.n)

    def ok(self):
        j, l, i = q('j', 'l', 'i')
        el, at = self.el, self.at(l, i)
        return [('kept groups are recorded', z3.And(self.n >= 0, forall(j, Imp(between(0, j, self.n), self.at(el('length', j), el('index', j)) == j), el('dist', j)))),
                ('groups are kept where recorded', forall([l, i], z3.And(at >= -1, Imp(at >= 0, z3.And(at < self.n, el('length', at) == l, el('index', at) == i))), Gn(l, i))),
                ('first is the furthest once full', Imp(self.k <= 0, z3.And(self.n >= 1, self.heap, forall(j, Imp(between(0, j, self.n), el('dist', j) <= el('dist', 0)), el('dist', j)))))]

    def needed(self):
        return ('the furthest is needed', Imp(self.k <= 0, self.k + self.el('members', 0) >= 1))


def kept_push(eng, lv, old):
    nv = eng.read(lv)
    f = lambda v, leaf: leaf_of(eng, v, leaf)
    n = old.l[0]
    l, i = sel(f(nv, '[].length'), n), sel(f(nv, '[].index'), n)
    w = eng.fresh('kept', IA)
    eng.assume(w == z3.Store(eng.getk(KEPT).l[0], Gn(l, i), n))
    ghost_write(eng, KEPT, w)
    eng.assume(Sum(f(nv, '[].members'), n + 1) == Sum(f(old, '[].members'), n) + sel(f(nv, '[].members'), n))


def kept_pop(eng, lv, old):
    f = lambda leaf: leaf_of(eng, old, leaf)
    n = old.l[0] - 1
    w = eng.fresh('kept', IA)
    eng.assume(w == z3.Store(eng.getk(KEPT).l[0], Gn(sel(f('[].length'), n), sel(f('[].index'), n)), z3.IntVal(-1)))
    ghost_write(eng, KEPT, w)
    a = f('[].members')
    eng.assume(z3.And(Sum(a, n + 1) == Sum(a, n) + sel(a, n), Sum(a, z3.IntVal(0)) == 0))


def kept_moved(eng, lv, to, fr, ln):
    w0 = eng.getk(KEPT).l[0]
    w = eng.fresh('kept', IA)
    e, = q('e')
    eng.assume(forall(e, sel(w, e) == z3.If(sel(w0, e) >= 0, sel(to, sel(w0, e)), sel(w0, e)), sel(w, e)))
    ghost_write(eng, KEPT, w)
    old, new = [leaf_of(eng, v, '[].members') for v in eng.permuted]
    eng.assume(Sum(new, ln) == Sum(old, ln))


@contract
class InterLevel(Contract):
    key = 'LocalLengthGroupSpace::interLevelKSim'
    props = ('C09',)
    params = ('query', 'warpedDistance', 'bestSoFar', 'k')
    lemmas = ('MulFacts', 'Sums')
    assumes = GROUP_ASSUMES
    on_push, on_pop, on_permute = staticmethod(kept_push), staticmethod(kept_pop), staticmethod(kept_moved)

    def dist(self, c, k):
        v = View(c)
        return Dist(c.old('warpedDistance'), v.A, v.win(*v.rep(k)), v.L, *query(c.old))

    def relation(self, c, K, upto):
        """the kept groups against those at entry and the first groups of this length"""
        v, O = View(c), Kept(c.old, c.old('k'))
        l, i = q('l', 'i')
        now, then, own = K.at(l, i), O.at(l, i), K.at(v.L, i)
        other = l != v.L
        return [('earlier groups keep their entries', forall([l, i], Imp(z3.And(other, now >= 0), z3.And(then >= 0, K.el('dist', now) == O.el('dist', then), K.el('members', now) == O.el('members', then))), Gn(l, i))),
                ('earlier groups dropped are no nearer', forall([l, i], Imp(z3.And(other, then >= 0, now < 0), z3.And(K.k <= 0, K.el('dist', 0) <= O.el('dist', then))), Gn(l, i))),
                ('groups kept with distance and size', forall(i, Imp(z3.And(between(0, i, upto), own >= 0), z3.And(K.el('dist', own) == self.dist(c, i), K.el('members', own) == v.f(i, 'count'))), Gn(v.L, i))),
                ('groups left out are no nearer', forall(i, Imp(z3.And(between(0, i, upto), own < 0), z3.And(K.k <= 0, K.el('dist', 0) <= self.dist(c, i))), Gn(v.L, i))),
                ('only groups looked at are kept', forall(i, Imp(z3.Not(between(0, i, upto)), own < 0), Gn(v.L, i))),
                ('the furthest only gets nearer', Imp(O.k <= 0, z3.And(K.k <= 0, K.el('dist', 0) <= O.el('dist', 0)))),
                ('members counted', K.sum() == O.sum())]

    def outer(self, c):
        K, v, i = Kept(c, c('k')), View(c), c('i')
        return [('counter', z3.And(0 <= i, i <= v.ng))] + K.ok() + [K.needed()] + self.relation(c, K, i)

    def inner(self, c):
        K, v, i = Kept(c, c('k')), View(c), c('i')
        return [('counter', z3.And(0 <= i, i < v.ng)), ('full', K.k <= 0)] + K.ok() + self.relation(c, K, i + 1)

    def here(self, c):
        v = View(c)
        i = c('i')
        return [MarkG(i) == 0, named_term(Gn(v.L, i)), ('where the representative lies', Imp(between(0, i, v.ng), z3.And(v.f(i, 'centroid', '.data.off') + v.f(i, 'centroid', '.start') == v.win(*v.rep(i)), v.f(i, 'centroid', '.data.blk') == v.blk, v.f(i, 'centroid', '.length') == v.L)))]

    @property
    def loops(self):
        pops = Loop(self.inner, decreases=lambda c: c('bestSoFar.len'))
        return {0: Loop(self.outer, decreases=lambda c: c('self.groups.len') - c('i'), hints=self.here), 1: pops, 2: pops}

    def requires(self, c):
        v, K = View(c), Kept(c, c('k'))
        i, = q('i')
        return [('dataset well formed', ds_ok(c, 'self.dataset')), v.shape(), v.objects(), v.reps(v.fits), ('query well formed', ts_ok(c, 'query')), ('shared dummy alignment is not empty', c('gNoMatching.len') > 0), ('band ratio is not negative', c.glob('warpingBandRatio') >= 0),
                ('distance defined for these lengths', z3.Not(DistThrows(c('warpedDistance'), v.L, c('query.length'))))] + K.ok() + [K.needed(),
                ('no group of this length yet', forall(i, K.at(v.L, i) < 0, Gn(v.L, i))), ('at least one asked for', K.sum() >= 1)]

    def facts(self, eng):
        c = eng.ctx()
        return win_facts(c('self.dataset.data.off'), c('self.dataset.maxCol')) + group_numbers()

    def modifies(self, c):
        return [c.lv('bestSoFar'), ('key', KEPT)]

    def ensures(self, c):
        K, v = Kept(c, c('res')), View(c)
        return K.ok() + [K.needed()] + self.relation(c, K, v.ng)


# where each window is in the result, by the window's number: -1 when it is not there
GHOST_VARS['place'] = Ty('heap', INT)
PLACE = ('gg', 'place')


def nothing_kept(eng):
    for k in (KEPT, PLACE):
        ghost_write(eng, k, z3.K(I, z3.IntVal(-1)))


def same_lv(eng, lv, name):
    x = eng.roots(name)
    return isinstance(x, LV) and x.same(lv)


@contract
class SpaceKBest(Contract):
    key = 'GlobalGroupSpace::getKBestMatches'
    props = ('C09',)
    params = ('query', 'k')
    lemmas = ('MulFacts', 'Slots', 'Sums')
    assumes = GROUP_ASSUMES
    allocates = True

    # ghost state ---------------------------------------------------------------------------------
    @staticmethod
    def on_push(eng, lv, old):
        if same_lv(eng, lv, 'best'):
            nv, n = eng.read(lv), old.l[0]
            f = lambda leaf: sel(leaf_of(eng, nv, '[].data.' + leaf), n)
            w = eng.fresh('place', IA)
            eng.assume(w == z3.Store(eng.getk(PLACE).l[0], Wn(f('index'), f('length'), f('start')), n))
            ghost_write(eng, PLACE, w)

    @staticmethod
    def on_insert(eng, lv, old):
        """all members of the current group, the last one added first"""
        c = eng.ctx()
        eng.hint(SpaceKBest().added(c))
        l, g = c('g.length'), c('g.index')
        v = Spaces(c).at(l)
        e, = q('e')
        i, s = Wi(e), Ws(e)
        w0, w = eng.getk(PLACE).l[0], eng.fresh('place', IA)
        new = z3.And(Wl(e) == l, v.fits(i, s), sel(v.gi, v.slot(i, s)) == g)
        eng.assume(forall(e, z3.And(MarkW(i, s) == 0, sel(w, e) == z3.If(new, old.l[0] + v.f(g, 'count') - 1 - sel(v.pos, v.slot(i, s)), sel(w0, e))), sel(w, e)))
        ghost_write(eng, PLACE, w)
        m = c('bestSoFar[].members')
        eng.assume(Sum(m, c('i') + 1) == Sum(m, c('i')) + sel(m, c('i')))

    @staticmethod
    def on_erase(eng, lv, old):
        a, b = [leaf_of(eng, v, '[].members') for v in (old, eng.read(lv))]
        n = old.l[0]
        eng.assume(Sum(b, n - 1) == Sum(a, n) - sel(a, z3.IntVal(0)))

    # vocabulary ----------------------------------------------------------------------------------
    def setting(self, c):
        return Spaces(c), query(c.old), c.old('self.warpedDistance')

    def there(self, c, l):
        """a length the search looks at"""
        S, Q, f = self.setting(c)
        return z3.And(S.some(l), visited(c.old, Q, l))

    def near(self, c, l, i):
        S, Q, f = self.setting(c)
        return S.rep_dist(f, l, i, Q)

    def group_of(self, c, i, l, s):
        v = Spaces(c).at(l)
        return sel(v.gi, v.slot(i, s))

    def entry(self, c, p='best'):
        el = lambda x, j: sel(c(p + '[].' + x), j)
        return el, lambda j: (el('data.index', j), el('data.length', j), el('data.start', j))

    def exact(self, c, i, l, s):
        S, Q, f = self.setting(c)
        return Dist(f, *Q, S.A, Win(S.off, S.M, i, s), l)

    # loop 0: all lengths --------------------------------------------------------------------------
    def choose(self, c):
        S, K = Spaces(c), Kept(c, c('kPrime'))
        io, o, n = c('io'), c('order[]'), c('order.len')
        l, i, m = q('l', 'i', 'm')
        at, L = K.at(l, i), sel(o, m)
        return [('counter', z3.And(0 <= io, io <= n))] + K.ok() + [K.needed(), ('members counted', K.sum() == c.old('k')),
                ('kept groups', forall([l, i], Imp(at >= 0, z3.And(self.there(c, l), between(0, i, S.at(l).ng), K.el('dist', at) == self.near(c, l, i), K.el('members', at) == S.at(l).f(i, 'count'))), Gn(l, i))),
                ('lengths to come', forall([m, i], Imp(z3.And(io <= m, m < n), K.at(L, i) < 0), [L, Gn(L, i)])),
                ('groups left out are no nearer', forall([m, i], Imp(z3.And(between(0, m, io), S.some(L), between(0, i, S.at(L).ng), K.at(L, i) < 0), z3.And(K.k <= 0, K.el('dist', 0) <= self.near(c, L, i))), [L, Gn(L, i)]))]

    def chosen(self, c):
        S, K = Spaces(c), Kept(c, c('kPrime'))
        l, i = q('l', 'i')
        return [MarkL(K.el('length', 0)) == 0, MarkG(K.el('index', 0)) == 0, named_term(K.el('dist', 0)), named_term(Gn(K.el('length', 0), K.el('index', 0))), named_term(S.at(K.el('length', 0)).g(K.el('index', 0))), Sum(K.arr, z3.IntVal(0)) == 0,
                ('the furthest group', Imp(K.n >= 1, self.is_group(c, K.el('length', 0), K.el('index', 0), K, 0))),
                ('no group left out is nearer', forall([l, i], Imp(z3.And(self.there(c, l), between(0, i, S.at(l).ng), K.at(l, i) < 0), z3.And(K.k <= 0, K.el('dist', 0) <= self.near(c, l, i))), Gn(l, i)))]

    def is_group(self, c, l, i, K, at):
        v = Spaces(c).at(l)
        return z3.And(K.at(l, i) == at, self.there(c, l), between(0, i, v.ng), K.el('members', at if isinstance(at, int) else at - 1) == v.f(i, 'count'), sel(c.alive('Group'), v.g(i)), v.g(i) > 0, v.f(i, 'groupIndex') == i, v.f(i, 'memberLength') == l, v.f(i, 'subTimeSeriesCount') == v.sub,
                      K.el('dist', at if isinstance(at, int) else at - 1) == self.near(c, l, i))

    # loop 1: members of the furthest group ----------------------------------------------------------
    def windows(self, c):
        el, w = self.entry(c)
        i, l, s = q('i', 'l', 's')
        at = sel(c('place'), Wn(i, l, s))
        return ('windows are where recorded', forall([i, l, s], z3.And(at >= -1, Imp(at >= 0, z3.And(at < c('best.len'), *[x == y for x, y in zip(w(at), (i, l, s))]))), Wn(i, l, s)))

    def copies(self, c, frm, pre, leaves):
        j, = q('j')
        el, w = self.entry(c, frm)
        src = lambda x: sel(c(pre + x), j)
        return forall(j, Imp(between(0, j, c(frm + '.len')), z3.And(*[el('data.' + x, j) == src(x) for x in leaves])), el('data.index', j), src('index'))

    LEAVES = ('index', 'start', 'length', 'end', 'data.blk', 'data.off', 'isOwnerOfData')

    def first(self, c):
        n, i = c('intraResults.len'), c('i')
        j, = q('j')
        el, w = self.entry(c)
        return [('counter', z3.And(0 <= i, i <= n, c('best.len') == i)), ('entries copied', self.copies(c, 'best', 'intraResults[].data.', self.LEAVES)),
                ('distances copied', forall(j, Imp(between(0, j, i), el('dist', j) == sel(c('intraResults[].dist'), j)), el('data.index', j))),
                ('entries recorded', forall(j, Imp(between(0, j, i), sel(c('place'), Wn(*w(j))) == j), el('data.index', j))), self.windows(c)]

    # loop 2: the nearer groups -----------------------------------------------------------------------
    def rest(self, c):
        """what the choice of groups says once the furthest is taken off"""
        S, K = Spaces(c), Kept(c, c('kPrime'))
        l, i, a, b, j = q('l', 'i', 'a', 'b', 'j')
        at, o = K.at(l, i), K.at(a, b)
        group = z3.And(self.there(c, l), between(0, i, S.at(l).ng))
        return [('the other groups', z3.And(K.n >= 0, forall(j, Imp(between(0, j, K.n), z3.And(K.at(K.el('length', j), K.el('index', j)) == j + 1, K.el('members', j) == S.at(K.el('length', j)).f(K.el('index', j), 'count'))), K.el('dist', j)))),
                ('kept groups', forall([l, i], Imp(at >= 0, z3.And(group, at <= K.n)), Gn(l, i))),
                ('the other groups where recorded', forall([l, i], Imp(at >= 1, z3.And(K.el('length', at - 1) == l, K.el('index', at - 1) == i)), Gn(l, i))),
                ('all kept unless full', forall([l, i], Imp(z3.And(group, at < 0), K.k <= 0), Gn(l, i))),
                ('kept groups are no further than those left out', forall([l, i, a, b], Imp(z3.And(group, at < 0, o >= 0), self.near(c, a, b) <= self.near(c, l, i)), [Gn(l, i), Gn(a, b)])),
                ('the furthest', forall([l, i, a, b], Imp(z3.And(at == 0, K.k <= 0, o >= 0), self.near(c, a, b) <= self.near(c, l, i)), [Gn(l, i), Gn(a, b)]))]

    def gathered(self, c, upto):
        S, K = Spaces(c), Kept(c, c('kPrime'))
        el, w = self.entry(c)
        j, i, l, s = q('j', 'i', 'l', 's')
        g = lambda *w: K.at(w[1], self.group_of(c, *w))
        at = sel(c('place'), Wn(i, l, s))
        fits = z3.And(self.there(c, l), S.at(l).fits(i, s))
        h = c.old('k')
        return [('number of entries', c('best.len') == z3.If(K.k <= 0, h, h - K.k) - Sum(K.arr, K.n) + Sum(K.arr, upto)),
                ('entries are windows', forall(j, Imp(between(0, j, c('best.len')), z3.And(self.there(c, el('data.length', j)), S.at(el('data.length', j)).fits(el('data.index', j), el('data.start', j)), el('data.end', j) == el('data.start', j) + el('data.length', j),
                        el('data.data.blk', j) == S.blk, el('data.data.off', j) == S.off + mul(el('data.index', j), S.M), z3.Not(el('data.isOwnerOfData', j)))), el('data.index', j))),
                ('entries are recorded', forall(j, Imp(between(0, j, c('best.len')), z3.And(sel(c('place'), Wn(*w(j))) == j, 0 <= g(*w(j)), g(*w(j)) <= upto)), el('data.index', j))),
                self.windows(c),
                ('all members of the groups passed', forall([i, l, s], Imp(z3.And(fits, 1 <= g(i, l, s), g(i, l, s) <= upto), at >= 0), Wn(i, l, s))),
                ('members of the furthest group', forall([i, l, s], Imp(z3.And(fits, g(i, l, s) == 0, at < 0), z3.And(K.k <= 0)), Wn(i, l, s))),
                ('the nearest members of the furthest group', forall([i, l, s, j], Imp(z3.And(fits, g(i, l, s) == 0, at < 0, between(0, j, c('best.len')), g(*w(j)) == 0), self.exact(c, *w(j)) <= self.exact(c, i, l, s)), [Wn(i, l, s), el('data.index', j)]))]

    def others(self, c):
        i = c('i')
        return [('counter', z3.And(0 <= i, i <= c('bestSoFar.len')))] + self.gathered(c, i)

    def other_here(self, c):
        i, S, K = c('i'), Spaces(c), Kept(c, c('kPrime'))
        l, g = K.el('length', i), K.el('index', i)
        return [MarkL(l) == 0, MarkG(g) == 0, named_term(Gn(l, g)), named_term(K.el('dist', i)), named_term(S.at(l).g(g)), ('the group', Imp(between(0, i, K.n), self.is_group(c, l, g, K, i + 1)))]

    def all_members(self, c, arr, shift):
        """every member of the current group is in the array"""
        g = c('g.length'), c('g.index')
        i, s = q('i', 's')
        v = Spaces(c).at(g[0])
        e = v.slot(i, s)
        back = v.f(g[1], 'count') - 1 - sel(v.pos, e)
        return forall([i, s], Imp(z3.And(MarkW(i, s) == 0, v.fits(i, s), sel(v.gi, e) == g[1]), z3.And(0 <= back, back < c('members.len'), *[sel(c(arr + x), shift + back) == y for x, y in (('index', i), ('length', g[0]), ('start', s))])), MarkW(i, s))

    def added(self, c):
        return [('the members are added', self.all_members(c, 'best[].data.', c('best.len') - c('members.len')))]

    # loop 3 ------------------------------------------------------------------------------------------
    def bounds(self, c):
        i = c('i')
        return [('counter', z3.And(0 <= i, i <= c('members.len'), c('withBounds.len') == i)), ('members copied', self.copies(c, 'withBounds', 'members[].', self.LEAVES))]

    def member_here(self, c):
        i = c('i')
        m = lambda x: sel(c('members[].' + x), i)
        return [named_term(m('index')), ('the member does not own its points', Imp(between(0, i, c('members.len')), z3.Not(m('isOwnerOfData'))))]

    # loop 4 ------------------------------------------------------------------------------------------
    def measured(self, c):
        i = c('i')
        j, = q('j')
        el, w = self.entry(c)
        return [('counter', z3.And(0 <= i, i <= c('best.len'))), ('exact distances', forall(j, Imp(between(0, j, i), el('dist', j) == self.exact(c, *w(j))), el('dist', j)))]

    def entry_here(self, c):
        i, S = c('i'), Spaces(c)
        el, w = self.entry(c)
        b = c('query.data.blk')
        return [named_term(el('data.index', i)), MarkL(el('data.length', i)) == 0, ('data untouched', z3.And(sel(c.mem(), b) == sel(c.old.mem(), b), sel(c.mem(), S.blk) == sel(c.old.mem(), S.blk))),
                ('the entry lies in the data', Imp(between(0, i, c('best.len')), z3.And(0 <= el('data.index', i), el('data.index', i) < S.n, el('data.start', i) >= 0, el('data.length', i) >= 1, el('data.start', i) + el('data.length', i) <= S.M,
                    el('data.data.blk', i) == S.blk, el('data.data.off', i) + el('data.start', i) == Win(S.off, S.M, el('data.index', i), el('data.start', i)))))]

    def measured_here(self, c):
        el, w = self.entry(c)
        i = c('i')
        return [('the entry is measured', el('dist', i) == self.exact(c, *w(i)))]

    def taken(self, c):
        S, g = Spaces(c), (c('g.length'), c('g.index'))
        el, w = self.entry(c)
        j, i, s = q('j', 'i', 's')
        v = S.at(g[0])
        at = sel(c('place'), Wn(i, g[0], s))
        out = z3.And(v.fits(i, s), sel(v.gi, v.slot(i, s)) == g[1], at < 0)
        return [('no member left out is nearer', forall([i, s, j], Imp(z3.And(out, between(0, j, c('best.len'))), self.exact(c, *w(j)) <= self.exact(c, i, g[0], s)), [Wn(i, g[0], s), el('data.index', j)])),
                ('all members unless full', forall([i, s], Imp(out, c('kPrime') <= 0), Wn(i, g[0], s)))]

    @property
    def loops(self):
        return {0: Loop(self.choose, decreases=lambda c: c('order.len') - c('io'), ghost_init=nothing_kept, entry_hints=lambda c: [Sum(c('bestSoFar[].members'), z3.IntVal(0)) == 0], hints=lambda c: [MarkL(sel(c('order[]'), c('io'))) == 0], exit_hints=self.chosen),
                1: Loop(self.first, decreases=lambda c: c('intraResults.len') - c('i'), exit_hints=self.taken),
                2: Loop(self.others, decreases=lambda c: c('bestSoFar.len') - c('i'), entry_hints=lambda c: self.rest(c) + [Sum(c('bestSoFar[].members'), z3.IntVal(0)) == 0], hints=self.other_here),
                3: Loop(self.bounds, decreases=lambda c: c('members.len') - c('i'), hints=self.member_here, entry_hints=lambda c: [('the members of the group', self.all_members(c, 'members[].', 0))], exit_hints=lambda c: [('the members copied', self.all_members(c, 'withBounds[].data.', 0))]),
                4: Loop(self.measured, decreases=lambda c: c('best.len') - c('i'), hints=self.entry_here, end_hints=self.measured_here)}

    def requires(self, c):
        S, f = Spaces(c), c('self.warpedDistance')
        l, n = q('l', 'n')
        return [('dataset well formed', ds_ok(c, 'self.dataset'))] + S.ok() + [
            ('query well formed', z3.And(ts_ok(c, 'query'), c('query.length') >= 1)), ('shared dummy alignment is not empty', c('gNoMatching.len') > 0), ('band ratio is not negative', c.glob('warpingBandRatio') >= 0),
            ('grouped', S.len >= 1), ('at least one asked for', c('k') >= 1),
            ('distance defined for all lengths', forall([l, n], Imp(z3.And(l >= 1, n >= 1), z3.Not(DistThrows(f, l, n))), DistThrows(f, l, n)))]

    def facts(self, eng):
        c = eng.ctx()
        S = Spaces(c)
        i, s, m = q('i', 's', 'm')
        a = Sl(m, i, s)
        ra = c.glob('warpingBandRatio')
        return win_facts(S.off, S.M) + [forall([m, i, s], a == mul(i, m) + s, a)] + order.gap_facts(ra) + [order.Gap(ra, c('query.length')) == c('query.length') - order.band_of(ra, c('query.length'))] + group_numbers() + number_facts()

    def modifies(self, c):
        return [('global', 'extraTimeSeries'), ('key', KEPT), ('key', PLACE)]

    def ensures(self, c):
        S = Spaces(c.old)
        el, w = self.entry(c, 'res')
        j, i, l, s = q('j', 'i', 'l', 's')
        n, h = c('res.len'), c.old('k')
        at = sel(c('place'), Wn(i, l, s))
        o = c.old
        fits = z3.And(MarkL(l) == 0, self.there(o, l), S.at(l).fits(i, s))
        near = lambda i, l, s: self.near(o, l, self.group_of(o, i, l, s))
        out = z3.And(fits, at < 0, between(0, j, n))
        return [('at most as many as asked for', n <= h),
                ('entries are windows', forall(j, Imp(between(0, j, n), z3.And(self.there(o, el('data.length', j)), S.at(el('data.length', j)).fits(el('data.index', j), el('data.start', j)), el('data.end', j) == el('data.start', j) + el('data.length', j),
                        el('data.data.blk', j) == S.blk, el('data.data.off', j) == S.off + mul(el('data.index', j), S.M), z3.Not(el('data.isOwnerOfData', j)), sel(c('place'), Wn(*w(j))) == j)), el('dist', j))),
                ('with exact distances', forall(j, Imp(between(0, j, n), el('dist', j) == self.exact(o, *w(j))), el('dist', j))),
                ('windows are where recorded', forall([i, l, s], z3.And(at >= -1, Imp(at >= 0, z3.And(at < n, *[x == y for x, y in zip(w(at), (i, l, s))]))), Wn(i, l, s))),
                ('all windows when there are fewer than asked for', forall([i, l, s], Imp(z3.And(n < h, fits), at >= 0), Wn(i, l, s))),
                ('from the groups with the nearest representatives', forall([i, l, s, j], Imp(out, near(*w(j)) <= near(i, l, s)), [Wn(i, l, s), el('dist', j)])),
                ('the nearest members of their group', forall([i, l, s, j], Imp(z3.And(out, el('data.length', j) == l, self.group_of(o, *w(j)) == self.group_of(o, i, l, s)), el('dist', j) <= self.exact(o, i, l, s)), [Wn(i, l, s), el('dist', j)]))]


# the windows examined, in the order of their distances, and how many there are
GHOST_VARS['examined'], GHOST_VARS['candidates'] = INT, Ty('heap', INT)
EXAMINED, CANDIDATES = ('gg', 'examined'), ('gg', 'candidates')


def within(c, **names):
    """c as the group space of the data set sees it"""
    ref = c.old('self.groupsAllLengthSet')

    def roots(n):
        return LV(('obj', 'GlobalGroupSpace', ref), [], Ty('rec', 'GlobalGroupSpace')) if n == 'self' else c.roots(names.get(n, n))
    return Ctx(c.eng, c.st, roots, c.res, c._old)


class OnGroups(Contract):
    """what a grouped data set hands on to its group space"""
    names = {}
    assumes = GROUP_ASSUMES
    allocates = True

    def grouped(self, c):
        return c.old('self.groupsAllLengthSet') != 0

    def requires(self, c):
        g = self.grouped(c)
        return [('group space exists', Imp(g, sel(c.alive('GlobalGroupSpace'), c('self.groupsAllLengthSet'))))] + [(n, Imp(z3.And(g, self.asked(c)), f)) for n, f in self.of().requires(within(c, **self.names))]

    def asked(self, c):
        return z3.BoolVal(True)

    def facts(self, eng):
        return self.of().facts(within_engine(eng, self.names))

    def modifies(self, c):
        return self.of().modifies(within(c, **self.names))


class within_engine:
    """an engine whose context is that of the group space"""

    def __init__(self, eng, names):
        self.eng, self.names = eng, names

    def ctx(self):
        return within(self.eng.ctx(), **self.names)


@contract
class SetBestMatch(OnGroups):
    key = 'GroupableTimeSeriesSet::getBestMatch'
    props = ('C08',)
    params = ('query',)
    lemmas = SpaceBestMatch.lemmas
    of = SpaceBestMatch

    def throws(self, c):
        return z3.Or(z3.Not(self.grouped(c)), SpaceBestMatch().throws(within(c)))

    def ensures(self, c):
        return SpaceBestMatch().ensures(within(c))


@contract
class SetKBest(OnGroups):
    key = 'GroupableTimeSeriesSet::getKBestMatches'
    props = ('C09',)
    params = ('query', 'k', 'h')
    lemmas = SpaceKBest.lemmas
    of = SpaceKBest
    names = {'k': 'h'}

    @staticmethod
    def on_permute(eng, lv, to, fr, ln):
        ov, nv = eng.permuted
        old, new = [leaf_of(eng, v, '[].dist') for v in (ov, nv)]
        e, j = q('e', 'j')
        w0, w, l = eng.getk(PLACE).l[0], eng.fresh('place', IA), eng.fresh('candidates', IA)
        f = lambda leaf: sel(leaf_of(eng, nv, '[].data.' + leaf), j)
        eng.assume(forall(e, sel(w, e) == z3.If(sel(w0, e) >= 0, sel(to, sel(w0, e)), -1), sel(w, e)))
        eng.assume(forall(e, z3.And(named_term(sel(old, sel(w0, e))), named_term(sel(new, sel(w, e)))), sel(w, e)))
        eng.assume(forall(j, z3.And(sel(l, j) == Wn(f('index'), f('length'), f('start')), named_term(sel(new, j))), sel(l, j)))
        ghost_write(eng, PLACE, w)
        ghost_write(eng, CANDIDATES, l)
        ghost_write(eng, EXAMINED, ln)

    def asked(self, c):
        return z3.And(c('k') >= 1, c('h') >= c('k'))

    def modifies(self, c):
        return super().modifies(c) + [('key', EXAMINED), ('key', CANDIDATES)]

    def throws(self, c):
        return z3.Not(z3.And(self.grouped(c), self.asked(c)))

    def ensures(self, c):
        K = SpaceKBest()
        o = within(c.old, **self.names)
        S = Spaces(o)
        el, w = K.entry(c, 'res')
        j, i, l, s, a, m, b = q('j', 'i', 'l', 's', 'a', 'm', 'b')
        n, k, h, x = c('res.len'), c.old('k'), c.old('h'), c('examined')
        at, o2 = sel(c('place'), Wn(i, l, s)), sel(c('place'), Wn(a, m, b))
        fits = z3.And(MarkL(l) == 0, K.there(o, l), S.at(l).fits(i, s))
        near = lambda i, l, s: K.near(o, l, K.group_of(o, i, l, s))
        e = sel(c('candidates'), j)
        return [('number of entries', z3.And(n == z3.If(x < k, x, k), x <= h)),
                ('entries are windows', forall(j, Imp(between(0, j, n), z3.And(K.there(o, el('data.length', j)), S.at(el('data.length', j)).fits(el('data.index', j), el('data.start', j)), el('data.end', j) == el('data.start', j) + el('data.length', j),
                        el('data.data.blk', j) == S.blk, el('data.data.off', j) == S.off + mul(el('data.index', j), S.M), sel(c('place'), Wn(*w(j))) == j)), el('dist', j))),
                ('with exact distances', forall(j, Imp(between(0, j, n), el('dist', j) == K.exact(o, *w(j))), el('dist', j))),
                ('in order of distance', forall([j, i], Imp(z3.And(0 <= j, j <= i, i < n), el('dist', j) <= el('dist', i)), [el('dist', j), el('dist', i)])),
                ('windows examined', forall(j, Imp(between(0, j, x), z3.And(sel(c('place'), e) == j, Wn(Wi(e), Wl(e), Ws(e)) == e, K.there(o, Wl(e)), S.at(Wl(e)).fits(Wi(e), Ws(e)))), e)),
                ('no others', forall([i, l, s], z3.And(at >= -1, at < x), Wn(i, l, s))),
                ('different windows', forall([i, l, s, a, m, b], Imp(z3.And(at >= 0, at == o2), z3.And(i == a, l == m, s == b)), [Wn(i, l, s), Wn(a, m, b)])),
                ('all windows when there are fewer than the budget', forall([i, l, s], Imp(z3.And(x < h, fits), at >= 0), Wn(i, l, s))),
                ('no other window examined is closer', forall([i, l, s, j], Imp(z3.And(at >= n, between(0, j, n)), el('dist', j) <= K.exact(o, i, l, s)), [Wn(i, l, s), el('dist', j)])),
                ('from the groups with the nearest representatives', forall([i, l, s, a, m, b], Imp(z3.And(fits, at < 0, o2 >= 0), near(a, m, b) <= near(i, l, s)), [Wn(i, l, s), Wn(a, m, b)])),
                ('the nearest members of their group', forall([i, l, s, a, b], Imp(z3.And(fits, at < 0, sel(c('place'), Wn(a, l, b)) >= 0, K.group_of(o, a, l, b) == K.group_of(o, i, l, s)), K.exact(o, a, l, b) <= K.exact(o, i, l, s)), [Wn(i, l, s), Wn(a, l, b)]))]
