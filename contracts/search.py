"""Searches for the k best (C09, C10, C16)."""
from common import *
from groups import *
from cxxtypes import StrSort
import registry


@contract
class CandidateOrder(Contract):
    """a strict weak order that compares distances first, as the heap and sort functions need"""
    key = 'candidate_time_series_t::operator<'
    variant = 'own'
    props = ('C09', 'C10', 'C16')
    params = ('rhs',)

    def ensures(self, c):
        a, b = [[c(p + x) for x in ('.dist', '.data.index', '.data.start', '.data.length')] for p in ('self', 'rhs')]
        less = F
        for x, y in reversed(list(zip(a, b))):
            less = z3.Or(x < y, z3.And(x == y, less))
        return [('distances first, then series, start and length', c('res') == less)]


@contract
class GroupOrder(Contract):
    key = 'group_index_t::operator<'
    variant = 'own'
    props = ('C09',)
    params = ('rhs',)

    def ensures(self, c):
        return [('by distance', c('res') == (c('self.dist') < c('rhs.dist')))]


# where each candidate is kept: a ghost array over the candidates' numbers, -1 when not kept --------
def ghost_array(name):
    key = ('ghost', name)
    ty = Ty('heap', INT)

    def init(eng):
        eng.ghost[name] = (key, ty)
        eng.st.env[key] = Val(ty, [z3.K(I, z3.IntVal(-1))])
    return key, ty, init


WHERE, WHERE_TY, where_init = ghost_array('where')


def where_set(eng, new):
    w = eng.fresh('where', IA)
    e, = q('e')
    eng.assume(forall(e, sel(w, e) == new(eng.st.env[WHERE].l[0], e), sel(w, e)))
    for x in eng.wlog:
        x.append((WHERE, None))
    eng.st.env[WHERE] = Val(WHERE_TY, [w])


def moved(eng, lv, to, fr, ln):
    if WHERE in eng.st.env:
        where_set(eng, lambda w, e: z3.If(sel(w, e) >= 0, sel(to, sel(w, e)), sel(w, e)))


def where_put(eng, slot, at):
    w0 = eng.st.env[WHERE].l[0]
    w = eng.fresh('where', IA)
    eng.assume(w == z3.Store(w0, slot, at))
    for x in eng.wlog:
        x.append((WHERE, None))
    eng.st.env[WHERE] = Val(WHERE_TY, [w])


def ksim_inv(c):
    v, i, s, seen = walk(c)
    Q, f, k, k0 = query(c.old), c.old('warpedDistance'), c('k'), c.old('k')
    n, w = c('bestSoFar.len'), c('where')
    el = lambda x, j: sel(c('bestSoFar[].' + x), j)
    j, a, t = q('j', 'i', 's')
    at = sel(w, v.slot(a, t))
    passed = z3.If(i == -1, v.count, v.count - 1 - v.at(i, s))
    kept = lambda j: (el('data.index', j), el('data.start', j))
    return [walk_inv(c), ('as many as asked for', z3.And(0 <= k, n >= 0, n + k == k0, n <= passed, Imp(k > 0, n == passed))),
            ('kept candidates', forall(j, Imp(between(0, j, n), z3.And(seen(*kept(j)), sel(w, v.slot(*kept(j))) == j, el('dist', j) == v.dist(f, Q, *kept(j)), el('data.length', j) == v.L, el('data.end', j) == el('data.start', j) + v.L,
                                                                  el('data.data.blk', j) == v.blk, el('data.data.off', j) == v.off + mul(el('data.index', j), v.M), z3.Not(el('data.isOwnerOfData', j)))), el('dist', j))),
            ('kept where recorded', forall([a, t], Imp(z3.And(seen(a, t), at >= 0), z3.And(at < n, el('data.index', at) == a, el('data.start', at) == t)), v.slot(a, t))),
            ('all kept until full', forall([a, t], Imp(z3.And(seen(a, t), at < 0), k == 0), v.slot(a, t))),
            ('not closer when not kept', forall([a, t], Imp(z3.And(seen(a, t), at < 0), el('dist', 0) <= v.dist(f, Q, a, t)), v.slot(a, t))),
            ('only passed ones are kept', forall([a, t], Imp(z3.And(v.has(a, t), z3.Not(seen(a, t))), at == -1), v.slot(a, t))),
            ('first is the furthest once full', Imp(k == 0, z3.And(c.heap('bestSoFar'), forall(j, Imp(between(0, j, n), el('dist', j) <= el('dist', 0)), el('dist', j)))))]


@contract
class IntraGroup(Contract):
    key = 'Group::intraGroupKSim'
    props = ('C09',)
    params = ('query', 'k', 'warpedDistance')
    lemmas = ('MulFacts', 'Slots')
    assumes = GROUP_ASSUMES
    allocates = True
    on_permute = staticmethod(moved)

    @staticmethod
    def on_push(eng, lv, old):
        if WHERE in eng.st.env:
            c = eng.ctx()
            where_put(eng, Sl(c('self.subTimeSeriesCount'), *cur(c)), old.l[0])

    @staticmethod
    def on_pop(eng, lv, old):
        if WHERE in eng.st.env:
            c = eng.ctx()
            el = eng.elem(old, old.l[0] - 1)
            leaf = dict(zip([s for s, _ in eng.types.leaves(el.ty)], el.l))
            where_put(eng, Sl(c('self.subTimeSeriesCount'), leaf['.data.index'], leaf['.data.start']), z3.IntVal(-1))

    loops = {0: Loop(ksim_inv, decreases=walk_measure, hints=walk_hints, ghost_init=where_init)}

    def requires(self, c):
        v, Q, f = One(c), query(c), c('warpedDistance')
        return [('dataset well formed', ds_ok(c, 'self.dataset'))] + v.ok() + [
            ('at least one asked for', c('k') >= 1),
            ('query well formed', ts_ok(c, 'query')), ('shared dummy alignment is not empty', c('gNoMatching.len') > 0), ('band ratio is not negative', c.glob('warpingBandRatio') >= 0), ('distance defined for these lengths', z3.Not(DistThrows(f, Q[2], v.L)))]

    def facts(self, eng):
        return One(eng.ctx()).facts()

    def modifies(self, c):
        return [('global', 'extraTimeSeries')]

    def ensures(self, c):
        v, Q, f = One(c.old), query(c.old), c.old('warpedDistance')
        j, m, a, t = q('j', 'm', 'i', 's')
        n, k = c('res.len'), c.old('k')
        el = lambda x, j: sel(c('res[].' + x), j)
        w = lambda j: (el('data.index', j), el('data.start', j))
        return [('as many as there are, at most k', n == z3.If(v.count < k, v.count, k)),
                ('members with exact distances', forall(j, Imp(between(0, j, n), z3.And(v.has(*w(j)), el('dist', j) == v.dist(f, Q, *w(j)), el('data.length', j) == v.L, el('data.end', j) == el('data.start', j) + v.L, el('data.data.blk', j) == v.blk, el('data.data.off', j) == v.off + mul(el('data.index', j), v.M), z3.Not(el('data.isOwnerOfData', j)))), el('dist', j))),
                ('all of them when there are no more than k', forall([a, t], Imp(z3.And(v.has(a, t), n < k), z3.Exists([m], z3.And(0 <= m, m < n, el('data.index', m) == a, el('data.start', m) == t))), v.slot(a, t))),
                ('each once', forall([j, m], Imp(z3.And(0 <= j, j < m, m < n), z3.Or(el('data.index', j) != el('data.index', m), el('data.start', j) != el('data.start', m))), [el('dist', j), el('dist', m)])),
                ('none left out is closer', forall([a, t, j], Imp(z3.And(v.has(a, t), between(0, j, n)), z3.Or(el('dist', j) <= v.dist(f, Q, a, t), z3.Exists([m], z3.And(0 <= m, m < n, el('data.index', m) == a, el('data.start', m) == t)))), [v.slot(a, t), el('dist', j)]))]


# searches over all windows ---------------------------------------------------------------------
# a window's number; Wi, Wl, Ws give back its series, length and start
Wn, Wi, Wl, Ws = z3.Function('Wn', I, I, I, I), z3.Function('Wi', I, I), z3.Function('Wl', I, I), z3.Function('Ws', I, I)
DistOf = z3.Function('DistOf', StrSort, I)      # the distance of that name


def number_facts():
    i, l, s = q('i', 'l', 's')
    w = Wn(i, l, s)
    return [forall([i, l, s], z3.And(Wi(w) == i, Wl(w) == l, Ws(w) == s), w)]


def named(c):
    return strcat(c.old('distanceName'), c.eng.string('_dtw'))


def dtw_facts(eng):
    """the distances by name; those for warping refuse empty series only, as their contracts say"""
    a, b = q('a', 'b')
    out = []
    for (n, f), (t, _) in zip(registry.table(eng), registry.TABLE):
        out.append(DistOf(n) == f)
        if t.endswith('_dtw'):
            out.append(forall([a, b], DistThrows(f, a, b) == z3.Or(a == 0, b == 0), DistThrows(f, a, b)))
    # a name that ends in _dtw is no name of a pairwise distance
    s = z3.Const('s!q', StrSort)
    cat = strcat(s, eng.string('_dtw'))
    return out + [z3.ForAll([s], z3.And(*[cat != n for (n, f), (t, _) in zip(registry.table(eng), registry.TABLE) if not t.endswith('_dtw')]), patterns=[cat])]


class Exhaustive(Contract):
    """every window of at least two points is looked at once, the k nearest are kept"""
    allocates = True
    lemmas = ('MulFacts',)
    on_permute = staticmethod(moved)
    data = 'self'

    @staticmethod
    def on_push(eng, lv, old):
        if WHERE in eng.st.env:
            c = eng.ctx()
            where_put(eng, Wn(c('idx'), c('intervalLength'), c('start')), old.l[0])

    @staticmethod
    def on_pop(eng, lv, old):
        if WHERE in eng.st.env:
            el = eng.elem(old, old.l[0] - 1)
            leaf = dict(zip([s for s, _ in eng.types.leaves(el.ty)], el.l))
            where_put(eng, Wn(leaf['.data.index'], leaf['.data.length'], leaf['.data.start']), z3.IntVal(-1))

    def fits(self, c, i, l, s):
        return z3.And(0 <= i, i < c.old(self.data + '.itemCount'), l >= 2, 0 <= s, s + l <= sel(c.old(self.data + '.lengths[]'), i))

    def inv(self, level):
        def inv(c):
            d, k, k0, n, w = self.data, c('k'), c.old('k'), c('bestSoFar.len'), c('where')
            i, l, s, j = q('i', 'l', 's', 'j')
            el = lambda x, j: sel(c('bestSoFar[].' + x), j)
            at = sel(w, Wn(i, l, s))
            kept = lambda j: (el('data.index', j), el('data.length', j), el('data.start', j))
            rows = c(d + '.itemCount')
            L = sel(c(d + '.lengths[]'), c('idx'))
            pos = [0 <= c('idx'), c('idx') <= rows]
            before = i < c('idx')
            if level > 0:
                pos += [c('idx') < rows, 2 <= c('intervalLength'), z3.Or(c('intervalLength') <= L + 1, c('intervalLength') == 2)]
                before = z3.Or(before, z3.And(i == c('idx'), l < c('intervalLength')))
            if level > 1:
                pos += [c('intervalLength') <= L, 0 <= c('start'), c('start') <= L - c('intervalLength') + 1]
                before = z3.Or(before, z3.And(i == c('idx'), l == c('intervalLength'), s < c('start')))
            done = z3.And(self.fits(c, i, l, s), before)
            sub = lambda t, *x: z3.substitute(t, *zip((i, l, s), x))
            exact = z3.And(el('dist', j) == self.dist(c, *kept(j)), el('data.end', j) == el('data.start', j) + el('data.length', j),
                           el('data.data.blk', j) == c(d + '.data.blk'), el('data.data.off', j) == c(d + '.data.off') + mul(el('data.index', j), c(d + '.maxCol')))
            return self.more(c) + [
                ('position', z3.And(*pos)), ('as many as asked for', z3.And(0 <= k, n >= 0, n + k == k0)),
                ('kept windows are done', forall(j, Imp(between(0, j, n), z3.And(sub(done, *kept(j)), sel(w, Wn(*kept(j))) == j)), el('dist', j))),
                ('kept windows with exact distances', forall(j, Imp(between(0, j, n), exact), el('dist', j))),
                ('kept where recorded', forall([i, l, s], Imp(z3.And(done, at >= 0), z3.And(at < n, el('data.index', at) == i, el('data.length', at) == l, el('data.start', at) == s)), Wn(i, l, s))),
                ('all kept until full', forall([i, l, s], Imp(z3.And(done, at < 0), k == 0), Wn(i, l, s))),
                ('not closer when not kept', forall([i, l, s], Imp(z3.And(done, at < 0), el('dist', 0) <= self.dist(c, i, l, s)), Wn(i, l, s))),
                ('only windows done are kept', forall([i, l, s], Imp(z3.And(self.fits(c, i, l, s), z3.Not(before)), at == -1), Wn(i, l, s))),
                ('an empty query has met no window', Imp(c.old('query.length') == 0, forall([i, l, s], z3.Not(done), Wn(i, l, s)))),
                ('first is the furthest once full', Imp(k == 0, z3.And(c.heap('bestSoFar'), forall(j, Imp(between(0, j, n), el('dist', j) <= el('dist', 0)), el('dist', j)))))]
        return inv

    def more(self, c):
        return []

    def here(self, c):
        w = Wn(c('idx'), c('intervalLength'), c('start'))
        return [w == w]

    @property
    def loops(self):
        rows, L = (lambda c: c(self.data + '.itemCount')), (lambda c: sel(c(self.data + '.lengths[]'), c('idx')))
        return {0: Loop(self.inv(0), decreases=lambda c: rows(c) - c('idx'), ghost_init=where_init),
                1: Loop(self.inv(1), decreases=lambda c: L(c) - c('intervalLength') + 2),
                2: Loop(self.inv(2), decreases=lambda c: L(c) - c('intervalLength') - c('start') + 1, hints=self.here)}

    def requires(self, c):
        return [('dataset well formed', ds_ok(c, self.data)), ('query well formed', ts_ok(c, 'query')), ('shared dummy alignment is not empty', c('gNoMatching.len') > 0),
                ('band ratio is not negative', c.glob('warpingBandRatio') >= 0), ('map of distances empty or filled', registry.registry_ok(c))]

    def facts(self, eng):
        c = eng.ctx()
        return number_facts() + dtw_facts(eng) + win_facts(c(self.data + '.data.off'), c(self.data + '.maxCol'))

    def modifies(self, c):
        return [('global', 'gAllDistanceMap')]

    def throws(self, c):
        i, l, s = q('i', 'l', 's')
        return z3.Or(c('k') <= 0, z3.Not(registry.known(c, named(c))), z3.And(c('query.length') == 0, z3.Exists([i, l, s], z3.And(Wn(i, l, s) == Wn(i, l, s), self.fits(c, i, l, s)))))

    def ensures(self, c):
        i, l, s, j, m = q('i', 'l', 's', 'j', 'm')
        d, n, k = self.data, c('res.len'), c.old('k')
        el = lambda x, j: sel(c('res[].' + x), j)
        kept = lambda j: (el('data.index', j), el('data.length', j), el('data.start', j))
        there = z3.Exists([m], z3.And(0 <= m, m < n, el('data.index', m) == i, el('data.length', m) == l, el('data.start', m) == s))
        return [('at most k', n <= k),
                ('existing windows', forall(j, Imp(between(0, j, n), z3.And(self.fits(c, *kept(j)), el('data.end', j) == el('data.start', j) + el('data.length', j), el('data.data.blk', j) == c.old(d + '.data.blk'),
                                                                            el('data.data.off', j) == c.old(d + '.data.off') + mul(el('data.index', j), c.old(d + '.maxCol')))), el('dist', j))),
                ('with exact distances', forall(j, Imp(between(0, j, n), el('dist', j) == self.dist(c, *kept(j))), el('dist', j))),
                ('nearest first', forall([j, m], Imp(z3.And(0 <= j, j <= m, m < n), el('dist', j) <= el('dist', m)), [el('dist', j), el('dist', m)])),
                ('each once', forall([j, m], Imp(z3.And(0 <= j, j < m, m < n), z3.Or(*[x != y for x, y in zip(kept(j), kept(m))])), [el('dist', j), el('dist', m)])),
                ('all of them when there are no more than k', forall([i, l, s], Imp(z3.And(self.fits(c, i, l, s), n < k), there), Wn(i, l, s))),
                ('none left out is closer', forall([i, l, s, j], Imp(z3.And(self.fits(c, i, l, s), between(0, j, n)), z3.Or(el('dist', j) <= self.dist(c, i, l, s), there)), [Wn(i, l, s), el('dist', j)]))]


@contract
class BruteForce(Exhaustive):
    key = 'TimeSeriesSet::getKBestMatchesBruteForce'
    props = ('C10',)
    params = ('query', 'k', 'distanceName')
    assumes = GROUP_ASSUMES

    def dist(self, c, i, l, s):
        o = c.old
        return Dist(DistOf(named(c)), *query(o), sel(o.mem(), o('self.data.blk')), Win(o('self.data.off'), o('self.maxCol'), i, s), l)

    def more(self, c):
        i, = q('i')
        return [('the distance of that name', c('warpedDistance') == DistOf(named(c))), ('a warped distance', z3.Or(*[DistOf(named(c)) == f for (n, f), (t, _) in zip(registry.table(c.eng), registry.TABLE) if t.endswith('_dtw')]))]
