"""The circular queue and the envelope algorithm (C04)."""
from common import *
from series import *

# k-th element from the front of a queue stored in an array
Q = z3.Function('Q', IA, I, I, I, I)      # array, f, capacity, k


def wrap(x, cap):
    return z3.If(x < 0, x + cap, x)


def q_def(arr, f, cap, k):
    return Q(arr, f, cap, k) == sel(arr, wrap(f - 1 - k, cap))


def dq(c, p, k):
    return Q(sel(c.mem('int'), c(p + '.data.blk')), c(p + '.f'), c(p + '.capacity'), k)


def dq_ok(c, p):
    cap, f, r, n = c(p + '.capacity'), c(p + '.f'), c(p + '.r'), c(p + '.size')
    return z3.And(cap >= 1, 0 <= f, f < cap, 0 <= n, n <= cap, 0 <= r, r < cap,
                  r == wrap(wrap(f - 1 - n, cap), cap),
                  c(p + '.data.off') == 0, c(p + '.data.blk') > 0, sel(c.size('int'), c(p + '.data.blk')) == cap)


class Deque(Contract):
    props = ('C04',)

    def requires(self, c):
        return [('queue well formed', dq_ok(c, 'self'))] + self.pre(c)

    def pre(self, c):
        return []

    def facts(self, eng):
        a, = [z3.Const('a!q', IA)]
        f, cap, k = q('f', 'cap', 'k')
        return [forall([a, f, cap, k], q_def(a, f, cap, k), Q(a, f, cap, k))]


def fixed(c):
    return z3.And(c('self.capacity') == c.old('self.capacity'), c('self.data.blk') == c.old('self.data.blk'))


@contract
class DequeNew(Contract):
    key = 'deque::deque'
    props = ('C04',)
    params = ('capacity',)
    allocates = ('int',)

    def requires(self, c):
        return [('room for an element', c('capacity') >= 1)]

    def modifies(self, c):
        return [c.lv('self')]

    def ensures(self, c):
        return [('well formed', dq_ok(c, 'self')), ('empty', c('self.size') == 0), ('of the capacity asked for', c('self.capacity') == c('capacity')),
                ('has an array of its own', sel(c.old.size('int'), c('self.data.blk')) < 0)]


@contract
class PushBack(Deque):
    key = 'deque::push_back'
    params = ('v',)

    def pre(self, c):
        return [('queue not full', c('self.size') < c('self.capacity'))]

    def modifies(self, c):
        return [c.lv('self.r'), c.lv('self.size'), ('block', c('self.data.blk'), 'int')]

    def ensures(self, c):
        k, = q('k')
        return [('well formed', dq_ok(c, 'self')), ('one more', c('self.size') == c.old('self.size') + 1),
                ('the new one is last', dq(c, 'self', c.old('self.size')) == c('v')),
                ('the others stay', forall(k, Imp(between(0, k, c.old('self.size')), dq(c, 'self', k) == dq(c.old, 'self', k)), dq(c, 'self', k), dq(c.old, 'self', k)))]


@contract
class PopFront(Deque):
    key = 'deque::pop_front'

    def pre(self, c):
        return [('queue not empty', c('self.size') > 0)]

    def modifies(self, c):
        return [c.lv('self.f'), c.lv('self.size')]

    def ensures(self, c):
        k, = q('k')
        return [('well formed', dq_ok(c, 'self')), ('one less', c('self.size') == c.old('self.size') - 1),
                ('the others move up', z3.And(forall(k, Imp(between(0, k, c('self.size')), dq(c, 'self', k) == dq(c.old, 'self', k + 1)), dq(c, 'self', k)),
                                              forall(k, Imp(between(1, k, c.old('self.size')), dq(c, 'self', k - 1) == dq(c.old, 'self', k)), dq(c.old, 'self', k))))]


@contract
class PopBack(Deque):
    key = 'deque::pop_back'

    def pre(self, c):
        return [('queue not empty', c('self.size') > 0)]

    def modifies(self, c):
        return [c.lv('self.r'), c.lv('self.size')]

    def ensures(self, c):
        return [('well formed', dq_ok(c, 'self')), ('one less', c('self.size') == c.old('self.size') - 1)]


@contract
class Front(Deque):
    key = 'deque::front'

    def pre(self, c):
        return [('queue not empty', c('self.size') > 0)]

    def ensures(self, c):
        return [('is the first', c('res') == dq(c, 'self', z3.IntVal(0)))]


@contract
class Back(Deque):
    key = 'deque::back'

    def pre(self, c):
        return [('queue not empty', c('self.size') > 0)]

    def ensures(self, c):
        return [('is the last', c('res') == dq(c, 'self', c('self.size') - 1))]


@contract
class Empty(Deque):
    key = 'deque::empty'

    def ensures(self, c):
        return [('tells whether it is empty', (c('res') != 0) == (c('self.size') == 0))]


# ---- lower_upper_lemire ------------------------------------------------------------------------
def tt(c, k):
    return Pt(sel(c.old.mem(), c('t.blk')), c('t.off'), k)


def qsize(c, p):
    return c(p + '.size')


def order(c, p):
    """the queued positions increase from front to back"""
    j, k = q('j', 'k')
    return forall([j, k], Imp(z3.And(0 <= j, j < k, k < qsize(c, p)), dq(c, p, k) - dq(c, p, j) >= k - j), [dq(c, p, j), dq(c, p, k)])


def in_range(c, p, lo, hi):
    k, = q('k')
    return forall(k, Imp(between(0, k, qsize(c, p)), z3.And(lo <= dq(c, p, k), dq(c, p, k) < hi)), dq(c, p, k))


def le(up, x, y):
    return x <= y if up else y <= x


def monotone(c, p, up):
    j, k = q('j', 'k')
    return forall([j, k], Imp(z3.And(0 <= j, j < k, k < qsize(c, p)), le(up, tt(c, dq(c, p, k)), tt(c, dq(c, p, j)))), [dq(c, p, j), dq(c, p, k)])


def front_best(c, p, up, lo, hi):
    x, = q('x')
    return forall(x, Imp(z3.And(lo <= x, 0 <= x, x < hi), le(up, tt(c, x), tt(c, dq(c, p, z3.IntVal(0))))), tt(c, x))


def suffix_best(c, p, up, hi):
    """each queued position but the first is best among the positions after its predecessor"""
    k, x = q('k', 'x')
    return forall([k, x], Imp(z3.And(1 <= k, k < qsize(c, p), dq(c, p, k - 1) < x, x < hi), le(up, tt(c, x), tt(c, dq(c, p, k)))), [dq(c, p, k), tt(c, x)])


def queue_inv(c, p, up, lo, hi, last=True):
    n = qsize(c, p)
    o = [(p + ' well formed', dq_ok(c, p)), (p + ' positions ordered', order(c, p)), (p + ' positions in the window', in_range(c, p, z3.If(lo < 0, 0, lo), hi)),
         (p + ' values monotone', monotone(c, p, up)), (p + ' suffixes', suffix_best(c, p, up, hi)),
         (p + ' front is best of the window', Imp(n > 0, front_best(c, p, up, lo, hi)))]
    if last:
        o += [(p + ' not empty', n >= 1), (p + ' ends with the newest position', dq(c, p, n - 1) == hi - 1)]
    return o


def dq_static(c):
    return [('queues keep their arrays', z3.And(c('du.capacity') == 2 * c('r') + 2, c('dl.capacity') == 2 * c('r') + 2, c('du.data.blk') != c('dl.data.blk'),
                                               sel(c.size('int'), c('du.data.blk')) >= 0, sel(c.size('int'), c('dl.data.blk')) >= 0))]


def disjoint(c, shift=1):
    j, k = q('j', 'k')
    return ('a position but the newest is queued once at most', forall([j, k], Imp(z3.And(0 <= j, j < qsize(c, 'du') - shift, 0 <= k, k < qsize(c, 'dl') - shift), dq(c, 'du', j) != dq(c, 'dl', k)),
                                                                   [dq(c, 'du', j), dq(c, 'dl', k)]))


def env(c, i, up):
    return (EnvMax if up else EnvMin)(sel(c.old.mem(), c('t.blk')), c('t.off'), c('len'), i, c('r'))


def outputs(c, hi):
    y, = q('y')
    o = []
    for nm, up in (('u', True), ('l', False)):
        off = c(nm + '.off')
        e = sel(sel(c.mem(), c(nm + '.blk')), y)
        o.append(('%s filled so far' % nm, forall(y, Imp(between(off, y, off + hi), e == env(c, y - off, up)), e)))
    return o


def t_unchanged(c):
    return [('input untouched', sel(c.mem(), c('t.blk')) == sel(c.old.mem(), c('t.blk')))]


def main_inv(c):
    i, r = c('i'), c('r')
    lo = i - 1 - 2 * r
    return ([('position in range', z3.And(1 <= i, i <= c('len')))] + dq_static(c) + t_unchanged(c)
            + queue_inv(c, 'du', True, lo, i) + queue_inv(c, 'dl', False, lo, i) + [disjoint(c)] + outputs(c, i - r - 1))


def pop_inv(c, p, up):
    """while trailing positions that are worse than point i are dropped"""
    i, r = c('i'), c('r')
    lo = i - 1 - 2 * r
    n = qsize(c, p)
    x, = q('x')
    o = [(p + ' well formed', dq_ok(c, p)), (p + ' positions ordered', order(c, p)), (p + ' positions in the window', in_range(c, p, z3.If(lo < 0, 0, lo), i - 1)),
         (p + ' values monotone', monotone(c, p, up)), (p + ' suffixes', suffix_best(c, p, up, i)),
         (p + ' front is best of the window', Imp(n > 0, front_best(c, p, up, lo, i))),
         ('dropped positions are no better than point i', forall(x, Imp(z3.And(lo <= x, 0 <= x, x < i, z3.Or(n == 0, dq(c, p, n - 1) < x)), le(up, tt(c, x), tt(c, i))), tt(c, x))),
         disjoint2(c, p)]
    return dq_static(c) + t_unchanged(c) + o


def disjoint2(c, p):
    j, k = q('j', 'k')
    a, b = (0, 1) if p == 'du' else (1, 0)
    return ('a position is queued once at most', forall([j, k], Imp(z3.And(0 <= j, j < qsize(c, 'du') - a, 0 <= k, k < qsize(c, 'dl') - b), dq(c, 'du', j) != dq(c, 'dl', k)),
                                                        [dq(c, 'du', j), dq(c, 'dl', k)]))


def tail_inv(c):
    i, r, n = c('i'), c('r'), c('len')
    lo = i - 1 - 2 * r
    o = [('position in range', z3.And(n <= i, i <= n + r + 1))] + dq_static(c) + t_unchanged(c) + outputs(c, i - r - 1)
    for p, up in (('du', True), ('dl', False)):
        o += queue_inv(c, p, up, lo, n, last=False)
        o += [(p + ' ends with the last position', z3.If(qsize(c, p) >= 1, dq(c, p, qsize(c, p) - 1) == n - 1, i == n + r + 1))]
    return o


@contract
class Lemire(Contract):
    key = 'lower_upper_lemire'
    props = ('C04',)
    params = ('t', 'len', 'r', 'l', 'u')
    allocates = ('int',)
    nloops = 4
    shards = 6

    def requires(self, c):
        z = c.size()
        n = c('len')
        return [('band smaller than the series', z3.And(0 <= c('r'), c('r') < n)),
                ('arrays large enough', z3.And(*[z3.And(c(p + '.blk') != 0, c(p + '.off') >= 0, c(p + '.off') + n <= sel(z, c(p + '.blk'))) for p in 'tlu'])),
                ('arrays distinct', z3.And(c('t.blk') != c('l.blk'), c('t.blk') != c('u.blk'), c('l.blk') != c('u.blk')))]

    def facts(self, eng):
        c = eng.ctx()
        a = sel(c.mem(), c('t.blk'))
        return pt_def(a, c('t.off')) + env_def(a, c('t.off'), c('len'), c('r'))

    def modifies(self, c):
        return [('block', c('l.blk')), ('block', c('u.blk'))]

    loops = {
        0: Loop(main_inv, decreases=lambda c: c('len') - c('i'), entry_hints=lambda c: [('distinct', c(a + '.blk'), c(b + '.blk')) for a, b in (('du.data', 'dl.data'), ('t', 'u'), ('t', 'l'), ('u', 'l'))]),
        1: Loop(lambda c: pop_inv(c, 'du', True), decreases=lambda c: c('du.size')),
        2: Loop(lambda c: pop_inv(c, 'dl', False), decreases=lambda c: c('dl.size')),
        3: Loop(tail_inv, decreases=lambda c: c('len') + c('r') + 1 - c('i')),
    }

    def ensures(self, c):
        return [('%s envelope exact everywhere' % n, g) for n, (_, g) in zip(('upper', 'lower'), outputs(c, c('len')))]


# ---- the cached envelopes of a series -----------------------------------------------------------
CACHE = ('keoghLower', 'keoghUpper', 'keoghCacheValid', 'cachedWarpingBand')


def series_env_def(c, r):
    """definition of the envelopes of this series"""
    a, off, n = sel(c.mem(), ts_blk(c, 'self')), ts_off(c, 'self'), ts_len(c, 'self')
    return env_def(a, off, n, r)


class Envelopes(Contract):
    props = ('C04',)
    params = ('warpingBand',)
    allocates = True

    def requires(self, c):
        return [('the series has points', z3.And(whole(c, 'self'), ts_len(c, 'self') >= 1)), ('owns its envelope arrays', destroyable(c, 'self')),
                ('band not negative', c('warpingBand') >= 0)] + self.pre(c)

    def pre(self, c):
        return []

    def modifies(self, c):
        return [c.lv('self.' + f) for f in CACHE]

    def frees(self, c):
        return [c('self.keoghLower.blk'), c('self.keoghUpper.blk')]

    def same_points(self, c):
        return [('points untouched', z3.And(sel(c.mem(), ts_blk(c, 'self')) == sel(c.old.mem(), ts_blk(c, 'self')), whole(c, 'self'))),
                ('owns its envelope arrays', destroyable(c, 'self')),
                ('envelope arrays are its own', z3.And(*[z3.Or(sel(c.old.size(), c('self.%s.blk' % f)) < 0, c('self.%s.blk' % f) == c.old('self.%s.blk' % f)) for f in CACHE[:2]]))]


@contract
class GenerateKeoghLU(Envelopes):
    key = 'TimeSeries::generateKeoghLU'

    def facts(self, eng):
        c = eng.ctx()
        a, off, n, w = sel(c.mem(), ts_blk(c, 'self')), ts_off(c, 'self'), ts_len(c, 'self'), c('warpingBand')
        # both bands cover the same positions; the extremes over them are then the same
        o = env_def(a, off, n, w)
        e2 = z3.And(*env_def(a, off, n, n - 1))
        return o + [e2] + pt_def(a, off)

    def ensures(self, c):
        return [('envelopes generated', c('self.keoghCacheValid')), ('envelopes exact for the band', envelope(c, 'self', c.old('warpingBand')))] + self.same_points(c)


class GetKeogh(Envelopes):
    def pre(self, c):
        return [('cached envelopes are exact', cache_ok(c, 'self'))]

    def ensures(self, c):
        return [('cached envelopes are exact', z3.And(c('self.keoghCacheValid'), cache_ok(c, 'self'), c('self.cachedWarpingBand') == z3.ToReal(c('warpingBand')))),
                ('returns the envelope for the band', z3.And(c('res.blk') == c('self.%s.blk' % self.field), c('res.off') == 0, envelope(c, 'self', c('warpingBand')))),
                ('a cache for the band is kept', Imp(z3.And(c.old('self.keoghCacheValid'), c.old('self.cachedWarpingBand') == z3.ToReal(c('warpingBand'))),
                                                     z3.And(*[c('self.%s.blk' % f) == c.old('self.%s.blk' % f) for f in CACHE[:2]])))] + self.same_points(c)


@contract
class GetKeoghLower(GetKeogh):
    key = 'TimeSeries::getKeoghLower'
    field = 'keoghLower'


@contract
class GetKeoghUpper(GetKeogh):
    key = 'TimeSeries::getKeoghUpper'
    field = 'keoghUpper'
