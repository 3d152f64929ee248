"""TimeSeries as a value (C17) and its envelopes (C04)."""
from common import *

# ---- the object -------------------------------------------------------------------------------


def destroyable(c, p):
    """what the destructor and the assignments rely on"""
    kl, ku, d = c(p + '.keoghLower.blk'), c(p + '.keoghUpper.blk'), c(p + '.data.blk')
    z = c.size()
    own = c(p + '.isOwnerOfData')
    return z3.And(
        z3.Implies(own, z3.Or(d == 0, z3.And(c(p + '.data.off') == 0, sel(z, d) >= 0))),
        z3.Or(kl == 0, z3.And(c(p + '.keoghLower.off') == 0, sel(z, kl) >= 0)),
        z3.Or(ku == 0, z3.And(c(p + '.keoghUpper.off') == 0, sel(z, ku) >= 0)),
        z3.Or(kl == 0, kl != ku), z3.Or(d == 0, z3.And(d != kl, d != ku)))


def whole(c, p):
    """a series whose points can be read"""
    d, o, z = c(p + '.data.blk'), c(p + '.data.off'), c.size()
    n = ts_len(c, p)
    return z3.And(n >= 0, c(p + '.end') - c(p + '.start') == n, c(p + '.start') >= 0, d != 0,
                  ts_off(c, p) >= 0, ts_off(c, p) + n <= sel(z, d),
                  z3.Implies(c(p + '.isOwnerOfData'), z3.And(o == 0, c(p + '.start') == 0, sel(z, d) == n)))


def window_of(c, blk, off, n, i, r, out, upper):
    """out is the largest (smallest) of the n points over the positions within r of i"""
    k, = q('k')
    A = sel(c.mem(), blk)
    inw = z3.And(0 <= k, k < n, i - r <= k, k <= i + r)
    x = sel(A, off + k)
    return z3.And(forall(k, Imp(inw, x <= out if upper else out <= x), x),
                  z3.Exists([k], z3.And(inw, x == out)))


EnvMax = z3.Function('EnvMax', RA, I, I, I, I, R)   # points, offset, count, position, band
EnvMin = z3.Function('EnvMin', RA, I, I, I, I, R)


WMax = z3.Function('WMax', RA, I, I, I, I, I)     # a position where the extreme is attained
WMin = z3.Function('WMin', RA, I, I, I, I, I)
Pt = z3.Function('Pt', RA, I, I, R)                # points, offset, position


def pt_def(a, off):
    """Pt(points, offset, position) is the point stored there"""
    k, y = q('k', 'y')
    return [forall(k, Pt(a, off, k) == sel(a, off + k), Pt(a, off, k)), forall(y, sel(a, y) == Pt(a, off, y - off), sel(a, y))]


def env_def(a, off, n, r):
    """EnvMax and EnvMin: the extremes of the points at most r positions away"""
    i, x = q('i', 'x')
    o = []
    for E, W, up in ((EnvMax, WMax, True), (EnvMin, WMin, False)):
        e, w = E(a, off, n, i, r), W(a, off, n, i, r)
        p = Pt(a, off, x)
        o += [forall([i, x], Imp(z3.And(0 <= i, i < n, r >= 0, 0 <= x, x < n, i - r <= x, x <= i + r), p <= e if up else e <= p), [e, p]),
              forall(i, Imp(z3.And(0 <= i, i < n, r >= 0), z3.And(0 <= w, w < n, i - r <= w, w <= i + r, Pt(a, off, w) == e)), e)]
    return o


def env_at(c, p, i, r, upper):
    return (EnvMax if upper else EnvMin)(sel(c.mem(), ts_blk(c, p)), ts_off(c, p), ts_len(c, p), i, r)


def envelope(c, p, r):
    i, = q('i')
    out = []
    for nm, up in (('keoghLower', False), ('keoghUpper', True)):
        b = c('%s.%s.blk' % (p, nm))
        e = sel(sel(c.mem(), b), i)
        out += [b != 0, c('%s.%s.off' % (p, nm)) == 0, sel(c.size(), b) >= ts_len(c, p),
                forall(i, Imp(between(0, i, ts_len(c, p)), e == env_at(c, p, i, r, up)), e)]
    return z3.And(*out)


def cache_ok(c, p):
    return z3.Implies(c(p + '.keoghCacheValid'), envelope(c, p, z3.ToInt(c(p + '.cachedWarpingBand'))))


def cached_int(c, p):
    return c(p + '.cachedWarpingBand') == z3.ToReal(z3.ToInt(c(p + '.cachedWarpingBand')))


def same_series(c, p, o):
    """p has the length, position and points that o had before the call"""
    i, = q('i')
    f = [c('%s.%s' % (p, x)) == c.old('%s.%s' % (o, x)) for x in ('index', 'start', 'end', 'length')]
    return f, forall(i, Imp(between(0, i, ts_len(c.old, o)), ts_at(c, p, i) == ts_at(c.old, o, i)))


def fresh_copy(c, p, o):
    return z3.If(c.old(o + '.isOwnerOfData'),
                 z3.And(c(p + '.isOwnerOfData'), c(p + '.data.blk') != c.old(o + '.data.blk'), sel(c.old.size(), c(p + '.data.blk')) < 0),
                 z3.And(z3.Not(c(p + '.isOwnerOfData')), c(p + '.data.blk') == c.old(o + '.data.blk'), c(p + '.data.off') == c.old(o + '.data.off')))


def no_cache(c, p):
    return z3.And(z3.Not(c(p + '.keoghCacheValid')), c(p + '.keoghLower.blk') == 0, c(p + '.keoghUpper.blk') == 0)


class CtorBase(Contract):
    key = 'TimeSeries::TimeSeries'
    props = ('C17',)
    variant = 'own'
    allocates = True

    def modifies(self, c):
        return [c.lv('self')]


@contract
class CtorWindow(CtorBase):
    ptypes = ('data_t *', 'int', 'int', 'int')
    params = ('data', 'index', 'start', 'end')

    def ensures(self, c):
        return [('views the window of the array', z3.And(
            c('self.data.blk') == c('data.blk'), c('self.data.off') == c('data.off'), c('self.index') == c('index'), c('self.start') == c('start'),
            c('self.end') == c('end'), c('self.length') == c('end') - c('start'), z3.Not(c('self.isOwnerOfData')))),
            ('starts without envelopes', no_cache(c, 'self'))]


@contract
class CtorView(CtorBase):
    ptypes = ('data_t *', 'int')
    params = ('data', 'length')

    def ensures(self, c):
        return [('views the array', z3.And(
            c('self.data.blk') == c('data.blk'), c('self.data.off') == c('data.off'), c('self.index') == 0, c('self.start') == 0,
            c('self.end') == c('length'), c('self.length') == c('length'), z3.Not(c('self.isOwnerOfData')))),
            ('starts without envelopes', no_cache(c, 'self'))]


@contract
class CtorLength(CtorBase):
    ptypes = ('int',)
    params = ('length',)

    def requires(self, c):
        return [('length not negative', c('length') >= 0)]

    def ensures(self, c):
        i, = q('i')
        return [('owns an array of its own', z3.And(
            c('self.data.off') == 0, sel(c.old.size(), c('self.data.blk')) < 0, sel(c.size(), c('self.data.blk')) == c('length'),
            c('self.index') == 0, c('self.start') == 0, c('self.end') == c('length'), c('self.length') == c('length'), c('self.isOwnerOfData'))),
            ('all points are zero', forall(i, Imp(between(0, i, c('length')), ts_at(c, 'self', i) == 0))),
            ('well formed', whole(c, 'self')),
            ('starts without envelopes', no_cache(c, 'self'))]


@contract
class CtorCopy(CtorBase):
    ptypes = ('const TimeSeries &',)
    params = ('other',)

    def requires(self, c):
        return [('source well formed', whole(c, 'other'))]

    def ensures(self, c):
        f, pts = same_series(c, 'self', 'other')
        return [('same length and position', z3.And(*f)), ('same points', pts),
                ('an owned array is copied, a view shared', fresh_copy(c, 'self', 'other')),
                ('well formed', whole(c, 'self')), ('destroyable', destroyable(c, 'self')),
                ('starts without envelopes', no_cache(c, 'self'))]


class AssignBase(Contract):
    key = 'TimeSeries::operator='
    props = ('C17', 'C04')
    variant = 'own'
    params = ('other',)
    allocates = True

    def requires(self, c):
        return [('target destroyable', destroyable(c, 'self')), ('source well formed', whole(c, 'other')), ('source destroyable', destroyable(c, 'other')),
                ('the source does not view the array the target owns', Imp(c('self.isOwnerOfData'), z3.Or(c('self.data.blk') == 0, c('self.data.blk') != c('other.data.blk')))),
                ('objects share no envelope array', z3.And(*[z3.Or(c('self.' + a + '.blk') == 0, c('self.' + a + '.blk') != c('other.' + b + '.blk'))
                                                           for a in ('keoghLower', 'keoghUpper') for b in ('keoghLower', 'keoghUpper', 'data')] +
                                                          [z3.Or(c('other.' + b + '.blk') == 0, c('self.data.blk') != c('other.' + b + '.blk')) for b in ('keoghLower', 'keoghUpper')]))]

    def frees(self, c):
        return [z3.If(c('self.isOwnerOfData'), c('self.data.blk'), 0)]

    def modifies(self, c):
        return [c.lv('self')]


@contract
class AssignCopy(AssignBase):
    ptypes = ('const TimeSeries &',)

    def ensures(self, c):
        f, pts = same_series(c, 'self', 'other')
        return [('same length and position', z3.And(*f)), ('same points', pts),
                ('an owned array is copied, a view shared', fresh_copy(c, 'self', 'other')),
                ('well formed', whole(c, 'self')), ('destroyable', destroyable(c, 'self')),
                ('the old array is given back', Imp(z3.And(c.old('self.isOwnerOfData'), c.old('self.data.blk') != 0), sel(c.size(), c.old('self.data.blk')) < 0)),
                ('no stale envelope', z3.Not(c('self.keoghCacheValid')))]


@contract
class AssignMove(AssignBase):
    ptypes = ('TimeSeries &&',)

    def modifies(self, c):
        return [c.lv('self'), c.lv('other.data')]

    def ensures(self, c):
        f, pts = same_series(c, 'self', 'other')
        return [('same length and position', z3.And(*f)), ('same points', pts),
                ('takes over the array', z3.And(c('self.data.blk') == c.old('other.data.blk'), c('self.data.off') == c.old('other.data.off'),
                                               c('self.isOwnerOfData') == c.old('other.isOwnerOfData'), c('other.data.blk') == 0)),
                ('well formed', whole(c, 'self')), ('both destroyable', z3.And(destroyable(c, 'self'), destroyable(c, 'other'))),
                ('the old array is given back', Imp(z3.And(c.old('self.isOwnerOfData'), c.old('self.data.blk') != 0), sel(c.size(), c.old('self.data.blk')) < 0)),
                ('no stale envelope', z3.Not(c('self.keoghCacheValid')))]


class AssignSelf(Contract):
    key = 'TimeSeries::operator='
    props = ('C17', 'C04')
    variant = 'to itself'
    alias = (0, 'self')
    params = ('other',)

    def requires(self, c):
        return [('well formed', whole(c, 'self')), ('destroyable', destroyable(c, 'self')), ('envelopes up to date', z3.And(cache_ok(c, 'self'), cached_int(c, 'self')))]

    def ensures(self, c):
        f, pts = same_series(c, 'self', 'self')
        return [('same length and position', z3.And(*f)), ('same points', pts), ('well formed', whole(c, 'self')),
                ('envelopes up to date', cache_ok(c, 'self'))]


@contract
class AssignCopySelf(AssignSelf):
    ptypes = ('const TimeSeries &',)


@contract
class AssignMoveSelf(AssignSelf):
    ptypes = ('TimeSeries &&',)


@contract
class Destroy(Contract):
    key = 'TimeSeries::~TimeSeries'
    props = ('C17',)
    variant = 'own'
    allocates = True

    def requires(self, c):
        return [('destroyable', destroyable(c, 'self'))]

    def modifies(self, c):
        return [c.lv('self')]

    def frees(self, c):
        return [z3.If(c('self.isOwnerOfData'), c('self.data.blk'), 0), c('self.keoghLower.blk'), c('self.keoghUpper.blk')]

    def ensures(self, c):
        gone = lambda b: Imp(b != 0, sel(c.size(), b) < 0)
        return [('everything owned is given back', z3.And(Imp(c.old('self.isOwnerOfData'), gone(c.old('self.data.blk'))),
                                                         gone(c.old('self.keoghLower.blk')), gone(c.old('self.keoghUpper.blk'))))]


@contract
class Index(Contract):
    key = 'TimeSeries::operator[]'
    props = ('C12', 'C17')
    variant = 'own'
    params = ('idx',)

    def requires(self, c):
        return [('well formed', whole(c, 'self'))]

    def throws(self, c):
        return z3.Or(c('idx') < 0, c('idx') >= c('self.length'))

    def ensures(self, c):
        return [('is the point asked for', c('res') == ts_at(c, 'self', c('idx')))]


class AddBase(Contract):
    key = 'TimeSeries::operator+='
    props = ('C17', 'C04')
    params = ('other',)
    other = 'other'

    def requires(self, c):
        return [('target well formed', whole(c, 'self')), ('source well formed', whole(c, self.other))] + self.more(c)

    def more(self, c):
        return [('the source does not view the array of the target', c('self.data.blk') != c('other.data.blk'))]

    def modifies(self, c):
        return [c.lv('self.keoghCacheValid'), ('block', c('self.data.blk'))]

    def throws(self, c):
        return c('self.length') != c(self.other + '.length')

    def inv(self, c):
        k, = q('k')
        A, o = sel(c.mem(), ts_blk(c, 'self')), ts_off(c, 'self')
        A0 = sel(c.old.mem(), ts_blk(c, 'self'))
        return [('position in range', z3.And(0 <= c('i'), c('i') <= c('self.length'))),
                ('points added so far', forall(k, sel(A, k) == z3.If(z3.And(o <= k, k < o + c('i')), fadd(sel(A0, k), sel(sel(c.old.mem(), ts_blk(c, self.other)), k - o + ts_off(c, self.other))), sel(A0, k)), sel(A, k)))]

    def ensures(self, c):
        i, = q('i')
        return [('points are added', forall(i, Imp(between(0, i, c('self.length')), ts_at(c, 'self', i) == fadd(ts_at(c.old, 'self', i), ts_at(c.old, self.other, i))))),
                ('no stale envelope', z3.Not(c('self.keoghCacheValid')))]


@contract
class Add(AddBase):
    nloops = 1
    loops = {0: Loop(lambda c: Add.inv(Add, c), decreases=lambda c: c('self.length') - c('i'))}


@contract
class AddSelf(AddBase):
    variant = 'itself'
    alias = (0, 'self')
    other = 'self'

    def more(self, c):
        return []
    loops = {0: Loop(lambda c: AddSelf.inv(AddSelf, c), decreases=lambda c: c('self.length') - c('i'))}


EPS = z3.RealVal('%d/%d' % (1e-9).as_integer_ratio())     # the double nearest to 1e-9


def near(x, y):
    d = fsub(x, y)
    return z3.And(d <= EPS, -d <= EPS)


@contract
class Equal(Contract):
    key = 'TimeSeries::operator=='
    props = ('C17',)
    variant = 'own'
    params = ('other',)
    nloops = 1
    unreachable = ('return 1',)     # series without data, which the precondition excludes

    def requires(self, c):
        return [('well formed', z3.And(whole(c, 'self'), whole(c, 'other')))]

    def facts(self, eng):
        x = z3.Real('x!q')
        return [z3.ForAll([x], fsub(x, x) == 0, patterns=[fsub(x, x)])]

    def close(self, c, n):
        i, = q('i')
        return forall(i, Imp(between(0, i, n), near(ts_at(c, 'self', i), ts_at(c, 'other', i))), ts_at(c, 'self', i))

    loops = {0: Loop(lambda c: [('position in range', z3.And(0 <= c('i'), c('i') <= c('self.length'))), ('close so far', Equal.close(Equal, c, c('i')))],
                     decreases=lambda c: c('self.length') - c('i'))}

    def ensures(self, c):
        return [('true exactly for the same length and close points', c('res') == z3.And(c('self.length') == c('other.length'), self.close(c, c('self.length'))))]


Sum = z3.Function('Sum', RA, I, I, R)      # points, offset, count: left-to-right sum


def sum_def(A, o, n):
    return [Sum(A, o, 0) == 0, Imp(n >= 0, Sum(A, o, n + 1) == fadd(Sum(A, o, n), sel(A, o + n)))]


@contract
class Average(Contract):
    key = 'TimeSeries::average'
    props = ('C17', 'C16')
    nloops = 1

    def requires(self, c):
        return [('well formed', whole(c, 'self')), ('not empty', c('self.length') > 0)]

    def hints(self, c):
        return sum_def(sel(c.mem(), ts_blk(c, 'self')), ts_off(c, 'self'), z3.IntVal(0))

    loops = {0: Loop(lambda c: [('position in range', z3.And(0 <= c('i'), c('i') <= c('self.length'))),
                                ('sum so far', c('sum') == Sum(sel(c.mem(), ts_blk(c, 'self')), ts_off(c, 'self'), c('i')))],
                     hints=lambda c: sum_def(sel(c.mem(), ts_blk(c, 'self')), ts_off(c, 'self'), c('i')),
                     decreases=lambda c: c('self.length') - c('i'))}

    def ensures(self, c):
        return [('is the sum of the points over their number', c('res') == fdiv(Sum(sel(c.mem(), ts_blk(c, 'self')), ts_off(c, 'self'), c('self.length')), z3.ToReal(c('self.length'))))]
