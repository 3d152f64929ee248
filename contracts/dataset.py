from common import *


def window(c):
    i, s, e = c.old('index'), c.old('start'), c.old('end')
    whole = z3.And(s < 0, e < 0)
    ln = sel(c.old('self.lengths[]'), i)
    return i, z3.If(whole, 0, s), z3.If(whole, ln, e), whole, ln


@contract
class GetTimeSeries(Contract):
    key = 'TimeSeriesSet::getTimeSeries'
    params = ('index', 'start', 'end')
    props = ('C12',)

    def requires(self, c):
        return [('dataset well formed', ds_ok(c))]

    def throws(self, c):
        i, s, e, whole, ln = window(c)
        return z3.Or(i < 0, i >= c('self.itemCount'), z3.And(z3.Not(whole), z3.Or(s < 0, s >= e, e > ln)))

    def result(self, c):
        i, s, e, whole, ln = window(c)
        z = z3.IntVal(0)
        return {'.index': i, '.start': s, '.end': e, '.length': e - s, '.data.blk': c('self.data.blk'), '.data.off': c('self.data.off') + mul(i, c('self.maxCol')),
                '.isOwnerOfData': F, '.keoghCacheValid': F, '.keoghLower.blk': z, '.keoghUpper.blk': z, '.keoghLower.off': z, '.keoghUpper.off': z}

    def ensures(self, c):
        i, s, e, whole, ln = window(c)
        return [
            ('window inside the data of the row', z3.And(0 <= c('res.start'), c('res.length') >= 0, c('res.end') <= ln)),
            ('window inside the allocation', ts_ok(c, 'res')),
        ]


@contract
class GetItemLength(Contract):
    key = 'TimeSeriesSet::getItemLength'
    params = ('index',)
    props = ('C12',)

    def requires(self, c):
        return [('dataset well formed', ds_ok(c))]

    def throws(self, c):
        return z3.Or(c('index') < 0, c('index') >= c('self.itemCount'))

    def ensures(self, c):
        return [('is the length of the row', c('res') == sel(c('self.lengths[]'), c('index')))]


def data_ptr_ok(c, p='self'):
    b = c(p + '.data.blk')
    return z3.Or(b == 0, z3.And(c(p + '.data.off') == 0, sel(c.size(), b) >= 0))


@contract
class ClearData(Contract):
    key = 'TimeSeriesSet::clearData'
    props = ('C13',)

    def requires(self, c):
        return [('data pointer valid', data_ptr_ok(c))]

    def modifies(self, c):
        return [c.lv('self.' + f) for f in ('data', 'itemCount', 'maxCol', 'names', 'lengths', 'normalized')]
    allocates = True

    def frees(self, c):
        return [c('self.data.blk')]

    def ensures(self, c):
        return [('nothing of the old data is left', z3.And(
            c('self.data.blk') == 0, c('self.itemCount') == 0, c('self.maxCol') == 0, c('self.names.len') == 0,
            c('self.lengths.len') == 0, z3.Not(c('self.normalized'))))]


@contract
class NewSet(Contract):
    key = 'TimeSeriesSet::TimeSeriesSet'
    props = ('C13',)

    def modifies(self, c):
        return [c.lv('self')]

    def ensures(self, c):
        return [('starts empty', z3.And(
            c('self.data.blk') == 0, c('self.itemCount') == 0, c('self.maxCol') == 0, c('self.names.len') == 0,
            c('self.lengths.len') == 0, z3.Not(c('self.normalized'))))]


@contract
class GetName(Contract):
    key = 'TimeSeriesSet::getTimeSeriesName'
    props = ('C12',)
    params = ('index',)

    def requires(self, c):
        return [('dataset well formed', ds_ok(c))]

    def throws(self, c):
        return z3.Or(c('index') < 0, c('index') >= c('self.itemCount'))

    def ensures(self, c):
        return [('is the stored name, or the number of the series', c('res') == z3.If(
            c('index') < c('self.names.len'), sel(c('self.names[]'), c('index')), numstr(c('index'))))]


V = z3.Function('V', I, I, R)      # point k of series r before normalisation


def v_def(c):
    r, k = q('r', 'k')
    A = sel(c.old.mem(), c.old('self.data.blk'))
    return [forall([r, k], V(r, k) == sel(A, mul(r, c.old('self.maxCol')) + k), V(r, k))]


def lens(c, r):
    return sel(c('self.lengths[]'), r)


def in_data(c, r, k):
    return z3.And(0 <= r, r < c('self.itemCount'), 0 <= k, k < lens(c, r))


def seen(c, ts, i, r, k):
    """positions visited before row ts, column i"""
    return z3.And(in_data(c, r, k), z3.Or(r < ts, z3.And(r == ts, k < i)))


def minmax_inv(c, ts, i):
    r, k = q('r', 'k')
    mn, mx = c('MIN'), c('MAX')
    s = seen(c, ts, i, r, k)
    return [
        ('bounds hold for every point seen', forall([r, k], Imp(s, z3.And(mn <= V(r, k), V(r, k) <= mx)), V(r, k))),
        ('the maximum is a point seen', z3.Or(mx == -INF, z3.Exists([r, k], z3.And(s, V(r, k) == mx), patterns=[V(r, k)]))),
        ('the minimum is a point seen', z3.Or(mn == INF, z3.Exists([r, k], z3.And(s, V(r, k) == mn), patterns=[V(r, k)]))),
    ]


def rows_inv(c, ts, i, f):
    """points before (ts, i) are f of what they were, the others as before"""
    r, k = q('r', 'k')
    A = sel(c.mem(), c('self.data.blk'))
    pos = mul(r, c('self.maxCol')) + k
    return [
        ('points done', forall([r, k], Imp(seen(c, ts, i, r, k), sel(A, pos) == f(V(r, k))), V(r, k))),
        ('points to do', forall([r, k], Imp(z3.And(in_data(c, r, k), z3.Not(seen(c, ts, i, r, k))), sel(A, pos) == V(r, k)), V(r, k))),
    ]


def rng(c, ts):
    return ('row in range', z3.And(0 <= ts, ts <= c('self.itemCount')))


@contract
class Normalize(Contract):
    key = 'TimeSeriesSet::normalize'
    props = ('C11',)

    def requires(self, c):
        r, k = q('r', 'k')
        return [('dataset well formed', ds_ok(c)),
                ('values are finite numbers', forall([r, k], Imp(in_data(c, r, k), z3.And(-INF < V(r, k), V(r, k) < INF)), V(r, k)))]

    def facts(self, eng):
        x, y = z3.Reals('x!q y!q')
        return v_def(eng.ctx()) + [
            # IEEE subtraction (with gradual underflow) is zero exactly for equal operands
            z3.ForAll([x, y], (fsub(x, y) == 0) == (x == y), patterns=[fsub(x, y)])]

    def throws(self, c):
        return c('self.itemCount') == 0

    def modifies(self, c):
        return [c.lv('self.normalized'), ('block', c('self.data.blk'))]

    @staticmethod
    def zero(x):
        return z3.RealVal(0)

    def scale(c):
        return lambda x: fdiv(fsub(x, c('MIN')), fsub(c('MAX'), c('MIN')))

    def done(c):
        return minmax_inv(c, c('self.itemCount'), 0)

    nloops = 6
    loops = {
        0: Loop(lambda c: [rng(c, c('ts'))] + minmax_inv(c, c('ts'), 0), decreases=lambda c: c('self.itemCount') - c('ts')),
        1: Loop(lambda c: [('column in range', z3.And(0 <= c('i'), c('i') <= lens(c, c('ts'))))] + minmax_inv(c, c('ts'), c('i')),
                hints=lambda c: [V(c('ts'), c('i')) == V(c('ts'), c('i'))] + v_at(c, c('ts'), c('i')),
                decreases=lambda c: lens(c, c('ts')) - c('i')),
        2: Loop(lambda c: [rng(c, c('ts'))] + rows_inv(c, c('ts'), 0, Normalize.zero), decreases=lambda c: c('self.itemCount') - c('ts')),
        3: Loop(lambda c: [('column in range', z3.And(0 <= c('i'), c('i') <= lens(c, c('ts'))))] + rows_inv(c, c('ts'), c('i'), Normalize.zero),
                hints=lambda c: v_at(c, c('ts'), c('i')), decreases=lambda c: lens(c, c('ts')) - c('i')),
        4: Loop(lambda c: [rng(c, c('ts'))] + rows_inv(c, c('ts'), 0, Normalize.scale(c)), decreases=lambda c: c('self.itemCount') - c('ts')),
        5: Loop(lambda c: [('column in range', z3.And(0 <= c('i'), c('i') <= lens(c, c('ts'))))] + rows_inv(c, c('ts'), c('i'), Normalize.scale(c)),
                hints=lambda c: v_at(c, c('ts'), c('i')), decreases=lambda c: lens(c, c('ts')) - c('i')),
    }

    def ensures(self, c):
        r, k = q('r', 'k')
        mn, mx = c('res.first'), c('res.second')
        A = sel(c.mem(), c('self.data.blk'))
        new = sel(A, mul(r, c('self.maxCol')) + k)
        d = in_data(c, r, k)
        some = z3.Exists([r, k], d)
        return [
            ('returned minimum and maximum bound every point', forall([r, k], Imp(d, z3.And(mn <= V(r, k), V(r, k) <= mx)), V(r, k))),
            ('returned maximum is one of the points', z3.Or(mx == -INF, z3.Exists([r, k], z3.And(d, V(r, k) == mx), patterns=[V(r, k)]))),
            ('returned minimum is one of the points', z3.Or(mn == INF, z3.Exists([r, k], z3.And(d, V(r, k) == mn), patterns=[V(r, k)]))),
            ('every point is mapped affinely', Imp(mn != mx, forall([r, k], Imp(d, new == fdiv(fsub(V(r, k), mn), fsub(mx, mn))), V(r, k)))),
            ('equal points all become zero', Imp(mn == mx, forall([r, k], Imp(d, new == 0), V(r, k)))),
            ('marked as normalised', c('self.normalized')),
        ]

    def on_throw(self, c):
        return [('not marked as normalised', c('self.normalized') == c.old('self.normalized'))]


def v_at(c, r, k):
    """the definition of V at a point"""
    A = sel(c.old.mem(), c.old('self.data.blk'))
    return [V(r, k) == sel(A, mul(r, c('self.maxCol')) + k)]
