"""Groups of subsequences of one length (C07, C08, C09)."""
from common import *
from series import destroyable
from distance import EXACT, float_facts, fdiv
import cxxtypes

# position of a member in its group: 0 is the first one added
cxxtypes.GHOST['group_membership_t'] = [('pos', INT)]
GROUP_ASSUMES = ('a distance called through a pointer keeps the contract proved for the Euclidean, Manhattan and Chebyshev distances (exact up to the cut-off, above it otherwise); '
                 'it may fill the envelope caches of its arguments, which no group code reads',)

Sl = z3.Function('Slot', I, I, I, I)       # windows per series, series, start: entry of the member table

Win = z3.Function('Win', I, I, I, I, I)    # offset and row length of the data set, series, start: offset of the window
# constant zero; they only say for which groups and windows the solver is to use a fact
MarkG = z3.Function('MarkG', I, I)
MarkW = z3.Function('MarkW', I, I, I)
MarkL = z3.Function('MarkL', I, I)


def win_facts(off, M):
    i, s = q('i', 's')
    return [forall([i, s], Win(off, M, i, s) == off + mul(i, M) + s, Win(off, M, i, s)), forall(i, MarkG(i) == 0, MarkG(i)), forall(i, MarkL(i) == 0, MarkL(i)), forall([i, s], MarkW(i, s) == 0, MarkW(i, s))]


def slot_facts(sub):
    """lemma Slots: different windows have different entries, all inside the table"""
    i, s, j, t, n = q('i', 's', 'j', 't', 'n')
    a, b = Sl(sub, i, s), Sl(sub, j, t)
    return [forall([i, s], a == mul(i, sub) + s, a),
            forall([i, s, j, t], Imp(z3.And(0 <= i, 0 <= j, 0 <= s, s < sub, 0 <= t, t < sub, a == b), z3.And(i == j, s == t)), [a, b])]


@lemma
class Slots(Lemma):
    plain = True

    def goals(self):
        i, s, j, t, m, n, d = z3.Ints('i s j t m n d')
        return [('different windows have different entries', [0 <= s, s < m, 0 <= t, t < m, i * m + s == j * m + t, d == j - i, d >= 1, (i + d) * m == i * m + d * m, d * m >= m], F),
                ('a product of factors of at least one', [d >= 1, m >= 1, d * m == (d - 1) * m + m, (d - 1) * m >= 0], d * m >= m),
                ('entries lie in the table', [0 <= i, i < n, 0 <= s, s < m, n * m == i * m + (n - i - 1) * m + m, (n - i - 1) * m >= 0, i * m >= 0], z3.And(i * m + s >= 0, i * m + s < n * m))]


class View:
    """a group space as seen in a state: the data set, the member table and the groups"""

    def __init__(self, c, p='self', ref=None):
        self.c = c
        get = c if ref is None else (lambda path: c._leaf(LV(('obj', 'LocalLengthGroupSpace', ref), [], Ty('rec', 'LocalLengthGroupSpace')), path[len(p):], path))
        d = p + '.dataset'
        self.n, self.M = get(d + '.itemCount'), get(d + '.maxCol')
        self.blk, self.off = get(d + '.data.blk'), get(d + '.data.off')
        self.lens = get(d + '.lengths[]')
        self.A = sel(c.old.mem(), self.blk)
        self.sub = get(p + '.subTimeSeriesCount')
        self.L = get(p + '.length')
        self.mlen = get(p + '.memberMap.len')
        self.gi, self.pos, self.pi, self.ps = [get(p + '.memberMap[].' + x) for x in ('groupIndex', 'pos', 'prev.first', 'prev.second')]
        self.ng, self.groups = get(p + '.groups.len'), get(p + '.groups[]')
        if ref is None:
            self.dref, self.mref = c.name(d), c.name(p + '.memberMap')
        else:
            self.dref, self.mref = [sel(c.hf('LocalLengthGroupSpace', x), ref) for x in ('dataset', 'memberMap')]

    def slot(self, i, s):
        return Sl(self.sub, i, s)

    def g(self, k):
        return sel(self.groups, k)

    def f(self, k, field, leaf=''):
        return sel(self.c.hf('Group', field, leaf), self.g(k))

    def rep(self, k):
        """series and start of the representative"""
        return self.f(k, 'centroid', '.index'), self.f(k, 'centroid', '.start')

    def win(self, i, s):
        return Win(self.off, self.M, i, s)

    def fits(self, i, s):
        return z3.And(0 <= i, i < self.n, 0 <= s, s + self.L <= sel(self.lens, i))

    def dist(self, f, k, i, s):
        """distance of window (i, s) to the representative of group k"""
        return Dist(f, self.A, self.win(*self.rep(k)), self.L, self.A, self.win(i, s), self.L)

    def shape(self):
        return ('member table covers every window', z3.And(self.L >= 1, self.sub == self.M - self.L + 1, self.sub >= 1, self.mlen == mul(self.n, self.sub)))

    def objects(self):
        k, = q('k')
        own = z3.And(sel(self.c.alive('Group'), self.g(k)), self.g(k) > 0, self.f(k, 'groupIndex') == k, self.f(k, 'memberLength') == self.L, self.f(k, 'subTimeSeriesCount') == self.sub,
                     self.f(k, 'dataset') == self.dref, self.f(k, 'memberMap') == self.mref, self.f(k, 'count') >= 1)
        return ('groups refer to this space', z3.And(self.ng >= 0, forall(k, Imp(between(0, k, self.ng), own), self.g(k))))

    def reps(self, done):
        k, = q('k')
        i, s = self.rep(k)
        ok = z3.And(done(i, s), sel(self.gi, self.slot(i, s)) == k, self.f(k, 'centroid', '.length') == self.L, self.f(k, 'centroid', '.end') == s + self.L,
                    self.f(k, 'centroid', '.data.blk') == self.blk, self.f(k, 'centroid', '.data.off') == self.off + mul(i, self.M), z3.Not(self.f(k, 'centroid', '.isOwnerOfData')))
        return ('representatives are members', forall(k, Imp(z3.And(MarkG(k) == 0, between(0, k, self.ng)), ok), MarkG(k)))

    def members(self, done):
        i, s = q('i', 's')
        e = self.slot(i, s)
        g = sel(self.gi, e)
        return [('every window belongs to a group', forall([i, s], Imp(done(i, s), z3.And(0 <= g, g < self.ng, 0 <= sel(self.pos, e), sel(self.pos, e) < self.f(g, 'count'))), e))]

    def chain(self, done):
        i, s, j, t, k = q('i', 's', 'j', 't', 'k')
        e, d = self.slot(i, s), self.slot(j, t)
        pe = self.slot(sel(self.pi, e), sel(self.ps, e))
        li, ls = self.f(k, 'lastMemberCoord', '.first'), self.f(k, 'lastMemberCoord', '.second')
        le = self.slot(li, ls)
        same = z3.And(sel(self.gi, e) == sel(self.gi, d), sel(self.pos, e) == sel(self.pos, d))
        return [('members are linked', forall([i, s], Imp(z3.And(MarkW(i, s) == 0, done(i, s)), z3.If(sel(self.pos, e) == 0, sel(self.pi, e) == -1,
                                                                          z3.And(done(sel(self.pi, e), sel(self.ps, e)), sel(self.gi, pe) == sel(self.gi, e), sel(self.pos, pe) == sel(self.pos, e) - 1))), MarkW(i, s))),
                ('members have different places', forall([i, s, j, t], Imp(z3.And(done(i, s), done(j, t), same), z3.And(i == j, s == t)), [e, d])),
                ('the last member is known', forall(k, Imp(z3.And(MarkG(k) == 0, between(0, k, self.ng)), z3.And(done(li, ls), sel(self.gi, le) == k, sel(self.pos, le) == self.f(k, 'count') - 1)), MarkG(k)))]

    def close(self, done, f, half):
        i, s = q('i', 's')
        e = self.slot(i, s)
        return ('members are close to their representative', forall([i, s], Imp(done(i, s), self.dist(f, sel(self.gi, e), i, s) <= half), e))

    def apart(self, f, half):
        k, h = q('k', 'h')
        return ('representatives are apart', forall([k, h], Imp(z3.And(0 <= k, k < h, h < self.ng), self.dist(f, k, *self.rep(h)) > half), [self.g(k), self.g(h)]))

    def new(self, p):
        k, = q('k')
        return ('groups are new', forall(k, Imp(between(0, k, self.ng), p(self.g(k))), self.g(k)))

    def all(self, done):
        return [self.shape(), self.objects(), self.reps(done)] + self.members(done) + self.chain(done)


def window_ok(c, index, start):
    """the window is one of the data set of this group"""
    d = 'self.dataset'
    L = c('self.memberLength')
    return z3.And(0 <= index, index < c(d + '.itemCount'), 0 <= start, L >= 1, start + L <= sel(c(d + '.lengths[]'), index))


def apart_from(c, p, blk):
    return z3.And(z3.Implies(c(p + '.isOwnerOfData'), c(p + '.data.blk') != blk), c(p + '.keoghLower.blk') != blk, c(p + '.keoghUpper.blk') != blk)


@contract
class AddMember(Contract):
    key = 'Group::addMember'
    props = ('C07',)
    params = ('tsIndex', 'tsStart')

    def entry(self, c):
        return mul(c('tsIndex'), c('self.subTimeSeriesCount')) + c('tsStart')

    def requires(self, c):
        e = self.entry(c)
        return [('entry inside the member table', z3.And(0 <= e, e < c('self.memberMap.len')))]

    def sets(self, c):
        e = self.entry(c)
        m = c.val('self.memberMap')
        new = {'[].prev.first': c('self.lastMemberCoord.first'), '[].prev.second': c('self.lastMemberCoord.second'), '[].groupIndex': c('self.groupIndex'), '[].pos': c('self.count')}
        return [(c.lv('self.count'), [c('self.count') + 1]), (c.lv('self.lastMemberCoord'), [c('tsIndex'), c('tsStart')]),
                (c.lv('self.memberMap'), [z3.Store(x, e, new[s]) if s in new else x for (s, _), x in zip(c.eng.types.leaves(m.ty), m.l)])]

    def ghost_exit(self, eng):
        c = eng.ctx()
        lv = c.lv('self.memberMap')
        ty = lv.ty.args[0]
        eng.write(LV(lv.base, lv.steps + [('i', self.entry(c.old)), ('f', 'pos')], INT), Val(INT, [c.old('self.count')]))


@contract
class SetCentroid(Contract):
    key = 'Group::setCentroid'
    variant = 'own'
    props = ('C07',)
    params = ('tsIndex', 'tsStart')

    def requires(self, c):
        return [('dataset well formed', ds_ok(c, 'self.dataset')), ('window exists', window_ok(c, c('tsIndex'), c('tsStart'))),
                ('old representative can be replaced', destroyable(c, 'self.centroid')),
                ('old representative apart from the data set', apart_from(c, 'self.centroid', c('self.dataset.data.blk')))]

    def modifies(self, c):
        return [c.lv('self.centroid')]

    def frees(self, c):
        return [z3.If(c('self.centroid.isOwnerOfData'), c('self.centroid.data.blk'), 0)]

    def ensures(self, c):
        p = 'self.centroid'
        i, s, L = c('tsIndex'), c('tsStart'), c('self.memberLength')
        return [('the representative is the window', z3.And(c(p + '.index') == i, c(p + '.start') == s, c(p + '.end') == s + L, c(p + '.length') == L, z3.Not(c(p + '.isOwnerOfData')),
                                                          c(p + '.data.blk') == c('self.dataset.data.blk'), c(p + '.data.off') == c('self.dataset.data.off') + mul(i, c('self.dataset.maxCol')))),
                ('can be replaced again', destroyable(c, p))]


def half(c):
    return fdiv(c.old('threshold'), z3.RealVal(2))


def done_upto(c, start, idx):
    v = View(c)
    return lambda i, s: z3.And(v.fits(i, s), z3.Or(s < start, z3.And(s == start, i < idx)))


def keeps(c, cls, fields):
    """objects that existed before keep the fields"""
    r, = q('r')
    out = []
    for x in fields:
        x, leaf = (x.split('.', 1) + [''])[:2]
        new, old = sel(c.hf(cls, x, leaf and '.' + leaf), r), sel(c.old.hf(cls, x, leaf and '.' + leaf), r)
        out.append(('older objects keep their ' + x, forall(r, Imp(sel(c.old.alive(cls), r), new == old), new)))
    return out


MEMBERS = 'std::vector<group_membership_t>'


def untouched(c):
    v = View(c)
    k, b, = q('k', 'b')
    out = [('data unchanged', sel(c.mem(), v.blk) == v.A), v.new(lambda b: z3.Not(sel(c.old.alive('Group'), b)))] + keeps(c, 'Group', ('count', 'lastMemberCoord.first', 'lastMemberCoord.second'))
    for x in ('prev.first', 'prev.second', 'groupIndex', 'pos'):
        new, old = sel(c.box(MEMBERS, '[].' + x), b), sel(c.old.box(MEMBERS, '[].' + x), b)
        out.append(('other member tables keep ' + x, forall(b, Imp(b != v.mref, new == old), new)))
    return out


def grouped(c, done):
    v, f = View(c), c.old('pairwiseDistance')
    return v.all(done) + [v.close(done, f, half(c)), v.apart(f, half(c))]


def best_inv(c):
    v, f = View(c), c.old('pairwiseDistance')
    k, = q('k')
    i, b, bi = c('i'), c('bestSoFar'), c('bestSoFarIndex')
    d = lambda k: v.dist(f, k, c('idx'), c('start'))
    return [('counter', z3.And(0 <= i, i <= v.ng)),
            ('best is the least so far', z3.And(b <= INF, forall(k, Imp(between(0, k, i), b <= d(k)), v.g(k)))),
            ('best is attained', Imp(b < INF, z3.And(0 <= bi, bi < i, b == d(bi))))]


def offsets(c):
    v = View(c)
    i = c('i')
    return [MarkG(i) == 0,
            ('where the representative lies', Imp(between(0, i, v.ng), z3.And(v.f(i, 'centroid', '.data.off') + v.f(i, 'centroid', '.start') == v.win(*v.rep(i)), v.f(i, 'centroid', '.data.blk') == v.blk, v.f(i, 'centroid', '.length') == v.L))),
            ('where the window lies', c('query.data.off') + c('query.start') == v.win(c('idx'), c('start')))]


def slots_here(c):
    v = View(c)
    return [v.slot(c('idx'), c('start')) == v.slot(c('idx'), c('start'))]


@contract
class GenerateGroups(Contract):
    key = 'LocalLengthGroupSpace::generateGroups'
    creates = ('Group',)
    props = ('C07',)
    params = ('pairwiseDistance', 'threshold')
    lemmas = ('MulFacts', 'Slots')
    assumes = GROUP_ASSUMES
    allocates = True
    loops = {0: Loop(lambda c: [('counter', z3.And(0 <= c('start'), c('start') <= c('self.subTimeSeriesCount')))] + grouped(c, done_upto(c, c('start'), 0)) + untouched(c),
                     decreases=lambda c: c('self.subTimeSeriesCount') - c('start')),
             1: Loop(lambda c: [('counter', z3.And(0 <= c('idx'), c('idx') <= c('self.dataset.itemCount')))] + grouped(c, done_upto(c, c('start'), c('idx'))) + untouched(c),
                     decreases=lambda c: c('self.dataset.itemCount') - c('idx'), hints=slots_here),
             2: Loop(best_inv, decreases=lambda c: c('self.groups.len') - c('i'), hints=offsets, exit_hints=lambda c: [MarkG(c('bestSoFarIndex')) == 0])}

    def requires(self, c):
        L = c('self.length')
        v = View(c)
        o, = q('o')
        return [('dataset well formed', ds_ok(c, 'self.dataset')), v.shape(), ('no groups yet', v.ng == 0), ('shared dummy alignment is not empty', c('gNoMatching.len') > 0), ('band ratio is not negative', c.glob('warpingBandRatio') >= 0),
                ('threshold is finite and not negative', z3.And(0 <= fdiv(c('threshold'), z3.RealVal(2)), fdiv(c('threshold'), z3.RealVal(2)) < INF)),
                ('a window has distance zero from itself', forall(o, Dist(c('pairwiseDistance'), v.A, o, L, v.A, o, L) == 0, Dist(c('pairwiseDistance'), v.A, o, L, v.A, o, L))),
                ('distance defined for equal lengths', z3.Not(DistThrows(c('pairwiseDistance'), L, L)))]

    def facts(self, eng):
        c = eng.ctx()
        return slot_facts(c('self.subTimeSeriesCount')) + win_facts(c('self.dataset.data.off'), c('self.dataset.maxCol'))

    def modifies(self, c):
        return [c.lv('self.groups'), c.lv('self.memberMap'), ('global', 'gLastTime')]

    def ensures(self, c):
        v = View(c)
        return grouped(c, v.fits) + [v.new(lambda b: z3.Not(sel(c.old.alive('Group'), b))), ('reports the number of groups', c('res') == v.ng)]


class One:
    """a single group and its members"""

    def __init__(self, c, p='self'):
        self.c = c
        d = p + '.dataset'
        self.n, self.M = c(d + '.itemCount'), c(d + '.maxCol')
        self.blk, self.off = c(d + '.data.blk'), c(d + '.data.off')
        self.lens = c(d + '.lengths[]')
        self.A = sel(c.old.mem(), self.blk)
        self.sub, self.L = c(p + '.subTimeSeriesCount'), c(p + '.memberLength')
        self.gi, self.pos, self.pi, self.ps = [c(p + '.memberMap[].' + x) for x in ('groupIndex', 'pos', 'prev.first', 'prev.second')]
        self.mlen = c(p + '.memberMap.len')
        self.count, self.G = c(p + '.count'), c(p + '.groupIndex')
        self.last = c(p + '.lastMemberCoord.first'), c(p + '.lastMemberCoord.second')
        self.rep = c(p + '.centroid.index'), c(p + '.centroid.start')

    def slot(self, i, s):
        return Sl(self.sub, i, s)

    def has(self, i, s):
        return z3.And(0 <= i, i < self.n, 0 <= s, s + self.L <= sel(self.lens, i), sel(self.gi, self.slot(i, s)) == self.G)

    def at(self, i, s):
        return sel(self.pos, self.slot(i, s))

    def win(self, i, s):
        return Win(self.off, self.M, i, s)

    def dist(self, f, Q, i, s):
        return Dist(f, *Q, self.A, self.win(i, s), self.L)

    def ok(self):
        i, s, j, t = q('i', 's', 'j', 't')
        e, d = self.slot(i, s), self.slot(j, t)
        pi, ps = sel(self.pi, e), sel(self.ps, e)
        return [('member table covers every window', z3.And(self.L >= 1, self.sub == self.M - self.L + 1, self.sub >= 1, self.mlen == mul(self.n, self.sub))),
                ('the group is not empty', self.count >= 1),
                ('members have places', forall([i, s], Imp(self.has(i, s), z3.And(0 <= self.at(i, s), self.at(i, s) < self.count)), e)),
                ('members have different places', forall([i, s, j, t], Imp(z3.And(self.has(i, s), self.has(j, t), self.at(i, s) == self.at(j, t)), z3.And(i == j, s == t)), [e, d])),
                ('members are linked', forall([i, s], Imp(z3.And(MarkW(i, s) == 0, self.has(i, s)), z3.If(self.at(i, s) == 0, pi == -1, z3.And(self.has(pi, ps), self.at(pi, ps) == self.at(i, s) - 1))), MarkW(i, s))),
                ('the last member is known', z3.And(self.has(*self.last), self.at(*self.last) == self.count - 1)),
                ('the representative is a member', self.has(*self.rep))]

    def facts(self):
        return slot_facts(self.sub) + win_facts(self.off, self.M) + [self.slot(*self.last) == self.slot(*self.last), self.slot(*self.rep) == self.slot(*self.rep)]


def query(c, p='query'):
    return sel(c.old.mem(), c(p + '.data.blk')), c(p + '.data.off') + c(p + '.start'), c(p + '.length')


def cur(c):
    return c('currentMemberCoord.first'), c('currentMemberCoord.second')


def walk(c):
    """the walk along the links: everything behind the current member has been seen"""
    v = One(c)
    i, s = cur(c)
    return v, i, s, lambda a, b: z3.And(v.has(a, b), z3.Or(i == -1, v.at(a, b) > v.at(i, s)))


def walk_inv(c):
    v, i, s, seen = walk(c)
    return ('on a member', z3.Or(i == -1, v.has(i, s)))


def walk_measure(c):
    v, i, s, seen = walk(c)
    return z3.If(i == -1, 0, v.at(i, s) + 1)


def walk_hints(c):
    v, i, s, seen = walk(c)
    return [MarkW(i, s) == 0, v.slot(i, s) == v.slot(i, s),
            ('entry inside the table', Imp(i != -1, z3.And(0 <= v.slot(i, s), v.slot(i, s) < v.mlen))),
            ('next member', Imp(i != -1, z3.Or(sel(v.pi, v.slot(i, s)) == -1, v.has(sel(v.pi, v.slot(i, s)), sel(v.ps, v.slot(i, s))))))]


def match_inv(c):
    v, i, s, seen = walk(c)
    Q, f, b = query(c.old), c.old('warpedDistance'), c('bestSoFarDist')
    m = c('bestSoFarMember.first'), c('bestSoFarMember.second')
    a, t = q('i', 's')
    return [walk_inv(c), ('best is the least so far', z3.And(b <= INF, forall([a, t], Imp(seen(a, t), b <= v.dist(f, Q, a, t)), v.slot(a, t)))),
            ('best is attained', Imp(b < INF, z3.And(v.has(*m), b == v.dist(f, Q, *m))))]


@contract
class GroupBestMatch(Contract):
    key = 'Group::getBestMatch'
    props = ('C08',)
    params = ('query', 'warpedDistance')
    lemmas = ('MulFacts', 'Slots')
    assumes = GROUP_ASSUMES
    allocates = True
    loops = {0: Loop(match_inv, decreases=walk_measure, hints=walk_hints)}

    def requires(self, c):
        v, Q, f = One(c), query(c), c('warpedDistance')
        return [('dataset well formed', ds_ok(c, 'self.dataset'))] + v.ok() + [
            ('query well formed', ts_ok(c, 'query')), ('shared dummy alignment is not empty', c('gNoMatching.len') > 0), ('band ratio is not negative', c.glob('warpingBandRatio') >= 0), ('distance defined for these lengths', z3.Not(DistThrows(f, Q[2], v.L))),
            ('the representative can be aligned', v.dist(f, Q, *v.rep) < INF)]

    def facts(self, eng):
        return One(eng.ctx()).facts()

    def ensures(self, c):
        v, Q, f = One(c.old), query(c.old), c.old('warpedDistance')
        i, s = q('i', 's')
        w = c('res.data.index'), c('res.data.start')
        return [('a member of the group', z3.And(v.has(*w), c('res.data.end') == w[1] + v.L, c('res.data.length') == v.L, c('res.data.data.blk') == v.blk, c('res.data.data.off') == v.off + mul(w[0], v.M))),
                ('with its exact distance', c('res.dist') == v.dist(f, Q, *w)),
                ('no member is closer', forall([i, s], Imp(v.has(i, s), c('res.dist') <= v.dist(f, Q, i, s)), v.slot(i, s)))]


def collect_inv(c):
    v, i, s, seen = walk(c)
    n, at = c('members.len'), q('k')[0]
    a, t = q('i', 's')
    m = lambda x: sel(c('members[].' + x), at)
    return [walk_inv(c), ('as many as passed', n == z3.If(i == -1, v.count, v.count - 1 - v.at(i, s))),
            ('members in order', forall(at, Imp(between(0, at, n), z3.And(v.has(m('index'), m('start')), v.at(m('index'), m('start')) == v.count - 1 - at, m('length') == v.L, m('data.blk') == v.blk,
                                                                      m('data.off') == v.off + mul(m('index'), v.M), m('end') == m('start') + v.L, z3.Not(m('isOwnerOfData')))), m('index')))]


@contract
class GetMembers(Contract):
    key = 'Group::getMembers'
    props = ('C07',)
    params = ()
    lemmas = ('MulFacts', 'Slots')
    allocates = True
    loops = {0: Loop(collect_inv, decreases=walk_measure, hints=walk_hints)}

    def requires(self, c):
        return [('dataset well formed', ds_ok(c, 'self.dataset'))] + One(c).ok()

    def facts(self, eng):
        return One(eng.ctx()).facts()

    def ensures(self, c):
        v = One(c.old)
        k, j, i, s = q('k', 'j', 'i', 's')
        m = lambda x, k: sel(c('res[].' + x), k)
        back = v.count - 1 - v.at(i, s)
        return [('as many as the group has', c('res.len') == v.count),
                ('members of the group', forall(k, Imp(between(0, k, v.count), z3.And(v.has(m('index', k), m('start', k)), m('length', k) == v.L, m('end', k) == m('start', k) + v.L, m('data.blk', k) == v.blk, m('data.off', k) == v.off + mul(m('index', k), v.M), z3.Not(m('isOwnerOfData', k)))), m('index', k))),
                ('the last one added first', forall(k, Imp(between(0, k, v.count), v.at(m('index', k), m('start', k)) == v.count - 1 - k), m('index', k))),
                ('every member', forall([i, s], Imp(z3.And(MarkW(i, s) == 0, v.has(i, s)), z3.And(m('index', back) == i, m('start', back) == s)), MarkW(i, s))),
                ('each once', forall([j, k], Imp(z3.And(0 <= j, j < k, k < v.count), z3.Or(m('index', j) != m('index', k), m('start', j) != m('start', k))), [m('index', j), m('index', k)]))]


@contract
class BestGroup(Contract):
    key = 'LocalLengthGroupSpace::getBestGroup'
    props = ('C08',)
    params = ('query', 'warpedDistance', 'dropout')
    assumes = GROUP_ASSUMES

    def dist(self, c, k):
        v = View(c)
        return Dist(c.old('warpedDistance'), v.A, v.win(*v.rep(k)), v.L, *query(c.old))

    def inv(self, c):
        v = View(c)
        i, b, g = c('i'), c('bestSoFarDist'), c('bestSoFarGroup')
        gi = sel(c.hf('Group', 'groupIndex'), g)
        k, = q('k')
        return [('counter', z3.And(0 <= i, i <= v.ng)),
                ('best is the least so far', z3.And(b <= c.old('dropout'), forall(k, Imp(between(0, k, i), b <= self.dist(c, k)), v.g(k)))),
                ('best is attained', z3.If(g == 0, b == c.old('dropout'), z3.And(b < c.old('dropout'), 0 <= gi, gi < i, v.g(gi) == g, b == self.dist(c, gi))))]

    def here(self, c):
        v = View(c)
        i = c('i')
        return [MarkG(i) == 0, ('where the representative lies', Imp(between(0, i, v.ng), z3.And(v.f(i, 'centroid', '.data.off') + v.f(i, 'centroid', '.start') == v.win(*v.rep(i)), v.f(i, 'centroid', '.data.blk') == v.blk, v.f(i, 'centroid', '.length') == v.L)))]

    @property
    def loops(self):
        return {0: Loop(self.inv, decreases=lambda c: c('self.groups.len') - c('i'), hints=self.here)}

    def requires(self, c):
        v = View(c)
        return [('dataset well formed', ds_ok(c, 'self.dataset')), v.shape(), v.objects(), v.reps(v.fits), ('query well formed', ts_ok(c, 'query')), ('shared dummy alignment is not empty', c('gNoMatching.len') > 0), ('band ratio is not negative', c.glob('warpingBandRatio') >= 0),
                ('distance defined for these lengths', z3.Not(DistThrows(c('warpedDistance'), v.L, c('query.length'))))]

    def facts(self, eng):
        c = eng.ctx()
        return win_facts(c('self.dataset.data.off'), c('self.dataset.maxCol'))

    def ensures(self, c):
        v = View(c)
        k, = q('k')
        g, b = c('res.first'), c('res.second')
        gi = sel(c.hf('Group', 'groupIndex'), g)
        return [('no representative is closer', forall(k, Imp(between(0, k, v.ng), b <= self.dist(c, k)), v.g(k))),
                ('nothing found below the cut-off', Imp(g == 0, b == c.old('dropout'))),
                ('the group with its distance', Imp(g != 0, z3.And(b < c.old('dropout'), 0 <= gi, gi < v.ng, v.g(gi) == g, b == self.dist(c, gi))))]


# all lengths together ----------------------------------------------------------------------------
SPACES = 'self.localLengthGroupSpace'


class Spaces:
    """the group spaces of all lengths"""

    def __init__(self, c):
        self.c = c
        self.len, self.refs = c(SPACES + '.len'), c(SPACES + '[]')
        self.dref = c.name('self.dataset')
        self.n, self.M = c('self.dataset.itemCount'), c('self.dataset.maxCol')
        self.blk, self.off = c('self.dataset.data.blk'), c('self.dataset.data.off')
        self.A = sel(c.old.mem(), self.blk)

    def at(self, i):
        return View(self.c, ref=sel(self.refs, i))

    def some(self, i):
        return z3.And(0 <= i, i < self.len, sel(self.refs, i) != 0)

    def ok(self):
        i, = q('l')
        v = self.at(i)
        own = z3.And(sel(self.c.alive('LocalLengthGroupSpace'), sel(self.refs, i)), v.L == i, v.dref == self.dref)
        return [('group spaces', forall(i, Imp(z3.And(MarkL(i) == 0, self.some(i)), z3.And(own, *[g for _, g in v.all(v.fits)])), MarkL(i)))]

    def rep_dist(self, f, i, k, Q):
        v = self.at(i)
        return Dist(f, self.A, Win(self.off, self.M, *v.rep(k)), i, *Q)


def visited(c, Q, l):
    """lengths a search looks at"""
    import order
    return z3.Or(l == Q[2], z3.And(l >= 2, order.alignable_with(c.glob('warpingBandRatio'), Q[2], l)))


@contract
class SpaceBestMatch(Contract):
    key = 'GlobalGroupSpace::getBestMatch'
    props = ('C08',)
    params = ('query',)
    lemmas = ('MulFacts', 'Slots')
    assumes = GROUP_ASSUMES
    allocates = True

    def inv(self, c):
        S, Q, f = Spaces(c), query(c.old), c.old('self.warpedDistance')
        io, b, g = c('io'), c('bestSoFarDist'), c('bestSoFarGroup')
        m, k = q('m', 'k')
        L = sel(c('order[]'), m)
        gl, gi = sel(c.hf('Group', 'memberLength'), g), sel(c.hf('Group', 'groupIndex'), g)
        return [('counter', z3.And(0 <= io, io <= c('order.len'))),
                ('best is the least so far', z3.And(b <= INF, forall([m, k], Imp(z3.And(between(0, m, io), S.some(L), between(0, k, S.at(L).ng)), b <= S.rep_dist(f, L, k, Q)), [L, S.at(L).g(k)]))),
                ('best is attained', z3.If(g == 0, b == INF, z3.And(b < INF, S.some(gl), visited(c, Q, gl), 0 <= gi, gi < S.at(gl).ng, S.at(gl).g(gi) == g, b == S.rep_dist(f, gl, gi, Q))))]

    def here(self, c):
        return [MarkL(sel(c('order[]'), c('io'))) == 0]

    def after(self, c):
        g = c('bestSoFarGroup')
        gl, gi = sel(c.hf('Group', 'memberLength'), g), sel(c.hf('Group', 'groupIndex'), g)
        return [MarkL(gl) == 0, MarkG(gi) == 0]

    @property
    def loops(self):
        return {0: Loop(self.inv, decreases=lambda c: c('order.len') - c('io'), hints=self.here, exit_hints=self.after)}

    def requires(self, c):
        S, Q, f = Spaces(c), query(c), c('self.warpedDistance')
        l, o, n = q('l', 'o', 'n')
        return [('dataset well formed', ds_ok(c, 'self.dataset'))] + S.ok() + [
            ('query well formed', ts_ok(c, 'query')), ('shared dummy alignment is not empty', c('gNoMatching.len') > 0), ('band ratio is not negative', c.glob('warpingBandRatio') >= 0),
            ('grouped', S.len >= 1),
            ('distance defined for all lengths', forall([l, n], Imp(z3.And(l >= 1, n >= 1), z3.Not(DistThrows(f, l, n))), DistThrows(f, l, n))),
            ('distance symmetric', forall([o, l], Dist(f, S.A, o, l, *Q) == Dist(f, *Q, S.A, o, l), Dist(f, S.A, o, l, *Q), Dist(f, *Q, S.A, o, l)))]

    def facts(self, eng):
        c = eng.ctx()
        S = Spaces(c)
        i, s, j, t, m = q('i', 's', 'j', 't', 'm')
        a, b = Sl(m, i, s), Sl(m, j, t)
        ra = c.glob('warpingBandRatio')
        import order
        return win_facts(S.off, S.M) + [forall([m, i, s], a == mul(i, m) + s, a)] + order.gap_facts(ra) + [order.Gap(ra, c('query.length')) == c('query.length') - order.band_of(ra, c('query.length'))]

    def throws(self, c):
        S, Q, f = Spaces(c), query(c), c('self.warpedDistance')
        l, k = q('l', 'k')
        import order
        hit = z3.And(MarkL(l) == 0, MarkG(k) == 0, S.some(l), visited(c, Q, l), between(0, k, S.at(l).ng))
        return z3.Or(c('query.length') <= 1, forall([l, k], Imp(hit, S.rep_dist(f, l, k, Q) >= INF), [MarkL(l), MarkG(k)]))

    def ensures(self, c):
        o = c.old
        S, Q, f = Spaces(o), query(o), o('self.warpedDistance')
        l, k, i, s = q('l', 'k', 'i', 's')
        L, wi, ws = c('res.data.length'), c('res.data.index'), c('res.data.start')
        v = S.at(L)
        g = sel(v.gi, v.slot(wi, ws))
        import order
        return [('an existing window', z3.And(S.some(L), v.fits(wi, ws), c('res.data.data.blk') == S.blk, c('res.data.data.off') == S.off + mul(wi, S.M))),
                ('with its exact distance', c('res.dist') == Dist(f, *Q, S.A, Win(S.off, S.M, wi, ws), L)),
                ('no member of its group is closer', forall([i, s], Imp(z3.And(v.fits(i, s), sel(v.gi, v.slot(i, s)) == g), c('res.dist') <= Dist(f, *Q, S.A, Win(S.off, S.M, i, s), L)), v.slot(i, s))),
                ('no representative is closer than that of its group', forall([l, k], Imp(z3.And(S.some(l), visited(o, Q, l), between(0, k, S.at(l).ng)), S.rep_dist(f, L, g, Q) <= S.rep_dist(f, l, k, Q)), [order.Gap(o.glob('warpingBandRatio'), l), S.at(l).g(k)]))]
