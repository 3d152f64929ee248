"""Saving groups to archives and loading them (C14)."""
from common import *
from groups import *
from series import destroyable

ARCHIVE = ('a boost binary archive gives back the values of each type in the order in which they were written, through the save and load of each class; '
           'reading and writing succeed; an archive in a file is given by its path; compression and class versions are not modelled; an archive that is loaded, if its header fits the data set, holds groups as they are saved')
It = z3.Function('Item', I, I, I)      # place of a group in the archive, number of the member: place of that member


SlI, SlS = [z3.Function(x, I, I, I) for x in ('SlotSeries', 'SlotStart')]      # windows per series, entry of the member table: the window with that entry


def slot_inverse(sub):
    """slot_facts with the window as a function of the entry, which lemma Slots allows"""
    i, s = q('i', 's')
    a = Sl(sub, i, s)
    return [forall([i, s], z3.And(a == mul(i, sub) + s, Imp(z3.And(0 <= i, 0 <= s, s < sub), z3.And(SlI(sub, a) == i, SlS(sub, a) == s))), a)]


MarkI = z3.Function('MarkI', I, I, I)  # constant zero, as MarkG


def item_facts():
    o, j = q('o', 'j')
    return [forall([o, j], MarkI(o, j) == 0, MarkI(o, j)), forall([o, j], It(o, j) == o + 3 + 2 * j, It(o, j))]


class Archive:
    def __init__(self, c, p='ar'):
        self.pos, self.ints, self.sizes, self.nums, self.strs, self.nobj, self.start = [c(p + x) for x in ('.pos', '.ints', '.sizes', '.nums', '.strs', '.nobj', '.start')]

    def rep(self, o):
        return sel(self.ints, o), sel(self.ints, o + 1)

    def count(self, o):
        return sel(self.ints, o + 2)

    def member(self, o, j):
        return sel(self.ints, It(o, j)), sel(self.ints, It(o, j) + 1)

    def before(self, o, j):
        """member j - 1; written so that it is no instance of a fact about member j"""
        return sel(self.ints, It(o, j) - 2), sel(self.ints, It(o, j) - 1)


def kept(new, old):
    """what was written before"""
    z, = q('z')
    return ('what was written stays', z3.And(*[forall(z, Imp(z < old.pos, sel(x, z) == sel(y, z)), sel(x, z)) for x, y in ((new.ints, old.ints), (new.sizes, old.sizes), (new.nums, old.nums), (new.strs, old.strs))]))


def only_ints(new, old):
    return ('only whole numbers are written', z3.And(new.sizes == old.sizes, new.nums == old.nums, new.strs == old.strs, new.start == old.start, new.nobj == old.nobj))


def written(v, a, o, n):
    """the first n members, the last one added first"""
    j, = q('j')
    m = a.member(o, j)
    return ('members in order', forall(j, Imp(between(0, j, n), z3.And(v.has(*m), v.at(*m) == v.count - 1 - j)), It(o, j)))


def save_inv(c):
    v, i, s, seen = walk(c)
    a, b = Archive(c), Archive(c.old)
    n = z3.If(i == -1, v.count, v.count - 1 - v.at(i, s))
    o = b.pos
    return [walk_inv(c), ('as many as passed', a.pos == o + 3 + 2 * n), ('representative and number of members', z3.And(a.rep(o)[0] == v.rep[0], a.rep(o)[1] == v.rep[1], a.count(o) == v.count)),
            written(v, a, o, n), kept(a, b), only_ints(a, b)]


@contract
class SaveGroup(Contract):
    key = 'Group::save<boost::archive::binary_oarchive>'
    props = ('C14',)
    params = ('ar',)
    lemmas = ('MulFacts', 'Slots')
    assumes = (ARCHIVE,)
    loops = {0: Loop(save_inv, decreases=walk_measure, hints=walk_hints)}

    def requires(self, c):
        return [('dataset well formed', ds_ok(c, 'self.dataset'))] + One(c).ok()

    def facts(self, eng):
        return One(eng.ctx()).facts() + item_facts()

    def modifies(self, c):
        return [c.lv('ar')]

    def ensures(self, c):
        v = One(c.old)
        a, b = Archive(c), Archive(c.old)
        o = b.pos
        i, s = q('i', 's')
        m = a.member(o, v.count - 1 - v.at(i, s))
        return [('length', a.pos == o + 3 + 2 * v.count), ('representative and number of members', z3.And(a.rep(o)[0] == v.rep[0], a.rep(o)[1] == v.rep[1], a.count(o) == v.count)),
                written(v, a, o, v.count), ('every member', forall([i, s], Imp(z3.And(MarkW(i, s) == 0, v.has(i, s)), z3.And(m[0] == i, m[1] == s)), MarkW(i, s))),
                kept(a, b), only_ints(a, b)]


def table(c):
    """the entries of the member table"""
    return [c('self.memberMap[].' + x) for x in ('groupIndex', 'pos', 'prev.first', 'prev.second')]


def read_in(c, n):
    """the first n members are in the table, linked in that order; other entries as before"""
    v, a, o = One(c), Archive(c.old), c.old('ar.pos')
    new, old = table(c), table(c.old)
    j, e, = q('j', 'e')
    m, p = a.member(o, j), a.before(o, j)
    x = v.slot(*m)
    w = [sel(a.ints, o + 3 + 2 * sel(new[1], e) + d) for d in (0, 1)]   # member pos[e], but no instance of facts about members
    last = a.member(o, n - 1)
    return [('members so far', forall(j, Imp(between(0, j, n), z3.And(sel(new[0], x) == v.G, sel(new[1], x) == j, z3.If(j == 0, sel(new[2], x) == -1, z3.And(sel(new[2], x) == p[0], sel(new[3], x) == p[1])))), It(o, j))),
            ('other entries as before', forall(e, z3.Or(z3.And(*[sel(y, e) == sel(z, e) for y, z in zip(new, old)]), z3.And(0 <= sel(new[1], e), sel(new[1], e) < n, SlI(v.sub, e) == w[0], SlS(v.sub, e) == w[1], sel(new[0], e) == v.G)), *[sel(y, e) for y in new])),
            ('number of members', c('self.count') == n), ('last member', z3.If(n == 0, v.last[0] == -1, z3.And(v.last[0] == last[0], v.last[1] == last[1]))),
            ('size of the table', v.mlen == c.old('self.memberMap.len'))]


def rep_read(c):
    p = 'self.centroid'
    i, s = Archive(c.old).rep(c.old('ar.pos'))
    L = c('self.memberLength')
    return [('the representative is the window', z3.And(c(p + '.index') == i, c(p + '.start') == s, c(p + '.end') == s + L, c(p + '.length') == L, z3.Not(c(p + '.isOwnerOfData')),
                                                        c(p + '.data.blk') == c('self.dataset.data.blk'), c(p + '.data.off') == c('self.dataset.data.off') + mul(i, c('self.dataset.maxCol')))),
            ('can be replaced again', destroyable(c, p))]


def only_place(c):
    a, b = Archive(c), Archive(c.old)
    return z3.And(a.ints == b.ints, a.sizes == b.sizes, a.nums == b.nums, a.strs == b.strs, a.start == b.start, a.nobj == b.nobj)


def load_inv(c):
    o = c.old('ar.pos')
    i = c('i')
    return [('counter', z3.And(0 <= i, i <= c('cnt'), c('cnt') == Archive(c.old).count(o))), ('read up to here', z3.And(c('ar.pos') == o + 3 + 2 * i, only_place(c)))] + read_in(c, i) + rep_read(c)


def next_item(c):
    v, a, o, i = One(c), Archive(c.old), c.old('ar.pos'), c('i')
    m = a.member(o, i)
    return [It(o, i) == o + 3 + 2 * i, It(o, i - 1) == o + 3 + 2 * (i - 1), ('entry inside the table', Imp(i < c('cnt'), z3.And(0 <= v.slot(*m), v.slot(*m) < v.mlen, v.slot(*m) == mul(m[0], v.sub) + m[1])))]


@contract
class LoadGroup(Contract):
    key = 'Group::load<boost::archive::binary_iarchive>'
    props = ('C14',)
    params = ('ar',)
    lemmas = ('MulFacts', 'Slots')
    assumes = (ARCHIVE,)
    loops = {0: Loop(load_inv, decreases=lambda c: c('cnt') - c('i'), hints=next_item)}

    def requires(self, c):
        v, a = One(c), Archive(c)
        o = a.pos
        j, k = q('j', 'k')
        m, n = a.member(o, j), a.member(o, k)
        return [('dataset well formed', ds_ok(c, 'self.dataset')), ('member table covers every window', z3.And(v.L >= 1, v.sub == v.M - v.L + 1, v.sub >= 1, v.mlen == mul(v.n, v.sub))),
                ('the group is empty', z3.And(v.count == 0, v.last[0] == -1)),
                ('old representative can be replaced', destroyable(c, 'self.centroid')), ('old representative apart from the data set', apart_from(c, 'self.centroid', v.blk)),
                ('the representative in the archive is a window', window_ok(c, *a.rep(o))), ('number of members', a.count(o) >= 0),
                ('the members in the archive are windows', forall(j, Imp(between(0, j, a.count(o)), window_ok(c, *m)), It(o, j))),
                ('each once', forall([j, k], Imp(z3.And(0 <= j, j < k, k < a.count(o)), z3.Or(m[0] != n[0], m[1] != n[1])), [It(o, j), It(o, k)]))]

    def facts(self, eng):
        return slot_inverse(eng.ctx()('self.subTimeSeriesCount')) + item_facts()

    def modifies(self, c):
        return [c.lv(x) for x in ('self.centroid', 'self.count', 'self.lastMemberCoord', 'self.memberMap', 'ar')]

    def frees(self, c):
        return SetCentroid().frees(c)

    def ensures(self, c):
        a, o = Archive(c.old), c.old('ar.pos')
        n = a.count(o)
        return [('read to the end', z3.And(c('ar.pos') == o + 3 + 2 * n, only_place(c)))] + read_in(c, n) + rep_read(c)


InG = z3.Function('InGroup', z3.ArraySort(I, I), I, I, I, I)     # archive, number of the first group, window: its group
InJ = z3.Function('InPlace', z3.ArraySort(I, I), I, I, I, I)     # and its place there


class Groups:
    """groups of one length in an archive, as seen when they are saved or loaded; a: the archive with them, o and n: its state at the beginning"""

    def __init__(self, a, o, first):
        self.a, self.o, self.first = a, o, first
        self.ng = sel(a.sizes, o)

    def at(self, k):
        return sel(self.a.start, self.first + k)

    def count(self, k):
        return self.a.count(self.at(k))

    def rep(self, k):
        return self.a.rep(self.at(k))

    def member(self, k, j):
        return self.a.member(self.at(k), j)

    def before(self, k, j):
        return self.a.before(self.at(k), j)

    def item(self, k, j):
        return It(self.at(k), j)

    def end(self, k):
        """where group k begins, or the groups before it end"""
        return z3.If(k == 0, self.o + 1, self.at(k - 1) + 3 + 2 * self.count(k - 1))

    def places(self, n):
        k, = q('k')
        return ('one group behind the other', forall(k, Imp(z3.And(MarkG(k) == 0, between(0, k, n)), z3.And(self.at(k) == self.end(k), self.count(k) >= 1, Imp(k >= 1, z3.And(self.o < self.at(k - 1), self.at(k - 1) + 3 <= self.at(k))))), MarkG(k)))

    def inside(self, n, end):
        k, = q('k')
        return ('groups end before', forall(k, Imp(z3.And(MarkG(k) == 0, between(0, k, n)), z3.And(self.o < self.at(k), self.at(k) + 3 + 2 * self.count(k) <= end)), MarkG(k)))


class Stored(Groups):
    """groups of one length in an archive that is read, with the group and place of each window"""

    def of(self, i, s):
        return InG(self.a.ints, self.first, i, s), InJ(self.a.ints, self.first, i, s)

    def mark(self, k):
        return []

    def marks(self, i, s):
        return []

    def ok(self, v):
        """they cover the windows of the space v, each once"""
        k, j, i, s = q('k', 'j', 'i', 's')
        G, J = self.of(i, s)
        w, m = self.member(G, J), self.member(k, j)
        return [('number of groups', self.ng >= 0), self.places(self.ng),
                ('every window is stored', forall([i, s], Imp(z3.And(*self.marks(i, s), v.fits(i, s)), z3.And(MarkI(G, J) == 0, 0 <= G, G < self.ng, 0 <= J, J < self.count(G), w[0] == i, w[1] == s)), G, J)),
                ('only windows are stored, each once', forall([k, j], Imp(z3.And(MarkI(k, j) == 0, *self.mark(k), between(0, k, self.ng), between(0, j, self.count(k))), z3.And(v.fits(*m), self.of(*m)[0] == k, self.of(*m)[1] == j)), MarkI(k, j))),
                ('representatives are members', forall(k, Imp(z3.And(MarkG(k) == 0, between(0, k, self.ng)), z3.And(v.fits(*self.rep(k)), self.of(*self.rep(k))[0] == k)), MarkG(k)))]

    def read(self, v, n):
        """the groups before n have been read into the space v"""
        k, i, s = q('k', 'i', 's')
        G, J = self.of(i, s)
        e = v.slot(i, s)
        p, l = self.before(G, J), self.member(k, self.count(k) - 1)
        return [('windows as stored', forall([i, s], Imp(z3.And(MarkW(i, s) == 0, v.fits(i, s), G < n), z3.And(sel(v.gi, e) == G, sel(v.pos, e) == J)), MarkW(i, s))),
                ('links as stored', forall([i, s], Imp(z3.And(MarkW(i, s) == 0, v.fits(i, s), G < n), z3.And(MarkI(G, J - 1) == 0, z3.If(J == 0, sel(v.pi, e) == -1, z3.And(sel(v.pi, e) == p[0], sel(v.ps, e) == p[1])))), MarkW(i, s))),
                ('groups as stored', forall(k, Imp(z3.And(MarkG(k) == 0, between(0, k, n)), z3.And(MarkI(k, self.count(k) - 1) == 0, v.f(k, 'count') == self.count(k), v.rep(k)[0] == self.rep(k)[0], v.rep(k)[1] == self.rep(k)[1],
                                                                               v.f(k, 'lastMemberCoord', '.first') == l[0], v.f(k, 'lastMemberCoord', '.second') == l[1])), MarkG(k)))]


class Saved(Stored):
    """the same for groups just saved: group and place of a window as the space v has them"""

    def __init__(self, a, o, first, v):
        Stored.__init__(self, a, o, first)
        self.v = v

    def of(self, i, s):
        e = self.v.slot(i, s)
        G = sel(self.v.gi, e)
        return G, self.v.f(G, 'count') - 1 - sel(self.v.pos, e)

    def mark(self, k):
        return [MarkG(k) == 0]

    def marks(self, i, s):
        return [MarkW(i, s) == 0, MarkG(self.of(i, s)[0]) == 0]


def fields_at(v, g, a, o, n):
    """groups before n of the space v as written"""
    k, j, i, s = q('k', 'j', 'i', 's')
    m = g.member(k, j)
    e, x = v.slot(i, s), v.slot(*m)
    G = sel(v.gi, e)
    w = g.member(G, v.f(G, 'count') - 1 - sel(v.pos, e))
    return [('representatives and numbers of members', forall(k, Imp(z3.And(MarkG(k) == 0, between(0, k, n)), z3.And(g.count(k) == v.f(k, 'count'), g.rep(k)[0] == v.rep(k)[0], g.rep(k)[1] == v.rep(k)[1])), MarkG(k))),
            ('only members', forall([k, j], Imp(z3.And(MarkI(k, j) == 0, MarkG(k) == 0, between(0, k, n), between(0, j, v.f(k, 'count'))), z3.And(v.fits(*m), sel(v.gi, x) == k, sel(v.pos, x) == v.f(k, 'count') - 1 - j)), MarkI(k, j))),
            ('every window', forall([i, s], Imp(z3.And(MarkW(i, s) == 0, MarkG(G) == 0, v.fits(i, s), G < n), z3.And(w[0] == i, w[1] == s)), MarkW(i, s)))]


def same_but(new, old):
    return z3.And(new.nums == old.nums, new.strs == old.strs)


def starts_kept(new, old):
    z, = q('z')
    return ('places of older objects stay', forall(z, Imp(z < old.nobj, sel(new.start, z) == sel(old.start, z)), sel(new.start, z)))


def save_groups_inv(c):
    v, a, b = View(c), Archive(c), Archive(c.old)
    g = Groups(a, b.pos, b.nobj)
    n = c('__i')
    return [('counter', z3.And(0 <= n, n <= v.ng)), ('written up to here', z3.And(a.pos == g.end(n), a.pos >= b.pos + 1, a.nobj == b.nobj + n)), ('number of groups', g.ng == v.ng), g.places(n),
            g.inside(n, a.pos)] + fields_at(v, g, a, b.pos, n) + [kept(a, b), starts_kept(a, b), ('no texts', same_but(a, b))]


@contract
class SaveGroups(Contract):
    key = 'LocalLengthGroupSpace::save<boost::archive::binary_oarchive>'
    props = ('C14',)
    params = ('ar',)
    lemmas = ('MulFacts', 'Slots')
    assumes = (ARCHIVE,)
    loops = {0: Loop(save_groups_inv, decreases=lambda c: c('self.groups.len') - c('__i'), hints=lambda c: [MarkG(c('__i')) == 0, MarkG(c('__i') - 1) == 0])}

    def requires(self, c):
        v = View(c)
        return [('dataset well formed', ds_ok(c, 'self.dataset'))] + v.all(v.fits)

    def facts(self, eng):
        c = eng.ctx()
        return slot_facts(c('self.subTimeSeriesCount')) + win_facts(c('self.dataset.data.off'), c('self.dataset.maxCol')) + item_facts()

    def modifies(self, c):
        return [c.lv('ar')]

    def ensures(self, c):
        v, a, b = View(c), Archive(c), Archive(c.old)
        g = Saved(a, b.pos, b.nobj, v)
        return [('can be loaded: ' + n, x) for n, x in g.ok(v)] + [('number of groups', g.ng == v.ng), ('length', z3.And(a.pos == g.end(v.ng), a.pos >= b.pos + 1, a.nobj == b.nobj + v.ng)), g.places(v.ng), g.inside(v.ng, a.pos)] + fields_at(v, g, a, b.pos, v.ng) + [kept(a, b), starts_kept(a, b), ('no texts', same_but(a, b))]


def load_groups_inv(c):
    v, a, b = View(c), Archive(c), Archive(c.old)
    g = Stored(b, b.pos, b.nobj)
    n = c('i')
    k, = q('k')
    i, s = v.rep(k)
    where = z3.And(v.f(k, 'centroid', '.length') == v.L, v.f(k, 'centroid', '.end') == s + v.L, v.f(k, 'centroid', '.data.blk') == v.blk, v.f(k, 'centroid', '.data.off') == v.off + mul(i, v.M), z3.Not(v.f(k, 'centroid', '.isOwnerOfData')))
    return [('counter', z3.And(0 <= n, n <= g.ng, v.ng == n, c('numberOfGroups') == g.ng)), ('read up to here', z3.And(a.pos == g.end(n), a.nobj == b.nobj + n, a.ints == b.ints, a.sizes == b.sizes, a.nums == b.nums, a.strs == b.strs, a.start == b.start)),
            v.shape(), v.objects(), ('representatives lie in the data set', forall(k, Imp(z3.And(MarkG(k) == 0, between(0, k, n)), where), MarkG(k)))] + g.read(v, n) + untouched(c)


def load_groups_hints(c):
    v, b, n = View(c), Archive(c.old), c('i')
    c.eng.table_before = v.gi, v.pos, v.pi, v.ps
    g = Stored(b, b.pos, b.nobj)
    j, = q('j')
    m = g.member(n, j)
    return [MarkG(n) == 0, MarkG(n - 1) == 0,
            ('members of the next group', Imp(n < g.ng, forall(j, Imp(z3.And(MarkI(n, j) == 0, between(0, j, g.count(n))), z3.And(v.fits(*m), g.of(*m)[0] == n, g.of(*m)[1] == j)), g.item(n, j))))]


def just_read(c):
    """the windows of the group just read"""
    v, b = View(c), Archive(c.old)
    g = Stored(b, b.pos, b.nobj)
    n = c('i')
    i, s = q('i', 's')
    G, J = g.of(i, s)
    e = v.slot(i, s)
    j, = q('j')
    x, p, h = v.slot(*g.member(n, j)), g.before(n, j), g.before(n, J)
    P = sel(v.pos, e)
    return [('entries of this group', forall(j, Imp(between(0, j, g.count(n)), z3.And(sel(v.gi, x) == n, sel(v.pos, x) == j, z3.If(j == 0, sel(v.pi, x) == -1, z3.And(sel(v.pi, x) == p[0], sel(v.ps, x) == p[1])))), g.item(n, j))),
            ('windows of this group', forall([i, s], Imp(z3.And(MarkW(i, s) == 0, v.fits(i, s), G == n), z3.And(sel(v.gi, e) == G, sel(v.pos, e) == J)), MarkW(i, s))),
            ('members of this group', forall(j, Imp(z3.And(MarkI(n, j) == 0, between(0, j, g.count(n))), z3.And(v.fits(*g.member(n, j)), g.of(*g.member(n, j))[0] == n)), g.item(n, j))),
            ('windows of other groups', forall([i, s], Imp(z3.And(MarkW(i, s) == 0, g.item(n, P) == g.at(n) + 3 + 2 * P, v.fits(i, s), G < n), z3.And(*[sel(x, e) == sel(y, e) for x, y in zip((v.gi, v.pos, v.pi, v.ps), c.eng.table_before)])), MarkW(i, s))),
            ('links of this group', forall([i, s], Imp(z3.And(MarkW(i, s) == 0, v.fits(i, s), G == n), z3.If(J == 0, sel(v.pi, e) == -1, z3.And(sel(v.pi, e) == h[0], sel(v.ps, e) == h[1]))), MarkW(i, s))),
            ('only these entries', forall([i, s], Imp(z3.And(MarkW(i, s) == 0, g.item(n, sel(v.pos, e)) == g.at(n) + 3 + 2 * sel(v.pos, e), v.fits(i, s), sel(v.gi, e) == n, between(0, sel(v.pos, e), g.count(n)), *[x == y for x, y in zip(g.member(n, sel(v.pos, e)), (i, s))]), G == n), MarkW(i, s)))]


def all_read(c):
    v, b = View(c), Archive(c.old)
    g = Stored(b, b.pos, b.nobj)
    i, s = q('i', 's')
    G, J = g.of(i, s)
    e = v.slot(i, s)
    return [('every window has been read', forall([i, s], Imp(z3.And(MarkW(i, s) == 0, MarkG(G) == 0, v.fits(i, s)), z3.And(sel(v.gi, e) == G, sel(v.pos, e) == J, 0 <= G, G < v.ng, 0 <= J, J < v.f(G, 'count'))), e))]


@contract
class LoadGroups(Contract):
    key = 'LocalLengthGroupSpace::load<boost::archive::binary_iarchive>'
    creates = ('Group',)
    props = ('C14',)
    params = ('ar',)
    lemmas = ('MulFacts', 'Slots')
    assumes = (ARCHIVE,)
    allocates = True
    loops = {0: Loop(load_groups_inv, decreases=lambda c: c('numberOfGroups') - c('i'), hints=load_groups_hints, end_hints=just_read, exit_hints=all_read)}

    def requires(self, c):
        v, a = View(c), Archive(c)
        return [('dataset well formed', ds_ok(c, 'self.dataset')), v.shape(), ('no groups yet', v.ng == 0)] + Stored(a, a.pos, a.nobj).ok(v)

    def facts(self, eng):
        c = eng.ctx()
        return slot_inverse(c('self.subTimeSeriesCount')) + win_facts(c('self.dataset.data.off'), c('self.dataset.maxCol')) + item_facts()

    def modifies(self, c):
        return [c.lv('self.groups'), c.lv('self.memberMap'), c.lv('ar')]

    def ensures(self, c):
        v, a, b = View(c), Archive(c), Archive(c.old)
        g = Stored(b, b.pos, b.nobj)
        return [('number of groups', v.ng == g.ng), ('read to the end', z3.And(a.pos == g.end(g.ng), a.nobj == b.nobj + g.ng, a.ints == b.ints, a.sizes == b.sizes, a.nums == b.nums, a.strs == b.strs, a.start == b.start))] + g.read(v, g.ng) + v.all(v.fits) + [v.new(lambda b: z3.Not(sel(c.old.alive('Group'), b)))]
