"""Saving and loading the groups of all lengths (C14)."""
from common import *
from groups import *
from grouping import *
from saving import *
import registry

# number of the group space of each length among the objects of the archive
GHOST_VARS['numbers'] = Ty('heap', INT)
NUMBERS = ('gg', 'numbers')
# and where it ends
GHOST_VARS['ends'] = Ty('heap', INT)
ENDS = ('gg', 'ends')

PlL = z3.Function('SpacePlace', I, I, I)       # place of the first group space in the archive, length: place of the space of that length
NoL = z3.Function('SpaceNumber', I, I, I)      # and its number among the objects


MarkC = z3.Function('MarkC', I, I)             # constant zero, as MarkL


class Windows:
    """the windows of one length"""

    def __init__(self, c, L, ds='self.dataset'):
        self.n, self.lens, self.L = c(ds + '.itemCount'), c(ds + '.lengths[]'), L

    fits = View.fits


class Header:
    """the groups of all lengths in an archive that is read from place o on"""

    def __init__(self, a):
        self.a, self.o, self.no = a, a.pos, a.nobj
        self.lo, self.hi, self.name, self.threshold = sel(a.sizes, self.o), sel(a.sizes, self.o + 1), sel(a.strs, self.o + 2), sel(a.nums, self.o + 3)

    def place(self, l):
        return PlL(self.o, l)

    def number(self, l):
        return NoL(self.o, l)

    def at(self, l):
        return Stored(self.a, self.place(l), self.number(l) + 1)

    def ok(self, c, ds='self.dataset'):
        l, = q('l')
        g = self.at(l)
        here = z3.And(MarkL(l) == 0, self.lo <= l, l < self.hi)
        return [('lengths', z3.And(1 <= self.lo, self.hi <= c(ds + '.maxCol') + 1)), ('first space', z3.And(self.place(self.lo) == self.o + 4, self.number(self.lo) == self.no)),
                ('one space behind the other', forall(l, Imp(z3.And(here, *self.marks(l)), z3.And(self.place(l + 1) == g.end(g.ng), self.number(l + 1) == self.number(l) + 1 + g.ng)), MarkL(l)))] + [
                (n, forall(l, Imp(here, x), MarkL(l))) for n, x in g.ok(Windows(c, l, ds))]

    def marks(self, l):
        return []

    def groups(self, l):
        """number of groups of the lengths before l"""
        return self.number(l) - self.no - (l - self.lo)


def unchanged(a, b):
    return z3.And(a.ints == b.ints, a.sizes == b.sizes, a.nums == b.nums, a.strs == b.strs, a.start == b.start)


def spaces_read(c, i, h=None):
    """the lengths below i have been read"""
    h, S = h or Header(Archive(c.old)), Spaces(c)
    l, = q('l')
    v, g = S.at(l), h.at(l)
    new = is_new(c)
    r = sel(S.refs, l)
    each = [('a space of its own', z3.And(r > 0, sel(c.alive('LocalLengthGroupSpace'), r), v.L == l, v.dref == S.dref, table_exists(c, v.mref), new['LocalLengthGroupSpace'](r))), ('number of groups of the space', v.ng == g.ng)]
    each += v.all(v.fits) + [v.new(new['Group'])] + g.read(v, g.ng)
    return [('lengths', S.len == S.M + 1), ('no space of another length', forall(l, Imp(z3.And(0 <= l, l < S.len, z3.Or(l < h.lo, l >= i)), sel(S.refs, l) == 0), sel(S.refs, l)))] + [
            (x, forall(l, Imp(z3.And(MarkL(l) == 0, h.lo <= l, l < i), f), MarkL(l))) for x, f in each]


def load_spaces_inv(c):
    a, b = Archive(c), Archive(c.old)
    h, i = Header(b), c('i')
    return [('counter', z3.And(h.lo <= i, z3.Or(i <= h.hi, i == h.lo), c('minLen') == h.lo, c('maxLen') == h.hi)), ('read up to here', z3.And(a.pos == h.place(i), a.nobj == h.number(i), unchanged(a, b))),
            ('total', c('self.totalNumberOfGroups') == h.groups(i))] + spaces_read(c, i)


@contract
class LoadSpaces(ByName):
    key = 'GlobalGroupSpace::load<boost::archive::binary_iarchive>'
    creates = ('LocalLengthGroupSpace', 'Group', 'box ' + MEMBERS)
    props = ('C14',)
    params = ('ar',)
    lemmas = ('MulFacts', 'Slots')
    assumes = (ARCHIVE,)
    allocates = True
    loops = {0: Loop(load_spaces_inv, decreases=lambda c: c('maxLen') - c('i'), hints=lambda c: [MarkL(c('i')) == 0])}

    def named(self, c):
        n = Header(Archive(c.old)).name
        return n, strcat(n, c.eng.string('_dtw')), n == c.eng.string('euclidean')

    def requires(self, c):
        return [('dataset well formed', ds_ok(c, 'self.dataset')), ('map of distances empty or filled', registry.registry_ok(c)), ('no spaces yet', c('self.localLengthGroupSpace.len') == 0), ('data with points', z3.And(c('self.dataset.itemCount') >= 1, c('self.dataset.maxCol') >= 1))] + Header(Archive(c)).ok(c)

    def facts(self, eng):
        return dtw_facts(eng) + item_facts()

    def modifies(self, c):
        return [c.lv('self.' + x) for x in ('distanceName', 'pairwiseDistance', 'warpedDistance', 'localLengthGroupSpace', 'threshold', 'wholeSeriesOnly', 'totalNumberOfGroups')] + [('global', 'gAllDistanceMap'), c.lv('ar')]

    def throws(self, c):
        return self.unknown(c)

    def on_throw(self, c):
        return ByName.on_throw(self, c) + [('no spaces', c('self.localLengthGroupSpace.len') == 0)]

    def ensures(self, c):
        a, b = Archive(c), Archive(c.old)
        h = Header(b)
        end = z3.If(h.lo <= h.hi, h.hi, h.lo)
        return self.loaded(c) + [('threshold as stored', c('self.threshold') == h.threshold), ('total', c('self.totalNumberOfGroups') == h.groups(end)), ('whole series only', c('self.wholeSeriesOnly') == (h.lo + 1 == h.hi)),
                                 ('read to the end', z3.And(a.pos == h.place(end), a.nobj == h.number(end), unchanged(a, b)))] + spaces_read(c, end)


@contract
class LoadSet(ByName):
    key = 'GroupableTimeSeriesSet::load<boost::archive::binary_iarchive>'
    creates = ('GlobalGroupSpace',) + LoadSpaces.creates
    props = ('C14',)
    params = ('ar',)
    self_mode = 'heap'
    lemmas = LoadSpaces.lemmas
    assumes = (ARCHIVE,)
    allocates = True

    def header(self, c):
        """behind the number and the length of the series"""
        a = self.archive(c)
        a.pos, a.nobj = a.pos + 2, a.nobj + 1
        return Header(a)

    def named(self, c):
        n = self.header(c.old).name
        return n, strcat(n, c.eng.string('_dtw')), n == c.eng.string('euclidean')

    def archive(self, c):
        return Archive(c)

    def fitting(self, c):
        a = self.archive(c)
        return z3.And(sel(a.ints, a.pos) == c('self.itemCount'), sel(a.ints, a.pos + 1) == c('self.maxCol'))

    def requires(self, c):
        g = c('self.groupsAllLengthSet')
        pre = [('dataset well formed', ds_ok(c, 'self')), ('data with points', z3.And(c('self.itemCount') >= 1, c('self.maxCol') >= 1))] + self.header(c).ok(c, 'self')
        return [('map of distances empty or filled', registry.registry_ok(c)), ('groups exist', Imp(g != 0, z3.And(sel(c.alive('GlobalGroupSpace'), g), *[x for _, x in OwnedSpaces(at_space(c, g)).ok()])))] + [
                (x, Imp(self.fitting(c), y)) for x, y in pre]

    def facts(self, eng):
        return dtw_facts(eng) + item_facts()

    def modifies(self, c):
        return [c.lv('self.groupsAllLengthSet'), ('global', 'gAllDistanceMap'), c.lv('ar')]

    def destroys(self, c):
        return GroupSet().destroys(c)

    def throws(self, c):
        return z3.Or(z3.Not(self.fitting(c.old)), self.unknown(c))

    def on_throw(self, c):
        return GroupSet.on_throw(self, c)

    def ensures(self, c):
        g = c('self.groupsAllLengthSet')
        v = at_space(c, g)
        h = self.header(c.old)
        end = z3.If(h.lo <= h.hi, h.hi, h.lo)
        return [('a new group space', z3.And(g > 0, z3.Not(sel(c.old.alive('GlobalGroupSpace'), g)), sel(c.alive('GlobalGroupSpace'), g), v.name('self.dataset') == c.name('self')))] + self.loaded(v) + spaces_read(v, end, h) + Spaces(v).ok() + [
                ('threshold as stored', v('self.threshold') == h.threshold), ('total', v('self.totalNumberOfGroups') == h.groups(end))]


class SavedSpaces:
    """the group spaces of the lengths from lo on in an archive"""

    def __init__(self, c, before=None):
        self.c, self.a, self.b, self.S = c, Archive(c), before or Archive(c.old), Spaces(c)
        self.numbers, self.ends = c('numbers'), c('ends')

    def at(self, l):
        N = sel(self.numbers, l)
        return Saved(self.a, sel(self.a.start, N), N + 1, self.S.at(l))

    def ok(self, lo, i):
        """those below i are written one behind the other"""
        l, = q('l')
        a, b = self.a, self.b
        g, v, n, E = self.at(l), self.S.at(l), self.at(l + 1), sel(self.ends, l)
        each = [('inside the archive', z3.And(b.pos + 4 <= g.o, g.o < E, E <= a.pos, b.nobj < g.first, g.first + v.ng <= a.nobj)), ('number of groups of the space', g.ng == v.ng), g.inside(v.ng, E)] + g.ok(v) + fields_at(v, g, a, g.o, v.ng)[:1]
        return [('first space', Imp(i > lo, z3.And(sel(self.numbers, lo) == b.nobj, self.at(lo).o == b.pos + 4))),
                ('end of the last space', z3.If(i == lo, z3.And(a.pos == b.pos + 4, a.nobj == b.nobj), z3.And(a.pos == sel(self.ends, i - 1), a.nobj == sel(self.numbers, i - 1) + 1 + self.S.at(i - 1).ng))),
                ('one space behind the other', forall(l, Imp(z3.And(MarkC(l) == 0, MarkL(l) == 0, MarkL(l + 1) == 0, lo <= l, l + 1 < i), z3.And(n.o == E, n.first == g.first + v.ng + 1)), MarkC(l))),
                ('a space ends with its last group', forall(l, Imp(z3.And(MarkC(l) == 0, MarkL(l) == 0, MarkG(v.ng - 1) == 0, lo <= l, l < i), E == g.end(v.ng)), MarkC(l)))] + [
                (x, forall(l, Imp(z3.And(MarkL(l) == 0, lo <= l, l < i), f), MarkL(l))) for x, f in each]

    def kept(self, old, lo, i):
        """those below i are as in the archive old"""
        l, k, j = q('l', 'k', 'j')
        v, N, a = self.S.at(l), sel(self.numbers, l), self.a
        o, p = sel(a.start, N + 1 + k), sel(old.start, N + 1 + k)
        here, group = [MarkL(l) == 0, lo <= l, l < i], [MarkG(k) == 0, between(0, k, v.ng)]
        return [('written spaces stay', forall(l, Imp(z3.And(*here), z3.And(sel(a.start, N) == sel(old.start, N), sel(a.sizes, sel(a.start, N)) == sel(old.sizes, sel(old.start, N)))), MarkL(l))),
                ('written groups stay', forall([l, k], Imp(z3.And(*here, *group), z3.And(o == p, *[sel(a.ints, o + d) == sel(old.ints, p + d) for d in (0, 1, 2)])), [MarkL(l), MarkG(k)])),
                ('written members stay', forall([l, k, j], Imp(z3.And(*here, *group, MarkI(k, j) == 0, between(0, j, v.f(k, 'count'))), z3.And(*[sel(a.ints, It(o, j) + d) == sel(old.ints, It(p, j) + d) for d in (0, 1)])), [MarkL(l), MarkI(k, j)]))]


class SavedHeader(Header):
    """the groups of all lengths just saved, for loading them"""

    def __init__(self, c, end, before=None):
        a, b = Archive(c), before or Archive(c.old)
        self.spaces, self.end, self.last = SavedSpaces(c, b), end, (a.pos, a.nobj)
        a.pos, a.nobj = b.pos, b.nobj
        Header.__init__(self, a)

    def place(self, l):
        return z3.If(l == self.end, self.last[0], self.at(l).o)

    def number(self, l):
        return z3.If(l == self.end, self.last[1], sel(self.spaces.numbers, l))

    def at(self, l):
        return self.spaces.at(l)

    def marks(self, l):
        return [MarkC(l) == 0, MarkL(l) == 0, MarkL(l + 1) == 0, MarkG(self.spaces.S.at(l).ng - 1) == 0]


def can_be_loaded(c, end, ds='self.dataset', before=None):
    return [('can be loaded: ' + x, y) for x, y in SavedHeader(c, end, before).ok(c, ds)]


def shortest(c):
    return z3.If(c('self.wholeSeriesOnly'), c('self.localLengthGroupSpace.len') - 1, z3.IntVal(2))


def header_written(c, o=None):
    a, o = Archive(c), c.old('ar.pos') if o is None else o
    return ('header', z3.And(sel(a.sizes, o) == shortest(c), sel(a.sizes, o + 1) == c('self.localLengthGroupSpace.len'), sel(a.strs, o + 2) == c('self.distanceName'), sel(a.nums, o + 3) == c('self.threshold')))


def save_spaces_inv(c):
    a, b = Archive(c), Archive(c.old)
    lo, i, n = shortest(c), c('i'), c('self.localLengthGroupSpace.len')
    return [('counter', z3.And(lo <= i, z3.Or(i <= n, i == lo), c('minLen') == lo, c('maxLen') == n)), header_written(c), ('places grow', z3.And(a.pos >= b.pos + 4, a.nobj >= b.nobj, Imp(i > lo, a.nobj > b.nobj)))] + SavedSpaces(c).ok(lo, i) + [kept(a, b), starts_kept(a, b)]


@contract
class SaveSpaces(Contract):
    key = 'GlobalGroupSpace::save<boost::archive::binary_oarchive>'
    props = ('C14',)
    params = ('ar',)
    lemmas = ('MulFacts', 'Slots')
    assumes = (ARCHIVE,)

    @staticmethod
    def numbered(eng):
        c = eng.ctx()
        i = c('i') - 1
        for key, x in ((NUMBERS, c('ar.nobj') - 1 - Spaces(c).at(i).ng), (ENDS, c('ar.pos'))):
            a, b = eng.getk(key).l[0], eng.fresh(key[1], IA)
            eng.assume(b == z3.Store(a, i, x))
            ghost_write(eng, key, b)

    def head(self, c):
        c.eng.archive_before = Archive(c)
        return [MarkL(c('i')) == 0]

    def stays(self, c):
        return SavedSpaces(c).kept(c.eng.archive_before, shortest(c), c('i'))

    @property
    def loops(self):
        return {0: Loop(save_spaces_inv, decreases=lambda c: c('maxLen') - c('i'), hints=self.head, end_hints=self.stays, ghost_step=self.numbered)}

    def requires(self, c):
        l, = q('l')
        S = Spaces(c)
        return [('dataset well formed', ds_ok(c, 'self.dataset')), ('spaces for the lengths of the data', z3.And(S.len == S.M + 1, S.M >= 1, S.n >= 1))] + Spaces(c).ok() + [
                ('a space for each length saved', forall(l, Imp(z3.And(MarkL(l) == 0, shortest(c) <= l, l < S.len), sel(S.refs, l) > 0), MarkL(l)))]

    def facts(self, eng):
        l, = q('l')
        return item_facts() + [forall(l, MarkC(l) == 0, MarkC(l))]

    def modifies(self, c):
        return [c.lv('ar'), ('key', NUMBERS), ('key', ENDS)]

    def ensures(self, c):
        a, b = Archive(c), Archive(c.old)
        lo, n = shortest(c), c('self.localLengthGroupSpace.len')
        return [header_written(c)] + SavedSpaces(c).ok(lo, z3.If(lo <= n, n, lo)) + [kept(a, b), starts_kept(a, b)] + can_be_loaded(c, z3.If(lo <= n, n, lo))


@contract
class SaveSet(Contract):
    key = 'GroupableTimeSeriesSet::save<boost::archive::binary_oarchive>'
    props = ('C14',)
    params = ('ar',)
    self_mode = 'heap'
    lemmas = SaveSpaces.lemmas
    assumes = (ARCHIVE,)

    def requires(self, c):
        g = c('self.groupsAllLengthSet')
        v = at_space(c, g)
        return [('group space exists', Imp(g != 0, z3.And(sel(c.alive('GlobalGroupSpace'), g), sel(c.hf('GlobalGroupSpace', 'dataset'), g) == c.name('self'))))] + [(x, Imp(g != 0, y)) for x, y in SaveSpaces().requires(v)]

    def facts(self, eng):
        return SaveSpaces().facts(eng)

    def modifies(self, c):
        return SaveSpaces().modifies(c)

    def throws(self, c):
        return c.old('self.groupsAllLengthSet') == 0

    def ensures(self, c):
        a, b, h = Archive(c), Archive(c.old), Archive(c.old)
        v = at_space(c, c('self.groupsAllLengthSet'))
        lo, n = shortest(v), v('self.localLengthGroupSpace.len')
        h.pos, h.nobj = b.pos + 2, b.nobj + 1
        return [('number and length of the series', z3.And(sel(a.ints, b.pos) == c('self.itemCount'), sel(a.ints, b.pos + 1) == c('self.maxCol'))), header_written(v, h.pos)] + SavedSpaces(v, h).ok(lo, z3.If(lo <= n, n, lo)) + [kept(a, b), starts_kept(a, b)] + can_be_loaded(v, z3.If(lo <= n, n, lo), before=h)


class FileArchive(Archive):
    """the archive in a file, read from the first object on"""

    def __init__(self, path):
        IA = z3.ArraySort(I, I)
        self.pos, self.nobj = z3.IntVal(0), z3.IntVal(1)
        for x, s in (('ints', IA), ('sizes', IA), ('nums', z3.ArraySort(I, z3.RealSort())), ('strs', z3.ArraySort(I, StrSort)), ('start', IA)):
            setattr(self, x, z3.Function('Archive.' + x, StrSort, s)(path))


def at_set(c, ref):
    """c as the data set ref sees it"""
    return Ctx(c.eng, c.st, lambda n: LV(('obj', 'GroupableTimeSeriesSet', ref), [], Ty('rec', 'GroupableTimeSeriesSet')) if n == 'self' else c.roots(n), c.res, c._old)


@contract
class LoadFile(LoadSet):
    key = 'loadFromFile<GroupableTimeSeriesSet>'
    params = ('obj', 'fname')
    heap_params = ('GroupableTimeSeriesSet',)
    self_mode = 'var'

    def archive(self, c):
        return FileArchive(c('fname'))

    def seen(self, c):
        return at_set(c, c.name('obj'))

    def opens(self, c):
        return z3.Function('FileOpen', StrSort, z3.BoolSort())(c.old('fname'))

    def requires(self, c):
        return LoadSet.requires(self, self.seen(c))

    def modifies(self, c):
        return [self.seen(c).lv('self.groupsAllLengthSet'), ('global', 'gAllDistanceMap')]

    def destroys(self, c):
        return LoadSet.destroys(self, self.seen(c))

    def throws(self, c):
        return z3.Or(z3.Not(self.opens(c)), LoadSet.throws(self, self.seen(c)))

    def on_throw(self, c):
        return LoadSet.on_throw(self, self.seen(c))

    def ensures(self, c):
        return LoadSet.ensures(self, self.seen(c))


@contract
class SaveFile(Contract):
    """errors and what is left alone; what the file holds is what the archive held"""
    key = 'saveToFile<GroupableTimeSeriesSet>'
    props = ('C14',)
    params = ('obj', 'fname')
    heap_params = ('GroupableTimeSeriesSet',)
    lemmas = SaveSpaces.lemmas
    assumes = (ARCHIVE,)

    def seen(self, c):
        return at_set(c, c.name('obj'))

    def requires(self, c):
        return SaveSet().requires(self.seen(c))

    def facts(self, eng):
        return SaveSpaces().facts(eng)

    def modifies(self, c):
        return [('key', ('gg', 'files')), ('key', NUMBERS), ('key', ENDS)]

    def throws(self, c):
        return z3.Or(z3.Not(z3.Function('FileWritable', StrSort, z3.BoolSort())(c.old('fname'))), SaveSet().throws(self.seen(c)))
