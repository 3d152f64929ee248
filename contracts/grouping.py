"""Grouping of all lengths (C07)."""
from common import *
from groups import *
from distance import fdiv
from kbest import Sum, ghost_write
from search import DistOf, dtw_facts
from cxxtypes import StrSort
import registry

# number of groups of each length, from the shortest length grouped on
GHOST_VARS['counts'] = Ty('heap', INT)
COUNTS = ('gg', 'counts')


def half_of(c):
    return fdiv(c('self.threshold'), z3.RealVal(2))


def table_exists(c, ref):
    return sel(c.alive('box ' + repr(c.eng.types.parse(MEMBERS))), ref)


def is_new(c):
    """did not exist before"""
    return {cls: (lambda cls: lambda b: z3.Not(sel(c.old.alive(cls), b)))(cls) for cls in ('LocalLengthGroupSpace', 'Group')}


def space_at(c, l, f, h, new):
    """the space of length l holds a grouping of all its windows"""
    S = Spaces(c)
    r, v = sel(S.refs, l), S.at(l)
    return [('a space of its own', z3.And(r > 0, sel(c.alive('LocalLengthGroupSpace'), r), v.L == l, v.dref == S.dref, table_exists(c, v.mref)))] + v.all(v.fits) + [v.close(v.fits, f, h), v.apart(f, h), ('a new space', new['LocalLengthGroupSpace'](r)), v.new(new['Group'])]


class GroupPre:
    """what grouping needs of the data, the distance and the threshold"""

    @staticmethod
    def of(c, f, ds='self.dataset'):
        l, o = q('l', 'o')
        A = sel(c.old.mem(), c(ds + '.data.blk'))
        d = Dist(f, A, o, l, A, o, l)
        return [('a window has distance zero from itself', forall([o, l], Imp(l >= 1, d == 0), d)),
                ('distance defined for equal lengths', forall(l, Imp(l >= 1, z3.Not(DistThrows(f, l, l))), DistThrows(f, l, l)))]

    @staticmethod
    def rest(c, h, ds='self.dataset'):
        return [('dataset well formed', ds_ok(c, ds)), ('shared dummy alignment is not empty', c('gNoMatching.len') > 0), ('band ratio is not negative', c.glob('warpingBandRatio') >= 0),
                ('threshold is finite and not negative', z3.And(0 <= h, h < INF))]


@contract
class GroupLength(Contract):
    key = 'GlobalGroupSpace::_group'
    creates = ('LocalLengthGroupSpace', 'Group', 'box ' + MEMBERS)
    props = ('C07',)
    params = ('i',)
    lemmas = ('MulFacts', 'Slots')
    assumes = GROUP_ASSUMES
    allocates = True

    def requires(self, c):
        i = c('i')
        return GroupPre.rest(c, half_of(c)) + GroupPre.of(c, c('self.pairwiseDistance')) + [
            ('a length of the data', z3.And(1 <= i, i < c('self.localLengthGroupSpace.len'), i <= c('self.dataset.maxCol'), c('self.dataset.itemCount') >= 1))]

    def modifies(self, c):
        return [c.lv('self.localLengthGroupSpace'), ('global', 'gLastTime')]

    def ensures(self, c):
        i, j = c.old('i'), q('j')[0]
        refs = c('self.localLengthGroupSpace[]')
        r = sel(refs, i)
        return [('as many lengths as before', c('self.localLengthGroupSpace.len') == c.old('self.localLengthGroupSpace.len')),
                ('other lengths keep their space', forall(j, Imp(j != i, sel(refs, j) == sel(c.old('self.localLengthGroupSpace[]'), j)), sel(refs, j)))] + space_at(c, i, c.old('self.pairwiseDistance'), half_of(c.old), is_new(c)) + [
                ('reports the number of groups', c('res') == View(c, ref=r).ng)]


class ByName(Contract):
    """loads the distances by their name"""

    def named(self, c):
        n = c.old('distance_name')
        return n, strcat(n, c.eng.string('_dtw')), n == c.eng.string('euclidean')

    def unknown(self, c):
        n, w, e = self.named(c)
        return z3.Not(z3.And(registry.known(c, n), z3.Or(e, registry.known(c, w))))

    def loaded(self, c):
        n, w, e = self.named(c)
        return [('distance recorded', c('self.distanceName') == n), ('distance of that name', c('self.pairwiseDistance') == DistOf(n)),
                ('warped distance of that name', c('self.warpedDistance') == z3.If(e, c.eng.fun_const('cascadeDistance'), DistOf(w)))]

    def on_throw(self, c):
        return [('map of distances empty or filled', registry.registry_ok(c))]


@contract
class LoadDistance(ByName):
    key = 'GlobalGroupSpace::_loadDistance'
    props = ('C07',)
    params = ('distance_name',)

    def requires(self, c):
        return [('map of distances empty or filled', registry.registry_ok(c))]

    def facts(self, eng):
        return dtw_facts(eng)

    def modifies(self, c):
        return [c.lv('self.distanceName'), c.lv('self.pairwiseDistance'), c.lv('self.warpedDistance'), ('global', 'gAllDistanceMap')]

    def throws(self, c):
        return self.unknown(c)

    def ensures(self, c):
        return self.loaded(c)


class Owned:
    """the groups of one space, for deleting them"""

    def __init__(self, c, ref=None):
        self.c, self.v = c, View(c, ref=ref)

    def field(self, x, b):
        return sel(self.c.hf('Group', x), b)

    def ok(self, frm=0):
        k, = q('k')
        v = self.v
        return z3.And(v.ng >= 0, forall(k, Imp(z3.And(frm <= k, k < v.ng), z3.And(v.g(k) > 0, sel(self.c.alive('Group'), v.g(k)), v.f(k, 'groupIndex') == k)), v.g(k)))

    def has(self, b, upto=None):
        k = self.field('groupIndex', b)
        return z3.And(0 <= k, k < (self.v.ng if upto is None else upto), self.v.g(k) == b)


@contract
class SpaceReset(Contract):
    key = 'LocalLengthGroupSpace::reset'
    props = ('C07',)
    params = ()

    def inv(self, c):
        o, v, i = Owned(c.old), View(c), c('i')
        k, b = q('k', 'b')
        al = sel(c.alive('Group'), b)
        return [('counter', z3.And(0 <= i, i <= v.ng, v.ng == o.v.ng)), ('groups to come', forall(k, Imp(z3.And(i <= k, k < v.ng), v.g(k) == o.v.g(k)), v.g(k))),
                ('other groups exist', forall(b, Imp(z3.And(sel(c.old.alive('Group'), b), z3.Not(o.has(b, i))), al), al)),
                ('no other groups', forall(b, Imp(al, sel(c.old.alive('Group'), b)), al))]

    @property
    def loops(self):
        return {0: Loop(self.inv, decreases=lambda c: c('self.groups.len') - c('i'))}

    def requires(self, c):
        return [('groups exist', Owned(c).ok())]

    def modifies(self, c):
        return [c.lv('self.groups')]

    def destroys(self, c):
        return {'Group': Owned(c).has}

    def ensures(self, c):
        return [('no groups', c('self.groups.len') == 0)]


class OwnedSpaces:
    """all spaces and their groups, for deleting them"""

    def __init__(self, c):
        self.c, self.S = c, Spaces(c)

    def ok(self):
        l, k = q('l', 'k')
        S, c = self.S, self.c
        r, o = sel(S.refs, l), Owned(c, ref=sel(S.refs, l))
        g = o.v.g(k)
        return [('spaces exist', z3.And(S.len >= 0, forall(l, Imp(S.some(l), z3.And(r > 0, sel(c.alive('LocalLengthGroupSpace'), r), o.v.L == l, o.v.ng >= 0)), r))),
                ('their groups exist', forall([l, k], Imp(z3.And(S.some(l), between(0, k, o.v.ng)), z3.And(g > 0, sel(c.alive('Group'), g), o.v.f(k, 'groupIndex') == k, o.v.f(k, 'memberLength') == l)), g))]

    def has_space(self, b, upto=None):
        l = sel(self.c.hf('LocalLengthGroupSpace', 'length'), b)
        return z3.And(0 <= l, l < (self.S.len if upto is None else upto), sel(self.S.refs, l) == b, b != 0)

    def has_group(self, b, upto=None):
        l = sel(self.c.hf('Group', 'memberLength'), b)
        return z3.And(0 <= l, l < (self.S.len if upto is None else upto), sel(self.S.refs, l) != 0, Owned(self.c, ref=sel(self.S.refs, l)).has(b))

    def emptied(self):
        """the lists of groups of the spaces deleted"""
        f = self.c.eng.types.field('LocalLengthGroupSpace', 'groups')
        return [('family', ('hf', 'LocalLengthGroupSpace', 'groups'), [], lambda b: z3.And(sel(self.c.alive('LocalLengthGroupSpace'), b), z3.Not(self.has_space(b))), Ty('heap', self.c.eng.types.field_leaf_ty(f)))]

    def destroys(self):
        return {'LocalLengthGroupSpace': self.has_space, 'Group': self.has_group}


@contract
class SpacesReset(Contract):
    key = 'GlobalGroupSpace::reset'
    props = ('C07',)
    params = ()

    def inv(self, c):
        O, S, i = OwnedSpaces(c.old), Spaces(c), c('i')
        l, b = q('l', 'b')
        out = [('counter', z3.And(0 <= i, i <= S.len, S.len == O.S.len)), ('spaces to come', forall(l, Imp(z3.And(i <= l, l < S.len), sel(S.refs, l) == sel(O.S.refs, l)), sel(S.refs, l)))]
        for cls, has in O.destroys().items():
            al = sel(c.alive(cls), b)
            out += [('others of class %s exist' % cls, forall(b, Imp(z3.And(sel(c.old.alive(cls), b), z3.Not(has(b, i))), al), al)), ('no others of class ' + cls, forall(b, Imp(al, sel(c.old.alive(cls), b)), al))]
        for leaf in ('.len', '[]'):
            f, g = sel(c.hf('LocalLengthGroupSpace', 'groups', leaf), b), sel(c.old.hf('LocalLengthGroupSpace', 'groups', leaf), b)
            out.append(('others keep their groups', forall(b, Imp(z3.And(sel(c.old.alive('LocalLengthGroupSpace'), b), z3.Not(O.has_space(b, i))), f == g), f)))
        return out

    @property
    def loops(self):
        return {0: Loop(self.inv, decreases=lambda c: c('self.localLengthGroupSpace.len') - c('i'))}

    def requires(self, c):
        return OwnedSpaces(c).ok()

    def modifies(self, c):
        return [c.lv('self.localLengthGroupSpace')] + OwnedSpaces(c).emptied()

    def destroys(self, c):
        return OwnedSpaces(c).destroys()

    def ensures(self, c):
        return [('no spaces', c('self.localLengthGroupSpace.len') == 0)]


def spaces_from(c, m, i, n, f, h, new):
    """spaces of the lengths from m on and below i, none of the other lengths below n"""
    S = Spaces(c)
    l, = q('l')
    return [('lengths', S.len == n), ('no space of another length', forall(l, Imp(z3.And(0 <= l, l < S.len, z3.Or(l < m, l >= i)), sel(S.refs, l) == 0), sel(S.refs, l)))] + [
            (x, forall(l, Imp(z3.And(MarkL(l) == 0, m <= l, l < i), g), MarkL(l))) for x, g in space_at(c, l, f, h, new)]


def counts_from(c, m, i, counts):
    l, = q('l')
    return [('groups counted', forall(l, Imp(z3.And(MarkL(l) == 0, m <= l, l < i), sel(counts, l - m) == Spaces(c).at(l).ng), MarkL(l)))]


@contract
class GroupAll(ByName):
    key = 'GlobalGroupSpace::group'
    creates = ('LocalLengthGroupSpace', 'Group', 'box ' + MEMBERS)
    props = ('C07',)
    params = ('distance_name', 'threshold', 'wholeSeriesOnly')
    lemmas = ('MulFacts', 'Slots', 'Sums')
    assumes = GROUP_ASSUMES
    allocates = True

    def requires(self, c):
        n, w, e = self.named(c)
        return GroupPre.rest(c, fdiv(c('threshold'), z3.RealVal(2))) + GroupPre.of(c, DistOf(n)) + [('map of distances empty or filled', registry.registry_ok(c))] + OwnedSpaces(c).ok() + [
                ('data with points', z3.And(c('self.dataset.itemCount') >= 1, c('self.dataset.maxCol') >= 1))]

    def facts(self, eng):
        return dtw_facts(eng)

    def shortest(self, c):
        return z3.If(c.old('wholeSeriesOnly'), c.old('self.dataset.maxCol'), z3.IntVal(2))

    def spaces(self, c, i):
        """the lengths below i are grouped"""
        gone = OwnedSpaces(c.old).destroys()
        new = {cls: (lambda cls, p: lambda b: z3.Or(p(b), gone[cls](b)))(cls, p) for cls, p in is_new(c).items()}
        return spaces_from(c, self.shortest(c), i, c.old('self.dataset.maxCol') + 1, DistOf(self.named(c)[0]), fdiv(c.old('threshold'), z3.RealVal(2)), new)

    def so_far(self, c, i):
        return self.spaces(c, i) + counts_from(c, self.shortest(c), i, c('counts')) + [('total', c('self.totalNumberOfGroups') == Sum(c('counts'), i - self.shortest(c)))]

    def inv(self, c):
        m, i = self.shortest(c), c('i')
        return [('counter', z3.And(m <= i, z3.Or(i <= c('self.localLengthGroupSpace.len'), i == m)))] + self.so_far(c, i)

    @staticmethod
    def counted(eng):
        c = eng.ctx()
        m, i = GroupAll().shortest(c), c('i') - 1
        a, b = eng.getk(COUNTS).l[0], eng.fresh('counts', IA)
        x = Spaces(c).at(i).ng
        eng.assume(b == z3.Store(a, i - m, x))
        eng.assume(Sum(b, i - m + 1) == Sum(a, i - m) + x)
        ghost_write(eng, COUNTS, b)

    @property
    def loops(self):
        return {0: Loop(self.inv, decreases=lambda c: c('self.localLengthGroupSpace.len') - c('i'), ghost_step=self.counted, entry_hints=lambda c: [Sum(c('counts'), z3.IntVal(0)) == 0])}

    def modifies(self, c):
        return [c.lv('self.' + x) for x in ('distanceName', 'pairwiseDistance', 'warpedDistance', 'localLengthGroupSpace', 'threshold', 'wholeSeriesOnly', 'totalNumberOfGroups')] + [('global', 'gAllDistanceMap'), ('global', 'gLastTime'), ('key', COUNTS)] + OwnedSpaces(c).emptied()

    def destroys(self, c):
        return OwnedSpaces(c).destroys()

    def throws(self, c):
        return self.unknown(c)

    def on_throw(self, c):
        return ByName.on_throw(self, c) + [('no spaces', c('self.localLengthGroupSpace.len') == 0)]

    def end(self, c):
        n, m = c.old('self.dataset.maxCol') + 1, self.shortest(c)
        return z3.If(m <= n, n, m)

    def ensures(self, c):
        return self.loaded(c) + self.so_far(c, self.end(c)) + [('threshold recorded', c('self.threshold') == c.old('threshold')), ('reports the total', c('res') == c('self.totalNumberOfGroups'))]


@contract
class GroupThreads(GroupAll):
    key = 'GlobalGroupSpace::groupMultiThreaded'
    params = ('distance_name', 'threshold', 'num_thread', 'wholeSeriesOnly')
    assumes = GROUP_ASSUMES + ('a task given to the thread pool takes effect where it is handed over: interleavings of tasks, and reading a future twice, are not modelled',)

    def requires(self, c):
        return GroupAll.requires(self, c) + [('threads', c('num_thread') >= 1)]

    def tasks(self, c):
        m, i = self.shortest(c), c('i')
        return [('counter', z3.And(m <= i, z3.Or(i <= c('self.localLengthGroupSpace.len'), i == m))), ('one count for each length', c('groupCounts.len') == i - m)] + self.spaces(c, i) + counts_from(c, m, i, c('groupCounts[]'))

    def totals(self, c):
        return [('counter', z3.And(0 <= c('i'), c('i') <= c('groupCounts.len'))), ('total', c('self.totalNumberOfGroups') == Sum(c('groupCounts[]'), c('i')))]

    def add(self, c):
        a, i = c('groupCounts[]'), c('i')
        return [Sum(a, i + 1) == Sum(a, i) + sel(a, i)]

    @staticmethod
    def keep_counts(eng):
        ghost_write(eng, COUNTS, eng.ctx()('groupCounts[]'))

    @property
    def loops(self):
        return {0: Loop(self.tasks, decreases=lambda c: c('self.localLengthGroupSpace.len') - c('i')),
                1: Loop(self.totals, decreases=lambda c: c('groupCounts.len') - c('i'), hints=self.add, ghost_init=self.keep_counts, entry_hints=lambda c: [Sum(c('groupCounts[]'), z3.IntVal(0)) == 0])}


def at_space(c, ref):
    """c as the group space ref sees it"""
    return Ctx(c.eng, c.st, lambda n: LV(('obj', 'GlobalGroupSpace', ref), [], Ty('rec', 'GlobalGroupSpace')) if n == 'self' else c.roots(n), c.res, c._old)


@contract
class GroupSet(ByName):
    key = 'GroupableTimeSeriesSet::groupAllLengths'
    creates = ('GlobalGroupSpace',) + GroupAll.creates
    props = ('C07',)
    params = ('distance_name', 'threshold', 'numThreads', 'wholeSeriesOnly')
    self_mode = 'heap'
    lemmas = GroupAll.lemmas
    assumes = GROUP_ASSUMES
    allocates = True

    def loaded_data(self, c):
        return c.old('self.data.blk') != 0

    def requires(self, c):
        g = c('self.groupsAllLengthSet')
        n, w, e = self.named(c)
        pre = GroupPre.rest(c, fdiv(c('threshold'), z3.RealVal(2)), 'self') + GroupPre.of(c, DistOf(n), 'self') + [('data with points', z3.And(c('self.itemCount') >= 1, c('self.maxCol') >= 1))]
        return [('map of distances empty or filled', registry.registry_ok(c)), ('groups exist', Imp(g != 0, z3.And(sel(c.alive('GlobalGroupSpace'), g), *[x for _, x in OwnedSpaces(at_space(c, g)).ok()])))] + [
                (x, Imp(self.loaded_data(c), y)) for x, y in pre]

    def facts(self, eng):
        return dtw_facts(eng)

    def modifies(self, c):
        return [c.lv('self.groupsAllLengthSet'), ('global', 'gAllDistanceMap'), ('global', 'gLastTime'), ('key', COUNTS)]

    def destroys(self, c):
        g = c.old('self.groupsAllLengthSet')
        out = {'GlobalGroupSpace': lambda b: z3.And(g != 0, b == g)}
        for cls, has in OwnedSpaces(at_space(c.old, g)).destroys().items():
            out[cls] = (lambda has: lambda b: z3.And(g != 0, has(b)))(has)
        return out

    def throws(self, c):
        return z3.Or(z3.Not(self.loaded_data(c)), c.old('numThreads') <= 0, self.unknown(c))

    def on_throw(self, c):
        g = c.old('self.groupsAllLengthSet')
        b, = q('b')
        out = ByName.on_throw(self, c) + [('same groups as before', c('self.groupsAllLengthSet') == g)]
        for cls, has in self.destroys(c).items():
            out.append(('no object of class %s is gone' % cls, forall(b, Imp(sel(c.old.alive(cls), b), sel(c.alive(cls), b)), sel(c.alive(cls), b))))
        return out

    def ensures(self, c):
        g = c('self.groupsAllLengthSet')
        v = at_space(c, g)
        M = c.old('self.maxCol')
        m = z3.If(c.old('wholeSeriesOnly'), M, z3.IntVal(2))
        end = z3.If(m <= M + 1, M + 1, m)
        n, w, e = self.named(c)
        return [('a new group space', z3.And(g > 0, z3.Not(sel(c.old.alive('GlobalGroupSpace'), g)), sel(c.alive('GlobalGroupSpace'), g), v.name('self.dataset') == c.name('self')))] + self.loaded(v) + spaces_from(v, m, end, M + 1, DistOf(n), fdiv(c.old('threshold'), z3.RealVal(2)), is_new(c)) + Spaces(v).ok() + [
                ('threshold recorded', v('self.threshold') == c.old('threshold')), ('reports the total', c('res') == v('self.totalNumberOfGroups'))]
