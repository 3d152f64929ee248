"""The functions of the API that hand on to a loaded data set (C15 and the property of the function called)."""
from common import *
from cxxtypes import StrSort
from stdmodel import map_order
from dataset import GetTimeSeries, GetItemLength, GetName, Normalize, ClearData, data_ptr_ok
from grouping import GroupSet, at_space, OwnedSpaces
from kbest import SetBestMatch, SetKBest
from search import *
from archives import LoadFile, SaveFile
from loading import LoadData, SaveData, FILES, max_tok
from paa import Cache, Generate, SearchPAA, cnt_facts, win_facts, least
import registry

SETS, WRAPPERS = 'self._loadedDatasets', 'self._paaWrappers'


def strs(*names):
    return [z3.Const(n + '!q', StrSort) for n in names]


def known(c, name='name'):
    return sel(c.old(SETS + '.dom'), c.old(name))


def set_at(c, name='name'):
    return sel(c.old(SETS + '[]'), c.old(name))


def at(c, ref, cls='GroupableTimeSeriesSet', **names):
    """c as the object ref sees it"""
    def roots(n):
        return LV(('obj', cls, ref), [], Ty('rec', cls)) if n == 'self' else c.roots(names.get(n, n))
    return Ctx(c.eng, c.st, roots, c.res, c._old)


def entry(c):
    """before the call: the state and the old state are the same"""
    return Ctx(c.eng, c.st, c.roots, c.res, c.st)


def sets_exist(c):
    k, = strs('k')
    r = sel(c(SETS + '[]'), k)
    return [('loaded data sets exist', forall(k, Imp(sel(c(SETS + '.dom'), k), z3.And(r > 0, sel(c.alive('GroupableTimeSeriesSet'), r))), r))]


def set_or_none(c, name='name'):
    return z3.If(known(c, name), set_at(c, name), 0)


def wrapper_at(c, name='name'):
    return sel(c.old(WRAPPERS + '[]'), c.old(name))


def prepared(c, name='name'):
    return sel(c.old(WRAPPERS + '.dom'), c.old(name))


def reg_ok(c):
    """what holds of the maps between any two operations"""
    k, j = strs('k', 'j')
    dom, refs, pdom, prefs = [c(x + y) for x in (SETS, WRAPPERS) for y in ('.dom', '[]')]
    ds = c.hf('PAAWrapper', 'dataset')
    return sets_exist(c) + [
        ('each name has its own data set', forall([k, j], Imp(z3.And(sel(dom, k), sel(dom, j), k != j), sel(refs, k) != sel(refs, j)), (sel(refs, k), sel(refs, j)))),
        ('prepared data sets are loaded', forall(k, Imp(sel(pdom, k), z3.And(sel(dom, k), sel(prefs, k) > 0, sel(c.alive('PAAWrapper'), sel(prefs, k)), sel(ds, sel(prefs, k)) == sel(refs, k))), sel(pdom, k), sel(prefs, k))),
        ('data sets are counted', c('self._datasetCount') == c(SETS + '.n')),
    ]


def others_kept(c, which, name='name'):
    """the entries of the other names"""
    k, = strs('k')
    dom, refs = c(which + '.dom'), c(which + '[]')
    odom, orefs = c.old(which + '.dom'), c.old(which + '[]')
    return z3.And(forall(k, Imp(k != c.old(name), sel(dom, k) == sel(odom, k)), sel(dom, k)),
                  forall(k, Imp(z3.And(k != c.old(name), sel(odom, k)), sel(refs, k) == sel(orefs, k)), sel(refs, k)))


def owned_ok(c):
    """the data set c sees as self may be deleted"""
    g = c('self.groupsAllLengthSet')
    return [('data pointer valid', data_ptr_ok(c)), ('groups exist', Imp(g != 0, z3.And(sel(c.alive('GlobalGroupSpace'), g), *[x for _, x in OwnedSpaces(at_space(c, g)).ok()])))]


@contract
class ApiUnload(Contract):
    key = 'GenexAPI::unloadDataset'
    props = ('C15',)
    params = ('name',)
    allocates = True

    def requires(self, c):
        c = entry(c)
        return reg_ok(c) + [(n, Imp(known(c), f)) for n, f in owned_ok(at(c, set_at(c)))]

    def modifies(self, c):
        d = at(c, set_or_none(c))
        g = at_space(d, d('self.groupsAllLengthSet'))
        return [c.lv(SETS), c.lv(WRAPPERS), c.lv('self._datasetCount'), d.lv('self.groupsAllLengthSet'), g.lv('self.localLengthGroupSpace')] + ClearData().modifies(d) + OwnedSpaces(g).emptied()

    def frees(self, c):
        d = at(c, set_or_none(c))
        return [d('self.data.blk')]

    def destroys(self, c):
        d = at(c, set_at(c))
        yes = known(c)
        out = {cls: (lambda has: lambda b: z3.And(yes, has(b)))(has) for cls, has in GroupSet().destroys(d).items()}
        r, w, p = set_at(c), wrapper_at(c), prepared(c)
        out['GroupableTimeSeriesSet'] = lambda b: z3.And(yes, b == r)
        out['PAAWrapper'] = lambda b: z3.And(yes, p, b == w)
        return out

    def throws(self, c):
        return z3.Not(known(c))

    def ensures(self, c):
        return [('no longer loaded', z3.Not(sel(c(SETS + '.dom'), c.old('name')))), ('nothing prepared is left', z3.Not(sel(c(WRAPPERS + '.dom'), c.old('name')))),
                ('the data set is gone', z3.Not(sel(c.alive('GroupableTimeSeriesSet'), set_at(c)))),
                ('other data sets stay', others_kept(c, SETS)), ('other preparations stay', others_kept(c, WRAPPERS)), ('one less', c('self._datasetCount') == c.old('self._datasetCount') - 1)] + reg_ok(c)


@contract
class CheckName(Contract):
    key = 'GenexAPI::_checkDatasetName'
    props = ('C15',)
    params = ('name',)

    def throws(self, c):
        return z3.Not(known(c))


class OnSet(Contract):
    """hands on to the data set of that name"""
    names = {}
    name = 'name'

    def here(self, c):
        return at(c, set_at(c, self.name), **self.names)

    def requires(self, c):
        return sets_exist(c) + [(n, Imp(known(c, self.name), f)) for n, f in self.of().requires(self.here(c))]

    def facts(self, eng):
        outer = self

        class within:
            def __getattr__(self, x):
                return getattr(eng, x)

            def ctx(self):
                return outer.here(eng.ctx())
        return self.of().facts(within())

    def modifies(self, c):
        return self.of().modifies(self.here(c))

    def throws(self, c):
        return z3.Or(z3.Not(known(c, self.name)), self.of().throws(self.here(c)))

    def result(self, c):
        return self.of().result(self.here(c))

    def ensures(self, c):
        return self.of().ensures(self.here(c))

    def on_throw(self, c):
        return [(n, Imp(known(c, self.name), f)) for n, f in self.of().on_throw(self.here(c))]


@contract
class ApiTimeSeries(OnSet):
    key = 'GenexAPI::getTimeSeries'
    props = ('C12', 'C15')
    params = ('name', 'index', 'start', 'end')
    of = GetTimeSeries


@contract
class ApiLength(OnSet):
    key = 'GenexAPI::getTimeSeriesLength'
    props = ('C12', 'C15')
    params = ('name', 'index')
    of = GetItemLength


@contract
class ApiName(OnSet):
    key = 'GenexAPI::getTimeSeriesName'
    props = ('C12', 'C15')
    params = ('name', 'index')
    of = GetName


@contract
class ApiNormalize(OnSet):
    key = 'GenexAPI::normalizeDataset'
    props = ('C11', 'C15')
    params = ('name',)
    of = Normalize


@contract
class ApiGroup(OnSet):
    key = 'GenexAPI::groupDataset'
    props = ('C07', 'C15')
    params = ('name', 'threshold', 'distance_name', 'numThreads', 'wholeSeriesOnly')
    of = GroupSet
    creates, lemmas, assumes, allocates = GroupSet.creates, GroupSet.lemmas, GroupSet.assumes, True

    def requires(self, c):
        return [('map of distances empty or filled', registry.registry_ok(c))] + OnSet.requires(self, c)

    def destroys(self, c):
        return {cls: (lambda has: lambda b: z3.And(known(c), has(b)))(has) for cls, has in self.of().destroys(self.here(c)).items()}


class LoadHere(LoadFile):
    """as the data set sees it"""

    def seen(self, c):
        return c


@contract
class ApiLoadGroups(OnSet):
    key = 'GenexAPI::loadGroups'
    props = ('C14', 'C15')
    params = ('name', 'path')
    names = {'fname': 'path'}
    of = LoadHere
    creates, lemmas, assumes, allocates = LoadFile.creates, LoadFile.lemmas, LoadFile.assumes, True

    def requires(self, c):
        return [('map of distances empty or filled', registry.registry_ok(c))] + OnSet.requires(self, c)

    def destroys(self, c):
        return ApiGroup.destroys(self, c)

    def ensures(self, c):
        d = at(c, set_at(c))
        return OnSet.ensures(self, c) + [('reports the total', c('res') == at_space(d, d('self.groupsAllLengthSet'))('self.totalNumberOfGroups'))]


class SaveHere(SaveFile):
    """as the data set sees it"""

    def seen(self, c):
        return c


@contract
class ApiSaveGroups(OnSet):
    key = 'GenexAPI::saveGroups'
    props = ('C14', 'C15')
    params = ('name', 'path')
    names = {'fname': 'path'}
    of = SaveHere
    lemmas, assumes = SaveFile.lemmas, SaveFile.assumes


@contract
class ApiInfo(Contract):
    key = 'GenexAPI::getDatasetInfo'
    props = ('C15',)
    params = ('name',)

    def requires(self, c):
        d = at(c, set_at(c))
        g = d('self.groupsAllLengthSet')
        return sets_exist(c) + [('groups exist', Imp(z3.And(known(c), g != 0), sel(c.alive('GlobalGroupSpace'), g)))]

    def throws(self, c):
        return z3.Not(known(c))

    def ensures(self, c):
        d = at(c, set_at(c))
        g = d('self.groupsAllLengthSet')
        s = at_space(d, g)
        return [('its own shape and status', z3.And(c('res.name') == c.old('name'), c('res.itemCount') == d('self.itemCount'), c('res.itemLength') == d('self.maxCol'), c('res.isNormalized') == d('self.normalized'))),
                ('its own grouping', z3.And(c('res.isGrouped') == (g != 0), Imp(g != 0, z3.And(c('res.distance') == s('self.distanceName'), c('res.threshold') == s('self.threshold')))))]


@contract
class ApiCount(Contract):
    key = 'GenexAPI::getDatasetCount'
    props = ('C15',)

    def ensures(self, c):
        return [('number of data sets', c('res') == c('self._datasetCount'))]


class OnTwo(OnSet):
    """hands a window of one data set on to another"""
    params = ('target_name', 'query_name', 'index', 'start', 'end')
    name = 'target_name'
    assumes = GROUP_ASSUMES
    allocates = True

    def asked(self, c):
        return at(c, set_at(c, 'query_name'))

    def query(self, c):
        """the window asked for"""
        ty = Ty('rec', 'TimeSeries')
        r = GetTimeSeries().result(self.asked(c.old))
        return Val(ty, [r[s] if s in r else z3.Const('query%s!any' % s, so) for s, so in c.eng.types.leaves(ty)])

    def here(self, c):
        d = at(c, set_at(c, self.name), **self.names)
        return Ctx(c.eng, c.st, lambda n: self.query(c) if n == 'query' else d.roots(n), c.res, c._old)

    def bad(self, c):
        return z3.Or(z3.Not(known(c, self.name)), z3.Not(known(c, 'query_name')), GetTimeSeries().throws(self.asked(c.old)))

    def requires(self, c):
        c = entry(c)
        return sets_exist(c) + [('query data set well formed', Imp(known(c, 'query_name'), ds_ok(self.asked(c))))] + [
            (n, Imp(z3.Not(self.bad(c)), f)) for n, f in self.of().requires(self.here(c)) if n != 'query well formed']

    def throws(self, c):
        return z3.Or(self.bad(c), self.of().throws(self.here(c)))

    def on_throw(self, c):
        return [(n, Imp(z3.Not(self.bad(c)), f)) for n, f in self.of().on_throw(self.here(c))]


@contract
class ApiBestMatch(OnTwo):
    key = 'GenexAPI::getBestMatch'
    props = ('C08', 'C15')
    of = SetBestMatch
    lemmas = SetBestMatch.lemmas


@contract
class ApiKBest(OnTwo):
    key = 'GenexAPI::getKBestMatches'
    props = ('C09', 'C15')
    params = ('k', 'h') + OnTwo.params
    of = SetKBest
    lemmas = SetKBest.lemmas

    def requires(self, c):
        return OnTwo.requires(self, c) + [('query not empty', Imp(z3.Not(self.bad(entry(c))), self.query(entry(c)).l[[s for s, _ in c.eng.types.leaves(Ty('rec', 'TimeSeries'))].index('.length')] >= 1))]


@contract
class ApiBrute(OnTwo):
    key = 'GenexAPI::getKBestMatchesBruteForce'
    props = ('C10', 'C15')
    params = ('k',) + OnTwo.params + ('distanceName',)
    of = BruteForce
    lemmas = BruteForce.lemmas


@contract
class ApiPrepare(Contract):
    key = 'GenexAPI::preparePAA'
    props = ('C15', 'C16')
    params = ('name', 'blockSize')
    lemmas = Generate.lemmas
    creates = ('PAAWrapper',)
    allocates = True

    def requires(self, c):
        c = entry(c)
        d, w = at(c, set_at(c)), at(c, wrapper_at(c), 'PAAWrapper')
        return reg_ok(c) + [('data set well formed', Imp(known(c), z3.And(ds_ok(d), Imp(d('self.itemCount') > 0, d('self.data.blk') > 0)))),
                            ('one entry per series', Imp(prepared(c), w('self.paaMat.len') == d('self.itemCount')))]

    def facts(self, eng):
        c = entry(eng.ctx())
        d = at(c, set_at(c))
        return cnt_facts() + win_facts(d('self.data.off'), d('self.maxCol'))

    def modifies(self, c):
        w = at(c, z3.If(z3.And(known(c), prepared(c)), wrapper_at(c), 0), 'PAAWrapper')
        return [c.lv(WRAPPERS)] + Generate().modifies(w)

    def throws(self, c):
        return z3.Or(z3.Not(known(c)), c.old('blockSize') < 1)

    def ensures(self, c):
        w, d = at(c, sel(c(WRAPPERS + '[]'), c.old('name')), 'PAAWrapper'), at(c, set_at(c))
        m = d('self.maxCol')
        k = Cache(w)
        return [('prepared now', sel(c(WRAPPERS + '.dom'), c.old('name'))), ('other preparations stay', others_kept(c, WRAPPERS)),
                ('block size', w('self.blockSize') == least(c.old('blockSize'), z3.If(m < 1, 1, m)))] + reg_ok(c) + k.all(w('self.blockSize'), k.n)

    def on_throw(self, c):
        b, = q('b')
        al = sel(c.alive('PAAWrapper'), b)
        return [('the same preparations', z3.And(*[c(WRAPPERS + x) == c.old(WRAPPERS + x) for x in ('.dom', '[]', '.n')])),
                ('nothing is left', forall(b, al == sel(c.old.alive('PAAWrapper'), b), al))]


@contract
class ApiSearchPAA(OnTwo):
    key = 'GenexAPI::getKBestMatchesPAA'
    props = ('C16', 'C15')
    params = ('k',) + OnTwo.params + ('distanceName',)
    of = SearchPAA
    lemmas = SearchPAA.lemmas
    assumes = SearchPAA.assumes

    def here(self, c):
        w = at(c, wrapper_at(c, self.name), 'PAAWrapper')
        return Ctx(c.eng, c.st, lambda n: self.query(c) if n == 'query' else w.roots(n), c.res, c._old)

    def bad(self, c):
        return z3.Or(OnTwo.bad(self, c), z3.Not(prepared(c, self.name)))

    def requires(self, c):
        e = entry(c)
        return OnTwo.requires(self, c) + [x for x in reg_ok(e) if x[0] == 'prepared data sets are loaded']


def shape(c, ref):
    """what is reported of a data set"""
    d = at(c, ref)
    return ('its own shape and status', z3.And(c('res.name') == c.old('name'), c('res.itemCount') == d('self.itemCount'), c('res.itemLength') == d('self.maxCol'), c('res.isNormalized') == d('self.normalized'),
                                               c('res.isGrouped') == (d('self.groupsAllLengthSet') != 0)))


@contract
class ApiLoad(Contract):
    key = 'GenexAPI::loadDataset'
    props = ('C13', 'C15')
    params = ('name', 'filePath', 'separators', 'maxNumRow', 'startCol', 'hasNameCol')
    creates = ('GroupableTimeSeriesSet',)
    allocates = True
    assumes = (FILES,)

    def requires(self, c):
        return reg_ok(entry(c))

    def facts(self, eng):
        c = entry(eng.ctx())
        return max_tok(c('filePath'), c('separators'))

    def modifies(self, c):
        return [c.lv(SETS), c.lv('self._datasetCount')]

    def throws(self, c):
        return z3.Or(known(c), LoadData().throws(c))

    def ensures(self, c):
        r = sel(c(SETS + '[]'), c.old('name'))
        d = at(c, r)
        return [('loaded now', sel(c(SETS + '.dom'), c.old('name'))), ('a data set of its own', z3.Not(sel(c.old.alive('GroupableTimeSeriesSet'), r))), ('other data sets stay', others_kept(c, SETS)),
                ('one more', c('self._datasetCount') == c.old('self._datasetCount') + 1), ('not grouped', d('self.groupsAllLengthSet') == 0), shape(c, r)] + reg_ok(c) + LoadData().ensures(d)

    def on_throw(self, c):
        b, = q('b')
        al = sel(c.alive('GroupableTimeSeriesSet'), b)
        return [('the same data sets', z3.And(c('self._datasetCount') == c.old('self._datasetCount'), *[c(SETS + x) == c.old(SETS + x) for x in ('.dom', '[]', '.n')])),
                ('nothing is left', forall(b, al == sel(c.old.alive('GroupableTimeSeriesSet'), b), al))]


@contract
class ApiAllInfo(Contract):
    key = 'GenexAPI::getAllDatasetInfo'
    props = ('C15',)
    params = ()

    def requires(self, c):
        k, = strs('k')
        r = sel(c(SETS + '[]'), k)
        g = sel(c.hf('GroupableTimeSeriesSet', 'groupsAllLengthSet'), r)
        return sets_exist(c) + [('groups exist', forall(k, Imp(z3.And(sel(c(SETS + '.dom'), k), g != 0), sel(c.alive('GlobalGroupSpace'), g)), r))]

    def listed(self, c, v, n):
        """the first n data sets in the order of the map"""
        i, = q('i')
        key, _ = map_order(c.old(SETS + '.dom'))
        at = lambda x: sel(c(v + '[].' + x), i)
        r = sel(c.old(SETS + '[]'), key(i))
        hf = lambda f: sel(c.hf('TimeSeriesSet', f), r)
        g = sel(c.hf('GroupableTimeSeriesSet', 'groupsAllLengthSet'), r)
        return [('one entry for each', c(v + '.len') == n),
                ('its own name, shape and status', forall(i, Imp(between(0, i, n), z3.And(at('name') == key(i), at('itemCount') == hf('itemCount'), at('itemLength') == hf('maxCol'), at('isNormalized') == hf('normalized'), at('isGrouped') == (g != 0))), at('name')))]

    def inv(self, c):
        return [('place', z3.And(0 <= c('__i'), c('__i') <= c(SETS + '.n')))] + self.listed(c, 'info', c('__i'))

    @property
    def loops(self):
        return {0: Loop(self.inv, decreases=lambda c: c(SETS + '.n') - c('__i'))}

    def ensures(self, c):
        k, = strs('k')
        dom, n = c.old(SETS + '.dom'), c.old(SETS + '.n')
        key, place = map_order(dom)
        return self.listed(c, 'res', n) + [('every data set is listed', forall(k, Imp(sel(dom, k), z3.And(0 <= place(k), place(k) < n, sel(c('res[].name'), place(k)) == k)), place(k)))]


@contract
class ApiSave(OnSet):
    key = 'GenexAPI::saveDataset'
    props = ('C13', 'C15')
    params = ('name', 'filePath', 'separator')
    of = SaveData


@contract
class ApiDistance(Contract):
    key = 'GenexAPI::distanceBetween'
    props = ('C05', 'C15')
    params = ('name1', 'idx1', 'start1', 'end1', 'name2', 'idx2', 'start2', 'end2', 'distance_name')
    assumes = GROUP_ASSUMES
    allocates = True

    def window(self, c, n):
        return at(c, set_at(c, 'name%d' % n), index='idx%d' % n, start='start%d' % n, end='end%d' % n)

    def part(self, c, n):
        """points, position and length of a window"""
        r = GetTimeSeries().result(self.window(c.old, n))
        return sel(c.old.mem(), r['.data.blk']), r['.data.off'] + r['.start'], r['.length']

    def requires(self, c):
        c = entry(c)
        return sets_exist(c) + [('data sets well formed', z3.And(*[Imp(known(c, 'name%d' % n), ds_ok(self.window(c, n))) for n in (1, 2)])), ('map of distances empty or filled', registry.registry_ok(c)),
                                ('shared dummy alignment is not empty', c('gNoMatching.len') > 0), ('band ratio is not negative', c.glob('warpingBandRatio') >= 0)]

    def facts(self, eng):
        return dtw_facts(eng)

    def modifies(self, c):
        return [('global', 'gAllDistanceMap')]

    def throws(self, c):
        n = c.old('distance_name')
        return z3.Or(*[x for i in (1, 2) for x in (z3.Not(known(c, 'name%d' % i)), GetTimeSeries().throws(self.window(c.old, i)))], z3.Not(registry.known(c, n)),
                     DistThrows(DistOf(n), self.part(c, 1)[2], self.part(c, 2)[2]))

    def ensures(self, c):
        return [('the distance of that name between the windows', c('res') == Dist(DistOf(c.old('distance_name')), *self.part(c, 1), *self.part(c, 2)))]
