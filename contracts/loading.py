"""Reading a data set from a text file (C13)."""
from common import *
from cxxtypes import StrSort
from dataset import data_ptr_ok, V, v_def, v_at
from stdmodel import FileWritable, CharText, NumText, FileOpen, FileBad, Lines, Line, TokCount, Tok, NotNumber, OutOfRange, Number

MaxTok = z3.Function('MaxTok', StrSort, StrSort, I)   # the most fields in a line of the file
FILES = ('text files behave as modelled in cppv/stdmodel.py: a file has the same lines whenever it is read during one load, a read error shows after the last line '
         'that can be read; the fields of a line are those boost::tokenizer finds, std::stod decides which fields are numbers')
WRITTEN = ('gg', 'files')
GHOST_VARS['files'] = Ty('files')


def fields(path, sep, i):
    return TokCount(Line(path, i), sep)


def max_tok(path, sep):
    i, = q('i')
    m = MaxTok(path, sep)
    inside = between(0, i, Lines(path))
    return [Lines(path) >= 0, m >= 0,
            forall(i, Imp(inside, z3.And(0 <= fields(path, sep, i), fields(path, sep, i) <= m)), fields(path, sep, i), Line(path, i)),
            z3.Or(m == 0, z3.Exists([i], z3.And(inside, fields(path, sep, i) == m)))]


def file_ready(c, pos):
    return z3.And(c('f.open'), z3.Not(c('f.fail')), z3.Not(c('f.bad')), c('f.pos') == pos)


@contract
class MaxRowsColumns(Contract):
    key = '_getMaxRowsMaxColumns'
    props = ('C13',)
    params = ('f', 'separators')
    assumes = (FILES,)

    def requires(self, c):
        return [('file open at its beginning', file_ready(c, 0))]

    def facts(self, eng):
        c = eng.ctx()
        return max_tok(c('f.path'), c('separators'))

    def modifies(self, c):
        return [c.lv('f')]

    def throws(self, c):
        return FileBad(c('f.path'))

    def inv(c):
        i, = q('i')
        n, m, p = c('lineCount'), c('maxColumn'), c('f.path')
        t = fields(p, c('separators'), i)
        return [
            ('file read up to here', z3.And(p == c.old('f.path'), file_ready(c, n), 0 <= n, n <= Lines(p))),
            ('not less than any line so far', z3.And(m >= 0, forall(i, Imp(between(0, i, n), t <= m), t))),
            ('as many fields as some line so far', z3.Or(m == 0, z3.Exists([i], z3.And(between(0, i, n), t == m)))),
        ]

    loops = {0: Loop(inv, decreases=lambda c: Lines(c('f.path')) - c('f.pos'))}

    def ensures(self, c):
        p = c.old('f.path')
        return [('the number of lines', c('res.first') == Lines(p)),
                ('the most fields in a line', c('res.second') == MaxTok(p, c('separators'))),
                ('file back at its beginning', z3.And(c('f.path') == p, file_ready(c, 0)))]


class Args:
    """what a load is asked for"""
    def __init__(self, c):
        o = c.old
        self.path, self.sep, self.skip = o('filePath'), o('separators'), o('startCol')
        self.name = o('hasNameCol')
        self.first = self.skip + z3.If(self.name, 1, 0)      # column of the first point
        n, lines = o('maxNumRow'), Lines(self.path)
        self.rows = z3.If(n <= 0, lines, z3.If(n < lines, n, lines))

    def tok(self, i, k):
        return Tok(Line(self.path, i), self.sep, k)

    def count(self, i):
        return fields(self.path, self.sep, i)

    def length(self, i):
        return z3.If(self.count(i) - self.first > 0, self.count(i) - self.first, 0)

    def wrong(self, i, k):
        return z3.And(self.first <= k, k < self.count(i), z3.Or(NotNumber(self.tok(i, k)), OutOfRange(self.tok(i, k))))

    def title(self, i):
        return z3.If(self.count(i) > self.skip, self.tok(i, self.skip), numstr(i))


def entry(c):
    return Ctx(c.eng, c.st, c.roots, c.res, c.st)


@contract
class LoadData(Contract):
    key = 'TimeSeriesSet::loadData'
    props = ('C13',)
    params = ('filePath', 'maxNumRow', 'startCol', 'separators', 'hasNameCol')
    allocates = True
    assumes = (FILES,)

    def requires(self, c):
        return [('data pointer valid', data_ptr_ok(c))]

    def facts(self, eng):
        c = entry(eng.ctx())
        return max_tok(c('filePath'), c('separators'))

    def modifies(self, c):
        return [c.lv('self.' + f) for f in ('data', 'itemCount', 'maxCol', 'names', 'lengths', 'normalized', 'filePath')]

    def frees(self, c):
        return [c('self.data.blk')]

    def throws(self, c):
        a = Args(c)
        i, k = q('i', 'k')
        return z3.Or(a.skip < 0, z3.Not(FileOpen(a.path)), FileBad(a.path),
                     z3.Exists([i, k], z3.And(between(0, i, a.rows), a.wrong(i, k))))

    def rows(c, n):
        """what is known of the rows before n"""
        a = Args(c)
        i, k = q('i', 'k')
        A = sel(c.mem(), c('self.data.blk'))
        w = MaxTok(a.path, a.sep) - a.first
        known = between(0, i, n)
        return [
            ('lengths of the rows', forall(i, Imp(known, sel(c('self.lengths[]'), i) == a.length(i)), sel(c('self.lengths[]'), i))),
            ('names of the rows', forall(i, Imp(z3.And(known, a.name), sel(c('self.names[]'), i) == a.title(i)), sel(c('self.names[]'), i))),
            ('points of the rows', forall([i, k], Imp(z3.And(known, 0 <= k, k < a.count(i) - a.first), sel(A, mul(i, w) + k) == Number(a.tok(i, a.first + k))),
                                          (mul(i, w), Tok(Line(a.path, i), a.sep, a.first + k)))),
            ('no row has a field that is no number', forall([i, k], Imp(known, z3.Not(a.wrong(i, k))), a.tok(i, k))),
        ]

    def table(c):
        a = Args(c)
        b, = q('b')
        z, z0, own = c.size(), c.old.size(), c('self.data.blk')
        kept = z3.And(sel(z0, b) >= 0, b != c.old('self.data.blk'))
        return [('table of the size of the file', z3.And(
            c('self.data.off') == 0, c('self.data.blk') > 0, sel(c.size(), c('self.data.blk')) == mul(a.rows, MaxTok(a.path, a.sep)),
            c('maxNumRow') == a.rows, c('rawMaxCol') == MaxTok(a.path, a.sep), z3.Not(c('self.normalized')), a.skip >= 0, z3.Not(FileBad(a.path)), FileOpen(a.path))),
            ('the table is new', z3.Or(own == c.old('self.data.blk'), sel(z0, own) < 0)),
            ('other arrays as before', z3.And(forall(b, Imp(kept, sel(z, b) == sel(z0, b)), sel(z, b)), forall(b, Imp(kept, sel(c.mem(), b) == sel(c.old.mem(), b)), sel(c.mem(), b))))]

    def outer(c):
        a = Args(c)
        row = c('row')
        return LoadData.table(c) + [
            ('file read up to here', z3.And(c('f.path') == a.path, file_ready(c, row), 0 <= row, row <= a.rows)),
            ('one entry for each row', z3.And(c('self.itemCount') == row, c('self.lengths.len') == row, c('self.names.len') == z3.If(a.name, row, 0))),
        ] + LoadData.rows(c, row)

    def inner(c):
        a = Args(c)
        row, col = c('row'), c('col')
        k, = q('k')
        A = sel(c.mem(), c('self.data.blk'))
        w = MaxTok(a.path, a.sep) - a.first
        named = z3.Or(a.count(row) <= a.skip, col > a.skip)
        return LoadData.table(c) + [
            ('file read up to here', z3.And(c('f.path') == a.path, file_ready(c, row + 1), 0 <= row, row < a.rows)),
            ('one entry for each row', z3.And(c('self.itemCount') == row, c('self.lengths.len') == row + 1, sel(c('self.lengths[]'), row) == a.length(row),
                                              c('self.names.len') == z3.If(a.name, row + z3.If(named, 1, 0), 0))),
            ('position in the line', z3.And(c('tok_iter.line') == Line(a.path, row), c('tok_iter.sep') == a.sep, c('tok_iter.pos') == col,
                                            c('tokens.line') == Line(a.path, row), c('tokens.sep') == a.sep, 0 <= col, col <= a.count(row))),
            ('name of this row', Imp(z3.And(a.name, named), sel(c('self.names[]'), row) == a.title(row))),
            ('points of this row', forall(k, Imp(z3.And(0 <= k, k < col - a.first), sel(A, mul(row, w) + k) == Number(a.tok(row, a.first + k))), a.tok(row, a.first + k))),
            ('no field so far that is no number', forall(k, Imp(k < col, z3.Not(a.wrong(row, k))), a.tok(row, k))),
        ] + LoadData.rows(c, row)

    def room(c):
        """the row ends inside the table"""
        a = Args(c)
        m = MaxTok(a.path, a.sep)
        w, n, row = m - a.first, a.rows, c('row')
        return [mul(w, n) == mul(n, w), mul(m, n) == mul(n, m), Imp(w >= 0, mul(row, w) + w <= mul(n, w)), Imp(a.first >= 0, mul(w, n) <= mul(m, n))]

    loops = {
        0: Loop(outer, decreases=lambda c: c('maxNumRow') - c('row')),
        1: Loop(inner, hints=room, decreases=lambda c: Args(c).count(c('row')) - c('col')),
    }

    def ensures(self, c):
        a = Args(c)
        i, k = q('i', 'k')
        A = sel(c.mem(), c('self.data.blk'))
        w = MaxTok(a.path, a.sep) - a.first
        lens = c('self.lengths[]')
        return [
            ('one series for each line asked for', z3.And(c('self.itemCount') == a.rows, c('self.lengths.len') == a.rows)),
            ('lengths of the rows', forall(i, Imp(between(0, i, a.rows), sel(lens, i) == a.length(i)), sel(lens, i))),
            ('a name for each row, or none', c('self.names.len') == z3.If(a.name, a.rows, 0)),
            ('names of the rows', forall(i, Imp(z3.And(between(0, i, a.rows), a.name), sel(c('self.names[]'), i) == a.title(i)), sel(c('self.names[]'), i))),
            ('longest row', c('self.maxCol') == z3.If(w > 0, w, 0)),
            ('points of the rows', forall([i, k], Imp(z3.And(between(0, i, a.rows), 0 <= k, k < sel(lens, i)), sel(A, mul(i, c('self.maxCol')) + k) == Number(a.tok(i, a.first + k))),
                                          (mul(i, c('self.maxCol')), a.tok(i, a.first + k)))),
            ('not normalised', z3.Not(c('self.normalized'))),
            ('dataset well formed', ds_ok(c)),
        ]

    def on_throw(self, c):
        return [('nothing is left', z3.And(
            c('self.data.blk') == 0, c('self.itemCount') == 0, c('self.maxCol') == 0, c('self.names.len') == 0,
            c('self.lengths.len') == 0, z3.Not(c('self.normalized'))))]


class Written:
    """what has been written to the file"""
    def __init__(self, c):
        lines, count, text = c.eng.getk(WRITTEN, c.st).l
        p = c.old('filePath')
        self.lines, self.count, self.text = sel(lines, p), sel(count, p), sel(text, p)
        self.sep = CharText(c.old('separator'))
        self.names = c('self.names[]')
        self.first = z3.If(c('self.names.len') > 0, 1, 0)

    def at(self, r, k):
        return sel(sel(self.text, r), k)

    def name(self, r):
        return Imp(self.first == 1, z3.And(self.at(r, 0) == sel(self.names, r), self.at(r, 1) == self.sep))

    def point(self, c, r, k):
        j = 2 * (self.first + k)
        return z3.And(self.at(r, j) == NumText(V(r, k)), self.at(r, j + 1) == self.sep)


def others(c):
    p = z3.Const('p!q', StrSort)
    now, old = c.eng.getk(WRITTEN, c.st).l, c.eng.getk(WRITTEN, c.old.st).l
    return ('other files as before', z3.And(*[forall(p, Imp(p != c.old('filePath'), sel(x, p) == sel(y, p)), sel(x, p)) for x, y in zip(now, old)]))


@contract
class SaveData(Contract):
    key = 'TimeSeriesSet::saveData'
    props = ('C13',)
    params = ('filePath', 'separator')
    assumes = ('writing a file: what is written is in the file once the stream is closed, the separator is not the line end',)

    def requires(self, c):
        return [('dataset well formed', ds_ok(c)), ('a name for each row, or none', z3.Or(c('self.names.len') == 0, c('self.names.len') == c('self.itemCount')))]

    def facts(self, eng):
        return v_def(eng.ctx())

    def modifies(self, c):
        return [('key', WRITTEN)]

    def throws(self, c):
        return z3.Not(FileWritable(c.old('filePath')))

    def rows(c, n):
        w = Written(c)
        r, k = q('r', 'k')
        ln = sel(c('self.lengths[]'), r)
        before = between(0, r, n)
        return [
            ('fields of the rows', forall(r, Imp(before, z3.And(sel(w.count, r) == 2 * (w.first + ln), w.name(r))), sel(w.text, r), sel(w.count, r))),
            ('points of the rows', forall([r, k], Imp(z3.And(before, 0 <= k, k < ln), w.point(c, r, k)), V(r, k))),
            others(c),
        ]

    def outer(c):
        w = Written(c)
        i = c('i')
        return [('row in range', z3.And(0 <= i, i <= c('self.itemCount'))), ('file open', z3.And(c('f.open'), c('f.path') == c.old('filePath'), FileWritable(c('f.path')))),
                ('at the beginning of a line', z3.And(w.lines == i, sel(w.count, i) == 0))] + SaveData.rows(c, i)

    def inner(c):
        w = Written(c)
        i, j = c('i'), c('j')
        k, = q('k')
        return [('row in range', z3.And(0 <= i, i < c('self.itemCount'), 0 <= j, j <= sel(c('self.lengths[]'), i))),
                ('file open', z3.And(c('f.open'), c('f.path') == c.old('filePath'), FileWritable(c('f.path')))),
                ('place in the line', z3.And(w.lines == i, sel(w.count, i) == 2 * (w.first + j))),
                ('name of this row', w.name(i)),
                ('points of this row', forall(k, Imp(between(0, k, j), w.point(c, i, k)), V(i, k))),
                ] + SaveData.rows(c, i)

    loops = {
        0: Loop(outer, decreases=lambda c: c('self.itemCount') - c('i')),
        1: Loop(inner, hints=lambda c: v_at(c, c('i'), c('j')), decreases=lambda c: sel(c('self.lengths[]'), c('i')) - c('j')),
    }

    def ensures(self, c):
        w = Written(c)
        return [('a line for each row', z3.And(w.lines == c('self.itemCount'), sel(w.count, w.lines) == 0))] + SaveData.rows(c, c('self.itemCount'))
