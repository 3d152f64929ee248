"""C++ types as the generator sees them, and their flat "leaf" encodings.

A value of any type is a tuple of z3 terms.  A vector is its length plus one array per leaf of
its element type; a record is the concatenation of its fields; a raw pointer to numbers is a
(block, offset) pair; a pointer or reference to an object is an integer name of that object."""
import re
import z3
from astload import Extraction


class Unsupported(Extraction):
    pass


class Ty:
    def __init__(self, kind, *args):
        self.kind, self.args = kind, args

    def __repr__(self):
        return self.kind + ('<' + ','.join(map(str, self.args)) + '>' if self.args else '')

    def __eq__(self, o):
        return isinstance(o, Ty) and repr(self) == repr(o)

    def __hash__(self):
        return hash(repr(self))


INT, UINT, BOOL, REAL, VOID, STR, FUN = Ty('int'), Ty('uint'), Ty('bool'), Ty('double'), Ty('void'), Ty('str'), Ty('fun')
StrSort = z3.DeclareSort('Str')
# fields that only the contracts see: they exist in the model, no code reads or writes them
GHOST = {}


def split_args(s):
    out, d, cur = [], 0, ''
    for ch in s:
        if ch in '<(':
            d += 1
        elif ch in '>)':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


class Types:
    BASE = {'int': INT, 'long': INT, 'short': INT, 'char': INT, 'signed char': INT, 'long long': INT,
            'unsigned int': UINT, 'unsigned long': UINT, 'unsigned char': UINT, 'unsigned long long': UINT,
            'size_t': UINT, 'std::size_t': UINT, 'unsigned': UINT, 'unsigned short': UINT,
            'bool': BOOL, 'double': REAL, 'float': REAL, 'void': VOID,
            'string': STR, 'std::string': STR, 'std::nullptr_t': Ty('null')}

    def __init__(self, prog):
        self.prog = prog
        self.cache = {}
        self.leafcache = {}

    def of(self, tnode):
        """Type of an AST node's "type" object; references are stripped (see is_ref)."""
        q = tnode.get('desugaredQualType') or tnode['qualType']
        return self.parse(q)

    @staticmethod
    def is_ref(tnode):
        return tnode['qualType'].rstrip().endswith('&')

    def parse(self, s):
        s0 = s
        if s in self.cache:
            return self.cache[s]
        t = self._parse(s)
        self.cache[s0] = t
        return t

    def _parse(self, s):
        s = s.strip()
        while True:
            n = s
            for p in ('const ', 'volatile ', 'class ', 'struct ', 'enum ', 'typename ', 'mutable '):
                if n.startswith(p):
                    n = n[len(p):]
            n = n.strip()
            for p in (' const', ' volatile', '&&', '&', ' __restrict'):
                if n.endswith(p):
                    n = n[:-len(p)].strip()
            if n.endswith('*const'):
                n = n[:-5].strip()
            if n == s:
                break
            s = n
        if s in self.BASE:
            return self.BASE[s]
        if '(*)' in s and not (s.endswith('>') and re.match(r'^(std::)?(vector|pair|map)<', s)):
            return FUN
        if s.endswith('*'):
            e = self._parse(s[:-1])
            if e.kind in ('rec',):
                return Ty('ref', e.args[0])
            return Ty('ptr', e)
        if s.endswith(')') and '(' in s and not s.startswith('('):
            return FUN
        m = re.match(r'^(const )?char\[\d+\]$', s)
        if m:
            return STR
        if re.match(r'^(std::)?future<.*>$', s):
            return self._parse(s[s.index('<') + 1:-1])  # a future is the value it will hold
        if re.match(r'^(std::)?(basic_)?ifstream(<char>)?$', s):
            return Ty('infile')
        if re.match(r'^(std::)?(basic_)?ofstream(<char>)?$', s):
            return Ty('outfile')
        if re.match(r'^boost::archive::binary_[io]archive$', s):
            return Ty('archive')
        if re.match(r'^boost::iostreams::filtering_(i|o)?streambuf\b', s):
            return Ty('filter')
        if s == 'boost::char_separator<char>':
            return Ty('sep')
        if s == 'boost::tokenizer<boost::char_separator<char>>':
            return Ty('tokens')
        if s.startswith('boost::token_iterator<boost::char_separator<char>,'):
            return Ty('tokit')
        for pre in ('std::', ''):
            for nm in ('vector', 'pair', 'map', 'basic_string', '__cxx11::basic_string'):
                if s.startswith(pre + nm + '<') and s.endswith('>'):
                    a = split_args(s[len(pre + nm) + 1:-1])
                    if nm == 'vector':
                        return Ty('vec', self._parse(a[0]))
                    if nm == 'pair':
                        return Ty('pair', self._parse(a[0]), self._parse(a[1]))
                    if nm == 'map':
                        return Ty('map', self._parse(a[0]), self._parse(a[1]))
                    return STR
        if s.startswith('genex::'):
            s = s[7:]
        if s in self.prog.records:
            return Ty('rec', s)
        if s in self.prog.aliases:
            return self._parse(self.prog.aliases[s])
        if s.startswith('typename std::enable_if') or s.startswith('std::enable_if'):
            return REAL
        return Ty('opaque', s)

    # ---- leaves -----------------------------------------------------------------------
    def fields(self, rec):
        """[(name, Ty, is_reference, declaring class)] including base classes."""
        r = self.prog.records.get(rec)
        if r is None:
            raise Unsupported('unknown record ' + rec)
        out = []
        for b in r.bases:
            if b in self.prog.records:
                out += self.fields(b)
        for n, t, _ in r.fields:
            out.append((n, self.of(t), self.is_ref(t), rec))
        for n, t in GHOST.get(rec, ()):
            out.append((n, t, False, rec))
        return out

    def field(self, rec, name):
        for f in self.fields(rec):
            if f[0] == name:
                return f
        raise Unsupported('record %s has no field %s' % (rec, name))

    def field_leaf_ty(self, f):
        # reference members are names of the object they refer to
        return Ty('refname', f[1]) if f[2] else f[1]

    def leaves(self, t):
        k = repr(t)
        if k not in self.leafcache:
            self.leafcache[k] = self._leaves(t)
        return self.leafcache[k]

    def _leaves(self, t):
        k = t.kind
        if k in ('int', 'uint', 'ref', 'refname', 'fun'):
            return [('', z3.IntSort())]
        if k == 'bool':
            return [('', z3.BoolSort())]
        if k == 'double':
            return [('', z3.RealSort())]
        if k == 'str':
            return [('', StrSort)]
        if k in ('void', 'null'):
            return []
        if k == 'infile':
            return [('.path', StrSort), ('.open', z3.BoolSort()), ('.pos', z3.IntSort()), ('.fail', z3.BoolSort()), ('.bad', z3.BoolSort())]
        if k == 'archive':   # what has been written so far or is read, with the next place; places of the objects inside and the number of the next one
            n = z3.IntSort()
            return [('.pos', n), ('.ints', z3.ArraySort(n, n)), ('.sizes', z3.ArraySort(n, n)), ('.nums', z3.ArraySort(n, z3.RealSort())), ('.strs', z3.ArraySort(n, StrSort)), ('.nobj', n), ('.start', z3.ArraySort(n, n))]
        if k == 'filter':
            return [('.path', StrSort)]
        if k == 'outfile':
            return [('.path', StrSort), ('.open', z3.BoolSort())]
        if k == 'files':   # what has been written: by path, line, place in the line
            n = z3.IntSort()
            return [('.lines', z3.ArraySort(StrSort, n)), ('.count', z3.ArraySort(StrSort, z3.ArraySort(n, n))),
                    ('.text', z3.ArraySort(StrSort, z3.ArraySort(n, z3.ArraySort(n, StrSort))))]
        if k == 'sep':
            return [('', StrSort)]
        if k == 'tokens':
            return [('.line', StrSort), ('.sep', StrSort)]
        if k == 'tokit':
            return [('.line', StrSort), ('.sep', StrSort), ('.pos', z3.IntSort())]
        if k == 'ptr':
            return [('.blk', z3.IntSort()), ('.off', z3.IntSort())]
        if k == 'vec':
            return [('.len', z3.IntSort())] + [('[]' + s, z3.ArraySort(z3.IntSort(), so)) for s, so in self.leaves(t.args[0])]
        if k == 'pair':
            return [('.first' + s, so) for s, so in self.leaves(t.args[0])] + \
                   [('.second' + s, so) for s, so in self.leaves(t.args[1])]
        if k == 'map':
            kl = self.leaves(t.args[0])
            if len(kl) != 1:
                raise Unsupported('map key ' + repr(t))
            ks = kl[0][1]
            return [('.dom', z3.ArraySort(ks, z3.BoolSort())), ('.n', z3.IntSort())] + \
                   [('[]' + s, z3.ArraySort(ks, so)) for s, so in self.leaves(t.args[1])]
        if k == 'heap':  # family of values indexed by object name
            return [(s, z3.ArraySort(z3.IntSort(), so)) for s, so in self.leaves(t.args[0])]
        if k == 'rec':
            out = []
            for f in self.fields(t.args[0]):
                out += [('.' + f[0] + s, so) for s, so in self.leaves(self.field_leaf_ty(f))]
            return out
        if k == 'opaque':
            return []
        raise Unsupported('no encoding for type ' + repr(t))

    def slice(self, t, fname):
        """(offset, count, Ty, is_ref) of a field within the leaves of a record or pair."""
        if t.kind == 'pair':
            a, b = len(self.leaves(t.args[0])), len(self.leaves(t.args[1]))
            return (0, a, t.args[0], False) if fname == 'first' else (a, b, t.args[1], False)
        off = 0
        for f in self.fields(t.args[0]):
            n = len(self.leaves(self.field_leaf_ty(f)))
            if f[0] == fname:
                return off, n, self.field_leaf_ty(f), f[2]
            off += n
        raise Unsupported('no field %s in %s' % (fname, t))
