"""Verification-condition generator: executes a function of the real source symbolically, once,
against its contract.  Branches are merged, loops are cut at their invariants, calls use the
contract of the callee if it has one and its body otherwise."""
import re
import z3
from astload import Extraction
from cxxtypes import *

INF = z3.Real('INF')
fadd = z3.Function('fadd', z3.RealSort(), z3.RealSort(), z3.RealSort())
fsub = z3.Function('fsub', z3.RealSort(), z3.RealSort(), z3.RealSort())
fmul = z3.Function('fmul', z3.RealSort(), z3.RealSort(), z3.RealSort())
fdiv = z3.Function('fdiv', z3.RealSort(), z3.RealSort(), z3.RealSort())
fsqrt = z3.Function('fsqrt', z3.RealSort(), z3.RealSort())
fsq = z3.Function('fsq', z3.RealSort(), z3.RealSort())
ffloor = z3.Function('ffloor', z3.RealSort(), z3.IntSort())
# products of two unknowns; an uninterpreted function with the facts about rows of a table (each
# proved of real multiplication by lemma_mul) keeps the queries linear
imul = z3.Function('imul', z3.IntSort(), z3.IntSort(), z3.IntSort())
strcat = z3.Function('strcat', StrSort, StrSort, StrSort)
numstr = z3.Function('numstr', z3.IntSort(), StrSort)
# exact value of the distance registered under a function pointer: both series as (memory of
# block, offset, length); see the contract of calls through dist_t
T, F = z3.BoolVal(True), z3.BoolVal(False)


def mul(a, b):
    if isinstance(a, int):
        a = z3.IntVal(a)
    if isinstance(b, int):
        b = z3.IntVal(b)
    if z3.is_int_value(a) or z3.is_int_value(b):
        return z3.simplify(a * b) if z3.is_int_value(a) and z3.is_int_value(b) else a * b
    return imul(a, b)


# quotient and remainder by an unknown positive number
idiv = z3.Function('idiv', z3.IntSort(), z3.IntSort(), z3.IntSort())
imod = z3.Function('imod', z3.IntSort(), z3.IntSort(), z3.IntSort())


def mul_facts():
    a, b, m = z3.Ints('a!q b!q m!q')
    fa = z3.ForAll
    return [
        fa([a, b], imul(a, b) == imul(b, a), patterns=[imul(a, b)]),
        fa([a, b], z3.Implies(z3.And(a >= 0, b >= 0), imul(a, b) >= 0), patterns=[imul(a, b)]),
        fa([a, b, m], z3.Implies(z3.And(a < b, m >= 0), imul(a, m) + m <= imul(b, m)), patterns=[z3.MultiPattern(imul(a, m), imul(b, m))]),
        fa([a, b], z3.Implies(z3.And(a >= 1, b >= 0), imul(a, b) >= b), patterns=[imul(a, b)]),
    ]


def mul_def():
    a, b = z3.Ints('a!q b!q')
    return z3.ForAll([a, b], imul(a, b) == a * b, patterns=[imul(a, b)])


STORES = {}     # name of an array -> the store term it stands for
GHOST_VARS = {}  # ghost variables seen by several functions: name -> type
DISTINCT = {}   # pairs of indexes proved to differ


def sel(a, i):
    if isinstance(i, int):
        i = z3.IntVal(i)
    while z3.is_app(a):
        s = STORES.get(a.decl().name(), a) if a.num_args() == 0 else a
        if s.decl().kind() != z3.Z3_OP_STORE:
            break
        j = s.arg(1)
        if j.eq(i):
            return s.arg(2)
        if z3.is_int_value(i) and z3.is_int_value(j) or (i.get_id(), j.get_id()) in DISTINCT:
            a = s.arg(0)
            continue
        break
    if z3.is_K(a):
        return a.arg(0)
    return z3.Select(a, i)


def And(*xs):
    ys = []
    for x in xs:
        if z3.is_true(x):
            continue
        if z3.is_false(x):
            return F
        ys.append(x)
    return T if not ys else ys[0] if len(ys) == 1 else z3.And(*ys)


def Not(x):
    if z3.is_true(x):
        return F
    if z3.is_false(x):
        return T
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def Or(*xs):
    ys = []
    for x in xs:
        if z3.is_false(x):
            continue
        if z3.is_true(x):
            return T
        ys.append(x)
    return F if not ys else ys[0] if len(ys) == 1 else z3.Or(*ys)


def Imp(a, b):
    if z3.is_true(a):
        return b
    if z3.is_false(a) or z3.is_true(b):
        return T
    return z3.Implies(a, b)


def Ite(c, a, b):
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a.eq(b):
        return a
    return z3.If(c, a, b)


def consts_of(t, acc=None, seen=None):
    acc = set() if acc is None else acc
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(x):
            if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                acc.add(x.decl().name())
            st.extend(x.children())
        elif z3.is_quantifier(x):
            st.append(x.body())
    return acc


class Val:
    __slots__ = ('ty', 'l')

    def __init__(self, ty, l):
        self.ty, self.l = ty, tuple(l)

    @property
    def t(self):
        if len(self.l) != 1:
            raise Unsupported('scalar expected, got ' + repr(self.ty))
        return self.l[0]

    def __repr__(self):
        return 'Val(%r)' % (self.ty,)


class LV:
    """base: ('key', key, Ty) or ('obj', class, ref term)"""
    __slots__ = ('base', 'steps', 'ty')

    def __init__(self, base, steps, ty):
        self.base, self.steps, self.ty = base, steps, ty

    def same(self, o):
        if self.base[:2] != o.base[:2] or len(self.steps) != len(o.steps):
            return False
        if self.base[0] == 'obj' and not self.base[2].eq(o.base[2]):
            return False
        for a, b in zip(self.steps, o.steps):
            if a[0] != b[0]:
                return False
            if a[0] == 'f':
                if a[1] != b[1]:
                    return False
            elif not a[1].eq(b[1]):
                return False
        return True


class Special:
    """Values that never enter memory: iterators, streams, addresses, ..."""

    def __init__(self, kind, **kw):
        self.kind = kind
        self.__dict__.update(kw)


class State:
    __slots__ = ('pc', 'env')

    def __init__(self, pc, env):
        self.pc, self.env = pc, env

    def copy(self):
        return State(self.pc, dict(self.env))


class Frame:
    def __init__(self, func, this, num, path):
        self.func, self.this, self.num, self.path = func, this, num, path
        self.vars = {}      # decl id -> ('key', key, ty) or LV or Special
        self.names = {}     # name -> decl id (latest)
        self.order = []
        self.returns = []   # (state, value)
        self.calls = 0


class Obl:
    def __init__(self, name, kind, nfacts, pc, goal, loc, hint=()):
        self.name, self.kind, self.nfacts, self.pc, self.goal, self.loc = name, kind, nfacts, pc, goal, loc
        self.hint = tuple(hint)
        self.cases = ()


class Ctx:
    """What contracts see."""

    def __init__(self, eng, st, roots, res=None, old=None):
        self.eng, self.st, self.roots, self.res, self._old = eng, st, roots, res, old

    @property
    def old(self):
        return Ctx(self.eng, self._old, self.roots, None, self._old)

    def lv(self, path):
        m = re.match(r'^([A-Za-z_~][A-Za-z_0-9]*)(.*)$', path)
        root, rest = m.group(1), m.group(2)
        x = self.roots(root)
        for f in [p for p in rest.split('.') if p]:
            if isinstance(x, Val):
                o, n, t, r = self.eng.types.slice(x.ty, f)
                x = Val(t, x.l[o:o + n])
            else:
                x = self.eng.get_field(x, f, self.st)
        return x

    def val(self, path):
        x = self.lv(path)
        return self.eng.read(x, self.st) if isinstance(x, LV) else x

    def __call__(self, path):
        m = re.match(r'^([A-Za-z_~][A-Za-z_0-9]*)(.*)$', path)
        if not m:
            raise Unsupported('bad path ' + path)
        root, rest = m.group(1), m.group(2)
        if root == 'res':
            x = self.res
            if x is None:
                raise Unsupported('no result here')
        else:
            x = self.roots(root)
        return self._leaf(x, rest, path)

    def _leaf(self, x, rest, path):
        if isinstance(x, Special):
            raise Unsupported('cannot use ' + path + ' in a contract')
        if isinstance(x, LV):
            # walk fields while the remaining path names one, so that references are followed
            m = re.match(r'^\.([A-Za-z_][A-Za-z_0-9]*)(.*)$', rest)
            if m and x.ty.kind in ('rec', 'pair') and rest:
                try:
                    y = self.eng.get_field(x, m.group(1), self.st)
                except Unsupported:
                    y = None
                if y is not None:
                    return self._leaf(y, m.group(2), path)
            x = self.eng.read(x, self.st)
        for (s, _), l in zip(self.eng.types.leaves(x.ty), x.l):
            if s == rest:
                return l
        raise Unsupported('no component %s of %s (%s)' % (rest, path, x.ty))

    # memory ----------------------------------------------------------------------------
    def mem(self, elem='double'):
        return self.eng.getk(('mem', elem), self.st).l[0]

    def size(self, elem='double'):
        return self.eng.getk(('size', elem), self.st).l[0]

    def at(self, blk, off, elem='double'):
        return sel(sel(self.mem(elem), blk), off)

    def ptr_at(self, path, i, elem='double'):
        return self.at(self(path + '.blk'), self(path + '.off') + i, elem)

    def hf(self, cls, field, leaf=''):
        """family of a field over all objects of a class"""
        f = self.eng.types.field(cls, field)
        v = self.eng.getk(('hf', f[3], field), self.st, Ty('heap', self.eng.types.field_leaf_ty(f)))
        for (s, _), l in zip(self.eng.types.leaves(v.ty), v.l):
            if s == leaf:
                return l
        raise Unsupported('no leaf %s of %s.%s' % (leaf, cls, field))

    def alive(self, cls):
        return self.eng.getk(('alive', self.eng.root_class(cls)), self.st).l[0]

    def box(self, tyname, leaf):
        t = self.eng.types.parse(tyname)
        v = self.eng.getk(('box', repr(t)), self.st, Ty('heap', t))
        for (s, _), l in zip(self.eng.types.leaves(v.ty), v.l):
            if s == leaf:
                return l
        raise Unsupported('box leaf ' + leaf)

    def glob(self, name):
        return self.eng.getk(('g', name), self.st, None).t

    def heap(self, path):
        """the vector is a heap"""
        v = self.val(path)
        return self.eng.is_heap(v, v.l[0])

    def name(self, path):
        """the name of the object a path leads to"""
        return self.eng.name_of(self.lv(path))

    def has(self, name):
        try:
            self.roots(name)
            return True
        except Unsupported:
            return False


class Contract:
    """Base class; subclasses override."""
    key = None
    ptypes = None          # parameter types, to choose between overloads
    files = ()
    self_mode = 'var'
    float_mode = 'uf'
    props = ()
    inline = ()
    axioms = ()
    pure = False
    trusted = False
    alias = None           # ('other','self') verifies the aliased call
    variant = ''
    loops = {}
    nloops = None
    timeout = 20
    no_contract = ()       # callees to inline although they have a contract
    unroll = {}
    allocates = False
    creates = ()           # classes of which new objects may exist afterwards ('box T' for vectors bound by reference)
    ghosts = ()
    lemmas = ()            # names of lemmas whose statement the contract uses
    unreachable = ()       # program points the precondition rules out
    shards = 1             # processes the obligations are spread over

    def requires(self, c):
        return []

    def ensures(self, c):
        return []

    def throws(self, c):
        return F

    def result(self, c):
        """components of the result given by terms over the state before the call"""
        return {}

    def sets(self, c):
        """[(lvalue, terms of its components)] over the state before the call: what it holds afterwards"""
        return []

    ghost_exit = None

    def on_throw(self, c):
        return []

    def modifies(self, c):
        return []

    def destroys(self, c):
        """{class: predicate}: objects that may no longer exist afterwards"""
        return {}

    def hints(self, c):
        return []

    def facts(self, eng):
        return []

    def on_call(self, eng, fr, name):
        return None


class Loop:
    def __init__(self, inv, decreases=None, hints=None, end_hints=None, ghost_init=None, ghost_step=None, exit_hints=None, entry_hints=None):
        self.inv, self.decreases, self.hints, self.end_hints = inv, decreases, hints, end_hints
        self.exit_hints, self.entry_hints = exit_hints, entry_hints
        self.ghost_init, self.ghost_step = ghost_init, ghost_step


class Engine:
    def __init__(self, prog, contracts, con, boxed=(), log=None):
        self.prog, self.contracts, self.con = prog, contracts, con
        STORES.clear()
        DISTINCT.clear()
        self.types = Types(prog)
        if boxed:
            bx = set(boxed)
            orig = self.types.fields
            self.types.fields = lambda rec: [(f[0], f[1], f[2] or (f[3], f[0]) in bx, f[3]) for f in orig(rec)]
        self.n = 0
        self.facts = []
        self.obls = []
        self.init = {}
        self.dry = 0
        self.st = None
        self.frames = []
        self.nframe = 0
        self.loopidx = {}
        self.loopmod = {}
        self.loopkinds = []
        self.breaks, self.conts, self.throws = [], [], []
        self.wlog = []
        self.conds = []        # conditions of the branches taken since the loop head
        self.dead = []         # ranges of facts about finished loop bodies
        self.allocs = []
        self.used_contracts = set()
        self.inlined = set()
        self.externals = set()
        self.prenames = []
        self.skip = ()
        self.curnode = None
        self.probes = []      # reachability checks: (name, nfacts, pc)
        self.strings = {}
        self.ghost = {}

    # ---- names, facts, obligations ------------------------------------------------------
    def fresh(self, name, sort):
        self.n += 1
        return z3.Const('%s!%d' % (name, self.n), sort)

    def fresh_val(self, name, ty, facts=True):
        v = Val(ty, [self.fresh(name + s, so) for s, so in self.types.leaves(ty)])
        if facts:
            self.assume_type(v)
        return v

    def assume_type(self, v, pc=True):
        for f in self.type_facts(v):
            self.facts.append(f)

    def type_facts(self, v):
        out = []
        t = v.ty
        if t.kind == 'uint':
            out.append(v.l[0] >= 0)
        if t.kind == 'vec':
            out.append(v.l[0] >= 0)
            if t.args[0].kind == 'vec':
                i = z3.Int('i!q')
                out.append(z3.ForAll([i], sel(v.l[1], i) >= 0, **({} if z3.is_K(v.l[1]) else dict(patterns=[sel(v.l[1], i)]))))
        if t.kind == 'rec':
            for f in self.types.fields(t.args[0]):
                if f[1].kind in ('vec', 'uint') and not f[2]:
                    o, n, ft, _ = self.types.slice(t, f[0])
                    out += self.type_facts(Val(ft, v.l[o:o + n]))
        if t.kind == 'heap' and t.args[0].kind in ('vec', 'uint'):
            i = z3.Int('i!q')
            out.append(z3.ForAll([i], sel(v.l[0], i) >= 0, **({} if z3.is_K(v.l[0]) else dict(patterns=[sel(v.l[0], i)]))))
        return out

    def assume(self, f, pc=None):
        if z3.is_true(f):
            return
        self.facts.append(Imp(self.st.pc if pc is None else pc, f))

    def prove(self, name, kind, goal, hint=()):
        if self.dry or z3.is_false(self.st.pc):
            return
        if not z3.is_true(goal):
            loc = self.loc()
            self.obls.append(Obl(name, kind, len(self.facts), self.st.pc, goal, loc, hint))
            self.obls[-1].cases = tuple(self.conds[-8:])
            self.assume(goal)
        else:
            self.trivial = getattr(self, 'trivial', 0) + 1

    def facts_for(self, o):
        """the facts an obligation may use; what was learnt inside the body of a loop that has been
        left since says nothing about the states after it"""
        out, i = list(self.initfacts), 0
        for lo, hi in sorted(self.dead):
            if hi <= o.nfacts and lo >= i:
                out += self.facts[i:lo]
                i = hi
        return out + self.facts[i:o.nfacts]

    def loc(self):
        n = self.curnode
        if not n:
            return ''
        b = n.get('range', {}).get('begin', {})
        b = b.get('expansionLoc', b)
        return 'offset %s' % b.get('offset', '?')

    def name_bool(self, f, nm='pc'):
        if z3.is_true(f) or z3.is_false(f):
            return f
        if z3.is_const(f) or (z3.is_not(f) and z3.is_const(f.arg(0))):
            return f
        b = self.fresh(nm, z3.BoolSort())
        self.facts.append(b == f)
        return b

    # ---- environment --------------------------------------------------------------------
    def key_type(self, key):
        k = key[0]
        if k == 'mem':
            return Ty('heap', Ty('heap', {'double': REAL, 'int': INT}[key[1]]))
        if k == 'size':
            return Ty('heap', INT)
        if k in ('alive', 'used'):
            return Ty('heap', BOOL)
        if k == 'g':
            d = self.prog.globals.get(key[1])
            if d is None:
                if key[1] == 'extraTimeSeries':
                    return INT
                raise Unsupported('global ' + key[1])
            return self.types.of(d['type'])
        if k == 'ghost':
            return None
        if k == 'gg':
            return GHOST_VARS[key[1]]
        raise Unsupported('no type for %r' % (key,))

    def root_class(self, cls):
        r = self.prog.records.get(cls)
        while r is not None and r.bases and r.bases[0] in self.prog.records:
            r = self.prog.records[r.bases[0]]
        return r.name if r is not None else cls

    def getk(self, key, st=None, ty=None):
        env = (st or self.st).env
        if key in env:
            return env[key]
        if key not in self.init:
            t = ty or self.key_type(key)
            v = Val(t, [z3.Const('%s%s' % ('.'.join(map(str, key)), s), so) for s, so in self.types.leaves(t)])
            self.init[key] = v
            self.initfacts.extend(self.type_facts(v))
            if key[0] == 'size':
                self.initfacts.append(sel(v.l[0], z3.IntVal(0)) < 0)
            if key[0] == 'alive':
                self.initfacts.append(Not(sel(v.l[0], z3.IntVal(0))))
        return self.init[key]

    def setk(self, key, v):
        self.st.env[key] = v

    def heap_key_ty(self, base):
        return base[2]

    # ---- lvalues ------------------------------------------------------------------------
    def get_field(self, lv, name, st=None):
        if lv.ty.kind == 'pair':
            t = lv.ty.args[0] if name == 'first' else lv.ty.args[1]
            return LV(lv.base, lv.steps + [('f', name)], t)
        if lv.ty.kind != 'rec':
            raise Unsupported('field %s of %r' % (name, lv.ty))
        f = self.types.field(lv.ty.args[0], name)
        lt = self.types.field_leaf_ty(f)
        if lv.base[0] == 'obj' and not lv.steps:
            r = LV(('key', ('hf', f[3], name), Ty('heap', lt)), [('h', lv.base[2])], lt)
        else:
            r = LV(lv.base, lv.steps + [('f', name)], lt)
        if f[2]:
            ref = self.read(r, st).t
            return self.deref_name(f[1], ref)
        return r

    def deref_name(self, ty, ref):
        if ty.kind == 'rec':
            return LV(('obj', ty.args[0], ref), [], ty)
        return LV(('key', ('box', repr(ty)), Ty('heap', ty)), [('h', ref)], ty)

    def name_of(self, lv):
        """the object name a reference member gets when bound to lv"""
        if lv.base[0] == 'obj' and not lv.steps:
            return lv.base[2]
        if lv.base[0] == 'key' and lv.base[1][0] == 'box' and len(lv.steps) == 1:
            return lv.steps[0][1]
        raise Unsupported('reference member bound to a local object')

    def _narrow(self, ty, l, step):
        k = step[0]
        if k == 'f':
            o, n, t, _ = self.types.slice(ty, step[1])
            return t, l[o:o + n]
        if k == 'h':
            return ty.args[0], tuple(sel(x, step[1]) for x in l)
        if k == 'i':
            return ty.args[0], tuple(sel(x, step[1]) for x in l[1:])
        if k == 'k':
            return ty.args[1], tuple(sel(x, step[1]) for x in l[2:])
        raise Unsupported('step')

    def read(self, lv, st=None):
        if isinstance(lv, Val):
            return lv
        if lv.base[0] == 'obj' and not lv.steps:
            l = ()
            for f in self.types.fields(lv.base[1]):
                lt = self.types.field_leaf_ty(f)
                l += self.read(LV(('key', ('hf', f[3], f[0]), Ty('heap', lt)), [('h', lv.base[2])], lt), st).l
            return Val(lv.ty, l)
        v = self.getk(lv.base[1], st, lv.base[2])
        if isinstance(v, Special):
            return v
        ty, l = v.ty, v.l
        for s in lv.steps:
            ty, l = self._narrow(ty, l, s)
        return Val(ty, l)

    def _upd(self, ty, l, steps, new):
        if not steps:
            return tuple(new)
        s = steps[0]
        if s[0] == 'f':
            o, n, t, _ = self.types.slice(ty, s[1])
            return tuple(l[:o]) + self._upd(t, l[o:o + n], steps[1:], new) + tuple(l[o + n:])
        t, sub = self._narrow(ty, l, s)
        nsub = self._upd(t, sub, steps[1:], new)
        skip = {'h': 0, 'i': 1, 'k': 2}[s[0]]
        out = list(l[:skip])
        for x, a, b in zip(l[skip:], sub, nsub):
            out.append(x if a.eq(b) else z3.Store(x, s[1], b))
        return tuple(out)

    def write(self, lv, v):
        if isinstance(lv, Special):
            raise Unsupported('write to ' + lv.kind)
        if isinstance(v, Special):
            if lv.base[0] == 'key' and not lv.steps:
                self.st.env[lv.base[1]] = v
                return
            raise Unsupported('storing a ' + v.kind)
        if lv.base[0] == 'obj' and not lv.steps:
            o = 0
            for f in self.types.fields(lv.base[1]):
                lt = self.types.field_leaf_ty(f)
                n = len(self.types.leaves(lt))
                self.write(LV(('key', ('hf', f[3], f[0]), Ty('heap', lt)), [('h', lv.base[2])], lt), Val(lt, v.l[o:o + n]))
                o += n
            return
        key = lv.base[1]
        cur = self.getk(key, None, lv.base[2])
        if isinstance(cur, Special) and not lv.steps:
            self.st.env[key] = v
            return
        if lv.steps and lv.steps[0][0] == 'h':
            for w in self.wlog:
                w.append((key, lv.steps[0][1]))
        elif lv.base[2].kind == 'heap':
            for w in self.wlog:
                w.append((key, None))
        nl = self._upd(cur.ty, cur.l, lv.steps, v.l)
        if key[0] == 'mem' and nl[0].decl().kind() == z3.Z3_OP_STORE:
            nl = [self.name_store(nl[0])] + list(nl[1:])
        self.st.env[key] = Val(cur.ty, nl)

    def name_store(self, x):
        nm = self.fresh('mem', x.sort())
        self.facts.append(nm == x)
        STORES[nm.decl().name()] = x
        return nm

    def temp(self, v, nm='tmp'):
        self.n += 1
        key = ('t', nm, self.n)
        if isinstance(v, Special):
            self.st.env[key] = v
            return LV(('key', key, None), [], None)
        self.st.env[key] = v
        return LV(('key', key, v.ty), [], v.ty)

    # ---- states -------------------------------------------------------------------------
    def merge(self, states):
        states = [s for s in states if not z3.is_false(s.pc)]
        if not states:
            return State(F, {})
        if len(states) == 1:
            return states[0]
        keys = set()
        for s in states:
            keys |= set(s.env)
        env = {}
        for k in keys:
            vals = []
            ok = True
            for s in states:
                if k in s.env:
                    vals.append(s.env[k])
                elif k in self.init:
                    vals.append(self.init[k])
                else:
                    ok = False
                    break
            if not ok:
                continue
            if any(isinstance(v, Special) for v in vals):
                if all(v is vals[0] for v in vals):
                    env[k] = vals[0]
                continue
            if any(v.ty != vals[0].ty for v in vals):
                continue
            l = []
            for i in range(len(vals[0].l)):
                acc = vals[-1].l[i]
                if all(v.l[i].eq(acc) for v in vals):
                    l.append(acc)
                    continue
                for s, v in zip(states[-2::-1], vals[-2::-1]):
                    acc = Ite(s.pc, v.l[i], acc)
                if z3.is_app(acc) and acc.decl().kind() == z3.Z3_OP_ITE:
                    nm = self.fresh('mrg.' + str(k[-1]), acc.sort())
                    self.facts.append(nm == acc)
                    acc = nm
                l.append(acc)
            env[k] = Val(vals[0].ty, l)
        return State(self.name_bool(Or(*[s.pc for s in states])), env)

    def merge_values(self, pairs):
        """pairs: [(pc, value)]"""
        pairs = [(p, v) for p, v in pairs if not z3.is_false(p)]
        if not pairs:
            return None
        v0 = pairs[0][1]
        if all(v is v0 for _, v in pairs):
            return v0
        if all(isinstance(v, LV) for _, v in pairs):
            if all(v.same(v0) for _, v in pairs):
                return v0
            # lvalues of the same shape: merge the indices
            b = v0
            for _, v in pairs:
                if v.base[:2] != b.base[:2] or len(v.steps) != len(b.steps) or any(x[0] != y[0] or (x[0] == 'f' and x[1] != y[1]) for x, y in zip(v.steps, b.steps)):
                    return self.merge_values([(p, self.read(v)) for p, v in pairs])
            steps = []
            for i, s in enumerate(b.steps):
                if s[0] == 'f':
                    steps.append(s)
                else:
                    acc = pairs[-1][1].steps[i][1]
                    for p, v in pairs[-2::-1]:
                        acc = Ite(p, v.steps[i][1], acc)
                    steps.append((s[0], acc))
            base = b.base
            if base[0] == 'obj':
                acc = pairs[-1][1].base[2]
                for p, v in pairs[-2::-1]:
                    acc = Ite(p, v.base[2], acc)
                base = ('obj', base[1], acc)
            return LV(base, steps, b.ty)
        if any(isinstance(v, Special) for _, v in pairs):
            raise Unsupported('merging ' + v0.kind if isinstance(v0, Special) else 'merging special values')
        vs = [(p, self.read(v) if isinstance(v, LV) else v) for p, v in pairs]
        l = []
        for i in range(len(vs[0][1].l)):
            acc = vs[-1][1].l[i]
            for p, v in vs[-2::-1]:
                acc = Ite(p, v.l[i], acc)
            l.append(acc)
        return Val(vs[0][1].ty, l)

    def branch(self, cond, fa, fb):
        """run fa under cond and fb under its negation; returns merged value"""
        if z3.is_true(cond):
            return fa()
        if z3.is_false(cond):
            return fb()
        cond = self.name_bool(cond, 'c')
        s0 = self.st
        sa, sb = s0.copy(), s0.copy()
        sa.pc = self.name_bool(And(s0.pc, cond))
        sb.pc = self.name_bool(And(s0.pc, Not(cond)))
        self.st = sa
        va = fa()
        ea = self.st
        self.st = sb
        vb = fb()
        eb = self.st
        if not self.dry:
            self.conds.append(cond)
        self.st = self.merge([ea, eb])
        if va is None or vb is None:
            return None
        return self.merge_values([(ea.pc, va), (eb.pc, vb)])

    def kill(self):
        self.st = State(F, {})

    # ---- memory -------------------------------------------------------------------------
    def alloc_block(self, elem, size):
        """a new array of numbers; contents unspecified"""
        b = self.fresh('blk', z3.IntSort())
        sz = self.getk(('size', elem)).l[0]
        self.assume(And(b > 0, sel(sz, b) == -1))
        self.allocs.append(b.decl().name())
        self.setk(('size', elem), Val(self.key_type(('size', elem)), [z3.Store(sz, b, size)]))
        for w in self.wlog:
            w.append((('size', elem), b))
            w.append((('mem', elem), b))
        m = self.getk(('mem', elem)).l[0]
        inner = m.sort().range()
        self.setk(('mem', elem), Val(self.key_type(('mem', elem)), [z3.Store(m, b, self.fresh('new', inner))]))
        return Val(Ty('ptr', REAL if elem == 'double' else INT), [b, z3.IntVal(0)])

    def free_block(self, p, elem):
        b, o = p.l
        sz = self.getk(('size', elem)).l[0]
        self.prove('only allocated arrays are freed, once', 'safe', Or(b == 0, And(o == 0, sel(sz, b) >= 0)))
        for w in self.wlog:
            w.append((('size', elem), b))
        self.setk(('size', elem), Val(self.key_type(('size', elem)), [Ite(b == 0, sz, z3.Store(sz, b, z3.IntVal(-2)))]))

    def elem_of(self, pty):
        k = pty.args[0].kind
        if k == 'double':
            return 'double'
        if k in ('int', 'uint'):
            return 'int'
        raise Unsupported('pointer to ' + repr(pty.args[0]))

    def deref_ptr(self, p, idx):
        """lvalue of p[idx] with its bounds obligation"""
        elem = self.elem_of(p.ty)
        off = p.l[1] + idx if not (z3.is_int_value(idx) and idx.as_long() == 0) else p.l[1]
        if z3.is_int_value(p.l[1]) and p.l[1].as_long() == 0:
            off = idx
        sz = self.getk(('size', elem)).l[0]
        self.prove('array access inside its allocation', 'safe', And(off >= 0, off < sel(sz, p.l[0])))
        return LV(('key', ('mem', elem), self.key_type(('mem', elem))), [('h', p.l[0]), ('h', off)], REAL if elem == 'double' else INT)

    def deref_obj(self, v):
        cls = v.ty.args[0]
        r = v.t
        al = self.root_class(cls)
        self.prove('pointer to a live object', 'safe', And(r != 0, sel(self.getk(('alive', al)).l[0], r)))
        return LV(('obj', cls, r), [], Ty('rec', cls))

    def new_obj(self, cls):
        r = self.fresh('obj.' + cls, z3.IntSort())
        cls = self.root_class(cls)
        al = self.getk(('alive', cls)).l[0]
        us = self.getk(('used', cls)).l[0]
        self.assume(And(r > 0, Not(sel(al, r)), Not(sel(us, r))))
        for w in self.wlog:
            w.append((('used', cls), r))
        self.setk(('used', cls), Val(self.key_type(('used', cls)), [z3.Store(us, r, T)]))
        self.allocs.append(r.decl().name())
        for w in self.wlog:
            w.append((('alive', cls), r))
        self.setk(('alive', cls), Val(self.key_type(('alive', cls)), [z3.Store(al, r, T)]))
        return r

    def new_box(self, ty):
        key = ('box', repr(ty))
        r = self.fresh('box', z3.IntSort())
        al = self.getk(('alive', 'box ' + repr(ty))).l[0]
        self.assume(And(r > 0, Not(sel(al, r))))
        self.allocs.append(r.decl().name())
        for w in self.wlog:
            w.append((('alive', 'box ' + repr(ty)), r))
        self.setk(('alive', 'box ' + repr(ty)), Val(self.key_type(('alive', 'x')), [z3.Store(al, r, T)]))
        return r

    def havoc_block(self, blk, elem='double'):
        m = self.getk(('mem', elem)).l[0]
        self.write(LV(('key', ('mem', elem), self.key_type(('mem', elem))), [('h', blk)], Ty('heap', REAL if elem == 'double' else INT)),
                   Val(Ty('heap', REAL), [self.fresh('hav', m.sort().range())]))

    def havoc_family(self, key, pre_ids, alive_fact, ty=None, mark_allocs=True):
        """fresh contents for a family; members for which alive_fact(b) holds and that are not in
        pre_ids keep theirs"""
        v = self.getk(key, None, ty)
        nl = []
        for (s, so), x in zip(self.types.leaves(v.ty), v.l):
            y = self.fresh('hav.%s%s' % (key[-1], s), so)
            b = z3.Int('b!q')
            if alive_fact is not None:
                self.assume(z3.ForAll([b], Imp(And(alive_fact(b), *[b != p for p in pre_ids]), sel(y, b) == sel(x, b)), patterns=[sel(y, b)]))
            nl.append(y)
        for w in self.wlog:
            if alive_fact is None:
                w.append((key, None))
            else:
                for p in pre_ids:
                    w.append((key, p))
                w.append((key, 'ALLOC'))
        nv = Val(v.ty, nl)
        self.setk(key, nv)
        self.assume_type(nv)
