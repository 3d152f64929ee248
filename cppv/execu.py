"""Expressions and statements of the symbolic execution."""
import z3
from engine import *
from astload import SKIP_KINDS

SIZES = {'double': 8, 'int': 4, 'uint': 8, 'ptr': 8, 'ref': 8, 'bool': 1}
STREAMY = ('basic_ostream', 'basic_ofstream', 'basic_ifstream', 'basic_istream', 'basic_ostringstream', 'ostream', 'ofstream',
           'ifstream', 'istream', 'ostringstream', 'stringstream', 'basic_fstream')


def kids(n):
    return [x for x in n.get('inner', []) if x and x.get('kind') and not x['kind'].endswith('Comment')]


def strip(n):
    while n['kind'] in ('ParenExpr', 'ExprWithCleanups', 'ImplicitCastExpr', 'CXXBindTemporaryExpr', 'MaterializeTemporaryExpr', 'ConstantExpr'):
        k = kids(n)
        if len(k) != 1:
            break
        n = k[0]
    return n


def is_streamy(s):
    return any(x in s for x in STREAMY)


class Exec(Engine):
    # ---- helpers ------------------------------------------------------------------------
    @property
    def fr(self):
        return self.frames[-1]

    def rv(self, node):
        v = self.ev(node)
        return self.read(v) if isinstance(v, LV) else v

    def num(self, node):
        v = self.rv(node)
        if isinstance(v, Special):
            raise Unsupported('number expected, got ' + v.kind)
        return v.t

    def asbool(self, node):
        v = self.rv(node)
        if isinstance(v, Special):
            if v.kind == 'stream':
                return self.fresh('streamok', z3.BoolSort())
            if v.kind == 'bool':
                return v.t
            raise Unsupported('condition on ' + v.kind)
        if v.ty.kind == 'bool':
            return v.t
        if v.ty.kind in ('int', 'uint', 'ref'):
            return v.t != 0
        if v.ty.kind == 'double':
            return v.t != 0
        if v.ty.kind == 'ptr':
            return v.l[0] != 0
        raise Unsupported('condition of type %r' % v.ty)

    def aslv(self, node):
        v = self.ev(node)
        return v if isinstance(v, LV) else self.temp(v)

    def default(self, ty):
        """value-initialised value"""
        k = ty.kind
        if k in ('int', 'uint', 'ref', 'fun', 'refname'):
            return Val(ty, [z3.IntVal(0)])
        if k == 'double':
            return Val(ty, [z3.RealVal(0)])
        if k == 'bool':
            return Val(ty, [F])
        if k == 'ptr':
            return Val(ty, [z3.IntVal(0), z3.IntVal(0)])
        if k == 'vec':
            return Val(ty, [z3.IntVal(0)] + [self.fresh('empty', so) for _, so in self.types.leaves(ty)[1:]])
        if k == 'pair':
            return Val(ty, self.default(ty.args[0]).l + self.default(ty.args[1]).l)
        if k == 'str':
            return Val(ty, [self.string('')])
        if k == 'map':
            lv = self.types.leaves(ty)
            return Val(ty, [z3.K(lv[0][1].domain(), F), z3.IntVal(0)] + [self.fresh('emptymap', so) for _, so in lv[2:]])
        if k == 'rec':
            return self.construct(ty.args[0], [], 'void ()')
        raise Unsupported('default value of %r' % ty)

    def string(self, s):
        if s not in self.strings:
            c = z3.Const('str:' + s, StrSort)
            for o in self.strings.values():
                self.initfacts.append(c != o)
            self.strings[s] = c
        return self.strings[s]

    # ---- floating point -----------------------------------------------------------------
    def f2(self, op, a, b):
        if self.con.float_mode == 'real':
            return {'+': a + b, '-': a - b, '*': a * b, '/': a / b}[op]
        zero = lambda x: z3.is_rational_value(x) and x.numerator_as_long() == 0
        if op == '+':
            return a if zero(b) else b if zero(a) else fadd(a, b)
        if op == '-':
            return a if zero(b) else fsub(a, b)
        if op == '*':
            return fmul(a, b)
        return fdiv(a, b)

    def tdiv(self, a, b):
        self.prove('divisor not zero', 'safe', b != 0)
        if z3.is_int_value(b) and b.as_long() > 0:
            return z3.If(a >= 0, a / b, -((-a) / b))
        return self.divide(a, b)[0]

    def divide(self, a, b):
        """quotient and remainder of a by an unknown b; only positive divisors are used here"""
        self.prove('divisor positive', 'safe', b > 0)
        pos = []
        for x in (a, -a):
            qu, re = idiv(x, b), imod(x, b)
            self.assume(Imp(And(x >= 0, b > 0), And(x == mul(qu, b) + re, 0 <= re, re < b, 0 <= qu, qu <= x, Imp(x < b, qu == 0))))
            pos.append((qu, re))
        return z3.If(a >= 0, pos[0][0], -pos[1][0]), z3.If(a >= 0, pos[0][1], -pos[1][1])

    def tmod(self, a, b):
        self.prove('divisor not zero', 'safe', b != 0)
        if not (z3.is_int_value(b) and b.as_long() > 0):
            return self.divide(a, b)[1]
        return z3.If(a >= 0, a % b, -((-a) % b))

    def arith(self, op, a, b, ty):
        if ty.kind == 'double':
            return Val(REAL, [self.f2(op, a.t, b.t)])
        x, y = a.t, b.t
        if a.ty.kind == 'bool':
            x = z3.If(x, 1, 0)
        if b.ty.kind == 'bool':
            y = z3.If(y, 1, 0)
        if op == '+':
            r = x + y
        elif op == '-':
            r = x - y
            if ty.kind == 'uint':
                self.prove('unsigned subtraction does not wrap', 'safe', r >= 0)
        elif op == '*':
            r = mul(x, y)
        elif op == '/':
            r = self.tdiv(x, y)
        elif op == '%':
            r = self.tmod(x, y)
        else:
            raise Unsupported('operator ' + op)
        return Val(ty, [r])

    def compare(self, op, a, b):
        if isinstance(a, Special) or isinstance(b, Special):
            return self.compare_special(op, a, b)
        if a.ty.kind == 'null' and b.ty.kind != 'null':
            a = self.default(b.ty)
        if b.ty.kind == 'null' and a.ty.kind != 'null':
            b = self.default(a.ty)
        if op in ('==', '!='):
            if a.ty.kind == 'bool' or b.ty.kind == 'bool':
                e = a.t == b.t
            elif a.ty.kind == 'ptr':
                e = And(a.l[0] == b.l[0], Or(a.l[0] == 0, a.l[1] == b.l[1]))
            else:
                e = And(*[x == y for x, y in zip(a.l, b.l)])
            return e if op == '==' else Not(e)
        x, y = a.t, b.t
        return {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[op]

    def compare_special(self, op, a, b):
        if op in ('==', '!='):
            e = None
            if getattr(a, 'kind', 0) == 'addr' and getattr(b, 'kind', 0) == 'addr':
                if a.lv.same(b.lv):
                    e = T
                elif a.lv.base[0] == 'key' and b.lv.base[0] == 'key' and (a.lv.base[1] != b.lv.base[1] or not a.lv.steps and not b.lv.steps):
                    e = F
                elif a.lv.base[0] != b.lv.base[0] and 'obj' in (a.lv.base[0], b.lv.base[0]):
                    e = F
            elif isinstance(a, Special) and isinstance(b, Special) and a.kind == 'mapit' and b.kind == 'mapit':
                if b.key is None and a.key is not None:
                    e = Not(sel(self.read(a.lv).l[0], a.key))
            if e is not None:
                return e if op == '==' else Not(e)
        raise Unsupported('comparison of %s' % getattr(a, 'kind', a))

    # ---- expressions --------------------------------------------------------------------
    def ev(self, n):
        k = n['kind']
        m = getattr(self, 'e_' + k, None)
        if m is None:
            raise Unsupported('expression %s' % k)
        if 'range' in n:
            self.curnode = n
        return m(n)

    def _first(self, n):
        return self.ev(kids(n)[0])
    e_ParenExpr = e_ExprWithCleanups = e_CXXBindTemporaryExpr = e_ConstantExpr = e_MaterializeTemporaryExpr = e_SubstNonTypeTemplateParmExpr = _first

    def e_IntegerLiteral(self, n):
        return Val(self.types.of(n['type']), [z3.IntVal(int(n['value']))])

    def e_CharacterLiteral(self, n):
        return Val(INT, [z3.IntVal(int(n['value']))])

    def e_FloatingLiteral(self, n):
        v = n['value']
        from fractions import Fraction
        fr = Fraction(float(v))
        return Val(REAL, [z3.RealVal(str(fr.numerator) + '/' + str(fr.denominator))])

    def e_CXXBoolLiteralExpr(self, n):
        return Val(BOOL, [z3.BoolVal(bool(n['value']))])

    def e_CXXNullPtrLiteralExpr(self, n):
        return Val(Ty('null'), [])

    def e_GNUNullExpr(self, n):
        return Val(Ty('null'), [])

    def e_StringLiteral(self, n):
        s = n['value']
        return Val(STR, [self.string(s[1:-1] if s.startswith('"') else s)])

    def e_UnaryExprOrTypeTraitExpr(self, n):
        if n.get('name') != 'sizeof':
            raise Unsupported('trait')
        t = self.types.of(n['argType']) if 'argType' in n else self.types.of(kids(n)[0]['type'])
        if t.kind not in SIZES:
            raise Unsupported('sizeof %r' % t)
        q = n.get('argType', {}).get('qualType', '')
        return Val(UINT, [z3.IntVal(SIZES[t.kind])])

    def e_CXXThisExpr(self, n):
        return Special('addr', lv=self.fr.this)

    def e_DeclRefExpr(self, n):
        d = n['referencedDecl']
        if d['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
            return Special('func', decl=d, node=n)
        if d['kind'] == 'EnumConstantDecl':
            raise Unsupported('enumerator')
        for fr in reversed(self.frames):
            if d['id'] in fr.vars:
                x = fr.vars[d['id']]
                if isinstance(x, tuple):
                    v = self.st.env.get(x[1])
                    if isinstance(v, Special):
                        return v
                    return LV(x, [], x[2])
                return x
        # a global
        nm = d['name']
        q = d['type']['qualType']
        if is_streamy(q):
            return Special('stream', name=nm)
        if nm in ('cout', 'cerr', 'clog', 'cin'):
            return Special('stream', name=nm)
        ty = self.types.of(d['type'])
        if nm in self.prog.globals or nm == 'extraTimeSeries':
            return LV(('key', ('g', nm), ty), [], ty)
        if ty.kind == 'opaque':
            return Special('opaque', name=nm)
        raise Unsupported('unknown variable ' + nm)

    def e_ImplicitCastExpr(self, n):
        return self.cast(n)
    e_CXXStaticCastExpr = e_CStyleCastExpr = e_CXXFunctionalCastExpr = e_CXXConstCastExpr = e_ImplicitCastExpr

    def cast(self, n):
        ck = n['castKind']
        sub = kids(n)[0]
        if ck in ('NoOp', 'ConstructorConversion', 'FunctionToPointerDecay', 'ArrayToPointerDecay', 'UncheckedDerivedToBase',
                  'DerivedToBase', 'UserDefinedConversion', 'BuiltinFnToFnPtr'):
            v = self.ev(sub)
            if ck in ('UncheckedDerivedToBase', 'DerivedToBase'):
                t = self.types.of(n['type'])
                if isinstance(v, LV) and t.kind == 'rec' and v.base[0] == 'obj':
                    return LV(('obj', t.args[0], v.base[2]), v.steps, t)
                if isinstance(v, LV) and t.kind == 'rec' and v.ty is not None and v.ty.kind == 'rec' and v.ty != t:
                    return v   # base fields are found by name
                if isinstance(v, Val) and v.ty.kind == 'ref':
                    return Val(t, v.l)
            return v
        if ck == 'LValueToRValue':
            v = self.ev(sub)
            return self.read(v) if isinstance(v, LV) else v
        ty = self.types.of(n['type'])
        if ck == 'ToVoid':
            self.ev(sub)
            return Val(VOID, [])
        if ck == 'IntegralCast':
            v = self.rv(sub)
            if isinstance(v, Special):
                return v
            if v.ty.kind == 'bool':
                return Val(ty, [z3.If(v.t, z3.IntVal(1), z3.IntVal(0))])
            if ty.kind == 'bool':
                return Val(ty, [v.t != 0])
            if v.ty.kind == 'int' and ty.kind == 'uint' and not (z3.is_int_value(v.t) and v.t.as_long() >= 0):
                self.prove('value converted to unsigned is not negative', 'safe', v.t >= 0)
            return Val(ty, v.l)
        if ck == 'IntegralToBoolean':
            return Val(BOOL, [self.num(sub) != 0])
        if ck == 'FloatingToBoolean':
            return Val(BOOL, [self.num(sub) != 0])
        if ck == 'PointerToBoolean':
            return Val(BOOL, [self.asbool(sub)])
        if ck == 'IntegralToFloating':
            v = self.rv(sub)
            t = v.t
            if v.ty.kind == 'bool':
                t = z3.If(t, z3.IntVal(1), z3.IntVal(0))
            if z3.is_int_value(t):
                return Val(REAL, [z3.RealVal(t.as_long())])
            return Val(REAL, [z3.ToReal(t)])
        if ck == 'FloatingToIntegral':
            t = self.num(sub)
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_TO_REAL:
                return Val(ty, [t.arg(0)])
            return Val(ty, [z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t))])
        if ck == 'FloatingCast':
            return self.rv(sub)
        if ck == 'NullToPointer':
            return Val(Ty('null'), []) if ty.kind not in ('ptr', 'ref', 'fun') else self.default(ty)
        if ck == 'BitCast':
            v = self.rv(sub)
            if isinstance(v, Special) and v.kind == 'malloc':
                elem = self.elem_of(ty)
                sz = SIZES['double' if elem == 'double' else 'int']
                b = v.bytes
                cnt = self.fresh('cnt', z3.IntSort())
                self.assume(cnt * sz <= b)
                self.assume(cnt * sz > b - sz)
                self.prove('allocation size not negative', 'safe', b >= 0)
                return self.alloc_block(elem, cnt)
            return v
        raise Unsupported('cast ' + ck)

    def e_UnaryOperator(self, n):
        op = n['opcode']
        sub = kids(n)[0]
        if op == '!':
            return Val(BOOL, [Not(self.asbool(sub))])
        if op == '-':
            v = self.rv(sub)
            return Val(self.types.of(n['type']), [-v.t])
        if op == '+':
            return self.rv(sub)
        if op in ('++', '--'):
            lv = self.ev(sub)
            v = self.read(lv)
            one = Val(v.ty, [z3.RealVal(1) if v.ty.kind == 'double' else z3.IntVal(1)])
            if v.ty.kind == 'ptr':
                nv = Val(v.ty, [v.l[0], v.l[1] + (1 if op == '++' else -1)])
            else:
                nv = self.arith(op[0], v, one, v.ty)
            self.write(lv, nv)
            return v if n.get('isPostfix') else lv
        if op == '*':
            v = self.rv(sub)
            if isinstance(v, Special):
                if v.kind == 'addr':
                    return v.lv
                if v.kind == 'func':
                    return v
                return self.deref_special(v)
            if v.ty.kind == 'ptr':
                return self.deref_ptr(v, z3.IntVal(0))
            if v.ty.kind == 'ref':
                return self.deref_obj(v)
            raise Unsupported('dereference of %r' % v.ty)
        if op == '&':
            v = self.ev(sub)
            if isinstance(v, LV):
                if v.base[0] == 'obj' and not v.steps:
                    pass
                return Special('addr', lv=v)
            return v
        raise Unsupported('unary ' + op)

    def e_BinaryOperator(self, n):
        op = n['opcode']
        a, b = kids(n)
        if op == '&&':
            x = self.asbool(a)
            return self.branch(x, lambda: Val(BOOL, [self.asbool(b)]), lambda: Val(BOOL, [F]))
        if op == '||':
            x = self.asbool(a)
            return self.branch(x, lambda: Val(BOOL, [T]), lambda: Val(BOOL, [self.asbool(b)]))
        if op == ',':
            self.ev(a)
            return self.ev(b)
        if op == '=':
            v = self.rv(b)
            lv = self.ev(a)
            self.assign(lv, v)
            return lv
        x = self.rv(a)
        y = self.rv(b)
        if op in ('==', '!=', '<', '>', '<=', '>='):
            return Val(BOOL, [self.compare(op, x, y)])
        ty = self.types.of(n['type'])
        if isinstance(x, Special) or isinstance(y, Special):
            raise Unsupported('arithmetic on ' + getattr(x, 'kind', getattr(y, 'kind', '?')))
        if x.ty.kind == 'ptr' and op in '+-' and y.ty.kind != 'ptr':
            return Val(x.ty, [x.l[0], x.l[1] + y.t if op == '+' else x.l[1] - y.t])
        if y.ty.kind == 'ptr' and op == '+':
            return Val(y.ty, [y.l[0], y.l[1] + x.t])
        return self.arith(op, x, y, ty)

    def conv_for(self, lv, v):
        if isinstance(v, Special):
            if v.kind == 'addr' and isinstance(lv, LV) and lv.ty is not None and lv.ty.kind == 'ref':
                return Val(lv.ty, [self.name_of(v.lv)])
            if v.kind == 'func':
                return self.func_value(v)
            return v
        if v.ty.kind == 'null':
            return self.default(lv.ty)
        return v

    def func_value(self, sp):
        nm = sp.decl['name']
        f = self.prog.decl_func.get((self.fr.func.tu, sp.decl['id']))
        nm = f.key if f is not None else nm
        return Val(FUN, [self.fun_const(nm)])

    def fun_const(self, nm):
        fc = self.__dict__.setdefault('funs', {})
        if nm not in fc:
            c = z3.Int('fn:' + nm)
            for o in fc.values():
                self.initfacts.append(c != o)
            fc[nm] = c
        return fc[nm]

    def assign(self, lv, v):
        self.write(lv, self.conv_for(lv, v))

    def e_CompoundAssignOperator(self, n):
        op = n['opcode'][:-1]
        a, b = kids(n)
        y = self.rv(b)
        lv = self.ev(a)
        x = self.read(lv)
        if x.ty.kind == 'ptr':
            self.write(lv, Val(x.ty, [x.l[0], x.l[1] + y.t if op == '+' else x.l[1] - y.t]))
            return lv
        if x.ty.kind != 'double' and y.ty.kind == 'double':
            raise Unsupported('mixed compound assignment')
        if x.ty.kind == 'double' and y.ty.kind != 'double':
            y = Val(REAL, [z3.ToReal(y.t)])
        if x.ty.kind == 'int' and y.ty.kind == 'uint' and op == '-':
            r = Val(INT, [x.t - y.t])
        else:
            r = self.arith(op, x, y, x.ty)
        self.write(lv, r)
        return lv

    def e_ConditionalOperator(self, n):
        c, a, b = kids(n)
        return self.branch(self.asbool(c), lambda: self.ev(a), lambda: self.ev(b))

    def e_ArraySubscriptExpr(self, n):
        a, b = kids(n)
        p = self.rv(a)
        i = self.rv(b)
        if isinstance(p, Special) or p.ty.kind != 'ptr':
            raise Unsupported('subscript of %r' % getattr(p, 'ty', p.kind if isinstance(p, Special) else p))
        return self.deref_ptr(p, i.t)

    def e_MemberExpr(self, n):
        b = kids(n)[0]
        nm = n['name']
        if n['type']['qualType'] == '<bound member function type>':
            raise Unsupported('bound member')
        if n.get('isArrow'):
            p = self.rv(b)
            if isinstance(p, Special) and p.kind == 'addr':
                return self.get_field(p.lv, nm)
            if isinstance(p, Special):
                x = self.deref_special(p)
                return self.get_field(x, nm) if isinstance(x, LV) else x
            if p.ty.kind == 'ref':
                return self.get_field(self.deref_obj(p), nm)
            raise Unsupported('arrow on %r' % p.ty)
        v = self.ev(b)
        if isinstance(v, LV):
            return self.get_field(v, nm)
        if isinstance(v, Special):
            raise Unsupported('member of ' + v.kind)
        o, k, t, r = self.types.slice(v.ty, nm)
        if r:
            f = self.types.field(v.ty.args[0], nm)
            return self.deref_name(f[1], v.l[o])
        return Val(t, v.l[o:o + k])

    def deref_special(self, v):
        if v.kind == 'mapit':
            m = self.read(v.lv)
            return v
        if v.kind == 'vecit':
            vec = self.read(v.lv)
            self.prove('iterator dereference in range', 'safe', And(v.pos >= 0, v.pos < vec.l[0]))
            return LV(v.lv.base, v.lv.steps + [('i', v.pos)], vec.ty.args[0])
        raise Unsupported('dereference of ' + v.kind)

    def e_CXXThrowExpr(self, n):
        sub = kids(n)
        if not sub:
            # rethrow
            ty = self.cur_exc[-1] if getattr(self, 'cur_exc', None) else 'unknown'
        else:
            ty = (sub[0]['type'].get('desugaredQualType') or sub[0]['type']['qualType']).replace('genex::', '')
            s = strip(sub[0])
        self.throw(ty)
        return Val(VOID, [])

    def throw(self, ty, cond=None):
        """the current path throws (under cond)"""
        if cond is None:
            self.throws[-1].append((ty, self.st))
            self.kill()
            return
        if z3.is_false(cond):
            return
        s = self.st.copy()
        s.pc = self.name_bool(And(self.st.pc, cond))
        self.throws[-1].append((ty, s))
        self.st = self.st.copy()
        self.st.pc = self.name_bool(And(self.st.pc, Not(cond)))

    def e_CXXDefaultArgExpr(self, n):
        ks = kids(n)
        if ks:
            return self.ev(ks[0])
        raise Unsupported('default argument')

    def e_CXXDefaultInitExpr(self, n):
        ks = kids(n)
        if ks:
            return self.ev(ks[0])
        raise Unsupported('default initialiser')

    def e_ImplicitValueInitExpr(self, n):
        return self.default(self.types.of(n['type']))
    e_CXXScalarValueInitExpr = e_ImplicitValueInitExpr

    def e_InitListExpr(self, n):
        ty = self.types.of(n['type'])
        ks = kids(n)
        if ty.kind in ('pair', 'rec'):
            l = ()
            for x in ks:
                v = self.rv(x)
                l += v.l
            if len(l) == len(self.types.leaves(ty)):
                return Val(ty, l)
        if ty.kind in ('int', 'uint', 'double', 'bool', 'ptr', 'ref') and len(ks) == 1:
            return self.rv(ks[0])
        if not ks:
            return self.default(ty)
        return Special('initlist', items=[self.rv(x) for x in ks])

    def e_CXXStdInitializerListExpr(self, n):
        return self.ev(kids(n)[0])

    # construction ----------------------------------------------------------------------------
    def e_CXXTemporaryObjectExpr(self, n):
        return self.e_CXXConstructExpr(n)

    def real_args(self, ks):
        return [x for x in ks if not (x['kind'] == 'CXXDefaultArgExpr')]

    def e_CXXConstructExpr(self, n):
        ty = self.types.of(n['type'])
        ks = kids(n)
        if n.get('elidable') and len(ks) == 1:
            return self.ev(ks[0])
        if ty.kind == 'rec':
            ct = n.get('ctorType', {}).get('qualType', 'void ()')
            return self.construct(ty.args[0], ks, ct, node=n)
        args = self.real_args(ks)
        return self.construct_std(ty, args, n)

    def construct_std(self, ty, args, n):
        if ty.kind == 'vec':
            if not args:
                return self.default(ty)
            if len(args) == 1:
                v = self.rv(args[0])
                if isinstance(v, Special) and v.kind == 'initlist':
                    r = self.default(ty)
                    l = list(r.l)
                    for i, x in enumerate(v.items):
                        if isinstance(x, Special) and x.kind == 'func':
                            x = self.func_value(x)
                        for j, y in enumerate(x.l):
                            l[1 + j] = z3.Store(l[1 + j], z3.IntVal(i), y)
                    l[0] = z3.IntVal(len(v.items))
                    return Val(ty, l)
                if isinstance(v, Special):
                    raise Unsupported('vector from ' + v.kind)
                if v.ty.kind == 'vec':
                    return v
                self.prove('vector size not negative', 'safe', v.t >= 0)
                return self.filled(ty, v.t, self.elem_default(ty.args[0]))
            if len(args) == 2:
                c = self.rv(args[0])
                x = self.rv(args[1])
                if isinstance(c, Special):
                    raise Unsupported('vector from iterators')
                self.prove('vector size not negative', 'safe', c.t >= 0)
                return self.filled(ty, c.t, self.conv_elem(ty.args[0], x))
            raise Unsupported('vector constructor')
        if ty.kind == 'pair':
            if not args:
                return self.default(ty)
            if len(args) == 2:
                a, b = self.rv(args[0]), self.rv(args[1])
                return Val(ty, self.conv_elem(ty.args[0], a).l + self.conv_elem(ty.args[1], b).l)
            v = self.rv(args[0])
            if isinstance(v, Val) and v.ty.kind == 'pair':
                a = self.conv_elem(ty.args[0], Val(v.ty.args[0], v.l[:len(self.types.leaves(v.ty.args[0]))]))
                b = self.conv_elem(ty.args[1], Val(v.ty.args[1], v.l[len(self.types.leaves(v.ty.args[0])):]))
                return Val(ty, a.l + b.l)
            raise Unsupported('pair constructor')
        if ty.kind == 'str':
            if not args:
                return self.default(ty)
            v = self.rv(args[0])
            if isinstance(v, Val) and v.ty.kind == 'str':
                return v
            return Val(STR, [self.fresh('str', StrSort)])
        if ty.kind == 'filter' and not args:
            return self.fresh_val('filter', ty)
        if ty.kind == 'archive':
            return self.construct_archive(ty, args, 'iarchive' in n['type']['qualType'])
        if ty.kind in ('infile', 'outfile', 'sep', 'tokens', 'tokit'):
            return self.construct_file(ty, args)
        if ty.kind == 'map' and len(args) <= 1:
            return self.rv(args[0]) if args else self.default(ty)
        for a in args:
            self.ev(a)
        q = n['type']['qualType']
        if is_streamy(q):
            return Special('stream', name='local')
        if len(args) == 1:
            v = self.ev(args[0])
            if isinstance(v, Special):
                return v
        return Special('opaque', name=q)

    def write_files(self, l):
        ty = self.key_type(('gg', 'files'))
        named = []
        for x in l:
            named.append(x if z3.is_const(x) else self.fresh('files', x.sort()))
            self.assume(named[-1] == x)
        l = named
        self.write(LV(('key', ('gg', 'files'), ty), [], ty), Val(ty, l))

    def construct_archive(self, ty, args, reading):
        """an archive that is read holds what is in the file; one that is written is empty"""
        b = self.ev(strip(args[0]))
        if not (isinstance(b, LV) and b.ty.kind == 'filter'):
            raise Unsupported('archive on %r' % b)
        v = self.fresh_val('archive', ty)
        path = self.read(b).l[0]
        leaves = dict(zip([x for x, _ in self.types.leaves(ty)], v.l))
        for x in ('.pos', '.nobj'):
            leaves[x] = z3.IntVal(0)
        if reading:
            for x, s in self.types.leaves(ty):
                if x not in ('.pos', '.nobj'):
                    leaves[x] = z3.Function('Archive' + x, StrSort, s)(path)
        return Val(ty, [leaves[x] for x, _ in self.types.leaves(ty)])

    def construct_file(self, ty, args):
        args = [a for a in args if 'openmode' not in a['type']['qualType']]
        v = [self.rv(a) for a in args]
        if len(v) == 1 and v[0].ty == ty and ty.kind != 'infile':
            return v[0]
        if ty.kind == 'infile' and len(v) == 1 and v[0].ty.kind == 'str':
            op = z3.Function('FileOpen', StrSort, z3.BoolSort())(v[0].t)
            return Val(ty, [v[0].t, op, z3.IntVal(0), Not(op), F])
        if ty.kind == 'outfile' and len(v) == 1 and v[0].ty.kind == 'str':
            p = v[0].t
            op = z3.Function('FileWritable', StrSort, z3.BoolSort())(p)
            lines, count, text = self.getk(('gg', 'files')).l
            none = z3.K(z3.IntSort(), z3.IntVal(0))
            self.write_files([z3.Store(lines, p, Ite(op, z3.IntVal(0), sel(lines, p))), z3.Store(count, p, Ite(op, none, sel(count, p))), text])
            return Val(ty, [p, op])
        if ty.kind == 'sep' and len(v) == 1 and v[0].ty.kind == 'str':
            return Val(ty, v[0].l)
        if ty.kind == 'tokens' and len(v) == 2 and v[0].ty.kind == 'str' and v[1].ty.kind == 'sep':
            return Val(ty, v[0].l + v[1].l)
        raise Unsupported('constructor of %r' % ty)

    def conv_elem(self, ty, v):
        if isinstance(v, Special):
            if v.kind == 'func':
                return self.func_value(v)
            if v.kind == 'addr' and ty.kind == 'ref':
                return Val(ty, [self.name_of(v.lv)])
            raise Unsupported('storing ' + v.kind)
        if v.ty.kind == 'null':
            return self.default(ty)
        if ty.kind == 'double' and v.ty.kind in ('int', 'uint'):
            return Val(REAL, [z3.ToReal(v.t)])
        if ty.kind in ('int', 'uint') and v.ty.kind == 'bool':
            return Val(ty, [z3.If(v.t, 1, 0)])
        return Val(ty, v.l) if len(v.l) == len(self.types.leaves(ty)) else v

    def elem_default(self, ty):
        return self.default(ty)

    def filled(self, ty, n, x):
        l = [n]
        for (s, so), e in zip(self.types.leaves(ty)[1:], x.l):
            l.append(z3.K(z3.IntSort(), e))
        return Val(ty, l)

    def construct(self, cls, argnodes, ctype, node=None, target=None):
        """value of a new object of a record of the repository"""
        ty = Ty('rec', cls)
        cand = [f for f in self.prog.funcs.get(cls + '::' + cls, []) if f.type == ctype or f.type == ctype + ' noexcept']
        if not cand:
            # implicit constructors
            ks = self.real_args(argnodes)
            if len(ks) == 1:
                src = self.rv(ks[0])
                if isinstance(src, Val) and src.ty == ty:
                    return self.copy_value(src)
            if not ks:
                lv = self.temp(self.fresh_val('obj', ty))
                for b in self.prog.records[cls].bases:
                    if b in self.prog.records:
                        v = self.construct(b, [], 'void ()')
                        for x in self.types.fields(b):
                            o, n, t, _ = self.types.slice(v.ty, x[0])
                            self.write(self.get_field(lv, x[0]), Val(t, v.l[o:o + n]))
                for f, fd in zip(self.prog.records[cls].fields, [x for x in self.types.fields(cls) if x[3] == cls]):
                    if f[2] is not None:
                        self.init_field(lv, fd, f[2])
                    elif fd[1].kind in ('vec', 'map', 'str') and not fd[2]:
                        self.write(self.get_field(lv, fd[0]), self.default(fd[1]))
                return self.read(lv)
            if cls == 'GenexException':
                return Special('exception', name=cls)
            raise Unsupported('constructor %s %s' % (cls, ctype))
        func = cand[0]
        args = self.eval_args(func, argnodes, node)
        con = self.contract_for(func)
        if con is not None:
            return self.apply_contract(con, func, None, args, construct=cls)
        lv = target or self.temp(self.fresh_val('obj', ty, facts=False), 'obj')
        self.run_ctor(func, lv, args)
        return self.read(lv)

    def copy_value(self, v):
        """implicit copy of an aggregate: members with a user-written copy constructor keep their
        fields; the mutable caches start empty in the copy"""
        return v

    def run_ctor(self, func, lv, args):
        def body():
            seen = set()
            for i in func.inits:
                fd = i.get('anyInit')
                if fd is None:
                    # base class
                    for x in kids(i):
                        b = strip(x)
                        bt = self.types.of(x['type'])
                        if bt.kind == 'rec':
                            bc = bt.args[0]
                            cs = [f for f in self.prog.funcs.get(bc + '::' + bc, []) if f.type == b.get('ctorType', {}).get('qualType')]
                            if cs:
                                blv = lv if lv.base[0] != 'obj' else LV(('obj', bc, lv.base[2]), [], bt)
                                self.run_ctor(cs[0], blv, self.eval_args(cs[0], kids(b), b))
                    continue
                f = self.types.field(func.cls, fd['name'])
                seen.add(fd['name'])
                ks = kids(i)
                x = ks[0] if ks else None
                if x is not None and x['kind'] == 'CXXDefaultInitExpr' and not kids(x):
                    x = next(ff[2] for ff in self.prog.records[func.cls].fields if ff[0] == fd['name'])
                if x is not None:
                    self.init_field(lv, f, x)
            for ff in self.prog.records[func.cls].fields:
                fd = self.types.field(func.cls, ff[0])
                if ff[0] in seen:
                    continue
                if fd[2] and not self.types.is_ref(ff[1]):
                    r = self.new_box(fd[1])
                    self.set_refname(lv, fd, r)
                    self.write(self.deref_name(fd[1], r), self.default(fd[1]))
                elif ff[2] is not None:
                    self.init_field(lv, fd, ff[2])
                elif fd[1].kind in ('vec', 'map', 'str'):
                    self.write(self.get_field(lv, ff[0]), self.default(fd[1]))
            self.stmt(func.body)
        self.call_body(func, lv, args, body)

    def set_refname(self, lv, fd, ref):
        lt = self.types.field_leaf_ty(fd)
        if lv.base[0] == 'obj' and not lv.steps:
            r = LV(('key', ('hf', fd[3], fd[0]), Ty('heap', lt)), [('h', lv.base[2])], lt)
        else:
            r = LV(lv.base, lv.steps + [('f', fd[0])], lt)
        self.write(r, Val(lt, [ref]))

    def init_field(self, lv, fd, x):
        declared_ref = any(ff[0] == fd[0] and self.types.is_ref(ff[1]) for ff in self.prog.records[fd[3]].fields)
        if fd[2] and not declared_ref:
            r = self.new_box(fd[1])
            self.set_refname(lv, fd, r)
            self.write(self.deref_name(fd[1], r), self.conv_elem(fd[1], self.rv(x)))
            return
        if declared_ref:
            src = self.aslv(x)
            self.set_refname(lv, fd, self.name_of(src))
            return
        v = self.rv(x)
        if isinstance(v, Special) and v.kind in ('exception', 'opaque', 'stream'):
            return
        dst = self.get_field(lv, fd[0])
        self.write(dst, self.conv_elem(fd[1], v))

    # new / delete ------------------------------------------------------------------------------
    def e_CXXNewExpr(self, n):
        ks = kids(n)
        ty = self.types.of(n['type'])
        if n.get('isArray'):
            cnt = self.num(ks[0])
            self.prove('array size not negative', 'safe', cnt >= 0)
            p = self.alloc_block(self.elem_of(ty), cnt)
            if len(ks) > 1 and ks[1]['kind'] in ('ImplicitValueInitExpr', 'InitListExpr'):
                m = self.getk(('mem', self.elem_of(ty)))
                self.write(LV(('key', ('mem', self.elem_of(ty)), self.key_type(('mem', self.elem_of(ty)))), [('h', p.l[0])], Ty('heap', ty.args[0])),
                           Val(Ty('heap', ty.args[0]), [z3.K(z3.IntSort(), self.default(ty.args[0]).t)]))
            return p
        if ty.kind == 'ref':
            cls = ty.args[0]
            c = strip(ks[0]) if ks else None
            r = self.new_obj(cls)
            lv = LV(('obj', cls, r), [], Ty('rec', cls))
            if c is not None:
                ct = c.get('ctorType', {}).get('qualType', 'void ()')
                v = self.construct(cls, kids(c), ct, node=c, target=lv)
                if isinstance(v, Val):
                    cur = self.read(lv)
                    if not all(x.eq(y) for x, y in zip(cur.l, v.l)):
                        self.write(lv, v)
            return Val(ty, [r])
        if ty.kind == 'ptr':
            p = self.alloc_block(self.elem_of(ty), z3.IntVal(1))
            if ks:
                self.write(self.deref_ptr(p, z3.IntVal(0)), self.rv(ks[0]))
            return p
        raise Unsupported('new %r' % ty)

    def e_CXXDeleteExpr(self, n):
        v = self.rv(kids(n)[0])
        if isinstance(v, Special):
            raise Unsupported('delete ' + v.kind)
        if v.ty.kind == 'ptr':
            self.free_block(v, self.elem_of(v.ty))
        elif v.ty.kind == 'ref':
            cls = v.ty.args[0]
            acls = self.root_class(cls)
            al = self.getk(('alive', acls)).l[0]
            self.prove('only live objects are deleted, once', 'safe', Or(v.t == 0, sel(al, v.t)))
            for w in self.wlog:
                w.append((('alive', acls), v.t))
            self.branch(v.t == 0, lambda: None, lambda: self.run_destructors(cls, v.t))
            al = self.getk(('alive', acls)).l[0]
            self.setk(('alive', acls), Val(self.key_type(('alive', acls)), [Ite(v.t == 0, al, z3.Store(al, v.t, F))]))
        else:
            raise Unsupported('delete %r' % v.ty)
        return Val(VOID, [])

    def run_destructors(self, cls, ref):
        """of the class and then of its bases"""
        for f in self.prog.funcs.get(cls + '::~' + cls, [])[:1]:
            this = LV(('obj', cls, ref), [], Ty('rec', cls))
            con = self.contract_for(f)
            if con is not None:
                self.apply_contract(con, f, this, [])
            elif f.body is not None:
                self.call_body(f, this, [], lambda: self.stmt(f.body))
        r = self.prog.records.get(cls)
        for b in r.bases if r else ():
            if b in self.prog.records:
                self.run_destructors(b, ref)

    # ---- calls ----------------------------------------------------------------------------------
    def eval_args(self, func, argnodes, node=None):
        """[LV or Val] matching func.params"""
        out = []
        for i, p in enumerate(func.params):
            a = argnodes[i] if i < len(argnodes) else None
            if a is None or (a['kind'] == 'CXXDefaultArgExpr' and not kids(a)):
                d = self.default_arg(func, i)
                if d is None:
                    raise Unsupported('default argument of ' + func.key)
                a = d
            if self.types.is_ref(p['type']):
                v = self.ev(a)
                if isinstance(v, Val):
                    ty = self.types.of(p['type'])
                    v = self.temp(self.conv_elem(ty, v) if ty.kind not in ('opaque',) else v)
                out.append(v)
            else:
                v = self.rv(a)
                if isinstance(v, Special) and v.kind == 'func':
                    v = self.func_value(v)
                out.append(v)
        return out

    def default_arg(self, func, i):
        for (tu, _), f in self.prog.decl_func.items():
            if f.qname == func.qname and f.type.split(' noexcept')[0] == func.type.split(' noexcept')[0] and i < len(f.params):
                ks = [x for x in kids(f.params[i]) if x['kind'] not in SKIP_KINDS]
                if ks:
                    return ks[0]
        return None

    def contract_for(self, func):
        cs = self.contracts.get(func.key, [])
        for c in cs:
            if c.ptypes is not None and [p['type']['qualType'] for p in func.params] != list(c.ptypes):
                continue
            if c.variant and not c.trusted:
                continue
            if func.key in self.con.no_contract:
                continue
            if c is self.con or type(c) is type(self.con):
                if func is self.root_func or True:
                    pass
            return c
        return None

    def resolve(self, declid, name=None):
        f = self.prog.decl_func.get((self.fr.func.tu, declid))
        if f is None:
            return None
        return self.definition(f)

    def definition(self, f):
        c = self.prog.funcs.get(f.key, [])
        t = f.type.replace(' noexcept', '')
        for g in c:
            if g.type.replace(' noexcept', '') == t:
                return g
        # declarations spell type names differently now and then (aliases)
        pk = [repr(self.types.of(p['type'])) for p in f.params]
        for g in c:
            if [repr(self.types.of(p['type'])) for p in g.params] == pk:
                return g
        return f

    def call_repo(self, func, this, args):
        con = self.contract_for(func)
        if con is not None:
            return self.apply_contract(con, func, this, args)
        if func.body is None:
            raise Unsupported('no body for ' + func.key)
        return self.call_body(func, this, args, lambda: self.stmt(func.body))

    def call_body(self, func, this, args, body):
        if len(self.frames) > 14 or sum(1 for f in self.frames if f.func is func) > 1:
            raise Unsupported('recursion or deep calls in ' + func.key)
        if self.frames:
            self.inlined.add(func.key)
            self.fr.calls += 1
        self.nframe += 1
        path = (self.fr.path + (self.curnode.get('id') if self.curnode else 0,)) if self.frames else ()
        fr = Frame(func, this, self.nframe, path)
        for p, a in zip(func.params, args):
            self.bind_param(fr, p, a)
        self.frames.append(fr)
        try:
            body()
            if not z3.is_false(self.st.pc):
                fr.returns.append((self.st, Val(VOID, [])))
            rets = [(s, v) for s, v in fr.returns if not z3.is_false(s.pc)]
            if not rets:
                self.kill()
                return Val(VOID, [])
            self.st = self.merge([s for s, _ in rets])
            vals = [(s.pc, v) for s, v in rets]
            if any(isinstance(v, Val) and v.ty.kind == 'void' for _, v in vals):
                vals = [(p, v) for p, v in vals if not (isinstance(v, Val) and v.ty.kind == 'void')]
                if not vals:
                    return Val(VOID, [])
            return self.merge_values(vals)
        finally:
            self.frames.pop()

    def bind_param(self, fr, p, a):
        nm = p.get('name')
        if nm:
            fr.names[nm] = p['id']
            fr.order.append(nm)
        if self.types.is_ref(p['type']):
            fr.vars[p['id']] = a
            return
        if isinstance(a, Special):
            fr.vars[p['id']] = a
            return
        ty = self.types.of(p['type'])
        key = ('v', fr.num, nm or p['id'], p['id'])
        if isinstance(a, LV):
            a = self.read(a)
        if ty.kind == 'opaque':
            fr.vars[p['id']] = Special('opaque', name=repr(ty))
            return
        v = self.conv_elem(ty, a)
        self.st.env[key] = v
        fr.vars[p['id']] = ('key', key, ty)

    def apply_contract(self, con, func, this, args, construct=None):
        self.used_contracts.add(con)
        names = {}
        for p, a in zip(func.params, args):
            if p.get('name'):
                names[p['name']] = a
        # parameter names as the contract knows them
        for i, alias in enumerate(getattr(con, 'params', ()) or ()):
            if i < len(args):
                names[alias] = args[i]
        if construct:
            this = self.temp(self.fresh_val('new.' + construct, Ty('rec', construct), facts=True))

        def roots(nm):
            if nm == 'self':
                if this is None:
                    raise Unsupported('no object in call of ' + func.key)
                return this
            if nm in names:
                return names[nm]
            return self.global_root(nm)
        pre = self.st.copy()
        c = Ctx(self, pre, roots, None, pre)
        for nm, g in con.requires(c):
            self.prove('precondition of %s: %s' % (func.key, nm), 'pre', g)
        th = con.throws(c)
        if not z3.is_false(th):
            # exceptional exit
            s0 = self.st
            self.st = s0.copy()
            self.st.pc = self.name_bool(And(s0.pc, th))
            self.callee_changes(con, c)
            for lv, terms in con.sets(c):
                self.write(lv, self.fresh_val('mod', self.read(lv).ty))
            ct = Ctx(self, self.st, roots, None, pre)
            for nm, g in con.on_throw(ct):
                self.assume(g)
            self.throws[-1].append(('GenexException', self.st))
            self.st = s0.copy()
            self.st.pc = self.name_bool(And(s0.pc, Not(th)))
        self.callee_changes(con, c)
        res = None
        if construct:
            res = None
        else:
            rty = self.ret_type(func)
            if getattr(con, 'returns_lv', None):
                res = con.returns_lv(Ctx(self, self.st, roots, None, pre))
            elif rty.kind == 'void':
                res = Val(VOID, [])
            elif rty.kind == 'opaque':
                res = Special('opaque', name=repr(rty))
            else:
                res = self.fresh_val('res.' + func.name, rty)
                given = con.result(Ctx(self, pre, roots, None, pre))
                if given:
                    names_ = [s for s, _ in self.types.leaves(rty)]
                    res = Val(rty, [given.get(s, x) for s, x in zip(names_, res.l)])
        for lv, terms in con.sets(Ctx(self, pre, roots, None, pre)):
            cur = self.read(lv)
            self.write(lv, Val(cur.ty, [x if t is None else t for x, t in zip(cur.l, terms)]))
        post = Ctx(self, self.st, roots, res, pre)
        for nm, g in con.ensures(post):
            self.assume(g)
        if construct:
            return self.read(this)
        return res

    def callee_changes(self, con, c):
        """what the contract lists takes fresh values"""
        mods = con.modifies(c)
        mem_mod = []
        for m in mods:
            if isinstance(m, LV):
                self.write(m, self.fresh_val('mod', self.read(m).ty))
            elif m[0] == 'block':
                mem_mod.append((m[1], m[2] if len(m) > 2 else 'double'))
            elif m[0] == 'family':       # (.., key, [ids], alive predicate, type)
                pass
            elif m[0] == 'global':
                lv = self.global_root(m[1])
                self.write(lv, self.fresh_val('mod', lv.ty))
            elif m[0] == 'key' and m[1] == ('static',):
                pass                     # static variables of the callee are not seen by others
            elif m[0] == 'key':
                v = self.getk(m[1], None, m[2] if len(m) > 2 else None)
                for w in self.wlog:
                    w.append((m[1], None))
                nv = Val(v.ty, [self.fresh('mod', x.sort()) for x in v.l])
                self.setk(m[1], nv)
                self.assume_type(nv)
        for m in mods:
            if not isinstance(m, LV) and m[0] == 'family':
                self.havoc_family(m[1], m[2], m[3], m[4] if len(m) > 4 else None)
                for w in self.wlog:
                    w.append((m[1], None))
        gone = con.destroys(c)
        for cls in dict.fromkeys(list(con.creates) + list(gone)):
            self.objects_change(cls, cls in con.creates, gone.get(cls))
        kinds = () if not con.allocates else ('double',) if con.allocates is True else con.allocates
        freed = list(getattr(con, 'frees', lambda c: [])(c)) if kinds else []
        for e in kinds:
            sz0 = self.getk(('size', e)).l[0]
            self.havoc_family(('mem', e), [b for b, e2 in mem_mod if e2 == e] + (freed if e == 'double' else []), lambda b: sel(sz0, b) >= 0)
            self.havoc_family(('size', e), freed if e == 'double' else [], lambda b: sel(sz0, b) >= 0)
        for b, e in mem_mod:
            if e not in kinds:
                self.havoc_block(b, e)

    def alive_name(self, cls):
        return 'box ' + repr(self.types.parse(cls[4:])) if cls.startswith('box ') else self.root_class(cls)

    def objects_change(self, cls, created, dead):
        """objects of the class come into being, and those of which dead(b) holds may go"""
        box = cls.startswith('box ')
        key = ('alive', self.alive_name(cls))
        b = z3.Int('b!q')
        al, us = self.getk(key).l[0], self.getk(('used', key[1])).l[0]
        y = self.fresh('hav.alive', al.sort())
        self.assume(z3.ForAll([b], Imp(And(sel(al, b), Not(dead(b))) if dead else sel(al, b), sel(y, b)), patterns=[sel(y, b)] + ([sel(al, b)] if not dead else [])))
        self.assume(Not(sel(y, z3.IntVal(0))))
        for w in self.wlog:
            w.append((key, None if dead else 'ALLOC'))
        self.setk(key, Val(self.key_type(key), [y]))
        if not created:
            self.assume(z3.ForAll([b], Imp(sel(y, b), sel(al, b)), patterns=[sel(y, b)]))
            return
        u = self.fresh('hav.used', us.sort())
        self.assume(z3.ForAll([b], And(Imp(sel(us, b), sel(u, b)), Imp(And(sel(y, b), Not(sel(al, b))), And(sel(u, b), Not(sel(us, b))))), patterns=[sel(y, b), sel(u, b)]))
        for w in self.wlog:
            w.append((('used', key[1]), 'ALLOC'))
        self.setk(('used', key[1]), Val(self.key_type(key), [u]))
        # the name of an object that is gone may be used again
        stays = (lambda b: And(sel(al, b), Not(dead(b)))) if dead else (lambda b: sel(al, b))
        if box:
            fams = [(('box', key[1][4:]), Ty('heap', self.types.parse(cls[4:])))]
        else:
            fams = [(('hf', f[3], f[0]), Ty('heap', self.types.field_leaf_ty(f))) for f in self.types.fields(cls)]
        for k, t in fams:
            self.havoc_family(k, [], stays, t)
            if dead:
                for w in self.wlog:
                    w.append((k, None))

    def ret_type(self, func):
        t = func.node['type'].get('desugaredQualType') or func.type
        d = 0
        for i, ch in enumerate(t):
            if ch == '<':
                d += 1
            elif ch == '>':
                d -= 1
            elif ch == '(' and d == 0:
                return self.types.parse(t[:i].strip())
        raise Unsupported('return type of ' + func.key)

    def global_init(self, nm, users):
        """value of the initialiser of a global that no function other than the users refers to"""
        d = self.prog.globals.get(nm)
        if d is None:
            raise Unsupported('contract names %s, which is not in scope' % nm)
        for fs in self.prog.funcs.values():
            for f in fs:
                if f.body is not None and f.key not in users and refers(f.body, nm):
                    raise Unsupported('%s uses %s, which the contracts take to be constant' % (f.key, nm))
        ks = [k for k in kids(d) if not k['kind'].endswith('Comment')]
        return self.rv(ks[0])

    def global_root(self, nm):
        if nm in self.ghost:
            key, ty = self.ghost[nm]
            return LV(('key', key, ty), [], ty)
        if nm in GHOST_VARS:
            return LV(('key', ('gg', nm), GHOST_VARS[nm]), [], GHOST_VARS[nm])
        d = self.prog.globals.get(nm)
        if d is None and nm != 'extraTimeSeries':
            raise Unsupported('contract names %s, which is not in scope' % nm)
        ty = INT if d is None else self.types.of(d['type'])
        return LV(('key', ('g', nm), ty), [], ty)

    def roots(self, nm):
        """names as contracts of the function being verified see them"""
        if nm == 'self':
            return self.frames[0].this
        nm2 = self.rename.get(nm, nm)
        for fr in reversed(self.frames):
            if nm2 in fr.names:
                x = fr.vars.get(fr.names[nm2])
                if x is None:
                    continue
                if isinstance(x, tuple):
                    return LV(x, [], x[2])
                return x
        if nm2 in self.lastvars:
            x = self.lastvars[nm2]
            return LV(x, [], x[2]) if isinstance(x, tuple) else x
        return self.global_root(nm)

    def ctx(self, res=None, st=None):
        return Ctx(self, st or self.st, self.roots, res, self.entry)

    # statements ------------------------------------------------------------------------------
    def stmt(self, n):
        if z3.is_false(self.st.pc):
            return
        k = n['kind']
        m = getattr(self, 's_' + k, None)
        if m is not None:
            if 'range' in n:
                self.curnode = n
            return m(n)
        if hasattr(self, 'e_' + k):
            self.ev(n)
            return
        raise Unsupported('statement ' + k)

    def s_CompoundStmt(self, n):
        names = dict(self.fr.names)
        for x in kids(n):
            self.stmt(x)
        self.fr.names.update(names)      # a declaration inside hides one outside only there

    def s_NullStmt(self, n):
        pass

    def s_DeclStmt(self, n):
        for d in kids(n):
            if d['kind'] == 'VarDecl':
                self.declare(d)
            elif d['kind'] in ('TypedefDecl', 'TypeAliasDecl', 'UsingDecl', 'StaticAssertDecl', 'UsingDirectiveDecl', 'EmptyDecl'):
                pass
            else:
                raise Unsupported('declaration ' + d['kind'])

    def declare(self, d):
        fr = self.fr
        nm = d['name']
        fr.names[nm] = d['id']
        fr.order.append(nm)
        q = d['type']['qualType']
        ks = [x for x in kids(d) if not x['kind'].endswith('Attr')]
        init = ks[0] if ks and 'init' in d else None
        if d.get('storageClass') == 'static':
            ty = self.types.of(d['type'])
            key = ('static', fr.func.key, nm)
            if key not in self.init:
                v = Val(ty, [z3.Const('static.%s.%s%s' % (fr.func.key, nm, s), so) for s, so in self.types.leaves(ty)])
                self.init[key] = v
                if ty.kind == 'ref':
                    self.initfacts.append(Or(v.t == 0, sel(self.getk(('alive', self.root_class(ty.args[0])), self.entry).l[0], v.t)))
            fr.vars[d['id']] = ('key', key, ty)
            self.lastvars[nm] = fr.vars[d['id']]
            return
        if self.types.is_ref(d['type']):
            v = self.ev(init)
            if isinstance(v, Val):
                v = self.temp(v, nm)
            fr.vars[d['id']] = v
            self.lastvars[nm] = v
            return
        ty = self.types.of(d['type'])
        key = ('v', fr.num, nm, d['id'])
        if ty.kind == 'opaque':
            v = self.ev(init) if init is not None else None
            if not isinstance(v, Special):
                v = Special('stream' if is_streamy(q) else 'opaque', name=nm)
            fr.vars[d['id']] = v
            return
        if init is not None:
            v = self.rv(init)
            if isinstance(v, Special):
                if v.kind == 'func':
                    v = self.func_value(v)
                elif v.kind == 'initlist' and ty.kind == 'vec':
                    v = self.construct_std(ty, [init], d)
                elif v.kind == 'addr' and ty.kind == 'ref':
                    v = Val(ty, [self.name_of(v.lv)])
                else:
                    fr.vars[d['id']] = v
                    return
            v = self.conv_elem(ty, v)
        elif ty.kind in ('vec', 'map', 'str', 'pair'):
            v = self.default(ty)
        else:
            v = self.fresh_val('uninit.' + nm, ty)
        self.st.env[key] = v
        fr.vars[d['id']] = ('key', key, ty)
        self.lastvars[nm] = fr.vars[d['id']]

    def s_IfStmt(self, n):
        ks = [x for x in n.get('inner', [])]
        if n.get('hasInit') or n.get('hasVar'):
            self.stmt(ks[0])
            ks = ks[1:]
            if n.get('hasVar') and ks and ks[0].get('kind') == 'DeclStmt':
                pass
        c = self.asbool(ks[0])
        self.branch(c, lambda: self.stmt(ks[1]), lambda: self.stmt(ks[2]) if len(ks) > 2 else None)

    def s_ReturnStmt(self, n):
        ks = kids(n)
        if ks:
            v = self.ev(ks[0])
            isref = self.fr.func.type.split('(')[0].rstrip().endswith('&')
            if isinstance(v, LV) and not isref:
                v = self.read(v)
            rty = self.ret_type(self.fr.func)
            if isinstance(v, Special) and v.kind == 'func':
                v = self.func_value(v)
            if isinstance(v, Val) and v.ty.kind != 'void':
                v = self.conv_elem(rty, v)
        else:
            v = Val(VOID, [])
        if not z3.is_false(self.st.pc):
            self.fr.returns.append((self.st, v))
        self.kill()

    def s_BreakStmt(self, n):
        self.breaks[-1].append(self.st)
        self.kill()

    def s_ContinueStmt(self, n):
        self.conts[-1].append(self.st)
        self.kill()

    def s_AttributedStmt(self, n):
        self.stmt(kids(n)[-1])

    def s_CXXTryStmt(self, n):
        ks = kids(n)
        self.throws.append([])
        self.stmt(ks[0])
        thrown = self.throws.pop()
        normal = self.st
        ends = [normal]
        for ty, s in thrown:
            if z3.is_false(s.pc):
                continue
            self.st = s
            caught = False
            for h in ks[1:]:
                hk = h.get('inner', [])
                var = hk[0] if hk and hk[0] and hk[0].get('kind') == 'VarDecl' else None
                body = hk[-1]
                if var is None or self.catches(var['type']['qualType'], ty):
                    self.cur_exc = getattr(self, 'cur_exc', []) + [ty]
                    if var is not None and var.get('name'):
                        self.fr.vars[var['id']] = Special('exception', name=ty)
                    self.stmt(body)
                    self.cur_exc = self.cur_exc[:-1]
                    caught = True
                    break
            if caught:
                ends.append(self.st)
            else:
                self.throws[-1].append((ty, s))
        self.st = self.merge(ends)

    def catches(self, decl, ty):
        d = decl.replace('const ', '').replace('&', '').replace('std::', '').replace('genex::', '').strip()
        if d == ty.replace('std::', ''):
            return True
        if d in ('exception', 'runtime_error') and ty == 'GenexException':
            return True
        if d in ('exception', 'logic_error') and ty in ('invalid_argument', 'out_of_range'):
            return True
        return False

    # loops -----------------------------------------------------------------------------------
    def s_WhileStmt(self, n):
        ks = n['inner']
        self.loop(n, ks[0], None, ks[-1])

    def s_ForStmt(self, n):
        init, _, cond, inc, body = n['inner']
        names = dict(self.fr.names)
        if init and init.get('kind'):
            self.stmt(init)
        self.loop(n, cond if cond and cond.get('kind') else None, inc if inc and inc.get('kind') else None, body)
        self.fr.names.update(names)

    def s_DoStmt(self, n):
        body, cond = n['inner']
        c = strip(cond)
        if (c['kind'] == 'IntegerLiteral' and c['value'] == '0') or (c['kind'] == 'CXXBoolLiteralExpr' and not c['value']):
            self.breaks.append([])
            self.conts.append([])
            self.stmt(body)
            b, cs = self.breaks.pop(), self.conts.pop()
            self.st = self.merge([self.st] + b + cs)
            return
        self.loop(n, cond, None, body, post_test=True)

    def s_CXXForRangeStmt(self, n):
        ks = n['inner']
        decls = [x for x in ks if x and x.get('kind') == 'DeclStmt']
        # __range, __begin, __end, variable
        rng = kids(decls[0])[0]
        init = kids(rng)[0]
        v = self.ev(init)
        lv = v if isinstance(v, LV) else (self.temp(v) if isinstance(v, Val) else None)
        if lv is None:
            raise Unsupported('range for over ' + v.kind)
        var = kids(decls[-1])[0]
        body = ks[-1]
        if lv.ty.kind == 'vec':
            self.n += 1
            ikey = ('v', self.fr.num, '__i', 'rf%s' % n.get('id'))
            self.st.env[ikey] = Val(INT, [z3.IntVal(0)])
            self.fr.vars['rf%s' % n.get('id')] = ('key', ikey, INT)
            self.fr.names['__i'] = 'rf%s' % n.get('id')

            def cond():
                return sel_len(self, lv, ikey)

            def pre():
                i = self.st.env[ikey].t
                e = LV(lv.base, lv.steps + [('i', i)], lv.ty.args[0])
                self.fr.names[var['name']] = var['id']
                if self.types.is_ref(var['type']):
                    self.fr.vars[var['id']] = e
                else:
                    key = ('v', self.fr.num, var['name'], var['id'])
                    val = self.read(e)
                    self.st.env[key] = val
                    self.fr.vars[var['id']] = ('key', key, val.ty)

            def inc():
                self.st.env[ikey] = Val(INT, [self.st.env[ikey].t + 1])
            self.loop(n, cond, inc, body, pre=pre)
            return
        if lv.ty.kind == 'map':
            return self.map_range(n, lv, var, body)
        raise Unsupported('range for over %r' % lv.ty)

    def loop_key(self, n):
        return (self.fr.path, n.get('id'))

    def loop(self, n, cond, inc, body, pre=None, post_test=False):
        lk = self.loop_key(n)
        if lk not in self.loopidx:
            self.loopidx[lk] = len(self.loopidx)
            self.loopkinds.append(n['kind'])
        idx = self.loopidx[lk]
        spec = self.con.loops.get(idx)
        if spec is None:
            spec = Loop(lambda c: [])
        elif callable(spec) and not isinstance(spec, Loop):
            spec = Loop(spec)

        start = []

        def one_iteration():
            """from the loop head: returns (exit state, end-of-body state) and leaves breaks"""
            self.breaks.append([])
            self.conts.append([])
            if not post_test:
                if cond is None:
                    c = T
                else:
                    c = cond() if callable(cond) else self.asbool(cond)
                c = self.name_bool(c, 'loop')
                ex = self.st.copy()
                ex.pc = self.name_bool(And(self.st.pc, Not(c)))
                self.st = self.st.copy()
                self.st.pc = self.name_bool(And(self.st.pc, c))
            else:
                ex = State(F, {})
            start[:] = [len(self.facts)]
            if pre:
                pre()
            if not self.dry:
                self.probes.append(('body of loop %d' % idx, len(self.facts), self.st.pc))
            if spec.hints and not self.dry:
                self.hint(spec.hints(self.ctx()))
            self.stmt(body)
            cs = self.conts.pop()
            self.st = self.merge([self.st] + cs)
            if post_test:
                c = self.asbool(cond)
                c = self.name_bool(c, 'loop')
                ex = self.st.copy()
                ex.pc = self.name_bool(And(self.st.pc, Not(c)))
                self.st = self.st.copy()
                self.st.pc = self.name_bool(And(self.st.pc, c))
            if not z3.is_false(self.st.pc):
                if spec.end_hints and not self.dry:
                    self.hint(spec.end_hints(self.ctx()))
                if inc is not None:
                    if callable(inc):
                        inc()
                    else:
                        self.ev(inc)
            return ex, self.st, self.breaks.pop()

        if spec.entry_hints and not self.dry:
            self.hint(spec.entry_hints(self.ctx()))
        if spec.ghost_init:
            spec.ghost_init(self)
        head = self.st
        # what does the loop change?
        if lk in self.loopmod:
            mod, hw = self.loopmod[lk]
        else:
            mod, hw = self.find_modified(head, one_iteration, spec)
            self.loopmod[lk] = (mod, hw)
        names = dict(self.fr.names)

        def check_inv(kind):
            c = self.ctx()
            for nm, g in spec.inv(c):
                self.prove('%s of loop %d: %s' % ('invariant holds on entry' if kind == 'inv-init' else 'invariant preserved', idx, nm), kind, g)
        self.curnode = n
        check_inv('inv-init')
        # arbitrary iteration
        self.havoc_loop(head, mod, hw)
        for nm, g in spec.inv(self.ctx()):
            self.assume(g)
        m0 = None
        if spec.decreases:
            m0 = spec.decreases(self.ctx())
            m0 = m0 if isinstance(m0, (list, tuple)) else [m0]
        conds, self.conds = self.conds, []
        ways = self.ways_out()
        ex, end, brk = one_iteration()
        body0 = start[0]
        self.st = end
        self.curnode = n
        if not z3.is_false(self.st.pc):
            if spec.ghost_step:
                spec.ghost_step(self)
            if m0 is not None:
                m1 = spec.decreases(self.ctx())
                m1 = m1 if isinstance(m1, (list, tuple)) else [m1]
                # lexicographic
                g = F
                eqs = T
                for a, b in zip(m0, m1):
                    g = Or(g, And(eqs, b < a, a >= 0))
                    eqs = And(eqs, a == b)
                self.prove('loop %d terminates: measure decreases' % idx, 'term', g)
            check_inv('inv-pres')
        self.conds = conds
        if not brk and ways == self.ways_out() and not post_test and not self.dry and len(self.facts) > body0:
            self.dead.append((body0, len(self.facts)))
        self.st = self.merge([ex] + brk)
        if spec.exit_hints and not self.dry:
            self.hint(spec.exit_hints(self.ctx()))

    def ways_out(self):
        return [len(f.returns) for f in self.frames], [len(t) for t in self.throws], [len(b) for b in self.breaks], [len(b) for b in self.conts]

    def hint(self, hs):
        """a formula is an instance of a definition and is assumed; a (name, formula) pair is
        proved first. Steps in skip are left out: neither proved nor assumed"""
        for h in hs:
            if isinstance(h, tuple) and ('distinct arrays' if h[0] == 'distinct' else h[0]) in self.skip:
                continue
            if isinstance(h, tuple) and h[0] == 'distinct':
                # arrays proved different at a point every later state passes through
                from engine import DISTINCT
                _, a, b = h
                self.prove('distinct arrays', 'lemma', a != b)
                DISTINCT[(a.get_id(), b.get_id())] = DISTINCT[(b.get_id(), a.get_id())] = (a, b)
            elif isinstance(h, tuple):
                self.prove(h[0], 'lemma', h[1])
            else:
                self.assume(h)

    def find_modified(self, head, one_iteration, spec):
        mod = {}     # key -> set of leaf indexes
        snap = (len(self.facts), len(self.initfacts))
        self.dry += 1
        hw = {}
        for _ in range(6):
            mark = self.n
            amark = len(self.allocs)
            nfr = {k: (dict(f.vars), dict(f.names), len(f.returns)) for k, f in enumerate(self.frames)}
            nthrow = [len(t) for t in self.throws]
            nb = [len(b) for b in self.breaks]
            nc = [len(b) for b in self.conts]
            st = head.copy()
            st.pc = self.fresh('dry', z3.BoolSort())
            for key, ls in mod.items():
                if key not in st.env and key not in self.init:
                    continue
                v = self.getk(key, st)
                if isinstance(v, Special):
                    continue
                l = list(v.l)
                for i in ls:
                    l[i] = self.fresh('dryhav', l[i].sort())
                st.env[key] = Val(v.ty, l)
            base = st.copy()
            self.st = st
            w = []
            self.wlog.append(w)
            ex, end, brk = one_iteration()
            if spec.ghost_step and not z3.is_false(end.pc):
                self.st = end
                spec.ghost_step(self)
                end = self.st
            self.wlog.pop()
            states = [ex, end] + brk
            for t, k in zip(self.throws, nthrow):
                states += [s for _, s in t[k:]]
                del t[k:]
            for t, k in zip(self.breaks, nb):
                states += t[k:]
                del t[k:]
            for t, k in zip(self.conts, nc):
                states += t[k:]
                del t[k:]
            for k, f in enumerate(self.frames):
                vs, ns, nr = nfr[k]
                states += [s for s, _ in f.returns[nr:]]
                del f.returns[nr:]
                f.vars, f.names = vs, ns
            new = False
            for s in states:
                for key, v in s.env.items():
                    if key in base.env:
                        b = base.env[key]
                    elif key in self.init:
                        b = self.init[key]
                    else:
                        continue   # local to the body
                    if v is b:
                        continue
                    if isinstance(v, Special) or isinstance(b, Special):
                        if v is not b:
                            raise Unsupported('loop changes a ' + getattr(v, 'kind', 'special value'))
                        continue
                    for i, (x, y) in enumerate(zip(v.l, b.l)):
                        if not x.eq(y) and i not in mod.setdefault(key, set()):
                            mod[key].add(i)
                            new = True
            allocs = set(self.allocs[amark:])
            hw = {}
            for key, ix in w:
                e = hw.setdefault(key, {'ids': [], 'full': False, 'alloc': False})
                if ix is None:
                    e['full'] = True
                elif isinstance(ix, str):
                    e['alloc'] = True
                else:
                    cs = consts_of(ix)
                    if z3.is_const(ix) and ix.decl().name() in allocs:
                        e['alloc'] = True
                    elif any('!' in c and c.rsplit('!', 1)[1].isdigit() and int(c.rsplit('!', 1)[1]) > mark for c in cs):
                        e['full'] = True
                    elif not any(ix.eq(o) for o in e['ids']):
                        e['ids'].append(ix)
            if not new:
                break
        else:
            raise Unsupported('modified variables of a loop do not stabilise')
        self.dry -= 1
        del self.facts[snap[0]:]
        mod = {k: v for k, v in mod.items() if v}
        self.st = head
        return mod, hw

    def alive_of(self, key):
        """predicate: member existed at the loop head"""
        if key[0] in ('mem', 'size'):
            z = self.getk(('size', key[1])).l[0]
            return lambda b: sel(z, b) >= 0
        if key[0] in ('hf', 'alive', 'used'):
            cls = self.root_class(key[1])
            z = self.getk(('alive', cls)).l[0]
            return lambda b: sel(z, b)
        if key[0] == 'box':
            z = self.getk(('alive', 'box ' + key[1])).l[0]
            return lambda b: sel(z, b)
        return None

    def havoc_loop(self, head, mod, hw):
        st = head.copy()
        self.st = head
        preds = {k: self.alive_of(k) for k in mod}
        self.st = st
        for key in sorted(mod, key=str):
            v = self.getk(key, st)
            l = list(v.l)
            fam = v.ty.kind == 'heap'
            info = hw.get(key)
            for i in mod[key]:
                so = l[i].sort()
                nm = 'hav.%s' % (key[2] if key[0] == 'v' else key[-1],)
                if fam and info is not None and not info['full']:
                    if not info['alloc']:
                        x = l[i]
                        for ix in info['ids']:
                            x = z3.Store(x, ix, self.fresh(nm, so.range()))
                            if key[0] == 'mem':
                                x = self.name_store(x)
                        l[i] = x
                        continue
                    p = preds[key]
                    if p is not None:
                        y = self.fresh(nm, so)
                        b = z3.Int('b!q')
                        self.facts.append(Imp(st.pc, z3.ForAll([b], Imp(And(p(b), *[b != z for z in info['ids']]), sel(y, b) == sel(l[i], b)), patterns=[sel(y, b)])))
                        l[i] = y
                        continue
                l[i] = self.fresh(nm, so)
            nv = Val(v.ty, l)
            st.env[key] = nv
            for f in self.type_facts(nv):
                self.facts.append(f)


def refers(n, nm):
    if n.get('kind') == 'DeclRefExpr' and n.get('referencedDecl', {}).get('name') == nm:
        return True
    return any(refers(k, nm) for k in n.get('inner', []) if isinstance(k, dict))


def sel_len(eng, lv, ikey):
    return eng.st.env[ikey].t < eng.read(lv).l[0]
