"""Calls: repository functions, and the models of the library functions the sources use."""
import z3
from execu import *
from astload import Func
from solve import quantified

Dist = z3.Function('Dist', z3.IntSort(), z3.ArraySort(z3.IntSort(), z3.RealSort()), z3.IntSort(), z3.IntSort(),
                   z3.ArraySort(z3.IntSort(), z3.RealSort()), z3.IntSort(), z3.IntSort(), z3.RealSort())
DistThrows = z3.Function('DistThrows', z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.BoolSort())
# a text file as the sources read it: its lines, and the fields of a line
FileOpen = z3.Function('FileOpen', StrSort, z3.BoolSort())
FileBad = z3.Function('FileBad', StrSort, z3.BoolSort())      # reading fails after the last line
Lines = z3.Function('Lines', StrSort, z3.IntSort())
Line = z3.Function('Line', StrSort, z3.IntSort(), StrSort)
TokCount = z3.Function('TokCount', StrSort, StrSort, z3.IntSort())
Tok = z3.Function('Tok', StrSort, StrSort, z3.IntSort(), StrSort)
NotNumber = z3.Function('NotNumber', StrSort, z3.BoolSort())
OutOfRange = z3.Function('OutOfRange', StrSort, z3.BoolSort())
Number = z3.Function('Number', StrSort, z3.RealSort())
FileWritable = z3.Function('FileWritable', StrSort, z3.BoolSort())
CharText = z3.Function('CharText', z3.IntSort(), StrSort)
NumText = z3.Function('NumText', z3.RealSort(), StrSort)     # a number as it is printed


def map_order(d):
    """the keys of a map in the order they are walked, and the place of each"""
    ks = d.sort().domain()
    key = z3.Function('MapKey', d.sort(), z3.IntSort(), ks)
    place = z3.Function('MapPlace', d.sort(), ks, z3.IntSort())
    return lambda i: key(d, i), lambda k: place(d, k)


class Verifier(Exec):
    # ---- plain calls -------------------------------------------------------------------------
    def e_CallExpr(self, n):
        ks = kids(n)
        callee = strip(ks[0])
        args = ks[1:]
        if callee['kind'] == 'DeclRefExpr' and callee['referencedDecl']['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
            d = callee['referencedDecl']
            f = self.resolve(d['id'])
            if f is not None:
                a = self.eval_args(f, args, n)
                return self.call_repo(f, None, a)
            m = getattr(self, 'std_' + d['name'].strip('_'), None)
            if m is not None:
                return m(args, n, d)
            f = self.late_load(d)
            if f is not None:
                a = self.eval_args(f, args, n)
                return self.call_repo(f, None, a)
            return self.external(d['name'], args, n)
        fv = self.rv(ks[0])
        if isinstance(fv, Special) and fv.kind == 'func':
            f = self.resolve(fv.decl['id'])
            if f is not None:
                return self.call_repo(f, None, self.eval_args(f, args, n))
            raise Unsupported('call of ' + fv.decl['name'])
        if isinstance(fv, Val) and fv.ty.kind == 'fun':
            return self.call_dist(fv, args, n)
        raise Unsupported('indirect call')

    def late_load(self, d):
        """a helper outside the namespace that the first pass did not extract"""
        tu = self.fr.func.tu
        try:
            self.prog.load(tu, flt=d['name'])
        except Extraction:
            return None
        for f in self.prog.funcs.get(d['name'], []):
            if f.type == d['type']['qualType']:
                return f
        return None

    def external(self, name, args, n):
        raise Unsupported('external function ' + name)

    def ts(self, x):
        """(contents, offset, length) of a time series argument"""
        v = x if isinstance(x, Val) else self.read(x)
        g = lambda f: v.l[self.types.slice(v.ty, f)[0]]
        o = self.types.slice(v.ty, 'data')[0]
        blk, off = v.l[o], v.l[o + 1]
        m = self.getk(('mem', 'double')).l[0]
        return sel(m, blk), off + g('start'), g('length')

    def ts_block(self, x):
        v = x if isinstance(x, Val) else self.read(x)
        return v.l[self.types.slice(v.ty, 'data')[0]]

    def call_dist(self, fv, args, n):
        a = self.ev(args[0])
        b = self.ev(args[1])
        drop = self.num(args[2])
        mt = self.ev(args[3])
        A, B = self.ts(a), self.ts(b)
        self.externals.add('call through a distance pointer')
        # the matching argument must be the shared non-empty dummy: nothing is written to it
        self.prove('no alignment is requested from a distance called for its value', 'pre', self.read(mt).l[0] > 0)
        for x, (_, off, ln) in ((a, A), (b, B)):
            self.prove('series handed to a distance is readable', 'pre', And(ln >= 0, Imp(ln > 0, And(off >= 0, off + ln <= sel(self.getk(('size', 'double')).t, self.ts_block(x))))))
        self.prove('band ratio is not negative where a distance is called', 'pre', self.getk(('g', 'warpingBandRatio')).t >= 0)
        self.throw('GenexException', DistThrows(fv.t, A[2], B[2]))
        d = Dist(fv.t, *A, *B)
        r = self.fresh('dist', z3.RealSort())
        self.assume(Imp(d <= drop, r == d))
        self.assume(Imp(d > drop, r > drop))
        self.assume(And(r <= INF, d <= INF))
        hook = getattr(self.con, 'on_dist', None)
        if hook:
            for f in hook(self, fv.t, A, B, drop, r, d):
                self.assume(f)
        return Val(REAL, [r])

    # numeric ------------------------------------------------------------------------------------
    def std_min(self, args, n, d):
        a, b = self.rv(args[0]), self.rv(args[1])
        x, y = a.t, b.t
        return self.int_named(Val(a.ty, [Ite(y < x, y, x)]))

    def std_max(self, args, n, d):
        a, b = self.rv(args[0]), self.rv(args[1])
        x, y = a.t, b.t
        return self.int_named(Val(a.ty, [Ite(x < y, y, x)]))

    def int_named(self, v):
        """whole numbers chosen by a condition get a name: they end up inside other terms"""
        if v.ty.kind not in ('int', 'uint') or not z3.is_app_of(v.t, z3.Z3_OP_ITE):
            return v
        x = self.fresh('chosen', v.t.sort())
        self.assume(x == v.t)
        return Val(v.ty, [x])

    def std_abs(self, args, n, d):
        x = self.rv(args[0])
        return Val(x.ty, [z3.If(x.t >= 0, x.t, -x.t)])
    std_fabs = std_abs

    def std_pow(self, args, n, d):
        x = self.rv(args[0])
        y = self.rv(args[1])
        t = z3.simplify(y.t)
        if (z3.is_rational_value(t) and t.as_fraction() == 2) or (z3.is_int_value(t) and t.as_long() == 2):
            if self.con.float_mode == 'real':
                return Val(REAL, [x.t * x.t])
            return Val(REAL, [fsq(x.t)])
        raise Unsupported('pow with an exponent other than 2')

    def std_sqrt(self, args, n, d):
        return Val(REAL, [fsqrt(self.num(args[0]))])

    def std_floor(self, args, n, d):
        return Val(REAL, [z3.ToReal(ffloor(self.num(args[0])))])

    def std_infinity(self, args, n, d):
        return Val(REAL, [INF])

    def std_swap(self, args, n, d):
        a, b = self.ev(args[0]), self.ev(args[1])
        x, y = self.read(a), self.read(b)
        self.write(a, y)
        self.write(b, x)
        return Val(VOID, [])

    def std_move(self, args, n, d):
        return self.ev(args[0])
    std_forward = std_move

    def std_make_pair(self, args, n, d):
        a, b = self.rv(args[0]), self.rv(args[1])
        ty = self.types.of(n['type'])
        if ty.kind != 'pair':
            ty = Ty('pair', a.ty, b.ty)
        return Val(ty, self.conv_elem(ty.args[0], a).l + self.conv_elem(ty.args[1], b).l)

    def std_to_string(self, args, n, d):
        return Val(STR, [numstr(self.num(args[0]))])

    # raw memory -----------------------------------------------------------------------------------
    def std_malloc(self, args, n, d):
        return Special('malloc', bytes=self.num(args[0]))

    def std_free(self, args, n, d):
        p = self.rv(args[0])
        self.free_block(p, self.elem_of(p.ty))
        return Val(VOID, [])

    def bytes_to_count(self, t, elem):
        """t bytes as a number of elements"""
        sz = 8 if elem == 'double' else 4
        s = z3.simplify(t, som=True)
        c = self.fresh('cnt', z3.IntSort())
        self.assume(c * sz == t)
        self.prove('block size is a whole number of elements, not negative', 'safe', z3.And(t % sz == 0, t >= 0))
        return c

    def std_memset(self, args, n, d):
        p = self.rv(strip(args[0]))
        v = self.rv(args[1])
        t = self.num(args[2])
        elem = self.elem_of(p.ty)
        if not (z3.is_int_value(v.t) and v.t.as_long() == 0):
            raise Unsupported('memset to a value other than 0')
        c = self.bytes_to_count(t, elem)
        self.block_fill(p, elem, c, lambda i: z3.RealVal(0) if elem == 'double' else z3.IntVal(0))
        return p

    def block_fill(self, p, elem, c, f):
        m = self.getk(('mem', elem)).l[0]
        sz = self.getk(('size', elem)).l[0]
        blk, off = p.l
        self.prove('block operation inside its allocation', 'safe', Or(c == 0, And(off >= 0, off + c <= sel(sz, blk))))
        old = sel(m, blk)
        new = self.fresh('fill', old.sort())
        i = z3.Int('i!q')
        self.assume(z3.ForAll([i], sel(new, i) == z3.If(z3.And(i >= off, i < off + c), f(i - off), sel(old, i)), patterns=[sel(new, i)]))
        self.write(LV(('key', ('mem', elem), self.key_type(('mem', elem))), [('h', blk)], Ty('heap', p.ty.args[0])),
                   Val(Ty('heap', p.ty.args[0]), [new]))

    def std_memcpy(self, args, n, d):
        p = self.rv(strip(args[0]))
        q = self.rv(strip(args[1]))
        t = self.num(args[2])
        elem = self.elem_of(p.ty)
        c = self.bytes_to_count(t, elem)
        m = self.getk(('mem', elem)).l[0]
        sz = self.getk(('size', elem)).l[0]
        src = sel(m, q.l[0])
        self.prove('source of the copy inside its allocation', 'safe', Or(c == 0, And(q.l[1] >= 0, q.l[1] + c <= sel(sz, q.l[0]))))
        self.prove('copied blocks do not overlap', 'safe', Or(c == 0, p.l[0] != q.l[0]))
        self.block_fill(p, elem, c, lambda i: sel(src, q.l[1] + i))
        return p
    std_memmove = std_memcpy

    def std_printf(self, args, n, d):
        for a in args:
            self.ev(a)
        return Val(INT, [self.fresh('printf', z3.IntSort())])
    std_fprintf = std_puts = std_printf

    # containers -----------------------------------------------------------------------------------
    def vec_range(self, a, b):
        x, y = self.ev(a), self.ev(b)
        if not (isinstance(x, Special) and isinstance(y, Special) and x.kind == 'vecit' and y.kind == 'vecit' and x.lv.same(y.lv)):
            raise Unsupported('iterator range')
        v = self.read(x.lv)
        if not (z3.is_int_value(x.pos) and x.pos.as_long() == 0 and y.pos.eq(v.l[0])):
            raise Unsupported('partial iterator range')
        return x.lv, v

    def permute(self, lv, v, tag):
        """v is rearranged: fresh contents linked by a bijection; returns (new value, to, from)"""
        ln = v.l[0]
        to = self.fresh(tag + '.to', z3.ArraySort(z3.IntSort(), z3.IntSort()))    # old position -> new
        fr = self.fresh(tag + '.from', z3.ArraySort(z3.IntSort(), z3.IntSort()))  # new position -> old
        i = z3.Int('i!q')
        inr = z3.And(i >= 0, i < ln)
        self.assume(z3.ForAll([i], Imp(inr, z3.And(sel(to, i) >= 0, sel(to, i) < ln, sel(fr, sel(to, i)) == i)), patterns=[sel(to, i)]))
        self.assume(z3.ForAll([i], Imp(inr, z3.And(sel(fr, i) >= 0, sel(fr, i) < ln, sel(to, sel(fr, i)) == i)), patterns=[sel(fr, i)]))
        l = [ln]
        for x in v.l[1:]:
            if not z3.is_const(x):
                x0 = self.fresh(tag + '.before', x.sort())
                self.assume(x0 == x)
                x = x0
            y = self.fresh(tag, x.sort())
            self.assume(z3.ForAll([i], Imp(inr, sel(y, i) == sel(x, sel(fr, i))), patterns=[sel(y, i)]))
            self.assume(z3.ForAll([i], Imp(inr, sel(y, sel(to, i)) == sel(x, i)), patterns=[sel(x, i)]))
            l.append(y)
        nv = Val(v.ty, l)
        self.write(lv, nv)
        self.lastperm = (to, fr, ln)
        self.permuted = (v, nv)
        return nv, to, fr

    def less(self, ety, a, b):
        """operator< of the element type, from its real body"""
        if ety.kind == 'rec':
            f = self.prog.funcs.get(ety.args[0] + '::operator<')
            if not f:
                raise Unsupported('no operator< for %r' % ety)
            x, y = self.temp(a), self.temp(b)
            self.dry += 0
            r = self.call_body(f[0], x, [y], lambda: self.stmt(f[0].body))
            return self.read(r).t if isinstance(r, LV) else r.t
        return self.compare('<', a, b)

    def elem(self, v, i):
        return Val(v.ty.args[0], [sel(x, i) for x in v.l[1:]])

    def less_q(self, v, i, j, extra_vars):
        """not (v[j] < v[i])-style formulas under a quantifier: the body of operator< is executed
        on symbolic elements without emitting obligations or facts that escape"""
        return None

    def dist_leaf(self, v):
        for (s, so), x in zip(self.types.leaves(v.ty), v.l):
            if s == '[].dist':
                return x
        raise Unsupported('heap of %r' % v.ty)

    def heap_front_max(self, v):
        """after a heap operation no element is greater than the first: for operator< that orders
        by dist first this implies dist <= front.dist (checked separately by the operator's contract)"""
        i = z3.Int('i!q')
        dl = self.dist_leaf(v)
        self.assume(z3.ForAll([i], Imp(z3.And(i >= 0, i < v.l[0]), sel(dl, i) <= sel(dl, z3.IntVal(0))), patterns=[sel(dl, i)]))

    def order_ok(self, v):
        """the element order is by dist first: proved on the real operator<"""
        ety = v.ty.args[0]
        if ety.kind != 'rec':
            raise Unsupported('heap of %r' % ety)
        self.order_contract(ety.args[0])

    def order_contract(self, cls):
        key = cls + '::operator<'
        cs = self.contracts.get(key)
        if not cs:
            raise Unsupported('no contract for ' + key)
        self.used_contracts.add(cs[0])

    def std_make_heap(self, args, n, d):
        lv, v = self.vec_range(args[0], args[1])
        self.order_ok(v)
        nv, to, fr = self.permute(lv, v, 'mkheap')
        self.heap_front_max(nv)
        self.assume(self.is_heap(nv, nv.l[0]))
        self.perm_hook(lv, to, fr, v.l[0])
        return Val(VOID, [])

    def is_heap(self, v, n):
        """the first n elements of the vector value form a heap"""
        f = z3.Function('Heap:' + repr(v.ty), z3.IntSort(), *([x.sort() for x in v.l[1:]] + [z3.BoolSort()]))
        return f(n, *v.l[1:])

    def vec_hook(self, what, lv, old):
        h = getattr(self.con, what, None)
        if h:
            h(self, lv, old)

    def perm_hook(self, lv, to, fr, ln):
        h = getattr(self.con, 'on_permute', None)
        if h:
            h(self, lv, to, fr, ln)

    def std_push_heap(self, args, n, d):
        lv, v = self.vec_range(args[0], args[1])
        self.order_ok(v)
        self.prove('push_heap on a heap and one more element', 'safe', And(v.l[0] > 0, self.is_heap(v, v.l[0] - 1)))
        nv, to, fr = self.permute(lv, v, 'pushheap')
        self.heap_front_max(nv)
        self.assume(self.is_heap(nv, nv.l[0]))
        self.perm_hook(lv, to, fr, v.l[0])
        return Val(VOID, [])

    def std_pop_heap(self, args, n, d):
        lv, v = self.vec_range(args[0], args[1])
        self.order_ok(v)
        self.prove('pop_heap on a non-empty heap', 'safe', And(v.l[0] > 0, self.is_heap(v, v.l[0])))
        nv, to, fr = self.permute(lv, v, 'popheap')
        # the first goes to the end; the rest is a heap again
        ln = v.l[0]
        self.assume(z3.And(sel(to, z3.IntVal(0)) == ln - 1, sel(fr, ln - 1) == 0))
        i = z3.Int('i!q')
        dl = self.dist_leaf(nv)
        self.assume(z3.ForAll([i], Imp(z3.And(i >= 0, i < ln - 1), sel(dl, i) <= sel(dl, z3.IntVal(0))), patterns=[sel(dl, i)]))
        self.assume(self.is_heap(nv, ln - 1))
        self.perm_hook(lv, to, fr, ln)
        return Val(VOID, [])

    def std_sort(self, args, n, d):
        lv, v = self.vec_range(args[0], args[1])
        self.order_ok(v)
        nv, to, fr = self.permute(lv, v, 'sort')
        i, j = z3.Ints('i!q j!q')
        dl = self.dist_leaf(nv)
        self.assume(z3.ForAll([i, j], Imp(z3.And(i >= 0, i <= j, j < v.l[0]), sel(dl, i) <= sel(dl, j)),
                              patterns=[z3.MultiPattern(sel(dl, i), sel(dl, j))]))
        self.perm_hook(lv, to, fr, v.l[0])
        return Val(VOID, [])

    def std_reverse(self, args, n, d):
        lv, v = self.vec_range(args[0], args[1])
        i = z3.Int('i!q')
        l = [v.l[0]]
        for x in v.l[1:]:
            y = self.fresh('rev', x.sort())
            self.assume(z3.ForAll([i], Imp(z3.And(i >= 0, i < v.l[0]), sel(y, i) == sel(x, v.l[0] - 1 - i)), patterns=[sel(y, i)]))
            l.append(y)
        self.write(lv, Val(v.ty, l))
        return Val(VOID, [])

    def std_begin(self, args, n, d):
        lv = self.aslv(args[0])
        return Special('vecit', lv=lv, pos=z3.IntVal(0))

    def std_end(self, args, n, d):
        lv = self.aslv(args[0])
        return Special('vecit', lv=lv, pos=self.read(lv).l[0])

    def std_getline(self, args, n, d):
        s = self.ev(args[0])
        t = self.ev(args[1])
        if isinstance(s, LV) and s.ty.kind == 'infile' and len(args) == 2:
            v = self.read(s)
            path, op, pos, fail, bad = v.l
            self.assume(Lines(path) >= 0)
            able = And(op, Not(fail), Not(bad))
            ok = And(able, pos < Lines(path))
            self.write(t, Val(STR, [Ite(ok, Line(path, pos), self.fresh('line', StrSort))]))
            self.write(s, Val(v.ty, [path, op, Ite(ok, pos + 1, pos), Not(ok), Or(bad, And(able, Not(ok), FileBad(path)))]))
            return s
        if isinstance(s, (LV, Val)):
            raise Unsupported('getline')
        self.write(t, self.fresh_val('line', STR))
        return Special('stream', name='getline')

    def file_method(self, lv, nm, args, n):
        v = self.read(lv)
        path, op, pos, fail, bad = v.l
        args = self.real_args(args)
        if nm == 'is_open':
            return Val(BOOL, [op])
        if nm == 'bad':
            return Val(BOOL, [bad])
        if nm in ('operator bool', 'fail', 'operator!'):
            x = Or(fail, bad)
            return Val(BOOL, [Not(x) if nm == 'operator bool' else x])
        if nm == 'close':
            self.write(lv, Val(v.ty, [path, F, pos, fail, bad]))
            return Val(VOID, [])
        if nm == 'clear' and not args:
            self.write(lv, Val(v.ty, [path, op, pos, F, F]))
            return Val(VOID, [])
        if nm == 'seekg' and len(args) == 1 and strip(args[0])['kind'] != 'UnaryOperator':
            k = [a for a in self.nodes(args[0]) if a['kind'] == 'IntegerLiteral']
            if len(k) == 1 and k[0]['value'] == '0':
                self.write(lv, Val(v.ty, [path, op, Ite(Or(fail, bad), pos, z3.IntVal(0)), fail, bad]))
                return lv
        raise Unsupported('%s of a file' % nm)

    def nodes(self, n):
        out = [n]
        for k in n.get('inner', []):
            if k:
                out += self.nodes(k)
        return out

    def std_distance(self, args, n, d):
        a, b = self.ev(args[0]), self.ev(args[1])
        if isinstance(a, Val) and a.ty.kind == 'tokit':
            self.prove('both positions are in the same line', 'safe', And(a.l[0] == b.l[0], a.l[1] == b.l[1], a.l[2] <= b.l[2]))
            return Val(INT, [b.l[2] - a.l[2]])
        if isinstance(a, Special) and a.kind == 'opaque':
            v = self.fresh('distance', z3.IntSort())
            self.assume(v >= 0)
            return Val(INT, [v])
        raise Unsupported('distance')

    def std_stod(self, args, n, d):
        s = self.rv(args[0])
        if isinstance(s, Val) and s.ty.kind == 'str' and len(self.real_args(args)) == 1:
            self.throw('invalid_argument', NotNumber(s.t))
            self.throw('out_of_range', OutOfRange(s.t))
            return Val(REAL, [Number(s.t)])
        self.throw('invalid_argument', self.fresh('badnum', z3.BoolSort()))
        self.throw('out_of_range', self.fresh('bignum', z3.BoolSort()))
        return Val(REAL, [self.fresh('stod', z3.RealSort())])

    def std_duration_cast(self, args, n, d):
        return Special('opaque', name='time')
    std_now = std_duration_cast

    def std_setprecision(self, args, n, d):
        return Special('opaque', name='manip')
    std_trim_right = std_setprecision

    # ---- member calls --------------------------------------------------------------------------
    def e_CXXMemberCallExpr(self, n):
        ks = kids(n)
        m = ks[0]
        while m['kind'] in ('ParenExpr', 'ImplicitCastExpr'):
            m = kids(m)[0]
        if m['kind'] != 'MemberExpr':
            raise Unsupported('member call through ' + m['kind'])
        args = ks[1:]
        nm = m['name']
        base = kids(m)[0]
        f = self.resolve(m.get('referencedMemberDecl'))
        if m.get('isArrow'):
            p = self.rv(base)
            if isinstance(p, Special) and p.kind == 'addr':
                this = p.lv
            elif isinstance(p, Special):
                this = self.deref_special(p)
            else:
                this = self.deref_obj(p)
        else:
            v = self.ev(base)
            this = self.temp(v, 'this') if isinstance(v, Val) else v
        if f is not None and (isinstance(this, LV)):
            if this.ty is not None and this.ty.kind == 'rec':
                a = self.eval_args(f, args, n)
                return self.call_repo(f, this, a)
        if nm == 'enqueue' and 'ThreadPool' in base['type']['qualType']:
            return self.run_task(self.real_args(args))
        if isinstance(this, Special):
            return self.special_method(this, nm, args, n)
        if this.ty.kind == 'opaque' and ('atomic' in repr(this.ty) or 'chrono' in repr(this.ty)):
            # clock readings and atomic counters: any value
            return self.special_method(Special('opaque'), nm, args, n)
        if nm == 'operator=' and f is None:
            v = self.rv(args[0])
            self.write(this, self.conv_for(this, v))
            return this
        if nm == 'get' and re.search(r'\bfuture<', base['type'].get('desugaredQualType', base['type']['qualType'])):
            return self.read(this)
        if this.ty.kind == 'vec':
            return self.vec_method(this, nm, args, n)
        if this.ty.kind == 'map':
            return self.map_method(this, nm, args, n)
        if this.ty.kind == 'str':
            return self.str_method(this, nm, args, n)
        if this.ty.kind == 'outfile' and nm in ('is_open', 'close', 'operator bool'):
            p, op = self.read(this).l
            if nm != 'close':
                return Val(BOOL, [op])
            self.write(this, Val(this.ty, [p, F]))
            return Val(VOID, [])
        if this.ty.kind == 'filter' and nm == 'push':
            x = strip(args[0])
            if x['kind'] == 'DeclRefExpr':
                x = self.ev(x)
                if not (isinstance(x, LV) and x.ty.kind in ('infile', 'outfile')):
                    raise Unsupported('filter on %r' % x)
                self.write(this, Val(this.ty, [self.read(x).l[0]]))
            elif not re.search(r'zlib_(de)?compressor', x['type']['qualType']):
                raise Unsupported('filter of type ' + x['type']['qualType'])
            return Val(VOID, [])
        if this.ty.kind == 'infile':
            return self.file_method(this, nm, args, n)
        if this.ty.kind == 'tokens' and nm in ('begin', 'end'):
            line, sep = self.read(this).l
            self.assume(TokCount(line, sep) >= 0)
            return Val(Ty('tokit'), [line, sep, z3.IntVal(0) if nm == 'begin' else TokCount(line, sep)])
        raise Unsupported('method %s of %r' % (nm, this.ty))

    def run_task(self, args):
        """a task handed to the thread pool takes effect where it is handed over"""
        n = strip(args[0])
        if n['kind'] != 'LambdaExpr' or len(args) != 1:
            raise Unsupported('task of kind ' + n['kind'])
        rec = next(k for k in kids(n) if k['kind'] == 'CXXRecordDecl')
        if any(k['kind'] == 'FieldDecl' and self.types.is_ref(k['type']) for k in kids(rec)):
            raise Unsupported('a task that refers to variables of the function')
        op = next(k for k in kids(rec) if k['kind'] == 'CXXMethodDecl' and k.get('name') == 'operator()')
        fr = self.fr
        f = Func(op, fr.func.key + ' task', None, fr.func.tu, ())
        if f.params:
            raise Unsupported('a task with parameters')

        def body():
            self.fr.vars.update(fr.vars)
            self.stmt(f.body)
        return self.call_body(f, fr.this, [], body)

    def special_method(self, this, nm, args, n):
        for a in args:
            self.ev(a)
        ty = self.types.of(n['type'])
        if ty.kind == 'void':
            return Val(VOID, [])
        if ty.kind in ('int', 'uint', 'bool', 'double'):
            return self.fresh_val('ext.' + nm, ty)
        if ty.kind == 'str':
            return self.fresh_val('ext.' + nm, ty)
        return Special(this.kind, name=nm)

    def str_method(self, this, nm, args, n):
        if nm in ('c_str', 'data'):
            return self.read(this)
        if nm == 'length' or nm == 'size':
            v = z3.Function('strlen', StrSort, z3.IntSort())(self.read(this).t)
            self.assume(v >= 0)
            return Val(UINT, [v])
        ty = self.types.of(n['type'])
        args = [self.rv(a) for a in self.real_args(args)]
        if nm == 'compare' or nm == 'find' or nm == 'substr':
            if nm == 'substr':
                # throws when the position is past the end
                ln = z3.Function('strlen', StrSort, z3.IntSort())(self.read(this).t)
                self.throw('out_of_range', args[0].t > ln)
            return self.fresh_val('str.' + nm, ty)
        raise Unsupported('string method ' + nm)

    def vec_method(self, lv, nm, args, n):
        v = self.read(lv)
        ety = v.ty.args[0]
        ln = v.l[0]
        args = self.real_args(args)
        if nm == 'size':
            return Val(UINT, [ln])
        if nm == 'empty':
            return Val(BOOL, [ln == 0])
        if nm == 'clear':
            self.write(lv, Val(v.ty, (z3.IntVal(0),) + v.l[1:]))
            return Val(VOID, [])
        if nm in ('push_back', 'emplace_back'):
            if nm == 'emplace_back' and len(args) != 1:
                raise Unsupported('emplace_back')
            ct = 'void (const %s &)' % ety.args[0] if ety.kind == 'rec' else ''
            if ct and args[0].get('valueCategory') == 'lvalue' and any(f.type.startswith(ct) for f in self.prog.funcs.get('%s::%s' % (ety.args[0], ety.args[0]), [])):
                x = self.construct(ety.args[0], args[:1], ct)
            else:
                x = self.conv_elem(ety, self.rv(args[0]))
            v = self.read(lv)
            ln = v.l[0]
            nv = Val(v.ty, [ln + 1] + [z3.Store(a, ln, y) for a, y in zip(v.l[1:], x.l)])
            self.write(lv, nv)
            if any(s == '[].dist' for s, _ in self.types.leaves(v.ty)):
                self.assume(self.is_heap(nv, ln) == self.is_heap(v, ln))
            self.vec_hook('on_push', lv, v)
            return Val(VOID, [])
        if nm == 'pop_back':
            self.prove('pop_back on a non-empty vector', 'safe', ln > 0)
            self.write(lv, Val(v.ty, (ln - 1,) + v.l[1:]))
            self.vec_hook('on_pop', lv, v)
            return Val(VOID, [])
        if nm in ('front', 'back'):
            self.prove('%s of a non-empty vector' % nm, 'safe', ln > 0)
            return LV(lv.base, lv.steps + [('i', z3.IntVal(0) if nm == 'front' else ln - 1)], ety)
        if nm == 'at':
            i = self.num(args[0])
            self.throw('out_of_range', Not(And(i >= 0, i < ln)))
            return LV(lv.base, lv.steps + [('i', i)], ety)
        if nm in ('begin', 'cbegin'):
            return Special('vecit', lv=lv, pos=z3.IntVal(0))
        if nm in ('end', 'cend'):
            return Special('vecit', lv=lv, pos=ln)
        if nm in ('reserve', 'shrink_to_fit'):
            for a in args:
                self.ev(a)
            return Val(VOID, [])
        if nm == 'resize':
            k = self.num(args[0])
            x = self.conv_elem(ety, self.rv(args[1])) if len(args) > 1 else self.default_elem(ety)
            self.prove('vector size not negative', 'safe', k >= 0)
            i = z3.Int('i!q')
            l = [k]
            for a, y in zip(v.l[1:], x.l):
                b = self.fresh('resized', a.sort())
                self.assume(z3.ForAll([i], sel(b, i) == z3.If(z3.And(i >= ln, i < k), y, sel(a, i)), patterns=[sel(b, i)]))
                l.append(b)
            self.write(lv, Val(v.ty, l))
            return Val(VOID, [])
        if nm == 'erase' and len(args) == 1:
            it = self.ev(args[0])
            if not (isinstance(it, Special) and it.kind == 'vecit'):
                raise Unsupported('erase')
            self.prove('erase inside the vector', 'safe', And(it.pos >= 0, it.pos < ln))
            i = z3.Int('i!q')
            l = [ln - 1]
            for a in v.l[1:]:
                b = self.fresh('erased', a.sort())
                self.assume(z3.ForAll([i], sel(b, i) == z3.If(i < it.pos, sel(a, i), sel(a, i + 1)), patterns=[sel(b, i)]))
                l.append(b)
            self.write(lv, Val(v.ty, l))
            self.vec_hook('on_erase', lv, v)
            return Special('vecit', lv=lv, pos=it.pos)
        if nm == 'insert' and len(args) == 3:
            at, b0, e0 = self.ev(args[0]), self.ev(args[1]), self.ev(args[2])
            if not all(isinstance(x, Special) and x.kind == 'vecit' for x in (at, b0, e0)) or not at.pos.eq(ln):
                raise Unsupported('insert')
            src = self.read(b0.lv)
            if not (z3.is_int_value(b0.pos) and b0.pos.as_long() == 0 and e0.pos.eq(src.l[0])):
                raise Unsupported('insert of a partial range')
            i = z3.Int('i!q')
            l = [ln + src.l[0]]
            for a, s in zip(v.l[1:], src.l[1:]):
                b = self.fresh('inserted', a.sort())
                self.assume(z3.ForAll([i], sel(b, i) == z3.If(i < ln, sel(a, i), sel(s, i - ln)), patterns=[sel(b, i)]))
                l.append(b)
            self.write(lv, Val(v.ty, l))
            self.vec_hook('on_insert', lv, v)
            return Special('vecit', lv=lv, pos=ln)
        raise Unsupported('vector method ' + nm)

    def default_elem(self, ety):
        return self.default(ety)

    def map_method(self, lv, nm, args, n):
        v = self.read(lv)
        if nm == 'find':
            k = self.rv(args[0])
            return Special('mapit', lv=lv, key=k.t)
        if nm == 'end':
            return Special('mapit', lv=lv, key=None)
        if nm == 'empty':
            ks = z3.Const('k!q', v.l[0].sort().domain())
            r = self.fresh('mapempty', z3.BoolSort())
            self.assume(r == z3.ForAll([ks], z3.Not(sel(v.l[0], ks)), patterns=[sel(v.l[0], ks)]))
            return Val(BOOL, [r])
        if nm == 'count':
            k = self.rv(args[0])
            return Val(UINT, [z3.If(sel(v.l[0], k.t), z3.IntVal(1), z3.IntVal(0))])
        if nm == 'size':
            return Val(UINT, [v.l[1]])
        if nm == 'clear':
            self.write(lv, Val(v.ty, (z3.K(v.l[0].sort().domain(), F), z3.IntVal(0)) + v.l[2:]))
            return Val(VOID, [])
        if nm == 'erase':
            it = self.ev(args[0])
            if isinstance(it, Special) and it.kind == 'mapit':
                k = it.key
            else:
                k = (self.read(it) if isinstance(it, LV) else it).t
            self.write(lv, Val(v.ty, (z3.Store(v.l[0], k, F), z3.If(sel(v.l[0], k), v.l[1] - 1, v.l[1])) + v.l[2:]))
            return Val(UINT, [z3.If(sel(v.l[0], k), z3.IntVal(1), z3.IntVal(0))])
        raise Unsupported('map method ' + nm)

    def map_range(self, n, lv, var, body):
        """the entries in some order, each once"""
        q = var['type']['qualType']
        if self.types.is_ref(var['type']) and 'const' not in q:
            raise Unsupported('range for over a map by reference')
        v = self.read(lv)
        d, count = v.l[0], v.l[1]
        key, place = map_order(d)
        i, k = z3.Int('i!q'), z3.Const('k!q', d.sort().domain())
        self.assume(count >= 0)
        self.assume(z3.ForAll([i], Imp(And(i >= 0, i < count), And(sel(d, key(i)), place(key(i)) == i)), patterns=[key(i)]))
        self.assume(z3.ForAll([k], Imp(sel(d, k), And(place(k) >= 0, place(k) < count, key(place(k)) == k)), patterns=[place(k)]))
        ikey = ('v', self.fr.num, '__i', 'rf%s' % n.get('id'))
        self.st.env[ikey] = Val(INT, [z3.IntVal(0)])
        self.fr.vars['rf%s' % n.get('id')] = ('key', ikey, INT)
        self.fr.names['__i'] = 'rf%s' % n.get('id')

        def cond():
            return self.st.env[ikey].t < count

        def pre():
            x = key(self.st.env[ikey].t)
            self.prove('map keeps its keys while it is walked', 'safe', self.read(lv).l[0] == d)
            self.assume(And(sel(d, x), place(x) == self.st.env[ikey].t))
            val = self.read(LV(lv.base, lv.steps + [('k', x)], lv.ty.args[1]))
            ty = Ty('pair', STR if x.sort() == StrSort else INT, lv.ty.args[1])
            vkey = ('v', self.fr.num, var['name'], var['id'])
            self.st.env[vkey] = Val(ty, [x] + list(val.l))
            self.fr.names[var['name']] = var['id']
            self.fr.vars[var['id']] = ('key', vkey, ty)

        def inc():
            self.st.env[ikey] = Val(INT, [self.st.env[ikey].t + 1])
        self.loop(n, cond, inc, body, pre=pre)

    # ---- operators -------------------------------------------------------------------------------
    def e_CXXOperatorCallExpr(self, n):
        ks = kids(n)
        callee = strip(ks[0])
        d = callee['referencedDecl']
        nm = d['name']
        args = ks[1:]
        f = self.resolve(d['id'])
        if f is not None:
            # implicitly generated assignments have no body
            if f.cls and d['kind'] == 'CXXMethodDecl':
                this = self.ev(args[0])
                if isinstance(this, Val):
                    this = self.temp(this)
                if isinstance(this, LV):
                    if nm == 'operator=' and (f.body is None):
                        v = self.rv(args[1])
                        self.write(this, self.conv_for(this, v))
                        return this
                    # C++11 evaluates the right operand of an assignment in any order
                    a = self.eval_args(f, args[1:], n)
                    return self.call_repo(f, this, a)
            elif isinstance(f, object) and not f.cls:
                q = args[0]['type'].get('desugaredQualType') or args[0]['type']['qualType']
                if not is_streamy(q):
                    return self.call_repo(f, None, self.eval_args(f, args, n))
        if nm in ('operator<<', 'operator>>'):
            return self.stream_op(nm, args, n)
        a = self.ev(args[0])
        if nm == 'operator=':
            v = self.rv(args[1])
            if isinstance(a, Special) or a.ty.kind == 'opaque':
                return a
            if a.ty.kind == 'vec' and isinstance(v, Special) and v.kind == 'initlist':
                v = self.construct_std(a.ty, [args[1]], n)
            self.write(a, self.conv_for(a, v))
            return a
        if nm == 'operator[]':
            if isinstance(a, Special):
                raise Unsupported('operator[] of ' + a.kind)
            if isinstance(a, Val):
                a = self.temp(a)
            if a.ty.kind == 'vec':
                i = self.num(args[1])
                v = self.read(a)
                self.prove('vector index in range', 'safe', And(i >= 0, i < v.l[0]))
                return LV(a.base, a.steps + [('i', i)], a.ty.args[0])
            if a.ty.kind == 'map':
                k = self.rv(args[1])
                v = self.read(a)
                # inserts a default value when absent
                self.map_touch(a, v, k)
                return LV(a.base, a.steps + [('k', k.t)], a.ty.args[1])
            if a.ty.kind == 'str':
                self.num(args[1])
                return Val(INT, [self.fresh('ch', z3.IntSort())])
            raise Unsupported('operator[] of %r' % a.ty)
        if nm in ('operator==', 'operator!=', 'operator<', 'operator>', 'operator<=', 'operator>='):
            x = self.read(a) if isinstance(a, LV) else a
            y = self.rv(args[1])
            if isinstance(x, Val) and x.ty.kind == 'vec':
                raise Unsupported('vector comparison')
            return Val(BOOL, [self.compare(nm[8:], x, y)])
        if nm == 'operator+' and len(args) == 2:
            x = self.read(a) if isinstance(a, LV) else a
            y = self.rv(args[1])
            if isinstance(x, Special) and x.kind == 'vecit':
                return Special('vecit', lv=x.lv, pos=x.pos + y.t)
            if isinstance(x, Val) and x.ty.kind == 'str' and isinstance(y, Val) and y.ty.kind == 'str':
                return Val(STR, [strcat(x.t, y.t)])
            return Val(STR, [self.fresh('str', StrSort)])
        if nm == 'operator+=' and isinstance(a, LV) and a.ty.kind == 'str':
            y = self.rv(args[1])
            self.write(a, Val(STR, [strcat(self.read(a).t, y.t)]))
            return a
        if isinstance(a, (LV, Val)) and a.ty.kind == 'tokit':
            v = self.read(a) if isinstance(a, LV) else a
            line, sep, pos = v.l
            self.prove('field inside the line', 'safe', And(pos >= 0, pos < TokCount(line, sep)))
            if nm == 'operator*':
                return Val(STR, [Tok(line, sep, pos)])
            if nm == 'operator++' and isinstance(a, LV):
                self.write(a, Val(v.ty, [line, sep, pos + 1]))
                return v if len(args) > 1 else a
        if nm in ('operator*', 'operator->'):
            if isinstance(a, Special):
                return self.deref_special(a) if a.kind == 'vecit' else a
        if isinstance(a, Special):
            for x in args[1:]:
                self.ev(x)
            ty = self.types.of(n['type'])
            if ty.kind in ('int', 'uint', 'bool', 'double', 'str'):
                return self.fresh_val('ext', ty)
            return a
        if nm == 'operator!' and isinstance(a, LV) and a.ty.kind in ('infile', 'outfile'):
            return self.file_method(a, nm, [], n) if a.ty.kind == 'infile' else Val(BOOL, [Not(self.read(a).l[1])])
        raise Unsupported('%s on %r' % (nm, getattr(a, 'ty', '?')))

    def map_touch(self, lv, v, k):
        vt = v.ty.args[1]
        has = sel(v.l[0], k.t)
        if self.surely(has):
            return
        dflt = self.default(vt)
        l = [z3.Store(v.l[0], k.t, T), z3.If(has, v.l[1], v.l[1] + 1)]
        for x, d in zip(v.l[2:], dflt.l):
            y = self.fresh('entry', d.sort())
            self.assume(y == z3.If(has, sel(x, k.t), d))
            l.append(z3.Store(x, k.t, y))
        self.write(lv, Val(v.ty, l))

    def surely(self, cond):
        """follows from the facts without quantifiers, as far as a short search shows"""
        s = z3.Solver()
        s.set('rlimit', 300000)
        s.add(*[f for f in self.initfacts + self.facts if not quantified(f)], self.st.pc, Not(cond))
        return s.check() == z3.unsat

    def file_out(self, lv, arg):
        """one thing written to a file"""
        p, op = self.read(lv).l
        lines, count, text = self.getk(('gg', 'files')).l
        at = sel(lines, p)
        b = strip(arg)
        end = b['kind'] == 'DeclRefExpr' and b['referencedDecl']['name'] == 'endl' or b['kind'] == 'CharacterLiteral' and b['value'] == 10 or \
            b['kind'] == 'StringLiteral' and b['value'] == '"\\n"'
        if end:
            self.write_files([Ite(op, z3.Store(lines, p, at + 1), lines), Ite(op, z3.Store(count, p, z3.Store(sel(count, p), at + 1, z3.IntVal(0))), count), text])
            return lv
        v = self.rv(arg)
        q = arg['type'].get('desugaredQualType') or arg['type']['qualType']
        if isinstance(v, Special):
            raise Unsupported('writing ' + v.kind)
        if v.ty.kind == 'str':
            t = v.t
        elif q.replace('const ', '') == 'char':
            t = CharText(v.t)
        elif v.ty.kind == 'double':
            t = NumText(v.t)
        elif v.ty.kind in ('int', 'uint'):
            t = numstr(v.t)
        else:
            raise Unsupported('writing %r' % v.ty)
        lines, count, text = self.getk(('gg', 'files')).l
        at = sel(lines, p)
        k = sel(sel(count, p), at)
        self.write_files([lines, Ite(op, z3.Store(count, p, z3.Store(sel(count, p), at, k + 1)), count),
                          Ite(op, z3.Store(text, p, z3.Store(sel(text, p), at, z3.Store(sel(sel(text, p), at), k, t))), text)])
        return lv

    def archive_op(self, ar, reading, node):
        """values in the order in which they were written; objects through their own save and load"""
        x = self.ev(node)
        pos, ints, sizes, nums, strs, nobj, start = self.read(ar).l
        if x.ty.kind == 'rec':
            if isinstance(x, Val):
                x = self.temp(x)
            key = '%s::%s<boost::archive::binary_%sarchive>' % (x.ty.args[0], *(('load', 'i') if reading else ('save', 'o')))
            fs = self.prog.funcs.get(key, [])
            if len(fs) != 1:
                raise Unsupported('no function ' + key)
            if not reading:
                start = self.named('start', z3.Store(start, nobj, pos))
            self.write(ar, Val(ar.ty, [pos, ints, sizes, nums, strs, nobj + 1, start]))
            self.call_repo(fs[0], x, [ar, self.fresh_val('version', INT)])
            return ar
        which = {'int': 1, 'uint': 2, 'double': 3, 'str': 4}.get(x.ty.kind)
        if which is None:
            raise Unsupported('%r in an archive' % x.ty)
        l = [pos + 1, ints, sizes, nums, strs, nobj, start]
        if reading:
            if which == 2:
                self.assume(sel(sizes, pos) >= 0)
            self.write(x, Val(x.ty, [sel(l[which], pos)]))
        else:
            v = x if isinstance(x, Val) else self.read(x)
            l[which] = self.named('archive', z3.Store(l[which], pos, v.l[0]))
        self.write(ar, Val(ar.ty, l))
        return ar

    def named(self, nm, t):
        x = self.fresh(nm, t.sort())
        self.assume(x == t)
        return x

    def stream_op(self, nm, args, n):
        a = self.ev(args[0])
        if isinstance(a, LV) and a.ty.kind == 'outfile' and nm == 'operator<<':
            return self.file_out(a, args[1])
        if isinstance(a, LV) and a.ty.kind == 'archive':
            return self.archive_op(a, nm == 'operator>>', args[1])
        if isinstance(a, LV):
            raise Unsupported('%s of %r' % (nm, a.ty))
        if nm == 'operator>>':
            b = self.ev(args[1])
            if isinstance(b, LV):
                self.write(b, self.fresh_val('input', b.ty))
        else:
            b = strip(args[1])
            if not (b['kind'] == 'DeclRefExpr' and b['referencedDecl']['kind'] in ('FunctionDecl', 'CXXMethodDecl')):
                self.ev(args[1])
        return a if isinstance(a, Special) else Special('stream', name='s')

    # ---- top level -------------------------------------------------------------------------------
    def verify(self):
        con = self.con
        fs = self.prog.funcs.get(con.key, [])
        if con.ptypes is not None:
            fs = [f for f in fs if [p['type']['qualType'] for p in f.params] == list(con.ptypes)]
        if not fs:
            raise Unsupported('function %s not found in the sources' % con.key)
        if len(fs) > 1:
            raise Unsupported('several functions match ' + con.key)
        func = self.root_func = fs[0]
        self.initfacts = [INF > 1000000]
        self.mulfacts = mul_facts()
        self.lastvars = {}
        self.rename = {}
        self.st = State(T, {})
        self.entry = State(T, {})
        self.throws = [[]]
        this = None
        if func.cls:
            ty = Ty('rec', func.cls)
            if con.self_mode == 'heap':
                ref = z3.Int('this')
                self.initfacts.append(ref > 0)
                this = LV(('obj', func.cls, ref), [], ty)
                self.initfacts.append(sel(self.getk(('alive', self.root_class(func.cls))).l[0], ref))
            else:
                key = ('p', 'self')
                self.init[key] = Val(ty, [z3.Const('self' + s, so) for s, so in self.types.leaves(ty)])
                self.initfacts.extend(self.type_facts(self.init[key]))
                this = LV(('key', key, ty), [], ty)
        args = []
        names = getattr(con, 'params', None)
        for i, p in enumerate(func.params):
            ty = self.types.of(p['type'])
            nm = p.get('name') or 'arg%d' % i
            if ty.kind == 'opaque':
                args.append(Special('stream' if is_streamy(p['type']['qualType']) else 'opaque', name=nm))
                continue
            if con.alias and con.alias[0] == i:
                args.append(this)
                continue
            key = ('p', nm)
            v = Val(ty, [z3.Const(nm + s, so) for s, so in self.types.leaves(ty)])
            self.init[key] = v
            self.initfacts.extend(self.type_facts(v))
            if self.types.is_ref(p['type']) and ty.kind == 'rec' and ty.args[0] in getattr(con, 'heap_params', ()):
                r = z3.Int(nm)
                args.append(LV(('obj', ty.args[0], r), [], ty))
                continue
            args.append(LV(('key', key, ty), [], ty) if self.types.is_ref(p['type']) else v)
        self.func_args = args

        def body():
            fr = self.fr
            # contracts may use their own parameter names
            for i, a in enumerate(names or ()):
                if i < len(func.params):
                    fr.names.setdefault(a, func.params[i]['id'])
            self.bind_names(func)
            self.entry_params = {p.get('name'): fr.vars.get(p['id']) for p in func.params}
            c = self.ctx()
            for nm, g in con.requires(c):
                self.facts.append(g)
                self.prenames.append(nm)
            for g in con.facts(self):
                self.facts.append(g)
            self.hint(con.hints(self.ctx()))
            self.entry_env_fix()
            self.probes.append(('precondition', len(self.facts), T))
            if func.node['kind'] == 'CXXConstructorDecl':
                pass
            self.stmt(func.body)
        if func.node['kind'] == 'CXXConstructorDecl':
            res = self.verify_ctor(func, this, args)
        else:
            res = self.call_top(func, this, args, body)
        return self

    def bind_names(self, func):
        base = getattr(self.con, 'baseline_vars', None)
        if not base:
            return
        cur = []

        def walk(n):
            if not isinstance(n, dict):
                return
            if n.get('kind') in ('VarDecl', 'ParmVarDecl') and n.get('name'):
                cur.append((n['name'], self.types.of(n['type']).__repr__()))
            for x in n.get('inner', []):
                walk(x)
        for p in func.params:
            walk(p)
        walk(func.body)
        self.cur_vars = cur
        have = {n for n, _ in cur}
        missing = [(n, t) for n, t in base if n not in have]
        known = {n for n, _ in base}
        extra = [(n, t) for n, t in cur if n not in known]
        for n, t in missing:
            c = [x for x in extra if x[1] == t]
            same_missing = [x for x in missing if x[1] == t]
            if len(c) == len(same_missing) and c:
                self.rename[n] = c[same_missing.index((n, t))][0]

    def entry_env_fix(self):
        # values of parameters at entry, for old()
        self.entry = self.st.copy()

    def finish(self, func, rets):
        con = self.con
        for s, v in rets:
            pass

    def call_top(self, func, this, args, body):
        con = self.con
        self.nframe += 1
        fr = Frame(func, this, self.nframe, ())
        for p, a in zip(func.params, args):
            self.bind_param(fr, p, a)
        self.frames.append(fr)
        body()
        if not z3.is_false(self.st.pc):
            fr.returns.append((self.st, Val(VOID, [])))
        self.exits(fr)

    def exits(self, fr):
        con = self.con
        nret = 0
        rets = [(s, v) for s, v in fr.returns if not z3.is_false(s.pc)]
        th = con.throws(Ctx(self, self.entry, self.roots, None, self.entry))
        if rets:
            if all(isinstance(v, Val) and v.ty.kind == 'void' for _, v in rets):
                groups = [(self.merge([s for s, _ in rets]), Val(VOID, []))]
            elif getattr(con, 'split_returns', True):
                groups = rets
            else:
                st = self.merge([s for s, _ in rets])
                groups = [(st, self.merge_values([(s.pc, v) for s, v in rets]))]
            for i, (s, v) in enumerate(groups):
                self.st = s
                self.probes.append(('return %d' % i, len(self.facts), s.pc))
                c = self.ctx(res=v)
                if not z3.is_false(th):
                    self.prove('returns normally only when it should', 'post', Not(th))
                if con.ghost_exit:
                    con.ghost_exit(self)
                    c = self.ctx(res=v)
                old = Ctx(self, self.entry, self.roots, None, self.entry)
                for leaf, t in con.result(old).items():
                    self.prove('result%s as stated' % leaf, 'post', c('res' + leaf) == t)
                for lv, terms in con.sets(old):
                    cur = self.read(lv)
                    for (leaf, _), x, t in zip(self.types.leaves(cur.ty), cur.l, terms):
                        if t is not None:
                            self.prove('%s%s as stated' % (lv.steps[-1][1] if lv.steps and lv.steps[-1][0] == 'f' else lv.base[1][-1], leaf), 'post', x == t)
                for nm, g in con.ensures(c):
                    self.prove(nm, 'post', g)
                self.frame_check('')
                nret += 1
        thr = [(t, s) for t, s in self.throws[0] if not z3.is_false(s.pc)]
        for t, s in thr:
            self.st = s
            if t not in ('GenexException',) and not getattr(con, 'any_exception', False):
                self.prove('does not throw ' + t, 'throw', F)
                continue
            self.prove('throws only when it should', 'throw', th)
            c = self.ctx()
            for nm, g in con.on_throw(c):
                self.prove('after a failure: ' + nm, 'throw', g)
            self.frame_check('after a failure: ')
        self.nexits = (nret, len(thr))

    def frame_check(self, pre):
        """what the contract does not list is as it was"""
        con = self.con
        mods = con.modifies(Ctx(self, self.entry, self.roots, None, self.entry))
        mods = list(mods) + [lv for lv, _ in con.sets(Ctx(self, self.entry, self.roots, None, self.entry))]
        for key in sorted(self.st.env, key=str):
            if key[0] not in ('p', 'g', 'gg', 'mem', 'size', 'hf', 'box', 'alive') or key not in self.init:
                continue
            v = self.st.env[key]
            o = self.entry.env.get(key, self.init[key])
            if isinstance(v, Special) or isinstance(o, Special):
                continue
            diff = [i for i, (x, y) in enumerate(zip(v.l, o.l)) if not x.eq(y)]
            if not diff:
                continue
            free, ids, full, keep = set(), [], False, []
            for m in mods:
                if isinstance(m, LV):
                    if m.base[0] == 'obj':
                        if key[0] == 'hf':
                            if any(f[3] == key[1] and f[0] == key[2] for f in self.types.fields(m.base[1])):
                                ids.append(m.base[2])
                        continue
                    if m.base[1] != key:
                        continue
                    if m.base[2].kind == 'heap':
                        if m.steps:
                            ids.append(m.steps[0][1])
                        else:
                            full = True
                        continue
                    lo, n, ty = 0, len(v.l), v.ty
                    for st in m.steps:
                        if st[0] != 'f':
                            break
                        a, k, ty, _ = self.types.slice(ty, st[1])
                        lo, n = lo + a, k
                    free |= set(range(lo, lo + n))
                elif m[0] == 'block':
                    if key == ('mem', m[2] if len(m) > 2 else 'double'):
                        ids.append(m[1])
                elif m[0] == 'global':
                    if key == ('g', m[1]):
                        full = True
                elif m[0] == 'key':
                    if key == m[1]:
                        full = True
                elif m[0] == 'family':
                    if key == m[1]:
                        if m[3] is None:
                            full = True
                        else:
                            keep.append(m[3])
                        ids.extend(m[2])
            if full:
                continue
            if key[0] == 'size' or key == ('mem', 'double'):
                ids += list(getattr(con, 'frees', lambda c: [])(Ctx(self, self.entry, self.roots, None, self.entry)))
            gone = {self.alive_name(x): p for x, p in con.destroys(Ctx(self, self.entry, self.roots, None, self.entry)).items()}
            made = {self.alive_name(x) for x in con.creates}
            if key[0] == 'hf' and self.root_class(key[1]) in made and self.root_class(key[1]) in gone:
                keep.append((lambda p: lambda b: Not(p(b)))(gone[self.root_class(key[1])]))
            if key[0] == 'alive':
                x, y, b = v.l[0], o.l[0], z3.Int('b!q')
                dead = gone.get(key[1])
                self.prove('%sonly what is listed is destroyed: %s' % (pre, key[1]), 'frame', z3.ForAll([b], Imp(And(sel(y, b), Not(dead(b))) if dead else sel(y, b), sel(x, b))))
                if key[1] not in made:
                    self.prove('%sonly what is listed is created: %s' % (pre, key[1]), 'frame', z3.ForAll([b], Imp(sel(x, b), sel(y, b))))
                continue
            if key[0] in ('mem', 'size', 'hf', 'box', 'alive'):
                s0 = self.st
                self.st = self.entry
                alive = self.alive_of(key)
                self.st = s0
                b = z3.Int('b!q')
                for i in diff:
                    x, y = v.l[i], o.l[i]
                    # stores at fresh names only need no proof effort beyond freshness
                    self.prove('%sonly what is listed changes: %s' % (pre, '.'.join(map(str, key))), 'frame',
                               z3.ForAll([b], Imp(And(alive(b), *[k(b) for k in keep], *[b != z for z in ids]), sel(x, b) == sel(y, b))))
            else:
                for i in diff:
                    if i not in free:
                        self.prove('%sonly what is listed changes: %s%s' % (pre, key[1], self.types.leaves(v.ty)[i][0]), 'frame', v.l[i] == o.l[i])

    def verify_ctor(self, func, this, args):
        con = self.con
        holder = {}

        def stmt_hook():
            pass
        # run the initialisers and the body in one frame
        orig = self.call_body

        def top_call(f, lv, a, body):
            if f is not func:
                return orig(f, lv, a, body)
            self.nframe += 1
            fr = Frame(func, lv, self.nframe, ())
            for p, x in zip(func.params, a):
                self.bind_param(fr, p, x)
            self.frames.append(fr)
            for i, nm in enumerate(getattr(con, 'params', None) or ()):
                if i < len(func.params):
                    fr.names.setdefault(nm, func.params[i]['id'])
            c = self.ctx()
            for nm, g in con.requires(c):
                self.facts.append(g)
                self.prenames.append(nm)
            for g in con.facts(self):
                self.facts.append(g)
            self.entry_env_fix()
            self.probes.append(('precondition', len(self.facts), T))
            body()
            if not z3.is_false(self.st.pc):
                fr.returns.append((self.st, Val(VOID, [])))
            self.exits(fr)
        self.call_body = top_call
        try:
            self.run_ctor(func, this, args)
        finally:
            self.call_body = orig
