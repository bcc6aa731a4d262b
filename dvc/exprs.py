"""Expression evaluation and models of Python built-ins and of the NumPy/SciPy subset used by the repository."""
import ast, z3
from .values import *
from .vec import *

CONSTS = {'numpy.inf': float('inf'), 'numpy.Inf': float('inf'), 'numpy.nan': float('nan'), 'numpy.NaN': float('nan'), 'numpy.pi': 3.141592653589793, 'math.pi': 3.141592653589793, 'math.inf': float('inf'), 'math.nan': float('nan')}
EXTOBJ = {'sys.float_info.max': 1.7976931348623157e308, 'sys.float_info.eps': 2.220446049250313e-16}
PUREOBJ = ('logging', 'warnings', 'os', 'sys')
CMP = {ast.Lt: 'lt', ast.LtE: 'le', ast.Gt: 'gt', ast.GtE: 'ge', ast.Eq: 'eq', ast.NotEq: 'ne'}


MAY_ALIAS = {'reshape', 'ravel', 'view', 'squeeze', 'transpose', 'swapaxes', 'diagonal', 'atleast_1d', 'atleast_2d', 'asanyarray', 'ascontiguousarray', 'asfarray', 'require', 'flatten_view', 'rollaxis', 'moveaxis', 'expand_dims', 'broadcast_to', 'diag', 'nan_to_num'}
INPLACE = {'copyto', 'put', 'place', 'putmask', 'fill_diagonal', 'put_along_axis', 'shuffle'}
UFUNC_ARGS = dict.fromkeys(['maximum', 'minimum', 'fmax', 'fmin', 'add', 'subtract', 'multiply', 'divide', 'true_divide', 'power', 'hypot'], 2)
UFUNC_ARGS.update(dict.fromkeys(['clip'], 3))
UFUNC_ARGS.update(dict.fromkeys(['abs', 'absolute', 'fabs', 'negative', 'sqrt', 'square', 'exp', 'log', 'sign'], 1))

class Params(object):
    """The ParameterList object: a table key -> value of the documented type."""
    def __eq__(self, o):
        return isinstance(o, Params)

    def __hash__(self):
        return 77


class ExprMixin(object):
    # ------------------------------------------------------------------ entry points
    def ev(self, n, st):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            raise Unsupported('expression %s at %s' % (type(n).__name__, self.where()))
        return m(n, st)

    def e_Constant(self, n, st):
        return n.value if not isinstance(n.value, bytes) else Opq('bytes')

    def e_Name(self, n, st):
        if n.id in st.loc:
            return st.loc[n.id]
        return self.module_name(self.frames[-1][1] if self.frames else None, n.id)

    def module_name(self, mod, name):
        N = self.P.names.get(mod, {})
        v = N.get(name)
        if v is None:
            return Ext('builtins.' + name)
        if v[0] == 'fn':
            return Func(v[1])
        if v[0] == 'cls':
            return Cls(v[1])
        if v[0] == 'ext':
            return Ext(v[1])
        if v[0] == 'constof':
            return self.module_name(v[1], v[2])
        key = (mod, name)
        if key not in self.consts:
            try:
                self.consts[key] = ast.literal_eval(v[1])
            except Exception:
                self.consts[key] = Ext('const.%s.%s' % (mod, name))
        return self.consts[key]

    def e_Attribute(self, n, st):
        o = self.ev(n.value, st)
        r = self.getattr(o, n.attr, st)
        if isinstance(r, Ext):
            if r.name in CONSTS:
                return CONSTS[r.name]
            if r.name in EXTOBJ:
                return EXTOBJ[r.name]
        return r

    def e_Subscript(self, n, st):
        o = self.ev(n.value, st)
        k = self.ev_index(n.slice, st)
        return self.getitem(o, k, st)

    def ev_index(self, n, st):
        if isinstance(n, ast.Slice):
            return Slice(*[self.ev(x, st) if x is not None else None for x in (n.lower, n.upper, n.step)])
        if isinstance(n, ast.Tuple):
            return tuple(self.ev_index(x, st) for x in n.elts)
        return self.ev(n, st)

    def e_Tuple(self, n, st):
        out = []
        for x in n.elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, st)
                if not isinstance(v, tuple):
                    return Opq('tuple')
                out += list(v)
            else:
                out.append(self.ev(x, st))
        return tuple(out)

    def e_List(self, n, st):
        if any(isinstance(x, ast.Starred) for x in n.elts):
            ln = fresh('len', z3.IntSort())
            st.assume(ln >= 0)
            return st.alloc('list', items=None, len=ln)
        return st.alloc('list', items=tuple(self.ev(x, st) for x in n.elts))

    def e_Dict(self, n, st):
        items = {}
        for k, v in zip(n.keys, n.values):
            kk = self.ev(k, st) if k is not None else None
            vv = self.ev(v, st)
            if isinstance(kk, str):
                items[kk] = vv
        return st.alloc('dict', items=items)

    def e_Set(self, n, st):
        for x in n.elts:
            self.ev(x, st)
        return Opq('set')

    def e_JoinedStr(self, n, st):
        return Opq('str')

    def e_Lambda(self, n, st):
        return Closure(n, dict(st.loc), self.frames[-1][1])

    def e_Starred(self, n, st):
        return self.ev(n.value, st)

    def e_NamedExpr(self, n, st):
        v = self.ev(n.value, st)
        self.assign(n.target, v, st)
        return v

    def comp(self, n, st):
        """Comprehension: concrete sources are unrolled, others are evaluated once for their effects."""
        g = n.generators[0]
        it = self.ev_iter(g.iter, st)
        saved = dict(st.loc)
        elt = n.elt if hasattr(n, 'elt') else n.value
        out = []
        if it[0] == 'concrete' and len(it[1]) <= 16 and len(n.generators) == 1 and not g.ifs:
            for v in it[1]:
                self.assign(g.target, v, st)
                out.append(self.ev(elt, st))
        else:
            out = None
            k = fresh('ci', z3.IntSort())
            self.assign(g.target, self.iter_value(it, k, st), st)
            for g2 in n.generators[1:]:
                it2 = self.ev_iter(g2.iter, st)
                self.assign(g2.target, self.iter_value(it2, fresh('ci', z3.IntSort()), st), st)
            for c in g.ifs:
                self.ev(c, st)
            self.ev(elt, st)
        for k in list(st.loc):
            if k not in saved:
                del st.loc[k]
        for k in saved:
            st.loc[k] = saved[k]
        return out

    def e_ListComp(self, n, st):
        o = self.comp(n, st)
        if o is not None:
            return st.alloc('list', items=tuple(o))
        ln = fresh('len', z3.IntSort())
        st.assume(ln >= 0)
        return st.alloc('list', items=None, len=ln)

    def e_GeneratorExp(self, n, st):
        o = self.comp(n, st)
        return Opq('gen') if o is None else st.alloc('list', items=tuple(o))

    def e_SetComp(self, n, st):
        self.comp(n, st)
        return Opq('set')

    def e_DictComp(self, n, st):
        self.comp(n, st)
        return Opq('dict')

    # ------------------------------------------------------------------ iteration
    def ev_iter(self, node, st):
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id == 'range' and 'range' not in st.loc:
            a = [self.as_int(self.ev(x, st), st) for x in node.args]
            if len(a) == 1:
                lo, hi, step = z3.IntVal(0), a[0], 1
            elif len(a) == 2:
                lo, hi, step = a[0], a[1], 1
            else:
                sv = z3.simplify(a[2])
                if not z3.is_int_value(sv):
                    raise Unsupported('range step')
                lo, hi, step = a[0], a[1], sv.as_long()
            l2, h2 = z3.simplify(lo), z3.simplify(hi)
            if z3.is_int_value(l2) and z3.is_int_value(h2) and len(range(l2.as_long(), h2.as_long(), step)) <= 6:
                return ('concrete', list(range(l2.as_long(), h2.as_long(), step)))
            return ('range', lo, hi, step)
        v = self.ev(node, st)
        return self.iter_of(v, st)

    def iter_of(self, v, st):
        if isinstance(v, tuple):
            return ('concrete', list(v))
        if isinstance(v, Ref):
            c = st.heap[v.id]
            if c.cls == 'list':
                if c.f.get('items') is not None:
                    return ('concrete', list(c.f['items']))
                return ('seq', v, self.as_int(c.f['len'], st))
            if c.cls == 'dict':
                return ('opq', v)
            if c.cls == 'ndarray':
                shp = c.f.get('shape')
                if shp:
                    return ('seq', v, self.as_int(shp[0], st))
                return ('opq', v)
        return ('opq', v)

    def iter_value(self, it, i, st):
        if it[0] == 'range':
            return i
        if it[0] == 'seq':
            return self.getitem(it[1], i, st)
        if it[0] == 'concrete':
            o = Opq('it')
            return o if not it[1] or not all(isinstance(x, (int, float)) for x in it[1]) else o
        if isinstance(it[1], tuple) and it[1] and it[1][0] == '$enum':
            return (i, Opq('it'))
        return Opq('it')

    # ------------------------------------------------------------------ operators
    def e_BinOp(self, n, st):
        a = self.ev(n.left, st)
        b = self.ev(n.right, st)
        return self.binop(n.op, a, b, st)

    def binop(self, op, a, b, st, depth=0):
        t = type(op)
        if isinstance(a, str) or isinstance(b, str):
            if isinstance(a, str) and isinstance(b, str) and t is ast.Add:
                return a + b
            if t is ast.Mod and isinstance(a, str):
                return self.strfmt(a, b, st)
            return Opq('str')
        if isinstance(a, tuple) and isinstance(b, tuple) and t is ast.Add:
            return a + b
        for x in (a, b):
            if isinstance(x, tuple):
                return Opq('tuple')
        for x in (a, b):
            if isinstance(x, Ref) and st.heap[x.id].cls == 'list':
                return self.list_binop(t, a, b, st)
        if self.is_arr(a, st) or self.is_arr(b, st):
            return self.arr_binop(t, a, b, st)
        if isinstance(a, Union) or isinstance(b, Union):
            if depth > 3:
                return Opq('bin')
            if isinstance(a, Union):
                return self.umap(a, lambda x: self.binop(op, x, b, st, depth + 1), st)
            return self.umap(b, lambda x: self.binop(op, a, x, st, depth + 1), st)
        if a is None or b is None:
            # TypeError in Python: this path does not continue
            st.assume(False)
            return Opq('dead')
        if isinstance(a, bool) and not isinstance(b, bool):
            a = int(a)
        if isinstance(b, bool) and not isinstance(a, bool):
            b = int(b)
        if is_boolish(a) and is_boolish(b) and t in (ast.BitAnd, ast.BitOr):
            return (band if t is ast.BitAnd else bor)(a, b)
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            try:
                import operator
                f = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv, ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod, ast.Pow: operator.pow}[t]
                return f(a, b)
            except (KeyError, ZeroDivisionError, OverflowError):
                return Opq('bin')
        if isinstance(a, Opq) or isinstance(b, Opq):
            # numeric if the other side is a number and the unknown value was used as a number before
            def num(x):
                if isinstance(x, Opq):
                    return x.cache.get('int') if 'int' in x.cache and 'real' not in x.cache else x.cache.get('real')
                return x if is_num(x) else None
            na, nb = num(a), num(b)
            if na is None or nb is None:
                return Opq('bin')
            a, b = na, nb
        if is_z3(a) and z3.is_bool(a):
            a = self.as_int(a, st)
        if is_z3(b) and z3.is_bool(b):
            b = self.as_int(b, st)
        if not is_num(a) or not is_num(b):
            return Opq('bin')
        ints = all(isinstance(x, int) or (is_z3(x) and z3.is_int(x)) for x in (a, b))
        if ints and t is not ast.Div and t is not ast.Pow:
            x, y = to_z3(a), to_z3(b)
            if t is ast.Add:
                return x + y
            if t is ast.Sub:
                return x - y
            if t is ast.Mult:
                return x * y
            if t in (ast.FloorDiv, ast.Mod):
                if isinstance(b, int) and b > 0:
                    return x / y if t is ast.FloorDiv else x % y
                r = fresh('idiv', z3.IntSort())
                q = fresh('iq', z3.IntSort())
                st.assume(z3.Implies(y > 0, z3.And(x == q * y + r, r >= 0, r < y)))
                return q if t is ast.FloorDiv else r
            return Opq('bin')
        x, y = to_real(a), to_real(b)
        A = self.A
        if t is ast.Add:
            return A.add(x, y)
        if t is ast.Sub:
            return A.sub(x, y)
        if t is ast.Mult:
            return self.spec.rmul(self, st, x, y)
        if t is ast.Div:
            return self.spec.rdiv(self, st, x, y)
        if t is ast.Pow:
            if b == 2:
                return self.spec.rmul(self, st, x, x)
            return z3.Function('powf', R, R, R)(x, y)
        return Opq('bin')

    def strfmt(self, fmt, v, st):
        self.spec.on_format(self, st, fmt, v if isinstance(v, tuple) else (v,))
        vals = v if isinstance(v, tuple) else (v,)
        if all(isinstance(x, (str, int, float)) for x in vals):
            try:
                return fmt % (v if isinstance(v, tuple) else (v,))
            except Exception:
                pass
        return Opq('str')

    def list_binop(self, t, a, b, st):
        ia = st.heap[a.id].f.get('items') if isinstance(a, Ref) and st.heap[a.id].cls == 'list' else None
        ib = st.heap[b.id].f.get('items') if isinstance(b, Ref) and st.heap[b.id].cls == 'list' else None
        if t is ast.Add and ia is not None and ib is not None:
            return st.alloc('list', items=ia + ib)
        n = fresh('len', z3.IntSort())
        st.assume(n >= 0)
        return st.alloc('list', items=None, len=n)

    def vec_of(self, v, st):
        """V-term of an operand of an elementwise operation (scalars broadcast), or None."""
        if self.is_arr(v, st):
            t = self.arr(v, st)
            if t is not None and t.sort() == IV:
                return None
            return t if t is not None and t.sort() == V else None
        if is_num(v):
            return vconst(v)
        if isinstance(v, Opq) and ('real' in v.cache or 'int' in v.cache):
            return vconst(self.as_real(v, st))
        return None

    def shape_join(self, a, b, st):
        for x in (a, b):
            if isinstance(x, Ref):
                s = st.heap[x.id].f.get('shape')
                if s is not None:
                    return s
        return None

    def arr_binop(self, t, a, b, st):
        ta = self.arr(a, st) if self.is_arr(a, st) else None
        tb = self.arr(b, st) if self.is_arr(b, st) else None
        shp = self.shape_join(a, b, st)
        mask = None
        for x in (a, b):
            if isinstance(x, Ref) and 'mask' in st.heap[x.id].f:
                mask = st.heap[x.id].f['mask']
        if t is ast.MatMult:
            return self.np_dot(a, b, st)
        if t in (ast.BitAnd, ast.BitOr) and ta is not None and tb is not None and ta.sort() == BV and tb.sort() == BV:
            return self.newarr(st, (bvand if t is ast.BitAnd else bvor)(ta, tb), shp)
        if self.spec.matrix and t is ast.Mult and ta is not None and tb is not None:
            for x, y in ((ta, tb), (tb, ta)):
                if x.sort() == M and y.sort() == V:
                    return self.newarr(st, mcs(x, y), shp)
        if self.spec.matrix and t is ast.Mult and tb is not None and tb.sort() == M and is_num(a):
            a, b, ta = b, a, tb
        if self.spec.matrix and ta is not None and ta.sort() == M and is_num(b) and t in (ast.Div, ast.Mult):
            w, cc = fresh('msc', M), to_real(self.scal(b, st))
            st.assume(Schem(lambda i: z3.Select(w, i) == (vsdiv(z3.Select(ta, i), cc) if t is ast.Div else vsmul(cc, z3.Select(ta, i))), rows=True))
            return self.newarr(st, w, shp)
        va, vb = self.vec_of(a, st), self.vec_of(b, st)
        if va is None or vb is None:
            tt = ta if ta is not None else tb
            srt = None
            if tt is not None and tt.sort() in (V, M) and t in (ast.Add, ast.Sub, ast.Mult, ast.Div, ast.Pow):
                # unknown operand: same kind of result unless the other operand could be of higher dimension
                oth = b if tt is ta else a
                if is_num(oth) or (self.is_arr(oth, st) and self.arr(oth, st) is not None and self.arr(oth, st).sort() == tt.sort()):
                    srt = tt.sort()
            return self.newarr(st, fresh('bin', srt) if srt is not None else None, shp if srt is not None else None)
        sa, sb = not self.is_arr(a, st), not self.is_arr(b, st)
        r = None
        if t is ast.Add:
            r = vadd(va, vb)
        elif t is ast.Sub:
            r = vsub(va, vb)
        elif t is ast.Mult:
            if sa or sb:
                c, w = (to_real(self.scal(a, st)), vb) if sa else (to_real(self.scal(b, st)), va)
                r = z3.K(z3.IntSort(), self.A.mul(c, w.arg(0))) if z3.is_K(w) else vsmul(c, w)
            else:
                r = vmul(va, vb)
        elif t is ast.Div:
            r = vsdiv(va, to_real(self.scal(b, st))) if sb else vdiv(va, vb)
        elif t is ast.Pow and b == 2:
            r = vmul(va, va)
        if r is None or not self.spec.vec_arith:
            return self.newarr(st, fresh('bin', V), shp)
        o = self.newarr(st, r, shp)
        if mask is not None:
            st.heap[o.id] = st.heap[o.id].put(mask=mask)
        return o

    def scal(self, v, st):
        return self.as_real(v, st)

    def e_UnaryOp(self, n, st):
        v = self.ev(n.operand, st)
        if isinstance(n.op, ast.Not):
            return bnot(self.truth(v, st))
        return self.unary(n.op, v, st)

    def unary(self, op, v, st):
        if isinstance(op, ast.UAdd):
            return v
        if isinstance(op, ast.Invert):
            t = self.arr(v, st)
            if t is not None and t.sort() == BV:
                return self.newarr(st, bvnot(t), st.heap[v.id].f.get('shape') if isinstance(v, Ref) else None)
            return Opq('inv')
        if isinstance(v, (int, float)):
            return -v
        if isinstance(v, Union):
            return self.umap(v, lambda x: self.unary(op, x, st), st)
        if self.is_arr(v, st):
            t = self.arr(v, st)
            shp = st.heap[v.id].f.get('shape') if isinstance(v, Ref) else None
            if t is not None and t.sort() == V:
                o = self.newarr(st, vneg(t) if self.spec.vec_arith else fresh('neg', V), shp)
                if isinstance(v, Ref) and 'mask' in st.heap[v.id].f:
                    st.heap[o.id] = st.heap[o.id].put(mask=st.heap[v.id].f['mask'])
                return o
            return self.newarr(st, fresh('neg', t.sort()) if t is not None else None, shp)
        if is_z3(v) and z3.is_int(v):
            return -v
        if is_z3(v) and z3.is_real(v):
            return self.A.neg(v)
        return Opq('neg')

    # ------------------------------------------------------------------ short circuits
    def branch_eval(self, st, cond, fn):
        """Evaluate fn in st under cond; keep its effects only when cond holds.  -> value"""
        if cond is True:
            return fn(st)
        b = st.copy()
        b.assume(cond)
        k = len(b.pc)
        h0, l0, g0 = b.heap.copy(), dict(b.loc), dict(b.ghost)
        v = fn(b)
        pure = not b.dead and b.ghost == g0 or (not b.dead and all(b.ghost[x] is g0.get(x) for x in b.ghost))
        if pure:
            for n in b.loc:
                if b.loc[n] is not l0.get(n, KeyError):
                    pure = False
                    break
        if pure:
            for i, c in b.heap.items():
                c0 = h0.get(i)
                if c0 is None or c0 is c:
                    continue
                if any(c.f.get(f, KeyError) is not c0.f[f] for f in c0.f):
                    pure = False
                    break
        if pure:
            st.heap = b.heap
            for p in b.pc[k:]:
                if isinstance(p, Schem):
                    st.pc.append(p.under(cond))
                else:
                    st.assume(z3.Implies(cond, p))
            return v
        a = st.copy()
        a.assume(bnot(cond))
        b.loc['$be'] = v
        a.loc['$be'] = False
        if b.dead:
            st.become(a)
            return st.loc.pop('$be')
        m = self.merge([a, b])
        st.become(m)
        st.loc.pop('$be')
        return v if not isinstance(v, z3.ExprRef) else v

    def e_BoolOp(self, n, st):
        isand = isinstance(n.op, ast.And)
        acc = None
        boolean = True
        guard = True
        for k, x in enumerate(n.values):
            if k == 0:
                v = self.ev(x, st)
            else:
                def f(s, x=x):
                    return self.ev(x, s)
                for y in n.values[:k]:
                    pass
                v = self.branch_eval(st, guard, lambda s: self._ev_refined(n.values[:k], x, isand, s))
            if not is_boolish(v):
                boolean = False
            t = self.truth(v, st)
            if acc is None:
                acc, val = t, v
            else:
                if boolean:
                    acc = band(acc, t) if isand else bor(acc, t)
                    val = acc
                else:
                    # value semantics
                    c = acc if isand else bnot(acc)       # evaluated further
                    val = self.mkunion([(c, v), (bnot(c), val)]) if not isinstance(c, bool) else (v if c else val)
                    acc = band(acc, t) if isand else bor(acc, t)
            acc = z3.simplify(acc) if is_z3(acc) and (z3.is_true(z3.simplify(acc)) or z3.is_false(z3.simplify(acc))) else acc
            if is_z3(acc) and z3.is_true(acc):
                acc = True
            if is_z3(acc) and z3.is_false(acc):
                acc = False
            if boolean:
                val = acc
            guard = acc if isand else bnot(acc)
            if guard is False:
                break
            guard = self.known(guard, st)
            if guard is False:
                break
        return val

    def _ev_refined(self, before, x, isand, st):
        saved = dict(st.loc)
        heap0 = dict(st.heap)
        for y in before:
            self.refine(y, isand, st)
        v = self.ev(x, st)
        for nme, o in saved.items():
            if isinstance(o, Union) and nme in st.loc and st.loc[nme] is not o:
                st.loc[nme] = o
        for i, c in heap0.items():
            d = st.heap.get(i)
            if d is not None and d is not c:
                for f, o in c.f.items():
                    if isinstance(o, Union) and d.f.get(f) is not o and not isinstance(d.f.get(f), Union):
                        if any(w is d.f.get(f) for _, w in o.alts):
                            d = d.put(**{f: o})
                st.heap[i] = d
        return v

    def e_IfExp(self, n, st):
        c = self.known(self.truth(self.ev(n.test, st), st), st)
        if c is True:
            return self.ev(n.body, st)
        if c is False:
            return self.ev(n.orelse, st)
        a = self.branch_eval(st, c, lambda s: self._ev_refined([n.test], n.body, True, s))
        b = self.branch_eval(st, bnot(c), lambda s: self._ev_refined([n.test], n.orelse, False, s))
        return self.mval([(c, a), (bnot(c), b)])

    def e_Compare(self, n, st):
        left = self.ev(n.left, st)
        acc = True
        for op, r in zip(n.ops, n.comparators):
            right = self.ev(r, st)
            t = self.compare(op, left, right, st)
            if self.is_arr(t, st) or isinstance(t, Opq) and len(n.ops) == 1:
                return t
            acc = band(acc, self.truth(t, st))
            left = right
        return acc

    def compare(self, op, a, b, st, depth=0):
        t = type(op)
        if t in (ast.Is, ast.IsNot):
            r = self.is_none(a if b is None else b, st) if (a is None or b is None) else self.ident(a, b)
            return bnot(r) if t is ast.IsNot else r
        if t in (ast.In, ast.NotIn):
            r = self.contains(a, b, st)
            return bnot(r) if t is ast.NotIn else r
        if isinstance(a, Union) or isinstance(b, Union):
            if depth > 3:
                return fresh('cmp', z3.BoolSort())
            eqs = t in (ast.Eq, ast.NotEq)
            u, left = (a, True) if isinstance(a, Union) else (b, False)
            alts = []
            ok = []
            for c, x in u.alts:
                if x is None and not eqs:
                    continue
                ok.append(c)
                r = self.compare(op, x, b, st, depth + 1) if left else self.compare(op, a, x, st, depth + 1)
                if self.is_arr(r, st) or isinstance(r, Opq):
                    r = fresh('cmp', z3.BoolSort())
                alts.append((c, r))
            if len(ok) < len(u.alts):
                st.assume(bor(*ok))
            if not alts:
                return fresh('cmp', z3.BoolSort())
            return self.mkunion(alts)
        if isinstance(a, (str, tuple)) or isinstance(b, (str, tuple)) or a is None or b is None:
            if t in (ast.Eq, ast.NotEq):
                if isinstance(a, Opq) or isinstance(b, Opq):
                    return fresh('eq', z3.BoolSort())
                if isinstance(a, tuple) and isinstance(b, tuple):
                    if len(a) != len(b):
                        r = False
                    else:
                        r = band(*[self.truth(self.compare(ast.Eq(), x, y, st), st) for x, y in zip(a, b)]) if a else True
                elif type(a) is type(b):
                    r = a == b
                else:
                    r = False
                return bnot(r) if t is ast.NotEq else r
            return fresh('cmp', z3.BoolSort())
        if self.is_arr(a, st) or self.is_arr(b, st):
            return self.arr_compare(t, a, b, st)
        if isinstance(a, Ref) or isinstance(b, Ref) or isinstance(a, (Func, Cls, Ext, User, Closure)) or isinstance(b, (Func, Cls, Ext, User, Closure)):
            return fresh('cmp', z3.BoolSort())
        if is_boolish(a) and is_boolish(b) and t in (ast.Eq, ast.NotEq):
            r = (a == b) if isinstance(a, bool) and isinstance(b, bool) else to_z3(a) == to_z3(b)
            return bnot(r) if t is ast.NotEq else r
        if isinstance(a, Opq) or isinstance(b, Opq):
            kinds = set()
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Opq) and isinstance(y, Opq):
                    return fresh('cmp', z3.BoolSort())
                if isinstance(x, Opq) and not is_num(y):
                    return fresh('cmp', z3.BoolSort())
            if isinstance(a, Opq):
                a = a.cache.get('int') if 'int' in a.cache and isinstance(b, (int, z3.ArithRef)) and 'real' not in a.cache else self.as_real(a, st)
            if isinstance(b, Opq):
                b = b.cache.get('int') if 'int' in b.cache and isinstance(a, (int, z3.ArithRef)) and 'real' not in b.cache else self.as_real(b, st)
        if is_boolish(a):
            a = self.as_int(a, st)
        if is_boolish(b):
            b = self.as_int(b, st)
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            import operator
            return {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge, ast.Eq: operator.eq, ast.NotEq: operator.ne}[t](a, b)
        if not (is_num(a) and is_num(b)):
            return fresh('cmp', z3.BoolSort())
        ints = all(isinstance(x, int) or (is_z3(x) and z3.is_int(x)) for x in (a, b))
        if ints:
            x, y = to_z3(a), to_z3(b)
            return {ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y, ast.Eq: x == y, ast.NotEq: x != y}[t]
        x, y = to_real(a), to_real(b)
        A = self.A
        if t is ast.Lt:
            return A.lt(x, y)
        if t is ast.LtE:
            return A.le(x, y)
        if t is ast.Gt:
            return A.lt(y, x)
        if t is ast.GtE:
            return A.le(y, x)
        if t is ast.Eq:
            return A.eq(x, y)
        return z3.Not(A.eq(x, y))

    def arr_compare(self, t, a, b, st):
        ta = self.arr(a, st) if self.is_arr(a, st) else None
        tb = self.arr(b, st) if self.is_arr(b, st) else None
        shp = self.shape_join(a, b, st)

        def mk(le, lt, eq, x, y):
            return {ast.Lt: lambda: lt(x, y), ast.LtE: lambda: le(x, y), ast.Gt: lambda: lt(y, x), ast.GtE: lambda: le(y, x), ast.Eq: lambda: eq(x, y), ast.NotEq: lambda: bvnot(eq(x, y))}[t]()
        if t not in CMP:
            return self.newarr(st, None, None)
        if (ta is not None and ta.sort() == IV) or (tb is not None and tb.sort() == IV):
            def iv(v, tt):
                if tt is not None:
                    return tt if tt.sort() == IV else None
                return z3.K(I, to_z3(v)) if isinstance(v, int) or (is_z3(v) and z3.is_int(v)) else None
            x, y = iv(a, ta), iv(b, tb)
            if x is not None and y is not None:
                return self.newarr(st, mk(ibvle, ibvlt, ibveq, x, y), shp)
            return self.newarr(st, fresh('cmp', BV), shp)
        x, y = self.vec_of(a, st), self.vec_of(b, st)
        if x is not None and y is not None:
            return self.newarr(st, mk(bvle, bvlt, bveq, x, y), shp)
        tt = ta if ta is not None else tb
        return self.newarr(st, fresh('cmp', BV) if tt is not None and tt.sort() == V else None, shp)

    def is_none(self, v, st):
        if v is None:
            return True
        if isinstance(v, Union):
            return bor(*[band(c, self.is_none(x, st)) for c, x in v.alts])
        if isinstance(v, Opq):
            return v.const('none')
        return False

    def ident(self, a, b):
        if isinstance(a, Opq) or isinstance(b, Opq) or isinstance(a, Union) or isinstance(b, Union) or is_z3(a) or is_z3(b):
            return fresh('is', z3.BoolSort())
        return self.same(a, b)

    def contains(self, a, b, st):
        if isinstance(b, str) and isinstance(a, str):
            return a in b
        if isinstance(b, Union):
            return bor(*[band(c, self.contains(a, x, st)) for c, x in b.alts if x is not None])
        items = None
        if isinstance(b, tuple):
            items = b
        elif isinstance(b, Ref) and st.heap[b.id].cls == 'list':
            items = st.heap[b.id].f.get('items')
        elif isinstance(b, Ref) and st.heap[b.id].cls == 'dict' and isinstance(a, str):
            return fresh('in', z3.BoolSort()) if st.heap[b.id].f.get('open') else a in st.heap[b.id].f.get('items', {})
        if items is None and isinstance(b, Ref) and st.heap[b.id].cls == 'list' and 'mem' in st.heap[b.id].f and (isinstance(a, int) or (is_z3(a) and z3.is_int(a))):
            return z3.Select(st.heap[b.id].f['mem'], to_z3(a))
        if items is not None and len(items) <= 40:
            return bor(*[self.truth(self.compare(ast.Eq(), a, x, st), st) for x in items])
        return fresh('in', z3.BoolSort())

    # ------------------------------------------------------------------ calls
    def e_Call(self, n, st):
        f = self.ev(n.func, st)
        args, kw = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st)
                if isinstance(v, tuple):
                    args += list(v)
                else:
                    args.append(Opq('star'))
            else:
                args.append(self.ev(a, st))
        for k in n.keywords:
            v = self.ev(k.value, st)
            if k.arg is None:
                kw['**'] = v
            else:
                kw[k.arg] = v
        if st.dead:
            return Opq('dead')
        return self.call_value(f, args, kw, st, n)

    def call_value(self, f, args, kw, st, n=None):
        if isinstance(f, Func):
            if f.selfv is not None and isinstance(f.selfv, Union):
                return self.call_union([(c, Func(f.q, x)) for c, x in f.selfv.alts], args, kw, st, n)
            fn = self.P.fns[f.q]
            selfv = f.selfv
            if fn.cls and not fn.static and selfv is None and args:
                selfv, args = args[0], args[1:]
            return self.call_repo(f.q, selfv, args, kw, st, n)
        if isinstance(f, Cls):
            return self.construct(f.q, args, kw, st, n)
        if isinstance(f, Closure):
            return self.call_closure(f, args, kw, st)
        if isinstance(f, User):
            self.exc_point(st, f.name)
            return self.spec.user_call(self, st, f, args, kw)
        if isinstance(f, Params):
            return self.spec.params_call(self, st, args, kw)
        if isinstance(f, Union):
            alts = [(c, x) for c, x in f.alts if x is not None]
            if len(alts) < len(f.alts):
                st.assume(bor(*[c for c, _ in alts]))
            if len(alts) == 1:
                return self.call_value(alts[0][1], args, kw, st, n)
            return self.call_union(alts, args, kw, st, n)
        if isinstance(f, Ext):
            self.exc_point(st, f.name)
            return self.call_ext(f.name, args, kw, st, n)
        if isinstance(f, BoundM):
            self.exc_point(st, f.name)
            return self.call_method(f.selfv, f.name, args, kw, st, n)
        if isinstance(f, Opq):
            self.exc_point(st, 'opq')
            return self.spec.opaque_call(self, st, f, args, kw)
        if isinstance(f, Ref):
            q = self.P.classes.get(st.heap[f.id].cls, {}).get('__call__')
            if q:
                return self.call_repo(q, f, args, kw, st, n)
        raise Unsupported('call of %r' % (f,))

    def call_union(self, alts, args, kw, st, n):
        outs = []
        for c, x in alts:
            b = st.copy()
            b.assume(c)
            v = self.call_value(x, args, kw, b, n)
            if b.dead:
                continue
            b.loc['$cu'] = v
            outs.append(b)
        m = self.merge(outs)
        if m is None:
            st.dead = True
            return Opq('dead')
        st.become(m)
        return st.loc.pop('$cu')

    def call_closure(self, f, args, kw, st):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = dict(f.env)
        if len(args) > len(names) and not a.vararg:
            raise Unsupported('closure arity')
        for p, v in zip(names, args):
            env[p] = v
        if a.vararg:
            env[a.vararg.arg] = tuple(args[len(names):])
        for k, v in kw.items():
            env[k] = v
        ds = a.defaults
        for p, d in zip(names[len(names) - len(ds):], ds):
            if p not in env or (p in f.env and p not in names[:len(args)] and p not in kw):
                env[p] = self.ev(d, st)
        if len(self.frames) > 24:
            raise Unsupported('closure recursion')

        class F(object):
            pass
        fo = F()
        fo.q = f.name
        fo.mod = f.mod
        saved = st.loc
        st.stack = st.stack + [saved]
        st.loc = env
        self.frames.append((fo, f.mod))
        try:
            if isinstance(f.node, ast.Lambda):
                v = self.ev(f.node.body, st)
                st.loc = saved
                st.stack = st.stack[:-1]
                return v
            out = self.block(f.node.body, st)
            return self.finish_call(st, out, saved)
        finally:
            self.frames.pop()

    def construct(self, q, args, kw, st, n):
        r = self.spec.construct(self, q, args, kw, st)
        if r is not NotImplemented:
            return r
        o = st.alloc(q)
        init = self.P.classes.get(q, {}).get('__init__')
        if init:
            self.call_repo(init, o, args, kw, st, n)
        return o

    # ------------------------------------------------------------------ external functions
    def call_ext(self, name, args, kw, st, n):
        root = name.split('.')[0]
        if any(isinstance(a, User) and a.name in self.spec.tracked_calls for a in list(args) + list(kw.values())) and root not in ('builtins',):
            raise Unsupported('user function passed to %s' % name)
        h = self.spec.ext_call(self, name, args, kw, st)
        if h is not NotImplemented:
            self.ext_writes(name, args, kw, st)
            return h
        if root == 'numpy' and (kw.get('out') is not None or name.split('.')[-1] in INPLACE or len(args) > UFUNC_ARGS.get(name.split('.')[-1], 99)):
            self.ext_writes(name, args, kw, st)
            o = kw.get('out', args[0] if name.split('.')[-1] in INPLACE and args else args[-1] if args else None)
            return o if self.is_arr(o, st) else Opq(name.split('.')[-1])
        if root == 'numpy' and name.split('.')[-1] in MAY_ALIAS and args and isinstance(args[0], Ref) and self.is_arr(args[0], st):
            return self.alias_of(args[0], st)
        short = name.replace('builtins.', 'b_').replace('numpy.linalg.', 'npl_').replace('numpy.', 'np_').replace('scipy.linalg.', 'la_').replace('math.', 'm_').replace('.', '_')
        m = getattr(self, 'x_' + short, None)
        if m is not None:
            return m(args, kw, st)
        if name.startswith('numpy.random') or name.startswith('random.'):
            self.spec.on_global_rng(self, st, name)
        if root in ('logging', 'warnings'):
            return None
        if name.startswith('const.') and 'logger' in name:
            return None
        if name.startswith('builtins.') and (name.endswith('Error') or name.endswith('Exception') or name.endswith('Warning')):
            return Opq('exc')
        return Opq(name.split('.')[-1])

    def ext_writes(self, name, args, kw, st):
        """arrays a NumPy function writes into"""
        short = name.split('.')[-1]
        w = [kw.get('out')] + (list(args[:1]) if short in INPLACE else []) + list(args[UFUNC_ARGS.get(short, 99):])
        for o in w:
            for x in ([y for _, y in o.alts] if isinstance(o, Union) else o if isinstance(o, tuple) else [o]):
                if isinstance(x, Ref) and self.is_arr(x, st):
                    self.set_array(st, x, None)

    def alias_of(self, o, st):
        r = self.newarr(st, None, None)
        st.heap[r.id] = st.heap[r.id].put(alias=o)
        return r

    def lst_items(self, v, st):
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, Ref) and st.heap[v.id].cls == 'list':
            it = st.heap[v.id].f.get('items')
            return None if it is None else list(it)
        return None

    def x_b_len(self, a, kw, st):
        v = a[0]
        if isinstance(v, (tuple, str)):
            return len(v)
        if isinstance(v, Ref):
            c = st.heap[v.id]
            if c.cls == 'list':
                if c.f.get('items') is not None:
                    return len(c.f['items'])
                return c.f['len']
            if c.cls == 'ndarray':
                shp = self.arr_attr(v, c, 'shape', st)
                if isinstance(shp, tuple):
                    return shp[0]
        if isinstance(v, Union):
            return self.umap(v, lambda x: self.x_b_len([x], kw, st), st)
        r = fresh('len', z3.IntSort())
        st.assume(r >= 0)
        return r

    def x_b_range(self, a, kw, st):
        vs = [self.as_int(x, st) for x in a]
        n = vs[0] if len(vs) == 1 else z3.If(vs[1] > vs[0], vs[1] - vs[0], 0)
        return st.alloc('list', items=None, len=n)

    def minmax(self, a, kw, st, ismin):
        if len(a) == 1:
            it = self.lst_items(a[0], st)
            if it is None:
                t = self.arr(a[0], st)
                return Opq('minmax') if t is None or t.sort() != IV else fresh('minmax', z3.IntSort())
            a = it
        acc = a[0]
        for x in a[1:]:
            acc = self.min2(acc, x, st, ismin)
        return acc

    def min2(self, x, y, st, ismin):
        if isinstance(x, Union):
            return self.umap(x, lambda u: self.min2(u, y, st, ismin), st)
        if isinstance(y, Union):
            return self.umap(y, lambda u: self.min2(x, u, st, ismin), st)
        if isinstance(x, (int, float)) and isinstance(y, (int, float)):
            return min(x, y) if ismin else max(x, y)
        if is_boolish(x):
            x = self.as_int(x, st)
        if is_boolish(y):
            y = self.as_int(y, st)

        def isi(v):
            return isinstance(v, int) or (is_z3(v) and z3.is_int(v)) or (isinstance(v, Opq) and 'int' in v.cache and 'real' not in v.cache)
        if isi(x) and isi(y):
            p, q = self.as_int(x, st), self.as_int(y, st)
            return z3.If(q < p, q, p) if ismin else z3.If(q > p, q, p)
        if isinstance(x, Opq) and not x.cache or isinstance(y, Opq) and not y.cache:
            o, z = (x, y) if isinstance(x, Opq) and not x.cache else (y, x)
            if isi(z) and self.spec.opq_int(o):
                return self.min2(o.const('int') if o is x else x, o.const('int') if o is y else y, st, ismin)
        p, q = self.as_real(x, st), self.as_real(y, st)
        return (self.A.pymin if ismin else self.A.pymax)(p, q)

    def x_b_min(self, a, kw, st):
        return self.minmax(a, kw, st, True)

    def x_b_max(self, a, kw, st):
        return self.minmax(a, kw, st, False)

    def x_b_abs(self, a, kw, st):
        v = a[0]
        if isinstance(v, (int, float)):
            return abs(v)
        if self.is_arr(v, st):
            return self.x_np_abs(a, kw, st)
        if isinstance(v, Union):
            return self.umap(v, lambda x: self.x_b_abs([x], kw, st), st)
        if is_z3(v) and z3.is_int(v):
            return z3.If(v >= 0, v, -v)
        return self.A.abs(self.as_real(v, st))

    def x_b_int(self, a, kw, st):
        if not a:
            return 0
        v = a[0]
        if isinstance(v, (int, float)) and v == v and abs(v) < 1e300:
            return int(v)
        if is_z3(v) and z3.is_int(v):
            return v
        if is_boolish(v):
            return self.as_int(v, st)
        if isinstance(v, Opq) and 'int' in v.cache:
            return v.cache['int']
        if isinstance(v, Union):
            return self.umap(v, lambda x: self.x_b_int([x], kw, st), st)
        if is_z3(v) and z3.is_real(v):
            return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v)) if self.A.name == 'real' else fresh('int', z3.IntSort())
        return fresh('int', z3.IntSort())

    def x_b_float(self, a, kw, st):
        v = a[0]
        if isinstance(v, str):
            try:
                return float(v)
            except ValueError:
                return Opq('float')
        if isinstance(v, (int, float)):
            return float(v)
        if isinstance(v, Union):
            return self.umap(v, lambda x: self.x_b_float([x], kw, st), st)
        return self.as_real(v, st)

    def x_b_bool(self, a, kw, st):
        return self.truth(a[0], st)

    def x_b_str(self, a, kw, st):
        return a[0] if isinstance(a[0], str) else Opq('str')

    def x_b_list(self, a, kw, st):
        if not a:
            return st.alloc('list', items=())
        it = self.lst_items(a[0], st)
        if it is not None:
            return st.alloc('list', items=tuple(it))
        r = self.spec.copy_list(self, st, a[0])
        if r is not NotImplemented:
            return r
        n = self.x_b_len(a, kw, st)
        f = dict(items=None, len=self.as_int(n, st))
        if isinstance(a[0], Ref):
            c = st.heap[a[0].id]
            if c.cls == 'list' and 'mem' in c.f:
                f['mem'] = c.f['mem']
            elif c.cls == 'ndarray' and 'idxmask' in c.f:
                m, ln = c.f['idxmask']
                mem = fresh('mem', BV)
                st.assume(Schem(lambda i: z3.Select(mem, i) == z3.And(i >= 0, i < ln, z3.Select(m, i)), rows=True))
                f['mem'] = mem
        return st.alloc('list', **f)

    def x_b_tuple(self, a, kw, st):
        it = self.lst_items(a[0], st) if a else []
        return tuple(it) if it is not None else Opq('tuple')

    def x_b_print(self, a, kw, st):
        return None

    def x_b_isinstance(self, a, kw, st):
        return fresh('isinst', z3.BoolSort())

    def x_b_enumerate(self, a, kw, st):
        it = self.lst_items(a[0], st)
        if it is not None:
            return tuple((i, x) for i, x in enumerate(it))
        return Opq('enum')

    def x_b_zip(self, a, kw, st):
        its = [self.lst_items(x, st) for x in a]
        if all(i is not None for i in its):
            return tuple(zip(*its))
        return Opq('zip')

    def x_b_all(self, a, kw, st):
        it = self.lst_items(a[0], st)
        if it is not None:
            return band(*[self.truth(x, st) for x in it])
        return fresh('all', z3.BoolSort())

    def x_b_any(self, a, kw, st):
        it = self.lst_items(a[0], st)
        if it is not None:
            return bor(*[self.truth(x, st) for x in it])
        return fresh('any', z3.BoolSort())

    def x_b_dict(self, a, kw, st):
        return st.alloc('dict', items=dict(kw))

    def x_b_type(self, a, kw, st):
        return Opq('type')

    # math
    def x_m_sqrt(self, a, kw, st):
        v = a[0]
        if isinstance(v, (int, float)) and v >= 0:
            import math
            return math.sqrt(v) if v not in (0, 1) else float(v)
        if isinstance(v, Opq) and not v.cache:
            return Opq('sqrt')
        x = self.as_real(v, st)
        if self.A.name == 'real':
            st.assume(x >= 0)          # otherwise math.sqrt raises
        return self.A.sqrt(x)

    def x_np_sqrt(self, a, kw, st):
        v = a[0]
        if self.is_arr(v, st):
            t = self.arr(v, st)
            return self.newarr(st, fresh('sqrt', t.sort()) if t is not None else None, st.heap[v.id].f.get('shape') if isinstance(v, Ref) else None)
        if isinstance(v, Opq) and not v.cache:
            return Opq('sqrt')
        if isinstance(v, (int, float)) and v >= 0:
            import math
            return math.sqrt(v)
        x = self.as_real(v, st)
        return self.A.sqrt(x)

    def x_m_isnan(self, a, kw, st):
        return self.x_np_isnan(a, kw, st)

    def x_m_isinf(self, a, kw, st):
        x = self.as_real(a[0], st)
        return z3.And(z3.Not(self.A.isfinite(x)), z3.Not(self.A.isnan(x)))

    def x_m_log(self, a, kw, st):
        return fresh('log', z3.RealSort())

    # numpy constructors
    def np_fill(self, a, kw, st, val):
        shp = a[0]
        if isinstance(shp, Ref):
            it = self.lst_items(shp, st)
            shp = tuple(it) if it is not None else Opq('shape')
        isint = any(isinstance(x, Ext) and x.name in ('builtins.int', 'numpy.int64', 'numpy.int32') for x in list(a[1:]) + list(kw.values()))
        isbool = any(isinstance(x, Ext) and x.name in ('builtins.bool', 'numpy.bool_') for x in list(a[1:]) + list(kw.values()))
        if is_num(shp) or isinstance(shp, Opq) and 'int' in shp.cache:
            shp = (shp,)
        if isinstance(shp, tuple) and len(shp) == 1:
            if isint:
                t = z3.K(I, z3.IntVal(val))
            elif isbool:
                t = z3.K(I, z3.BoolVal(bool(val)))
            else:
                t = vconst(val)
            return self.newarr(st, t, shp)
        if isinstance(shp, tuple) and len(shp) == 2 and not isint and not isbool:
            return self.newarr(st, z3.K(I, vconst(val)), shp)
        return self.newarr(st, None, None)

    def x_np_zeros(self, a, kw, st):
        return self.np_fill(a, kw, st, 0)

    def x_np_ones(self, a, kw, st):
        return self.np_fill(a, kw, st, 1)

    def x_np_empty(self, a, kw, st):
        r = self.np_fill(a, kw, st, 0)
        t = st.heap[r.id].f.get('val')
        if t is not None:
            st.heap[r.id] = st.heap[r.id].put(val=fresh('empty', t.sort()))
        return r

    def x_np_zeros_like(self, a, kw, st):
        t = self.arr(a[0], st)
        shp = st.heap[a[0].id].f.get('shape') if isinstance(a[0], Ref) else None
        return self.newarr(st, ZERO if t is not None and t.sort() == V else None, shp)

    def x_np_full(self, a, kw, st):
        r = self.np_fill(a[:1], kw, st, 0)
        t = st.heap[r.id].f.get('val')
        if t is not None and t.sort() == V and is_num(a[1]):
            st.heap[r.id] = st.heap[r.id].put(val=vconst(a[1]))
        elif t is not None:
            st.heap[r.id] = st.heap[r.id].put(val=fresh('full', t.sort()))
        return r

    def x_np_array(self, a, kw, st):
        v = a[0]
        if self.is_arr(v, st):
            return self.copy_arr(v, st)
        it = self.lst_items(v, st)
        isint = any(isinstance(x, Ext) and x.name == 'builtins.int' for x in list(a[1:]) + list(kw.values()))
        if it is not None and all(is_num(x) for x in it):
            t = z3.K(I, z3.IntVal(0)) if isint else ZERO
            for k, x in enumerate(it):
                t = z3.Store(t, k, to_z3(x) if isint else to_real(x))
            return self.newarr(st, t, (len(it),))
        return self.newarr(st, None, None)

    def x_np_asarray(self, a, kw, st):
        return a[0] if self.is_arr(a[0], st) else self.x_np_array(a, kw, st)

    def x_np_arange(self, a, kw, st):
        if len(a) == 1 and (isinstance(a[0], int) or (is_z3(a[0]) and z3.is_int(a[0]))):
            t = fresh('arange', IV)
            st.assume(Schem(lambda i, t=t: z3.Select(t, i) == i))
            return self.newarr(st, t, (a[0],))
        return self.newarr(st, None, None)

    def copy_arr(self, v, st):
        if isinstance(v, Union):
            t = self.arr(v, st)
            return self.newarr(st, t, None)
        c = st.heap[v.id]
        o = self.newarr(st, self.arr(v, st), c.f.get('shape'))
        if 'mask' in c.f:
            st.heap[o.id] = st.heap[o.id].put(mask=c.f['mask'])
        return o

    def x_np_copy(self, a, kw, st):
        return self.copy_arr(a[0], st) if self.is_arr(a[0], st) else Opq('copy')

    # elementwise
    def elementwise2(self, a, st, fv, fs):
        x, y = a[0], a[1]
        if self.is_arr(x, st) or self.is_arr(y, st):
            vx, vy = self.vec_of(x, st), self.vec_of(y, st)
            shp = self.shape_join(x, y, st)
            return self.newarr(st, fv(vx, vy) if vx is not None and vy is not None and self.spec.vec_arith else fresh('ew', V) if vx is not None and vy is not None or any(self.arr(z, st) is not None and self.arr(z, st).sort() == V for z in (x, y)) else None, shp)
        if (isinstance(x, Opq) and not x.cache) or (isinstance(y, Opq) and not y.cache):
            return Opq('ew')
        return fs(self.as_real(x, st), self.as_real(y, st))

    def x_np_minimum(self, a, kw, st):
        return self.elementwise2(a, st, vmin, self.A.npmin)

    def x_np_maximum(self, a, kw, st):
        return self.elementwise2(a, st, vmax, self.A.npmax)

    def x_np_fmin(self, a, kw, st):
        return self.elementwise2(a, st, lambda x, y: fresh('fmin', V), lambda x, y: fresh('fmin', R))

    def x_np_fmax(self, a, kw, st):
        return self.elementwise2(a, st, lambda x, y: fresh('fmax', V), lambda x, y: fresh('fmax', R))

    def x_np_clip(self, a, kw, st):
        if len(a) == 3:
            m = self.x_np_maximum([a[0], a[1]], {}, st)
            return self.x_np_minimum([m, a[2]], {}, st)
        return Opq('clip')

    def x_np_add(self, a, kw, st):
        return self.binop(ast.Add(), a[0], a[1], st)

    def x_np_subtract(self, a, kw, st):
        return self.binop(ast.Sub(), a[0], a[1], st)

    def x_np_multiply(self, a, kw, st):
        return self.binop(ast.Mult(), a[0], a[1], st)

    def ew1(self, a, st, f, res):
        v = a[0]
        if self.is_arr(v, st):
            t = self.arr(v, st)
            shp = st.heap[v.id].f.get('shape') if isinstance(v, Ref) else None
            if t is not None and t.sort() == V:
                return self.newarr(st, f(t), shp)
            return self.newarr(st, None if t is None or t.sort() != M else None, shp)
        return None

    def x_np_abs(self, a, kw, st):
        r = self.ew1(a, st, vabs, V)
        return r if r is not None else (self.x_b_abs(a, kw, st) if not (isinstance(a[0], Opq) and not a[0].cache) else Opq('abs'))

    def x_np_absolute(self, a, kw, st):
        return self.x_np_abs(a, kw, st)

    def x_np_isnan(self, a, kw, st):
        r = self.ew1(a, st, bvnan, BV)
        if r is not None:
            return r
        if isinstance(a[0], Union):
            return self.umap(a[0], lambda x: self.x_np_isnan([x], kw, st), st)
        if isinstance(a[0], Opq) and not a[0].cache:
            return self.newarr(st, None, None) if False else a[0].const('real') == NAN if self.A.name == 'order' else fresh('isnan', z3.BoolSort())
        return self.A.isnan(self.as_real(a[0], st))

    def x_np_isfinite(self, a, kw, st):
        r = self.ew1(a, st, bvfin, BV)
        if r is not None:
            return r
        if isinstance(a[0], Union):
            return self.umap(a[0], lambda x: self.x_np_isfinite([x], kw, st), st)
        if isinstance(a[0], Opq) and not a[0].cache:
            return fresh('isfin', z3.BoolSort())
        return self.A.isfinite(self.as_real(a[0], st))

    def x_np_isinf(self, a, kw, st):
        return fresh('isinf', z3.BoolSort()) if not self.is_arr(a[0], st) else self.newarr(st, None)

    def bvec2(self, a, st, f):
        x, y = self.arr(a[0], st), self.arr(a[1], st)
        if x is not None and y is not None and x.sort() == BV and y.sort() == BV:
            return self.newarr(st, f(x, y), self.shape_join(a[0], a[1], st))
        return self.newarr(st, None, None)

    def x_np_logical_or(self, a, kw, st):
        return self.bvec2(a, st, bvor)

    def x_np_logical_and(self, a, kw, st):
        return self.bvec2(a, st, bvand)

    def x_np_logical_not(self, a, kw, st):
        x = self.arr(a[0], st)
        if x is not None and x.sort() == BV:
            return self.newarr(st, bvnot(x), st.heap[a[0].id].f.get('shape') if isinstance(a[0], Ref) else None)
        return self.newarr(st, None, None)

    # reductions
    def quant(self, a, st, isany):
        v = a[0]
        t = self.arr(v, st) if self.is_arr(v, st) else None
        if t is None or t.sort() != BV:
            if is_boolish(v):
                return v
            return fresh('anyall', z3.BoolSort())
        shp = st.heap[v.id].f.get('shape') if isinstance(v, Ref) else None
        n = self.as_int(shp[0], st) if shp else None
        b = fresh('any' if isany else 'all', z3.BoolSort())
        w = fresh('w', I)
        inr = z3.And(w >= 0, w < n) if n is not None else z3.BoolVal(True)

        def rng(i):
            return z3.And(i >= 0, i < n) if n is not None else z3.BoolVal(False)
        if isany:
            st.assume(z3.Implies(b, z3.And(inr, z3.Select(t, w))))
            st.assume(Schem(lambda i: z3.Implies(z3.And(z3.Not(b), rng(i)), z3.Not(z3.Select(t, i)))))
        else:
            st.assume(z3.Implies(z3.Not(b), z3.And(inr, z3.Not(z3.Select(t, w)))))
            st.assume(Schem(lambda i: z3.Implies(z3.And(b, rng(i)), z3.Select(t, i))))
        return b

    def x_np_any(self, a, kw, st):
        return self.quant(a, st, True)

    def x_np_all(self, a, kw, st):
        return self.quant(a, st, False)

    def vlen(self, v, st):
        shp = st.heap[v.id].f.get('shape') if isinstance(v, Ref) else None
        return self.as_int(shp[0], st) if shp else None

    def x_np_max(self, a, kw, st, fn=vamax):
        v = a[0]
        it = self.lst_items(v, st)
        if it is not None:
            acc = it[0]
            for x in it[1:]:
                acc = (self.A.npmax if fn is vamax else self.A.npmin)(self.as_real(acc, st), self.as_real(x, st))
            return acc
        t = self.arr(v, st) if self.is_arr(v, st) else None
        n = self.vlen(v, st) if t is not None else None
        if t is not None and t.sort() == V and n is not None and not kw:
            if self.A.name == 'order' and fn is vamin:
                return fresh('min', R)
            return fn(t, n)
        if kw or len(a) > 1:
            return self.newarr(st, None, None)
        return fresh('max', R)

    def x_np_min(self, a, kw, st):
        return self.x_np_max(a, kw, st, vamin)

    def x_np_amax(self, a, kw, st):
        return self.x_np_max(a, kw, st)

    def x_np_amin(self, a, kw, st):
        return self.x_np_min(a, kw, st)

    def x_np_sum(self, a, kw, st):
        v = a[0]
        t = self.arr(v, st) if self.is_arr(v, st) else None
        if kw or len(a) > 1:
            return self.newarr(st, None, None)
        if t is not None and t.sort() == V:
            return summ(t)
        if t is not None and t.sort() in (IV, BV):
            r = fresh('isum', z3.IntSort())
            if t.sort() == BV:
                st.assume(r >= 0)
                n = self.vlen(v, st)
                if n is not None:
                    st.assume(r <= n)
            return r
        return fresh('sum', R)

    def x_np_mean(self, a, kw, st):
        v = a[0]
        t = self.arr(v, st) if self.is_arr(v, st) else None
        if t is not None and t.sort() == M and (kw.get('axis') == 0 or a[1:] == [0]):
            shp = st.heap[v.id].f.get('shape') if isinstance(v, Ref) else None
            if shp:
                return self.newarr(st, meanrows(t, self.as_int(shp[0], st)), (shp[1],))
            return self.newarr(st, fresh('mean', V), None)
        return self.newarr(st, None, None) if kw or len(a) > 1 else fresh('mean', R)

    def argm(self, a, kw, st, ismax):
        v = a[0]
        r = fresh('arg', I)
        t = self.arr(v, st) if self.is_arr(v, st) else None
        n = self.vlen(v, st) if t is not None else None
        st.assume(r >= 0)
        if n is not None:
            st.assume(r < n)       # an empty array raises
            if t.sort() == V:
                A = self.A
                if A.name == 'real':
                    st.assume(Schem(lambda i: z3.Implies(z3.And(i >= 0, i < n), (z3.Select(t, i) <= z3.Select(t, r)) if ismax else (z3.Select(t, i) >= z3.Select(t, r)))))
                else:
                    # NumPy returns the first NaN if there is one
                    st.assume(Schem(lambda i: z3.Implies(z3.And(i >= 0, i < n), z3.Or(z3.Select(t, r) == NAN, z3.And(z3.Select(t, i) != NAN, (z3.Select(t, i) <= z3.Select(t, r)) if ismax else (z3.Select(t, i) >= z3.Select(t, r)))))))
        return r

    def x_np_argmax(self, a, kw, st):
        return self.argm(a, kw, st, True)

    def x_np_argmin(self, a, kw, st):
        return self.argm(a, kw, st, False)

    def x_np_dot(self, a, kw, st):
        return self.np_dot(a[0], a[1], st)

    def np_dot(self, x, y, st):
        ax, ay = self.is_arr(x, st), self.is_arr(y, st)
        if not ax and not ay:
            if is_num(x) and is_num(y):
                return self.binop(ast.Mult(), x, y, st)
            return Opq('dot')
        if not ax or not ay:
            # scalar times array
            if is_num(x) or is_num(y) or (isinstance(x, Opq) and x.cache) or (isinstance(y, Opq) and y.cache):
                return self.arr_binop(ast.Mult, x, y, st)
            return Opq('dot')
        tx, ty = self.arr(x, st), self.arr(y, st)
        if tx is not None and ty is not None:
            if tx.sort() == V and ty.sort() == V:
                mx = st.heap[x.id].f.get('mask') if isinstance(x, Ref) else None
                return self.A_dot(tx, ty)
            if tx.sort() == M and ty.sort() == V:
                shp = st.heap[x.id].f.get('shape') if isinstance(x, Ref) else None
                return self.newarr(st, mv(tx, ty), (shp[0],) if shp else None)
            if self.spec.matrix and tx.sort() == M and ty.sort() == M:
                s1, s2 = (st.heap[v.id].f.get('shape') if isinstance(v, Ref) else None for v in (x, y))
                return self.newarr(st, mm(tx, ty), (s1[0], s2[1]) if isinstance(s1, tuple) and isinstance(s2, tuple) and len(s1) == 2 and len(s2) == 2 else None)
        return Opq('dot')

    def A_dot(self, a, b):
        return mkdot(a, b)

    def x_npl_norm(self, a, kw, st):
        v = a[0]
        t = self.arr(v, st) if self.is_arr(v, st) else None
        if t is not None and t.sort() == V and not kw and len(a) == 1:
            return Sqrt(mkdot(t, t))
        r = fresh('norm', R)
        if self.A.name == 'real':
            st.assume(r >= 0)
        return r

    def x_la_norm(self, a, kw, st):
        return self.x_npl_norm(a, kw, st)

    def x_np_append(self, a, kw, st):
        x, y = a[0], a[1]
        tx = self.arr(x, st) if self.is_arr(x, st) else None
        shp = st.heap[x.id].f.get('shape') if isinstance(x, Ref) and st.heap[x.id].cls == 'ndarray' else None
        if tx is not None and shp is not None:
            n = self.as_int(shp[0], st)
            if tx.sort() in (V, IV) and not kw and (is_num(y) or isinstance(y, Opq)):
                return self.newarr(st, z3.Store(tx, n, self.coerce_to(tx.sort(), y, st)), (n + 1,))
            if tx.sort() == M and isinstance(y, Ref) and st.heap[y.id].f.get('rowof') is not None and kw.get('axis') == 0:
                return self.newarr(st, z3.Store(tx, n, st.heap[y.id].f['rowof']), (n + 1, shp[1]))
        if tx is not None:
            return self.newarr(st, fresh('append', tx.sort()), None)
        return self.newarr(st, None, None)

    def x_np_where(self, a, kw, st):
        if len(a) == 3:
            m = self.arr(a[0], st) if self.is_arr(a[0], st) else None
            x, y = self.vec_of(a[1], st), self.vec_of(a[2], st)
            if m is not None and m.sort() == BV and x is not None and y is not None:
                return self.newarr(st, vwhere(m, x, y), self.shape_join(a[0], a[0], st))
            return self.newarr(st, None, None)
        m = self.arr(a[0], st) if self.is_arr(a[0], st) else None
        # indices where the mask holds
        t = fresh('idx', IV)
        n = fresh('nidx', I)
        st.assume(n >= 0)
        if m is not None and m.sort() == BV:
            ln = self.vlen(a[0], st)
            pos = z3.Function('pos!%d' % uid(), I, I)
            st.assume(Schem(lambda i: z3.Implies(z3.And(i >= 0, i < n), z3.And(z3.Select(m, z3.Select(t, i)), z3.Select(t, i) >= 0, (z3.Select(t, i) < ln) if ln is not None else z3.BoolVal(True))), rows=True))
            if ln is not None:
                st.assume(Schem(lambda i: True if i.decl().eq(pos) else z3.Implies(z3.And(i >= 0, i < ln, z3.Select(m, i)), z3.And(pos(i) >= 0, pos(i) < n, z3.Select(t, pos(i)) == i)), rows=True))
                st.assume(n <= ln)
        r = self.newarr(st, t, (n,))
        if m is not None and m.sort() == BV and ln is not None:
            st.heap[r.id] = st.heap[r.id].put(idxmask=(m, ln))
        return (r,)

    def x_np_shape(self, a, kw, st):
        v = a[0]
        if isinstance(v, Ref) and st.heap[v.id].cls == 'ndarray':
            return self.arr_attr(v, st.heap[v.id], 'shape', st)
        return Opq('shape')

    def x_np_size(self, a, kw, st):
        r = fresh('size', I)
        st.assume(r >= 0)
        return r

    def x_np_argsort(self, a, kw, st):
        n = self.vlen(a[0], st) if self.is_arr(a[0], st) else None
        t = fresh('argsort', IV)
        if n is not None:
            rk = z3.Function('rank!%d' % t.get_id(), I, I)
            st.assume(Schem(lambda i: z3.Implies(z3.And(i >= 0, i < n), z3.And(z3.Select(t, i) >= 0, z3.Select(t, i) < n, rk(z3.Select(t, i)) == i)), rows=True, gen=3))        # a permutation
        return self.newarr(st, t, (n,) if n is not None else None)

    # ------------------------------------------------------------------ methods of built-in values
    def call_method(self, o, name, args, kw, st, n):
        h = self.spec.method_call(self, st, o, name, args, kw)
        if h is not NotImplemented:
            return h
        if isinstance(o, Ref):
            c = st.heap[o.id]
            if c.cls == 'ndarray':
                return self.arr_method(o, name, args, kw, st)
            if c.cls == 'list':
                return self.list_method(o, name, args, kw, st)
            if c.cls == 'dict':
                return self.dict_method(o, name, args, kw, st)
        if isinstance(o, Union):
            outs = []
            alts = [(c, x) for c, x in o.alts if x is not None]
            if len(alts) < len(o.alts):
                st.assume(bor(*[c for c, _ in alts]))
            if len(alts) == 1:
                return self.call_value(self.getattr(alts[0][1], name, st), args, kw, st, n)
            for c, x in alts:
                b = st.copy()
                b.assume(c)
                v = self.call_value(self.getattr(x, name, b), args, kw, b, n)
                if b.dead:
                    continue
                b.loc['$cm'] = v
                outs.append(b)
            m = self.merge(outs)
            if m is None:
                st.dead = True
                return Opq('dead')
            st.become(m)
            return st.loc.pop('$cm')
        if isinstance(o, str):
            if all(isinstance(a, (str, int, float)) for a in args) and not kw and name in ('format', 'startswith', 'endswith', 'strip', 'lower', 'upper', 'split', 'replace'):
                try:
                    r = getattr(o, name)(*args)
                    return r if not isinstance(r, list) else st.alloc('list', items=tuple(r))
                except Exception:
                    pass
            return Opq('str')
        return self.spec.opaque_method(self, st, o, name, args, kw)

    def arr_method(self, o, name, args, kw, st):
        c = st.heap[o.id]
        if name == 'copy':
            return self.copy_arr(o, st)
        if name == 'astype':
            return self.astype(o, args, kw, st)
        if name == 'dot':
            return self.np_dot(o, args[0], st)
        if name == 'reshape':
            t = self.arr(o, st)
            r = self.alias_of(o, st)
            if t is not None and t.sort() == V and len(args) == 1 and isinstance(args[0], tuple) and len(args[0]) == 2 and args[0][0] == 1:
                st.heap[r.id] = st.heap[r.id].put(rowof=t)
            return r
        if name in ('sum', 'min', 'max', 'mean', 'any', 'all', 'argmax', 'argmin'):
            return getattr(self, 'x_np_' + name)([o] + list(args), kw, st)
        if name in ('fill', 'sort', 'resize', 'put', 'itemset', 'partition'):
            t = self.arr(o, st)
            self.set_array(st, o, None if t is None else fresh('imp', t.sort()))
            return None
        if name == 'tolist':
            n = self.vlen(o, st)
            ln = n if n is not None else fresh('len', I)
            r = st.alloc('list', items=None, len=ln)
            t = self.arr(o, st)
            if t is not None:
                st.heap[r.id] = st.heap[r.id].put(arr=t)
            return r
        if name in ('flatten', 'ravel') and self.arr(o, st) is not None and self.arr(o, st).sort() == V:
            r = self.copy_arr(o, st)
            if name == 'ravel':
                st.heap[r.id] = st.heap[r.id].put(alias=o)
            return r
        if name in MAY_ALIAS:
            return self.alias_of(o, st)
        return self.newarr(st, None, None)

    def astype(self, o, args, kw, st):
        if kw.get('copy') is False:
            raise Unsupported('astype(copy=False) may alias')
        t = self.arr(o, st)
        return self.copy_arr(o, st) if t is not None and t.sort() in (V, M) else self.newarr(st, None, None)

    def list_method(self, o, name, args, kw, st):
        c = st.heap[o.id]
        it = c.f.get('items')
        if name == 'append':
            self.list_append(o, args[0], st)
            return None
        if name == 'copy':
            return self.x_b_list([o], {}, st)
        if name == 'pop':
            if it is not None and it and not args:
                st.heap[o.id] = Cell('list', dict(items=it[:-1]))
                return it[-1]
            if it is not None and args and isinstance(args[0], int) and -len(it) <= args[0] < len(it):
                l = list(it)
                v = l.pop(args[0])
                st.heap[o.id] = Cell('list', dict(items=tuple(l)))
                return v
            n = fresh('len', I)
            st.assume(n >= 0)
            if it is None:
                st.assume(n == c.f['len'] - 1)
            st.heap[o.id] = Cell('list', dict(items=None, len=n))
            return Opq('pop')
        if name == 'insert':
            if it is not None and isinstance(args[0], int):
                l = list(it)
                l.insert(args[0], args[1])
                st.heap[o.id] = Cell('list', dict(items=tuple(l)))
                return None
            n = fresh('len', I)
            st.assume(n >= 1)
            if it is None:
                st.assume(n == c.f['len'] + 1)
            self.spec.on_list_insert(self, st, o, args)
            st.heap[o.id] = Cell('list', dict(items=None, len=n))
            return None
        if name == 'extend':
            self.list_extend(o, args[0], st)
            return None
        if name in ('index', 'count'):
            return fresh('idx', I)
        n = fresh('len', I)
        st.assume(n >= 0)
        st.heap[o.id] = Cell('list', dict(items=None, len=n))
        return Opq('listm')

    def dict_method(self, o, name, args, kw, st):
        c = st.heap[o.id]
        items = c.f.get('items', {})
        if name == 'get' and args and isinstance(args[0], str):
            return items.get(args[0], args[1] if len(args) > 1 else None)
        if name == 'copy':
            return st.alloc('dict', **dict(c.f))
        if name in ('keys', 'values', 'items'):
            return Opq('view')
        if name in ('update', 'pop', 'clear', 'setdefault', 'popitem'):
            self.spec.on_dict_mutate(self, st, o, name)
            st.heap[o.id] = Cell('dict', dict(items={}, open=True))
        return Opq('dictm')
