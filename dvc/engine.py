"""Symbolic executor / verification-condition generator for the Python subset used by the repository."""
import ast, z3, time, os
from .values import *
from .vec import *
from .program import Program
from .exprs import ExprMixin, Params

MAXDEPTH = 24


class Obl(object):
    __slots__ = ('name', 'pc', 'goal', 'where', 'tags')

    def __init__(self, name, pc, goal, where, tags=()):
        self.name, self.pc, self.goal, self.where, self.tags = name, pc, goal, where, tags


class Outcome(object):
    def __init__(self):
        self.next = None
        self.brk, self.cont, self.ret, self.exc = [], [], [], []


class Engine(ExprMixin):
    def __init__(self, prog, spec, arith=Real, check_timeout=4000):
        self.P = prog
        self.spec = spec
        self.A = arith
        self.obls = []
        self.rec = 0              # >0: dry run, do not record obligations
        self.frames = []          # (Fn, module)
        self.trys = []
        self.consts = {}
        self.strs = {}
        self.check_timeout = check_timeout
        self.notes = set()
        self.trusted = set()
        self.used = set()
        self.solver_s = 0.0
        self.nchecks = 0
        self.site = 0
        self.deadline = None
        self.smoke = False          # thorough: every assumed postcondition is checked for consistency
        self.infos = []
        self.verifying = None

    # ------------------------------------------------------------------ solver
    def _facts(self, pc, extra, extra_index=(), ext_pairs=None, max_rounds=6):
        bools = [p for p in pc if not isinstance(p, Schem)]
        schems = [p for p in pc if isinstance(p, Schem)]
        roots = bools + list(extra)
        inst = instantiate(roots, schems, self.A, extra_index, use_dot=getattr(self.spec, 'use_dot', True), ext_pairs=getattr(self.spec, 'ext_pairs', True) if ext_pairs is None else ext_pairs, max_rounds=max_rounds, cap=getattr(self.spec, 'inst_cap', 6000), ieee=getattr(self.spec, 'ieee', False))
        return roots + inst + self.str_facts() + list(self.spec.axioms())

    def str_facts(self):
        return []

    def check(self, pc, goal, timeout=None):
        """-> 'proved' | 'refuted' | 'unknown'."""
        t = time.time()
        extra_index = []
        if isinstance(goal, Schem):
            i = fresh('gi', z3.IntSort())
            goal = goal.fn(i)
            extra_index.append(i)
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        if z3.is_true(goal):
            return 'proved'
        fs = self._facts(pc, [z3.Not(goal)], extra_index)
        s = z3.Solver()
        s.set('timeout', int(timeout or self.check_timeout))
        s.set('random_seed', 1)
        for f in fs:
            s.add(f)
        r = s.check()
        self.solver_s += time.time() - t
        self.nchecks += 1
        self.last_solver = s
        if r == z3.unsat:
            return 'proved'
        if r == z3.sat:
            return 'refuted'
        return 'unknown'

    def check_many(self, pc, goals):
        """check for several goals under one path condition: the facts are instantiated once for all the ground goals."""
        ground = []
        for g, _ in goals:
            if isinstance(g, bool):
                g = z3.BoolVal(g)
            if not isinstance(g, Schem) and not z3.is_true(g):
                ground.append(z3.Not(g))
        if len(ground) < 4 or len(pc) < 60:
            return [self.check(pc, g, t) for g, t in goals]
        t0 = time.time()
        fs = self._facts(pc, [z3.Or(*ground)])
        n = len([p for p in pc if not isinstance(p, Schem)])
        fs = fs[:n] + fs[n + 1:]
        self.solver_s += time.time() - t0
        out = []
        for g, to in goals:
            if isinstance(g, bool):
                g = z3.BoolVal(g)
            if isinstance(g, Schem):
                out.append(self.check(pc, g, to))
                continue
            if z3.is_true(g):
                out.append('proved')
                continue
            t = time.time()
            s = z3.Solver()
            s.set('timeout', int(to or self.check_timeout))
            s.set('random_seed', 1)
            s.add(*fs)
            s.add(z3.Not(g))
            r = s.check()
            self.solver_s += time.time() - t
            self.nchecks += 1
            self.last_solver = s
            out.append('proved' if r == z3.unsat else 'refuted' if r == z3.sat else 'unknown')
        return out

    def feasible(self, pc, timeout=1500):
        fs = self._facts(pc, [])
        s = z3.Solver()
        s.set('timeout', timeout)
        s.add(*fs)
        t = time.time()
        r = s.check()
        self.solver_s += time.time() - t
        self.nchecks += 1
        return r != z3.unsat

    def oblige(self, st, name, goal, where=None, tags=()):
        if self.rec or st.dead:
            return
        if goal is True:
            goal = z3.BoolVal(True)
        self.obls.append(Obl(name, list(st.pc), goal, where or self.where(), tags))

    def where(self):
        f = self.frames[-1][0].q if self.frames else '?'
        return '%s:%s' % (f, getattr(self, 'line', '?'))

    # ------------------------------------------------------------------ merging
    def merge(self, states):
        states = [s for s in states if s is not None and not s.dead]
        if not states:
            return None
        if len(states) == 1:
            return states[0]
        n = min(len(s.pc) for s in states)
        k = 0
        while k < n and all(s.pc[k] is states[0].pc[k] for s in states):
            k += 1
        conds = []
        out = State()
        out.pc = list(states[0].pc[:k])
        if len(states) == 2 and self.nodiff(states[0], states[1]):
            u, v = states[0].pc[k:], states[1].pc[k:]
            s0 = states[0]
            s0.pc = out.pc
            for i in states[1].heap:
                if i not in s0.heap:
                    s0.heap[i] = states[1].heap[i]
            if not (len(u) == 1 and len(v) == 1 and not isinstance(u[0], Schem) and not isinstance(v[0], Schem) and (bnot(u[0]).eq(v[0]) or bnot(v[0]).eq(u[0]))):
                if all(not isinstance(p, Schem) for p in u + v):
                    s0.assume(bor(band(*u), band(*v)))
            return s0
        for s in states:
            suf = s.pc[k:]
            bs = [p for p in suf if not isinstance(p, Schem)]
            if len(bs) == 1 and (bs[0].num_args() == 0 or (z3.is_not(bs[0]) and bs[0].arg(0).num_args() == 0)):
                b = bs[0]         # a literal: used as it is, so that equal computations give equal terms
            else:
                b = fresh('b', z3.BoolSort())
                out.pc.append(b == (z3.And(*bs) if len(bs) != 1 else bs[0]) if bs else b == z3.BoolVal(True))
            conds.append(b)
            for p in suf:
                if isinstance(p, Schem):
                    out.pc.append(p.under(b))
        out.pc.append(z3.Or(*conds))
        out.stack = states[0].stack
        # heap first (cells), then values
        ids = set()
        for s in states:
            ids |= set(s.heap)
        for i in ids:
            have = [(c, s.heap[i]) for c, s in zip(conds, states) if i in s.heap]
            if all(h[1] is have[0][1] for h in have):
                out.heap[i] = have[0][1]
                continue
            fields = {}
            keys = set()
            for _, c in have:
                keys |= set(c.f)
            for f in keys:
                vs = [(g, c.f[f]) for g, c in have if f in c.f]
                if len(vs) < len(have):
                    continue      # unknown on some path: lazily fresh again (sound: forget)
                fields[f] = self.mval(vs)
            out.heap[i] = Cell(have[0][1].cls, fields)
        locs = None
        for s in states:
            locs = set(s.loc) if locs is None else locs | set(s.loc)
        for v in locs:
            have = [(c, s.loc[v]) for c, s in zip(conds, states) if v in s.loc]
            if len(have) < len(states):
                # possibly unbound on some path: keep it (use would be a NameError, i.e. an exception)
                out.loc[v] = self.mval(have) if have else None
            else:
                out.loc[v] = self.mval(have)
        gk = set()
        for s in states:
            gk |= set(s.ghost)
        for g in gk:
            out.ghost[g] = self.mval([(c, s.ghost[g] if g in s.ghost else self.spec.ghost_default(self, g)) for c, s in zip(conds, states)])
        self.collapse(out)
        return out

    def nodiff(self, a, b):
        if a.loc.keys() != b.loc.keys() or a.ghost.keys() != b.ghost.keys():
            return False
        for n, v in a.loc.items():
            if not self.same(v, b.loc[n]):
                return False
        for n, v in a.ghost.items():
            if not self.same(v, b.ghost[n]):
                return False
        for i, c in a.heap.items():
            d = b.heap.get(i)
            if d is None or d is c:
                continue
            if c.f.keys() != d.f.keys():
                return False
            for f, v in c.f.items():
                if not self.same(v, d.f[f]):
                    return False
        return True

    def mval(self, vs):
        v0 = vs[0][1]
        if all(self.same(v0, v) for _, v in vs[1:]):
            return v0
        flat = []
        for c, v in vs:
            if isinstance(v, Union):
                for c2, v2 in v.alts:
                    flat.append((band(c, c2), v2))
            else:
                flat.append((c, v))
        return self.mkunion(flat)

    @staticmethod
    def same(a, b):
        if a is b:
            return True
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
            return a.eq(b)
        if type(a) is type(b) and isinstance(a, (int, float, str, bool, Ref, Func, Cls, Ext, User)):
            return a == b and not (isinstance(a, float) and a != a)
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return all(Engine.same(x, y) for x, y in zip(a, b))
        if isinstance(a, dict) and isinstance(b, dict) and a.keys() == b.keys():
            return all(Engine.same(a[k], b[k]) for k in a)
        return False

    def mkunion(self, flat):
        """Collapse a guarded list of values."""
        groups = []
        for c, v in flat:
            if c is False:
                continue
            for g in groups:
                if self.same(g[1], v):
                    g[0] = bor(g[0], c)
                    break
            else:
                groups.append([c, v])
        if len(groups) == 1:
            return groups[0][1]
        vals = [v for _, v in groups]
        if all(is_num(v) for v in vals):
            ints = all(isinstance(v, int) or (is_z3(v) and z3.is_int(v)) for v in vals)
            cv = to_z3 if ints else to_real
            r = cv(vals[-1])
            for c, v in reversed(groups[:-1]):
                r = ite(c, cv(v), r)
            return r
        if all(is_boolish(v) for v in vals):
            r = to_z3(vals[-1])
            for c, v in reversed(groups[:-1]):
                r = ite(c, to_z3(v), r)
            return r
        if all(is_z3(v) for v in vals) and len({str(v.sort()) for v in vals}) == 1:
            r = vals[-1]
            for c, v in reversed(groups[:-1]):
                r = z3.If(c, v, r)
            return r
        if all(isinstance(v, tuple) for v in vals) and len({len(v) for v in vals}) == 1:
            return tuple(self.mval([(c, v[i]) for c, v in groups]) for i in range(len(vals[0])))
        if all(isinstance(v, dict) for v in vals):
            keys = set(vals[0])
            for v in vals:
                keys |= set(v)
            return {k: self.mval([(c, v[k]) for c, v in groups if k in v]) for k in keys}
        if all(isinstance(v, Opq) for v in vals):
            o = Opq('m')          # no relation kept between unknown values
            kinds = set()
            for v in vals:
                kinds |= set(v.cache)
            for kd in kinds:
                r = vals[-1].const(kd)
                for c, v in reversed(groups[:-1]):
                    r = z3.If(c, v.const(kd), r)
                o.cache[kd] = r
            return o
        return Union([(c, v) for c, v in groups])

    def collapse(self, st):
        """Unions of array cells that nobody else references become one merged cell."""
        for name, v in list(st.loc.items()):
            if isinstance(v, Union) and all(isinstance(x, Ref) and x.id in st.heap and st.heap[x.id].cls == 'ndarray' for _, x in v.alts):
                ids = {x.id for _, x in v.alts}
                if self.refcount(st, ids, skip=('loc', name)):
                    continue
                nv = self.union_array(st, v)
                if nv is not None:
                    st.loc[name] = nv
        for i, c in list(st.heap.items()):
            for f, v in c.f.items():
                if isinstance(v, Union) and all(isinstance(x, Ref) and x.id in st.heap and st.heap[x.id].cls == 'ndarray' for _, x in v.alts):
                    nv = self.union_array(st, v)
                    if nv is not None and not self.refcount(st, {x.id for _, x in v.alts}, skip=('heap', i, f)):
                        st.heap[i] = st.heap[i].put(**{f: nv})

    def union_array(self, st, v):
        cells = [st.heap[x.id] for _, x in v.alts]
        if any('base' in c.f for c in cells) or any(c.f.get('val') is None for c in cells):
            return None
        vals = [c.f['val'] for c in cells]
        if not all(is_z3(x) for x in vals) or len({str(x.sort()) for x in vals}) != 1:
            return None
        r = vals[-1]
        for (c, _), x in list(zip(v.alts, vals))[-2::-1]:
            r = z3.If(c, x, r)
        shp = cells[0].f.get('shape')
        if not all(self.same(c.f.get('shape'), shp) for c in cells):
            shps = [c.f.get('shape') for c in cells]
            shp = None
            if all(isinstance(x, tuple) and len(x) == 1 and (isinstance(x[0], int) or is_z3(x[0])) for x in shps):
                shp = (to_z3(shps[-1][0]),)
                for (c, _), x in list(zip(v.alts, shps))[-2::-1]:
                    shp = (z3.If(to_z3(c), to_z3(x[0]), shp[0]),)
        return st.alloc('ndarray', val=r, shape=shp)

    def refcount(self, st, ids, skip):
        def hit(v):
            if isinstance(v, Ref):
                return v.id in ids
            if isinstance(v, Union):
                return any(hit(x) for _, x in v.alts)
            if isinstance(v, tuple):
                return any(hit(x) for x in v)
            if isinstance(v, dict):
                return any(hit(x) for x in v.values())
            return False
        for fr in [st.loc] + st.stack:
            for n, v in fr.items():
                if fr is st.loc and skip == ('loc', n):
                    continue
                if hit(v):
                    return True
        for i, c in st.heap.items():
            for f, v in c.f.items():
                if skip == ('heap', i, f):
                    continue
                if hit(v):
                    return True
        for v in st.ghost.values():
            if hit(v):
                return True
        return False

    # ------------------------------------------------------------------ conversions
    def truth(self, v, st):
        if isinstance(v, bool) or v is None:
            return bool(v)
        if isinstance(v, z3.BoolRef):
            return v
        if isinstance(v, (int, float, str, tuple)):
            return bool(v)
        if isinstance(v, z3.ArithRef):
            return v != 0
        if isinstance(v, Opq):
            return v.const('bool')
        if isinstance(v, Union):
            return bor(*[band(c, self.truth(x, st)) for c, x in v.alts])
        if isinstance(v, Ref):
            c = st.heap[v.id]
            if c.cls == 'list':
                it = c.f.get('items')
                if it is not None:
                    return len(it) > 0
                return self.as_int(c.f['len'], st) > 0
            if c.cls == 'dict':
                return len(c.f.get('items', {})) > 0
            if c.cls == 'ndarray':
                return fresh('truth', z3.BoolSort())
            return True
        if isinstance(v, (Func, Cls, Ext, User, Closure, BoundM)):
            return True
        raise Unsupported('truth of %r' % (v,))

    def as_int(self, v, st):
        if isinstance(v, bool):
            return z3.IntVal(int(v))
        if isinstance(v, int):
            return z3.IntVal(v)
        if is_z3(v) and z3.is_int(v):
            return v
        if is_z3(v) and z3.is_bool(v):
            return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        if is_z3(v) and z3.is_real(v):
            return z3.ToInt(v)
        if isinstance(v, Opq):
            return v.const('int')
        if isinstance(v, Union):
            return self.umap(v, lambda x: self.as_int(x, st), st)
        raise Unsupported('as_int of %r' % (v,))

    def as_real(self, v, st):
        if isinstance(v, bool):
            return z3.RealVal(int(v))
        if isinstance(v, (int, float)) or (is_z3(v) and (z3.is_int(v) or z3.is_real(v))):
            return to_real(v)
        if is_z3(v) and z3.is_bool(v):
            return z3.If(v, z3.RealVal(1), z3.RealVal(0))
        if isinstance(v, Opq):
            if 'int' in v.cache and 'real' not in v.cache:
                v.cache['real'] = z3.ToReal(v.cache['int'])
            return v.const('real')
        if isinstance(v, Union):
            return self.umap(v, lambda x: self.as_real(x, st), st)
        if isinstance(v, Ref) and st.heap[v.id].cls == 'ndarray':
            return fresh('elt', z3.RealSort())
        raise Unsupported('as_real of %r' % (v,))

    def umap(self, u, fn, st):
        """Map over a union; alternatives that are None or unusable raise in Python, so they are assumed away."""
        out = []
        for c, x in u.alts:
            if x is None:
                continue
            out.append((c, fn(x)))
        if not out:
            raise Unsupported('operation on None')
        if len(out) < len(u.alts):
            st.assume(bor(*[c for c, _ in out]))
        return self.mkunion(out)

    def arr(self, v, st):
        """z3 array term of an array value, or None."""
        if is_z3(v) and z3.is_array(v):
            return v
        if isinstance(v, Ref):
            c = st.heap[v.id]
            if c.cls == 'ndarray':
                if 'base' in c.f:
                    b = self.arr(c.f['base'], st)
                    return None if b is None or not z3.is_array(b) or b.sort() not in (M,) else z3.Select(b, c.f['idx'])
                return c.f.get('val')
            return None
        if isinstance(v, Union):
            ts = [(c, self.arr(x, st)) for c, x in v.alts if x is not None]
            if any(t is None for _, t in ts) or not ts or len({str(t.sort()) for _, t in ts}) != 1:
                return None
            r = ts[-1][1]
            for c, t in ts[-2::-1]:
                r = z3.If(c, t, r)
            return r
        return None

    def is_arr(self, v, st):
        if isinstance(v, Ref):
            return st.heap[v.id].cls == 'ndarray'
        if isinstance(v, Union):
            return any(self.is_arr(x, st) for _, x in v.alts)
        return False

    def newarr(self, st, term, shape=None):
        return st.alloc('ndarray', val=term, shape=shape)

    def opq(self, name='o'):
        return Opq(name)

    # ------------------------------------------------------------------ functions
    def run_function(self, q, st, env, selfv=None):
        """Execute the body of repository function q in a new frame.  st is updated in place; returns the value."""
        fn = self.P.fns[q]
        if len(self.frames) > MAXDEPTH or sum(1 for f in self.frames if f[0].q == q) > 2:
            raise Unsupported('recursion too deep in %s' % q)
        saved = st.loc
        st.stack = st.stack + [saved]
        st.loc = dict(env)
        self.frames.append((fn, fn.mod))
        line = getattr(self, 'line', None)
        try:
            body = fn.node.body
            out = self.block(body, st)
            return self.finish_call(st, out, saved)
        finally:
            self.frames.pop()
            self.line = line

    def finish_call(self, st, out, saved):
        rets = list(out.ret)
        if out.next is not None and not out.next.dead:
            rets.append((out.next, None))
        live = []
        for s, v in rets:
            if s.dead:
                continue
            s.loc = {'$ret': v}
            live.append(s)
        if not live:
            st.dead = True
            st.loc = saved
            return None
        m = self.merge(live)
        v = m.loc['$ret']
        m.loc = saved
        m.stack = m.stack[:-1] if m.stack else []
        st.become(m)
        return v

    def bind(self, fn, args, kw, st, selfv):
        env = {}
        params = list(fn.params)
        a = list(args)
        if fn.cls and not fn.static:
            a = [selfv] + a
        if len(a) > len(params):
            if fn.vararg is None:
                raise Unsupported('too many arguments to %s' % fn.q)
            env[fn.vararg] = tuple(a[len(params):])
            a = a[:len(params)]
        elif fn.vararg:
            env[fn.vararg] = ()
        for p, v in zip(params, a):
            env[p] = v
        extra = {}
        for k, v in kw.items():
            if k in params or k in fn.kwonly:
                env[k] = v
            elif fn.kwarg:
                extra[k] = v
            else:
                raise Unsupported('unknown keyword %s to %s' % (k, fn.q))
        if fn.kwarg:
            env[fn.kwarg] = st.alloc('dict', items=extra)
        d = fn.node.args.defaults
        for p, dn in zip(params[len(params) - len(d):], d):
            if p not in env:
                env[p] = self.default(fn, dn, st)
        for p, dn in zip(fn.kwonly, fn.node.args.kw_defaults):
            if p not in env and dn is not None:
                env[p] = self.default(fn, dn, st)
        for p in params:
            if p not in env:
                raise Unsupported('missing argument %s of %s' % (p, fn.q))
        return env

    def default(self, fn, node, st):
        self.frames.append((fn, fn.mod))
        saved = st.loc
        st.loc = {}
        try:
            return self.ev(node, st)
        finally:
            st.loc = saved
            self.frames.pop()

    def call_repo(self, q, selfv, args, kw, st, node=None):
        fn = self.P.fns[q]
        env = self.bind(fn, args, kw, st, selfv)
        self.exc_point(st, q, env)
        h = self.spec.on_call(self, q, env, st)
        if h is not NotImplemented:
            return h
        c = self.spec.contract(q)
        if c is not None and not (self.verifying == q and len(self.frames) == 0):
            self.used.add(q)
            if not self.smoke or self.rec or st.dead:
                return c.apply(self, st, env)
            ok = self.feasible(st.pc)
            r = c.apply(self, st, env)
            if ok and not st.dead and not self.feasible(st.pc):
                raise Unsupported('the contract of %s is contradictory at %s' % (q, self.where()))
            return r
        if self.spec.inline(self, q, env, st):
            return self.run_function(q, st, env, selfv)
        return self.havoc_call(q, env, st)

    def havoc_call(self, q, env, st):
        """Call of a function without contract that cannot touch tracked state beyond its write effects."""
        W, C, _ = self.P.effects(q)
        bad = C & self.spec.tracked_calls
        if bad:
            raise Unsupported('opaque call of %s may call %s' % (q, sorted(bad)))
        self.havoc_fields(st, W, env)
        return Opq(q.split('.')[-1])

    def havoc_fields(self, st, W, env=None):
        for i, c in list(st.heap.items()):
            if c.cls in ('list', 'dict', 'ndarray'):
                continue
            hit = [f for f in c.f if f in W]
            if hit:
                g = dict(c.f)
                for f in hit:
                    if (c.cls, f) in self.spec.frame_exempt:
                        continue
                    v = g[f]
                    for x in ([v] if isinstance(v, Ref) else [y for _, y in v.alts] if isinstance(v, Union) else []):
                        if isinstance(x, Ref) and x.id in st.heap and st.heap[x.id].cls in ('ndarray', 'list', 'dict') and 'base' not in st.heap[x.id].f:
                            st.heap[x.id] = self.fresh_cell(st.heap[x.id], st)
                            self.forget_views(st, x.id)
                    del g[f]
                st.heap[i] = Cell(c.cls, g)
        # arrays passed as arguments that the callee writes into
        if env:
            for n, v in env.items():
                if '[]' + n in W and isinstance(v, Ref) and st.heap[v.id].cls in ('ndarray', 'list', 'dict'):
                    st.heap[v.id] = self.fresh_cell(st.heap[v.id], st)
                    self.forget_views(st, v.id)

    def fresh_cell(self, c, st):
        if c.cls == 'ndarray':
            if 'base' in c.f:
                raise Unsupported('havoc of a view')
            t = c.f.get('val')
            return Cell('ndarray', dict(val=fresh('h', t.sort()) if t is not None else None, shape=c.f.get('shape')))
        if c.cls == 'list':
            return Cell('list', dict(items=None, len=fresh('len', z3.IntSort())))
        return Cell(c.cls, {})

    def exc_point(self, st, why='', env=None):
        """The call about to happen may raise: remember the state for enclosing handlers (whatever the callee may write is forgotten)."""
        if self.trys and not st.dead:
            s = st.copy()
            x = fresh('exc', z3.BoolSort())
            s.pc.append(x)
            st.pc.append(z3.Not(x))         # the two continuations exclude each other (merging relies on it)
            if env is not None:
                W, _, _ = self.P.effects(why)
                self.havoc_fields(s, set(W), env)
                c = self.spec.contract(why)
                for m in (c.modifies if c is not None else ()):
                    if m[0] == 'ghost' and m[1] in s.ghost:
                        s.ghost[m[1]] = self.fresh_like([self.shape_of(s.ghost[m[1]], s)], s, m[1])
            self.spec.on_exc(self, s, why)
            self.trys[-1].append((s, len(self.frames), len(st.stack)))

    # ------------------------------------------------------------------ statements
    def block(self, stmts, st):
        out = Outcome()
        cur = st
        for s in stmts:
            if cur is None or cur.dead:
                break
            if self.deadline and time.time() > self.deadline:
                raise Unsupported('time limit')
            cur = self.stmt(s, cur, out)
        out.next = cur if cur is not None and not cur.dead else None
        return out

    def stmt(self, s, st, out):
        self.line = getattr(s, 'lineno', None)
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement %s at %s' % (type(s).__name__, self.where()))
        return m(s, st, out)

    def s_Pass(self, s, st, out):
        return st

    def s_Global(self, s, st, out):
        raise Unsupported('global statement')

    def s_Import(self, s, st, out):
        for a in s.names:
            st.loc[a.asname or a.name.split('.')[0]] = Ext(a.name if a.asname else a.name.split('.')[0])
        return st

    def s_Expr(self, s, st, out):
        if isinstance(s.value, ast.Constant):
            return st
        self.ev(s.value, st)
        return None if st.dead else st

    def s_Assign(self, s, st, out):
        v = self.ev(s.value, st)
        if st.dead:
            return None
        for t in s.targets:
            self.assign(t, v, st)
        return None if st.dead else st

    def s_AnnAssign(self, s, st, out):
        if s.value is None:
            return st
        self.assign(s.target, self.ev(s.value, st), st)
        return None if st.dead else st

    def s_AugAssign(self, s, st, out):
        import copy
        t = copy.copy(s.target)
        t.ctx = ast.Load()
        old = self.ev(t, st)
        v = self.ev(s.value, st)
        if st.dead:
            return None
        if self.is_arr(old, st):
            self.inplace(s.op, old, v, st, s.target)
            return None if st.dead else st
        if isinstance(old, Ref) and st.heap[old.id].cls == 'list' and isinstance(s.op, ast.Add):
            self.list_extend(old, v, st)
            return st
        self.assign(s.target, self.binop(s.op, old, v, st), st)
        return None if st.dead else st

    def inplace(self, op, old, v, st, target):
        if isinstance(old, Union):
            nv = self.binop(op, old, v, st)
            t = self.arr(nv, st)
            for c, x in old.alts:
                if isinstance(x, Ref):
                    o = self.arr(x, st)
                    self.set_array(st, x, None if t is None or o is None else z3.If(c, t, o))
            return
        nv = self.binop(op, old, v, st)
        self.set_array(st, old, self.arr(nv, st))

    def set_array(self, st, ref, term):
        c = st.heap[ref.id]
        if c.f.get('sliceof') is not None:
            raise Unsupported('write through a slice view at %s' % self.where())
        if 'base' in c.f:
            b = c.f['base']
            bt = self.arr(b, st)
            if bt is None or term is None:
                self.set_array(st, b, None if bt is None else fresh('imp', bt.sort()))
            else:
                self.set_array(st, b, z3.Store(bt, c.f['idx'], term))
            return
        if term is None and c.f.get('val') is not None:
            term = fresh('imp', c.f['val'].sort())
        if term is not None and c.f.get('val') is not None and c.f['val'].sort() != term.sort():
            term = fresh('imp', c.f['val'].sort())
        n = c.put(val=term)
        n.f.pop('idxmask', None)
        st.heap[ref.id] = n
        self.forget_views(st, ref.id)
        self.spec.on_array_write(self, st, ref)
        if c.f.get('alias') is not None:
            self.set_array(st, c.f['alias'], None)

    def forget_views(self, st, i):
        """the array behind these slices has changed"""
        for j, c in list(st.heap.items()):
            if c.cls == 'ndarray' and c.f.get('sliceof') is not None and c.f.get('val') is not None and self.root_array(st, c.f['sliceof']) == i:
                st.heap[j] = c.put(val=fresh('slice', c.f['val'].sort()))
            elif c.cls == 'ndarray' and c.f.get('alias') is not None and c.f.get('val') is not None and j != i and self.root_array(st, c.f['alias']) == i:
                st.heap[j] = c.put(val=fresh('alias', c.f['val'].sort()))

    def root_array(self, st, r):
        while isinstance(r, Ref) and r.id in st.heap:
            c = st.heap[r.id]
            nx = next((c.f[n] for n in ('sliceof', 'base', 'alias') if c.f.get(n) is not None), None)
            if nx is None:
                return r.id
            r = nx
        return None

    def s_Delete(self, s, st, out):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.loc.pop(t.id, None)
            else:
                raise Unsupported('del')
        return st

    def s_Assert(self, s, st, out):
        c = self.truth(self.ev(s.test, st), st)
        self.spec.on_assert(self, st, c, s)
        st.assume(c)      # otherwise an exception leaves the function
        return st

    def s_Return(self, s, st, out):
        v = self.ev(s.value, st) if s.value is not None else None
        if not st.dead:
            out.ret.append((st, v))
        return None

    def s_Raise(self, s, st, out):
        if s.exc is not None:
            self.ev(s.exc, st)
        self.exc_point(st, 'raise')
        self.spec.on_raise(self, st, s)
        return None

    def s_Break(self, s, st, out):
        out.brk.append(st)
        return None

    def s_Continue(self, s, st, out):
        out.cont.append(st)
        return None

    def s_FunctionDef(self, s, st, out):
        st.loc[s.name] = Closure(s, dict(st.loc), self.frames[-1][1], s.name)
        st.loc[s.name].env[s.name] = st.loc[s.name]
        return st

    def s_If(self, s, st, out):
        c = self.truth(self.ev(s.test, st), st)
        if st.dead:
            return None
        c = self.known(c, st)
        if c is True:
            return self.sub(s.body, st, out)
        if c is False:
            return self.sub(s.orelse, st, out) if s.orelse else st
        a, b = st.copy(), st
        a.assume(c)
        b = b.copy()
        b.assume(z3.Not(c))
        self.refine(s.test, True, a)
        self.refine(s.test, False, b)
        ra = self.sub(s.body, a, out)
        rb = self.sub(s.orelse, b, out) if s.orelse else b
        return self.merge([ra, rb])

    def known(self, c, st):
        if isinstance(c, bool):
            return c
        c2 = z3.simplify(c)
        if z3.is_true(c2):
            return True
        if z3.is_false(c2):
            return False
        for p in st.pc[-400:]:
            if isinstance(p, Schem):
                continue
            if p.eq(c):
                return True
            if z3.is_not(p) and p.arg(0).eq(c):
                return False
            if z3.is_not(c) and c.arg(0).eq(p):
                return False
        return c

    def sub(self, stmts, st, out):
        o = self.block(stmts, st)
        out.brk += o.brk
        out.cont += o.cont
        out.ret += o.ret
        return o.next

    def refine(self, test, pos, st):
        """Narrow unions tested against None / truthiness."""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.refine(test.operand, not pos, st)
        if isinstance(test, ast.BoolOp):
            if (isinstance(test.op, ast.And) and pos) or (isinstance(test.op, ast.Or) and not pos):
                for v in test.values:
                    self.refine(v, pos, st)
            return
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.comparators[0], ast.Constant) and test.comparators[0].value is None:
            isnone = isinstance(test.ops[0], (ast.Is, ast.Eq)) == pos
            self.narrow(test.left, (lambda v: v is None) if isnone else (lambda v: v is not None), st)

    def narrow(self, node, keep, st):
        if isinstance(node, ast.Name) and isinstance(st.loc.get(node.id), Union):
            st.loc[node.id] = self.filt(st.loc[node.id], keep)
        elif isinstance(node, ast.Attribute):
            try:
                b = self.ev(node.value, st)
            except Unsupported:
                return
            if isinstance(b, Ref) and isinstance(st.heap[b.id].f.get(node.attr), Union):
                st.setf(b, **{node.attr: self.filt(st.heap[b.id].f[node.attr], keep)})

    def filt(self, u, keep):
        a = [(c, v) for c, v in u.alts if isinstance(v, Opq) or keep(v)]
        if not a:
            return u
        return self.mkunion(a) if len(a) > 1 else a[0][1]

    def s_Try(self, s, st, out):
        self.trys.append([])
        try:
            o = self.block(s.body, st)
        finally:
            caught = self.trys.pop()
        out.brk += o.brk
        out.cont += o.cont
        out.ret += o.ret
        nxt = [o.next]
        if s.orelse and o.next is not None:
            nxt = [self.sub(s.orelse, o.next, out)]
        starts = []
        depth = len(self.frames)
        for (c, d, ns) in caught:
            if d > depth:       # raised inside an inlined callee: restore this frame's locals
                k = len(st.stack) if False else ns - (d - depth)
                c.loc = c.stack[k]
                c.stack = c.stack[:k]
            starts.append(c)
        if self.trys:
            # handlers may not match: the exception may propagate further
            for c in starts:
                s2 = c.copy()
                x = fresh('exc', z3.BoolSort())
                s2.pc.append(x)
                c.pc.append(z3.Not(x))
                self.trys[-1].append((s2, depth, len(s2.stack)))
        hs = self.merge(starts)
        if hs is not None:
            earlier = []
            for h in s.handlers:
                c = hs.copy()
                x = fresh('hnd', z3.BoolSort())
                c.pc += [x] + [z3.Not(y) for y in earlier]
                earlier.append(x)
                if h.name:
                    c.loc[h.name] = Opq('exc')
                nxt.append(self.sub(h.body, c, out))
        r = self.merge(nxt)
        if s.finalbody:
            if hs is not None:          # an exception on its way out: only what leaves the function here matters
                c = hs.copy()
                c.pc.append(fresh('exc', z3.BoolSort()))
                self.sub(s.finalbody, c, out)
            if r is None:
                return None
            return self.sub(s.finalbody, r, out)
        return r

    def s_With(self, s, st, out):
        for it in s.items:
            if 'suppress' in ast.dump(it.context_expr):
                raise Unsupported('a context manager which handles exceptions')
            v = self.ev(it.context_expr, st)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st)
        return self.sub(s.body, st, out)

    # ------------------------------------------------------------------ loops
    def s_While(self, s, st, out):
        return self.loop(s, st, out, None)

    def s_For(self, s, st, out):
        it = self.ev_iter(s.iter, st)
        if st.dead:
            return None
        if it[0] == 'concrete' and len(it[1]) <= 24:
            cur = st
            brk = []
            for v in it[1]:
                self.assign(s.target, v, cur)
                o = self.block(s.body, cur)
                out.ret += o.ret
                brk += o.brk
                cur = self.merge([o.next] + o.cont)
                if cur is None:
                    break
            if cur is not None and s.orelse:
                cur = self.sub(s.orelse, cur, out)
            return self.merge([cur] + brk)
        return self.loop(s, st, out, it)

    def assigned(self, stmts):
        names = set()
        for b in stmts:
            for n in ast.walk(b):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    names.add(n.id)
        return names

    def loop(self, s, st, out, it):
        """Cut the loop by an invariant found by Houdini over candidate assertions."""
        E = self
        where = self.where()
        entry = st.copy()
        names = self.assigned(s.body + ([s.target] if it is not None else []))
        idx0 = None
        if it is not None:
            kind = it[0]
            if kind == 'range':
                lo, hi, step = it[1], it[2], it[3]
            else:
                lo, hi, step = z3.IntVal(0), it[2] if it[0] == 'seq' else fresh('len', z3.IntSort()), 1
                if it[0] != 'seq':
                    entry.assume(hi >= 0)
            if isinstance(step, int) and step not in (1, -1):
                raise Unsupported('range step')
        if it is not None and self.spec.skip_empty and kind == 'range':
            e = entry.copy()
            e.assume(lo < hi if step == 1 else lo > hi)
            if not self.feasible(e.pc):
                return st           # zero iterations
        loopid = uid()

        def body_pass(head, i):
            """One iteration from head (already assumed).  -> outcome"""
            b = head.copy()
            if it is not None:
                b.assume(i < hi if step == 1 else i > hi)
                self.assign(s.target, self.iter_value(it, i, b), b)
                o = E.block(s.body, b)
                ex = head.copy()
                ex.assume(i >= hi if step == 1 else i <= hi)
                ex.assume(z3.Implies(lo <= hi, i == hi) if step == 1 else z3.Implies(lo >= hi, i == hi))
            else:
                c = E.truth(E.ev(s.test, b), b)
                ex = b.copy()
                c = E.known(c, b)
                if c is False:
                    o = Outcome()
                    return o, b
                if c is not True:
                    b.assume(c)
                    E.refine(s.test, True, b)
                    ex.assume(z3.Not(c))
                    E.refine(s.test, False, ex)
                else:
                    ex = None
                o = E.block(s.body, b)
            return o, ex

        # 1. which locations does the body modify?  (iterate until stable)
        mod = {('loc', n) for n in names}
        shapes = {}
        E.rec += 1
        ntry = len(self.trys[-1]) if self.trys else 0
        try:
            for _ in range(8):
                head = entry.copy()
                i = fresh('i', z3.IntSort())
                self.havoc(head, entry, mod, shapes)
                h0 = head.copy()
                o, ex = body_pass(head, i)
                new = set()
                for e in [o.next] + o.cont + o.brk + [r[0] for r in o.ret]:
                    if e is None or e.dead:
                        continue
                    new |= self.diff(h0, e, mod, shapes, entry)
                if new <= mod:
                    break
                mod |= new
            else:
                raise Unsupported('modified set of loop does not stabilise')
            # 2. Houdini
            cands = self.candidates(s, entry, mod, it, loopid, shapes)
            ct = lambda cd: self.spec.generic_timeout or self.spec.houdini_timeout if '(' in getattr(cd, 'label', '') else self.spec.houdini_timeout
            i0 = lo if it is not None else None
            live = []
            for cd in cands:
                try:
                    g = cd(entry, i0, entry)
                except Exception as e:
                    if os.environ.get('DVC_DEBUG'):
                        print('cand error', getattr(cd, 'label', '?'), repr(e)[:200])
                    continue
                if g is None:
                    continue
                live.append((cd, g))
            rs = self.check_many(entry.pc, [(g, ct(cd)) for cd, g in live])
            live = [cd for (cd, g), r in zip(live, rs) if r == 'proved']
            if os.environ.get('DVC_DEBUG'):
                print('LOOP', where, 'mod', sorted(map(str, mod)), 'cands', [getattr(c, 'label', '?') for c in cands], 'init-ok', [getattr(c, 'label', '?') for c in live])
            rounds = 0
            while True:
                rounds += 1
                if rounds > 25:
                    live = []
                head, i = self.loop_head(entry, mod, shapes, live, it, lo if it is not None else None, step if it is not None else None, hi if it is not None else None)
                o, ex = body_pass(head, i)
                end = self.merge([o.next] + o.cont)
                if end is None:
                    break
                i1 = None if it is None else (i + 1 if step == 1 else i - 1)
                drop = []
                gs = []
                for cd in live:
                    try:
                        g = cd(end, i1, entry)
                    except Exception:
                        g = None
                    gs.append(g)
                rs = iter(self.check_many(end.pc, [(g, ct(cd)) for cd, g in zip(live, gs) if g is not None]))
                for cd, g in zip(live, gs):
                    rr = None if g is None else next(rs)
                    if rr != 'proved':
                        if os.environ.get('DVC_DEBUG'):
                            print('   drop', where, getattr(cd, 'label', '?'), rr, str(g)[:300])
                        drop.append(cd)
                if not drop:
                    break
                live = [c for c in live if c not in drop]
        finally:
            E.rec -= 1
            if self.trys:
                del self.trys[-1][ntry:]
        # 3. final pass
        head, i = self.loop_head(entry, mod, shapes, live, it, lo if it is not None else None, step if it is not None else None, hi if it is not None else None)
        self.infos.append((where, [getattr(c, 'label', '?') for c in live]))
        if not self.rec and not self.feasible(head.pc) and self.feasible(entry.pc):
            raise Unsupported('contradictory loop head at %s' % where)         # would make the rest of the proof vacuous
        if os.environ.get('DVC_DEBUG'):
            print('LOOP', where, 'kept', [getattr(c, 'label', '?') for c in live])
        o, ex = body_pass(head, i)
        out.ret += o.ret
        exits = [ex] + o.brk
        if ex is not None and s.orelse:
            exits[0] = self.sub(s.orelse, ex, out)
        self.spec.on_loop(self, s, entry, o, i)
        return self.merge(exits)

    def loop_head(self, entry, mod, shapes, live, it, lo, step, hi):
        head = entry.copy()
        i = None
        if it is not None:
            i = fresh('i', z3.IntSort())
        self.havoc(head, entry, mod, shapes)
        if it is not None:
            head.assume(i >= lo if step == 1 else i <= lo)
            head.assume(z3.Or(i == lo, i <= hi if step == 1 else i >= hi))
        for cd in live:
            g = cd(head, i, entry)
            if g is None or g is False:         # the head covers every iteration: a fact cannot be false there
                continue
            head.assume(g)
        return head, i

    def diff(self, a, b, mod, shapes, entry):
        new = set()
        for g in set(a.ghost) | set(b.ghost):
            if g not in a.ghost:
                a.ghost[g] = self.spec.ghost_default(self, g)
            if g not in b.ghost:
                b.ghost[g] = self.spec.ghost_default(self, g)
            if not self.same(a.ghost[g], b.ghost.get(g)):
                new.add(('ghost', g))
                shapes.setdefault(('ghost', g), []).append(b.ghost[g])
        for n in set(a.loc) | set(b.loc):
            va, vb = a.loc.get(n), b.loc.get(n)
            if not self.same(va, vb):
                new.add(('loc', n))
                shapes.setdefault(('loc', n), []).append(self.shape_of(vb, b))
        for i, c in a.heap.items():
            d = b.heap.get(i)
            if d is c or d is None or i not in entry.heap:
                continue
            for f in set(c.f) | set(d.f):
                if f not in c.f:
                    continue          # lazily created: not a modification
                if f not in d.f or not self.same(c.f[f], d.f[f]):
                    new.add(('fld', i, f))
                    shapes.setdefault(('fld', i, f), []).append(self.shape_of(d.f.get(f), b) if f in d.f else 'forget')
        return new

    def shape_of(self, v, st):
        """Abstract a value to something havoc can rebuild without the state it came from."""
        if isinstance(v, Ref):
            c = st.heap[v.id]
            if c.cls == 'ndarray':
                t = self.arr(v, st)
                return ('arr', None if t is None else t.sort(), c.f.get('shape'))
            return ('obj', v, c.cls, {f: self.shape_of(x, st) for f, x in c.f.items()} if c.cls not in ('list', 'dict') else None)
        if isinstance(v, Union):
            return ('union', [self.shape_of(x, st) for _, x in v.alts])
        if isinstance(v, tuple):
            return ('tup', [self.shape_of(x, st) for x in v])
        return v

    def havoc(self, head, entry, mod, shapes):
        for m in sorted(mod, key=str):
            sh = shapes.get(m, [])[-6:]
            if m[0] == 'loc':
                n = m[1]
                if n not in entry.loc and not sh:
                    head.loc.pop(n, None)
                    continue
                base = [self.shape_of(entry.loc[n], entry)] if n in entry.loc else []
                head.loc[n] = self.fresh_like(base + sh, head, n)
            elif m[0] == 'ghost':
                head.ghost[m[1]] = self.fresh_like([self.shape_of(entry.ghost[m[1]] if m[1] in entry.ghost else self.spec.ghost_default(self, m[1]), entry)] + sh, head, m[1])
            else:
                _, i, f = m
                c = head.heap[i]
                if any(isinstance(x, str) and x == 'forget' for x in sh) or f not in c.f:
                    g = dict(c.f)
                    g.pop(f, None)
                    head.heap[i] = Cell(c.cls, g)
                    continue
                if c.cls == 'ndarray' and f == 'val':
                    t = c.f['val']
                    head.heap[i] = c.put(val=None if t is None else fresh('h', t.sort()))
                elif c.cls == 'ndarray' and f == 'shape':
                    head.heap[i] = c.put(shape=None)
                elif c.cls == 'list':
                    head.heap[i] = Cell('list', dict(items=None, len=fresh('len', z3.IntSort()), mem=fresh('mem', BV)) if self.list_mem(c) is not None else dict(items=None, len=fresh('len', z3.IntSort())))
                elif c.cls == 'dict' and f == 'items':
                    items = {}
                    for k, v in c.f['items'].items():
                        alts = [x.get(k) for x in sh if isinstance(x, dict) and k in x]
                        if alts and all(self.same(v, x) for x in alts):
                            items[k] = v
                        else:
                            items[k] = self.fresh_like([self.shape_of(v, entry)] + [a for a in alts if not isinstance(a, Ref)], head, 'd')
                    head.heap[i] = c.put(items=items)
                else:
                    head.heap[i] = c.put(**{f: self.fresh_like([self.shape_of(c.f[f], entry)] + sh, head, f)})

    def fresh_like(self, vs, st, name):
        """A fresh value covering all the given shapes."""
        flat = []
        for v in vs:
            if isinstance(v, tuple) and v and v[0] == 'union':
                flat += v[1]
            else:
                flat.append(v)
        kinds = {}
        for v in flat:
            if v is None:
                kinds['none'] = True
            elif isinstance(v, (bool, z3.BoolRef)):
                kinds['bool'] = True
            elif isinstance(v, int) or (is_z3(v) and z3.is_int(v)):
                kinds['int'] = True
            elif isinstance(v, float) or (is_z3(v) and z3.is_real(v)):
                kinds['real'] = True
            elif isinstance(v, tuple) and v and v[0] == 'arr':
                kinds.setdefault('arr', []).append(v)
            elif isinstance(v, tuple) and v and v[0] == 'obj':
                kinds.setdefault('obj', []).append(v)
            elif isinstance(v, tuple) and v and v[0] == 'tup':
                kinds.setdefault('tup', []).append(v)
            elif is_z3(v):
                kinds.setdefault('z3:%s' % v.sort(), v)
            else:
                kinds.setdefault('const', []).append(v)
        alts = []
        if 'real' in kinds or 'int' in kinds:
            alts.append(fresh(name, z3.RealSort() if 'real' in kinds else z3.IntSort()))
        if 'bool' in kinds:
            alts.append(fresh(name, z3.BoolSort()))
        if 'none' in kinds:
            alts.append(None)
        if 'arr' in kinds:
            sorts = {str(a[1]) for a in kinds['arr']}
            shp = kinds['arr'][0][2]
            if not all(self.same(a[2], shp) for a in kinds['arr']):
                shp = None
            if len(sorts) == 1 and kinds['arr'][0][1] is not None:
                alts.append(self.newarr(st, fresh(name, kinds['arr'][0][1]), shp))
            else:
                alts.append(self.newarr(st, None, None))
        if 'tup' in kinds:
            L = {len(t[1]) for t in kinds['tup']}
            if len(L) == 1:
                alts.append(tuple(self.fresh_like([t[1][k] for t in kinds['tup']], st, name) for k in range(L.pop())))
            else:
                alts.append(Opq(name))
        if 'obj' in kinds:
            done = set()
            for o in kinds['obj']:
                r = o[1]
                if r.id in st.heap and st.heap[r.id].cls == o[2] and o[2] not in ('list', 'dict'):
                    if ('r', r.id) not in done:
                        alts.append(r)
                        done.add(('r', r.id))
                elif ('c', o[2]) not in done:
                    done.add(('c', o[2]))
                    if o[2] == 'list':
                        alts.append(st.alloc('list', items=None, len=fresh('len', z3.IntSort())))
                        st.assume(st.heap[alts[-1].id].f['len'] >= 0)
                    elif o[2] == 'dict':
                        return Opq(name)
                    else:
                        same = [x for x in kinds['obj'] if x[2] == o[2]]
                        fl = {}
                        for f in o[3]:
                            if all(f in x[3] for x in same):
                                fl[f] = self.fresh_like([x[3][f] for x in same], st, f)
                        alts.append(st.alloc(o[2], **fl))
        for k, v in kinds.items():
            if k.startswith('z3:'):
                alts.append(fresh(name, v.sort()))
        if 'const' in kinds:
            cs = []
            for v in kinds['const']:
                if not any(self.same(v, w) for w in cs):
                    cs.append(v)
            if any(isinstance(v, Opq) for v in cs):
                return Opq(name)
            alts += cs
        if len(alts) == 1:
            return alts[0]
        if not alts:
            return Opq(name)
        gs = [fresh('u', z3.BoolSort()) for _ in alts]
        st.assume(z3.Or(*gs))
        for x in range(len(gs)):
            for y in range(x):
                st.assume(z3.Not(z3.And(gs[x], gs[y])))
        return Union(list(zip(gs, alts)))

    def lookup(self, st, m):
        if m[0] == 'loc':
            return st.loc.get(m[1], KeyError)
        if m[0] == 'ghost':
            return st.ghost.get(m[1], KeyError)
        c = st.heap.get(m[1])
        return KeyError if c is None or m[2] not in c.f else c.f[m[2]]

    def candidates(self, s, entry, mod, it, loopid, shapes):
        E = self
        cs = []

        def cand(label, fn):
            fn.label = label
            cs.append(fn)
        lo = it[1] if it is not None and it[0] == 'range' else (z3.IntVal(0) if it is not None else None)
        up = it is not None and (it[0] != 'range' or it[3] == 1)

        def isint(v):
            return (isinstance(v, int) and not isinstance(v, bool)) or (is_z3(v) and z3.is_int(v))
        ints = []
        for m in sorted(mod, key=str):
            v = self.lookup(entry, m)
            if v is KeyError:
                continue
            if isint(v) and not (m[0] == 'fld' and m[2] in self.spec.no_generic):
                ints.append((m, to_z3(v)))
        for m, v0 in ints:
            def ge(st, i, en, m=m, v0=v0):
                v = E.lookup(st, m)
                return to_z3(v) >= v0 if isint(v) else None
            cand('%s>=entry' % (m,), ge)

            def eq0(st, i, en, m=m, v0=v0):
                v = E.lookup(st, m)
                return to_z3(v) == v0 if isint(v) else None
            cand('%s==entry' % (m,), eq0)
            if up:
                def lin(st, i, en, m=m, v0=v0):
                    v = E.lookup(st, m)
                    return to_z3(v) - v0 == i - lo if isint(v) else None
                cand('%s-entry==i-lo' % (m,), lin)
        for x in range(len(ints)):
            for y in range(x):
                def pair(st, i, en, a=ints[x], b=ints[y]):
                    va, vb = E.lookup(st, a[0]), E.lookup(st, b[0])
                    return to_z3(va) - a[1] == to_z3(vb) - b[1] if isint(va) and isint(vb) else None
                cand('%s~%s' % (ints[x][0], ints[y][0]), pair)
        for m in sorted(mod, key=str):
            v = self.lookup(entry, m)
            if isinstance(v, (bool, z3.BoolRef)):
                def bsame(st, i, en, m=m, v=v):
                    w = E.lookup(st, m)
                    return to_z3(w) == to_z3(v) if is_boolish(w) else None
                cand('%s==entry' % (m,), bsame)
                for im, iv0 in ints:
                    for neg in (False, True):
                        def brel(st, i, en, m=m, im=im, iv0=iv0, neg=neg):
                            w, iv = E.lookup(st, m), E.lookup(st, im)
                            if not is_boolish(w) or not isint(iv):
                                return None
                            return to_z3(w) == ((to_z3(iv) <= iv0) if neg else (to_z3(iv) > iv0))
                        cand('%s==(%s>entry)%s' % (m, im, neg), brel)
                if up:
                    for neg in (False, True):
                        def bi(st, i, en, m=m, neg=neg):
                            w = E.lookup(st, m)
                            return to_z3(w) == ((i <= lo) if neg else (i > lo)) if is_boolish(w) else None
                        cand('%s==(i>lo)%s' % (m, neg), bi)
            elif v is None:
                def none(st, i, en, m=m):
                    w = E.lookup(st, m)
                    if w is KeyError:
                        return None
                    if w is None:
                        return True
                    if isinstance(w, Union):
                        return bor(*[c for c, x in w.alts if x is None])
                    return False if not isinstance(w, Opq) else None
                cand('%s is None' % (m,), none)
        for fn in self.spec.loop_candidates(self, s, entry, mod, it):
            cs.append(fn)
        return cs

    # ------------------------------------------------------------------ assignment
    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            st.loc[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.unpack(v, len(t.elts), st)
            for e, x in zip(t.elts, vals):
                self.assign(e, x, st)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st)
            self.setattr(o, t.attr, v, st)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, st)
            k = self.ev_index(t.slice, st)
            self.setitem(o, k, v, st)
        else:
            raise Unsupported('assignment target %s' % type(t).__name__)

    def unpack(self, v, n, st):
        if isinstance(v, tuple):
            if len(v) != n:
                raise Unsupported('unpack %d into %d' % (len(v), n))
            return list(v)
        if isinstance(v, Ref) and st.heap[v.id].cls == 'list' and st.heap[v.id].f.get('items') is not None:
            it = st.heap[v.id].f['items']
            if len(it) == n:
                return list(it)
        if isinstance(v, Union):
            tl = [(c, x) for c, x in v.alts if isinstance(x, tuple) and len(x) == n]
            if tl and all(isinstance(x, tuple) or x is None for _, x in v.alts):      # other lengths raise
                if len(tl) < len(v.alts):
                    st.assume(bor(*[c for c, _ in tl]))
                return [self.mval([(c, x[k]) for c, x in tl]) for k in range(n)]
        return [Opq('unp') for _ in range(n)]

    def setattr(self, o, name, v, st):
        if isinstance(o, Ref):
            c = st.heap[o.id]
            if c.cls in ('ndarray', 'list', 'dict'):
                return
            self.spec.on_setattr(self, st, o, name, v)
            st.heap[o.id] = c.put(**{name: v})
        elif isinstance(o, Union):
            for c, x in o.alts:
                if isinstance(x, Ref):
                    old = self.getattr(x, name, st) if name in st.heap[x.id].f else None
                    if name in st.heap[x.id].f:
                        st.heap[x.id] = st.heap[x.id].put(**{name: self.mkunion([(c, v), (bnot(c), old)])})
                    else:
                        raise Unsupported('conditional attribute creation')
        elif isinstance(o, Opq):
            pass
        else:
            raise Unsupported('setattr on %r' % (o,))

    def getattr(self, o, name, st):
        if isinstance(o, Ref):
            c = st.heap[o.id]
            if c.cls in ('ndarray', 'list', 'dict'):
                return self.arr_attr(o, c, name, st)
            if name in c.f:
                return c.f[name]
            m = self.P.classes.get(c.cls, {})
            if name in m and name not in self.P.attrs(c.cls):
                return Func(m[name], o)
            v = self.spec.lazy_field(self, st, o, c.cls, name)
            st.heap[o.id] = st.heap[o.id].put(**{name: v})
            return v
        if isinstance(o, Union):
            # method lookup on a union of objects of one class or None
            refs = [(c, x) for c, x in o.alts if x is not None]
            if len(refs) < len(o.alts):
                st.assume(bor(*[c for c, _ in refs]))
            if len(refs) == 1:
                return self.getattr(refs[0][1], name, st)
            vals = [(c, self.getattr(x, name, st)) for c, x in refs]
            if all(isinstance(v, Func) for _, v in vals) and len({v.q for _, v in vals}) == 1:
                return Func(vals[0][1].q, Union(refs))
            if all(isinstance(v, BoundM) for _, v in vals):
                return BoundM(Union(refs), name)
            return self.mkunion(vals)
        if isinstance(o, Ext):
            return Ext(o.name + '.' + name)
        if isinstance(o, Opq):
            return BoundM(o, name)
        if isinstance(o, Cls):
            m = self.P.classes.get(o.q, {})
            if name in m:
                return Func(m[name], None)
            return Opq(name)
        if isinstance(o, (str, tuple, int, float)) or is_z3(o) or o is None or isinstance(o, (Func, Closure, User, Params)):
            return BoundM(o, name)
        raise Unsupported('getattr %s on %r' % (name, o))

    def arr_attr(self, o, c, name, st):
        if c.cls == 'ndarray':
            if name == 'shape':
                shp = c.f.get('shape')
                if shp is None:
                    t = self.arr(o, st)
                    nd = 2 if t is not None and t.sort() == M else 1
                    if t is None:
                        return Opq('shape')
                    shp = tuple(fresh('dim', z3.IntSort()) for _ in range(nd))
                    for d in shp:
                        st.assume(d >= 0)
                    if 'base' not in c.f:
                        st.heap[o.id] = st.heap[o.id].put(shape=shp)
                return shp
            if name == 'size':
                shp = self.arr_attr(o, c, 'shape', st)
                if isinstance(shp, tuple) and len(shp) == 1:
                    return shp[0]
                return Opq('size')
            if name == 'T':
                t = self.arr(o, st) if self.spec.matrix else None
                if t is not None and t.sort() in (M, V):
                    shp = c.f.get('shape')
                    return self.view(st, mtr(t) if t.sort() == M else t, tuple(shp[::-1]) if isinstance(shp, tuple) else None, o)
                return self.view(st, None, None, o)
        return BoundM(o, name)

    # ------------------------------------------------------------------ items
    def getitem(self, o, k, st):
        if isinstance(o, Union):
            if all(isinstance(x, tuple) for _, x in o.alts) and isinstance(k, int):
                return self.mval([(c, x[k]) for c, x in o.alts])
            return self.mval([(c, self.getitem(x, k, st)) for c, x in o.alts if x is not None])
        if isinstance(o, tuple):
            if isinstance(k, int):
                return o[k]
            if isinstance(k, Slice) and all(isinstance(b, (int, type(None))) for b in (k.lo, k.hi, k.step)):
                return o[slice(k.lo, k.hi, k.step)]
            return Opq('item')
        if isinstance(o, Ref):
            c = st.heap[o.id]
            if c.cls == 'list':
                it = c.f.get('items')
                if it is not None and isinstance(k, int) and -len(it) <= k < len(it):
                    return it[k]
                if it is not None and isinstance(k, Slice) and all(isinstance(b, (int, type(None))) for b in (k.lo, k.hi, k.step)):
                    return st.alloc('list', items=it[slice(k.lo, k.hi, k.step)])
                h = self.spec.list_item(self, st, o, k)
                if h is not NotImplemented:
                    return h
                return Opq('item')
            if c.cls == 'dict':
                items = c.f.get('items', {})
                if isinstance(k, str) and k in items:
                    return items[k]
                return Opq('item')
            if c.cls == 'ndarray':
                return self.arr_get(o, c, k, st)
        if isinstance(o, Opq):
            return Opq('item')
        if isinstance(o, str):
            return Opq('char')
        if isinstance(o, (BoundM, z3.BoolRef, z3.ArithRef)):
            return Opq('item')
        raise Unsupported('getitem on %r' % (o,))

    def full(self, k):
        return isinstance(k, Slice) and k.lo is None and k.hi is None and k.step is None

    def norm_index(self, k, shape, axis, st):
        """Index value -> z3 Int or None (negative concrete indices resolved against the shape)."""
        if isinstance(k, bool):
            return None
        if isinstance(k, int):
            if k >= 0:
                return z3.IntVal(k)
            if shape is not None and axis < len(shape):
                return self.as_int(shape[axis], st) + k
            return None
        if is_z3(k) and z3.is_int(k):
            return k
        if isinstance(k, Opq):
            return k.const('int')
        if isinstance(k, Union) and all(is_num(x) or isinstance(x, Opq) or x is None for _, x in k.alts):
            return self.as_int(k, st)
        return None

    def arr_get(self, o, c, k, st):
        t = self.arr(o, st)
        shp = c.f.get('shape')
        if t is None:
            return Opq('elt')
        srt = t.sort()
        if srt == M:
            if isinstance(k, tuple) and len(k) == 2:
                r = self.norm_index(k[0], shp, 0, st)
                if r is not None and self.full(k[1]):
                    return st.alloc('ndarray', base=o, idx=r, shape=None if shp is None or len(shp) < 2 else (shp[1],))
                j = self.norm_index(k[1], shp, 1, st)
                if r is not None and j is not None:
                    return z3.Select(z3.Select(t, r), j)
                if isinstance(k[0], Slice) and self.full(k[1]):
                    return self.row_slice(o, t, shp, k[0], st)
                h = self.spec.mat_item(self, st, o, t, k)
                if h is not NotImplemented:
                    return h
                sw = self.swap_index(k, st)
                if sw is not None:
                    return st.alloc('ndarray', val=None, shape=None, swapof=(o.id, sw[0], sw[1], t))
                if any(isinstance(x, Slice) for x in k):
                    return self.view(st, None, None, o)
                return self.newarr(st, None)
            sw = self.swap_index(k, st)
            if sw is not None:
                return st.alloc('ndarray', val=None, shape=None, swapof=(o.id, sw[0], sw[1], t))
            r = self.norm_index(k, shp, 0, st)
            if r is not None:
                return st.alloc('ndarray', base=o, idx=r, shape=None if shp is None or len(shp) < 2 else (shp[1],))
            if isinstance(k, Slice):
                return self.row_slice(o, t, shp, k, st)
            return self.newarr(st, None)
        # 1-D
        if isinstance(k, tuple) and len(k) == 1:
            k = k[0]
        r = self.norm_index(k, shp, 0, st)
        if r is not None:
            return z3.Select(t, r)
        sw = self.swap_index(k, st)
        if sw is not None:
            return st.alloc('ndarray', val=None, shape=None, swapof=(o.id, sw[0], sw[1], t))
        kt = self.arr(k, st) if not isinstance(k, (Slice, tuple)) else None
        if kt is not None and kt.sort() == BV and srt == V:
            # v[mask]: kept as a masked full-length vector
            return st.alloc('ndarray', val=vmask(kt, t), shape=None, mask=kt)
        if kt is not None and kt.sort() == BV and srt == IV:
            if shp is None:
                return self.newarr(st, None)
            n = self.as_int(shp[0], st)
            st.assume(z3.And(filtlen(t, kt, n) >= 0, z3.Implies(n >= 0, filtlen(t, kt, n) <= n)))
            return self.newarr(st, ivfilt(t, kt, n), (filtlen(t, kt, n),))
        if kt is not None and kt.sort() == IV and srt in (V, IV):
            return st.alloc('ndarray', val=(vgather if srt == V else ivgather)(t, kt), shape=st.heap[k.id].f.get('shape') if isinstance(k, Ref) else None)
        if isinstance(k, Slice):
            if self.full(k):
                return self.view(st, t, shp, o)
            if self.spec.matrix and srt == V and isinstance(k.lo, int) and not isinstance(k.lo, bool) and k.lo > 0 and k.hi is None and k.step is None:
                return self.view(st, vdrop(t, z3.IntVal(k.lo)), None, o)
            if shp is not None and (k.step is None or (isinstance(k.step, int) and k.step in (1, -1))):
                n = self.as_int(shp[0], st)
                if k.step == -1:
                    if k.lo is None and k.hi is None and srt == IV:
                        return self.view(st, ivslice(t, n - 1, z3.IntVal(-1)), (n,), o)
                    return self.view(st, fresh('slice', srt), None, o)
                lo = self.clamp_index(k.lo, n, st) if k.lo is not None and not (isinstance(k.lo, int) and k.lo == 0) else None
                hi = self.clamp_index(k.hi, n, st) if k.hi is not None else n
                if hi is not None and (k.lo is None or (isinstance(k.lo, int) and k.lo == 0)):
                    return self.view(st, t, (hi,), o)     # prefix: same entries, shorter
                if hi is not None and lo is not None and srt == IV:
                    return self.view(st, ivslice(t, lo, z3.IntVal(1)), (z3.If(hi >= lo, hi - lo, 0),), o)
            elif (k.lo is None or (isinstance(k.lo, int) and k.lo == 0)) and k.step is None:
                return self.view(st, t, None, o)
            return self.view(st, fresh('slice', srt), None, o)
        return self.newarr(st, fresh('fancy', srt) if srt in (V, IV, BV) else None, None)

    def clamp_index(self, k, n, st):
        """end of a slice of an array with n entries (Python's clamping), or None"""
        if isinstance(k, int) and not isinstance(k, bool) and k < 0:
            return z3.If(n + k >= 0, n + k, 0)
        h = self.norm_index(k, None, 0, st)
        if h is None or h.eq(n):
            return h
        if self.check(st.pc, z3.And(0 <= h, h <= n), 1000) == 'proved':
            return h
        return z3.If(h < 0, z3.If(n + h >= 0, n + h, 0), z3.If(h <= n, h, n))

    def view(self, st, t, shp, o):
        return st.alloc('ndarray', val=t, shape=shp, sliceof=o)

    def row_slice(self, o, t, shp, k, st):
        if (k.lo is None or (isinstance(k.lo, int) and k.lo == 0)) and k.step is None and k.hi is not None:
            hi = self.clamp_index(k.hi, self.as_int(shp[0], st), st) if shp else self.norm_index(k.hi, shp, 0, st)
            if hi is not None:
                return self.view(st, t, (hi, shp[1] if shp and len(shp) > 1 else fresh('dim', z3.IntSort())), o)
        if self.spec.matrix and isinstance(k.lo, int) and k.lo > 0 and k.hi is None and k.step is None:
            return self.view(st, mdrop(t, z3.IntVal(k.lo)), None, o)
        return self.view(st, None, None, o)

    def coerce_to(self, srt, v, st):
        """Value as an element of array sort srt's range."""
        if srt == V:
            return self.as_real(v, st)
        if srt == IV:
            return self.as_int(v, st)
        if srt == BV:
            return to_z3(self.truth(v, st))
        raise Unsupported('element of %s' % srt)

    def setitem(self, o, k, v, st):
        if isinstance(o, Union):
            for c, x in o.alts:
                if not isinstance(x, Ref):
                    continue
                before = st.heap[x.id]
                self.setitem(x, k, v, st)
                after = st.heap[x.id]
                if after is not before:
                    f = {}
                    for n in after.f:
                        f[n] = self.mkunion([(c, after.f[n]), (bnot(c), before.f[n])]) if n in before.f and not self.same(after.f[n], before.f[n]) else after.f[n]
                    st.heap[x.id] = Cell(after.cls, f)
            return
        if isinstance(o, Opq):
            return
        if not isinstance(o, Ref):
            raise Unsupported('setitem on %r' % (o,))
        c = st.heap[o.id]
        if c.cls == 'dict':
            items = dict(c.f.get('items', {}))
            if isinstance(k, str):
                items[k] = v
                st.heap[o.id] = c.put(items=items)
            else:
                self.spec.dict_set(self, st, o, k, v)
            return
        if c.cls == 'list':
            it = c.f.get('items')
            if it is not None and isinstance(k, int) and -len(it) <= k < len(it):
                it = list(it)
                it[k] = v
                st.heap[o.id] = c.put(items=tuple(it))
                return
            self.spec.list_set(self, st, o, k, v)
            return
        if c.cls != 'ndarray':
            raise Unsupported('setitem on %s' % c.cls)
        t = self.arr(o, st)
        if t is None:
            self.set_array(st, o, None)
            return
        shp = c.f.get('shape')
        srt = t.sort()
        if srt == M:
            if isinstance(k, tuple) and len(k) == 2:
                r = self.norm_index(k[0], shp, 0, st)
                j = self.norm_index(k[1], shp, 1, st)
                if r is not None and self.full(k[1]):
                    vt = self.arr(v, st)
                    if vt is None and is_num(v):
                        vt = vconst(v)
                    self.set_array(st, o, z3.Store(t, r, vt if vt is not None and vt.sort() == V else fresh('row', V)))
                    return
                if r is not None and j is not None:
                    self.set_array(st, o, z3.Store(t, r, z3.Store(z3.Select(t, r), j, self.as_real(v, st))))
                    return
            elif self.norm_index(k, shp, 0, st) is not None:
                r = self.norm_index(k, shp, 0, st)
                vt = self.arr(v, st)
                self.set_array(st, o, z3.Store(t, r, vt if vt is not None and vt.sort() == V else fresh('row', V)))
                return
            sw = self.swap_index(k, st)
            if sw is not None:
                sv = self.as_swapped(v, o, sw, st)
                if sv is not None:
                    a, b = sw
                    self.set_array(st, o, z3.Store(z3.Store(t, a, z3.Select(t, b)), b, z3.Select(t, a)))
                    return
            w = fresh('mat', M)
            if self.spec.matrix and isinstance(k, tuple) and len(k) == 2 and self.full(k[0]):
                j = self.norm_index(k[1], shp, 1, st) if not isinstance(k[1], Slice) else None
                if j is not None and is_num(v):
                    c = self.as_real(v, st)
                    st.assume(Schem(lambda i: z3.Select(w, i) == z3.Store(z3.Select(t, i), j, c), rows=True))
                elif isinstance(k[1], Slice) and isinstance(k[1].lo, int) and k[1].lo >= 0 and k[1].hi is None and k[1].step is None:
                    vt, lo = self.arr(v, st) if self.is_arr(v, st) else None, z3.IntVal(k[1].lo)
                    if vt is not None and vt.sort() == M:
                        st.assume(Schem(lambda i: z3.Select(w, i) == vput(z3.Select(t, i), z3.Select(vt, i), lo), rows=True))
            self.set_array(st, o, w)
            return
        if isinstance(k, tuple) and len(k) == 1:
            k = k[0]
        if self.spec.matrix and srt == V and isinstance(k, Slice) and isinstance(k.lo, int) and k.lo >= 0 and k.hi is None and k.step is None and is_num(v):
            self.set_array(st, o, vput(t, vconst(self.as_real(v, st)), z3.IntVal(k.lo)))
            return
        r = self.norm_index(k, shp, 0, st)
        if r is not None:
            self.set_array(st, o, z3.Store(t, r, self.coerce_to(srt, v, st)))
            return
        sw = self.swap_index(k, st)
        if sw is not None and self.as_swapped(v, o, sw, st):
            a, b = sw
            self.set_array(st, o, z3.Store(z3.Store(t, a, z3.Select(t, b)), b, z3.Select(t, a)))
            return
        kt = self.arr(k, st) if not isinstance(k, (Slice, tuple)) else None
        if kt is not None and kt.sort() == IV and isinstance(k, Ref) and 'idxmask' in st.heap[k.id].f and (is_num(v) or is_boolish(v)):
            kt = st.heap[k.id].f['idxmask'][0]         # x[np.where(mask)[0]] = scalar
        if kt is not None and kt.sort() == BV:
            w = vwhere if srt == V else ivwhere if srt == IV else None
            if w is not None:
                vt = self.arr(v, st)
                if vt is None and (is_num(v)):
                    vt = vconst(v) if srt == V else z3.K(z3.IntSort(), to_z3(v))
                if vt is not None and vt.sort() == srt:
                    self.set_array(st, o, w(kt, vt, t))
                    return
        if self.full(k):
            vt = self.arr(v, st)
            if vt is None and is_num(v) and srt == V:
                vt = vconst(v)
            if vt is not None and vt.sort() == srt:
                self.set_array(st, o, vt)
                return
        self.set_array(st, o, fresh('arr', srt))

    # swaps:  a[[i,j], :] = a[[j,i], :]
    def swap_index(self, k, st):
        if isinstance(k, tuple) and len(k) == 2 and self.full(k[1]):
            k = k[0]
        if isinstance(k, Ref) and st.heap[k.id].cls == 'list':
            it = st.heap[k.id].f.get('items')
            if it is not None and len(it) == 2 and all(is_num(x) for x in it):
                return (self.as_int(it[0], st), self.as_int(it[1], st))
        return None

    def as_swapped(self, v, o, sw, st):
        """True when v was read as o[[j,i]] from the same array."""
        if isinstance(v, Ref):
            c = st.heap[v.id]
            fs = c.f.get('swapof')
            if fs is not None and fs[0] == o.id and fs[1].eq(sw[1]) and fs[2].eq(sw[0]) and fs[3].eq(self.arr(o, st)):
                return True
        return None

    # ------------------------------------------------------------------ lists
    def list_mem(self, c):
        """set of integers contained in a list, as a boolean array (None = not known)"""
        it = c.f.get('items')
        if it is None:
            return c.f.get('mem')
        if not all(is_num(x) and not is_boolish(x) and (isinstance(x, int) or (is_z3(x) and z3.is_int(x))) for x in it):
            return None
        m = z3.K(z3.IntSort(), z3.BoolVal(False))
        for x in it:
            m = z3.Store(m, to_z3(x), z3.BoolVal(True))
        return m

    def list_append(self, o, v, st):
        c = st.heap[o.id]
        it = c.f.get('items')
        if it is not None:
            st.heap[o.id] = Cell('list', dict(items=it + (v,)))
        else:
            n = c.put(len=c.f['len'] + 1)
            if 'mem' in n.f and isinstance(v, Union):
                alts = [(d, x) for d, x in v.alts if not (x is None and not self.feasible(st.pc + [to_z3(d)]))]
                if alts and all(isinstance(x, int) and not isinstance(x, bool) or is_z3(x) and z3.is_int(x) for _, x in alts):
                    v = self.mkunion([(d, self.as_int(x, st)) for d, x in alts])
            if 'mem' in n.f:
                if is_num(v) and not is_boolish(v) and (isinstance(v, int) or (is_z3(v) and z3.is_int(v))):
                    n = n.put(mem=z3.Store(n.f['mem'], to_z3(v), z3.BoolVal(True)))
                else:
                    g = dict(n.f)
                    g.pop('mem')
                    n = Cell('list', g)
            st.heap[o.id] = n
            self.spec.on_append(self, st, o, v)

    def list_extend(self, o, v, st):
        c = st.heap[o.id]
        it = c.f.get('items')
        if it is not None and isinstance(v, Ref) and st.heap[v.id].cls == 'list' and st.heap[v.id].f.get('items') is not None:
            st.heap[o.id] = Cell('list', dict(items=it + st.heap[v.id].f['items']))
            return
        n = fresh('len', z3.IntSort())
        st.assume(n >= 0)
        f = dict(items=None, len=n)
        if isinstance(v, Ref) and st.heap[v.id].cls == 'list':
            ma, mb = self.list_mem(c), self.list_mem(st.heap[v.id])
            if ma is not None and mb is not None:
                f['mem'] = bvor(ma, mb)
        st.heap[o.id] = Cell('list', f)
        if 'mem' in f:
            self.spec.on_append(self, st, o, None)
