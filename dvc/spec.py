"""Specification layer: contracts on repository functions, field types, callbacks."""
import ast, json, os, z3
from .values import *
from .vec import *
from .exprs import Params
from .engine import Engine

# functions of the repository when the contracts were written: a helper that appears later is executed in place, not by its write effects
KNOWN = frozenset(json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'known.json'))))
H_NONE = z3.Bool('h_is_none')
C, Mo = 'controller.Controller', 'model.Model'
TYPES = {
    C: dict(objfun='user:objfun', h='h', lh='opq', prox_uh='user:prox', argsf='opq', argsh='opq', argsprox='opq', maxfun='int', model='obj:' + Mo, nf='int', nx='int',
            rhobeg='real', delta='real', rho='real', rhoend='real', diffs='list', finished_growing='bool', finished_halfway_growing='bool', last_iters_step_taken='list',
            last_fopts_step_taken='list', num_slow_iters='int', last_successful_iter='int', last_successful_run='int', last_run_fopt='real', scaling_changes='scaling', do_logging='bool'),
    Mo: dict(do_logging='bool', scaling_changes='scaling', dim='int', resid_dim='int', num_pts='int', npt_so_far='int', h='h', argsh='opq', xbase='vecn', sl='vecn', su='vecn', xl='vecn', xu='vecn',
             projections='projs', d_max_iters='int', d_tol='real', points='matn', fval_v='matm', objval='vecp', kopt='int', nsamples='ivecp', objbeg='real', eval_num='ivecp', abs_tol='real', rel_tol='real',
             model_const='vecm', model_jac='mat', model_jac_eval_nums='opt:ivec', xsave='opt:vec', rsave='opt:vec', objsave='opt:real', jacsave='opt:mat', nsamples_save='opt:int', eval_num_save='opt:int',
             jacsave_eval_nums='opt:ivec', factorisation_current='bool', Q='opq', R='opq', qr_of_transpose='bool', precondition='bool', left_scaling='opq', right_scaling='opq'),
    'controller.ExitInformation': dict(flag='int', msg='str'),
}


def params_types(prog):
    """key -> (type, None allowed, lower, upper), by running the repository's own parameter table."""
    ns = {'__name__': 'params'}
    exec(compile(prog.src['params'], 'params.py', 'exec'), ns)
    pl = ns['ParameterList'](3, 4, 100)
    out = {}
    for k in pl.params:
        try:
            out[k] = pl.param_type(k, 4)
        except Exception:
            out[k] = ('opq', True, None, None)
    return out


class Contract(object):
    """requires/ensures: fn(ctx) -> list of (label, formula); modifies: list of ('ghost', name) or ('field', path) with path like 'self.nf'."""

    def __init__(self, q, args=None, requires=None, ensures=None, modifies=(), result=None, trusted=False, pre_setup=None, note=None, assume=None, arith=None, opts=None):
        self.q, self.args, self.req, self.ens, self.modifies, self.res = q, args or {}, requires, ensures, list(modifies), result
        self.trusted, self.note, self.pre_setup, self.assume_fn, self.arith, self.opts = trusted, note, pre_setup, assume, arith, opts or {}

    def path(self, E, st, env, path):
        """-> (ref, field)"""
        parts = path.split('.')
        o = env[parts[0]]
        for p in parts[1:-1]:
            o = E.getattr(o, p, st)
        return o, parts[-1]

    def apply(self, E, st, env):
        cx = Ctx(E, None, st, env, None)
        E.spec.before_requires(E, self, st, env)
        if self.req:
            for label, f in self.req(cx):
                E.oblige(st, 'call of %s at %s: %s' % (self.q, E.where(), label), f)
                st.assume(f)
        E.spec.before_apply(E, self, st, env)
        for m in self.modifies:          # make sure the pre-values exist
            if m[0] == 'field':
                o, f = self.path(E, st, env, m[1])
                E.getattr(o, f, st)
        pre = st.copy()
        W = set(E.P.effects(self.q)[0])
        keep = E.spec.tracked_fields
        E.havoc_fields(st, W - keep, env)
        for m in self.modifies:
            if m[0] == 'ghost':
                st.ghost[m[1]] = E.fresh_like([E.shape_of(st.ghost[m[1]], st)], st, m[1])
            else:
                o, f = self.path(E, st, env, m[1])
                ty = m[2] if len(m) > 2 else None
                for x in ([y for _, y in o.alts] if isinstance(o, Union) else [o]):
                    if not isinstance(x, Ref):
                        continue
                    v = E.getattr(x, f, st)
                    if isinstance(v, Ref) and st.heap[v.id].cls == 'ndarray' and 'base' not in st.heap[v.id].f:
                        st.heap[v.id] = E.fresh_cell(st.heap[v.id], st)
                        E.forget_views(st, v.id)
                    cls = st.heap[x.id].cls
                    t = ty or TYPES.get(cls, {}).get(f, 'opq')
                    st.setf(x, **{f: E.spec.mk(E, st, t, f, x)})
        res = self.res(Ctx(E, pre, st, env, None)) if self.res else Opq(self.q.split('.')[-1])
        cx = Ctx(E, pre, st, env, res)
        if self.ens:
            for label, f in self.ens(cx):
                st.assume(f)
        E.spec.after_apply(E, self, pre, st, env, res)
        return res

    def verify(self, E):
        """Executes the body from an arbitrary state satisfying the precondition; obligations end up in E.obls."""
        fn = E.P.fns[self.q]
        st = State()
        E.verifying = self.q
        E.spec.init_ghost(E, st)
        selfv = None
        env = {}
        if fn.cls and not fn.static:
            selfv = st.alloc(fn.cls)
            env[fn.params[0]] = selfv
        for p in fn.params[(1 if selfv is not None else 0):] + fn.kwonly:
            env[p] = E.spec.mk(E, st, self.args.get(p, E.spec.arg_type(self.q, p)), p, None)
        if fn.vararg:
            env[fn.vararg] = Opq('args')
        if self.pre_setup:
            self.pre_setup(Ctx(E, None, st, env, None))
        E.spec.entry_facts(E, st, env, self)
        for m in self.modifies:
            if m[0] == 'field':
                o, f = self.path(E, st, env, m[1])
                E.getattr(o, f, st)
        if self.req:
            for label, f in self.req(Ctx(E, None, st, env, None)):
                st.assume(f)
        E.spec.touch(E, st, env, self)
        pre = st.copy()
        E.pre = pre
        E.pre_ok = E.feasible(st.pc)
        res = E.run_function(self.q, st, dict(env), selfv)
        if st.dead:
            E.notes.add('%s: no normal return' % self.q)
            return None
        E.line = 'exit'
        cx = Ctx(E, pre, st, env, res)
        if self.ens:
            for label, f in self.ens(cx):
                E.oblige(st, '%s ensures %s' % (self.q, label), f, self.q)
        # frame
        mod = {m[1] for m in self.modifies if m[0] == 'ghost'}
        for g in pre.ghost:
            if g not in mod and not g.startswith('P:') and g in E.spec.framed_ghosts and not E.same(pre.ghost[g], st.ghost[g]):
                E.oblige(st, '%s frame: ghost %s unchanged' % (self.q, g), eqval(E, pre, st, pre.ghost[g], st.ghost[g]), self.q)
        modf = set()
        for m in self.modifies:
            if m[0] == 'field':
                o, f = self.path(E, pre, env, m[1])
                for x in ([y for _, y in o.alts] if isinstance(o, Union) else [o]):
                    if isinstance(x, Ref):
                        modf.add((x.id, f))
        for i, c in pre.heap.items():
            if c.cls in ('ndarray', 'list', 'dict'):
                continue
            for f, v in c.f.items():
                if f in E.spec.tracked_fields and (i, f) not in modf:
                    w = st.heap[i].f.get(f)
                    g = eqval(E, pre, st, v, w)
                    if g is not True:
                        E.oblige(st, '%s frame: field %s unchanged' % (self.q, f), g, self.q)
        self.final = st
        return st


def eqval(E, pre, st, v, w):
    if w is None and v is not None and not isinstance(v, Union):
        return False
    if isinstance(v, Ref) and isinstance(w, Ref):
        a, b = E.arr(v, pre), E.arr(w, st)
        if a is not None and b is not None and a.sort() == b.sort():
            return True if a.eq(b) else (a == b)
        return v.id == w.id and (pre.heap[v.id] is st.heap[w.id] or pre.heap[v.id].cls not in ('ndarray', 'list', 'dict'))
    if E.same(v, w):
        return True
    if (is_z3(v) or is_z3(w)) and not isinstance(v, Union) and not isinstance(w, Union):
        try:
            a, b = to_z3(v), to_z3(w)
            if z3.is_int(a) != z3.is_int(b) and z3.is_arith(a) and z3.is_arith(b):
                a, b = to_real(a), to_real(b)
            return a == b
        except Exception:
            return False
    if isinstance(v, (int, float, str, bool)) and isinstance(w, (int, float, str, bool)):
        return v == w
    if isinstance(w, Union) or isinstance(v, Union):
        u, o = (w, v) if isinstance(w, Union) else (v, w)
        if isinstance(o, Union):
            return bor(*[band(c, d, eqval(E, pre, st, x, y)) for c, x in v.alts for d, y in w.alts if eqval(E, pre, st, x, y) is not False])
        gs = []
        for c, x in u.alts:
            e = eqval(E, pre, st, o, x) if u is w else eqval(E, pre, st, x, o)
            if e is not False:
                gs.append(band(c, e))
        return bor(*gs) if gs else False
    return False


class Ctx(object):
    """What requires/ensures see."""

    def __init__(self, E, pre, st, env, res):
        self.E, self.pre, self.st, self.env, self.res = E, pre, st, env, res

    def g(self, name):
        return self.st.ghost[name]

    def og(self, name):
        return self.pre.ghost[name]

    def f(self, path, st=None):
        st = st or self.st
        parts = path.split('.')
        o = self.env[parts[0]]
        for p in parts[1:]:
            o = self.E.getattr(o, p, st)
        return o

    def of(self, path):
        return self.f(path, self.pre)

    def i(self, path):
        return self.E.as_int(self.f(path), self.st)

    def oi(self, path):
        return self.E.as_int(self.of(path), self.pre)

    def r(self, path):
        return self.E.as_real(self.f(path), self.st)

    def orr(self, path):
        return self.E.as_real(self.of(path), self.pre)

    def a(self, path):
        return self.E.arr(self.f(path), self.st)

    def oa(self, path):
        return self.E.arr(self.of(path), self.pre)

    def arr(self, v):
        return self.E.arr(v, self.st)

    def b(self, v):
        return to_z3(self.E.truth(v, self.st))


def isnone(E, v, st):
    return E.is_none(v, st)


class Spec(object):
    matrix = False                # matrix products, transposes and scalings as terms
    use_dot = False
    ext_pairs = False
    skip_empty = False             # decide by the solver whether a range loop has no iterations at all
    inst_cap = 5000
    vec_arith = True                # False: element-wise vector arithmetic gives unknown vectors
    houdini_timeout = 3000
    generic_timeout = None          # for the built-in candidates
    no_generic = frozenset()        # integer fields without built-in candidates
    tracked_calls = frozenset()
    tracked_fields = frozenset()
    framed_ghosts = frozenset()
    interest = None                # {cls: set(fields)} or None = all typed
    frame_exempt = frozenset()
    rebinds = {}
    inline_set = frozenset()
    inline_prefix = ('\0',)        # qualified-name prefixes of functions executed in place rather than by their write effects
    argtypes = {}
    scaling_mode = 'opq'           # 'opq' | 'none' | 'tuple'

    def __init__(self, prog):
        self.prog = prog
        self.contracts = {}
        self.ptypes = params_types(prog)
        self.assumptions = []

    # -- contracts
    def add(self, *cs):
        for c in cs:
            self.contracts[c.q] = c

    def contract(self, q):
        return self.contracts.get(q)

    def on_call(self, E, q, env, st):
        return NotImplemented

    def inline(self, E, q, env, st):
        if q in self.inline_set or q.startswith(self.inline_prefix) or q not in KNOWN:
            return True
        for v in env.values():
            for x in ([y for _, y in v.alts] if isinstance(v, Union) else v if isinstance(v, tuple) else [v]):
                if isinstance(x, User) and x.name in self.tracked_calls:
                    return True
        W, Cc, _ = self.prog.effects(q)
        return bool(W & self.tracked_fields) or bool(Cc & self.tracked_calls)

    def before_requires(self, E, c, st, env):
        pass

    def before_apply(self, E, c, st, env):
        pass

    def after_apply(self, E, c, pre, st, env, res):
        pass

    # -- values
    def arg_type(self, q, p):
        d = {'params': 'params', 'nsamples': 'user:nsamples', 'self': 'opq', 'h': 'h', 'objfun': 'user:objfun', 'x': 'vec', 'd': 'vec', 'x0': 'vec', 'xl': 'vec', 'xu': 'vec', 'k': 'int', 'number_of_samples': 'int',
             'control': 'obj:' + C, 'nf': 'int', 'nx': 'int', 'maxfun': 'int', 'npt': 'int', 'scaling_changes': 'scaling', 'projections': 'projs', 'current_iter': 'int', 'nruns_so_far': 'int',
             'nf_so_far': 'int', 'nx_so_far': 'int', 'do_logging': 'bool', 'print_progress': 'bool', 'rhobeg': 'real', 'rhoend': 'real', 'skip_kopt': 'bool', 'delta': 'real',
             'num_directions': 'int', 'num_pts_to_move': 'int', 'min_num_steps': 'int', 'eval_num': 'int', 'knew': 'int', 'adelt': 'real', 'rvec': 'vec', 'rvec_extra': 'vec', 'k1': 'int', 'k2': 'int',
             'allow_kopt_update': 'bool', 'update_delta': 'bool', 'distsq_thresh': 'real'}
        return self.argtypes.get((q, p)) or self.argtypes.get(p) or d.get(p, 'opq')

    def mk(self, E, st, ty, name, owner):
        if callable(ty):
            return ty(E, st)
        if ty == 'int':
            return fresh(name, I)
        if ty == 'nat':
            v = fresh(name, I)
            st.assume(v >= 0)
            return v
        if ty == 'real':
            return fresh(name, R)
        if ty == 'bool':
            return fresh(name, B)
        if ty == 'none':
            return None
        if ty == 'params':
            return Params()
        if ty == 'h':
            return Union([(H_NONE, None), (z3.Not(H_NONE), User('h'))])
        if ty == 'hfun':
            return User('h')
        if ty.startswith('user:'):
            return User(ty[5:])
        if ty.startswith('obj:'):
            return st.alloc(ty[4:])
        if ty == 'list':
            n = fresh('len', I)
            st.assume(n >= 0)
            return st.alloc('list', items=None, len=n)
        if ty == 'projs':
            n = fresh('nproj', I)
            st.assume(n >= 0)
            return st.alloc('list', items=None, len=n, kind='proj')
        if ty == 'str':
            return Opq('str')
        if ty == 'scaling':
            return self.mk_scaling(E, st)
        if ty.startswith('opt:'):
            b = fresh(name + '_none', B)
            return Union([(b, None), (z3.Not(b), self.mk(E, st, ty[4:], name, owner))])
        if ty in ('vec', 'vecn', 'vecm', 'vecp', 'ivec', 'ivecp', 'mat', 'matn', 'matm', 'bvec'):
            srt = IV if ty.startswith('ivec') else M if ty.startswith('mat') else BV if ty == 'bvec' else V
            shp = None
            if owner is not None and st.heap[owner.id].cls == Mo and ty not in ('vec', 'ivec', 'mat'):
                d = lambda f: E.getattr(owner, f, st)
                shp = {'vecn': lambda: (d('dim'),), 'vecm': lambda: (d('resid_dim'),), 'vecp': lambda: (d('num_pts'),), 'ivecp': lambda: (d('num_pts'),), 'matn': lambda: (d('num_pts'), d('dim')), 'matm': lambda: (d('num_pts'), d('resid_dim'))}[ty]()
            return E.newarr(st, fresh(name, srt), shp)
        return Opq(name)

    def mk_scaling(self, E, st):
        return Opq('scaling')

    def lazy_field(self, E, st, o, cls, name):
        t = TYPES.get(cls, {}).get(name)
        if t is None or (self.interest is not None and name not in self.interest.get(cls, ())):
            return Opq(name)
        return self.mk(E, st, t, name, o)

    def construct(self, E, q, args, kw, st):
        if q == 'params.ParameterList':
            return Params()
        return NotImplemented

    # -- parameters
    def pinit(self, E, st, key):
        if not hasattr(E, 'pcache'):
            E.pcache = {}
        if key not in E.pcache:
            t = self.ptypes.get(key, ('opq', True, None, None))
            facts = []
            nm = 'P_' + key.replace('.', '_')
            if t[0] == 'bool':
                v = z3.Bool(nm)
            elif t[0] in ('int', 'float'):
                v = z3.Int(nm) if t[0] == 'int' else z3.Real(nm)
                if t[0] == 'float' and E.A.name == 'order':
                    facts.append(z3.And(NINF <= v, v <= PINF))         # not NaN
                if t[2] is not None:
                    facts.append(v >= t[2] if t[0] == 'int' else v >= to_real(t[2]))
                if t[3] is not None:
                    facts.append(v <= t[3] if t[0] == 'int' else v <= to_real(t[3]))
            else:
                v = Opq(nm)
            if t[1] and not isinstance(v, Opq):
                b = z3.Bool(nm + '_none')
                v = Union([(b, None), (z3.Not(b), v)])
            E.pcache[key] = (v, facts)
        v, facts = E.pcache[key]
        for f in facts:
            if not any(f is p for p in st.pc):
                st.pc.append(f)
        return v

    def params_call(self, E, st, args, kw):
        key = args[0] if args else kw.get('key')
        nv = kw.get('new_value', args[1] if len(args) > 1 else None)
        if not isinstance(key, str):
            return self.params_dynamic(E, st, key, nv)
        if nv is None:
            g = st.ghost.get('P:' + key)
            return g if g is not None else self.pinit(E, st, key)
        if isinstance(nv, Opq) or isinstance(nv, Union):
            raise Unsupported('parameter set to unknown value')
        self.on_param_set(E, st, key, nv)
        st.ghost['P:' + key] = nv
        return nv

    def params_dynamic(self, E, st, key, nv):
        return Opq('param')

    def on_param_set(self, E, st, key, nv):
        pass

    def ghost_default(self, E, g):
        if g.startswith('P:'):
            d = State()
            return self.pinit(E, d, g[2:])
        raise Unsupported('ghost %s' % g)

    # -- verification entry
    def init_ghost(self, E, st):
        pass

    def entry_facts(self, E, st, env, c):
        pass

    def touch(self, E, st, env, c):
        pass

    # -- callbacks
    def user_call(self, E, st, f, args, kw):
        return Opq(f.name)

    def opaque_call(self, E, st, f, args, kw):
        return Opq('call')

    def opaque_method(self, E, st, o, name, args, kw):
        return Opq(name)

    def method_call(self, E, st, o, name, args, kw):
        if isinstance(o, Params):
            return self.params_method(E, st, name, args, kw)
        return NotImplemented

    def params_method(self, E, st, name, args, kw):
        return Opq(name)

    def ext_call(self, E, name, args, kw, st):
        return NotImplemented

    def rmul(self, E, st, x, y):
        return E.A.mul(x, y)

    def rdiv(self, E, st, x, y):
        if E.A.name == 'real':
            st.assume(y != 0) if not z3.is_rational_value(y) else None
        return E.A.div(x, y)

    def opq_int(self, o):
        return False

    def on_array_write(self, E, st, ref):
        pass

    def on_assert(self, E, st, c, node):
        pass

    def on_raise(self, E, st, node):
        pass

    def on_exc(self, E, st, why):
        pass

    def on_setattr(self, E, st, o, name, v):
        pass

    def on_append(self, E, st, o, v):
        pass

    def on_list_insert(self, E, st, o, args):
        pass

    def on_dict_mutate(self, E, st, o, name):
        pass

    def on_format(self, E, st, fmt, vals):
        pass

    def on_global_rng(self, E, st, name):
        pass

    def on_loop(self, E, s, entry, o, i):
        pass

    def list_item(self, E, st, o, k):
        if st.heap[o.id].f.get('kind') == 'proj':
            return User('proj', k)
        if st.heap[o.id].f.get('arr') is not None:
            kk = E.norm_index(k, None, 0, st)
            if kk is not None:
                return z3.Select(st.heap[o.id].f['arr'], kk)
        return NotImplemented

    def list_set(self, E, st, o, k, v):
        st.heap[o.id] = Cell('list', dict(items=None, len=st.heap[o.id].f['len'] if st.heap[o.id].f.get('items') is None else z3.IntVal(len(st.heap[o.id].f['items']))))

    def dict_set(self, E, st, o, k, v):
        st.heap[o.id] = Cell('dict', dict(items={}, open=True))

    def copy_list(self, E, st, v):
        return NotImplemented

    def axioms(self):
        return ()

    def mat_item(self, E, st, o, t, k):
        return NotImplemented

    def loop_candidates(self, E, s, entry, mod, it):
        return []
