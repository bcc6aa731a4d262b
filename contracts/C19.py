"""C19: results are reproducible, caller data are never modified.

Reproducibility is a frame condition: no function reachable from solve draws from a global random generator (or keeps state between calls) unless one of the options
documented as using random directions is on, so the evaluation points and the result are a function of the arguments (and of what the user's callbacks return).  Caller data: at
every exit of solve the contents of the caller's x0, lower bound and upper bound arrays, and of user_params, are those at entry."""
import ast
import z3
from dvc.values import *
from dvc.vec import *
from dvc.spec import *
from contracts.common import Common, A_CALLBACKS, A_EFFECTS, A_NUMPY, A_PARAMS

ARITH = Order
LEVEL = 'proof'
RNG_NAMES = frozenset(['normal', 'randn', 'rand', 'randint', 'uniform', 'choice', 'shuffle', 'permutation', 'seed', 'random', 'standard_normal', 'random_sample', 'sample', 'integers', 'bytes',
                       'multivariate_normal', 'exponential', 'RandomState', 'default_rng', 'Generator', 'gauss', 'normalvariate', 'get_state', 'set_state', 'urandom', 'uuid4', 'token_bytes'])
ASSUMPTIONS = [A_CALLBACKS, A_EFFECTS, A_NUMPY, A_PARAMS,
               'options documented as using random directions: init.random_initial_directions, npt > (n+1)(n+2)/2, a growing start (growing.ndirs_initial < npt-1), growing.num_new_dirns_each_iter, '
               'growing.perturb_trust_region_step, restarts.increase_npt, regression.momentum_extra_steps; the reproducibility part assumes them all off',
               'the user\'s callbacks are deterministic; Python and NumPy/SciPy operations return the same value for the same arguments',
               'a generator constructed with an explicit seed is a deterministic object']
TRUSTED = ['util.qr_rank: the first result counts entries of the diagonal, so it is between 0 and the number of rows (numpy.sum of a boolean array)']
BOUNDED = ['the growing phase (reproducible when none of the listed options is on, run-time checked only)', 'bit-identical repetition itself (run-time checked)']
NPT, NN = z3.Int('NPT'), z3.Int('dimn')
exi = lambda cx: (lambda a: Union([(a, None), (z3.Not(a), cx.st.alloc('controller.ExitInformation'))]))(fresh('exn', B))


class S(Common):
    tracked_calls = RNG_NAMES
    tracked_fields = frozenset(['npt_so_far', 'num_pts'])
    framed_ghosts = frozenset(['$rng'])
    interest = {C: {'model'}, Mo: {'npt_so_far', 'num_pts', 'dim', 'projections', 'scaling_changes'}}
    no_generic = frozenset(['kopt'])
    inline_set = frozenset([Mo + '.npt', Mo + '.n', C + '.n'])

    def init_ghost(self, E, st):
        g = st.ghost
        b = lambda k: to_z3(E.truth(self.pinit(E, st, k), st))
        i = lambda k: E.as_int(self.pinit(E, st, k), st)
        st.assume(z3.Not(z3.Or(b('init.random_initial_directions'), b('restarts.increase_npt'), b('regression.momentum_extra_steps'))))
        st.assume(z3.And(i('growing.ndirs_initial') >= NPT - 1, i('restarts.hard.increase_ndirs_initial_amt') >= 0, NN >= 1, NPT <= (NN + 1) * (NN + 2) / 2))

    def inline(self, E, q, env, st):
        ids = {r.id for r in getattr(E, 'caller', {}).values()}

        def hit(v):
            if isinstance(v, Union):
                return any(hit(x) for _, x in v.alts)
            if isinstance(v, tuple):
                return any(hit(x) for x in v)
            if isinstance(v, Ref) and st.heap[v.id].cls in ('ndarray', 'dict'):
                a = st.heap[v.id].f.get('alias')
                return v.id in ids or (a is not None and hit(a))
            return False
        return any(hit(v) for v in env.values()) or Spec.inline(self, E, q, env, st)

    def rng(self, E, st, what):
        E.oblige(st, '%s is used only with an option documented as using random directions' % what, False)

    def ext_call(self, E, name, args, kw, st):
        root, short = name.split('.')[0], name.split('.')[-1]
        if name.startswith('numpy.random') or root in ('random', 'secrets', 'uuid') or name in ('os.urandom',):
            if short in ('RandomState', 'default_rng', 'SeedSequence', 'PCG64', 'MT19937'):
                s = list(args) + list(kw.values())
                if s and all(isinstance(x, int) for x in s):
                    return Opq('generator')
                n = to_z3(E.is_none(s[0], st)) if s else z3.BoolVal(True)
                E.oblige(st, 'a generator is seeded from the arguments', z3.Not(n))
                return Opq('generator')
            if short in ('Generator', 'Random') and args:
                return Opq('generator')
            self.rng(E, st, 'the global random generator (%s)' % name)
        return NotImplemented

    def opaque_method(self, E, st, o, name, args, kw):
        return Opq(name)

    def loop_candidates(self, E, s, entry, mod, it):
        cs = []

        def cand(label, fn):
            fn.label = label
            cs.append(fn)
        for m in sorted(mod, key=str):
            if m[0] == 'loc' and m[1] in entry.loc and (isinstance(entry.loc[m[1]], bool) or (is_z3(entry.loc[m[1]]) and z3.is_bool(entry.loc[m[1]]))):
                v = lambda st, n=m[1]: to_z3(E.truth(st.loc[n], st))
                cand('%s stays as it was' % m[1], lambda st, i, en, v=v: v(st) == v(en))
                cand('%s stays true' % m[1], lambda st, i, en, v=v: v(st))
            if m[0] == 'fld' and m[2] == 'npt_so_far' and it is not None and it[0] == 'range':
                w = lambda st, m=m: E.as_int(E.lookup(st, m), st)
                cand('one point per iteration', lambda st, i, en, w=w, lo=it[1]: z3.Implies(i >= lo, w(st) == w(en) + (i - lo)))
                for n in sorted(entry.loc):
                    if isinstance(entry.loc[n], Union) or entry.loc[n] is None:
                        cand('%s is None => one point per iteration' % n, lambda st, i, en, w=w, n=n, lo=it[1]: z3.Implies(z3.And(i >= lo, to_z3(E.is_none(st.loc[n], st))), w(st) == w(en) + (i - lo)))
        for m in sorted(mod, key=str):
            if m[0] == 'loc' and m[1] in entry.loc and (isinstance(entry.loc[m[1]], int) or (is_z3(entry.loc[m[1]]) and z3.is_int(entry.loc[m[1]]))) and not isinstance(entry.loc[m[1]], bool):
                cand('%s>=0' % m[1], lambda st, i, en, n=m[1]: E.as_int(st.loc[n], st) >= 0)
                cand('%s<=n' % m[1], lambda st, i, en, n=m[1]: E.as_int(st.loc[n], st) <= NN)
                cand('%s==npt' % m[1], lambda st, i, en, n=m[1]: E.as_int(st.loc[n], st) == NPT)
        return cs


def CI(cx):
    return [('npt >= n+1', NPT >= NN + 1), ('the set has room for npt points', int_of(cx, 'self.model.num_pts') == NPT), ('dimension', int_of(cx, 'self.model.dim') == NN)]


def int_of(cx, p, st=None):
    return cx.E.as_int(cx.f(p, st or cx.st), st or cx.st)


MOD = [('field', 'self.model.npt_so_far')]


def cp_ens(cx):
    k = cx.i('k')
    s0, n0 = int_of(cx, 'self.npt_so_far', cx.pre), int_of(cx, 'self.num_pts', cx.pre)
    return [('npt_so_far', int_of(cx, 'self.npt_so_far') == s0 + z3.If(z3.And(k >= s0, s0 < n0), 1, 0))]


def icd_req(cx):
    return CI(cx) + [('only the starting point is in the set', int_of(cx, 'self.model.npt_so_far') == 1), ('all directions at once', cx.i('num_directions') == NPT - 1),
                     ('no parallel initialisation', z3.Not(to_z3(cx.E.truth(cx.E.spec.pinit(cx.E, cx.st, 'init.run_in_parallel'), cx.st))))]


def icd_ens(cx):
    return CI(cx) + [('all points are in the set when no exit is reported', z3.Implies(to_z3(cx.E.is_none(cx.res, cx.st)), int_of(cx, 'self.model.npt_so_far') == NPT))]


def qr_result(cx):
    r = fresh('rank', I)
    cx.st.assume(z3.And(r >= 0, r <= NN))
    return (r, cx.E.newarr(cx.st, fresh('diag', V)))


def never(title):
    """callee that draws random directions: may only be reached with one of the options"""
    return lambda cx: [('%s is used only with an option documented as using random directions' % title, z3.BoolVal(False))]


RANDOM = ['util.random_directions_within_bounds', 'util.random_orthog_directions_within_bounds', C + '.get_new_direction_for_growing', C + '.add_new_direction_while_growing',
          C + '.move_furthest_points_momentum', C + '.initialise_random_directions']
V0 = {n: z3.Const('caller_' + n, V) for n in ('x0', 'lower', 'upper')}


def solve_setup(cx):
    E, st = cx.E, cx.st
    refs = {n: E.newarr(st, V0[n], (NN,)) for n in V0}
    cx.env['x0'] = refs['x0']
    a, b, c, u = (z3.Bool(n) for n in ('no_bounds', 'no_lower', 'no_upper', 'no_user_params'))
    lo, up = Union([(b, None), (z3.Not(b), refs['lower'])]), Union([(c, None), (z3.Not(c), refs['upper'])])
    cx.env['bounds'] = Union([(a, None), (z3.Not(a), (lo, up))])
    d = st.alloc('dict', items={}, open=True, mark='caller')
    cx.env['user_params'] = Union([(u, None), (z3.Not(u), d)])
    E.caller = dict(refs, user_params=d)
    st.alloc('$caller', **E.caller)            # these objects stay referenced from outside
    st.assume(NPT >= 1)
    n = z3.Bool('npt_default')
    st.assume(z3.Implies(n, NPT == NN + 1))
    cx.env['npt'] = Union([(n, None), (z3.Not(n), NPT)])


def solve_ens(cx):
    E, st, P = cx.E, cx.st, cx.E.P
    fs = []
    for n in ('x0', 'lower', 'upper'):
        t = st.heap[E.caller[n].id].f.get('val')
        fs.append(('the caller\'s %s array is unchanged' % n, z3.BoolVal(False) if t is None else z3.BoolVal(True) if t.eq(V0[n]) else t == V0[n]))
    fs.append(('the caller\'s user_params dictionary is unchanged', z3.BoolVal(st.heap[E.caller['user_params'].id].f.get('mark') == 'caller' and not st.heap[E.caller['user_params'].id].f.get('items'))))
    fs += [('a function built at run time draws no random numbers (%s)' % w, z3.BoolVal(False)) for w in lambdas(P)] or [('functions built at run time draw no random numbers', z3.BoolVal(True))]
    return fs + [('no state is kept between calls (%s)' % why, z3.BoolVal(ok)) for why, ok in hidden_state(P)]


def lambdas(P):
    """closures are called from functions that are not executed by the verifier: nothing below them may draw random numbers"""
    out, todo, seen = [], ['solver.solve'], set()
    while todo:
        q = todo.pop()
        if q in seen or q in RANDOM or q not in P.fns:
            continue
        seen.add(q)
        fn = P.fns[q]
        todo += list(P._direct(q)[2])
        for n in ast.walk(fn.node):
            if n is not fn.node and isinstance(n, (ast.Lambda, ast.FunctionDef)):
                for c in ast.walk(n):
                    if isinstance(c, ast.Call):
                        f = c.func
                        v = P.names[fn.mod].get(f.id) if isinstance(f, ast.Name) else None
                        cs = P.effects(v[1])[1] if v and v[0] == 'fn' else {f.attr} if isinstance(f, ast.Attribute) else set()
                        if cs & RNG_NAMES:
                            out.append('%s:%d' % (q, c.lineno))
    return sorted(set(out))


def hidden_state(P):
    """module-level names, class attributes, function attributes and mutable defaults written by functions reachable from solve"""
    bad = []
    for q in sorted(P.effects('solver.solve')[2]):
        fn = P.fns[q]
        loc = {n.id for n in ast.walk(fn.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | set(fn.params) | set(fn.kwonly)
        mod = P.names[fn.mod]
        glob = {x for n in ast.walk(fn.node) if isinstance(n, ast.Global) for x in n.names}

        def root(e):
            while isinstance(e, (ast.Subscript, ast.Attribute)):
                e = e.value
            return e.id if isinstance(e, ast.Name) else None
        a = fn.node.args
        dfl = {p.arg for p, d in list(zip((a.posonlyargs + a.args)[::-1], a.defaults[::-1])) + list(zip(a.kwonlyargs, a.kw_defaults)) if isinstance(d, (ast.List, ast.Dict, ast.Set, ast.Call))}
        dfl &= P.mutated_params().get(q, set())
        for n in ast.walk(fn.node):
            w = []
            if isinstance(n, (ast.Assign, ast.AugAssign)):
                w = [t for t in (n.targets if isinstance(n, ast.Assign) else [n.target])]
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUT:
                w = [ast.Subscript(value=n.func.value)]
            for t in w:
                r = root(t)
                if isinstance(t, ast.Name) and r in glob:
                    bad.append('%s writes the module variable %s' % (q, r))
                if isinstance(t, (ast.Subscript, ast.Attribute)) and r is not None and (r in glob or (r not in loc and mod.get(r, ('',))[0] in ('const', 'constof', 'fn', 'cls'))):
                    bad.append('%s writes into the module-level object %s' % (q, r))
        for p in sorted(dfl):
            if q != 'solver.solve' or not rebound_first(fn, p):
                bad.append('%s modifies the default value of %s' % (q, p))
    return [(b, False) for b in sorted(set(bad))] or [('no module variable, class attribute or default value is written by a function reachable from solve', True)]


MUT = {'append', 'pop', 'insert', 'extend', 'remove', 'clear', 'update', 'setdefault', 'popitem', 'add', 'discard', 'sort', 'reverse', 'fill'}


def rebound_first(fn, p):
    """the first use of p as a mutable object in solve is on a copy (projections = list(projections))"""
    for n in ast.walk(fn.node):
        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == p for t in n.targets):
            return True
    return False


def sm_req(cx):
    par = z3.Not(to_z3(cx.E.truth(cx.E.spec.pinit(cx.E, cx.st, 'init.run_in_parallel'), cx.st)))
    return [('npt is the user\'s', cx.i('npt') == NPT), ('npt >= n+1', NPT >= NN + 1), ('nruns_so_far >= 0', cx.i('nruns_so_far') >= 0), ('no parallel initialisation with coordinate directions', par)]


def sm_result(cx):
    r = [Opq('r%d' % k) for k in range(12)]
    r[7] = fresh('nruns', I)
    r[8] = cx.st.alloc('controller.ExitInformation')
    return tuple(r)


def sm_ens(cx):
    r = cx.res
    return [('run count', cx.E.as_int(r[7], cx.st) >= 0 if isinstance(r, tuple) and len(r) == 12 else False)]


def mk(P):
    s = S(P)
    trusted = []

    def add(*a, **k):
        t = k.pop('trust', False)
        c = Contract(*a, **k)
        s.add(c)
        if t:
            c.trusted = True
            trusted.append(c)
        return c
    for q in RANDOM:
        add(q, requires=never(q), trust=True)
    add('util.qr_rank', result=qr_result, trust=True)
    add(Mo + '.__init__', ensures=lambda cx: [('one point', int_of(cx, 'self.npt_so_far') == 1), ('capacity', int_of(cx, 'self.num_pts') == cx.i('npt')), ('dimension', int_of(cx, 'self.dim') == z3.Int('dimn'))],
        modifies=[('field', 'self.' + f) for f in ('npt_so_far', 'num_pts', 'dim')], args=dict(x0=lambda E, st: E.newarr(st, fresh('x0', V), (NN,)), r0='vec', r0_nsamples='int', r0_eval_num='int', abs_tol='real', rel_tol='real', npt='int', n='opt:int', m='opt:int'),
        requires=lambda cx: [('dimension', z3.And(*[z3.Implies(to_z3(c), cx.E.as_int(v, cx.st) == NN) for c, v in (cx.env['n'].alts if isinstance(cx.env['n'], Union) else [(True, cx.env['n'])]) if v is not None] or [z3.BoolVal(True)]))])
    add(C + '.__init__', requires=lambda cx: [('npt', z3.And(cx.i('npt') == NPT, NPT >= NN + 1))], ensures=lambda cx: CI(cx) + [('one point', int_of(cx, 'self.model.npt_so_far') == 1)], modifies=[('field', 'self.model.' + f) for f in ('npt_so_far', 'num_pts', 'dim')],
        args=dict(x0=lambda E, st: E.newarr(st, fresh('x0', V), (NN,)), npt='int'))
    add(Mo + '.change_point', ensures=cp_ens, modifies=[('field', 'self.npt_so_far')])
    add(C + '.initialise_coordinate_directions', requires=icd_req, ensures=icd_ens, modifies=MOD, result=exi)
    for nm, res in (('geometry_step', exi), ('soft_restart', exi), ('move_furthest_points', exi), ('check_and_fix_geometry', lambda cx: (fresh('did', B), exi(cx)))):
        add(C + '.' + nm, requires=CI, ensures=CI, modifies=MOD, result=res)
    add('solver.solve_main', requires=sm_req, ensures=sm_ens, result=sm_result, args=dict(x0=lambda E, st: E.newarr(st, fresh('x0', V), (NN,)), r0_avg_old='opt:vec', nsamples='user:nsamples', default_growing_method_set_by_user='opt:bool', r0_eval_num_old='opt:int', r0_nsamples_old='opt:int'))
    add('solver.solve', pre_setup=solve_setup, ensures=solve_ens, args=dict(nsamples='opt:user:nsamples', rhobeg='opt:real', lh='opt:real', prox_uh='opq', maxfun='opt:int'))
    return s, trusted


def tasks(P, tier):
    s, tr = mk(P)
    return [(s, c) for c in s.contracts.values() if not any(c is t for t in tr)]
