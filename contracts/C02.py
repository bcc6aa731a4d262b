"""C02: evaluation budget and counters.

Ghost state: calls (objfun calls made so far), pts (points numbered so far), curx (x of the last call), nsamp (last answer of the nsamples callback), budget."""
import z3
from dvc.values import *
from dvc.vec import *
from dvc.spec import *

ARITH = Order
LEVEL = 'proof'
ASSUMPTIONS = [
    'user callbacks (objfun, h, prox_uh, projections, nsamples) do not modify the solver\'s objects or the arrays passed to them',
    'effects of functions not under contract are over-approximated by attribute names written (transitively) in the current source; attributes are not written via setattr/__dict__/exec',
    'floating-point arithmetic is uninterpreted (any result), so the counters are proved for every arithmetic outcome; integers are mathematical (Python integers)',
    'NumPy/SciPy functions neither write their arguments nor call the user functions (numpy.linalg, numpy.mean, ... trusted)',
    'init.run_in_parallel=True with a user prox/projection is covered (the evaluations happen through evaluate_objective in both modes)',
]
EV = 'util.eval_least_squares_with_regularisation'
RS = 'util.remove_scaling'
unscale = z3.Function('unscale', V, V)
BUD = z3.Int('BUDGET')


class S(Spec):
    tracked_calls = frozenset(['objfun'])
    tracked_fields = frozenset(['nf', 'nx', 'maxfun'])
    framed_ghosts = frozenset(['calls', 'pts'])
    interest = {C: {'nf', 'nx', 'maxfun', 'objfun', 'h', 'argsf', 'argsh', 'scaling_changes', 'model', 'do_logging'}, Mo: set()}

    seen = []

    def pure(self, q):
        W, Cc, _ = self.prog.effects(q)
        return not {w for w in W if not w.startswith('[]')} and not any('random' in c or c in ('normal', 'rand', 'randn', 'time') for c in Cc)

    def loop_candidates(self, E, s, entry, mod, it):
        cs = []

        def cand(label, fn):
            fn.label = label
            cs.append(fn)
        cand('calls<=BUDGET', lambda st, i, en: st.ghost['calls'] <= BUD)
        cand('pts>=1', lambda st, i, en: st.ghost['pts'] >= 1)
        if it is not None:
            lo = it[1] if it[0] == 'range' else z3.IntVal(0)
            cand('pts==entry+(i>lo)', lambda st, i, en: st.ghost['pts'] == en.ghost['pts'] + z3.If(i > lo, 1, 0))
            for m in mod:
                if m[0] == 'fld' and m[2] == 'nx':
                    cand('nx==entry+(i>lo)', lambda st, i, en, m=m: E.lookup(st, m) == E.lookup(en, m) + z3.If(i > lo, 1, 0))
            for x in self.seen:
                cand('i>lo: curx==x', lambda st, i, en, x=x: z3.Implies(i > lo, st.ghost['curx'] == x))
        for x in self.seen:
            cand('curx==x', lambda st, i, en, x=x: st.ghost['curx'] == x)
        return cs

    def init_ghost(self, E, st):
        self.seen = []
        g = st.ghost
        g['calls'], g['pts'], g['nsamp'] = z3.Int('calls0'), z3.Int('pts0'), z3.Int('nsamp0')
        g['curx'] = z3.Const('curx0', V)
        g['evno'], g['ptno'] = z3.Int('evno0'), z3.Int('ptno0')
        g['left'] = z3.Int('left0')            # samples of the current point that are still owed
        st.assume(z3.And(g['calls'] >= 0, g['pts'] >= 0))

    def on_call(self, E, q, env, st):
        if q == EV and 'eval_num' in env and 'pt_num' in env:
            st.ghost['evno'] = E.as_int(env['eval_num'], st)
            st.ghost['ptno'] = E.as_int(env['pt_num'], st)
        if q == RS and self.pure(q) and 'x_scaled' in env:
            x = E.arr(env['x_scaled'], st)
            E.trusted.add(q + ' (pure: the same input gives the same output; checked by the effect analysis only)')
            return E.newarr(st, unscale(x) if x is not None and x.sort() == V else fresh('x', V))
        return NotImplemented

    def user_call(self, E, st, f, args, kw):
        g = st.ghost
        if f.name == 'nsamples':
            r = fresh('nsamp', I)
            g['nsamp'] = r
            return r
        if f.name == 'objfun':
            x = E.arr(args[0], st) if args else None
            if x is None or x.sort() != V:
                x = fresh('x', V)
            if not any(x.eq(y) for y in self.seen):
                self.seen = (self.seen + [x])[-6:]
            E.oblige(st, 'objfun call: within the budget (calls < maxfun)', g['calls'] < BUD)
            E.oblige(st, 'objfun call: evaluation number is calls+1', g['evno'] == g['calls'] + 1)
            new = g['ptno'] == g['pts'] + 1
            E.oblige(st, 'objfun call: point number is the current or the next one', z3.Or(z3.And(g['ptno'] == g['pts'], g['pts'] >= 1), new))
            E.oblige(st, 'objfun call: same point number means identical x', z3.Or(new, x == g['curx']))
            g['calls'] = g['calls'] + 1
            g['pts'] = g['ptno']
            g['curx'] = x
            return E.newarr(st, fresh('rvec', V))
        return Opq(f.name)

    def on_format(self, E, st, fmt, vals):
        if fmt.startswith('Function eval %i at point %i') and len(vals) >= 2:
            E.oblige(st, 'log line: evaluation number equals the number of calls', E.as_int(vals[0], st) == st.ghost['calls'])
            E.oblige(st, 'log line: point number equals the current point', E.as_int(vals[1], st) == st.ghost['pts'])


def mx1(v):
    return z3.If(v > 1, v, z3.IntVal(1))


def CI(cx, me='self'):
    return [('self.nf is the number of calls', cx.i(me + '.nf') == cx.g('calls')), ('self.nx is the number of points', cx.i(me + '.nx') == cx.g('pts')),
            ('self.maxfun is the budget', cx.i(me + '.maxfun') == BUD), ('calls <= budget', cx.g('calls') <= BUD)]


def ns_ok(cx):
    return ('number_of_samples is what nsamples asked for', cx.i('number_of_samples') == mx1(cx.g('nsamp')))


MOD = [('ghost', 'calls'), ('ghost', 'pts'), ('ghost', 'curx'), ('ghost', 'evno'), ('ghost', 'ptno'), ('field', 'self.nf'), ('field', 'self.nx')]


def grow(cx):
    return [('calls never decrease', cx.g('calls') >= cx.og('calls')), ('points never decrease', cx.g('pts') >= cx.og('pts'))]


def cm(name, ns=True, res=None):
    q = C + '.' + name
    return Contract(q, requires=lambda cx: CI(cx) + ([ns_ok(cx)] if ns else []), ensures=lambda cx: CI(cx) + grow(cx), modifies=MOD, result=res)


def eo_result(cx):
    E = cx.E
    ex = Union([(fresh('e', B), None), (fresh('e', B), cx.st.alloc('controller.ExitInformation'))])
    a, b = fresh('exn', B), None
    return (E.newarr(cx.st, None), E.newarr(cx.st, fresh('obj', V)), fresh('nrun', I), Union([(a, None), (z3.Not(a), cx.st.alloc('controller.ExitInformation'))]))


def eo_ens(cx):
    k = cx.E.as_int(cx.res[2], cx.st) if isinstance(cx.res, tuple) and len(cx.res) == 4 else fresh('bad', I)
    dc, dp = cx.g('calls') - cx.og('calls'), cx.g('pts') - cx.og('pts')
    return CI(cx) + [('num_samples_run is the number of calls made', k == dc), ('all samples asked for were taken unless the budget ran out', z3.Or(k == cx.i('number_of_samples'), cx.g('calls') == BUD)),
                     ('at most the samples asked for', z3.And(k >= 0, k <= cx.i('number_of_samples'))), ('one new point iff something was evaluated', dp == z3.If(k > 0, 1, 0))]


def mk(P):
    s = S(P)
    s.add(Contract(C + '.evaluate_objective', requires=lambda cx: CI(cx) + [ns_ok(cx)], ensures=eo_ens, modifies=MOD, result=eo_result))
    exi = lambda cx: (lambda a: Union([(a, None), (z3.Not(a), cx.st.alloc('controller.ExitInformation'))]))(fresh('exn', B))
    for nm in ['initialise_coordinate_directions', 'initialise_random_directions', 'add_new_direction_while_growing', 'geometry_step', 'soft_restart', 'move_furthest_points', 'move_furthest_points_momentum']:
        s.add(cm(nm, res=exi))
    s.add(cm('check_and_fix_geometry', res=lambda cx: (fresh('did', B), exi(cx))))
    s.add(Contract('solver.solve_main', requires=sm_req, ensures=sm_ens, modifies=[m for m in MOD if m[0] == 'ghost'] + [('ghost', 'nsamp')], result=sm_result,
                   args=dict(r0_avg_old='opt:vec', r0_nsamples_old='opt:int', argsf='opq', x0='vec', nsamples='user:nsamples', r0_eval_num_old='opt:int', default_growing_method_set_by_user='opt:bool')))
    s.add(Contract('solver.solve', pre_setup=solve_setup, requires=solve_req, ensures=solve_ens, modifies=[m for m in MOD if m[0] == 'ghost'] + [('ghost', 'nsamp')],
                   args=dict(nsamples='opt:user:nsamples', npt='opt:int', rhobeg='opt:real', lh='opt:real', bounds='opq', user_params='opq', prox_uh='opq')))
    return s


def solve_setup(cx):
    st = cx.st
    b = z3.Bool('maxfun_default')
    cx.env['maxfun'] = Union([(b, None), (z3.Not(b), BUD)])
    n = z3.Int('n')
    st.assume(n >= 1)
    cx.env['x0'] = cx.E.newarr(st, z3.Const('x0', V), (n,))
    d = 100 * (n + 1)
    st.assume(z3.Implies(b, BUD == z3.If(d <= 1000, d, z3.IntVal(1000))))      # documented default


def solve_req(cx):
    return [('nothing evaluated yet', z3.And(cx.g('calls') == 0, cx.g('pts') == 0))]


def solve_ens(cx):
    fs = []
    for nm, gh in (('nf', 'calls'), ('nx', 'pts')):
        try:
            v = cx.E.as_int(cx.E.getattr(cx.res, nm, cx.st), cx.st)
            fs.append(('soln.%s is the number of %s' % (nm, gh), v == cx.g(gh)))
        except Unsupported:
            fs.append(('soln.%s is the number of %s' % (nm, gh), False))
    return fs + [('at most maxfun calls', z3.Or(cx.g('calls') <= BUD, cx.g('calls') == 0))]


def sm_req(cx):
    fresh_start = cx.E.is_none(cx.env['r0_avg_old'], cx.st)
    return [('nf_so_far is the number of calls', cx.i('nf_so_far') == cx.g('calls')), ('nx_so_far is the number of points', cx.i('nx_so_far') == cx.g('pts')),
            ('maxfun is the budget', cx.i('maxfun') == BUD), ('budget left', z3.If(to_z3(fresh_start), cx.g('calls') < BUD, cx.g('calls') <= BUD))]


def sm_result(cx):
    st = cx.st
    r = [Opq('r%d' % k) for k in range(12)]
    r[5], r[6], r[7] = fresh('nf', I), fresh('nx', I), fresh('nruns', I)
    r[4] = fresh('ns', I)
    r[8] = st.alloc('controller.ExitInformation')
    return tuple(r)


def sm_ens(cx):
    r = cx.res
    if isinstance(r, Union):
        return [('twelve results', False)]
    ok = isinstance(r, tuple) and len(r) == 12
    return grow(cx) + [('returned nf is the number of calls', cx.E.as_int(r[5], cx.st) == cx.g('calls') if ok else False), ('returned nx is the number of points', cx.E.as_int(r[6], cx.st) == cx.g('pts') if ok else False),
                       ('calls <= budget', cx.g('calls') <= BUD)]


def tasks(P, tier):
    s = mk(P)
    return [(s, c) for c in s.contracts.values()]
