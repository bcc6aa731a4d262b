"""C07: solve always returns a well-formed result; bad input is reported, not raised.

Class invariant of ExitInformation: the flag is one of the documented exit codes (or the internal auto-restart code) and the message is a non-empty string; an obligation at every place
where one is created (flag and msg are assigned nowhere else).  solve's postcondition: the returned flag is a documented code, the message is that of an exit, every invalid argument
listed in the property gives the input-error flag with no evaluation, and the result carries every documented constant."""
import ast
import z3
from dvc.values import *
from dvc.vec import *
from dvc.spec import *
from contracts.common import A_CALLBACKS, A_EFFECTS, A_NUMPY, A_PARAMS, A_ORDER

ARITH = Order
LEVEL = 'proof'
EX = 'controller.ExitInformation'
CODES = dict(EXIT_SUCCESS=0, EXIT_MAXFUN_WARNING=1, EXIT_SLOW_WARNING=2, EXIT_FALSE_SUCCESS_WARNING=3, EXIT_TR_INCREASE_WARNING=5, EXIT_INPUT_ERROR=-1, EXIT_TR_INCREASE_ERROR=-2,
             EXIT_LINALG_ERROR=-3, EXIT_EVAL_ERROR=-4)
AUTO, INPUT = 4, -1
ASSUMPTIONS = [A_CALLBACKS, A_EFFECTS, A_NUMPY, A_ORDER, 'numeric arguments of solve (rhobeg, rhoend, lh, bounds and their differences) are not NaN', 'a %-formatted message with a non-empty format string is not empty']
BOUNDED = ['the exits of a parallel initialisation (init.run_in_parallel)', 'that no Python exception escapes (run-time checked on generated inputs)', 'parameter type and range checks (ParameterList.check_all_params), unknown parameter names', 'str() of the result',
           'the gap condition on scaled or projected problems', 'wrongly shaped arguments']
exi = lambda cx: (lambda a: Union([(a, None), (z3.Not(a), cx.st.alloc(EX))]))(fresh('exn', B))


class S(Spec):
    tracked_calls = frozenset(['objfun'])
    framed_ghosts = frozenset(['calls'])
    interest = {EX: {'flag'}, C: {'model', 'nf', 'nx', 'maxfun', 'last_successful_run', 'last_run_fopt', 'delta', 'rho', 'rhobeg', 'rhoend'}, Mo: {'scaling_changes'}}
    inline_set = frozenset(['solver.OptimResults.__init__', 'util.apply_scaling', 'util.remove_scaling', EX + '.__init__', EX + '.able_to_do_restart', EX + '.flag'])
    scaling_mode = 'tuple'

    def init_ghost(self, E, st):
        st.ghost['calls'] = z3.Int('calls0')
        if 'initialise_' in E.verifying:
            st.assume(z3.Not(to_z3(E.truth(self.pinit(E, st, 'init.run_in_parallel'), st))))

    def user_call(self, E, st, f, args, kw):
        if f.name == 'objfun':
            st.ghost['calls'] = st.ghost['calls'] + 1
            return E.newarr(st, fresh('rvec', V))
        if f.name == 'nsamples':
            return fresh('nsamp', I)
        if f.name == 'h':
            return fresh('hval', R)
        return Opq(f.name)

    def construct(self, E, q, args, kw, st):
        if q != EX:
            return Spec.construct(self, E, q, args, kw, st)
        o = st.alloc(q)
        init = E.P.classes.get(q, {}).get('__init__')
        E.call_repo(init, o, args, kw, st, None)
        f = st.heap[o.id].f
        fl, msg = f.get('flag'), f.get('msg')
        allowed = set(CODES.values()) | {AUTO}
        if E.verifying != 'solver.solve':
            allowed -= {INPUT}
        g = z3.BoolVal(fl in allowed) if isinstance(fl, int) and not isinstance(fl, bool) else z3.Or(*[E.as_int(fl, st) == c for c in sorted(allowed)]) if is_z3(fl) or isinstance(fl, Union) else z3.BoolVal(False)
        E.oblige(st, 'an exit carries a documented exit code', g)
        E.oblige(st, 'an exit carries a non-empty message', z3.BoolVal(msg != '' and (isinstance(msg, str) or isinstance(msg, Opq))))
        return o

    def ext_call(self, E, name, args, kw, st):
        if name == 'numpy.min' and len(args) == 1 and not kw and E.is_arr(args[0], st):
            t, n = E.arr(args[0], st), E.vlen(args[0], st)
            if t is not None and t.sort() == V and n is not None:
                m, k = fresh('min', R), fresh('argmin', I)
                st.assume(z3.And(0 <= k, k < n, m == z3.Select(t, k)))
                st.assume(Schem(lambda i: z3.Implies(z3.And(0 <= i, i < n), z3.And(z3.Or(m == NAN, m <= z3.Select(t, i)), z3.Implies(z3.Select(t, i) == NAN, m == NAN)))))
                return m
        return NotImplemented

    def on_format(self, E, st, fmt, vals):
        if fmt == '':
            E.oblige(st, 'no empty message format', False)

    def lazy_field(self, E, st, o, cls, name):
        if cls == EX and name == 'flag':
            v = fresh('flag', I)
            st.assume(z3.Or(*[v == c for c in sorted((set(CODES.values()) | {AUTO}) - {INPUT})]))
            return v
        return Spec.lazy_field(self, E, st, o, cls, name)

    def on_call(self, E, q, env, st):
        if q == EX + '.message':
            s = E.truth(env['with_stem'], st) if 'with_stem' in env else True
            return ('$msg', E.getattr(env['self'], 'flag', st), s if isinstance(s, bool) else False)
        return NotImplemented

    def loop_candidates(self, E, s, entry, mod, it):
        cs = []

        def cand(label, fn):
            fn.label = label
            cs.append(fn)
        cand('calls never decrease', lambda st, i, en: st.ghost['calls'] >= en.ghost['calls'])
        for m in sorted(mod, key=str):
            v = entry.loc.get(m[1]) if m[0] == 'loc' else None
            if isinstance(v, (Ref, Union)) and any(isinstance(x, Ref) and x.id in entry.heap and entry.heap[x.id].cls == EX for x in ([y for _, y in v.alts] if isinstance(v, Union) else [v])):
                cand('%s exists' % m[1], lambda st, i, en, n=m[1]: z3.Not(to_z3(E.is_none(st.loc[n], st))))
                cand('%s is a documented exit' % m[1], lambda st, i, en, n=m[1]: flag_in(E, st, st.loc[n], (set(CODES.values()) | {AUTO}) - {INPUT}))
        return cs


def flag_in(E, st, v, codes):
    fs = []
    for c, x in (v.alts if isinstance(v, Union) else [(True, v)]):
        if x is None:
            continue
        if not (isinstance(x, Ref) and st.heap[x.id].cls == EX):
            return z3.BoolVal(False)
        f = E.as_int(E.getattr(x, 'flag', st), st)
        fs.append(z3.Implies(to_z3(c), z3.Or(*[f == k for k in sorted(codes)])))
    return z3.And(*fs) if fs else z3.BoolVal(True)


def ex_ens(pos=None):
    def ens(cx):
        r = cx.res
        if pos is not None:
            if not (isinstance(r, tuple) and len(r) > pos):
                return [('an exit is returned at its place', False)]
            r = r[pos]
        return [('the exit, if any, is a documented one', flag_in(cx.E, cx.st, r, (set(CODES.values()) | {AUTO}) - {INPUT})), ('calls never decrease', cx.g('calls') >= cx.og('calls'))]
    return ens


def sm_result(cx):
    r = [Opq('r%d' % k) for k in range(12)]
    r[5], r[6], r[7] = fresh('nf', I), fresh('nx', I), fresh('nruns', I)
    r[8] = cx.st.alloc(EX)
    return tuple(r)


def sm_ens(cx):
    r = cx.res
    ok = isinstance(r, tuple) and len(r) == 12
    return [('twelve results', z3.BoolVal(ok))] + ([('the exit exists', z3.Not(to_z3(cx.E.is_none(r[8], cx.st)))), ('the exit is a documented one', flag_in(cx.E, cx.st, r[8], (set(CODES.values()) | {AUTO}) - {INPUT})),
                                                     ('calls never decrease', cx.g('calls') >= cx.og('calls'))] if ok else [])


A = lambda n: z3.Real('arg_' + n)
NA, NPT, MAXF = z3.Int('dimn'), z3.Int('arg_npt'), z3.Int('arg_maxfun')
NONE = {n: z3.Bool(n + '_is_None') for n in ('bounds', 'lower', 'upper', 'npt', 'rhobeg', 'maxfun', 'lh', 'prox_uh')}


def solve_setup(cx):
    E, st = cx.E, cx.st
    opt = lambda n, v: Union([(NONE[n], None), (z3.Not(NONE[n]), v)])
    x0, lo, up = (E.newarr(st, z3.Const('arg_' + n, V), (NA,)) for n in ('x0', 'lower', 'upper'))
    st.assume(NA >= 1)
    cx.env.update(x0=x0, bounds=opt('bounds', (opt('lower', lo), opt('upper', up))), npt=opt('npt', NPT), rhobeg=opt('rhobeg', A('rhobeg')), rhoend=A('rhoend'), maxfun=opt('maxfun', MAXF),
                  lh=opt('lh', A('lh')), prox_uh=opt('prox_uh', User('prox')))
    for n in ('rhobeg', 'rhoend', 'lh'):
        st.assume(A(n) != NAN)
    a, b = z3.Const('arg_lower', V), z3.Const('arg_upper', V)
    st.assume(Schem(lambda i: z3.And(z3.Select(a, i) != NAN, z3.Select(b, i) != NAN, E.A.sub(z3.Select(b, i), z3.Select(a, i)) != NAN)))


def solve_ens(cx):
    E, st, sp = cx.E, cx.st, cx.E.spec
    G = lambda n: E.getattr(cx.res, n, st)
    try:
        fl = E.as_int(G('flag'), st)
        nf = E.as_int(G('nf'), st)
        msg = G('msg')
    except Unsupported:
        return [('a result object', False)]
    fs = [('the flag is a documented exit code', z3.Or(*[fl == c for c in sorted(CODES.values())]))]
    for c, m in (msg.alts if isinstance(msg, Union) else [(True, msg)]):
        ok = isinstance(m, tuple) and len(m) == 3 and m[0] == '$msg'
        fs.append(('the message is the full text of the exit', z3.Implies(to_z3(c), z3.And(z3.BoolVal(ok and m[2] is True), E.as_int(m[1], st) == fl) if ok else z3.BoolVal(False))))
    bad = fl == INPUT
    fs.append(('an input error comes with no evaluation', z3.Implies(bad, z3.And(cx.g('calls') == cx.og('calls'), nf == 0))))
    P = lambda k: sp.pinit(E, st, k)
    b = lambda k: to_z3(E.truth(P(k), st))
    r = lambda k: E.as_real(P(k), st)
    nn = lambda k: z3.Not(to_z3(E.is_none(P(k), st)))
    given = lambda n: z3.Not(NONE[n])
    le, lt = E.A.le, E.A.lt
    Z, ONE = z3.RealVal(0), z3.RealVal(1)
    hgiven = z3.Not(H_NONE)
    inv = [('rhobeg <= 0', z3.And(given('rhobeg'), le(A('rhobeg'), Z))), ('rhoend <= 0', le(A('rhoend'), Z)), ('rhobeg <= rhoend', z3.And(given('rhobeg'), le(A('rhobeg'), A('rhoend')))),
           ('npt < n+1', z3.And(given('npt'), NPT < NA + 1)), ('maxfun <= 0', z3.And(given('maxfun'), MAXF <= 0)), ('h without prox_uh', z3.And(hgiven, NONE['prox_uh'])),
           ('h without lh', z3.And(hgiven, NONE['lh'])), ('lh <= 0', z3.And(hgiven, given('lh'), le(A('lh'), Z))),
           ('growing.safety.full_geom_step with reduce_delta', z3.And(b('growing.safety.full_geom_step'), b('growing.safety.reduce_delta'))),
           ('growing.full_rank.use_full_rank_interp with perturb_trust_region_step', z3.And(b('growing.full_rank.use_full_rank_interp'), b('growing.perturb_trust_region_step'))),
           ('noise level both additive and multiplicative', z3.And(b('noise.quit_on_noise_level'), nn('noise.additive_noise_level'), nn('noise.multiplicative_noise_level'))),
           ('parallel initialisation with coordinate directions', z3.And(b('init.run_in_parallel'), z3.Not(b('init.random_initial_directions')))),
           ('growing.reset_rho without growing.reset_delta', z3.And(b('growing.reset_rho'), z3.Not(b('growing.reset_delta')))),
           ('restarts.rhoend_scale <= 0', le(r('restarts.rhoend_scale'), Z)), ('growing.delta_scale_new_dirns <= 0', le(r('growing.delta_scale_new_dirns'), Z)), ('tr_radius.alpha1 >= 1', le(ONE, r('tr_radius.alpha1')))]
    fs += [('invalid input (%s) gives the input-error flag' % n, z3.Implies(c, bad)) for n, c in inv]
    lo, up = z3.Const('arg_lower', V), z3.Const('arg_upper', V)
    pr = cx.env['projections']
    noproj = z3.Not(to_z3(E.truth(pr, cx.pre)))
    two = z3.And(given('bounds'), given('lower'), given('upper'))
    nos = z3.Not(to_z3(E.truth(cx.env['scaling_within_bounds'], cx.pre)))
    fs.append(('invalid input (a lower bound above its upper bound) gives the input-error flag', Schem(lambda i: z3.Implies(z3.And(two, 0 <= i, i < NA, lt(z3.Select(up, i), z3.Select(lo, i))), bad))))
    fs.append(('invalid input (bounds closer than 2*rhobeg) gives the input-error flag',
               Schem(lambda i: z3.Implies(z3.And(two, noproj, nos, given('rhobeg'), 0 <= i, i < NA, lt(E.A.sub(z3.Select(up, i), z3.Select(lo, i)), E.A.mul(z3.RealVal(2), A('rhobeg')))), bad))))
    for n, v in sorted(CODES.items()):
        try:
            w = G(n)
        except Unsupported:
            w = None
        fs.append(('the result exposes %s' % n, z3.BoolVal(w == v and isinstance(w, int))))
    return fs + [('flag and msg of an exit are assigned only where it is created (%s)' % w, z3.BoolVal(False)) for w in assigned_elsewhere(E.P)] or [('', True)]


def assigned_elsewhere(P):
    out = []
    for q, fn in P.fns.items():
        if q in (EX + '.__init__', 'solver.OptimResults.__init__') or q.startswith('solver.OptimResults'):
            continue
        for n in ast.walk(fn.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr in ('flag', 'msg'):
                out.append('%s:%d' % (q, n.lineno))
    return out


class M1(S):
    """ExitInformation.message: a text for every exit code"""

    def lazy_field(self, E, st, o, cls, name):
        return Spec.lazy_field(self, E, st, o, cls, name)

    def on_call(self, E, q, env, st):
        return NotImplemented

    def on_raise(self, E, st, node):
        E.oblige(st, 'message() has a text for every exit code', False)


def msg_setup(cx):
    f = z3.Int('FLAG')
    cx.st.setf(cx.env['self'], flag=f, msg='DETAIL')
    cx.st.assume(z3.Or(*[f == c for c in sorted(set(CODES.values()) | {AUTO})]))


def msg_ens(cx):
    fs = []
    for c, x in (cx.res.alts if isinstance(cx.res, Union) else [(True, cx.res)]):
        fs.append(('a non-empty text that contains the details', z3.Implies(to_z3(c), z3.BoolVal(isinstance(x, str) and 'DETAIL' in x))))
    return fs


def creators(P):
    out = []
    for q, fn in P.fns.items():
        for n in ast.walk(fn.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and P.names[fn.mod].get(n.func.id) == ('cls', EX):
                out.append(q)
                break
    return out


def mk(P):
    s = S(P)
    gm = [('ghost', 'calls')]
    for nm in ('initialise_coordinate_directions', 'initialise_random_directions', 'add_new_direction_while_growing', 'geometry_step', 'move_furthest_points', 'move_furthest_points_momentum', 'soft_restart'):
        s.add(Contract(C + '.' + nm, ensures=ex_ens(), modifies=gm, result=exi))
    s.add(Contract(C + '.evaluate_objective', ensures=ex_ens(3), modifies=gm, result=lambda cx: (cx.E.newarr(cx.st, None), cx.E.newarr(cx.st, fresh('obj', V)), fresh('nrun', I), exi(cx))))
    s.add(Contract(C + '.check_and_fix_geometry', ensures=ex_ens(1), modifies=gm, result=lambda cx: (fresh('did', B), exi(cx)), args=dict(distsq_thresh='real')))
    s.add(Contract(C + '.calculate_ratio', ensures=ex_ens(1), result=lambda cx: (fresh('ratio', R), exi(cx))))
    s.add(Contract(C + '.choose_point_to_replace', ensures=ex_ens(1), result=lambda cx: (fresh('knew', I), exi(cx))))
    s.add(Contract('solver.solve_main', ensures=sm_ens, modifies=gm, result=sm_result, args=dict(r0_avg_old='opt:vec', r0_nsamples_old='opt:int', r0_eval_num_old='opt:int', default_growing_method_set_by_user='opt:bool', nsamples='user:nsamples')))
    s.add(Contract('solver.solve', pre_setup=solve_setup, ensures=solve_ens, modifies=gm, args=dict(nsamples='opt:user:nsamples', user_params='opq', scaling_within_bounds='bool', projections='projs')))
    return s


def tasks(P, tier):
    s = mk(P)
    out = [(s, c) for c in s.contracts.values()]
    m = M1(P)
    out.append((m, Contract(EX + '.message', pre_setup=msg_setup, args=dict(with_stem='bool'), ensures=msg_ens)))
    for q in creators(P):
        if q not in s.contracts and q in KNOWN:
            out.append((s, Contract(q)))
    return out
