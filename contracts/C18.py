"""C18: trust-region radii and the diagnostic table.

Constants of the run: RB = rhobeg, RHO[k] = rhoend after k restarts (RHO[0] = the user's rhoend, RHO[k+1] = restarts.rhoend_scale * RHO[k]).
Ghost state: lastrun, lastrho = run number and rho of the last recorded row; rows = number of rows recorded."""
import z3
from dvc.values import *
from dvc.vec import *
from dvc.spec import *
from contracts.common import A_CALLBACKS, A_EFFECTS, A_NUMPY, A_PARAMS

ARITH = Order
LEVEL = 'proof'
D_ = 'diagnostic_info.DiagnosticInfo'
RB = z3.Real('RHOBEG')
RHOA = z3.Const('RHOEND', V)
CAP = 10 ** 10
ASSUMPTIONS = [
    A_CALLBACKS, A_EFFECTS, A_NUMPY, A_PARAMS,
    'floating-point arithmetic uninterpreted except for sign and monotonicity facts valid for every correctly rounded operation (multiplying by a factor in [0,1] or >= 1, dividing by a divisor in (0,1], ...); comparisons, min/max and NaN exact; reduce_rho itself is verified over exact reals',
    'rhobeg <= 1e10/1.5 and rhoend stays positive when rescaled (no underflow to zero)',
    'the trust-region step has a non-NaN norm (a model with non-finite entries never reaches the subproblem solver)',
    'rhobeg given by the user is a number (not NaN)',
]
BOUNDED = ['recorded best objective never increases', 'non-decreasing nf/nx (each row records control.nf/nx, proved monotone and equal to the number of calls/points by C02)', 'number of interpolation points between 2 and the maximum']


class S(Spec):
    ieee = True
    tracked_fields = frozenset(['delta', 'rho', 'rhobeg', 'rhoend'])
    framed_ghosts = frozenset(['lastrun', 'lastrho'])
    interest = {C: {'delta', 'rho', 'rhobeg', 'rhoend', 'model', 'nf', 'nx', 'maxfun', 'h', 'last_successful_run'}, Mo: {'num_pts', 'npt_so_far'}}
    step = None

    def init_ghost(self, E, st):
        self.step = None
        st.ghost['lastrun'], st.ghost['lastrho'] = z3.Int('lastrun0'), z3.Real('lastrho0')
        sc = self.pinit(E, st, 'restarts.rhoend_scale')
        st.assume(z3.And(0 < RB, RB <= CAP, E.A.mul(z3.Q(3, 2), RB) <= CAP))
        st.assume(Schem(lambda i: z3.Implies(i >= 0, z3.And(0 < z3.Select(RHOA, i), z3.Select(RHOA, i) <= RB))))
        st.assume(Schem(lambda i: z3.Implies(i >= 0, z3.Select(RHOA, i + 1) == E.A.mul(sc, z3.Select(RHOA, i)))))

    def loop_candidates(self, E, s, entry, mod, it):
        cs = []

        def cand(label, fn):
            fn.label = label
            cs.append(fn)
        ctl = [v for v in entry.loc.values() if isinstance(v, Ref) and entry.heap[v.id].cls == C]
        g = lambda st: (st.ghost['lastrun'], st.ghost['lastrho'])
        reset = self.pinit(E, entry, 'growing.reset_rho')
        for o in ctl[:1]:
            f = lambda st, n, o=o: E.as_real(E.getattr(o, n, st), st)
            cand('rhobeg==RB', lambda st, i, en: f(st, 'rhobeg') == RB)
            cand('rhoend<=rho', lambda st, i, en: f(st, 'rhoend') <= f(st, 'rho'))
            cand('rho<=RB', lambda st, i, en: f(st, 'rho') <= RB)
            cand('rho<=delta', lambda st, i, en: f(st, 'rho') <= f(st, 'delta'))
            cand('delta<=CAP', lambda st, i, en: f(st, 'delta') <= CAP)
            cand('0<rhoend', lambda st, i, en: 0 < f(st, 'rhoend'))
            for n in ('delta', 'rho', 'rhoend'):
                cand('%s unchanged' % n, lambda st, i, en, n=n: f(st, n) == f(en, n))
            for m in sorted(mod, key=str):
                if m[0] == 'loc' and m[1] in entry.loc and is_int(entry.loc[m[1]]):
                    v = m[1]
                    cand('rhoend==RHO[%s]' % v, lambda st, i, en, v=v: f(st, 'rhoend') == z3.Select(RHOA, E.as_int(st.loc[v], st)))
                    cand('%s>=0' % v, lambda st, i, en, v=v: E.as_int(st.loc[v], st) >= 0)
                    cand('%s>=entry' % v, lambda st, i, en, v=v: E.as_int(st.loc[v], st) >= E.as_int(en.loc[v], en))
                    cand('%s==entry unless soft' % v, lambda st, i, en, v=v: z3.Or(soft(self, E, st), E.as_int(st.loc[v], st) == E.as_int(en.loc[v], en)))
                    cand('lastrun<=%s' % v, lambda st, i, en, v=v: g(st)[0] <= E.as_int(st.loc[v], st))
                    cand('lastrun==%s => rho<=lastrho' % v, lambda st, i, en, v=v: z3.Or(reset, z3.Implies(g(st)[0] == E.as_int(st.loc[v], st), f(st, 'rho') <= g(st)[1])))
        # local copies of rhoend
        for m in sorted(mod, key=str):
            if m[0] == 'loc' and m[1] in entry.loc and is_int(entry.loc[m[1]]):
                v = m[1]
                cand('lastrun<%s' % v, lambda st, i, en, v=v: g(st)[0] < E.as_int(st.loc[v], st))
                cand('%s>=1' % v, lambda st, i, en, v=v: E.as_int(st.loc[v], st) >= 1)
                for m2 in sorted(mod, key=str):
                    if m2[0] == 'loc' and m2[1] in entry.loc and is_real(entry.loc[m2[1]]):
                        w = m2[1]
                        cand('%s==RHO[%s]' % (w, v), lambda st, i, en, v=v, w=w: E.as_real(st.loc[w], st) == z3.Select(RHOA, E.as_int(st.loc[v], st)))
                        cand('%s==RHO[%s-1] unless soft' % (w, v), lambda st, i, en, v=v, w=w: z3.Or(soft(self, E, st), E.as_real(st.loc[w], st) == z3.Select(RHOA, E.as_int(st.loc[v], st) - 1)))
        return cs

    def on_call(self, E, q, env, st):
        if q == D_ + '.save_info_from_control' and 'control' in env and not E.verifying.startswith('diagnostic_info'):
            ps = E.P.fns[q].params
            ctl = env[ps[1]]
            nr = E.as_int(env[ps[2]], st)
            f = lambda n: E.as_real(E.getattr(ctl, n, st), st)
            g = st.ghost
            nm = 'row recorded: '
            E.oblige(st, nm + 'delta >= rho', z3.And(f('delta') >= f('rho'), f('delta') != NAN))
            E.oblige(st, nm + 'rho > 0', z3.And(f('rho') > 0, f('rho') != NAN))
            E.oblige(st, nm + 'rhoend (rescaled once per restart) <= rho', z3.Select(RHOA, nr) <= f('rho'))
            E.oblige(st, nm + 'rho <= rhobeg', f('rho') <= RB)
            E.oblige(st, nm + 'delta <= 1e10', f('delta') <= CAP)
            E.oblige(st, nm + 'run number non-decreasing', g['lastrun'] <= nr)
            reset = self.pinit(E, st, 'growing.reset_rho')
            E.oblige(st, nm + 'rho never increases within a run', z3.Or(reset, z3.Implies(g['lastrun'] == nr, f('rho') <= g['lastrho'])))
            g['lastrun'], g['lastrho'] = nr, f('rho')
            return None
        return NotImplemented

    def ext_call(self, E, name, args, kw, st):
        if name in ('numpy.linalg.norm', 'scipy.linalg.norm') and args and E.is_arr(args[0], st) and len(args) == 1:
            t = E.arr(args[0], st)
            if self.step is not None and t is not None and t.eq(self.step):
                r = fresh('norm', R)
                st.assume(z3.And(0 <= r, r <= PINF))
                return r
            r = fresh('norm', R)
            st.assume(z3.And(0 <= r))
            return r
        return NotImplemented


def is_int(v):
    return (isinstance(v, int) and not isinstance(v, bool)) or (is_z3(v) and z3.is_int(v))


def is_real(v):
    return isinstance(v, float) or (is_z3(v) and z3.is_real(v))


def soft(s, E, st):
    return z3.And(s.pinit(E, st, 'restarts.use_restarts'), s.pinit(E, st, 'restarts.use_soft_restarts'))


def INV(cx, me='self'):
    f = lambda n: cx.r(me + '.' + n)
    return [('0 < rhoend <= rho', z3.And(0 < f('rhoend'), f('rhoend') <= f('rho'))), ('rho <= rhobeg', z3.And(f('rho') <= f('rhobeg'), f('rhobeg') == RB)),
            ('rho <= delta <= 1e10', z3.And(f('rho') <= f('delta'), f('delta') <= CAP))]


def mod(*fs):
    return [('field', 'self.' + f) for f in fs]


def exi(cx):
    a = fresh('exn', B)
    return Union([(a, None), (z3.Not(a), cx.st.alloc('controller.ExitInformation'))])


def isnone(cx):
    return to_z3(cx.E.is_none(cx.res, cx.st))


def rr_pre(cx):
    """the parameters are numbers in their ranges; exact reals here"""
    return INV(cx)


def tr_result(cx):
    st = cx.st
    d = cx.E.newarr(st, fresh('step', V))
    cx.E.spec.step = cx.E.arr(d, st)
    return (d, cx.E.newarr(st, fresh('gopt', V)), Opq('H'), cx.E.newarr(st, fresh('gnew', V)), fresh('crvmin', R))


def init_ens(cx):
    fs = INV(cx)
    return fs + [('rhoend is the one given', cx.r('self.rhoend') == cx.E.as_real(cx.env['rhoend'], cx.st)), ('rho == delta == rhobeg at the start', z3.And(cx.r('self.rho') == RB, cx.r('self.delta') == RB))]


def mk(P):
    s = S(P)
    Rl = lambda v: v
    s.add(Contract(C + '.__init__', requires=lambda cx: [('0 < rhoend <= rhobeg', z3.And(0 < cx.E.as_real(cx.env['rhoend'], cx.st), cx.E.as_real(cx.env['rhoend'], cx.st) <= cx.E.as_real(cx.env['rhobeg'], cx.st), cx.E.as_real(cx.env['rhobeg'], cx.st) == RB))],
                   ensures=init_ens, modifies=mod('delta', 'rho', 'rhobeg', 'rhoend')))
    s.add(Contract(C + '.reduce_rho', arith=Real, requires=rr_pre, ensures=lambda cx: INV(cx) + [('rho never increases', cx.r('self.rho') <= cx.orr('self.rho'))], modifies=mod('delta', 'rho')))
    s.add(Contract(C + '.check_and_fix_geometry', args=dict(distsq_thresh='real', update_delta='bool'), requires=lambda cx: INV(cx), ensures=lambda cx: INV(cx), modifies=mod('delta'),
                   result=lambda cx: (fresh('did', B), exi(cx))))
    s.add(Contract(C + '.soft_restart', requires=lambda cx: INV(cx) + [('rhoend is RHO[nruns_so_far]', cx.r('self.rhoend') == z3.Select(RHOA, cx.i('nruns_so_far'))), ('nruns_so_far >= 0', cx.i('nruns_so_far') >= 0)],
                   ensures=lambda cx: INV(cx) + [('restart performed: rhoend rescaled exactly once', z3.Implies(isnone(cx), cx.r('self.rhoend') == z3.Select(RHOA, cx.i('nruns_so_far') + 1)))],
                   modifies=mod('delta', 'rho', 'rhoend'), result=exi))
    s.add(Contract('solver.solve_main', requires=sm_req, ensures=sm_ens, modifies=[('ghost', 'lastrun'), ('ghost', 'lastrho')], result=sm_result,
                   args=dict(r0_avg_old='opt:vec', r0_nsamples_old='opt:int', x0='vec', nsamples='user:nsamples', r0_eval_num_old='opt:int', default_growing_method_set_by_user='opt:bool', diagnostic_info='obj:' + D_, lh='real')))
    s.add(Contract('solver.solve', pre_setup=solve_setup, requires=lambda cx: [], ensures=lambda cx: [('the table is returned as recorded', True)], modifies=[('ghost', 'lastrun'), ('ghost', 'lastrho')],
                   args=dict(nsamples='opt:user:nsamples', npt='opt:int', maxfun='opt:int', lh='opt:real', bounds='opq', user_params='opq', prox_uh='opq')))
    tr = Contract(C + '.trust_region_step', result=tr_result, trusted=True)
    T = [tr, Contract(C + '.evaluate_criticality_measure', result=lambda cx: fresh('crit', R), trusted=True), Contract(Mo + '.distances_to_xopt', result=lambda cx: cx.E.newarr(cx.st, fresh('sqdist', V), (fresh('npt', I),)), trusted=True)]
    s.add(*T)
    return s, T


def sm_req(cx):
    rb, re = cx.E.as_real(cx.env['rhobeg'], cx.st), cx.E.as_real(cx.env['rhoend'], cx.st)
    n = cx.i('nruns_so_far')
    lh = cx.env['lh']
    sp, E, st = cx.E.spec, cx.E, cx.st
    hn = to_z3(E.is_none(cx.env['h'], st))
    fs = [('reset_rho only together with reset_delta', z3.Implies(sp.pinit(E, st, 'growing.reset_rho'), sp.pinit(E, st, 'growing.reset_delta')))]
    if not isinstance(lh, Opq):
        fs.append(('h comes with lh > 0', z3.Or(hn, to_z3(E.is_none(lh, st)) if isinstance(lh, Union) else z3.BoolVal(False), E.as_real(lh, st) > 0)))
    return fs + [('rhobeg is the user\'s', rb == RB), ('nruns_so_far >= 0', n >= 0), ('rhoend is the user\'s, rescaled once per restart', re == z3.Select(RHOA, n)), ('rows so far belong to earlier runs', cx.g('lastrun') < n)]


def sm_result(cx):
    st = cx.st
    r = [Opq('r%d' % k) for k in range(12)]
    r[5], r[6], r[7] = fresh('nf', I), fresh('nx', I), fresh('nruns', I)
    r[8] = st.alloc('controller.ExitInformation')
    r[9] = cx.env['diagnostic_info']
    return tuple(r)


def sm_ens(cx):
    r = cx.res
    if not (isinstance(r, tuple) and len(r) == 12):
        return [('twelve results', False)]
    n0, n1 = cx.i('nruns_so_far'), cx.E.as_int(r[7], cx.st)
    return [('the run count grows', n1 >= n0 + 1), ('rows belong to the runs counted', cx.g('lastrun') < n1), ('without soft restarts this is one run', z3.Or(soft(cx.E.spec, cx.E, cx.st), n1 == n0 + 1))]


def solve_setup(cx):
    st = cx.st
    n = z3.Int('n')
    st.assume(n >= 1)
    cx.env['x0'] = cx.E.newarr(st, z3.Const('x0', V), (n,))
    cx.env['rhobeg'] = RB        # the user's value, or the documented default (a positive number either way)
    cx.env['rhoend'] = z3.Select(RHOA, z3.IntVal(0))
    st.assume(cx.g('lastrun') == -1)


COLS = ['xk', 'rk', 'fk', 'rho', 'delta', 'interpolation_error', 'interpolation_condition_number', 'interpolation_change_J_norm', 'interpolation_total_residual', 'poisedness', 'max_distance_xk',
        'norm_gk', 'norm_sk', 'nruns', 'nf', 'nx', 'npt', 'nsamples', 'iter_this_run', 'iters_total', 'iter_type', 'ratio', 'slow_iter']      # documented (docs/diagnostic.rst)


class T(S):
    """The table itself: one list per documented column, all of the same length."""
    def on_append(self, E, st, o, v):
        k = 'app:%d' % o.id
        if k in st.ghost:
            st.ghost[k] = v

    def list_set(self, E, st, o, k, v):
        c = st.heap[o.id]
        if c.f.get('items') is None:
            k = E.as_int(k, st)
            E.oblige(st, 'only the last row is updated', z3.Or(k == -1, k == c.f['len'] - 1))
            st.heap[o.id] = c          # same length
            return
        S.list_set(self, E, st, o, k, v)


def table(cx):
    st = cx.st
    L = z3.Int('nrows')
    st.assume(L >= 0)
    items = {}
    for c in COLS:
        r = st.alloc('list', items=None, len=L)
        items[c] = r
        st.ghost['app:%d' % r.id] = None
    st.setf(cx.env['self'], data=st.alloc('dict', items=items))


def cols(cx, st=None):
    st = st or cx.st
    d = cx.E.getattr(cx.env['self'], 'data', st)
    return st.heap[d.id].f.get('items', {}) if isinstance(d, Ref) and st.heap[d.id].cls == 'dict' else {}


def llen(cx, r, st=None):
    st = st or cx.st
    c = st.heap[r.id]
    it = c.f.get('items')
    return z3.IntVal(len(it)) if it is not None else c.f['len']


def ens_cols(k):
    def f(cx):
        d = cols(cx)
        fs = [('exactly the documented columns', sorted(d) == sorted(COLS))]
        for c in COLS:
            fs.append(('column %s: %s' % (c, 'empty' if k is None else 'one new entry' if k else 'same length'), (llen(cx, d[c]) == (0 if k is None else llen(cx, cols(cx, cx.pre)[c], cx.pre) + k)) if c in d and isinstance(d[c], Ref) else False))
        return fs
    return f


def row(cx):
    fs = ens_cols(1)(cx)
    E, st = cx.E, cx.st
    d = cols(cx)
    ctl = cx.env['control']
    val = lambda c: st.ghost.get('app:%d' % d[c].id) if c in d else None
    want = [('rho', E.as_real(E.getattr(ctl, 'rho', cx.pre), cx.pre)), ('delta', E.as_real(E.getattr(ctl, 'delta', cx.pre), cx.pre)), ('nf', E.as_int(E.getattr(ctl, 'nf', cx.pre), cx.pre)), ('nx', E.as_int(E.getattr(ctl, 'nx', cx.pre), cx.pre)),
            ('nruns', cx.i('nruns')), ('iter_this_run', cx.i('iter_this_run')), ('iters_total', llen(cx, cols(cx, cx.pre)['iters_total'], cx.pre))]
    for c, w in want:
        v = val(c)
        if v is None or isinstance(v, Ref):
            fs.append(('row: column %s records the value of this iteration' % c, False))
        else:
            fs.append(('row: column %s records the value of this iteration' % c, (E.as_int(v, st) == w) if z3.is_int(w) else (E.as_real(v, st) == w)))
    return fs


def tasks(P, tier):
    s, T_ = mk(P)
    out = [(s, c) for c in s.contracts.values() if not any(c is t for t in T_)]
    t = T(P)
    for nm, setup, ens, args in [('__init__', None, ens_cols(None), {}), ('save_info_from_control', table, row, dict(nruns='int', iter_this_run='int', save_poisedness='bool')), ('update_interpolation_information', table, ens_cols(0), {}),
                                 ('update_ratio', table, ens_cols(0), {}), ('update_iter_type', table, ens_cols(0), {}), ('update_slow_iter', table, ens_cols(0), {})]:
        def pre(cx, setup=setup):
            if setup:
                setup(cx)
            if 'control' in cx.env:
                for n in ('rho', 'delta', 'nf', 'nx', 'rhobeg', 'rhoend'):
                    cx.E.getattr(cx.env['control'], n, cx.st)
            cx.st.assume(z3.Int('nrows') >= (1 if setup and not cx.E.verifying.endswith('save_info_from_control') else 0))
        out.append((t, Contract(D_ + '.' + nm, pre_setup=pre, args=args, ensures=ens)))
    return out
