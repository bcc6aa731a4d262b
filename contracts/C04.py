"""C04: the best value ever evaluated is never lost (unregularised objectives, one sample per point).

Ghost state: rb = smallest non-NaN sum(r^2) of all evaluations of the current run (PINF: none yet); tb = the same over all earlier runs."""
import z3
from dvc.values import *
from dvc.vec import *
from dvc.spec import *
from contracts.common import *

ARITH = Order
LEVEL = 'proof'
ASSUMPTIONS = [
    A_CALLBACKS, A_EFFECTS, A_NUMPY, A_PARAMS,
    'h is None (no regulariser) and one sample per point (nsamples returns at most 1); init.run_in_parallel is off',
    'floating-point arithmetic uninterpreted except for facts valid for every correctly rounded operation (x-y > 0 only if x > y, x-x = 0 for finite x, the sign of a quotient); sum(r^2) is one function of the residual vector, NaN if the vector has a NaN; comparisons, min/max and NaN tests exact',
    'the trust-region radii are finite and positive (proved as C18)',
    'the points of the interpolation set and the bounds are finite numbers (needed only to know that the incumbent has distance 0 to itself)',
]
BOUNDED = ['regularised objectives (h is not None)', 'init.run_in_parallel', 'sample averaging is outside the property']
MF = ['objval', 'fval_v', 'kopt', 'npt_so_far', 'num_pts', 'objsave']


class S(Common):
    ieee = True
    use_dot = True
    ext_pairs = True
    skip_empty = True
    vec_arith = property(lambda self: self.E.verifying == Mo + '.distances_to_xopt')        # nowhere else do the points themselves matter
    houdini_timeout = 4000
    generic_timeout = 800
    no_generic = frozenset(['kopt', 'num_pts', 'npt_so_far'])
    tracked_calls = frozenset(['objfun'])
    tracked_fields = frozenset(MF)
    framed_ghosts = frozenset(['rb', 'tb'])
    interest = {C: {'model', 'objfun', 'h', 'argsf', 'argsh', 'scaling_changes', 'do_logging', 'nf', 'nx', 'maxfun', 'delta', 'rho', 'rhobeg', 'rhoend'}, Mo: set(MF) | {'h', 'points', 'sl', 'su', 'xbase', 'dim', 'resid_dim', 'projections'}}
    inline_set = frozenset(['model.Model.npt', 'model.Model.objopt', 'model.Model.ropt', 'model.Model.n', 'model.Model.m', 'util.sumsq', 'solver.OptimResults.__init__', 'controller.Controller.n', 'controller.Controller.m', 'controller.Controller.npt'])
    upd = staticmethod(lambda rb, o: z3.If(o == NAN, rb, z3.If(o < rb, o, rb)))

    def inline(self, E, q, env, st):
        if q in ('model.Model.xpt', 'model.Model.xopt') and E.verifying == Mo + '.distances_to_xopt':
            return True
        return Common.inline(self, E, q, env, st)

    def init_ghost(self, E, st):
        for n in ('rb', 'tb'):
            v = z3.Real(n + '0')
            st.ghost[n] = v
            st.assume(v <= PINF)
        st.assume(H_NONE)

    def user_call(self, E, st, f, args, kw):
        if f.name == 'objfun':
            r = fresh('rvec', V)
            st.ghost['rb'] = self.upd(st.ghost['rb'], mkdot(r, r))
            return E.newarr(st, r)
        if f.name == 'nsamples':
            return 1
        return Common.user_call(self, E, st, f, args, kw)

    def ext_call(self, E, name, args, kw, st):
        if name == 'numpy.mean' and args and E.is_arr(args[0], st) and kw.get('axis') == 0:
            v = args[0]
            t = E.arr(v, st)
            shp = st.heap[v.id].f.get('shape') if isinstance(v, Ref) else None
            if t is not None and t.sort() == M and shp:
                n = E.as_int(shp[0], st)
                return E.newarr(st, z3.If(n == 1, z3.Select(t, 0), meanrows(t, n)), (shp[1],))
        if name == 'numpy.isnan' and args and E.is_arr(args[0], st):
            t = E.arr(args[0], st)
            if t is not None and t.sort() == M:
                return st.alloc('ndarray', val=None, shape=None, nanof=t)
        if name == 'numpy.any' and args and isinstance(args[0], Ref) and st.heap[args[0].id].f.get('nanof') is not None:
            b = fresh('anynan', B)
            row = z3.Select(st.heap[args[0].id].f['nanof'], 0)
            st.assume(z3.Implies(b, mkdot(row, row) == NAN))        # one row: a NaN residual makes sum(r^2) NaN
            return b
        return NotImplemented

    def loop_candidates(self, E, s, entry, mod, it):
        cs = []

        def cand(label, fn):
            fn.label = label
            cs.append(fn)
        ms = [v for v in entry.heap if entry.heap[v].cls == Mo][:1]
        refs = {}
        for v in entry.loc.values():
            if isinstance(v, Ref) and entry.heap[v.id].cls in (C, Mo):
                refs[entry.heap[v.id].cls] = v
        m = refs.get(Mo)
        ctl = refs.get(C)
        get = (lambda st: m) if m is not None else (lambda st: E.getattr(ctl, 'model', st)) if ctl is not None else None
        rbt = [v for v in ('rb', 'tb')]
        for a in rbt:
            cand('%s<=PINF' % a, lambda st, i, en, a=a: st.ghost[a] <= PINF)
        if get is None:
            return cs + self.solve_cands(E, entry, mod)
        F = lambda st, f: E.getattr(get(st), f, st)
        ii = lambda st, f: E.as_int(F(st, f), st)

        class X(object):
            pass
        def cx(st):
            return Ctx(E, None, st, {'self': get(st)}, None)
        for q, lab in enumerate(['npt_so_far range', 'kopt range']):
            cand(lab, lambda st, i, en, q=q: counts_ok(cx(st))[q][1])
        cand('objective invariant', lambda st, i, en: objinv(cx(st)))
        cand('best kept', lambda st, i, en: le(cx(st), st.ghost['rb']))
        cand('best kept in the saved point', lambda st, i, en: sav(cx(st), st.ghost['rb']))
        cand('saved no worse than the incumbent at the start', lambda st, i, en: sav(cx(st), z3.Select(E.arr(F(en, 'objval'), en), ii(en, 'kopt'))))
        cand('num_pts unchanged', lambda st, i, en: ii(st, 'num_pts') == ii(en, 'num_pts'))
        for nm, v in entry.loc.items():
            if E.is_arr(v, entry) and E.arr(v, entry) is not None and E.arr(v, entry).sort() == IV and it is not None and it[0] == 'range':
                def later(st, i, en, v=v):
                    t, n = E.arr(v, st), E.vlen(v, st)
                    if t is None or n is None or i is None:
                        return None
                    sv = sav(cx(st), oopt(cx(st)))
                    return forall(i, n, lambda j: z3.Or(z3.Select(t, j) != ii(st, 'kopt'), sv), gen=1)
                cand('the incumbent is not among the remaining %s unless saved' % nm, later)
        if it is not None and it[0] == 'range':
            lo = it[1]
            cand('one point per iteration', lambda st, i, en: z3.Implies(i >= lo, ii(st, 'npt_so_far') == ii(en, 'npt_so_far') + (i - lo)))
        for mm in sorted(mod, key=str):
            if mm[0] == 'loc' and mm[1] in entry.loc:
                n = mm[1]

                def notk(st, i, en, n=n, P=lambda x, st: x != ii(st, 'kopt')):
                    v = st.loc.get(n)
                    if v is None:
                        return z3.BoolVal(True)
                    g = []
                    for c, x in (v.alts if isinstance(v, Union) else [(z3.BoolVal(True), v)]):
                        if x is None:
                            continue
                        if isinstance(x, bool) or not (isinstance(x, int) or (is_z3(x) and z3.is_int(x))):
                            return None
                        g.append(z3.Implies(to_z3(c), P(to_z3(x), st)))
                    return z3.And(*g) if g else z3.BoolVal(True)
                cand('%s >= 0' % n, lambda st, i, en, notk=notk: notk(st, i, en, P=lambda x, st: x >= 0))
                cand('%s is not the incumbent' % n, lambda st, i, en, notk=notk: notk(st, i, en))
                if 'skip_kopt' in entry.loc:
                    def notk2(st, i, en, notk=notk):
                        g = notk(st, i, en)
                        return None if g is None else z3.Or(z3.Not(to_z3(E.truth(st.loc['skip_kopt'], st))), g)
                    cand('%s is not the incumbent if skip_kopt' % n, notk2)
            if mm[0] == 'fld' and mm[2] == 'val':
                t0 = E.lookup(entry, mm)
                if t0 is not KeyError and t0 is not None and t0.sort() == V:
                    cand('entry kopt is 0', lambda st, i, en, mm=mm: z3.Implies(i > ii(st, 'kopt'), z3.Select(E.lookup(st, mm), ii(st, 'kopt')) == 0) if i is not None else None)
        return cs

    def solve_cands(self, E, entry, mod):
        cs = []

        def cand(label, fn):
            fn.label = label
            cs.append(fn)
        for mm in sorted(mod, key=str):
            if mm[0] == 'loc' and mm[1] in entry.loc:
                v = entry.loc[mm[1]]
                if is_z3(v) and z3.is_real(v):
                    n = mm[1]
                    cand('%s is no worse than the best value' % n, lambda st, i, en, n=n: ok(E.as_real(st.loc[n], st), st.ghost['tb']))
        return cs

    def before_apply(self, E, c, st, env):
        if c.q == 'solver.solve_main':
            st.ghost['rb'] = PINF

    def before_requires(self, E, c, st, env):
        if c.q == C + '.check_and_fix_geometry':          # proved as C18
            st.assume(E.as_real(E.getattr(env['self'], 'delta', st), st) < PINF)
            st.assume(E.as_real(E.getattr(env['self'], 'delta', st), st) > 0)
            st.assume(E.as_real(E.getattr(env['self'], 'rho', st), st) < PINF)
            st.assume(E.as_real(E.getattr(env['self'], 'rho', st), st) > 0)
        if c.q == 'solver.solve_main':
            st.ghost['rb'] = PINF

    def after_apply(self, E, c, pre, st, env, res):
        if c.q == 'solver.solve_main':
            g = st.ghost
            g['tb'] = z3.If(g['rb'] < g['tb'], g['rb'], g['tb'])


def ok(o, b):
    return z3.Or(b == PINF, z3.And(o != NAN, o <= b))


OI = z3.Function('OI', V, M, I, z3.BoolSort())       # the predicate below; unfolded only inside the methods of Model (elsewhere: at the incumbent)


def objinv(cx, me='self', st=None):
    """forall j < npt(): objval[j] == sum(fval_v[j]**2)"""
    st = st or cx.st
    f, r, n = arr_of(cx, me + '.objval', st), arr_of(cx, me + '.fval_v', st), npt_of(cx, me, st)
    inst = lambda j: z3.Select(f, j) == (lambda r: mkdot(r, r))(z3.Select(r, j))
    if cx.E.verifying.startswith(Mo):
        return forall(0, n, inst, gen=1)
    return z3.And(OI(f, r, n), inst(int_of(cx, me + '.kopt', st)))


def oopt(cx, me='self', st=None):
    st = st or cx.st
    return z3.Select(arr_of(cx, me + '.objval', st), int_of(cx, me + '.kopt', st))


def saved(cx, me='self', st=None):
    """(something is saved, its objective)"""
    st = st or cx.st
    v = cx.f(me + '.objsave', st)
    n = cx.E.is_none(v, st)
    n = z3.BoolVal(n) if isinstance(n, bool) else n
    if v is None:
        return z3.BoolVal(False), z3.RealVal(0)
    al = [(c, cx.E.as_real(x, st)) for c, x in v.alts if x is not None] if isinstance(v, Union) else [(True, cx.E.as_real(v, st))]
    if not al:
        return z3.BoolVal(False), z3.RealVal(0)
    r = al[-1][1]
    for c, x in al[:-1]:
        r = z3.If(c, x, r)
    return z3.Not(n), r


def sav(cx, b, me='self', st=None):
    s, o = saved(cx, me, st)
    return z3.Or(b == PINF, b == NAN, z3.And(s, o <= b))


def le(cx, b, me='self', st=None):
    return z3.Or(ok(oopt(cx, me, st), b), sav(cx, b, me, st))


def WF(cx, me='self'):
    return counts_ok(cx, me) + [('each stored objective is sum(r^2) of the stored residual', objinv(cx, me))]


def CI(cx):
    return WF(cx, 'self.model') + [('the best value is a number or none', cx.g('rb') <= PINF), ('the best value is the incumbent or the saved point', le(cx, cx.g('rb'), 'self.model'))]


MOD = [('field', 'self.model.' + f) for f in MF] + [('ghost', 'rb')]
MM = [('field', 'self.' + f) for f in MF]


def d_of(a):
    return mkdot(a, a)


def better(o1, o0):
    """o1 is no worse than o0 (NaN is the worst)"""
    return z3.Or(o0 == NAN, z3.And(o1 != NAN, o1 <= o0))


def cp_ens(cx):
    k = cx.i('k')
    k0 = int_of(cx, 'self.kopt', cx.pre)
    o0, o1, d = oopt(cx, 'self', cx.pre), oopt(cx), d_of(cx.a('rvec'))
    al = to_z3(cx.E.truth(cx.env['allow_kopt_update'], cx.st))
    s0, n0 = int_of(cx, 'self.npt_so_far', cx.pre), int_of(cx, 'self.num_pts', cx.pre)
    grew = z3.And(k >= s0, s0 < n0)
    return WF(cx) + [('incumbent no worse than before unless overwritten', z3.Or(k == k0, better(o1, o0))), ('incumbent no worse than the new value', z3.Or(z3.Not(al), better(o1, d))), ('incumbent comes from the old one or the new point', z3.Or(o1 == o0, o1 == d)),
                     ('only the changed point can become the incumbent', z3.Or(int_of(cx, 'self.kopt') == k, z3.And(int_of(cx, 'self.kopt') == k0, o1 == o0))), ('the index was valid', k < int_of(cx, 'self.npt_so_far')),
                     ('npt_so_far', int_of(cx, 'self.npt_so_far') == s0 + z3.If(grew, 1, 0)), ('num_pts unchanged', int_of(cx, 'self.num_pts') == n0)]


def np_ens(cx):
    o0, o1, d = oopt(cx, 'self', cx.pre), oopt(cx), d_of(cx.a('rvec'))
    return WF(cx) + [('incumbent no worse than before', better(o1, o0)), ('incumbent no worse than the new value', better(o1, d))]


def sp_ens(cx):
    s0, v0 = saved(cx, 'self', cx.pre)
    s1, v1 = saved(cx)
    d = d_of(cx.a('rvec'))
    return [('something is saved', s1), ('saved value no worse than the new one', better(v1, d)), ('saved value no worse than before', z3.Or(z3.Not(s0), better(v1, v0)))]


def gf_result(cx):
    st = cx.st
    return (cx.E.newarr(st, fresh('x', V)), cx.E.newarr(st, fresh('r', V)), fresh('obj', R), Opq('jac'), fresh('ns', I), fresh('en', I), Opq('jen'))


def gf_ens(cx):
    r = cx.res
    if not isinstance(r, tuple) or len(r) != 7:
        return [('seven results', False)]
    o = cx.E.as_real(r[2], cx.st)
    s, v = saved(cx)
    return [('no worse than the incumbent', better(o, oopt(cx))), ('no worse than the saved point', z3.Or(z3.Not(s), better(o, v)))]


def eo_result(cx):
    E = cx.E
    a = fresh('exn', B)
    return (E.newarr(cx.st, fresh('rl', M), (1, z3.Int('dimm'))), E.newarr(cx.st, fresh('obj', V)), fresh('nrun', I), Union([(a, None), (z3.Not(a), cx.st.alloc('controller.ExitInformation'))]))


def eo_ens(cx):
    r = cx.res
    if not isinstance(r, tuple) or len(r) != 4 or cx.arr(r[0]) is None:
        return [('four results', False)]
    k = cx.E.as_int(r[2], cx.st)
    d = d_of(z3.Select(cx.arr(r[0]), 0))
    en = cx.E.is_none(r[3], cx.st)
    return [('none or one evaluation', z3.And(0 <= k, k <= 1)), ('one evaluation unless there is an exit', z3.Implies(to_z3(en), k == 1)), ('row 0 is the residual just evaluated', cx.g('rb') == z3.If(k == 1, S.upd(cx.og('rb'), d), cx.og('rb')))]


def dx_setup(cx):
    st = cx.st
    for f in ('sl', 'su'):
        a = arr_of(cx, 'self.' + f)
        st.assume(Schem(lambda i, a=a: z3.And(NINF < z3.Select(a, i), z3.Select(a, i) < PINF)))
    p = arr_of(cx, 'self.points')
    st.assume(Schem(lambda i: z3.And(NINF < z3.Select(z3.Select(p, int_of(cx, 'self.kopt')), i), z3.Select(z3.Select(p, int_of(cx, 'self.kopt')), i) < PINF)))


def dx_ens(cx):
    t = cx.arr(cx.res) if cx.E.is_arr(cx.res, cx.st) else None
    if t is None:
        return [('an array', False)]
    return [('the incumbent is at distance 0', z3.Select(t, int_of(cx, 'self.kopt')) == 0)]


def ch_result(cx):
    a, b = fresh('kn', B), fresh('exn', B)
    return (Union([(a, None), (z3.Not(a), fresh('knew', I))]), Union([(b, None), (z3.Not(b), cx.st.alloc('controller.ExitInformation'))]))


def ch_ens(cx):
    r = cx.res
    if not isinstance(r, tuple) or len(r) != 2:
        return [('two results', False)]
    v = r[0]
    g = [z3.Implies(to_z3(c), cx.E.as_int(x, cx.st) != int_of(cx, 'self.model.kopt')) for c, x in (v.alts if isinstance(v, Union) else [(z3.BoolVal(True), v)]) if x is not None]
    h = [z3.Implies(to_z3(c), cx.E.as_int(x, cx.st) >= 0) for c, x in (v.alts if isinstance(v, Union) else [(z3.BoolVal(True), v)]) if x is not None]
    return [('the chosen index is not negative', z3.And(*h) if h else True), ('with skip_kopt the incumbent is not chosen', z3.Or(z3.Not(to_z3(cx.E.truth(cx.env['skip_kopt'], cx.st))), z3.And(*g) if g else z3.BoolVal(True)))]


def cr_ens(cx):
    r = cx.res
    if not isinstance(r, tuple) or len(r) != 2:
        return [('two results', False)]
    ratio = cx.E.as_real(r[0], cx.st)
    en = to_z3(cx.E.is_none(r[1], cx.st))
    d = d_of(z3.Select(cx.a('rvec_list'), 0))
    return [('a positive ratio means the new value is lower than the incumbent', z3.Implies(z3.And(en, ratio > 0, ratio != NAN), better(d, oopt(cx, 'self.model'))))]


def mi_ens(cx):
    return WF(cx) + [('one point', int_of(cx, 'self.npt_so_far') == 1), ('its objective', oopt(cx) == d_of(cx.a('r0'))), ('nothing saved', z3.Not(saved(cx)[0]))]


def exi(cx):
    a = fresh('exn', B)
    return Union([(a, None), (z3.Not(a), cx.st.alloc('controller.ExitInformation'))])


def one(E, st):
    return 1


def mk(P, cls=None):
    s = (cls or S)(P)
    Mq = Mo + '.'
    xr = dict(x='vec', rvec='vec')
    ar = dict(number_of_samples=one)
    s.add(Contract(Mq + '__init__', ensures=mi_ens, modifies=MM, args=dict(x0='vec', r0='vec', r0_nsamples='int', r0_eval_num='int', abs_tol='real', rel_tol='real')))
    s.add(Contract(Mq + 'change_point', requires=lambda cx: WF(cx) + [('k >= 0', cx.i('k') >= 0)], ensures=cp_ens, modifies=[m for m in MM if m[1] != 'self.objsave'], args=xr))
    s.add(Contract(Mq + 'add_new_point', requires=WF, ensures=np_ens, modifies=[m for m in MM if m[1] != 'self.objsave'], args=xr))
    s.add(Contract(Mq + 'save_point', ensures=sp_ens, modifies=[('field', 'self.objsave')], args=dict(xr, nsamples='int'), result=lambda cx: fresh('sv', B)))
    s.add(Contract(Mq + 'get_final_results', requires=WF, ensures=gf_ens, result=gf_result))
    s.add(Contract(Mq + 'distances_to_xopt', pre_setup=dx_setup, requires=lambda cx: counts_ok(cx), ensures=dx_ens, result=lambda cx: cx.E.newarr(cx.st, fresh('sqdist', V), (npt_of(cx),))))
    s.add(Contract(C + '.evaluate_objective', args=ar, ensures=eo_ens, modifies=[('ghost', 'rb')], result=eo_result, requires=lambda cx: [('one sample', cx.i('number_of_samples') == 1)]))
    s.add(Contract(C + '.choose_point_to_replace', requires=lambda cx: counts_ok(cx, 'self.model'), ensures=ch_ens, result=ch_result))
    s.add(Contract(C + '.calculate_ratio', args=dict(rvec_list=lambda E, st: E.newarr(st, fresh('rl', M), (1, z3.Int('dimm'))), xnew='vec', gopt='vec'), requires=lambda cx: WF(cx, 'self.model'), ensures=cr_ens, result=lambda cx: (fresh('ratio', R), exi(cx))))
    notk = lambda cx: [('the point to replace is not the only copy of the best value', z3.Or(cx.i('knew') != int_of(cx, 'self.model.kopt'), sav(cx, cx.g('rb'), 'self.model')))]
    keep = lambda cx: [('the saved point is kept', z3.Implies(sav(cx, cx.og('rb'), 'self.model', cx.pre), sav(cx, cx.g('rb'), 'self.model')))]
    s.add(Contract(C + '.geometry_step', args=ar, requires=lambda cx: CI(cx) + [('knew >= 0', cx.i('knew') >= 0), ('the incumbent is not replaced unless a copy is saved', z3.Or(cx.i('knew') != int_of(cx, 'self.model.kopt'), sav(cx, oopt(cx, 'self.model'), 'self.model')))],
                   ensures=lambda cx: CI(cx) + svkeep(cx) + moved(cx), modifies=MOD, result=exi))
    for nm in ('check_and_fix_geometry', 'soft_restart', 'move_furthest_points', 'move_furthest_points_momentum', 'add_new_direction_while_growing'):
        res = (lambda cx: (fresh('did', B), exi(cx))) if nm == 'check_and_fix_geometry' else exi
        req = CI if nm != 'check_and_fix_geometry' else lambda cx: CI(cx) + [('the distance threshold is a number >= 0', z3.And(cx.r('distsq_thresh') >= 0, cx.r('distsq_thresh') <= PINF))]
        s.add(Contract(C + '.' + nm, args=dict(ar, d='vec', distsq_thresh='real', nruns_so_far='int', x_in_abs_coords_to_save='opt:vec', rvec_to_save='opt:vec', nsamples_to_save='opt:int'), requires=req, ensures=CI, modifies=MOD, result=res))
    for nm in ('initialise_coordinate_directions', 'initialise_random_directions'):
        s.add(Contract(C + '.' + nm, args=ar, pre_setup=seq, requires=lambda cx: CI(cx) + [('only the starting point is in the set', int_of(cx, 'self.model.npt_so_far') == 1)], ensures=CI, modifies=MOD, result=exi))
    s.add(Contract('solver.solve_main', requires=lambda cx: [('a new run', cx.g('rb') == PINF)], ensures=sm_ens, modifies=[('ghost', 'rb')], result=sm_result, pre_setup=lambda cx: (seq(cx), None)[1],
                   args=dict(r0_avg_old='opt:vec', r0_nsamples_old='opt:int', argsf='opq', x0='vec', nsamples='user:nsamples', r0_eval_num_old='opt:int', default_growing_method_set_by_user='opt:bool')))
    s.add(Contract('solver.solve', pre_setup=solve_setup, requires=lambda cx: [('nothing evaluated yet', cx.g('tb') == PINF)], ensures=solve_ens, modifies=[('ghost', 'rb'), ('ghost', 'tb')],
                   args=dict(nsamples='opt:user:nsamples', npt='opt:int', rhobeg='opt:real', lh='opt:real', bounds='opq', user_params='opq', prox_uh='opq', maxfun='opt:int')))
    return s


def svkeep(cx):
    """whatever was no better than the saved point before still is"""
    s0, v0 = saved(cx, 'self.model', cx.pre)
    s1, v1 = saved(cx, 'self.model')
    return [('a saved point is only replaced by a better one', z3.Implies(s0, z3.And(s1, better(v1, v0))))]


def moved(cx):
    k0, k1, kn = int_of(cx, 'self.model.kopt', cx.pre), int_of(cx, 'self.model.kopt'), cx.i('knew')
    return [('the incumbent stays or becomes the moved point', z3.Or(k1 == kn, z3.And(k1 == k0, oopt(cx, 'self.model') == oopt(cx, 'self.model', cx.pre))))]


def seq(cx):
    p = cx.E.spec.pinit(cx.E, cx.st, 'init.run_in_parallel')
    cx.st.assume(z3.Not(p))


def solve_setup(cx):
    st = cx.st
    seq(cx)
    n = z3.Int('n')
    st.assume(n >= 1)
    cx.env['x0'] = cx.E.newarr(st, z3.Const('x0', V), (n,))


def sm_result(cx):
    st = cx.st
    r = [Opq('r%d' % k) for k in range(12)]
    r[2] = fresh('obj', R)
    r[1] = cx.E.newarr(st, fresh('rmin', V))
    r[4], r[5], r[6], r[7] = fresh('ns', I), fresh('nf', I), fresh('nx', I), fresh('nruns', I)
    r[8] = st.alloc('controller.ExitInformation')
    return tuple(r)


def sm_ens(cx):
    r = cx.res
    if not (isinstance(r, tuple) and len(r) == 12):
        return [('twelve results', False)]
    return [('the returned objective is no worse than any value evaluated in this run', ok(cx.E.as_real(r[2], cx.st), cx.g('rb'))), ('the best value is a number', cx.g('rb') <= PINF)]


def solve_ens(cx):
    try:
        o = cx.E.as_real(cx.E.getattr(cx.res, 'obj', cx.st), cx.st)
    except Unsupported:
        return [('soln.obj is a number', False)]
    return [('soln.obj is no worse than any value evaluated', ok(o, cx.g('tb')))]


def tasks(P, tier):
    s = mk(P)
    return [(s, c) for c in s.contracts.values()]
