"""C10: exit flags and messages tell the truth.

Every ExitInformation object carries a ghost kind, computed from the flag and message it was constructed with.  Ghost state (on top of C02's): restarts = soft restarts
carried out, mains = runs started by solve, F0 = model.objbeg of the current run.  truth(e) is a postcondition of every function that returns an exit, and of solve_main."""
import z3
from dvc.values import *
from dvc.vec import *
from dvc.spec import *
from contracts.common import Hval, A_CALLBACKS, A_EFFECTS, A_NUMPY, A_PARAMS, A_ORDER, A_DET
import contracts.C02 as c02
import contracts.C18 as c18
from contracts.C04 import saved, better, oopt
from contracts.C02 import BUD, EV, RS, unscale, CI, ns_ok, grow, MOD

ARITH = Order
LEVEL = 'proof'
EX = 'controller.ExitInformation'
OTHER, SMALL, RHO, MAXFUN, UNSUCC, AUTO, SUCC = 0, 1, 2, 3, 4, 5, 6
ASSUMPTIONS = [A_CALLBACKS, A_EFFECTS, A_NUMPY, A_PARAMS, A_ORDER, A_DET,
               'the documented exit codes (EXIT_SUCCESS = 0, EXIT_MAXFUN_WARNING = 1, EXIT_AUTO_DETECT_RESTART_WARNING = 4) and the documented message texts identify the claims',
               'f(x0) is the objective of the starting point of the run that ended (with hard restarts: of the last run)',
               'a soft restart that ends by budget or by a small objective while it moves its points is not counted as performed',
               '"rho has reached rhoend" is decided under the assumptions of C18']
BOUNDED = ['init.run_in_parallel', 'with hard restarts, f(starting point of the last run) <= f(x0)', 'soln.obj against the user\'s own callbacks (run-time checked)']


def alts_of(v):
    return v.alts if isinstance(v, Union) else [(True, v)]


class S(c02.S):
    use_dot = True
    skip_empty = True
    tracked_fields = frozenset(['nf', 'nx', 'maxfun', 'objsave', 'objbeg', 'abs_tol', 'rel_tol', 'last_successful_run', 'flag', 'msg'])
    framed_ghosts = frozenset(['calls', 'pts', 'restarts', 'mains'])
    interest = {C: c02.S.interest[C] | {'last_successful_run'}, Mo: {'objsave', 'objbeg', 'abs_tol', 'rel_tol', 'h', 'kopt', 'objval', 'scaling_changes', 'argsh'}, EX: {'flag', 'msg', 'kind'}}
    inline_set = frozenset(['model.Model.min_objective_value', 'model.Model.objopt', 'model.Model.ropt', 'util.sumsq', 'solver.OptimResults.__init__', EX + '.__init__', EX + '.able_to_do_restart'])

    def init_ghost(self, E, st):
        c02.S.init_ghost(self, E, st)
        g = st.ghost
        g['restarts'], g['mains'], g['F0'] = z3.Int('restarts0'), z3.Int('mains0'), z3.Real('F00')
        st.assume(z3.Not(self.pinit(E, st, 'init.run_in_parallel')))

    def touch(self, E, st, env, c):
        todo = [v for v in env.values() if isinstance(v, Ref)] if not c.q.endswith('.__init__') else []
        while todo:
            r = todo.pop()
            for f in sorted(TYPES.get(st.heap[r.id].cls, {})):
                if f in self.tracked_fields or f in ('model', 'kopt', 'objval', 'h', 'scaling_changes'):
                    v = E.getattr(r, f, st)
                    if f == 'model':
                        todo.append(v)

    def kind(self, flag, msg):
        """code of the claim made by a message: SMALL .. SUCC, or OTHER when no claim of this property is made (None: not known statically)"""
        if not isinstance(flag, int) or isinstance(flag, bool):
            return None
        if flag == 1:
            return MAXFUN
        if flag == 4:
            return AUTO
        if flag != 0:
            return OTHER
        if not isinstance(msg, str):
            return None
        m = msg.lower()
        return SMALL if 'sufficiently small' in m else RHO if 'rhoend' in m else UNSUCC if 'unsuccessful restarts' in m else SUCC

    def construct(self, E, q, args, kw, st):
        if q != EX:
            return c02.S.construct(self, E, q, args, kw, st)
        o = st.alloc(q)
        init = E.P.classes.get(q, {}).get('__init__')
        E.call_repo(init, o, args, kw, st, None)
        f = st.heap[o.id].f
        k = self.kind(f.get('flag'), f.get('msg'))
        if k is None:
            E.oblige(st, 'the flag and the message of an exit are known where it is created', False)
            k = fresh('kind', I)
        st.setf(o, kind=z3.IntVal(k) if isinstance(k, int) else k)
        self.created(E, st, o, k)
        return o

    def created(self, E, st, o, k):
        pass

    def on_call(self, E, q, env, st):
        if q == EX + '.message' and not E.verifying.startswith(EX):
            s = E.truth(env['with_stem'], st) if 'with_stem' in env else True
            if s is True or (is_z3(s) and z3.is_true(s)):
                return ('$msg', E.getattr(env['self'], 'kind', st), E.getattr(env['self'], 'flag', st))       # merges elementwise
            return Opq('msg')
        return c02.S.on_call(self, E, q, env, st)

    def lazy_field(self, E, st, o, cls, name):
        if cls == EX and name == 'kind':
            v = fresh('kind', I)
            return v
        return c02.S.lazy_field(self, E, st, o, cls, name)

    def user_call(self, E, st, f, args, kw):
        if f.name == 'h':
            x = E.arr(args[0], st) if args and E.is_arr(args[0], st) else None
            return Hval(x) if x is not None and x.sort() == V else fresh('hval', R)
        return c02.S.user_call(self, E, st, f, args, kw)

    def ext_call(self, E, name, args, kw, st):
        if name == 'numpy.mean' and args and E.is_arr(args[0], st) and kw.get('axis') == 0:
            v = args[0]
            t = E.arr(v, st)
            shp = st.heap[v.id].f.get('shape') if isinstance(v, Ref) else None
            if t is not None and t.sort() == M and shp:
                return E.newarr(st, meanrows(t, E.as_int(shp[0], st)), (shp[1],))
        return NotImplemented

    def after_apply(self, E, c, pre, st, env, res):
        g = st.ghost
        if c.q == C + '.soft_restart':
            g['restarts'] = pre.ghost['restarts'] + z3.If(to_z3(E.is_none(res, st)), 1, 0)
        if c.q == 'solver.solve_main':
            g['mains'] = g['mains'] + 1
        if c.q == C + '.__init__':
            g['F0'] = E.as_real(E.getattr(E.getattr(env['self'], 'model', st), 'objbeg', st), st)

    def loop_candidates(self, E, s, entry, mod, it):
        cs = c02.S.loop_candidates(self, E, s, entry, mod, it)

        def cand(label, fn):
            fn.label = label
            cs.append(fn)
        ints = [m[1] for m in sorted(mod, key=str) if m[0] == 'loc' and m[1] in entry.loc and c18.is_int(entry.loc[m[1]])]
        for n in ints:
            v = lambda st, n=n: E.as_int(st.loc[n], st)
            cand('%s counts the restarts' % n, lambda st, i, en, v=v: v(st) - v(en) == st.ghost['restarts'] - en.ghost['restarts'])
            cand('%s counts the runs' % n, lambda st, i, en, v=v: v(st) == st.ghost['restarts'] + st.ghost['mains'])
            cand('%s>=0' % n, lambda st, i, en, v=v: v(st) >= 0)
            cand('%s==calls' % n, lambda st, i, en, v=v: v(st) == st.ghost['calls'])
        cand('restarts>=0', lambda st, i, en: st.ghost['restarts'] >= 0)
        for m in sorted(mod, key=str):
            if m[0] == 'fld' and m[2] == 'last_successful_run':
                cand('last_successful_run>=0', lambda st, i, en, m=m: E.as_int(E.lookup(st, m), st) >= 0)
        for n in ints:
            for k in ints:
                cand('%s<=%s' % (n, k), lambda st, i, en, n=n, k=k: E.as_int(st.loc[n], st) <= E.as_int(st.loc[k], st))
        exs = [m[1] for m in sorted(mod, key=str) if m[0] == 'loc' and isinstance(entry.loc.get(m[1]), (Ref, Union)) and any(isinstance(x, Ref) and entry.heap[x.id].cls == EX for _, x in alts_of(entry.loc[m[1]]))]
        for n in exs:
            cand('%s is consistent' % n, lambda st, i, en, n=n: sane(E, st, st.loc[n]))
            cand('%s: a run ended by auto-detection only with hard restarts' % n, lambda st, i, en, n=n: ends(self, E, st, st.loc[n], None))
            for k in ints:
                cand('%s: unsuccessful restarts <= %s' % (n, k), lambda st, i, en, n=n, k=k: each(E, st, st.loc[n], lambda q, f: z3.Implies(q == UNSUCC, E.as_int(st.loc[k], st) >= pint(self, E, st, 'restarts.max_unsuccessful_restarts'))))
            for m in sorted(mod, key=str):
                if m[0] == 'loc' and m[1] in entry.loc and c18.is_real(entry.loc[m[1]]):
                    cand('%s: %s small enough' % (n, m[1]), lambda st, i, en, n=n, w=m[1]: ends(self, E, st, st.loc[n], E.as_real(st.loc[w], st)))
        return cs


def exits(E, st, v):
    return [(to_z3(c), x) for c, x in alts_of(v) if x is not None]


def kindof(E, st, x):
    return E.as_int(E.getattr(x, 'kind', st), st), E.as_int(E.getattr(x, 'flag', st), st)


def each(E, st, v, fn):
    al = exits(E, st, v)
    if any(not (isinstance(x, Ref) and st.heap[x.id].cls == EX) for _, x in al):
        return z3.BoolVal(False)
    return z3.And(*[z3.Implies(c, fn(*kindof(E, st, x))) for c, x in al]) if al else z3.BoolVal(True)


def link(k, f):
    return z3.And((f == 0) == z3.Or(k == SMALL, k == RHO, k == UNSUCC, k == SUCC), (f == 1) == (k == MAXFUN), (f == 4) == (k == AUTO), k >= 0, k <= 6)


def sane(E, st, v):
    return each(E, st, v, link)


def small(sp, E, st, o, beg):
    """o <= abs_tol or o <= rel_tol * f(x0)"""
    P = lambda k: E.as_real(st.ghost.get('P:' + k, sp.pinit(E, st, k)), st)
    return z3.Or(o <= P('model.abs_tol'), o <= E.A.mul(P('model.rel_tol'), beg))


def pint(sp, E, st, k):
    return E.as_int(st.ghost.get('P:' + k, sp.pinit(E, st, k)), st)


def ends(sp, E, st, v, obj):
    """the exit of a finished run"""
    b = lambda k: to_z3(E.truth(st.ghost.get('P:' + k, sp.pinit(E, st, k)), st))

    def fn(k, f):
        fs = [z3.Implies(k == AUTO, z3.And(b('restarts.use_restarts'), z3.Not(b('restarts.use_soft_restarts')))), z3.Implies(k == MAXFUN, st.ghost['calls'] >= BUD)]
        if obj is not None:
            fs.append(z3.Implies(k == SMALL, z3.And(obj != NAN, small(sp, E, st, obj, st.ghost['F0']))))
        return z3.And(*fs)
    return each(E, st, v, fn)


def truth(cx, v, nruns=None, allow=()):
    E, st, sp = cx.E, cx.st, cx.E.spec
    s, o = saved(cx, 'self.model')
    beg = cx.r('self.model.objbeg')
    fs = [('the kind of the exit matches its flag', sane(E, st, v)),
          ('"sufficiently small": the saved objective is below the threshold', each(E, st, v, lambda k, f: z3.Implies(k == SMALL, z3.And(s, o != NAN, small(sp, E, st, o, beg))))),
          ('"max evals": the budget is used up', each(E, st, v, lambda k, f: z3.Implies(k == MAXFUN, st.ghost['calls'] >= BUD))),
          ('"rho has reached rhoend" and auto-detected restarts are decided by the main loop only', each(E, st, v, lambda k, f: z3.And(k != RHO, k != AUTO)))]
    un = lambda k, f: z3.Implies(k == UNSUCC, nruns >= pint(sp, E, st, 'restarts.max_unsuccessful_restarts') if nruns is not None else z3.BoolVal(False))
    return fs + [('"unsuccessful restarts": at least that many runs', each(E, st, v, un))]


def exi(cx):
    a = fresh('exn', B)
    return Union([(a, None), (z3.Not(a), cx.st.alloc(EX))])


def MI(cx, me='self.model'):
    E, st, sp = cx.E, cx.st, cx.E.spec
    P = lambda k: E.as_real(st.ghost.get('P:' + k, sp.pinit(E, st, k)), st)
    return [('the thresholds are the user\'s', z3.And(cx.r(me + '.abs_tol') == P('model.abs_tol'), cx.r(me + '.rel_tol') == P('model.rel_tol')))]


def LS(cx):
    return [('last_successful_run >= 0', cx.i('self.last_successful_run') >= 0)]


def objof(cx, x, r, me='self'):
    E, st = cx.E, cx.st
    h = E.getattr(cx.env['self'], 'h', st)
    hn = to_z3(E.is_none(h, st))
    d = mkdot(r, r)
    return z3.If(hn, d, E.A.add(d, Hval(unscale(x)))), hn


def vec(cx, n):
    v = cx.env[n]
    for c, x in alts_of(v):
        if x is not None and cx.E.is_arr(x, cx.st):
            t = cx.E.arr(x, cx.st)
            if t is not None and t.sort() == V:
                return t
    return fresh('unk_' + n, V)


def eo_result(cx):
    E = cx.E
    return (E.newarr(cx.st, fresh('rl', M), (cx.i('number_of_samples'), z3.Int('dimm'))), E.newarr(cx.st, fresh('obj', V)), fresh('nrun', I), exi(cx))


def eo_ens(cx):
    fs = c02.eo_ens(cx)
    r = cx.res
    if not (isinstance(r, tuple) and len(r) == 4 and cx.arr(r[0]) is not None and cx.arr(r[0]).sort() == M):
        return fs + [('four results', False)]
    E, st, sp = cx.E, cx.st, cx.E.spec
    k = E.as_int(r[2], st)
    o, hn = objof(cx, vec(cx, 'x'), meanrows(cx.arr(r[0]), k))
    beg = cx.r('self.model.objbeg')
    S1 = ('"sufficiently small": the averaged objective at x is below the threshold', each(E, st, r[3], lambda q, f: z3.Implies(q == SMALL, z3.And(k > 0, o != NAN, small(sp, E, st, o, beg)))))
    return fs + [S1, ('the kind of the exit matches its flag', sane(E, st, r[3])), ('"max evals": the budget is used up', each(E, st, r[3], lambda q, f: z3.Implies(q == MAXFUN, st.ghost['calls'] >= BUD))),
                 ('no other success', each(E, st, r[3], lambda q, f: z3.And(q != RHO, q != AUTO, q != UNSUCC)))]


def sp_ens(cx):
    s0, v0 = saved(cx, 'self', cx.pre)
    s1, v1 = saved(cx)
    x = vec(cx, 'x')
    o, hn = objof(cx, x, vec(cx, 'rvec'))
    ab = to_z3(cx.E.truth(cx.env['x_in_abs_coords'], cx.st))
    return [('something is saved', s1), ('saved value no worse than the new one', z3.Implies(z3.Or(ab, hn), better(v1, o))), ('saved value no worse than before', z3.Or(z3.Not(s0), better(v1, v0)))]


def gf_result(cx):
    st = cx.st
    return (cx.E.newarr(st, fresh('x', V)), cx.E.newarr(st, fresh('r', V)), fresh('obj', R), Opq('jac'), fresh('ns', I), fresh('en', I), Opq('jen'))


def gf_ens(cx):
    r = cx.res
    if not isinstance(r, tuple) or len(r) != 7:
        return [('seven results', False)]
    o = cx.E.as_real(r[2], cx.st)
    s, v = saved(cx)
    return [('no worse than the saved point', z3.Or(z3.Not(s), better(o, v)))]


def keep(cx):
    """nothing but a better point replaces the saved point"""
    s0, v0 = saved(cx, 'self.model', cx.pre)
    s1, v1 = saved(cx, 'self.model')
    return []


def ctl(s, name, ns=True, args=None, extra=None, nruns=False, pos=None, mod=()):
    """a method of the controller that may end the run"""
    q = C + '.' + name
    old = c02.mk(s.prog).contracts.get(q)
    ex = lambda cx: cx.res[pos] if pos is not None and isinstance(cx.res, tuple) and len(cx.res) > pos else cx.res
    ens = lambda cx: (old.ens(cx) if old else []) + LS(cx) + truth(cx, ex(cx), cx.i('nruns_so_far') if nruns else None)
    res = {'check_and_fix_geometry': lambda cx: (fresh('did', B), exi(cx)), 'calculate_ratio': lambda cx: (fresh('ratio', R), exi(cx)), 'choose_point_to_replace': lambda cx: (Union([((b := fresh('kn', B)), None), (z3.Not(b), fresh('knew', I))]), exi(cx))}.get(name, exi)
    s.add(Contract(q, args=args, requires=lambda cx: (old.req(cx) if old else []) + MI(cx) + LS(cx) + ([('nruns_so_far >= 0', cx.i('nruns_so_far') >= 0)] if nruns else []), ensures=ens,
                   modifies=(list(old.modifies) if old else []) + list(mod), result=res))


def ci_ens(cx):
    return CIx(cx) + MI(cx) + LS(cx) + [('objbeg is the objective at the starting point', obeg(cx)), ('nothing saved', z3.Not(saved(cx, 'self.model')[0]))]


def CIx(cx):
    E, st = cx.E, cx.st
    return [('self.nf is the given one', cx.i('self.nf') == cx.i('nf')), ('self.nx is the given one', cx.i('self.nx') == cx.i('nx')), ('self.maxfun is the given one', cx.i('self.maxfun') == cx.i('maxfun'))]


def obeg(cx, me='self.model', r='r0'):
    E, st = cx.E, cx.st
    hn = to_z3(E.is_none(cx.env['h'], st))
    d = mkdot(cx.a(r), cx.a(r))
    return cx.r(me + '.objbeg') == z3.If(hn, d, E.A.add(d, Hval(unscale(cx.a('x0')))))


def mk(P, cls=None):
    s = (cls or S)(P)
    b = c02.mk(P)
    ms = [('field', 'self.model.objsave')]
    s.add(Contract(Mo + '.__init__', requires=lambda cx: [], ensures=lambda cx: [('objbeg is the objective at the starting point', obeg(cx, 'self')), ('thresholds kept', z3.And(cx.r('self.abs_tol') == cx.r('abs_tol'), cx.r('self.rel_tol') == cx.r('rel_tol'))),
                                                       ('nothing saved', z3.Not(saved(cx)[0]))],
                   modifies=[('field', 'self.' + f) for f in ('objsave', 'objbeg', 'abs_tol', 'rel_tol')], args=dict(x0='vec', r0='vec', r0_nsamples='int', r0_eval_num='int', abs_tol='real', rel_tol='real')))
    s.add(Contract(C + '.__init__', ensures=ci_ens, modifies=[('field', 'self.' + f) for f in ('nf', 'nx', 'maxfun', 'last_successful_run')] + [('field', 'self.model.' + f) for f in ('objsave', 'objbeg', 'abs_tol', 'rel_tol')],
                   args=dict(x0='vec', r0='vec', r0_nsamples='int', r0_eval_num='int')))
    for nm in ('as_absolute_coordinates', 'xopt', 'xpt'):
        s.add(Contract(Mo + '.' + nm, args=dict(x='vec', k='int', abs_coordinates='bool'), result=lambda cx: cx.E.newarr(cx.st, fresh('v', V)), ensures=lambda cx: [('an array', bool(cx.E.is_arr(cx.res, cx.st)))]))
    s.add(Contract(Mo + '.save_point', ensures=sp_ens, modifies=[('field', 'self.objsave')], args=dict(x='vec', rvec='vec', nsamples='int', eval_num='int', x_in_abs_coords='bool'), result=lambda cx: fresh('sv', B)))
    s.add(Contract(Mo + '.get_final_results', ensures=gf_ens, result=gf_result))
    eo = b.contracts[C + '.evaluate_objective']
    s.add(Contract(C + '.evaluate_objective', requires=lambda cx: eo.req(cx) + MI(cx), ensures=eo_ens, modifies=MOD, result=eo_result))
    for nm in ('initialise_coordinate_directions', 'initialise_random_directions', 'add_new_direction_while_growing', 'geometry_step', 'move_furthest_points', 'move_furthest_points_momentum'):
        ctl(s, nm, mod=ms, args=dict(d='vec'))
    ctl(s, 'check_and_fix_geometry', mod=ms, pos=1, args=dict(distsq_thresh='real'))
    ctl(s, 'soft_restart', mod=ms + [('field', 'self.last_successful_run'), ('ghost', 'restarts')], nruns=True, args=dict(x_in_abs_coords_to_save='opt:vec', rvec_to_save='opt:vec', nsamples_to_save='opt:int'))
    ctl(s, 'calculate_ratio', pos=1, args=dict(rvec_list=lambda E, st: E.newarr(st, fresh('rl', M), (fresh('rows', I), z3.Int('dimm'))), xnew='vec', gopt='vec'))
    ctl(s, 'choose_point_to_replace', pos=1)
    sm = b.contracts['solver.solve_main']
    s.add(Contract('solver.solve_main', requires=lambda cx: sm.req(cx) + [('run number', cx.i('nruns_so_far') >= 0)], ensures=sm_ens, modifies=sm.modifies + [('ghost', 'restarts'), ('ghost', 'F0')], result=sm_result, args=sm.args))
    so = b.contracts['solver.solve']
    s.add(Contract('solver.solve', pre_setup=so.pre_setup, requires=lambda cx: so.req(cx) + [('no run yet', z3.And(cx.g('restarts') == 0, cx.g('mains') == 0))], ensures=so_ens, modifies=so.modifies + [('ghost', 'restarts'), ('ghost', 'F0'), ('ghost', 'mains')], args=so.args))
    return s


def sm_result(cx):
    r = list(c02.sm_result(cx))
    r[2] = fresh('obj', R)
    return tuple(r)


def sm_ens(cx):
    r = cx.res
    fs = c02.sm_ens(cx)
    if not (isinstance(r, tuple) and len(r) == 12):
        return fs
    E, st, sp = cx.E, cx.st, cx.E.spec
    n = E.as_int(r[7], st)
    o = r[2]
    o = E.as_real(o, st) if not isinstance(o, Opq) else fresh('obj', R)
    return fs + [('the exit exists', z3.Not(to_z3(E.is_none(r[8], st)))), ('the kind of the exit matches its flag', sane(E, st, r[8])),
                 ('"sufficiently small": the returned objective is below the threshold; "max evals": the budget is used up; auto-detection: only with hard restarts', ends(sp, E, st, r[8], o)),
                 ('"unsuccessful restarts": at least that many runs', each(E, st, r[8], lambda k, f: z3.Implies(k == UNSUCC, n >= pint(sp, E, st, 'restarts.max_unsuccessful_restarts')))),
                 ('the run count is one more than the restarts', n == cx.i('nruns_so_far') + 1 + cx.g('restarts') - cx.og('restarts')), ('restarts never decrease', cx.g('restarts') >= cx.og('restarts'))]


def so_ens(cx):
    E, st, sp = cx.E, cx.st, cx.E.spec
    A = lambda n: E.getattr(cx.res, n, st)
    fs = []
    try:
        flag, msg, obj, nf, nruns = A('flag'), A('msg'), A('obj'), E.as_int(A('nf'), st), E.as_int(A('nruns'), st)
    except Unsupported:
        return [('a result object', False)]
    ran = cx.g('mains') > 0
    fl = E.as_int(flag, st)
    al = alts_of(msg)
    for c, x in al:
        c = to_z3(c)
        if not (isinstance(x, tuple) and len(x) == 3 and x[0] == '$msg'):
            fs.append(('the message is the one of the exit', z3.Not(c)))
            continue
        k, f = E.as_int(x[1], st), E.as_int(x[2], st)
        o = E.as_real(obj, st) if not isinstance(obj, Opq) else fresh('obj', R)
        w = lambda g, *p: z3.Implies(z3.And(c, ran, *p), g)
        fs += [('flag and message belong together', z3.Implies(c, z3.And(f == fl, link(k, f)))), ('"sufficiently small": soln.obj <= abs_tol or soln.obj <= rel_tol*f(x0)', w(small(sp, E, st, o, cx.g('F0')), k == SMALL)),
               ('"max evals": nf == maxfun', w(nf == BUD, k == MAXFUN)), ('"unsuccessful restarts": at least that many runs', w(nruns >= pint(sp, E, st, 'restarts.max_unsuccessful_restarts'), k == UNSUCC)),
               ('success only with a finite objective', w(z3.And(o != NAN, o < PINF, o > NINF), fl == 0)), ('an auto-detected restart is never the end', w(z3.BoolVal(False), k == AUTO))]
    return fs + [('soln.nruns is one more than the restarts performed', z3.Implies(ran, nruns == cx.g('mains') + cx.g('restarts'))), ('a result without a run is an input error', z3.Implies(z3.Not(ran), fl == -1))]


class M1(S):
    """ExitInformation.message"""


def msg_setup(cx):
    cx.st.setf(cx.env['self'], flag=z3.Int('FLAG'), msg='DETAIL', kind=z3.Int('KIND'))


def msg_ens(cx):
    E, st = cx.E, cx.st
    stem = to_z3(E.truth(cx.env['with_stem'], st))
    fs = []
    for c, x in alts_of(cx.res):
        c = to_z3(c)
        ok = isinstance(x, str)
        fs.append(('the message contains the details', z3.Implies(c, z3.BoolVal(ok and 'DETAIL' in x))))
        fs.append(('it says Success exactly for the success flag', z3.Implies(z3.And(c, stem), z3.BoolVal(ok and x.startswith('Success')) == (z3.Int('FLAG') == 0))))
        fs.append(('it says max evals exactly for the budget flag', z3.Implies(z3.And(c, stem), z3.BoolVal(ok and 'max evals' in x) == (z3.Int('FLAG') == 1))))
    return fs


class RhoS(c18.S):
    """C18's argument for solve_main, plus: where 'rho has reached rhoend' is reported, rho equals rhoend"""
    construct = S.construct
    kind = S.kind
    inline_set = c18.S.inline_set | {EX + '.__init__'}

    def created(self, E, st, o, k):
        if k == RHO:
            ct = [v for v in st.loc.values() if isinstance(v, Ref) and st.heap[v.id].cls == C]
            if not ct or not E.frames or E.verifying != 'solver.solve_main':
                E.oblige(st, '"rho has reached rhoend" is reported by the main loop', False)
                return
            f = lambda n: E.as_real(E.getattr(ct[0], n, st), st)
            E.oblige(st, '"rho has reached rhoend": rho equals rhoend', z3.And(f('rho') == f('rhoend'), f('rho') != NAN))


def tasks(P, tier):
    s = mk(P)
    out = [(s, c) for c in s.contracts.values()]
    m = M1(P)
    out.append((m, Contract(EX + '.message', pre_setup=msg_setup, args=dict(with_stem='bool'), ensures=msg_ens)))
    c18_s = c18.S
    c18.S = RhoS
    try:
        r, T_ = c18.mk(P)
    finally:
        c18.S = c18_s
    out += [(r, c) for c in r.contracts.values() if not any(c is t for t in T_) and (c.q == 'solver.solve_main' or tier == 'thorough')]
    return out
