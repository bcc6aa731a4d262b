"""C09: with projections, every point evaluated is an output of Dykstra's routine, run over all sets (bound box last) with the user's settings.

ISOUT(v): v is an output of util.dykstra called with the complete list of sets and the user's tolerance and sweep limit.
Ghost: PM = projections were given; NPF = number of sets handed to the solver (user's sets plus the bound box); DL = output of the last call of dykstra in solve.
What an output of dykstra satisfies (distance to each set, box exactly) is C15's part: its obligations on dykstra and pbox are re-checked here."""
import z3
from dvc.values import *
from dvc.vec import *
from dvc.spec import *
from contracts.common import *
import contracts.C01 as b
import contracts.C15 as c15

ARITH = Order
LEVEL = 'proof'
ISOUT = z3.Function('ISOUT', V, z3.BoolSort())
NPF = z3.Int('NPF')
ASSUMPTIONS = [A_CALLBACKS, A_EFFECTS, A_NUMPY, A_ORDER, A_PARAMS, A_DET, A_REAL + ' (obligations on dykstra and pbox)',
               'the incumbent in absolute coordinates, box(xbase + stored step), is the output of dykstra that was evaluated, up to rounding of the base-point arithmetic (C03); used only where a hard restart starts',
               '|bounds| <= 1e20', 'each projector is a deterministic function onto its set']
TRUSTED = ['model.Model.xopt / model.Model.xpt in absolute coordinates (rounding of base-point arithmetic, see assumptions)']
BOUNDED = ['rounding: distances measured at run time against sqrt(p*tol)']


def truth(E, v, st):
    return to_z3(E.truth(v, st))


class S(b.S):
    framed_ghosts = frozenset(['PM', 'SN'])
    tracked_fields = frozenset(['projections', 'model', 'xsave', 'd_max_iters', 'd_tol', 'scaling_changes'])
    inline_set = frozenset(['util.remove_scaling', b.EV, 'util.apply_scaling', 'util.pbox', 'model.Model.__init__', 'controller.Controller.__init__', 'solver.OptimResults.__init__'])
    interest = {C: {'objfun', 'h', 'model', 'scaling_changes', 'maxfun', 'nf', 'nx'}, Mo: {'projections', 'xsave', 'd_max_iters', 'd_tol', 'scaling_changes'}}

    def init_ghost(self, E, st):
        st.ghost['PM'] = z3.Bool('projmode')
        st.ghost['SN'] = z3.Bool('unscaled')
        st.ghost['DL'] = z3.Const('nodl', V)
        st.assume(NPF >= 1)
        st.assume(z3.And(PINF > 10 ** 20, NINF < -10 ** 20))

    def mk_scaling(self, E, st):
        lo, up = fresh('lower', V), fresh('upper', V)
        SN = st.ghost['SN']
        return Union([(SN, None), (z3.Not(SN), (E.newarr(st, fresh('shift', V)), E.newarr(st, fresh('scale', V)), E.newarr(st, lo), E.newarr(st, up)))])

    def user_call(self, E, st, f, args, kw):
        if f.name == 'objfun':
            x = E.arr(args[0], st) if args else None
            E.oblige(st, 'objfun call: the point is an output of dykstra', isout(st, x if x is not None and x.sort() == V else fresh('imp', V)))
            return E.newarr(st, fresh('rvec', V))
        if f.name == 'proj':
            return E.newarr(st, fresh('proj', V))
        return Opq(f.name)

    def loop_candidates(self, E, s, entry, mod, it):
        cs = []

        def cand(label, fn):
            fn.label = label
            cs.append(fn)
        for i, c in entry.heap.items():
            if c.cls == Mo and 'xsave' in c.f:
                cand('saved point is an output', lambda st, i, en, r=Ref(i): xs_ok(E, st, r))
        for m in mod:
            if m[0] == 'loc':
                v = self.vec(E, entry.loc.get(m[1]), entry)
                if v is not None:
                    def f(st, i, en, n=m[1]):
                        v = st.loc.get(n)
                        ws = [(c, self.vec(E, x, st)) for c, x in (v.alts if isinstance(v, Union) else [(True, v)])]
                        return None if any(w is None for _, w in ws) else to_z3(band(*[bor(bnot(c), isout(st, w)) for c, w in ws]))
                    cand('%s is an output' % m[1], f)
        return cs

    def before_requires(self, E, c, st, env):
        if c.q == 'solver.solve_main' and st.ghost['PM'].eq(z3.Bool('projmode')) and E.verifying == 'solver.solve' and 'projections' in env:       # ghost assignment, at the first call
            st.ghost['PM'] = truth(E, env['projections'], st)
            n = E.is_none(env['scaling_changes'], st)
            st.ghost['SN'] = z3.BoolVal(n) if isinstance(n, bool) else n

    def after_apply(self, E, c, pre, st, env, res):
        if c.q == 'util.dykstra':
            st.ghost['DL'] = E.arr(res, st)


def isout(st, v):
    return z3.Implies(st.ghost['PM'], ISOUT(v))


def alts(v):
    return v.alts if isinstance(v, Union) else [(True, v)]


def vec_isout(E, v, st):
    out = []
    for c, x in alts(v):
        if x is None:
            continue
        t = x.const('vec') if isinstance(x, Opq) else E.arr(x, st) if isinstance(x, Ref) else None
        out.append(bor(bnot(c), isout(st, t) if t is not None and t.sort() == V else z3.Not(st.ghost['PM'])))
    return to_z3(band(*out))


def xs_ok(E, st, r):
    return vec_isout(E, E.getattr(r, 'xsave', st), st)


def full(E, v, st, PM):
    """the list is non-empty exactly in projection mode, and then has all NPF sets"""
    out = []
    for c, x in alts(v):
        cell = st.heap.get(x.id) if isinstance(x, Ref) else None
        if cell is None or cell.cls != 'list':
            out.append(bor(bnot(c), bnot(PM)))
            continue
        n = E.as_int(cell.f['len'], st) if cell.f.get('items') is None else z3.IntVal(len(cell.f['items']))
        out.append(bor(bnot(c), z3.And(PM == (n > 0), z3.Implies(PM, n == NPF))))
    return to_z3(band(*out))


def par(cx, key):
    return cx.st.ghost.get('P:' + key, cx.E.spec.pinit(cx.E, cx.st, key))


def minv(cx, me='self', st=None, r=None):
    E = cx.E
    st = st or cx.st
    r = r if r is not None else cx.f(me, st) if '.' in me else cx.env[me]
    g = lambda f: E.getattr(r, f, st)
    return [('all sets are in the model', full(E, g('projections'), st, st.ghost['PM'])),
            ('the model has the user\'s Dykstra settings', z3.And(E.as_int(g('d_max_iters'), st) == E.as_int(par(cx, 'dykstra.max_iters'), st), E.as_real(g('d_tol'), st) == E.as_real(par(cx, 'dykstra.d_tol'), st))),
            ('saved point is an output', xs_ok(E, st, r))]


def scale_ok(E, sc, st):
    SN = st.ghost['SN']
    out = []
    for c, x in alts(sc):
        out.append(bor(bnot(c), SN if x is None else bnot(SN)))
    return to_z3(band(*out, z3.Implies(st.ghost['PM'], SN)))


def cinv(cx, me='self', st=None, r=None):
    E = cx.E
    st = st or cx.st
    r = r if r is not None else cx.env[me]
    return minv(cx, st=st, r=E.getattr(r, 'model', st)) + [('no scaling with projections', scale_ok(E, E.getattr(r, 'scaling_changes', st), st))]


def opt_ok(cx, name):
    v = cx.env[name]
    return vec_isout(cx.E, v, cx.st)


MODX = [('field', 'self.model.xsave')]


def cm(name, res=None, req=None, args=None, ens=None):
    return Contract(C + '.' + name, requires=lambda cx: cinv(cx) + (req(cx) if req else []), ensures=lambda cx: cinv(cx) + (ens(cx) if ens else []), modifies=MODX, result=res, args=args or {})


def dy_req(cx):
    E, st = cx.E, cx.st
    PM = st.ghost['PM']
    if E.verifying != 'solver.solve':
        g = [('all sets are handed to dykstra', full(E, cx.env['P'], st, PM))]
    else:       # in solve: the user's list with the bound box appended
        v = cx.env['P']
        cell = st.heap.get(v.id) if isinstance(v, Ref) else None
        g = [('the bound box is the last set', box_last(cx, v))]
    return g + [('the user\'s sweep limit', cx.i('max_iter') == E.as_int(par(cx, 'dykstra.max_iters'), st)), ('the user\'s tolerance', cx.r('tol') == E.as_real(par(cx, 'dykstra.d_tol'), st))]


def box_last(cx, v):
    """the last set of the list maps every w to clip(w, lower, upper) with the user's bounds on component CX"""
    E, st = cx.E, cx.st
    out = []
    for c, x in alts(v):
        cell = st.heap.get(x.id) if isinstance(x, Ref) else None
        if cell is None or cell.cls != 'list':
            out.append(bnot(c))
            continue
        if cell.f.get('kind') == 'proj':
            continue
        n = cell.f.get('len')
        last = cell.f.get('last') or (cell.f['items'][-1] if cell.f.get('items') else None)
        if last is None:
            out.append(bor(bnot(c), bnot(E.truth(x, st))))
            continue
        s2 = st.copy()
        w = fresh('w', V)
        E.rec += 1
        try:
            r = E.call_value(last, [E.newarr(s2, w)], {}, s2)
        finally:
            E.rec -= 1
        t = E.arr(r, s2) if r is not None and not isinstance(r, (Union, tuple)) else None
        if t is None or t.sort() != V:
            out.append(bnot(c))
            continue
        extra = [p for p in s2.pc if not any(p is q for q in st.pc) and not isinstance(p, Schem)]
        wx, tx = z3.Select(w, b.CX), z3.Select(t, b.CX)
        goal = z3.Or(wx == NAN, z3.And(b.LO <= tx, tx <= b.UP, z3.Implies(z3.And(b.LO <= wx, wx <= b.UP, -10 ** 20 <= wx, wx <= 10 ** 20), tx == wx)))
        out.append(bor(bnot(c), z3.Implies(z3.And(*extra) if extra else z3.BoolVal(True), goal)))
    return to_z3(band(*out))


def dy_ens(cx):
    t = cx.arr(cx.res)
    g = [('result is an output', ISOUT(t))]
    if cx.E.verifying == 'solver.solve':
        g.append(('result is in the last set, the bound box (C01, C15)', Schem(lambda i: z3.Or(z3.Select(t, i) == NAN, z3.And(-10 ** 20 <= z3.Select(t, i), z3.Select(t, i) <= 10 ** 20)))))
    return g


def x0_ok(cx):
    """x0 is an output, or (first run) componentwise equal to the last output of dykstra"""
    E, st = cx.E, cx.st
    x = cx.a('x0')
    j = fresh('j', I)
    n = E.vlen(cx.env['x0'], st)
    hi = z3.IntVal(n) if isinstance(n, int) else n if n is not None else fresh('n', I)
    return z3.Implies(st.ghost['PM'], z3.Or(ISOUT(x), z3.And(ISOUT(st.ghost['DL']), z3.Implies(z3.And(0 <= j, j < hi), z3.Select(x, j) == z3.Select(st.ghost['DL'], j)))))


def sm_req(cx):
    E, st = cx.E, cx.st
    g = [('no scaling with projections', scale_ok(E, cx.env['scaling_changes'], st))]
    if E.verifying == 'solver.solve_main':
        return g + [('all sets are handed on', full(E, cx.env['projections'], st, st.ghost['PM'])), ('x0 is an output', isout(st, cx.a('x0')))]
    return g + [('the list of sets is passed on, bound box last', z3.And(box_last(cx, cx.env['projections']), truth(E, cx.env['projections'], st) == st.ghost['PM'], plus_one(cx, cx.env['projections']))),
                ('x0 is an output of dykstra', x0_ok(cx))]


def plus_one(cx, v):
    """all of the user's sets plus one"""
    out = []
    for c, x in alts(v):
        cell = cx.st.heap.get(x.id) if isinstance(x, Ref) else None
        if cell is None or cell.cls != 'list':
            out.append(bnot(c))
            continue
        n = cx.E.as_int(cell.f['len'], cx.st) if cell.f.get('items') is None else z3.IntVal(len(cell.f['items']))
        out.append(bor(bnot(c), z3.Implies(cx.st.ghost['PM'], n == z3.Int('nuser') + 1)))
    return to_z3(band(*out))


def sm_ens(cx):
    r = cx.res
    if not isinstance(r, tuple) or len(r) != 12:
        return [('twelve results', False)]
    return [('returned x is an output', vec_isout(cx.E, r[0], cx.st))]


def solve_setup(cx):
    b.solve_setup(cx)
    cx.st.assume(z3.And(NINF <= b.LO, b.LO <= b.UP, b.UP <= PINF, b.LO <= 10 ** 20, b.UP >= -10 ** 20))
    cx.env['projections'] = cx.st.alloc('list', items=None, len=z3.Int('nuser'))
    cx.st.assume(z3.Int('nuser') >= 0)


def xpt_ens(cx):
    t = cx.arr(cx.res)
    ab = truth(cx.E, cx.env['abs_coordinates'], cx.st) if 'abs_coordinates' in cx.env else z3.BoolVal(False)
    return [('an evaluated point', z3.Implies(z3.And(ab, cx.st.ghost['PM']), ISOUT(t)))]


def mk(P):
    s = S(P)
    ev = lambda cx: [('the point is an output', opt_ok(cx, 'x'))]
    s.add(Contract('util.dykstra', requires=dy_req, ensures=dy_ens, result=b.vec_result, trusted=True))
    for nm in ('xopt', 'xpt'):
        s.add(Contract(Mo + '.' + nm, ensures=xpt_ens, result=b.vec_result, trusted=True))
    s.add(Contract(Mo + '.as_absolute_coordinates', requires=lambda cx: minv(cx), ensures=lambda cx: [('result is an output', vec_isout(cx.E, cx.res, cx.st))], result=b.vec_result, args=dict(x='vec')))
    s.add(Contract(Mo + '.save_point', requires=lambda cx: minv(cx) + [('saved point is an output', z3.Or(z3.Not(truth(cx.E, cx.env['x_in_abs_coords'], cx.st)), opt_ok(cx, 'x')))], ensures=lambda cx: minv(cx),
                   modifies=[('field', 'self.xsave')], args=dict(x_in_abs_coords='bool', nsamples='int', x='vec', rvec='vec'), result=lambda cx: fresh('saved', B)))
    s.add(Contract(Mo + '.get_final_results', requires=lambda cx: minv(cx), ensures=lambda cx: [('x is an output', vec_isout(cx.E, cx.res[0], cx.st) if isinstance(cx.res, tuple) else z3.BoolVal(False))], result=b.gf_result))
    s.add(cm('evaluate_objective', res=b.eo_result, req=ev, args=dict(x='vec')))
    for nm in ['initialise_coordinate_directions', 'initialise_random_directions', 'add_new_direction_while_growing', 'geometry_step', 'move_furthest_points', 'move_furthest_points_momentum']:
        s.add(cm(nm, res=b.exi))
    s.add(cm('soft_restart', res=b.exi, req=lambda cx: [('point to save is an output', opt_ok(cx, 'x_in_abs_coords_to_save'))] if 'x_in_abs_coords_to_save' in cx.env else [],
             args=dict(x_in_abs_coords_to_save='opt:vec', rvec_to_save='opt:vec', nsamples_to_save='opt:int')))
    s.add(cm('check_and_fix_geometry', res=lambda cx: (fresh('did', B), b.exi(cx))))
    s.add(Contract('solver.solve_main', requires=sm_req, ensures=sm_ens, result=b.sm_result,
                   args=dict(r0_avg_old='opt:vec', r0_nsamples_old='opt:int', argsf='opq', x0='vec', nsamples='user:nsamples', r0_eval_num_old='opt:int', default_growing_method_set_by_user='opt:bool')))
    s.add(Contract('solver.solve', pre_setup=solve_setup, requires=lambda cx: [], ensures=lambda cx: [], modifies=[('ghost', 'SN'), ('ghost', 'PM')],
                   args=dict(nsamples='opt:user:nsamples', npt='opt:int', rhobeg='opt:real', lh='opt:real', user_params='opq', prox_uh='opq', maxfun='opt:int')))
    return s


def tasks(P, tier):
    s = mk(P)
    t15 = c15.tasks(P, tier)
    for _, c in t15:
        c.arith = c.arith or c15.ARITH
    return [(s, c) for c in s.contracts.values() if not c.trusted] + t15
