"""C01: every evaluated point (and the returned x) lies in the user's box.

One arbitrary component CX stands for all components: LO, UP are the user's bounds on it (-inf/+inf where the user gave none).
Arithmetic is uninterpreted (any rounding); clipping, comparisons and copies are exact.  'In the box' means LO <= v <= UP or v is NaN
(that no step is NaN is not proved here; the runtime checks look for it)."""
import z3
from dvc.values import *
from dvc.vec import *
from dvc.spec import *
from contracts.common import *

ARITH = Order
LEVEL = 'proof'
ASSUMPTIONS = [A_CALLBACKS, A_EFFECTS, A_NUMPY, A_ORDER, A_PARAMS,
               'in the box means lower <= x <= upper or x is NaN: absence of NaN in the computed steps is left to the runtime checks',
               'user bounds contain no NaN and infinite bounds are given as values of at most 1e20 in size; shapes agree (solve rejects others)']
CX = z3.Int('cx')
LO, UP = z3.Real('LO'), z3.Real('UP')
EV = 'util.eval_least_squares_with_regularisation'


def inbox(v):
    x = z3.Select(v, CX)
    return z3.Or(x == NAN, z3.And(LO <= x, x <= UP))


def bounds_in(a, b):
    a, b = z3.Select(a, CX), z3.Select(b, CX)
    return z3.And(LO <= a, a <= b, b <= UP)


class S(Common):
    tracked_calls = frozenset(['objfun'])
    tracked_fields = frozenset(['xl', 'xu', 'projections', 'scaling_changes', 'model', 'xsave', 'd_max_iters', 'd_tol'])
    framed_ghosts = frozenset(['SN'])
    inline_set = frozenset([RS, EV, 'util.apply_scaling', 'util.pbox', 'model.Model.xopt', 'model.Model.xpt', 'model.Model.__init__', 'controller.Controller.__init__', 'solver.OptimResults.__init__', 'util.remove_scaling'])
    interest = {C: {'objfun', 'h', 'model', 'scaling_changes', 'maxfun', 'nf', 'nx'}, Mo: {'xl', 'xu', 'projections', 'xsave', 'd_max_iters', 'd_tol', 'xbase', 'sl', 'su', 'points', 'scaling_changes', 'kopt'}}
    pure_scaling = False
    pure_dykstra = False
    ext_pairs = False

    def init_ghost(self, E, st):
        st.ghost['SN'] = z3.Bool('unscaled')
        st.assume(z3.And(NINF <= LO, LO <= UP, UP <= PINF, LO <= 10 ** 20, UP >= -10 ** 20, PINF > 10 ** 20, NINF < -10 ** 20))

    def mk_scaling(self, E, st):
        """None, or (shift, scale, lower, upper) with lower/upper inside the user's bounds"""
        lo, up = fresh('lower', V), fresh('upper', V)
        st.assume(bounds_in(lo, up))
        return Union([(st.ghost['SN'], None), (z3.Not(st.ghost['SN']), (E.newarr(st, fresh('shift', V)), E.newarr(st, fresh('scale', V)), E.newarr(st, lo), E.newarr(st, up)))])

    def user_call(self, E, st, f, args, kw):
        if f.name == 'objfun':
            x = E.arr(args[0], st) if args else None
            ok = x is not None and x.sort() == V
            E.oblige(st, 'objfun call: lower <= x <= upper', inbox(x) if ok else inbox(fresh('imp', V)))
            return E.newarr(st, fresh('rvec', V))
        if f.name == 'proj':
            r = fresh('proj', V)
            lst, k = f.idx if isinstance(f.idx, tuple) else (None, None)
            if lst is not None and E.as_int(k, st) is not None:
                kk = E.as_int(k, st)
                st.assume(z3.Implies(z3.Or(kk == -1, kk == lst - 1), inbox(r)))     # the bound box is the last set
            return E.newarr(st, r)
        return Opq(f.name)

    def list_item(self, E, st, o, k):
        c = st.heap[o.id]
        if c.f.get('kind') == 'proj' and is_num(k):
            return User('proj', (E.as_int(c.f['len'], st), k))
        return Spec.list_item(self, E, st, o, k)

    def on_append(self, E, st, o, v):
        c = st.heap[o.id]
        if c.f.get('items') is None:
            st.heap[o.id] = c.put(last=v)

    def loop_candidates(self, E, s, entry, mod, it):
        cs = []

        def cand(label, fn):
            fn.label = label
            cs.append(fn)
        for i, c in entry.heap.items():
            if c.cls == Mo and 'xsave' in c.f:
                cand('saved point in the box', lambda st, i, en, r=Ref(i): z3.Implies(st.ghost['SN'], xs_ok(E, st, r)))
        for m in mod:
            if m[0] == 'loc':
                v = self.vec(E, entry.loc.get(m[1]), entry)
                if v is not None:
                    def f(st, i, en, n=m[1]):
                        v = st.loc.get(n)
                        ws = [(c, self.vec(E, x, st)) for c, x in (v.alts if isinstance(v, Union) else [(True, v)])]
                        return None if any(w is None for _, w in ws) else z3.Implies(st.ghost['SN'], to_z3(band(*[bor(bnot(c), inbox(w)) for c, w in ws])))
                    cand('%s in the box' % m[1], f)
                elif it is not None:
                    # dykstra: after the last projection of a sweep
                    def g(st, i, en, n=m[1]):
                        w = self.vec(E, st.loc.get(n), st)
                        return None if w is None else z3.Implies(i == it[2], inbox(w))
                    cand('%s in the box after the last pass' % m[1], g)
        if it is not None and it[0] == 'range':
            lo, hi = it[1], it[2]
            for m in mod:
                if m[0] == 'loc':
                    def h(st, i, en, n=m[1]):
                        w = self.vec(E, st.loc.get(n), st)
                        return None if w is None else z3.Implies(z3.And(i > lo, i == hi), inbox(w))
                    cand('%s in the box after the last pass' % m[1], h)
        elif it is None and len(mod) <= 12:
            for m in mod:
                for q in mod:
                    if m[0] == 'loc' and q[0] == 'loc' and is_num(entry.loc.get(q[1])):
                        v0 = entry.loc[q[1]]

                        def k(st, i, en, n=m[1], q=q[1], v0=v0):
                            w = self.vec(E, st.loc.get(n), st)
                            z = st.loc.get(q)
                            return None if w is None or not is_num(z) else z3.Implies(to_z3(z) != to_z3(v0), inbox(w))
                        cand('%s in the box once %s has moved' % (m[1], q[1]), k)
        return cs

    @staticmethod
    def vec(E, v, st):
        if isinstance(v, Ref) and E.is_arr(v, st):
            t = E.arr(v, st)
            return t if t is not None and t.sort() == V else None
        return None

    def before_requires(self, E, c, st, env):
        if c.q == 'solver.solve_main' and 'scaling_changes' in env and st.ghost['SN'].eq(z3.Bool('unscaled')):       # ghost assignment, at the first call
            n = E.is_none(env['scaling_changes'], st)
            st.ghost['SN'] = z3.BoolVal(n) if isinstance(n, bool) else n


def xs_ok(E, st, r):
    v = E.getattr(r, 'xsave', st)
    out = []
    for c, x in (v.alts if isinstance(v, Union) else [(True, v)]):
        if x is None:
            continue
        t = E.arr(x, st) if not isinstance(x, Opq) else x.const('vec')
        out.append(bor(bnot(c), inbox(t) if t is not None and t.sort() == V else False))
    return to_z3(band(*out))


def truth(E, v, st):
    return to_z3(E.truth(v, st))


def minv(cx, me='self', st=None, r=None):
    E = cx.E
    st = st or cx.st
    r = r if r is not None else cx.f(me, st) if '.' in me else cx.env[me]
    g = lambda f: E.getattr(r, f, st)
    a, b = E.arr(g('xl'), st), E.arr(g('xu'), st)
    SN = st.ghost['SN']
    return [('model box is inside the user box', z3.Implies(z3.And(SN, z3.Not(truth(E, g('projections'), st))), bounds_in(a, b) if a is not None and b is not None else z3.BoolVal(False))),
            ('dykstra sweeps >= 1', z3.And(E.as_int(g('d_max_iters'), st) >= 1, E.as_real(g('d_tol'), st) != NAN)), ('saved point in the box', z3.Implies(SN, xs_ok(E, st, r)))]


def scale_ok(E, sc, st):
    """None iff SN, else lower/upper inside the user's bounds"""
    SN = st.ghost['SN']
    out = []
    for c, x in (sc.alts if isinstance(sc, Union) else [(True, sc)]):
        if x is None:
            out.append(bor(bnot(c), SN))
        elif isinstance(x, tuple) and len(x) == 4:
            out.append(bor(bnot(c), band(bnot(SN), bounds_in(E.arr(x[2], st), E.arr(x[3], st)))))
        else:
            out.append(bnot(c))
    return to_z3(band(*out))


def cinv(cx, me='self', st=None, r=None):
    E = cx.E
    st = st or cx.st
    r = r if r is not None else cx.env[me]
    return minv(cx, st=st, r=E.getattr(r, 'model', st)) + [('scaling clips to the user box', scale_ok(E, E.getattr(r, 'scaling_changes', st), st))]


def evalok(cx, path, st=None):
    st = st or cx.st
    v = cx.env[path]
    if v is None:
        return z3.BoolVal(True)
    t = cx.E.arr(v, st) if not isinstance(v, Union) else None
    if t is None and isinstance(v, Union):
        ts = [(c, cx.E.arr(x, st)) for c, x in v.alts if x is not None]
        return z3.Implies(st.ghost['SN'], to_z3(band(*[bor(bnot(c), inbox(y)) if y is not None and y.sort() == V else False for c, y in ts])))
    return z3.Implies(st.ghost['SN'], inbox(t) if t is not None and t.sort() == V else z3.BoolVal(False))


MODX = [('field', 'self.model.xsave')]


def exi(cx):
    a = fresh('exn', B)
    return Union([(a, None), (z3.Not(a), cx.st.alloc('controller.ExitInformation'))])


def cm(name, res=None, req=None, args=None, ens=None):
    return Contract(C + '.' + name, requires=lambda cx: cinv(cx) + (req(cx) if req else []), ensures=lambda cx: cinv(cx) + (ens(cx) if ens else []), modifies=MODX, result=res, args=args or {})


def eo_result(cx):
    E = cx.E
    return (E.newarr(cx.st, None), E.newarr(cx.st, fresh('obj', V)), fresh('nrun', I), exi(cx))


def vec_result(cx):
    return cx.E.newarr(cx.st, fresh('x', V))


def res_vec(cx, r=None):
    r = cx.res if r is None else r
    t = cx.E.arr(r, cx.st) if r is not None and not isinstance(r, (Union, tuple)) else None
    if isinstance(r, Union):
        return to_z3(band(*[bor(bnot(c), False if x is None else res_vec(cx, x)) for c, x in r.alts]))
    return inbox(t) if t is not None and t.sort() == V else z3.BoolVal(False)


def last_ok(E, projections, st):
    """the last projection handed down maps everything into the user's box"""
    out = []
    for c, x in (projections.alts if isinstance(projections, Union) else [(True, projections)]):
        cell = st.heap.get(x.id) if isinstance(x, Ref) else None
        if cell is None or cell.cls != 'list' or cell.f.get('kind') == 'proj':
            continue          # the symbolic list of the verified callee: covered by user_call
        empty = bnot(E.truth(x, st))
        last = cell.f.get('last')
        if last is None and cell.f.get('items'):
            last = cell.f['items'][-1]
        if last is None:
            out.append(bor(bnot(c), empty))
            continue
        s2 = st.copy()
        E.rec += 1
        try:
            r = E.call_value(last, [E.newarr(s2, fresh('w', V))], {}, s2)
        finally:
            E.rec -= 1
        t = E.arr(r, s2) if r is not None and not isinstance(r, (Union, tuple)) else None
        extra = [p for p in s2.pc if not any(p is q for q in st.pc) and not isinstance(p, Schem)]
        out.append(bor(bnot(c), empty, z3.Implies(z3.And(*extra) if extra else z3.BoolVal(True), inbox(t)) if t is not None and t.sort() == V else False))
    return to_z3(band(*out))


def dy_setup(cx):
    cx.env['P'] = cx.st.alloc('list', items=None, len=z3.Int('np'), kind='proj')
    cx.st.assume(z3.Int('np') >= 1)


def dy_req(cx):
    E = cx.E
    return [('at least one set', truth(E, cx.env['P'], cx.st)), ('at least one sweep', cx.i('max_iter') >= 1), ('tolerance is not NaN', z3.And(cx.r('tol') != NAN, cx.r('tol') <= PINF)), ('the last set is inside the user box', last_ok(E, cx.env['P'], cx.st))]


def sm_req(cx):
    E, st = cx.E, cx.st
    a, b = cx.a('xl'), cx.a('xu')
    none = E.is_none(cx.env['scaling_changes'], st)
    return [('scaling', scale_ok(E, cx.env['scaling_changes'], st)), ('bounds passed on', z3.Implies(z3.And(st.ghost['SN'], z3.Not(truth(E, cx.env['projections'], st))), bounds_in(a, b))),
            ('last projection is the bound box', last_ok(E, cx.env['projections'], st)), ('x0 in the box', evalok(cx, 'x0'))]


def sm_result(cx):
    st = cx.st
    r = [Opq('r%d' % k) for k in range(12)]
    r[0] = cx.E.newarr(st, fresh('xmin', V))
    r[5], r[6], r[7] = fresh('nf', I), fresh('nx', I), fresh('nruns', I)
    r[4] = fresh('ns', I)
    r[8] = st.alloc('controller.ExitInformation')
    return tuple(r)


def sm_ens(cx):
    r = cx.res
    if not isinstance(r, tuple) or len(r) != 12:
        return [('twelve results', False)]
    return [('returned x in the box', z3.Implies(cx.st.ghost['SN'], res_vec(cx, r[0])))]


def gf_result(cx):
    return (cx.E.newarr(cx.st, fresh('x', V)),) + tuple(Opq('g%d' % k) for k in range(6))


def solve_setup(cx):
    st, E = cx.st, cx.E
    n = z3.Int('n')
    st.assume(z3.And(n >= 1, CX >= 0, CX < n))
    cx.env['x0'] = E.newarr(st, z3.Const('x0', V), (n,))
    lo, up = z3.Const('lower', V), z3.Const('upper', V)
    bn, ln, un = z3.Bool('no_bounds'), z3.Bool('no_lower'), z3.Bool('no_upper')
    t = (Union([(ln, None), (z3.Not(ln), E.newarr(st, lo, (n,)))]), Union([(un, None), (z3.Not(un), E.newarr(st, up, (n,)))]))
    cx.env['bounds'] = Union([(bn, None), (z3.Not(bn), t)])
    # LO, UP: the bounds the user gave on component CX
    st.assume(z3.If(z3.Or(bn, ln), LO == NINF, z3.And(LO == z3.Select(lo, CX), LO >= -10 ** 20)))
    st.assume(z3.If(z3.Or(bn, un), UP == PINF, z3.And(UP == z3.Select(up, CX), UP <= 10 ** 20)))


def solve_ens(cx):
    E, st = cx.E, cx.st
    try:
        x = E.getattr(cx.res, 'x', st)
    except Unsupported:
        return [('soln.x in the box', False)]
    alts = x.alts if isinstance(x, Union) else [(True, x)]
    return [('soln.x in the box', to_z3(band(*[bor(bnot(c), res_vec(cx, v)) for c, v in alts if v is not None])))]


def mk(P):
    s = S(P)
    ev = lambda cx: [('the point is in the box', evalok(cx, 'x'))]
    s.add(Contract('util.dykstra', pre_setup=dy_setup, requires=dy_req, ensures=lambda cx: [('result is in the last set', res_vec(cx))], result=vec_result, args=dict(x0='vec', max_iter='int', tol='real')))
    s.add(Contract(Mo + '.as_absolute_coordinates', requires=lambda cx: minv(cx), ensures=lambda cx: [('result in the box', z3.Implies(cx.st.ghost['SN'], res_vec(cx)))], result=vec_result, args=dict(x='vec')))
    s.add(Contract(Mo + '.save_point', requires=lambda cx: minv(cx) + [('saved point in the box', z3.Or(z3.Not(truth(cx.E, cx.env['x_in_abs_coords'], cx.st)), evalok(cx, 'x')))], ensures=lambda cx: minv(cx),
                   modifies=[('field', 'self.xsave')], args=dict(x_in_abs_coords='bool', nsamples='int'), result=lambda cx: fresh('saved', B)))
    s.add(Contract(Mo + '.get_final_results', requires=lambda cx: minv(cx), ensures=lambda cx: [('x in the box', z3.Implies(cx.st.ghost['SN'], res_vec(cx, cx.res[0] if isinstance(cx.res, tuple) else None)))], result=gf_result))
    s.add(cm('evaluate_objective', res=eo_result, req=ev))
    for nm in ['initialise_coordinate_directions', 'initialise_random_directions', 'add_new_direction_while_growing', 'geometry_step', 'move_furthest_points', 'move_furthest_points_momentum']:
        s.add(cm(nm, res=exi))

    def sr_req(cx):
        return [('point to save in the box', evalok(cx, 'x_in_abs_coords_to_save'))] if 'x_in_abs_coords_to_save' in cx.env else []
    s.add(cm('soft_restart', res=exi, req=sr_req, args=dict(x_in_abs_coords_to_save='opt:vec', rvec_to_save='opt:vec', nsamples_to_save='opt:int')))
    s.add(cm('check_and_fix_geometry', res=lambda cx: (fresh('did', B), exi(cx))))
    s.add(Contract('solver.solve_main', requires=sm_req, ensures=sm_ens, result=sm_result,
                   args=dict(r0_avg_old='opt:vec', r0_nsamples_old='opt:int', argsf='opq', x0='vec', nsamples='user:nsamples', r0_eval_num_old='opt:int', default_growing_method_set_by_user='opt:bool')))
    s.add(Contract('solver.solve', pre_setup=solve_setup, requires=lambda cx: [], ensures=solve_ens, modifies=[('ghost', 'SN')],
                   args=dict(nsamples='opt:user:nsamples', npt='opt:int', rhobeg='opt:real', lh='opt:real', user_params='opq', prox_uh='opq', maxfun='opt:int')))
    return s


def tasks(P, tier):
    s = mk(P)
    return [(s, c) for c in s.contracts.values()]
