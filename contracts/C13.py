"""C13: geometry and convex-constrained step solvers stay inside their regions (exact real arithmetic)."""
import z3
from dvc.values import *
from dvc.vec import *
from dvc.spec import *
from contracts.common import *
from contracts.C15 import NRM

ARITH = Real
LEVEL = 'proof'
TRQ = 'trust_region.'
ASSUMPTIONS = [A_NUMPY, A_REAL + ' (the 1e-8 and 1e-12 relative margins of the property absorb the rounding; the margins themselves are checked at run time)', A_CALLBACKS, A_DET,
               'numpy.linalg.norm is a norm (each entry is at most the norm in absolute value)', 'counting: n distinct elements of {0..n-1} are all of them',
               'the box contains the current point: lower <= xbase <= upper (asserted by trsbox_geometry up to 1e-14)', 'trsbox returns a step inside the ball (C12)']
BOUNDED = ['attains the global maximum of |c + g\'s| to 1e-6 relative', 'ball constraint of the box geometry step', 'rounding margins']
CARD = z3.Function('CARD', BV, I)
NV = z3.Int('n')


class S(Common):
    use_dot = False
    ext_pairs = True
    pure_dykstra = True
    inline_set = frozenset(['util.model_value', 'util.sumsq', 'util.pbox'])

    def norm(self, E, st, t):
        r = NRM(t)
        st.assume(r >= 0)
        st.assume(Schem(lambda j: z3.Implies(z3.And(j >= 0, j < NV), z3.And(z3.Select(t, j) <= NRM(t), -NRM(t) <= z3.Select(t, j)))))
        return r

    def ext_call(self, E, name, args, kw, st):
        if name in ('numpy.linalg.norm', 'scipy.linalg.norm') and len(args) == 1 and not kw and E.is_arr(args[0], st):
            t = E.arr(args[0], st)
            if t is not None and t.sort() == V:
                return self.norm(E, st, t)
        return NotImplemented

    def user_call(self, E, st, f, args, kw):
        if f.name == 'prox':
            return E.newarr(st, fresh('prox', V), (NV,))
        return Common.user_call(self, E, st, f, args, kw)

    def loop_candidates(self, E, s, entry, mod, it):
        cs = []

        def cand(label, fn):
            fn.label = label
            cs.append(fn)
        R_ = entry.ghost.get('radius')
        vecs = sorted(v for v, x in entry.loc.items() if isinstance(x, Ref) and E.is_arr(x, entry) and E.arr(x, entry) is not None and E.arr(x, entry).sort() == V)
        if R_ is not None:
            for v in vecs:
                cand('||%s|| <= radius' % v, lambda st, i, en, v=v: NRM(E.arr(st.loc[v], st)) <= R_)
        return cs


def pp(cx, name=None, k=None):
    fn = cx.E.P.fns[cx.E.verifying]
    return cx.env[fn.params[k] if name is None else name]


def ball_contract(q, kd, extra=None, res=0):
    """||step|| <= the radius (parameter number kd)"""
    def setup(cx):
        cx.st.ghost['radius'] = z3.Real('RADIUS')
        fn = cx.E.P.fns[q]
        cx.env[fn.params[kd]] = z3.Real('RADIUS')
        cx.st.assume(z3.Real('RADIUS') > 0)
        cx.st.assume(NV >= 1)
        cx.st.assume(NRM(ZERO) == 0)
        cx.st.assume(NRM(vconst(0)) == 0)

    def ens(cx):
        r = cx.res
        r = r[res] if isinstance(r, tuple) and res is not None else r
        t = cx.arr(r) if cx.E.is_arr(r, cx.st) else None
        if t is None:
            return [('a step is returned', False)]
        rad = cx.E.as_real(cx.env[cx.E.P.fns[q].params[kd]], cx.st)
        return [('||step|| <= radius', NRM(t) <= rad)]

    def result(cx):
        v = lambda: cx.E.newarr(cx.st, fresh('step', V), (NV,))
        return v() if res is None else (v(), cx.E.newarr(cx.st, fresh('gnew', V), (NV,)), fresh('crvmin', R))
    a = dict(xopt='vec', xbase='vec', g='vec', H='mat', sl='vec', su='vec', projections='projs', h='hfun', L_h='real', prox_uh='user:prox', c='real', use_fortran=lambda E, st: False, scaling_changes='scaling', sfista_iters_scale='real', func_tol='real', max_iters='int', d_max_iters='int', d_tol='real')
    return Contract(q, args=a, pre_setup=setup, ensures=ens, result=result)


def pball_c():
    def ens(cx):
        ps = cx.E.P.fns['util.pball'].params
        c, r = cx.arr(cx.env[ps[1]]), cx.E.as_real(cx.env[ps[2]], cx.st)
        t = cx.arr(cx.res)
        return [('||pball(x,c,r) - c|| <= r', NRM(t) <= r if const_zero(c) else NRM(vsub(t, c)) <= r)] if c is not None else []
    return Contract('util.pball', requires=lambda cx: [('r > 0', cx.E.as_real(cx.env[cx.E.P.fns['util.pball'].params[2]], cx.st) > 0)], ensures=ens, result=lambda cx: cx.E.newarr(cx.st, fresh('pball', V), (NV,)), trusted=True)


# ------------------------------------------------------------------ the regularised step handed to the main loop
class TS(S):
    tracked_fields = frozenset(['delta'])
    interest = {C: {'model', 'h', 'delta', 'lh', 'argsh', 'argsprox', 'prox_uh', 'scaling_changes'}, Mo: {'projections', 'sl', 'su', 'xl', 'xu', 'xbase', 'points', 'kopt', 'dim', 'num_pts'}}

    def pinit(self, E, st, key):
        return Common.pinit(self, E, st, key)


XABS = z3.Const('XABS', V)
XREL = z3.Const('XREL', V)


def ts_ens(cx):
    E, st = cx.E, cx.st
    r = cx.res
    if not (isinstance(r, tuple) and len(r) == 5):
        return [('five results', False)]
    d, g, H = (cx.arr(x) if E.is_arr(x, st) else None for x in r[:3])
    if d is None or g is None or H is None or d.sort() != V or g.sort() != V or H.sort() != M:
        return [('step, gradient and Hessian are arrays', False)]
    # value of the model at d and at 0: h(x) - (d'(g + Hd/2) + h(x + d))
    mval = mkdot(d, vadd(g, vsmul(z3.Q(1, 2), mv(H, d)))) + Hval(unscale(vadd(XABS, d)))
    pred = Hval(unscale(XABS)) - mval
    # facts about the zero step: 0'w = 0 and x + 0 = x
    st.assume(z3.Implies(d == vconst(0), z3.And(mkdot(d, vadd(g, vsmul(z3.Q(1, 2), mv(H, d)))) == 0, vadd(XABS, d) == XABS)))
    return [('the predicted reduction of a regularised step is never negative', z3.Or(H_NONE, pred >= 0)), ('||step|| <= delta', NRM(d) <= cx.orr('self.delta'))]


def ts_setup(cx):
    st = cx.st
    st.assume(NV >= 1)
    st.assume(NRM(vconst(0)) == 0)
    st.assume(cx.r('self.delta') > 0)
    cx.f('self.model')
    # h is a deterministic function of its point (facts about the zero step)
    z = vconst(0)
    st.assume(mkdot(z, vadd(z, z)) == 0)


def tr_callees(s):
    bfm = Contract(Mo + '.build_full_model', result=lambda cx: (cx.E.newarr(cx.st, fresh('gopt', V), (NV,)), cx.E.newarr(cx.st, fresh('hess', M), (NV, NV))), trusted=True)

    def xres(cx):
        a = cx.env.get('abs_coordinates', False)
        b = cx.E.truth(a, cx.st)
        if isinstance(b, bool):
            return cx.E.newarr(cx.st, XABS if b else XREL, (NV,))
        return cx.E.newarr(cx.st, z3.If(b, XABS, XREL), (NV,))
    xo = Contract(Mo + '.xopt', result=xres, trusted=True)
    s.add(bfm, xo)


def named(t, c):
    c.title = t
    return c


# ------------------------------------------------------------------ linear problem over box and ball: the box
class LB(S):
    ext_pairs = False
    houdini_timeout = 1500

    def on_append(self, E, st, o, v):
        m = st.heap[o.id].f.get('mem')
        if m is not None and v is None:
            st.assume(CARD(m) >= 0)
        elif m is not None and z3.is_app(m) and m.decl().kind() == z3.Z3_OP_STORE:
            old, j = m.arg(0), m.arg(1)
            st.assume(z3.And(CARD(old) >= 0, z3.Implies(z3.And(j >= 0, j < NV, z3.Not(z3.Select(old, j))), CARD(m) == CARD(old) + 1)))

    def loop_candidates(self, E, s, entry, mod, it):
        cs = []

        def cand(label, fn):
            fn.label = label
            cs.append(fn)
        A_, B_ = BOX
        isv = lambda v, st: isinstance(st.loc.get(v), Ref) and E.is_arr(st.loc[v], st) and E.arr(st.loc[v], st) is not None and E.arr(st.loc[v], st).sort() == V
        pars = self.prog.fns[E.frames[-1][0].q].params
        vecs = sorted(v for v in entry.loc if isv(v, entry) and v not in pars)
        lists = sorted(v for v, x in entry.loc.items() if isinstance(x, Ref) and entry.heap[x.id].cls == 'list' and E.list_mem(entry.heap[x.id]) is not None)
        changed = lambda v: ('loc', v) in mod or (isinstance(entry.loc.get(v), Ref) and any(k[0] == 'fld' and k[1] == entry.loc[v].id for k in mod))
        grows = any(changed(l) for l in lists)
        rng = lambda j: z3.And(j >= 0, j < NV)
        mem = lambda st, l: E.list_mem(st.heap[st.loc[l].id]) if isinstance(st.loc.get(l), Ref) else None
        lo = to_z3(it[1]) if it is not None and it[0] == 'range' else z3.IntVal(0)

        def both(label, f, scan=False):
            for l in lists:
                for v in vecs:
                    if scan == grows or not (scan or changed(v)) or (scan and changed(v)):
                        continue
                    def g(st, i, en, l=l, v=v):
                        m = mem(st, l)
                        if m is None or not isv(v, st) or (st is not entry and m is None):
                            return None
                        return f(i, m, E.arr(st.loc[v], st))
                    cand(label % (v, l), g)
        for l in lists:
            if grows:
              cand('CARD(%s) >= steps' % l, lambda st, i, en, l=l: None if mem(st, l) is None or i is None else CARD(mem(st, l)) >= to_z3(i))
        both('%s in the box on the fixed directions %s', lambda i, m, t: Schem(lambda j: z3.Implies(z3.And(rng(j), z3.Select(m, j)), z3.And(z3.Select(A_, j) <= z3.Select(t, j), z3.Select(t, j) <= z3.Select(B_, j)))))
        both('%s zero on the fixed directions %s', lambda i, m, t: Schem(lambda j: z3.Implies(z3.And(rng(j), z3.Select(m, j)), z3.Select(t, j) == 0)))
        both('%s not tiny on the free directions %s', lambda i, m, t: Schem(lambda j: z3.Implies(z3.And(rng(j), z3.Not(z3.Select(m, j))), z3.Or(z3.Select(t, j) >= THR, z3.Select(t, j) <= -THR))))
        both('%s inside on the free directions looked at (%s)', lambda i, m, t: None if i is None else Schem(lambda j: z3.Implies(z3.And(j >= lo, j < i, rng(j), z3.Not(z3.Select(m, j))), z3.And(z3.Select(A_, j) <= z3.Select(t, j), z3.Select(t, j) <= z3.Select(B_, j)))), scan=True)
        return cs


THR = z3.Q(1, 10 ** 14)
BOX = (z3.Const('BOXLO', V), z3.Const('BOXUP', V))


def lb_setup(cx):
    st, E = cx.st, cx.E
    fn = E.P.fns[TRQ + 'trsbox_linear']
    lo, up = z3.Const('LOW', V), z3.Const('UPP', V)
    cx.env[fn.params[1]], cx.env[fn.params[2]] = E.newarr(st, lo, (NV,)), E.newarr(st, up, (NV,))
    cx.env[fn.params[0]] = E.newarr(st, z3.Const('G', V), (NV,))
    st.assume(NV >= 1)
    # the box, widened to contain the ball of radius 1e-14 around the origin
    w = lambda j: z3.And(z3.Select(BOX[0], j) == z3.If(z3.Select(lo, j) <= -THR, z3.Select(lo, j), -THR), z3.Select(BOX[1], j) == z3.If(z3.Select(up, j) >= THR, z3.Select(up, j), THR))
    st.assume(Schem(w))


def lb_ens(cx):
    t = cx.arr(cx.res) if cx.E.is_arr(cx.res, cx.st) else None
    if t is None:
        return [('a vector is returned', False)]
    for c in cx.st.heap.values():       # counting: n members among 0..n-1 are all of them
        if c.cls == 'list' and c.f.get('mem') is not None:
            m = c.f['mem']
            cx.st.assume(Schem(lambda j, m=m: z3.Implies(z3.And(CARD(m) >= NV, j >= 0, j < NV), z3.Select(m, j))))
    return [('inside the box (to 1e-14)', Schem(lambda j: z3.Implies(z3.And(j >= 0, j < NV), z3.And(z3.Select(BOX[0], j) <= z3.Select(t, j), z3.Select(t, j) <= z3.Select(BOX[1], j)))))]


# ------------------------------------------------------------------ geometry step: the box
def lin_callee():
    def ens(cx):
        ps = cx.E.P.fns[TRQ + 'trsbox_linear'].params
        lo, up, t = cx.arr(cx.env[ps[1]]), cx.arr(cx.env[ps[2]]), cx.arr(cx.res)
        s = z3.Select
        return [('inside the box (to 1e-14)', Schem(lambda j: z3.Implies(z3.And(j >= 0, j < NV), z3.And(z3.Or(s(t, j) >= s(lo, j), s(t, j) >= -THR), z3.Or(s(t, j) <= s(up, j), s(t, j) <= THR)))))]
    return Contract(TRQ + 'trsbox_linear', ensures=ens, result=lambda cx: cx.E.newarr(cx.st, fresh('step', V), (NV,)))


def tg_setup(cx):
    st, E = cx.st, cx.E
    ps = E.P.fns[TRQ + 'trsbox_geometry'].params
    for k, nm in ((0, 'XB'), (2, 'G'), (3, 'LOW'), (4, 'UPP')):
        cx.env[ps[k]] = E.newarr(st, z3.Const(nm, V), (NV,))
    st.assume(NV >= 1)


def tg_ens(cx):
    t = cx.arr(cx.res) if cx.E.is_arr(cx.res, cx.st) else None
    if t is None:
        return [('a vector is returned', False)]
    s = lambda nm, j: z3.Select(z3.Const(nm, V), j)
    return [('the geometry step is inside the box (to 2e-14)', Schem(lambda j: z3.Implies(z3.And(j >= 0, j < NV, s('LOW', j) <= s('XB', j) + THR, s('XB', j) - THR <= s('UPP', j)), z3.And(s('LOW', j) - 2 * THR <= z3.Select(t, j), z3.Select(t, j) <= s('UPP', j) + 2 * THR))))]


def tasks(P, tier):
    s = S(P)
    s.add(pball_c())
    out = []
    for q, kd, res in (('ctrsbox_pgd', 4, 0), ('ctrsbox_sfista', 4, 0), ('ctrsbox_linear', 3, None), ('ctrsbox_geometry', 4, None)):
        c = ball_contract(TRQ + q, kd, res=res)
        s.add(c)
        out.append((s, named(TRQ + q + ' [ball]', c)))
    t = TS(P)
    for q, kd, res in (('ctrsbox_pgd', 4, 0), ('ctrsbox_sfista', 4, 0), ('trsbox', 5, 0)):
        t.add(ball_contract(TRQ + q, kd, res=res))
    tr_callees(t)
    ts = named(C + '.trust_region_step [predicted reduction and radius]', Contract(C + '.trust_region_step', args=dict(criticality_measure='real'), pre_setup=ts_setup, ensures=ts_ens))
    t.add(ts)
    out.append((t, ts))
    l = LB(P)
    l.add(Contract(TRQ + 'ball_step', result=lambda cx: fresh('alpha', R)))
    out.append((l, named(TRQ + 'trsbox_linear [box]', Contract(TRQ + 'trsbox_linear', arith=Linear, args=dict(Delta='real', use_fortran=lambda E, st: False), pre_setup=lb_setup, ensures=lb_ens))))
    g = LB(P)
    g.add(lin_callee())
    out.append((g, named(TRQ + 'trsbox_geometry [box]', Contract(TRQ + 'trsbox_geometry', args=dict(c='real', Delta='real', use_fortran=lambda E, st: False), arith=Linear, pre_setup=tg_setup, ensures=tg_ens))))
    return out
