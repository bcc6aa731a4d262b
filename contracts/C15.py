"""C15: Dykstra's projection routine, and the ball and box projectors.

A projector k is the deterministic function PROJ(k, .) onto a set INS(k, .); dist(x, set k) <= ||x - w|| for the point w = the output of projector k in the final sweep.
Ghost state of dykstra: cur = current iterate (output of the last projector call), calls = number of projector calls, last = index of the last projector called,
w = output of the (arbitrary, fixed) projector QX in this sweep, L = length of the path from w to cur, S = sum of squared steps of this sweep."""
import z3
from dvc.values import *
from dvc.vec import *
from dvc.spec import *
from contracts.common import *

ARITH = Real
LEVEL = 'proof'
NRM = z3.Function('NRM', V, R)
INS = z3.Function('INS', I, V, B)
QX, NP, MAXIT = z3.Int('QX'), z3.Int('NP'), z3.Int('MAXIT')
TOL = z3.Real('TOL')
DY = 'util.dykstra'
ASSUMPTIONS = [A_NUMPY, A_REAL, 'each projection operator is a deterministic function onto its set, leaves points of the set unchanged and modifies neither its argument nor the solver\'s state',
               'numpy.linalg.norm is a norm (non-negative, symmetric, homogeneous, triangle inequality, zero at zero)',
               'calls are made with p >= 1 sets, max_iter >= 1 and 0 < tol']
BOUNDED = ['within 1e-3 of the true projection onto the intersection (convergence quality): checked at run time against a reference run to machine precision']


class S(Common):
    use_dot = False
    ext_pairs = True
    houdini_timeout = 6000
    pure_dykstra = False
    feasible = False        # the start point is in every set
    path = False            # path-length ghosts

    def inline(self, E, q, env, st):
        return q.startswith('util.') or Spec.inline(self, E, q, env, st)

    def init_ghost(self, E, st):
        st.ghost.update(calls=z3.IntVal(0), last=z3.IntVal(-1), L=z3.RealVal(0), S=z3.RealVal(0))

    def norm(self, E, st, t):
        r = NRM(t)
        st.assume(r >= 0)
        if z3.is_app(t) and t.decl().name() == 'vsub':
            st.assume(r == NRM(vsub(t.arg(1), t.arg(0))))
        if z3.is_app(t) and t.decl().name() == 'vsmul':
            st.assume(r == z3.If(t.arg(0) >= 0, t.arg(0), -t.arg(0)) * NRM(t.arg(1)))
            st.assume(NRM(t.arg(1)) >= 0)
        return r

    def ext_call(self, E, name, args, kw, st):
        if name in ('numpy.linalg.norm', 'scipy.linalg.norm') and len(args) == 1 and not kw and E.is_arr(args[0], st):
            t = E.arr(args[0], st)
            if t is not None and t.sort() == V:
                return self.norm(E, st, t)
        return NotImplemented

    def user_call(self, E, st, f, args, kw):
        if f.name != 'proj' or 'cur' not in st.ghost:
            return Common.user_call(self, E, st, f, args, kw)
        x = E.arr(args[0], st) if args and E.is_arr(args[0], st) else None
        if x is None or x.sort() != V or f.idx is None or isinstance(f.idx, Slice):
            raise Unsupported('projector called on an unknown point')
        k = E.as_int(f.idx, st)
        g = st.ghost
        z = PROJ(k, x)
        st.assume(INS(k, z))
        st.assume(z3.Implies(INS(k, x), z == x))
        if self.path:
            a = self.norm(E, st, vsub(z, g['cur']))
            # triangle inequality for z, cur, w
            st.assume(NRM(vsub(z, g['w'])) <= a + NRM(vsub(g['cur'], g['w'])))
            st.assume(NRM(vsub(z, z)) == 0)
            kk = to_real(k - QX)        # number of steps after w, this one included
            # (proved once as the obligation "Cauchy-Schwarz step"): (L+a)^2 <= (k+1)(S+a^2) whenever L^2 <= k S
            L, S_ = g['L'], z3.If(k == 0, z3.RealVal(0), g['S'])
            st.assume(cs_step(L, a, S_, kk - 1))
            g['L'] = z3.If(k == QX, z3.RealVal(0), L + a)
            g['w'] = z3.If(k == QX, z, g['w'])
            g['S'] = S_ + a * a
        g['cur'], g['last'], g['calls'] = z, k, g['calls'] + 1
        return E.newarr(st, z, (N_,))

    def loop_candidates(self, E, s, entry, mod, it):
        cs = []

        def cand(label, fn):
            fn.label = label
            cs.append(fn)
        g = lambda st, n: st.ghost[n]
        if 'cur' not in entry.ghost:
            return cs
        vecs = [v for v, x in entry.loc.items() if ('loc', v) in mod and isinstance(x, Ref) and E.is_arr(x, entry) and E.arr(x, entry) is not None and E.arr(x, entry).sort() == V]
        ints = [v for v, x in entry.loc.items() if is_num(x) and not isinstance(x, bool) and (isinstance(x, int) or (is_z3(x) and z3.is_int(x)))]
        for v in vecs:
            def same(st, i, en, v=v):
                t = E.arr(st.loc[v], st)
                return Schem(lambda j: z3.Select(t, j) == z3.Select(g(st, 'cur'), j))
            cand('%s is the current iterate' % v, same)
        if it is None:
            for w, x in entry.loc.items():
                if is_num(x) and not isinstance(x, bool) and ('loc', w) in mod:
                    cand('before the first sweep %s is as initialised' % w, lambda st, i, en, w=w: z3.Or(g(st, 'calls') > 0, E.as_real(st.loc[w], st) == E.as_real(en.loc[w], en)))
            cand('calls >= 0', lambda st, i, en: g(st, 'calls') >= 0)
            for v in ints:
                cand('%s = number of complete sweeps' % v, lambda st, i, en, v=v: z3.And(g(st, 'calls') == E.as_int(st.loc[v], st) * NP, E.as_int(st.loc[v], st) >= 0))
                cand('%s <= max_iter' % v, lambda st, i, en, v=v: E.as_int(st.loc[v], st) <= MAXIT)
                cand('after a sweep the last projector called is the last one (%s)' % v, lambda st, i, en, v=v: z3.Implies(E.as_int(st.loc[v], st) > 0, g(st, 'last') == NP - 1))
                for w, x in entry.loc.items():
                    if self.path and is_num(x) and w != v and ('loc', w) in mod and not (is_z3(x) and z3.is_int(x)):
                        cand('%s = squared changes of the last sweep (%s)' % (w, v), lambda st, i, en, v=v, w=w: z3.Implies(E.as_int(st.loc[v], st) > 0, E.as_real(st.loc[w], st) == g(st, 'S')))
                if self.path:
                    cand('distance to w, after a sweep (%s)' % v, lambda st, i, en, v=v: z3.Implies(E.as_int(st.loc[v], st) > 0, path_inv(st, NP)))
        else:
            cand('calls in this sweep', lambda st, i, en: g(st, 'calls') == en.ghost['calls'] + i)
            cand('last projector', lambda st, i, en: z3.Implies(i > 0, g(st, 'last') == i - 1))
            if self.path:
                for w, x in entry.loc.items():
                    if is_num(x) and not (is_z3(x) and z3.is_bool(x)) and not isinstance(x, bool) and ('loc', w) in mod and w != ivar(s):
                        cand('%s = squared changes so far' % w, lambda st, i, en, w=w: E.as_real(st.loc[w], st) == z3.If(i == 0, z3.RealVal(0), g(st, 'S')))
                cand('distance to w', lambda st, i, en: z3.Implies(i > QX, path_inv(st, i)))
                cand('S >= 0', lambda st, i, en: z3.Implies(i > 0, g(st, 'S') >= 0))
        if self.feasible:
            cand('the iterate is the start point', lambda st, i, en: Schem(lambda j: z3.Select(g(st, 'cur'), j) == z3.Select(z3.Const('x0', V), j)))
            for v, x in entry.loc.items():
                if isinstance(x, Ref) and E.is_arr(x, entry) and E.arr(x, entry) is not None and E.arr(x, entry).sort() == M:
                    def zero(st, i, en, v=v):
                        t = E.arr(st.loc[v], st)
                        return t == z3.K(I, z3.K(I, z3.RealVal(0)))
                    cand('%s is zero' % v, zero)
        return cs


def ivar(s):
    return getattr(getattr(s, 'target', None), 'id', None)


def cs_step(L, a, S_, k):
    """L^2 <= k S, k >= 0  ->  (L+a)^2 <= (k+1)(S+a^2)"""
    return z3.Implies(z3.And(k >= 0, L >= 0, a >= 0, S_ >= 0, L * L <= k * S_), (L + a) * (L + a) <= (k + 1) * (S_ + a * a))


def cs_lemma(L, a, S_, k):
    p, q = z3.Reals('lem_p lem_q')        # p = kS - L^2 >= 0, q = the difference claimed to be >= 0
    return z3.And(z3.Implies(z3.And(k > 0, p >= 0, k * q == k * p + p + (L - k * a) * (L - k * a)), q >= 0),      # with the identity: k > 0
                  z3.Implies(z3.And(k == 0, L >= 0, a >= 0, S_ >= 0, L * L <= k * S_), (L + a) * (L + a) <= (k + 1) * (S_ + a * a)))      # k = 0


def path_inv(st, i):
    g = st.ghost
    L = g['L']
    return z3.And(NRM(vsub(g['cur'], g['w'])) <= L, L >= 0, g['S'] >= 0, L * L <= to_real(i - 1 - QX) * g['S'])


def setup(sp):
    def f(cx):
        st, E = cx.st, cx.E
        fn = E.P.fns[DY]
        P_, X0, MI, TL = fn.params[:4]
        x0 = z3.Const('x0', V)
        cx.env[P_] = st.alloc('list', items=None, len=NP, kind='proj')
        cx.env[X0] = E.newarr(st, x0, (N_,))
        cx.env[MI], cx.env[TL] = MAXIT, TOL
        st.assume(z3.And(NP >= 1, MAXIT >= 1, 0 < TOL, N_ >= 1))
        inf = E.as_real(E.x_b_float(['inf'], {}, st), st)
        st.assume(TOL < inf)
        st.ghost['cur'] = x0
        st.ghost['w'] = z3.Const('w0', V)
        if sp.path:
            st.assume(z3.And(QX >= 0, QX < NP))
        if sp.feasible:
            st.assume(Schem(lambda k: z3.Implies(z3.And(k >= 0, k < NP), INS(k, x0))))
    return f


def ens_basic(cx):
    g = cx.st.ghost
    x = cx.arr(cx.res)
    if x is None:
        return [('an array is returned', False)]
    return [('at most max_iter sweeps', g['calls'] <= MAXIT * NP), ('at least one sweep', g['calls'] >= NP), ('the last projector called is that of the last set', g['last'] == NP - 1), ('the result is the output of the last projector', Schem(lambda j: z3.Select(x, j) == z3.Select(g['cur'], j)))]


def ens_path(cx):
    g = cx.st.ghost
    x = cx.arr(cx.res)
    if x is None:
        return [('an array is returned', False)]
    d = NRM(vsub(g['cur'], g['w']))
    cx.st.assume(d >= 0)
    full = g['calls'] >= MAXIT * NP
    L, a, S_, k = z3.Reals('lem_L lem_a lem_S lem_k')
    # (L+a)^2 <= (k+1)(S+a^2): k times the difference is a sum of k(kS - L^2) >= 0, (kS - L^2) >= 0 and (L - k a)^2
    idn = k * ((k + 1) * (S_ + a * a) - (L + a) * (L + a)) == k * (k * S_ - L * L) + (k * S_ - L * L) + (L - k * a) * (L - k * a)
    return [('Cauchy-Schwarz step: the identity', idn), ('Cauchy-Schwarz step', cs_lemma(L, a, S_, k)), ('the result is the last iterate', Schem(lambda j: z3.Select(x, j) == z3.Select(g['cur'], j))), ('stops before max_iter sweeps only by the tolerance rule', z3.Or(full, g['S'] < TOL)),
            ('squared distance to every set is at most p times the squared changes of the last sweep', d * d <= to_real(NP) * g['S']),
            ('stopped by the rule: within sqrt(p*tol) of every set', z3.Implies(g['S'] < TOL, d * d <= to_real(NP) * TOL))]


def ens_feas(cx):
    x = cx.arr(cx.res)
    if x is None:
        return [('an array is returned', False)]
    return [('a point in all sets is returned unchanged', Schem(lambda j: z3.Select(x, j) == z3.Select(z3.Const('x0', V), j)))]


def named(t, c):
    c.title = t
    return c


def pa(cx, k):
    fn = cx.E.P.fns[cx.E.verifying]
    return cx.E.arr(cx.env[fn.params[k]], cx.st)


def pbox_req(cx):
    l, u = pa(cx, 1), pa(cx, 2)
    A = cx.E.A
    fs = [('l <= u', Schem(lambda j: z3.And(A.le(z3.Select(l, j), z3.Select(u, j)), z3.Not(A.isnan(z3.Select(l, j))))))]
    return fs


def pbox_ens(cx):
    l, u, x, r = pa(cx, 1), pa(cx, 2), pa(cx, 0), cx.arr(cx.res)
    A = cx.E.A
    if r is None:
        return [('an array is returned', False)]
    e = lambda a, j: z3.Select(a, j)
    nan = lambda j: A.isnan(e(x, j))
    return [('inside the box exactly', Schem(lambda j: z3.Or(nan(j), z3.And(A.le(e(l, j), e(r, j)), A.le(e(r, j), e(u, j)))))), ('a point inside is unchanged', Schem(lambda j: z3.Implies(z3.And(A.le(e(l, j), e(x, j)), A.le(e(x, j), e(u, j))), e(r, j) == e(x, j)))),
            ('nearest point', Schem(lambda j: z3.Or(nan(j), e(r, j) == e(x, j), z3.And(A.lt(e(r, j), e(x, j)), e(r, j) == e(u, j)), z3.And(A.lt(e(x, j), e(r, j)), e(r, j) == e(l, j)))))]


def pball_ens(cx):
    x, c, r = pa(cx, 0), pa(cx, 1), cx.E.as_real(cx.env[cx.E.P.fns[cx.E.verifying].params[2]], cx.st)
    t = cx.arr(cx.res)
    if t is None:
        return [('an array is returned', False)]
    E, st = cx.E, cx.st
    nx = cx.E.spec.norm(E, st, vsub(x, c))
    sc = r / z3.If(nx >= r, nx, r)
    st.assume(NRM(vsmul(sc, vsub(x, c))) == sc * nx)          # homogeneity
    return [('inside the ball', NRM(vsmul(sc, vsub(x, c))) <= r), ('the result is c + min(1, r/||x-c||)(x-c)', Schem(lambda j: z3.Select(t, j) == z3.Select(c, j) + sc * (z3.Select(x, j) - z3.Select(c, j)))),
            ('a point inside is unchanged', Schem(lambda j: z3.Implies(nx <= r, z3.Select(t, j) == z3.Select(x, j))))]


def tasks(P, tier):
    A, Bf, Cp = S(P), S(P), S(P)
    Bf.feasible = True
    Cp.path = True
    out = [(A, named('util.dykstra [sweeps and result]', Contract(DY, pre_setup=setup(A), ensures=ens_basic))),
           (Bf, named('util.dykstra [feasible start]', Contract(DY, pre_setup=setup(Bf), ensures=ens_feas))),
           (Cp, named('util.dykstra [stopping rule]', Contract(DY, pre_setup=setup(Cp), ensures=ens_path)))]
    fb, fl = P.fns.get('util.pbox'), P.fns.get('util.pball')
    va = lambda fn, n: dict(zip(fn.params, n)) if fn else {}
    out.append((S(P), named('util.pbox [floating-point order]', Contract('util.pbox', args=va(fb, ['vec', 'vec', 'vec']), requires=pbox_req, ensures=pbox_ens, arith=Order))))
    out.append((S(P), named('util.pball', Contract('util.pball', args=va(fl, ['vec', 'vec', 'real']), requires=lambda cx: [('r > 0', cx.E.as_real(cx.env[cx.E.P.fns['util.pball'].params[2]], cx.st) > 0)], ensures=pball_ens))))
    return out
