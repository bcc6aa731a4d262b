"""C17: Model bookkeeping.  Every mutator of the interpolation set, from an arbitrary state satisfying the representation invariant."""
import z3
from dvc.values import *
from dvc.vec import *
from dvc.spec import *
from contracts.common import *

ARITH = Real
LEVEL = 'proof'
ASSUMPTIONS = [A_CALLBACKS, A_EFFECTS, A_NUMPY, A_ORDER + ' (selection obligations)', A_REAL, A_DET]
DATA = ['points', 'fval_v', 'objval', 'nsamples', 'eval_num', 'kopt', 'num_pts', 'npt_so_far', 'xbase', 'sl', 'su', 'xl', 'xu', 'projections', 'xsave', 'rsave', 'objsave', 'nsamples_save', 'eval_num_save', 'jacsave', 'jacsave_eval_nums']


class S(Common):
    tracked_fields = frozenset(DATA)
    use_dot = True
    ext_pairs = True
    inline_prefix = ('model.', 'util.')

    def loop_candidates(self, E, s, entry, mod, it):
        cs = []

        def cand(label, fn):
            fn.label = label
            cs.append(fn)
        if it is None:
            return cs
        lo = it[1] if it[0] == 'range' else z3.IntVal(0)
        sh = entry.loc.get('xbase_shift')
        for m in mod:
            if m[0] != 'fld' or m[2] != 'val':
                continue
            v0 = E.lookup(entry, m)
            if v0 is KeyError or v0 is None or v0.sort() != M:
                continue
            cand('rows >= i unchanged', lambda st, i, en, m=m, v0=v0: Schem(lambda j: z3.Implies(z3.Or(j >= i, j < lo), z3.Select(E.lookup(st, m), j) == z3.Select(v0, j))))
            if sh is not None:
                t = E.arr(sh, entry)
                cand('rows < i shifted', lambda st, i, en, m=m, v0=v0, t=t: Schem(lambda j: z3.Implies(z3.And(j >= lo, j < i), z3.Select(E.lookup(st, m), j) == vsub(z3.Select(v0, j), t))))
        return cs


def hterm(x):
    return z3.If(H_NONE, z3.RealVal(0), Hval(unscale(x)))


def xabs(cx, j, st=None, me='self'):
    """absolute coordinates of the stored point j, as documented: base + step, inside the bounds (or on the last projection)"""
    st = st or cx.st
    a = lambda f: arr_of(cx, me + '.' + f, st)
    p = z3.Select(a('points'), j)
    box = vmin(vmax(a('xl'), vadd(a('xbase'), vmin(vmax(a('sl'), p), a('su')))), a('xu'))
    proj = cx.f(me + '.projections', st)
    has = to_z3(cx.E.truth(proj, st))
    return z3.If(has, PROJ(z3.IntVal(-1), vadd(a('xbase'), p)), box)


def objat(cx, j, st=None, me='self'):
    st = st or cx.st
    r = z3.Select(arr_of(cx, me + '.fval_v', st), j)
    d = mkdot(r, r)
    A = cx.E.A
    proj = cx.f(me + '.projections', st)
    has = to_z3(cx.E.truth(proj, st))
    a = lambda f: arr_of(cx, me + '.' + f, st)
    p = z3.Select(a('points'), j)
    box = vmin(vmax(a('xl'), vadd(a('xbase'), vmin(vmax(a('sl'), p), a('su')))), a('xu'))
    return z3.If(H_NONE, d, z3.If(has, A.add(d, Hval(unscale(PROJ(z3.IntVal(-1), vadd(a('xbase'), p))))), A.add(d, Hval(unscale(box)))))


def objinv(cx, st=None, me='self'):
    st = st or cx.st
    return forall(0, npt_of(cx, me, st), lambda j: z3.Select(arr_of(cx, me + '.objval', st), j) == objat(cx, j, st, me))


def minat(cx, st=None, me='self'):
    """the incumbent has the smallest stored objective, NaN only if all are"""
    st = st or cx.st
    o = arr_of(cx, me + '.objval', st)
    k = int_of(cx, me + '.kopt', st)
    A = cx.E.A
    return forall(0, npt_of(cx, me, st), lambda j: z3.Or(A.isnan(z3.Select(o, j)), A.le(z3.Select(o, k), z3.Select(o, j))))


def WF(cx, st=None):
    return counts_ok(cx, 'self', st)


def same_rows(cx, f, keep, hi=None):
    """entries j with keep(j) are as before"""
    a, b = arr_of(cx, 'self.' + f), arr_of(cx, 'self.' + f, cx.pre)
    return Schem(lambda j: z3.Implies(keep(j), z3.Select(a, j) == z3.Select(b, j)))


ROWS = ['points', 'fval_v', 'objval', 'nsamples', 'eval_num']
MODROWS = [('field', 'self.' + f) for f in ROWS]


def cp_req(cx):
    return WF(cx) + [('objective invariant', objinv(cx))] + [('k >= 0', cx.i('k') >= 0)]


def veq(a, b):
    return Schem(lambda j: z3.Select(a, j) == z3.Select(b, j))


def cp_ens(cx):
    k = cx.i('k')
    g = lambda f: z3.Select(arr_of(cx, 'self.' + f), k)
    grew = z3.And(k >= int_of(cx, 'self.npt_so_far', cx.pre), int_of(cx, 'self.npt_so_far', cx.pre) < int_of(cx, 'self.num_pts', cx.pre))
    return WF(cx) + [('each stored objective is sum(residual^2)+h at its point', objinv(cx)), ('point stored', veq(g('points'), cx.a('x'))), ('residual stored', veq(g('fval_v'), cx.a('rvec'))), ('one sample', g('nsamples') == 1),
                     ('evaluation number stored', g('eval_num') == cx.i('eval_num')),
                     ('npt_so_far', int_of(cx, 'self.npt_so_far') == int_of(cx, 'self.npt_so_far', cx.pre) + z3.If(grew, 1, 0)), ('num_pts unchanged', int_of(cx, 'self.num_pts') == int_of(cx, 'self.num_pts', cx.pre))] + \
        [('other %s unchanged' % f, same_rows(cx, f, lambda j: j != k)) for f in ROWS]


def cp_min_ens(cx):
    k, A = cx.i('k'), cx.E.A
    o0 = z3.Select(arr_of(cx, 'self.objval', cx.pre), int_of(cx, 'self.kopt', cx.pre))
    o1 = z3.Select(arr_of(cx, 'self.objval'), k)
    ko = int_of(cx, 'self.kopt', cx.pre)
    m = minat(cx)
    allow = to_z3(cx.E.truth(cx.env['allow_kopt_update'], cx.st)) if 'allow_kopt_update' in cx.env else z3.BoolVal(True)
    bad = z3.And(k == ko, z3.Not(A.le(o1, o0)))                     # the incumbent itself overwritten by a worse point
    return WF(cx) + [('kopt designates the smallest objective', Schem(lambda j: z3.Or(z3.Not(allow), bad, m.fn(j))))]


def sw_ens(cx):
    a, b = cx.i('k1'), cx.i('k2')
    ex = lambda f: [('%s[k1], %s[k2] exchanged' % (f, f), z3.And(z3.Select(arr_of(cx, 'self.' + f), a) == z3.Select(arr_of(cx, 'self.' + f, cx.pre), b), z3.Select(arr_of(cx, 'self.' + f), b) == z3.Select(arr_of(cx, 'self.' + f, cx.pre), a)))]
    k, k0 = int_of(cx, 'self.kopt'), int_of(cx, 'self.kopt', cx.pre)
    out = WF(cx)
    for f in ROWS:
        out += ex(f) + [('other %s unchanged' % f, same_rows(cx, f, lambda j: z3.And(j != a, j != b)))]
    return out + [('kopt follows its point', k == z3.If(k0 == a, b, z3.If(k0 == b, a, k0))), ('each stored objective is sum(residual^2)+h at its point', objinv(cx))]


def in_set(cx, *ks):
    return [('%s in the set' % k, z3.And(cx.i(k) >= 0, cx.i(k) < npt_of(cx))) for k in ks]


def as_req(cx):
    return WF(cx) + [('objective invariant', objinv(cx)), ('counts positive', forall(0, npt_of(cx), lambda j: z3.Select(arr_of(cx, 'self.nsamples'), j) >= 1))] + in_set(cx, 'k')


def as_ens(cx):
    k = cx.i('k')
    g = lambda f, s=None: z3.Select(arr_of(cx, 'self.' + f, s), k)
    n0 = to_real(g('nsamples', cx.pre))
    return WF(cx) + [('each stored objective is sum(residual^2)+h at its point', objinv(cx)), ('sample count', g('nsamples') == g('nsamples', cx.pre) + 1),
                     ('residual is the running mean', Schem(lambda i: (n0 + 1) * z3.Select(g('fval_v'), i) == n0 * z3.Select(g('fval_v', cx.pre), i) + z3.Select(cx.a('rvec_extra'), i))),
                     ] + [('other %s unchanged' % f, same_rows(cx, f, lambda j: j != k)) for f in ('fval_v', 'objval', 'nsamples')]


def np_req(cx):
    return WF(cx) + [('objective invariant', objinv(cx))]


def np_ens(cx):
    k = npt_of(cx, 'self', cx.pre)
    g = lambda f: z3.Select(arr_of(cx, 'self.' + f), k)
    s0, n0 = int_of(cx, 'self.npt_so_far', cx.pre), int_of(cx, 'self.num_pts', cx.pre)
    return WF(cx) + [('one more point', npt_of(cx) == k + 1), ('capacity', int_of(cx, 'self.num_pts') == z3.If(s0 < n0, n0, n0 + 1)), ('each stored objective is sum(residual^2)+h at its point', objinv(cx)), ('point stored', veq(g('points'), cx.a('x'))),
                     ('residual stored', veq(g('fval_v'), cx.a('rvec'))), ('one sample', g('nsamples') == 1), ('evaluation number stored', g('eval_num') == cx.i('eval_num'))] + \
        [('existing %s unchanged' % f, same_rows(cx, f, lambda j: z3.And(j >= 0, j < k))) for f in ROWS]


def sb_ens(cx):
    s = cx.a('xbase_shift')
    k = npt_of(cx)
    P0, P1 = arr_of(cx, 'self.points', cx.pre), arr_of(cx, 'self.points')
    q = fresh('q', I)
    a = lambda f, st=None: arr_of(cx, 'self.' + f, st)
    o = [('absolute points unchanged', Schem(lambda i: z3.Implies(z3.And(q >= 0, q < k), a('xbase')[i] + P1[q][i] == a('xbase', cx.pre)[i] + P0[q][i])))]
    for f in ('sl', 'su'):
        o.append(('xbase + %s unchanged' % f, Schem(lambda i, f=f: a('xbase')[i] + a(f)[i] == a('xbase', cx.pre)[i] + a(f, cx.pre)[i])))
    return WF(cx) + o + [('each stored objective is sum(residual^2)+h at its point', objinv(cx))] + [('%s unchanged' % f, same_rows(cx, f, lambda j: z3.And(j >= 0, j < k))) for f in ROWS[1:]]


# saved point and final query
def opt(cx, f, st=None):
    """(is None, value alternatives) of an optional field"""
    st = st or cx.st
    v = cx.f('self.' + f, st)
    return to_z3(cx.E.is_none(v, st)) if not isinstance(cx.E.is_none(v, st), bool) else z3.BoolVal(cx.E.is_none(v, st)), v


def same_opt(cx, f):
    return eqval(cx.E, cx.pre, cx.st, cx.of('self.' + f), cx.f('self.' + f))


def sp_ens(cx):
    E, A, st = cx.E, cx.E.A, cx.st
    n0, v0 = opt(cx, 'objsave', cx.pre)
    o0 = real_or(E, v0, cx.pre)
    xa = cx.env['x']
    n1, v1 = opt(cx, 'objsave')
    if z3.is_true(n1):
        return [('something is saved', False)]
    o1 = real_or(E, v1, st)
    d = mkdot(cx.a('rvec'), cx.a('rvec'))
    xs = E.arr(cx.f('self.xsave'), st)
    rs = E.arr(cx.f('self.rsave'), st)
    inabs = to_z3(E.truth(cx.env['x_in_abs_coords'], st))
    new = z3.If(H_NONE, d, A.add(d, Hval(unscale(cx.a('x')))))
    better = z3.Or(n0, A.le(new, o0), A.isnan(o0))
    kept = [('a worse point leaves the saved one alone (%s)' % f, z3.Implies(z3.And(inabs, z3.Not(better)), to_z3(same_opt(cx, f)))) for f in ('objsave', 'nsamples_save', 'eval_num_save')]
    return [('saved objective is sum(residual^2)+h', z3.Implies(z3.And(inabs, better), o1 == new)), ('saved point', Schem(lambda i: z3.Implies(z3.And(inabs, better), z3.Select(xs, i) == z3.Select(cx.a('x'), i)))),
            ('saved residual', Schem(lambda i: z3.Implies(z3.And(inabs, better), z3.Select(rs, i) == z3.Select(cx.a('rvec'), i)))),
            ('saved sample count', z3.Implies(z3.And(inabs, better), int_opt(E, cx.f('self.nsamples_save'), st) == cx.i('nsamples'))),
            ('saved evaluation number', z3.Implies(z3.And(inabs, better), int_opt(E, cx.f('self.eval_num_save'), st) == cx.i('eval_num')))] + kept


def real_or(E, v, st):
    """value of an optional float (arbitrary when None)"""
    if v is None:
        return fresh('none', R)
    if isinstance(v, Union):
        alts = [(c, E.as_real(x, st)) for c, x in v.alts if x is not None]
        r = alts[-1][1]
        for c, x in alts[:-1]:
            r = z3.If(c, x, r)
        return r
    return E.as_real(v, st)


def int_opt(E, v, st):
    if v is None:
        return fresh('none', I)
    if isinstance(v, Union):
        alts = [(c, E.as_int(x, st)) for c, x in v.alts if x is not None]
        r = alts[-1][1]
        for c, x in alts[:-1]:
            r = z3.If(c, x, r)
        return r
    return E.as_int(v, st)


def gf_setup_ens(cx):
    E, A, st = cx.E, cx.E.A, cx.st
    r = cx.res
    if isinstance(r, Union) or not isinstance(r, tuple) or len(r) != 7:
        return [('seven results', False)]
    n0, v0 = opt(cx, 'objsave')
    os_ = real_or(E, v0, st)
    k = int_of(cx, 'self.kopt')
    oo = z3.Select(arr_of(cx, 'self.objval'), k)
    ro = E.as_real(r[2], st)
    inc = z3.And(ro == oo, E.as_int(r[4], st) == z3.Select(arr_of(cx, 'self.nsamples'), k), E.as_int(r[5], st) == z3.Select(arr_of(cx, 'self.eval_num'), k))
    sav = z3.And(z3.Not(n0), ro == os_, int_opt(E, r[4], st) == int_opt(E, cx.f('self.nsamples_save'), st), int_opt(E, r[5], st) == int_opt(E, cx.f('self.eval_num_save'), st))
    rt, xt = E.arr(r[1], st), E.arr(r[0], st)
    xs, rs = E.arr(cx.f('self.xsave'), st), E.arr(cx.f('self.rsave'), st)
    if rt is None or xt is None:
        return [('x and residual are arrays', False)]
    ri = z3.Select(arr_of(cx, 'self.fval_v'), k)
    return [('value is the smaller one', z3.Or(n0, A.isnan(os_), A.le(ro, os_))), ('value is no worse than the incumbent', z3.Or(A.isnan(oo), A.le(ro, oo))), ('NaN only if there is nothing else', z3.Or(z3.Not(A.isnan(ro)), z3.And(A.isnan(oo), z3.Or(n0, A.isnan(os_))))),
            ('counters belong to the value', z3.Or(inc, sav)),
            ('point, residual and counters belong together', Schem(lambda i: z3.Or(z3.And(inc, z3.Select(rt, i) == z3.Select(ri, i), z3.Select(xt, i) == z3.Select(xabs(cx, k), i)), z3.And(sav, z3.Select(rt, i) == z3.Select(rs, i), z3.Select(xt, i) == z3.Select(xs, i)))))]


def gf_req(cx):
    fs = ['xsave', 'rsave', 'objsave', 'nsamples_save', 'eval_num_save']
    n = [opt(cx, f)[0] for f in fs]
    return WF(cx) + [('a saved record is complete', z3.And(*[a == n[0] for a in n[1:]]))]


def init_ens(cx):
    g = lambda f: z3.Select(arr_of(cx, 'self.' + f), 0)
    o0 = g('objval')
    d = mkdot(cx.a('r0'), cx.a('r0'))
    hv = cx.env['h']
    hn = cx.E.is_none(hv, cx.st)
    hn = z3.BoolVal(hn) if isinstance(hn, bool) else hn
    return WF(cx) + [('one point', int_of(cx, 'self.npt_so_far') == 1), ('kopt', int_of(cx, 'self.kopt') == 0), ('residual', veq(g('fval_v'), cx.a('r0'))), ('samples', g('nsamples') == cx.i('r0_nsamples')), ('evaluation number', g('eval_num') == cx.i('r0_eval_num')),
                     ('base point', veq(arr_of(cx, 'self.xbase'), cx.a('x0'))), ('point 0 is the base', Schem(lambda i: z3.Select(g('points'), i) == 0)), ('objective', o0 == z3.If(hn, d, cx.E.A.add(d, Hval(unscale(cx.a('x0')))))),
                     ('f(x0) remembered', cx.r('self.objbeg') == o0), ('nothing saved', to_z3(cx.E.is_none(cx.f('self.objsave'), cx.st)))]


def named(title, c):
    c.title = title
    return c


def tasks(P, tier):
    Mq = Mo + '.'
    s = S(P)
    o = S(P)
    kf = [('field', 'self.kopt')]
    cnt = [('field', 'self.npt_so_far'), ('field', 'self.num_pts')]
    t = []

    def add(sp, title, q, req, ens, mod, arith, args=None):
        t.append((sp, named('%s [%s]' % (Mq + q, title), Contract(Mq + q, requires=req, ensures=ens, modifies=mod, arith=arith, args=args or {}))))
    xr = dict(x='vec', rvec='vec')
    add(s, 'data', 'change_point', cp_req, cp_ens, MODROWS + kf + cnt, Real, xr)
    add(o, 'selection', 'change_point', lambda cx: WF(cx) + [('k', cx.i('k') >= 0), ('incumbent minimal', minat(cx))], cp_min_ens, MODROWS + kf + cnt, Order, xr)
    add(s, 'data', 'swap_points', lambda cx: WF(cx) + [('objective invariant', objinv(cx))] + in_set(cx, 'k1', 'k2'), sw_ens, MODROWS + kf, Real)
    add(o, 'selection', 'swap_points', lambda cx: WF(cx) + [('incumbent minimal', minat(cx))] + in_set(cx, 'k1', 'k2'), lambda cx: [('kopt designates the smallest objective', minat(cx))], MODROWS + kf, Order)
    add(s, 'data', 'add_new_sample', as_req, as_ens, [('field', 'self.fval_v'), ('field', 'self.objval'), ('field', 'self.nsamples')] + kf, Real)
    add(o, 'selection', 'add_new_sample', lambda cx: WF(cx) + in_set(cx, 'k'), lambda cx: WF(cx) + [('kopt designates the smallest objective', minat(cx))], MODROWS + kf, Order)
    add(s, 'data', 'add_new_point', np_req, np_ens, MODROWS + kf + cnt, Real, xr)
    add(o, 'selection', 'add_new_point', lambda cx: WF(cx) + [('incumbent minimal', minat(cx))], lambda cx: WF(cx) + [('kopt designates the smallest objective', minat(cx))], MODROWS + kf + cnt, Order, xr)
    add(s, 'data', 'shift_base', np_req, sb_ens, [('field', 'self.' + f) for f in ('points', 'xbase', 'sl', 'su')], Real, dict(xbase_shift='vec'))
    sv = [('field', 'self.' + f) for f in ('xsave', 'rsave', 'objsave', 'nsamples_save', 'eval_num_save', 'jacsave', 'jacsave_eval_nums')]
    add(o, 'selection', 'save_point', gf_req, sp_ens, sv, Order, dict(xr, nsamples='int', x_in_abs_coords='bool'))
    add(o, 'selection', 'get_final_results', gf_req, gf_setup_ens, [], Order)
    add(s, 'data', '__init__', None, init_ens, [('field', 'self.' + f) for f in DATA], Real, dict(x0='vec', r0='vec', r0_nsamples='int', r0_eval_num='int', abs_tol='real', rel_tol='real'))
    return t
