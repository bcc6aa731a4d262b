"""Array operations as uninterpreted functions with lazily instantiated componentwise definitions."""
import z3
from .values import *

R, I, B = z3.RealSort(), z3.IntSort(), z3.BoolSort()
OPS = {}      # decl name -> (decl, component definition: fn(arith, i, *args) -> term)


def _op(name, sorts, res, comp):
    d = z3.Function(name, *(list(sorts) + [res]))
    OPS[name] = (d, comp)
    return d


s = z3.Select
vadd = _op('vadd', [V, V], V, lambda A, i, a, b: A.add(s(a, i), s(b, i)))
vsub = _op('vsub', [V, V], V, lambda A, i, a, b: A.sub(s(a, i), s(b, i)))
vmul = _op('vmul', [V, V], V, lambda A, i, a, b: A.mul(s(a, i), s(b, i)))
vdiv = _op('vdiv', [V, V], V, lambda A, i, a, b: A.div(s(a, i), s(b, i)))
vneg = _op('vneg', [V], V, lambda A, i, a: A.neg(s(a, i)))
vsmul = _op('vsmul', [R, V], V, lambda A, i, c, a: A.mul(c, s(a, i)))
vsdiv = _op('vsdiv', [V, R], V, lambda A, i, a, c: A.div(s(a, i), c))
vmin = _op('vmin', [V, V], V, lambda A, i, a, b: A.npmin(s(a, i), s(b, i)))
vmax = _op('vmax', [V, V], V, lambda A, i, a, b: A.npmax(s(a, i), s(b, i)))
vabs = _op('vabs', [V], V, lambda A, i, a: A.abs(s(a, i)))
vwhere = _op('vwhere', [BV, V, V], V, lambda A, i, m, a, b: z3.If(s(m, i), s(a, i), s(b, i)))
vmask = _op('vmask', [BV, V], V, lambda A, i, m, a: z3.If(s(m, i), s(a, i), z3.RealVal(0)))
ivwhere = _op('ivwhere', [BV, IV, IV], IV, lambda A, i, m, a, b: z3.If(s(m, i), s(a, i), s(b, i)))
_gu = z3.Function('gather_neg', V, IV, I, R)
_gui = z3.Function('igather_neg', IV, IV, I, I)
vgather = _op('vgather', [V, IV], V, lambda A, i, a, k: z3.If(s(k, i) >= 0, s(a, s(k, i)), _gu(a, k, i)))
ivgather = _op('ivgather', [IV, IV], IV, lambda A, i, a, k: z3.If(s(k, i) >= 0, s(a, s(k, i)), _gui(a, k, i)))
vput = _op('vput', [V, V, I], V, lambda A, i, a, b, k: z3.If(i >= k, s(b, i - k), s(a, i)))
vdrop = _op('vdrop', [V, I], V, lambda A, i, a, k: s(a, i + k))
bvlt = _op('bvlt', [V, V], BV, lambda A, i, a, b: A.lt(s(a, i), s(b, i)))
bvle = _op('bvle', [V, V], BV, lambda A, i, a, b: A.le(s(a, i), s(b, i)))
bveq = _op('bveq', [V, V], BV, lambda A, i, a, b: A.eq(s(a, i), s(b, i)))
ibvlt = _op('ibvlt', [IV, IV], BV, lambda A, i, a, b: s(a, i) < s(b, i))
ibvle = _op('ibvle', [IV, IV], BV, lambda A, i, a, b: s(a, i) <= s(b, i))
ibveq = _op('ibveq', [IV, IV], BV, lambda A, i, a, b: s(a, i) == s(b, i))
bvand = _op('bvand', [BV, BV], BV, lambda A, i, a, b: z3.And(s(a, i), s(b, i)))
bvor = _op('bvor', [BV, BV], BV, lambda A, i, a, b: z3.Or(s(a, i), s(b, i)))
bvnot = _op('bvnot', [BV], BV, lambda A, i, a: z3.Not(s(a, i)))
bvnan = _op('bvnan', [V], BV, lambda A, i, a: A.isnan(s(a, i)))
bvfin = _op('bvfin', [V], BV, lambda A, i, a: A.isfinite(s(a, i)))
# slices and filters of index arrays: entries defined on demand (see SELTRIG)
ivslice = z3.Function('ivslice', IV, I, I, IV)         # entries lo, lo+step, ...
ivfilt = z3.Function('ivfilt', IV, BV, I, IV)          # the entries among the first n where the mask holds, in order
filtlen = z3.Function('filtlen', IV, BV, I, I)
_fpos = z3.Function('filtpos', IV, BV, I, I, I)
_finv = z3.Function('filtinv', IV, BV, I, I, I)


def _filt_fact(x, i, t, m, n):
    w = _fpos(t, m, n, i)
    return z3.Implies(z3.And(0 <= i, i < filtlen(t, m, n)), z3.And(0 <= w, w < n, i <= w, z3.Select(m, w), x == z3.Select(t, w), _finv(t, m, n, w) == i))


SELTRIG = {'ivslice': lambda x, i, t, lo, step: x == z3.Select(t, lo + step * i), 'ivfilt': _filt_fact}


def has_trig(t, d=0):
    if not z3.is_app(t) or d > 6:
        return False
    return t.decl().name() in SELTRIG or (t.decl().kind() == z3.Z3_OP_ITE and (has_trig(t.arg(1), d + 1) or has_trig(t.arg(2), d + 1)))


mv = z3.Function('mv', M, V, V)                    # matrix-vector product: linear in the second argument (linear mode)
mm = z3.Function('mm', M, M, M)                    # matrix product, transpose, scaling of the columns, removal of the first rows (entries unspecified)
mtr = z3.Function('mtr', M, M)
mcs = z3.Function('mcs', M, V, M)
mdrop = z3.Function('mdrop', M, I, M)
meye = z3.Function('meye', I, M)
dot = z3.Function('dot', V, V, R)
summ = z3.Function('vsum', V, R)
meanrows = z3.Function('meanrows', M, I, V)        # mean of the first n rows
Sqrt = z3.Function('Sqrt', R, R)
vamax = z3.Function('vamax', V, I, R)              # maximum of the first n entries
vamin = z3.Function('vamin', V, I, R)


def vconst(c):
    return z3.K(I, to_real(c))


ZERO = vconst(0)


class Real(object):
    """Exact arithmetic: machine floating point treated as mathematical reals; no NaN."""
    name = 'real'
    add = staticmethod(lambda a, b: a + b)
    sub = staticmethod(lambda a, b: a - b)
    mul = staticmethod(lambda a, b: a * b)
    div = staticmethod(lambda a, b: a / b)
    neg = staticmethod(lambda a: -a)
    lt = staticmethod(lambda a, b: a < b)
    le = staticmethod(lambda a, b: a <= b)
    eq = staticmethod(lambda a, b: a == b)
    abs = staticmethod(lambda a: z3.If(a >= 0, a, -a))
    npmin = staticmethod(lambda a, b: z3.If(a <= b, a, b))
    npmax = staticmethod(lambda a, b: z3.If(a >= b, a, b))
    pymin = staticmethod(lambda a, b: z3.If(b < a, b, a))
    pymax = staticmethod(lambda a, b: z3.If(b > a, b, a))
    isnan = staticmethod(lambda a: z3.BoolVal(False))
    isfinite = staticmethod(lambda a: z3.BoolVal(True))
    sqrt = staticmethod(lambda a: Sqrt(a))


def _num(t):
    return not is_z3(t) or z3.is_rational_value(t) or z3.is_int_value(t)


UMUL, UDIV = z3.Function('umul', R, R, R), z3.Function('udiv', R, R, R)


class Linear(Real):
    """Exact arithmetic with the products of two variables abstracted to an unknown function that is 0 when a factor is 0 (a weaker theory than Real: what it proves is true over the reals)."""
    mul = staticmethod(lambda a, b: a * b if _num(a) or _num(b) else UMUL(to_real(a), to_real(b)))
    div = staticmethod(lambda a, b: a / b if _num(b) else UDIV(to_real(a), to_real(b)))


_f2 = {n: z3.Function('f' + n, R, R, R) for n in ('add', 'sub', 'mul', 'div')}
_f1 = {n: z3.Function('f' + n, R, R) for n in ('neg',)}


def is_one(t):
    return z3.is_rational_value(t) and t.as_fraction() == 1


def fdiv(a, b, depth=0):
    """division, distributed over a conditional divisor (a literal 0.0 is +0, a computed 0 may be -0)"""
    if depth < 4 and z3.is_app_of(b, z3.Z3_OP_ITE):
        return z3.If(b.arg(0), fdiv(a, b.arg(1), depth + 1), fdiv(a, b.arg(2), depth + 1))
    return _f2['div'](a, b)


class Order(object):
    """Arithmetic uninterpreted (any rounding, any overflow); order, NaN and infinities exact.
    A float is a Real term: NAN is one distinguished value above PINF, all others lie in [NINF, PINF]."""
    name = 'order'
    add = staticmethod(lambda a, b: _f2['add'](a, b))
    sub = staticmethod(lambda a, b: _f2['sub'](a, b))
    mul = staticmethod(lambda a, b: a if is_one(b) else b if is_one(a) else _f2['mul'](a, b))      # x*1.0 == x exactly
    div = staticmethod(lambda a, b: fdiv(a, b))
    neg = staticmethod(lambda a: _f1['neg'](a))
    lt = staticmethod(lambda a, b: z3.And(a < b, b != NAN))
    le = staticmethod(lambda a, b: z3.And(a <= b, b != NAN))
    eq = staticmethod(lambda a, b: z3.And(a == b, a != NAN))
    abs = staticmethod(lambda a: z3.Function('fabs', R, R)(a))
    npmin = staticmethod(lambda a, b: z3.If(z3.Or(a == NAN, b == NAN), NAN, z3.If(a <= b, a, b)))
    npmax = staticmethod(lambda a, b: z3.If(a >= b, a, b))      # NAN is the largest value
    pymin = staticmethod(lambda a, b: z3.If(z3.And(b < a, a != NAN), b, a))
    pymax = staticmethod(lambda a, b: z3.If(z3.And(b > a, b != NAN), b, a))
    isnan = staticmethod(lambda a: a == NAN)
    isfinite = staticmethod(lambda a: z3.And(NINF < a, a < PINF))
    sqrt = staticmethod(lambda a: Sqrt(a))


BASE_FACTS = {
    'real': [],
    'order': [NAN > PINF, NINF < -10 ** 300, PINF > 10 ** 300],
}


def ieee_facts(nm, t):
    """Facts about one correctly rounded operation that hold for every rounding, including overflow and underflow."""
    a = t.arg(0)
    b = t.arg(1) if t.num_args() == 2 else None
    fin = lambda u: z3.And(NINF < u, u < PINF)
    num = lambda u: u != NAN
    out = [z3.Implies(a == NAN, t == NAN)]
    if b is not None:
        out.append(z3.Implies(b == NAN, t == NAN))
    if nm == 'fmul':
        for u, v in ((a, b), (b, a)):
            out.append(z3.Implies(z3.And(0 <= u, u <= 1, 0 <= v, v < PINF), z3.And(0 <= t, t <= v)))
            out.append(z3.Implies(z3.And(1 <= u, u < PINF, 0 <= v, v <= PINF), z3.And(v <= t, t <= PINF)))
        out.append(z3.Implies(z3.And(0 <= a, a < PINF, 0 <= b, b < PINF), z3.And(0 <= t, t <= PINF)))
        out.append(z3.Implies(z3.And(0 < a, a <= PINF, 0 < b, b <= PINF), z3.And(0 <= t, t <= PINF)))
        if a.eq(b):
            out.append(z3.Implies(num(a), z3.And(0 <= t, t <= PINF)))
    elif nm == 'fdiv':
        out.append(z3.Implies(z3.And(0 <= a, a < PINF, 0 < b, b <= 1), z3.And(a <= t, t <= PINF)))
        out.append(z3.Implies(z3.And(0 <= a, a < PINF, 1 <= b, b <= PINF), z3.And(0 <= t, t <= a)))
        out.append(z3.Implies(z3.And(0 <= a, a < PINF, 0 < b, b <= PINF), z3.And(0 <= t, t <= PINF)))
        out.append(z3.Implies(z3.And(num(t), t > 0), z3.Or(z3.And(a > 0, b >= 0), z3.And(a < 0, b <= 0))))
        out.append(z3.Implies(z3.And(num(t), t < 0), z3.Or(z3.And(a > 0, b <= 0), z3.And(a < 0, b >= 0))))
        out.append(z3.Implies(z3.And(num(a), a <= 0, num(b), b > 0, num(t)), t <= 0))
        if z3.is_rational_value(b) and b.as_fraction() == 0:
            out.append(z3.Implies(num(t), z3.And((t > 0) == (a > 0), (t < 0) == (a < 0))))        # a/+0.0
    elif nm == 'fsub':
        out.append(z3.Implies(z3.And(num(t), t > 0), a > b))
        out.append(z3.Implies(z3.And(num(t), t < 0), a < b))
        out.append(z3.Implies(z3.And(num(t), t == 0), a == b))
        out.append(z3.Implies(z3.And(fin(a), fin(b)), num(t)))
    elif nm == 'fadd':
        out.append(z3.Implies(z3.And(0 <= a, a <= PINF, 0 <= b, b <= PINF), z3.And(a <= t, b <= t, t <= PINF)))
    elif nm == 'fneg':
        out.append(z3.Implies(num(a), z3.And(num(t), (t < 0) == (a > 0), (t > 0) == (a < 0))))
    elif nm == 'Sqrt':
        out.append(z3.Implies(z3.And(0 <= a, a <= PINF), z3.And(0 <= t, t <= PINF, (t == 0) == (a == 0))))
    return out


def _subterms(roots):
    seen = set()
    out = []
    todo = list(roots)
    while todo:
        t = todo.pop()
        k = t.get_id()
        if k in seen:
            continue
        seen.add(k)
        out.append(t)
        if z3.is_quantifier(t):
            continue
        todo.extend(t.children())
    return out


def is_linear_op(t):
    return t.decl().name() in ('vadd', 'vsub', 'vneg', 'vsmul', 'vsdiv')


def is_witness(i):
    return z3.is_app(i) and i.num_args() == 0 and i.decl().name().startswith(('diff!', 'argm!'))


def has_op(t):
    """the term's entries are defined by lazily instantiated definitions (so the solver's own extensionality is not enough)"""
    if not z3.is_app(t):
        return True
    if t.decl().name() in OPS or t.decl().name() in ('mv', 'meanrows'):
        return True
    if t.decl().kind() == z3.Z3_OP_ITE:
        return has_op(t.arg(1)) or has_op(t.arg(2))
    if t.decl().kind() == z3.Z3_OP_STORE:
        return has_op(t.arg(0))
    if t.decl().kind() == z3.Z3_OP_SELECT:
        return has_op_m(t.arg(0))
    return False


def has_op_m(t):
    """a matrix term some of whose rows are defined by operations"""
    if not z3.is_app(t):
        return True
    k = t.decl().kind()
    if k == z3.Z3_OP_STORE:
        return has_op(t.arg(2)) or has_op_m(t.arg(0))
    if k == z3.Z3_OP_ITE:
        return has_op_m(t.arg(1)) or has_op_m(t.arg(2))
    return False


def const_zero(t):
    return z3.is_const_array(t) and z3.is_rational_value(t.arg(0)) and t.arg(0).as_fraction() == 0


def instantiate(assertions, schems, arith, extra_index=(), max_rounds=6, cap=6000, use_dot=True, ext_pairs=True, ieee=False):
    """Ground instances of operation definitions and schematic facts for all index terms that occur."""
    facts = list(BASE_FACTS[arith.name])
    done = set()
    idx = {}
    gen = {}          # round in which an index term appeared
    cur = [0]
    for e in extra_index:
        idx[e.get_id()] = e
    terms = {}
    pending = list(assertions)
    keep = [assertions, schems, idx]
    isorder = arith.name == 'order'
    seen = set()
    opterms = {}
    dots = {}
    sqrts = {}
    mvs = {}
    ufargs = {}
    floats = {}
    vam = {}
    means = {}
    fmuls = []
    eqs = {}

    def scan(t):
        for x in _subterms([t]):
            k = x.get_id()
            if k in seen:
                continue
            seen.add(k)
            terms[k] = x
            if z3.is_quantifier(x) or not z3.is_app(x):
                continue
            dk = x.decl().kind()
            nm = x.decl().name()
            if isorder and x.sort_kind() == z3.Z3_REAL_SORT and dk in (z3.Z3_OP_SELECT, z3.Z3_OP_UNINTERPRETED) and nm not in ('NAN', 'PINF', 'NINF'):
                add(z3.And(x >= NINF, z3.Or(x <= PINF, x == NAN)))       # every float is in [-inf, inf] or NaN
            if dk in (z3.Z3_OP_SELECT, z3.Z3_OP_STORE):
                j = x.arg(1)
                idx[j.get_id()] = j
                gen.setdefault(j.get_id(), cur[0])
                if dk == z3.Z3_OP_SELECT and x.sort_kind() == z3.Z3_INT_SORT:
                    u = x.arg(0)
                    if z3.is_app(u) and u.decl().name() in SELTRIG:
                        add(SELTRIG[u.decl().name()](x, j, *u.children()))
                        if u.decl().name() == 'ivfilt':
                            add(z3.And(0 <= filtlen(*u.children()), filtlen(*u.children()) <= u.arg(2)))
                    elif has_trig(u):
                        add(x == z3.If(u.arg(0), z3.Select(u.arg(1), j), z3.Select(u.arg(2), j)))
            if ieee and isorder and nm in ('fmul', 'fdiv', 'fsub', 'fadd', 'fneg', 'Sqrt') and dk == z3.Z3_OP_UNINTERPRETED:
                for f in ieee_facts(nm, x):
                    add(f)
                if nm == 'fmul':      # rounding is monotone: c*u <= c*v when 0 <= c and u <= v
                    for y in fmuls:
                        for p, q in ((0, 1), (1, 0)):
                            for p2, q2 in ((0, 1), (1, 0)):
                                if x.arg(p).eq(y.arg(p2)):
                                    c, u, v = x.arg(p), x.arg(q), y.arg(q2)
                                    g = z3.And(0 <= c, c < PINF, NINF < u, u < PINF, NINF < v, v < PINF)
                                    add(z3.Implies(z3.And(g, u <= v), x <= y))
                                    add(z3.Implies(z3.And(g, v <= u), y <= x))
                    fmuls.append(x)
            if nm == 'umul' and dk == z3.Z3_OP_UNINTERPRETED:
                add(z3.Implies(z3.Or(x.arg(0) == 0, x.arg(1) == 0), x == 0))
            if dk == z3.Z3_OP_EQ and x.arg(0).sort() in (V, M):
                eqs[k] = x
            if nm in OPS:
                opterms[k] = x
            elif nm == 'dot':
                dots[k] = x
                if x.arg(0).get_id() > x.arg(1).get_id():
                    add(x == dot(x.arg(1), x.arg(0)))
            elif nm == 'Sqrt':
                sqrts[k] = x
            elif nm == 'mv':
                mvs[k] = x
                opterms[k] = x
            elif nm in ('vamax', 'vamin'):
                vam[k] = x
            elif nm == 'meanrows':
                means[k] = x
            elif dk == z3.Z3_OP_UNINTERPRETED and x.num_args() >= 1 and any(x.arg(q).sort() == V for q in range(x.num_args())):
                ufargs.setdefault(nm, {})[k] = x

    def add(f):
        if isinstance(f, bool):
            if f:
                return
            f = z3.BoolVal(False)
        k = f.get_id()
        if k in done:
            return
        done.add(k)
        facts.append(f)
        pending.append(f)

    instd = set()
    for rnd in range(max_rounds):
        cur[0] = rnd
        while pending:
            scan(pending.pop())
        n0 = len(facts)
        if len(facts) > cap:
            break
        for ii, i in list(idx.items()):
            for kk, t in list(opterms.items()):
                key = ('op', kk, ii)
                if key in instd:
                    continue
                instd.add(key)
                nm = t.decl().name()
                if nm == 'mv':
                    H, a = t.arg(0), t.arg(1)
                    if is_linear_op(a):
                        an = a.decl().name()
                        sel = z3.Select(t, i)
                        if an == 'vadd':
                            add(sel == z3.Select(mv(H, a.arg(0)), i) + z3.Select(mv(H, a.arg(1)), i))
                        elif an == 'vsub':
                            add(sel == z3.Select(mv(H, a.arg(0)), i) - z3.Select(mv(H, a.arg(1)), i))
                        elif an == 'vneg':
                            add(sel == -z3.Select(mv(H, a.arg(0)), i))
                        elif an == 'vsmul':
                            add(sel == a.arg(0) * z3.Select(mv(H, a.arg(1)), i))
                    elif const_zero(a):
                        add(z3.Select(t, i) == 0)
                    continue
                d, comp = OPS[nm]
                add(z3.Select(t, i) == comp(arith, i, *[t.arg(q) for q in range(t.num_args())]))
            for q, sc in enumerate(schems):
                key = ('sc', q, ii)
                if key in instd or (sc.rows and is_witness(i)) or (sc.gen is not None and gen.get(ii, 0) > sc.gen):
                    continue
                instd.add(key)
                f = sc.fn(i)
                add(f if not isinstance(f, bool) else z3.BoolVal(f))
            for kk, t in list(vam.items()):
                key = ('vam', kk, ii)
                if key in instd:
                    continue
                instd.add(key)
                g = z3.And(i >= 0, i < t.arg(1))
                if t.decl().name() == 'vamax':
                    add(z3.Implies(g, z3.Select(t.arg(0), i) <= t))
                else:
                    add(z3.Implies(g, z3.Select(t.arg(0), i) >= t))
        if use_dot:
            for kk, t in list(dots.items()):
                key = ('dot', kk)
                if key in instd:
                    continue
                instd.add(key)
                a, b = t.arg(0), t.arg(1)
                if a.get_id() == b.get_id():
                    add(t >= 0)
                    if isorder and ieee and has_op(a):
                        w = fresh('diff', I)
                        add(z3.Or(t == 0, z3.Not(z3.Select(a, w) == 0)))
                for (x, y) in ((a, b), (b, a)):
                    nm = x.decl().name() if z3.is_app(x) else ''
                    if const_zero(x):
                        add(t == 0)
                        break
                    if arith.name != 'real':
                        continue
                    if nm == 'vadd':
                        add(t == mkdot(x.arg(0), y) + mkdot(x.arg(1), y)); break
                    if nm == 'vsub':
                        add(t == mkdot(x.arg(0), y) - mkdot(x.arg(1), y)); break
                    if nm == 'vneg':
                        add(t == -mkdot(x.arg(0), y)); break
                    if nm == 'vsmul':
                        add(t == x.arg(0) * mkdot(x.arg(1), y)); break
                    if nm == 'vsdiv':
                        add(z3.Implies(x.arg(1) != 0, t * x.arg(1) == mkdot(x.arg(0), y))); break
        for kk, t in list(sqrts.items()):
            key = ('sqrt', kk)
            if key in instd:
                continue
            instd.add(key)
            if arith.name == 'real':
                add(z3.Implies(t.arg(0) >= 0, z3.And(t >= 0, t * t == t.arg(0))))
        for kk, t in list(vam.items()):
            key = ('vame', kk)
            if key in instd:
                continue
            instd.add(key)
            w = fresh('argm', I)
            add(z3.Implies(t.arg(1) > 0, z3.And(w >= 0, w < t.arg(1), z3.Select(t.arg(0), w) == t)))
        if ext_pairs:
            for kk, t in list(eqs.items()):
                key = ('eqw', kk)
                if key in instd:
                    continue
                instd.add(key)
                x, y = t.arg(0), t.arg(1)
                if x.sort() == M or has_op(x) or has_op(y):
                    w = fresh('diff', I)
                    add(z3.Or(t, z3.Not(z3.Select(x, w) == z3.Select(y, w))))
            for nm, D in ufargs.items():
                L = list(D.values())
                for p in range(len(L)):
                    for q in range(p):
                        key = ('ext', nm, L[p].get_id(), L[q].get_id())
                        if key in instd:
                            continue
                        instd.add(key)
                        for a in range(L[p].num_args()):
                            x, y = L[p].arg(a), L[q].arg(a)
                            if x.sort() == V and x.get_id() != y.get_id() and (has_op(x) or has_op(y)):
                                k2 = ('extp', min(x.get_id(), y.get_id()), max(x.get_id(), y.get_id()))
                                if k2 in instd:
                                    continue
                                instd.add(k2)
                                w = fresh('diff', I)
                                add(z3.Or(x == y, z3.Select(x, w) != z3.Select(y, w)))
        if len(facts) == n0 and not pending:
            break
    return facts


def mkdot(a, b):
    """dot is symmetric: canonical argument order."""
    if a.get_id() > b.get_id():
        a, b = b, a
    return dot(a, b)
