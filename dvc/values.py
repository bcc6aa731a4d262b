"""Symbolic values, heap and states of the verifier."""
import z3, itertools

V = z3.ArraySort(z3.IntSort(), z3.RealSort())      # 1-D float arrays (total: index -> value)
IV = z3.ArraySort(z3.IntSort(), z3.IntSort())
BV = z3.ArraySort(z3.IntSort(), z3.BoolSort())
M = z3.ArraySort(z3.IntSort(), V)                   # 2-D float arrays, row index -> row
_ctr = itertools.count()


def uid():
    return next(_ctr)


def fresh(name, sort):
    return z3.Const('%s!%d' % (name, uid()), sort)


class Unsupported(Exception):
    """The translator met a construct it does not handle: the function is undecided, never 'violated'."""


class Ref(object):
    __slots__ = ('id',)

    def __init__(self, i):
        self.id = i

    def __eq__(self, o):
        return isinstance(o, Ref) and o.id == self.id

    def __hash__(self):
        return hash(('ref', self.id))

    def __repr__(self):
        return 'Ref%d' % self.id


class Cell(object):
    """Immutable heap cell: replaced, never modified."""
    __slots__ = ('cls', 'f')

    def __init__(self, cls, f):
        self.cls = cls
        self.f = f

    def put(self, **kw):
        g = dict(self.f)
        g.update(kw)
        return Cell(self.cls, g)


class Opq(object):
    """A value about which nothing is known; gets numeric/boolean/array views on demand."""
    __slots__ = ('id', 'name', 'cache')

    def __init__(self, name='o'):
        self.id = uid()
        self.name = name
        self.cache = {}

    def const(self, kind):
        if kind not in self.cache:
            s = {'real': z3.RealSort(), 'int': z3.IntSort(), 'bool': z3.BoolSort(), 'none': z3.BoolSort(), 'vec': V, 'ivec': IV, 'bvec': BV, 'mat': M}[kind]
            self.cache[kind] = z3.Const('%s!%d.%s' % (self.name, self.id, kind), s)
        return self.cache[kind]

    def __repr__(self):
        return 'Opq(%s!%d)' % (self.name, self.id)


class Union(object):
    """Guarded union of values (guards exhaustive under the path condition)."""
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = alts

    def __repr__(self):
        return 'Union(%s)' % ', '.join(repr(v) for _, v in self.alts)


class Closure(object):
    def __init__(self, node, env, mod, name='<lambda>'):
        self.node, self.env, self.mod, self.name = node, env, mod, name


class Func(object):
    """A function or method of the repository (optionally bound)."""

    def __init__(self, q, selfv=None):
        self.q, self.selfv = q, selfv

    def __eq__(self, o):
        return isinstance(o, Func) and o.q == self.q and o.selfv == self.selfv

    def __hash__(self):
        return hash(self.q)

    def __repr__(self):
        return 'Func(%s)' % self.q


class Cls(object):
    def __init__(self, q):
        self.q = q

    def __eq__(self, o):
        return isinstance(o, Cls) and o.q == self.q

    def __hash__(self):
        return hash(self.q)


class Ext(object):
    """External name (numpy, scipy, math, ...), dotted."""

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Ext) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return 'Ext(%s)' % self.name


class User(object):
    """A callable supplied by the user (objfun, h, prox, nsamples, a projection)."""

    def __init__(self, name, idx=None):
        self.name, self.idx = name, idx

    def __eq__(self, o):
        return isinstance(o, User) and o.name == self.name and o.idx is self.idx

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return 'User(%s)' % self.name


class BoundM(object):
    """Method of a built-in value (array, list, dict, str, opaque)."""

    def __init__(self, selfv, name):
        self.selfv, self.name = selfv, name


class Slice(object):
    def __init__(self, lo, hi, step=None):
        self.lo, self.hi, self.step = lo, hi, step


class Schem(object):
    """forall i: fn(i)   (i ranges over all integers; instantiated lazily).
    fn is evaluated once, at construction: the formula speaks of the state at that moment, not of the state in which it is instantiated."""
    __slots__ = ('var', 'tmpl', 'rows', 'gen')

    def __init__(self, fn, rows=False, gen=None):
        self.gen = gen            # instantiated only at index terms that appear within this many rounds
        self.rows = rows          # quantifies over stored points: not instantiated at component witnesses
        if fn is not None:
            self.var = fresh('qv', z3.IntSort())
            t = fn(self.var)
            self.tmpl = z3.BoolVal(t) if isinstance(t, bool) else t

    def fn(self, i):
        return z3.substitute(self.tmpl, (self.var, i))

    def under(self, guard):
        """forall i: guard => fn(i)"""
        s = Schem(None, self.rows, self.gen)
        s.var, s.tmpl = self.var, z3.Implies(guard, self.tmpl)
        return s


class State(object):
    def __init__(self):
        self.loc = {}
        self.heap = {}
        self.ghost = {}
        self.pc = []         # list of z3 Bool or Schem-guarded facts (guard, Schem)
        self.stack = []      # callers' locals (for alias scans)
        self.dead = False

    def copy(self):
        s = State()
        s.loc = dict(self.loc)
        s.heap = dict(self.heap)
        s.ghost = dict(self.ghost)
        s.pc = list(self.pc)
        s.stack = list(self.stack)
        s.dead = self.dead
        return s

    def become(self, o):
        self.loc, self.heap, self.ghost, self.pc, self.stack, self.dead = o.loc, o.heap, o.ghost, o.pc, o.stack, o.dead

    def assume(self, b):
        if isinstance(b, bool):
            if not b:
                self.pc.append(z3.BoolVal(False))
            return
        if isinstance(b, z3.BoolRef) and z3.is_true(b):
            return
        self.pc.append(b)

    def alloc(self, cls, **f):
        r = Ref(uid())
        self.heap[r.id] = Cell(cls, f)
        return r

    def cell(self, r):
        return self.heap[r.id]

    def setf(self, r, **kw):
        self.heap[r.id] = self.heap[r.id].put(**kw)


def is_z3(x):
    return isinstance(x, z3.ExprRef)


def is_num(x):
    return (isinstance(x, (int, float)) and not isinstance(x, bool)) or isinstance(x, z3.ArithRef)


def is_boolish(x):
    return isinstance(x, (bool, z3.BoolRef))


def to_z3(x):
    if isinstance(x, z3.ExprRef):
        return x
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, float):
        if x != x:
            return NAN
        if x == float('inf'):
            return PINF
        if x == float('-inf'):
            return NINF
        from fractions import Fraction
        fr = Fraction(repr(x)) if 'e' not in repr(x).lower() else Fraction(x).limit_denominator(10 ** 400) if False else Fraction(repr(x))
        return z3.RealVal(str(fr))
    raise Unsupported('to_z3(%r)' % (x,))


NAN = z3.Real('NAN')
PINF = z3.Real('PINF')
NINF = z3.Real('NINF')


def to_real(x):
    t = to_z3(x)
    if z3.is_int(t):
        if z3.is_int_value(t):
            return z3.RealVal(t.as_long())
        return z3.ToReal(t)
    return t


def bnot(b):
    if isinstance(b, bool):
        return not b
    return z3.Not(b)


def band(*bs):
    out = []
    for b in bs:
        if b is True:
            continue
        if b is False:
            return False
        out.append(b)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def bor(*bs):
    out = []
    for b in bs:
        if b is False:
            continue
        if b is True:
            return True
        out.append(b)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    return z3.If(c, a, b)
