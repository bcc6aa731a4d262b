"""Shared specification pieces: pure helpers as uninterpreted functions, user callbacks as deterministic functions, model invariants."""
import z3
from dvc.values import *
from dvc.vec import *
from dvc.spec import *

RS = 'util.remove_scaling'
unscale = z3.Function('unscale', V, V)
Hval = z3.Function('Hval', V, R)
PROJ = z3.Function('PROJ', I, V, V)
DYK = z3.Function('DYK', V, V)
N_, M_ = z3.Int('dimn'), z3.Int('dimm')

A_CALLBACKS = 'user callbacks (objfun, h, prox_uh, projections, nsamples) do not modify the solver\'s objects or the arrays passed to them'
A_EFFECTS = 'effects of functions not under contract are over-approximated by the attribute names they write (transitively) in the current source; attributes are not written via setattr/__dict__/exec'
A_NUMPY = 'NumPy/SciPy functions neither write their arguments nor call the user functions; elementwise operations, dot, mean, argmin, where, append and copies follow their documented definition'
A_ORDER = 'float +,-,*,/ are uninterpreted (any rounding, overflow or NaN result is covered); comparisons, min/max and NaN tests are exact; integers are mathematical (Python integers)'
A_REAL = 'machine floating point treated as exact real arithmetic (no rounding, no NaN) in the obligations stated over Real'
A_DET = 'h and the projections are deterministic functions of their point'
A_PARAMS = 'algorithm parameters have the type and range of the repository\'s own parameter table (check_all_params rejects others before solve_main runs) and are not NaN'


def pure(P, q):
    W, Cc, _ = P.effects(q)
    return not {w for w in W if not w.startswith('[]')} and not any('random' in c or c in ('normal', 'rand', 'randn', 'time') for c in Cc)


class Common(Spec):
    """remove_scaling / dykstra / h / projections as deterministic functions of their array argument."""
    pure_scaling = True
    pure_dykstra = True

    def touch(self, E, st, env, c):
        """give every tracked field a value before the first branch, so that both sides of a branch speak of the same one"""
        if c.q.endswith('.__init__'):
            return
        todo = [v for v in env.values() if isinstance(v, Ref)]
        seen = set()
        while todo:
            r = todo.pop()
            if r.id in seen:
                continue
            seen.add(r.id)
            cls = st.heap[r.id].cls
            for f in sorted(TYPES.get(cls, {})):
                if f in self.tracked_fields:
                    v = E.getattr(r, f, st)
                    if isinstance(v, Ref) and st.heap[v.id].cls in TYPES:
                        todo.append(v)

    def on_call(self, E, q, env, st):
        if q == RS and self.pure_scaling and pure(self.prog, q) and 'x_scaled' in env:
            x = E.arr(env['x_scaled'], st)
            E.trusted.add(q + ' (a function of its point only; effect analysis finds no other effect)')
            return E.newarr(st, unscale(x) if x is not None and x.sort() == V else fresh('x', V), (N_,))
        if q == 'util.dykstra' and self.pure_dykstra and pure(self.prog, q):
            fn = self.prog.fns[q]
            v = env.get(fn.params[1]) if len(fn.params) > 1 else None
            x = E.arr(v, st) if v is not None else None
            E.trusted.add(q + ' (a function of its point only)')
            return E.newarr(st, DYK(x) if x is not None and x.sort() == V else fresh('x', V), (N_,))
        return NotImplemented

    def user_call(self, E, st, f, args, kw):
        x = E.arr(args[0], st) if args and E.is_arr(args[0], st) else None
        if f.name == 'h':
            return Hval(x) if x is not None and x.sort() == V else fresh('hval', R)
        if f.name == 'proj':
            k = E.as_int(f.idx, st) if f.idx is not None and not isinstance(f.idx, Slice) else fresh('pi', I)
            return E.newarr(st, PROJ(k, x) if x is not None and x.sort() == V else fresh('proj', V), (N_,))
        if f.name == 'objfun':
            return E.newarr(st, fresh('rvec', V))
        if f.name == 'nsamples':
            return fresh('nsamp', I)
        return Opq(f.name)


# ------------------------------------------------------------------ the model object
def npt_of(cx, me='self', st=None):
    E = cx.E
    st = st or cx.st
    a, b = E.as_int(cx.f(me + '.num_pts', st), st), E.as_int(cx.f(me + '.npt_so_far', st), st)
    return z3.If(b < a, b, a)


def arr_of(cx, path, st=None):
    st = st or cx.st
    return cx.E.arr(cx.f(path, st), st)


def int_of(cx, path, st=None):
    st = st or cx.st
    return cx.E.as_int(cx.f(path, st), st)


def counts_ok(cx, me='self', st=None):
    st = st or cx.st
    a, b, k = (int_of(cx, me + '.' + f, st) for f in ('num_pts', 'npt_so_far', 'kopt'))
    return [('1 <= npt_so_far <= num_pts', z3.And(1 <= b, b <= a)), ('kopt is an index of the set', z3.And(0 <= k, k < npt_of(cx, me, st)))]


def forall(lo, hi, fn, gen=None):
    """forall lo <= i < hi: fn(i), as a schematic fact/goal."""
    return Schem(lambda i: z3.Implies(z3.And(i >= lo, i < hi), to_z3(fn(i))), rows=True, gen=gen)
