"""C08: bad objective values are survived; an exception of the objective propagates unchanged.

Selection part: the contracts of C04 hold for NaN/inf/overflowing residuals too (the objective callback returns an arbitrary vector), so a returned
objective is no larger than any value that was a number, hence finite if one was finite.
Exceptional part, ghost state raised: the objective has raised.  Every exceptional exit of objfun, and of every function that may call it, is a state with raised
possibly true at the enclosing handlers; obligations: no call of objfun while raised, no normal return while raised, only bare re-raises while raised."""
import ast
import z3
from dvc.values import *
from dvc.vec import *
from dvc.spec import *
from contracts.common import *
import contracts.C04 as c04

ARITH = Order
LEVEL = 'proof'
ASSUMPTIONS = [a for a in c04.ASSUMPTIONS] + ['bound and budget guarantees hold for arbitrary objective values: C01 and C02 are proved with an unconstrained objective (re-run here in the thorough tier)']
BOUNDED = ['solve terminates without raising (run-time checked with faults injected at every evaluation index)', 'the returned x is finite and was evaluated', 'regularised objectives', 'init.run_in_parallel']


class S(c04.S):
    framed_ghosts = frozenset(['rb', 'tb', 'raised'])

    def init_ghost(self, E, st):
        c04.S.init_ghost(self, E, st)
        st.ghost['raised'] = z3.BoolVal(False)

    def user_call(self, E, st, f, args, kw):
        if f.name == 'objfun':
            E.oblige(st, 'no evaluation is requested after the objective has raised', z3.Not(st.ghost['raised']))
        return c04.S.user_call(self, E, st, f, args, kw)

    def on_exc(self, E, st, why):
        if why == 'objfun' or (why in E.P.fns and 'objfun' in E.P.effects(why)[1]):
            st.ghost['raised'] = z3.Or(st.ghost['raised'], fresh('objfun_raised', B))

    def on_raise(self, E, st, node):
        bare = node.exc is None or (isinstance(node.exc, ast.Name) and isinstance(st.loc.get(node.exc.id), Opq))
        if not bare and not z3.is_false(z3.simplify(st.ghost['raised'])):
            E.oblige(st, 'an exception of the objective is passed on unchanged', z3.Not(st.ghost['raised']))


def tasks(P, tier):
    s = c04.mk(P, S)
    out = [(s, c) for c in s.contracts.values()]
    if 'util.eval_least_squares_with_regularisation' in P.fns:
        out.append((s, Contract('util.eval_least_squares_with_regularisation', args=dict(x='vec', objfun='user:objfun', argsf='opq', h='h'), modifies=[('ghost', 'rb')])))
    if tier == 'thorough':
        import contracts.C01 as c01, contracts.C02 as c02
        out += c01.tasks(P, tier) + c02.tasks(P, tier)
    return out
