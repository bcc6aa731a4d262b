D = 'contract-based deductive verification of the real /repo source (dvc: weakest-precondition style VC generation by symbolic execution per function, loops cut by invariants, callers checked against callee contracts; z3/cvc5 discharge)'
R = ' + runtime assertion checking of the same contracts as a labelled bounded stand-in for clauses outside the proof'
LEVELS = {
 'C01': ('proof', D + R, 'floats modelled as an order with monotone rounding; box clauses modulo NaN; projections/dykstra trusted contract; see evidence assumptions'),
 'C02': ('proof', D + R, 'counters proved for all histories; callbacks unconstrained; see evidence assumptions'),
 'C17': ('proof', D + R, 'machine arithmetic treated as real for the values, as an order for the selections; see evidence assumptions'),
}
LEVELS['C18'] = ('proof', D + R, 'radius and row invariants proved for all histories (floats: order + monotone rounding facts; reduce_rho over reals); best-objective/nf/nx monotonicity of the table bounded or inherited from C02')
LEVELS['C13'] = ('proof', D + R, 'exact real arithmetic; ball and box containment and the non-negative predicted reduction proved; global optimality of the geometry step, the ball clause of the box geometry step and the rounding margins are bounded (run-time checked)')
LEVELS['C15'] = ('proof', D + R, 'exact real arithmetic (Order for pbox); the clause "within 1e-3 of the true projection" is bounded (run-time checked), see known findings')
LEVELS['C04'] = ('proof', D + R, 'proved for all histories with h None, one sample per point, not parallel; floats as an order with correct-rounding facts; finite positive radii inherited from C18; regularised objectives and multi-sample runs are bounded (run-time checked)')
LEVELS['C08'] = ('proof', D + R, 'selection part for h None, one sample, sequential; exceptional exits of the objective proved to propagate unchanged; termination without raising and finite x bounded (run-time checked)')
LEVELS['C09'] = ('proof', D + R, 'every evaluated point is an output of dykstra over all sets with the user settings, box last; the incumbent in absolute coordinates equals an evaluated point up to rounding (trusted, C03); rounding margins bounded')
LEVELS['C10'] = ('proof', D + R, 'every exit object truthful for all histories (sequential initialisation); f(x0) is the start of the run that ended; the rho clause under the assumptions of C18')
LEVELS['C07'] = ('proof', D + R, 'exit-code/message class invariant and every input check of solve proved for all arguments that are numbers (no NaN); parallel initialisation exits and the flags of particular runs bounded (run-time checked)')
LEVELS['C19'] = ('proof', D + R, 'no global or unseeded random number without the documented options, no state kept between calls, caller objects unchanged at exit of solve; full initial set (growing phase and bit-identical repetition bounded, run-time checked)')
