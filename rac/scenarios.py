"""Scenario generator: JSON-able descriptions of calls to dfols.solve inside the documented domain."""
import numpy as np

KINDS = ['linear', 'linear', 'rosen', 'smooth', 'expfit', 'nonsmooth', 'away', 'cubic', 'mixscale', 'steps', 'const', 'linear0']


def pick(rs, xs, p=None):
    return xs[rs.choice(len(xs), p=p)]


def fl(v):
    return [float(t) for t in np.atleast_1d(v)]


def gen_problem(rs, n, kinds=None):
    k = pick(rs, kinds or KINDS)
    spec = dict(kind=k, seed=int(rs.randint(1 << 30)))
    spec['m'] = int(pick(rs, [n, n + 1, n + 3, 2 * n + 2])) if rs.rand() < 0.85 else max(1, n - 1)
    if k == 'linear0':
        spec['kind'] = 'linear'
        spec['consistent'] = True
        spec['xstar'] = fl(np.round(rs.randn(n), 2))
    if k == 'const':
        spec['cscale'] = float(pick(rs, [1.0, 1e-3]))
    if k == 'away':
        spec['far'] = float(pick(rs, [5.0, 50.0, 0.5]))
    return spec


def gen_box(rs, n, rhobeg, mode=None):
    """(x0, lower, upper).  Widths >= 2*rhobeg (in floating point)."""
    mode = mode or pick(rs, ['none', 'both', 'both', 'both', 'lower', 'upper', 'narrow', 'odd', 'odd'])
    c = np.round(rs.randn(n) * pick(rs, [0.5, 1.0, 5.0]), int(pick(rs, [1, 2, 3, 10])))
    if mode == 'none':
        return fl(c), None, None
    w = rhobeg * (2.0 + rs.rand(n) * pick(rs, [0.2, 2.0, 20.0]))
    if mode == 'narrow':
        w = rhobeg * (2.0 + 1e-3 * rs.rand(n))
    if mode == 'odd':      # awkward decimals: rounding of base + step
        w = np.maximum(np.round(rhobeg * (2.0 + 10 * rs.rand(n)), 1), np.ceil(2.2 * rhobeg * 10) / 10.0)
        c = np.round(c * 3, 1) + pick(rs, [0.0, 0.1, 100.0, 1000.0, -0.3])
    lo = c - w * rs.rand(n)
    if mode == 'odd':
        lo = np.round(lo, 1)
    up = lo + w
    while np.min(up - lo) < 2.0 * rhobeg * (1 + 1e-9):
        up = up + (up - lo < 2.0 * rhobeg * (1 + 1e-9)) * 0.1 * rhobeg
    x0 = np.zeros(n)
    for i in range(n):
        q = rs.randint(10)
        if q <= 2:
            x0[i] = lo[i] + (up[i] - lo[i]) * rs.rand()
        elif q == 3:
            x0[i] = lo[i]
        elif q == 4:
            x0[i] = up[i]
        elif q == 5:
            x0[i] = lo[i] + rhobeg * pick(rs, [1e-3, 0.009, 0.011, 1e-15, 1e-8, 0.5])
        elif q == 6:
            x0[i] = up[i] - rhobeg * pick(rs, [1e-3, 0.009, 0.011, 1e-15, 1e-8, 0.5])
        elif q == 7:
            x0[i] = lo[i] - abs(rs.randn())
        elif q == 8:
            x0[i] = up[i] + abs(rs.randn())
        else:
            x0[i] = 0.5 * (lo[i] + up[i])
    L, U = fl(lo), fl(up)
    if mode == 'lower':
        U = None
    if mode == 'upper':
        L = None
    return fl(x0), L, U


def gen_projections(rs, n, x0):
    x0 = np.array(x0)
    c = np.round(x0 + 0.5 * rs.randn(n), 2)      # common point c
    out = []
    for i in range(int(pick(rs, [1, 1, 2, 3]))):
        k = pick(rs, ['ball', 'half', 'box', 'ball', 'half'])
        if k == 'ball':
            off = rs.randn(n)
            rad = float(np.round(0.8 + 2 * rs.rand(), 2))
            off = off / np.linalg.norm(off) * rad * 0.7 * rs.rand()
            out.append(dict(kind='ball', c=fl(c + off), r=rad))
        elif k == 'half':
            a = rs.randn(n)
            out.append(dict(kind='half', a=fl(a), b=float(a.dot(c) + 0.3 * rs.rand())))
        else:
            out.append(dict(kind='box', l=fl(c - 0.5 - rs.rand(n)), u=fl(c + 0.5 + rs.rand(n))))
    return out, c


def gen_params(rs, n, npt, sc, focus):
    p = {}
    if rs.rand() < 0.55:
        p['restarts.use_restarts'] = True
        p['restarts.use_soft_restarts'] = bool(rs.rand() < 0.55)
        p['restarts.max_unsuccessful_restarts'] = int(pick(rs, [1, 2, 3, 10, 0], [0.25, 0.3, 0.25, 0.1, 0.1]))
        if rs.rand() < 0.3:
            p['restarts.rhoend_scale'] = float(pick(rs, [0.1, 0.5, 0.01]))
        if rs.rand() < 0.35 and not sc.get('projections'):
            p['restarts.increase_npt'] = True
            p['restarts.increase_npt_amt'] = int(pick(rs, [1, 2]))
            p['restarts.max_npt'] = int(npt + pick(rs, [1, 2, 4]))
        if rs.rand() < 0.5:
            p['restarts.soft.move_xk'] = bool(rs.rand() < 0.5)
        if rs.rand() < 0.4:
            p['restarts.soft.num_geom_steps'] = int(pick(rs, [1, 2, 5, 0]))
        if rs.rand() < 0.5:
            p['restarts.hard.use_old_rk'] = bool(rs.rand() < 0.5)
        if rs.rand() < 0.3:
            p['restarts.auto_detect'] = bool(rs.rand() < 0.5)
        elif rs.rand() < 0.4:
            p['restarts.auto_detect.history'] = int(pick(rs, [3, 5]))
            p['restarts.auto_detect.min_chgJ_slope'] = 1e-6
        if rs.rand() < 0.2:
            p['restarts.soft.max_fake_successful_steps'] = int(pick(rs, [1, 2, 3]))
    if rs.rand() < 0.25:
        p['slow.max_slow_iters'] = int(pick(rs, [1, 2, 5]))
        p['slow.thresh_for_slow'] = float(pick(rs, [1e-2, 1e-1, 1e-4]))
        p['slow.history_for_slow'] = int(pick(rs, [1, 2, 5]))
    if rs.rand() < 0.25 and npt > 2 and not sc.get('projections'):
        p['growing.ndirs_initial'] = int(rs.randint(1, npt - 1)) if npt > 2 else 1
        q = rs.randint(6)
        if q == 0:
            p['growing.full_rank.use_full_rank_interp'] = False
            p['growing.perturb_trust_region_step'] = True
        elif q == 1:
            p['growing.num_new_dirns_each_iter'] = 1
        elif q == 2:
            p['growing.safety.reduce_delta'] = True
        elif q == 3:
            p['growing.safety.full_geom_step'] = True
        elif q == 4:
            p['growing.reset_delta'] = True
            p['growing.reset_rho'] = bool(rs.rand() < 0.5)
        elif q == 5:
            p['growing.do_geom_steps'] = True
            p['growing.num_new_dirns_each_iter'] = int(pick(rs, [1, 2]))
    if rs.rand() < 0.2 and npt >= n + 1:
        p['regression.num_extra_steps'] = int(pick(rs, [1, 2]))
        p['regression.momentum_extra_steps'] = bool(rs.rand() < 0.5)
        if rs.rand() < 0.3:
            p['regression.increase_num_extra_steps_with_restart'] = 1
    if rs.rand() < 0.15 and not sc.get('projections'):
        p['init.random_initial_directions'] = True
        p['init.random_directions_make_orthogonal'] = bool(rs.rand() < 0.5)
        p['init.run_in_parallel'] = bool(rs.rand() < 0.4)
    if rs.rand() < 0.1:
        p['interpolation.precondition'] = False
    if rs.rand() < 0.2:
        p['general.rounding_error_constant'] = float(pick(rs, [1e-3, 1.0, 100.0]))
    if rs.rand() < 0.12:
        p['tr_radius.alpha1'] = float(pick(rs, [0.9, 0.3, 1e-3]))
        p['tr_radius.alpha2'] = float(pick(rs, [0.95, 0.1, 0.5]))
    if rs.rand() < 0.08:
        p['tr_radius.gamma_dec'] = float(pick(rs, [0.98, 0.1]))
    if rs.rand() < 0.08:
        p['tr_radius.gamma_inc'] = float(pick(rs, [1.5, 4.0]))
        p['tr_radius.gamma_inc_overline'] = float(pick(rs, [1.5, 8.0]))
    if rs.rand() < 0.08:
        p['general.safety_step_thresh'] = float(pick(rs, [0.1, 1.0]))
    if rs.rand() < 0.12:
        p['model.abs_tol'] = float(pick(rs, [1e-3, 0.1, 1e-6]))
    if rs.rand() < 0.1:
        p['model.rel_tol'] = float(pick(rs, [0.5, 0.1, 1e-3]))
    return p


def gen(seed, focus='any'):
    rs = np.random.RandomState(seed % (2 ** 32))
    n = int(pick(rs, [1, 2, 2, 3, 3, 4, 5]))
    sc = dict(id='%s-%d' % (focus, seed), n=n, npseed=int(rs.randint(1 << 30)))
    rhobeg = float(pick(rs, [0.1, 0.3, 1.0, 0.05, 0.01, 0.7]))
    reg = rs.rand() < (0.15 if focus != 'reg' else 1.0)
    proj = rs.rand() < (0.12 if focus not in ('proj',) else 1.0)
    if focus in ('noproj', 'jac', 'init'):
        proj = False
    if focus in ('jac',):
        reg = False
    x0, lo, up = gen_box(rs, n, rhobeg, mode=('none' if focus == 'free' else None))
    if proj and lo is not None and rs.rand() < 0.5:
        lo = up = None
    sc.update(x0=x0, lower=lo, upper=up, rhobeg=rhobeg)
    sc['rhoend'] = float(rhobeg * pick(rs, [1e-8, 1e-5, 1e-3, 1e-2, 0.5, 1e-1]))
    sc['problem'] = gen_problem(rs, n)
    if proj:
        pr, c = gen_projections(rs, n, x0 if lo is None else np.clip(x0, -1e20 if lo is None else lo, 1e20 if up is None else up))
        if lo is not None or up is not None:
            # keep c inside the bound box so the sets have a common point
            w = np.maximum(2.2 * rhobeg, 1.5)
            if lo is not None:
                sc['lower'] = fl(c - w * (0.2 + 0.5 * rs.rand(n)))
            if up is not None:
                sc['upper'] = fl(c + w * (0.5 + 0.5 * rs.rand(n)) + (0.3 * w if lo is not None else 0))
            if lo is not None and up is not None:
                gap = np.array(sc['upper']) - np.array(sc['lower'])
                sc['upper'] = fl(np.array(sc['upper']) + np.maximum(0, 2.2 * rhobeg - gap))
        sc['projections'] = pr
    if reg:
        lam = float(pick(rs, [0.05, 0.3, 1.0]))
        sc['reg'] = dict(kind=pick(rs, ['l1', 'l1', 'l2', 'l1c']), lam=lam, n=n, c=fl(np.round(rs.randn(n), 1)),
                         use_args=bool(rs.rand() < 0.4))
    npt = n + 1
    if not proj and rs.rand() < 0.3:
        npt = int(n + 1 + rs.randint(0, max(1, (n + 1) * (n + 2) // 2 - n)))
        if rs.rand() < 0.1:
            npt = (n + 1) * (n + 2) // 2 + 1
        sc['npt'] = npt
    sc['maxfun'] = int(pick(rs, [npt - 1, npt, npt + 1, npt + 3, 15, 30, 30, 60, 60, 100, 150])) or 1
    if reg:
        sc['maxfun'] = min(sc['maxfun'], 40)
    if sc['lower'] is not None and sc['upper'] is not None and not proj and rs.rand() < 0.3:
        sc['scaling'] = True
        # rhobeg is in scaled units
        sc['rhobeg'] = float(pick(rs, [0.1, 0.3, 0.05, 0.49]))
        sc['rhoend'] = float(sc['rhobeg'] * pick(rs, [1e-8, 1e-4, 1e-2, 0.5]))
    if rs.rand() < 0.2:
        sc['nsamples'] = pick(rs, [dict(kind='const', k=2), dict(kind='const', k=3), dict(kind='iter', k=3),
                                   dict(kind='runs'), dict(kind='delta', k=4), dict(kind='zero')])
    if rs.rand() < 0.15:
        sc['problem']['noise'] = float(pick(rs, [1e-3, 1e-2, 0.1]))
        if rs.rand() < 0.7:
            sc['noise_flag'] = True
    elif rs.rand() < 0.06:
        sc['noise_flag'] = True
    if focus == 'det':
        sc['problem'].pop('noise', None)
        sc.pop('nsamples', None)
    sc['params'] = gen_params(rs, n, npt, sc, focus)
    if sc.get('noise_flag') and rs.rand() < 0.6:
        if rs.rand() < 0.5:
            sc['params']['noise.additive_noise_level'] = float(pick(rs, [1e-3, 1e-2, 0.5]))
        else:
            sc['params']['noise.multiplicative_noise_level'] = float(pick(rs, [1e-3, 1e-2, 0.5]))
    if reg:
        sc['params']['func_tol.max_iters'] = int(pick(rs, [15, 30, 60]))
        if rs.rand() < 0.2:
            sc['params']['func_tol.tr_step'] = float(pick(rs, [0.5, 1.0, 0.0]))
            sc['params']['func_tol.criticality_measure'] = float(pick(rs, [0.0, 1e-2, 1.0]))
    if proj and rs.rand() < 0.4:
        sc['params']['dykstra.d_tol'] = float(pick(rs, [1e-12, 1e-8, 1e-6]))
        sc['params']['dykstra.max_iters'] = int(pick(rs, [50, 100, 300]))
    if rs.rand() < 0.1:  # extreme but legal values
        for _ in range(2):
            k, v = pick(rs, [('tr_radius.gamma_dec', 0.0), ('tr_radius.gamma_dec', 1.0), ('tr_radius.alpha1', 0.0), ('tr_radius.alpha1', 1.0),
                             ('tr_radius.alpha2', 0.0), ('tr_radius.alpha2', 1.0), ('tr_radius.gamma_inc', 1.0), ('tr_radius.gamma_inc', 1e12),
                             ('tr_radius.gamma_inc_overline', 1e9), ('tr_radius.eta1', 0.0), ('tr_radius.eta2', 1.0), ('slow.history_for_slow', 0),
                             ('slow.max_slow_iters', 0), ('general.safety_step_thresh', 0.0), ('general.safety_step_thresh', 10.0),
                             ('general.rounding_error_constant', 0.0), ('model.abs_tol', 0.0), ('model.rel_tol', 0.0), ('model.rel_tol', 1.0),
                             ('general.check_objfun_for_overflow', False), ('logging.n_to_print_whole_x_vector', 0),
                             ('growing.gamma_dec', 0.0), ('growing.delta_scale_new_dirns', 1e-3), ('growing.delta_scale_new_dirns', 5.0)])
            sc['params'][k] = v
    if focus == 'fault' or rs.rand() < 0.06:
        q = pick(rs, ['one', 'one', 'one', 'all', 'after', 'region', 'list', 'before'])
        f = dict(at=q, what=pick(rs, ['nan', 'nan', 'nan', 'inf', '-inf', 'big', 'big2', '-big', 'edge', 'raise'] if q in ('one', 'after')
                                 else ['nan', 'nan', 'inf', '-inf', 'big', 'edge']))
        if q in ('one', 'after', 'before'):
            f['k'] = int(pick(rs, [1, 2, 3, npt, npt + 1, npt + 2, npt + 3, npt + 5, 12, 20, sc['maxfun'], sc['maxfun'] - 1]))
            f['k'] = max(1, f['k'])
        if q == 'list':
            f['ks'] = [int(t) for t in sorted(set(rs.randint(1, 40, size=4)))]
        if q == 'region':
            f['t'] = float(np.sum(sc['x0']) + pick(rs, [-0.5, 0.0, 0.2, 0.5]) * sc['rhobeg'])
        f['comp'] = pick(rs, ['all', 0, 1])
        sc['problem']['fault'] = f
    if focus in ('diag', 'det', 'json') or rs.rand() < 0.3:
        sc['params']['logging.save_diagnostic_info'] = True
        sc['params']['logging.save_poisedness'] = bool(rs.rand() < 0.3)
        if rs.rand() < 0.25 and focus != 'json':
            sc['params']['logging.save_xk'] = True
            sc['params']['logging.save_rk'] = True
    if rs.rand() < 0.05:
        sc['print_progress'] = True
    extra(sc, np.random.RandomState((seed * 7919 + 13) % (2 ** 32)), focus)
    if sc['params'].get('init.run_in_parallel') and not sc['params'].get('init.random_initial_directions'):
        del sc['params']['init.run_in_parallel']
    return sc


def extra(sc, rs, focus):
    """Further variation, drawn from its own stream."""
    n, p = sc['n'], sc['params']
    f = sc['problem'].get('fault')
    if f and f['what'] == 'raise':
        from rac.problems import EXCS
        f['exc'] = EXCS[rs.randint(len(EXCS))]
    # a starting point just outside its bounds
    for i in range(n):
        for b, s in (('lower', -1.0), ('upper', 1.0)):
            if sc[b] is not None and not sc.get('projections') and rs.rand() < 0.06:
                v = sc[b][i]
                sc['x0'][i] = float(v + s * pick(rs, [1e-10, 1e-12, 1e-8, 1e-6, 2e-16 * max(abs(v), 1.0), 1e-3]))
    q = rs.rand()
    if q < 0.04 and sc.get('npt', n + 1) >= n + 1 and not p.get('growing.ndirs_initial'):
        p['regression.num_extra_steps'] = int(pick(rs, [1, 2, 3]))
        p['regression.momentum_extra_steps'] = bool(rs.rand() < 0.7)
        sc['maxfun'] = int(max(sc['maxfun'], 25 + rs.randint(40)))
        if rs.rand() < 0.6:
            p['model.abs_tol'] = float(pick(rs, [1e-3, 0.1, 1.0, 10.0]))
    elif q < 0.09:
        p['restarts.use_restarts'] = True
        p['restarts.use_soft_restarts'] = bool(rs.rand() < 0.7)
        sc['maxfun'] = int(max(sc['maxfun'], 80 + rs.randint(80)))
        if rs.rand() < 0.5:
            p['restarts.auto_detect.history'] = int(pick(rs, [3, 5, 8]))
            p['restarts.auto_detect.min_chgJ_slope'] = float(pick(rs, [-10.0, 0.0, 1e-6]))
            p['restarts.auto_detect.min_correl'] = float(pick(rs, [-1.0, 0.0, 0.1]))
        else:
            p['slow.max_slow_iters'] = int(pick(rs, [1, 2, 4]))
            p['slow.thresh_for_slow'] = float(pick(rs, [1.0, 1e-1, 1e-2]))
            p['slow.history_for_slow'] = int(pick(rs, [1, 2, 4]))
        if sc.get('reg'):
            sc['maxfun'] = min(sc['maxfun'], 50)
    elif q < 0.12 and n > 1 and focus in ('any', 'diag', 'jac', 'fault') and not sc.get('projections') and not sc.get('reg'):
        # a residual which is flat along the first coordinate around x0, from few initial directions
        m = max(2, sc['problem']['m'])
        sc['problem'] = dict(kind='flat', seed=int(rs.randint(1 << 30)), m=m)
        for k in ('nsamples', 'scaling', 'noise_flag', 'npt'):
            sc.pop(k, None)
        sc.update(x0=[0.0] * n, lower=None, upper=None, rhobeg=float(pick(rs, [0.5, 0.5, 0.25, 0.1])), rhoend=1e-8, maxfun=int(pick(rs, [25, 40, 60])))
        q = {k: v for k, v in p.items() if k.startswith('logging')}
        p.clear()
        p.update(q)
        p.update({'growing.ndirs_initial': 1, 'growing.num_new_dirns_each_iter': int(pick(rs, [1, 2])), 'growing.full_rank.use_full_rank_interp': False,
                  'growing.perturb_trust_region_step': bool(rs.rand() < 0.9), 'growing.safety.do_safety_step': bool(rs.rand() < 0.2)})
