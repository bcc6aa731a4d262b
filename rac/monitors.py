"""Property monitors: contracts of dfols.solve evaluated on a recorded run.  Each returns a list of messages."""
import math
import numpy as np
from . import runner
from .runner import mean_resid, obj_of

SUCCESS, MAXFUN, INPUT_ERROR, EVAL_ERROR = 0, 1, -1, -4


def deterministic(rec):
    p = rec.sc['problem']
    return not p.get('noise') and not p.get('mult_noise')


def averaging(rec):
    return any(len(p['rs']) > 1 for p in rec.points())


def rhs_dist_tol(rec):
    return None


def m_C01(rec):
    out = []
    lb, ub = rec.lb, rec.ub
    for k, (x, r) in enumerate(rec.calls):
        if lb is not None and not np.all(x >= lb):
            out.append('call %d: x=%r below lower=%r by %r' % (k + 1, x.tolist(), lb.tolist(), float(np.max(lb - x))))
            break
        if ub is not None and not np.all(x <= ub):
            out.append('call %d: x=%r above upper=%r by %r' % (k + 1, x.tolist(), ub.tolist(), float(np.max(x - ub))))
            break
    s = rec.soln
    if s is not None and s.flag != INPUT_ERROR and s.x is not None:
        if lb is not None and not np.all(s.x >= lb):
            out.append('soln.x=%r below lower by %r' % (s.x.tolist(), float(np.max(lb - s.x))))
        if ub is not None and not np.all(s.x <= ub):
            out.append('soln.x=%r above upper by %r' % (s.x.tolist(), float(np.max(s.x - ub))))
    return out


def maxfun_of(rec):
    mf = rec.sc.get('maxfun')
    if mf is None:
        n = rec.sc['n']
        mf = min(100 * (n + 1), 1000)
    return mf


def m_C02(rec):
    out = []
    s = rec.soln
    N = len(rec.calls)
    mf = maxfun_of(rec)
    if N > mf:
        out.append('%d calls > maxfun=%d' % (N, mf))
    if s is not None and s.nf != N:
        out.append('soln.nf=%r but %d calls' % (s.nf, N))
    if s is not None and s.flag == INPUT_ERROR:
        if N:
            out.append('evaluations made before an input error')
        return out
    if rec.sc.get('do_logging') is not False:
        ev = [e[1] for e in rec.logs]
        if ev != list(range(1, len(ev) + 1)):
            out.append('log evaluation numbers not 1,2,...: %r' % (ev[:60],))
        pt = [e[2] for e in rec.logs]
        if rec.exc is None and len(ev) != N:
            out.append('%d log records for %d calls' % (len(ev), N))
        if pt:
            if pt[0] != 1 or any(not (0 <= b - a <= 1) for a, b in zip(pt, pt[1:])):
                out.append('log point numbers not 1,2,... without gaps: %r' % (pt[:60],))
            elif s is not None and s.nx != pt[-1]:
                out.append('soln.nx=%r but last point number %r' % (s.nx, pt[-1]))
            if rec.logs_ok:
                for p in rec.points():
                    xs = [rec.calls[e - 1][0] for e in p['evals'] if e - 1 < N]
                    if any(not np.array_equal(x, xs[0]) for x in xs):
                        out.append('calls sharing point %d got different x' % p['pt'])
        # sample counts
        if rec.logs_ok and rec.exc is None and s is not None:
            want = 1
            cur, res, seen = None, [], None
            pend = None
            for e in rec.events:
                if e[0] == 'ns':
                    want = max(1, int(e[1]))
                elif e[0] == 'log':
                    if e[2] != cur:
                        cur = e[2]
                        res.append([cur, want, 0])
                    res[-1][2] += 1
            has_ns = rec.sc.get('nsamples') is not None
            for i, (p, w, c) in enumerate(res):
                if not has_ns:
                    w = 1
                if c != w and not (i == len(res) - 1 and c < w and N >= mf):
                    out.append('point %d got %d samples, nsamples asked for %d' % (p, c, w))
                    break
    if s is not None and not averaging(rec) and rec.sc.get('nsamples') is None and s.nx != s.nf:
        out.append('no averaging but nx=%r nf=%r' % (s.nx, s.nf))
    return out


def x_tol(rec):
    xs = [np.max(np.abs(c[0])) if len(c[0]) else 0.0 for c in rec.calls]
    big = max([1.0] + [v for v in xs if np.isfinite(v)])
    if rec.sc.get('scaling'):
        big = max(big, float(np.max(np.array(rec.sc['upper']) - np.array(rec.sc['lower']))))
    return 1e-11 * big


def m_C03(rec):
    out = []
    s = rec.soln
    if s is None or s.flag == INPUT_ERROR:
        return out
    pts = rec.points()
    try:
        k = int(s.xmin_eval_num)
    except Exception:
        return ['xmin_eval_num=%r' % (s.xmin_eval_num,)]
    if not (1 <= k <= len(pts)) or pts[k - 1]['pt'] != k:
        return ['xmin_eval_num=%r is not an evaluation point (1..%d)' % (k, len(pts))]
    p = pts[k - 1]
    tol = x_tol(rec)
    if s.x is None or np.shape(s.x) != p['x'].shape or not np.all(np.abs(s.x - p['x']) <= tol):
        out.append('soln.x=%r but evaluation point %d was %r' % (None if s.x is None else s.x.tolist(), k, p['x'].tolist()))
    mr = mean_resid(p['rs'])
    if s.resid is None or s.resid.shape != mr.shape or not close(s.resid, mr, 1e-10):
        out.append('soln.resid=%r but mean residual at point %d is %r' % (None if s.resid is None else s.resid.tolist(), k, mr.tolist()))
    else:
        want = obj_of(s.resid, s.x, rec.h, rec.argsh)
        want2 = obj_of(s.resid, p['x'], rec.h, rec.argsh)
        rt = 1e-9
        if not close(float(s.obj), want, rt) and not close(float(s.obj), want2, rt):
            out.append('soln.obj=%r but sum(resid^2)+h(x)=%r' % (float(s.obj), want))
    return out


def close(a, b, rtol):
    a = np.asarray(a, dtype=float); b = np.asarray(b, dtype=float)
    with np.errstate(all='ignore'):
        ok = (a == b) | (np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= rtol * (1e-300 + np.maximum(np.abs(a), np.abs(b)))) \
            | (np.abs(a - b) <= rtol * 1e-3)
    return bool(np.all(ok))


def point_objs(rec):
    res = []
    for p in rec.points():
        if any(r is None for r in p['rs']):
            continue
        res.append((p['pt'], obj_of(mean_resid(p['rs']), p['x'], rec.h, rec.argsh)))
    return res


def m_C04(rec):
    s = rec.soln
    if s is None or s.flag == INPUT_ERROR or averaging(rec):
        return []
    out = []
    objs = [(k, v) for (k, v) in point_objs(rec) if not math.isnan(v)]
    if not objs:
        return out
    kb, best = min(objs, key=lambda t: t[1])
    tol = 1e-9 * max(1e-300, abs(best)) + 1e-14
    if math.isinf(best):
        return out
    if not (float(s.obj) <= best + tol):
        out.append('soln.obj=%r but evaluation point %d had objective %r' % (float(s.obj), kb, best))
    return out


def m_C08(rec):
    out = []
    s = rec.soln
    if rec.hang:
        return ['solve did not terminate within the time limit']
    if rec.user_exc is not None:
        if rec.exc is not rec.user_exc:
            out.append('user exception not propagated unchanged: got %r' % (rec.exc,))
        # no call after the raising one
        if rec.calls and rec.calls[-1][1] is not None:
            out.append('further evaluations after the user exception')
        if sum(1 for c in rec.calls if c[1] is None) != 1:
            out.append('more than one evaluation after the fault')
        return out
    if rec.exc is not None:
        return ['solve raised %r (bad objective values)' % (rec.exc,)]
    if s is None or s.flag == INPUT_ERROR:
        return out
    out += ['[bounds] ' + v for v in m_C01(rec)]
    out += ['[budget] ' + v for v in m_C02(rec)]
    if s.x is None or not np.all(np.isfinite(s.x)):
        out.append('returned x not finite: %r' % (s.x,))
    else:
        tol = x_tol(rec)
        if not any(np.all(np.abs(s.x - p['x']) <= tol) for p in rec.points()):
            out.append('returned x was never evaluated')
    for p in rec.points():
        if not np.all(np.isfinite(p['x'])):
            out.append('objective evaluated at non-finite x (point %d)' % p['pt'])
            break
    if not averaging(rec):
        objs = [v for (k, v) in point_objs(rec) if np.isfinite(v)]
        if objs:
            best = min(objs)
            if not np.isfinite(s.obj):
                out.append('soln.obj=%r although a finite objective %r was seen' % (float(s.obj), best))
            elif not (s.obj <= best + 1e-9 * abs(best) + 1e-14):
                out.append('soln.obj=%r worse than best finite %r' % (float(s.obj), best))
    else:
        objs = [v for (k, v) in point_objs(rec) if np.isfinite(v)]
        if objs and not np.isfinite(s.obj):
            out.append('soln.obj=%r although a finite averaged objective %r was seen' % (float(s.obj), min(objs)))
    return out


def m_C09(rec):
    if not rec.projs:
        return []
    out = []
    pts = rec.points()
    projs = list(rec.projs)
    n = rec.sc['n']
    lb = rec.lb if rec.lb is not None else -1e20 * np.ones(n)
    ub = rec.ub if rec.ub is not None else 1e20 * np.ones(n)
    tol = (rec.sc.get('params') or {}).get('dykstra.d_tol', 1e-10)
    for i, p in enumerate(pts):
        x = p['x']
        if not (np.all(x >= lb) and np.all(x <= ub)):
            out.append('point %d violates the bound box by %r' % (p['pt'], float(max(np.max(lb - x), np.max(x - ub)))))
            break
        matches = [d for d in rec.dyk if np.array_equal(d[0], x)]
        if not matches:   # equal up to rounding of the base-point arithmetic
            matches = [d for d in rec.dyk if np.max(np.abs(d[0] - x)) <= 1e-11 * (1 + np.max(np.abs(x)))]
        if not matches:
            if i == 0:
                ds = [q.dist(x) for q in projs]
                if max(ds) > 1e-12 * (1 + np.max(np.abs(x))):
                    out.append('first evaluation is not a projection output and violates a set by %r' % max(ds))
                    break
                continue
            out.append('point %d is not an output of the projection routine: %r' % (p['pt'], x.tolist()))
            break
        full = [d for d in matches if d[1] == len(projs) + 1]
        if not full:
            out.append('point %d was projected onto %d sets, expected %d' % (p['pt'], matches[-1][1], len(projs) + 1))
            break
        if any(d[3] for d in full):
            lim = math.sqrt(len(full) and (len(projs) + 1) * tol) * (1 + 1e-9) + 1e-13 * (1 + np.max(np.abs(x)))
            for q, spec in zip(projs, rec.sc['projections']):
                if q.dist(x) > lim:
                    out.append('point %d is %r from set %r, allowed %r' % (p['pt'], q.dist(x), spec['kind'], lim))
                    break
    return out


def m_C10(rec):
    out = []
    s = rec.soln
    if s is None or s.flag == INPUT_ERROR:
        return out
    params = rec.sc.get('params') or {}
    msg = s.msg
    if s.flag == SUCCESS and 'sufficiently small' in msg:
        objs = point_objs(rec)
        f0s = [objs[0][1]] if objs else [0.0]
        if not deterministic(rec):
            f0s = [v for (_, v) in objs]       # a restarted run may re-sample its own starting point
        thr = max(params.get('model.abs_tol', 1e-12), params.get('model.rel_tol', 1e-20) * max(f0s))
        if not (s.obj <= thr * (1 + 1e-9) + 1e-300):
            out.append("'sufficiently small' but obj=%r > %r" % (float(s.obj), thr))
    if s.flag == SUCCESS and 'rho has reached rhoend' in msg:
        df = s.diagnostic_info
        if df is not None and len(df):
            rho = float(df['rho'].iloc[-1])
            nr = s.nruns - 1
            want = rec.sc['rhoend']
            for _ in range(nr):
                want = params.get('restarts.rhoend_scale', 1.0) * want
            if abs(rho - want) > 1e-12 * want:
                out.append("'rho has reached rhoend' but rho=%r, rhoend=%r" % (rho, want))
    if s.flag == MAXFUN and s.nf != maxfun_of(rec):
        out.append('max-evaluations warning but nf=%r, maxfun=%r' % (s.nf, maxfun_of(rec)))
    if s.flag == MAXFUN and len(rec.calls) != maxfun_of(rec):
        out.append('max-evaluations warning after %d calls, maxfun=%r' % (len(rec.calls), maxfun_of(rec)))
    if 'maximum number of unsuccessful restarts' in msg:
        k = params.get('restarts.max_unsuccessful_restarts', 10)
        if s.nruns < k:
            out.append("'maximum number of unsuccessful restarts' with nruns=%r < %r" % (s.nruns, k))
        use = params.get('restarts.use_restarts', bool(rec.sc.get('noise_flag')))
        if not use:
            out.append("'maximum number of unsuccessful restarts' although restarts are disabled")
    if rec.sc.get('do_logging') is not False:
        begun = 0; completed = 0; soft_open = False
        for e in rec.events:
            if e[0] == 'restart':
                begun += 1
                if e[1] == 'hard':
                    completed += 1
                    soft_open = False
                else:
                    soft_open = True
            elif e[0] == 'iter' and soft_open:
                completed += 1
                soft_open = False
        if begun - completed <= 1 and not (completed <= s.nruns - 1 <= begun):
            out.append('nruns=%r but %d restarts begun (%d completed)' % (s.nruns, begun, completed))
    if s.flag == SUCCESS and not np.isfinite(s.obj):
        out.append('success flag with objective %r (%s)' % (float(s.obj), msg))
    return out


COLS = ['fk', 'rho', 'delta', 'norm_sk', 'npt', 'interpolation_error', 'interpolation_condition_number',
        'interpolation_change_J_norm', 'interpolation_total_residual', 'poisedness', 'max_distance_xk', 'norm_gk',
        'nruns', 'nf', 'nx', 'nsamples', 'iter_this_run', 'iters_total', 'iter_type', 'ratio', 'slow_iter']


def m_C18(rec):
    out = []
    s = rec.soln
    if s is None or s.flag == INPUT_ERROR or s.diagnostic_info is None:
        return out
    df = s.diagnostic_info
    params = rec.sc.get('params') or {}
    want = list(COLS)
    if params.get('logging.save_xk'):
        want.append('xk')
    if params.get('logging.save_rk'):
        want.append('rk')
    if sorted(df.columns) != sorted(want):
        out.append('columns %r' % (sorted(set(df.columns) ^ set(want)),))
        return out
    if len(df) == 0:
        return out
    delta = df['delta'].to_numpy(dtype=float); rho = df['rho'].to_numpy(dtype=float)
    nruns = df['nruns'].to_numpy(); nf = df['nf'].to_numpy(); nx = df['nx'].to_numpy()
    npt = df['npt'].to_numpy(); it = df['iters_total'].to_numpy(); itr = df['iter_this_run'].to_numpy()
    fk = df['fk'].to_numpy(dtype=float)
    rb, re = rec.sc['rhobeg'], rec.sc['rhoend']
    scale = params.get('restarts.rhoend_scale', 1.0)
    if list(it) != list(range(len(df))):
        out.append('iters_total not consecutive')
    if np.any(~(delta >= rho)):
        i = int(np.argmax(~(delta >= rho)))
        out.append('row %d: delta=%r < rho=%r' % (i, delta[i], rho[i]))
    if np.any(~(rho > 0)):
        out.append('rho not positive')
    if np.any(~(rho <= rb * (1 + 1e-14))):
        i = int(np.argmax(~(rho <= rb * (1 + 1e-14))))
        out.append('row %d: rho=%r > rhobeg=%r' % (i, rho[i], rb))
    ends = np.array([re * scale ** int(k) for k in nruns])
    bad = ~(rho >= ends * (1 - 1e-12))
    if np.any(bad):
        i = int(np.argmax(bad))
        out.append('row %d: rho=%r < rhoend=%r' % (i, rho[i], ends[i]))
    if np.any(~(delta <= max(1e10, rb))):
        out.append('delta > 1e10')
    for i in range(1, len(df)):
        if nruns[i] == nruns[i - 1]:
            if rho[i] > rho[i - 1] and not params.get('growing.reset_rho'):
                out.append('row %d: rho increased within a run: %r -> %r' % (i, rho[i - 1], rho[i])); break
            if itr[i] <= itr[i - 1]:
                out.append('row %d: iter_this_run %r -> %r' % (i, itr[i - 1], itr[i])); break
            if deterministic(rec) and not averaging(rec) and fk[i] > fk[i - 1] * (1 + 1e-12) + 1e-300:
                out.append('row %d: best objective increased within a run: %r -> %r' % (i, fk[i - 1], fk[i])); break
        elif nruns[i] < nruns[i - 1]:
            out.append('nruns decreased'); break
    for nm, col, lim in (('nf', nf, s.nf), ('nx', nx, s.nx), ('nruns', nruns, s.nruns)):
        if np.any(np.diff(col) < 0):
            out.append('%s decreasing' % nm)
        if np.any(col > lim):
            out.append('%s exceeds final value' % nm)
    npt_max = rec.sc.get('npt') or rec.sc['n'] + 1
    if params.get('restarts.increase_npt'):
        npt_max = max(npt_max, params.get('restarts.max_npt', npt_max))
    if np.any(npt < 2) or np.any(npt > npt_max):
        out.append('npt outside [2,%d]: %r' % (npt_max, sorted(set(npt.tolist()))))
    # one row per iteration: every fit of the model that is followed by a step gets a row
    nit = sum(1 for e in rec.events if e[0] == 'iter')
    if nit and not (len(df) <= nit):
        out.append('%d rows for %d iterations' % (len(df), nit))
    return out


FLAGS_DOC = {5: 'EXIT_TR_INCREASE_WARNING', 3: 'EXIT_FALSE_SUCCESS_WARNING', 2: 'EXIT_SLOW_WARNING', 1: 'EXIT_MAXFUN_WARNING',
             0: 'EXIT_SUCCESS', -1: 'EXIT_INPUT_ERROR', -2: 'EXIT_TR_INCREASE_ERROR', -3: 'EXIT_LINALG_ERROR', -4: 'EXIT_EVAL_ERROR'}


def m_C07(rec):
    out = []
    if rec.hang:
        return ['solve did not return within the time limit']
    if rec.user_exc is not None:
        return out
    if rec.exc is not None:
        return ['solve raised %r' % (rec.exc,)]
    s = rec.soln
    names = [a for a in FLAGS_DOC.values() if not hasattr(s, a)]
    if names:
        out.append('result lacks constants %r' % (names,))
    vals = dict((getattr(s, a), a) for a in FLAGS_DOC.values() if hasattr(s, a))
    if s.flag not in vals:
        out.append('flag %r is not a documented exit code (msg %r)' % (s.flag, s.msg))
    if not isinstance(s.msg, str) or not s.msg.strip() or 'Unknown exit flag' in s.msg:
        out.append('message %r' % (s.msg,))
    try:
        t = str(s)
        if not t:
            out.append('empty str()')
    except Exception as e:
        out.append('str(soln) raised %r' % (e,))
    if s.flag == INPUT_ERROR and s.nf != 0:
        out.append('input error with nf=%r' % (s.nf,))
    return out


def lin_fit(X, R, xk):
    W = np.hstack([np.ones((X.shape[0], 1)), X - xk])
    return W


def m_C11(rec):
    s = rec.soln
    if s is None or s.flag == INPUT_ERROR or s.jacobian is None or rec.projs:
        return []
    params = rec.sc.get('params') or {}
    nums = s.jacmin_eval_nums
    n = rec.sc['n']
    pts = rec.points()
    if nums is None:
        if np.any(s.jacobian != 0):
            return ['Jacobian returned without evaluation numbers']
        return []
    nums = [int(v) for v in nums]
    npt = rec.sc.get('npt') or n + 1
    if params.get('growing.ndirs_initial') or params.get('restarts.hard.increase_ndirs_initial_amt'):
        return []   # growing: out of the property's scope (fully initialised set)
    if params.get('restarts.increase_npt') and not params.get('restarts.use_soft_restarts', True):
        return []   # hard restarts with more points than directions: growing phase
    if len(nums) < n + 1:
        return ['only %d evaluation numbers for a Jacobian in dimension %d' % (len(nums), n)]
    if any(not (1 <= k <= len(pts)) for k in nums):
        return ['jacmin_eval_nums=%r not all evaluation points (1..%d)' % (nums, len(pts))]
    if any(any(r is None for r in pts[k - 1]['rs']) for k in nums):
        return []
    X = np.array([pts[k - 1]['x'] for k in nums]); R = np.array([mean_resid(pts[k - 1]['rs']) for k in nums])
    if not np.all(np.isfinite(R)) or np.max(np.abs(R)) > 1e100:
        return []
    if rec.sc.get('scaling'):
        sh = np.array(rec.sc['lower']); scl = np.array(rec.sc['upper']) - sh
        Xs = (X - sh) / scl
    else:
        Xs = X; scl = np.ones(n)
    c = Xs[0]
    D = Xs - c
    dmax = np.max(np.linalg.norm(D, axis=1))
    if not dmax > 0:
        return []
    W = np.hstack([np.ones((len(nums), 1)), D / dmax])
    sv = np.linalg.svd(W, compute_uv=False)
    cond = sv[0] / sv[-1] if sv[-1] > 0 else np.inf
    xmag = max(1.0, np.max(np.abs(Xs)))
    eps = 2.3e-16
    pert = eps * (xmag / dmax + 1.0)          # relative perturbation of rows
    if not np.isfinite(cond) or cond * pert * 1e3 > 1e-2:
        return []
    sol = np.linalg.lstsq(W, R, rcond=None)[0]
    J = (sol[1:] / dmax).T
    rmag = np.max(np.abs(R)) + np.max(np.abs(J)) * dmax
    tol = 2e3 * eps * cond ** 2 * rmag / dmax + 1e3 * cond ** 2 * pert * (np.max(np.abs(J)) + rmag / dmax)
    Js = s.jacobian * scl     # scaled-space Jacobian
    if Js.shape != J.shape:
        return ['Jacobian has shape %r, expected %r' % (Js.shape, J.shape)]
    err = np.max(np.abs(Js - J))
    if not err <= tol:
        return ['Jacobian differs from the fit through points %r by %g (allowed %g): %r vs %r' % (
            nums, err, tol, Js.tolist(), J.tolist())]
    return []


def m_C14(rec):
    """initial set, default coordinate initialisation, no projections, no scaling"""
    params = rec.sc.get('params') or {}
    if rec.projs or rec.sc.get('scaling') or params.get('init.random_initial_directions') or params.get('growing.ndirs_initial'):
        return []
    s = rec.soln
    if s is None or s.flag == INPUT_ERROR:
        return []
    n = rec.sc['n']; npt = rec.sc.get('npt') or n + 1
    if npt > (n + 1) * (n + 2) // 2 or not deterministic(rec) and False:
        return []
    pts = rec.points()
    if len(pts) < 1:
        return []
    out = []
    x0 = np.array(rec.sc['x0'], dtype=float)
    if rec.lb is not None:
        x0 = np.maximum(x0, rec.lb)
    if rec.ub is not None:
        x0 = np.minimum(x0, rec.ub)
    if not np.array_equal(pts[0]['x'], x0):
        out.append('first evaluation %r is not the projected x0 %r' % (pts[0]['x'].tolist(), x0.tolist()))
        return out
    first = pts[:npt]
    # an early exit (small objective, NaN) may cut the list short
    rb = rec.sc['rhobeg']
    for p in first[1:]:
        d = np.linalg.norm(p['x'] - x0)
        if not (0.01 * rb * (1 - 1e-9) <= d <= 2 * rb * (1 + 1e-9)):
            out.append('initial point %d at distance %r*rhobeg from x0' % (p['pt'], d / rb))
        if rec.lb is not None and np.any(p['x'] < rec.lb) or rec.ub is not None and np.any(p['x'] > rec.ub):
            out.append('initial point %d outside the bounds' % p['pt'])
    if out:
        return out
    # (the run must have completed its initialisation)
    if len(pts) >= npt and any(e[0] == 'iter' for e in rec.events):
        D = (np.array([p['x'] for p in first]) - x0) / rb
        W = np.hstack([np.ones((npt, 1)), D])
        c = np.linalg.cond(W)
        if not c < 1e4:
            out.append('condition number of the initial interpolation matrix %g' % c)
    return out


MONITORS = dict(C01=m_C01, C02=m_C02, C03=m_C03, C04=m_C04, C07=m_C07, C08=m_C08, C09=m_C09, C10=m_C10, C11=m_C11,
                C14=m_C14, C18=m_C18)


# ---- per-iteration hook (every-iteration forms of C03/C04/C17) ----
def iter_hook(rec, model):
    if rec.iter_viol or rec.nsnap > 60:
        return
    rec.build()
    pts = rec.points()
    if not rec.logs_ok:
        return
    npt = model.npt()
    sc = model.scaling_changes
    from dfols.util import remove_scaling
    tol = x_tol(rec)
    best = None
    if getattr(rec, '_model', None) is not model:  # a new run (hard restart) has its own model, which only knows its own points
        rec._model = model
        rec._run_pts = (int(model.eval_num[0]), min([int(e) for e in model.eval_num[1:npt]] + [10 ** 9]))
    for (kk, p) in enumerate(pts):
        if kk + 1 != rec._run_pts[0] and kk + 1 < rec._run_pts[1]:
            continue
        v = obj_of(mean_resid(p['rs']), p['x'], rec.h, rec.argsh)
        if not math.isnan(v) and (best is None or v < best):
            best = v
    ent = []
    for k in range(npt):
        ent.append((int(model.eval_num[k]), model.xpt(k, abs_coordinates=True), model.fval_v[k, :], float(model.objval[k]),
                    'point %d' % k, int(model.nsamples[k])))
    if model.objsave is not None:
        ent.append((int(model.eval_num_save), model.xsave, model.rsave, float(model.objsave), 'saved point', int(model.nsamples_save)))
    for (e, x, r, o, what, nsmp) in ent:
        if not (1 <= e <= len(pts)):
            rec.iter_viol.append(('C03', 'iteration %d: %s carries evaluation number %d of %d' % (rec.nsnap, what, e, len(pts))))
            return
        p = pts[e - 1]
        xx = remove_scaling(x, sc)
        if not np.all(np.abs(xx - p['x']) <= tol):
            rec.iter_viol.append(('C03', 'iteration %d: %s is %r but evaluation point %d was %r' % (rec.nsnap, what, xx.tolist(), e, p['x'].tolist())))
            return
        if not close(r, mean_resid(p['rs']), 1e-10):
            rec.iter_viol.append(('C03', 'iteration %d: %s carries residual %r, recorded mean %r' % (rec.nsnap, what, r.tolist(), mean_resid(p['rs']).tolist())))
            return
        if nsmp != len(p['rs']):
            rec.iter_viol.append(('C17', 'iteration %d: %s has sample count %d, actually %d' % (rec.nsnap, what, nsmp, len(p['rs']))))
            return
        if not close(o, obj_of(r, xx, rec.h, rec.argsh), 1e-9):
            rec.iter_viol.append(('C03', 'iteration %d: %s carries objective %r, sum(r^2)+h=%r' % (rec.nsnap, what, o, obj_of(r, xx, rec.h, rec.argsh))))
            return
    if not averaging(rec) and best is not None and math.isfinite(best):
        have = [float(model.objopt())] + ([float(model.objsave)] if model.objsave is not None else [])
        have = [v for v in have if not math.isnan(v)]
        slack = 1e-9 * abs(best) + 1e-14
        if not have or min(have) > best + slack:
            rec.iter_viol.append(('C04', 'iteration %d: incumbent/saved %r but a point with objective %r was evaluated' % (rec.nsnap, have, best)))


# ---- C16 inside runs: the model just fitted satisfies the fit identities on the current point set ----
def after_fit(rec, model, res, a, k):
    if not (isinstance(res, tuple) and res[0]) or getattr(rec, '_nfit', 0) > 40:
        return
    rec._nfit = getattr(rec, '_nfit', 0) + 1
    if k.get('make_full_rank'):
        return     # conditioning floors may legitimately be active
    if rec.projs:
        return     # stored points are only projected approximately
    if not np.all(np.isfinite(model.fval_v[:model.npt(), :])) or np.max(np.abs(model.fval_v[:model.npt(), :])) > 1e6:
        return
    from . import comp
    for v in comp._c16_check(model, model.n(), model.m()):
        rec.iter_viol.append(('C16', 'fit %d: %s' % (rec._nfit, v)))
        break


# ---- C12/C13 inside runs: the step handed to the main loop ----
def tr_hook(rec, ctrl, res):
    d, gopt, H, gnew, crvmin = res
    if not np.all(np.isfinite(d)):
        if np.all(np.isfinite(gopt)) and np.all(np.isfinite(H)) and np.max(np.abs(gopt)) < 1e100 and np.max(np.abs(H)) < 1e100:
            rec.iter_viol.append(('C13', 'step %r not finite' % (d.tolist(),)))
        return
    delta = ctrl.delta
    nd = float(np.linalg.norm(d))
    m = ctrl.model
    x = m.xopt(abs_coordinates=True)
    if nd > delta * (1 + 1e-8) + 1e-14 * np.linalg.norm(x):
        rec.iter_viol.append(('C13' if (rec.projs or rec.h is not None) else 'C12', '||d||=%.17g > delta=%.17g' % (nd, delta)))
    big = max(np.max(np.abs(gopt)), np.max(np.abs(H)))
    if rec.h is not None and big < 1e100:
        from dfols.util import remove_scaling
        with np.errstate(all='ignore'):
            f0 = rec.h(remove_scaling(x, ctrl.scaling_changes), *rec.argsh)
            f1 = rec.h(remove_scaling(x + d, ctrl.scaling_changes), *rec.argsh) + gopt.dot(d) + 0.5 * d.dot(H).dot(d)
        if f1 > f0 + 1e-12 * (abs(f0) + abs(f1) + np.linalg.norm(gopt) * nd + np.linalg.norm(H) * nd * nd):
            rec.iter_viol.append(('C13', 'regularised step has predicted reduction %.6e < 0' % (f0 - f1)))
