"""Runs one scenario on the real dfols code from /repo and records what a user can observe."""
import os, sys, re, signal, logging, warnings, copy, io, contextlib, math
REPO = os.environ.get('VERIF_REPO', '/repo')
if REPO not in sys.path:
    sys.path.insert(0, REPO)
import numpy as np
from . import problems


class HangError(BaseException):
    pass


class Timer(object):
    def __init__(self, secs):
        self.secs = secs
    def __enter__(self):
        def h(sig, frm):
            raise HangError()
        self.old = signal.signal(signal.SIGPROF, h)   # CPU time, so a loaded machine cannot look like a hang
        signal.setitimer(signal.ITIMER_PROF, self.secs)
    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, self.old)
        return False


class Rec(object):
    """Everything recorded in one run."""
    def __init__(self, sc):
        self.sc = sc
        self.calls = []      # (x copy, r copy or None)
        self.events = []     # ('call', k) ('log', i, j) ('ns', v) ('restart', kind) ('iter',) ('dyk', idx)
        self.dyk = []        # (output copy, p, tol, met_rule, sweeps, max_iter, is_box_last)
        self.iter_viol = []  # (prop, message) from the per-iteration hook
        self.soln = None
        self.exc = None
        self.hang = False
        self.stdout_err = None
        self.nsnap = 0

    # points: list of dict(pt, x, rs, calls)
    def points(self):
        return self._points

    def build(self):
        logs = [e for e in self.events if e[0] == 'log']
        self.logs = logs
        pts = []
        ok = len(logs) == len(self.calls) or (self.exc is not None and len(logs) == len(self.calls) - 1)
        self.logs_ok = ok
        if ok and len(logs):
            last = None
            for (e, (x, r)) in zip(logs, self.calls):
                if last is None or e[2] != last:
                    pts.append(dict(pt=e[2], x=x, rs=[], evals=[]))
                    last = e[2]
                pts[-1]['rs'].append(r)
                pts[-1]['evals'].append(e[1])
        elif len(self.calls):
            # no log available: consecutive identical x are one point
            for k, (x, r) in enumerate(self.calls):
                if not pts or not np.array_equal(pts[-1]['x'], x):
                    pts.append(dict(pt=len(pts) + 1, x=x, rs=[], evals=[]))
                pts[-1]['rs'].append(r)
                pts[-1]['evals'].append(k + 1)
        self._points = pts
        self.hfun = None


LOG_RE = re.compile(r'Function eval (\d+) at point (\d+) ')


class LogHandler(logging.Handler):
    def __init__(self, rec):
        logging.Handler.__init__(self, level=1)
        self.rec = rec
    def emit(self, record):
        try:
            msg = record.getMessage()
        except Exception:
            return
        m = LOG_RE.match(msg)
        if m:
            self.rec.events.append(('log', int(m.group(1)), int(m.group(2))))
        elif msg.startswith('Soft restart [currently'):
            self.rec.events.append(('restart', 'soft'))
        elif msg.startswith('Restarting from finish point'):
            self.rec.events.append(('restart', 'hard'))


def mean_resid(rs):
    a = np.array(rs)
    with np.errstate(all='ignore'):
        return np.mean(a, axis=0)


def obj_of(rvec, x, h, argsh):
    with np.errstate(all='ignore'):
        v = float(np.dot(rvec, rvec))
    if h is not None:
        v += h(x, *argsh)
    return v


def build_args(sc, rec):
    n = sc['n']
    x0 = np.array(sc['x0'], dtype=float)
    lb = None if sc.get('lower') is None else np.array(sc['lower'], dtype=float)
    ub = None if sc.get('upper') is None else np.array(sc['upper'], dtype=float)
    r = problems.make_residual(sc['problem'], n)
    h, lh, prox, argsh, argsprox = problems.make_h(sc.get('reg'))
    projs = [problems.make_proj(p) for p in sc.get('projections', [])]
    ns = problems.make_nsamples(sc.get('nsamples'))

    def objfun(x, *args):
        k = len(rec.calls) + 1
        xc = np.array(x, dtype=float, copy=True)
        rec.events.append(('call', k))
        try:
            v = r(xc.copy(), k)
        except BaseException as e:
            rec.calls.append((xc, None))
            rec.user_exc = e
            raise
        rec.calls.append((xc, v.copy()))
        return v

    nswrap = None
    if ns is not None:
        def nswrap(delta, rho, it, nruns):
            v = ns(delta, rho, it, nruns)
            rec.events.append(('ns', v))
            return v
    kw = {}
    if lb is not None or ub is not None:
        kw['bounds'] = (lb, ub)
    if projs:
        kw['projections'] = projs
    if h is not None:
        kw['h'] = h; kw['lh'] = lh; kw['prox_uh'] = prox; kw['argsh'] = argsh; kw['argsprox'] = argsprox
    for k in ('npt', 'rhobeg', 'rhoend', 'maxfun'):
        if sc.get(k) is not None:
            kw[k] = sc[k]
    if nswrap is not None:
        kw['nsamples'] = nswrap
    if sc.get('scaling'):
        kw['scaling_within_bounds'] = True
    if sc.get('noise_flag'):
        kw['objfun_has_noise'] = True
    if sc.get('params'):
        kw['user_params'] = dict(sc['params'])
    if sc.get('print_progress'):
        kw['print_progress'] = True
    if sc.get('do_logging') is False:
        kw['do_logging'] = False
    if sc.get('argsf'):
        kw['argsf'] = tuple(sc['argsf'])
    return objfun, x0, kw, lb, ub, projs, h, argsh


def wrap_dykstra(rec, undo):
    import dfols.util, dfols.model, dfols.solver, dfols.controller, dfols.trust_region
    real = dfols.util.dykstra
    def wrapped(P, x0, max_iter=100, tol=1e-10, **kw):
        cnt = [0]
        def mk(p):
            def q(w):
                cnt[0] += 1
                return p(w)
            return q
        out = real([mk(p) for p in P], x0, max_iter=max_iter, tol=tol, **kw)
        p = len(P)
        sweeps = cnt[0] // p if p else 0
        rec.dyk.append((np.array(out, copy=True), p, tol, sweeps < max_iter, sweeps, max_iter))
        return out
    for mod in (dfols.util, dfols.model, dfols.solver, dfols.controller, dfols.trust_region):
        if getattr(mod, 'dykstra', None) is real:
            undo.append((mod, 'dykstra', real))
            setattr(mod, 'dykstra', wrapped)


def run(sc, iter_hook=None, timeout=None, want_dyk=None, after_fit=None, tr_hook=None):
    import dfols, dfols.model
    rec = Rec(sc)
    timeout = timeout or sc.get('timeout', 20)
    objfun, x0, kw, lb, ub, projs, h, argsh = build_args(sc, rec)
    rec.lb, rec.ub, rec.projs, rec.h, rec.argsh = lb, ub, projs, h, argsh
    rec.x0_arg, rec.kw = x0, kw
    rec.x0_copy = x0.copy()
    undo = []
    if want_dyk or (want_dyk is None and projs):
        wrap_dykstra(rec, undo)
    M = dfols.model.Model
    real_fit = M.__dict__.get('interpolate_mini_models_svd')
    if real_fit is not None:
        def fit(self, *a, **k):
            rec.nsnap += 1
            rec.events.append(('iter',))
            if iter_hook is not None:
                try:
                    iter_hook(rec, self)
                except HangError:
                    raise
                except Exception as e:   # hook trouble is not a violation
                    rec.events.append(('hookerr', repr(e)))
            res = real_fit(self, *a, **k)
            if after_fit is not None:
                try:
                    after_fit(rec, self, res, a, k)
                except HangError:
                    raise
                except Exception as e:
                    rec.events.append(('hookerr', repr(e)))
            return res
        M.interpolate_mini_models_svd = fit
    import dfols.controller
    CT = dfols.controller.Controller
    real_tr = CT.__dict__.get('trust_region_step')
    if real_tr is not None and tr_hook is not None:
        def trs(self, *a, **k):
            res = real_tr(self, *a, **k)
            try:
                tr_hook(rec, self, res)
            except HangError:
                raise
            except Exception as e:
                rec.events.append(('hookerr', repr(e)))
            return res
        CT.trust_region_step = trs
    lg = logging.getLogger('dfols')
    hd = LogHandler(rec)
    old_level, old_prop = lg.level, lg.propagate
    lg.addHandler(hd); lg.setLevel(logging.INFO); lg.propagate = False
    np.random.seed(sc.get('npseed', 0))
    rec.user_exc = None
    buf = io.StringIO()
    try:
        with warnings.catch_warnings(record=True) as ws, np.errstate(all='ignore'), contextlib.redirect_stdout(buf):
            warnings.simplefilter('ignore')
            with Timer(timeout):
                rec.soln = dfols.solve(objfun, x0, **kw)
    except HangError:
        rec.hang = True
    except BaseException as e:
        if not isinstance(e, Exception) and e is not rec.user_exc:
            raise
        rec.exc = e
        import traceback
        rec.tb = traceback.format_exc()
    finally:
        lg.removeHandler(hd); lg.setLevel(old_level); lg.propagate = old_prop
        if real_fit is not None:
            M.interpolate_mini_models_svd = real_fit
        if real_tr is not None:
            CT.trust_region_step = real_tr
        for (mod, name, val) in undo:
            setattr(mod, name, val)
    rec.build()
    rec.hfun = h
    return rec
