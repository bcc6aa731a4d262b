"""JSON-able problem specifications -> callables.  Everything is a deterministic function of the spec."""
import math
import numpy as np


class UserFault(Exception):
    """Raised by the objective in fault-injection scenarios; must propagate unchanged."""


EXCS = ['UserFault', 'ArithmeticError', 'OverflowError', 'FloatingPointError', 'ZeroDivisionError', 'ValueError', 'TypeError', 'KeyError', 'IndexError', 'RuntimeError',
        'LinAlgError', 'AttributeError', 'AssertionError', 'MemoryError', 'StopIteration', 'OSError', 'RecursionError', 'KeyboardInterrupt', 'SystemExit', 'BaseException']


def make_exc(name, msg):
    """The exception the objective raises: any class, so that no handler meant for something else may swallow it."""
    if name in (None, 'UserFault'):
        return UserFault(msg)
    base = np.linalg.LinAlgError if name == 'LinAlgError' else getattr(__import__('builtins'), name)
    return base(msg)


def make_residual(spec, n):
    """Returns r(x, k) where k is the 1-based call index (used only by noisy / fault specs)."""
    kind = spec['kind']
    rs = np.random.RandomState(spec.get('seed', 0))
    m = spec.get('m', n)
    if kind == 'linear':
        A = rs.randn(m, n)
        if m >= n:
            A = A + 2.0 * np.eye(m, n)
        b = rs.randn(m) * spec.get('bscale', 1.0)
        if spec.get('consistent'):
            b = A.dot(np.array(spec.get('xstar', list(rs.randn(n)))))
        base = lambda x: A.dot(x) - b
        base.A = A
    elif kind == 'rosen':
        def base(x):
            out = []
            for i in range(n - 1):
                out += [10.0 * (x[i + 1] - x[i] ** 2), 1.0 - x[i]]
            if n == 1:
                out = [x[0] ** 2 - 2.0, x[0] - 1.0]
            return np.array(out)
    elif kind == 'smooth':
        A = rs.randn(m, n)
        b = rs.randn(m)
        c = rs.randn(m)
        def base(x):
            return A.dot(x) - b + c * np.sin(A.dot(x)) + 0.1 * np.sum(x ** 2)
    elif kind == 'expfit':
        t = np.linspace(0.0, 1.0, m)
        w = rs.rand(n) * 2
        y = np.exp(-t * w[0]) + (0 if n < 2 else w[1]) * t
        def base(x):
            v = np.exp(np.clip(-t * x[0], -50, 50))
            if n > 1:
                v = v + x[1] * t
            if n > 2:
                v = v + np.sum(x[2:] ** 2) * 0.3
            return v - y
    elif kind == 'const':
        c = rs.randn(m) * spec.get('cscale', 1.0)
        base = lambda x: c.copy()
    elif kind == 'steps':
        A = rs.randn(m, n)
        base = lambda x: np.floor(3.0 * A.dot(x)) / 3.0 + 0.1
    elif kind == 'nonsmooth':
        A = rs.randn(m, n)
        b = rs.randn(m)
        base = lambda x: np.abs(A.dot(x) - b) + 0.05
    elif kind == 'away':     # pushes against the bounds: minimiser far away
        sgn = np.sign(rs.randn(n)); sgn[sgn == 0] = 1.0
        far = spec.get('far', 50.0)
        A = np.eye(n) + 0.1 * rs.randn(n, n)
        base = lambda x: A.dot(x - far * sgn)
    elif kind == 'cubic':
        A = rs.randn(m, n)
        b = rs.randn(m)
        base = lambda x: (A.dot(x) - b) ** 3 + 0.3 * (A.dot(x) - b)
    elif kind == 'flat':     # does not change along x[0] (to first order around x0 nothing changes at all)
        c = np.array([3.0] + [1.0 + rs.randint(3) for _ in range(m - 1)])
        def base(x):
            v = c.copy()
            v[0] += np.sum(x[1:] ** 2)
            return v
    elif kind == 'mixscale':
        s = 10.0 ** rs.randint(-3, 4, size=n)
        A = rs.randn(m, n)
        b = rs.randn(m)
        base = lambda x: A.dot(x / s) - b + 0.05 * np.cos(x[0] / s[0])
    else:
        raise ValueError(kind)

    noise = spec.get('noise', 0.0)
    mult = spec.get('mult_noise', 0.0)
    nseed = spec.get('nseed', 1)
    fault = spec.get('fault')

    def r(x, k):
        v = np.array(base(x), dtype=float)
        if noise or mult:
            g = np.random.RandomState((nseed * 1000003 + k) % (2 ** 32)).randn(len(v))
            v = v * (1.0 + mult * g) + noise * g
        if fault is not None:
            at = fault['at']
            hit = (at == 'all') or (at == 'after' and k >= fault['k']) or (at == 'one' and k == fault['k']) \
                or (at == 'list' and k in fault['ks']) \
                or (at == 'region' and float(np.sum(x)) > fault['t']) \
                or (at == 'before' and k < fault['k'])
            if hit:
                what = fault['what']
                if what == 'raise':
                    raise make_exc(fault.get('exc'), 'user fault at call %d' % k)
                val = {'nan': np.nan, 'inf': np.inf, '-inf': -np.inf, 'big': 1e200, 'big2': 1e160, '-big': -1e300,
                       'edge': 1.3e154}[what]
                if fault.get('comp', 'all') == 'all':
                    v = np.full_like(v, val)
                else:
                    v[int(fault['comp']) % len(v)] = val
        return v
    r.base = base
    return r


def make_h(spec):
    """regulariser spec -> (h, lh, prox, argsh, argsprox)"""
    if spec is None:
        return None, None, None, (), ()
    kind = spec['kind']
    lam = spec.get('lam', 0.1)
    n = spec['n']
    if kind == 'l1':
        h = lambda x, *a: float((a[0] if a else lam) * np.sum(np.abs(x)))
        prox = lambda x, u, *a: np.sign(x) * np.maximum(np.abs(x) - u * (a[0] if a else lam), 0.0)
        lh = lam * math.sqrt(n)
    elif kind == 'l2':
        h = lambda x, *a: float((a[0] if a else lam) * np.linalg.norm(x))
        def prox(x, u, *a):
            l = a[0] if a else lam
            nx = np.linalg.norm(x)
            return x * max(0.0, 1.0 - u * l / nx) if nx > 0 else x.copy()
        lh = lam
    elif kind == 'l1c':     # centred l1
        c = np.array(spec['c'])
        h = lambda x, *a: float((a[0] if a else lam) * np.sum(np.abs(x - c)))
        prox = lambda x, u, *a: c + np.sign(x - c) * np.maximum(np.abs(x - c) - u * (a[0] if a else lam), 0.0)
        lh = lam * math.sqrt(n)
    else:
        raise ValueError(kind)
    args = (lam,) if spec.get('use_args') else ()
    return h, lh, prox, args, args


def make_proj(spec):
    kind = spec['kind']
    if kind == 'ball':
        c = np.array(spec['c'], dtype=float); rad = float(spec['r'])
        def p(x):
            d = x - c
            nd = np.linalg.norm(d)
            return x.copy() if nd <= rad else c + (rad / nd) * d
        def dist(x):
            return max(0.0, float(np.linalg.norm(x - c)) - rad)
    elif kind == 'half':
        a = np.array(spec['a'], dtype=float); b = float(spec['b'])
        a2 = float(a.dot(a))
        def p(x):
            v = float(a.dot(x)) - b
            return x.copy() if v <= 0 else x - (v / a2) * a
        def dist(x):
            return max(0.0, (float(a.dot(x)) - b) / math.sqrt(a2))
    elif kind == 'box':
        l = np.array(spec['l'], dtype=float); u = np.array(spec['u'], dtype=float)
        p = lambda x: np.minimum(np.maximum(x, l), u)
        dist = lambda x: float(np.linalg.norm(x - p(x)))
    elif kind == 'affine':
        a = np.array(spec['a'], dtype=float); b = float(spec['b'])
        a2 = float(a.dot(a))
        p = lambda x: x - ((float(a.dot(x)) - b) / a2) * a
        dist = lambda x: abs((float(a.dot(x)) - b) / math.sqrt(a2))
    else:
        raise ValueError(kind)
    p.dist = dist
    return p


def make_nsamples(spec):
    if spec is None:
        return None
    kind = spec['kind']
    if kind == 'const':
        k = spec['k']
        return lambda delta, rho, it, nruns: k
    if kind == 'iter':
        return lambda delta, rho, it, nruns: 1 + (it % spec['k'])
    if kind == 'delta':
        return lambda delta, rho, it, nruns: int(min(spec['k'], max(1, round(0.1 / delta))))
    if kind == 'runs':
        return lambda delta, rho, it, nruns: nruns + 1
    if kind == 'zero':
        return lambda delta, rho, it, nruns: 0
    if kind == 'float':
        return lambda delta, rho, it, nruns: spec['k']
    raise ValueError(kind)
