"""Component-level runtime assertion checks: the same contracts as in /verif/contracts, executed on the real functions.
Every function comp_<id>(seed) builds one input from the seed, runs the real code, and returns a list of violations."""
import math, os, sys, json, copy, warnings
from . import runner  # sets sys.path to the repository
import numpy as np
warnings.filterwarnings('ignore')
EPS = np.finfo(float).eps


def rng(seed, tag):
    import zlib
    return np.random.RandomState((zlib.crc32(tag.encode()) + 7919 * seed) % (2 ** 32))


def logu(rs, a, b):
    return float(10.0 ** rs.uniform(a, b))


# ---------------------------------------------------------------- C12
def gen_tr(rs):
    n = rs.randint(1, 9)
    delta = logu(rs, -6, 2)
    g = rs.normal(size=n) * logu(rs, -3, 3)
    for i in range(n):
        if rs.rand() < 0.1:
            g[i] = 0.0
    kind = rs.randint(5)
    hs = logu(rs, -3, 3)
    if kind == 0:
        H = np.zeros((n, n))
    elif kind == 1:
        J = rs.normal(size=(rs.randint(1, n + 1), n)); H = 2 * J.T.dot(J) * hs
    elif kind == 2:
        J = rs.normal(size=(n + 2, n)); H = 2 * J.T.dot(J) * hs
    elif kind == 3:
        A = rs.normal(size=(n, n)); H = (A + A.T) * hs
    else:
        A = np.diag(rs.normal(size=n)); H = A * hs
    if kind == 1 and rs.rand() < 0.5:
        g = 2 * J.T.dot(rs.normal(size=J.shape[0])) * hs
    H = 0.5 * (H + H.T)
    xopt = rs.normal(size=n) * (0.0 if rs.rand() < 0.2 else min(1.0, delta * 1e3))
    lo = np.empty(n); up = np.empty(n)
    for i in range(n):
        for arr, sgn in ((lo, -1.0), (up, 1.0)):
            k = rs.randint(5)
            gap = {0: 0.0, 1: delta * logu(rs, -4, -1), 2: delta * logu(rs, -1, 0.3), 3: 1e20, 4: delta * 10}[k]
            arr[i] = xopt[i] + sgn * gap
        if up[i] <= lo[i]:
            up[i] = lo[i] + delta
    return n, g, H, xopt, lo, up, delta


def comp_C12(seed):
    from dfols.trust_region import trsbox
    rs = rng(seed, 'C12')
    n, g, H, xopt, lo, up, delta = gen_tr(rs)
    out = []
    g0, H0 = g.copy(), H.copy()
    try:
        d, gnew, crvmin = trsbox(xopt, g, H, lo, up, delta)[:3]
    except Exception as e:
        return ['trsbox raised %r' % e]
    if not (np.array_equal(g, g0) and np.array_equal(H, H0)):
        out.append('trsbox modified its inputs')
    if not np.all(np.isfinite(d)):
        return out + ['trsbox step not finite']
    x = xopt + d
    tolb = 4 * EPS * np.maximum(np.abs(xopt), np.abs(x))
    if np.any(x < lo - tolb) or np.any(x > up + tolb):
        out.append('trsbox step violates the box by %.3e' % max(np.max(lo - x), np.max(x - up)))
    nd = np.linalg.norm(d)
    if nd > delta * (1 + 1e-8):
        out.append('trsbox ||d||=%.17g > delta=%.17g' % (nd, delta))
    q = lambda s: float(np.dot(g, s) + 0.5 * np.dot(s, H.dot(s)))
    mag = np.linalg.norm(g) * delta + np.linalg.norm(H, 2) * delta ** 2
    # rounding of d = (xopt + d) - xopt moves the model value by about (|g| + |H| delta) * eps * |x|
    slack = 1e-12 * mag + (np.linalg.norm(g) + np.linalg.norm(H, 2) * delta) * 8 * EPS * (np.linalg.norm(xopt) + delta)
    qd = q(d)
    if qd > slack:
        out.append('trsbox increases the model: %.6e' % qd)
    # steepest descent step (free variables), truncated at the first bound / ball
    s = -g.copy()
    s[(xopt <= lo) & (g >= 0.0)] = 0.0
    s[(xopt >= up) & (g <= 0.0)] = 0.0
    ns = np.linalg.norm(s)
    if ns > 0:
        t = delta / ns
        for i in range(n):
            if s[i] > 0:
                t = min(t, (up[i] - xopt[i]) / s[i])
            elif s[i] < 0:
                t = min(t, (lo[i] - xopt[i]) / s[i])
        shs = float(s.dot(H).dot(s))
        if shs > 0:
            t = min(t, ns ** 2 / shs)
        qc = q(t * s)
        if qd > qc + 1e-9 * abs(qc) + slack:
            out.append('trsbox decrease %.12e less than Cauchy decrease %.12e' % (-qd, -qc))
    gn = g + H.dot(d)
    terr = 1e-8 * (np.linalg.norm(g) + np.linalg.norm(H, 2) * nd) + np.linalg.norm(H, 2) * 16 * EPS * (np.linalg.norm(xopt) + nd)
    if np.linalg.norm(gn - gnew) > terr:
        out.append('trsbox gnew differs from g+Hd by %.3e' % np.linalg.norm(gn - gnew))
    return out


# ---------------------------------------------------------------- C13
def ray_max(c, g, a, b, Delta):
    """Global maximum of |c + g's| over a <= s <= b (a <= 0 <= b), ||s|| <= Delta."""
    best = abs(c)
    for sg in (g, -g):
        cl = lambda t: np.minimum(np.maximum(-t * sg, a), b)
        hi = 1.0
        nz = np.abs(sg) > 0
        if not np.any(nz):
            continue
        hi = Delta / np.min(np.abs(sg[nz])) * 2 + 1
        lim = np.where(sg > 0, a, np.where(sg < 0, b, 0.0))
        if np.linalg.norm(lim) <= Delta:
            s = lim
        else:
            lo = 0.0
            while np.linalg.norm(cl(hi)) < Delta and hi < 1e300:
                hi *= 2
            for _ in range(300):
                mid = 0.5 * (lo + hi)
                if np.linalg.norm(cl(mid)) > Delta:
                    hi = mid
                else:
                    lo = mid
            s = cl(lo)
        best = max(best, abs(c + np.dot(g, s)))
    return best


def rand_sets(rs, n, centre, allow_box=True, kmax=3):
    """Convex sets containing `centre` as (kind, data) and exact projectors."""
    sets = []
    for _ in range(rs.randint(1, kmax + 1)):
        k = rs.randint(3 if allow_box else 2)
        if k == 0:
            dirn = rs.normal(size=n); r = logu(rs, -1, 1)
            c = centre + dirn / np.linalg.norm(dirn) * r * rs.choice([0.0, 0.5, 0.9])
            sets.append(('ball', c, r))
        elif k == 1:
            a = rs.normal(size=n)
            sets.append(('half', a, float(a.dot(centre)) + np.linalg.norm(a) * rs.choice([1e-3, 0.1, 1.0])))
        else:
            lo = centre - rs.choice([0.0, 0.1, 1.0, 1e20], size=n)
            up = centre + rs.choice([0.1, 1.0, 1e20], size=n)
            sets.append(('box', lo, up))
    return sets


def projector(s):
    if s[0] == 'ball':
        c, r = s[1], s[2]
        def P(x):
            v = x - c; nv = np.linalg.norm(v)
            return x.copy() if nv <= r else c + v * (r / nv)
        return P
    if s[0] == 'half':
        a, b = s[1], s[2]
        aa = float(a.dot(a))
        def P(x):
            return x - max(0.0, (float(a.dot(x)) - b) / aa) * a
        return P
    lo, up = s[1], s[2]
    return lambda x: np.minimum(np.maximum(x, lo), up)


def set_dist(s, x):
    return float(np.linalg.norm(projector(s)(x) - x))


def comp_C13(seed):
    rs = rng(seed, 'C13')
    k = seed % 8
    if k < 5:
        return _c13_geom(rs)
    if k == 5:
        return _c13_pgd(rs)
    if k == 6:
        return _c13_sfista(rs)
    return _c13_geom_proj(rs)


def _c13_geom(rs):
    from dfols.trust_region import trsbox_geometry
    n = rs.randint(1, 8)
    Delta = logu(rs, -4, 1)
    xb = rs.normal(size=n) * (0 if rs.rand() < .2 else 1.0)
    c = float(rs.choice([0.0, 1.0, rs.normal()]))
    g = rs.normal(size=n) * logu(rs, -2, 2) / (Delta if rs.rand() < .5 else 1.0)
    for i in range(n):
        if rs.rand() < .15:
            g[i] = 0.0
    lo = np.empty(n); up = np.empty(n)
    for i in range(n):
        gl, gu = (rs.choice([0.0, 1e-3, 0.3, 0.9, 5.0, 1e10]) * Delta for _ in range(2))
        lo[i] = xb[i] - gl; up[i] = xb[i] + gu
        if lo[i] == up[i] and rs.rand() < .5:
            up[i] = lo[i] + Delta
    g0 = g.copy()
    try:
        x = trsbox_geometry(xb, c, g, lo, up, Delta)
    except Exception as e:
        return ['trsbox_geometry raised %r' % e]
    out = []
    if not np.array_equal(g, g0):
        out.append('trsbox_geometry modified its input')
    tol = 1e-12 * np.maximum(1.0, np.abs(x))
    if np.any(x < lo - tol) or np.any(x > up + tol):
        out.append('geometry step outside box by %.3e' % max(np.max(lo - x), np.max(x - up)))
    s = x - xb
    if np.linalg.norm(s) > Delta * (1 + 1e-8) + 4 * EPS * np.linalg.norm(xb):
        out.append('geometry step norm %.17g > %.17g' % (np.linalg.norm(s), Delta))
    val = abs(c + np.dot(g, s))
    opt = ray_max(c, g, lo - xb, up - xb, Delta)
    slack = np.linalg.norm(g) * 1e-13 * math.sqrt(n) * (1 + np.linalg.norm(xb))
    if val < abs(c) - slack:
        out.append('geometry step is worse than not moving: %.12g < %.12g' % (val, abs(c)))
    if val < opt * (1 - 1e-6) - slack:
        out.append('geometry step value %.12g not the global maximum %.12g' % (val, opt))
    return out


def _conv(rs, nmax=4):
    n = rs.randint(1, nmax + 1)
    delta = logu(rs, -4, 1)
    x = rs.normal(size=n) * rs.choice([1.0, 100.0])
    sets = rand_sets(rs, n, x)
    P = [projector(s) for s in sets]
    g = rs.normal(size=n) * logu(rs, -3, 3)
    J = rs.normal(size=(rs.randint(1, n + 2), n)) * logu(rs, -2, 2)
    H = 2 * J.T.dot(J)
    if rs.rand() < .1:
        H = np.zeros((n, n))
    if rs.rand() < .1:
        g = np.zeros(n)
    return n, delta, x, sets, P, g, H


def _norm_ok(name, d, delta):
    if not np.all(np.isfinite(d)):
        return ['%s step not finite' % name]
    if np.linalg.norm(d) > delta * (1 + 1e-8):
        return ['%s ||d||=%.17g > Delta=%.17g' % (name, np.linalg.norm(d), delta)]
    return []


def _c13_pgd(rs):
    from dfols.trust_region import ctrsbox_pgd
    n, delta, x, sets, P, g, H = _conv(rs, 3)
    g0 = g.copy(); nP = len(P)
    try:
        d = ctrsbox_pgd(x, g, H, P, delta, d_max_iters=int(rs.choice([1, 5, 100])))[0]
    except Exception as e:
        return ['ctrsbox_pgd raised %r' % e]
    out = _norm_ok('ctrsbox_pgd', d, delta)
    if not np.array_equal(g, g0) or len(P) != nP:
        out.append('ctrsbox_pgd modified its inputs')
    return out


def _c13_sfista(rs):
    from dfols.trust_region import ctrsbox_sfista
    n, delta, x, sets, P, g, H = _conv(rs, 3)
    lam = logu(rs, -2, 1)
    h = lambda z: lam * np.linalg.norm(z, 1)
    prox = lambda z, u: np.sign(z) * np.maximum(np.abs(z) - lam * u, 0.0)
    nP = len(P)
    try:
        d = ctrsbox_sfista(x, g, H, P, delta, h, lam * math.sqrt(n), prox, func_tol=logu(rs, -4, 0), max_iters=int(rs.choice([1, 10, 60])),
                           d_max_iters=int(rs.choice([1, 5, 100])))[0]
    except Exception as e:
        return ['ctrsbox_sfista raised %r' % e]
    out = _norm_ok('ctrsbox_sfista', d, delta)
    if len(P) != nP:
        out.append('ctrsbox_sfista modified its inputs')
    return out


def _c13_geom_proj(rs):
    from dfols.trust_region import ctrsbox_geometry
    n, delta, x, sets, P, g, H = _conv(rs, 3)
    c = float(rs.choice([0.0, 1.0]))
    g0 = g.copy(); nP = len(P)
    try:
        d = ctrsbox_geometry(x, c, g, P, delta)
    except Exception as e:
        return ['ctrsbox_geometry raised %r' % e]
    out = _norm_ok('ctrsbox_geometry', d, delta)
    if not np.array_equal(g, g0) or len(P) != nP:
        out.append('ctrsbox_geometry modified its inputs')
    return out


# ---------------------------------------------------------------- C14 (direction generators)
def comp_C14(seed):
    import dfols.util as U
    rs = rng(seed, 'C14')
    n = rs.randint(1, 9)
    delta = logu(rs, -6, 2)
    lo = np.empty(n); up = np.empty(n)
    for i in range(n):
        k = rs.randint(4)   # 0 free, 1 at lower, 2 at upper, 3 nearly at a bound
        big = delta * rs.choice([0.3, 0.9, 1.0, 2.0, 3.0, 1e6])
        lo[i], up[i] = -big, delta * rs.choice([0.3, 0.9, 1.0, 2.0, 3.0, 1e6])
        if k == 1:
            lo[i] = 0.0
        elif k == 2:
            up[i] = 0.0
        elif k == 3:
            if rs.rand() < .5:
                lo[i] = -1e-9 * delta
            else:
                up[i] = 1e-9 * delta
    num = rs.randint(1, 2 * n + 4)
    out = []
    st = np.random.get_state()
    np.random.seed(seed % (2 ** 31))
    gens = [('random_directions_within_bounds', lambda: U.random_directions_within_bounds(num, delta, lo.copy(), up.copy()))]
    for neg in (True, False):
        gens.append(('random_orthog_directions_within_bounds(neg=%s)' % neg,
                     lambda neg=neg: U.random_orthog_directions_within_bounds(num, delta, lo.copy(), up.copy(), with_neg_dirns=neg)))
    for name, f in gens:
        try:
            D = f()
        except Exception as e:
            out.append('%s raised %r' % (name, e)); continue
        if D.shape != (num, n):
            out.append('%s returned shape %s, not %s' % (name, D.shape, (num, n))); continue
        if not np.all(np.isfinite(D)):
            out.append('%s not finite' % name); continue
        if np.any(D < lo) or np.any(D > up):
            out.append('%s outside the bounds' % name)
        for i in range(num):
            if np.linalg.norm(D[i]) > delta * (1 + 1e-10):
                out.append('%s direction %d has length %.12g > %.12g (lo=%s, up=%s)' % (name, i, np.linalg.norm(D[i]), delta, lo.tolist(), up.tolist()))
                break
    np.random.set_state(st)
    return out


# ---------------------------------------------------------------- C15
def ref_project(P, x0, iters=200000):
    """Reference Dykstra run to machine precision (None if it does not get there)."""
    x = x0.copy(); p = len(P); y = [np.zeros_like(x0) for _ in P]
    scale = 1 + np.linalg.norm(x0)
    for k in range(iters):
        ch = 0.0
        for i in range(p):
            z = x - y[i]
            xn = P[i](z)
            yn = xn - z
            ch = max(ch, float(np.max(np.abs(yn - y[i]))))
            y[i] = yn; x = xn
        if ch <= 1e-14 * scale:
            return x
    return None


def comp_C15(seed):
    import dfols.util as U
    rs = rng(seed, 'C15')
    n = rs.randint(1, 7)
    centre = rs.normal(size=n) * rs.choice([1.0, 10.0])
    sets = rand_sets(rs, n, centre, kmax=4)
    if rs.rand() < .5:
        sets.append(('box', centre - rs.choice([0.1, 1.0, 1e20], size=n), centre + rs.choice([0.1, 1.0, 1e20], size=n)))
    P0 = [projector(s) for s in sets]
    count = [0] * len(P0)
    P = []
    for i, f in enumerate(P0):
        def w(z, i=i, f=f):
            count[i] += 1
            return f(z)
        P.append(w)
    inside = rs.rand() < .25
    if inside:
        x0 = centre + 0.0
    else:
        x0 = centre + rs.normal(size=n) * logu(rs, -3, 1.5)
    max_iter = int(rs.choice([1, 2, 5, 100, 100, 1000, 5000])); tol = float(rs.choice([1e-10, 1e-10, 1e-6, 1e-14, 1e-3]))
    dflt = rs.rand() < .4
    if dflt:
        max_iter, tol = 100, 1e-10
    x00 = x0.copy()
    try:
        x = U.dykstra(P, x0) if dflt else U.dykstra(P, x0, max_iter=max_iter, tol=tol)
    except Exception as e:
        return ['dykstra raised %r' % e]
    out = []
    p = len(P)
    if not np.array_equal(x0, x00):
        out.append('dykstra modified x0')
    sweeps = max(count)
    if sweeps > max_iter:
        out.append('dykstra did %d sweeps > max_iter=%d' % (sweeps, max_iter))
    scale = 1 + np.linalg.norm(x0) + np.linalg.norm(centre)
    if sets[-1][0] == 'box' and (np.any(x < sets[-1][1]) or np.any(x > sets[-1][2])):
        out.append('dykstra result not in last box')
    if all(set_dist(s, x0) == 0.0 for s in sets):
        if np.linalg.norm(x - x0) > 1e-12 * scale:
            out.append('dykstra moved a feasible point by %.3e' % np.linalg.norm(x - x0))
    # recompute the stopping rule with the reference recursion
    xr = x0.copy(); y = np.zeros((p, n)); k = 0; cI = math.inf
    while k < max_iter and cI >= tol:
        cI = 0.0
        for i in range(p):
            z = xr - y[i]; xn = P0[i](z); yn = xn - z
            cI += float(np.sum((yn - y[i]) ** 2)); y[i] = yn; xr = xn
        k += 1
    by_rule = cI < tol
    if sweeps < max_iter and not by_rule:
        out.append('dykstra stopped after %d of %d sweeps although the tolerance rule was not met' % (sweeps, max_iter))
    stopped_by_rule = by_rule and sweeps <= max_iter
    if stopped_by_rule:
        for s in sets:
            ds = set_dist(s, x)
            if ds > math.sqrt(p * tol) * (1 + 1e-9) + 1e-12 * scale:
                out.append('dykstra result %.3e from a set (allowed %.3e)' % (ds, math.sqrt(p * tol)))
        if tol <= 1e-10:
            xs = ref_project(P0, x0, 20000)
            # domain: well-conditioned intersections, for which the error bound (rate of the reference run) is meaningful
            if xs is not None and np.linalg.norm(x - xs) > 1e-3:
                rate_iters = _iters_to(P0, x0, xs, 1e-8)
                if rate_iters is not None and rate_iters <= 400:
                    out.append('dykstra result %.3e from the true projection' % np.linalg.norm(x - xs))
    return out


def _iters_to(P, x0, xs, acc):
    x = x0.copy(); y = [np.zeros_like(x0) for _ in P]
    for k in range(400):
        for i in range(len(P)):
            z = x - y[i]; xn = P[i](z); y[i] = xn - z; x = xn
        if np.linalg.norm(x - xs) <= acc:
            return k + 1
    return None



# ---------------------------------------------------------------- Model operation histories: C16, C17
def make_model(rs, n, m, npt, reg, bounds, x0=None, precondition=True):
    from dfols.model import Model
    if x0 is None:
        x0 = rs.normal(size=n) * rs.choice([1.0, 10.0, 1e3])
    r0 = rs.normal(size=m)
    h, argsh = None, ()
    if reg:
        lam = 0.3
        h = lambda z, c: lam * float(np.sum(np.abs(z - c)))
        argsh = (rs.normal(size=n),)
    xl = -1e20 * np.ones(n); xu = 1e20 * np.ones(n)
    if bounds:
        xl = x0 - rs.choice([0.0, 0.5, 3.0], size=n); xu = x0 + rs.choice([0.7, 2.0], size=n)
    M = Model(npt, x0, r0, xl, xu, [], 1, h=h, argsh=argsh, n=n, m=m, precondition=precondition, do_logging=False)
    return M, x0, r0, xl, xu, h, argsh


def same(a, b, rtol):
    a = np.asarray(a, dtype=float); b = np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    with np.errstate(all='ignore'):
        eq = (a == b) | (np.isnan(a) & np.isnan(b))
        near = np.abs(a - b) <= rtol * (1 + np.maximum(np.abs(a), np.abs(b)))
        near &= np.isfinite(a) & np.isfinite(b)
    return bool(np.all(eq | near))


def comp_C17(seed):
    with np.errstate(all='ignore'):
        return _c17(seed)


def _c17(seed):
    rs = rng(seed, 'C17')
    n = rs.randint(1, 4); m = rs.randint(1, 4); npt = n + 1 + rs.randint(0, 3)
    reg = rs.rand() < .4; bounds = rs.rand() < .5
    bad = rs.rand() < .5
    M, x0, r0, xl, xu, h, argsh = make_model(rs, n, m, npt, reg, bounds)
    xl0, xu0 = xl.copy(), xu.copy()
    slot = [dict(x=x0.copy(), rs=[r0.copy()], e=1)]
    cap = npt; e = 1
    exempt = False          # the incumbent was overwritten by a worse point
    saved = None
    out = []
    log = []

    def rv():
        r = rs.normal(size=m) * rs.choice([0.1, 1.0, 1.0, 10.0])
        if rs.rand() < .1 and len(slot):
            r = slot[rs.randint(len(slot))]['rs'][0].copy()   # ties
        if bad and rs.rand() < .25:
            r[rs.randint(m)] = rs.choice([np.nan, np.inf, -np.inf, 1e200])
        return r

    def pt():
        x = x0 + rs.normal(size=n)
        x = np.minimum(np.maximum(x, xl0), xu0)
        return x - M.xbase, x

    def objof(r, x):
        v = float(np.dot(r, r)) if np.all(np.isfinite(r)) and np.max(np.abs(r)) < 1e150 else None
        if v is None:
            v = float(M_sumsq(r))
        return v + (h(x, *argsh) if h is not None else 0.0)

    from dfols.util import sumsq as M_sumsq

    def mean(s):
        return np.mean(np.array(s['rs']), axis=0)

    def better(a, b):   # a strictly better than b, NaN worst
        return (not math.isnan(a)) and (math.isnan(b) or a < b)

    for step in range(rs.randint(3, 40)):
        op = rs.randint(7)
        try:
            if op in (0, 1):      # replace / grow
                k = len(slot) if (len(slot) < cap and rs.rand() < .6) else rs.randint(len(slot))
                dx, x = pt(); r = rv(); e += 1
                old = float(M.objopt()); kopt = M.kopt
                new = objof(r, x)
                M.change_point(k, dx, r, e)
                if k == len(slot):
                    slot.append(None)
                slot[k] = dict(x=x, rs=[r.copy()], e=e)
                if k == kopt and not (new <= old or (math.isnan(old))):
                    exempt = True
                elif k == kopt and math.isnan(new):
                    exempt = True
                log.append(('change', k, new))
            elif op == 2:
                k = rs.randint(len(slot)); r = rv()
                M.add_new_sample(k, r)
                slot[k]['rs'].append(r.copy()); exempt = False
                log.append(('sample', k))
            elif op == 3:
                if len(slot) < 8:
                    dx, x = pt(); r = rv(); e += 1
                    M.add_new_point(dx, r, e)
                    slot.append(dict(x=x, rs=[r.copy()], e=e)); cap = max(cap, len(slot))
                    log.append(('add', objof(r, x)))
            elif op == 4:
                a, b = rs.randint(len(slot)), rs.randint(len(slot))
                M.swap_points(a, b)
                slot[a], slot[b] = slot[b], slot[a]
                log.append(('swap', a, b))
            elif op == 5:
                if not bounds or rs.rand() < .7:
                    M.shift_base(M.xopt().copy() if rs.rand() < .7 else rs.normal(size=n) * 0.3)
                    log.append(('shift',))
            else:
                dx, x = pt(); r = rv(); e += 1
                ab = rs.rand() < .5
                v = objof(r, x)
                M.save_point(x if ab else dx, r, 3, e, x_in_abs_coords=ab)
                if saved is None or better(v, saved['v']) or (v == saved['v']) or math.isnan(saved['v']):
                    saved = dict(v=v, x=x, r=r.copy(), e=e)
                log.append(('save', v))
        except Exception as ex:
            return ['operation %r raised %r' % (log[-1:] + [op], ex)]
        # --- the invariant of C17
        if M.npt() != len(slot):
            return ['npt()=%d, expected %d after %r' % (M.npt(), len(slot), log)]
        for k, s in enumerate(slot):
            xk = M.xpt(k, abs_coordinates=True)
            if not same(xk, s['x'], 1e-9):
                out.append('point %d is %r, stored %r, after %r' % (k, xk.tolist(), s['x'].tolist(), log))
            if not same(M.rvec(k), mean(s), 1e-9):
                out.append('residual %d is %r, mean of samples %r, after %r' % (k, M.rvec(k).tolist(), mean(s).tolist(), log))
            if int(M.nsamples[k]) != len(s['rs']):
                out.append('sample count %d is %d, actually %d, after %r' % (k, M.nsamples[k], len(s['rs']), log))
            if int(M.eval_num[k]) != s['e']:
                out.append('evaluation number %d is %d, actually %d, after %r' % (k, M.eval_num[k], s['e'], log))
            ov = float(M.objval[k]); want = objof(M.rvec(k), s['x'])
            if not same(ov, want, 1e-8):
                out.append('objective %d is %r, sum(r^2)+h=%r, after %r' % (k, ov, want, log))
        vals = np.array(M.objval[:len(slot)], dtype=float)
        if not exempt and not np.all(np.isnan(vals)):
            if not (vals[M.kopt] <= np.nanmin(vals)):
                out.append('incumbent %d has %r, smallest is %r, after %r' % (M.kopt, vals[M.kopt], np.nanmin(vals), log))
        x, r, f, jac, ns, en, jen = M.get_final_results()
        fo = float(M.objopt())
        best = fo if saved is None or better(fo, saved['v']) or math.isnan(saved['v']) else saved['v']
        if not same(float(f), best, 1e-8):
            out.append('final result has objective %r; incumbent %r, saved %r, after %r' % (f, fo, saved and saved['v'], log))
        elif not math.isnan(best):
            cands = ([(slot[M.kopt]['x'], mean(slot[M.kopt]), slot[M.kopt]['e'], len(slot[M.kopt]['rs']))] if same(fo, best, 1e-8) else [])
            cands += [(saved['x'], saved['r'], saved['e'], 3)] if saved is not None and same(saved['v'], best, 1e-8) else []
            if math.isfinite(best) and not any(same(x, c[0], 1e-9) and same(r, c[1], 1e-9) and int(en) == c[2] and int(ns) == c[3] for c in cands):
                out.append('final result (x=%r, eval %r, samples %r) is not one of the candidates %r after %r' % (x.tolist(), en, ns, cands, log))
        if out:
            return out
    return out


def comp_C16(seed):
    rs = rng(seed, 'C16')
    n = rs.randint(1, 7); m = rs.randint(1, 7)
    npt = n + 1 + (rs.randint(0, n + 1) if rs.rand() < .5 else 0)
    spread = logu(rs, -4, 0)
    off = rs.choice([0.0, 1.0, 1e3])
    x0 = rs.normal(size=n) * off
    prec = bool(rs.rand() < .8)
    bounds = rs.rand() < .3
    M, x0, r0, xl, xu, h, argsh = make_model(rs, n, m, npt, False, False, x0=x0, precondition=prec)
    if bounds:
        M.sl = np.full(n, -2.0 * spread) - 1e-3 * spread * rs.rand(n); M.su = -M.sl
    count = npt if rs.rand() < .7 else rs.randint(2, npt + 1)
    A = rs.normal(size=(m, n))
    f = lambda z: A.dot(z) + np.sin(z.sum()) + 0.1
    e = 1
    def newpt():
        d = rs.normal(size=n)
        return d / np.linalg.norm(d) * spread * rs.uniform(0.5, 1.5)
    try:
        for k in range(1, count):
            e += 1
            d = newpt()
            M.change_point(k, d, f(x0 + d), e)
        out = []
        for it in range(rs.randint(1, 6)):
            for _ in range(rs.randint(0, 4)):
                q = rs.randint(6)
                if q == 0 and M.npt() > 1:
                    k = rs.randint(M.npt()); e += 1
                    d = M.xopt() + newpt(); M.change_point(k, d, f(M.xbase + d), e)
                elif q == 1:
                    M.shift_base(M.xopt().copy())
                elif q == 2:
                    a, b = rs.randint(M.npt()), rs.randint(M.npt()); M.swap_points(a, b)
                elif q == 3:
                    k = rs.randint(M.npt()); M.add_new_sample(k, M.rvec(k) + 0.01 * rs.normal(size=m))
                elif q == 4 and M.npt() == M.num_pts and M.num_pts <= 2 * n:
                    e += 1; d = M.xopt() + newpt(); M.add_new_point(d, f(M.xbase + d), e)
                else:
                    M.factorise_geom_system()   # stale factorisations must be noticed later
            full = M.npt() < n + 1 and rs.rand() < .5      # as called by solve_main while growing
            ok = M.interpolate_mini_models_svd(make_full_rank=full)[0]
            if not ok:
                continue
            if full:
                s = np.linalg.svd(np.array(M.model_jac), compute_uv=False)
                if s[-1] < 1e-5 or s[0] > 1e7 * s[-1]:
                    continue    # conditioning floors active
            out = _c16_check(M, n, m)
            if out:
                return out
            # base shift leaves the model alone
            pts = [M.xbase + newpt() * 3 for _ in range(3)]
            v0 = [M.model_value(p - M.xbase, d_based_at_xopt=False, with_const_term=True) for p in pts]
            g0, H0 = M.build_full_model()
            s = M.xopt().copy() if rs.rand() < .5 else newpt()
            M.shift_base(s)
            v1 = [M.model_value(p - M.xbase, d_based_at_xopt=False, with_const_term=True) for p in pts]
            g1, H1 = M.build_full_model()
            jm = np.linalg.norm(M.model_jac) + 1
            xm = np.linalg.norm(M.xbase) + 1 + np.linalg.norm(s)
            cm = np.max(np.abs(np.array(v0))) + np.linalg.norm(M.model_const)
            tol = 1e-12 * (jm * xm + cm)
            if max(np.max(np.abs(a - b)) for a, b in zip(v0, v1)) > tol:
                out.append('base shift changes model values by %.3e (tol %.3e)' % (max(np.max(np.abs(a - b)) for a, b in zip(v0, v1)), tol))
            if np.max(np.abs(g0 - g1)) > 2 * jm * tol or np.max(np.abs(H0 - H1)) > 0:
                out.append('base shift changes the gradient/Hessian by %.3e' % np.max(np.abs(g0 - g1)))
            if out:
                return out
    except (np.linalg.LinAlgError,):
        return []
    except Exception as ex:
        import traceback
        return ['raised %r %s' % (ex, traceback.format_exc()[-400:])]
    return out


def _c16_check(M, n, m):
    out = []
    npt = M.npt()
    Y = np.array([M.xpt(k) for k in range(npt)])
    xo = M.xopt()
    D = Y - xo
    sc = np.max(np.linalg.norm(D, axis=1))
    if sc == 0:
        return out
    W = np.hstack([np.ones((npt, 1)), D / sc])
    cond = np.linalg.cond(W) if npt >= n + 1 else np.linalg.cond(W.T)
    if not np.isfinite(cond) or cond > 1e9:
        return out
    R = np.array([M.rvec(k) for k in range(npt)])
    pred = np.array([M.model_value(Y[k], d_based_at_xopt=False, with_const_term=True) for k in range(npt)])
    mag = np.max(np.abs(R)) + 1e-300 + np.linalg.norm(M.model_jac) * (np.linalg.norm(xo) + sc)
    tol = 1e-13 * cond ** 2 * mag if not M.precondition else 1e-12 * cond * mag
    if not M.precondition:
        c2 = np.linalg.cond(np.hstack([np.ones((npt, 1)), D])) if npt >= n + 1 else np.linalg.cond(np.hstack([np.ones((npt, 1)), D]).T)
        if c2 > 1e9:
            return out
        tol = 1e-12 * max(c2, cond) * mag
    if npt <= n + 1:
        err = np.max(np.abs(pred - R))
        if err > tol:
            out.append('fit does not interpolate: error %.3e, tolerance %.3e (npt=%d n=%d cond=%.1e)' % (err, tol, npt, n, cond))
    else:
        err = np.max(np.abs(W.T.dot(pred - R)))
        if err > tol * npt:
            out.append('regression residual not orthogonal to the design columns: %.3e (tol %.3e)' % (err, tol * npt))
    g, H = M.build_full_model()
    rx = M.model_value(xo, d_based_at_xopt=False, with_const_term=True)
    J = M.model_jac
    if np.max(np.abs(g - 2 * J.T.dot(rx))) > 1e-10 * (1e-300 + np.linalg.norm(J) * mag) * 10:
        out.append('gradient is not 2 J^T r')
    if np.max(np.abs(H - 2 * J.T.dot(J))) > 1e-12 * (1e-300 + np.linalg.norm(J) ** 2):
        out.append('Hessian is not 2 J^T J')
    cs, gs = M.lagrange_gradient()
    L = np.array([[cs[k] + gs[:, k].dot(D[j]) for k in range(npt)] for j in range(npt)])
    c2 = max(cond, np.linalg.cond(np.hstack([np.ones((npt, 1)), D]) if npt >= n + 1 else np.hstack([np.ones((npt, 1)), D]).T)) if not M.precondition else cond
    ltol = 1e-11 * c2 * (1 + c2 * 1e-3)
    if npt <= n + 1:
        if np.max(np.abs(L - np.eye(npt))) > ltol:
            out.append('Lagrange functions: |L_k(y_j)-delta_kj| = %.3e (tol %.3e)' % (np.max(np.abs(L - np.eye(npt))), ltol))
    if npt >= n + 1:
        if np.max(np.abs(L.sum(axis=1) - 1)) > ltol * npt:
            out.append('Lagrange functions do not sum to one: %.3e' % np.max(np.abs(L.sum(axis=1) - 1)))
    for k in range(npt):
        c, g = M.lagrange_gradient(k)
        if abs(c - cs[k]) > ltol or np.max(np.abs(g - gs[:, k])) * sc > ltol * 10:
            out.append('lagrange_gradient(k) inconsistent with lagrange_gradient()')
            break
    return out


# ---------------------------------------------------------------- C20
def eqv(a, b):
    """Equal, where None and NaN are the same and sequences are compared entrywise."""
    nul = lambda v: v is None or (isinstance(v, (float, np.floating)) and math.isnan(v))
    if nul(a) or nul(b):
        return nul(a) and nul(b)
    if isinstance(a, (list, tuple, np.ndarray)) or isinstance(b, (list, tuple, np.ndarray)):
        if not (isinstance(a, (list, tuple, np.ndarray)) and isinstance(b, (list, tuple, np.ndarray))):
            return False
        if np.shape(a) != np.shape(b):
            return False
        return all(eqv(x, y) for x, y in zip(a, b))
    if isinstance(a, str) or isinstance(b, str):
        return isinstance(a, str) and isinstance(b, str) and str(a) == str(b)
    return bool(a == b)


def json_roundtrip(s):
    from dfols.solver import OptimResults
    out = []
    try:
        st = str(s)
    except Exception as e:
        return ['str(soln) raised %r' % (e,)]
    for rep in (True, False):
        try:
            d = s.to_dict(replace_nan=rep) if not rep else s.to_dict()
        except Exception as e:
            out.append('to_dict(replace_nan=%s) raised %r' % (rep, e)); continue
        try:
            txt = json.dumps(d, allow_nan=not rep)
        except Exception as e:
            out.append('to_dict(replace_nan=%s) is not serialisable: %r' % (rep, e)); continue
        try:
            t = OptimResults.from_dict(json.loads(txt))
        except Exception as e:
            out.append('from_dict raised %r' % (e,)); continue
        for f in ('x', 'resid', 'obj', 'jacobian', 'nf', 'nx', 'nruns', 'flag', 'msg', 'xmin_eval_num', 'jacmin_eval_nums'):
            a, b = getattr(s, f), getattr(t, f)
            if not eqv(a, b) or ((a is None) != (b is None)):
                out.append('field %s: %r became %r' % (f, a, b))
            if isinstance(a, np.ndarray) and (not isinstance(b, np.ndarray) or a.dtype.kind != b.dtype.kind):
                out.append('field %s changed type' % f)
        a, b = s.diagnostic_info, t.diagnostic_info
        if (a is None) != (b is None):
            out.append('diagnostic table lost')
        elif a is not None:
            if list(a.columns) != list(b.columns) or list(a.index) != list(b.index):
                out.append('diagnostic table has columns %r index %r, was %r %r' % (list(b.columns), list(b.index)[:5], list(a.columns), list(a.index)[:5]))
            else:
                for c in a.columns:
                    for i in range(len(a)):
                        if not eqv(a[c].iloc[i], b[c].iloc[i]):
                            out.append('diagnostic table [%s,%d]: %r became %r' % (c, i, a[c].iloc[i], b[c].iloc[i]))
                            break
        try:
            st2 = str(t)
            if st2 != st:
                out.append('str() differs after reload: %r / %r' % (st, st2))
        except Exception as e:
            out.append('str(reloaded) raised %r' % (e,))
    return out


def comp_C20(seed):
    from dfols.solver import OptimResults
    import pandas as pd
    from dfols.diagnostic_info import DiagnosticInfo
    rs = rng(seed, 'C20')
    n = int(rs.choice([1, 2, 5, 120])); m = int(rs.choice([1, 3, 101]))
    special = rs.rand() < .6
    def arr(shape):
        a = rs.normal(size=shape) * logu(rs, -12, 12)
        if special:
            k = rs.randint(0, 3)
            for _ in range(k):
                a.flat[rs.randint(a.size)] = rs.choice([np.nan, np.inf, -np.inf, 0.0, -0.0, 1e-320, 1e308])
        return a
    x = arr(n); r = arr(m)
    obj = rs.choice([float(np.sum(r ** 2)), np.nan, np.inf]) if special else float(np.sum(r ** 2))
    if rs.rand() < .5:
        obj = np.float64(obj)
    jac = arr((m, n)) if rs.rand() < .75 else None
    jen = rs.randint(1, 10000, size=n + 1) if jac is not None and rs.rand() < .9 else None
    nf = int(rs.randint(1, 10000))
    flag = int(rs.choice([5, 3, 2, 1, 0, -2, -3, -4]))
    num = lambda v: np.int64(v) if rs.rand() < .5 else int(v)
    s = OptimResults(x, r, obj, jac, num(nf), num(max(1, nf // 2)), num(rs.randint(1, 5)), num(flag), 'Some message: "quoted" \u00e9', num(rs.randint(1, nf + 1)), jen)
    if rs.rand() < .6:
        D = DiagnosticInfo()
        rows = int(rs.randint(0, 6))
        withx, withr = rs.rand() < .4, rs.rand() < .4
        for k in range(rows):
            for key in D.data:
                if key == 'xk':
                    v = arr(n)
                elif key == 'rk':
                    v = arr(m)
                elif key == 'iter_type':
                    v = rs.choice([None, 'Successful', 'Safety'])
                    v = None if v is None else str(v)
                elif key in ('nruns', 'nf', 'nx', 'npt', 'nsamples', 'iter_this_run', 'iters_total', 'slow_iter'):
                    v = int(rs.randint(0, 100)) if key != 'slow_iter' else (None if rs.rand() < .3 else int(rs.randint(-1, 2)))
                    if v is not None and rs.rand() < .3:
                        v = np.int64(v)
                else:
                    v = float(arr(1)[0]) if rs.rand() < .8 else None
                    if v is not None and rs.rand() < .3:
                        v = np.float64(v)
                D.data[key].append(v)
        s.diagnostic_info = D.to_dataframe(with_xk=withx, with_rk=withr)
    return json_roundtrip(s)


# ---------------------------------------------------------------- C19
def comp_C19(seed):
    from . import scenarios
    sc = scenarios.gen(seed, 'det')
    return c19_case(sc, seed)


RANDOM_KEYS = ('init.random_initial_directions', 'growing.ndirs_initial', 'growing.num_new_dirns_each_iter', 'growing.perturb_trust_region_step',
               'regression.momentum_extra_steps', 'regression.num_extra_steps')


def uses_random(sc):
    p = sc.get('params') or {}
    n = sc['n']; npt = sc.get('npt') or n + 1
    if npt > (n + 1) * (n + 2) // 2:
        return True
    if p.get('init.random_initial_directions') or p.get('growing.perturb_trust_region_step') or p.get('growing.num_new_dirns_each_iter') \
            or p.get('growing.ndirs_initial', npt - 1) < npt - 1 or p.get('restarts.increase_npt') or p.get('regression.momentum_extra_steps'):
        return True
    if p.get('restarts.use_restarts') and not p.get('restarts.use_soft_restarts', True):
        pass
    return False


def c19_case(sc, seed):
    if uses_random(sc):
        return []
    sc1 = copy.deepcopy(sc); sc2 = copy.deepcopy(sc)
    sc2['npseed'] = (sc.get('npseed', 0) + 12345) % (2 ** 31)
    a = runner.run(sc1); b = runner.run(sc2)
    out = []
    if a.hang or b.hang:
        return []
    for rec in (a, b):
        if not np.array_equal(rec.x0_arg, rec.x0_copy):
            out.append('x0 was modified: %r became %r' % (rec.x0_copy.tolist(), rec.x0_arg.tolist()))
        for nm, arr in (('lower', rec.lb), ('upper', rec.ub)):
            if arr is not None and not np.array_equal(arr, np.array(rec.sc[nm], dtype=float)):
                out.append('%s bound array was modified' % nm)
        if 'user_params' in rec.kw and rec.kw['user_params'] != rec.sc['params']:
            out.append('user_params was modified')
        if len(rec.projs) != len(rec.sc.get('projections', [])):
            out.append('projections list was modified')
    if len(a.calls) != len(b.calls):
        out.append('%d evaluations, then %d with a different global RNG state' % (len(a.calls), len(b.calls)))
    for k, ((x, r), (y, q)) in enumerate(zip(a.calls, b.calls)):
        if not np.array_equal(x, y):
            out.append('evaluation %d at %r, then %r with a different global RNG state' % (k + 1, x.tolist(), y.tolist()))
            break
    if (a.soln is None) != (b.soln is None):
        out.append('one run raised, the other did not')
    elif a.soln is not None:
        for f in ('x', 'resid', 'obj', 'jacobian', 'nf', 'nx', 'nruns', 'flag', 'msg', 'xmin_eval_num', 'jacmin_eval_nums'):
            if not eqv(getattr(a.soln, f), getattr(b.soln, f)):
                out.append('field %s differs: %r / %r' % (f, getattr(a.soln, f), getattr(b.soln, f)))
    return out


# ---------------------------------------------------------------- C07 (argument and parameter validation)
# Independent copy of the documented table: key -> (type, None allowed, lower, upper); 'npt' and 'npt-1' are resolved per call
PTABLE = {'dykstra.d_tol': ('float', False, 0.0, None),
 'dykstra.max_iters': ('int', False, 1, None),
 'func_tol.criticality_measure': ('float', False, 0.0, 1.0),
 'func_tol.max_iters': ('int', False, 1, None),
 'func_tol.tr_step': ('float', False, 0.0, 1.0),
 'general.check_objfun_for_overflow': ('bool', False, None, None),
 'general.rounding_error_constant': ('float', False, 0.0, None),
 'general.safety_step_thresh': ('float', False, 0.0, None),
 'growing.delta_scale_new_dirns': ('float', False, 0.0, None),
 'growing.do_geom_steps': ('bool', False, None, None),
 'growing.full_rank.min_sing_val': ('float', True, 0.0, 1.0),
 'growing.full_rank.scale_factor': ('float', True, 0.0, None),
 'growing.full_rank.svd_max_jac_cond': ('float', True, 1.0, None),
 'growing.full_rank.svd_scale_factor': ('float', True, 0.0, 1.0),
 'growing.full_rank.use_full_rank_interp': ('bool', False, None, None),
 'growing.gamma_dec': ('float', False, 0.0, 1.0),
 'growing.ndirs_initial': ('int', False, 1, 'npt-1'),
 'growing.num_new_dirns_each_iter': ('int', False, 0, None),
 'growing.perturb_trust_region_step': ('bool', False, None, None),
 'growing.reset_delta': ('bool', False, None, None),
 'growing.reset_rho': ('bool', False, None, None),
 'growing.safety.do_safety_step': ('bool', False, None, None),
 'growing.safety.full_geom_step': ('bool', False, None, None),
 'growing.safety.reduce_delta': ('bool', False, None, None),
 'init.random_directions_make_orthogonal': ('bool', False, None, None),
 'init.random_initial_directions': ('bool', False, None, None),
 'init.run_in_parallel': ('bool', False, None, None),
 'interpolation.precondition': ('bool', False, None, None),
 'interpolation.throw_error_on_nans': ('bool', False, None, None),
 'logging.n_to_print_whole_x_vector': ('int', False, 0, None),
 'logging.save_diagnostic_info': ('bool', False, None, None),
 'logging.save_poisedness': ('bool', False, None, None),
 'logging.save_rk': ('bool', False, None, None),
 'logging.save_xk': ('bool', False, None, None),
 'matrix_rank.r_tol': ('float', False, 0.0, None),
 'model.abs_tol': ('float', False, 0.0, None),
 'model.rel_tol': ('float', False, 0.0, 1.0),
 'noise.additive_noise_level': ('float', True, 0.0, None),
 'noise.multiplicative_noise_level': ('float', True, 0.0, None),
 'noise.quit_on_noise_level': ('bool', False, None, None),
 'noise.scale_factor_for_quit': ('float', False, 0.0, None),
 'regression.increase_num_extra_steps_with_restart': ('int', False, 0, None),
 'regression.momentum_extra_steps': ('bool', False, None, None),
 'regression.num_extra_steps': ('int', False, 0, None),
 'restarts.auto_detect': ('bool', False, None, None),
 'restarts.auto_detect.history': ('int', False, 1, None),
 'restarts.auto_detect.min_chgJ_slope': ('float', False, 0.0, None),
 'restarts.auto_detect.min_correl': ('float', False, 0.0, 1.0),
 'restarts.hard.increase_ndirs_initial_amt': ('int', False, 0, None),
 'restarts.hard.use_old_rk': ('bool', False, None, None),
 'restarts.increase_npt': ('bool', False, None, None),
 'restarts.increase_npt_amt': ('int', False, 0, None),
 'restarts.max_npt': ('int', False, 'npt', None),
 'restarts.max_unsuccessful_restarts': ('int', False, 0, None),
 'restarts.rhoend_scale': ('float', False, 0.0, 1.0),
 'restarts.soft.max_fake_successful_steps': ('int', False, 1, None),
 'restarts.soft.move_xk': ('bool', False, None, None),
 'restarts.soft.num_geom_steps': ('int', False, 0, None),
 'restarts.use_restarts': ('bool', False, None, None),
 'restarts.use_soft_restarts': ('bool', False, None, None),
 'sfista.max_iters_scaling': ('float', False, 1.0, None),
 'slow.history_for_slow': ('int', False, 0, None),
 'slow.max_slow_iters': ('int', False, 0, None),
 'slow.thresh_for_slow': ('float', False, 0, None),
 'tr_radius.alpha1': ('float', False, 0.0, 1.0),
 'tr_radius.alpha2': ('float', False, 0.0, 1.0),
 'tr_radius.eta1': ('float', False, 0.0, 1.0),
 'tr_radius.eta2': ('float', False, 0.0, 1.0),
 'tr_radius.gamma_dec': ('float', False, 0.0, 1.0),
 'tr_radius.gamma_inc': ('float', False, 1.0, None),
 'tr_radius.gamma_inc_overline': ('float', False, 1.0, None)}


def comp_C07(seed):
    import dfols
    from . import problems
    rs = rng(seed, 'C07')
    n = int(rs.randint(1, 4)); m = int(rs.randint(1, 4))
    A = rs.normal(size=(m, n)); bvec = rs.normal(size=m)
    calls = [0]
    def objfun(x, *a):
        calls[0] += 1
        return A.dot(x) - bvec + 0.1 * np.sin(x.sum())
    x0 = rs.normal(size=n)
    kw = dict(maxfun=int(rs.choice([8, 15, 25])), rhobeg=0.3, rhoend=float(rs.choice([1e-3, 1e-6])))
    npt = n + 1
    bad = None        # reason the call is invalid
    unknown = False
    bounds = rs.rand() < .4
    if bounds:
        kw['bounds'] = (x0 - 1.0, x0 + rs.choice([1.0, 2.0]))
    proj = rs.rand() < .15
    if proj:
        c = x0.copy()
        kw['projections'] = [lambda x: c + (x - c) * min(1.0, 2.0 / max(np.linalg.norm(x - c), 1e-300))]
    scaling = bounds and not proj and rs.rand() < .3
    if scaling:
        kw['scaling_within_bounds'] = True
        kw['rhobeg'] = 0.1
        kw['rhoend'] = 1e-3
    reg = rs.rand() < .2
    if reg:
        lam = 0.1
        kw['h'] = lambda x: lam * float(np.sum(np.abs(x)))
        kw['lh'] = lam * math.sqrt(n)
        kw['prox_uh'] = lambda x, u: np.sign(x) * np.maximum(np.abs(x) - lam * u, 0.0)
    up = {}
    if reg:
        up['func_tol.max_iters'] = 20
    if rs.rand() < .3:
        kw['npt'] = npt = int(rs.randint(n + 1, 2 * n + 2)) if not proj else n + 1
    if rs.rand() < .15:
        kw['objfun_has_noise'] = True
    kind = int(rs.randint(14))
    if kind == 0:
        kw['rhobeg'] = float(rs.choice([0.0, -1.0])); bad = 'rhobeg'
    elif kind == 1:
        kw['rhoend'] = float(rs.choice([0.0, -1e-8])); bad = 'rhoend'
    elif kind == 2:
        kw['rhoend'] = kw['rhobeg'] * float(rs.choice([1.0, 2.0])); bad = 'rhobeg<=rhoend'
    elif kind == 3:
        kw['npt'] = npt = int(rs.choice([n, 1, 0, -3])) if n > 1 else int(rs.choice([1, 0])); bad = 'npt'
    elif kind == 4 and not proj:
        lo = x0 - 1.0; hi = x0 + 1.0
        i = rs.randint(n)
        hi[i] = lo[i] + (2 * kw['rhobeg'] if not scaling else 0.0) * float(rs.choice([0.99, 0.0, 0.5])); kw['bounds'] = (lo, hi); bad = 'narrow bounds'
    elif kind == 5:
        kw['h'] = lambda x: float(np.sum(np.abs(x)))
        w = rs.randint(4)
        kw['lh'] = [None, 0.0, -1.0, math.sqrt(n)][w]
        kw['prox_uh'] = None if w == 3 else (lambda x, u: np.sign(x) * np.maximum(np.abs(x) - u, 0.0))
        bad = 'regulariser arguments'
    elif kind == 6:
        kw['maxfun'] = int(rs.choice([0, -5])); bad = 'maxfun'
    elif kind == 7:
        w = rs.randint(5)
        if w == 0:
            up.update({'growing.safety.full_geom_step': True, 'growing.safety.reduce_delta': True})
        elif w == 1:
            up.update({'growing.full_rank.use_full_rank_interp': True, 'growing.perturb_trust_region_step': True})
        elif w == 2:
            up.update({'noise.quit_on_noise_level': True, 'noise.multiplicative_noise_level': 0.1, 'noise.additive_noise_level': 0.1})
        elif w == 3:
            up.update({'init.run_in_parallel': True, 'init.random_initial_directions': False})
        else:
            up.update({'growing.reset_rho': True, 'growing.reset_delta': False})
        bad = 'contradictory options %r' % sorted(up)
    elif kind == 8:
        unknown = True
        k = sorted(PTABLE)[rs.randint(len(PTABLE))]
        up[str(rs.choice(['not.a.param', k + 'x', k.upper(), '', k[:-1]]))] = 1.0
    else:
        key = sorted(PTABLE)[rs.randint(len(PTABLE))]
        if reg and key == 'func_tol.max_iters':
            key = 'func_tol.tr_step'
        typ, none_ok, lo, hi = PTABLE[key]
        res = {'npt': npt, 'npt-1': npt - 1}
        lo = res.get(lo, lo); hi = res.get(hi, hi)
        what = rs.choice(['in', 'lo', 'hi', 'below', 'above', 'type', 'none', 'nan'])
        val = None; inval = False; skip = False
        if what == 'type':
            val = {'int': [1.5, 'a', [1]], 'float': [1, 'a', [1.0]], 'bool': [1, 0.0, 'True'], 'str': [1]}[typ]
            val = val[rs.randint(len(val))]; inval = True
        elif what == 'none':
            val = None; inval = not none_ok
            skip = True if val is None and False else False
        elif typ == 'bool':
            val = bool(rs.rand() < .5)
        elif what == 'nan' and typ == 'float':
            val = float('nan'); inval = True
        elif what == 'below' and lo is not None:
            val = lo - 1 if typ == 'int' else float(lo) - float(rs.choice([1e-9, 1.0])); inval = True
        elif what == 'above' and hi is not None:
            val = hi + 1 if typ == 'int' else float(hi) + float(rs.choice([1e-9, 1.0])); inval = True
        elif what == 'lo' and lo is not None:
            val = int(lo) if typ == 'int' else float(lo)
        elif what == 'hi' and hi is not None:
            val = int(hi) if typ == 'int' else float(hi)
        else:
            a = lo if lo is not None else 0; b = hi if hi is not None else (a + 5)
            val = int(rs.randint(a, b + 1)) if typ == 'int' else float(rs.uniform(a, b))
        if val is None and what == 'none':
            # the parameter interface treats new_value=None as a query, so None cannot be set: only "no exception" is required
            inval = None
        up[key] = val
        bad = ('parameter %s=%r' % (key, val)) if inval else None
        if inval is None:
            bad = 'either'
        if (key, val) in (('tr_radius.alpha1', 1.0), ('restarts.rhoend_scale', 0.0), ('growing.delta_scale_new_dirns', 0.0)):
            bad = 'either'     # boundary values which may be rejected (the run could not end otherwise)
        if rs.rand() < .3:
            up['restarts.use_restarts'] = up.get('restarts.use_restarts', True)
            up.setdefault('restarts.max_unsuccessful_restarts', 1)
        if key.startswith('growing') and rs.rand() < .6 and npt > 2 and not proj:
            up.setdefault('growing.ndirs_initial', 1)
        if key.startswith('logging.save') and rs.rand() < .7:
            up.setdefault('logging.save_diagnostic_info', True)
        contradictory = (up.get('growing.safety.full_geom_step') is True and up.get('growing.safety.reduce_delta') is True) \
            or (up.get('growing.reset_rho') is True and up.get('growing.reset_delta') is not True) \
            or (up.get('init.run_in_parallel') is True and up.get('init.random_initial_directions') is not True and npt <= (n + 1) * (n + 2) // 2) \
            or (up.get('growing.perturb_trust_region_step') is True)
        if contradictory and bad is None:
            bad = 'either'
        if reg and 'Lambda' in key:
            pass
    if up:
        kw['user_params'] = up
    up0 = dict(up)
    desc = {k: (v if not callable(v) and k not in ('bounds', 'projections') else str(type(v))) for k, v in kw.items()}
    desc['n'] = n
    out = []
    import io, contextlib
    np.random.seed(seed % (2 ** 31))
    try:
        with np.errstate(all='ignore'), contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            with runner.Timer(25):
                s = dfols.solve(objfun, x0, **kw)
    except runner.HangError:
        return ['solve did not return for %r' % (desc,)] if not bad else ['solve did not return for invalid %s' % bad]
    except ValueError as e:
        if unknown:
            return ['unknown parameter name rejected after %d evaluations' % calls[0]] if calls[0] else []
        return ['solve raised %r for %r (%s)' % (e, desc, bad)]
    except Exception as e:
        import traceback
        return ['solve raised %r for %r (%s) %s' % (e, desc, bad, traceback.format_exc()[-500:])]
    if unknown:
        return ['unknown parameter name accepted: %r' % (desc,)]
    from . import monitors
    class R(object):
        pass
    rec = R(); rec.hang = False; rec.user_exc = None; rec.exc = None; rec.soln = s
    out += monitors.m_C07(rec)
    if bad == 'either':
        pass
    elif bad is not None:
        if s.flag != monitors.INPUT_ERROR or calls[0] != 0:
            out.append('invalid input (%s) gave flag %r, message %r, %d evaluations: %r' % (bad, s.flag, s.msg, calls[0], desc))
    else:
        if s.flag == monitors.INPUT_ERROR:
            out.append('valid input rejected: %r: %r' % (s.msg, desc))
        if calls[0] != s.nf:
            out.append('nf=%r but %d evaluations' % (s.nf, calls[0]))
    return ['%s [%r]' % (o, desc) if 'invalid input' not in o else o for o in out]


COMPS = {}


def _register():
    for k, v in list(globals().items()):
        if k.startswith('comp_'):
            COMPS[k[5:]] = v


_register()


# ---------------------------------------------------------------- known findings, replayed on every run
def known_C15():
    """Literal clause 'stops by its tolerance rule => within 1e-3 of the true projection' on two listed inputs."""
    import dfols.util as U
    out = []
    a1 = np.array([math.sin(0.05), math.cos(0.05)]); a2 = np.array([math.sin(0.05), -math.cos(0.05)])
    half = lambda a: (lambda z: z - max(0.0, float(a.dot(z))) * a)
    x0 = np.array([1.0, 0.3])
    P = [half(a1), half(a2)]
    x = U.dykstra(P, x0, max_iter=100000, tol=1e-3)
    xs = ref_project(P, x0, 200000)
    if xs is not None and np.linalg.norm(x - xs) > 1e-3:
        out.append('input=loose-tol (two half-planes at angle 0.05, x0=(1,0.3), tol=1e-3): result %.2e from the projection (> 1e-3)' % np.linalg.norm(x - xs))
    th = 0.003
    a1 = np.array([math.sin(th), math.cos(th)]); a2 = np.array([math.sin(th), -math.cos(th)])
    P = [half(a1), half(a2)]
    x = U.dykstra(P, x0, max_iter=1000000, tol=1e-10)
    # exact projection of x0 onto {sin*x + cos*|y| <= 0}: the polar cone contains x0, so it is the origin
    if np.linalg.norm(x) > 1e-3:
        out.append('input=shallow-angle (two half-planes at angle 0.003, x0=(1,0.3), tol=1e-10): result %.2e from the projection (> 1e-3)' % np.linalg.norm(x))
    return out


KNOWN = {'C15': known_C15}
