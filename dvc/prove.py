"""prove.py PID: verifies every function under contract for one property against the current source; writes JSON."""
import sys, os, json, time, argparse, importlib, traceback, multiprocessing as mp, subprocess, tempfile
import z3
from .values import *
from .vec import *
from .vec import _subterms
from .program import Program
from .engine import Engine

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def cvc5_check(fs, timeout):
    try:
        s = z3.Solver()
        s.add(*fs)
        txt = '(set-logic ALL)\n' + s.to_smt2()
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
            f.write(txt)
        try:
            r = subprocess.run(['cvc5', '--tlimit=%d' % int(timeout * 1000), f.name], capture_output=True, text=True, timeout=timeout + 5)
            return r.stdout.strip().split('\n')[0] if r.stdout else 'unknown'
        finally:
            os.unlink(f.name)
    except Exception:
        return 'unknown'


IMPRECISE = ('bin', 'neg', 'sqrt', 'fmin', 'fmax', 'sum', 'mean', 'slice', 'fancy', 'elt', 'row', 'mat', 'arr', 'ew', 'append', 'imp')


def imprecise(goal):
    for t in _subterms([goal]):
        if z3.is_app(t) and t.num_args() == 0 and '!' in t.decl().name() and t.decl().name().split('!')[0] in IMPRECISE:
            return t.decl().name()
    return None


def discharge(E, o, timeout):
    t = time.time()
    extra = []
    goal = o.goal
    if isinstance(goal, Schem):
        i = fresh('gi', z3.IntSort())
        goal = goal.fn(i)
        extra.append(i)
    if isinstance(goal, bool):
        goal = z3.BoolVal(goal)
    if z3.is_true(goal):
        return 'proved', 'trivial', ''
    # fewer facts first: an 'unsat' from a subset of the facts is just as conclusive
    if getattr(E.spec, 'ext_pairs', False) or any(isinstance(p, Schem) for p in o.pc):
        for kw in (dict(ext_pairs=False, max_rounds=2), dict(ext_pairs=True, max_rounds=3)):
            fs = E._facts(o.pc, [z3.Not(goal)], extra, **kw)
            s = z3.Solver()
            s.set('timeout', int(min(timeout, 3) * 1000))
            s.set('random_seed', 1)
            s.add(*fs)
            if s.check() == z3.unsat:
                E.solver_s += time.time() - t
                return 'proved', 'z3', ''
    fs = E._facts(o.pc, [z3.Not(goal)], extra)
    if os.environ.get('DVC_DEBUG'):
        print('   full', o.name, len(fs), 'facts', round(time.time() - t, 1), flush=True)
    s = z3.Solver()
    s.set('timeout', int(timeout * 1000))
    s.set('random_seed', 1)
    s.add(*fs)
    r = s.check()
    E.solver_s += time.time() - t
    if r == z3.unsat:
        return 'proved', 'z3', ''
    if r == z3.sat:
        imp = imprecise(goal)
        if imp:
            return 'unknown', 'z3', 'the obligation depends on a value the translator over-approximates (%s)' % imp
        m = s.model()
        ds = sorted(m.decls(), key=lambda d: d.name())
        txt = ', '.join('%s=%s' % (d.name(), str(m[d])[:60]) for d in ds if d.arity() == 0 and not d.name().startswith(('b!', 'u!', 'k!')))[:1500]
        return 'refuted', 'z3', 'counterexample of the verification condition: ' + txt
    r = cvc5_check(fs, timeout)
    E.solver_s += timeout
    if r == 'unsat':
        return 'proved', 'cvc5', ''
    return 'unknown', 'z3+cvc5', 'solver: %s' % s.reason_unknown()


def run_task(a):
    pid, idx, tier, tl = a
    mod = importlib.import_module('contracts.' + pid)
    t0 = time.time()
    out = dict(obligations=[], notes=[], error=None, solver_s=0.0, checks=0, backends={}, loops=[], used=[], trusted=[])
    try:
        P = Program()
        spec, c = mod.tasks(P, tier)[idx]
        out['name'] = getattr(c, 'title', None) or c.q
        if c.q not in P.fns:
            raise Unsupported('function %s no longer exists' % c.q)
        E = Engine(P, spec, c.arith or mod.ARITH)
        E.smoke = tier == 'thorough'
        spec.E = E
        E.deadline = time.time() + tl
        st = c.verify(E)
        # vacuity: the precondition and the end of the function must be reachable
        out['pre_ok'] = bool(E.pre_ok)
        out['reach'] = st is not None and E.feasible(st.pc, 5000)
        groups = {}
        for o in E.obls:
            r, be, why = discharge(E, o, 20 if tier == 'quick' else 60)
            out['backends'][be] = out['backends'].get(be, 0) + 1
            out['obligations'].append(dict(name=o.name, where=o.where, status=r, reason=why))
        out['loops'] = [(w, len(l)) for w, l in E.infos]
        out['solver_s'] = E.solver_s
        out['checks'] = E.nchecks
        out['notes'] = sorted(E.notes)
        out['used'] = sorted(E.used)
        out['trusted'] = sorted(E.trusted)
    except Unsupported as e:
        out['error'] = 'unsupported: %s' % e
        out.setdefault('name', str(idx))
        if os.environ.get('DVC_DEBUG'):
            traceback.print_exc()
    except Exception as e:
        out['error'] = 'internal: %r %s' % (e, traceback.format_exc()[-1500:])
        out.setdefault('name', str(idx))
    out['time'] = time.time() - t0
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--out')
    ap.add_argument('--only')
    ap.add_argument('--jobs', type=int, default=8)
    a = ap.parse_args()
    sys.path.insert(0, VERIF)
    sys.setrecursionlimit(20000)
    t0 = time.time()
    mod = importlib.import_module('contracts.' + a.pid)
    P = Program()
    ts = mod.tasks(P, a.tier)
    idx = [i for i, (s, c) in enumerate(ts) if not a.only or a.only in c.q or a.only in (getattr(c, 'title', None) or '')]
    TL = 330 if a.tier == 'quick' else 560
    with mp.get_context('spawn').Pool(min(a.jobs, len(idx)), maxtasksperchild=1) as pool:
        rs = pool.map(run_task, [(a.pid, i, a.tier, TL) for i in idx], chunksize=1)
    obs = []
    problems = []
    for r in rs:
        if r['error']:
            obs.append(dict(name='%s (whole function)' % r['name'], status='undecided', reason=r['error']))
            continue
        names = {}
        for o in r['obligations']:
            n = names.get(o['name'], 0)
            names[o['name']] = n + 1
            obs.append(dict(name=o['name'] + ('' if n == 0 else ' #%d' % (n + 1)), where=o['where'], status=o['status'] if o['status'] in ('proved', 'refuted') else 'undecided', reason=o['reason']))
        if not r['obligations']:
            obs.append(dict(name='%s generates obligations' % r['name'], status='undecided', reason='no obligation was generated'))
        if not r.get('pre_ok'):
            obs.append(dict(name='%s precondition satisfiable' % r['name'], status='undecided', reason='contradictory precondition: nothing proved'))
        if not r.get('reach'):
            obs.append(dict(name='%s end reachable' % r['name'], status='undecided', reason='no feasible path to the end under the assumptions: nothing proved'))
    trusted = sorted(set(getattr(mod, 'TRUSTED', [])) | {t for r in rs for t in r['trusted']})
    be = {}
    for r in rs:
        for k, v in r['backends'].items():
            be[k] = be.get(k, 0) + v
    res = dict(pid=a.pid, obligations=obs, functions=[r['name'] for r in rs], trusted=trusted, assumptions=list(getattr(mod, 'ASSUMPTIONS', [])), backends=be,
               solver_s=round(sum(r['solver_s'] for r in rs), 2), wall_s=round(time.time() - t0, 2),
               vacuity={r['name']: dict(precondition_satisfiable=r.get('pre_ok'), end_reachable=r.get('reach'), obligations=len(r['obligations']), time=round(r['time'], 1)) for r in rs},
               loops={r['name']: r['loops'] for r in rs}, clauses=getattr(mod, 'CLAUSES', {}), bounded_clauses=getattr(mod, 'BOUNDED', []), level=getattr(mod, 'LEVEL', 'proof'),
               log='\n'.join('%s: %s %s %s' % (o.get('where', ''), o['name'], o['status'], o['reason'][:300]) for o in obs if o['status'] != 'proved'))
    if a.out:
        with open(a.out, 'w') as f:
            json.dump(res, f, indent=1, default=str)
    if not a.out or os.environ.get('DVC_V'):
        for r in rs:
            print('%-60s %6.1fs obl %d checks %d solver %.1fs pre %s reach %s %s' % (r['name'], r['time'], len(r['obligations']), r['checks'], r['solver_s'], r.get('pre_ok'), r.get('reach'), r['error'] or ''))
            for n in r['notes']:
                print('   note', n)
        for o in obs:
            if o['status'] != 'proved':
                print('  %-10s %s [%s] %s' % (o['status'], o['name'], o.get('where'), o['reason'][:700]))
        print('%d obligations, %d proved, %.1fs' % (len(obs), sum(o['status'] == 'proved' for o in obs), time.time() - t0))


if __name__ == '__main__':
    main()
