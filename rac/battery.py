"""Bounded stand-in for one property: runs generated scenarios / component cases on the real code, evaluates the contracts.
usage: battery.py PID --seed S --tier quick|thorough --budget SECONDS --out FILE  |  battery.py --replay FILE"""
import sys, os, json, time, argparse, zlib
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
os.environ.setdefault('OMP_NUM_THREADS', '1'); os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')

# (focus, weight) of whole-run scenarios; number of component cases per quick run
PLAN = {
    'C01': dict(run=[('any', 2), ('noproj', 2), ('init', 1), ('fault', 1), ('reg', 1)], comp=0),
    'C02': dict(run=[('any', 2), ('fault', 1), ('init', 1), ('reg', 1)], comp=0),
    'C03': dict(run=[('any', 2), ('reg', 1), ('jac', 1), ('proj', 1), ('fault', 1)], comp=0),
    'C04': dict(run=[('any', 2), ('fault', 1), ('reg', 1), ('proj', 2)], comp=0),
    'C07': dict(run=[('any', 1), ('diag', 1), ('proj', 1)], comp=2500),
    'C08': dict(run=[('fault', 1)], comp=0),
    'C09': dict(run=[('proj', 1)], comp=0),
    'C10': dict(run=[('any', 2), ('fault', 1), ('reg', 1), ('proj', 1)], comp=0),
    'C11': dict(run=[('jac', 1)], comp=0),
    'C12': dict(run=[('noproj', 1)], comp=20000),
    'C13': dict(run=[('reg', 2), ('proj', 1)], comp=8000),
    'C14': dict(run=[('init', 1)], comp=20000),
    'C15': dict(run=[], comp=20000),
    'C16': dict(run=[('jac', 1)], comp=1500),
    'C17': dict(run=[('any', 1), ('reg', 1)], comp=8000),
    'C18': dict(run=[('diag', 1)], comp=0),
    'C19': dict(run=[], comp=300),
    'C20': dict(run=[('json', 1), ('diag', 1)], comp=6000),
}
NRUN = {'quick': 1500, 'thorough': 12000}
COMPX = {'quick': 1, 'thorough': 30}


def run_case(case):
    """Returns the list of violation messages of case['pid'] for one case."""
    from rac import runner, scenarios, monitors, comp
    import numpy as np
    pid = case['pid']
    if case['kind'] == 'comp':
        try:
            with runner.Timer(case.get('timeout', 60)):
                return comp.COMPS[pid](case['seed']), 1
        except runner.HangError:
            return ['component case did not terminate within %d s of CPU time' % case.get('timeout', 60)], 1
    sc = case.get('scenario') or scenarios.gen(case['seed'], case['focus'])
    rec = runner.run(sc, iter_hook=monitors.iter_hook if pid in ('C03', 'C04', 'C17') else None, timeout=case.get('timeout', 60),
                     after_fit=monitors.after_fit if pid == 'C16' else None,
                     tr_hook=monitors.tr_hook if pid in ('C12', 'C13') else None)
    out = []
    if pid in monitors.MONITORS:
        out += list(monitors.MONITORS[pid](rec))
    out += [v for (p, v) in rec.iter_viol if p == pid]
    if pid == 'C20' and rec.soln is not None and rec.soln.flag != rec.soln.EXIT_INPUT_ERROR:
        out += comp.json_roundtrip(rec.soln)
    return [str(o) for o in out], len(rec.calls)


def work(case):
    t = time.time()
    try:
        out, n = run_case(case)
        if any('time limit' in o or 'did not terminate' in o for o in out) and 'timeout' not in case:
            out, n = run_case(dict(case, timeout=240))      # confirm a suspected hang with a much larger limit
        return case, out, n, None
    except Exception:
        import traceback
        return case, [], 0, traceback.format_exc()


def workmany(cases):
    return [work(c) for c in cases]


def batches(J):
    """Component cases are cheap: group them; whole runs go one at a time."""
    out, cur = [], []
    for c in J:
        if c['kind'] == 'comp' and c['pid'] not in ('C19',):
            cur.append(c)
            if len(cur) >= 16:
                out.append(cur); cur = []
        else:
            out.append([c])
    if cur:
        out.append(cur)
    return out


def jobs(pid, seed, tier):
    plan = PLAN[pid]
    nc = plan['comp'] * COMPX[tier]
    if pid in ('C19',):
        base = zlib.crc32(pid.encode()) % 1000 + 100000 * seed
    else:
        base = 100000 * seed
    runs = []
    if plan['run']:
        tot = sum(w for _, w in plan['run'])
        seq = [f for f, w in plan['run'] for _ in range(w)]
        for i in range(NRUN[tier]):
            runs.append(dict(pid=pid, kind='run', focus=seq[i % tot], seed=base + i // tot))
    comps = [dict(pid=pid, kind='comp', seed=base + i) for i in range(nc)]
    # interleave so that a time cut keeps the mix
    out = []
    i = j = 0
    while i < len(runs) or j < len(comps):
        if j >= len(comps) or (i < len(runs) and i * max(len(comps), 1) <= j * max(len(runs), 1)):
            out.append(runs[i]); i += 1
        else:
            out.append(comps[j]); j += 1
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid', nargs='?')
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--budget', type=float, default=60)
    ap.add_argument('--out')
    ap.add_argument('--replay')
    ap.add_argument('--procs', type=int, default=8)
    a = ap.parse_args()
    if a.replay:
        case = json.load(open(a.replay))['case']
        out, n = run_case(case)
        for o in out:
            print(o)
        sys.exit(1 if out else 0)
    import multiprocessing as mp
    t0 = time.time()
    J = jobs(a.pid, a.seed, a.tier)
    res = dict(pid=a.pid, planned=len(J), done=0, runs=0, comps=0, evaluations=0, nontrivial=0, violations=[], crashes=[], samples=[], timed_out=False, known=[])
    ctx = mp.get_context('fork')
    # import once before forking
    from rac import runner, scenarios, monitors, comp
    import dfols  # noqa
    pool = ctx.Pool(a.procs)
    kn = pool.apply_async(comp.KNOWN[a.pid]) if a.pid in comp.KNOWN else None
    try:
        B = batches(J)
        it = pool.imap_unordered(workmany, B, chunksize=1)
        for _ in range(len(B)):
            left = a.budget - (time.time() - t0)
            if left <= 0:
                res['timed_out'] = True
                break
            try:
                got = it.next(timeout=left)
            except mp.TimeoutError:
                res['timed_out'] = True
                break
            for case, out, n, crash in got:
                res['done'] += 1
                res['runs' if case['kind'] == 'run' else 'comps'] += 1
                res['evaluations'] += n
                if n > 1 or case['kind'] == 'comp':
                    res['nontrivial'] += 1
                if crash:
                    if len(res['crashes']) < 5:
                        res['crashes'].append(dict(case=case, trace=crash))
                if out:
                    res['violations'].append(dict(case=case, messages=out[:5]))
                elif len(res['samples']) < 2 and case['kind'] == 'run':
                    res['samples'].append(case)
            if len(res['violations']) >= 6:
                break
        if kn is not None:
            res['known'] = kn.get(timeout=120)
    finally:
        pool.terminate()
    if not res['samples']:
        res['samples'] = J[:2]
    res['wall_s'] = time.time() - t0
    json.dump(res, open(a.out, 'w') if a.out else sys.stdout, default=str)


if __name__ == '__main__':
    main()
