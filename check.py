#!/usr/bin/env python3
"""Driver: check.py PID.  Runs the deductive part (dvc) and the bounded runtime-assertion part (rac) for one property
against /repo's current working tree; writes evidence/PID.json; prints VIOLATION / KNOWN-FINDING lines."""
import sys, os, json, time, subprocess, signal

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'
PYVT = 'python3-vt'
KNOWN = os.path.join(VERIF, 'known_findings.txt')
BUDGET = {'quick': 55, 'thorough': 720}
SEARCH = {'quick': 150, 'thorough': 300}      # extra bounded search for a failing input after a refuted obligation


def sh(cmd, timeout, env=None):
    p = subprocess.Popen(cmd, cwd=VERIF, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env, start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
        return p.returncode, out, err
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        out, err = p.communicate()
        return None, out, err


def environment():
    e = dict(os.environ)
    e.update(OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', PYTHONDONTWRITEBYTECODE='1', VERIF_REPO=REPO, PYTHONHASHSEED='0')
    return e


def run_rac(pid, seed, tier, budget, tag=''):
    out = os.path.join(VERIF, 'evidence', '.rac_%s%s.json' % (pid, tag))
    if os.path.exists(out):
        os.remove(out)
    rc, so, se = sh([PY, '-B', 'rac/battery.py', pid, '--seed', str(seed), '--tier', tier, '--budget', str(budget), '--out', out], budget + 500, environment())
    if not os.path.exists(out):
        return None, (se or '')[-3000:]
    d = json.load(open(out))
    os.remove(out)
    return d, None


def run_proof(pid, tier):
    out = os.path.join(VERIF, 'evidence', '.dvc_%s.json' % pid)
    if os.path.exists(out):
        os.remove(out)
    rc, so, se = sh([PYVT, '-B', '-m', 'dvc.prove', pid, '--tier', tier, '--out', out], 420 if tier == 'quick' else 700, environment())
    if not os.path.exists(out):
        return None, (se or '')[-3000:]
    d = json.load(open(out))
    os.remove(out)
    return d, None


def known(pid):
    ks = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith('known: property=%s ' % pid):
                ks.append(l[len('known: '):])
    return ks


def write_replay(pid, obj):
    d = os.path.join(VERIF, 'replay')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s.json' % pid)
    with open(path, 'w') as f:
        json.dump(obj, f, indent=1, default=str)
    return path


def main():
    pid = sys.argv[1]
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    has_contract = os.path.exists(os.path.join(VERIF, 'contracts', pid + '.py'))
    proof = perr = None
    if has_contract:
        proof, perr = run_proof(pid, tier)
    rac, rerr = run_rac(pid, seed, tier, BUDGET[tier])
    refuted = [o for o in (proof or {}).get('obligations', []) if o['status'] == 'refuted']
    viol = (rac or {}).get('violations', [])
    extra = None
    if refuted and not viol:
        extra, _ = run_rac(pid, seed + 1000, tier, SEARCH[tier], '_x')
        viol = (extra or {}).get('violations', [])
    # ---- known findings: replayed on every run
    lines = []
    ks = known(pid)
    for k in (rac or {}).get('known', []):
        key = k.split(' ')[0]
        if any((' ' + key + ' ') in (' ' + l + ' ') for l in ks):
            lines.append('KNOWN-FINDING: property=%s %s' % (pid, k))
        else:
            viol = viol + [dict(case=dict(pid=pid, kind='known', key=key), messages=[k])]
    status = 0
    if viol:
        v = viol[0]
        path = write_replay(pid, dict(property=pid, kind='concrete', case=v['case'], messages=v['messages'], all=[dict(case=w['case'], messages=w['messages']) for w in viol],
                                      failed_obligations=refuted,
                                      replay='cd %s && OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 %s -B rac/battery.py --replay %s' % (VERIF, PY, os.path.join(VERIF, 'replay', pid + '.json'))))
        for m in v['messages']:
            print('  ' + m[:400])
        for o in refuted:
            print('  failed obligation: %s' % o['name'])
        lines.append('VIOLATION property=%s replay=%s' % (pid, path))
        status = 1
    elif refuted:
        path = write_replay(pid, dict(property=pid, kind='obligation', failed_obligations=refuted, verifier_output=(proof or {}).get('log', '')))
        for o in refuted:
            print('  failed obligation: %s\n    %s' % (o['name'], str(o.get('reason', ''))[:600]))
        lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, path))
        status = 1
    elif rac is None:
        print('bounded part did not run: %s' % rerr)
        status = 2
    # ---- evidence
    obs = (proof or {}).get('obligations', [])
    nob = len(obs); ndis = sum(1 for o in obs if o['status'] == 'proved')
    und = [dict(name=o['name'], why=o.get('reason', '')[:300]) for o in obs if o['status'] not in ('proved', 'refuted')]
    rd = rac or {}
    cov = dict(
        evaluations=rd.get('evaluations', 0), distinct_nontrivial=rd.get('nontrivial', 0),
        rule='bounded stand-in: generated whole runs / component cases (rac/scenarios.py, rac/comp.py); non-trivial = more than one objective evaluation, or a component case whose precondition held',
        samples=rd.get('samples', [])[:2],
        bounded=dict(planned=rd.get('planned'), done=rd.get('done'), runs=rd.get('runs'), component_cases=rd.get('comps'), stopped_by_time_budget=rd.get('timed_out'), monitor_crashes=len(rd.get('crashes', [])), crash_samples=rd.get('crashes', [])[:2],
                     bound='the generated inputs of this run only (seed %d)' % seed))
    level = 'exploration'
    if has_contract:
        cov.update(obligations=nob, discharged=ndis, checker_cmd='cd /verif && python3-vt -B -m dvc.prove %s' % pid,
                   trusted_base=(proof or {}).get('trusted', []), functions_under_contract=(proof or {}).get('functions', []), undecided=und,
                   backends=(proof or {}).get('backends', {}), solver_time_s=(proof or {}).get('solver_s'), vacuity=(proof or {}).get('vacuity'),
                   clauses=(proof or {}).get('clauses', {}), bounded_only_clauses=(proof or {}).get('bounded_clauses', []))
        level = (proof or {}).get('level', 'exploration')
        if proof is None:
            cov['proof_error'] = perr
            level = 'exploration'
        if und or nob == 0:
            level = 'exploration'
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, wall_s=round(time.time() - t0, 2), violations=len(viol) + (1 if status == 1 and not viol else 0),
              assumptions=(proof or {}).get('assumptions', []))
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    if has_contract:
        print('%s: %d/%d obligations discharged, %d undecided; bounded part: %d cases, %d evaluations' % (pid, ndis, nob, len(und), rd.get('done', 0), rd.get('evaluations', 0)))
        if proof is None:
            print('  deductive part did not finish: %s' % (perr or '')[-500:])
    else:
        print('%s: bounded part only: %d cases, %d evaluations' % (pid, rd.get('done', 0), rd.get('evaluations', 0)))
    for l in lines:
        print(l)
    sys.exit(status)


if __name__ == '__main__':
    main()
