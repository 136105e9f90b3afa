"""check.py <property> [--tier quick|thorough]
Discharge the contracts of a property against /repo's current source; replay what fails on the real code."""
import argparse
import hashlib
import importlib
import json
import multiprocessing
import os
import subprocess
import sys
import tempfile
import time

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
PY = '/opt/venv/bin/python'
JOBS = int(os.environ.get('PV_JOBS', '8'))
_OBS = []
STOP = 10


def _work(i):
    from pv import contract
    r = contract.discharge(_OBS[i])
    return i, r.__dict__


def _chunk(idx):
    return [_work(i) for i in idx]


def prove(mod, tier, budget):
    """all obligations, in parallel; returns list of result dicts in order"""
    global _OBS
    _OBS = list(mod.obligations(tier))
    n = len(_OBS)
    res = [None] * n
    heavy = getattr(mod, 'HEAVY', False)
    per = 1 if heavy else max(1, min(40, n // (JOBS * 3) + 1))
    chunks = [list(range(i, min(i + per, n))) for i in range(0, n, per)]
    t_end = time.time() + budget
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(min(JOBS, max(1, len(chunks)))) as pool:
        handles = [(c, pool.apply_async(_chunk, (c,))) for c in chunks]
        for c, h in handles:
            try:
                for i, d in h.get(max(1.0 if t_end else 0.05, t_end - time.time())):
                    res[i] = d
                if sum(1 for r in res if r and r['status'] == 'refuted' and r['witness']) >= STOP:
                    t_end = 0        # enough counterexamples
            except multiprocessing.TimeoutError:
                for i in c:
                    res[i] = dict(name=_OBS[i].name, func=_OBS[i].func, config=_OBS[i].config, kind=_OBS[i].kind,
                                  status='undecided', detail='time budget exhausted' if t_end else 'not attempted',
                                  checks=0, paths=0, witness=None, sizes=[], secs=0.0, z3=0, z3t=0.0)
        pool.terminate()
    return res


def run_cases(prop, cases, budget, jobs=JOBS):
    """the real code on concrete cases -> list of outcomes"""
    if not cases:
        return []
    jobs = max(1, min(jobs, (len(cases) + 11) // 12))
    out = []
    with tempfile.TemporaryDirectory(prefix='pvcases') as d:
        procs = []
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PV_BUDGET=str(budget), TF_CPP_MIN_LOG_LEVEL='3',
                   CUDA_VISIBLE_DEVICES='', OMP_NUM_THREADS='1', TF_NUM_INTRAOP_THREADS='1',
                   TF_NUM_INTEROP_THREADS='1', TMPDIR=d)
        for j in range(jobs):
            part = cases[j::jobs]
            src, dst = os.path.join(d, 'in%d.json' % j), os.path.join(d, 'out%d.json' % j)
            json.dump(part, open(src, 'w'))
            err = open(os.path.join(d, 'err%d' % j), 'w')
            procs.append((subprocess.Popen([PY, os.path.join(HERE, 'replay', 'run.py'), prop, src, dst], env=env, cwd=d,
                                           stdout=subprocess.DEVNULL, stderr=err), dst, err.name, len(part)))
        for p, dst, err, n in procs:
            try:
                p.wait(budget + 120)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
            if os.path.exists(dst):
                out += json.load(open(dst))
            else:
                out.append(dict(case=None, harness='replay process ended with %s: %s' % (
                    p.returncode, open(err).read()[-600:])))
    return out


def jdump(path, obj):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w') as f:
        json.dump(obj, f, indent=1, default=str)


def known(prop):
    """listed findings of this property: list of (match, text)"""
    r = []
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('known: property=%s ' % prop):
                body = line[len('known: property=%s ' % prop):]
                key, _, text = body.partition(' ')
                r.append((key.partition('=')[2], text))
    return r


def passed(r, outs):
    """the real code meets its contract on this counterexample"""
    return r['witness'] and any(o.get('fail') is None and o.get('case', {}).get('origin') == 'counterexample:' + r['name']
                                for o in outs if 'fail' in o)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--replay')
    a = ap.parse_args()
    if a.replay:
        sys.exit(subprocess.call([PY, os.path.join(HERE, 'replay', 'run.py'), '--replay', a.replay],
                                 env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1')))
    prop, tier = a.prop, a.tier
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    mod = importlib.import_module('contracts.' + prop)
    res = prove(mod, tier, 380 if tier == 'quick' else 6 * 3600)
    tp = time.time() - t0
    open_ = [r for r in res if r['status'] != 'discharged']
    refuted = [r for r in open_ if r['status'] == 'refuted']

    # ---- failed obligations: their counterexamples and configurations on the real code
    sys.path.insert(0, HERE)
    import random
    rnd = random.Random(seed)
    gen = importlib.import_module('replay.cases')
    cases = []
    for r in open_[:200]:
        if r['witness']:
            cases.append(dict(func=r['func'], config=r['config'], dims=r['witness']['dims'],
                              values=r['witness'].get('values', {}), seed=seed, origin='counterexample:' + r['name']))
        k = 6 if len(open_) < 30 else 3
        for j, d in enumerate(r.get('sizes', [])[:8 if len(open_) < 12 else 3]):
            cases += [dict(func=r['func'], config=r['config'], dims={k: v for k, v in d.items() if not (i and k == 'steps')}, seed=seed * 1000 + 50 * i + j, origin='sizes:' + r['name'])
                      for i in range(2)]
        for j in range(k):
            cases.append(dict(func=r['func'], config=r['config'], seed=seed * 1000 + j, origin='configuration:' + r['name']))
    # ---- run-time contracts: assumed dependency contracts sampled on the real code
    audit = gen.battery(prop, mod, _OBS, tier, seed)
    outs = run_cases(prop, cases, 120) if cases else []
    bad = [o for o in outs if o.get('fail')]
    if not bad:
        outs2 = run_cases(prop, audit, 200 if tier == 'quick' else 1800)
        bad = [o for o in outs2 if o.get('fail')]
    else:
        outs2 = []
    harness = [o['harness'] for o in outs + outs2 if o.get('harness')]
    ran = [o for o in outs + outs2 if 'fail' in o]
    kn = known(prop)
    viol, seen_known = [], []
    for o in bad:
        text = '%s %s' % (o['case'].get('func'), o['fail'])
        hit = [k for k in kn if k[0] in text]
        if hit:
            seen_known.append(hit[0])
        else:
            viol.append(o)
    lines = []
    rdir = os.path.join(HERE, 'out', 'replay')
    if viol:
        o = min(viol, key=lambda o: len(json.dumps(o['case'], default=str)))
        h = hashlib.sha1(json.dumps(o, sort_keys=True, default=str).encode()).hexdigest()[:10]
        path = os.path.join(rdir, '%s-%s.json' % (prop, h))
        rel = [r for r in open_ if o['case'].get('origin', '').endswith(r['name'])] or refuted or open_
        jdump(path, dict(property=prop, case=o['case'], violated=o['fail'],
                         failed_obligation=(dict(name=rel[0]['name'], detail=rel[0]['detail'], witness=rel[0]['witness'])
                                            if rel else None),
                         rerun='python3-vt check.py %s --replay %s' % (prop, path)))
        lines.append('VIOLATION property=%s replay=%s' % (prop, path))
    else:
        # not accepted by the verifier (limits of time excepted): the obligation is the violation
        hard = [r for r in refuted if not passed(r, outs)] or [r for r in refuted] or \
            [r for r in open_ if not any(x in r['detail'] for x in ('time limit', 'time budget', 'not attempted'))]
        if hard:
            r = hard[0]
            path = os.path.join(rdir, '%s-%s.json' % (prop, hashlib.sha1(r['name'].encode()).hexdigest()[:10]))
            jdump(path, dict(property=prop, case=None, failed_obligation=dict(
                name=r['name'], detail=r['detail'], witness=r['witness'])))
            lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))
    for k, text in dict.fromkeys(seen_known):
        lines.append('KNOWN-FINDING: property=%s %s' % (prop, text))
    checks = sum(r['checks'] for r in res)
    disch = sum(r['checks'] for r in res if r['status'] == 'discharged')
    if open_ and checks == disch:
        checks += len(open_)
    from pv import assumptions
    ev = dict(
        property=prop, tier=tier, seed=seed, level='proof',
        coverage=dict(
            obligations=checks, discharged=disch,
            checker_cmd='python3-vt check.py %s --tier %s' % (prop, tier),
            trusted_base=assumptions.TRUSTED,
            functions_under_contract=mod.FUNCS,
            contract_instances=len(res),
            contract_instances_discharged=len(res) - len(open_),
            contract_instances_undecided=[dict(name=r['name'], why=r['detail'][:300]) for r in open_][:40],
            paths=sum(r['paths'] for r in res),
            back_ends=dict(normaliser='pv.alg (equalities)', z3_queries=sum(r['z3'] for r in res),
                           z3_seconds=round(sum(r['z3t'] for r in res), 2),
                           solver_cpu_seconds=round(sum(r['secs'] for r in res), 2)),
            bounds=getattr(mod, 'BOUNDS', 'none beyond those listed in the assumptions'),
            runtime_contract_evaluations=len(ran),
            runtime_harness_errors=len(harness),
            samples=[r['name'] for r in res[:: max(1, len(res) // 6)]][:8]),
        assumptions=assumptions.ASSUMED + list(getattr(mod, 'ASSUMES', [])),
        wall_s=round(time.time() - t0, 2), violations=sum(1 for x in lines if x.startswith('VIOLATION')))
    jdump(os.path.join(HERE, 'evidence', prop + '.json'), ev)
    print('%s tier=%s: %d/%d obligations of %d contract instances discharged in %.1f s; %d run-time contract evaluations '
          '(%d failing); %.1f s' % (prop, tier, disch, checks, len(res), tp, len(ran), len(bad), time.time() - t0))
    for r in open_[:12]:
        print('  open: %s %s: %s' % (r['status'], r['name'], r['detail'][:300]))
    for h in harness[:3]:
        print('  harness: ' + h[-400:].replace('\n', ' | '))
    for x in lines:
        print(x)
    if not res or not checks:
        print('VACUOUS: no obligation was generated')
        sys.exit(2)
    sys.exit(1 if any(x.startswith('VIOLATION') for x in lines) else 0)


if __name__ == '__main__':
    main()
