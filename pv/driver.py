"""check ID [--tier quick|thorough]: decides one property on /repo's current working tree."""
import argparse
import json
import multiprocessing as mp
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PV_REPO', '/repo')
PYPY = '/opt/pvenv/bin/python'


def table():
    import importlib
    return importlib.import_module('specs.table')


# ------------------------------------------------------------------ the verifier
def verify(job):
    """one contract in the verifier (runs in its own process)"""
    mod, name, budget, cross = job
    sys.setrecursionlimit(20000)
    import resource
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except (ValueError, OSError):
        pass
    from . import harness, solver as S
    xc = {'checked': 0, 'agree': 0, 'unknown': 0, 'disagree': 0, 'secs': 0.0}
    if cross:
        S.LOGZ[0] = cross_checker(xc, cross)
    r = harness.run_contract(mod, name, budget, REPO)
    known = {'E', 'eps', 'pow2bl', 'bitlen'}
    obls = []
    for o in r.obls:
        exact = False
        if o.status == 'refuted':
            names = {i.name for i in o.inputs}
            gs = list(o.goal[1:]) if isinstance(o.goal, tuple) else [o.goal]
            fa = set()
            for t in list(o.facts.facts) + gs:
                fa |= set(t.fa)
            exact = all(n in names or n.split('!')[0] in ('E', 'eps') for n in fa)
        obls.append({'label': o.label, 'loc': '%s:%s' % tuple(o.loc), 'status': o.status, 'secs': round(o.secs, 4),
                     'model': o.model, 'exact': exact, 'info': str(o.info)[:3000],
                     'goal': (str(o.goal) if o.status != 'proved' else '')[:3000],
                     'facts': [str(f)[:300] for f in o.facts.facts][:40] if o.status != 'proved' else []})
    return {'module': mod, 'name': name, 'obls': obls, 'paths': r.paths, 'error': r.error, 'kind': r.kind,
            'secs': round(r.secs, 3), 'functions': r.functions, 'natives': getattr(r, 'natives', []),
            'z3': dict(S.STATS), 'cross': xc}


def cross_checker(xc, limit):
    """hands every query z3 answered `unsat` to cvc5"""
    def f(s):
        if xc['checked'] >= limit:
            return
        import tempfile as tf
        xc['checked'] += 1
        t0 = time.time()
        with tf.NamedTemporaryFile('w', suffix='.smt2', delete=False) as g:
            g.write('(set-logic ALL)\n' + s.sexpr() + '\n(check-sat)\n')
        try:
            p = subprocess.run(['cvc5', '--tlimit=4000', g.name], capture_output=True, text=True, timeout=20)
            a = p.stdout.strip().split('\n')[0]
        except subprocess.TimeoutExpired:
            a = 'timeout'
        finally:
            os.unlink(g.name)
        xc['secs'] += time.time() - t0
        xc['agree' if a == 'unsat' else 'disagree' if a == 'sat' else 'unknown'] += 1
    return f


# ------------------------------------------------------------------ the real code
def run_native(jobs, scratch, tag, timeout):
    if not jobs:
        return {}
    f = os.path.join(scratch, tag + '.json')
    env = dict(os.environ, OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', PYTHONDONTWRITEBYTECODE='1',
               PV_REPO=REPO, PV_SCRATCH=scratch, MPLBACKEND='Agg')
    env.pop('PYTHONPATH', None)

    def go(js, limit):
        with open(f, 'w') as g:
            json.dump({'jobs': js}, g)
        try:
            p = subprocess.run([PYPY, os.path.join(HERE, 'pv', 'native.py'), f], capture_output=True, text=True, env=env,
                               timeout=limit, cwd=scratch)
            return p.stdout, p.stderr, p.returncode
        except subprocess.TimeoutExpired as e:
            return e.stdout.decode() if isinstance(e.stdout, bytes) else (e.stdout or ''), 'timeout', None
    res, left, end = {}, list(jobs), time.time() + timeout
    while left:
        out, err, rc = go(left, max(5, end - time.time()))
        last, runs = None, 0
        for l in out.splitlines():
            try:
                if l.startswith('@@'):
                    d = json.loads(l[2:])
                    res[(d['module'], d['name'])] = d
                    last, runs = None, 0
                elif l.startswith('@>'):
                    last = json.loads(l[2:])
                    runs += 1
            except ValueError:
                pass
        left = [j for j in left if (j['module'], j['name']) not in res]
        if not left:
            break
        j = left.pop(0)
        k = (j['module'], j['name'])
        d = res[k] = {'module': k[0], 'name': k[1], 'runs': max(0, runs - 1), 'checks': 0, 'skips': 0, 'fail': None,
                      'crash': (err or '')[-800:], 'rc': rc}
        if rc in CRASHES and last is not None and (last[0], last[1]) == k:
            # the interpreter itself died in this run: it has to die again on the same input to count
            out, err2, rc2 = go([dict(j, inputs=[], runs=0, exact=[last[2:]])], 120)
            if rc2 in CRASHES:
                d['fail'] = {'label': 'no-crash', 'detail': 'the interpreter died with status %s' % rc2, 'seed': last[2],
                             'maxn': last[3], 'forced': last[4], 'inputs': {}}
        if time.time() > end - 5:
            for j in left:
                k = (j['module'], j['name'])
                res[k] = {'module': k[0], 'name': k[1], 'runs': 0, 'checks': 0, 'skips': 0, 'fail': None,
                          'crash': 'no time left', 'rc': rc}
            break
    return res


CRASHES = tuple(-x for x in (4, 6, 7, 8, 11)) + tuple(128 + x for x in (4, 6, 7, 8, 11))


def _native_task(a):
    return run_native(*a)


def chunk(ls, n):
    out = [[] for _ in range(n)]
    for i, x in enumerate(ls):
        out[i % n].append(x)
    return [o for o in out if o]


# ------------------------------------------------------------------ known findings
def known_findings(prop):
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: property=%s ' % prop):
                out.append(l.split(' ', 2)[2])
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 4))
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    prop, tier = a.property, a.tier
    thorough = tier == 'thorough'
    t0 = time.time()
    sys.path.insert(0, HERE)
    tb = table()
    ent = tb.PROPS[prop]
    scratch = tempfile.mkdtemp(prefix='pv-%s-' % prop)
    try:
        rc = decide(prop, ent, tb, tier, thorough, seed, a.jobs, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)


def decide(prop, ent, tb, tier, thorough, seed, jobs, scratch, t0):
    proof = [(m, n) for m, n in ent['contracts']]
    bounded = [(m, n) for m, n in ent.get('bounded', [])]
    budget = (400 if thorough else 150)
    cross = 400 if thorough else 0
    runs = 200 if thorough else 40
    ctx = mp.get_context('fork')
    nats = [{'module': m, 'name': n, 'runs': runs, 'seed': seed, 'budget': 120 if thorough else 25,
             'mult': 6 if thorough else 1} for m, n in proof]
    nats += [{'module': m, 'name': n, 'runs': runs * 4, 'seed': seed, 'budget': 240 if thorough else 50,
              'mult': 6 if thorough else 2} for m, n in bounded]
    # slow native jobs first, spread over processes
    hints = getattr(tb, 'COST', {})
    nats.sort(key=lambda j: -hints.get(j['name'], 1))
    vjobs = sorted([(m, n, budget, cross) for m, n in proof], key=lambda j: -hints.get(j[1], 1))
    nproc = 2 if len(nats) > 1 else 1
    if len(vjobs) == 0:
        nproc = min(jobs, max(1, len(nats)))
    elif len(bounded) > 3:
        nproc = 4
    with ctx.Pool(jobs, maxtasksperchild=1) as pool:
        nr = [pool.apply_async(_native_task, ((c, scratch, 'n%d' % i, 1500 if thorough else 420),))
              for i, c in enumerate(chunk(nats, nproc))]
        vr = [pool.apply_async(verify, (j,)) for j in vjobs]
        vres = []
        for j, r in zip(vjobs, vr):
            try:
                vres.append(r.get(timeout=budget + 300))
            except Exception as e:
                vres.append({'module': j[0], 'name': j[1], 'obls': [], 'paths': 0, 'error': 'verifier process: %r' % (e,),
                             'kind': 'internal', 'secs': 0, 'functions': {}, 'natives': [], 'z3': {}, 'cross': {}})
        nres = {}
        for r in nr:
            nres.update(r.get(timeout=1800))
    # second look at the obligations that were not discharged: search a failing input around the counter-models
    again = []
    for v in vres:
        bad = [o for o in v['obls'] if o['status'] != 'proved']
        k = (v['module'], v['name'])
        if v['error'] and not nres[k].get('fail'):
            # the prover could not follow this code: a deeper search on the real code stands in
            again.append({'module': k[0], 'name': k[1], 'runs': 400, 'seed': seed + 11, 'budget': 60, 'mult': 4, 'big': True})
        elif bad and not nres[k].get('fail'):
            models = []
            for o in bad:
                if o['model'] is not None and o['model'] not in models:
                    models.append(o['model'])
            again.append({'module': k[0], 'name': k[1], 'runs': 300, 'seed': seed + 7, 'inputs': models[:20],
                          'budget': 60, 'mult': 10, 'big': True})
    if again:
        with ctx.Pool(min(jobs, len(again)), maxtasksperchild=1) as pool:
            for d in pool.map(_native_task, [([j], scratch, 'r%d' % i, 200) for i, j in enumerate(again)]):
                for k, r in d.items():
                    old = nres[k]
                    nres[k] = dict(old, runs=old['runs'] + r['runs'], checks=old['checks'] + r['checks'],
                                   fail=old.get('fail') or r['fail'])
    # ---------------------------------------------------------------- verdict
    violations, notes = [], []
    rdir = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(prop + '-'):
            os.unlink(os.path.join(rdir, f))
    known = known_findings(prop)
    kf = set()

    def report(kind, mod, name, label, payload, suffix):
        ident = '%s.%s %s' % (mod, name, label)
        for k in known:
            if k.split(' :: ')[0] == ident:
                kf.add(k)
                return
        f = os.path.join(rdir, '%s-%d.json' % (prop, len(violations)))
        with open(f, 'w') as g:
            json.dump(dict(payload, property=prop, contract='%s.%s' % (mod, name), obligation=label, kind=kind,
                           rerun='%s/replay %s' % (HERE, f)), g, indent=1, default=str)
        violations.append((f, suffix, ident))
    for (m, n), d in sorted(nres.items()):
        if d.get('fail'):
            x = d['fail']
            vo = [v for v in vres if (v['module'], v['name']) == (m, n)]
            failed = [{k: o[k] for k in ('label', 'loc', 'status', 'goal', 'facts', 'info')}
                      for v in vo for o in v['obls'] if o['status'] != 'proved'][:3]
            report('failing input', m, n, x['label'], {'detail': x['detail'], 'seed': x['seed'], 'maxn': x.get('maxn'),
                                                       'forced': x.get('forced'), 'inputs': x['inputs'],
                                                       'verifier': failed}, '')
    for v in vres:
        k = (v['module'], v['name'])
        if nres[k].get('fail'):
            continue
        bad = [o for o in v['obls'] if o['status'] != 'proved']
        if bad and v['kind'] in (None,):
            o = ([x for x in bad if x['status'] == 'refuted'] or bad)[0]
            report('obligation not discharged', k[0], k[1], o['label'],
                   {'verifier_output': o, 'others': [x['label'] for x in bad[1:20]]}, ' no-failing-input-found')
        elif bad:
            ex = [x for x in bad if x['status'] == 'refuted' and x['exact']]
            if ex:
                report('obligation refuted', k[0], k[1], ex[0]['label'], {'verifier_output': ex[0]},
                       ' no-failing-input-found')
    nob = sum(len(v['obls']) for v in vres)
    ndis = sum(1 for v in vres for o in v['obls'] if o['status'] == 'proved')
    proved = [v['module'] + '.' + v['name'] for v in vres if not v['error'] and v['obls'] and
              all(o['status'] == 'proved' for o in v['obls'])]
    fallback = [{'contract': v['module'] + '.' + v['name'], 'reason': v['error'] or 'undischarged obligations'}
                for v in vres if v['module'] + '.' + v['name'] not in proved]
    funcs = {}
    for v in vres:
        for f, c in v['functions'].items():
            if f.startswith('runlmc.'):
                funcs[f] = funcs.get(f, 0) + c
    nchecks = sum(d['checks'] for d in nres.values())
    nruns = sum(d['runs'] for d in nres.values())
    crashes = [(k, d.get('crash')) for k, d in nres.items() if d.get('crash') is not None]
    # non-vacuity: every contract must have been satisfied by at least one concrete execution
    vac = ['%s.%s' % k for k, d in nres.items() if not d['checks'] and not d.get('fail')]
    natives = sorted(set(x for v in vres for x in v['natives']))
    allproved = bool(proved) and not fallback
    cov = {
        'obligations': nob, 'discharged': ndis, 'checker_cmd': 'cd %s && ./check %s --tier %s' % (HERE, prop, tier),
        'trusted_base': tb.TRUSTED,
        'contracts_proved': proved, 'contracts_on_bounded_stand_in': fallback,
        'bounded_contracts': [{'contract': '%s.%s' % k, 'bound': 'random concrete inputs, %d runs, %d checks' % (
            nres[k]['runs'], nres[k]['checks'])} for k in bounded],
        'functions_under_contract': sorted(funcs),
        'paths': sum(v['paths'] for v in vres),
        'backend': 'pv (sum normal form + symbolic execution) with z3; thorough: cvc5 cross-check',
        'solver': {'z3_calls': sum(v['z3'].get('z3_calls', 0) for v in vres),
                   'z3_seconds': round(sum(v['z3'].get('z3_time', 0) for v in vres), 2),
                   'verifier_seconds': round(sum(v['secs'] for v in vres), 2),
                   'cvc5': {k: sum(v['cross'].get(k, 0) for v in vres) for k in ('checked', 'agree', 'unknown', 'disagree')}},
        'native_runs': nruns, 'native_checks': nchecks,
        'native_crashes': ['%s.%s: %s' % (k[0], k[1], c) for k, c in crashes],
        'dependency_models_used': natives,
        'evaluations': nruns, 'distinct_nontrivial': nruns,
        'rule': 'every contract also runs on the real code with random sizes and values (seeded); a run counts when '
                'its preconditions hold',
        'samples': [{'contract': '%s.%s' % k, 'runs': d['runs'], 'checks': d['checks']} for k, d in list(nres.items())[:5]],
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': ent.get('level', 'proof'), 'coverage': cov,
          'assumptions': tb.ASSUMPTIONS + ent.get('assumptions', []), 'wall_s': round(time.time() - t0, 2),
          'violations': len(violations)}
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as g:
        json.dump(ev, g, indent=1)
    print('%s: %d/%d obligations discharged over %d contracts (%d proved), %d concrete checks in %d runs, %.1fs' % (
        prop, ndis, nob, len(vres) + len(bounded), len(proved), nchecks, nruns, time.time() - t0))
    for f in fallback:
        print('  bounded stand-in: %s (%s)' % (f['contract'], str(f['reason'])[:300].replace('\n', ' ')))
    for k, c in crashes:
        print('  native run incomplete: %s.%s %s' % (k[0], k[1], (c or '')[-200:]))
    for v in vac:
        print('  vacuous: %s' % v)
    for k in sorted(kf):
        print('KNOWN-FINDING: property=%s %s' % (prop, k))
    if violations:
        for f, suffix, ident in violations:
            print('  violated: %s' % ident)
        f, suffix, ident = sorted(violations, key=lambda x: x[1])[0]
        print('VIOLATION property=%s replay=%s%s' % (prop, f, suffix))
        return 1
    if not nob and not nchecks:
        print('no obligation was generated')
        return 2
    return 0


if __name__ == '__main__':
    main()
