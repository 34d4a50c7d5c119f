"""Batch driver: seeds -> worker processes -> violation -> fresh-process confirmation -> minimised replay file
-> evidence.  Exit 0 held / 1 VIOLATION / 2 harness error."""
import argparse
import collections
import json
import os
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = sys.executable
KNOWN = os.path.join(VERIF, 'known_findings.json')


def worker_env(pid, hashseed=None):
    env = dict(os.environ)
    repo = env.get('DST_REPO', '/repo')
    env.update(PYTHONPATH='%s:%s' % (VERIF, repo), DST_REPO=repo, PYTHONDONTWRITEBYTECODE='1',
               PYTHONHASHSEED=str(hashseed if hashseed is not None else env.get('DST_HASHSEED', '0')),
               JAX_PLATFORMS='cpu', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', OPENBLAS_CORETYPE='Haswell',
               MKL_NUM_THREADS='1', NUMEXPR_NUM_THREADS='1', MPLBACKEND='Agg',
               XLA_FLAGS='--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1',
               JAX_ENABLE_COMPILATION_CACHE='false')
    from . import registry, shimbuild
    pre = [shimbuild.ensure('heapshim')]
    if 'shim' in registry.CHECKS[pid]().needs:
        pre.append(shimbuild.ensure())
    env['LD_PRELOAD'] = ':'.join(pre)
    return env


def scratch_dir():
    base = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) else None
    return tempfile.mkdtemp(prefix='dst-', dir=base)


def spawn(pid, args, env, scratch):
    work = os.path.join(scratch, 'work')
    os.makedirs(work, exist_ok=True)
    with open(os.path.join(scratch, 'out'), 'w') as o, open(os.path.join(scratch, 'err'), 'w') as e:
        return subprocess.Popen([PY, '-m', 'dst.worker', pid, work] + [str(a) for a in args], env=env, cwd=work,
                                stdin=subprocess.DEVNULL, stdout=o, stderr=e)


def collect(p, scratch, timeout):
    """-> (stdout lines, stderr tail, hung)"""
    hung = False
    try:
        p.wait(timeout=timeout)
    except subprocess.TimeoutExpired:
        hung = True
        p.kill()
        p.wait()
    with open(os.path.join(scratch, 'out')) as f:
        out = f.read()
    with open(os.path.join(scratch, 'err'), errors='replace') as f:
        err = f.read()[-3000:]
    rmtree(scratch)
    return out, err, hung


def run_files(pid, env, scenario_list, timeout=240):
    """Runs a chain of scenarios in one fresh process; -> list of results (or None when the process failed)."""
    with tempfile.NamedTemporaryFile('w', suffix='.json', delete=False) as f:
        json.dump(scenario_list, f)
    scratch = scratch_dir()
    try:
        p = spawn(pid, ['chain', f.name], env, scratch)
        out, err, hung = collect(p, scratch, timeout)
        if hung:
            return None
        res = [json.loads(l) for l in out.splitlines() if l.startswith('{')]
        return res if len(res) == len(scenario_list) else None
    finally:
        os.unlink(f.name)


def rmtree(d):
    import shutil
    assert os.path.basename(d).startswith('dst-')
    shutil.rmtree(d, ignore_errors=True)


def load_known(pid):
    try:
        with open(KNOWN) as f:
            data = json.load(f)
    except FileNotFoundError:
        return []
    return [e for e in data.get('open', []) if e['property'] == pid]


def match_known(known, viol):
    for e in known:
        if e['kind'] == viol['kind'] and e['match'] in viol['detail']:
            return e
    return None


def batch(check, tier, base, nruns, nworkers, env, soft):
    t0 = time.time()
    procs = []
    for w in range(nworkers):
        scratch = scratch_dir()
        procs.append((spawn(check.pid, ['batch', tier, base, w, nworkers, nruns, soft], env, scratch), scratch, w))
    results, fails = [], []
    hard = soft + 240
    for p, scratch, w in procs:
        out, err, hung = collect(p, scratch, max(5, hard - (time.time() - t0)))
        if hung:
            fails.append('worker %d hung (no answer within %d s)\n%s' % (w, hard, err[-1500:]))
        for l in out.splitlines():
            if l.startswith('{'):
                r = json.loads(l)
                r['worker'] = w
                results.append(r)
        if p.returncode not in (0,) and not fails:
            fails.append('worker %d exit %s\n%s' % (w, p.returncode, err[-3000:]))
    return results, fails, time.time() - t0


def minimise(check, env, sc, kind, budget):
    """Delta-debugging in one worker process; returns the smaller scenario."""
    with tempfile.NamedTemporaryFile('w', suffix='.json', delete=False) as f:
        json.dump({'sc': sc, 'kind': kind, 'budget': budget}, f)
    scratch = scratch_dir()
    try:
        p = spawn(check.pid, ['shrink', f.name], env, scratch)
        out, err, hung = collect(p, scratch, budget + 120)
        lines = [l for l in out.splitlines() if l.startswith('{')]
        if not lines:
            return sc, 0
        r = json.loads(lines[-1])
        return r['sc'], r['tried']
    finally:
        os.unlink(f.name)


def regen(check, tier, base, i):
    from . import core
    return check.gen(core.make_rng(core.seed_for(check.pid, base, i)), i, tier)


def confirm(check, env, tier, base, r, nworkers):
    """Reproduces a violation in fresh processes; returns (chain, result) or None."""
    sc = regen(check, tier, base, r['i'])
    res = run_files(check.pid, env, [sc])
    if res and res[-1]['violation'] and res[-1]['violation']['kind'] == r['violation']['kind']:
        hang = 'hang' in r['violation']['kind'] or 'processor time' in r['violation']['detail']
        if hang:        # each trial would take minutes
            return [sc], res[-1], 0
        mini, tried = minimise(check, env, sc, r['violation']['kind'], 75)
        for cand in (mini, sc):
            a = run_files(check.pid, env, [cand])
            b = run_files(check.pid, env, [cand])
            if a and b and a[-1]['violation'] and b[-1]['violation'] \
                    and a[-1]['digest'] == b[-1]['digest'] and a[-1]['violation'] == b[-1]['violation']:
                return [cand], a[-1], tried
    # state leaked from earlier runs of the same process: replay the chain
    idx = [i for i in range(r['worker'], r['i'] + 1, nworkers)]
    chain = [regen(check, tier, base, i) for i in idx]

    def viol(ch):
        out = run_files(check.pid, env, ch)
        return out[-1] if out and out[-1]['violation'] and \
            out[-1]['violation']['kind'] == r['violation']['kind'] else None
    best = viol(chain) or viol([sc]) or viol(chain)
    if not best:
        return None
    t0 = time.time()
    k = 1
    while k < len(chain) and time.time() - t0 < 60:      # shortest suffix that still violates, doubling
        v = viol(chain[-1 - k:])
        if v:
            chain, best = chain[-1 - k:], v
            break
        k *= 2
    changed = True
    while changed and time.time() - t0 < 90:
        changed = False
        for j in range(len(chain) - 1):
            cand = chain[:j] + chain[j + 1:]
            v = viol(cand)
            if v:
                chain, best, changed = cand, v, True
                break
    return chain, best, 0


def write_replay(check, chain, result, base, i, tier):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%s.json' % (check.pid, result['digest'][:10]))
    with open(path, 'w') as f:
        json.dump({'property': check.pid, 'verif_seed': base, 'run': i, 'tier': tier, 'chain': chain,
                   'violation': result['violation'], 'digest': result['digest'], 'trace': result['trace']}, f, indent=1)
    return path


def replay(path):
    from . import registry
    with open(path) as f:
        data = json.load(f)
    check = registry.CHECKS[data['property']]()
    env = worker_env(check.pid)
    res = run_files(check.pid, env, data['chain'])
    if not res:
        print('replay: the process gave no result')
        return 2
    r = res[-1]
    if r['error']:
        print(r['error'])
        return 2
    for l in r['trace'][-60:]:
        print('   ', l)
    if r['violation']:
        same = r['digest'] == data['digest']
        print('%s: %s' % (r['violation']['kind'], r['violation']['detail']))
        print('event log digest %s (%s the recorded one)' % (r['digest'], 'identical to' if same else 'DIFFERS from'))
        print('VIOLATION property=%s replay=%s' % (check.pid, path))
        return 1
    print('no violation on this tree')
    return 0


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--runs', type=int)
    ap.add_argument('--workers', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--digests', help='write i:digest lines here (determinism self-test)')
    a = ap.parse_args(argv)
    if a.replay:
        return replay(os.path.abspath(a.replay))
    from . import registry
    check = registry.CHECKS[a.property]()
    t0 = time.time()
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    env = worker_env(check.pid)
    nruns = a.runs or (check.runs_quick if tier == 'quick' else check.runs_thorough)
    soft = 300 if tier == 'quick' else 3000
    print('%s tier=%s VERIF_SEED=%d runs=%d workers=%d' % (check.pid, tier, a.seed, nruns, a.workers), flush=True)
    results, fails, sim_wall = batch(check, tier, a.seed, nruns, a.workers, env, soft)
    results.sort(key=lambda r: r['i'])
    if a.digests:
        with open(a.digests, 'w') as f:
            for r in results:
                f.write('%d:%s:%d\n' % (r['i'], r['digest'], r['steps']))
    errors = [r for r in results if r['error']]
    viols = [r for r in results if r['violation']]
    known = load_known(check.pid)
    known_hit = collections.OrderedDict()
    status, nviol = 0, 0
    tried_kinds = collections.Counter()
    for r in viols:
        e = match_known(known, r['violation'])
        if e:
            known_hit[e['id']] = e
            continue
        kind = r['violation']['kind']
        nviol += 1
        if status == 1 or tried_kinds[kind] >= 2 or sum(tried_kinds.values()) >= 5:
            continue
        tried_kinds[kind] += 1
        c = confirm(check, env, tier, a.seed, r, a.workers)
        if not c:
            print('unconfirmed (did not reproduce in a fresh process): run %d %s' % (r['i'], r['violation']))
            continue
        chain, res, tried = c
        path = write_replay(check, chain, res, a.seed, r['i'], tier)
        status = 1
        print('seed=%d run=%d %s: %s' % (a.seed, r['i'], res['violation']['kind'], res['violation']['detail']))
        print('minimised with %d trial runs, %d scenario(s) in the replay file' % (tried, len(chain)))
        print('VIOLATION property=%s replay=%s' % (check.pid, path), flush=True)
    for e in known:      # listed findings are re-demonstrated on every run
        print('KNOWN-FINDING: property=%s %s%s' % (check.pid, e['what'],
                                                    '' if e['id'] in known_hit else ' (not sampled in this batch)'))
    unconfirmed = 0
    if status == 0 and 0 < nviol <= 2:
        # Re-executed alone and after the runs that preceded it, twice each, the scenario holds: not a finding about the code.
        # It is counted in the evidence, as a breach of the harness's own determinism.
        unconfirmed, nviol = nviol, 0
        print('note: %d run(s) could not be reproduced and are not counted (see evidence: unconfirmed)' % unconfirmed)
    if status == 0 and nviol:
        print('harness error: %d violation(s) seen but none confirmed by a fresh replay' % nviol)
        status = 2
    if status == 0 and (errors or fails):
        for r in errors[:2]:
            print('harness error in run %d:\n%s' % (r['i'], r['error']))
        for f in fails[:2]:
            print('harness error:', f)
        status = 2
    if status == 0 and len(results) < min(nruns, max(8, nruns // 10)):
        print('harness error: only %d of %d runs finished' % (len(results), nruns))
        status = 2
    evidence(check, tier, a.seed, results, nruns, sim_wall, time.time() - t0, nviol, known_hit, a, unconfirmed)
    if status == 0:
        print('%s held on %d runs (%d non-trivial) in %.0f s' % (
            check.pid, len(results), sum(r['nontrivial'] for r in results), time.time() - t0))
    return status


def evidence(check, tier, seed, results, nruns, sim_wall, wall, nviol, known_hit, a, unconfirmed=0):
    stats = collections.Counter()
    states = set()
    for r in results:
        stats.update(r['stats'])
        states.update(r['states'])
    nontriv = {r['digest'] for r in results if r['nontrivial']}
    samples = []
    for r in results:
        if r['nontrivial'] and len(samples) < 3:
            samples.append({'run': r['i'], 'scenario': r.get('sc'), 'steps': r['steps'], 'trace_head': r['trace'][:6]})
    n = len(results)
    cov = {
        'evaluations': n,
        'distinct_nontrivial': len(nontriv),
        'rule': check.rule,
        'samples': samples or [{'note': 'no non-trivial run'}],
        'runs_requested': nruns,
        'runs_per_hour': int(n / max(sim_wall, 1e-9) * 3600),
        'seeds_per_hour': int(n / max(sim_wall, 1e-9) * 3600),
        'run_seeds': 'sha256("%s/%d/<run>") for run in 0..%d' % (check.pid, seed, n - 1),
        'simulated_time': {'unit': 'logical events (the library reads no clock)', 'events': sum(r['steps'] for r in results)},
        'faults_injected': {k[6:]: v for k, v in sorted(stats.items()) if k.startswith('fault.')},
        'probes': {k: v for k, v in sorted(stats.items()) if not k.startswith('fault.')},
        'distinct_states': {'measure': check.state_measure if hasattr(check, 'state_measure') else 'distinct abstract state signatures reached',
                            'count': len(states)},
        'components': {'real': check.real, 'stub': check.stub},
        'workers': a.workers,
        'unconfirmed': unconfirmed,
    }
    ev = {'property': check.pid, 'tier': tier, 'seed': seed, 'level': check.level if hasattr(check, 'level') else 'exploration',
          'coverage': cov, 'assumptions': list(check.assumptions), 'wall_s': round(wall, 2), 'violations': nviol}
    if known_hit:
        cov['known_findings_seen'] = list(known_hit)
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, check.pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)


if __name__ == '__main__':
    sys.exit(main())
