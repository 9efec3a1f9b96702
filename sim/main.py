"""python -m sim.main C01 : the check of one property.  Exit 0 held, 1 violation, 3 error of the check itself."""
import json
import os
import subprocess
import sys
import tempfile
import time
from collections import Counter

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NGROUPS = 8

# property: (quick runs, thorough runs)
RUNS = {}


def budget(prop_id, tier):
    with open(os.path.join(HERE, 'sim', 'budget.json')) as f:
        b = json.load(f)
    e = b.get(prop_id, {'quick': 200, 'thorough': 4000})
    runs = e[tier]
    if os.environ.get('VP_RUNS'):
        runs = int(os.environ['VP_RUNS'])
    return runs, {'quick': 240.0, 'thorough': 3000.0}[tier]


def hashseed(seed, group):
    return (seed * 1_000_003 + group * 7919 + 17) % 4294967295


def env_for(hs):
    env = dict(os.environ)
    env.update(PYTHONHASHSEED=str(hs), PYTHONPATH=HERE, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg',
               OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1')
    env.setdefault('MPLCONFIGDIR', tempfile.gettempdir())
    return env


def main():
    prop_id = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    nruns, cap = budget(prop_id, tier)
    print(f'property={prop_id} tier={tier} seed={seed} runs={nruns} repo={os.environ.get("VP_REPO", "/repo")}', flush=True)
    start = time.monotonic()
    with tempfile.TemporaryDirectory(prefix='vp-sim-') as tmp:
        procs = []
        for g in range(NGROUPS):
            out = os.path.join(tmp, f'{g}.json')
            cmd = [sys.executable, '-W', 'ignore', '-m', 'sim.worker', prop_id, tier, str(seed), str(g), str(NGROUPS),
                   str(nruns), str(cap), out]
            err = open(os.path.join(tmp, f'{g}.err'), 'w')
            procs.append((g, out, err, subprocess.Popen(cmd, cwd=HERE, env=env_for(hashseed(seed, g)),
                                                        stdout=err, stderr=err)))
        results, broken = [], []
        for g, out, err, p in procs:
            rc = p.wait()
            err.close()
            try:
                with open(out) as f:
                    results.append(json.load(f))
            except (FileNotFoundError, json.JSONDecodeError):
                with open(err.name) as f:
                    broken.append(f'group {g}: exit {rc}\n{f.read()[-3000:]}')
    wall = time.monotonic() - start
    tot, faults, planned, probes = Counter(), Counter(), Counter(), Counter()
    logs, inter, states, samples, violations, harness, known = set(), set(), set(), [], [], [], Counter()
    sim_days, cross = 0.0, {}
    for r in results:
        tot.update(r['tot']); faults.update(r['faults']); planned.update(r['faults_planned']); probes.update(r['probes'])
        logs.update(r['logs']); inter.update(r['inter']); states.update(r['states'])
        samples += r['samples'][:1]
        violations += r['violations']; harness += r['harness']; known.update(r['known'])
        sim_days += r['sim_days']
        for k, v in r['cross'].items():
            cross.setdefault(k, {}).setdefault(v, []).append(r['hashseed'])
    split = {k: v for k, v in cross.items() if len(v) > 1}
    if split and not violations:
        k, v = sorted(split.items())[0]
        violations.append({'index': int(k), 'cls': 'hash-dependence', 'cross': True,
                           'detail': f'run {k} gives different event logs under different PYTHONHASHSEED values: '
                                     f'{ {d: hs[0] for d, hs in v.items()} }',
                           'hashseeds': [hs[0] for hs in v.values()][:2], 'plan': None})
    violations.sort(key=lambda v: v['index'])
    meta = {}
    try:
        with open(os.path.join(HERE, 'sim', 'meta.json')) as f:
            meta = json.load(f).get(prop_id, {})
    except FileNotFoundError:
        pass
    evidence = {
        'property': prop_id, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': tot['runs'],
            'distinct_nontrivial': len(logs),
            'rule': 'One evaluation is one simulated run: a plan (configuration, operations, faults, nested operations, thread '
                    'schedule) drawn from the PRNG seeded with VERIF_SEED:property:run, executed against the real code in a '
                    'freshly forked process. ' + meta.get('rule', '') +
                    ' Non-trivial: a fault fired, threads were switched, an operation ran nested in another, or at least five '
                    'oracle comparisons were made; distinct: by the digest of the run\'s event log.',
            'samples': samples[:3],
            'oracle_comparisons': tot['checks'],
            'operations': tot['ops'],
            'runs_per_hour': round(tot['runs'] / wall * 3600) if wall else 0,
            'seeds_per_hour': round(tot['runs'] / wall * 3600) if wall else 0,
            'simulated_days_covered': round(sim_days, 1),
            'faults_injected': dict(sorted(faults.items())),
            'faults_planned_by_site': dict(sorted(planned.items())),
            'distinct_thread_interleavings': len(inter),
            'thread_switches': tot['switches'],
            'nested_operations': tot['nested'],
            'distinct_states': len(states),
            'probes': dict(sorted(probes.items())),
            'hash_seeds': [r['hashseed'] for r in results],
            'runs_compared_across_hash_seeds': len(cross),
            'runs_skipped_for_time': tot['skipped_for_time'],
            'real_components': meta.get('real', []),
            'stubbed_components': meta.get('stub', []),
        },
        'assumptions': meta.get('assumptions', []),
        'wall_s': round(wall, 2),
        'violations': len(violations),
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', f'{prop_id}.json'), 'w') as f:
        json.dump(evidence, f, indent=1)
    for what in sorted(known):
        print(f'KNOWN-FINDING: property={prop_id} {what}')
    cov = evidence['coverage']
    print(f"runs={tot['runs']} distinct={len(logs)} checks={tot['checks']} ops={tot['ops']} faults={sum(faults.values())} "
          f"switches={tot['switches']} nested={tot['nested']} interleavings={len(inter)} wall={wall:.1f}s")
    print('faults', dict(sorted(faults.items())))
    print('probes', cov['probes'])
    if violations:
        v = violations[0]
        os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
        path = os.path.join(HERE, 'replays', f"{prop_id}-{seed}-{v['index']}.json")
        v.update(property=prop_id, seed=seed, tier=tier)
        with open(path, 'w') as f:
            json.dump(v, f, indent=1)
        print(f"violation class={v['cls']} run={v['index']} shrink_runs={v.get('shrink_runs')}\n  {v['detail']}")
        if v.get('trace'):
            print(v['trace'][-1500:])
        rc = subprocess.run([sys.executable, '-W', 'ignore', '-m', 'sim.replay', path], cwd=HERE,
                            env=env_for(v.get('hashseed') or 0), capture_output=True, text=True)
        print(f'replay in a fresh process: {"reproduced" if rc.returncode == 1 else "NOT reproduced"} '
              f'(exit {rc.returncode}) {rc.stdout.strip()[-300:]}')
        print(f'VIOLATION property={prop_id} replay={path}', flush=True)
        sys.exit(1)
    if harness or broken:
        for h in harness[:2]:
            print('HARNESS ERROR', h['index'], h['detail'])
        for b in broken[:2]:
            print('WORKER ERROR', b)
        sys.exit(3)
    if not tot['runs']:
        print('no run was executed')
        sys.exit(3)
    sys.exit(0)


if __name__ == '__main__':
    main()
