"""Executes one group of runs (all under this process's PYTHONHASHSEED) and writes a JSON summary."""
import importlib
import json
import os
import random
import sys
import time
from collections import Counter

from . import core


def load(prop_id):
    import numpy, scipy, pandas  # noqa: F401,E401  (before the lock seam)
    import scipy.interpolate, scipy.optimize  # noqa: F401,E401
    import matplotlib
    matplotlib.use('Agg')
    core.install_lock_seam()
    core.import_all()
    core.install_env_seams()
    mod = importlib.import_module(f'sim.{prop_id.lower()}')
    mod.setup()
    return mod


def plan_for(mod, prop_id, seed, index, tier):
    rng = random.Random(f'{seed}:{prop_id}:{index}')
    plan = mod.generate(rng, tier)
    plan['env'] = rng.randrange(1 << 30)
    if index < 0:  # compared across hash seeds: threads are left out, since they count the steps of (unordered) sorts
        plan['ops'] = [op for op in plan['ops'] if op.get('op') != 'par']
    return plan


def main():
    prop_id, tier, seed, group, ngroups, nruns, cap, out = sys.argv[1:9]
    seed, group, ngroups, nruns, cap = int(seed), int(group), int(ngroups), int(nruns), float(cap)
    mod = load(prop_id)
    from . import child, shrink
    start = time.monotonic()
    agg = {k: Counter() for k in ('faults', 'faults_planned', 'probes')}
    tot = Counter()
    logs, inter, states, samples, violations, harness, known = set(), set(), set(), [], [], [], []
    sim_days = 0.0
    cross = {}
    kf = known_findings(prop_id)
    crosscheck = getattr(mod, 'HASH_INDEPENDENT', False)
    indexes = list(range(group, nruns, ngroups))
    if crosscheck:
        # a few runs every group executes: their event logs must not depend on PYTHONHASHSEED
        indexes = [-(i + 1) for i in range(crosscheck)] + indexes
    for index in indexes:
        if time.monotonic() - start > cap:
            tot['skipped_for_time'] += 1
            continue
        plan = plan_for(mod, prop_id, seed, index, tier)
        res = child.run_forked(mod, plan)
        tot['runs'] += 1
        if res['status'] == 'harness-error':
            harness.append({'index': index, 'detail': res['detail']})
            if len(harness) > 3:
                break
            continue
        if res['status'] == 'violation':
            k = match_known(kf, res)
            if k:
                known.append(k)
                continue
            best, tries = shrink.minimise(mod, res)
            violations.append({'index': index, 'cls': best['cls'], 'detail': best['detail'], 'plan': best['plan'],
                               'log_digest': best['log_digest'], 'tail': best.get('tail'), 'log': best.get('log'),
                               'trace': best.get('trace'), 'shrink_runs': tries,
                               'original_plan': res['plan'], 'hashseed': os.environ.get('PYTHONHASHSEED')})
            break
        for k in agg:
            agg[k].update(res[k])
        for k in ('checks', 'ops', 'switches', 'nested'):
            tot[k] += res[k]
        sim_days += res['sim_days']
        if index < 0:
            cross[str(index)] = res['log_digest']
        nontrivial = res['faults'] or res['switches'] or res['nested'] or res['checks'] >= 5
        if nontrivial:
            logs.add(res['log_digest'])
        if res['inter']:
            inter.add(res['inter'])
        states.update(res['states'])
        if len(samples) < 1 and index >= 0:
            samples.append({'run': index, 'plan': plan, 'log_tail': res['tail']})
    with open(out, 'w') as f:
        json.dump({'tot': tot, 'faults': agg['faults'], 'faults_planned': agg['faults_planned'], 'probes': agg['probes'],
                   'logs': sorted(logs), 'inter': sorted(inter), 'states': sorted(states), 'samples': samples,
                   'violations': violations, 'harness': harness, 'known': known, 'sim_days': sim_days, 'cross': cross,
                   'hashseed': os.environ.get('PYTHONHASHSEED'), 'wall': time.monotonic() - start}, f)


def known_findings(prop_id):
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    out = []
    try:
        with open(os.path.join(here, 'known_findings.json')) as f:
            data = json.load(f)
    except FileNotFoundError:
        return out
    return [e for e in data.get('findings', []) if e['property'] == prop_id]


def match_known(kf, res):
    for e in kf:
        if e['cls'] == res['cls'] and e['match'] in (res['detail'] or ''):
            return e['what']
    return None


if __name__ == '__main__':
    main()
