"""C14: simulated default times are the first hits of the hazard process."""
import math
import time

import numpy as np

from . import core
from .core import canon, gen_par, history, pick_fault_kind

CLOCKS = ['steady', 'jump', 'back', 'frozen', 'nan', 'huge']


def setup():
    from fixedIncome.src.curves.credit_curves import default_models  # noqa: F401
    for name in ('perf_counter', 'time', 'monotonic', 'process_time'):
        core.patch_everywhere(time, name, clock_seam)


class Clock:
    """The simulated clock: None outside operations (then the real one shows)."""
    readings = None
    calls = 0


def clock_seam(real):
    def reading():
        if Clock.readings is None:
            return real()
        Clock.calls += 1
        return Clock.readings[Clock.calls % len(Clock.readings)]
    return reading


def generate(rng, tier):
    threads = rng.random() < 0.3

    def hazard(sure):
        k = rng.choice(['step', 'step', 'window', 'never'] if sure else ['const', 'const', 'ramp', 'ramp', 'edge', 'edge', 'step', 'negative', 'zero'])
        return {'k': k, 'v': rng.choice([0.02, 0.3, 1.0, round(rng.uniform(0, 6), 4)]), 'j': rng.randrange(1, 25), 'w': round(rng.uniform(-3, 9), 3), 'below': rng.random() < 0.5}

    def sim(depth, sure=False):
        dt = rng.choice([0.01, 0.05, 1 / 12, 0.25, 0.5, 1.0, 1.0, round(rng.uniform(0.004, 0.7), 5)])
        n = (rng.choice([0, 1, 2, 5, 12, 40]) if rng.random() < 0.97 else 400) if not sure else rng.choice([1, 4, 9])
        op = {'op': 'sim', 'seed': rng.randrange(1 << 30), 'dt': dt, 'T': round((n + rng.choice([0.5, 0.25, 0.8] + [0, 0] * (dt in (0.25, 1.0, 0.5)))) * dt, 9), 'n': rng.choice([0, 1, 2, 3, 8, 20]) if not sure else rng.randrange(1, 4),
              'hz': hazard(sure), 'clock': rng.choice(CLOCKS), 'defaults': rng.random() < 0.06 and not sure, 'sure': sure}
        if rng.random() < 0.3:
            op['fault'] = {'site': 'hazard', 'at': rng.choice([1, 2, rng.randrange(1, 60)]), 'kind': rng.choice([pick_fault_kind(rng), pick_fault_kind(rng), 'bad-none', 'bad-text'])}
        elif depth < 1 and rng.random() < 0.5:
            op['inner'] = {'site': 'hazard', 'at': rng.choice([1, 2, rng.randrange(1, 30)]), 'ops': [sim(depth + 1) for _ in range(rng.randrange(1, 3))]}
        return op
    ops = []
    for _ in range(history(rng, 2, 9, 60)):
        if threads and rng.random() < 0.4:
            ops.append(gen_par(rng, lambda: sim(1, True), 2))
        else:
            ops.append(sim(0))
    return {'ops': ops}


def readings(kind):
    return {'steady': [k * 0.5 for k in range(64)], 'jump': [0.0, 1e9, 1e9 + 1, 5.0], 'back': [100.0, 50.0, 3.0, -7.0], 'frozen': [1.0],
            'nan': [math.nan], 'huge': [1e308, -1e308]}[kind]


def execute(ctx, plan):
    from fixedIncome.src.curves.credit_curves.default_models import default_bernoulli_paths

    def grid(op):
        n = math.ceil(op['T'] / op['dt'] - 1e-9) - 1     # strictly before maturity; steps that hit it are exact binary fractions
        return [op['dt'] * k for k in range(1, n + 1)]

    def index(t, dt):
        return int(round(t / dt))

    def hazard(op, draws):
        """t -> hazard rate.  'edge' puts the k-th draw of the first path exactly on, or just below, the threshold."""
        h, dt = op['hz'], op['dt']
        k, v, j = h['k'], h['v'], h['j']
        if k in ('const',):
            return lambda t: v
        if k == 'ramp':
            return lambda t: v * t / (1 + t)
        if k == 'negative':
            return lambda t: -v
        if k in ('zero', 'never'):
            return lambda t: 0.0
        if k == 'step':
            return lambda t: 0.0 if index(t, dt) < j else 2.0 / dt
        if k == 'window':
            return lambda t: 2.0 / dt if index(t, dt) == j else 0.0
        x = draws[min(j, len(draws)) - 1] if draws else 0.5
        rate = x / dt
        if rate * dt != x:
            rate = np.nextafter(rate, 2 * rate)
            if rate * dt != x:
                rate = 0.0
        if h['below']:
            rate = float(np.nextafter(np.nextafter(rate, 0), 0)) if rate else 0.0
            rate = rate if rate * dt < x else 0.0
        return lambda t: float(rate) if index(t, dt) == j else 0.0

    def expected(op, n, times, hz, draw):
        out = []
        for _ in range(n):
            hit = math.nan
            for t in times:
                if draw() <= hz(t) * op['dt']:
                    hit = t
                    break
            out.append(hit)
        return out

    def run_op(op):
        n = 1000 if op['defaults'] else op['n']
        times = grid(op)
        if op['defaults']:
            times = times[:3]
            op = dict(op, dt=0.01, T=0.0351)
            times = grid(op)
        peek = np.random.RandomState(op['seed']).uniform(0, 1, max(1, len(times))).tolist()
        hz = hazard(op, peek)
        asked = []

        def hazard_rate(t):
            asked.append(t)
            got = ctx.point('hazard')
            if got is not None:
                return None if got['kind'] == 'bad-none' else 'n/a'
            return hz(t)
        saved_clock = (Clock.readings, Clock.calls)
        state = np.random.get_state()
        with ctx.frame(op) as fr:
            try:
                Clock.readings, Clock.calls = readings(op['clock']), 0
                if not op['sure']:
                    np.random.seed(op['seed'])
                args = dict(hazard_rate_fxcn=hazard_rate, time_to_maturity=op['T'])
                if not op['defaults']:
                    args.update(dt=op['dt'], num_paths=n)
                out = ctx.real(default_bernoulli_paths, **args)
            finally:
                Clock.readings, Clock.calls = saved_clock
                if not op['sure']:
                    np.random.set_state(state)
        ctx.faults[f'clock:{op["clock"]}'] += 1
        ctx.ev('sim', op['seed'], n, out)
        ctx.sim_days += 365 * op['T'] * n
        ctx.check(all(any(core.close(t, x, 1e-9, 1e-12) for x in times) for t in asked[:200]), 'hazard-time-wrong',
                  lambda: f'the hazard rate was asked for at {[t for t in asked if not any(core.close(t, x) for x in times)][:3]}, grid {canon(times[:3])} .. {canon(times[-1:])}')
        if fr.fired:
            ctx.check(not out.ok, 'failure-swallowed', lambda: f'the simulation returned {canon(out.value)} although the hazard function failed')
            bad = op['fault']['kind'].startswith('bad-')
            ctx.check(core.is_injected(out.exc) or (bad and isinstance(out.exc, (TypeError, ValueError))), 'wrong-error', lambda: f'a failing hazard function surfaced as {out.exc!r}')
            ctx.probe('failed simulations')
            again = {k: v for k, v in op.items() if k not in ('fault', 'inner')}
            run_op(again)
            return
        got = ctx.must(out, 'simulation-failed', 'default times')
        with ctx.reading('default times'):
            got = np.asarray(got, dtype=float)
        if op['sure']:
            want = expected(op, n, times, hz, lambda: 0.5)
        else:
            want = expected(op, n, times, hz, iter_draw(np.random.RandomState(op['seed'])))
        ctx.check(got.shape == (n,), 'shape-wrong', lambda: f'{got.shape} default times for {n} paths')
        ctx.same(got, np.array(want), 'default-time-wrong', f'default times (step {op["dt"]}, maturity {op["T"]}, hazard {op["hz"]["k"]})', 1e-9, 1e-12)
        ctx.probe('defaults', int(np.isfinite(got).sum()))
        ctx.probe('survivals', int(np.isnan(got).sum()))
        ctx.state('c14', op['hz']['k'], [index(t, op['dt']) if t == t else -1 for t in want[:4]])

    def iter_draw(rs):
        return lambda: rs.uniform(0, 1)

    def run_list(ops):
        for o in ops:
            run_op(o)

    ctx.run_inner = run_list
    for op in plan['ops']:
        if op['op'] == 'par':
            ctx.parallel(op, [lambda ops=t['ops']: run_list(ops) for t in op['tasks']])
        else:
            run_op(op)
