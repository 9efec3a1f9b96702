"""C01: seeded paths are reproducible whatever else is running."""
import random

import numpy as np

from . import procs, ref
from .core import canon, gen_par, history, pick_fault_kind, sub

HASH_INDEPENDENT = 3
SEEDS = [0, 1, 7, 42, 2**32 - 1, 12345]


def setup():
    pass


def generate(rng, tier):
    kinds = rng.sample(['diff', 'srm', 'vas', 'gbm', 'dmr', 'diff', 'mvm', 'tmr', 'smpr'], rng.randrange(2, 6))
    specs, bm_steps = procs.gen_pool(rng, kinds, max_steps=rng.choice([8, 16, 40]))
    seeds = rng.sample(SEEDS, rng.randrange(1, 4)) + [rng.randrange(1 << 32)]
    starts = {i: [procs.gen_start(rng, s) for _ in range(2)] for i, s in enumerate(specs) if s['t'] != 'bm'}

    def gen_op(depth, threaded=False):
        i = rng.randrange(len(specs))
        s = specs[i]
        op = {'op': 'gen', 'o': i, 'seed': rng.choice(seeds) if rng.random() < 0.93 else None, 'set': rng.random() < 0.5}
        if rng.random() < 0.15:
            op['anew'] = True       # asked of a process just made
        if s['t'] == 'bm':
            op['step'] = bm_steps[i]()
            if rng.random() < 0.3:
                op['op'] = 'inc'
        elif s['t'] == 'dmr' and rng.random() < 0.4:    # a new model from the calibration parameters, its path already stored
            op.update(op='calib', start=rng.choice(starts[i]), own=rng.random() < 0.5)
            if op['seed'] is None:
                op['seed'] = rng.choice(seeds)
        else:
            op['start'] = rng.choice(starts[i])
            n = rng.randrange(1, 2 * 8)
            if s['t'] in ('diff', 'srm'):
                sites = ['drift', 'diffusion'] + (['transformation'] if s['t'] == 'srm' else [])
                r = rng.random()
                if r < 0.25 and depth < 1:
                    op['inner'] = {'site': rng.choice(sites), 'at': n, 'ops': [any_op(depth + 1) for _ in range(rng.randrange(1, 4))]}
                elif r < 0.4:
                    op['fault'] = {'site': rng.choice(sites), 'at': n, 'kind': pick_fault_kind(rng)}
        return op

    def noise():
        k = rng.choice(['seed', 'rand', 'randn', 'int', 'shuffle', 'pyrand', 'pyseed'])
        return {'op': 'noise', 'k': k, 'v': rng.choice([1, 2, 3, 7, 42])}

    def any_op(depth):
        return noise() if rng.random() < 0.3 else gen_op(depth)

    ops = []
    for _ in range(history(rng, 3, 10)):
        if rng.random() < 0.2:
            ops.append(gen_par(rng, lambda: any_op(1), 2))
        else:
            ops.append(any_op(0))
    return {'specs': specs, 'ops': ops, 'np_seed': sub(rng)}


def rng_state():
    a = np.random.get_state()
    return (a[0], a[1].tobytes(), a[2], a[3], a[4])


def execute(ctx, plan):
    np.random.seed(plan['np_seed'])
    random.seed(plan['np_seed'])
    shadow = np.random.RandomState(plan['np_seed'])
    pyshadow = random.Random(plan['np_seed'])
    pool = procs.Pool(ctx, plan['specs'])
    global_rng(ctx, shadow, pyshadow, 'building the processes')

    def noise(op):
        k, v = op['k'], op['v']
        if k == 'seed':
            np.random.seed(v)
            shadow.seed(v)
            return
        if k == 'pyseed':
            random.seed(v)
            pyshadow.seed(v)
            return
        if k == 'rand':
            got, want = np.random.rand(v), shadow.rand(v)
        elif k == 'randn':
            got, want = np.random.standard_normal(v), shadow.standard_normal(v)
        elif k == 'int':
            got, want = np.random.randint(0, 1000, v), shadow.randint(0, 1000, v)
        elif k == 'shuffle':
            got, want = np.random.permutation(v), shadow.permutation(v)
        else:
            got, want = [random.random() for _ in range(v)], [pyshadow.random() for _ in range(v)]
        ctx.ev('noise', k, v)
        ctx.probe('global draws by other code')
        ctx.check(np.array_equal(got, want), 'global-random-stream-disturbed',
                  f'other code drew {k}({v}) from the process-wide generator and got {canon(got)}, expected {canon(want)}')

    def one(op):
        if op['op'] == 'noise':
            return noise(op)
        if op['op'] == 'par':
            ctx.parallel(op, [lambda ops=t['ops']: run(ops) for t in op['tasks']])
            return
        i, spec = op['o'], pool.specs[op['o']]
        step = procs.step_of(op['step']) if 'step' in op else None
        start = procs.make_start(op['start']) if 'start' in op else None
        before = np.array(start, dtype=float) if start is not None else None
        with ctx.frame(op) as fr:
            if op['op'] == 'inc':
                out = ctx.real(pool.objs[i].generate_increments, dt=step, seed=op['seed'])
            elif op['op'] == 'calib':
                out = ctx.real(pool.calibrated, i, start, op['seed'], op['own'])
            else:
                out = ctx.real(pool.generate, i, start, op['seed'], op['set'], step, op.get('anew', False))
        ctx.ev(op['op'], spec['t'], i, op['seed'], out if op['seed'] is not None else 'unseeded')
        if start is not None:
            ctx.check(np.array_equal(np.array(start, dtype=float), before) and type(start) is type(procs.make_start(op['start'])),
                      'starting-value-changed', f'{spec["t"]} path from {canon(before)} left the starting value {canon(start)}')
        if fr.fired:
            ctx.check(not out.ok, 'fault-swallowed', f'{spec["t"]} generation returned although its {op["fault"]["site"]} failed')
            return
        ctx.must(out, 'generation-failed', f'{spec["t"]} path, seed {op["seed"]}')
        a, b, dcc, dim, corr = pool.clock(i)
        times = pool.grid(i, step)
        ctx.sim_days += (b - a).total_seconds() / 86400
        if op['seed'] is None:
            ctx.probe('unseeded generations')
            return
        if op['op'] == 'inc':
            dw, dts = ref.shocks(op['seed'], dim, corr, times, dcc)
            ctx.check(isinstance(out.value, tuple) and len(out.value) == 2, 'increments-shape', 'generate_increments')
            ctx.same(out.value[1], dts, 'time-steps-differ', 'time increments')
            ctx.same(out.value[0], dw, 'shocks-differ', f'shocks of seed {op["seed"]}')
            return
        _, want, _ = pool.ref_path(i, before, op['seed'], step)
        ctx.probe(f'{spec["t"]} paths compared')
        ctx.same(np.asarray(out.value), want, 'path-differs', f'{spec["t"]} path, seed {op["seed"]}, from {canon(before)}', rtol=1e-8)
        ctx.state(spec['t'], op['seed'], want)

    def run(ops):
        for op in ops:
            one(op)

    ctx.run_inner = run
    for op in plan['ops']:
        one(op)
        global_rng(ctx, shadow, pyshadow, op['op'])


def global_rng(ctx, shadow, pyshadow, what):
    a, b = rng_state(), shadow.get_state()
    ctx.check(a == (b[0], b[1].tobytes(), b[2], b[3], b[4]), 'global-generator-changed',
              f'numpy\'s process-wide generator state changed during {what}')
    ctx.check(random.getstate() == pyshadow.getstate(), 'global-generator-changed',
              f'the random module\'s generator state changed during {what}')
