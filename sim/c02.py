"""C02: a process evaluates to its own stored path on its own time grid."""
from datetime import timedelta

import numpy as np

from . import procs, ref
from .core import canon, gen_sched, history, pick_fault_kind

HASH_INDEPENDENT = 0
CALLABLE = ('bm', 'diff', 'srm') + procs.AFFINE


def setup():
    pass


def generate(rng, tier):
    kinds = rng.sample(['diff', 'srm', 'vas', 'dmr', 'diff', 'gbm', 'mvm', 'tmr', 'smpr'], rng.randrange(2, 6))
    specs, bm_steps = procs.gen_pool(rng, kinds, max_steps=rng.choice([6, 12, 30]))
    step_maker = {}
    for i, s in enumerate(specs):
        if s['t'] == 'bm':
            step_maker[i] = bm_steps[i]
        elif 'bm' in s:
            step_maker[i] = bm_steps[s['bm']]

    def gen_op(i, depth):
        s = specs[i]
        op = {'op': 'gen', 'o': i, 'seed': rng.choice([0, 1, 2, 3, rng.randrange(1 << 32)]), 'set': rng.random() < 0.65}
        if s['t'] == 'bm':
            op['step'] = step_maker[i]()
        else:
            op['start'] = procs.gen_start(rng, s)
            if rng.random() < 0.08 and s['t'] != 'gbm':
                op['start'] = {'form': 'bad', 'val': rng.choice(['text', 'long'])}
        sites = {'diff': ['drift', 'diffusion'], 'srm': ['drift', 'diffusion', 'transformation', 'transformation']}.get(s['t'])
        if sites:
            r = rng.random()
            if r < 0.22:
                op['fault'] = {'site': rng.choice(sites), 'at': rng.randrange(1, 14), 'kind': pick_fault_kind(rng)}
            elif r < 0.38 and depth < 1:
                j = rng.choice([i, rng.randrange(len(specs))])
                inner = [any_op(j, depth + 1) for _ in range(rng.randrange(1, 3))]
                # changing a process's step in the middle of its own generation has no defined meaning
                inner = [q for q in inner if not (q['op'] == 'set_dt' and q['o'] == i)]
                if inner:
                    op['inner'] = {'site': rng.choice(sites), 'at': rng.randrange(1, 10), 'ops': inner}
        return op

    def any_op(i, depth):
        s = specs[i]
        r = rng.random()
        if r < 0.45:
            return gen_op(i, depth)
        if r < 0.55 and s['t'] in ('diff', 'srm') + procs.AFFINE:
            st = step_maker[i]() if i in step_maker else ['rd', {'days': rng.randrange(1, 9)}]
            return {'op': 'set_dt', 'o': i, 'step': st}
        return {'op': 'eval', 'o': i, 'at': [rng.choice(['grid', 'between', 'between', 'between', 'near', 'end', 'start', 'before', 'after']),
                                             round(rng.random(), 4), round(rng.uniform(0.01, 0.99), 4)]}

    ops = []
    n = history(rng, 4, 14)
    while len(ops) < n:
        r = rng.random()
        if r < 0.15 and len(specs) > 1:
            chosen = rng.sample(range(len(specs)), min(len(specs), rng.choice([2, 2, 3])))
            tasks = [{'ops': [any_op(i, 1) for _ in range(rng.randrange(1, 4))]} for i in chosen]
            ops.append({'op': 'par', 'tasks': tasks, 'sched': gen_sched(rng)})
        elif r < 0.4 and ops and ops[-1]['op'] != 'par':
            ops.append(any_op(ops[-1]['o'], 0))
        else:
            ops.append(any_op(rng.randrange(len(specs)), 0))
    return {'specs': specs, 'ops': ops}


class Model:
    """What each process must hold: nothing, or a grid, a state path and a path."""

    def __init__(self, pool):
        self.pool = pool
        self.step = list(pool.steps)
        self.stored = [None] * len(pool.specs)


def execute(ctx, plan):
    pool = procs.Pool(ctx, plan['specs'])
    m = Model(pool)

    def eval_time(i, at):
        kind, u, w = at
        a, b, _, _, _ = pool.clock(i)
        times = m.stored[i][0] if m.stored[i] else [a, b]
        if kind == 'start':
            return a, True
        if kind == 'end':
            return b, True
        if kind == 'before':
            return a - (procs.later(a, u * 1e6, 1) - a), False
        if kind == 'after':
            return procs.later(b, u * 1e6, 1), False
        k = min(int(u * (len(times) - 1)), len(times) - 2)
        if kind == 'grid':
            return times[k], True
        gap = times[k + 1] - times[k]
        if kind == 'near':
            # a moment before or after a grid time
            moment = min(timedelta(seconds=(1e-6, 0.01, 1, 20, 59, 1800)[int(w * 6)]), gap / 3)
            return (times[k + 1] - moment if int(u * 1e4) % 2 else times[k] + moment), True
        return times[k] + timedelta(seconds=max(1, int(gap.total_seconds() * w))), True

    def expected(i, t):
        times, path, states = m.stored[i]
        dcc = pool.clock(i)[2]
        v = ref.interp(times, states, t, dcc)
        f = pool.trans(i)
        return f(v) if f is not None else v

    def evaluate(i, t, inside, what):
        spec = pool.specs[i]
        out = ctx.real(pool.objs[i], t)
        ctx.ev('eval', spec['t'], i, t, out)
        if m.stored[i] is None:
            ctx.check(not out.ok, 'evaluated-without-path', f'{spec["t"]} with nothing stored evaluated at {t} to {canon(out.value)} ({what})')
            return
        if not inside:
            ctx.check(not out.ok, 'evaluated-outside-horizon', f'{spec["t"]} evaluated at {t}, outside its horizon, to {canon(out.value)}')
            return
        ctx.must(out, 'evaluation-failed', f'{spec["t"]} at {t} ({what})')
        want = expected(i, t)
        ctx.same(np.asarray(out.value, dtype=float).ravel(), np.asarray(want, dtype=float).ravel(), 'wrong-value',
                 f'{spec["t"]} #{i} at {t} ({what})', rtol=1e-8)

    def verify(i, what):
        """The stored path, and the evaluation at a few grid times and midpoints."""
        spec, o = pool.specs[i], pool.objs[i]
        if m.stored[i] is None:
            ctx.check(o.path is None, 'path-not-discarded', f'{spec["t"]} #{i} still has a path after {what}')
        else:
            ctx.check(o.path is not None, 'path-lost', f'{spec["t"]} #{i} lost its path after {what}')
            ctx.same(np.asarray(o.path), m.stored[i][1], 'stored-path-differs', f'{spec["t"]} #{i} after {what}', rtol=1e-8)
            if spec['t'] == 'bm':
                times, dcc = m.stored[i][0], pool.clock(i)[2]
                ctx.check(list(o.datetimes) == times, 'grid-differs', lambda: f'the times of #{i} after {what}: {canon(list(o.datetimes))}')
                ctx.same(np.asarray(o.dt_increments), np.array([ref.accrual(a, b, dcc) for a, b in zip(times, times[1:])]), 'grid-differs',
                         f'the steps of #{i} after {what}', rtol=1e-9)
        if spec['t'] in CALLABLE:
            for at in (['start', 0, 0], ['between', 0.0, 0.3], ['between', 0.5, 0.7], ['near', 0.3001, 0.55], ['between', 0.999, 0.6], ['end', 0, 0]):
                t, inside = eval_time(i, at)
                evaluate(i, t, inside, f'after {what}')

    def one(op):
        if op['op'] == 'par':
            before = [s for s in m.stored]
            ctx.parallel(op, [lambda ops=t['ops']: run(ops) for t in op['tasks']])
            ctx.probe('parallel phases')
            for i in range(len(pool.objs)):
                verify(i, 'the threads ended')
            return
        i, spec = op['o'], pool.specs[op['o']]
        if op['op'] == 'eval':
            t, inside = eval_time(i, op['at'])
            if spec['t'] in CALLABLE:
                with ctx.frame(op):
                    evaluate(i, t, inside, op['at'][0])
            return
        if op['op'] == 'set_dt':
            step = procs.step_of(op['step'])
            with ctx.frame(op):
                out = ctx.real(pool.objs[i].set_dt, step)
            ctx.ev('set_dt', spec['t'], i, canon(op['step']), out)
            ctx.must(out, 'set-dt-failed', spec['t'])
            m.step[i] = step
            m.stored[i] = None
            ctx.probe('time steps changed')
            verify(i, 'changing the time step')
            return
        step = procs.step_of(op['step']) if 'step' in op else m.step[i]
        bad = 'start' in op and op['start']['form'] == 'bad'
        if bad:
            start = 'not a number' if op['start']['val'] == 'text' else np.arange(1.0, procs.dim_of(spec) + 3.0)
        else:
            start = procs.make_start(op['start']) if 'start' in op else None
            before = np.array(start, dtype=float) if start is not None else None
        with ctx.frame(op) as fr:
            out = ctx.real(pool.generate, i, start, op['seed'], op['set'], step)
        ctx.ev('gen', spec['t'], i, op['seed'], op['set'], out)
        a, b, _, _, _ = pool.clock(i)
        ctx.sim_days += (b - a).total_seconds() / 86400
        if bad or fr.fired:
            ctx.check(not out.ok, 'failure-swallowed', f'{spec["t"]} generation with {"a bad start" if bad else "a failing function"} returned')
            ctx.probe('failed generations')
            ctx.probe('failed generations over a stored path', int(m.stored[i] is not None))
        else:
            ctx.must(out, 'generation-failed', f'{spec["t"]} seed {op["seed"]}')
            # the time step may have been changed by a nested operation; the grid is the one generation started with
            times, want, states = pool.ref_path(i, before, op['seed'], step)
            ctx.same(np.asarray(out.value), want, 'path-differs', f'{spec["t"]} #{i} path, seed {op["seed"]}', rtol=1e-8)
            if op['set']:
                m.stored[i] = (times, want, states)
                ctx.probe('paths stored')
            else:
                ctx.probe('paths not stored')
        if not op.get('inner'):
            verify(i, f'{"failed " if bad or fr.fired else ""}generation, set_path={op["set"]}')
        for j in range(len(pool.objs)):
            if j != i and threads_idle() and not op.get('inner') and ctx._depth == 0:
                verify(j, f'generating on #{i}')

    def threads_idle():
        from . import core
        return core._active_sched is None

    def run(ops):
        for op in ops:
            one(op)

    ctx.run_inner = run
    for op in plan['ops']:
        one(op)
    for i in range(len(pool.objs)):
        verify(i, 'the whole history')
    ctx.state([s is None for s in m.stored])
