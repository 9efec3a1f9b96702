"""C03: short-rate integrals and discount curves describe the current path."""
from datetime import timedelta

import numpy as np

from . import procs, ref
from .core import gen_par, gen_sched, history, pick_fault_kind, scalar

HASH_INDEPENDENT = 0


def setup():
    pass


def generate(rng, tier):
    specs, models = [], []
    nbm = rng.choice([1, 1, 2])
    steps = {}
    ms = rng.choice([6, 12, 25])
    for _ in range(nbm):
        bm, step = procs.gen_bm(rng, dim=rng.choice([1, 1, 2]), max_steps=ms)
        steps[len(specs)] = step
        specs.append(bm)
    for _ in range(rng.choice([1, 2, 2, 3])):
        b = rng.choice(sorted(steps))
        k = rng.choice(['srm'] * 5 + ['vas', 'vas', 'dmr', 'mvm', 'mvm', rng.choice(['tmr', 'smpr'])])
        if k == 'vas' and specs[b]['dim'] != 1:
            k = 'srm'
        models.append(len(specs))
        if k == 'srm':
            specs.append(procs.gen_srm(rng, procs.gen_diff(rng, b, specs[b], steps[b]), b))
        elif k == 'vas':
            specs.append(procs.gen_vas(rng, b, steps[b]))
        elif k == 'mvm':
            specs.append(procs.gen_mvm(rng, b, specs[b], steps[b]))
        else:
            specs.append({'dmr': procs.gen_dmr, 'tmr': procs.gen_tmr, 'smpr': procs.gen_smpr}[k](rng, ms))

    def times():
        k = rng.choice(['default', 'default', 'custom', 'custom', 'late', 'outside'])
        if k == 'default':
            return None
        n = rng.randrange(2, 9)
        us = sorted(round(rng.random(), 4) for _ in range(n))
        if k == 'custom':
            us[0] = 0.0
        if k == 'outside':
            us[-1] = round(rng.uniform(1.05, 1.5), 3)
        return us

    def any_op(i, depth):
        s = specs[i]
        r = rng.random()
        sites = ['transformation'] if s['t'] == 'srm' else []
        if r < 0.3:
            op = {'op': 'gen', 'o': i, 'seed': rng.choice([0, 1, 2, rng.randrange(1 << 32)]), 'set': rng.random() < 0.7,
                  'start': procs.gen_start(rng, s)}
            sites = sites + (['drift', 'diffusion'] if s['t'] == 'srm' else [])
        elif r < 0.38:
            if 'bm' in s:
                st = steps[s['bm']]()
            else:
                st = [s['dt'][0], {u: n * rng.choice([1, 2]) for u, n in s['dt'][1].items()}]
            return {'op': 'set_dt', 'o': i, 'step': st}
        else:
            op = {'op': rng.choice(['integral', 'accrual', 'discount', 'discount']), 'o': i, 'times': times()}
        if sites:
            r = rng.random()
            if r < 0.2:
                op['fault'] = {'site': rng.choice(sites), 'at': rng.randrange(1, 16), 'kind': pick_fault_kind(rng)}
            elif r < 0.4 and depth < 1:
                # nested work on the same model inside a request, except replacing the path the request reads
                j = rng.choice([i] + models)
                inner = [any_op(j, depth + 1) for _ in range(rng.randrange(1, 3))]
                if op['op'] != 'gen':
                    inner = [q for q in inner if q['o'] != i or q['op'] not in ('gen', 'set_dt') or not q.get('set', True)]
                inner = [q for q in inner if not (q['o'] == i and q['op'] == 'set_dt')]
                if inner:
                    op['inner'] = {'site': rng.choice(sites), 'at': rng.randrange(1, 10), 'ops': inner}
        return op

    ops = [{'op': 'gen', 'o': i, 'seed': rng.randrange(100), 'set': True, 'start': procs.gen_start(rng, specs[i])}
           for i in models if rng.random() < 0.85]
    for _ in range(history(rng, 4, 12)):
        if rng.random() < 0.18:
            # threads read one model with different times, or each own a model
            if rng.random() < 0.5:
                i = rng.choice(models)
                ops.append(gen_par(rng, lambda: {'op': rng.choice(['integral', 'accrual', 'discount']), 'o': i, 'times': times()}, 2, (2, 3)))
                continue
            else:
                tasks = [{'ops': [any_op(i, 1) for _ in range(rng.randrange(1, 3))]} for i in models]
            ops.append({'op': 'par', 'tasks': tasks, 'sched': gen_sched(rng)})
        else:
            op = any_op(rng.choice(models), 0)
            ops.append(op)
            if op['op'] == 'set_dt' and rng.random() < 0.7:
                # a new path on the new grid, and a request for the default times
                ops.append({'op': 'gen', 'o': op['o'], 'seed': rng.randrange(100), 'set': True, 'start': procs.gen_start(rng, specs[op['o']])})
                ops.append({'op': rng.choice(['accrual', 'discount']), 'o': op['o'], 'times': None})
    return {'specs': specs, 'models': models, 'ops': ops}


def execute(ctx, plan):
    from . import core
    pool = procs.Pool(ctx, plan['specs'])
    step = list(pool.steps)
    stored = [None] * len(pool.specs)       # (grid, path, states)
    derived = [None] * len(pool.specs)      # None: nothing may be held; else list of integrals requested since the last path
    curves = [None] * len(pool.specs)       # discount curves created since the last path
    held = []                               # (curve, [(time, value)])

    def resolve(i, us):
        a, b, _, _, _ = pool.clock(i)
        if us is None:
            return None, ref.plain_grid(a, b, step[i])
        total = (b - a).total_seconds()
        ts = []
        for u in us:
            t = a + timedelta(seconds=int(u * total))
            if not ts or t > ts[-1]:
                ts.append(t)
        return ts, ts

    def rate(i, t):
        times, path, states = stored[i]
        return pool.trans(i)(ref.interp(times, states, t, pool.clock(i)[2]))

    def integral(i, ts):
        a, _, dcc, _, _ = pool.clock(i)
        acc = [ref.accrual(a, t, dcc) for t in ts]
        r = [rate(i, t) for t in ts]
        out = [0.0]
        for k in range(len(ts) - 1):
            out.append(out[-1] + 0.5 * (r[k] + r[k + 1]) * (acc[k + 1] - acc[k]))
        return np.array(out)

    def check_curve(curve, knots, what):
        for t, v in knots:
            out = ctx.real(curve, t)
            ctx.must(out, 'curve-evaluation-failed', f'{what} at {t}')
            ctx.same(scalar(out.value), v, 'curve-value-wrong', f'{what} at {t}', rtol=1e-8)

    def recheck(what):
        if core._active_sched is not None:
            return
        for curve, knots, name in held[-12:]:
            check_curve(curve, knots, f'{name}, handed out earlier, after {what}')
        for i in plan['models']:
            o = pool.objs[i]
            if not derived[i]:
                ctx.check(o.integrated_path is None, 'stale-integral', f'#{i} holds an integrated path with no request since the last path ({what})')
            elif o.integrated_path is not None and all(d is not None for d in derived[i]):
                ctx.check(any(core.close(o.integrated_path, d, 1e-8) for d in derived[i]), 'stale-integral',
                          f'#{i} holds an integrated path that no request since the last path gave ({what})')
            if not curves[i]:
                ctx.check(o.discount_curve is None, 'stale-discount-curve', f'#{i} holds a discount curve of an old path ({what})')
            elif o.discount_curve is not None:
                ctx.check(any(o.discount_curve is c for c in curves[i]), 'stale-discount-curve',
                          f'#{i} holds a discount curve that no request since the last path gave ({what})')

    def one(op):
        if op['op'] == 'par':
            ctx.parallel(op, [lambda ops=t['ops']: run(ops) for t in op['tasks']])
            ctx.probe('parallel phases')
            recheck('the threads ended')
            return
        i, spec, o = op['o'], pool.specs[op['o']], pool.objs[op['o']]
        a, b, dcc, _, _ = pool.clock(i)
        if op['op'] == 'set_dt':
            st = procs.step_of(op['step'])
            with ctx.frame(op):
                out = ctx.real(o.set_dt, st)
            ctx.ev('set_dt', i, out)
            ctx.must(out, 'set-dt-failed', spec['t'])
            step[i], stored[i], derived[i], curves[i] = st, None, None, None
            recheck('changing the time step')
            return
        if op['op'] == 'gen':
            start = procs.make_start(op['start'])
            st = step[i]
            with ctx.frame(op) as fr:
                out = ctx.real(pool.generate, i, start, op['seed'], op['set'], None)
            ctx.ev('gen', i, op['seed'], op['set'], out)
            ctx.sim_days += (b - a).total_seconds() / 86400
            if fr.fired:
                ctx.check(not out.ok, 'failure-swallowed', 'generation returned although a function failed')
                ctx.probe('failed generations')
            else:
                ctx.must(out, 'generation-failed', spec['t'])
                times, path, states = pool.ref_path(i, np.array(procs.make_start(op['start']), dtype=float), op['seed'], st)
                ctx.same(np.asarray(out.value), path, 'path-differs', f'{spec["t"]} path', rtol=1e-8)
                if op['set']:
                    stored[i], derived[i], curves[i] = (times, path, states), None, None
                    ctx.probe('paths stored')
            if not op.get('inner'):
                recheck('generating a path')
            return
        arg, ts = resolve(i, op['times'])
        inside = all(a <= t <= b for t in ts)
        fn = {'integral': o.generate_integrated_path, 'accrual': o.accrual_curve, 'discount': o.create_discount_curve}[op['op']]
        if len(ts) < 2 and op['op'] != 'integral':
            return
        had = stored[i]
        caller = list(arg) if arg is not None else None
        with ctx.frame(op) as fr:
            out = ctx.real(fn, arg) if arg is not None else ctx.real(fn)
        ctx.ev(op['op'], i, len(ts), out)
        if had is None:
            ctx.check(not out.ok, 'integrated-without-path', f'{op["op"]} of a model without a path returned')
            return
        if caller is not None:
            ctx.check(arg == caller, 'caller-times-changed', 'the list of requested times was changed')
        if fr.fired or (not inside and len(ts) > 1):
            ctx.check(not out.ok, 'failure-swallowed', f'{op["op"]} returned although {"a function failed" if fr.fired else "times lie outside the horizon"}')
            ctx.probe('failed requests')
            if not op.get('inner'):
                recheck('a failed request')
            return
        want = integral(i, ts)
        if not all(abs(float(v)) <= 300 for v in np.ravel(want)):
            # an exploding coefficient function: exp() of the integral is not representable, so that
            # an OverflowError is the right answer and the value is not compared
            ctx.probe('integral out of range')
            if not out.ok and not isinstance(out.exc, OverflowError):
                ctx.must(out, 'request-failed', op['op'])
            derived[i] = (derived[i] or []) + [None]
            if out.ok and op['op'] == 'discount':
                curves[i] = (curves[i] or []) + [out.value]
            return
        ctx.must(out, 'request-failed', op['op'])
        derived[i] = (derived[i] or []) + [want]
        ctx.probe(f'{op["op"]} compared')
        if op['op'] == 'integral':
            ctx.same(np.asarray(out.value), want, 'integral-wrong', f'integral of #{i} over {len(ts)} times', rtol=1e-8)
        else:
            vals = np.exp(want if op['op'] == 'accrual' else -want)
            knots = list(zip(ts, [float(v) for v in vals]))
            acc = [ref.accrual(a, t, dcc) for t in ts]
            for k in range(0, len(ts) - 1, max(1, len(ts) // 3)):
                mid = ts[k] + (ts[k + 1] - ts[k]) / 3
                w = (ref.accrual(a, mid, dcc) - acc[k]) / (acc[k + 1] - acc[k])
                knots.append((mid, float(vals[k] * (1 - w) + vals[k + 1] * w)))
            check_curve(out.value, knots, f'{op["op"]} curve of #{i}')
            held.append((out.value, knots, f'{op["op"]} curve of #{i}'))
            if op['op'] == 'discount':
                curves[i] = (curves[i] or []) + [out.value]
        if not op.get('inner'):
            recheck(op['op'])

    def run(ops):
        for op in ops:
            one(op)

    ctx.run_inner = run
    for op in plan['ops']:
        one(op)
    recheck('the whole history')
