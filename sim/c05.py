"""C05: yield-curve valuations are isolated from one another."""
from datetime import date, timedelta

from . import core, fi
from .core import d2s, s2d, gen_par, history, pick_fault_kind, scalar

HASH_INDEPENDENT = 0


def setup():
    pass


def generate(rng, tier):
    origin = date(rng.randrange(2015, 2027), rng.randrange(1, 13), rng.randrange(1, 29))
    span = rng.choice([30, 60, 120, 250, 400]) if rng.random() < 0.88 else rng.choice([900, 900, 900, 900, 3700, 10900])
    curves = [fi.gen_curve(rng, origin + timedelta(rng.choice([0, 0, rng.randrange(0, 10)])), span) for _ in range(rng.choice([1, 1, 2, 2]))]
    if len(curves) == 2 and rng.random() < 0.6:
        # the same curve but for one thing
        a = dict(curves[0])
        k = rng.choice(['method', 'dcc', 'one', 'shift', 'space'])
        if k == 'method':
            a['method'] = {'LINEAR': 'PREVIOUS', 'PREVIOUS': 'LINEAR'}[a['method']]
        elif k == 'dcc':
            a['dcc'] = rng.choice(['ACTUAL_OVER_360', 'ACTUAL_OVER_365'])
        elif k == 'one':
            j = rng.randrange(len(a['knots']))
            a['knots'] = [[o, fi.gen_knot_values(rng, a)[j] if n == j else v] for n, (o, v) in enumerate(a['knots'])]
        elif k == 'shift' and len(a['knots']) > 2:
            lo, hi = a['knots'][0][0], a['knots'][2][0]
            a['knots'] = [[rng.randrange(lo + 1, hi) if n == 1 else o, v] for n, (o, v) in enumerate(a['knots'])]
        else:
            a['ref'] = d2s(s2d(a['ref']) + timedelta(rng.randrange(1, 8)))
        curves[1] = a
    insts = [fi.gen_instrument(rng, origin, max(25, span)) for _ in range(rng.choice([1, 2, 3]))]

    known = [[v for _, v in c['knots']] for c in curves]

    def val_op(c=None):
        return {'op': 'pv', 'c': rng.randrange(len(curves)) if c is None else c, 'i': rng.randrange(len(insts)), 'adj': fi.gen_adj(rng, origin, span)}

    def conv_op(c=None):
        return {'op': 'convert', 'c': rng.randrange(len(curves)) if c is None else c, 'adj': fi.gen_adj(rng, origin, span)}

    def any_op(depth, c=None, busy=()):
        r = rng.random()
        if r < 0.55:
            op = val_op(c)
        elif r < 0.75:
            op = conv_op(c)
        elif r < 0.9:
            c = rng.randrange(len(curves)) if c is None else c
            vals = rng.choice(known) if rng.random() < 0.4 else fi.gen_knot_values(rng, curves[c])
            if len(vals) != len(curves[c]['knots']) or curves[c]['space'] == 'DF' and vals[0] < 0.5:
                vals = fi.gen_knot_values(rng, curves[c])
            known.append(vals)
            return {'op': 'reset', 'c': c, 'vals': vals,
                    'one': rng.randrange(len(curves[c]['knots'])) if rng.random() < 0.4 else None}
        else:
            return {'op': 'eval', 'c': rng.randrange(len(curves)) if c is None else c, 'adj': fi.gen_adj(rng, origin, span), 'u': round(rng.random(), 4)}
        sites = (['adjustment'] if op['adj'] else []) + (['instrument'] if op['op'] == 'pv' and insts[op['i']]['kind'] == 'custom' else [])
        if sites:
            site = rng.choice(sites)
            at = rng.choice([1, 2, 3, rng.randrange(1, 60)]) if site == 'adjustment' else rng.randrange(1, 4)
            r = rng.random()
            if r < 0.25:
                op['fault'] = {'site': site, 'at': at, 'kind': pick_fault_kind(rng)}
            if r > 0.15 and r < 0.55 and depth < 2:
                # the knots of a curve being valued are not reset from inside the valuation
                held = busy + (op['c'],)
                inner = [any_op(depth + 1, None, held) for _ in range(rng.randrange(1, 3))]
                inner = [q for q in inner if not (q['op'] == 'reset' and q['c'] in held)]
                if inner:
                    op['inner'] = {'site': site, 'at': max(1, at - rng.randrange(0, 2)), 'ops': inner}
        return op

    def no_reset(ops):
        for op in ops:
            if 'inner' in op:
                op['inner']['ops'] = no_reset(op['inner']['ops'])
                if not op['inner']['ops']:
                    del op['inner']
        return [op for op in ops if op['op'] != 'reset']

    ops = []
    for _ in range(history(rng, 3, 10, 60)):
        if rng.random() < 0.2 and span <= 120:
            par = gen_par(rng, lambda: any_op(1), 2)
            par['tasks'] = [{'ops': no_reset(t['ops'])} for t in par['tasks']]
            ops.append(par)
        else:
            ops.append(any_op(0))
    if span > 1000:
        ops = ops[:6]
    return {'origin': d2s(origin), 'curves': curves, 'insts': insts, 'ops': ops}


def execute(ctx, plan):
    from fixedIncome.src.curves.base_curve import KnotValuePair
    curves, models = [], []
    for spec in plan['curves']:
        out = ctx.real(fi.make_curve, spec)
        curves.append(ctx.must(out, 'construction-failed', 'yield curve'))
        models.append(fi.CurveModel(spec))
    insts = [fi.make_instrument(ctx, s) for s in plan['insts']]
    held = []  # (discount curve, reference, [dates], name)

    def recheck(what):
        if core._active_sched is not None:
            return
        for dc, want, name in held[-6:]:
            for d, v in want:
                out = ctx.real(dc, d)
                ctx.must(out, 'held-curve-failed', f'{name} at {d} after {what}')
                ctx.same(scalar(out.value), v, 'held-curve-changed', f'{name}, held, at {d} after {what}')

    def one(op):
        if op['op'] == 'par':
            ctx.parallel(op, [lambda ops=t['ops']: run(ops) for t in op['tasks']])
            ctx.probe('parallel phases')
            recheck('the threads ended')
            return
        c = op['c']
        m, curve = models[c], curves[c]
        if op['op'] == 'reset':
            if op['one'] is None:
                vals = op['vals']
                out = ctx.real(curve.reset_interpolation_values, [KnotValuePair(d, v) for d, v in zip(m.dates, vals)])
            else:
                k = op['one']
                vals = m.values[:k] + [op['vals'][k]] + m.values[k + 1:]
                out = ctx.real(curve.reset_interpolation_value, KnotValuePair(m.dates[k], vals[k]), k)
            ctx.ev('reset', c, op['one'], out)
            ctx.must(out, 'reset-failed', 'knots')
            m.values = list(vals)
            ctx.probe('resets')
            recheck('a reset')
            return
        if op['op'] == 'eval':
            last = (m.dates[-1] - m.ref).days
            d = m.ref + timedelta(int(op['u'] * last * 1.1))
            with ctx.frame(op):
                adj = fi.make_adj(ctx, op['adj'])
                out = ctx.real(curve, d, adj)
            ctx.ev('eval', c, d, out)
            ctx.must(out, 'evaluation-failed', f'yield curve at {d}')
            ctx.same(scalar(out.value), m.rate(d) + fi.adj_value(op['adj'])(d), 'yield-wrong', f'yield curve {c} at {d}')
            return
        values = list(m.values)
        with ctx.frame(op) as fr:
            adj = fi.make_adj(ctx, op['adj'])
            if op['op'] == 'pv':
                fn, args = curve.present_value, [insts[op['i']]]
            else:
                fn, args = curve.to_discount_curve, []
            out = ctx.real(fn, *args) if adj is None else ctx.real(fn, *args, adj)
        ctx.ev(op['op'], c, op.get('i', ''), out)
        ctx.sim_days += (m.dates[-1] - m.ref).days
        if fr.fired:
            ctx.check(not out.ok, 'failure-swallowed', f'{op["op"]} returned although a function it called failed')
            ctx.probe('failed valuations')
            recheck(f'a failed {op["op"]}')
            return
        if op['op'] == 'pv':
            spec = plan['insts'][op['i']]
            want = m.value(spec, op['adj'], values)
            if want is None:
                ctx.probe('payments outside the curve')
                return
            ctx.must(out, 'valuation-failed', f'{spec["kind"]}')
            ctx.same(scalar(out.value), want, 'present-value-wrong', f'{spec["kind"]} on curve {c} with adjustment {op["adj"]}')
            ctx.probe('valuations compared')
        else:
            dc = ctx.must(out, 'conversion-failed', 'to_discount_curve')
            df = m.discounter(op['adj'], values)
            want = []
            days = (m.dates[-1] - m.ref).days
            for d in [m.ref, m.dates[0], m.dates[-1]] + [m.ref + timedelta(int(days * u)) for u in (0.31, 0.62, 0.93)]:
                v = df(d)
                if v is not None:
                    want.append((d, v))
            held.append((dc, want, f'discount curve of {c} with adjustment {op["adj"]}'))
            for d, v in want:
                o = ctx.real(dc, d)
                ctx.must(o, 'discount-curve-failed', f'at {d}')
                ctx.same(scalar(o.value), v, 'discount-curve-wrong', f'discount curve of {c} with adjustment {op["adj"]} at {d}')
            ctx.probe('conversions compared')
        recheck(op['op'])

    def run(ops):
        for op in ops:
            one(op)

    ctx.run_inner = run
    for op in plan['ops']:
        one(op)
    # each instrument once more, undisturbed
    for c, m in enumerate(models):
        for i, spec in enumerate(plan['insts']):
            want = m.value(spec)
            if want is None:
                continue
            out = ctx.real(curves[c].present_value, insts[i])
            ctx.must(out, 'valuation-failed', 'at the end')
            ctx.same(scalar(out.value), want, 'present-value-wrong', f'{spec["kind"]} on curve {c} at the end')
    recheck('the whole history')
