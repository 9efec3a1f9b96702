"""C06: computing key-rate risk leaves curves and key rates untouched."""
from datetime import date, timedelta

from . import core, fi
from .core import d2s, gen_par, history, pick_fault_kind, s2d, scalar

HASH_INDEPENDENT = 0
HALF = 0.5e-4
BP = 1e-4


def setup():
    pass


def generate(rng, tier):
    origin = date(rng.randrange(2015, 2027), rng.randrange(1, 13), rng.randrange(1, 29))
    span = rng.choice([25, 40, 60, 120, 250]) if rng.random() < 0.98 else rng.choice([900, 3700, 10900])
    curves = [fi.gen_curve(rng, origin, span) for _ in range(rng.choice([1, 1, 2]))]
    if span > 2000:     # quick to convert
        curves = [next(c for c in iter(lambda: fi.gen_curve(rng, origin, span), None) if c['space'] == 'DF')]
    insts = [fi.gen_instrument(rng, origin, max(25, span)) for _ in range(rng.choice([1, 2, 3]))]
    for s in insts:  # the asset's own payments may start where the curve does
        if s['kind'] == 'custom':
            s['payments'] = [p for p in s['payments']]
    assets = [['one', i] for i in range(len(insts))]
    assets.append(['portfolio', [[rng.randrange(len(insts)), round(rng.uniform(-3, 5), 2)] for _ in range(rng.randrange(1, 4))], rng.choice([0.0, 12.5])])
    n = rng.choice([1, 2, 3, 3, 4]) if rng.random() < 0.96 else 7
    colls = []
    for _ in range(rng.choice([1, 1, 2])):
        offs = sorted(rng.sample(range(1, span + 40), n))
        colls.append({'dates': [d2s(origin + timedelta(o)) for o in offs], 'dcc': rng.choice(['ACTUAL_OVER_ACTUAL', 'ACTUAL_OVER_365']),
                      'bumps': [rng.choice([None, None, 0.01, 0.0, -0.002]) for _ in offs]})
    a, b, c = sorted(rng.sample(range(0, span + 60), 3))
    lone = {'dates': [d2s(origin + timedelta(x)) for x in (a, b, c)], 'ends': rng.choice(['both', 'both', 'left', 'right', 'none']),
            'bump': rng.choice([None, 0.003]), 'dcc': 'ACTUAL_OVER_ACTUAL'}

    def any_op(depth):
        r = rng.random()
        k = rng.randrange(len(colls))
        if r < 0.1 and depth == 0:
            return {'op': 'bump', 'k': k, 'j': rng.randrange(n), 'v': rng.choice([1e-4, 0.005, 0.0, -0.001])}
        if r < 0.2 and depth == 0:
            c = rng.randrange(len(curves))
            return {'op': 'reset', 'c': c, 'vals': fi.gen_knot_values(rng, curves[c])}
        op = {'op': rng.choice(['deriv', 'pv01', 'ladder', 'ladder']), 'c': rng.randrange(len(curves)), 'a': rng.randrange(len(assets)),
              'k': k, 'j': rng.choice(list(range(n)) + [-1])}
        r = rng.random()
        if r < 0.4:
            op['fault'] = {'site': rng.choice(['valuation', 'valuation', 'instrument']), 'at': rng.randrange(1, 2 * n + 1), 'kind': pick_fault_kind(rng)}
        if 0.3 < r < 0.65 and depth < 1:
            op['inner'] = {'site': 'valuation', 'at': rng.randrange(1, 2 * n + 1), 'ops': [any_op(depth + 1) for _ in range(rng.randrange(1, 3))]}
        return op

    ops = []
    for _ in range(history(rng, 3, 8, 40)):
        if rng.random() < 0.15 and span <= 60:
            ops.append(gen_par(rng, lambda: any_op(1), 1, (2, 3)))
        else:
            ops.append(any_op(0))
    return {'origin': d2s(origin), 'curves': curves, 'insts': insts, 'assets': assets, 'colls': colls, 'lone': lone, 'ops': ops}


class Valued:
    """The asset handed to the code under test: crosses 'valuation' whenever it is valued."""

    def __init__(self, ctx, asset):
        self.ctx, self.asset = ctx, asset

    def present_value(self, curve):
        self.ctx.point('valuation')
        return self.asset.present_value(curve)


def execute(ctx, plan):
    from fixedIncome.src.curves.base_curve import KnotValuePair
    from fixedIncome.src.portfolio.base_portfolio import Portfolio, PortfolioEntry
    from fixedIncome.src.risk.key_rate import KeyRate, KeyRateCollection
    from fixedIncome.src.scheduling_tools.schedule_enumerations import DayCountConvention
    curves = [fi.make_curve(s) for s in plan['curves']]
    models = [fi.CurveModel(s) for s in plan['curves']]
    insts = [fi.make_instrument(ctx, s) for s in plan['insts']]
    assets = []
    for a in plan['assets']:
        if a[0] == 'one':
            assets.append(Valued(ctx, insts[a[1]]))
        else:
            assets.append(Valued(ctx, Portfolio([PortfolioEntry(q, insts[i]) for i, q in a[1]], a[2])))

    # key rates: [real, dates (a, b, c), bump, dcc]
    colls, shapes = [], []
    for s in plan['colls']:
        ds = [s2d(d) for d in s['dates']]
        coll = KeyRateCollection([KeyRate(DayCountConvention[s['dcc']], d) for d in ds])
        shape = []
        for j, d in enumerate(ds):
            if s['bumps'][j] is not None:
                coll[j].set_bump_val(s['bumps'][j])
            shape.append([ds[j - 1] if j else None, d, ds[j + 1] if j + 1 < len(ds) else None, BP if s['bumps'][j] is None else s['bumps'][j], s['dcc']])
        colls.append(coll)
        shapes.append(shape)
    ln = plan['lone']
    a, b, c = [s2d(d) for d in ln['dates']]
    a = a if ln['ends'] in ('both', 'left') else None
    c = c if ln['ends'] in ('both', 'right') else None
    lone = KeyRate(DayCountConvention[ln['dcc']], b, a, c)
    if ln['bump'] is not None:
        lone.set_bump_val(ln['bump'])
    lone_shape = [a, b, c, BP if ln['bump'] is None else ln['bump'], ln['dcc']]

    def asset_value(ai, m, adj):
        """Reference value of an asset under an adjustment function, or None outside the curve."""
        a = plan['assets'][ai]
        if a[0] == 'one':
            return m.value(plan['insts'][a[1]], adj)
        vals = [m.value(plan['insts'][i], adj) for i, _ in a[1]]
        return None if any(v is None for v in vals) else sum(v * q for v, (_, q) in zip(vals, a[1])) + a[2]

    def bump(shape, size):
        return lambda d: fi.tent(d, shape[0], shape[1], shape[2], size, shape[4])

    def difference(ai, m, shape):
        up, down = asset_value(ai, m, bump(shape, HALF)), asset_value(ai, m, bump(shape, -HALF))
        return None if up is None else up - down

    def scale(ai):
        a = plan['assets'][ai]
        idx = [a[1]] if a[0] == 'one' else [i for i, _ in a[1]]
        q = 1 if a[0] == 'one' else max(abs(q) for _, q in a[1])
        return q * sum(plan['insts'][i].get('principal', 100) for i in idx)

    def close(got, want, ai, what, cls):
        """PV01s: cancellation leaves errors of about machine epsilon times the value."""
        ctx.same(got, want, cls, what, rtol=1e-7, atol=1e-11 + 1e-13 * scale(ai))

    def verify(what):
        if core._active_sched is not None:
            return
        for kr, shape, name in [(kr, sh, f'key rate {k}.{j}') for k in range(len(colls)) for j, (kr, sh) in enumerate(zip(colls[k], shapes[k]))] + [(lone, lone_shape, 'lone key rate')]:
            ctx.check(core.close(kr.bump_val, shape[3]) and (kr.prior_date, kr.key_rate_date, kr.next_date) == tuple(shape[:3]), 'key-rate-changed',
                      lambda: f'{name} has bump {kr.bump_val}, dates {kr.prior_date} {kr.key_rate_date} {kr.next_date}; expected {shape[3]}, {shape[:3]} after {what}')
            for d in (shape[1] - timedelta(400), shape[1] - timedelta(7), shape[1], shape[1] + timedelta(9)):
                ctx.same(kr(d), bump(shape, shape[3])(d), 'key-rate-changed', f'{name} at {d} after {what}')
        for k, coll in enumerate(colls):
            ctx.check(len(coll) == len(shapes[k]), 'collection-changed', f'collection {k} has {len(coll)} key rates after {what}')
            for d in (shapes[k][0][1] - timedelta(3), shapes[k][0][1] + timedelta(4), shapes[k][-1][1] + timedelta(1)):
                ctx.same(coll(d), sum(bump(sh, sh[3])(d) for sh in shapes[k]), 'collection-changed', f'collection {k} at {d} after {what}')
        for c, m in enumerate(models):
            for d in (m.ref, m.dates[0], m.dates[-1]):
                ctx.same(scalar(curves[c](d)), m.rate(d), 'curve-changed', f'curve {c} at {d} after {what}')

    def one(op):
        if op['op'] == 'par':
            ctx.parallel(op, [lambda ops=t['ops']: run(ops) for t in op['tasks']])
            ctx.probe('parallel phases')
            verify('the threads ended')
            return
        if op['op'] == 'bump':
            colls[op['k']][op['j']].set_bump_val(op['v'])
            shapes[op['k']][op['j']][3] = op['v']
            ctx.ev('bump', op['k'], op['j'], op['v'])
            verify('setting a bump')
            return
        if op['op'] == 'reset':
            m = models[op['c']]
            out = ctx.real(curves[op['c']].reset_interpolation_values, [KnotValuePair(d, v) for d, v in zip(m.dates, op['vals'])])
            ctx.must(out, 'reset-failed', 'knots')
            m.values = list(op['vals'])
            return
        curve, m, ai = curves[op['c']], models[op['c']], op['a']
        k, j = op['k'], op['j']
        kr, shape = (lone, lone_shape) if j < 0 else (colls[k][j], shapes[k][j])
        with ctx.frame(op) as fr:
            if op['op'] == 'ladder':
                out = ctx.real(lambda: list(curve.calculate_pv01_risk_ladder(assets[ai], colls[k])))
            elif op['op'] == 'pv01':
                out = ctx.real(curve.calculate_pv01_risk, assets[ai], kr)
            else:
                out = ctx.real(curve.calculate_key_rate_deriv, assets[ai], kr)
        ctx.ev(op['op'], op['c'], ai, k, j, out)
        ctx.sim_days += 2 * (m.dates[-1] - m.ref).days
        if fr.fired:
            ctx.check(not out.ok, 'failure-swallowed', f'{op["op"]} returned although a valuation failed')
            ctx.probe('failed risk computations')
            verify(f'a failed {op["op"]}')
            # the retry gives what an undisturbed first attempt gives
            if core._active_sched is None and ctx._depth == 0:
                ctx.probe('retries')
                one({q: v for q, v in op.items() if q not in ('fault', 'inner')})
            return
        if asset_value(ai, m, lambda d: 0.0) is None:
            ctx.probe('payments outside the curve')
            return
        ctx.must(out, 'risk-failed', op['op'])
        if op['op'] == 'deriv':
            close(scalar(out.value) * BP, difference(ai, m, shape), ai, f'{op["op"]} of asset {ai} to {shape[1]}', 'derivative-wrong')
        elif op['op'] == 'pv01':
            close(scalar(out.value.pv01), difference(ai, m, shape), ai, f'{op["op"]} of asset {ai} to {shape[1]}', 'pv01-wrong')
            ctx.check(out.value.key_rate_date == shape[1], 'risk-date-wrong', f'{out.value.key_rate_date} for {shape[1]}')
        else:
            risks = out.value
            ctx.check([r.key_rate_date for r in risks] == [sh[1] for sh in shapes[k]], 'ladder-dates-wrong',
                      lambda: f'{[r.key_rate_date for r in risks]}, expected {[sh[1] for sh in shapes[k]]}')
            for r, sh in zip(risks, shapes[k]):
                close(scalar(r.pv01), difference(ai, m, sh), ai, f'ladder entry {sh[1]} of asset {ai}', 'pv01-wrong')
            up, down = asset_value(ai, m, lambda d: HALF), asset_value(ai, m, lambda d: -HALF)
            ctx.same(sum(scalar(r.pv01) for r in risks), up - down, 'ladder-sum-wrong', f'sum of the ladder of asset {ai}', rtol=1e-6,
                     atol=1e-10 + 1e-12 * scale(ai))
            ctx.probe('ladders compared')
        ctx.probe('risks compared')
        verify(op['op'])

    def run(ops):
        for op in ops:
            one(op)

    ctx.run_inner = run
    verify('construction')
    for op in plan['ops']:
        one(op)
    verify('the whole history')
