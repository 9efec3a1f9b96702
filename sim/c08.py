"""C08: calibrated curves reprice their instruments or fail loudly."""
import warnings
from datetime import date, timedelta

import numpy as np
import scipy.optimize

from . import core, fi
from .core import d2s, gen_sched, history, pick_fault_kind, s2d, scalar

HASH_INDEPENDENT = 0
TOL = 1e-5
_ctx = [None]


def setup():
    def wrapper(original):
        def root(*args, **kwargs):
            fault = _ctx[0].point('root') if _ctx[0] is not None else None
            sol = original(*args, **kwargs)
            if fault:
                # the solver stops short: at a point that solves nothing, with or without admitting it
                sol['x'] = np.asarray(sol['x'], dtype=float) + 0.02
                if fault['kind'] == 'gave-up':
                    sol['success'] = False
                    sol['message'] = 'The iteration is not making good progress.'
            return sol
        return root
    core.patch_everywhere(scipy.optimize, 'root', wrapper)


def gen_set(rng, origin, tiny=False):
    span = rng.choice([40, 60]) if tiny else rng.choice([40, 45, 60, 90, 150]) if rng.random() < 0.9 else rng.choice([400, 400, 400, 1500])
    n = rng.choice([2, 2, 3]) if tiny else rng.choice([2, 3, 3, 4]) if span != 60 or rng.random() < 0.8 else 6
    cal = rng.choice(['US', 'NONE'])
    bonds, used = [], []
    while len(bonds) < n:
        b = fi.gen_bond(rng, origin, span, cal=cal, min_days=8)
        b['principal'] = 100
        # knots at least a week apart, the last dates of two instruments never coincide
        last = fi.last_date(b)
        if all(abs((last - u).days) >= 6 for u in used):
            bonds.append(b)
            used.append(last)
    return priced(rng, {'origin': d2s(origin), 'bonds': bonds})


def priced(rng, s):
    # market prices: those of some yield curve, rounded
    origin, bonds = s2d(s['origin']), [dict(b) for b in s['bonds']]
    lasts = sorted(fi.last_date(b) for b in bonds)
    spec = {'space': 'CC', 'ref': d2s(origin), 'knots': [[(d - origin).days, round(rng.uniform(-0.01, 0.09), 5)] for d in lasts], 'method': 'LINEAR',
            'dcc': 'ACTUAL_OVER_ACTUAL'}
    m = fi.CurveModel(spec)
    for b in bonds:
        b['price'] = round(m.value(b), rng.choice([2, 4, 8]))
    return {'origin': d2s(origin), 'bonds': bonds}


def generate(rng, tier):
    origin = date(rng.randrange(2015, 2027), rng.randrange(1, 13), rng.randrange(1, 29))
    sets = [gen_set(rng, origin + timedelta(rng.randrange(0, 400))) for _ in range(rng.choice([1, 2, 2]))]
    tiny = len(sets)
    sets.append(gen_set(rng, origin, True))
    if rng.random() < 0.5:
        sets.append(priced(rng, rng.choice(sets)))   # the same bonds on another day's prices

    def any_op(depth, s=None):
        s = rng.randrange(len(sets)) if s is None else s
        n = len(sets[s]['bonds'])
        order = list(range(n))
        if rng.random() < 0.6:
            rng.shuffle(order)
        op = {'op': 'calibrate', 's': s, 'how': rng.choice(['global', 'bootstrap']), 'order': order, 'form': rng.choice(['list', 'tuple', 'gen', 'iter']),
              'method': rng.choice(['LINEAR'] * 6 + ['PREVIOUS'] + (['CUBIC_SPLINE'] if n >= 4 else []))}
        if rng.random() < 0.25:
            op['back'] = rng.choice([1, 5, 20])      # the same bonds, seen from an earlier day
        r = rng.random()
        if r < 0.2:
            op['fault'] = {'site': 'root', 'at': 1 if op['how'] == 'global' else rng.randrange(1, n + 1), 'kind': rng.choice(['gave-up', 'gave-up', 'wrong', pick_fault_kind(rng)])}
        elif r < 0.4:
            op['fault'] = {'site': 'valuation', 'at': rng.choice([1, 2, 3, rng.randrange(1, 40), rng.randrange(1, 60)]), 'kind': pick_fault_kind(rng)}
        elif r < 0.48:
            op['bad'] = [rng.randrange(n), rng.choice(['negative', 'nan'])]
        elif r < 0.58 and depth < 1:
            op['inner'] = {'site': 'valuation', 'at': rng.randrange(1, 20), 'ops': [any_op(depth + 1, tiny)]}
        elif r < 0.64:
            op['fault'] = {'site': 'iterable', 'at': rng.randrange(1, n + 1), 'kind': pick_fault_kind(rng)}
            op['form'] = 'gen'
        return op

    ops = []
    for _ in range(history(rng, 2, 6, 14)):
        if rng.random() < 0.05:
            q = {'op': 'calibrate', 's': tiny, 'form': 'list', 'method': 'LINEAR', 'order': list(range(len(sets[tiny]['bonds'])))}
            ops.append({'op': 'par', 'sched': gen_sched(rng), 'tasks': [{'ops': [dict(q, how=rng.choice(['global', 'bootstrap']))]} for _ in range(2)]})
        else:
            ops.append(any_op(0))
    return {'sets': sets, 'ops': ops}


def execute(ctx, plan):
    from fixedIncome.src.assets.us_treasury_instruments.us_treasury_instruments import UsTreasuryBond
    from fixedIncome.src.curves.curve_enumerations import InterpolationMethod
    from fixedIncome.src.curves.yield_curves.yield_curve import YieldCurveFactory
    _ctx[0] = ctx
    warnings.simplefilter('ignore')

    class Watched(UsTreasuryBond):
        def present_value(self, curve):
            ctx.point('valuation')
            return super().present_value(curve)

    def make(b):
        real = fi.make_bond(b)
        real.__class__ = Watched
        return real

    sets = [[make(b) for b in s['bonds']] for s in plan['sets']]
    factory = YieldCurveFactory()
    done = {}
    kept = []

    def knots_of(curve):
        return [(k.knot, scalar(k.value)) for k in curve.interpolation_values]

    def terms(bond):
        return (bond.price, bond.coupon_rate, bond.principal, bond.maturity_date, bond.purchase_date, bond.settlement_date, bond.full_price,
                [(p.payment_date, p.payment) for key in bond.keys for p in bond[key]])
    before = [[terms(b) for b in bonds] for bonds in sets]

    def unchanged(what):
        for s, bonds in enumerate(sets):
            for b, t in zip(bonds, before[s]):
                ctx.check(terms(b) == t, 'instrument-changed', lambda: f'bond {t[3]} of set {s} changed from {t} to {terms(b)} after {what}')
        # a curve handed out earlier is its holder's: later calibrations leave it as it was
        for curve, values, made in list(kept):
            with ctx.reading(made):
                ctx.check(knots_of(curve) == values, 'curve-changed', lambda: f'the curve of an earlier {made} changed from {values} to {knots_of(curve)} after {what}')

    def one(op):
        if op['op'] == 'par':
            ctx.parallel(op, [lambda ops=t['ops']: run(ops) for t in op['tasks']])
            ctx.probe('parallel phases')
            unchanged('the threads ended')
            return
        s = op['s']
        specs = [plan['sets'][s]['bonds'][k] for k in op['order']]
        bonds = [sets[s][k] for k in op['order']]
        origin = s2d(plan['sets'][s]['origin']) - timedelta(op.get('back', 0))
        bad = op.get('bad')
        if bad:
            j = bad[0] % len(bonds)
            spec = dict(specs[j], price={'negative': -5.0, 'nan': float('nan')}[bad[1]])
            bonds = bonds[:j] + [make(spec)] + bonds[j + 1:]

        def lazily():
            for b in bonds:
                ctx.point('iterable')
                yield b
        arg = {'list': lambda: list(bonds), 'tuple': lambda: tuple(bonds), 'iter': lambda: iter(bonds), 'gen': lazily}[op['form']]()
        fn = factory.construct_yield_curve if op['how'] == 'global' else factory.bootstrap_yield_curve
        with ctx.frame(op) as fr:
            out = ctx.real(fn, arg, InterpolationMethod[op['method']], origin)
        ctx.ev('calibrate', s, op['how'], out)
        what = f'{op["how"]} calibration of set {s}, order {op["order"]}'
        if fr.fired:
            ctx.check(not out.ok, 'failure-swallowed', f'{what} returned a curve although {op["fault"]["site"]} failed ({op["fault"]["kind"]})')
            ctx.probe('failed calibrations')
        elif bad:
            ctx.check(not out.ok, 'does-not-reprice', f'{what} returned a curve for a bond priced {bad[1]}')
            ctx.probe('impossible prices')
        elif op['method'] == 'CUBIC_SPLINE' and not out.ok:
            ctx.probe('spline calibrations that raised')
        else:
            curve = ctx.must(out, 'calibration-failed', what)
            kv = list(curve.interpolation_values)
            knots = sorted(fi.last_date(b) for b in specs)
            ctx.check([k.knot for k in kv] == knots, 'knots-wrong', lambda: f'{what} has knots {[k.knot for k in kv]}, expected {knots}')
            if op['method'] != 'CUBIC_SPLINE':
                m = fi.CurveModel({'space': 'CC', 'ref': d2s(origin), 'method': op['method'], 'dcc': 'ACTUAL_OVER_ACTUAL',
                                   'knots': [[(k.knot - origin).days, scalar(k.value)] for k in kv]})
                for b in specs:
                    ctx.same(m.value(b), b['price'], 'does-not-reprice', f'{what}: bond {b["mat"]} by reference valuation', rtol=0, atol=TOL)
            if op['method'] != 'CUBIC_SPLINE' or op['how'] == 'global':
                for b, real in zip(specs, bonds):
                    pv = ctx.real(curve.present_value, real)
                    ctx.same(scalar(ctx.must(pv, 'valuation-failed', what)), b['price'], 'does-not-reprice', f'{what}: bond {b["mat"]}', rtol=0, atol=TOL)
            vals = [scalar(k.value) for k in kv]
            kept.append((curve, knots_of(curve), what))
            ctx.probe('curves kept while later ones are made')
            key = (s, op['how'], op['method'], op.get('back', 0))
            if op['method'] != 'CUBIC_SPLINE':
                if key in done:
                    ctx.same(vals, done[key], 'not-repeatable', f'{what}, compared with an earlier one', rtol=0, atol=1e-5)
                    ctx.probe('repeated calibrations compared')
                done.setdefault(key, vals)
            exact = key + (tuple(op['order']),)
            if exact in done:
                ctx.same(vals, done[exact], 'not-repeatable', f'{what}, compared with the same earlier one', rtol=1e-12, atol=1e-14)
            done.setdefault(exact, vals)
            ctx.probe('calibrations repriced')
        unchanged(what)

    def run(ops):
        for op in ops:
            one(op)

    ctx.run_inner = run
    for op in plan['ops']:
        one(op)
    # after all failures: each set once more, undisturbed
    for s in range(len(sets)):
        if len(plan['ops']) > 1:
            one({'op': 'calibrate', 's': s, 'how': 'global' if len(plan['ops']) % 2 else 'bootstrap', 'order': list(range(len(sets[s]))), 'form': 'list', 'method': 'LINEAR'})
