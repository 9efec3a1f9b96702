"""C10: swap legs are generated atomically and only when asked to be stored."""
import math
from datetime import date, timedelta

from dateutil.relativedelta import relativedelta

from . import core, fi, ref
from .core import canon, d2s, gen_par, history, pick_fault_kind, s2d, val

MONTHS = {'ANNUAL': 12, 'SEMI_ANNUAL': 6, 'QUARTERLY': 3}
DELAYS = {'T_MINUS_TWO_BUSINESS': -2, 'T_MINUS_ONE_BUSINESS': -1, 'T_MINUS_ZERO_BUSINESS': None, 'T_PLUS_ZERO_BUSINESS': 0,
          'T_PLUS_ONE_BUSINESS': 1, 'T_PLUS_TWO_BUSINESS': 2, 'T_PLUS_THREE_BUSINESS': 3}
DCCS = ['ACTUAL_OVER_360', 'ACTUAL_OVER_360', 'ACTUAL_OVER_365', 'ACTUAL_OVER_ACTUAL', 'THIRTY_OVER_THREESIXTY']


def setup():
    pass


def settle(d, conv, cal):
    n = DELAYS[conv]
    if n is None:
        return d if fi.is_business(d, cal) else fi.add_business(d, -1, cal)
    return fi.add_business(d, n, cal)


def months(tenor):
    return int(tenor[:-1]) * (12 if tenor[-1] == 'Y' else 1)


def gen_swap(rng, origin, small):
    ois = rng.random() < 0.5
    cal = 'NONE' if small and (ois or rng.random() < 0.7) else rng.choice(['US', 'NONE', 'NONE', 'TOY'])   # tracing a calendar is slow
    tenor = rng.choice(['3M', '6M', '6M'] + ([] if small and ois else ['1Y', '12M']) + (['5Y'] if not small and not ois and rng.random() < 0.2 else ['2Y'] if not small and rng.random() < 0.08 else []) + ([] if ois else ['18M', '2Y', '3Y', '30M'] + (['10Y', '7Y'] if not small and rng.random() < 0.15 else [])))
    m = months(tenor)

    def freq():
        return rng.choice([f for f, n in MONTHS.items() if m % n == 0])
    conv = rng.choice([c for c in DELAYS if c.startswith('T_PLUS')])
    start = origin + timedelta(rng.randrange(0, 15))
    while settle(start, conv, fi.CALENDARS[cal]).day > 28:
        start += timedelta(1)
    return {'ois': ois, 'dir': rng.choice(['PAYER_FIXED', 'RECEIVER_FIXED']), 'rate': rng.choice([0.0, 0.03, val(rng.uniform(-0.01, 0.09), 5)]),
            'notional': rng.choice([1, 100, 1_000_000]), 'purchase': d2s(start), 'conv': conv, 'tenor': tenor, 'ff': freq(), 'xf': freq(),
            'fd': rng.choice(DCCS), 'xd': rng.choice(DCCS), 'cal': cal, 'fix': rng.choice(list(DELAYS)), 'delay': rng.choice([c for c in DELAYS if c.startswith('T_PLUS')]),
            'adj': rng.choice(['FOLLOWING', 'MODIFIED_FOLLOWING'])}


def gen_rate(rng):
    k = rng.choice(['const', 'slope', 'wave', 'wave'])
    return {'k': k, 'v': val(rng.uniform(-0.01, 0.08), 5), 'd': val(rng.uniform(-0.03, 0.03), 5)}


def rate_value(s, origin):
    v, w = s['v'], s['d']
    if s['k'] == 'const':
        return lambda d: v
    if s['k'] == 'slope':
        return lambda d: v + w * (d - origin).days / 1000
    return lambda d: v + w * math.sin((d - origin).days * 0.7)


def generate(rng, tier):
    origin = date(rng.randrange(2015, 2030), rng.randrange(1, 13), rng.randrange(1, 29))
    threads = rng.random() < 0.45
    swaps = [gen_swap(rng, origin, threads) for _ in range(rng.choice([1, 1, 2, 2, 3]))]

    def disc():
        return fi.gen_disc(rng, origin, 4200 if rng.random() < 0.01 else 1300)

    def any_op(depth, quiet=False):
        k = rng.choice(['float', 'float', 'float', 'fixed', 'fixed', 'implied', 'implied', 'pv', 'pv', 'mirror', 'strike', 'assign', 'schedule'] if not quiet else ['float', 'float', 'fixed', 'implied', 'schedule'])
        op = {'op': k, 's': rng.randrange(6)}
        if k in ('float', 'fixed'):
            op['set'] = rng.choice([None, None, True, True, False, False]) if not quiet else False
        if k == 'implied':
            op['set'] = rng.choice([None, None, False, True]) if not quiet else rng.choice([None, False])
        if k in ('float', 'implied', 'mirror', 'strike'):
            op['rate'] = gen_rate(rng)
            if rng.random() < 0.35:
                if rng.random() < 0.25:
                    op['fault'] = {'site': 'fixing', 'at': rng.choice([1, 2, 3, rng.randrange(1, 120)]), 'kind': rng.choice(['bad-none', 'bad-text'])}
                else:
                    op['fault'] = {'site': 'fixing', 'at': rng.choice([1, 1, 2, 3, rng.randrange(1, 120)]), 'kind': pick_fault_kind(rng)}
                op['retry'] = rng.random() < 0.7
            elif depth < 1 and rng.random() < 0.4:
                op['inner'] = {'site': 'fixing', 'at': rng.choice([1, 1, 2, rng.randrange(1, 40)]), 'ops': [any_op(depth + 1) for _ in range(rng.randrange(1, 3))]}
        if k in ('pv', 'implied', 'mirror', 'strike'):
            op['disc'] = disc()
            if op['disc']['k'] == 'user' and rng.random() < 0.25 and 'fault' not in op and not (k == 'implied' and op['set']):
                op['fault'] = {'site': 'discount', 'at': rng.randrange(1, 9), 'kind': pick_fault_kind(rng)}
                op['retry'] = True
            elif op['disc']['k'] == 'user' and depth < 1 and 'inner' not in op and not (k == 'implied' and op['set']) and rng.random() < 0.3:
                op['inner'] = {'site': 'discount', 'at': rng.randrange(1, 5), 'ops': [any_op(depth + 1, quiet=True) for _ in range(rng.randrange(1, 3))]}
        if k == 'assign':
            op['leg'] = rng.choice(['FIXED_LEG', 'FLOATING_LEG'])
            op['pays'] = [[d2s(origin + timedelta(rng.randrange(20, 900))), val(rng.uniform(-5, 20), 3)] for _ in range(rng.randrange(1, 4))]
        return op

    ops = []
    for _ in range(history(rng, 3, 11, 50)):
        if threads and rng.random() < 0.4:
            ops.append(gen_par(rng, lambda: any_op(1, quiet=rng.random() < 0.3), 2, (2,)))
        else:
            ops.append(any_op(0))
    return {'origin': d2s(origin), 'swaps': swaps, 'ops': ops}


class SwapModel:
    def __init__(self, s):
        self.s = s
        self.cal = fi.CALENDARS[s['cal']]
        self.adj = (lambda d: fi.following(d, self.cal)) if s['adj'] == 'FOLLOWING' else (lambda d: fi.modified_following(d, self.cal))
        self.start = settle(s2d(s['purchase']), s['conv'], self.cal)
        self.end = self.start + relativedelta(months=months(s['tenor']))
        self.legs = {'FIXED_LEG': None, 'FLOATING_LEG': None}

    def periods(self, freq, dcc):
        ds, d = [], self.end
        while d >= self.start:
            ds.append(d)
            d = d - relativedelta(months=MONTHS[freq])
        ds = [self.adj(d) for d in reversed(ds)]
        return [(a, b, ref.accrual(a, b, dcc)) for a, b in zip(ds, ds[1:])]

    def pay_date(self, end):
        return settle(end, self.s['delay'], self.cal)

    def fixed(self, rate=None):
        r = self.s['rate'] if rate is None else rate
        return [(self.pay_date(b), acc * self.s['notional'] * r) for a, b, acc in self.periods(self.s['xf'], self.s['xd'])]

    def annuity(self, df):
        return sum(acc * self.s['notional'] * df(self.pay_date(b)) for a, b, acc in self.periods(self.s['xf'], self.s['xd']))

    def floating(self, rate):
        """(payments, dates the market-data function is asked for)"""
        out, asked = [], []
        for a, b, acc in self.periods(self.s['ff'], self.s['fd']):
            if self.s['ois']:
                days, d = [], a
                while d <= b:
                    if fi.is_business(d, self.cal):
                        days.append(d)
                    d += timedelta(1)
                growth, total = 1.0, 0.0
                for x, y in zip(days, days[1:]):
                    asked.append(x)
                    t = (y - x).days / 360
                    growth *= 1 + rate(x) * t
                    total += t
                r = (growth - 1) / total
            else:
                x = settle(a, self.s['fix'], self.cal)
                asked.append(x)
                r = rate(x)
            out.append((self.pay_date(b), acc * self.s['notional'] * r))
        return out, asked

    def value(self, df, first, legs=None):
        legs = legs or self.legs
        fixed, floating = [sum(df(d) * a for d, a in legs[k] if d >= first) for k in ('FIXED_LEG', 'FLOATING_LEG')]
        return floating - fixed if self.s['dir'] == 'PAYER_FIXED' else fixed - floating


def execute(ctx, plan):
    from fixedIncome.src.assets.base_cashflow import Cashflow, CashflowKeys, Payment
    from fixedIncome.src.assets.rates.linear_rates import interest_rate_swap as irs
    from fixedIncome.src.curves.curve_enumerations import CurveIndex
    from fixedIncome.src.scheduling_tools.schedule_enumerations import (BusinessDayAdjustment, DayCountConvention, PaymentFrequency,
                                                                       SettlementConvention)
    origin = s2d(plan['origin'])

    def make(s, **kw):
        s = dict(s, **kw)
        cls = irs.OvernightIndexSwap if s['ois'] else irs.TermInterestRateSwap
        return cls(float_index=CurveIndex.SOFR if s['ois'] else CurveIndex.LIBOR_3M, direction=irs.InterestRateSwapDirection[s['dir']], fixed_rate=s['rate'],
                   notional=s['notional'], purchase_date=s2d(s['purchase']), settlement_convention=SettlementConvention[s['conv']], tenor=s['tenor'],
                   floating_leg_payment_frequency=PaymentFrequency[s['ff']], fixed_leg_payment_frequency=PaymentFrequency[s['xf']],
                   floating_leg_day_count_convention=DayCountConvention[s['fd']], fixed_leg_day_count_convention=DayCountConvention[s['xd']],
                   holiday_calendar=fi.real_calendar(s['cal']), fixing_date_for_accrual_period=SettlementConvention[s['fix']],
                   payment_delay=SettlementConvention[s['delay']], business_day_adjustment=BusinessDayAdjustment[s['adj']])

    def make_disc(s):
        return fi.make_disc(ctx, s)

    def make_rate(s, op):
        inner = rate_value(s, origin)
        asked = []

        def interest_rate(d):
            asked.append(d)
            got = ctx.point('fixing')
            if got is not None:
                return None if got['kind'] == 'bad-none' else 'n/a'
            return inner(d)
        return interest_rate, inner, asked

    real = [make(s) for s in plan['swaps']]
    model = [SwapModel(s) for s in plan['swaps']]

    def pays(cf):
        return [(p.payment_date, p.payment) for p in cf]

    def same_leg(got, want, scale):
        return len(got) == len(want) and all(a == c and core.close(b, d, 1e-10, 1e-12 * scale) for (a, b), (c, d) in zip(got, want))

    def check(i, what):
        with ctx.reading(f'swap {i} after {what}'):
            for leg in ('FIXED_LEG', 'FLOATING_LEG'):
                got, want = real[i][CashflowKeys[leg]], model[i].legs[leg]
                got = None if got is None else pays(got)
                ctx.check((got is None) == (want is None) and (got is None or same_leg(got, want, plan['swaps'][i]['notional'])), 'leg-wrong',
                          lambda: f'{leg} of swap {i} after {what}: got {canon(got)}, expected {canon(want)}')
            s, sw = plan['swaps'][i], real[i]
            terms = [sw.fixed_rate, sw.notional, sw.tenor, sw.purchase_date, sw.start_accrual_date, sw.end_accrual_date, sw.direction.name]
            want = [s['rate'], s['notional'], s['tenor'], s2d(s['purchase']), model[i].start, model[i].end, s['dir']]
            ctx.check(terms == want, 'terms-changed', lambda: f'swap {i} after {what}: {canon(terms)}, expected {canon(want)}')

    def check_all(what):
        for i in range(len(real)):
            check(i, what)
        ctx.state('c10', [[k for k, v in m.legs.items() if v is not None] for m in model])

    def leg_result(i, got, want, what):
        got = pays(got)
        ctx.check(same_leg(got, want, plan['swaps'][i]['notional']), 'payments-wrong', lambda: f'{what} of swap {i}: got {canon(got)}, expected {canon(want)}')

    def asked_ok(asked, want, whole, what):
        a, w = set(asked), set(want)
        ctx.check(a == w if whole else a <= w, 'fixing-date-wrong', lambda: f'{what} asked for {canon(sorted(a ^ w)[:4] if whole else sorted(a - w)[:4])}, which differ from the fixing dates')

    def failed(op, out, what):
        bad = (op.get('fault') or {}).get('kind', '')
        ctx.check(core.is_injected(out.exc) or (bad.startswith('bad-') and isinstance(out.exc, (TypeError, ValueError))), 'unexpected-error', lambda: f'{what} raised {out.exc!r}')

    def attempt(op, i, quiet):
        """One operation, returns whether it failed."""
        k, sw, m, s = op['op'], real[i], model[i], plan['swaps'][i]
        kw = {} if op.get('set') is None else {'set_cashflow': op['set']}
        if k == 'fixed':
            out = ctx.real(sw.generate_fixed_leg_cashflow, **kw)
            leg_result(i, ctx.must(out, 'fixed-failed', 'generating the fixed leg'), m.fixed(), 'fixed leg')
            if op['set'] is not False:
                m.legs['FIXED_LEG'] = m.fixed()
        elif k == 'float':
            fn, inner, asked = make_rate(op['rate'], op)
            out = ctx.real(sw.generate_floating_leg_cashflow, fn, **kw)
            want, dates = m.floating(inner)
            if not out.ok:
                asked_ok(asked, dates, False, f'floating leg of swap {i}')
                failed(op, out, 'generating the floating leg')
                return True
            asked_ok(asked, dates, True, f'floating leg of swap {i}')
            leg_result(i, out.value, want, 'floating leg')
            if op['set'] is not False:
                m.legs['FLOATING_LEG'] = want
        elif k == 'implied':
            curve, df, first = make_disc(op['disc'])
            if op['disc'].get('late') or any(df(d) is None for d, _ in m.fixed() + m.floating(lambda d: 0.0)[0]):
                return False
            fn, inner, asked = make_rate(op['rate'], op)
            want, dates = m.floating(inner)
            out = ctx.real(sw.implied_rate, curve, fn, **kw)
            if not out.ok:
                failed(op, out, 'the implied rate')
                return True
            asked_ok(asked, dates, True, f'implied rate of swap {i}')
            ctx.same(core.scalar(out.value), sum(df(d) * a for d, a in want) / m.annuity(df), 'implied-rate-wrong', f'implied rate of swap {i}', 1e-9, 1e-11)
            if op['set']:
                m.legs['FLOATING_LEG'] = want
        elif k == 'pv':
            return value(op, i, sw, m.legs)
        elif k == 'mirror':
            # the same swap the other way round, on the same market data
            pair = [make(s, dir=d) for d in ('PAYER_FIXED', 'RECEIVER_FIXED')]
            curve, df, first = make_disc(op['disc'])
            if any(df(d) is None for d, _ in m.fixed() + m.floating(lambda d: 0.0)[0] if d >= first):
                return False
            vals = []
            for sw2 in pair:
                fn, inner, asked = make_rate(op['rate'], op)
                out = ctx.real(lambda: (sw2.generate_fixed_leg_cashflow(), sw2.generate_floating_leg_cashflow(fn), sw2.present_value(curve))[2])
                if not out.ok:
                    failed(op, out, 'payer and receiver')
                    return True
                vals.append(core.scalar(out.value))
            ctx.same(vals[0], -vals[1], 'payer-receiver', f'payer {vals[0]} and receiver {vals[1]}', 1e-12, 1e-12)
        elif k == 'strike':
            curve, df, first = make_disc(op['disc'])
            if op['disc'].get('late') or any(df(d) is None for d, _ in m.fixed() + m.floating(lambda d: 0.0)[0]):
                return False
            fn, inner, asked = make_rate(op['rate'], op)
            out = ctx.real(sw.implied_rate, curve, fn)
            if out.ok:
                fair = make(s, rate=core.scalar(out.value))
                out = ctx.real(lambda: (fair.generate_fixed_leg_cashflow(), fair.generate_floating_leg_cashflow(fn), fair.present_value(curve))[2])
            if not out.ok:
                failed(op, out, 'striking a swap at its implied rate')
                return True
            ctx.same(core.scalar(out.value), 0.0, 'fair-swap', f'a swap like {i} struck at its implied rate', 0, 1e-9 * s['notional'])
        elif k == 'assign':
            ctx.must(ctx.real(sw.__setitem__, CashflowKeys[op['leg']], Cashflow([Payment(s2d(d), a) for d, a in op['pays']])), 'assign-failed', 'assigning a leg')
            m.legs[op['leg']] = sorted([(s2d(d), a) for d, a in op['pays']], key=lambda x: x[0])
        elif k == 'schedule':
            for fn, f, d in ((sw.generate_fixed_leg_accrual_schedule, s['xf'], s['xd']), (sw.generate_floating_leg_accrual_schedule, s['ff'], s['fd'])):
                got = [(a.start_accrual, a.end_accrual, a.accrual_factor) for a in ctx.must(ctx.real(fn), 'schedule-failed', 'an accrual schedule')]
                want = m.periods(f, d)
                ctx.check(len(got) == len(want) and all(a[:2] == b[:2] and core.close(a[2], b[2]) for a, b in zip(got, want)), 'schedule-wrong',
                          lambda: f'accruals of swap {i}: got {canon(got)}, expected {canon(want)}')
        return False

    def value(op, i, sw, legs):
        curve, df, first = make_disc(op['disc'])
        missing = any(v is None for v in legs.values())
        if not missing and any(df(d) is None for v in legs.values() for d, _ in v if d >= first):
            return False
        snap = dict(legs)
        out = ctx.real(sw.present_value, curve)
        if missing:
            ctx.check(not out.ok, 'missing-leg', lambda: f'swap {i} without both legs was valued at {canon(out.value)}')
            if not core.is_injected(out.exc):
                ctx.faults['input:missing-leg'] += 1
            return False
        if not out.ok:
            failed(op, out, 'valuing')
            return True
        ctx.same(core.scalar(out.value), model[i].value(df, first, snap), 'value-wrong', f'value of swap {i}', 1e-9, 1e-9 * plan['swaps'][i]['notional'])
        return False

    import threading
    tls = threading.local()

    def quiet_op(op):
        return op['op'] in ('schedule', 'mirror', 'strike') or (op['op'] in ('float', 'fixed') and op['set'] is False) or (op['op'] == 'implied' and not op['set'])

    def run_op(op):
        tid = getattr(tls, 'tid', None)
        i = op['s'] % len(real)
        if tid is not None and not quiet_op(op) and i % 2 != tid:
            i = tid            # on threads, only the owner stores legs or values a swap
            if i >= len(real):
                return
        with ctx.frame(op):
            bad = attempt(op, i, False)
        if bad and op.get('retry'):
            again = {x: y for x, y in op.items() if x not in ('fault', 'inner')}
            check(i, f'failed {op["op"]}') if tid is None else None
            with ctx.frame(again):
                bad = attempt(again, i, False)
            ctx.check(not bad, 'retry-failed', lambda: f'{op["op"]} of swap {i} fails again after a failed attempt')
        ctx.ev(op['op'], i, bad)
        if tid is None:
            check_all(op['op'])
        elif i % 2 == tid:
            check(i, op['op'])

    def run_list(ops):
        for op in ops:
            run_op(op)

    ctx.run_inner = run_list
    check_all('building')
    for op in plan['ops']:
        if op['op'] != 'par':
            run_op(op)
            continue

        def task(t, spec):
            def body():
                tls.tid = t
                run_list(spec['ops'])
            return body
        ctx.parallel(op, [task(t, s) for t, s in enumerate(op['tasks'])])
        check_all('threads')
    ctx.sim_days += sum((m.end - m.start).days for m in model)
