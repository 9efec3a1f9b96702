"""C11: portfolio value is the sum of its parts and iteration never interferes."""
from datetime import date, timedelta

from . import core, fi
from .core import canon, d2s, gen_par, history, pick_fault_kind, s2d, val

DCCS = ['ACTUAL_OVER_ACTUAL', 'ACTUAL_OVER_365', 'ACTUAL_OVER_360']


def setup():
    pass


def generate(rng, tier):
    origin = date(rng.randrange(2015, 2030), rng.randrange(1, 13), rng.randrange(1, 29))
    span = rng.choice([10, 60, 400, 700]) if rng.random() < 0.97 else 9000
    threads = rng.random() < 0.35

    def asset():
        k = rng.choice(['bond', 'zero', 'toy', 'toy', 'toy', 'bare'])
        if k == 'bond':
            return fi.gen_bond(rng, origin, max(30, span), cal=rng.choice(['NONE', 'NONE', 'US']) if not threads else 'NONE')
        if k == 'zero':
            return {'kind': 'zero', 'date': d2s(origin + timedelta(rng.randrange(0, span))), 'price': 0.9}
        if k == 'bare' and rng.random() < 0.5:
            return {'kind': 'bare', 'purchase': d2s(origin), 'tenor': rng.choice(['3M', '6M'])}
        return {'kind': 'custom', 'payments': [[d2s(origin + timedelta(rng.randrange(0, span))), val(rng.uniform(-5, 20), 3)] for _ in range(rng.randrange(1, 4))]}
    assets = [asset() for _ in range(rng.randrange(1, 5))]
    if all(a['kind'] == 'bare' for a in assets):
        assets.append({'kind': 'zero', 'date': d2s(origin + timedelta(3)), 'price': 0.9})

    def entry():
        return [rng.randrange(len(assets)), rng.choice([1, 0, -2, val(rng.uniform(-10, 10), 3)])]
    ports = []
    for i in range(rng.choice([1, 2, 2, 3])):
        ports.append({'entries': [entry() for _ in range(rng.randrange(0, 6) if rng.random() < 0.95 or threads else 20)], 'sub': [[rng.randrange(i), val(rng.uniform(-2, 2), 2)]] if i and rng.random() < 0.3 else [],
                      'cash': rng.choice([None, 0.0, 5.5, -3.25]), 'form': rng.choice(['list', 'tuple', 'gen'])})
    ladders = [[[d2s(origin + timedelta(30 * j)), val(rng.uniform(-9, 9), 3)] for j in range(rng.randrange(0, 5) if rng.random() < 0.95 else 15)] for _ in range(rng.randrange(1, 3))]
    colls = [sorted(d2s(origin + timedelta(x)) for x in rng.sample(range(500), rng.randrange(1, 6)))]
    nthings = 12

    def any_op(depth, par=False):
        k = rng.choice(['open', 'open', 'next', 'next', 'next', 'drain', 'drop', 'nest', 'nest', 'pv', 'pv', 'pv', 'pv-yield', 'convert', 'convert', 'cash', 'cursor', 'views'])
        if par and k in ('open', 'next', 'drain', 'drop', 'cash', 'cursor'):
            k = rng.choice(['nest', 'loop', 'loop', 'pv', 'convert', 'views'])
        if depth and k == 'cash':        # which cash a valuation in progress counts is not defined
            k = 'pv'
        op = {'op': k, 'p': rng.randrange(4), 't': rng.randrange(nthings), 'n': rng.randrange(1, 4), 'i': rng.randrange(4)}
        if k == 'nest':
            op['u'] = rng.choice([op['t'], rng.randrange(nthings)])
            op['cut'] = rng.choice([None, None, 0, 1, 2])
            op['cut2'] = rng.choice([None, None, 0, 1])
        if k == 'pv':
            op['disc'] = fi.gen_disc(rng, origin, max(1300, span), 0.3, 0.3)
        if k == 'pv-yield':
            op['curve'] = fi.gen_curve(rng, origin, max(1300, span))
            op['adj'] = fi.gen_adj(rng, origin, 1300)
        if k == 'convert':
            op['dcc'] = rng.choice(DCCS)
        if k == 'cash':
            op['v'] = rng.choice([0.0, 7.25, val(rng.uniform(-100, 100), 2)])
        if k in ('pv', 'pv-yield', 'convert'):
            site = rng.choice(['asset', 'asset', 'discount']) if k == 'pv' else 'asset' if k == 'pv-yield' else 'horizon'
            if rng.random() < 0.35:
                op['fault'] = {'site': site, 'at': rng.randrange(1, 5), 'kind': pick_fault_kind(rng)}
            elif depth < 1 and rng.random() < 0.4:
                op['inner'] = {'site': site, 'at': rng.randrange(1, 4), 'ops': [any_op(depth + 1, par) for _ in range(rng.randrange(1, 4))]}
        return op
    ops = []
    for _ in range(history(rng, 4, 18)):
        if threads and rng.random() < 0.25:
            ops.append(gen_par(rng, lambda: any_op(0, True)))
        else:
            ops.append(any_op(0))
    return {'origin': d2s(origin), 'assets': assets, 'ports': ports, 'ladders': ladders, 'colls': colls, 'ops': ops}


def execute(ctx, plan):
    from fixedIncome.src.assets import base_cashflow as bc
    from fixedIncome.src.assets.rates.linear_rates import interest_rate_swap as irs
    from fixedIncome.src.curves.base_curve import KnotValuePair
    from fixedIncome.src.curves.curve_enumerations import CurveIndex
    from fixedIncome.src.portfolio.base_portfolio import Portfolio, PortfolioEntry
    from fixedIncome.src.risk.key_rate import KeyRate, KeyRateCollection
    from fixedIncome.src.risk.risk_metrics import Risk, RiskLadder
    from fixedIncome.src.scheduling_tools.schedule_enumerations import (BusinessDayAdjustment, DayCountConvention, PaymentFrequency,
                                                                       SettlementConvention)
    origin = s2d(plan['origin'])

    class Toy(bc.CashflowCollection):
        def __init__(self, s):
            self.s = s
            super().__init__([bc.Cashflow(bc.Payment(s2d(d), a) for d, a in s['payments'])], [bc.CashflowKeys.SINGLE_PAYMENT])

        def to_knot_value_pair(self):
            ctx.point('horizon')
            return KnotValuePair(max(s2d(d) for d, _ in self.s['payments']), 1.0)

        def present_value(self, curve):
            ctx.point('asset')
            return self[bc.CashflowKeys.SINGLE_PAYMENT].present_value(curve)

    def make(s):
        if s['kind'] == 'custom':
            return Toy(s)
        if s['kind'] == 'bare':   # a swap whose legs were never generated: cannot be valued
            return irs.TermInterestRateSwap(CurveIndex.LIBOR_3M, irs.InterestRateSwapDirection.PAYER_FIXED, 0.03, 100, s2d(s['purchase']),
                                            SettlementConvention.T_PLUS_ZERO_BUSINESS, s['tenor'], PaymentFrequency.QUARTERLY, PaymentFrequency.QUARTERLY,
                                            DayCountConvention.ACTUAL_OVER_360, DayCountConvention.ACTUAL_OVER_360, fi.real_calendar('NONE'),
                                            business_day_adjustment=BusinessDayAdjustment.FOLLOWING)
        return fi.make_instrument(ctx, s)

    assets = [make(s) for s in plan['assets']]
    ports, entries, cash = [], [], []
    for s in plan['ports']:
        es = [PortfolioEntry(q, assets[i]) for i, q in s['entries']] + [PortfolioEntry(q, ports[j]) for j, q in s['sub']]
        mine = list(es)
        conv = {'list': lambda x: x, 'tuple': tuple, 'gen': iter}[s['form']]
        port = Portfolio(conv(mine)) if s['cash'] is None else Portfolio(conv(mine), s['cash'])
        mine.append(PortfolioEntry(3.0, assets[0]))    # the caller's list is the caller's
        ports.append(port)
        entries.append(es)
        cash.append(s['cash'] or 0.0)
    ladders, risks = [], []
    for s in plan['ladders']:
        rs = [Risk(s2d(d), v, CurveIndex.US_TREASURY) for d, v in s]
        ladders.append(RiskLadder(iter(rs)))
        risks.append(rs)
    krs = [[KeyRate(DayCountConvention.ACTUAL_OVER_365, s2d(d)) for d in s] for s in plan['colls']]
    colls = [KeyRateCollection(list(x)) for x in krs]
    cashflows = [a[bc.CashflowKeys.SINGLE_PAYMENT] for a in assets if not isinstance(a, irs.TermInterestRateSwap)]

    # everything there is to iterate: (name, object, key of an element, expected keys)
    things = [(f'portfolio {i}', p, id, [id(e) for e in entries[i]]) for i, p in enumerate(ports)]
    things += [(f'risk ladder {i}', x, id, [id(r) for r in risks[i]]) for i, x in enumerate(ladders)]
    things += [(f'key rates {i}', x, lambda k: k.key_rate_date, [s2d(d) for d in plan['colls'][i]]) for i, x in enumerate(colls)]
    things += [(f'cashflow {i}', x, lambda p: (p.payment_date, p.payment), [(p.payment_date, p.payment) for p in x.schedule]) for i, x in enumerate(cashflows)]
    things += [(f'asset {i}', x, lambda e: e[0], [bc.CashflowKeys.SINGLE_PAYMENT] if isinstance(x, (Toy, bc.ZeroCoupon)) else [k for k in x.keys])
               for i, x in enumerate(assets)]
    open_ = []      # [thing, iterator, keys so far]

    def seen(thing, got, whole, what):
        name, _, _, want = thing
        ctx.check(got == (want if whole else want[:len(got)]), 'loop-wrong',
                  lambda: f'{what} over {name} saw elements {[want.index(g) if g in want else "?" for g in got]} of {len(want)}' + ('' if whole else ' so far'))

    def start(thing):
        return ctx.must(ctx.real(iter, thing[1]), 'loop-failed', f'a loop over {thing[0]}')

    def step(thing, it):
        """(element key,) or None at the end"""
        out = ctx.real(lambda: (next(it),))
        if not out.ok and isinstance(out.exc, StopIteration):
            return None
        return (thing[2](ctx.must(out, 'loop-failed', f'a loop over {thing[0]}')[0]),)

    def loop(thing, cut=None, body=None):
        got = []
        it = start(thing)
        while cut is None or len(got) < cut:
            x = step(thing, it)
            if x is None:
                seen(thing, got, True, 'a loop')
                return
            got.append(x[0])
            seen(thing, got, False, 'a loop')
            if body:
                body(len(got))

    def value(i, df, first, adj_curve=None):
        """Reference value, None where it is not defined."""
        total = cash[i]
        for a, q in plan['ports'][i]['entries']:
            s = plan['assets'][a]
            if s['kind'] == 'bare':
                return None
            for d, amount in fi.future(s, first):
                f = df(d)
                if f is None:
                    return None
                total += q * amount * f
        for j, q in plan['ports'][i]['sub']:
            v = value(j, df, first)
            if v is None:
                return None
            total += q * v
        return total

    def horizons(i):
        out = set()
        for a, _ in plan['ports'][i]['entries']:
            s = plan['assets'][a]
            out.add(assets[a].end_accrual_date if s['kind'] == 'bare' else fi.last_date(s))
        return sorted(out)

    snaps = [snapshot(a) for a in assets]

    def unchanged(what):
        for i, a in enumerate(assets):
            ctx.check(snapshot(a) == snaps[i], 'asset-changed', lambda: f'asset {i} changed after {what}: {snapshot(a)}, was {snaps[i]}')
        for i, p in enumerate(ports):
            ctx.check(p.cash_amount == cash[i] and [id(e) for e in p.assets] == [id(e) for e in entries[i]], 'portfolio-changed', lambda: f'portfolio {i} changed after {what}')

    def run_op(op):
        k = op['op']
        p = op['p'] % len(ports)
        thing = things[op['t'] % len(things)]
        with ctx.frame(op):
            if k == 'open':
                open_.append([thing, start(thing), []])
            elif k in ('next', 'drain') and open_:
                h = open_[op['i'] % len(open_)]
                n = op['n'] if k == 'next' else 99
                while n:
                    x = step(h[0], h[1])
                    if x is None:
                        seen(h[0], h[2], True, 'an open loop')
                        if h in open_:
                            open_.remove(h)
                        break
                    h[2].append(x[0])
                    seen(h[0], h[2], False, 'an open loop')
                    n -= 1
            elif k == 'drop' and open_:
                open_.pop(op['i'] % len(open_))
            elif k == 'loop':
                loop(thing)
            elif k == 'nest':
                other = things[op['u'] % len(things)]
                loop(thing, op['cut'], lambda n: loop(other, op['cut2']))
            elif k == 'cursor':
                # the portfolio's and ladder's own cursor (next(x)): whatever it does, loops are not affected
                if hasattr(thing[1], '__next__'):
                    for _ in range(op['n']):
                        ctx.real(next, thing[1], None)
            elif k == 'cash':
                ports[p].cash_amount = op['v']
                cash[p] = op['v']
            elif k == 'views':
                i = op['i'] % len(ladders)
                with ctx.reading(f'views of ladder {i}'):
                    ld, rs = ladders[i], risks[i]
                    ctx.check(len(ld) == len(rs) and ld.get_pv01s() == [r.pv01 for r in rs] and ld.get_key_rate_dates() == [r.key_rate_date for r in rs]
                              and ld.get_indices() == [r.index for r in rs], 'ladder-view-wrong', f'views of risk ladder {i} disagree')
                    text = str(ld)
                    at = [text.find(f'{r.key_rate_date}|') for r in rs]
                    ctx.check(-1 not in at and at == sorted(at), 'ladder-view-wrong', lambda: f'table of risk ladder {i}: {text}')
            elif k == 'convert':
                if not horizons(p) or plan['ports'][p]['sub']:
                    return
                out = ctx.real(ports[p].to_key_rate_collection, DayCountConvention[op['dcc']])
                if not out.ok:
                    ctx.check(core.is_injected(out.exc), 'conversion-failed', lambda: f'converting portfolio {p} raised {out.exc!r}')
                else:
                    with ctx.reading('the converted collection'):
                        got = [x.key_rate_date for x in out.value]
                        ctx.check(got == horizons(p), 'conversion-wrong', lambda: f'portfolio {p} gives key rates at {canon(got)}, expected {canon(horizons(p))}')
                        ctx.check(len(out.value) == len(got), 'conversion-wrong', 'length of a converted collection')
            elif k in ('pv', 'pv-yield'):
                if k == 'pv':
                    curve, df, first = fi.make_disc(ctx, op['disc'])
                    out = ctx.real(ports[p].present_value, curve)
                else:
                    m = fi.CurveModel(op['curve'])
                    curve, df, first = fi.make_curve(op['curve']), m.discounter(op['adj']), m.ref
                    args = [ports[p]] + ([] if op['adj'] is None else [fi.make_adj(ctx, op['adj'])])
                    out = ctx.real(curve.present_value, *args)
                want = value(p, df, first)
                if not out.ok:
                    if want is None:
                        ctx.faults['input:unvaluable'] += 1
                    else:
                        ctx.check(core.is_injected(out.exc), 'value-failed', lambda: f'valuing portfolio {p} raised {out.exc!r}')
                elif want is not None:
                    ctx.same(core.scalar(out.value), want, 'value-wrong', f'value of portfolio {p}', 1e-9, 1e-8)
        ctx.ev(k, p, thing[0])
        unchanged(k)
        ctx.state('c11', [h[0][0] for h in open_], [len(h[2]) for h in open_])

    def run_list(ops):
        for o in ops:
            run_op(o)

    ctx.run_inner = run_list
    unchanged('building')
    for op in plan['ops']:
        if op['op'] == 'par':
            ctx.parallel(op, [lambda ops=t['ops']: run_list(ops) for t in op['tasks']])
        else:
            run_op(op)
    while open_:
        run_op({'op': 'drain', 'p': 0, 't': 0, 'i': 0})
    for t in things:
        loop(t)
    unchanged('everything')


def snapshot(asset):
    flows = [[k.name, None if c is None else [(p.payment_date, p.payment) for p in c.schedule]] for k, c in asset.cashflows.items()]
    return canon([flows] + [getattr(asset, n, None) for n in ('price', 'coupon_rate', 'principal', 'tenor', 'purchase_date', 'maturity_date', 'payment_date', 'fixed_rate', 'notional')])
