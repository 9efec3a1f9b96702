"""C21: over a bond's life its interest, prices and yields are consistent."""
import math
import threading
from datetime import timedelta

import numpy as np
import scipy.optimize
from dateutil.relativedelta import relativedelta

from . import core, fi, ref
from .core import d2s, gen_par, pick_fault_kind, s2d

_ctx = [None]
_tls = threading.local()
SETTLE = {'T_PLUS_ZERO_BUSINESS': 0, 'T_PLUS_ONE_BUSINESS': 1, 'T_PLUS_TWO_BUSINESS': 2, 'T_PLUS_THREE_BUSINESS': 3}
PER_YEAR = {'ZERO_COUPON': 0, 'ANNUAL': 1, 'SEMI_ANNUAL': 2, 'QUARTERLY': 4}
DCCS = ('ACTUAL_OVER_360', 'ACTUAL_OVER_365', 'ACTUAL_OVER_365_POINT_25', 'ACTUAL_OVER_ACTUAL', 'THIRTY_OVER_THREESIXTY')


def said():
    """What the root search said of itself during the operations now running on this thread."""
    if not hasattr(_tls, 'stack'):
        _tls.stack = [[]]
    return _tls.stack


def setup():
    from fixedIncome.src.scheduling_tools.day_count_calculator import DayCountCalculator

    def root(original):
        def call(*args, **kwargs):
            fault = _ctx[0].point('root') if _ctx[0] is not None else None
            mine = said()[-1]
            sol = original(*args, **kwargs)
            if fault:
                sol['x'] = np.asarray(sol['x'], dtype=float) + 0.004   # where a search that stops short may be
                sol['success'] = False
                sol['status'] = 5
                sol['message'] = 'The iteration is not making good progress'
            mine.append(bool(sol['success']))
            return sol
        return call
    core.patch_everywhere(scipy.optimize, 'root', root)
    raw = DayCountCalculator.compute_accrual_length

    def accrual(*args, **kwargs):
        if _ctx[0] is not None:
            _ctx[0].point('accrual')
        return raw(*args, **kwargs)
    DayCountCalculator.compute_accrual_length = staticmethod(accrual)


# ----------------------------------------------------------------------------------------------
# plans

def gen_bond(rng):
    freq = rng.choice(['SEMI_ANNUAL', 'SEMI_ANNUAL', 'QUARTERLY', 'ANNUAL', 'ANNUAL', 'ZERO_COUPON'] if rng.random() < 0.5 else ['SEMI_ANNUAL', 'QUARTERLY'])
    months = rng.choice([6, 12, 12, 18, 24, 24, 36, 60, 84, 120, 240, 360])
    tenor = f'{months // 12}Y' if months % 12 == 0 and rng.random() < 0.8 else f'{months}M'
    y, m = rng.randrange(1990, 2060), rng.randrange(1, 13)
    mat = s2d(f'{y:04d}-{m:02d}-01')
    if rng.random() < 0.3:
        mat = mat + relativedelta(months=1) - timedelta(1)
    else:
        mat = mat.replace(day=rng.randrange(1, 29))
    if rng.random() < 0.15:
        # coupons around holidays
        m, d = rng.choice([(1, 1), (7, 4), (6, 19), (11, 11), (12, 25), (12, 31), (3, 31), (2, 28)])
        mat = mat.replace(month=m, day=d)
    days = (mat - (mat - relativedelta(months=months))).days
    purchase = mat - timedelta(rng.randrange(6, days - 6))
    return {'t': rng.choice(['ust', 'ust', 'corp']), 'freq': freq, 'tenor': tenor, 'months': months, 'mat': d2s(mat), 'purchase': d2s(purchase),
            'coupon': 0.0 if freq == 'ZERO_COUPON' else rng.choice([0.0, 5.0, 5.0, round(rng.uniform(0.1, 12), 3)]),
            'price': round(rng.choice([100.0, rng.uniform(96, 104), rng.uniform(80, 125)]), 3), 'principal': rng.choice([100, 100, 1000, 10_000, 1_000_000]),
            'dcc': rng.choice(['ACTUAL_OVER_ACTUAL', 'ACTUAL_OVER_ACTUAL', *DCCS]), 'conv': rng.choice(['T_PLUS_ONE_BUSINESS', *SETTLE]),
            'cal': rng.choice(['US', 'NONE', 'NONE', 'TOY']), 'adj': rng.choice(['FOLLOWING', 'FOLLOWING', 'MODIFIED_FOLLOWING'])}


def gen_ticks(rng, s):
    """A clock over part of the bond's life: days around a coupon, jumps, or both."""
    mat = s2d(s['mat'])
    dated = mat - relativedelta(months=s['months'])
    life = (mat - dated).days
    r = rng.random()
    if r < 0.55:
        coupons = [u for u, _, _ in payments(s)]
        d = rng.choice(coupons) - timedelta(rng.randrange(1, 9))
        out = [d + timedelta(k) for k in range(rng.randrange(4, 14))]
    elif r < 0.85:
        out = sorted(dated + timedelta(rng.randrange(0, life)) for _ in range(rng.randrange(3, 10)))
    else:
        step = rng.choice([1, 7, 28, 30, 91, 182, 365])
        out = [s2d(s['purchase']) + timedelta(k * step) for k in range(rng.randrange(3, 12))]
    if rng.random() < 0.3:
        k = rng.randrange(len(out))
        out.insert(k, out[rng.randrange(len(out))])   # the clock steps back or forth
    return out


def generate(rng, tier):
    threads = rng.random() < 0.5

    def bond():
        while True:
            s = gen_bond(rng)
            if not threads or s['months'] <= 60 or rng.random() < 0.1:   # yields of long bonds take many steps
                return s
    specs = [bond() for _ in range(rng.choice([1, 2, 2, 3]))]
    if rng.random() < 0.5:
        # one bond equal to another but for one term
        s = dict(rng.choice(specs))
        k = rng.choice(['price', 'coupon', 'dcc', 'conv', 'cal', 'principal', 'purchase', 't', 'adj'])
        s[k] = {'price': lambda: round(s['price'] + rng.choice([1, -2.5]), 3), 'coupon': lambda: s['coupon'] and round(s['coupon'] * 1.2, 3), 'dcc': lambda: rng.choice(DCCS),
                'conv': lambda: rng.choice(list(SETTLE)), 'cal': lambda: rng.choice(['US', 'NONE', 'TOY']), 'principal': lambda: s['principal'] * 10,
                'purchase': lambda: d2s(s2d(s['purchase']) - timedelta(rng.randrange(1, 4))), 't': lambda: {'ust': 'corp', 'corp': 'ust'}[s['t']],
                'adj': lambda: 'FOLLOWING'}[k]()
        if s2d(s['purchase']) > s2d(s['mat']) - relativedelta(months=s['months']) + timedelta(3):
            specs.append(s)

    def any_op(depth, i, day):
        s = specs[i]
        menu = ['accrued', 'accrued', 'full_price', 'received', 'schedule'] if s['freq'] == 'ZERO_COUPON' else \
            ['accrued', 'accrued', 'full_price', 'full_price', 'ytm', 'ytm', 'ytm', 'pv', 'received', 'duration', 'convexity', 'pv_deriv', 'schedule'] + ['macaulay'] * (2 if s['t'] == 'corp' else 0)
        op = {'op': 'q', 'o': i, 'q': rng.choice(menu), 'r': None if rng.random() < 0.2 else day}
        if op['q'] in ('pv', 'pv_deriv'):
            op['rate'] = rng.choice([0.0, 0.05, round(rng.uniform(-0.03, 0.15), 4)])
        if op['q'] == 'pv_deriv':
            op['offset'] = rng.choice([0.0, 0.001, -0.002])
        if rng.random() < (0.5 if op['q'] == 'schedule' else 0.15):
            op['anew'] = True       # asked of a bond just made
        r = rng.random()
        solves = op['q'] in ('ytm', 'duration', 'convexity')
        if r < 0.2:
            site = 'root' if solves and rng.random() < 0.6 else 'accrual'
            op['fault'] = {'site': site, 'at': 1 if site == 'root' else rng.choice([1, 2, 3, rng.randrange(1, 40)]),
                           'kind': rng.choice(['gave-up', 'gave-up', pick_fault_kind(rng)]) if site == 'root' else pick_fault_kind(rng)}
        elif r < 0.4 and depth < 1:
            op['inner'] = {'site': rng.choice(['accrual', 'accrual', 'root']), 'at': rng.choice([1, 1, 2, 3, rng.randrange(1, 30)]),
                           'ops': [any_op(depth + 1, *tick(rng.randrange(len(specs)))) for _ in range(rng.choice([1, 1, 2]))]}
        return op

    clocks = [gen_ticks(rng, s) for s in specs]

    def tick(i):
        return i, d2s(rng.choice(clocks[i]))
    ops = []
    for i in rng.sample(range(len(specs)), rng.choice([1, len(specs)])):
        for day in clocks[i]:
            for _ in range(rng.choice([1, 1, 2])):
                ops.append(any_op(0, i, d2s(day)))
    if len(specs) > 1 and rng.random() < 0.5:
        rng.shuffle(ops)
    ops = ops[:24] + [any_op(0, *tick(rng.randrange(len(specs)))) for _ in range(0 if rng.random() < 0.98 else rng.randrange(20, 80))]
    if threads:
        for _ in range(rng.choice([1, 2, 3, 4])):
            ops.insert(rng.randrange(len(ops) + 1), gen_par(rng, lambda: any_op(1, *tick(rng.randrange(len(specs))))))
    return {'specs': specs, 'ops': ops}


# ----------------------------------------------------------------------------------------------
# the bond by its terms

def payments(s):
    """(unadjusted date, payment date, amount): coupons in order, then the principal."""
    cal = fi.CALENDARS[s['cal']]
    adj = fi.following if s['adj'] == 'FOLLOWING' else fi.modified_following
    mat = s2d(s['mat'])
    dated = mat - relativedelta(months=s['months'])
    out = []
    if s['freq'] != 'ZERO_COUPON':
        step, k = 12 // PER_YEAR[s['freq']], 0
        while mat - relativedelta(months=step * k) > dated:
            u = mat - relativedelta(months=step * k)
            out.append((u, adj(u, cal), s['principal'] * s['coupon'] / (100 * PER_YEAR[s['freq']])))
            k += 1
        out.reverse()
    return out + [(mat, adj(mat, cal), float(s['principal']))]


class Terms:
    def __init__(self, s):
        self.s, self.n = s, PER_YEAR[s['freq']]
        self.pays = payments(s)
        self.coupons = self.pays[:-1]
        self.mat = s2d(s['mat'])
        self.dated = self.mat - relativedelta(months=s['months'])
        self.purchase = s2d(s['purchase'])
        self.cal = fi.CALENDARS[s['cal']]
        self.yields = {}

    def settle(self, day):
        return fi.add_business(day, SETTLE[self.s['conv']], self.cal)

    def received(self, day):
        at = self.settle(day)
        return [u >= at for u, _, _ in self.pays]

    def accrued(self, day):
        """None if there is no running coupon period."""
        at = self.settle(day)
        if not self.n:
            return 0.0
        if at < self.dated or at > self.mat:
            return None
        prev = self.dated
        for u, _, c in self.coupons:
            if u >= at:
                return c * ref.accrual(prev, at, self.s['dcc']) / ref.accrual(prev, u, self.s['dcc'])
            prev = u

    def full(self, day):
        a = self.accrued(day)
        return None if a is None else self.s['price'] + a / self.s['principal'] * 100.0

    def flows(self, day):
        return [(ref.accrual(day, p, self.s['dcc']), a) for (_, p, a), r in zip(self.pays, self.received(day)) if r]

    def unpriceable(self, day):
        """A payment still counted as received lies before the day itself (holidays), or nothing is left to receive."""
        left = [p for (_, p, _), r in zip(self.pays, self.received(day)) if r]
        return not left or min(left) < day or max(left) <= day

    def pv(self, y, day, order=0):
        """Present value, or its derivatives with respect to the yield."""
        total, k = 0.0, self.n
        for t, a in self.flows(day):
            f = a * (1 + y / k) ** (-t * k - order)
            if order >= 1:
                f *= -t
            if order >= 2:
                f *= -(t * k + 1) / k
            total += f
        return total

    def ytm(self, day):
        """The yield at which the payments are worth the full price; None if out of any reasonable range."""
        if day not in self.yields:
            target = self.full(day) * self.s['principal'] / 100
            lo, hi = -0.9 * self.n, 50.0
            if not self.pv(lo, day) >= target >= self.pv(hi, day):
                self.yields[day] = None
            else:
                for _ in range(200):
                    mid = (lo + hi) / 2
                    lo, hi = (mid, hi) if self.pv(mid, day) >= target else (lo, mid)
                self.yields[day] = (lo + hi) / 2
        return self.yields[day]

    def ordinary(self, day):
        y = self.ytm(day)
        return y is not None and -0.05 <= y <= 0.5 and (self.pays[-1][1] - day).days >= 30


def make(s):
    from fixedIncome.src.scheduling_tools.schedule_enumerations import BusinessDayAdjustment, DayCountConvention, PaymentFrequency, SettlementConvention
    if s['t'] == 'ust':
        from fixedIncome.src.assets.us_treasury_instruments.us_treasury_instruments import UsTreasuryBond as cls
    else:
        from fixedIncome.src.assets.credit.corporate_bond import FixedRateBond as cls
    return cls(price=s['price'], coupon_rate=s['coupon'], principal=s['principal'], tenor=s['tenor'], purchase_date=s2d(s['purchase']), maturity_date=s2d(s['mat']),
               settlement_convention=SettlementConvention[s['conv']], payment_frequency=PaymentFrequency[s['freq']], day_count_convention=DayCountConvention[s['dcc']],
               business_day_adjustment=BusinessDayAdjustment[s['adj']], holiday_calendar=fi.real_calendar(s['cal']))


def execute(ctx, plan):
    from fixedIncome.src.assets.base_cashflow import CashflowKeys
    _ctx[0] = None
    terms = [Terms(s) for s in plan['specs']]
    bonds = []
    for t in terms:
        out = ctx.real(make, t.s)
        # settling before interest starts or after maturity leaves nothing to buy
        late = t.n and t.accrued(t.purchase) is None
        bonds.append(None if late and not out.ok else ctx.must(out, 'construction-failed', f'bond {t.s}'))
    _ctx[0] = ctx

    def near(got, want, what, rtol=1e-9, atol=1e-9, kind='value-wrong'):
        ctx.same(got, want, kind, what, rtol, atol)

    def query(op):
        i, q = op['o'], op['q']
        t, o = terms[i], bonds[i]
        s = t.s
        if o is None:
            return
        day = t.purchase if op['r'] is None or q in ('duration', 'convexity', 'pv_deriv', 'schedule') else s2d(op['r'])
        kw = {} if op['r'] is None else {'reference_date': s2d(op['r'])}
        what = f'{q} on {day} of bond {i} ({s["t"]} {s["tenor"]} {s["freq"]} {s["coupon"]}% to {s["mat"]}, {s["dcc"]}, {s["conv"]}, {s["cal"]} {s["adj"]})'
        gone = t.accrued(day) is None
        if q in ('ytm', 'pv', 'duration', 'convexity', 'pv_deriv', 'macaulay'):
            if gone and q != 'pv' or t.unpriceable(day):
                ctx.probe('dates without a price')
                return
        y = t.ytm(day) if q in ('ytm', 'duration', 'convexity', 'macaulay') else None
        if q in ('duration', 'convexity', 'macaulay') and (y is None or not t.ordinary(day)):
            ctx.probe('yields out of range')
            return
        said().append([])
        try:
            with ctx.frame(op) as fr:
                out = None
                if op.get('anew'):
                    out = ctx.real(make, s)
                    o = out.value
                if out is None or out.ok:
                    out = ask(o, op, q, kw, y)
        finally:
            solved = all(said().pop())
        ctx.ev(q, i, d2s(day), out.ok)
        ctx.sim_days += 1
        if fr.fired:
            ctx.check(not out.ok, 'failure-swallowed', lambda: f'{what}: answered {out.value} although {op["fault"]["site"]} failed ({op["fault"]["kind"]})')
            ctx.probe('failed queries')
            return
        if q == 'accrued' and gone or q == 'full_price' and gone:
            ctx.check(not out.ok, 'impossible-accepted', lambda: f'{what}: answered {out.value} although no coupon period is running')
            ctx.probe('dates without a coupon period')
            return
        if q == 'ytm' and not out.ok and (not solved or not t.ordinary(day)):
            ctx.probe('searches that gave up by themselves')
            return
        value = ctx.must(out, 'query-failed', what)
        with ctx.reading(what):
            value = [(p.unadjusted_payment_date, p.payment_date, float(p.payment)) for p in value] if q == 'schedule' else \
                [bool(v) for v in value] if q == 'received' else core.scalar(value)
        if q == 'accrued':
            near(value, t.accrued(day), what, kind='accrual-wrong')
        elif q == 'full_price':
            near(value, t.full(day), what, kind='price-wrong')
        elif q == 'pv':
            near(value, t.pv(op['rate'], day), what + f' at {op["rate"]}', 1e-10, 1e-9, 'present-value-wrong')
        elif q == 'ytm':
            target = t.full(day) * s['principal'] / 100
            ctx.check(math.isfinite(value) and value > -t.n, 'yield-wrong', lambda: f'{what}: {value!r}')
            # close to maturity a yield of -100% or thousands of percent says little about the value
            if y is None or t.ordinary(day) or abs(value - y) > 1e-6 * (1 + abs(y)):
                near(t.pv(value, day), target, f'{what}: value of the payments at the yield {value!r}, compared with the full price', 1e-5, 0, 'yield-wrong')
            ctx.state('c21', s['t'], s['freq'], s['dcc'], round(value, 5))
        elif q == 'received':
            ctx.check(value == t.received(day), 'payments-wrong', lambda: f'{what}: {value}, expected {t.received(day)}')
        elif q == 'schedule':
            ctx.check(len(value) == len(t.pays), 'payments-wrong', lambda: f'{what}: {len(value)} payments, expected {len(t.pays)}')
            for got, want in zip(value, t.pays):
                ctx.check(got[:2] == want[:2] and abs(got[2] - want[2]) < 1e-9 * max(1.0, want[2]), 'payments-wrong', lambda: f'{what}: {got}, expected {want}')
        elif q == 'pv_deriv':
            near(value, t.pv(op['rate'] + op['offset'], day, 1), what, 1e-4, 1e-6 * s['principal'], 'derivative-wrong')
        elif q == 'duration':
            near(value, -t.pv(y, day, 1) / t.pv(y, day), what, 1e-4, 1e-6, 'derivative-wrong')
        elif q == 'convexity':
            near(value, t.pv(y, day, 2) / t.pv(y, day), what, 1e-3, 1e-4, 'derivative-wrong')
        elif q == 'macaulay':
            near(value, sum(h * a * (1 + y / t.n) ** (-h * t.n) for h, a in t.flows(day)) / t.pv(y, day), what, 1e-6, 1e-9, 'derivative-wrong')
        ctx.probe(q)

    def ask(o, op, q, kw, y):
        if q == 'accrued':
            return ctx.real(o.calculate_accrued_interest, **kw)
        if q == 'full_price':
            return ctx.real(o.get_full_price, **kw)
        if q == 'ytm':
            return ctx.real(o.yield_to_maturity, **kw)
        if q == 'pv':
            return ctx.real(o.discount_cashflows_by_fixed_rate, op['rate'], **kw)
        if q == 'macaulay':
            return ctx.real(o.macaulay_duration, y, **kw)
        if q == 'pv_deriv':
            return ctx.real(o.pv_deriv, offset=op['offset'], ytm=op['rate'])
        if q in ('duration', 'convexity'):
            return ctx.real(getattr(o, q))
        pays = list(o[CashflowKeys.COUPON_PAYMENTS]) + list(o[CashflowKeys.SINGLE_PAYMENT])
        if q == 'schedule':
            return ctx.real(lambda: pays)
        return ctx.real(lambda: [o.is_payment_received(p, **kw) for p in pays])

    def run(ops):
        for op in ops:
            query(op)

    ctx.run_inner = run
    for op in plan['ops']:
        if op['op'] == 'par':
            ctx.parallel(op, [lambda ops=t['ops']: run(ops) for t in op['tasks']])
            ctx.probe('parallel phases')
        else:
            query(op)
