"""Fixed-income building blocks shared by C05-C13: calendars, bonds, curves and their reference valuations."""
import math
from datetime import date, timedelta
from functools import lru_cache

from dateutil.relativedelta import relativedelta

from . import ref
from .core import d2s, s2d, val

# The package's US federal calendar as documented in its holidays module: (month, day, how it is observed).
US = ((1, 1, 'fed'), (1, 17, 'fed'), (2, 15, 'mon'), (5, 30, 'fed'), (6, 19, 'fed'), (7, 4, 'fed'), (9, 1, 'mon'),
      (10, 8, 'mon'), (11, 11, 'fed'), (11, 22, 'thu'), (12, 25, 'fed'))
CALENDARS = {'US': US, 'NONE': (), 'TOY': ((1, 1, 'fed'), (3, 31, 'raw'), (4, 30, 'mon'), (12, 31, 'next2'))}


def observed(rule, y):
    m, d, how = rule
    x = date(y, m, d)
    if how == 'fed':
        return x + timedelta({5: -1, 6: 1}.get(x.weekday(), 0))
    if how == 'mon':
        return x + timedelta((0 - x.weekday()) % 7)
    if how == 'thu':
        return x + timedelta((3 - x.weekday()) % 7)
    if how == 'next2':
        return x + timedelta(2)
    if how == 'prev3':
        return x - timedelta(3)
    return x


@lru_cache(maxsize=None)
def holidays(cal, y):
    """Days observed in the calendar's years y-1, y and y+1."""
    return frozenset(observed(r, yy) for yy in (y - 1, y, y + 1) if 1 <= yy <= 9999 for r in cal)


def is_business(d, cal):
    return d.weekday() < 5 and d not in holidays(cal, d.year)


def following(d, cal):
    while not is_business(d, cal):
        d += timedelta(1)
    return d


def add_business(d, n, cal):
    d = following(d, cal)
    step = 1 if n >= 0 else -1
    for _ in range(abs(n)):
        d += timedelta(step)
        while not is_business(d, cal):
            d += timedelta(step)
    return d


def modified_following(d, cal):
    f = following(d, cal)
    if f.month == d.month:
        return f
    while not is_business(d, cal):
        d -= timedelta(1)
    return d


def real_calendar(name):
    """The package's calendar of that name: its own US one, or one made of its Holiday template."""
    from fixedIncome.src.scheduling_tools.holidays import Holiday, US_FEDERAL_HOLIDAYS
    if name == 'US':
        return US_FEDERAL_HOLIDAYS
    return {f'h{i}': Holiday(m, d, (lambda how, m, d: lambda x: observed((x.month, x.day, how), x.year))(how, m, d))
            for i, (m, d, how) in enumerate(CALENDARS[name])}


# ----------------------------------------------------------------------------------------------
# instruments

FREQS = {'ZERO_COUPON': None, 'QUARTERLY': 3, 'SEMI_ANNUAL': 6, 'ANNUAL': 12}


def gen_bond(rng, origin, max_days=700, cal=None, min_days=20):
    """A bond bought at about `origin` that matures within max_days of it."""
    freq = rng.choice(['SEMI_ANNUAL', 'SEMI_ANNUAL', 'SEMI_ANNUAL', 'QUARTERLY', 'ANNUAL', 'ZERO_COUPON'])
    mat = origin + timedelta(rng.randrange(min_days, max_days))
    mat = mat.replace(day=min(mat.day, 28))
    days = (mat - origin).days
    fits = [t for t, n in (('6M', 180), ('1Y', 364), ('2Y', 729), ('3Y', 1094), ('5Y', 1825), ('7Y', 2555), ('10Y', 3651), ('20Y', 7304), ('30Y', 10956)) if n >= days]
    tenor = rng.choice(fits[:2])
    if freq == 'ANNUAL' and tenor == '6M':
        freq = 'SEMI_ANNUAL'
    return {'kind': 'bond', 'mat': d2s(mat), 'tenor': tenor, 'freq': freq, 'coupon': 0.0 if freq == 'ZERO_COUPON' else rng.choice([0.0, 2.5, round(rng.uniform(0.1, 9), 3)]),
            'principal': rng.choice([100, 100, 1000]), 'price': val(rng.uniform(94, 104), 3), 'purchase': d2s(origin),
            'cal': cal or rng.choice(['US', 'US', 'NONE']), 'adj': rng.choice(['FOLLOWING', 'FOLLOWING', 'MODIFIED_FOLLOWING'])}


def make_bond(s):
    from fixedIncome.src.assets.us_treasury_instruments.us_treasury_instruments import UsTreasuryBond
    from fixedIncome.src.scheduling_tools.schedule_enumerations import BusinessDayAdjustment, PaymentFrequency
    return UsTreasuryBond(price=s['price'], coupon_rate=s['coupon'], principal=s['principal'], tenor=s['tenor'],
                          purchase_date=s2d(s['purchase']), maturity_date=s2d(s['mat']),
                          payment_frequency=PaymentFrequency[s['freq']], business_day_adjustment=BusinessDayAdjustment[s['adj']],
                          holiday_calendar=real_calendar(s['cal']))


def bond_payments(s):
    """(unadjusted date, payment date, amount), coupons in date order and then the principal."""
    cal = CALENDARS[s['cal']]
    adj = following if s['adj'] == 'FOLLOWING' else modified_following
    mat = s2d(s['mat'])
    n = int(s['tenor'][:-1])
    dated = mat - (relativedelta(years=n) if s['tenor'][-1] == 'Y' else relativedelta(months=n))
    out = []
    months = FREQS[s['freq']]
    if months:
        d = mat
        while d > dated:
            out.append((d, adj(d, cal), s['principal'] * s['coupon'] / (100 * (12 / months))))
            d = d - relativedelta(months=months)
        out.reverse()
    out.append((mat, adj(mat, cal), s['principal']))
    return out


def bond_future(s, reference):
    """What a buyer on the reference date still receives: (payment date, amount)."""
    settle = add_business(reference, 1, CALENDARS[s['cal']])
    return [(p, a) for u, p, a in bond_payments(s) if u >= settle]


def future(s, reference):
    """Future payments of any instrument specification."""
    if s['kind'] == 'bond':
        return bond_future(s, reference)
    if s['kind'] == 'zero':
        d = s2d(s['date'])
        return [(d, 1.0)] if d >= reference else []
    return [(s2d(d), a) for d, a in s['payments'] if s2d(d) >= reference]


def last_date(s):
    if s['kind'] == 'bond':
        return max(p for _, p, _ in bond_payments(s))
    if s['kind'] == 'zero':
        return s2d(s['date'])
    return max(s2d(d) for d, _ in s['payments'])


def gen_instrument(rng, origin, max_days):
    k = rng.choice(['bond', 'bond', 'zero', 'custom'])
    if k == 'bond':
        return gen_bond(rng, origin, max_days)
    if k == 'zero':
        return {'kind': 'zero', 'date': d2s(origin + timedelta(rng.randrange(0, max_days))), 'price': val(rng.uniform(0.8, 1.0), 4)}
    n = rng.randrange(1, 5)
    return {'kind': 'custom', 'payments': [[d2s(origin + timedelta(rng.randrange(0, max_days))), val(rng.uniform(-5, 20), 3)] for _ in range(n)]}


class Custom:
    """A user's own instrument: discounts its payments one by one."""

    def __init__(self, ctx, spec):
        self.ctx, self.payments = ctx, [(s2d(d), a) for d, a in spec['payments']]

    def present_value(self, curve):
        total = 0.0
        for d, a in self.payments:
            self.ctx.point('instrument')
            if d >= curve.reference_date:
                total += a * curve(d)
        return total


def make_instrument(ctx, s):
    if s['kind'] == 'bond':
        return make_bond(s)
    if s['kind'] == 'zero':
        from fixedIncome.src.assets.base_cashflow import ZeroCoupon
        return ZeroCoupon(payment_date=s2d(s['date']), price=s['price'])
    return Custom(ctx, s)


# ----------------------------------------------------------------------------------------------
# adjustment functions

def gen_adj(rng, origin, span):
    k = rng.choice(['none', 'zero', 'const', 'const', 'slope', 'wave', 'tent', 'tent'])
    if k == 'none':
        return None
    size = rng.choice([1e-4, 5e-5, 0.01, val(rng.uniform(-0.02, 0.02), 5)])
    if k == 'tent':
        a, b, c = sorted(rng.sample(range(0, span + 200), 3))
        return {'k': k, 'v': size, 'd': [d2s(origin + timedelta(x)) for x in (a, b, c)]}
    return {'k': k, 'v': 0.0 if k == 'zero' else size, 'o': d2s(origin)}


def adj_value(adj):
    """The reference value of an adjustment specification."""
    if adj is None or adj['k'] in ('none', 'zero'):
        return lambda d: 0.0
    v = adj['v']
    if adj['k'] == 'const':
        return lambda d: v
    if adj['k'] == 'slope':
        o = s2d(adj['o'])
        return lambda d: v * (d - o).days / 365.0
    if adj['k'] == 'wave':
        o = s2d(adj['o'])
        return lambda d: v * math.sin((d - o).days / 17.0)
    a, b, c = [s2d(x) for x in adj['d']]
    return lambda d: tent(d, a, b, c, v, 'ACTUAL_OVER_ACTUAL')


def tent(d, a, b, c, v, dcc):
    """The key-rate bump: v at b, falling to 0 at a and at c; flat on a side without a neighbour."""
    if d == b:
        return v
    if d < b:
        if a is None:
            return v
        return 0.0 if d <= a else v * ref.accrual(a, d, dcc) / ref.accrual(a, b, dcc)
    if c is None:
        return v
    return 0.0 if d >= c else v * ref.accrual(d, c, dcc) / ref.accrual(b, c, dcc)


def make_adj(ctx, adj, site='adjustment'):
    """The callable the code under test is given."""
    if adj is None:
        return None
    if adj['k'] == 'tent':
        from fixedIncome.src.risk.key_rate import KeyRate
        from fixedIncome.src.scheduling_tools.schedule_enumerations import DayCountConvention
        a, b, c = [s2d(x) for x in adj['d']]
        kr = KeyRate(day_count_convention=DayCountConvention.ACTUAL_OVER_ACTUAL, key_rate_date=b, prior_date=a, next_date=c)
        kr.set_bump_val(adj['v'])
        inner = kr
    else:
        inner = adj_value(adj)

    def adjustment(d):
        ctx.point(site)
        return inner(d)
    return adjustment


# ----------------------------------------------------------------------------------------------
# yield curves

def gen_curve(rng, origin, span, n=None):
    space = rng.choice(['CC', 'CC', 'DF'])
    n = n or (rng.choice([2, 3, 3, 4]) if rng.random() < 0.93 else rng.choice([6, 9]))
    last = span + rng.randrange(8, 30)
    if span > 2000:     # quick to convert
        space = rng.choice([space, 'DF', 'DF'])
    elif rng.random() < 0.03:  # a long curve
        last = max(last, rng.choice([1900, 3800, 3800, 7400]))
    offs = sorted(rng.sample(range(1, last), n - 1)) + [last]
    if space == 'DF':
        offs[0] = 0
        vals = [val(math.exp(-rng.uniform(0.0, 0.06) * o / 365), 5) for o in offs]
    else:
        vals = level_values(rng, [val(rng.uniform(-0.005, 0.08), 5) for _ in offs])
    return {'space': space, 'ref': d2s(origin), 'knots': [[o, v] for o, v in zip(offs, vals)],
            'method': rng.choice(['LINEAR', 'LINEAR', 'LINEAR', 'PREVIOUS']), 'dcc': rng.choice(['ACTUAL_OVER_ACTUAL', 'ACTUAL_OVER_ACTUAL', 'ACTUAL_OVER_365'])}


def level_values(rng, vals):
    """Sometimes flat, nearly flat, or with equal ends."""
    k = rng.random()
    if k < 0.06:
        return [vals[0]] * len(vals)
    if k < 0.12:
        return [vals[0] + (v - 0.04) * 1e-4 for v in vals]
    if k < 0.2:
        return vals[:-1] + [vals[0]]
    return vals


def gen_knot_values(rng, spec):
    if spec['space'] == 'DF':
        return [val(math.exp(-rng.uniform(0.0, 0.06) * o / 365), 5) for o, _ in spec['knots']]
    return level_values(rng, [val(rng.uniform(-0.005, 0.08), 5) for _ in spec['knots']])


def make_curve(spec):
    from fixedIncome.src.assets.base_cashflow import ZeroCoupon
    from fixedIncome.src.curves.curve_enumerations import EndBehavior, InterpolationMethod, InterpolationSpace
    from fixedIncome.src.curves.yield_curves.yield_curve import YieldCurve
    from fixedIncome.src.scheduling_tools.schedule_enumerations import DayCountConvention
    origin = s2d(spec['ref'])
    dates = [origin + timedelta(o) for o, _ in spec['knots']]
    # a curve of zero-coupon bonds: their prices are its first knot values
    return YieldCurve(instruments=[ZeroCoupon(d, v) for d, (_, v) in zip(dates, spec['knots'])], quote_adjustments=None,
                      interpolation_method=InterpolationMethod[spec['method']],
                      interpolation_day_count_convention=DayCountConvention[spec['dcc']],
                      interpolation_space={'CC': InterpolationSpace.CONTINUOUSLY_COMPOUNDED_YIELD, 'DF': InterpolationSpace.DISCOUNT_FACTOR}[spec['space']],
                      reference_date=origin, left_end_behavior=EndBehavior.CONSTANT, right_end_behavior=EndBehavior.CONSTANT)


class CurveModel:
    """Reference yield curve: knots -> discount factors under an adjustment."""

    def __init__(self, spec):
        self.spec = spec
        self.ref = s2d(spec['ref'])
        self.dates = [self.ref + timedelta(o) for o, _ in spec['knots']]
        self.values = [v for _, v in spec['knots']]

    def _interp(self, d, values):
        dates = self.dates
        if d <= dates[0]:
            return values[0]
        if d >= dates[-1]:
            return values[-1]
        j = max(i for i in range(len(dates)) if dates[i] <= d)
        if dates[j] == d or self.spec['method'] == 'PREVIOUS':
            return values[j]
        dcc = self.spec['dcc']
        x = ref.accrual(self.ref, d, dcc)
        x0, x1 = ref.accrual(self.ref, dates[j], dcc), ref.accrual(self.ref, dates[j + 1], dcc)
        w = (x - x0) / (x1 - x0)
        return values[j] * (1 - w) + values[j + 1] * w

    def rate(self, d, values=None):
        return self._interp(d, values or self.values)

    def discounter(self, adj=None, values=None):
        """date -> discount factor with these knots plus the adjustment, or None outside the discount curve."""
        f = adj_value(adj) if not callable(adj) else adj
        values = list(values or self.values)
        first = self.dates[0] if self.spec['space'] == 'DF' else self.ref
        last = self.dates[-1]
        bumped = [v + f(d) for v, d in zip(values, self.dates)] if self.spec['space'] == 'DF' else None

        def df(d):
            if not first <= d <= last:
                return None
            if bumped is not None:
                return self._interp(d, bumped)
            return math.exp(-(self._interp(d, values) + f(d)) * ref.accrual(self.ref, d, self.spec['dcc']))
        return df

    def value(self, inst, adj=None, values=None):
        """Present value of an instrument specification, or None if a payment lies outside the curve."""
        df = self.discounter(adj, values)
        total = 0.0
        for d, a in future(inst, self.ref):
            f = df(d)
            if f is None:
                return None
            total += f * a
        return total


# ----------------------------------------------------------------------------------------------
# discount curves

def gen_disc(rng, origin, span=1300, late=0.2, yields=0.3):
    if rng.random() < yields:
        return {'k': 'yield', 'spec': gen_curve(rng, origin, span)}
    is_late = rng.random() < late
    return {'k': 'user', 'ref': d2s(origin + timedelta(rng.randrange(20, 400) if is_late else 0)), 'late': is_late, 'mid': rng.randrange(30, 900),
            'v': [val(rng.uniform(0.8, 1.0), 4), val(rng.uniform(0.4, 0.8), 4)]}


def make_disc(ctx, s):
    """(discount curve, date -> discount factor or None outside, reference date); user curves cross 'discount'."""
    from fixedIncome.src.curves.base_curve import DiscountCurve, KnotValuePair
    from fixedIncome.src.curves.curve_enumerations import CurveIndex, InterpolationMethod
    from fixedIncome.src.scheduling_tools.schedule_enumerations import DayCountConvention
    if s['k'] == 'yield':
        m = CurveModel(s['spec'])
        return make_curve(s['spec']).to_discount_curve(), m.discounter(), m.ref

    class UserDiscount(DiscountCurve):
        def __call__(self, *args, **kwargs):
            ctx.point('discount')
            return super().__call__(*args, **kwargs)
    r = s2d(s['ref'])
    mid, far = s['mid'], 4000
    vals = [1.0] + s['v']
    curve = UserDiscount([KnotValuePair(r + timedelta(n), v) for n, v in zip((0, mid, far), vals)], interpolation_method=InterpolationMethod.LINEAR,
                         index=CurveIndex.NONE, interpolation_day_count_convention=DayCountConvention.ACTUAL_OVER_365, reference_date=r)

    def df(d):
        n = (d - r).days
        if not 0 <= n <= far:
            return None
        return vals[0] + (vals[1] - vals[0]) * n / mid if n <= mid else vals[1] + (vals[2] - vals[1]) * (n - mid) / (far - mid)
    return curve, df, r
