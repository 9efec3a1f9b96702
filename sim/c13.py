"""C13: analytics queries never influence one another."""
import os
import pickle
from datetime import date, datetime, timedelta

import numpy as np

from . import core, fi, procs
from .core import canon, d2s, gen_par, history, pick_fault_kind, s2d



def site_of(rng, op):
    q = op.get('q')
    if q in ('ytm', 'duration', 'convexity', 'pv_deriv'):
        return rng.choice(['accrual', 'root'])
    if q in ('pv', 'float', 'implied'):
        return rng.choice(['accrual', 'discount', 'discount'])
    return 'maturities' if op.get('form') == 'gen' and rng.random() < 0.5 else 'accrual'


_ctx = [None]


def setup():
    import scipy.optimize
    from fixedIncome.src.scheduling_tools.day_count_calculator import DayCountCalculator

    def seam(site):
        def make(original):
            def call(*args, **kwargs):
                if _ctx[0] is not None:
                    _ctx[0].point(site)
                return original(*args, **kwargs)
            return call
        return make
    # every accrual and every root search is a place where a query can fail, be interrupted or overtaken
    raw = DayCountCalculator.compute_accrual_length
    DayCountCalculator.compute_accrual_length = staticmethod(seam('accrual')(raw))
    core.patch_everywhere(scipy.optimize, 'root', seam('root'))


BOND_Q = {'ust': ['accrued', 'full_price', 'ytm', 'ytm', 'fixed_pv', 'pv_deriv', 'duration', 'convexity', 'pv', 'knot', 'received', 'future'],
          'corp': ['accrued', 'full_price', 'ytm', 'ytm', 'fixed_pv', 'pv_deriv', 'duration', 'convexity', 'pv', 'knot', 'received', 'future', 'macaulay']}
VAS_Q = ['rate', 'short_rate_variance', 'expected_short_rate', 'zero_coupon_bond_price', 'zero_coupon_yield', 'yield_convexity', 'price_convexities',
         'yield_volatility', 'instantaneous_forward_rate', 'instantaneous_forward_rate_volatility', 'average_expected_short_rate', '_create_bond_price_coeffs',
         '_create_bond_yield_coeffs']
DMR_Q = ['rate', 'state', 'expected_state_variable_mean', 'expected_short_rate', 'average_expected_short_rate', 'state_variable_covariance', 'short_rate_variance',
         'zero_coupon_bond_price', 'zero_coupon_bond_price_deriv_wrt_state_variables', 'weights_for_riskless_portfolio', 'riskless_portfolio_convexity',
         'zero_coupon_bond_yield', 'price_convexities', 'yield_convexity', 'yield_covariance_matrix', 'yield_volatility', 'instantaneous_forward_rate',
         'instantaneous_forward_rate_covariance', 'instantaneous_forward_rate_volatility', 'zero_coupon_price_deriv_wrt_maturity', '_create_bond_price_coeffs',
         '_create_bond_yield_coeffs']
PARAMS = {'dmr': ['long_term_mean', 'short_rate_reversion_speed', 'short_rate_volatility', 'long_term_reversion_speed', 'long_term_volatility',
                  'short_rate_long_term_correlation'],
          'tmr': ['long_term_mean', 'short_rate_reversion_speed', 'short_rate_volatility', 'medium_rate_reversion_speed', 'medium_rate_volatility',
                  'long_term_reversion_speed', 'long_term_volatility', 'short_rate_medium_rate_correlation', 'short_rate_long_term_correlation',
                  'medium_rate_long_term_correlation_correlation'],
          'smpr': ['short_rate_reversion_speed', 'short_rate_vol', 'medium_rate_reversion_speed', 'medium_rate_vol', 'medium_rate_mean',
                   'market_price_of_risk_reversion_speed', 'market_price_of_risk_vol', 'market_price_of_risk_mean']}
MANY = {'price_convexities', 'weights_for_riskless_portfolio', 'riskless_portfolio_convexity', 'yield_covariance_matrix', 'instantaneous_forward_rate_covariance'}
START_ONLY = {'vas': {'yield_convexity'}}


def generate(rng, tier):
    origin = date(rng.randrange(2018, 2028), rng.randrange(1, 13), rng.randrange(1, 29))
    threads = rng.random() < 0.35
    specs, discs = [], [fi.gen_disc(rng, origin, 900, late=0.1) for _ in range(2)]
    kinds = rng.sample(['vas', 'vas', rng.choice(['dmr', 'dmr', 'mvm', 'tmr', 'smpr']), 'ust', 'ust', 'corp', 'swap'], rng.choice([2, 3, 3, 4]))
    bm, step = procs.gen_bm(rng, dim=rng.choice([2, 2, 3]) if 'mvm' in kinds else 1, max_steps=12)
    if 'mvm' in kinds:
        kinds = ['mvm' if k == 'vas' else k for k in kinds]
    specs.append(bm)
    for k in kinds:
        if k == 'vas':
            specs.append(procs.gen_vas(rng, 0, step))
        elif k == 'mvm':
            specs.append(procs.gen_mvm(rng, 0, bm, step))
        elif k in procs.OWN_CLOCK:
            specs.append({'dmr': procs.gen_dmr, 'tmr': procs.gen_tmr, 'smpr': procs.gen_smpr}[k](rng, 10))
        elif k == 'swap':
            from . import c10
            s = c10.gen_swap(rng, origin, True)
            s.update(t='swap', cal='NONE')
            specs.append(s)
        else:
            s = fi.gen_bond(rng, origin, rng.choice([400, 900, 1500]), cal=rng.choice(['US', 'NONE', 'NONE']) if not threads else 'NONE')
            s['t'] = k
            specs.append(s)
    eve = False
    if rng.random() < 0.6:
        # the same instrument or model but for one thing
        i = rng.randrange(1, len(specs))
        a = dict(specs[i])
        if a['t'] in procs.AFFINE:
            specs.append(procs.gen_sibling(rng, a))
        elif a['t'] in ('ust', 'corp'):
            k = rng.choice(['cal', 'cal', 'price', 'coupon', 'adj', 'type'])
            if k == 'cal' and not threads:
                a['cal'] = rng.choice([c for c in ('US', 'NONE', 'TOY') if c != a['cal']])
                if rng.random() < 0.7:
                    # a payment falls on a holiday of one of the two calendars
                    m, d = rng.choice([(1, 1), (7, 4), (6, 19), (11, 11), (12, 25)])
                    mat = s2d(a['mat']).replace(month=m, day=d)
                    a['mat'] = d2s(mat if mat > origin + timedelta(20) else mat.replace(year=mat.year + 1))
                    days = (s2d(a['mat']) - origin).days
                    a['tenor'] = '1Y' if days < 360 else '2Y' if days < 720 else '10Y'
                    specs[i] = dict(specs[i], mat=a['mat'], tenor=a['tenor'], cal=specs[i]['cal'])
                    eve = True
            elif k == 'coupon' and a['freq'] != 'ZERO_COUPON':
                a['coupon'] = round(rng.uniform(0.1, 9), 3)
            elif k == 'adj':
                a['adj'] = {'FOLLOWING': 'MODIFIED_FOLLOWING', 'MODIFIED_FOLLOWING': 'FOLLOWING'}[a['adj']]
            elif k == 'type':
                a['t'] = {'ust': 'corp', 'corp': 'ust'}[a['t']]
            else:
                a['price'] = round(rng.uniform(94, 104), 3)
            specs.append(a)
        else:
            k = rng.choice(['rate', 'notional', 'fd', 'xd'])
            a[k] = {'rate': lambda: round(rng.uniform(0.001, 0.09), 4), 'notional': lambda: rng.randrange(50, 5000)}.get(
                k, lambda: rng.choice(['ACTUAL_OVER_360', 'ACTUAL_OVER_365']))()
            specs.append(a)
    objs = list(range(1, len(specs)))
    models = [i for i in objs if specs[i]['t'] in procs.AFFINE]
    # few dates, so that queries meet the same ones again and again
    fr = [round(rng.uniform(0, 1), 3) for _ in range(3)] + [0.0]
    mats = [round(rng.uniform(0.01, 6), 3) for _ in range(4)] + [0.0, 0.5]
    refs = [rng.randrange(0, 400) for _ in range(3)] + [0, -rng.randrange(1, 900), rng.randrange(400, 2500)]
    for s in specs:
        if s['t'] in ('ust', 'corp'):
            # shortly before a payment, where one day of settlement decides
            u = rng.choice(fi.bond_payments(s))[0]
            refs += [(u - origin).days - rng.choice([0, 1, 1, 2, 3, 4])] * 2
    if eve:
        refs = [(u - origin).days - 1 for u, _, _ in fi.bond_payments(specs[-1])][-3:]
        refs = refs + [r - rng.choice([0, 1, 2]) for r in refs]
    menus = {}
    for i in objs:
        t = specs[i]['t']
        menu = DMR_Q if t in procs.AFFINE[1:] else {'vas': VAS_Q, 'swap': ['fixed', 'float', 'schedule', 'implied', 'pv', 'last']}.get(t) or BOND_Q[t]
        n = rng.choice([1, 2, 3, 5, len(menu)])
        menus[i] = rng.sample(sorted(set(menu)), min(n, len(set(menu))))
    if rng.random() < 0.6:
        # siblings are asked the same
        for i in objs:
            for j in objs[:i - 1]:
                if specs[i]['t'] == specs[j]['t']:
                    menus[i] = menus[j]
    ends = [round(rng.uniform(0.2, 6), 3) for _ in range(2)]

    def query(i):
        s = specs[i]
        t = s['t']
        if t in procs.AFFINE:
            q = rng.choice(menus[i])
            op = {'op': 'q', 'o': i, 'q': q, 'p': rng.choice([None, None] + fr)}
            if q in ('rate', 'state'):
                op['p'] = rng.choice(fr + [1.2])
            elif q in MANY:
                op['m'] = [rng.choice(mats) for _ in range(procs.dim_of(s) + 1 if t != 'vas' and q in ('weights_for_riskless_portfolio', 'riskless_portfolio_convexity') else rng.randrange(1, 4))]
                op['form'] = rng.choice(['list', 'tuple', 'gen', 'gen'])
                if 0.0 in op['m'] and rng.random() < 0.7:
                    op['m'] = [1.7 if m == 0.0 else m for m in op['m']]
            else:
                op['m'] = rng.choice(mats)
                if rng.random() < 0.4:
                    # one maturity asked for from different purchase dates
                    op['m'], op['abs'] = rng.choice(ends), 1
            if 'abs' not in op and q in MANY and rng.random() < 0.3:
                op['m'], op['abs'] = [rng.choice(ends + [1.5, 3.0]) for _ in op['m']], 1
            return op
        if t == 'swap':
            q = rng.choice(menus[i])
            op = {'op': 'q', 'o': i, 'q': q, 'disc': rng.randrange(2)}
            if q in ('float', 'implied', 'pv'):
                from . import c10
                op['rate'] = c10.gen_rate(rng)
            return op
        q = rng.choice(menus[i])
        op = {'op': 'q', 'o': i, 'q': q, 'r': rng.choice([None, None] + refs), 'disc': rng.randrange(2), 'rate': rng.choice([0.0, 0.03, round(rng.uniform(-0.02, 0.1), 4)]),
              'n': rng.randrange(6)}
        return op

    def any_op(depth):
        if models and rng.random() < 0.12:
            i = rng.choice(models)
            op = {'op': 'gen', 'o': i, 'set': rng.random() < 0.6 if depth == 0 else False, 'seed': rng.randrange(100), 'start': procs.gen_start(rng, specs[i])}
        else:
            op = query(rng.choice(objs))
        r = rng.random()
        if op['op'] == 'q' and r < 0.25:
            op['fault'] = {'site': site_of(rng, op), 'at': rng.choice([1, 1, 2, 3, 4, rng.randrange(1, 40)]), 'kind': pick_fault_kind(rng)}
            op['retry'] = rng.random() < 0.6
        elif depth < 1 and r < 0.5:
            op['inner'] = {'site': site_of(rng, op), 'at': rng.choice([1, 1, 2, 3, 4, rng.randrange(1, 30)]), 'ops': [any_op(depth + 1) for _ in range(rng.randrange(1, 4))]}
        return op

    ops = [{'op': 'gen', 'o': i, 'set': True, 'seed': rng.randrange(100), 'start': procs.gen_start(rng, specs[i])} for i in models if rng.random() < 0.93]
    for _ in range(history(rng, 4, 13, 80)):
        if threads and rng.random() < 0.35:
            ops.append(gen_par(rng, lambda: any_op(1)))
        else:
            ops.append(any_op(0))
    return {'origin': d2s(origin), 'specs': specs, 'discs': discs, 'ops': ops}


class World:
    """Objects of a plan, built on demand, and how to ask them."""

    def __init__(self, ctx, plan, only=None):
        self.ctx, self.plan, self.origin = ctx, plan, s2d(plan['origin'])
        self.objs, self.discs = {}, {}
        specs = plan['specs']
        wanted = range(1, len(specs)) if only is None else [only]
        stoch = [i for i in wanted if specs[i]['t'] in procs.AFFINE]
        self.pool = procs.Pool(ctx, [s for i, s in enumerate(specs) if i == 0 or i in stoch])
        for n, i in enumerate(stoch):
            self.objs[i] = self.pool.objs[n + 1]
        self.slot = {i: n + 1 for n, i in enumerate(stoch)}
        for i in wanted:
            if i not in self.objs:
                self.objs[i] = self.build(specs[i])

    def build(self, s):
        if s['t'] == 'ust':
            return fi.make_bond(s)
        if s['t'] == 'corp':
            from fixedIncome.src.assets.credit.corporate_bond import FixedRateBond
            from fixedIncome.src.scheduling_tools.schedule_enumerations import BusinessDayAdjustment, PaymentFrequency
            return FixedRateBond(price=s['price'], coupon_rate=s['coupon'], principal=s['principal'], tenor=s['tenor'], purchase_date=s2d(s['purchase']),
                                 maturity_date=s2d(s['mat']), payment_frequency=PaymentFrequency[s['freq']], business_day_adjustment=BusinessDayAdjustment[s['adj']],
                                 holiday_calendar=fi.real_calendar(s['cal']))
        from fixedIncome.src.assets.rates.linear_rates import interest_rate_swap as irs
        from fixedIncome.src.curves.curve_enumerations import CurveIndex
        from fixedIncome.src.scheduling_tools.schedule_enumerations import BusinessDayAdjustment, DayCountConvention, PaymentFrequency, SettlementConvention
        cls = irs.OvernightIndexSwap if s['ois'] else irs.TermInterestRateSwap
        return cls(float_index=CurveIndex.SOFR if s['ois'] else CurveIndex.LIBOR_3M, direction=irs.InterestRateSwapDirection[s['dir']], fixed_rate=s['rate'],
                   notional=s['notional'], purchase_date=s2d(s['purchase']), settlement_convention=SettlementConvention[s['conv']], tenor=s['tenor'],
                   floating_leg_payment_frequency=PaymentFrequency[s['ff']], fixed_leg_payment_frequency=PaymentFrequency[s['xf']],
                   floating_leg_day_count_convention=DayCountConvention[s['fd']], fixed_leg_day_count_convention=DayCountConvention[s['xd']],
                   holiday_calendar=fi.real_calendar(s['cal']), fixing_date_for_accrual_period=SettlementConvention[s['fix']],
                   payment_delay=SettlementConvention[s['delay']], business_day_adjustment=BusinessDayAdjustment[s['adj']])

    def disc(self, n):
        if n not in self.discs:
            self.discs[n] = fi.make_disc(self.ctx, self.plan['discs'][n])[0]
        return self.discs[n]

    def generate(self, op):
        i = op['o']
        return self.pool.generate(self.slot[i], procs.make_start(op['start']), op['seed'], op['set'])

    def ask(self, op):
        """The answer to a query, as plain data."""
        i, q = op['o'], op['q']
        o, s = self.objs[i], self.plan['specs'][i]
        t = s['t']
        if t in procs.AFFINE:
            return plain(self.ask_model(o, self.slot[i], t, op))
        if t == 'swap':
            return plain(self.ask_swap(o, s, op))
        from fixedIncome.src.assets.base_cashflow import CashflowKeys
        ref = None if op['r'] is None else self.origin + timedelta(op['r'])
        kw = {} if ref is None else {'reference_date': ref}
        if q == 'accrued':
            return plain(o.calculate_accrued_interest(**kw))
        if q == 'full_price':
            return plain(o.get_full_price(**kw))
        if q == 'ytm':
            return plain(o.yield_to_maturity(**kw))
        if q == 'fixed_pv':
            return plain(o.discount_cashflows_by_fixed_rate(op['rate'], **kw))
        if q == 'macaulay':
            return plain(o.macaulay_duration(op['rate'], **kw))
        if q == 'pv_deriv':
            return plain(o.pv_deriv() if op['rate'] == 0.0 else o.pv_deriv(offset=0.001, ytm=op['rate']))
        if q in ('duration', 'convexity'):
            return plain(getattr(o, q)())
        if q == 'pv':
            return plain(o.present_value(self.disc(op['disc'])))
        if q == 'knot':
            p = o.to_knot_value_pair()
            return plain([p.knot, p.value])
        pays = list(o[CashflowKeys.COUPON_PAYMENTS]) + list(o[CashflowKeys.SINGLE_PAYMENT])
        if q == 'future':
            return plain([bool(o.is_payment_received(p, **kw)) for p in pays])
        return plain(bool(o.is_payment_received(pays[op['n'] % len(pays)], **kw)))

    def ask_model(self, o, slot, t, op):
        q = op['q']
        start, end, _, _, _ = self.pool.clock(slot)
        whole = end - start

        def at(u):
            return start + timedelta(seconds=int(whole.total_seconds() * u))
        p = None if op['p'] is None else at(op['p'])
        if q == 'rate':
            return o(p)
        if q == 'state':
            return o.state_variables_diffusion_process(p)
        base = p or start

        def mat(m):
            return procs.later(end if op.get('abs') else base, m * 365 * 86400)
        kw = {} if p is None or q in START_ONLY.get(t, ()) else {'purchase_date': p}
        if q in MANY:
            dates = [mat(m) for m in op['m']]
            ctx = self.ctx

            def gen():
                for d in dates:
                    ctx.point('maturities')
                    yield d
            return getattr(o, q)(maturity_dates={'list': list, 'tuple': tuple}[op['form']](dates) if op['form'] != 'gen' else gen(), **kw)
        return getattr(o, q)(maturity_date=mat(op['m']), **kw)

    def ask_swap(self, o, s, op):
        q = op['q']
        if q == 'last':
            return [o.start_accrual_date, o.end_accrual_date]
        if q == 'schedule':
            return [[a.start_accrual, a.end_accrual, a.accrual_factor] for fn in (o.generate_fixed_leg_accrual_schedule, o.generate_floating_leg_accrual_schedule) for a in fn()]
        if q == 'fixed':
            return [[p.payment_date, p.payment] for p in o.generate_fixed_leg_cashflow(set_cashflow=False)]
        from . import c10
        inner = c10.rate_value(op['rate'], self.origin)

        def rate(d):
            self.ctx.point('discount')
            return inner(d)
        if q == 'float':
            return [[p.payment_date, p.payment] for p in o.generate_floating_leg_cashflow(rate, set_cashflow=False)]
        if q == 'implied':
            return o.implied_rate(self.disc(op['disc']), rate)
        return o.present_value(self.disc(op['disc']))    # without stored legs: an error, and still one after any other query

    def terms(self, i):
        """What no query may change."""
        from fixedIncome.src.assets.base_cashflow import CashflowKeys
        o, s = self.objs[i], self.plan['specs'][i]
        t = s['t']
        if t in ('ust', 'corp'):
            pays = [[k.name, [[p.payment_date, p.unadjusted_payment_date, p.payment] for p in o[k]]] for k in (CashflowKeys.COUPON_PAYMENTS, CashflowKeys.SINGLE_PAYMENT)]
            return plain([o.price, o.coupon_rate, o.principal, o.tenor, o.purchase_date, o.maturity_date, o.settlement_date, o.dated_date, o.payment_frequency.name,
                          o.day_count_convention.name, o.business_day_adjustment.name, o.coupon_payment, o.num_payments_per_year, len(o), pays])
        if t == 'swap':
            return plain([o.fixed_rate, o.notional, o.tenor, o.purchase_date, o.start_accrual_date, o.end_accrual_date, o.direction.name,
                          [o[k] is None for k in (CashflowKeys.FIXED_LEG, CashflowKeys.FLOATING_LEG)]])
        path = o.path
        common = [None if path is None else np.array(path), o.start_date_time, o.end_date_time, repr(o.dt), o.day_count_convention.name]
        if t == 'vas':
            return plain(common + [o.long_term_mean, o.reversion_speed, o.volatility, o.convexity_limit])
        return plain(common + [o.reversion_level, o.reversion_matrix, o.volatility_matrix, o.short_rate_coefficients, o.short_rate_intercept, o.dimension]
                     + [getattr(o, k) for k in PARAMS.get(t, ())])


def plain(x):
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in sorted(x.items(), key=lambda kv: str(kv[0]))}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, np.ndarray):
        return [float(v) for v in x.ravel()] + ['shape'] + list(x.shape) if x.shape not in ((), (1,)) else float(x.ravel()[0])
    if isinstance(x, (np.floating, np.integer)):
        return float(x)
    if isinstance(x, (date, datetime)):
        return x.isoformat()
    return x


def alike(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(alike(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(alike(x, y) for x, y in zip(a, b))
    if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool):
        return a == b or (a != a and b != b) or abs(a - b) <= 1e-9 * max(abs(a), abs(b)) + 1e-13
    return a == b


def alone(plan, op, state):
    """The answer of a freshly built equal object, asked this and nothing else, in a process of its own."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                _ctx[0] = None
                world = World(core.Ctx({}), plan, only=op['o'])
                if state is not None:
                    world.generate(state)
                res = (True, world.ask(op))
            except Exception as e:  # noqa: BLE001
                res = (False, f'{type(e).__name__}: {e}')
            with os.fdopen(w, 'wb') as f:
                pickle.dump(res, f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        raise core.HarnessBug('a fresh object gave no answer')
    return pickle.loads(data)


def key_of(op, state):
    q = {k: v for k, v in op.items() if k not in ('fault', 'inner', 'retry')}
    return canon([q, None if state is None else [state['seed'], state['start']]])


def execute(ctx, plan):
    import copy
    _ctx[0] = None
    frozen = copy.deepcopy({k: plan[k] for k in ('origin', 'specs', 'discs')})
    answers = {}

    # what each query must answer, decided before any history exists
    def scout(ops, state):
        for op in ops:
            if op['op'] == 'par':
                for t in op['tasks']:
                    scout(t['ops'], state)
                continue
            if op['op'] == 'q':
                k = key_of(op, state.get(op['o']))
                if k not in answers:
                    answers[k] = alone(frozen, op, state.get(op['o']))
            if op.get('inner'):
                scout(op['inner']['ops'], state)
            if op['op'] == 'gen' and op['set']:
                state[op['o']] = op
    scout(plan['ops'], {})

    world = World(ctx, plan)
    _ctx[0] = ctx
    state = {}
    objs = sorted(world.objs)
    before = {i: world.terms(i) for i in objs}

    def unchanged(what, only=None):
        with ctx.reading(f'terms after {what}'):
            for i in objs if only is None else [only]:
                now = world.terms(i)
                ctx.check(alike(now, before[i]), 'query-changed-object', lambda: f'#{i} ({plan["specs"][i]["t"]}) after {what}: {canon(now)}, before {canon(before[i])}')

    def one(op):
        if op['op'] == 'par':
            ctx.parallel(op, [lambda ops=t['ops']: run(ops) for t in op['tasks']])
            ctx.probe('parallel phases')
            unchanged('threads')
            return
        i = op['o']
        if op['op'] == 'gen':
            with ctx.frame(op) as fr:
                out = ctx.real(world.generate, op)
            ctx.must(out, 'generation-failed', f'path of #{i}')
            if op['set']:
                state[i] = op
                _ctx[0] = None
                before[i] = world.terms(i)
                _ctx[0] = ctx
            ctx.ev('gen', i, op['seed'], op['set'])
            a, b, _, _, _ = world.pool.clock(world.slot[i])
            ctx.sim_days += (b - a).total_seconds() / 86400
            return
        want = answers[key_of(op, state.get(i))]
        for attempt in range(2 if op.get('retry') else 1):
            now = op if attempt == 0 else {k: v for k, v in op.items() if k not in ('fault', 'inner')}
            with ctx.frame(now) as fr:
                out = ctx.real(world.ask, now)
            what = f'{op["q"]} of #{i} ({plan["specs"][i]["t"]}) {"again after a failure" if attempt else ""}'
            if fr.fired and not out.ok:
                ctx.check(core.is_injected(out.exc), 'unexpected-error', lambda: f'{what} raised {out.exc!r}')
                ctx.probe('failed queries')
                if attempt == 0 and not op.get('retry'):
                    break
                continue
            if not want[0]:
                ctx.check(not out.ok, 'answer-differs', lambda: f'{what}: answered {canon(out.value)}, a fresh object alone raises {want[1]}')
                ctx.faults['input:query'] += 1
                break
            ctx.check(out.ok, 'answer-differs', lambda: f'{what}: raised {out.exc!r}, a fresh object alone answers {canon(want[1])}')
            ctx.check(alike(out.value, want[1]), 'answer-differs', lambda: f'{what}: answered {canon(out.value)}, a fresh object alone answers {canon(want[1])}')
            ctx.probe(op['q'])
            break
        ctx.ev(op['q'], i, out)
        if core._active_sched is None and ctx._depth == 0:
            unchanged(op['q'])

    def run(ops):
        for op in ops:
            one(op)

    ctx.run_inner = run
    for op in plan['ops']:
        one(op)
    ctx.state('c13', sorted((i, plan['specs'][i]['t']) for i in objs))
