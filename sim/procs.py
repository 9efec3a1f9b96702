"""Stochastic-process building blocks shared by C01, C02, C03 and C15: specifications, real objects, reference paths."""
import math
from datetime import datetime, timedelta

import numpy as np
from dateutil.relativedelta import relativedelta

from . import ref
from .core import d2s, s2d, val

DCCS = ['ACTUAL_OVER_ACTUAL', 'ACTUAL_OVER_360', 'ACTUAL_OVER_365', 'ACTUAL_OVER_365_POINT_25']


def step_of(s):
    kind, args = s
    return timedelta(**args) if kind == 'td' else relativedelta(**args)


DATES = 0.12    # how often a horizon of days, weeks or months is one of dates instead of times


def later(t, seconds, least=0):
    """`seconds` after t, at least `least`; for a date in whole days, at least one if `least` is positive."""
    if isinstance(t, datetime):
        return t + timedelta(seconds=max(least, int(seconds)))
    return t + timedelta(days=max(1 if least else 0, int(seconds // 86400)))


# -- generation of specifications --------------------------------------------------------------

def gen_horizon(rng, max_steps=40):
    """start, a list of steps suited to it, and an end: between 3 and max_steps grid points."""
    start = datetime(rng.randrange(2016, 2027), rng.randrange(1, 13), rng.randrange(1, 29),
                     rng.choice([0, 0, 9, rng.randrange(24)]), rng.choice([0, 0, rng.randrange(60)]))
    n = rng.randrange(3, max_steps)
    if max_steps >= 12 and rng.random() < 0.04:
        n = rng.choice([130, 270, 600, 1100])
    kind = rng.choice(['hours', 'days'] if n > max_steps else ['hours', 'days', 'weeks', 'months'])
    unit = {'hours': timedelta(hours=1), 'days': timedelta(days=1), 'weeks': timedelta(days=7),
            'months': timedelta(days=31)}[kind]
    m = rng.choice([1, 1, 2, 3])
    end = start + unit * m * n
    if rng.random() < 0.5:
        end = end + timedelta(minutes=rng.randrange(1, 7 * 60)) if kind != 'hours' else end + timedelta(minutes=rng.randrange(1, 59))

    if kind != 'hours' and rng.random() < DATES:     # a horizon of dates
        start, end = start.date(), max(end.date(), start.date() + timedelta(2))

    def step():
        k = max(1, m * rng.choice([1, 1, 1, 2, 3]))
        if kind == 'months':
            return ['rd', {'months': k}]
        if kind == 'weeks':
            return ['td', {'days': 7 * k}] if rng.random() < 0.5 else ['rd', {'weeks': k}]
        return ['td', {kind: k}] if rng.random() < 0.5 else ['rd', {kind: k}]
    return start, end, step


def gen_corr(rng, dim):
    if dim == 1 or rng.random() < 0.3:
        return None
    a = np.array([[rng.uniform(-1, 1) for _ in range(dim)] for _ in range(dim)]) + 0.6 * np.eye(dim)
    c = a @ a.T
    d = np.sqrt(np.diag(c))
    c = c / np.outer(d, d)
    for i in range(dim):
        c[i, i] = 1.0
    if rng.random() < 0.2:  # weakly correlated
        c = np.eye(dim) + 0.04 * (c - np.eye(dim))
    c = np.round(c, 6)
    if np.linalg.eigvalsh(c)[0] < 0.02:
        return None
    return [[float(x) for x in row] for row in c]


def gen_bm(rng, dim=None, horizon=None, max_steps=40):
    start, end, step = horizon or gen_horizon(rng, max_steps)
    dim = dim or rng.choice([1, 1, 2, 3] if rng.random() < 0.95 else [4, 6])
    return {'t': 'bm', 'start': d2s(start), 'end': d2s(end), 'dim': dim, 'corr': gen_corr(rng, dim),
            'dcc': rng.choice(DCCS)}, step


def gen_drift(rng, n):
    k = rng.choice(['lin', 'lin', 'quad', 'time'])
    if k == 'lin':
        return {'k': 'lin', 'row': [val(rng.uniform(-1, 1), 3) for _ in range(n)],
                'level': [val(rng.uniform(-2, 2), 3) for _ in range(n)]}
    if k == 'quad':
        return {'k': 'quad', 'a': val(rng.uniform(-1, 1), 3), 'b': val(rng.uniform(0, 0.3), 3), 'i': rng.randrange(n)}
    return {'k': 'time', 'a': val(rng.uniform(-1, 1), 3), 'w': val(rng.uniform(0.5, 40), 3), 'i': rng.randrange(n)}


def gen_diffusion(rng, n, m):
    k = rng.choice(['const', 'state', 'time'])
    return {'k': k, 'row': [val(rng.uniform(-0.5, 0.5), 3) for _ in range(m)], 'i': rng.randrange(n),
            'w': val(rng.uniform(0.5, 40), 3)}


def gen_diff(rng, bm_index, bm, step, n=None):
    n = n or rng.choice([1, bm['dim'], bm['dim'], rng.choice([1, 2, 3])])
    return {'t': 'diff', 'bm': bm_index, 'dt': step(), 'n': n,
            'drift': [gen_drift(rng, n) for _ in range(n)],
            'diff': [gen_diffusion(rng, n, bm['dim']) for _ in range(n)], 'rev': rng.random() < 0.4}


def gen_gbm(rng, max_steps=40):
    start, end, step = gen_horizon(rng, max_steps)
    dim = rng.choice([1, 1, 2, 3])
    return {'t': 'gbm', 'start': d2s(start), 'end': d2s(end), 'dim': dim, 'corr': gen_corr(rng, dim), 'dt': step(),
            'mu': val(rng.uniform(-0.3, 0.3), 3), 'sigma': val(rng.uniform(0, 0.6), 3), 'dcc': 'ACTUAL_OVER_ACTUAL'}


def gen_vas(rng, bm_index, step):
    return {'t': 'vas', 'bm': bm_index, 'dt': step(), 'level': val(rng.uniform(-0.02, 0.1), 4),
            'speed': val(rng.uniform(0.05, 2), 3), 'vol': rng.choice([0.0, val(rng.uniform(0.001, 0.05), 4)])}


def gen_dmr(rng, max_steps=30):
    start, end, step = gen_horizon(rng, max_steps)
    ls, ss = val(rng.uniform(0.05, 0.5), 3), val(rng.uniform(0.6, 2), 3)
    return {'t': 'dmr', 'start': d2s(start), 'end': d2s(end), 'dt': step(), 'ss': ss, 'sv': val(rng.uniform(0.002, 0.03), 4),
            'mean': val(rng.uniform(0.0, 0.08), 4), 'ls': ls, 'lv': val(rng.uniform(0.002, 0.03), 4),
            'rho': val(rng.uniform(-0.8, 0.8), 2), 'dcc': 'ACTUAL_OVER_ACTUAL'}


def gen_corr3(rng, spread=0.8):
    """Three correlations of a positive-definite matrix."""
    while True:
        a, b, c = (val(rng.uniform(-spread, spread), 2) for _ in range(3))
        if 1 + 2 * a * b * c - a * a - b * b - c * c > 0.05:
            return [a, b, c]


def gen_speeds(rng, n):
    """Reversion speeds that are well apart, in any order."""
    while True:
        k = [val(rng.uniform(0.05, 2), 3) for _ in range(n)]
        if all(abs(a - b) > 0.15 for i, a in enumerate(k) for b in k[:i]):
            return k


def gen_tmr(rng, max_steps=30):
    start, end, step = gen_horizon(rng, max_steps)
    return {'t': 'tmr', 'start': d2s(start), 'end': d2s(end), 'dt': step(), 'speeds': gen_speeds(rng, 3),
            'vols': [val(rng.uniform(0.002, 0.03), 4) for _ in range(3)], 'mean': val(rng.uniform(0.0, 0.08), 4),
            'rho': gen_corr3(rng), 'dcc': 'ACTUAL_OVER_ACTUAL'}


def gen_smpr(rng, max_steps=30):
    start, end, step = gen_horizon(rng, max_steps)
    return {'t': 'smpr', 'start': d2s(start), 'end': d2s(end), 'dt': step(), 'speeds': gen_speeds(rng, 3),
            'vols': [val(rng.uniform(0.01, 0.2), 4)] + [val(rng.uniform(0.002, 0.03), 4) for _ in range(2)],
            'mean': val(rng.uniform(0.0, 0.08), 4), 'mpr': val(rng.uniform(-0.5, 0.5), 3),
            'rho': gen_corr3(rng), 'dcc': 'ACTUAL_OVER_ACTUAL'}


def gen_mvm(rng, bm_index, bm, step):
    n = bm['dim']
    d = gen_speeds(rng, n)
    while True:
        P = np.array([[rng.uniform(-1, 1) for _ in range(n)] for _ in range(n)]) + np.eye(n)
        if np.linalg.cond(P) < 12:
            break
    K = P @ np.diag(d) @ np.linalg.inv(P)
    S = np.array([[rng.uniform(-1, 1) for _ in range(n)] for _ in range(n)]) * 0.02
    if rng.random() < 0.3:
        K = np.diag(d)
    if rng.random() < 0.2:
        S = np.diag(np.diag(S))
    return {'t': 'mvm', 'bm': bm_index, 'dt': step(), 'K': [[val(x, 4) for x in row] for row in K], 'm': [val(rng.uniform(-0.05, 0.1), 4) for _ in range(n)],
            'S': [[val(x, 5) for x in row] for row in S], 'g': [val(rng.uniform(-1.5, 1.5), 3) for _ in range(n)],
            'b': rng.choice([0.0, val(rng.uniform(-0.05, 0.08), 4)])}


AFFINE = ('vas', 'dmr', 'mvm', 'tmr', 'smpr')     # dx = K (m - x) dt + S dW, r = b + <g, x>
OWN_CLOCK = {'dmr': 2, 'tmr': 3, 'smpr': 3}


def affine(s):
    """(K, m, S, g, b) of an affine model."""
    t = s['t']
    if t == 'vas':
        return np.array([[s['speed']]]), np.array([s['level']]), np.array([[s['vol']]]), np.array([1.0]), 0.0
    if t == 'mvm':
        return np.array(s['K']), np.array(s['m']), np.array(s['S']), np.array(s['g']), s['b']
    if t == 'dmr':
        cross = s['lv'] * s['sv'] * s['rho']
        c = np.array([[s['lv'] ** 2, cross], [cross, s['sv'] ** 2]])
        return np.array([[s['ls'], 0.0], [-s['ss'], s['ss']]]), np.array([s['mean'], s['mean']]), ref.cholesky(c), np.array([0.0, 1.0]), 0.0
    # states: the slowest driver first, the short rate last; rho: (1, 2), (1, 3), (2, 3)
    (k1, k2, k3), v = s['speeds'], np.array(s['vols'])
    r12, r13, r23 = s['rho']
    S = ref.cholesky(np.outer(v, v) * np.array([[1, r12, r13], [r12, 1, r23], [r13, r23, 1]]))
    if t == 'tmr':
        K, m = [[k1, 0, 0], [-k2, k2, 0], [0, -k3, k3]], [s['mean']] * 3
    else:
        K, far = [[k1, 0, 0], [-v[1], k2, 0], [0, -k3, k3]], s['mean'] + v[1] * s['mpr'] / k2
        m = [s['mpr'], far, far]
    return np.array(K, dtype=float), np.array(m, dtype=float), S, np.array([0.0, 0.0, 1.0]), 0.0


def gen_srm(rng, diff_spec, bm_index):
    n = diff_spec['n']
    k = rng.choice(['affine', 'affine', 'quad'])
    return {'t': 'srm', 'bm': bm_index, 'sub': diff_spec, 'trans': {'k': k, 'b': val(rng.uniform(-0.05, 0.05), 4),
                                                                  'c': [val(rng.uniform(-0.05, 0.05), 4) for _ in range(n)]}}


def dim_of(spec):
    t = spec['t']
    return {'bm': lambda: spec['dim'], 'gbm': lambda: spec['dim'], 'diff': lambda: spec['n'], 'vas': lambda: 1,
            'dmr': lambda: 2, 'tmr': lambda: 3, 'smpr': lambda: 3, 'mvm': lambda: len(spec['m']), 'srm': lambda: spec['sub']['n']}[t]()


def gen_start(rng, spec):
    n = dim_of(spec)
    lo, hi = (0.5, 3.0) if spec['t'] == 'gbm' else ((-0.02, 0.12) if spec['t'] in AFFINE else (-2.0, 2.0))
    start = [val(rng.uniform(lo, hi), 4) for _ in range(n)]
    form = rng.choice(['arr', 'arr', 'list', 'ro', 'strided', 'int'] + (['float', 'float', 'pyint'] if n == 1 else []))
    if form in ('int', 'pyint'):
        start = [float(rng.randrange(1, 4)) for _ in range(n)]
    return {'form': form, 'val': start}


def make_start(s):
    v = s['val']
    form = s['form']
    if form == 'float':
        return float(v[0])
    if form == 'pyint':
        return int(v[0])
    if form == 'list':
        return list(v)
    if form == 'int':
        return np.array([int(x) for x in v])
    if form == 'strided':
        a = np.zeros(2 * len(v))
        a[::2] = v
        return a[::2]
    a = np.array(v, dtype=float)
    if form == 'ro':
        a.flags.writeable = False
    return a


# -- the functions of a specification -----------------------------------------------------------

def drift_fn(f):
    if f['k'] == 'lin':
        row, level = np.array(f['row']), np.array(f['level'])
        return lambda t, x: float(row @ (level - x))
    if f['k'] == 'quad':
        return lambda t, x: f['a'] - f['b'] * x[f['i']] * math.tanh(x[f['i']])
    return lambda t, x: f['a'] * math.sin(f['w'] * t) - 0.1 * x[f['i']]


def diffusion_fn(f):
    row = np.array(f['row'])
    if f['k'] == 'const':
        return lambda t, x: row
    if f['k'] == 'state':
        return lambda t, x: row * (1 + 0.3 * math.tanh(x[f['i']]))
    return lambda t, x: row * (1 + 0.2 * math.sin(f['w'] * t))


def trans_fn(f):
    c = np.array(f['c'])
    if f['k'] == 'affine':
        return lambda x: float(f['b'] + c @ x)
    return lambda x: float(f['b'] + c @ (np.asarray(x) ** 2))


class Pool:
    """Real objects and what is needed to predict them."""

    def __init__(self, ctx, specs):
        from fixedIncome.src.stochastics.brownian_motion import BrownianMotion
        from fixedIncome.src.stochastics.base_processes import DiffusionProcess, DriftDiffusionPair
        from fixedIncome.src.stochastics.geometric_brownian_motion import GeometricBrownianMotion
        from fixedIncome.src.stochastics.short_rate_models.base_short_rate_model import ShortRateModel
        from fixedIncome.src.stochastics.short_rate_models.affine_yield_curve_models.vasicek_model import MultivariateVasicekModel, VasicekModel
        from fixedIncome.src.stochastics.short_rate_models.affine_yield_curve_models.doubly_mean_reverting_vasicek import \
            DoublyMeanRevertingVasicek
        from fixedIncome.src.stochastics.short_rate_models.affine_yield_curve_models.trebly_mean_reverting_vasicek import \
            TreblyMeanRevertingVasicek
        from fixedIncome.src.stochastics.short_rate_models.affine_yield_curve_models.stochastic_market_price_of_risk import \
            StochasticMarketPriceOfRisk
        from fixedIncome.src.scheduling_tools.schedule_enumerations import DayCountConvention
        self.ctx, self.specs, self.objs = ctx, specs, []
        self.steps = [step_of((s.get('sub') or s)['dt']) if s['t'] != 'bm' else None for s in specs]

        def pointed(site, fn):
            def call(*args):
                ctx.point(site)
                return fn(*args)
            return call

        def diffusion(spec, bm):
            names = [f'x{i}' for i in range(len(spec['drift']))]
            if spec.get('rev'):  # names that are not in alphabetic order
                names.reverse()
            pairs = {names[i]: DriftDiffusionPair(drift=pointed('drift', drift_fn(a)), diffusion=pointed('diffusion', diffusion_fn(b)))
                     for i, (a, b) in enumerate(zip(spec['drift'], spec['diff']))}
            return DiffusionProcess(drift_diffusion_collection=pairs, brownian_motion=bm, dt=step_of(spec['dt']))

        def build(s):
            t = s['t']
            if t == 'bm':
                o = BrownianMotion(start_date_time=s2d(s['start']), end_date_time=s2d(s['end']), dimension=s['dim'],
                                   correlation_matrix=None if s['corr'] is None else np.array(s['corr']),
                                   day_count_convention=DayCountConvention[s['dcc']])
            elif t == 'diff':
                o = diffusion(s, self.objs[s['bm']])
            elif t == 'gbm':
                o = GeometricBrownianMotion(drift=s['mu'], volatility=s['sigma'], start_date_time=s2d(s['start']),
                                            end_date_time=s2d(s['end']), dimension=s['dim'],
                                            correlation_matrix=None if s['corr'] is None else np.array(s['corr']),
                                            dt=step_of(s['dt']))
            elif t == 'vas':
                o = VasicekModel(reversion_level=s['level'], reversion_speed=s['speed'], volatility=s['vol'],
                                 brownian_motion=self.objs[s['bm']], dt=step_of(s['dt']))
            elif t == 'dmr':
                o = DoublyMeanRevertingVasicek(short_rate_reversion_speed=s['ss'], short_rate_volatility=s['sv'],
                                               long_term_mean=s['mean'], long_term_reversion_speed=s['ls'],
                                               long_term_volatility=s['lv'], short_rate_long_term_correlation=s['rho'],
                                               start_datetime=s2d(s['start']), end_datetime=s2d(s['end']),
                                               dt=step_of(s['dt']))
            elif t == 'mvm':
                o = MultivariateVasicekModel(short_rate_intercept=s['b'], short_rate_coefficients=np.array(s['g']), reversion_level=np.array(s['m']),
                                             reversion_matrix=np.array(s['K']), volatility_matrix=np.array(s['S']),
                                             brownian_motion=self.objs[s['bm']], dt=step_of(s['dt']))
            elif t == 'tmr':
                o = TreblyMeanRevertingVasicek(short_rate_reversion_speed=s['speeds'][2], short_rate_volatility=s['vols'][2],
                                               medium_rate_reversion_speed=s['speeds'][1], medium_rate_volatility=s['vols'][1],
                                               long_term_mean=s['mean'], long_term_reversion_speed=s['speeds'][0], long_term_volatility=s['vols'][0],
                                               short_rate_medium_rate_correlation=s['rho'][2], short_rate_long_term_correlation=s['rho'][1],
                                               medium_rate_long_term_correlation_correlation=s['rho'][0],
                                               start_datetime=s2d(s['start']), end_datetime=s2d(s['end']), dt=step_of(s['dt']))
            elif t == 'smpr':
                o = StochasticMarketPriceOfRisk(short_rate_reversion_speed=s['speeds'][2], short_rate_vol=s['vols'][2],
                                                medium_rate_reversion_speed=s['speeds'][1], medium_rate_vol=s['vols'][1], medium_rate_mean=s['mean'],
                                                market_price_of_risk_reversion_speed=s['speeds'][0], market_price_of_risk_vol=s['vols'][0],
                                                market_price_of_risk_mean=s['mpr'], short_rate_medium_rate_correlation=s['rho'][2],
                                                short_rate_market_price_of_risk_correlation=s['rho'][1],
                                                medium_rate_market_price_of_risk_correlation=s['rho'][0],
                                                start_datetime=s2d(s['start']), end_datetime=s2d(s['end']), dt=step_of(s['dt']))
            else:
                o = ShortRateModel(short_rate_transformation=pointed('transformation', trans_fn(s['trans'])),
                                   state_variables_diffusion_process=diffusion(s['sub'], self.objs[s['bm']]))
            return o
        self.build = build
        for s in specs:
            self.objs.append(build(s))

    # -- reference ------------------------------------------------------------------------------
    def clock(self, i):
        """start, end, day count, dimension of the noise, correlation."""
        s = self.specs[i]
        b = self.specs[s['bm']] if 'bm' in s else s
        if s['t'] in OWN_CLOCK:
            return s2d(b['start']), s2d(b['end']), b['dcc'], OWN_CLOCK[s['t']], None
        return s2d(b['start']), s2d(b['end']), b['dcc'], b['dim'], b['corr']

    def grid(self, i, step=None):
        a, b, _, _, _ = self.clock(i)
        return ref.grid(a, b, step or self.steps[i])

    def trans(self, i):
        s = self.specs[i]
        if s['t'] == 'srm':
            return trans_fn(s['trans'])
        if s['t'] in AFFINE:
            _, _, _, g, b = affine(s)
            return lambda x: float(b + g @ x)
        return None

    def ref_states(self, i, start, seed, step=None):
        """(grid, state path) of object i from `start` with `seed`."""
        s = self.specs[i]
        _, _, dcc, dim, corr = self.clock(i)
        times = self.grid(i, step)
        dw, dts = ref.shocks(seed, dim, corr, times, dcc)
        t = s['t']
        if t == 'bm':
            out = np.zeros((dim, len(times)))
            for k in range(len(dts)):
                out[:, k + 1] = out[:, k] + dw[:, k]
            return times, out
        n = dim_of(s)
        out = np.zeros((n, len(times)))
        x = np.array(start, dtype=float).reshape(-1)
        out[:, 0] = x
        if t in ('diff', 'srm'):
            body = s.get('sub') or s
            mu, sg = [drift_fn(f) for f in body['drift']], [diffusion_fn(f) for f in body['diff']]
        if t in AFFINE:
            K, m, S, _, _ = affine(s)
        clock = 0.0
        for k, dt in enumerate(dts):
            if t == 'gbm':
                x = x + s['mu'] * x * dt + s['sigma'] * x * dw[:, k]
            elif t in AFFINE:
                x = x + K @ (m - x) * dt + S @ dw[:, k]
            else:
                x = x + np.array([f(clock, x) for f in mu]) * dt + np.array([f(clock, x) @ dw[:, k] for f in sg])
            clock += dt
            out[:, k + 1] = x
        return times, out

    def ref_path(self, i, start, seed, step=None):
        """(grid, what generate_path returns)."""
        times, states = self.ref_states(i, start, seed, step)
        f = self.trans(i)
        if f is None:
            return times, states, states
        return times, np.array([f(states[:, k]) for k in range(states.shape[1])]), states

    def generate(self, i, start, seed, set_path, step=None, anew=False):
        """The real call, perhaps of an object just made; `start` is passed as the caller made it."""
        o, t = self.objs[i] if not anew else self.build(self.specs[i]), self.specs[i]['t']
        if t == 'bm':
            return o.generate_path(dt=step, set_path=set_path, seed=seed)
        if t in AFFINE + ('srm',):
            return o.generate_path(starting_state_space_values=start, set_path=set_path, seed=seed)
        return o.generate_path(starting_value=start, set_path=set_path, seed=seed)


    def calibrated(self, i, start, seed, own):
        """The stored path of a model made from a dictionary of calibration parameters: the model's own, or the caller's."""
        from fixedIncome.src.stochastics.short_rate_models.affine_yield_curve_models.vasicek_model import CalibrationParamterType as P
        s = self.specs[i]
        given = dict(self.objs[i].parameter_calibration_dict) if own else \
            {P.VOLATILITY: [s['ls'], s['lv'], s['ss'], s['sv'], s['rho']], P.SHAPE: [s['mean']]}
        given[P.STATE_VARIABLES] = start
        before = {k: list(v) for k, v in given.items()}
        model = type(self.objs[i]).from_volatility_shape_parameters(given, start_datetime=s2d(s['start']), end_datetime=s2d(s['end']),
                                                                    dt=self.steps[i], seed=seed)
        self.ctx.check(model is not self.objs[i] and {k: list(v) for k, v in given.items()} == before, 'calibration-parameters-changed',
                       f'calibration parameters {before} became {given}')
        return model.path


def gen_pool(rng, kinds, max_steps=40):
    specs, step_of_bm = [], {}
    nbm = rng.choice([1, 1, 2])
    for _ in range(nbm):
        bm, step = gen_bm(rng, max_steps=max_steps)
        step_of_bm[len(specs)] = step
        specs.append(bm)
    if 'vas' in kinds and not any(specs[i]['dim'] == 1 for i in step_of_bm):
        bm, step = gen_bm(rng, dim=1, max_steps=max_steps)
        step_of_bm[len(specs)] = step
        specs.append(bm)
    for _ in range(rng.randrange(1, 4)):
        k = rng.choice(kinds)
        b = rng.choice(sorted(step_of_bm))
        if k == 'diff':
            specs.append(gen_diff(rng, b, specs[b], step_of_bm[b]))
        elif k == 'srm':
            specs.append(gen_srm(rng, gen_diff(rng, b, specs[b], step_of_bm[b]), b))
        elif k == 'vas':
            b = rng.choice([i for i in sorted(step_of_bm) if specs[i]['dim'] == 1])
            specs.append(gen_vas(rng, b, step_of_bm[b]))
        elif k == 'gbm':
            specs.append(gen_gbm(rng, max_steps))
        elif k == 'mvm':
            specs.append(gen_mvm(rng, b, specs[b], step_of_bm[b]))
        else:
            specs.append({'dmr': gen_dmr, 'tmr': gen_tmr, 'smpr': gen_smpr}[k](rng, max_steps))
    for _ in range(rng.choice([0, 0, 1, 2])):
        i = rng.randrange(len(specs))
        s = gen_sibling(rng, specs[i])
        if s['t'] == 'bm':
            step_of_bm[len(specs)] = step_of_bm[i]
            # what runs on the first may run on its sibling too
            users = [k for k, x in enumerate(specs) if x.get('bm') == i]
            specs.append(s)
            if users and rng.random() < 0.6:
                u = dict(specs[rng.choice(users)])
                u['bm'] = len(specs) - 1
                specs.append(u)
        else:
            specs.append(s)
    return specs, step_of_bm


def gen_sibling(rng, spec):
    """The same object but for one parameter: what is kept for one must not serve the other."""
    import copy
    s = copy.deepcopy(spec)
    t = s['t']
    if t in ('bm', 'gbm') and s['dim'] > 1 and rng.random() < 0.7:
        s['corr'] = gen_corr(rng, s['dim'])
    elif t == 'bm':
        if rng.random() < 0.6:
            s['dcc'] = rng.choice([d for d in DCCS if d != s['dcc']])
        else:
            s['end'] = d2s(s2d(s['end']) - (s2d(s['end']) - s2d(s['start'])) * 0.4)
            s['end'] = s['end'].split('.')[0]
    elif t == 'gbm':
        s[rng.choice(['mu', 'sigma'])] = val(rng.uniform(0, 0.5), 3)
    elif t == 'vas':
        k = rng.choice(['level', 'speed', 'vol'])
        s[k] = val(rng.uniform(0.05, 2), 3) if k == 'speed' else val(rng.uniform(0.001, 0.08), 4)
    elif t == 'dmr':
        k = rng.choice(['mean', 'sv', 'lv', 'rho', 'ss'])
        s[k] = {'mean': lambda: val(rng.uniform(0.0, 0.08), 4), 'rho': lambda: val(rng.uniform(-0.8, 0.8), 2),
                'ss': lambda: val(rng.uniform(0.6, 2), 3)}.get(k, lambda: val(rng.uniform(0.002, 0.03), 4))()
    elif t in ('tmr', 'smpr'):
        k = rng.choice(['speeds', 'vols', 'mean', 'rho'] + (['mpr'] if t == 'smpr' else []))
        if k == 'speeds':
            s[k] = gen_speeds(rng, 3)
        elif k == 'vols':
            i = rng.randrange(3)
            s[k] = [val(v * 1.5, 4) if j == i else v for j, v in enumerate(s[k])]
        else:
            s[k] = gen_corr3(rng) if k == 'rho' else val(rng.uniform(0.0, 0.08), 4)
    elif t == 'mvm':
        k = rng.choice(['m', 'S', 'g', 'b'])
        i = rng.randrange(len(s['m']))
        if k == 'b':
            s[k] = val(s[k] + 0.01, 4)
        elif k == 'S':
            s[k][i] = [val(v * 1.5, 5) for v in s[k][i]]
        else:
            s[k][i] = val(s[k][i] + 0.02, 4)
    elif t == 'srm':
        if rng.random() < 0.5:
            s['trans'] = dict(s['trans'], b=val(rng.uniform(-0.05, 0.05), 4), k=rng.choice(['affine', 'quad']))
        else:
            s['sub']['drift'][0] = gen_drift(rng, s['sub']['n'])
    else:
        i = rng.randrange(s['n'])
        s['drift'][i] = gen_drift(rng, s['n'])
    return s
