"""C17: yields, forward rates, volatilities and hedges of a short-rate model belong to one law."""
import math
from datetime import datetime, timedelta

import numpy as np
from scipy.linalg import expm

from . import core, procs, ref
from .c15 import Gauss, _ctx, setup  # noqa: F401  (the fault point in every accrual)
from .core import gen_par, history, pick_fault_kind

COMMON = ['yield', 'average_expected_short_rate', 'price_convexities', 'yield_volatility', 'instantaneous_forward_rate',
          'instantaneous_forward_rate_volatility', 'yield_convexity', 'price_coeffs', 'yield_coeffs', 'price']
MULTI = COMMON + ['expected_state_variable_mean', 'state_variable_covariance', 'price_deriv_state', 'weights', 'weights', 'no_arbitrage',
                  'yield_covariance_matrix', 'instantaneous_forward_rate_covariance', 'price_deriv_maturity']
DATED = ('price', 'price_coeffs', 'instantaneous_forward_rate', 'expected_state_variable_mean', 'state_variable_covariance',
         'price_deriv_state', 'price_deriv_maturity')      # maturities may be dates when the model's clock shows times
MANY = {'price_convexities', 'yield_covariance_matrix', 'instantaneous_forward_rate_covariance'}


def generate(rng, tier):
    specs = []
    ms = rng.choice([5, 10, 20])
    for _ in range(rng.choice([1, 1, 2])):
        k = rng.choice(['vas', 'vas', 'dmr', 'mvm', 'mvm', 'tmr', 'smpr'])
        if k in ('vas', 'mvm'):
            b, st = procs.gen_bm(rng, dim=1 if k == 'vas' else rng.choice([1, 2, 2, 3]), max_steps=ms)
            specs.append(dict(b, corr=None))
            specs.append(procs.gen_vas(rng, len(specs) - 1, st) if k == 'vas' else procs.gen_mvm(rng, len(specs) - 1, b, st))
        else:
            specs.append({'dmr': procs.gen_dmr, 'tmr': procs.gen_tmr, 'smpr': procs.gen_smpr}[k](rng, ms))
        if rng.random() < 0.3:
            specs.append(procs.gen_sibling(rng, specs[-1]))
    models = [i for i, s in enumerate(specs) if s['t'] != 'bm']
    # few dates, asked for again and again, from several purchase dates
    ps = [None, None, 0.0, round(rng.uniform(0, 1), 3), round(rng.uniform(0, 1), 3)]
    us = [round(rng.uniform(0.02, 1), 3), round(rng.uniform(1, 8), 3), 1.0]

    def gen(i, keep):
        return {'op': 'gen', 'o': i, 'set': keep, 'seed': rng.randrange(1 << 31), 'start': procs.gen_start(rng, specs[i])}

    def any_op(depth):
        i = rng.choice(models)
        r = rng.random()
        if r < 0.15:
            # the path a question reads is not replaced in the middle of it
            op = gen(i, depth == 0 and rng.random() < 0.6)
        elif r < 0.22 and depth == 0:
            op = {'op': 'sample', 'o': i, 'seed': rng.randrange(1 << 31), 'n': 40, 'start': procs.gen_start(rng, specs[i]),
                  'us': sorted({rng.choice(us), round(rng.uniform(0.5, 8), 3)})}
        else:
            q = rng.choice(COMMON if specs[i]['t'] == 'vas' else MULTI)
            n = procs.dim_of(specs[i]) + 1
            op = {'op': 'q', 'o': i, 'q': q, 'p': rng.choice(ps)}
            if q in ('weights', 'no_arbitrage'):
                step = rng.uniform(0.5, 2.5)
                op['y'] = [round(step * (k + rng.uniform(0.6, 1)), 3) for k in range(n)]
                rng.shuffle(op['y'])
            elif q in MANY:
                op['us'] = [rng.choice(us + [round(rng.uniform(0.05, 8), 3)]) for _ in range(rng.randrange(1, 4))]
            else:
                op['us'] = [rng.choice(us)]
            op['form'] = rng.choice(['list', 'tuple', 'gen'])
            if 'us' in op and rng.random() < 0.2:
                # maturities far beyond the path
                op['y'] = [round(rng.choice([1, 10, rng.uniform(0.5, 60)]), 2) for _ in op.pop('us')]
            if q in DATED and rng.random() < 0.2:
                op['day'] = True    # maturities are dates, whatever the model's clock shows
        if depth == 0 and op['op'] != 'sample' and rng.random() < 0.5:
            if rng.random() < 0.5:
                op['fault'] = {'site': 'accrual', 'at': rng.choice([1, 1, 2, 3, rng.randrange(1, 30)]), 'kind': pick_fault_kind(rng)}
            else:
                op['inner'] = {'site': 'accrual', 'at': rng.choice([1, 2, 3, rng.randrange(1, 20)]), 'ops': [any_op(1) for _ in range(rng.randrange(1, 3))]}
        return op

    ops = [gen(i, True) for i in models]
    for _ in range(history(rng, 4, 12, 60)):
        if rng.random() < 0.15:
            ops.append(gen_par(rng, lambda: any_op(1)))
        else:
            ops.append(any_op(0))
            if ops[-1]['op'] == 'q' and rng.random() < 0.3:
                # the same question before and after the path has moved
                ops += [gen(ops[-1]['o'], True), {k: v for k, v in ops[-1].items() if k not in ('fault', 'inner')}]
    return {'specs': specs, 'ops': ops}


class Law(Gauss):
    """The affine law of a model: log price = A(tau) + <B(tau), x>, by matrix exponentials."""

    def __init__(self, pool, i):
        super().__init__(pool, i)
        self.kept = {}

    def at(self, tau):
        if tau in self.kept:
            return self.kept[tau]
        n = self.n
        G = np.zeros((n + 2, n + 2))
        G[:n, :n], G[:n, n + 1], G[n, :n] = -self.K, self.K @ self.m, self.g
        E = expm(G * tau)
        r, var, price, mean, vint = self.continuous(np.zeros(n), tau)
        d = {'F': E[:n, :n], 'c': E[:n, n + 1], 'B': -E[n, :n], 'A': -mean + vint / 2, 'mean0': mean}
        # covariance of (state, integral) after tau
        M, Q = np.zeros((2 * n + 2, 2 * n + 2)), np.zeros((n + 1, n + 1))
        Bm = G[:n + 1, :n + 1]
        Q[:n, :n] = self.C
        k = max(1, int(math.ceil(tau * max(1.0, np.abs(Bm).max()) / 2)))
        M[:n + 1, :n + 1], M[:n + 1, n + 1:], M[n + 1:, n + 1:] = -Bm, Q, Bm.T
        X = expm(M * (tau / k))
        S = X[n + 1:, n + 1:].T
        step, P = S @ X[:n + 1, n + 1:], np.zeros((n + 1, n + 1))
        for _ in range(k):
            P = S @ P @ S.T + step
        d['cov'], d['cov_rI'] = P[:n, :n], float(self.g @ P[:n, n])
        self.kept[tau] = d
        return d

    def logp(self, x, tau):
        d = self.at(tau)
        return d['A'] + float(d['B'] @ x)

    def rate(self, x):
        return self.b + float(self.g @ x)

    def forward(self, x, tau):
        """- d log price / d tau: the expected rate less its covariance with the integral."""
        d = self.at(tau)
        return self.b + float(self.g @ (d['F'] @ x + d['c'])) - d['cov_rI']


def execute(ctx, plan):
    _ctx[0] = None
    pool = procs.Pool(ctx, plan['specs'])
    laws = {i: Law(pool, i) for i, s in enumerate(pool.specs) if s['t'] != 'bm'}
    stored = {}
    _ctx[0] = ctx

    def state_at(i, t):
        times, states = stored[i]
        return ref.interp(times, states, t, laws[i].dcc)

    def retry(fn):
        out = ctx.real(fn)
        if not out.ok and core.is_injected(out.exc):
            ctx.probe('failed calls repeated')
            out = ctx.real(fn)
        return out

    def near(got, want, atol, what):
        a, b = np.asarray(got, dtype=float).ravel(), np.asarray(want, dtype=float).ravel()
        ctx.check(a.shape == b.shape, 'analytics-wrong', lambda: f'{what}: {a.shape[0]} numbers, expected {b.shape[0]}')
        scale = float(np.max(np.abs(b))) if b.size else 0.0
        ctx.check(bool(np.all(np.abs(a - b) <= 1e-6 * scale + atol)), 'analytics-wrong', lambda: f'{what}: {a.tolist()}, the law of the model gives {b.tolist()}')

    def one(op):
        if op['op'] == 'par':
            ctx.parallel(op, [lambda ops=t['ops']: run(ops) for t in op['tasks']])
            ctx.probe('parallel phases')
            return
        i = op['o']
        with ctx.frame(op):
            if op['op'] == 'gen':
                out = retry(lambda: pool.generate(i, procs.make_start(op['start']), op['seed'], op['set']))
                ctx.must(out, 'generation-failed', f'path of #{i}')
                if op['set']:
                    stored[i] = pool.ref_states(i, np.array(procs.make_start(op['start']), dtype=float), op['seed'])
                ctx.ev('gen', i, op['seed'])
            elif op['op'] == 'sample':
                sample(op, i)
            else:
                query(op, i)

    def query(op, i):
        o, s, g, q = pool.objs[i], pool.specs[i], laws[i], op['q']
        span = (g.end - g.start).total_seconds()
        multi = s['t'] != 'vas'
        start_only = not multi and q == 'yield_convexity'
        p = None if op['p'] is None or start_only else g.start + timedelta(seconds=int(op['p'] * span))
        base = p or g.start
        kw = {} if p is None else {'purchase_date': p}
        x = state_at(i, base)
        if 'y' in op:
            mats = [base + timedelta(days=int(365.25 * y)) for y in op['y']]
        else:
            mats = [procs.later(base, u * span, 7200) for u in op['us']]
        if op.get('day') and isinstance(base, datetime):
            mats = [(m + timedelta(1)).date() for m in mats]
        taus = [ref.accrual(base, t, g.dcc) for t in mats]
        t, tau = mats[0], taus[0]
        d = g.at(tau)
        if max(abs(g.logp(x, h)) for h in taus) > 60:
            ctx.probe('prices off any scale')
            return
        price = math.exp(g.logp(x, tau))
        what = f'{q} of #{i} ({s["t"]}) from {base} to {", ".join(str(m) for m in mats)}'

        def ask(name, many=False, **extra):
            if not many:
                return ctx.must(retry(lambda: getattr(o, name)(maturity_date=t, **kw, **extra)), 'analytics-failed', what)
            dates = {'list': lambda: list(mats), 'tuple': lambda: tuple(mats), 'gen': lambda: (m for m in mats)}[op['form']]
            return ctx.must(retry(lambda: getattr(o, name)(maturity_dates=dates(), **kw, **extra)), 'analytics-failed', what)

        def vols(B):
            return math.sqrt(max(0.0, float(B @ g.C @ B)))

        if q == 'price':
            near(ask('zero_coupon_bond_price'), price, 1e-10, what)
        elif q == 'yield':
            near(ask('zero_coupon_bond_yield' if multi else 'zero_coupon_yield'), -g.logp(x, tau) / tau, 1e-10 / tau, what)
        elif q == 'average_expected_short_rate':
            near(ask(q), (d['mean0'] - float(d['B'] @ x)) / tau, 1e-10 / tau, what)
        elif q == 'yield_convexity':
            near(ask(q), -g.logp(x, tau) / tau - (d['mean0'] - float(d['B'] @ x)) / tau, 1e-9 + 1e-10 / tau, what)
        elif q == 'yield_volatility':
            near(ask(q), vols(d['B'] / tau), 1e-11, what)
        elif q == 'instantaneous_forward_rate':
            near(ask(q), g.forward(x, tau), 1e-9, what)
        elif q == 'instantaneous_forward_rate_volatility':
            near(ask(q), vols(d['F'].T @ g.g), 1e-11, what)
        elif q in ('price_coeffs', 'yield_coeffs'):
            got = ask('_create_bond_price_coeffs' if q == 'price_coeffs' else '_create_bond_yield_coeffs')
            k = 1.0 if q == 'price_coeffs' else -tau
            near(np.asarray(got['coefficients' if multi else 'coefficient']) * k, d['B'], 1e-10, what)
            near(got['intercept'] * k, d['A'], 1e-10, what)
        elif q == 'price_convexities':
            near(ask(q, True), [-0.5 * math.exp(g.logp(x, h)) * vols(g.at(h)['B']) ** 2 for h in taus], 1e-12, what)
        elif q == 'expected_state_variable_mean':
            near(ask(q), d['F'] @ x + d['c'], 1e-9, what)
        elif q == 'state_variable_covariance':
            near(ask(q), d['cov'], 1e-11, what)
        elif q == 'price_deriv_state':
            near(ask('zero_coupon_bond_price_deriv_wrt_state_variables'), price * d['B'], 1e-10, what)
        elif q == 'price_deriv_maturity':
            near(ask('zero_coupon_price_deriv_wrt_maturity'), -price * g.forward(x, tau), 1e-9, what)
        elif q in ('yield_covariance_matrix', 'instantaneous_forward_rate_covariance'):
            L = [g.at(h)['B'] / h if q == 'yield_covariance_matrix' else g.at(h)['F'].T @ g.g for h in taus]
            near(ask(q, True), [[float(a @ g.C @ b) for b in L] for a in L], 1e-12, what)
        else:
            hedge(op, i, x, mats, taus, ask, what)
        ctx.ev(q, i)
        ctx.probe(q)

    def hedge(op, i, x, mats, taus, ask, what):
        """A portfolio of zero-coupon bonds without exposure grows at the short rate."""
        g = laws[i]
        P = np.array([math.exp(g.logp(x, h)) for h in taus])
        D = np.array([p * g.at(h)['B'] for p, h in zip(P, taus)])
        A = np.vstack([D.T, np.ones(len(taus))])
        if np.linalg.cond(A) > 1e7:
            ctx.probe('hedges too close to call')
            return
        w = np.asarray(ask('weights_for_riskless_portfolio', True), dtype=float)
        size = float(np.abs(w).sum())
        near(w.sum(), 1.0, 1e-9 * size, f'sum of the weights, {what}')
        near(w @ D, np.zeros(len(x)), 1e-8 * size * max(1.0, float(np.abs(D).max())), f'exposure of the riskless portfolio, {what}')
        if op['q'] == 'weights':
            return
        convexity = core.scalar(ask('riskless_portfolio_convexity', True))
        want = 0.5 * sum(v * p * float(g.at(h)['B'] @ g.C @ g.at(h)['B']) for v, p, h in zip(w, P, taus))
        near(convexity, want, 1e-10 * max(1.0, size), what)
        # growth = - d price / d maturity + convexity = rate * value
        drift = sum(v * p * g.forward(x, h) for v, p, h in zip(w, P, taus))
        near(drift + convexity, g.rate(x) * float(w @ P), 1e-7 * max(1.0, size), f'growth of the riskless portfolio, {what}')

    def sample(op, i):
        """Yields one step later over many paths vary as the model says they do."""
        o, s, g = pool.objs[i], pool.specs[i], laws[i]
        times = pool.grid(i)
        x0 = np.array(procs.make_start(op['start']), dtype=float).reshape(-1)
        span = (g.end - g.start).total_seconds()
        mats = [procs.later(g.start, u * span, 7200) for u in op['us']]
        mats = [m for m in mats if m > times[1]]
        name = 'zero_coupon_yield' if s['t'] == 'vas' else 'zero_coupon_bond_yield'
        ys = []
        for k in range(op['n']):
            seed = (op['seed'] + k) % (1 << 32)
            ctx.must(retry(lambda: pool.generate(i, procs.make_start(op['start']), seed, True)), 'generation-failed', f'path {k} of #{i}')
            stored[i] = pool.ref_states(i, x0, seed)
            ys.append([core.scalar(ctx.must(retry(lambda: getattr(o, name)(maturity_date=m, purchase_date=times[1])), 'analytics-failed', f'yield of path {k} of #{i}'))
                       for m in mats])
            for y, m in zip(ys[-1], mats):
                tau = ref.accrual(times[1], m, g.dcc)
                near(y, -g.logp(stored[i][1][:, 1], tau) / tau, 1e-10 / tau, f'yield at {times[1]} of #{i} ({s["t"]}) to {m} on path {k}')
        ctx.sim_days += op['n'] * span / 86400
        ys = np.array(ys)
        dt = ref.accrual(times[0], times[1], g.dcc)
        for c, m in enumerate(mats):
            vol = core.scalar(ctx.must(retry(lambda: o.yield_volatility(maturity_date=m, purchase_date=times[1])), 'analytics-failed', f'yield volatility of #{i}'))
            if vol * math.sqrt(dt) > 1e-9:
                ratio = ys[:, c].var(ddof=1) / (vol ** 2 * dt)
                ctx.check(0.15 < ratio < 3.5, 'simulation-disagrees', lambda: f'yields of #{i} ({s["t"]}) to {m} after one step: variance {ys[:, c].var(ddof=1)} over {op["n"]} paths, '
                          f'the model says {vol ** 2 * dt}')
        ctx.ev('sample', i, [round(float(v), 12) for v in ys.mean(axis=0)])
        ctx.probe('samples compared')
        ctx.state('c17', s, [round(float(v), 6) for v in ys.mean(axis=0)])

    def run(ops):
        for op in ops:
            one(op)

    ctx.run_inner = run
    for op in plan['ops']:
        one(op)
