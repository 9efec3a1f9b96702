"""C15: simulated short rates agree with the model's own closed forms."""
import math
from datetime import timedelta

import numpy as np

from . import core, procs, ref
from .core import gen_par, history, pick_fault_kind

_ctx = [None]
Z = 8.0     # standard errors granted to a sample


def setup():
    from fixedIncome.src.scheduling_tools.day_count_calculator import DayCountCalculator
    raw = DayCountCalculator.compute_accrual_length

    def call(*args, **kwargs):
        if _ctx[0] is not None:
            _ctx[0].point('accrual')
        return raw(*args, **kwargs)
    DayCountCalculator.compute_accrual_length = staticmethod(call)


def generate(rng, tier):
    specs = []
    ms = rng.choice([5, 10, 20])
    bm, step = procs.gen_bm(rng, dim=1, max_steps=ms)
    specs.append(bm)
    for _ in range(rng.choice([1, 1, 2])):
        k = rng.choice(['vas', 'vas', 'vas', 'dmr', 'dmr', 'mvm', 'tmr', 'smpr'])
        if k == 'vas':
            s = procs.gen_vas(rng, 0, step)
        elif k == 'mvm':
            # the closed forms of the multivariate model are those of independent shocks
            b, st = procs.gen_bm(rng, dim=rng.choice([1, 2, 2, 3]), max_steps=ms)
            specs.append(dict(b, corr=None))
            s = procs.gen_mvm(rng, len(specs) - 1, b, st)
        else:
            s = {'dmr': procs.gen_dmr, 'tmr': procs.gen_tmr, 'smpr': procs.gen_smpr}[k](rng, ms)
        if k in ('vas', 'dmr') and rng.random() < 0.15:
            s['speed' if k == 'vas' else 'ss'] = round(rng.uniform(2, 6), 3)
        specs.append(s)
    models = [i for i, s in enumerate(specs) if s['t'] != 'bm']

    def closed(i):
        return {'op': 'closed', 'o': i, 'u': rng.choice([1.0, round(rng.uniform(0.05, 1), 3), round(rng.uniform(1, 8), 3)]),
                'p': rng.choice([None, None, 0.0, round(rng.uniform(0, 1), 3)])}

    def gen(i, keep):
        return {'op': 'gen', 'o': i, 'set': keep, 'seed': rng.randrange(1 << 31), 'start': procs.gen_start(rng, specs[i])}

    def extras(depth):
        i = rng.choice(models)
        op = rng.choice([lambda: closed(i), lambda: gen(i, depth == 0 and rng.random() < 0.5), lambda: {'op': 'one', 'o': i, 'p': rng.choice([None, 0.0, round(rng.uniform(0, 1), 3)])}])()
        if depth == 0 and rng.random() < 0.5:
            if rng.random() < 0.5:
                op['fault'] = {'site': 'accrual', 'at': rng.choice([1, 1, 2, 3, rng.randrange(1, 30)]), 'kind': pick_fault_kind(rng)}
            else:
                op['inner'] = {'site': 'accrual', 'at': rng.choice([1, 2, rng.randrange(1, 20)]), 'ops': [extras(1) for _ in range(rng.randrange(1, 3))]}
        return op

    def mc(i):
        lo, hi = (-0.02, 0.12)
        n = procs.dim_of(specs[i])
        op = {'op': 'mc', 'o': i, 'start': {'form': rng.choice(['arr', 'list']), 'val': [round(rng.uniform(lo, hi), 4) for _ in range(n)]},
              'seed': rng.choice([0, rng.randrange(1 << 31)]), 'n': rng.choice([40, 60]), 'at': sorted({rng.choice([1.0, round(rng.uniform(0.2, 1), 3)]) for _ in range(2)})}
        if rng.random() < 0.3:
            op['fault'] = {'site': 'accrual', 'at': rng.randrange(1, 400), 'kind': pick_fault_kind(rng)}
        elif rng.random() < 0.4:
            op['inner'] = {'site': 'accrual', 'at': rng.randrange(1, 300), 'ops': [extras(1) for _ in range(rng.randrange(1, 3))]}
        return op

    ops = [[gen(i, True)] for i in models]
    for _ in range(history(rng, 2, 6, 20)):
        if rng.random() < 0.15:
            ops.append([gen_par(rng, lambda: extras(1), counts=(2,))])
        else:
            ops.append([extras(0)])
            if ops[-1][0]['op'] == 'closed' and rng.random() < 0.4:
                # the same question before and after the path has moved
                q = ops[-1][0]
                ops[-1] += [gen(q['o'], True), {k: v for k, v in q.items() if k not in ('fault', 'inner')}]
    ops += [[mc(rng.choice(models))] for _ in range(rng.choice([1, 1, 2]))]
    rng.shuffle(ops)
    return {'specs': specs, 'ops': [gen(i, True) for i in models] + [op for group in ops for op in group]}


class Gauss:
    """Means and covariances of (state, integral of the rate), continuous and stepped; everything here is linear."""

    def __init__(self, pool, i):
        self.start, self.end, self.dcc, _, _ = pool.clock(i)
        self.K, self.m, S, self.g, self.b = procs.affine(pool.specs[i])
        self.C = S @ S.T
        self.n = len(self.m)

    def continuous(self, x0, tau):
        """(mean rate, rate variance, bond price, mean of the integral, variance of the integral, state mean) after tau years."""
        from scipy.linalg import expm
        n = self.n
        # y = (x, I, 1)
        A = np.zeros((n + 2, n + 2))
        A[:n, :n], A[:n, n + 1], A[n, :n] = -self.K, self.K @ self.m, self.g
        y = expm(A * tau) @ np.concatenate([x0, [0.0, 1.0]])
        B = A[:n + 1, :n + 1]
        Q = np.zeros((n + 1, n + 1))
        Q[:n, :n] = self.C
        # covariance: Lyapunov equation by Van Loan's block exponential, in slices so that the blocks stay small
        P = np.zeros((n + 1, n + 1))
        k = max(1, int(math.ceil(tau * max(1.0, np.abs(B).max()) / 2)))
        h = tau / k
        M = np.zeros((2 * n + 2, 2 * n + 2))
        M[:n + 1, :n + 1], M[:n + 1, n + 1:], M[n + 1:, n + 1:] = -B, Q, B.T
        E = expm(M * h)
        F = E[n + 1:, n + 1:].T
        step = F @ E[:n + 1, n + 1:]
        for _ in range(k):
            P = F @ P @ F.T + step
        mean = y[n] + self.b * tau
        return float(self.b + self.g @ y[:n]), float(self.g @ P[:n, :n] @ self.g), math.exp(-mean + P[n, n] / 2), float(mean), float(P[n, n])

    def stepped(self, x0, times):
        """The same for the Euler recursion over the grid, with trapezoidal integrals."""
        n = self.n
        y, P = np.concatenate([x0, [0.0]]), np.zeros((n + 1, n + 1))
        acc = [ref.accrual(self.start, t, self.dcc) for t in times]
        for k in range(len(times) - 1):
            dt = ref.accrual(times[k], times[k + 1], self.dcc)
            da = acc[k + 1] - acc[k]
            F = np.zeros((n + 1, n + 1))
            F[:n, :n] = np.eye(n) - self.K * dt
            F[n, n] = 1.0
            F[n, :n] = self.g @ (np.eye(n) + F[:n, :n]) * da / 2
            b = np.concatenate([self.K @ self.m * dt, [float(self.g @ (self.K @ self.m)) * dt * da / 2]])
            G = np.vstack([np.eye(n), self.g[None, :] * da / 2])
            y, P = F @ y + b, F @ P @ F.T + G @ self.C @ G.T * dt
        mean = y[n] + self.b * acc[-1]
        return float(self.b + self.g @ y[:n]), float(self.g @ P[:n, :n] @ self.g), math.exp(-mean + P[n, n] / 2), float(mean), float(P[n, n])


def execute(ctx, plan):
    _ctx[0] = None
    pool = procs.Pool(ctx, plan['specs'])
    gauss = {i: Gauss(pool, i) for i, s in enumerate(pool.specs) if s['t'] != 'bm'}
    stored = {}
    _ctx[0] = ctx

    def state_at(i, t):
        times, states = stored[i]
        return ref.interp(times, states, t, gauss[i].dcc)

    def retry(op, fn):
        """The call, and once more if an injected fault ended it."""
        out = ctx.real(fn)
        if not out.ok and core.is_injected(out.exc):
            ctx.probe('failed calls repeated')
            out = ctx.real(fn)
        return out

    def closed(op, i, t, p, x, what):
        """Mean, variance and bond price against the continuous law from state x at p."""
        o, g = pool.objs[i], gauss[i]
        kw = {} if p is None else {'purchase_date': p}
        want = g.continuous(x, ref.accrual(p or g.start, t, g.dcc))
        got = []
        for name, w in zip(('expected_short_rate', 'short_rate_variance', 'zero_coupon_bond_price'), want):
            out = retry(op, lambda: getattr(o, name)(maturity_date=t, **kw))
            got.append(core.scalar(ctx.must(out, 'closed-form-failed', f'{name} of {what}')))
            scale = abs(w) if name != 'expected_short_rate' else 0.02
            ctx.check(abs(got[-1] - w) <= 1e-7 * scale + 1e-11, 'closed-form-wrong', lambda: f'{name} of {what}: {got[-1]}, the limit of fine steps is {w}')
        return got, want

    def one(op):
        if op['op'] == 'par':
            ctx.parallel(op, [lambda ops=t['ops']: run(ops) for t in op['tasks']])
            ctx.probe('parallel phases')
            return
        i = op['o']
        o, s, g = pool.objs[i], pool.specs[i], gauss[i]
        span = (g.end - g.start).total_seconds()
        with ctx.frame(op) as fr:
            if op['op'] == 'gen':
                out = retry(op, lambda: pool.generate(i, procs.make_start(op['start']), op['seed'], op['set']))
                ctx.must(out, 'generation-failed', f'path of #{i}')
                if op['set']:
                    stored[i] = pool.ref_states(i, np.array(procs.make_start(op['start']), dtype=float), op['seed'])
                ctx.ev('gen', i, op['seed'])
            elif op['op'] == 'one':
                p = None if op['p'] is None else g.start + timedelta(seconds=int(op['p'] * span))
                kw = {} if p is None else {'purchase_date': p}
                v = core.scalar(ctx.must(retry(op, lambda: o.zero_coupon_bond_price(maturity_date=p or g.start, **kw)), 'closed-form-failed', 'a bond at its maturity'))
                ctx.same(v, 1.0, 'price-at-maturity', f'bond of #{i} bought at its maturity', 1e-12)
                ctx.ev('one', i)
            elif op['op'] == 'closed':
                p = None if op['p'] is None else g.start + timedelta(seconds=int(op['p'] * span))
                base = p or g.start
                t = procs.later(base, op['u'] * span, 60)
                got, want = closed(op, i, t, p, state_at(i, base), f'#{i} ({s["t"]}) from {base} to {t}')
                if s['t'] == 'vas' and s['vol'] == 0.0 and t <= g.end:
                    # without noise the path itself must be the expected rate, up to the size of a step
                    r = core.scalar(ctx.must(retry(op, lambda: o(t)), 'rate-failed', f'rate of #{i}'))
                    times, states = stored[i]
                    bias = abs(float(states[0, 0]) - g.m[0]) * (g.K[0, 0] * max(ref.accrual(a, b, g.dcc) for a, b in zip(times, times[1:]))) * 2
                    ctx.check(abs(r - got[0]) <= bias + 1e-9, 'noiseless-path', lambda: f'rate of #{i} without noise at {t}: {r}, expected {got[0]}, step error at most {bias}')
                    ctx.probe('noiseless paths compared')
                ctx.ev('closed', i, [round(v, 12) for v in got])
            else:
                mc(op, i, o, s, g, span)

    def mc(op, i, o, s, g, span):
        times = pool.grid(i)
        x0 = np.array(op['start']['val'], dtype=float)
        ends = sorted({max(1, min(len(times) - 1, round(u * (len(times) - 1)))) for u in op['at']})
        start = procs.make_start(op['start'])
        rates, dfs, rrates, rints = [], [], [], []
        for k in range(op['n']):
            seed = (op['seed'] + k) % (1 << 32)
            out = retry(op, lambda: pool.generate(i, start, seed, True))
            ctx.must(out, 'generation-failed', f'path {k} of #{i}')
            stored[i] = pool.ref_states(i, x0, seed)
            out = retry(op, lambda: o.create_discount_curve(times))
            curve = ctx.must(out, 'discount-failed', f'discount curve {k} of #{i}')
            rates.append([core.scalar(ctx.must(retry(op, lambda: o(times[e])), 'rate-failed', f'rate {k} of #{i}')) for e in ends])
            dfs.append([core.scalar(ctx.must(retry(op, lambda: curve(times[e])), 'discount-failed', f'discount factor {k} of #{i}')) for e in ends])
            path = [g.b + float(g.g @ stored[i][1][:, j]) for j in range(len(times))]
            acc = [ref.accrual(g.start, t, g.dcc) for t in times]
            run_int = np.concatenate([[0.0], np.cumsum([(a + b) / 2 * d for a, b, d in zip(path, path[1:], np.diff(acc))])])
            rrates.append([path[e] for e in ends])
            rints.append([run_int[e] for e in ends])
        rates, dfs, rrates, rints = (np.array(v) for v in (rates, dfs, rrates, rints))
        ctx.sim_days += op['n'] * span / 86400
        n = op['n']
        for c, e in enumerate(ends):
            t = times[e]
            got, cont = closed(op, i, t, None, x0, f'#{i} ({s["t"]}) to {t}')
            euler = g.stepped(x0, times[:e + 1])
            # the sample, with a reference sample of known law as its control variate
            p, q = rates[:, c], rrates[:, c]
            d = p - q
            u = (p - p.mean()) ** 2 - (q - q.mean()) ** 2
            f = dfs[:, c] - np.exp(-rints[:, c])
            for name, est, se, j in (('expected rate', euler[0] + d.mean(), d.std() / math.sqrt(n), 0),
                                     ('rate variance', euler[1] + u.sum() / (n - 1), u.std() / math.sqrt(n) * 1.1, 1),
                                     ('bond price', euler[2] + f.mean(), f.std() / math.sqrt(n), 2)):
                gap = abs(euler[j] - cont[j])
                tol = Z * se + 1.25 * gap + 1e-8 * abs(cont[j]) + 1e-10
                ctx.check(abs(est - got[j]) <= tol, 'simulation-disagrees',
                          lambda: f'{name} of #{i} ({s["t"]}) at {t}: {n} paths give {est} (standard error {se:.3g}, step error {gap:.3g}), the model says {got[j]}')
            # and the plain sample
            sd = math.sqrt(euler[1])
            gap = abs(euler[0] - cont[0])
            ctx.check(abs(p.mean() - got[0]) <= Z * sd / math.sqrt(n) + 1.25 * gap + 1e-9, 'simulation-disagrees',
                      lambda: f'mean rate of #{i} at {t}: {p.mean()} over {n} paths, the model says {got[0]}')
            if sd > 1e-9:
                ratio = p.var(ddof=1) / euler[1]
                ctx.check(0.15 < ratio < 3.5, 'simulation-disagrees', lambda: f'variance of the rate of #{i} at {t}: {p.var(ddof=1)} over {n} paths, the recursion has {euler[1]}')
            ctx.probe('samples compared')
        ctx.ev('mc', i, [round(float(v), 12) for v in rates.mean(axis=0)])
        ctx.state('c15', s, [round(float(v), 6) for v in rates.mean(axis=0)])

    def run(ops):
        for op in ops:
            one(op)

    ctx.run_inner = run
    for op in plan['ops']:
        one(op)
