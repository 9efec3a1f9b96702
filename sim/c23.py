"""C23: portfolio optimisation meets its constraints or fails loudly."""
import itertools
import threading
import warnings

import numpy as np
import scipy.optimize

from . import core
from .core import gen_par, history, pick_fault_kind

TOL = 2e-6
_ctx = [None]
_tls = threading.local()


def solves():
    """What the solver said of itself during the operation now running on this thread."""
    if not hasattr(_tls, 'stack'):
        _tls.stack = [[]]
    return _tls.stack


def setup():
    def wrapper(original):
        def minimize(*args, **kwargs):
            fault = _ctx[0].point('solve') if _ctx[0] is not None else None
            mine = solves()[-1]
            sol = original(*args, **kwargs)
            if fault:
                sol['x'] = np.asarray(sol['x'], dtype=float) + 0.05   # where a solver that stops short may be
                sol['success'] = False
                sol['status'] = 9
                sol['message'] = 'Iteration limit reached'
            mine.append(bool(sol['success']))
            return sol
        return minimize
    core.patch_everywhere(scipy.optimize, 'minimize', wrapper)


def gen_problem(rng):
    n = rng.choice([1, 2, 2, 3, 3, 4, 5]) if rng.random() < 0.96 else rng.choice([7, 9])
    scale = rng.choice([1e-3, 0.01, 0.04, 0.1, 1.0])
    mus = []
    while len(mus) < n:
        m = round(rng.uniform(-0.02, 0.2), rng.choice([3, 6]))
        if all(abs(m - x) > 0.004 for x in mus):
            mus.append(m)
    if rng.random() < 0.2:
        mus.sort()
    f = [[round(rng.gauss(0, 1), 4) for _ in range(n)] for _ in range(n)]
    kind = rng.choice(['factor', 'factor', 'diag', 'common'])
    cov = np.array(f) @ np.array(f).T / n
    if kind == 'diag':
        cov = np.diag(np.diag(cov))
    if kind == 'common':
        cov = cov * 0.3 + 0.7
    cov = (cov + 0.05 * np.eye(n)) * scale
    return {'mu': mus, 'cov': [[float(x) for x in row] for row in (cov + cov.T) / 2], 'ro': rng.random() < 0.3, 'int': rng.random() < 0.0}


def generate(rng, tier):
    problems = [gen_problem(rng) for _ in range(rng.choice([1, 2, 2, 3]))]
    pools = []
    for p in problems:
        lo, hi = min(p['mu']), max(p['mu'])
        pool = [round(lo + (hi - lo) * f, rng.choice([3, 6, 12])) for f in (0.25, rng.uniform(0.1, 0.9), rng.uniform(0.1, 0.9))] if hi > lo else [lo]
        pools.append([t for t in pool if lo <= t <= hi] + [hi, lo] + [hi + rng.choice([0.01, 0.2]), lo - 0.03])
    threads = rng.random() < 0.4

    def any_op(depth):
        o = rng.randrange(len(problems))
        p = problems[o]
        lo, hi = min(p['mu']), max(p['mu'])
        kind = rng.choice(['minvar'] * 6 + ['util'] * 3 + ['frontier'] * 2 + ['sharpe'])
        op = {'op': kind, 'o': o, 'short': rng.random() < 0.45, 'pos': rng.random() < 0.5}
        n_solves = 1
        if kind == 'minvar':
            op['target'] = rng.choice(pools[o][:3] * 3 + pools[o])
        elif kind == 'util':
            op['wealth'], op['param'] = rng.choice([1.0, 1, 10.0, 0.5]), rng.choice([1.0, 2, 5.5, round(rng.uniform(0.5, 8), 3)])
        elif kind == 'frontier':
            steps = rng.choice([1, 2, 3, 5]) if rng.random() < 0.95 else 24
            inc = round(max((hi - lo) / (steps + 0.5), 1e-4), 5)
            op['inc'] = inc
            op['bounds'] = rng.choice(['default', 'default', 'lower', 'upper', 'both', 'beyond'])
            op['lower'] = round(lo + (hi - lo) * rng.choice([0.05, 0.3, 0.5]), 4)
            op['upper'] = round(lo + (hi - lo) * rng.choice([0.6, 0.9, 0.97]), 4)
            if lo < 0.0 < hi and rng.random() < 0.5:
                op[rng.choice(['lower', 'lower', 'upper'])] = 0.0
                op['bounds'] = rng.choice(['lower', 'upper', 'both'])
            if op['bounds'] == 'beyond':
                op['upper'] = round(hi + 2.5 * inc, 5)
            n_solves = steps
        else:
            op['risk_free'] = rng.choice([0, 0.0, 0.02, -0.01])
        r = rng.random()
        if r < 0.15:
            op['fault'] = {'site': 'solve', 'at': rng.randrange(1, n_solves + 1), 'kind': rng.choice(['gave-up', 'gave-up', pick_fault_kind(rng)])}
        elif r < 0.3:
            op['fault'] = {'site': 'objective', 'at': rng.choice([1, 2, 3, rng.randrange(1, 30)]), 'kind': pick_fault_kind(rng)}
        elif r < 0.5 and depth < 1:
            op['inner'] = {'site': rng.choice(['solve', 'objective', 'objective']), 'at': rng.randrange(1, 8), 'ops': [any_op(depth + 1) for _ in range(rng.choice([1, 1, 2]))]}
        return op

    ops = []
    for _ in range(history(rng, 3, 12, 80)):
        if threads and rng.random() < 0.25:
            ops.append(gen_par(rng, lambda: any_op(1), 2))
        else:
            ops.append(any_op(0))
    return {'problems': problems, 'ops': ops}


def best(quad, lin, rows, rhs, short):
    """Least w'Qw + l'w over rows w = rhs (and w >= 0 unless short), by trying every support; None if nothing is feasible."""
    n = len(quad)
    out = None
    supports = [tuple(range(n))] if short else [s for r in range(1, n + 1) for s in itertools.combinations(range(n), r)]
    for s in supports:
        s = list(s)
        kkt = np.block([[2 * quad[np.ix_(s, s)], rows[:, s].T], [rows[:, s], np.zeros((len(rhs), len(rhs)))]])
        right = np.concatenate([-lin[s], rhs])
        sol = np.linalg.lstsq(kkt, right, rcond=None)[0]
        if np.abs(kkt @ sol - right).max() > 1e-9:
            continue
        w = np.zeros(n)
        w[s] = sol[:len(s)]
        if not short and w.min() < -1e-10:
            continue
        f = w @ quad @ w + lin @ w
        out = f if out is None else min(out, f)
    return out


def execute(ctx, plan):
    from fixedIncome.src.portfolio.portfolio_optimization import PortfolioOptimizer
    _ctx[0] = ctx
    warnings.simplefilter('ignore')

    class Watched(np.ndarray):
        """A covariance matrix whose products are fault points."""

        def dot(self, other, *args):
            ctx.point('objective')
            return np.asarray(self).dot(np.asarray(other), *args)

        def __matmul__(self, other):
            return self.dot(other)

        def __rmatmul__(self, other):
            ctx.point('objective')
            return np.asarray(other) @ np.asarray(self)

    mus = [np.array(p['mu'], dtype=float) for p in plan['problems']]
    covs = [np.array(p['cov'], dtype=float) for p in plan['problems']]

    def inputs(k, watched):
        mu, cov = mus[k].copy(), covs[k].copy()
        if plan['problems'][k]['ro']:
            mu.flags.writeable = cov.flags.writeable = False
        return mu, (cov.view(Watched) if watched else cov)
    given = [inputs(k, True) for k in range(len(mus))]
    with ctx.reading('construction'):
        optimizers = [PortfolioOptimizer(mu, cov) for mu, cov in given]
    done = {}

    def arguments(op):
        kw = {'allow_short_positions': op['short']}
        if op['op'] == 'minvar':
            return (op['target'], op['short']) if op['pos'] else (op['target'],), {} if op['pos'] else kw
        if op['op'] == 'util':
            return (op['wealth'], op['param'], op['short']) if op['pos'] else (op['wealth'], op['param']), {} if op['pos'] else kw
        kw['return_increment'] = op['inc']
        if op['bounds'] in ('lower', 'both', 'beyond'):
            kw['lower_return'] = op['lower']
        if op['bounds'] in ('upper', 'both', 'beyond'):
            kw['upper_return'] = op['upper']
        return (), kw

    def call(optimizer, op):
        args, kw = arguments(op)
        name = {'minvar': 'find_minimum_variance_portfolio', 'util': 'find_maximum_utility_portfolio', 'frontier': 'calculate_efficient_frontier'}[op['op']]
        return ctx.real(getattr(optimizer, name), *args, **kw)

    def least_variance(k, target, short):
        return best(covs[k], np.zeros(len(mus[k])), np.array([np.ones(len(mus[k])), mus[k]]), np.array([1.0, target]), short)

    def targets(op):
        k = op['o']
        lo = op['lower'] if op['bounds'] in ('lower', 'both', 'beyond') else mus[k].min() + op['inc']
        hi = op['upper'] if op['bounds'] in ('upper', 'both', 'beyond') else mus[k].max() - op['inc']
        out = []
        while lo + len(out) * op['inc'] <= hi + 1e-9:
            out.append(lo + len(out) * op['inc'])
        return out

    def check_weights(k, w, short, what, target=None):
        ctx.check(w.shape == mus[k].shape, 'shape-wrong', lambda: f'{what}: weights of shape {w.shape} for {len(mus[k])} assets')
        ctx.check(bool(np.isfinite(w).all()), 'constraint-broken', lambda: f'{what}: weights {w}')
        ctx.same(float(w.sum()), 1.0, 'constraint-broken', f'{what}: sum of the weights', 0, 1e-6)
        if not short:
            ctx.check(w.min() >= -1e-7, 'constraint-broken', lambda: f'{what}: weights {w} include a short position')
        if target is not None:
            ctx.same(float(mus[k] @ w), target, 'constraint-broken', f'{what}: expected return', 0, 1e-6)

    def check_minvar(k, w, target, short, what):
        check_weights(k, w, short, what, target)
        least = least_variance(k, target, short)
        var = float(w @ covs[k] @ w)
        ctx.check(least is None or var <= least + TOL, 'not-optimal', lambda: f'{what}: variance {var!r}, another portfolio has {least!r}')

    def feasible(k, target, short):
        if len(mus[k]) == 1:
            return abs(target - mus[k][0]) < 1e-12
        return short or mus[k].min() <= target <= mus[k].max()

    def run_op(op):
        k = op['o']
        if op['op'] == 'sharpe':
            vols, rets = np.sqrt(np.diag(covs[k])), mus[k].copy()
            out = ctx.real(optimizers[k].sharpe_ratio, rets, vols, op['risk_free'])
            ctx.same(ctx.must(out, 'query-failed', 'sharpe ratio'), (rets - op['risk_free']) / vols, 'ratio-wrong', 'sharpe ratio')
            return
        solves().append([])
        try:
            with ctx.frame(op) as fr:
                out = call(optimizers[k], op)
        finally:
            said = solves().pop()
        what = f'{op["op"]} of optimiser {k}, shorts {op["short"]}, ' + ', '.join(f'{a} {op[a]}' for a in ('target', 'wealth', 'param', 'bounds', 'inc', 'lower', 'upper') if a in op)
        ctx.ev('query', k, op['op'], out.ok)
        if fr.fired:
            ctx.probe('failed optimisations')
            if len(mus[k]) > 1 or op['fault']['kind'] != 'gave-up':
                ctx.check(not out.ok, 'failure-swallowed', lambda: f'{what}: returned {out.value} although {op["fault"]["site"]} failed ({op["fault"]["kind"]})')
        elif op['op'] == 'frontier':
            want = targets(op)
            possible = all(feasible(k, t, op['short']) for t in want)
            if not possible:
                ctx.check(not out.ok, 'infeasible-accepted', lambda: f'{what}: returned {out.value} although some returns cannot be reached')
                ctx.probe('impossible frontiers')
            elif out.ok or all(said):
                value = ctx.must(out, 'query-failed', what)
                with ctx.reading(what):
                    returns, vols, weights = (np.array(v, dtype=float) for v in value)
                ctx.same(returns, np.array(want), 'frontier-wrong', f'{what}: target returns', 0, 1e-9)
                ctx.check(len(vols) == len(weights) == len(returns), 'frontier-wrong', lambda: f'{what}: {len(returns)} returns, {len(vols)} volatilities, {len(weights)} weights')
                for t, v, w in zip(returns, vols, weights):
                    check_minvar(k, w, t, op['short'], f'{what}: at return {t}')
                    ctx.same(float(v), float(np.sqrt(w @ covs[k] @ w)), 'frontier-wrong', f'{what}: volatility at return {t}')
                ctx.probe('frontiers checked')
        elif op['op'] == 'minvar' and not feasible(k, op['target'], op['short']):
            ctx.check(not out.ok, 'infeasible-accepted', lambda: f'{what}: returned {out.value} although no portfolio has that return')
            ctx.probe('impossible targets')
        elif out.ok or all(said):
            w = ctx.must(out, 'query-failed', what)
            with ctx.reading(what):
                w = np.array(w, dtype=float)
            if op['op'] == 'minvar':
                check_minvar(k, w, op['target'], op['short'], what)
            else:
                check_weights(k, w, op['short'], what)
                quad, lin = covs[k] * (op['param'] * op['wealth'] / 2), -mus[k]
                most = best(quad, lin, np.ones((1, len(mus[k]))), np.ones(1), op['short'])
                loss = float(w @ quad @ w + lin @ w)
                ctx.check(loss <= most + TOL, 'not-optimal', lambda: f'{what}: utility {-loss!r}, another portfolio has {-most!r}')
            key = (k, op['op'], op.get('target'), op.get('wealth'), op.get('param'), op['short'])
            if key not in done:
                mu, cov = inputs(k, False)
                with ctx.frame({}):
                    fresh = call(PortfolioOptimizer(mu, cov), op)
                done[key] = fresh.value.copy() if fresh.ok else None
            if done[key] is not None:
                ctx.same(w, done[key], 'depends-on-history', f'{what}: weights, compared with those of a new optimiser', 1e-9, 1e-9)
            with ctx.reading(what):
                if isinstance(out.value, np.ndarray) and out.value.flags.writeable:
                    out.value[:] = 7.0   # the caller's to change
            ctx.probe('portfolios checked')
            ctx.state('c23', len(w), op['op'], op['short'], [int(x > 1e-6) - int(x < -1e-6) for x in w])
        else:
            ctx.probe('solver gave up by itself')
        for j, (mu, cov) in enumerate(given):
            ctx.check(bool((mu == mus[j]).all() and (np.asarray(cov) == covs[j]).all()), 'inputs-changed', lambda: f'{what} changed the means or covariances of optimiser {j}')
            with ctx.reading('optimiser attributes'):
                ctx.check(bool((np.asarray(optimizers[j].mean_vector) == mus[j]).all() and (np.asarray(optimizers[j].covariance_matrix) == covs[j]).all()),
                          'inputs-changed', lambda: f'{what} changed the means or covariances optimiser {j} shows')

    def run_list(ops):
        for o in ops:
            run_op(o)

    ctx.run_inner = run_list
    for op in plan['ops']:
        if op['op'] == 'par':
            ctx.parallel(op, [lambda ops=t['ops']: run_list(ops) for t in op['tasks']])
            ctx.probe('parallel phases')
        else:
            run_op(op)
