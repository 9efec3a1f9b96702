"""C04: a curve's knots and its interpolator always agree; resets are all-or-nothing."""
import math
from datetime import date, datetime, timedelta

import numpy as np
import scipy.interpolate

from . import core, procs, ref
from .core import canon, d2s, gen_sched, history, pick_fault_kind, s2d, scalar, val

HASH_INDEPENDENT = 0
_ctx = [None]
METHODS = ['LINEAR', 'LINEAR', 'LINEAR', 'PREVIOUS', 'QUADRATIC_SPLINE', 'CUBIC_SPLINE']
MIN_KNOTS = {'LINEAR': 2, 'PREVIOUS': 2, 'QUADRATIC_SPLINE': 4, 'CUBIC_SPLINE': 5}
REAL_INTERP1D = scipy.interpolate.interp1d


def setup():
    def wrapper(original):
        def interp1d(*args, **kwargs):
            if _ctx[0] is not None:
                _ctx[0].point('interp1d')
            return original(*args, **kwargs)
        return interp1d
    core.patch_everywhere(scipy.interpolate, 'interp1d', wrapper)


def gen_knots(rng, spec, n=None):
    """Distinct knot offsets in days (or seconds for datetime curves) from the reference date, unordered."""
    n = n or max(MIN_KNOTS[spec['method']], rng.choice([2, 3, 3, 4, 5, 7]) if rng.random() < 0.95 else rng.choice([12, 18, 40]))
    span = rng.choice([20, 400, 4000]) if n < 15 else 4000
    lo = 0 if rng.random() < 0.4 else 1
    offs = set()
    while len(offs) < n:
        offs.add(rng.randrange(lo, span))
    offs = list(offs)
    rng.shuffle(offs)
    unit = 86400 if spec['type'] == 'date' else rng.choice([86400, 3600, 60])
    vals = [val(rng.uniform(-0.5, 1.5), 4) for _ in offs]
    k = rng.random()
    if k < 0.05:
        vals = [vals[0]] * n
    elif k < 0.12:
        vals = [vals[0] + (v - 0.5) * 1e-4 for v in vals]
    elif k < 0.2:  # equal ends
        vals[offs.index(max(offs))] = vals[offs.index(min(offs))]
    elif k < 0.25:
        vals = [v * 1e-4 for v in vals]
    return [[o * unit, v] for o, v in zip(offs, vals)]


def gen_form(rng):
    return rng.choice(['list', 'list', 'tuple', 'gen', 'iter'])


def gen_curve(rng, kind=None):
    spec = {'cls': rng.choice(['Curve', 'Curve', 'DiscountCurve']), 'method': rng.choice(METHODS),
            'type': kind or rng.choice(['date', 'date', 'date', 'datetime']), 'dcc': rng.choice(procs.DCCS),
            'left': rng.choice(['ERROR', 'CONSTANT', 'CONSTANT']), 'right': rng.choice(['ERROR', 'CONSTANT', 'CONSTANT']),
            'origin': d2s(date(rng.randrange(2015, 2027), rng.randrange(1, 13), rng.randrange(1, 29))),
            'explicit_ref': rng.random() < 0.7, 'form': gen_form(rng)}
    spec['knots'] = gen_knots(rng, spec)
    return spec


def gen_adj(rng):
    return rng.choice([None, None, ['const', val(rng.uniform(-0.05, 0.05), 5)], ['slope', val(rng.uniform(-0.01, 0.01), 5)],
                       ['wave', round(rng.uniform(0.001, 0.02), 5)], ['int', rng.choice([0, 1, -1])]])


def generate(rng, tier):
    specs = [gen_curve(rng) for _ in range(rng.choice([1, 1, 2, 2, 3]))]

    def points():
        out = []
        for _ in range(rng.randrange(1, 5)):
            out.append([rng.choice(['knot', 'knot', 'between', 'between', 'before', 'after', 'first', 'last', 'day-off']), round(rng.random(), 5),
                        round(rng.uniform(0.02, 0.98), 3)])
        return out

    def any_op(c, depth):
        s = specs[c]
        r = rng.random()
        if r < 0.45:
            op = {'op': 'eval', 'c': c, 'at': points(), 'adj': gen_adj(rng), 'via': rng.choice(['call', 'interpolate'])}
            sites = ['adjustment'] if op['adj'] else []
        elif r < 0.68:
            op = {'op': 'reset', 'c': c, 'knots': gen_knots(rng, s), 'form': gen_form(rng)}
            if rng.random() < 0.35:
                op['bad'] = rng.choice(['empty', 'one', 'text', 'none', 'mixed', 'object', 'iterable'])
            sites = ['interp1d', 'iterable']
        elif r < 0.9:
            op = {'op': 'reset1', 'c': c, 'k': round(rng.random(), 4), 'neg': rng.random() < 0.15, 'val': val(rng.uniform(-0.5, 1.5), 4),
                  'move': rng.choice([None, None, None, ['near', round(rng.random(), 3)], ['far', round(rng.random(), 3)]])}
            if rng.random() < 0.3:
                op['bad'] = rng.choice(['index', 'text', 'none', 'mixed', 'object'])
            sites = ['interp1d']
        elif r < 0.95:
            return {'op': 'mutate-input', 'c': c}
        else:
            return {'op': 'rebuild', 'c': c, 'form': gen_form(rng), 'spec': gen_curve(rng, s['type'])}
        if sites:
            r = rng.random()
            site = rng.choice(sites)
            if r < 0.28:
                op['fault'] = {'site': site, 'at': rng.choice([1, 1, 1, 2, 3]), 'kind': pick_fault_kind(rng)}
            elif r < 0.5 and depth < 1 and site != 'interp1d':
                inner = [any_op(rng.choice([c] + list(range(len(specs)))), depth + 1) for _ in range(rng.randrange(1, 3))]
                if op['op'] != 'eval':  # no reset of a curve inside a reset of the same curve
                    inner = [q for q in inner if q['c'] != c or q['op'] == 'eval']
                inner = [q for q in inner if q['op'] != 'rebuild']
                if inner:
                    op['inner'] = {'site': site, 'at': rng.choice([1, 1, 2, 3]), 'ops': inner}
        return op

    ops = []
    for _ in range(history(rng, 5, 16)):
        if rng.random() < 0.14:
            if rng.random() < 0.5 or len(specs) == 1:
                c = rng.randrange(len(specs))
                tasks = [{'ops': [{'op': 'eval', 'c': c, 'at': points(), 'adj': gen_adj(rng), 'via': 'call'} for _ in range(rng.randrange(1, 3))]}
                         for _ in range(rng.choice([2, 3]))]
            else:
                tasks = [{'ops': [q for q in (any_op(c, 1) for _ in range(rng.randrange(1, 4))) if q['op'] not in ('rebuild', 'mutate-input')]}
                         for c in range(len(specs))]
            ops.append({'op': 'par', 'tasks': tasks, 'sched': gen_sched(rng)})
        else:
            ops.append(any_op(rng.randrange(len(specs)), 0))
    return {'specs': specs, 'ops': ops}


class Model:
    """One curve: its knots in date order."""

    def __init__(self, spec):
        self.spec = spec
        o = s2d(spec['origin'])
        self.origin = o if spec['type'] == 'date' else datetime(o.year, o.month, o.day, 8, 30)
        self.knots = self.resolve(spec['knots'])
        self.reference = self.origin if spec['explicit_ref'] else self.knots[0][0]

    def resolve(self, knots):
        out = sorted((self.origin + timedelta(seconds=s), v) for s, v in knots)
        return out

    def x(self, d):
        return ref.accrual(self.reference, d, self.spec['dcc'])

    def value(self, d, knots=None):
        """The curve at d without adjustment, or None where it must raise."""
        k = knots or self.knots
        if d < k[0][0]:
            return k[0][1] if self.spec['left'] == 'CONSTANT' else None
        if d > k[-1][0]:
            return k[-1][1] if self.spec['right'] == 'CONSTANT' else None
        for dd, v in k:
            if dd == d:
                return v
        xs, ys = [self.x(dd) for dd, _ in k], [v for _, v in k]
        x = self.x(d)
        m = self.spec['method']
        j = max(i for i in range(len(k)) if k[i][0] < d)
        if m == 'LINEAR':
            w = (x - xs[j]) / (xs[j + 1] - xs[j])
            return ys[j] * (1 - w) + ys[j + 1] * w
        if m == 'PREVIOUS':
            return ys[j]
        return float(REAL_INTERP1D(xs, ys, kind={'QUADRATIC_SPLINE': 'quadratic', 'CUBIC_SPLINE': 'cubic'}[m])(x))


def adj_fn(adj, origin):
    if adj is None:
        return lambda d: 0.0
    k, v = adj
    if k in ('const', 'int'):
        return lambda d: v
    days = lambda d: (d - origin).total_seconds() / 86400
    if k == 'slope':
        return lambda d: v * days(d) / 365
    return lambda d: v * math.sin(days(d) / 11)


def execute(ctx, plan):
    from fixedIncome.src.curves.base_curve import Curve, DiscountCurve, KnotValuePair
    from fixedIncome.src.curves.curve_enumerations import CurveIndex, EndBehavior, InterpolationMethod
    from fixedIncome.src.scheduling_tools.schedule_enumerations import DayCountConvention
    curves, models, inputs = {}, {}, {}
    dead = set()
    _ctx[0] = ctx

    def shape(pairs, form, given=None):
        """The caller's iterable of knots; 'iterable' is crossed at every element a lazy one yields."""
        def lazily():
            for p in pairs:
                ctx.point('iterable')
                yield p
        if form == 'list':
            return list(pairs)
        if form == 'tuple':
            return tuple(pairs)
        if form == 'iter':
            return iter(list(pairs))
        return lazily()

    def build(c, spec):
        m = Model(spec)
        order = [(m.origin + timedelta(seconds=s), v) for s, v in spec['knots']]
        given = shape([KnotValuePair(knot=d, value=v) for d, v in order], spec['form'])
        kw = dict(interpolation_values=given, interpolation_method=InterpolationMethod[spec['method']],
                  interpolation_day_count_convention=DayCountConvention[spec['dcc']],
                  reference_date=m.origin if spec['explicit_ref'] else None,
                  left_end_behavior=EndBehavior[spec['left']], right_end_behavior=EndBehavior[spec['right']])
        out = ctx.real(Curve, **kw) if spec['cls'] == 'Curve' else ctx.real(DiscountCurve, index=CurveIndex.SOFR, **kw)
        ctx.ev('build', c, out)
        ctx.must(out, 'construction-failed', str(spec['cls']))
        curves[c], models[c], inputs[c] = out.value, m, given
        dead.discard(c)

    def point(m, at):
        kind, u, w = at
        k = m.knots
        one = timedelta(days=1) if m.spec['type'] == 'date' else timedelta(seconds=1)
        if kind == 'first':
            return k[0][0]
        if kind == 'last':
            return k[-1][0]
        if kind == 'before':
            return k[0][0] - one * (1 + int(u * 800))
        if kind == 'after':
            return k[-1][0] + one * (1 + int(u * 800))
        j = min(int(u * len(k)), len(k) - 1)
        if kind == 'knot':
            return k[j][0]
        if kind == 'day-off':
            return k[j][0] + (one if w < 0.5 else -one)
        j = min(j, len(k) - 2)
        gap = k[j + 1][0] - k[j][0]
        return k[j][0] + one * int(gap / one * w)

    def compare(c, m, d, out, allowed, adj, what):
        """allowed: the values (without adjustment) the curve may have had during the call; None means it raises."""
        if allowed == [None]:
            ctx.check(not out.ok, 'no-end-error', lambda: f'curve {c} at {d}, outside {m.knots[0][0]}..{m.knots[-1][0]}, gave {canon(out.value)} ({what})')
            return
        if not out.ok and None in allowed:
            return
        ctx.must(out, 'evaluation-failed', f'curve {c} at {d} ({what})')
        want = [v + adj(d) for v in allowed if v is not None]
        got = out.value
        ctx.check(np.asarray(got).size == 1 and any(core.close(scalar(got), v, 1e-9, 1e-10) for v in want), 'wrong-value',
                  lambda: f'curve {c} ({m.spec["method"]}) at {d} ({what}): got {canon(got)}, expected {want}')

    def verify(c, what):
        if c in dead:
            return
        m, o = models[c], curves[c]
        kv = list(o.interpolation_values)
        ctx.check(len(kv) == len(m.knots) and all(a[0] == b[0] and core.close(a[1], b[1]) for a, b in zip(kv, m.knots)), 'knots-differ',
                  lambda: f'curve {c} holds knots {canon([tuple(k) for k in kv])}, expected {canon(m.knots)} ({what})')
        for d, v in m.knots:
            compare(c, m, d, ctx.real(o, d), [m.value(d)], lambda _: 0.0, f'knot, after {what}')
        for at in (['between', 0.0, 0.5], ['between', 0.99, 0.3], ['before', 0.1, 0], ['after', 0.1, 0]):
            d = point(m, at)
            if m.spec['left'] == 'ERROR' and d < m.reference:
                continue
            compare(c, m, d, ctx.real(o, d), [m.value(d)], lambda _: 0.0, f'{at[0]}, after {what}')

    def verify_all(what):
        if core._active_sched is None:
            for c in sorted(curves):
                if c not in busy:
                    verify(c, what)

    busy = []
    changes = {}  # curve -> number of accepted changes

    def one(op):
        if op['op'] == 'par':
            ctx.parallel(op, [lambda ops=t['ops']: run(ops) for t in op['tasks']])
            ctx.probe('parallel phases')
            verify_all('the threads ended')
            return
        c = op['c']
        if op['op'] == 'rebuild':
            spec = dict(op['spec'], form=op['form'])
            with ctx.frame(op):
                build(c, spec)
            verify_all('building a curve')
            return
        if c in dead:
            return
        m, o = models[c], curves[c]
        if op['op'] == 'mutate-input':
            if isinstance(inputs[c], list):
                inputs[c].reverse()
                inputs[c].append(KnotValuePair(knot=m.origin, value=9.0))
                del inputs[c][0]
                ctx.probe('caller lists changed')
            verify_all("changing the caller's list")
            return
        if op['op'] == 'eval':
            f = adj_fn(op['adj'], m.origin)
            asked = []

            def adjustment(d):
                asked.append(d)
                ctx.point('adjustment')
                return f(d)
            ds = [point(m, at) for at in op['at']]
            with ctx.frame(op) as fr:
                for d in ds:
                    asked.clear()
                    allowed = [m.value(d)]
                    was_fired = fr.fired
                    n = changes.get(c, 0)
                    fn = o if op['via'] == 'call' else o.interpolate
                    out = ctx.real(fn, d) if op['adj'] is None else ctx.real(fn, d, adjustment)
                    ctx.ev('eval', c, d, out)
                    if c in dead:
                        return
                    mixed = changes.get(c, 0) != n  # replaced while it was being evaluated
                    if mixed:
                        ctx.probe('curves replaced during their evaluation')
                    ctx.check(all(a == d for a in asked), 'adjustment-date-wrong',
                              lambda: f'curve {c} evaluated at {d} asked its adjustment for {asked}')
                    if fr.fired and not was_fired:
                        ctx.check(not out.ok, 'failure-swallowed', f'curve {c} at {d} returned although its adjustment failed')
                        ctx.probe('failed adjustments')
                        continue
                    if mixed:  # what such an evaluation gives depends on the order of its parts: only what follows is judged
                        verify_all('replacing a curve during its evaluation')
                        continue
                    compare(c, m, d, out, allowed, f, 'eval')
            if fr.fired:
                verify_all('a failed adjustment')
            return
        # resets
        if op['op'] == 'reset':
            new = m.resolve([k for k in op['knots'] if m.origin + timedelta(seconds=k[0]) >= m.reference])
            if len(new) < MIN_KNOTS[m.spec['method']]:
                return
            by_order = [d for d in ((m.origin + timedelta(seconds=s), v) for s, v in op['knots']) if d in new]
            given = [KnotValuePair(knot=d, value=v) for d, v in by_order]
            bad = op.get('bad')
            j = len(given) // 2
            if bad == 'empty':
                given = []
            elif bad == 'one' and m.spec['method'] in ('QUADRATIC_SPLINE', 'CUBIC_SPLINE'):
                given = given[:1]
            elif bad == 'one':
                bad = None
            elif bad == 'text':
                given[j] = KnotValuePair(knot=given[j].knot, value='n/a')
            elif bad == 'none':
                given[j] = KnotValuePair(knot=None, value=1.0)
            elif bad == 'mixed':
                d = given[j].knot
                given[j] = KnotValuePair(knot=datetime(d.year, d.month, d.day) if m.spec['type'] == 'date' else d.date(), value=1.0)
            elif bad == 'object':
                given[j] = KnotValuePair(knot=given[j].knot, value={})
            if bad == 'iterable':
                def broken(given=given):
                    yield from given[:max(1, len(given) - 1)]
                    raise RuntimeError('the caller\'s iterable failed')
                arg = broken()
            else:
                arg = shape(given, op['form'])
            call = lambda: o.reset_interpolation_values(arg)
        else:
            k = m.knots
            j = min(int(op['k'] * len(k)), len(k) - 1)
            d = k[j][0]
            one_ = timedelta(days=1) if m.spec['type'] == 'date' else timedelta(seconds=1)
            if op['move']:
                lo = k[j - 1][0] if j else m.reference
                hi = k[j + 1][0] if j + 1 < len(k) else k[j][0] + one_ * 500
                if op['move'][0] == 'far':
                    lo, hi = m.reference, k[-1][0] + one_ * 500
                nd = lo + one_ * int((hi - lo) / one_ * op['move'][1])
                if nd >= m.reference and nd not in [x[0] for x in k]:
                    d = nd
            new = sorted(k[:j] + [(d, op['val'])] + k[j + 1:])
            pair = KnotValuePair(knot=d, value=op['val'])
            idx = j - len(k) if op['neg'] else j
            bad = op.get('bad')
            if bad == 'index':
                idx = len(k) + 3
            elif bad == 'text':
                pair = KnotValuePair(knot=d, value='n/a')
            elif bad == 'none':
                pair = KnotValuePair(knot=None, value=1.0)
            elif bad == 'mixed':
                pair = KnotValuePair(knot=datetime(d.year, d.month, d.day) if m.spec['type'] == 'date' else d.date(), value=1.0)
            elif bad == 'object':
                pair = KnotValuePair(knot=d, value={})
            call = lambda: o.reset_interpolation_value(pair, idx)
        busy.append(c)
        try:
            with ctx.frame(op) as fr:
                out = ctx.real(call)
        finally:
            busy.remove(c)
        ctx.ev(op['op'], c, bad or '', out)
        if op['op'] == 'reset1' and isinstance(out.exc, TypeError) and not bad and not fr.fired:
            ctx.fail('reset-failed', f'resetting knot {j} of curve {c}: {out.exc}')
        if bad and out.ok:
            # accepted where the code at hand rejects it: what the curve is now is not specified
            dead.add(c)
            ctx.probe('odd resets accepted')
            return
        if fr.fired:
            ctx.check(not out.ok, 'failure-swallowed', f'{op["op"]} of curve {c} returned although the interpolation could not be built')
        if not out.ok:
            ctx.check(bool(bad) or fr.fired, 'reset-failed', lambda: f'{op["op"]} of curve {c} raised {type(out.exc).__name__}: {out.exc}')
            ctx.probe('failed resets')
            what = f'a failed {op["op"]}'
        else:
            m.knots = new
            changes[c] = changes.get(c, 0) + 1
            if op['op'] == 'reset' and op['form'] == 'list' and not bad:
                inputs[c] = arg
            ctx.probe('resets')
            what = op['op']
        if core._active_sched is None:
            verify_all(what)
        else:
            verify(c, what)

    def run(ops):
        for op in ops:
            one(op)

    ctx.run_inner = run
    for c, spec in enumerate(plan['specs']):
        build(c, spec)
    verify_all('construction')
    for op in plan['ops']:
        one(op)
    verify_all('the whole history')
    for c in sorted(curves):
        ctx.state(c in dead, len(models[c].knots), models[c].spec['method'])
