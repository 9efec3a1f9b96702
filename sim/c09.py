"""C09: every view of a cashflow collection shows the same, latest cashflows."""
import math
from datetime import date, timedelta

from . import core, fi
from .core import canon, d2s, gen_par, history, pick_fault_kind, s2d, val

KEYS = ['SINGLE_PAYMENT', 'COUPON_PAYMENTS', 'FIXED_LEG', 'FLOATING_LEG', 'PROTECTION_LEG', 'PREMIUM_LEG', 'MARK_TO_MARKET']


def setup():
    pass


def generate(rng, tier):
    origin = date(rng.randrange(2015, 2030), rng.randrange(1, 13), rng.randrange(1, 29))
    span = rng.choice([3, 8, 40, 900]) if rng.random() < 0.97 else 9000

    def pay(none=0.15):
        return [d2s(origin + timedelta(rng.randrange(-span // 3, span))), None if rng.random() < none else rng.choice([0.0, val(rng.uniform(-50, 200), 4), val(rng.uniform(-50, 200), 4)])]

    def cf(n=None):
        return {'pays': [pay() for _ in range((rng.choice([0, 1, 2, 3, 5, 9]) if rng.random() < 0.95 else rng.choice([17, 40])) if n is None else n)], 'form': rng.choice(['list', 'tuple', 'gen', 'gen', 'split'])}

    def coll():
        k = rng.choice(['toy', 'toy', 'toy', 'zero', 'bond', 'swap'])
        if k == 'toy':
            n = rng.choice([0, 1, 2, 3, 4])
            return {'k': 'toy', 'keys': rng.sample(KEYS, n), 'cfs': [rng.choice([None, rng.randrange(6)]) if rng.random() < 0.3 else rng.randrange(6) for _ in range(n)],
                    'form': rng.choice(['list', 'tuple', 'gen'])}
        if k == 'zero':
            return {'k': 'zero', 'date': d2s(origin + timedelta(rng.randrange(1, span + 2)))}
        if k == 'bond':
            return {'k': 'bond', 'bond': fi.gen_bond(rng, origin)}
        return {'k': 'swap', 'purchase': d2s(origin)}

    def curve():
        k = rng.choice(['user', 'user', 'user', 'real'])
        s = {'k': k, 'ref': d2s(origin + timedelta(rng.choice([0, 0, 1, -span // 3, span // 2, rng.randrange(-span // 3, span)]))), 'r': val(rng.uniform(-0.02, 0.1), 4)}
        if k == 'real':
            s['ref'] = d2s(origin)
            s['mid'] = rng.randrange(1, span + 1)
        return s

    def any_op(depth):
        k = rng.choice(['add', 'add', 'add', 'add', 'assign', 'assign', 'assign', 'assign-slice', 'new', 'fix', 'slice', 'pv', 'pv', 'pv', 'coll-pv', 'read', 'bad', 'bad', 'grow-list', 'iterate'])
        op = {'op': k, 'f': rng.randrange(12), 'c': rng.randrange(6)}
        if k == 'add':
            op['pay'] = pay()
        if k in ('assign', 'assign-slice', 'read', 'bad'):
            op['key'] = rng.choice(KEYS)
            op['known'] = rng.random() < 0.6
        if k == 'assign':
            op['none'] = rng.random() < 0.08
        if k in ('slice', 'assign-slice'):
            op['s'] = [rng.choice([None, rng.randrange(-3, 5)]), rng.choice([None, rng.randrange(-3, 8)]), rng.choice([None, None, None, 2, -1])]
        if k == 'new':
            op['cf'] = cf()
            if op['cf']['form'] in ('gen', 'split'):
                if rng.random() < 0.3:
                    op['fault'] = {'site': 'iterable', 'at': rng.randrange(1, 5), 'kind': pick_fault_kind(rng)}
                elif depth < 1 and rng.random() < 0.3:
                    op['inner'] = {'site': 'iterable', 'at': rng.randrange(1, 4), 'ops': [any_op(depth + 1) for _ in range(rng.randrange(1, 3))]}
        if k == 'fix':
            op['i'] = rng.randrange(8)
            op['v'] = rng.choice([None, 0.0, val(rng.uniform(-50, 200), 4)])
        if k in ('pv', 'coll-pv'):
            op['curve'] = curve()
            op['via'] = rng.choice(['cashflow', 'cashflow', 'curve'])
            if rng.random() < 0.35 and op['curve']['k'] == 'user':
                op['fault'] = {'site': 'curve', 'at': rng.randrange(1, 6), 'kind': pick_fault_kind(rng)}
            elif rng.random() < 0.35 and depth < 1 and op['curve']['k'] == 'user':
                op['inner'] = {'site': 'curve', 'at': rng.randrange(1, 4), 'ops': [dict(any_op(depth + 1), busy=True) for _ in range(rng.randrange(1, 3))]}
        if k == 'bad':
            op['k'] = rng.choice(['add-text-date', 'add-number', 'add-none', 'unhashable', 'missing', 'index', 'lengths', 'new-mixed'])
            op['pay'] = pay()
        if k == 'grow-list':
            op['pay'] = pay()
        return op

    def shared_op():
        while True:
            op = any_op(1)
            if op['op'] in ('pv', 'coll-pv', 'read', 'iterate'):
                return op

    ops = []
    for _ in range(history(rng, 4, 20)):
        if rng.random() < 0.1:
            if rng.random() < 0.5:   # everybody reads the same cashflows and collections, nobody changes them
                few = [rng.randrange(12), rng.randrange(6)]
                ops.append(gen_par(rng, lambda: dict(shared_op(), f=few[0], c=few[1]), shared=True))
                continue
            ops.append(gen_par(rng, lambda: any_op(1)))
        else:
            ops.append(any_op(0))
    return {'origin': d2s(origin), 'span': span, 'cfs': [cf() for _ in range(rng.randrange(1, 5))], 'colls': [coll() for _ in range(rng.randrange(1, 4))], 'ops': ops}


def execute(ctx, plan):
    import pandas as pd
    from fixedIncome.src.assets import base_cashflow as bc
    from fixedIncome.src.assets.rates.linear_rates.interest_rate_swap import InterestRateSwapDirection, TermInterestRateSwap
    from fixedIncome.src.assets.base_cashflow import ZeroCoupon
    from fixedIncome.src.curves.base_curve import DiscountCurve, KnotValuePair
    from fixedIncome.src.curves.curve_enumerations import CurveIndex, InterpolationMethod
    from fixedIncome.src.scheduling_tools.schedule_enumerations import (BusinessDayAdjustment, DayCountConvention, PaymentFrequency,
                                                                       SettlementConvention)
    Payment, Cashflow, Key = bc.Payment, bc.Cashflow, bc.CashflowKeys
    origin = s2d(plan['origin'])

    class Toy(bc.CashflowCollection):
        def to_knot_value_pair(self):
            return KnotValuePair(origin, 1.0)

        def present_value(self, curve):
            return sum(cf.present_value(curve) for _, cf in self if cf is not None)

    cells = {}        # id(real payment) -> model cell
    real, model = [], []       # cashflows: model is a list of cells {'d','v','pinned'}
    lists = []                  # caller's own lists, one per cashflow (or None)
    colls, cmodel = [], []      # collections: model is a list of [key, index of cashflow or None]
    locks = {'owner': {}, 'shared': False}

    def cell(p):
        return {'d': s2d(p[0]), 'v': p[1], 'pinned': False}

    def gen_points(items):
        for x in items:
            ctx.point('iterable')
            yield x

    def build(s):
        """A new cashflow from a specification, or the Outcome of trying."""
        pays = [Payment(s2d(d), v) for d, v in s['pays']]
        kept = None
        if s['form'] == 'list':
            kept = pays
            out = ctx.real(Cashflow, pays)
        elif s['form'] == 'tuple':
            out = ctx.real(Cashflow, tuple(pays))
        elif s['form'] == 'gen':
            out = ctx.real(lambda: Cashflow(gen_points(pays)))
        else:
            dates, amounts = [s2d(d) for d, _ in s['pays']], [v for _, v in s['pays']]
            n = len(dates) % 3  # each of them a list or a generator
            out = ctx.real(lambda: Cashflow.create_from_date_and_float_iterables(dates if n == 1 else gen_points(dates), amounts if n == 0 else gen_points(amounts)))
        return out, kept

    def put(cf, cells_, kept=None):
        real.append(cf)
        model.append(cells_)
        lists.append(kept)
        return len(real) - 1

    def ordered(pays):
        return sorted([cell(p) for p in pays], key=lambda c: c['d'])

    def rows(i):
        return [(c['d'], c['v']) for c in model[i]]

    def near(a, b):
        if a is None or b is None:
            return a is None and b is None
        return a == b

    def check_cf(i, what):
        cf, want = real[i], rows(i)

        def bad(view, got):
            ctx.check(False, 'cashflow-view-wrong', f'{view} of cashflow {i} after {what}: got {canon(got)}, expected {canon(want)}')
        got = [(p.payment_date, p.payment) for p in cf]
        ctx.checks += 6
        if got != want:
            bad('iteration', got)
        if len(cf) != len(want):
            bad('length', len(cf))
        if list(cf.get_payment_dates()) != [d for d, _ in want]:
            bad('dates', list(cf.get_payment_dates()))
        if list(cf.get_payment_amounts()) != [v for _, v in want]:
            bad('amounts', list(cf.get_payment_amounts()))
        sched = [(p.payment_date, p.payment) for p in cf.schedule]
        if sched != want:
            bad('schedule', sched)
        for j in (0, -1, len(want) // 2):
            if want and (cf[j].payment_date, cf[j].payment) != want[j]:
                bad(f'[{j}]', [cf[j].payment_date, cf[j].payment])

    def check_tables(i, what):
        cf, want = real[i], rows(i)
        ser, df = cf.to_series(), cf.to_dataframe()

        def eq(vals):
            vals = list(vals)
            return len(vals) == len(want) and all((w is None and pd.isna(x)) or (w is not None and not pd.isna(x) and float(x) == float(w)) for x, (_, w) in zip(vals, want))
        ctx.check(list(ser.index) == [d for d, _ in want] and eq(ser.values), 'series-wrong', lambda: f'series of cashflow {i} after {what}: {list(ser.index)} {list(ser.values)}, expected {want}')
        ctx.check(list(df[df.columns[0]]) == [d for d, _ in want] and eq(df[df.columns[1]]), 'table-wrong', lambda: f'table of cashflow {i} after {what}: {df.values.tolist()}, expected {want}')

    def name(x):
        for i, r in enumerate(real):
            if r is x:
                return i
        return None if x is None else 'stranger'

    def check_coll(i, what):
        coll, want = colls[i], cmodel[i]

        def bad(view, got):
            ctx.check(False, 'collection-view-wrong', f'{view} of collection {i} after {what}: got {canon(got)}, expected {canon(want)}')
        ctx.checks += 5
        got = [[k.name, name(c)] for k, c in coll]
        if got != want:
            bad('iteration', got)
        if len(coll) != len(want):
            bad('length', len(coll))
        if [name(c) for c in coll.cashflow_list] != [c for _, c in want]:
            bad('listing', [name(c) for c in coll.cashflow_list])
        for k, c in want:
            if name(coll[Key[k]]) != c:
                bad(f'[{k}]', name(coll[Key[k]]))
        held = [k for k in KEYS if Key[k] in coll]
        if sorted(held) != sorted(k for k, _ in want):
            bad('membership', held)

    def check_all(what):
        for i in range(len(real)):
            with ctx.reading(f'cashflow {i} after {what}'):
                check_cf(i, what)
        for i in range(len(colls)):
            with ctx.reading(f'collection {i} after {what}'):
                check_coll(i, what)
        ctx.state('c09', [[len(m), len({c['d'] for c in m})] for m in model], [[k for k, _ in m] for m in cmodel])

    def make_curve(s):
        ref = s2d(s['ref'])
        if s['k'] == 'real':
            k0, k1, k2 = ref, ref + timedelta(s['mid']), ref + timedelta(plan['span'] + 5000)
            vals = [1.0, 0.97, 0.4]
            curve = DiscountCurve([KnotValuePair(a, b) for a, b in zip((k0, k1, k2), vals)], interpolation_method=InterpolationMethod.LINEAR, index=CurveIndex.NONE,
                                  interpolation_day_count_convention=DayCountConvention.ACTUAL_OVER_365, reference_date=ref)

            def value(d):
                n, m, last = (d - k0).days, (k1 - k0).days, (k2 - k0).days
                return 1 - 0.03 * n / m if n <= m else 0.97 - 0.57 * (n - m) / (last - m)
            return curve, value, k2

        class UserCurve:
            reference_date = ref

            def __call__(self, d, adjustment=None):
                ctx.point('curve')
                return math.exp(-s['r'] * (d - ref).days / 365)

            def present_value(self, cashflow):
                return cashflow.present_value(self)
        return UserCurve(), lambda d: math.exp(-s['r'] * (d - ref).days / 365), date.max

    def pv(cells_, value, ref, last):
        pays = [(c['d'], c['v']) for c in cells_ if c['v'] is not None and c['d'] >= ref]
        if any(d > last for d, _ in pays):
            return None
        return math.fsum(value(d) * v for d, v in pays)

    # ------------------------------------------------------------------------------------------
    for s in plan['cfs']:
        out, kept = build(s)
        put(ctx.must(out, 'build-failed', 'building a cashflow'), ordered(s['pays']), kept)
    n0 = len(real)

    def adopt(coll, cm):
        """A library-made collection: its own first cashflows join the pool as they are."""
        with ctx.reading('iterating a new collection'):
            items = list(coll)
        for key, cf in items:
            if cf is None:
                cm.append([key.name, None])
                continue
            cm.append([key.name, put(cf, [{'d': p.payment_date, 'v': p.payment, 'pinned': True} for p in cf])])
        colls.append(coll)
        cmodel.append(cm)

    for s in plan['colls']:
        if s['k'] == 'toy':
            ids = [None if c is None else c % n0 for c in s['cfs']]
            cfs, keys = [None if c is None else real[c] for c in ids], [Key[k] for k in s['keys']]
            conv = {'list': list, 'tuple': tuple, 'gen': iter}[s['form']]
            args = (conv(cfs), conv(keys))
            coll = ctx.must(ctx.real(Toy, *args), 'build-failed', 'building a collection')
            if s['form'] == 'list':     # the caller's lists are the caller's
                args[0].append(None)
                args[1].append(Key.SINGLE_PAYMENT)
            colls.append(coll)
            cmodel.append([[k, c] for k, c in zip(s['keys'], ids)])
        elif s['k'] == 'zero':
            adopt(ZeroCoupon(s2d(s['date']), 0.9), [])
        elif s['k'] == 'bond':
            adopt(fi.make_bond(s['bond']), [])
        else:
            adopt(TermInterestRateSwap(CurveIndex.LIBOR_3M, InterestRateSwapDirection.PAYER_FIXED, 0.03, 100, s2d(s['purchase']), SettlementConvention.T_PLUS_TWO_BUSINESS, '1Y',
                                       PaymentFrequency.QUARTERLY, PaymentFrequency.SEMI_ANNUAL, DayCountConvention.ACTUAL_OVER_360, DayCountConvention.ACTUAL_OVER_360,
                                       fi.real_calendar('NONE'), business_day_adjustment=BusinessDayAdjustment.FOLLOWING), [])
    check_all('building')

    held = []    # cashflows being valued or iterated: nested and concurrent operations leave their payments alone

    def run_op(op, tid=None):
        if 'ops' in op:
            raise core.HarnessBug('nested par')
        with ctx.frame(op):
            k = op['op']
            quiet = tid is not None
            # on threads every task has its own cashflows and collections to change
            own = [j for j in range(len(real)) if tid is None or locks['shared'] or locks['owner'].get(('f', j)) == tid]
            ownc = [j for j in range(len(colls)) if tid is None or locks['shared'] or locks['owner'].get(('c', j)) == tid]
            if not own and k not in ('new', 'read', 'assign', 'assign-slice'):
                return
            if k in ('assign', 'assign-slice', 'read', 'coll-pv') and not ownc:
                return
            f = own[op['f'] % len(own)] if own else None
            c = ownc[op['c'] % len(ownc)] if ownc else None

            def key():
                if op.get('known') and cmodel[c]:
                    return cmodel[c][KEYS.index(op['key']) % len(cmodel[c])][0]
                return op['key']
            if k == 'add':
                if f in held:
                    return
                p = Payment(s2d(op['pay'][0]), op['pay'][1])
                ctx.must(ctx.real(real[f].add_payment, p), 'add-failed', 'adding a payment')
                n = cell(op['pay'])
                at = next((j for j, x in enumerate(model[f]) if x['d'] > n['d']), len(model[f]))
                model[f].insert(at, n)
            elif k == 'new':
                out, kept = build(op['cf'])
                if not out.ok:
                    ctx.check(core.is_injected(out.exc), 'build-failed', lambda: f'building a cashflow raised {out.exc!r}')
                else:
                    j = put(out.value, ordered(op['cf']['pays']), kept)
                    if tid is not None:
                        locks['owner'][('f', j)] = tid
            elif k in ('slice', 'assign-slice'):
                if f is None:
                    return
                sl = slice(*op['s'])
                want = model[f][sl]
                part = ctx.must(ctx.real(lambda: real[f][sl]), 'slice-failed', 'slicing')
                ctx.check(isinstance(part, Cashflow), 'slice-wrong', 'a slice of a cashflow is no cashflow')
                for x in want:
                    x['pinned'] = True
                j = put(part, sorted(want, key=lambda x: x['d']))
                if tid is not None:
                    locks['owner'][('f', j)] = tid
                if k == 'assign-slice':
                    assign(c, key(), j)
            elif k == 'assign':
                assign(c, key(), None if op['none'] or f is None else f)
            elif k == 'fix':
                if f in held or not model[f]:
                    return
                x = model[f][op['i'] % len(model[f])]
                if x['pinned']:
                    return
                real[f][op['i'] % len(model[f])].payment = op['v']
                x['v'] = op['v']
            elif k == 'grow-list':
                if lists[f] is None:
                    return
                lists[f].append(Payment(s2d(op['pay'][0]), op['pay'][1]))
            elif k in ('pv', 'coll-pv'):
                value_op(op, f, c)
            elif k == 'read':
                kk = key()
                out = ctx.real(lambda: colls[c][Key[kk]])
                mine = [x for n, x in cmodel[c] if n == kk]
                if mine:
                    got = name(ctx.must(out, 'lookup-failed', f'looking up {kk}'))
                    ctx.check(got == mine[0], 'lookup-wrong', lambda: f'collection {c}[{kk}] is {got}, expected {mine[0]}')
                else:
                    ctx.check(not out.ok, 'lookup-wrong', lambda: f'collection {c} has no {kk} but gives {name(out.value)}')
            elif k == 'iterate':
                its = [iter(real[f]), iter(real[f])]
                got = [[], []]
                for j in range(2 * len(model[f])):
                    p = next(its[j % 2 if j % 3 else 0], None)
                    if p is not None:
                        got[j % 2 if j % 3 else 0].append((p.payment_date, p.payment))
                got[0] += [(p.payment_date, p.payment) for p in its[0]]
                got[1] += [(p.payment_date, p.payment) for p in its[1]]
                ctx.check(got[0] == rows(f) and got[1] == rows(f), 'iteration-wrong', lambda: f'interleaved loops over cashflow {f} saw {got}, expected {rows(f)}')
                check_tables(f, 'iteration')
            elif k == 'bad':
                bad_op(op, f, c)
            ctx.ev(k, f if f is not None else '-', c if c is not None else '-')
            if not quiet:
                check_all(k)
            else:
                for j in own:
                    check_cf(j, k)
                for j in ownc:
                    check_coll(j, k)

    def assign(c, kk, j):
        if kk == 'SINGLE_PAYMENT' and plan['colls'][c]['k'] == 'zero' and j is None:
            return
        out = ctx.real(colls[c].__setitem__, Key[kk], None if j is None else real[j])
        ctx.must(out, 'assign-failed', f'assigning {kk}')
        for row in cmodel[c]:
            if row[0] == kk:
                row[1] = j
                return
        cmodel[c].append([kk, j])

    def value_op(op, f, c):
        curve, value, last = make_curve(op['curve'])
        ref = curve.reference_date
        if op['op'] == 'pv':
            want = pv(model[f], value, ref, last)
            mine = [f]
            call = (lambda: real[f].present_value(curve)) if op['via'] == 'cashflow' else (lambda: curve.present_value(real[f]))
        else:
            kind = plan['colls'][c]['k']
            if kind not in ('toy', 'zero'):
                return
            mine = [j for n, j in cmodel[c] if j is not None and (kind == 'toy' or n == 'SINGLE_PAYMENT')]
            parts = [pv(model[j], value, ref, last) for j in mine]
            want = None if None in parts else math.fsum(parts)
            call = lambda: colls[c].present_value(curve)  # noqa: E731
        if want is None:
            return
        held.extend(mine)
        heldc.append(c)
        try:
            out = ctx.real(call)
        finally:
            for j in mine:
                held.remove(j)
            heldc.remove(c)
        if not out.ok:
            ctx.check(core.is_injected(out.exc), 'value-failed', lambda: f'present value raised {out.exc!r}')
            return
        ctx.same(core.scalar(out.value), want, 'value-wrong', f'present value of {op["op"]} {f if op["op"] == "pv" else c}', 1e-9, 1e-9)

    heldc = []

    def bad_op(op, f, c):
        kind = op['k']
        if kind == 'add-text-date':
            if not model[f] or f in held:
                return
            out = ctx.real(real[f].add_payment, Payment('2020-01-01', 5.0))
        elif kind == 'add-number':
            out = ctx.real(real[f].add_payment, 5.0)
        elif kind == 'add-none':
            out = ctx.real(real[f].add_payment, None)
        elif kind == 'unhashable':
            if c is None:
                return
            out = ctx.real(colls[c].__setitem__, ['SINGLE_PAYMENT'], real[f])
        elif kind == 'missing':
            if c is None or any(n == op['key'] for n, _ in cmodel[c]):
                return
            out = ctx.real(lambda: colls[c][Key[op['key']]])
        elif kind == 'index':
            out = ctx.real(lambda: real[f][len(model[f]) + 1])
        elif kind == 'lengths':
            n = op['f'] % 4  # too few dates or too few amounts, as lists or generators
            few, many = [origin], [1.0, 2.0]
            if n % 2:
                few, many = [origin, origin + timedelta(1), origin], [1.0, 2.0]
            out = ctx.real(lambda: Cashflow.create_from_date_and_float_iterables(few, many if n < 2 else iter(many)))
        else:
            out = ctx.real(Cashflow, [Payment(origin, 1.0), 7])
        ctx.check(not out.ok, 'invalid-accepted', lambda: f'{kind} was accepted')
        ctx.faults[f'input:{kind}'] += 1

    def run_list(ops):
        for op in ops:
            if heldc and op['op'] in ('assign', 'assign-slice'):
                continue
            run_op(op, getattr(tls, 'tid', None))

    import threading
    tls = threading.local()

    ctx.run_inner = run_list
    for op in plan['ops']:
        if op['op'] != 'par':
            run_op(op)
            continue
        nt = len(op['tasks'])
        # whole connected components of shared cashflows go to one task
        owner = {}
        comp = list(range(len(real)))
        for cm in cmodel:
            ids = [j for _, j in cm if j is not None]
            for j in ids[1:]:
                a, b = comp[ids[0]], comp[j]
                comp = [a if x == b else x for x in comp]
        for j in range(len(real)):
            owner[('f', j)] = comp[j] % nt
        for i, cm in enumerate(cmodel):
            ids = [j for _, j in cm if j is not None]
            owner[('c', i)] = comp[ids[0]] % nt if ids else i % nt
        locks['owner'] = owner

        def task(t, spec):
            def body():
                tls.tid = t
                for o in spec['ops']:
                    run_op(o, t)
            return body
        locks['shared'] = op.get('shared', False)
        ctx.parallel(op, [task(t, s) for t, s in enumerate(op['tasks'])])
        locks['owner'] = {}
        locks['shared'] = False
        check_all('threads')
    for i in range(len(real)):
        with ctx.reading(f'tables of cashflow {i}'):
            check_tables(i, 'everything')
