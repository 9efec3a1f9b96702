"""C16: loan servicing conserves principal under any prepayment history."""
from datetime import date, timedelta

from dateutil.relativedelta import relativedelta

from . import core, ref
from .core import canon, d2s, gen_par, history, pick_fault_kind, s2d, val

PER_YEAR = {'MONTHLY': 12, 'QUARTERLY': 4, 'SEMI_ANNUAL': 2, 'ANNUAL': 1}
DCCS = ['THIRTY_OVER_THREESIXTY', 'THIRTY_OVER_THREESIXTY', 'ACTUAL_OVER_360', 'ACTUAL_OVER_365', 'ACTUAL_OVER_ACTUAL', 'ACTUAL_OVER_365_POINT_25']


def setup():
    pass


def generate(rng, tier):
    threads = rng.random() < 0.25

    def loan():
        freq = rng.choice(['MONTHLY', 'MONTHLY', 'QUARTERLY', 'SEMI_ANNUAL', 'ANNUAL'])
        months = 12 // PER_YEAR[freq] * rng.choice([1, 2, 3, 4, 12] + ([36, 120] + [360] * (rng.random() < 0.2) if freq == 'MONTHLY' and not threads else []))
        return {'principal': rng.choice([1, 100, 1000.0, 250_000, 558_750.0]), 'rate': rng.choice([0.06125, 0.0, val(rng.uniform(0.001, 0.3), 4), 0.9]),
                'start': d2s(date(rng.randrange(2015, 2030), rng.randrange(1, 13), rng.randrange(1, 29))),
                'months': months, 'days': rng.choice([None, None, None, rng.randrange(20, 2000)]), 'dcc': rng.choice(DCCS), 'freq': freq,
                'time': rng.choice(['START_OF_MONTH', 'START_OF_MONTH', 'END_OF_MONTH'])}
    loans = [loan() for _ in range(rng.choice([1, 1, 2, 3]))]

    def any_op(depth):
        i = rng.randrange(len(loans))
        s = loans[i]
        per = max(1, s['months'] * PER_YEAR[s['freq']] // 12)
        op = {'op': 'schedule', 'l': i, 'pay': rng.choice(['level', 'level', 'share', 'share', 'huge', 'small', 'exact', 'int']), 'u': round(rng.uniform(0.2, 3), 3)}
        k = rng.choice(['none', 'none', 'scalar', 'list', 'list', 'gen', 'gen', 'tuple', 'huge', 'text'])
        p = s['principal']
        n = rng.choice([0, 1, per, max(0, per - 1), per + 1, per + 3, rng.randrange(1, per + 2)])
        extras = [rng.choice([0.0, 0, round(p * rng.uniform(0, 0.2), 2), round(p * rng.uniform(0, 0.02), 2)]) for _ in range(n)]
        if extras and rng.random() < 0.3:
            extras[rng.randrange(n)] = round(p * rng.uniform(0.5, 2), 2)
        if rng.random() < 0.2:
            extras += [p * 10.0] * 3
        if rng.random() < 0.15:
            op['anew'] = True       # asked of a loan just made
        op['extra'] = {'k': k, 'v': round(p * rng.uniform(0, 0.1), 2), 'l': extras}
        if k == 'gen':
            if rng.random() < 0.3:
                op['fault'] = {'site': 'extras', 'at': rng.randrange(1, 6), 'kind': pick_fault_kind(rng)}
            elif depth < 1 and rng.random() < 0.5:
                op['inner'] = {'site': 'extras', 'at': rng.randrange(1, 4), 'ops': [any_op(depth + 1) for _ in range(rng.randrange(1, 3))]}
        return op
    ops = []
    for _ in range(history(rng, 2, 10)):
        if threads and rng.random() < 0.3:
            ops.append(gen_par(rng, lambda: any_op(1), 2, (2,)))
        else:
            ops.append(any_op(0))
    return {'loans': loans, 'ops': ops}


def execute(ctx, plan):
    from fixedIncome.src.assets.credit.loan import Loan
    from fixedIncome.src.scheduling_tools.schedule_enumerations import DayCountConvention, PaymentFrequency, PaymentTime

    def make(s):
        term = relativedelta(months=s['months']) if s['days'] is None else timedelta(s['days'])
        return Loan(principal=s['principal'], interest_rate=s['rate'], origination_date=s2d(s['start']), term_length=term,
                    day_count_convention=DayCountConvention[s['dcc']], payment_frequency=PaymentFrequency[s['freq']], payment_time=PaymentTime[s['time']])
    real = [make(s) for s in plan['loans']]

    def dates(s):
        """First accrual date, and per payment the (year, month) it falls in."""
        o = s2d(s['start'])
        if s['time'] == 'START_OF_MONTH':
            first = (o.replace(day=1) + timedelta(32)).replace(day=1)
        else:
            first = (o.replace(day=1) + timedelta(32)).replace(day=1) - timedelta(1)
        end = first + (relativedelta(months=s['months']) if s['days'] is None else timedelta(s['days']))
        return first, end, 12 // PER_YEAR[s['freq']]

    def level(s):
        """The payment that amortises over the term at the nominal periodic rate."""
        o, f, r = s2d(s['start']), PER_YEAR[s['freq']], s['rate']
        end = o + (relativedelta(months=s['months']) if s['days'] is None else timedelta(s['days']))
        n = ref.accrual(o, end, s['dcc']) * f
        if r == 0 or n <= 0:
            return None
        return s['principal'] * (r / f) / (1 - (1 + r / f) ** -n)

    def run_op(op):
        i = op['l']
        s, loan = plan['loans'][i], real[i]
        if op.get('anew'):
            loan = ctx.must(ctx.real(make, s), 'construction-failed', f'loan {i}')
        first, end, step = dates(s)
        months = (end.year - first.year) * 12 + end.month - first.month
        per = max(1, months // step)
        p = s['principal']
        lvl = level(s)
        if op['pay'] == 'level' and lvl is not None:
            pay = core.scalar(ctx.must(ctx.real(loan.calculate_fixed_payment_amount), 'level-failed', 'the level payment'))
            ctx.same(pay, lvl, 'level-wrong', f'level payment of loan {i}', 1e-9, 1e-9)
        else:
            pay = {'level': p / per, 'share': op['u'] * p / per, 'huge': 3 * p, 'small': p * s['rate'] * 0.01, 'exact': p + 0.0, 'int': int(op['u'] * p) + 1}[op['pay']]
        e = op['extra']
        if e['k'] == 'none':
            arg, extras = None, []
        elif e['k'] == 'scalar':
            arg, extras = e['v'], [e['v']] * 1000
        elif e['k'] == 'huge':
            arg, extras = 10 * p, [10 * p] * 1000
        elif e['k'] == 'text':
            arg, extras = ['lots'] + e['l'], None
        else:
            extras = e['l']
            arg = list(extras) if e['k'] == 'list' else tuple(extras) if e['k'] == 'tuple' else points(extras)
        before = canon(arg) if e['k'] in ('list', 'tuple') else None
        with ctx.frame(op) as fr:
            out = ctx.real(loan.generate_payment_schedule, pay) if arg is None else ctx.real(loan.generate_payment_schedule, pay, arg)
        ctx.ev('schedule', i, pay, e['k'], out)
        ctx.check(loan.principal == p, 'principal-changed', lambda: f'principal of loan {i} is {loan.principal}, was {p}')
        if before is not None:
            ctx.check(canon(arg) == before, 'input-changed', 'the caller\'s extra payments were changed')
        if fr.fired or (extras is None and first + relativedelta(months=step) <= end):
            ctx.check(not out.ok, 'failure-swallowed', lambda: f'a schedule came out although the extra payments failed: {canon(out.value)[:200]}')
            ctx.faults['input:text' if extras is None else 'iterable'] += 1
            return
        if extras is None:
            return
        rows = ctx.must(out, 'schedule-failed', f'schedule of loan {i}')
        with ctx.reading(f'the schedule of loan {i}'):
            verify(op, i, s, rows, pay, extras, first, end, step, p)
        ctx.sim_days += (end - first).days

    def points(items):
        for x in items:
            ctx.point('extras')
            yield x

    def verify(op, i, s, rows, pay, extras, first, end, step, p):
        tol = 1e-9 * max(1, p)
        # dates
        want, x = [], first
        while True:
            x = x + relativedelta(months=step)
            if x > end:
                break
            want.append(x)
        got = [r.payment_date for r in rows]
        if s['time'] == 'START_OF_MONTH':
            ctx.check(got == want, 'dates-wrong', lambda: f'loan {i} pays on {canon(got[:3])} ... ({len(got)}), expected {canon(want[:3])} ... ({len(want)})')
        else:
            # which day of its month an end-of-month loan pays is not this property's business
            ctx.check([(d.year, d.month) for d in got] in ([(d.year, d.month) for d in want], [(d.year, d.month) for d in want][:len(got)]) and abs(len(got) - len(want)) <= 1,
                      'dates-wrong', lambda: f'loan {i} pays in {canon(got[:3])} ... ({len(got)}), expected {canon(want[:3])} ... ({len(want)})')
        balance, last, paid = float(p), first, 0.0
        peak = balance
        off = False
        for n, r in enumerate(rows):
            interest = ref.accrual(last, r.payment_date, s['dcc']) * s['rate'] * balance
            extra = extras[n] if n < len(extras) else 0.0
            principal = balance if off else min(pay - interest + extra, balance)
            tol = 1e-9 * max(1, peak)
            ctx.same(r.interest_payment, interest, 'interest-wrong', f'interest {n} of loan {i} on balance {balance}', 1e-8, tol)
            ctx.same(r.principal_payment, principal, 'principal-wrong', f'principal part {n} of loan {i} (balance {balance}, payment {pay}, extra {extra})', 1e-8, tol)
            ctx.same(r.payment, r.interest_payment + r.principal_payment, 'payment-wrong', f'payment {n} of loan {i}', 1e-9, tol)
            balance -= r.principal_payment
            paid += r.principal_payment
            peak = max(peak, balance)
            ctx.check(balance >= -tol, 'balance-negative', lambda: f'balance of loan {i} is {balance} after payment {n}')
            ctx.check(paid <= p + tol, 'overpaid', lambda: f'principal repaid by loan {i} is {paid} of {p} after payment {n}')
            if off:
                ctx.check(abs(r.payment) <= tol and abs(r.interest_payment) <= tol and abs(r.principal_payment) <= tol, 'paid-after-payoff', lambda: f'payment {n} of loan {i} after pay-off is {r.payment}')
            if principal == balance + r.principal_payment or abs(balance) <= tol:
                off = True
                balance = 0.0
                ctx.same(paid, p, 'not-conserved', f'principal repaid by loan {i} at pay-off', 1e-8, tol)
            last = r.payment_date
        if op['pay'] == 'level' and level(s) is not None and s['time'] == 'START_OF_MONTH' and s['dcc'] == 'THIRTY_OVER_THREESIXTY' and s['days'] is None \
                and not (s2d(s['start']).month == 2 and s2d(s['start']).day == 28):
            ctx.same(paid, p, 'not-amortised', f'principal repaid by loan {i} with level payments over its whole term', 1e-6, tol)
            ctx.probe('amortised over the term')
        ctx.probe('paid off' if off else 'not paid off')
        ctx.state('c16', off, len(rows))

    def run_list(ops):
        for o in ops:
            run_op(o)

    ctx.run_inner = run_list
    for op in plan['ops']:
        if op['op'] == 'par':
            ctx.parallel(op, [lambda ops=t['ops']: run_list(ops) for t in op['tasks']])
        else:
            run_op(op)
