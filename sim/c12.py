"""C12: business-day arithmetic agrees with stepping the calendar day by day."""
from datetime import date, datetime, timedelta

from dateutil.relativedelta import relativedelta

from . import core, fi
from .c10 import DELAYS, settle
from .core import canon, d2s, gen_par, history, pick_fault_kind, s2d

HOW = ['raw', 'fed', 'fed', 'mon', 'thu', 'next2', 'prev3']
NEAR = [(1, 1), (1, 2), (12, 31), (12, 30), (12, 29), (12, 25), (12, 26), (3, 31), (4, 30), (9, 30), (5, 31)]


def setup():
    pass


def gen_rules(rng):
    out = []
    for _ in range(rng.randrange(0, 7)):
        m, d = rng.choice(NEAR) if rng.random() < 0.6 else (rng.randrange(1, 13), rng.randrange(1, 29))
        out.append([m, d, rng.choice(HOW)])
    return out


def generate(rng, tier):
    threads = rng.random() < 0.25
    year = rng.choice([rng.randrange(1995, 2035)] * 5 + [rng.choice([2004, 2010, 2021, 2022, 2011, 2016, 2032])] + [rng.randrange(1800, 2300), 10, 9975])
    # turns of years and months are where calendars go wrong
    start = date(year, *rng.choice([(12, 8), (12, 20), (12, 28), (1, 1), (3, 27), (6, 30), (rng.randrange(1, 13), rng.randrange(1, 29))]))
    cals = [{'us': rng.random() < 0.45, 'rules': gen_rules(rng)} for _ in range(rng.choice([1, 1, 2, 3]))]

    def when():
        return d2s(start + timedelta(rng.randrange(-3, 40)))

    def any_op(depth, par=False):
        k = rng.choice(['tick', 'tick', 'add', 'add', 'add', 'settle', 'settle', 'range', 'range', 'follow', 'modified', 'modified', 'single', 'single', 'is', 'holidays',
                        'ladder', 'ladder', 'weekday', 'edit', 'bad'])
        if par and k in ('tick', 'range', 'holidays', 'edit'):
            k = rng.choice(['add', 'settle', 'follow', 'is'])
        op = {'op': k, 'c': rng.randrange(6), 'd': when()}
        if k == 'tick':
            op['days'] = rng.choice([5, 20, 60, 200])
            op['conv'] = rng.choice(list(DELAYS))
        if k == 'add':
            op['n'] = rng.choice([0, 1, -1, 2, -2, 3, -3, rng.randrange(-25, 26), rng.randrange(-25, 26), rng.choice([60, -60, 260, -260])]) if not par else rng.randrange(-3, 4)
            if rng.random() < 0.2:
                # to the turn of the year, give or take a day
                d = s2d(op['d'])
                turn = date(d.year + (d.month > 6), 1, 1)
                op['n'] = (turn - d).days * 5 // 7 + rng.randrange(-3, 3)
        if k == 'settle':
            op['conv'] = rng.choice(list(DELAYS))
        if k == 'range':
            op['n'] = rng.choice([0, 1, 2, 5, 40, 120, -1, 'month', 'year', 'year'])
        if k == 'holidays':
            op['n'] = rng.randrange(0, 4)
        if k == 'weekday':
            op['w'] = rng.randrange(7)
        if k == 'ladder':
            unit = rng.choice(['d', 'd', 'm', 'm', 'y', 'h'])
            op.update(unit=unit, n=rng.choice([1, 1, 3, 6, 7, -1, -3, -6, -30]), span=rng.choice([0, 1, 90, 400, 3000]), wrong=rng.random() < 0.1,
                      max=rng.choice([None, None, None, 3, 5, 50]), d=d2s(s2d(op['d']).replace(day=rng.choice([1, 15, 28])) + timedelta(rng.choice([0, 0, 0, 1, 2, 3]))))
            if unit in 'my' and rng.random() < 0.3:
                op['extra'] = rng.choice([1, 10, -1, -2, -7, -20])
        if k == 'edit':
            op['rule'] = [*rng.choice(NEAR), rng.choice(HOW)]
            op['k'] = rng.choice(['add', 'add', 'drop', 'change'])
        if k == 'bad':
            op['k'] = rng.choice(['add-from-holiday', 'holiday-name', 'increment'])
        if k in ('tick', 'add', 'settle', 'range', 'follow', 'modified', 'single', 'is', 'holidays'):
            if rng.random() < 0.2:
                op['fault'] = {'site': 'holiday', 'at': rng.choice([1, 2, 3, rng.randrange(1, 60)]), 'kind': pick_fault_kind(rng)}
            elif depth < 1 and rng.random() < 0.2:
                op['inner'] = {'site': 'holiday', 'at': rng.choice([1, 2, rng.randrange(1, 40)]), 'ops': [o for o in (any_op(depth + 1, par) for _ in range(rng.randrange(1, 3))) if o['op'] != 'edit']}
        return op
    ops = []
    for _ in range(history(rng, 4, 16)):
        if threads and rng.random() < 0.25:
            ops.append(gen_par(rng, lambda: any_op(0, True), 2, (2,)))
        else:
            ops.append(any_op(0))
    return {'start': d2s(start), 'cals': cals, 'ops': ops}


def execute(ctx, plan):
    from fixedIncome.src.scheduling_tools import holidays as hol
    from fixedIncome.src.scheduling_tools.schedule_enumerations import Months, SettlementConvention, Weekdays
    from fixedIncome.src.scheduling_tools.scheduler import Scheduler

    def adjust(how):
        def observe(d):
            ctx.point('holiday')
            return fi.observed((d.month, d.day, how), d.year)
        return observe

    def holiday(rule, i):
        m, d, how = rule
        return hol.Holiday(Months(m) if i % 2 else m, d, adjust(how))

    rules, real = [], []
    for c in plan['cals']:
        if c['us']:
            rules.append([list(r) for r in fi.US])
            real.append(hol.US_FEDERAL_HOLIDAYS)
        else:
            rules.append([list(r) for r in c['rules']])
            real.append({f'h{i}': holiday(r, i) for i, r in enumerate(c['rules'])})
    edits = [0]

    def cal(c):
        return tuple(tuple(r) for r in rules[c])

    def got(op, out, want, what):
        """A result of the code under test; a failing holiday rule must surface."""
        if not out.ok:
            ctx.check(core.is_injected(out.exc), 'query-failed', lambda: f'{what} raised {out.exc!r}')
            return False
        ctx.check(out.value == want and type(out.value) is type(want), 'date-wrong', lambda: f'{what}: got {canon(out.value)}, stepping day by day gives {canon(want)}')
        return True

    def run_op(op):
        k = op['op']
        c = op['c'] % len(rules)
        kal, R, d = cal(c), real[c], s2d(op['d'])
        with ctx.frame(op):
            if k == 'tick':
                last = None
                for j in range(op['days']):
                    day = d + timedelta(j)
                    if not got(op, ctx.real(Scheduler.is_business_day, day, R), fi.is_business(day, kal), f'is {day} a business day'):
                        break
                    if j % 4 == 0 or op['days'] <= 20:
                        out = ctx.real(Scheduler.calculate_settlement_date, day, SettlementConvention[op['conv']], R)
                        if not got(op, out, settle(day, op['conv'], kal), f'{op["conv"]} from {day}'):
                            break
                        ctx.check(last is None or out.value >= last, 'settlement-backwards', lambda: f'{op["conv"]} from {day} is {out.value}, earlier than that of an earlier trade date {last}')
                        last = out.value
                ctx.sim_days += op['days']
            elif k == 'add':
                want = fi.add_business(d, op['n'], kal)
                out = ctx.real(Scheduler.add_business_days, d, op['n'], R)
                got(op, out, want, f'{d} plus {op["n"]} business days')
                ctx.sim_days += abs((want - d).days)
            elif k == 'settle':
                got(op, ctx.real(Scheduler.calculate_settlement_date, d, SettlementConvention[op['conv']], R), settle(d, op['conv'], kal), f'{op["conv"]} from {d}')
            elif k == 'range':
                month = 12 if op['n'] == 'year' else d.month
                end = (date(d.year, month, 28) + timedelta(4)).replace(day=1) - timedelta(1) if isinstance(op['n'], str) else d + timedelta(op['n'])
                n = (end - d).days
                want = [d + timedelta(j) for j in range(n + 1) if fi.is_business(d + timedelta(j), kal)]
                got(op, ctx.real(Scheduler.generate_business_days, d, end, R), want, f'business days from {d} to {end}')
                ctx.sim_days += max(n, 0)
            elif k == 'follow':
                got(op, ctx.real(Scheduler.following_date_adjustment, d, R), fi.following(d, kal), f'following from {d}')
            elif k == 'modified':
                for e in (d, (d.replace(day=28) + timedelta(4)).replace(day=1) - timedelta(1)):
                    got(op, ctx.real(Scheduler.modified_following_date_adjustment, e, R), fi.modified_following(e, kal), f'modified following from {e}')
            elif k == 'single':
                b = fi.following(d, kal)
                out = ctx.real(Scheduler.add_single_business_day, b, R)
                if got(op, out, fi.add_business(b, 1, kal), f'the business day after {b}'):
                    got(op, ctx.real(Scheduler.subtract_single_business_day, out.value, R), b, f'the business day before {out.value}')
                got(op, ctx.real(Scheduler.subtract_single_business_day, b, R), fi.add_business(b, -1, kal), f'the business day before {b}')
            elif k == 'is':
                got(op, ctx.real(Scheduler.is_business_day, d, R), fi.is_business(d, kal), f'is {d} a business day')
            elif k == 'holidays':
                want = {fi.observed(r, y) for r in kal for y in range(d.year, d.year + op['n'] + 1)}
                out = ctx.real(hol.generate_all_holidays, d.year, d.year + op['n'], R)
                if out.ok:
                    ctx.check(set(out.value) == want, 'holidays-wrong', lambda: f'holidays {d.year}+{op["n"]}: differ at {canon(sorted(set(out.value) ^ want)[:4])}')
                    ctx.real(lambda: out.value.clear())      # the set handed out is the caller's
                else:
                    ctx.check(core.is_injected(out.exc), 'query-failed', lambda: f'holidays raised {out.exc!r}')
            elif k == 'weekday':
                want = d + timedelta((op['w'] - d.weekday()) % 7)
                got(op, ctx.real(Scheduler.get_next_weekday, d, Weekdays(op['w'])), want, f'weekday {op["w"]} from {d}')
            elif k == 'ladder':
                ladder(op, d)
            elif k == 'edit':
                if plan['cals'][c]['us']:
                    return
                names = list(R)
                if op['k'] == 'add' or not names:
                    edits[0] += 1
                    R[f'e{edits[0]}'] = holiday(op['rule'], 0)
                    rules[c].append(op['rule'])
                elif op['k'] == 'drop':
                    j = edits[0] % len(names)
                    del R[names[j]]
                    del rules[c][j]
                else:
                    j = edits[0] % len(names)
                    R[names[j]] = holiday(op['rule'], 1)
                    rules[c][j] = op['rule']
            elif k == 'bad':
                bad(op, c, kal, R, d)
        ctx.ev(k, c, d)
        ctx.state('c12', k, d.isoweekday(), d.month, fi.is_business(d, kal))

    def bad(op, c, kal, R, d):
        if op['k'] == 'add-from-holiday':
            while fi.is_business(d, kal):
                d += timedelta(1)
            out = ctx.real(Scheduler.add_single_business_day, d, R)
        elif op['k'] == 'holiday-name':
            out = ctx.real(hol.generate_holiday_dates, 'no such holiday', 2020, 2021, R)
        else:
            out = ctx.real(Scheduler.generate_dates_by_increments, d, d + timedelta(9), 3)
        ctx.check(not out.ok, 'invalid-accepted', f'{op["k"]} was accepted')
        ctx.faults[f'input:{op["k"]}'] += 1

    def ladder(op, d):
        n, unit = op['n'], op['unit']
        if unit == 'h':
            d = datetime(d.year, d.month, d.day, 9, 30)
            inc, span = timedelta(hours=7 * n), op['span'] // 9
        else:
            more = {'days': op['extra']} if op.get('extra') else {}
            inc = {'d': timedelta(n), 'm': relativedelta(months=n, **more), 'y': relativedelta(years=1 if n > 0 else -1, **more)}[unit]
            span = op['span'] // (9 if unit == 'd' else 1)
        sign = 1 if n > 0 else -1
        end = d + timedelta(sign * span * (-1 if op['wrong'] else 1))
        if op['wrong'] and span == 0 or not (5 < end.year < 9980 and d.year > 5):
            return
        want, x = [], d
        while (x <= end if sign > 0 else x >= end):
            want.append(x)
            x = x + inc
        args = [] if op['max'] is None else [op['max']]
        out = ctx.real(Scheduler.generate_dates_by_increments, d, end, inc, *args)
        got_ = ctx.must(out, 'ladder-failed', 'a date ladder')
        cap = 1000 if op['max'] is None else op['max']
        if len(want) <= cap:
            ok = got_ == want
        else:
            ok = cap <= len(got_) <= cap + 1 and got_ == want[:len(got_)]
        ctx.check(ok, 'ladder-wrong', lambda: f'ladder from {d} to {end} by {inc} (at most {cap}): got {canon(got_[:3])} ... {canon(got_[-2:])} ({len(got_)}), expected {canon(want[:3])} ... {canon(want[-2:])} ({len(want)})')

    def run_list(ops):
        for o in ops:
            run_op(o)

    ctx.run_inner = run_list
    for op in plan['ops']:
        if op['op'] == 'par':
            ctx.parallel(op, [lambda ops=t['ops']: run_list(ops) for t in op['tasks']])
        else:
            run_op(op)
