"""C20: day-count fractions follow their market conventions as the calendar advances."""
import calendar
from datetime import date, datetime, time, timedelta
from fractions import Fraction

from . import ref
from .core import gen_par, history

ACTUAL = {'ACTUAL_OVER_360': Fraction(360), 'ACTUAL_OVER_365': Fraction(365), 'ACTUAL_OVER_365_POINT_25': Fraction(1461, 4)}
DCCS = (*ACTUAL, 'ACTUAL_OVER_ACTUAL', 'THIRTY_OVER_THREESIXTY')
DAY_US = 86400 * 10 ** 6


def setup():
    pass


def gen_clock(rng):
    """Instants a calendar clock shows: it creeps, leaps, and sometimes is set back."""
    y = rng.choice([1999, 2000, 2020, 2023, 2024, 2100, rng.randrange(1800, 2300)])
    d = date(y, 1, 1) + timedelta(rng.choice([0, 30, 57, 58, 59, 364, rng.randrange(365)]))
    t = rng.choice([0, 0, 1, 43200 * 10 ** 6, DAY_US - 1, rng.randrange(DAY_US)])
    now = datetime.combine(d, time(0)) + timedelta(microseconds=t)
    out = [now]
    for _ in range(rng.randrange(4, 16)):
        r = rng.random()
        if r < 0.35:
            now = now + timedelta(days=rng.choice([1, 1, 2, 3, 7, 28, 29, 30, 31]))
        elif r < 0.55:
            now = now + timedelta(microseconds=rng.choice([1, 10 ** 6, 3600 * 10 ** 6, 43200 * 10 ** 6, rng.randrange(DAY_US)]))
        elif r < 0.7:
            # the end of this month, or the first of the next one
            last = calendar.monthrange(now.year, now.month)[1]
            now = datetime(now.year, now.month, last) + timedelta(days=rng.choice([0, 1, 1]), microseconds=rng.choice([0, 0, rng.randrange(DAY_US)]))
        elif r < 0.8:
            # New Year's Eve, New Year, the end of February
            m, dd = rng.choice([(12, 31), (1, 1), (2, 28), (3, 1), (2, 29)])
            y = now.year + rng.choice([0, 1, 1, 2, 4, 9])
            dd = 28 if dd == 29 and not calendar.isleap(y) else dd
            now = datetime(y, m, dd) + timedelta(microseconds=rng.choice([0, 0, rng.randrange(DAY_US)]))
        elif r < 0.9:
            now = now + timedelta(days=rng.choice([365, 366, 1461, rng.randrange(1, 12000)]))
        else:
            now = now - timedelta(microseconds=rng.choice([1, DAY_US, rng.randrange(1, 400) * DAY_US]))
        if not 1700 < now.year < 2400:
            now = now.replace(year=2024, day=min(now.day, 28))
        out.append(now)
    return [x.isoformat() for x in out]


def generate(rng, tier):
    clocks = [gen_clock(rng) for _ in range(rng.choice([1, 2, 2]))]

    def walk():
        return {'op': 'walk', 'c': rng.randrange(len(clocks)), 'dcc': rng.choice(DCCS), 'a': rng.choice(['dt', 'dt', 'date']), 'b': rng.choice(['dt', 'dt', 'date']),
                'kw': rng.random() < 0.5}
    ops = []
    for _ in range(history(rng, 3, 9, 30)):
        r = rng.random()
        if r < 0.25:
            ops.append(gen_par(rng, walk, 2))
        elif r < 0.32:
            ops.append({'op': 'odd', 'c': rng.randrange(len(clocks)), 'what': rng.choice(['none', 'name', 'number'])})
        else:
            ops.append(walk())
    return {'clocks': clocks, 'ops': ops}


def year_days(y):
    return 366 if calendar.isleap(y) else 365


def share(a, b, dcc):
    """Year fraction by stepping through the calendar: every day, or part of one, counts its own share."""
    whole = b - a
    if dcc in ACTUAL:
        return Fraction(whole // timedelta(microseconds=1), DAY_US) / ACTUAL[dcc]
    total, now = Fraction(0), a
    while now < b:
        stop = min(b, datetime(now.year + 1, 1, 1))
        total += Fraction((stop - now) // timedelta(microseconds=1), DAY_US * year_days(now.year))
        now = stop
    return total


def thirty(a, b):
    """30/360 US between whole days."""
    def february_ends(d):
        return d.month == 2 and (d + timedelta(1)).month == 3
    d1, d2 = a.day, b.day
    if february_ends(a):
        d2 = 30 if february_ends(b) else d2
        d1 = 30
    if d2 == 31 and d1 >= 30:
        d2 = 30
    d1 = min(d1, 30)
    return Fraction(360 * (b.year - a.year) + 30 * (b.month - a.month) + d2 - d1, 360)


def execute(ctx, plan):
    from fixedIncome.src.scheduling_tools.day_count_calculator import DayCountCalculator
    from fixedIncome.src.scheduling_tools.schedule_enumerations import DayCountConvention
    clocks = [[datetime.fromisoformat(x) for x in c] for c in plan['clocks']]

    def ask(op, a, b):
        if op['kw']:
            return ctx.real(DayCountCalculator.compute_accrual_length, start_date=a, end_date=b, dcc=DayCountConvention[op['dcc']])
        return ctx.real(DayCountCalculator.compute_accrual_length, a, b, DayCountConvention[op['dcc']])

    def instant(x):
        return x if isinstance(x, datetime) else datetime.combine(x, time(0))

    def judge(op, a, b):
        """One interval; its fraction, or None if it is not judged by value."""
        what = f'{op["dcc"]} from {a!r} to {b!r}'
        out = ask(op, a, b)
        A, B = instant(a), instant(b)
        if B < A:
            ctx.check(not out.ok and isinstance(out.exc, ValueError), 'order-accepted', lambda: f'{what}: {out.value if out.ok else out.exc!r}, but the end lies before the start')
            ctx.probe('clock set back')
            return None
        value = ctx.must(out, 'query-failed', what)
        with ctx.reading(what):
            value = float(value)
        if op['dcc'] != 'THIRTY_OVER_THREESIXTY':
            want = share(A, B, op['dcc'])
        elif A.time() == B.time() == time(0):
            want = thirty(A.date(), B.date())
            ctx.probe('30/360 between midnights')
        else:
            # a part of a day takes its share of what the day itself adds
            want = ref.accrual(a, b, op['dcc'])
            ctx.probe('30/360 of part days')
        ctx.same(value, float(want), 'fraction-wrong', what, 1e-12, 1e-12)
        ctx.ev(op['dcc'], round(value, 12))
        ctx.probe(op['dcc'])
        return value

    def walk(op):
        """The clock runs; from its start, and from tick to tick, time adds up."""
        ticks = clocks[op['c']]

        def show(x, form):
            return x.date() if form == 'date' else x
        origin = show(ticks[0], op['a'])
        last = origin
        for tick in ticks[1:]:
            now = show(tick, op['b'])
            so_far = judge(op, origin, now)
            gone = judge(op, last, now)
            before = judge(op, origin, last)
            if None not in (so_far, gone, before) and op['dcc'] != 'THIRTY_OVER_THREESIXTY':
                ctx.same(before + gone, so_far, 'does-not-add-up', f'{op["dcc"]} from {origin!r} over {last!r} to {now!r}', 1e-12, 1e-12)
                ctx.probe('intervals joined')
            if isinstance(now, date) and not isinstance(now, datetime) and so_far is not None:
                again = ask(op, instant(origin), instant(now))
                ctx.same(float(ctx.must(again, 'query-failed', f'{op["dcc"]} between midnights')), so_far, 'midnight-differs',
                         f'{op["dcc"]} from {origin!r} to {now!r}, as dates and as datetimes', 1e-12, 1e-12)
            ctx.sim_days += abs((instant(now) - instant(last)).days)
            last = now
        ctx.state('c20', op['dcc'], op['a'], op['b'], [t.isoformat()[:10] for t in ticks])

    def one(op):
        with ctx.frame(op):
            turn(op)

    def turn(op):
        if op['op'] == 'walk':
            walk(op)
        else:
            ticks = clocks[op['c']]
            bad = {'none': None, 'name': 'ACTUAL_OVER_360', 'number': 3}[op['what']]
            out = ctx.real(DayCountCalculator.compute_accrual_length, min(ticks), max(ticks), bad)
            ctx.check(not out.ok, 'convention-invented', lambda: f'convention {bad!r}: {out.value}')
            ctx.probe('unknown conventions')

    def run(ops):
        for op in ops:
            one(op)

    ctx.run_inner = run
    for op in plan['ops']:
        if op['op'] == 'par':
            ctx.parallel(op, [lambda ops=t['ops']: run(ops) for t in op['tasks']])
            ctx.probe('parallel phases')
        else:
            one(op)
