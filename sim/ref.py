"""Reference implementations used as oracles, written from the documented behaviour."""
import math
from datetime import date, datetime, time, timedelta

import numpy as np


def _year_len(y):
    return 366 if (y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)) else 365


def _days(dcc, a, b):
    """Accrual between two whole dates a <= b (or b the day before a, as datetimes need)."""
    n = (b - a).days
    if dcc == 'ACTUAL_OVER_360':
        return n / 360.0
    if dcc == 'ACTUAL_OVER_365':
        return n / 365.0
    if dcc == 'ACTUAL_OVER_365_POINT_25':
        return n / 365.25
    if dcc == 'ACTUAL_OVER_ACTUAL':
        if a.year == b.year:
            return n / _year_len(a.year)
        rest = (date(a.year + 1, 1, 1) - a).days / _year_len(a.year)
        run = (b - date(b.year, 1, 1)).days / _year_len(b.year)
        return (b.year - a.year - 1) + rest + run
    if dcc == 'THIRTY_OVER_THREESIXTY':
        d1, d2 = a.day, b.day
        feb1, feb2 = (a + timedelta(1)).day == 1 and a.month == 2, (b + timedelta(1)).day == 1 and b.month == 2
        if feb1 and feb2:
            d2 = 30
        if feb1:
            d1 = 30
        if d2 == 31 and d1 in (30, 31):
            d2 = 30
        if d1 == 31:
            d1 = 30
        return (360 * (b.year - a.year) + 30 * (b.month - a.month) + d2 - d1) / 360.0
    raise ValueError(dcc)


def accrual(a, b, dcc):
    """Day-count fraction; a part of a day takes its share of that day."""
    if type(a) is date and type(b) is date:
        return _days(dcc, a, b)
    day, midnight = timedelta(1), time(0)
    A = a if isinstance(a, datetime) else datetime.combine(a, midnight)
    B = b if isinstance(b, datetime) else datetime.combine(b, midnight)
    first, last = A.date(), B.date()
    if first == last:
        return _days(dcc, first, first + day) * ((B - A) / day)
    # the rest of the first day, whole days, the part of the last day; a date needs neither part
    after = first + day if isinstance(a, datetime) else first
    whole = _days(dcc, after, last)
    out = whole
    if isinstance(a, datetime):
        out += (_days(dcc, first, last) - whole) * ((datetime.combine(after, midnight) - A) / day)
    if isinstance(b, datetime):
        out += (_days(dcc, after, last + day) - whole) * ((B - datetime.combine(last, midnight)) / day)
    return out


def grid(start, end, step):
    out, t = [], start
    while t <= end:
        out.append(t)
        t = t + step
    if out[-1] < end:
        out.append(end)
    return out


def plain_grid(start, end, step):
    out, t = [], start
    while t <= end:
        out.append(t)
        t = t + step
    return out


def shocks(seed, dim, corr, times, dcc):
    """The standard normal draws of `seed`, scaled by sqrt(dt), correlated by the Cholesky factor."""
    dts = np.array([accrual(a, b, dcc) for a, b in zip(times, times[1:])])
    z = np.random.RandomState(seed).standard_normal((dim, len(dts)))
    L = cholesky(np.eye(dim) if corr is None else np.array(corr, dtype=float))
    return L @ (z * np.sqrt(dts)), dts


def cholesky(a):
    n = len(a)
    L = np.zeros((n, n))
    for i in range(n):
        for j in range(i + 1):
            s = a[i, j] - sum(L[i, k] * L[j, k] for k in range(j))
            L[i, j] = math.sqrt(s) if i == j else s / L[j, j]
    return L


def interp(times, values, t, dcc):
    """Value at t of the path through (times, values): exact at grid times, linear in elapsed time between."""
    values = np.asarray(values, dtype=float)
    for k, u in enumerate(times):
        if u == t:
            return values[..., k]
    for k in range(len(times) - 1):
        if times[k] < t < times[k + 1]:
            a, b = accrual(times[k], t, dcc), accrual(t, times[k + 1], dcc)
            w = a / (a + b)
            return values[..., k] * (1 - w) + values[..., k + 1] * w
    raise ValueError('outside the grid')
