"""C07: key-rate collections stay sorted, aligned and sum to a parallel shift."""
from datetime import date, timedelta

from . import core, fi
from .core import canon, d2s, gen_sched, history, pick_fault_kind, s2d

HASH_INDEPENDENT = 16
BP = 1e-4
DCC = ['ACTUAL_OVER_ACTUAL', 'ACTUAL_OVER_ACTUAL', 'ACTUAL_OVER_ACTUAL', 'ACTUAL_OVER_365', 'ACTUAL_OVER_360']


def setup():
    pass


def generate(rng, tier):
    origin = date(rng.randrange(2015, 2030), rng.randrange(1, 13), rng.randrange(1, 29))
    span = rng.choice([8, 30, 400, 4000, 11000])
    one_dcc = rng.choice(DCC) if rng.random() < 0.7 else None
    bump = rng.choice([None, 0.01, 1e-4, 0.5])

    def kr(off=None):
        return {'d': d2s(origin + timedelta(rng.randrange(span) if off is None else off)), 'dcc': one_dcc or rng.choice(DCC),
                'bump': bump if rng.random() < 0.6 else rng.choice([None, 0.0, -0.02, 0.003, round(rng.uniform(-0.1, 0.1), 4)]),
                'prior': rng.random() < 0.2, 'next': rng.random() < 0.2}

    def krs(n, distinct=True):
        if distinct:
            return [kr(o) for o in rng.sample(range(span), min(n, span))]
        return [kr() for _ in range(n)]

    def form():
        return rng.choice(['list', 'tuple', 'gen', 'gen', 'set'])
    ncoll = rng.choice([1, 1, 2, 3])
    colls = [{'krs': krs(rng.choice([1, 1, 2, 3, 5, 8]) if rng.random() < 0.95 else rng.choice([13, 25])), 'form': form()} for _ in range(ncoll)]

    def any_op(depth):
        k = rng.choice(['set', 'set', 'set', 'del', 'del', 'insert', 'append', 'extend', 'iadd', 'iadd', 'iadd-coll', 'iadd-one', 'add', 'add', 'slice', 'slice',
                        'bump', 'bump', 'bump-all', 'pop', 'bad', 'bad', 'build', 'remove'])
        op = {'op': k, 'c': rng.randrange(12), 'i': rng.randrange(-3, 8)}
        if k in ('set', 'insert', 'append', 'iadd-one'):
            op['kr'] = kr()
        if k == 'set':
            op['fit'] = rng.random() < 0.6     # a date between the neighbours
            op['u'] = round(rng.random(), 4)
        if k == 'bump':
            op['v'] = rng.choice([0.0, 1e-4, -0.003, round(rng.uniform(-0.1, 0.1), 4)])
        if k == 'bump-all':
            op['v'] = rng.choice([1e-4, 0.01, round(rng.uniform(0.001, 0.1), 4)])
        if k in ('extend', 'iadd', 'build'):
            op['krs'] = krs(rng.choice([1, 2, 3, 4]), rng.random() < 0.7)
            op['form'] = form()
            r = rng.random()
            if op['form'] == 'gen' and r < 0.25:
                op['fault'] = {'site': 'iterable', 'at': rng.randrange(1, 5), 'kind': pick_fault_kind(rng)}
            elif op['form'] == 'gen' and r < 0.5 and depth < 1:
                op['inner'] = {'site': 'iterable', 'at': rng.randrange(1, 4), 'ops': [{'op': 'read'} if rng.random() < 0.4 else
                               dict(any_op(depth + 1), busy=op['c']) for _ in range(rng.randrange(1, 3))]}
        if k in ('iadd-coll', 'add'):
            op['o'] = rng.randrange(12)
        if k in ('slice', 'del'):
            op['s'] = [rng.choice([None, rng.randrange(-4, 6)]), rng.choice([None, rng.randrange(-4, 9)]), rng.choice([None, None, 2, -1])] \
                if k == 'slice' or rng.random() < 0.3 else None
        if k == 'bad':
            op['k'] = rng.choice(['set-text', 'set-none', 'insert-text', 'iadd-number', 'iadd-mixed', 'del-range', 'set-range', 'del-all', 'extend-dup', 'iadd-dup', 'append-dup', 'clear', 'reverse'])
            op['kr'] = kr()
        return op

    ops = []
    for _ in range(history(rng, 4, 16)):
        if rng.random() < 0.1:
            ops.append({'op': 'par', 'c': rng.randrange(12), 'sched': gen_sched(rng),
                        'tasks': [{'ops': [rng.choice([{'op': 'slice', 'c': 0, 'i': 0, 's': [rng.randrange(0, 3), None, None]}, {'op': 'read'}, {'op': 'add', 'c': 0, 'i': 0, 'o': rng.randrange(12)}])
                                           for _ in range(rng.randrange(1, 3))]} for _ in range(2)]})
        else:
            ops.append(any_op(0))
    return {'origin': d2s(origin), 'colls': colls, 'ops': ops}


def execute(ctx, plan):
    from fixedIncome.src.risk.key_rate import KeyRate, KeyRateCollection
    from fixedIncome.src.scheduling_tools.schedule_enumerations import DayCountConvention
    real, model = [], []   # model: list of [date, dcc, bump] in date order
    busy = []

    def make(s):
        d = s2d(s['d'])
        kr = KeyRate(DayCountConvention[s['dcc']], d, d - timedelta(30) if s['prior'] else None, d + timedelta(30) if s['next'] else None)
        if s['bump'] is not None:
            kr.set_bump_val(s['bump'])
        return kr

    def row(s):
        return [s2d(s['d']), s['dcc'], BP if s['bump'] is None else s['bump']]

    def merge(rows, new):
        """Union by (date, day count), earlier ones kept; None if two with the same date but other day counts remain."""
        out = [list(r) for r in rows]
        for r in new:
            if not any(q[0] == r[0] and q[1] == r[1] for q in out):
                out.append(list(r))
        out.sort(key=lambda r: r[0])
        if not out or any(a[0] == b[0] for a, b in zip(out, out[1:])):
            return None
        return out

    def same_key_different_bump(rows, new):
        """Within one unordered iterable, which of two equal key rates is kept is only defined for ordered forms."""
        seen = {}
        for r in new:
            k = (r[0], r[1])
            if k in seen and seen[k] != r[2]:
                return True
            seen[k] = r[2]
        return False

    def check(i, what):
        rows, coll = model[i], real[i]
        krs = list(coll)
        ctx.check(len(coll) == len(rows), 'length-wrong', lambda: f'collection {i} has {len(coll)} key rates, expected {len(rows)} after {what}')
        ctx.check([k.key_rate_date for k in krs] == [r[0] for r in rows], 'order-wrong',
                  lambda: f'collection {i} lists {[k.key_rate_date.isoformat() for k in krs]}, expected {[r[0].isoformat() for r in rows]} after {what}')
        shapes = []
        for j, r in enumerate(rows):
            a = rows[j - 1][0] if j else None
            b = rows[j + 1][0] if j + 1 < len(rows) else None
            kr = coll[j]
            ctx.check((kr.prior_date, kr.next_date) == (a, b), 'neighbours-wrong',
                      lambda: f'key rate {r[0]} of collection {i} has neighbours {kr.prior_date}, {kr.next_date}, expected {a}, {b} after {what}')
            ctx.check(kr.day_count_convention.name == r[1] and core.close(kr.bump_val, r[2]), 'key-rate-wrong',
                      lambda: f'key rate {r[0]} of collection {i}: {kr.day_count_convention} {kr.bump_val}, expected {r[1:]} after {what}')
            shapes.append((a, r[0], b, r[2], r[1]))
        dates = set()
        for a, d, b, _, _ in shapes:
            dates |= {d, d - timedelta(1), d + timedelta(1)}
            if b:
                dates |= {d + (b - d) / 3 if (b - d).days > 3 else d, d + timedelta((b - d).days // 2)}
        dates |= {rows[0][0] - timedelta(500), rows[-1][0] + timedelta(500)}
        dates = sorted(dates)
        if len(dates) > 24:
            dates = dates[::len(dates) // 24 + 1] + [dates[-1]]
        flat = len({(r[1], r[2]) for r in rows}) == 1
        for d in dates:
            want = [fi.tent(d, a, k, b, v, dcc) for a, k, b, v, dcc in shapes]
            got = coll(d)
            ctx.same(got, sum(want), 'sum-wrong', f'collection {i} at {d} after {what}', atol=1e-13)
            if flat:
                ctx.same(got, rows[0][2], 'not-parallel', f'collection {i} with equal bumps at {d} after {what}', atol=1e-13)
            for j, w in enumerate(want):
                if w or abs(shapes[j][1] - d).days < 3:
                    ctx.same(coll[j](d), w, 'bump-wrong', f'key rate {shapes[j][1]} of collection {i} at {d} after {what}', atol=1e-13)

    def check_all(what):
        if core._active_sched is None:
            for i in range(len(real)):
                if i not in busy or True:
                    check(i, what)

    def shape(objs, form):
        def lazily():
            for o in objs:
                ctx.point('iterable')
                yield o
        return {'list': lambda: list(objs), 'tuple': lambda: tuple(objs), 'set': lambda: set(objs), 'gen': lazily}[form]()

    def keep(coll, rows):
        real.append(coll)
        model.append([list(r) for r in rows])
        while len(real) > 6:
            real.pop(0)
            model.pop(0)

    def outcome(op, out, i, rows, what, fr=None):
        """rows: the collection's new content, or None where the edit must be rejected or is not specified."""
        ctx.ev(op['op'], i, out)
        if fr is not None and fr.fired:
            ctx.check(not out.ok, 'failure-swallowed', f'{what} returned although its iterable failed')
            rows = None
        elif rows is not None:
            ctx.must(out, 'edit-failed', f'{what} of {canon(model[i])}')
            model[i] = [list(r) for r in rows]
        if rows is None:
            ctx.probe('rejected edits')
            what = 'rejected ' + what
        check_all(what)

    def one(op):
        k = op['op']
        if k == 'read':
            for i in range(len(real)):
                check(i, 'reading')
            return
        if k == 'par':
            while len(real) > 3:
                real.pop()
                model.pop()
            ctx.parallel(op, [lambda ops=t['ops']: [one(q) for q in ops] for t in op['tasks']])
            ctx.probe('parallel phases')
            check_all('the threads ended')
            return
        i = op['c'] % len(real)
        if i in busy:
            return
        coll, rows = real[i], model[i]
        n = len(rows)
        if k == 'bump':
            j = op['i'] % n
            out = ctx.real(coll[j].set_bump_val, op['v'])
            new = [list(r) for r in rows]
            new[j][2] = op['v']
            outcome(op, out, i, new, 'setting a bump')
        elif k == 'bump-all':
            def all_bumps():
                for kr in coll:
                    kr.set_bump_val(op['v'])
            out = ctx.real(coll.set_bump_val, op['v']) if len(rows) % 2 else ctx.real(all_bumps)
            outcome(op, out, i, [[d, c, op['v']] for d, c, _ in rows], 'setting all bumps')
            ctx.probe('parallel shifts')
        elif k == 'set':
            j = op['i'] % n
            idx = j if op['i'] >= 0 else j - n
            s = dict(op['kr'])
            lo = rows[j - 1][0] if j else rows[j][0] - timedelta(400)
            hi = rows[j + 1][0] if j + 1 < n else rows[j][0] + timedelta(400)
            if op['fit'] and (hi - lo).days > 1:
                s['d'] = d2s(lo + timedelta(1 + int(op['u'] * ((hi - lo).days - 1))))
            d = s2d(s['d'])
            fits = (j == 0 or d > rows[j - 1][0]) and (j == n - 1 or d < rows[j + 1][0])
            out = ctx.real(coll.__setitem__, idx, make(s))
            if not fits:
                ctx.check(not out.ok, 'misplaced-accepted', f'key rate at {d} was set at index {idx} of {canon(rows)}')
            outcome(op, out, i, [list(r) for r in rows[:j]] + [row(s)] + [list(r) for r in rows[j + 1:]] if fits else None, f'assigning {d} at {idx}')
        elif k in ('del', 'pop'):
            if k == 'del' and op['s'] is not None:
                sl = slice(*op['s'])
                new = [list(r) for r in rows]
                del new[sl]
                out = ctx.real(coll.__delitem__, sl)
                outcome(op, out, i, new or None, f'deleting {op["s"]}')
            else:
                j = op['i'] % n
                idx = j if op['i'] >= 0 else j - n
                new = rows[:j] + rows[j + 1:]
                out = ctx.real(coll.__delitem__ if k == 'del' else coll.pop, idx)
                if not new:
                    ctx.check(not out.ok, 'emptied', 'the last key rate was deleted')
                outcome(op, out, i, new or None, f'{k} {idx}')
        elif k == 'remove':
            j = op['i'] % n
            if n > 1:
                out = ctx.real(coll.remove, KeyRate(DayCountConvention[rows[j][1]], rows[j][0]))
                outcome(op, out, i, rows[:j] + rows[j + 1:], 'removing')
        elif k in ('insert', 'append', 'iadd-one'):
            s = op['kr']
            new = merge(rows, [row(s)])
            kr = make(s)
            if k == 'insert':
                out = ctx.real(coll.insert, op['i'], kr)
            elif k == 'append':
                out = ctx.real(coll.append, kr)
            else:
                out = ctx.real(coll.__iadd__, kr)
            if new is None:
                ctx.check(not out.ok, 'duplicate-date-accepted', f'{k} of a second key rate at {s["d"]}')
            outcome(op, out, i, new, f'{k} {s["d"]}')
        elif k in ('extend', 'iadd'):
            new = merge(rows, [row(s) for s in op['krs']])
            objs = [make(s) for s in op['krs']]
            if same_key_different_bump(rows, [row(s) for s in op['krs']]):
                return
            busy.append(i)
            try:
                with ctx.frame(op) as fr:
                    out = ctx.real(coll.extend if k == 'extend' else coll.__iadd__, shape(objs, op['form']))
            finally:
                busy.remove(i)
            i = next(q for q in range(len(real)) if real[q] is coll) if any(q is coll for q in real) else None
            if i is None:
                return
            if k == 'iadd' and out.ok:
                ctx.check(out.value is coll, 'not-in-place', '+= gave another object')
            if new is None and not fr.fired:
                ctx.check(not out.ok, 'duplicate-date-accepted', f'{k} of a second key rate with the same date')
            outcome(op, out, i, new, k, fr)
        elif k == 'iadd-coll':
            o = op['o'] % len(real)
            new = merge(rows, model[o])
            out = ctx.real(coll.__iadd__, real[o])
            outcome(op, out, i, new, f'+= collection {o}')
        elif k == 'add':
            o = op['o'] % len(real)
            new = merge(rows, model[o])
            out = ctx.real(lambda: coll + real[o])
            ctx.ev('add', i, o, out)
            if new is not None:
                keep(ctx.must(out, 'addition-failed', 'adding collections'), new)
                ctx.probe('derived collections')
            check_all('adding collections')
        elif k == 'slice':
            sl = slice(*op['s'])
            new = rows[sl]
            out = ctx.real(coll.__getitem__, sl)
            ctx.ev('slice', i, out)
            if new:
                keep(ctx.must(out, 'slice-failed', str(sl)), sorted(new, key=lambda r: r[0]))
                ctx.probe('derived collections')
            check_all('slicing')
        elif k == 'build':
            new = merge([], [row(s) for s in op['krs']])
            full = len(new or []) == len(op['krs'])
            with ctx.frame(op) as fr:
                out = ctx.real(KeyRateCollection, shape([make(s) for s in op['krs']], op['form']))
            ctx.ev('build', out)
            if fr.fired:
                ctx.check(not out.ok, 'failure-swallowed', 'a collection was built although its iterable failed')
            elif full:
                keep(ctx.must(out, 'construction-failed', 'collection'), new)
            check_all('building another')
        elif k == 'bad':
            b = op['k']
            dup = dict(op['kr'], d=d2s(rows[0][0]), dcc='ACTUAL_OVER_360' if rows[0][1] != 'ACTUAL_OVER_360' else 'ACTUAL_OVER_365')
            fresh = dict(op['kr'], d=d2s(rows[-1][0] + timedelta(77)))
            calls = {'set-text': lambda: coll.__setitem__(0, 'text'), 'set-none': lambda: coll.__setitem__(n - 1, None),
                     'insert-text': lambda: coll.insert(0, 'text'), 'iadd-number': lambda: coll.__iadd__(3),
                     'iadd-mixed': lambda: coll.__iadd__([make(fresh), 'text']), 'del-range': lambda: coll.__delitem__(n + 2),
                     'set-range': lambda: coll.__setitem__(n + 2, make(fresh)), 'del-all': lambda: coll.__delitem__(slice(None)),
                     'extend-dup': lambda: coll.extend([make(fresh), make(dup)]), 'iadd-dup': lambda: coll.__iadd__([make(fresh), make(dup)]),
                     'append-dup': lambda: coll.append(make(dup)), 'clear': coll.clear, 'reverse': coll.reverse}
            out = ctx.real(calls[b])
            ctx.check(not out.ok or (b == 'reverse' and n == 1), 'bad-edit-accepted', f'{b} was accepted by {canon(rows)}')
            outcome(op, out, i, None, b)

    ctx.run_inner = lambda ops: [one(q) for q in ops]
    for s in plan['colls']:
        keep(KeyRateCollection(shape([make(x) for x in s['krs']], s['form'])), sorted((row(x) for x in s['krs']), key=lambda r: r[0]))
    check_all('construction')
    for op in plan['ops']:
        one(op)
    check_all('the whole history')
    for m in model:
        ctx.state([r[0] for r in m])
