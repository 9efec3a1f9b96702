"""Minimising a failing plan: fewer operations, faults, nested operations and thread switches."""
import copy
import time

from . import child


def lists_of(plan):
    """Paths of all shrinkable lists."""
    out = []

    def walk(node, path):
        if isinstance(node, dict):
            for k, v in node.items():
                if k in ('ops', 'switches', 'rounds') and isinstance(v, list):
                    out.append(path + (k,))
                if k != 'switches':
                    walk(v, path + (k,))
        elif isinstance(node, list):
            for i, v in enumerate(node):
                if isinstance(v, (dict, list)):
                    walk(v, path + (i,))
    walk(plan, ())
    return out


def get(plan, path):
    for p in path:
        plan = plan[p]
    return plan


def drop_key_candidates(plan):
    out = []

    def walk(node, path):
        if isinstance(node, dict):
            for k, v in node.items():
                if k in ('fault', 'inner') and v:
                    out.append(path + (k,))
                walk(v, path + (k,))
        elif isinstance(node, list):
            for i, v in enumerate(node):
                if isinstance(v, (dict, list)):
                    walk(v, path + (i,))
    walk(plan, ())
    return out


def minimise(prop, result, budget_s=45.0, max_runs=400):
    best = result
    cls = result['cls']
    start = time.monotonic()
    runs = 0
    cache = {}

    def spent():
        return runs >= max_runs or time.monotonic() - start > budget_s

    def attempt(plan):
        nonlocal best, runs
        key = repr(plan)
        if key in cache or spent():
            return False
        cache[key] = 1
        runs += 1
        res = child.run_forked(prop, plan)
        if res['status'] == 'violation' and res['cls'] == cls:
            best = res
            return True
        return False

    # replaying the recorded plan (explicit switches) must fail too; otherwise keep the original
    if not attempt(copy.deepcopy(result['plan'])):
        return result, runs
    changed = True
    while changed and not spent():
        changed = False
        for path in lists_of(best['plan']):
            try:
                n = len(get(best['plan'], path))
            except (KeyError, IndexError, TypeError):
                continue
            size = max(1, n // 2)
            while size >= 1:
                i = 0
                while True:
                    try:
                        cur = get(best['plan'], path)
                    except (KeyError, IndexError, TypeError):
                        break
                    if i >= len(cur) or spent():  # copying long schedules is slow too
                        break
                    cand = copy.deepcopy(best['plan'])
                    del get(cand, path)[i:i + size]
                    if attempt(cand):
                        changed = True
                    else:
                        i += size
                size //= 2
        for path in drop_key_candidates(best['plan']):
            if spent():
                break
            cand = copy.deepcopy(best['plan'])
            try:
                parent = get(cand, path[:-1])
                del parent[path[-1]]
            except (KeyError, IndexError, TypeError):
                continue
            if attempt(cand):
                changed = True
        simplify = getattr(prop, 'simplify', None)
        if simplify:
            for cand in simplify(copy.deepcopy(best['plan'])):
                if spent():
                    break
                if attempt(cand):
                    changed = True
    return best, runs
