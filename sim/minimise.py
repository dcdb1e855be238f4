"""Delta debugging of a failing case: operations first, then schedule decisions."""
import copy
import time


def _ddmin(items, test):
    """items: list; test(sublist) -> still fails.  Returns a smaller list."""
    n = 2
    if items and test([]):
        return []
    while len(items) >= 2:
        size = max(1, len(items) // n)
        chunks = [items[i:i + size] for i in range(0, len(items), size)]
        for j in range(len(chunks)):
            rest = [x for jj, c in enumerate(chunks) if jj != j for x in c]
            if test(rest):
                items = rest
                n = max(n - 1, 2)
                break
        else:
            if size == 1:
                break
            n = min(len(items), n * 2)
    return items


def minimise(prop, case, kind, budget_s, execute):
    stop = time.monotonic() + budget_s
    tries = 0

    def fails(plan, decisions):
        nonlocal tries
        if time.monotonic() > stop:
            return False
        tries += 1
        r = execute(prop, {'plan': plan, 'decisions': decisions, 'run_salt': case['run_salt']})
        v = r.get('viol')
        return bool(v) and v['kind'] == kind

    plan, dec = case['plan'], case['decisions']
    if not fails(plan, dec):
        return {'ok': False, 'tries': tries}
    start = (_size(plan), sum(map(len, dec.values())))

    def with_ops(p, where, ops):
        q = copy.copy(p)
        if where[0] == 'setup':
            q['setup'] = ops
        else:
            q['clients'] = [ops if i == where[1] else c for i, c in enumerate(p['clients'])]
        return q

    for rnd in range(3):
        before = (_size(plan), sum(map(len, dec.values())))
        # decisions all at once, then operations, then decisions one by one
        places = [('client', i) for i in range(len(plan.get('clients', [])))]
        if 'setup' in plan:
            places.append(('setup',))
        for w in places:
            cur = plan['setup'] if w[0] == 'setup' else plan['clients'][w[1]]
            small = _ddmin(list(cur), lambda ops: fails(with_ops(plan, w, ops), dec))
            plan = with_ops(plan, w, small)
        flat = [(k, a) for k, acts in dec.items() for a in acts]

        def back(fl):
            d = {}
            for k, a in fl:
                d.setdefault(k, []).append(a)
            return d
        flat = _ddmin(flat, lambda fl: fails(plan, back(fl)))
        dec = back(flat)
        if hasattr(prop, 'shrink'):
            changed = True
            while changed and time.monotonic() < stop:
                changed = False
                for cand in prop.shrink(plan):
                    if fails(cand, dec):
                        plan, changed = cand, True
                        break
        if (_size(plan), sum(map(len, dec.values()))) == before:
            break
    return {'ok': True, 'plan': plan, 'decisions': dec, 'tries': tries,
            'from': list(start), 'to': [_size(plan), sum(map(len, dec.values()))]}


def _size(plan):
    return sum(len(c) for c in plan.get('clients', [])) + len(plan.get('setup', []))
