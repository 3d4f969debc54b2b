"""Reduce a failing scenario while it keeps failing in the same way."""
import copy
import re
import time


def candidates(sc):
    """smaller scenarios, most promising first"""
    steps = sc['steps']
    n = len(steps)
    # halves, then single steps
    if n > 3:
        for a, b in ((0, n // 2), (n // 2, n)):
            if not any(needed(steps, i) for i in range(a, b)):
                yield dict(sc, steps=steps[:a] + steps[b:])
    for i in range(n - 1, -1, -1):
        if not needed(steps, i):
            yield dict(sc, steps=steps[:i] + steps[i + 1:])

    def put(i, st):
        return dict(sc, steps=steps[:i] + [st] + steps[i + 1:])

    for i, st in enumerate(steps):
        if st['op'] == 'par':
            if len(st['runs']) > 1:
                for k in range(len(st['runs'])):
                    yield put(i, dict(st, runs=st['runs'][:k] + st['runs'][k + 1:]))
            o = st['sched'].get('order')
            if o:
                for k in range(len(o)):            # merge a switch away
                    yield put(i, dict(st, sched={'order': merge(o[:k] + o[k + 1:])}))
            for k, r in enumerate(st['runs']):
                for r2 in smaller_run(r):
                    yield put(i, dict(st, runs=st['runs'][:k] + [r2] + st['runs'][k + 1:]))
        elif st['op'] == 'run':
            for r2 in smaller_run(st):
                yield put(i, r2)
        elif st['op'] == 'gds' and st.get('dt'):
            yield put(i, {k: x for k, x in st.items() if k != 'dt'})
    for i, d in enumerate(sc.get('designs', ())):
        for c, cell in enumerate(d['cells']):
            for k in range(len(cell['shapes'])):
                if len(cell['shapes'][k]) == 5 and sum(len(s) == 5 for s in cell['shapes']) <= 2:
                    continue                      # layouts without nets can't be extracted
                d2 = copy.deepcopy(d)
                del d2['cells'][c]['shapes'][k]
                yield dict(sc, designs=sc['designs'][:i] + [d2] + sc['designs'][i + 1:])


def needed(steps, i):
    """an input without which a later run would fail for a trivial reason"""
    st = steps[i]
    if st['op'] in ('file', 'mkdir', 'copy'):
        return True
    if st['op'] != 'gds' or any(s['op'] == 'gds' and s['path'] == st['path'] for s in steps[:i]):
        return False
    return st['path'] in str([s for s in steps[i + 1:] if s['op'] in ('run', 'par')])


def merge(order):
    res = []
    for i, n in order:
        if res and res[-1][0] == i:
            res[-1][1] += n
        else:
            res.append([i, n])
    return res


def smaller_run(r):
    if r.get('chain'):
        for k in range(len(r['chain'])):
            yield dict(r, chain=r['chain'][:k] + r['chain'][k + 1:])
    fs = r.get('faults', [])
    for k in range(len(fs)):
        yield dict(r, faults=fs[:k] + fs[k + 1:])
    for key in ('budget', 'orphan', 'form', 'cwd', 'slash', 'exe', 'cache_dir', 'cache', 'pid', 'rng', 'env', 'schematic'):
        if key in r:
            yield {k: x for k, x in r.items() if k != key}
    if len(r.get('engines', ())) > 1:
        for e in r['engines']:
            yield dict(r, engines=[x for x in r['engines'] if x != e])
    if r.get('opts') and r['opts'] != ['--diel', 'none']:
        k = r['opts'].index('--blackbox') if '--blackbox' in r['opts'] else len(r['opts'])
        if r['opts'][k:k + 2] != r['opts']:
            yield dict(r, opts=['--diel', 'none'] + r['opts'][k:k + 2] if r['opts'][:2] != ['--diel', 'none'] or len(r['opts']) > 4 else r['opts'][k:k + 2])
    for kind, specs in r.get('tools', {}).items():
        yield dict(r, tools={k: x for k, x in r['tools'].items() if k != kind})
        for k, s in enumerate(specs):
            for key in s:
                if key == 'chat' and len(s[key]) > 1:
                    for j in range(len(s[key])):
                        s2 = dict(s, chat=s[key][:j] + s[key][j + 1:])
                        yield dict(r, tools=dict(r['tools'], **{kind: specs[:k] + [s2] + specs[k + 1:]}))
                s2 = {a: b for a, b in s.items() if a != key}
                yield dict(r, tools=dict(r['tools'], **{kind: specs[:k] + [s2] + specs[k + 1:]}))


def minimise(prop, sc, kind, root, seconds):
    from . import execute
    end = time.monotonic() + seconds
    tried = 0
    # first fix the schedules that failed
    a = execute.run_one(prop, sc, root, full=True)
    kinds = {signature(x) for x in a.get('violations', ())} or {kind}     # a smaller scenario must not fail in other ways
    if 'schedules' in a:
        steps = []
        for st, sch in zip(sc['steps'], a['schedules']):
            if st['op'] == 'par' and sch:
                st = dict(st, sched={'order': merge([[x, 1] for x in sch])})
            steps.append(st)
        fixed = dict(sc, steps=steps)
        if fails(prop, fixed, kind, root, kinds):
            sc = fixed
    progress = True
    while progress and time.monotonic() < end:
        progress = False
        for c in candidates(sc):
            if time.monotonic() > end:
                break
            tried += 1
            if fails(prop, c, kind, root, kinds):
                sc = c
                progress = True
                break
    return sc, tried


def fails(prop, sc, kind, root, kinds):
    from . import execute
    try:
        a = execute.run_one(prop, sc, root)
    except Exception:
        return False
    vs = a.get('violations', ())
    return any(x['kind'] == kind for x in vs) and {signature(x) for x in vs} <= kinds


def signature(x):
    """kind of a violation; for runs that fail, also how they fail"""
    if x['kind'] != 'failed_without_reason':
        return x['kind']
    return x['kind'] + re.sub(r"[^A-Za-z ]+|'[^']*'", '', x['text'].partition(':')[2])[:40]
