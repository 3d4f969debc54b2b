"""Execute one scenario of one property and judge it."""
import copy
import hashlib
import json
import os
import re
import shutil
import time

from . import kernel, minimise, props, world

golden_cache = {}


def fresh(root):
    if os.path.isdir(root):
        shutil.rmtree(root)
    os.makedirs(root)


def warm_up(root):
    """Import what runs import lazily: forked children then find it loaded."""
    import importlib
    import random
    from . import design as dz
    d = dz.gen_design(random.Random(1), 0, rich=True)
    run = {'op': 'run', 'gds': 'in/a.gds', 'out': 'out', 'cell': 'TOP', 'engines': ['2.5D', 'fastercap', 'fastcap', 'magic'],
           'opts': ['--diel', 'none', '--mode', 'RC'], 'tools': {}}
    bad = dict(run, out='out2', tools={'FasterCap': [{'outcome': 'fail_before'}]})
    for r in (run, bad):
        fresh(root)
        w = world.World({'designs': [d], 'steps': [{'op': 'gds', 'path': 'in/a.gds', 'design': 0}, r]}, root, {})
        w.warm = True
        evs = w.execute()
        for m in evs[-1]['res'].get('mods', ()):
            try:
                importlib.import_module(m)
            except Exception:
                pass
    shutil.rmtree(root, ignore_errors=True)


def signature(w):
    """A digest of the history: what every process did, in order, with every fault and tool step."""
    h = hashlib.sha256()

    def feed(res):
        h.update(str(res['rc']).encode())
        for line in res['trace'].splitlines():
            if line[:1] == 'O':
                p = line.split(' ', 4)
                h.update((p[2] + os.path.basename(p[4]) + '\n').encode())
            elif line[:1] in 'NEK' or line.endswith('!'):
                h.update(line.replace(w.root, '').encode())
    for st, ev in zip(w.sc['steps'], w.events):
        h.update(st['op'].encode())
        if st['op'] == 'rdb':
            h.update(ev['bytes'])
        if 'res' in ev:
            feed(ev['res'])
        for s in ev.get('subs', ()):
            feed(s['res'])
        if 'schedule' in ev:
            h.update(str(ev['schedule']).encode())
    return h.hexdigest()[:20]


def exact(w):
    """A digest of the complete trace: two executions of one scenario must agree on it."""
    h = hashlib.sha256()
    for ev in w.events:
        for res in ([ev['res']] if 'res' in ev else []) + [s['res'] for s in ev.get('subs', ())]:
            h.update(res['trace'].replace(w.root, '').encode())
            h.update(json.dumps([res['rc'], res['ops'], res['reads'], res['sim_ns']]).encode())
        if 'schedule' in ev:
            h.update(str(ev['schedule']).encode())
    return h.hexdigest()[:20]


def run_one(prop, sc, root, full=False):
    """-> dict(violations, stats, signature, nontrivial)"""
    fresh(root)
    p = props.ALL[prop]()
    w = world.World(copy.deepcopy(sc), root, golden_cache)
    t = time.monotonic()
    try:
        w.execute()
        viol = p.judge(w)
        for i, ev in enumerate(w.events):
            for res in ([ev['res']] if 'res' in ev else []) + [s['res'] for s in ev.get('subs', ())]:
                if res['escapes']:
                    w.count('escapes', res['escapes'])
        ans = {'violations': viol, 'stats': w.stats, 'signature': signature(w), 'exact': exact(w),
               'nontrivial': bool(p.nontrivial(w)), 'pair': p.pair_digest(w) if hasattr(p, 'pair_digest') else None}
        if full:
            ans['trace'] = [[{'rc': r['rc'], 'exc': r.get('exc'), 'fired': r.get('fired'),
                              'trace': r['trace'].replace(root, '')} for r in
                             ([ev['res']] if 'res' in ev else []) + [s['res'] for s in ev.get('subs', ())]]
                            for ev in w.events]
            ans['schedules'] = [ev.get('schedule') for ev in w.events]
    except kernel.HarnessError as e:
        ans = {'harness': str(e)[-1500:], 'stats': w.stats}
    finally:
        shutil.rmtree(root, ignore_errors=True)
    if len(golden_cache) > 300:
        golden_cache.clear()
    ans['t'] = time.monotonic() - t
    return ans


def serve(req, root):
    cmd = req['cmd']
    if cmd == 'job':
        sc = req.get('scenario')
        if sc is None:
            sc = props.ALL[req['prop']]().scenario(req['seed'], req['idx'])
        ans = run_one(req['prop'], sc, root, req.get('full', False))
        if ans.get('violations') or req.get('want_scenario'):
            ans['scenario'] = sc
        ans['idx'] = req.get('idx')
        return ans
    if cmd == 'minimise':
        sc, n = minimise.minimise(req['prop'], req['scenario'], req['kind'], root, req.get('seconds', 60))
        return {'scenario': sc, 'tried': n}
    raise ValueError(cmd)
