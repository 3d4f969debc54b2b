"""Driver: `main.py check <property> quick|thorough`, `main.py replay <file>`, `main.py determinism`.

Exit status of a check: 0 the property held on everything explored, 1 violation, 2 no answer.
"""
import collections
import fcntl
import json
import os
import selectors
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('KPEX_REPO', '/repo')
PY = '/opt/venv/bin/python'
BUILD = os.path.join(VERIF, 'build')
REPLAYS = os.path.join(BUILD, 'replays')
SO = os.path.join(BUILD, 'simio.so')


def log(*a):
    print(*a, flush=True)


def build():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        src = os.path.join(VERIF, 'sim', 'simio.c')
        if not os.path.exists(SO) or os.path.getmtime(SO) < os.path.getmtime(src):
            tmp = f'{SO}.{os.getpid()}'
            subprocess.run(['gcc', '-O2', '-Wall', '-Wno-format-truncation', '-shared', '-fPIC', '-o', tmp, src, '-ldl'], check=True)
            os.replace(tmp, SO)
        if REPO == '/repo' and not os.environ.get('SIM_NOGEN'):
            r = subprocess.run(['bash', '/opt/vp/gen.sh'], capture_output=True, text=True)
            if r.returncode:
                log('generating the protobuf and technology files failed:\n' + r.stderr[-3000:])
                sys.exit(2)


class Scratch:
    """Roots of equal length, removed at the end"""

    def __init__(self):
        base = '/dev/shm' if os.access('/dev/shm', os.W_OK) and shutil.disk_usage('/dev/shm').free > 300 << 20 else '/tmp/shm'
        self.dir = f'{base}/kpx{os.getpid():07d}'
        if base == '/tmp/shm':
            os.makedirs(base, exist_ok=True)
        os.makedirs(self.dir)

    def root(self, i):
        d = f'{self.dir}/w{i:02d}'
        os.makedirs(d, exist_ok=True)
        return d + '/r'

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


class Worker:
    def __init__(self, scratch, i, hashseed):
        self.i = i
        self.hashseed = hashseed
        e = {k: x for k, x in os.environ.items() if k in ('PATH', 'HOME', 'LANG', 'KPEX_REPO', 'SIM_PROC_TIMEOUT')}
        e.update(LD_PRELOAD=SO, PYTHONHASHSEED=str(hashseed), TZ='UTC', PYTHONDONTWRITEBYTECODE='1', COLUMNS='120', LC_ALL='C.UTF-8',
                 MPLBACKEND='Agg', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
        self.root = scratch.root(i)
        self.err = open(os.path.join(scratch.dir, f'err{i}'), 'w+')
        self.p = subprocess.Popen([PY, '-B', os.path.join(VERIF, 'sim', 'worker.py'), self.root], env=e, stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=self.err, text=True, cwd=scratch.dir)
        self.job = None
        self.queue = collections.deque()

    def send(self, req):
        self.job = req
        self.t = time.monotonic()
        self.p.stdin.write(json.dumps(req) + '\n')
        self.p.stdin.flush()

    def recv(self):
        line = self.p.stdout.readline()
        if not line:
            self.err.seek(0)
            return {'error': 'worker died: ' + self.err.read()[-2000:], 'dead': True}
        return json.loads(line)

    def close(self):
        self.p.kill()
        self.p.wait()
        self.err.close()


class Pool:
    def __init__(self, n, pair=False):
        self.scratch = Scratch()
        # the hash seed of a worker must not matter: replays use the one of the failing worker
        self.workers = [Worker(self.scratch, i, 0 if not pair else (0 if i % 2 == 0 else 1000 + i)) for i in range(n)]
        for w in self.workers:
            a = w.recv()
            if 'ready' not in a:
                log(str(a)[:4000])
                self.close()
                sys.exit(2)

    def close(self):
        for w in self.workers:
            w.close()
        self.scratch.close()

    def call(self, req, i=0):
        self.workers[i].send(req)
        return self.workers[i].recv()

    def run(self, reqs, on_answer, deadline, only=None):
        """reqs: iterator of requests. on_answer(worker, req, answer) -> True to stop"""
        sel = selectors.DefaultSelector()
        live = 0

        def feed(w):
            nonlocal live
            if time.monotonic() > deadline:
                return False
            r = next(reqs, None) if not w.queue else w.queue.popleft()
            if r is None:
                return False
            w.send(r)
            return True
        for w in self.workers:
            if only is not None and w.i not in only:
                continue
            if feed(w):
                sel.register(w.p.stdout, selectors.EVENT_READ, w)
                live += 1
        stop = False
        while live:
            for key, _ in sel.select(5):
                w = key.data
                a = w.recv()
                if a.get('dead'):
                    log(a['error'])
                    sel.unregister(w.p.stdout)
                    live -= 1
                    stop = stop or on_answer(w, w.job, a)
                    continue
                stop = on_answer(w, w.job, a) or stop
                if stop or not feed(w):
                    sel.unregister(w.p.stdout)
                    live -= 1


def known_findings():
    res = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            if line.startswith('finding: '):
                # finding: property=<id> kind=<kind> match=<text> | what fails
                head, _, what = line[9:].partition('|')
                d = dict(x.split('=', 1) for x in head.split() if '=' in x)
                d['what'] = what.strip()
                res.append(d)
    return res


def is_known(prop, viol, findings):
    for f in findings:
        if f.get('property') == prop and f.get('kind') == viol['kind'] and f.get('match', '').replace('%20', ' ') in viol['text']:
            return f
    return None


class Result:
    def __init__(self):
        self.stats = collections.Counter()
        self.sigs = set()
        self.nontriv = set()
        self.done = self.harness = self.errors = 0
        self.slowest = (0, 0)               # seconds, scenario
        self.harness_text = collections.Counter()
        self.violation = None
        self.known = {}


def check(prop, tier, seed):
    sys.path.insert(0, VERIF)
    from sim import props
    P = props.ALL[prop]
    t0 = time.monotonic()
    build()
    findings = known_findings()
    n_cpu = min(8, max(1, len(os.sched_getaffinity(0))))
    n_scen = P.quick if tier == 'quick' else P.quick * 15
    cap = (400 if tier == 'quick' else 780)
    pair = getattr(P, 'pair', False)
    pool = Pool(n_cpu, pair)
    t_ready = time.monotonic()
    res = Result()
    samples = []
    pairs = {}
    try:
        def requests():
            i = 0
            while i < n_scen:
                yield {'cmd': 'job', 'prop': prop, 'seed': seed, 'idx': i}
                i += 1

        def on_answer(w, req, a):
            res.done += 1
            res.slowest = max(res.slowest, (round(time.monotonic() - w.t, 1), req['idx']))
            if 'error' in a:
                res.errors += 1
                res.harness_text[a['error'].strip().splitlines()[-1][:200] if a['error'].strip() else '?'] += 1
                return False
            res.stats.update(a.get('stats', {}))
            if 'harness' in a:
                res.harness += 1
                res.harness_text[a['harness'].strip().splitlines()[0][:200]] += 1
                return False
            res.sigs.add(a['signature'])
            if a['nontrivial']:
                res.nontriv.add(a['signature'])
            if len(samples) < 3 and a['nontrivial']:
                samples.append(req['idx'])
            bad = []
            for x in a['violations']:
                f = is_known(prop, x, findings)
                if f:
                    res.known[json.dumps(f, sort_keys=True)] = f
                else:
                    bad.append(x)
            if pair and not bad:
                # the same scenario under another hash seed
                key = req['idx']
                if key in pairs:
                    other = pairs.pop(key)
                    if other[0] != a['pair']:
                        bad = [{'kind': 'hash_seed', 'step': -1, 'text': f'results differ between runs of Python with hash seeds {other[1]} and {w.hashseed}'}]
                        a['scenario'] = req.get('scenario')
                else:
                    pairs[key] = (a['pair'], w.hashseed)
                    partner = pool.workers[w.i ^ 1] if (w.i ^ 1) < len(pool.workers) else w
                    if partner is not w:
                        partner.queue.append(dict(req))
            if bad:
                if res.violation is None or req['idx'] < res.violation['idx']:
                    sc = a.get('scenario') or P().scenario(seed, req['idx'])
                    res.violation = {'property': prop, 'verif_seed': seed, 'idx': req['idx'], 'hashseed': w.hashseed,
                                     'worker': w.i, 'violation': bad[0], 'scenario': sc}
                return True
            return False
        pool.run(requests(), on_answer, t0 + cap)
        rc = 0
        replay = None
        if res.violation:
            replay = report(pool, res.violation, tier)
            rc = 1
        elif res.done - res.errors - res.harness < 0.25 * n_scen or res.harness + res.errors > 0.5 * res.done:
            rc = 2
        for w_ in samples[:2]:
            pass
        sample_texts = [describe(P().scenario(seed, i)) for i in samples]
    finally:
        pool.close()
    wall = time.monotonic() - t0
    evidence(prop, P, tier, seed, res, wall, t_ready - t0, n_cpu, sample_texts, rc, replay)
    for f in res.known.values():
        log(f"KNOWN-FINDING: property={prop} {f['what']}")
    log(f"{prop} {tier}: {res.done} scenarios, {res.stats['runs']} simulated runs, {len(res.sigs)} distinct histories, "
        f"{len(res.nontriv)} of them exercise the property, {res.harness} not modelled, {res.errors} errors, {wall:.1f} s (slowest: {res.slowest[0]} s, scenario {res.slowest[1]})")
    for t, n in res.harness_text.most_common(3):
        log(f'  ({n}x) {t}')
    if rc == 2:
        log(f'{prop}: no answer')
    return rc


def report(pool, viol, tier):
    """minimise, write the replay file, confirm it"""
    w = viol['worker']
    # fail fast on what cannot be minimised
    prop, kind = viol['property'], viol['violation']['kind']
    sc, tried = viol['scenario'], 0
    if kind != 'hash_seed':
        a = pool.call({'cmd': 'minimise', 'prop': prop, 'scenario': sc, 'kind': kind, 'seconds': 45}, w)
        if 'scenario' in a:
            sc, tried = a['scenario'], a['tried']
    a = pool.call({'cmd': 'job', 'prop': prop, 'scenario': sc, 'full': True}, w)
    vs = [x for x in a.get('violations', ()) if x['kind'] == kind] or [viol['violation']]
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, f"{prop}_{viol['verif_seed']}_{viol['idx']}.json")
    with open(path, 'w') as f:
        json.dump({'property': prop, 'verif_seed': viol['verif_seed'], 'index': viol['idx'], 'hashseed': viol['hashseed'],
                   'violation': vs[0], 'exact': a.get('exact'), 'minimised_in': tried, 'scenario': sc,
                   'schedules': a.get('schedules'), 'trace': a.get('trace')}, f, indent=1)
    log(f"{prop}: scenario {viol['idx']} of seed {viol['verif_seed']}, minimised with {tried} candidates:")
    log('  ' + describe(sc))
    log(f"  step {vs[0]['step']}: {vs[0]['kind']}: {vs[0]['text'][:600]}")
    log(f"  replay: python3 {os.path.join(VERIF, 'sim', 'main.py')} replay {path}")
    log(f'VIOLATION property={prop} replay={path}')
    return path


def describe(sc):
    out = []
    for st in sc['steps']:
        if st['op'] == 'par':
            out.append('par[' + ' || '.join(describe_run(r) for r in st['runs']) + ']')
        elif st['op'] == 'run':
            out.append(describe_run(st))
        else:
            out.append(st['op'] + '(' + ','.join(str(x)[:40] for k, x in st.items() if k != 'op') + ')')
    return ' ; '.join(out)[:1500]


def describe_run(r):
    s = 'run(' + '+'.join(r.get('engines', [])) + ' ' + ' '.join(r.get('opts', []))
    for k in ('entry', 'gds', 'lvsdb', 'out', 'cell', 'cache', 'cache_dir', 'budget', 'orphan', 'form', 'cwd'):
        if k in r:
            s += f' {k}={r[k]}'
    if r.get('faults'):
        s += ' faults=' + json.dumps(r['faults'])
    if r.get('tools'):
        s += ' tools=' + json.dumps(r['tools'])[:300]
    return s + ')'


STUBS = ['klayout LVS executable (simulated: real KLayout LVS library on a reduced rule deck)', 'FasterCap', 'fastcap', 'magic', 'netlistsvg',
         'pipes and process table', 'clock, process id, random source, directory order', 'disk errors, crashes and power loss (decided at the libc seam; data is stored in a tmpfs directory)']
REAL = ['all of klayout_pex (command line, LVS cache, engines, parsers, writers, logging)', 'the klayout Python library', 'Python file and gzip I/O',
        'technology files generated by gen_tech_pb from the current tree']


def evidence(prop, P, tier, seed, res, wall, setup, cpus, samples, rc, replay):
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    s = res.stats
    good = max(wall - setup, 0.001)
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': res.done - res.errors - res.harness,
            'distinct_nontrivial': len(res.nontriv),
            'rule': P.rule if hasattr(P, 'rule') else 'a history (order of all operations, tool steps, faults and process switches, as a digest) that '
                    'no earlier scenario produced and that exercises the property: ' + (P.__doc__ or '').strip(),
            'samples': samples or ['none'],
            'simulated_runs': s['runs'] + s['golden_runs'] + s['tool_runs'],
            'reference_runs': s['golden_runs'],
            'seeds_per_hour': int(res.done / good * 3600),
            'simulated_runs_per_hour': int((s['runs'] + s['golden_runs']) / good * 3600),
            'simulated_seconds': round(s['sim_ns'] / 1e9, 3),
            'faults_injected': {k[6:]: n for k, n in sorted(s.items()) if k.startswith('fault:')},
            'distinct_histories': len(res.sigs),
            'process_switches': s['switches'],
            'counters': {k: n for k, n in sorted(s.items()) if ':' not in k and k != 'sim_ns'},
            'scenarios_outside_the_model': res.harness,
            'harness_errors': res.errors,
            'real_code': REAL if not hasattr(P, 'real') else P.real,
            'stubs': STUBS if not hasattr(P, 'stubs') else P.stubs,
            'workers': cpus,
            'violation': None if rc != 1 else {'replay': replay, 'text': res.violation['violation']['text'][:500]},
        },
        'wall_s': round(wall, 2),
        'assumptions': ['tools behave at their process boundary as the step scripts in sim/tools.py do',
                        'a layout that changes gets another modification time'],
        'violations': 1 if rc == 1 else 0,
    }
    p = os.path.join(d, prop + '.json')
    with open(p + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(p + '.tmp', p)


def replay(path):
    build()
    d = json.load(open(path))
    pool = Pool(1)
    try:
        if d['violation']['kind'] == 'hash_seed':
            pool.close()
            pool = Pool(2, True)
            a, b = (pool.call({'cmd': 'job', 'prop': d['property'], 'scenario': d['scenario'], 'full': True}, i) for i in (0, 1))
            vs = [] if a['pair'] == b['pair'] else [d['violation']]
        else:
            a = pool.call({'cmd': 'job', 'prop': d['property'], 'scenario': d['scenario'], 'full': True})
            vs = a.get('violations', [])
    finally:
        pool.close()
    same = [x for x in vs if x['kind'] == d['violation']['kind']]
    for x in vs:
        log(f"step {x['step']}: {x['kind']}: {x['text'][:1000]}")
    if not same:
        log('not reproduced' + (': ' + a['harness'] if 'harness' in a else ''))
        return 0
    log('reproduced' + (' exactly (same operations, times and schedule)' if a.get('exact') == d['exact'] else ', with a different trace'))
    log(f"VIOLATION property={d['property']} replay={path}")
    return 1


def determinism(n=8):
    """the same scenarios, twice, on different workers and with other hash seeds: equal traces"""
    sys.path.insert(0, VERIF)
    from sim import props
    build()
    bad = 0
    pool = Pool(8, True)
    seen = {}
    try:
        def reqs():
            for rep in range(3):
                for p in sorted(props.ALL):
                    for i in range(n):
                        yield {'cmd': 'job', 'prop': p, 'seed': 99, 'idx': i}

        def ans(w, req, a):
            nonlocal bad
            k = (req['prop'], req['idx'])
            e = a.get('exact') or str(a)[:300]
            if k in seen and seen[k][0] != e:
                bad += 1
                log(f'{k}: different trace on worker {w.i} (hash seed {w.hashseed}) than on {seen[k][1]}')
            seen.setdefault(k, (e, w.i))
        pool.run(reqs(), ans, time.monotonic() + 3600)
    finally:
        pool.close()
    log(f'{len(seen)} scenarios executed three times, {bad} differences')
    return 1 if bad else 0


if __name__ == '__main__':
    cmd = sys.argv[1]
    if cmd == 'check':
        sys.exit(check(sys.argv[2], sys.argv[3] if len(sys.argv) > 3 else 'quick', int(os.environ.get('VERIF_SEED', '1') or 1)))
    if cmd == 'replay':
        sys.exit(replay(sys.argv[2]))
    if cmd == 'determinism':
        sys.exit(determinism(int(sys.argv[2]) if len(sys.argv) > 2 else 8))
    if cmd == 'build':
        build()
