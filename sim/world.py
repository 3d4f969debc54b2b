"""A simulated world: one scenario (plain JSON) is executed step by step, every step is recorded.

A scenario is {"designs": [...], "steps": [...], ...}; everything that happens is decided by it.
Nothing in here judges: see props.py.
"""
import copy
import gc
import json
import logging
import os
import random
import re
import shutil
import signal
import sys
import tempfile

from . import artifacts, kernel, popen, rdbs, tools
from . import design as dz

TOOLNAMES = ('klayout', 'FasterCap', 'fastcap', 'magic', 'netlistsvg')
OPS_LIMIT = 20000


def bring_down():
    """The end of a Python process: what atexit would do."""
    logging.shutdown()
    gc.collect()


class ErrorCounter(logging.Handler):
    n = 0

    def emit(self, record):
        if record.levelno >= logging.ERROR:
            self.n += 1


def call_main(entry, argv):
    sys.argv = list(argv)
    try:
        if entry == 'kpex':
            import klayout_pex.__main__ as m
            m.main()
        elif entry == 'netlist':
            import klayout_pex.netlist.__main__ as m
            m.main()
        elif entry == 'magiclog':
            import klayout_pex.magic.magic_log_analyzer as m
            m.main()
        elif entry == 'repair':
            import klayout_pex.klayout.repair_rdb as m
            if len(sys.argv) < 2:
                return 1, ''
            errors = ErrorCounter()
            logging.getLogger('__kpex__').addHandler(errors)
            m.repair_rdb(sys.argv[1])
            if errors.n:
                return 1, 'an error was logged'
        else:
            raise kernel.HarnessError(f'unknown entry {entry}')
        return 0, ''
    except SystemExit as e:
        c = e.code
        return (0 if c is None else c if isinstance(c, int) else 1), f'exit {c}'
    except KeyboardInterrupt:
        return 130, 'KeyboardInterrupt'
    except Exception as e:
        return 1, f'{type(e).__name__}: {e}'[:1000]


def record_logging():
    """From now on, in this simulated process: what is logged while a log file is attached.
    Returns a list; messages go to its last element, as [family of the log file, text]"""
    import logging
    recs = []
    real = logging.Logger.callHandlers

    def call_handlers(logger, record):
        if recs and len(recs[-1]) < 20000:
            for h in logger.handlers:
                if isinstance(h, logging.FileHandler) and record.levelno >= h.level:
                    recs[-1].append(['kpex_plain' if 'plain' in os.path.basename(h.baseFilename) else 'kpex', record.getMessage()])
        return real(logger, record)
    logging.Logger.callHandlers = call_handlers
    return recs


class World:
    def __init__(self, scenario, root, golden=None, keep=False):
        self.sc = scenario
        self.root = root
        self.designs = scenario.get('designs', [])
        self.now = kernel.T0 + scenario.get('t0', 0)
        self.mono = 10**12
        self.seed = scenario.get('seed', 0)
        self.nproc = 0
        self.events = []             # one per step
        self.stats = {}
        self.mtimes = {}
        self.warm = False
        self.dirty = []              # files of the last run whose content is not surely on disk
        self.gds_history = {}        # path -> [(event index, design, fmt)]
        self.golden_cache = golden if golden is not None else {}
        for d in ('bin', 'in', 'home', 'tmp', 'tooltmp'):
            os.makedirs(os.path.join(root, d))
        for t in TOOLNAMES:
            p = os.path.join(root, 'bin', t)
            with open(p, 'w'):
                pass
            os.chmod(p, 0o755)
        with open(os.path.join(root, 'in', 'magicrc'), 'w') as f:
            f.write('# magicrc\n')
        os.environ['SIM_TOOLTMP'] = os.path.join(root, 'tooltmp')

    # -- helpers --
    def path(self, p):
        return os.path.join(self.root, p)

    def layout_bytes(self, i, fmt):
        return dz.to_bytes(self.designs[i], fmt)

    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def run_dir(self, run):
        stem = os.path.basename(run.get('gds') or run['lvsdb']).split('.')[0]
        return self.path(os.path.join(run.get('out', 'output'), f"{stem}__{run['cell']}"))

    def pick(self, st):
        """one of the results that earlier runs left"""
        l = []
        for d, subs, files in os.walk(self.path(st['dir'])):
            subs[:] = [x for x in subs if x != '.kpex_cache']
            l += [os.path.join(d, x) for x in files if not re.search(r'\.log|kpex_', x)]
        if 'ext' in st:
            l = [x for x in l if st['ext'] in x] or l
        return sorted(l)[st['pick'] % len(l)] if l else None

    def argv(self, run):
        """command line of a kpex run"""
        R = self.root
        cwd = os.path.join(R, run.get('cwd', ''))
        form = run.get('form', 'rel')

        def p(x):
            if form == 'abs':
                return os.path.join(R, x)
            if form == 'dot':
                return './' + os.path.relpath(os.path.join(R, x), cwd)
            return os.path.relpath(os.path.join(R, x), cwd)
        a = ['kpex', '--pdk', run.get('pdk', 'sky130A'), '--threads', '4', '--magicrc', p('in/magicrc')]
        if run.get('gds'):
            a += ['--gds', p(run['gds'])]
        else:
            a += ['--lvsdb', p(run['lvsdb'])]
        if run.get('out') is not None:
            a += ['--out_dir', p(run['out']) + run.get('slash', '')]
        if run.get('cellarg'):
            a += ['--cell', run['cell']]
        if run.get('schematic'):
            a += ['--schematic', p(run['schematic'])]
        if run.get('cache') is not None:
            a += ['--cache-lvs', 'true' if run['cache'] else 'false']
        if run.get('cache_dir'):
            a += ['--cache-dir', p(run['cache_dir'])]
        if 'magic' in run['engines']:
            a += ['--magic_mode', run.get('magic_mode', 'CC')]
        a += ['--' + e for e in run['engines']]
        a += run.get('opts', []) + run.get('noise', [])
        for b in run.get('bad', ()):
            a = self.misuse(a, b, p, run)
        return a

    def misuse(self, a, kind, p, run):
        """arguments that kpex cannot accept"""
        def drop(*names):
            r = list(a)
            for n in names:
                while n in r:
                    k = r.index(n)
                    del r[k:k + 2]
            return r
        return {'no_engine': lambda: [x for x in a if x not in ('--2.5D', '--fastercap', '--fastcap', '--magic')],
                'no_input': lambda: drop('--gds', '--lvsdb'),
                'gds_missing': lambda: drop('--gds', '--lvsdb') + ['--gds', p('in/nothing.gds')],
                'gds_directory': lambda: drop('--gds', '--lvsdb') + ['--gds', p('in')],
                'gds_garbage': lambda: drop('--gds', '--lvsdb') + ['--gds', p('in/garbage.gds')],
                'cell_unknown': lambda: drop('--cell') + ['--cell', run.get('misspelt', 'NO_SUCH_CELL')],
                'cell_missing': lambda: drop('--cell'),
                'schematic_missing': lambda: drop('--schematic') + ['--schematic', p('in/nothing.spice')],
                'log_level': lambda: drop('--log_level') + ['--log_level', run.get('mislevel', 'loud')],
                'dielectrics': lambda: drop('--diel') + ['--diel', run.get('misfilter', 'none,all')],
                'magic_lvsdb': lambda: drop('--gds', '--lvsdb') + ['--lvsdb', p('in/real.lvsdb.gz'), '--magic'],
                'gds_missing_lvsdb': lambda: drop('--gds', '--lvsdb') + ['--gds', p('in/nothing.gds'), '--lvsdb', p('in/real.lvsdb.gz')],
                'schematic_directory': lambda: drop('--schematic') + ['--schematic', p('in')],
                'lvsdb_directory': lambda: drop('--gds', '--lvsdb') + ['--lvsdb', p('in')],
                'lvsdb_missing': lambda: drop('--gds', '--lvsdb') + ['--lvsdb', p('in/nothing.lvsdb')],
                'lvsdb_garbage': lambda: drop('--gds', '--lvsdb') + ['--lvsdb', p('in/garbage.gds')],
                'pdk': lambda: drop('--pdk') + ['--pdk', 'sky131'],
                'mode': lambda: drop('--mode') + ['--mode', 'XC'],
                'halo': lambda: drop('--halo') + ['--halo', 'wide'],
                'flag': lambda: drop('--cache-lvs') + ['--cache-lvs', 'maybe'],
                'unknown_option': lambda: a + ['--fast'],
                'magicrc_missing': lambda: drop('--magicrc') + ['--magic', '--magicrc', p('in/nothing')],
                'magicrc_none': lambda: drop('--magicrc') + ['--magic'],
                'no_klayout': lambda: a, 'klayout_directory': lambda: a}[kind]()

    def env(self, run):
        R = self.root
        e = {'HOME': R + '/home', 'TMPDIR': R + '/tmp', 'PATH': R + '/bin', 'COLUMNS': '120', 'PDKPATH': None, 'PDK': None,
             'KPEX_KLAYOUT_EXE': R + '/bin/klayout', 'KPEX_FASTERCAP_EXE': R + '/bin/FasterCap',
             'KPEX_FASTCAP_EXE': R + '/bin/fastcap', 'KPEX_MAGIC_EXE': R + '/bin/magic'}
        if run.get('exe') == 'path':
            for k in list(e):
                if k.endswith('_EXE'):
                    e[k] = None
        if 'no_klayout' in run.get('bad', ()):
            e['KPEX_KLAYOUT_EXE'] = R + '/bin/klayout-0.99'
        if 'klayout_directory' in run.get('bad', ()):
            e['KPEX_KLAYOUT_EXE'] = R + '/in'
        e.update(run.get('env', {}))
        return e

    def make_cwd(self, run):
        for r in run.get('chain', []) + [run]:
            cwd = os.path.join(self.root, r.get('cwd', ''))
            os.makedirs(cwd, exist_ok=True)
        return cwd

    def proc(self, run, slot=0, parallel=False):
        chain = run.get('chain', []) + [run]
        self.nproc += 1
        fac = tools.factory(self)
        calls = []
        for r in chain:
            entry = r.get('entry', 'kpex')
            calls.append((entry, self.argv(r) if entry == 'kpex' else [x.replace('{R}', self.root) for x in r['argv']],
                          os.path.join(self.root, r.get('cwd', '')), r))

        def body(proc):
            tempfile.tempdir = None
            rcs = []
            emitted, nostart = [], []
            allrecs = record_logging()
            for k, (entry, argv, cwd, r) in enumerate(calls):
                allrecs.append([])
                ses = popen.Session(proc, r.get('tools', {}), fac)
                popen.SIM = ses
                if r.get('lose'):
                    rdbs.spoil_saving(r['lose'], popen.suspended)
                kernel.lib().simio_suspend(1)
                os.chdir(cwd)
                kernel.lib().simio_suspend(-1)
                ses.note({'t': 'call', 'k': k})
                try:
                    rc, exc = call_main(entry, argv)
                except popen.Interrupted:
                    rc, exc = 130, 'interrupted'
                if rc and exc.startswith('exit') and allrecs[-1]:
                    exc += ': ' + allrecs[-1][-1][1][:300].replace(self.root, '')
                cwd_after = os.getcwd()
                nostart.append(ses.nostart)
                rcs.append([rc, exc, cwd_after == os.path.realpath(cwd)])
                emitted.append([{'kind': t.kind, 'argv': t.argv, 'cwd': t.cwd, 'threads': t.threads, 'alive': t.alive, 'fate': t._fate,
                                 'killed': t.killed, 'reaped': t.returncode is not None,
                                 'out': b''.join(d for _, d in t.emitted).decode('utf-8', 'surrogateescape'),
                                 'sep': [ch for ch, _ in t.emitted].count('err'), 'left': t.unread(),
                                 'started': t.t_start, 'ended': t.t_end, 'slept': t.slept} for t in ses.procs])
            bring_down()
            if self.warm:
                import sys
                return {'rc': rcs[-1][0], 'exc': rcs[-1][1], 'rcs': rcs, 'mods': list(sys.modules), 'tools': [], 'alltools': []}
            return {'rc': rcs[-1][0], 'exc': rcs[-1][1], 'rcs': rcs, 'tools': emitted[-1], 'alltools': emitted, 'nostart': nostart[-1],
                    'allrecs': allrecs}

        cwd = self.make_cwd(run)
        return kernel.Proc(self.root, body, slot=slot, now_ns=self.now, mono_ns=self.mono,
                           seed=self.seed * 1000003 + run.get('rng', self.nproc),
                           pid=run.get('pid', 4711 + self.nproc), faults=run.get('faults', ()),
                           budget=run.get('budget', -1), cwd=cwd, env=self.env(run), parallel=parallel)

    def snapshot(self, sub='in'):
        """content and mtime of everything below a directory"""
        res = {}
        base = self.path(sub)
        for d, dirs, files in os.walk(base):
            dirs.sort()
            for n in sorted(files):
                p = os.path.join(d, n)
                try:
                    with open(p, 'rb') as f:
                        res[os.path.relpath(p, self.root)] = (artifacts.digest(f.read()), os.stat(p).st_mtime_ns)
                except OSError as e:
                    res[os.path.relpath(p, self.root)] = str(e)
        return res

    def after_run(self, run, res):
        self.now = max(self.now, res['now_ns']) if not run.get('timeback') else res['now_ns']
        self.mono = res['mono_ns']
        self.count('runs')
        self.count('sim_ns', max(0, res['sim_ns']))
        for k in res['fired']:
            self.count('fault:' + k)
        if res['rc'] == 'killed' and not res['fired']:
            self.count('fault:kill_while_tool_runs')
        if res['budget_left'] == 0 and run.get('budget', -1) >= 0:
            self.count('fault:disk_full')
        if res['rc'] == 'harness':
            raise kernel.HarnessError(res.get('exc', '?') + ' ' + res.get('stderr', '')[-2000:])
        self.note_dirty(res)
        if res['rc'] == 'killed' and run.get('orphan') == 'finish':
            n = popen.finish_orphans(res['trace'], tools.factory(self), self.now)
            self.count('orphan_writes', n)
            res['orphans'] = n

    def edits(self, run, idx):
        for r in run.get('chain', []) + [run]:
            for kind, specs in r.get('tools', {}).items():
                for s in specs:
                    e = s.get('edit')
                    if e:
                        self.gds_history.setdefault(e[1], []).append((idx, e[2], e[3]))

    # -- power loss --
    def note_dirty(self, res):
        """Paths written during a run and not synced afterwards, by their final name"""
        d = {}
        for line in res['trace'].splitlines():
            if line.startswith('N {"t":"tw"'):
                d[json.loads(line[2:])['path']] = 1
                continue
            w = line.split(' ', 4)
            if w[0] != 'O' or len(w) < 5:
                continue
            path = w[4].removesuffix(' !')
            if w[2] in ('write', 'opentrunc', 'ftruncate', 'truncate'):
                d[path] = 1
            elif w[2] == 'fsync':
                d.pop(path, None)
            elif w[2] == 'unlink':
                d.pop(path, None)
            elif w[2] == 'rename' and ' -> ' in path:
                a, b = path.split(' -> ', 1)
                x = d.pop(a, None)
                d.pop(b, None)
                if x:
                    d[b] = 1
        self.dirty = list(d)

    def power_loss(self, st):
        """What was not synced may be gone: names and sizes are journaled, contents are not"""
        rng = random.Random(f"power/{st.get('seed', 0)}")
        n = 0
        for p in self.dirty:
            if not os.path.isfile(p) or not os.path.realpath(p).startswith(os.path.realpath(self.root) + '/'):
                continue
            mode = st.get('mode', 'random')
            if mode == 'random':
                mode = rng.choice(['keep', 'empty', 'prefix', 'zeros'])
            s = os.stat(p)
            size = s.st_size
            k = {'keep': size, 'empty': 0}.get(mode, rng.randrange(size + 1))
            if k < size:
                n += 1
            os.truncate(p, k)
            if mode == 'zeros':
                os.truncate(p, size)
            os.utime(p, ns=(s.st_mtime_ns, s.st_mtime_ns))
        self.count('fault:power_loss')
        self.count('power_lost_files', n)
        self.dirty = []

    # -- steps --
    def execute(self):
        for idx, st in enumerate(self.sc['steps']):
            op = st['op']
            ev = {'op': op}
            if op == 'gds':
                p = self.path(st['path'])
                os.makedirs(os.path.dirname(p), exist_ok=True)
                old = os.stat(p).st_mtime_ns if os.path.exists(p) else None
                data = self.layout_bytes(st['design'], st.get('fmt', 'gds'))
                if st.get('link'):         # the path is a link: to one file that is rewritten, or to a file of its own for each version
                    self.count('layout_links')
                    stem, ext = os.path.basename(p).split('.', 1)
                    t = f"store/{os.path.basename(os.path.dirname(p))}_{stem}" + (f"_{st['design']}" if st['link'] == 'new' else '') + '.' + ext
                    if os.path.lexists(p):
                        os.unlink(p)
                    os.makedirs(self.path('store'), exist_ok=True)
                    os.symlink(self.path(t) if st.get('abs') else os.path.relpath(self.path(t), os.path.dirname(p)), p)
                    os.utime(p, ns=(self.now, self.now), follow_symlinks=False)
                elif os.path.islink(p):
                    os.unlink(p)
                mt = self.now + st.get('dt', 0)
                if os.path.exists(p) and open(p, 'rb').read() == data and st.get('link'):
                    mt = os.stat(p).st_mtime_ns
                else:
                    with open(p, 'wb') as f:
                        f.write(data)
                # two versions of a file never carry the same time
                used = self.mtimes.setdefault(st['path'], {})
                content = (st['design'], st.get('fmt', 'gds'))
                while (mt == old and used.get(mt) != content) or used.get(mt, content) != content:
                    mt += 1000
                used[mt] = content
                os.utime(p, ns=(mt, mt))
                self.gds_history[st['path']] = [(idx, st['design'], st.get('fmt', 'gds'))]
                self.now += 5_000_000
            elif op == 'touch':
                p = self.path(st['path'])
                mt = self.now + st.get('dt', 0)
                os.utime(p, ns=(mt, mt))
                self.now += 5_000_000
            elif op == 'file':
                p = self.path(st['path'])
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, 'wb') as f:
                    f.write(bytes.fromhex(st['hex']) if 'hex' in st else st['text'].encode('utf-8', 'surrogateescape'))
                os.utime(p, ns=(self.now, self.now))
            elif op == 'spoil':        # what a file may look like after a power loss, or after somebody edited it
                p = self.path(st['path']) if 'path' in st else self.pick(st)
                if p and os.path.isfile(p):
                    with open(p, 'rb') as f:
                        b = bytearray(f.read())
                    k = len(b) * st['at'] // 1000
                    if st['how'] == 'flip' and b:
                        b[min(k, len(b) - 1)] ^= 1
                    elif st['how'] == 'zero':
                        b[k:] = bytes(len(b) - k)
                    elif st['how'] == 'cut':
                        del b[k:]
                    elif st['how'] == 'more':
                        b += b'}' * 7
                    with open(p, 'wb') as f:
                        f.write(b)
                    os.utime(p, ns=(self.now, self.now))
            elif op == 'rdb':
                p = self.path(st['path'])
                os.makedirs(os.path.dirname(p), exist_ok=True)
                full = self.path('tooltmp/full' + ('.gz' if p.endswith('.gz') else ''))
                rdbs.build(full, st['seed'], self.root)
                ev['whole'] = rdbs.content(rdbs.unpack(full))
                data, ev['lost'] = rdbs.lose(rdbs.unpack(full), st['seed'], st['share'])
                os.unlink(full)
                import gzip
                with (gzip.open if p.endswith('.gz') else open)(p, 'wb') as f:
                    f.write(data)
                with open(p, 'rb') as f:
                    ev['bytes'] = f.read()
                os.utime(p, ns=(self.now, self.now))
            elif op == 'power':
                self.power_loss(st)
            elif op == 'copy':
                src, p = self.path(st['src']), self.path(st['path'])
                os.makedirs(os.path.dirname(p), exist_ok=True)
                ev['copied'] = os.path.isfile(src)
                if ev['copied']:
                    with open(src, 'rb') as f:
                        data = f.read()
                    if 'permille' in st:
                        data = tools.cut(data, st['permille'])
                    with open(p, 'wb') as f:
                        f.write(data)
                    os.utime(p, ns=(self.now, self.now))
            elif op == 'linkdir':          # a directory that is a link to another one
                if not os.path.lexists(self.path(st['path'])):
                    os.makedirs(self.path(st['to']), exist_ok=True)
                    os.symlink(self.path(st['to']), self.path(st['path']))
            elif op == 'mkdir':
                os.makedirs(self.path(st['path']), exist_ok=True)
            elif op == 'rm':
                p = self.path(st['path'])
                assert p.startswith(self.root + '/')
                if os.path.islink(p):
                    os.unlink(p)
                elif os.path.isdir(p):
                    shutil.rmtree(p)
                elif os.path.exists(p):
                    os.unlink(p)
            elif op == 'clock':
                self.now += st['ns']
                if st['ns'] > 0 and not st.get('jump'):
                    self.mono += st['ns']
                if st.get('jump'):
                    self.count('fault:clock_jump')
            elif op == 'run':
                self.make_cwd(st)
                self.edits(st, idx)
                ev['before'] = self.snapshot()
                if self.sc.get('tree'):
                    from . import props
                    ev['tree0'] = props.tree(self)
                ev['versions'] = self.versions(st)
                if st.get('entry') == 'techgen':
                    res = kernel.run_binary(self, st)
                else:
                    pr = self.proc(st)
                    res = kernel.run_serial(pr)
                self.after_run(st, res)
                ev['res'] = res
                self.observe(st, ev)
                if self.sc.get('tree'):
                    ev['tree1'] = props.tree(self)
                self.collapse(st)
            elif op == 'par':
                for r in st['runs']:
                    self.edits(r, idx)
                ev['before'] = self.snapshot()
                ev['subs'] = [{'op': 'run', 'versions': self.versions(r), 'before': ev['before']} for r in st['runs']]
                procs = [self.proc(r, slot=i, parallel=True) for i, r in enumerate(st['runs'])]
                choose = Scheduler(st['sched'])
                results, schedule, steps, now, mono = kernel.run_parallel(procs, choose)
                ev['schedule'] = schedule
                ev['steps'] = steps
                self.count('switches', sum(1 for a, b in zip(schedule, schedule[1:]) if a != b))
                for r, res, sub in zip(st['runs'], results, ev['subs']):
                    self.after_run(r, res)
                    sub['res'] = res
                self.now, self.mono = max(now, self.now), mono
                for r, sub in zip(st['runs'], ev['subs']):
                    self.observe(r, sub)
                for r in st['runs']:
                    self.collapse(r)
            else:
                raise kernel.HarnessError(f'unknown step {op}')
            self.events.append(ev)
        return self.events

    def versions(self, run):
        if run.get('entry', 'kpex') != 'kpex' or not run.get('gds'):
            return []
        return [(d, f) for _, d, f in self.gds_history.get(run['gds'], [])]

    def collapse(self, run):
        """after the run, only the last edit that really happened is current"""
        for p, h in self.gds_history.items():
            if len(h) > 1:
                try:
                    with open(self.path(p), 'rb') as f:
                        b = f.read()
                except OSError:
                    continue
                cur = [x for x in h if self.layout_bytes(x[1], x[2]) == b]
                self.gds_history[p] = cur[-1:] or h

    def observe(self, run, ev):
        if run.get('entry', 'kpex') == 'kpex':
            ev['results'] = artifacts.collect(self.run_dir(run), self.root, run, outputs=True)
            if 'magic' in run['engines']:
                ev['ext'] = self.ext_files(os.path.join(self.run_dir(run), f"magic_{run.get('magic_mode', 'CC')}"))
            if self.sc.get('rdbs') and '2.5D' in run['engines']:
                p = os.path.join(self.run_dir(run), f"{run['cell']}_k25d_pex_report.rdb.gz")
                ev['rdb'], ev['repaired'] = (rdbs.content(artifacts.load(x)) if isinstance(artifacts.load(x), bytes) else artifacts.load(x)
                                             for x in (p, p + '.repair.xml'))
        elif run['entry'] == 'magiclog':
            ev['ext'] = self.ext_files(self.path(run['magic_dir']))
            ev['report'] = artifacts.load(self.path(run['report']))
        elif run['entry'] == 'netlist':
            ev['svg'] = artifacts.load(self.path(run['svg']))
        elif run['entry'] == 'repair':
            ev['repaired'] = artifacts.load(self.path(run['rdb'] + '.repair.xml'))
            with open(self.path(run['rdb']), 'rb') as f:
                ev['bytes'] = f.read()
        elif run['entry'] == 'techgen':
            ev['out'] = {}
            d = self.path(run['out'])
            for n in sorted(os.listdir(d)) if os.path.isdir(d) else []:
                with open(os.path.join(d, n), 'rb') as f:
                    ev['out'][n] = f.read()
        ev['after'] = self.snapshot()

    @staticmethod
    def ext_files(d):
        return {n: artifacts.load(os.path.join(d, n)) for n in (sorted(os.listdir(d)) if os.path.isdir(d) else []) if n.endswith('.ext')}

    # -- golden results --
    def golden(self, run, design, fmt):
        """What a fresh run on this layout, with this option set, alone in the world, produces.
        Returns (rc, results)."""
        g = {k: run[k] for k in ('gds', 'cell', 'cellarg', 'engines', 'magic_mode', 'opts', 'pdk') if k in run}
        g['tools'] = {}
        for kind, specs in run.get('tools', {}).items():
            keep = {k: v for k, v in (specs[-1] if specs else {}).items() if k in ('naming', 'mismatch', 'devices', 'mseed', 'matrix', 'rich', 'subcells')}
            if keep:
                g['tools'][kind] = [keep]
        key = json.dumps([g, self.designs[design], fmt], sort_keys=True)
        if key not in self.golden_cache:
            g['out'] = 'gout'
            sub = tempfile.mkdtemp(prefix='g', dir=os.path.dirname(self.root))
            groot = os.path.join(sub, os.path.basename(self.root))
            os.mkdir(groot)
            old = os.environ.get('SIM_TOOLTMP')
            try:
                w = World({'designs': [self.designs[design]], 'steps': [
                    {'op': 'gds', 'path': run['gds'], 'design': 0, 'fmt': fmt}, dict(g, op='run')]}, groot, {})
                evs = w.execute()
                self.golden_cache[key] = (evs[-1]['res']['rc'], evs[-1]['res'].get('exc'), evs[-1]['results'])
            finally:
                shutil.rmtree(sub)
                if old:
                    os.environ['SIM_TOOLTMP'] = old
            self.count('golden_runs')
        return self.golden_cache[key]


    def golden_svg(self, run, step=None):
        src = run['argv'][2].replace('{R}/', '')
        text = [s['text'] for s in self.sc['steps'][:step] if s['op'] == 'file' and s['path'] == src][-1]
        key = 'svg' + json.dumps([text, run['argv']])
        if key not in self.golden_cache:
            g = {k: run[k] for k in ('entry', 'argv', 'cwd', 'engines', 'cell', 'out', 'svg')} | {'op': 'run'}
            sub = tempfile.mkdtemp(prefix='g', dir=os.path.dirname(self.root))
            groot = os.path.join(sub, os.path.basename(self.root))
            os.mkdir(groot)
            old = os.environ.get('SIM_TOOLTMP')
            try:
                w = World({'steps': [{'op': 'mkdir', 'path': os.path.dirname(run['svg'])}, {'op': 'file', 'path': src, 'text': text}, g]}, groot, {})
                w.execute()
                self.golden_cache[key] = artifacts.load(w.path(run['svg']))
            finally:
                shutil.rmtree(sub)
                if old:
                    os.environ['SIM_TOOLTMP'] = old
            self.count('golden_runs')
        return self.golden_cache[key]


class Scheduler:
    """Seeded choice of who goes next; or an explicit list of [process, number of steps]."""

    def __init__(self, spec):
        self.rng = random.Random(spec.get('seed', 0))
        self.mode = spec.get('mode', 'random')
        self.p = spec.get('p', 0.2)
        self.cur = None
        self.order = [[i, n] for i, n in spec['order']] if 'order' in spec else None
        self.hot = spec.get('hot')       # switch preferably around operations on paths containing this
        self.prio = None

    def __call__(self, runnable, nexts):
        if self.order is not None:
            while self.order:
                i, n = self.order[0]
                if n <= 0 or i not in runnable:
                    self.order.pop(0)
                    continue
                self.order[0][1] -= 1
                return i
            return runnable[0]
        if self.cur in runnable:
            p = self.p
            if self.hot and any(h in nexts[self.cur] for h in self.hot):
                p = 0.7
            if self.rng.random() >= p:
                return self.cur
        self.cur = self.rng.choice(runnable)
        return self.cur
