"""The simulation kernel: one simulated kpex process = one forked child behind the simio seam.

Nothing in here knows a property.  `Proc` runs a Python callable as a simulated process (real
/repo code, simulated operating system), `run_serial` drives one to its end, `run_parallel` drives
several under a seeded scheduler that grants one operation at a time.
"""
import ctypes
import gc
import io
import json
import mmap
import os
import select
import signal
import struct
import sys
import time as _time
import traceback

MAGIC = 0x6b706578
TRACECAP = 4 << 20
MAXFAULT = 16
F_CRASH_BEFORE, F_CRASH_AFTER, F_TORN, F_ERRNO, F_SHORT, F_PERSIST, F_RERR, F_SIGINT, F_FILE = range(1, 10)
FAULT_KINDS = {'crash_before': F_CRASH_BEFORE, 'crash_after': F_CRASH_AFTER, 'torn_write': F_TORN,
               'errno': F_ERRNO, 'short_write': F_SHORT, 'persist_errno': F_PERSIST,
               'read_errno': F_RERR, 'sigint': F_SIGINT, 'file_errno': F_FILE}
CRASH_KINDS = ('crash_before', 'crash_after', 'torn_write')

T0 = 1_700_000_000 * 10**9       # simulated epoch of every world
PROC_TIMEOUT = float(os.environ.get('SIM_PROC_TIMEOUT', '120'))


class Fault(ctypes.Structure):
    _fields_ = [('index', ctypes.c_int64), ('kind', ctypes.c_int32), ('arg', ctypes.c_int32),
                ('fired', ctypes.c_int32), ('seen', ctypes.c_int32), ('match', ctypes.c_char * 64)]


class Shm(ctypes.Structure):
    _fields_ = [('magic', ctypes.c_uint64), ('now_ns', ctypes.c_int64), ('mono_ns', ctypes.c_int64),
                ('rng', ctypes.c_uint64), ('opcount', ctypes.c_int64), ('readcount', ctypes.c_int64),
                ('escapes', ctypes.c_int64), ('spawns', ctypes.c_int64), ('budget', ctypes.c_int64),
                ('persist_errno', ctypes.c_int32), ('pid', ctypes.c_int32), ('crashed', ctypes.c_int32),
                ('nfault', ctypes.c_int32), ('rofaults', ctypes.c_int32), ('statyield', ctypes.c_int32),
                ('fault', Fault * MAXFAULT), ('root', ctypes.c_char * 256), ('next', ctypes.c_char * 512),
                ('nextflag', ctypes.c_int64), ('tracelen', ctypes.c_int64), ('tracecap', ctypes.c_int64)]


_lib = None


def lib():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(None)
        try:
            _lib.simio_header.restype = ctypes.c_long
        except AttributeError:
            raise HarnessError('simio is not preloaded')
        assert _lib.simio_header() == ctypes.sizeof(Shm), (_lib.simio_header(), ctypes.sizeof(Shm))
        _lib.simio_attach.argtypes = [ctypes.c_void_p]
        _lib.simio_advance.argtypes = [ctypes.c_int64]
        _lib.simio_jump.argtypes = [ctypes.c_int64]
        _lib.simio_note.argtypes = [ctypes.c_char_p]
        _lib.simio_yield.argtypes = [ctypes.c_char_p]
    return _lib


class HarnessError(Exception):
    """Something the simulator does not model, or a fault of the simulator itself."""


class SimDeadlock(BaseException):
    """The simulated process waits for something that can never happen."""


_arena = None


def _get_arena(n):
    """Control blocks are recycled: one anonymous shared mapping per slot."""
    global _arena
    if _arena is None:
        _arena = []
    while len(_arena) <= n:
        m = mmap.mmap(-1, ctypes.sizeof(Shm) + TRACECAP)
        _arena.append(m)
    return _arena[n]


class Proc:
    """A simulated process."""

    def __init__(self, root, body, *, slot=0, now_ns=T0, seed=1, pid=4711, faults=(), budget=-1,
                 cwd=None, env=None, parallel=False, mono_ns=None):
        self.root = root
        self.m = _get_arena(slot)
        self.shm = Shm.from_buffer(self.m)
        s = self.shm
        ctypes.memset(ctypes.addressof(s), 0, ctypes.sizeof(Shm))
        s.magic = MAGIC
        s.now_ns = now_ns
        s.mono_ns = mono_ns if mono_ns is not None else 10**12
        s.rng = seed & (2**64 - 1)
        s.budget = budget
        s.pid = pid
        s.root = os.fsencode(root)
        s.tracecap = TRACECAP
        s.nfault = len(faults)
        if len(faults) > MAXFAULT:
            raise HarnessError('too many faults')
        for i, f in enumerate(faults):
            s.fault[i].index = f['at']
            s.fault[i].kind = FAULT_KINDS[f['kind']]
            s.fault[i].arg = f.get('arg', 0)
            s.fault[i].match = f.get('match', '').encode()
        self.nfaults = len(faults)
        self.faults = list(faults)
        self.start_ns = now_ns
        self.body = body
        self.cwd = cwd or root
        self.env = env or {}
        self.parallel = parallel
        self.result = None

    def start(self):
        rr, rw = os.pipe()
        if self.parallel:
            gr, gw = os.pipe()      # grants: parent -> child
            yr, yw = os.pipe()      # yields: child -> parent
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(rr)
                if self.parallel:
                    os.close(gw)
                    os.close(yr)
                self._child(rw, (gr, yw) if self.parallel else None)
            except BaseException:
                try:
                    os.write(2, ('simulator child: ' + traceback.format_exc()).encode())
                finally:
                    os._exit(99)
            os._exit(98)
        os.close(rw)
        self.pid = pid
        self.rfd = rr
        self.t_real = _time.monotonic()
        self.buf = b''
        if self.parallel:
            os.close(gr)
            os.close(yw)
            self.gw, self.yr = gw, yr

    # -- child side ---------------------------------------------------------------------------
    def _child(self, rw, ctl):
        global current
        L = lib()
        devnull = os.open('/dev/null', os.O_RDWR)
        os.dup2(devnull, 0)
        os.dup2(devnull, 1)
        err = os.memfd_create('stderr')
        os.dup2(err, 2)
        signal.signal(signal.SIGINT, signal.default_int_handler)
        os.chdir(self.cwd)
        for k, v in self.env.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v
        out = {}
        L.simio_attach(ctypes.addressof(self.shm))
        if ctl:
            L.simio_ctl(*ctl)
        L.simio_arm(1)
        try:
            out = self.body(self) or {}
        except SimDeadlock as e:
            out = {'rc': 'deadlock', 'exc': str(e)}
        except HarnessError as e:
            out = {'rc': 'harness', 'exc': repr(e)}
        L.simio_arm(0)
        try:
            os.lseek(err, 0, 0)
            out['stderr'] = os.read(err, 1 << 16).decode('utf-8', 'replace')
        except OSError:
            pass
        data = json.dumps(out).encode()
        while data:
            data = data[os.write(rw, data):]
        os._exit(0)

    # -- parent side --------------------------------------------------------------------------
    def trace(self):
        n = self.shm.tracelen
        off = ctypes.sizeof(Shm)
        return self.m[off:off + n].decode('utf-8', 'replace')

    def reap(self):
        """Read the result and wait. The child has exited or is about to."""
        deadline = self.t_real + PROC_TIMEOUT
        hung = False
        while True:
            left = deadline - _time.monotonic()
            r, _, _ = select.select([self.rfd], [], [], max(0, left))
            if not r:
                hung = True
                os.kill(self.pid, signal.SIGKILL)
                break
            b = os.read(self.rfd, 1 << 20)
            if not b:
                break
            self.buf += b
        os.close(self.rfd)
        _, st = os.waitpid(self.pid, 0)
        if self.parallel:
            os.close(self.gw)
            os.close(self.yr)
        res = None
        if self.buf:
            try:
                res = json.loads(self.buf)
            except ValueError:
                res = None
        s = self.shm
        if hung:
            res = {'rc': 'hang'}
        elif s.crashed:
            res = {'rc': 'killed'}
        elif res is None:
            code = os.waitstatus_to_exitcode(st)
            res = {'rc': 'harness', 'exc': f'child ended with {code} and no result'}
            if code < 0:
                res = {'rc': 'died', 'exc': f'signal {-code}'}
        return self.stats(res)

    def m_addr(self):
        return ctypes.addressof(self.shm)

    def stats(self, res):
        s = self.shm
        res['ops'] = s.opcount
        res['reads'] = s.readcount
        res['escapes'] = s.escapes
        res['spawns'] = s.spawns
        res['sim_ns'] = s.now_ns - self.start_ns
        res['now_ns'] = s.now_ns
        res['mono_ns'] = s.mono_ns
        res['fired'] = [self.faults[i]['kind'] for i in range(self.nfaults) if s.fault[i].fired]
        res['budget_left'] = s.budget
        res['trace'] = self.trace()
        if res['spawns'] and res['rc'] not in ('killed',):
            res['rc'] = 'harness'
            res['exc'] = 'a real process was spawned: ' + ''.join(l for l in res['trace'].splitlines(True) if l.startswith('X '))
        self.result = res
        return res


def run_serial(proc):
    proc.start()
    return proc.reap()


def run_binary(world, run):
    """A simulated process that is a program of its own (gen_tech_pb): the same seam, preloaded."""
    from . import popen
    repo = os.environ.get('KPEX_REPO', '/repo')
    exe = os.environ.get('KPEX_TECHGEN', os.path.join(repo, 'build', 'kpex_offline', 'gen_tech_pb'))
    cwd = world.make_cwd(run)
    world.nproc += 1
    p = Proc(world.root, None, now_ns=world.now, mono_ns=world.mono, seed=world.seed * 1000003 + run.get('rng', world.nproc),
             pid=run.get('pid', 4711 + world.nproc), faults=run.get('faults', ()), budget=run.get('budget', -1), cwd=cwd)
    ctl = os.path.join(os.path.dirname(world.root), 'ctl')
    with open(ctl, 'wb') as f:
        f.write(bytes(p.shm))
        f.truncate(ctypes.sizeof(Shm) + TRACECAP)
    argv = [exe] + [x.replace('{R}', world.root) for x in run['argv'][1:]]
    env = {'LD_PRELOAD': os.environ['LD_PRELOAD'], 'SIMIO_SHM': ctl, 'PATH': '/nonexistent', 'LC_ALL': 'C'}
    pid = os.fork()
    if pid == 0:
        try:
            null = os.open('/dev/null', os.O_RDWR)
            for i in (0, 1, 2):
                os.dup2(null, i)
            os.chdir(cwd)
            import resource
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            os.execve(exe, argv, env)
        finally:
            os._exit(99)
    end = _time.monotonic() + 30
    hung = False
    while True:
        q, st = os.waitpid(pid, os.WNOHANG)
        if q:
            break
        if _time.monotonic() > end and not hung:
            os.kill(pid, signal.SIGKILL)
            hung = True
        _time.sleep(0.001)
    with open(ctl, 'rb') as f:
        ctypes.memmove(p.m_addr(), f.read(), ctypes.sizeof(Shm) + TRACECAP)
    os.unlink(ctl)
    s = p.shm
    code = os.waitstatus_to_exitcode(st)
    if code == 99:
        raise HarnessError(f'cannot execute {exe}')
    res = {'rc': 'hang' if hung else 'killed' if s.crashed else code, 'exc': f'exit {code}', 'tools': [], 'rcs': [[code, '', True]]}
    p.pid, p.rfd = pid, None
    return p.stats(res)


def run_parallel(procs, choose, on_step=None):
    """Grant operations one at a time. `choose(runnable, nexts)` picks an index.

    Returns (results, schedule): the schedule is the list of process numbers granted.
    The clock is shared: time is what the last granted process saw.
    """
    for p in procs:
        p.start()
    alive = set(range(len(procs)))
    parked = set()
    now = max(p.shm.now_ns for p in procs)
    mono = max(p.shm.mono_ns for p in procs)
    schedule = []
    steps = []
    deadline = _time.monotonic() + PROC_TIMEOUT

    def wait(i):
        """until process i is parked or gone"""
        left = deadline - _time.monotonic()
        r, _, _ = select.select([procs[i].yr], [], [], max(0.0, left))
        if not r:
            os.kill(procs[i].pid, signal.SIGKILL)
            alive.discard(i)
            procs[i].hung = True
            return
        b = os.read(procs[i].yr, 1)
        if b:
            parked.add(i)
        else:
            alive.discard(i)

    for i in range(len(procs)):
        # results larger than a pipe must not block an exiting child
        wait(i)
    while alive:
        runnable = sorted(parked)
        nexts = {i: procs[i].shm.next.decode('utf-8', 'replace') for i in runnable}
        i = choose(runnable, nexts)
        schedule.append(i)
        steps.append((i, nexts[i]))
        parked.discard(i)
        procs[i].shm.now_ns = max(now, procs[i].shm.now_ns) if procs[i].shm.now_ns > now else now
        procs[i].shm.mono_ns = mono
        if on_step:
            on_step(len(schedule), i, nexts[i])
        os.write(procs[i].gw, b'g')
        # the child may be writing its result: drain while waiting
        while i in alive and i not in parked:
            left = deadline - _time.monotonic()
            r, _, _ = select.select([procs[i].yr, procs[i].rfd], [], [], max(0.0, left))
            if not r:
                os.kill(procs[i].pid, signal.SIGKILL)
                alive.discard(i)
                break
            if procs[i].rfd in r:
                b = os.read(procs[i].rfd, 1 << 20)
                procs[i].buf += b
                if not b:
                    alive.discard(i)
                    break
            if procs[i].yr in r:
                b = os.read(procs[i].yr, 1)
                if b:
                    parked.add(i)
                else:
                    alive.discard(i)
        now = procs[i].shm.now_ns
        mono = procs[i].shm.mono_ns
    res = [p.reap() for p in procs]
    return res, schedule, steps, now, mono
