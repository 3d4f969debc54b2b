"""subprocess.Popen for simulated processes: tools are step scripts, pipes are finite, and the
scenario decides when a tool gets ahead, how its output is cut, and how it ends."""
import errno
import io
import json
import os
import random
import shlex
import signal
import subprocess as _sp

from . import kernel

RealPopen = _sp.Popen
PIPE, STDOUT, DEVNULL = _sp.PIPE, _sp.STDOUT, _sp.DEVNULL

SIM = None      # set in a simulated process: a Session


class Session:
    """What the tools of one simulated process share."""

    def __init__(self, proc, tools, factory):
        self.proc = proc
        self.shm = proc.shm
        self.lib = kernel.lib()
        self.tools = tools          # kind -> list of specs, one per invocation (the last one repeats)
        self.factory = factory      # (kind, argv, cwd, spec, session) -> generator of actions
        self.count = {}
        self.procs = []
        self.nostart = []           # kinds of tools that the operating system refused to start

    def note(self, obj):
        self.lib.simio_note(json.dumps(obj, separators=(',', ':')).encode())

    def spec_for(self, kind):
        n = self.count.get(kind, 0)
        self.count[kind] = n + 1
        specs = self.tools.get(kind) or [{}]
        return specs[min(n, len(specs) - 1)]


class Interrupted(BaseException):
    pass


class suspended:
    """Run code of a tool: not an operation of kpex."""

    def __enter__(self):
        if SIM:
            SIM.lib.simio_suspend(1)

    def __exit__(self, *a):
        if SIM:
            SIM.lib.simio_suspend(-1)


def tool_write(path, data, now_ns, append=False):
    with open(path, 'ab' if append else 'wb') as f:
        f.write(data)
    os.utime(path, ns=(now_ns, now_ns))


class _Pipe:
    def __init__(self, cap):
        self.buf = bytearray()
        self.cap = cap
        self.closed_reader = False


class _Reader(io.RawIOBase):
    def __init__(self, proc, pipe, name):
        self._proc, self._pipe, self._name = proc, pipe, name

    def readable(self):
        return True

    def readinto(self, b):
        data = self._proc._read(self._pipe, len(b))
        b[:len(data)] = data
        return len(data)

    def fileno(self):
        raise io.UnsupportedOperation('a simulated pipe has no descriptor')

    def close(self):
        self._pipe.closed_reader = True
        super().close()


class _Writer(io.RawIOBase):
    def __init__(self, proc):
        self._proc = proc

    def writable(self):
        return True

    def write(self, b):
        self._proc._stdin_data += bytes(b)
        return len(b)

    def close(self):
        if self._proc._stdin == 'pipe':
            self._proc._stdin = 'eof'
        super().close()


class SimPopen:
    def __init__(self, args, bufsize=-1, executable=None, stdin=None, stdout=None, stderr=None, preexec_fn=None,
                 close_fds=True, shell=False, cwd=None, env=None, universal_newlines=None, startupinfo=None,
                 creationflags=0, restore_signals=True, start_new_session=False, pass_fds=(), *, user=None,
                 group=None, extra_groups=None, encoding=None, errors=None, text=None, umask=-1, pipesize=-1,
                 process_group=None):
        if SIM is None:
            raise kernel.HarnessError('a tool was started outside of a simulated process')
        self.args = args
        self.returncode = None
        if shell:
            argv = shlex.split(args if isinstance(args, str) else args[0])
            while argv and '=' in argv[0] and '/' not in argv[0].split('=')[0]:
                argv.pop(0)
            if argv and argv[0] == 'exec':
                argv.pop(0)
        elif isinstance(args, (str, bytes, os.PathLike)):
            argv = [os.fspath(args)]
        else:
            argv = [os.fspath(a) for a in args]
        argv = [os.fsdecode(a) for a in argv]
        for a in argv:
            if '\0' in a:
                raise ValueError('embedded null byte')
        exe = os.fspath(executable) if executable else argv[0]
        self.cwd = os.path.abspath(os.fspath(cwd)) if cwd is not None else os.getcwd()
        SIM.lib.simio_yield(b'spawn')
        if cwd is not None and not os.path.isdir(cwd):
            raise FileNotFoundError(2, 'No such file or directory', cwd)
        e = os.environ if env is None else env
        if '/' in exe:
            path = exe if os.path.isabs(exe) else os.path.join(self.cwd, exe)
        else:
            path = next((p for p in (os.path.join(d, exe) for d in e.get('PATH', '').split(os.pathsep))
                         if os.path.isfile(p)), None)
        if path is None or not os.path.isfile(path):
            raise FileNotFoundError(2, 'No such file or directory', exe)
        kind = os.path.basename(path)
        if os.path.dirname(os.path.abspath(path)) != os.path.join(SIM.proc.root, 'bin'):
            raise kernel.HarnessError(f'an executable that is not simulated was started: {argv}')
        self.kind = kind
        self.threads = e.get('OMP_NUM_THREADS')
        self.spec = SIM.spec_for(kind)
        if self.spec.get('outcome') == 'no_start':
            SIM.nostart.append(kind)
            n = self.spec.get('errno', errno.ENOENT)
            raise OSError(n, os.strerror(n), exe)
        self.id = len(SIM.procs)
        self.pid = SIM.shm.pid + 100 + self.id
        SIM.procs.append(self)
        self.rng = random.Random(f"{self.spec.get('seed', 0)}/{kind}/{self.id}")
        cap = self.spec.get('cap', 65536)
        self._out = self._err = None
        self._outfd = self._errfd = None
        text_mode = bool(text or universal_newlines or encoding or errors)

        def setup(where):
            if where == PIPE:
                return _Pipe(cap), None
            if where is None:
                return 'lost', None
            if where == DEVNULL:
                return 'null', None
            if isinstance(where, int):
                return 'fd', where
            try:
                where.flush()
            except AttributeError:
                pass
            return 'fd', where.fileno()

        self._out, self._outfd = setup(stdout)
        if stderr == STDOUT:
            self._err, self._errfd = self._out, self._outfd
        else:
            self._err, self._errfd = setup(stderr)
        if stdin == DEVNULL:
            self._stdin = 'eof'
        elif stdin == PIPE:
            self._stdin = 'pipe'
        elif stdin is None:
            self._stdin = 'tty'
        else:
            self._stdin = 'eof'
        self._stdin_data = b''

        def wrap(p, name):
            if not isinstance(p, _Pipe):
                return None
            b = io.BufferedReader(_Reader(self, p, name))
            return io.TextIOWrapper(b, encoding=encoding, errors=errors) if text_mode else b

        self.stdout = wrap(self._out, 'stdout')
        self.stderr = wrap(self._err, 'stderr') if stderr != STDOUT else None
        self.stdin = None
        if stdin == PIPE:
            w = _Writer(self)
            self.stdin = io.TextIOWrapper(io.BufferedWriter(w), encoding=encoding, errors=errors) if text_mode \
                else io.BufferedWriter(w)
        self.killed = None
        self._fate = None           # return code once the tool has ended by itself
        self.steps = 0
        self.emitted = []           # (channel, bytes)
        self._pending = None        # (channel, remaining bytes)
        self.slept = 0
        self.t_start = SIM.shm.mono_ns
        self.t_end = None
        SIM.note({'t': 'tool', 'id': self.id, 'kind': kind, 'argv': argv, 'cwd': self.cwd, 'spec': self.spec,
                  'now': SIM.shm.now_ns})
        self.argv = argv
        with suspended():
            self._gen = SIM.factory(kind, argv, self.cwd, self.spec)
        # a fresh tool may get some steps ahead before its parent runs again
        self._starting = True       # a signal is delivered once the parent has its handle
        self._interrupt = False
        for _ in range(self.spec.get('ahead', 0)):
            if self._advance() != 'ok' or self._interrupt:
                break
        self._starting = False

    # -- the tool's own progress ----------------------------------------------------------------
    @property
    def alive(self):
        return self._fate is None and self.killed is None

    def _put(self, channel, data):
        """returns what did not fit"""
        p = self._out if channel == 'out' else self._err
        if isinstance(p, _Pipe):
            if p.closed_reader:
                self._fate = -signal.SIGPIPE
                return b''
            room = p.cap - len(p.buf)
            p.buf += data[:room]
            return data[room:]
        if p == 'fd':
            fd = self._outfd if channel == 'out' else self._errfd
            while data:
                try:
                    data = data[os.write(fd, data):]
                except OSError:
                    self._fate = 1
                    return b''
        return b''

    def _advance(self):
        """One step of the tool: 'ok', 'end', or what it is blocked on."""
        if not self.alive:
            return 'end'
        if self._interrupt:
            self._interrupt = False
            raise KeyboardInterrupt
        if self._pending:
            ch, data = self._pending
            rest = self._put(ch, data)
            self._pending = (ch, rest) if rest else None
            if rest and len(rest) == len(data):
                return 'blocked-' + ch
            return 'ok'
        SIM.lib.simio_yield(b'step')
        try:
            with suspended():
                act = next(self._gen)
        except StopIteration:
            self._fate = 0
            return 'end'
        self.steps += 1
        SIM.note({'t': 'ts', 'id': self.id, 'k': self.steps})
        op = act[0]
        if op in ('out', 'err'):
            self.emitted.append((op, act[1]))
            rest = self._put(op, act[1])
            if rest:
                self._pending = (op, rest)
        elif op == 'sleep':
            SIM.note({'t': 'sleep', 'id': self.id, 'ns': int(act[1])})
            SIM.lib.simio_advance(int(act[1]))
            self.slept += act[1]
        elif op == 'write':
            SIM.note({'t': 'tw', 'path': act[1]})
            with suspended():
                tool_write(act[1], act[2], SIM.shm.now_ns, append=len(act) > 3 and act[3])
        elif op == 'jump':
            SIM.lib.simio_jump(int(act[1]))
        elif op == 'exit':
            self._fate = act[1]
            return 'end'
        elif op == 'stdin':
            if self._stdin == 'eof':
                return 'ok'
            self._gen = _chain(act, self._gen)
            self.steps -= 1
            return 'blocked-stdin'
        elif op == 'sigint':
            SIM.note({'t': 'sigint'})
            if self._starting:
                self._interrupt = True
                return 'ok'
            raise KeyboardInterrupt
        elif op == 'kill':                  # kpex is killed while this tool runs
            SIM.lib.simio_die()
        elif op == 'nop':
            pass
        else:
            raise kernel.HarnessError(f'unknown tool action {op}')
        return 'ok'

    def _read(self, pipe, n):
        while not pipe.buf:
            if not self.alive:
                return b''
            st = self._advance()
            if st == 'end':
                continue
            if st.startswith('blocked') and not pipe.buf:
                raise kernel.SimDeadlock(f'{self.kind}: waits for {st[8:]} while kpex waits for its output')
        # some more may have arrived in the meantime
        for _ in range(self.rng.randrange(3)):
            if self._advance() != 'ok':
                break
        k = min(n, len(pipe.buf))
        ch = self.spec.get('chunk')
        if ch:
            k = max(1, min(k, self.rng.randint(1, ch)))
        data = bytes(pipe.buf[:k])
        del pipe.buf[:k]
        return data

    # -- the API --------------------------------------------------------------------------------
    def unread(self):
        """bytes the tool has written and nobody has read"""
        n = len(self._pending[1]) if self._pending else 0
        return n + sum(len(p.buf) for p in {id(x): x for x in (self._out, self._err) if isinstance(x, _Pipe)}.values())

    def _settle(self):
        if not self.alive and self.t_end is None:
            self.t_end = SIM.shm.mono_ns
        if self.returncode is None and not self.alive:
            self.returncode = self.killed if self.killed is not None else self._fate
            SIM.note({'t': 'reaped', 'id': self.id})
        return self.returncode

    def poll(self):
        if self.alive:
            self._advance()
        return self._settle()

    def wait(self, timeout=None):
        t0 = SIM.shm.mono_ns
        while self.alive:
            if timeout is not None and SIM.shm.mono_ns - t0 > timeout * 1e9:
                raise _sp.TimeoutExpired(self.args, timeout)
            st = self._advance()
            if st.startswith('blocked'):
                if timeout is not None:
                    SIM.lib.simio_advance(int(timeout * 1e9))
                    raise _sp.TimeoutExpired(self.args, timeout)
                raise kernel.SimDeadlock(f'{self.kind}: waits for {st[8:]} while kpex waits for its end')
        return self._settle()

    def communicate(self, input=None, timeout=None):
        t0 = SIM.shm.mono_ns
        if self.stdin:
            if input:
                self.stdin.write(input)
            self.stdin.close()
        raw = {'o': bytearray(), 'e': bytearray()}

        def drain():
            for k, p, s in (('o', self._out, self.stdout), ('e', self._err, self.stderr)):
                if s is not None and isinstance(p, _Pipe) and p.buf:
                    raw[k] += p.buf
                    p.buf.clear()
        # what a wrapper has read ahead already
        for k, s in (('o', self.stdout), ('e', self.stderr)):
            if s is not None:
                b = getattr(s, 'buffer', s)
                raw[k] += b.peek() if b.raw._pipe.buf else b''
                if raw[k]:
                    raw[k] = bytearray(b.read1(len(raw[k])))
        while self.alive:
            if timeout is not None and SIM.shm.mono_ns - t0 > timeout * 1e9:
                raise _sp.TimeoutExpired(self.args, timeout)
            st = self._advance()
            drain()
            if st.startswith('blocked') and self._pending is None:
                raise kernel.SimDeadlock(f'{self.kind}: waits for {st[8:]} while kpex waits for its end')
        drain()
        self._settle()
        res = []
        for k, s in (('o', self.stdout), ('e', self.stderr)):
            if s is None:
                res.append(None)
                continue
            d = bytes(raw[k])
            if isinstance(s, io.TextIOWrapper):
                d = d.decode(s.encoding, s.errors).replace('\r\n', '\n').replace('\r', '\n')
            s.close()
            res.append(d)
        return tuple(res)

    def send_signal(self, sig):
        self._settle()
        if self.returncode is None:
            if sig == 0:
                return
            if sig == signal.SIGTERM and self.spec.get('ignore_term'):
                return
            if sig == signal.SIGINT and self.spec.get('ignore_term'):
                return
            self.killed = -int(sig)
            SIM.note({'t': 'killed', 'id': self.id})

    def kill(self):
        self.send_signal(signal.SIGKILL)

    def terminate(self):
        self.send_signal(signal.SIGTERM)

    def __enter__(self):
        return self

    def __exit__(self, et, ev, tb):
        for s in (self.stdout, self.stderr, self.stdin):
            if s is not None:
                s.close()
        self.wait()


def _chain(act, gen):
    yield act
    yield from gen


def _nofork(*a, **k):
    raise kernel.HarnessError('a real process was about to be started')


def install():
    _sp.Popen = SimPopen
    _sp._fork_exec = _nofork


def finish_orphans(trace, factory, now_ns):
    """After a kill: let the tools that were still running go on to their end.
    Returns the number of tools that did something."""
    tools, done, step = {}, set(), {}
    for line in trace.splitlines():
        if not line.startswith('N {'):
            continue
        try:
            o = json.loads(line[2:])
        except ValueError:
            continue
        if o['t'] == 'tool':
            tools[o['id']] = o
            step[o['id']] = 0
        elif o['t'] == 'ts':
            step[o['id']] = o['k']
        elif o['t'] in ('reaped', 'killed'):
            done.add(o['id'])
    n = 0
    for i, o in tools.items():
        if i in done:
            continue
        gen = factory(o['kind'], o['argv'], o['cwd'], o['spec'])
        k = 0
        for act in gen:
            k += 1
            if k <= step[i]:
                continue
            if act[0] == 'write':
                tool_write(act[1], act[2], now_ns, append=len(act) > 3 and act[3])
                n += 1
            elif act[0] == 'exit':
                break
    return n
