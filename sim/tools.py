"""The external programs, as step scripts.

Each function is a generator of actions (see popen.py) that behaves like the real program at the
process boundary: command line, working directory, files read and written, output, exit status.
What a tool computes is a deterministic function of the files it reads and of its seed, so that a
result can be traced back to its inputs.  Outcomes other than 'ok' are the ways real tools fail.
No code of /repo is used here.
"""
import base64
import hashlib
import os
import random
import re
import tempfile

from . import design as dz

_lvs_cache = {}
_schematics = {}


def chat(spec, part):
    """The tool's chatter: spec['chat'] = [[part, channel, text, repeat], ...]"""
    for c in spec.get('chat', ()):
        if c[0] == part:
            yield (c[1], (c[2] * (c[3] if len(c) > 3 else 1)).encode('utf-8', 'surrogateescape'))
    if spec.get('sigint') == part:
        yield ('sigint',)
    if spec.get('kill') == part:
        yield ('kill',)
    if spec.get('sleep2') and spec.get('sigint', 1) == part:
        yield ('sleep', spec['sleep2'])
        yield ('out', b'still there\n')


def cut(data, permille):
    return data[:len(data) * permille // 1000]


def edit(world, spec, when):
    """Somebody changes the layout while the tool runs: spec['edit'] = [when, path, design, format, jump]"""
    e = spec.get('edit')
    if e and e[0] == when:
        if len(e) > 4 and e[4]:
            yield ('sleep', e[4])
        yield ('write', os.path.join(world.root, e[1]), world.layout_bytes(e[2], e[3]))


def sleep(spec, default=10**9):
    yield ('sleep', spec.get('sleep', default))


def read(path):
    with open(path, 'rb') as f:
        return f.read()


def check_schematic(path):
    """LVS needs a netlist with at least one circuit"""
    data = read(path)
    if data not in _schematics:
        import klayout.db as kdb
        d = tempfile.mkdtemp(dir=os.environ.get('SIM_TOOLTMP'))
        p = os.path.join(d, 's.spice')
        try:
            with open(p, 'wb') as f:
                f.write(data)
            nl = kdb.Netlist()
            nl.read(p, kdb.NetlistSpiceReader())
            _schematics[data] = nl.top_circuit_count() > 0
        except RuntimeError:
            _schematics[data] = False
        finally:
            os.unlink(p)
            os.rmdir(d)
    if not _schematics[data]:
        raise ValueError('no circuit in the schematic')


# ---- KLayout LVS ------------------------------------------------------------------------------

def klayout(world, argv, cwd, spec):
    out = spec.get('outcome', 'ok')
    rd = dict(a.split('=', 1) for p, a in zip(argv, argv[1:]) if p == '-rd' and '=' in a)
    rc_ok = 1 if spec.get('mismatch') else 0
    yield ('out', b'KLayout LVS (simulated)\n')
    yield from chat(spec, 0)
    yield from edit(world, spec, 'start')
    if out == 'fail_before':
        yield ('err', b'ERROR: undefined method in LVS script\n')
        yield ('exit', spec.get('rc', 1))
        return
    if out == 'signal':
        yield ('exit', -11)
        return
    if out == 'prompt':
        yield ('out', b'(rdb) ')
        yield ('stdin',)
        yield ('out', b'end of input\n')
        yield ('exit', 1)
        return
    if '-b' not in argv or '-r' not in argv or not {'input', 'report', 'schematic'} <= set(rd):
        yield ('err', b'ERROR: incomplete command line\n')
        yield ('exit', 1)
        return
    try:
        data = read(os.path.join(cwd, rd['input']))
        check_schematic(os.path.join(cwd, rd['schematic']))
        deck = os.path.splitext(os.path.basename(argv[argv.index('-r') + 1]))[0]
        key = (data, os.path.basename(rd['input']), rd['report'].endswith('.gz'), deck)
        if key not in _lvs_cache:
            _lvs_cache[key] = dz.mini_lvs(os.path.join(cwd, rd['input']), rd['report'], deck=deck)
        report = _lvs_cache[key]
    except Exception as e:
        yield ('err', f'ERROR: {type(e).__name__} while reading the input\n'.encode())
        yield ('exit', 1)
        return
    yield from edit(world, spec, 'read')
    yield ('out', b'Extracting netlist ...\n')
    yield from sleep(spec)
    yield from chat(spec, 1)
    path = os.path.join(cwd, rd['report'])
    if out == 'fail_mid':
        yield ('err', b'ERROR: LVS script aborted\n')
        yield ('exit', spec.get('rc', 1))
        return
    if out == 'ok0_noreport':
        yield ('out', b'finished\n')
        yield ('exit', 0)
        return
    if out in ('fail_partial', 'ok0_partial', 'signal_partial'):
        part = cut(report, spec.get('permille', 500))
        yield ('write', path, part)
        yield from chat(spec, 2)
        yield from edit(world, spec, 'end')
        yield ('exit', {'fail_partial': spec.get('rc', 1), 'ok0_partial': 0, 'signal_partial': -9}[out])
        return
    n = spec.get('pieces', 2)
    yield ('write', path, b'')
    for i in range(n):
        yield ('write', path, report[len(report) * i // n:len(report) * (i + 1) // n], True)
    yield from chat(spec, 2)
    yield from edit(world, spec, 'end')
    yield ('out', b'NOTE: Netlists do not match\n' if rc_ok else b'INFO: Congratulations! Netlists match.\n')
    if out == 'fail_after':                     # complete report, then a crash at exit
        yield ('exit', spec.get('rc', 1))
        return
    yield ('exit', rc_ok)


# ---- field solvers -----------------------------------------------------------------------------

def conductors(lst_path):
    """Conductor names in the order of a FastCap list file, and a digest of everything it refers to."""
    d = os.path.dirname(lst_path)
    text = read(lst_path).decode()
    h = hashlib.sha256(text.encode())
    names, group = [], []
    for line in text.splitlines():
        w = line.split()
        if not w or w[0] not in 'CDBcdb':
            continue
        data = read(os.path.join(d, w[1]))
        h.update(data)
        if w[0] not in 'Cc':
            continue
        group.append(data.decode())
        if w[-1] != '+':
            name = None
            for t in group:
                m = re.search(r'^N\s+\S+\s+(\S+)\s*$', t, re.M)
                if m:
                    name = m.group(1)
                    break
            names.append(name or str(len(names) + 1))
            group = []
    if group:
        raise ValueError('unterminated conductor')
    return names, h.hexdigest()


def matrix(names, digest, spec, it):
    """A plausible Maxwell matrix in the solver's unit (values as FasterCap prints them)."""
    r = random.Random(f'{digest}/{spec.get("mseed", 0)}/{it}')
    n = len(names)
    kind = spec.get('matrix', '')
    if kind:
        m = [[0.0] * n for _ in range(n)]
        lo, hi = {'zeros': (-10, -8), 'tiny': (-16, -9), 'big': (-4, 3), 'wide': (-30, 3), 'sym': (-11, -7)}[kind]
        for i in range(n):
            for j in range(i + 1, n):
                x = -10 ** r.uniform(lo, hi)
                m[i][j] = m[j][i] = x
                if kind == 'zeros' and r.random() < 0.5:
                    m[i][j] = 0.0
                    m[j][i] = 0.0 if r.random() < 0.5 else -0.0
                elif kind != 'sym' and r.random() < 0.3:
                    m[j][i] = -x * r.uniform(-1, 2)
            m[i][i] = sum(abs(x) for x in m[i]) * r.uniform(0.9, 1.5)
        return m
    m = [[0.0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i + 1, n):
            v = -10 ** r.uniform(-10.5, -7.5)
            if r.random() < 0.15:
                v = -10 ** r.uniform(-12, -10.5)
            if r.random() < 0.05:
                v = 10 ** r.uniform(-13, -11)
            m[i][j] = v
            m[j][i] = v * (1 + r.uniform(-0.02, 0.02))
    for i in range(n):
        m[i][i] = -sum(m[i][j] for j in range(n) if j != i) + 10 ** r.uniform(-10, -8)
    return m


def fc_names(names):
    return [f'g{i + 1}_{n}' for i, n in enumerate(names)]


def fc_matrix_text(names, m):
    rows = [f'{nm}  ' + ' '.join('%g' % v for v in row) + ' ' for nm, row in zip(names, m)]
    return 'Capacitance matrix is:\nDimension %d x %d\n' % (len(names), len(names)) + '\n'.join(rows) + '\n'


def parsed(text_values):
    return [float(v) / 1e6 for v in text_values]


def fastercap(world, argv, cwd, spec):
    out = spec.get('outcome', 'ok')
    lst = os.path.join(cwd, argv[-1])
    yield ('out', b'Running FasterCap version 6.0.7 (simulated)\nCopyright FastFieldSolvers\n')
    yield from chat(spec, 0)
    yield from edit(world, spec, 'start')
    if out == 'fail_before':
        yield ('err', b'Error: out of memory\n')
        yield ('exit', spec.get('rc', 2))
        return
    if out == 'signal':
        yield ('exit', -9)
        return
    if out == 'prompt':
        yield ('out', b'Continue? ')
        yield ('stdin',)
        yield ('exit', 1)
        return
    try:
        names, digest = conductors(lst)
    except (OSError, ValueError) as e:
        yield ('err', f'Error: cannot read {argv[-1]}: {type(e).__name__}\n'.encode())
        yield ('exit', 1)
        return
    opts = ' '.join(argv[1:-1])
    yield ('out', f'Options: {opts}\n'.encode())
    names = fc_names(names)
    n_it = spec.get('iterations', 2)
    for it in range(n_it):
        last = it == n_it - 1
        m = matrix(names, digest + opts, spec, 'final' if last else it)
        text = f'Iteration number #{it} ***************************\n'
        mt = fc_matrix_text(names, m)
        tail = '\nWeighted Frobenius norm of the difference between capacitance (auto option): 0.0123\n' \
               f'Solve statistics:\nNumber of input panels: {100 + it}\n\n'
        yield from sleep(spec)
        yield from chat(spec, 1)
        if last and out in ('trunc', 'trunc_signal', 'trunc_fail'):
            # the solver's output ends within its last matrix
            head, rest = mt.split('\n', 1)
            yield from emit(spec, (text + head + '\n').encode() + cut(rest.encode(), spec.get('permille', 700)))
            yield ('exit', {'trunc': 0, 'trunc_signal': -9, 'trunc_fail': spec.get('rc', 3)}[out])
            return
        if out == 'nomatrix':
            yield ('out', text.encode() + b'Error: cannot refine further\n')
            yield ('exit', 0)
            return
        yield from emit(spec, (text + mt + tail).encode())
    yield from chat(spec, 2)
    yield from edit(world, spec, 'end')
    yield ('out', b'Solution computed\n' + spec.get('last', 'Total time: 1.23s\n').encode())
    if out == 'fail_after':
        yield ('exit', spec.get('rc', 1))
        return
    yield ('exit', 0)


def emit(spec, data):
    """Output in pieces, as a pipe delivers it."""
    n = spec.get('piece', 0)
    if not n:
        yield ('out', data)
        return
    for i in range(0, len(data), n):
        yield ('out', data[i:i + n])


def fastcap_names(names, spec):
    if spec.get('naming') == 'group':
        return [f'{n}%GROUP{i + 1}' for i, n in enumerate(names)]
    return fc_names(names)


def fastcap_matrix_text(names, m):
    n = len(names)
    w = max(len(x) for x in names)
    head = ' ' * (w + 1) + ''.join('%11d' % (i + 1) for i in range(n)) + '\n'
    rows = ''.join('%-*s %d ' % (w, nm, i + 1) + ' '.join('%10.4g' % v for v in row) + '\n'
                   for i, (nm, row) in enumerate(zip(names, m)))
    return 'CAPACITANCE MATRIX, picofarads\n' + head + rows


def fastcap(world, argv, cwd, spec):
    out = spec.get('outcome', 'ok')
    lst = next((a[2:] for a in argv if a.startswith('-l')), None)
    yield ('out', b'Running fastcap 2.0 (18Sept92) (simulated)\n')
    yield from chat(spec, 0)
    if out == 'fail_before':
        yield ('err', b'fastcap: no memory\n')
        yield ('exit', spec.get('rc', 1))
        return
    if out == 'signal':
        yield ('exit', -9)
        return
    if out == 'prompt':
        yield ('stdin',)
        yield ('exit', 1)
        return
    try:
        names, digest = conductors(os.path.join(cwd, lst))
    except (OSError, ValueError, TypeError) as e:
        yield ('err', f'fastcap: cannot read list file: {type(e).__name__}\n'.encode())
        yield ('exit', 1)
        return
    opts = ' '.join(a for a in argv[1:] if not a.startswith('-l'))
    yield ('out', f'  Date: simulated\n  Options: {opts}\n'.encode())
    names = fastcap_names(names, spec)
    yield from sleep(spec)
    yield from chat(spec, 1)
    m = matrix(names, digest + opts, spec, 'final')
    m = [[v * 1e6 for v in row] for row in m]
    text = fastcap_matrix_text(names, m)
    if out in ('trunc', 'trunc_signal', 'trunc_fail'):
        yield from emit(spec, cut(text.encode(), spec.get('permille', 700)))
        yield ('exit', {'trunc': 0, 'trunc_signal': -9, 'trunc_fail': spec.get('rc', 3)}[out])
        return
    if out == 'nomatrix':
        yield ('out', b'fastcap: iteration did not converge\n')
        yield ('exit', 0)
        return
    yield from emit(spec, text.encode())
    yield from chat(spec, 2)
    yield ('out', spec.get('last', '\nTotal time: 0.5\n').encode())
    if out == 'fail_after':
        yield ('exit', spec.get('rc', 1))
        return
    yield ('exit', 0)


# ---- MAGIC -------------------------------------------------------------------------------------

def tcl_words(line):
    """The words of a command, as TCL reads them. There are no variables, and no commands with results."""
    words, i = [], 0
    if line.lstrip().startswith('#'):
        return []
    while True:
        while i < len(line) and line[i] in ' \t':
            i += 1
        if i == len(line):
            return words
        w, quote, brace, start = '', False, 0, True
        while i < len(line):
            c = line[i]
            if start and c in '"{':
                quote, brace = c == '"', c == '{'
            elif brace:
                brace += (c == '{') - (c == '}')
                if brace == 0:
                    if i + 1 < len(line) and line[i + 1] not in ' \t;':
                        raise ValueError('extra characters after close-brace')
                else:
                    w += c
            elif c == '\\' and i + 1 < len(line):
                i += 1
                w += {'n': '\n', 't': '\t', 'r': '\r'}.get(line[i], line[i])
            elif quote and c == '"':
                quote = False
                if i + 1 < len(line) and line[i + 1] not in ' \t;':
                    raise ValueError('extra characters after close-quote')
            elif c == '$' and re.match(r'[A-Za-z0-9_({:]', line[i + 1:]):
                raise ValueError("can't read variable")
            elif c == '[':
                raise ValueError('invalid command name')
            elif not quote and c in ' \t;':
                break
            else:
                w += c
            i += 1
            start = False
        if quote or brace:
            raise ValueError('missing close-quote or close-brace')
        words.append(w)
        if i < len(line) and line[i] == ';':
            raise ValueError('more than one command')


def magic(world, argv, cwd, spec):
    out = spec.get('outcome', 'ok')
    yield ('out', b'\nMagic 8.3 revision 500 (simulated)\nStarting magic under Tcl interpreter\n')
    yield from chat(spec, 0)
    yield from edit(world, spec, 'start')
    if out == 'fail_before':
        yield ('err', b'cannot read technology\n')
        yield ('exit', spec.get('rc', 1))
        return
    if out == 'signal':
        yield ('exit', -11)
        return
    cmds = {}
    opt, done = [], []
    try:
        text = read(os.path.join(cwd, argv[-1])).decode()
        read(os.path.join(cwd, argv[argv.index('-rcfile') + 1]))
        for line in text.splitlines():
            w = tcl_words(line)
            if w[:2] in (['gds', 'read'], ['extract', 'path']):
                _, _, cmds[w[0]] = w
            elif w[:1] == ['load']:
                _, name = w
                cmds.setdefault('load', name)
            elif w[:2] == ['ext2spice', '-p']:
                _, _, p, o, f = w
                if o != '-o':
                    raise ValueError('usage: ext2spice')
                cmds['ext2spice'] = p, f
            elif w and w[0] in ('ext2spice', 'extresist', 'extract') and w[1:2] != ['all']:
                if w[0] not in done:                          # what is set afterwards has no effect
                    opt.append(line)
            if w[1:2] == ['all'] or w[:2] == ['ext2spice', '-p']:
                done.append(w[0])
        data = read(cmds['gds'])
    except Exception as e:
        yield ('err', f'Error while processing file: {type(e).__name__}\n'.encode())
        yield ('stdin',)                     # magic falls back to its prompt
        yield ('exit', 0)
        return
    nets, data = gds_texts(data, cmds['load'])
    yield from edit(world, spec, 'read')
    if nets is None or out == 'tcl_error':
        yield ('err', b'Error parsing script: Cell couldn\'t be read\n')
        yield from chat(spec, 1)
        yield ('stdin',)
        yield ('exit', 0)
        return
    yield from sleep(spec)
    yield from chat(spec, 1)
    yield ('out', b''.join(b'did: ' + l.encode() + b'\n' for l in opt))
    res = any(l.startswith('extract do resistance') for l in opt) and 'extresist' in done
    cell = cmds['load']
    digest = hashlib.sha256(data + '\n'.join(opt).encode()).hexdigest()
    r = random.Random(digest)
    d = cmds['extract']
    ext_b, res_b = ext_file(cell, nets, r, spec)
    spice = [f'* NGSPICE file created from {cell}.ext', f'.subckt {cell} ' + ' '.join(nets)]
    for i, n in enumerate(nets):
        spice.append(f'C{i} {n} VSUBS {r.randrange(1, 10000) / 1000}f')
    spice.append('.ends')
    spice_b = ('\n'.join(spice) + '\n').encode()
    subcells = []
    for k in range(spec.get('subcells', 0)):
        name = r.choice(['', 'a', 'z_', 'M']) + cell + r.choice(['', '_sub', '$', '.x']) + str(k)
        subcells.append((name, *ext_file(name, [f'{n}_{k}' for n in nets[:2]] + ['x'], r, spec)))
    r.shuffle(subcells)
    ext_p = os.path.join(d, cell + '.ext')
    if out == 'fail_partial':
        yield ('write', ext_p, cut(ext_b, spec.get('permille', 500)))
        yield ('exit', spec.get('rc', 1))
        return
    if out == 'noext':
        yield ('exit', 0)
        return
    for name, e, _ in subcells[::2]:
        yield ('write', os.path.join(d, name + '.ext'), e)
    yield ('write', ext_p, ext_b)
    for name, e, _ in subcells[1::2]:
        yield ('write', os.path.join(d, name + '.ext'), e)
    if out == 'nospice':
        yield ('err', b'Error in ext2spice\n')
        yield ('stdin',)
        yield ('exit', 0)
        return
    if res:
        for name, _, x in subcells:
            yield ('write', os.path.join(d, name + '.res.ext'), x)
        yield ('write', os.path.join(d, cell + '.res.ext'), res_b)
    yield ('write', cmds['ext2spice'][1], b'')
    yield ('write', cmds['ext2spice'][1], spice_b, True)
    yield from chat(spec, 2)
    yield from edit(world, spec, 'end')
    yield ('out', b'exttospice finished.\n')
    yield ('exit', spec.get('rc', 1) if out == 'fail_after' else 0)


DEVICES = ['msubckt', 'mosfet', 'bjt', 'devres', 'devcap', 'diode', 'ndiode', 'subckt', 'rsubckt', 'csubckt']


def ext_file(cell, nets, r, spec):
    """The extraction files of one cell: ports, nodes and devices; resistors"""
    rich = spec.get('rich')
    ext = ['timestamp 0', 'version 8.3', 'tech sky130A', 'style ngspice()', 'scale 1000 1 500000', 'resistclasses 4400000 2200000 950000']
    nodes = list(nets)
    if rich:
        nodes += [f'a_n{r.randrange(99)}_{r.randrange(99)}#', 'in[0]', 'bus<3>', 'x1/y', 'VDD!', 'net.1', "q'", 'w_n38_261#'][:r.randrange(1, 9)]
    c = lambda: r.randrange(-3000, 3000) if rich else r.randrange(1000)
    for i, n in enumerate(nodes):
        if i < len(nets) or rich and r.random() < 0.3:
            for _ in range(r.choice([1, 1, 2]) if rich else 1):
                x, y = c(), c()
                ext.append(f'port "{n}" {i + 1} {x} {y} {x + r.randrange(60)} {y + r.randrange(60)} ' + r.choice(['li', 'm1', 'nsd']))
        cap = '%g' % (r.randrange(100000) / r.choice([1, 7, 1e5])) if rich else str(r.randrange(1000))
        ext.append(f'node "{n}" {r.randrange(1000)} {cap} {c()} {c()} ' + r.choice(['li', 'm1', 'p']) + ' 0 0 0 0')
    ext.append('substrate "VSUBS" 0 0 -1073741817 -1073741817 space 0 0 0 0')
    for i in range(len(nodes) - 1):
        ext.append(f'cap "{nodes[i]}" "{nodes[i + 1]}" {r.random():.5g}')
    if spec.get('devices', True):
        for k in range(r.randrange(1, 5) if rich else 1):
            x, y = c(), c()
            t = r.choice(DEVICES) if rich else 'msubckt'
            m, w = r.randrange(9), r.randrange(1, 99)
            ends = f'l=30 w=200 "VSUBS" "{nodes[0] if nodes else "x"}" 60 0'
            ext.append(f'device {t} sky130_fd_pr__{t}_{m} {x} {y} {x + w} {y + 1} {ends}')
            if rich and r.random() < 0.5:          # arrays: the same device again, above, beside, or of another size or type
                k = r.randrange(4)
                if k == 0:
                    y += 400
                elif k == 1:
                    x += 400
                elif k == 2:
                    w += 1
                else:
                    m += 1
                ext.append(f'device {t} sky130_fd_pr__{t}_{m} {x} {y} {x + w} {y + 1} {ends}')
    res = []
    for i, n in enumerate(nodes):
        if rich and r.random() < 0.2:
            continue
        k = r.randrange(1, 4) if rich else 1
        names = [n] + [f'{n}.{r.choice("tn")}{j}' for j in range(k)]
        for m in names if rich else names[1:]:
            res.append(f'rnode "{m}" 0 0 {c()} {c()} 0')
        for a, b in zip(names[1:], names):
            v = r.choice(['%g' % (r.random() * 10 ** r.randrange(-5, 9)), '12', '0.5']) if rich else r.randrange(1, 9999) / 10
            res.append(f'resist "{a}" "{b}" {v}')
    return ('\n'.join(ext) + '\n').encode(), ('\n'.join(res) + '\n').encode()


def gds_texts(data, cell):
    import gzip
    import klayout.db as kdb
    import tempfile
    ly = kdb.Layout()
    d = tempfile.mkdtemp(dir=os.environ.get('SIM_TOOLTMP'))
    p = os.path.join(d, 'x')
    try:
        with open(p, 'wb') as f:
            f.write(data)
        ly.read(p)
    except Exception:
        return None, None
    finally:
        os.unlink(p)
        os.rmdir(d)
    c = ly.cell(cell)
    if c is None:
        return None, None
    opt = kdb.SaveLayoutOptions()                 # the content counts, not its encoding
    opt.format = 'GDS2'
    opt.gds2_write_timestamps = False
    opt.write_context_info = False
    opt.clear_cells()
    opt.add_cell(c.cell_index())
    data = ly.write_bytes(opt)
    res = set()
    for li in ly.layer_indexes():
        for it in c.begin_shapes_rec(li).each():
            if it.shape().is_text():
                res.add(it.shape().text_string)
    return sorted(res), data


# ---- netlistsvg --------------------------------------------------------------------------------

def netlistsvg(world, argv, cwd, spec):
    out = spec.get('outcome', 'ok')
    yield from chat(spec, 0)
    if out == 'fail_before':
        yield ('err', b'TypeError: cannot read properties of undefined\n')
        yield ('exit', spec.get('rc', 1))
        return
    if out == 'signal':
        yield ('exit', -6)
        return
    try:
        data = read(os.path.join(cwd, argv[-1]))
        read(os.path.join(cwd, argv[argv.index('--skin') + 1]))
        dst = os.path.join(cwd, argv[argv.index('-o') + 1])
    except Exception as e:
        yield ('err', f'cannot read input: {type(e).__name__}\n'.encode())
        yield ('exit', 1)
        return
    svg = b'<svg><!-- ' + base64.b64encode(data) + b' --></svg>\n'
    yield from chat(spec, 1)
    if out == 'fail_partial':
        yield ('write', dst, cut(svg, 500))
        yield ('exit', spec.get('rc', 1))
        return
    yield ('write', dst, svg)
    yield from chat(spec, 2)
    yield ('exit', spec.get('rc', 1) if out == 'fail_after' else 0)


TOOLS = {'klayout': klayout, 'FasterCap': fastercap, 'fastcap': fastcap, 'magic': magic, 'netlistsvg': netlistsvg}


def factory(world):
    def make(kind, argv, cwd, spec):
        return TOOLS[kind](world, argv, cwd, spec)
    return make
