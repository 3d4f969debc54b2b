"""Oracles shared by the properties. A violation is a dict {kind, step, text}."""
import os
import re

from . import artifacts, rdbs
from . import design as dz

# outcomes of a tool after which there can be no valid result of this tool
FATAL = {
    'klayout': {'no_start', 'fail_before', 'signal', 'prompt', 'fail_mid', 'ok0_noreport'},
    'FasterCap': {'no_start', 'fail_before', 'signal', 'prompt', 'trunc_signal', 'trunc_fail', 'nomatrix', 'fail_after'},
    'fastcap': {'no_start', 'fail_before', 'signal', 'prompt', 'trunc_signal', 'trunc_fail', 'nomatrix', 'fail_after'},
    'magic': {'no_start', 'fail_before', 'signal', 'tcl_error', 'fail_partial', 'noext', 'nospice', 'fail_after'},
    'netlistsvg': {'no_start', 'fail_before', 'signal', 'fail_partial', 'fail_after'},
}
ENGINE_TOOLS = {'2.5D': ['klayout'], 'fastercap': ['klayout', 'FasterCap'], 'fastcap': ['klayout', 'fastcap'],
                'magic': ['magic']}


def v(kind, step, text):
    return {'kind': kind, 'step': step, 'text': text}


def outcome_of(run, kind):
    specs = run.get('tools', {}).get(kind) or [{}]
    return specs[0].get('outcome', 'ok')


def used_tools(run):
    r = []
    for e in run.get('engines', ()):
        for t in ENGINE_TOOLS[e]:
            if t not in r:
                r.append(t)
    return r


def clean(run):
    """no fault and no failing tool in this run"""
    return not run.get('faults') and run.get('budget', -1) < 0 and all(
        outcome_of(run, t) == 'ok' and not any('kill' in s for s in run.get('tools', {}).get(t, ())) for t in used_tools(run))


def results_only(results):
    return {n: d for n, d in results.items() if not n.endswith('_Output.txt')}


def diff(a, b):
    """first difference between two result sets"""
    out = []
    for n in sorted(set(a) | set(b)):
        x, y = a.get(n), b.get(n)
        if x != y:
            if isinstance(x, bytes) and isinstance(y, bytes):
                la, lb = x.splitlines(), y.splitlines()
                k = next((i for i, (p, q) in enumerate(zip(la, lb)) if p != q), min(len(la), len(lb)))
                out.append(f'{n} line {k + 1}: {_cut(la[k:k + 1])} instead of {_cut(lb[k:k + 1])}')
            else:
                out.append(f'{n}: {_state(x)} instead of {_state(y)}')
    return '; '.join(out[:3]) + (f' (and {len(out) - 3} more files)' if len(out) > 3 else '')


def _cut(l):
    return repr(l[0].decode('utf-8', 'replace')[:100]) if l else '(end of file)'


def _state(x):
    return 'missing' if x is None else x if isinstance(x, str) else f'{len(x)} bytes'


def golden_match(w, run, ev):
    """Compare the results of a successful run with fresh runs on every layout version that was
    current while it ran. Returns (matching version or None, text)."""
    last = ''
    mine = results_only(ev['results'])
    for d, f in reversed(ev['versions']):
        rc, exc, res = w.golden(run, d, f)
        if rc != 0:
            last = f'a fresh run fails on this layout: {exc}'
            continue
        ref = results_only(res)
        if mine == ref:
            return (d, f), ''
        last = diff(mine, ref)
    return None, last


def judge_results(w, run, ev, i, must_succeed=None):
    """rc 0 only with exactly the results of a fresh run; a run without faults succeeds"""
    out = []
    rc = ev['res']['rc']
    if rc == 0:
        m, text = golden_match(w, run, ev)
        if m is None:
            out.append(v('wrong_results', i, f'the run succeeded, but its results are not those of a fresh run: {text}'))
        else:
            w.count('results_compared')
            out += judge_complete(w, run, ev, i)
    if must_succeed if must_succeed is not None else clean(run):
        if rc != 0:
            out.append(v('failed_without_reason', i,
                         f'nothing went wrong in this run, but it ended with {rc}: {ev["res"].get("exc", "")}'))
    if rc in ('hang', 'deadlock', 'died'):
        out.append(v(rc, i, f'the run never ends or died: {ev["res"].get("exc", "")}'))
    return out


def judge_complete(w, run, ev, i):
    """Whatever a fresh run writes: a successful run has every result file, they can be read, and they are about
    the nets of this cell in this layout"""
    out = []
    for e, names in artifacts.required(run).items():
        for n in names:
            d = ev['results'].get(n)
            if not isinstance(d, bytes):
                out.append(v('missing_output', i, f'the run succeeded, but {n} is {_state(d)}'))
            elif not d and not n.endswith('_Output.txt'):
                out.append(v('missing_output', i, f'the run succeeded, but {n} is empty'))
    if out:
        return out
    nets = {net_name(x) for d, f in ev['versions'] for x in dz.nets_of(w.designs[d], run['cell'])}
    foreign = {net_name(x) for d in w.designs for c in d['cells'] for x in dz.nets_of(d, c['name'])} - nets
    c = run['cell']
    for n, d in sorted(ev['results'].items()):
        if not isinstance(d, bytes):
            continue
        if n.endswith('.rdb.gz'):
            if '_k25d_' in n and rdbs.tree(d) is None and not w.sc.get('rdbs'):
                out.append(v('unreadable', i, f'{n} cannot be loaded'))
        elif n.endswith(('.spice', '.cir', '.csv')) and '/' not in n or n.endswith('.spice'):
            words = {t.decode() for t in re.findall(rb'[A-Za-z0-9_]+', d)}
            words = {net_name(x) for t in words for x in (t, re.sub(r'^g\d+_', '', t))}
            bad = sorted(words & foreign)
            if bad:
                out.append(v('foreign_nets', i, f'{n} has nets of another cell or version: {bad[:4]}'))
            if n.endswith(('.spice', '.cir')) and not re.search(rb'(?im)^\.subckt\s+' + re.escape(c.encode()) + rb'(\s|$)', d):
                out.append(v('wrong_cell', i, f'{n} has no circuit {c}'))
            lost = sorted(x for x in nets if x not in words)
            r_only = any(a == '--mode' and b == 'R' for a, b in zip(run['opts'], run['opts'][1:]))
            if lost and len(ev['versions']) == 1 and '_Reduced_' not in n and '_Expanded_' not in n and not ('_k25d_' in n and r_only):
                out.append(v('lost_nets', i, f'{n} lacks the nets {lost[:4]}'))
    return out


def net_name(x):
    """the part of a name that tells the net, however the file spells the rest of it"""
    return re.match('[A-Za-z0-9_]*', x).group().upper()


def judge_fatal(w, run, ev, i):
    """a tool that failed for good makes the run fail"""
    out = []
    if ev['res']['rc'] != 0:
        return out
    started = {t['kind'] for t in ev['res'].get('tools', [])} | set(ev['res'].get('nostart', ()))
    for t in used_tools(run):
        o = outcome_of(run, t)
        if t in started and o in FATAL[t]:
            out.append(v('failure_ignored', i, f'{t} failed ({o}), but the run ended successfully'))
    return out


# ---- tool output -------------------------------------------------------------------------------

def norm_nl(b):
    return b.replace('\r\n', '\n').replace('\r', '\n')


def tool_logs(w, run):
    """tool -> path of its log file"""
    c = run['cell']
    d = w.run_dir(run)
    m = run.get('magic_mode', 'CC')
    return {'klayout': os.path.join(d, f'{c}_lvs.log'),
            'FasterCap': os.path.join(d, f'{c}_FasterCap_Output.txt'),
            'fastcap': os.path.join(d, f'{c}_FastCap2_Output.txt'),
            'magic': os.path.join(d, f'magic_{m}', f'{c}_MAGIC_{m}_Output.txt')}


def judge_output(w, run, ev, i, logs):
    """what a tool printed is in its log file, completely and in order"""
    out = []
    for t in ev['res'].get('tools', []):
        path = logs.get(t['kind'])
        if path is None:
            continue
        want = norm_nl(t['out'])
        try:
            with open(path, 'rb') as f:
                got = norm_nl(f.read().decode('utf-8', 'surrogateescape'))
        except OSError as e:
            out.append(v('no_tool_log', i, f'{t["kind"]} ran, but its log file is missing: {e}'))
            continue
        w.count('tool_logs')
        w.count('tool_bytes', len(want))
        if t['killed'] is not None or ev['res']['rc'] == 130:
            if not want.startswith(got):
                out.append(v('tool_log', i, f'the log of {t["kind"]} is not a prefix of what it printed: ' + where(got, want)))
        elif got != want:
            out.append(v('tool_log', i, f'the log of {t["kind"]} is not what it printed: ' + where(got, want)))
    return out


def shows_output(run):
    """are tools' outputs part of this run's log?"""
    o = run.get('opts', []) + run.get('noise', [])
    return all(b in ('debug', 'subprocess', 'all') for a, b in zip(o, o[1:]) if a == '--log_level')


PREFIX = re.compile(r'^\[\d[^\]]*\] \[[A-Z]+\] {4}')


def judge_run_log(w, run, tools, text, name, i):
    """the log of a run has everything its tools printed, line by line and in order"""
    lines = text.split('\n')
    if name != 'plain':
        lines = [PREFIX.sub('', l, count=1) for l in lines]
    pos = 0
    for t in tools:
        if t['killed'] is not None:
            return []
        want = norm_nl(t['out']).split('\n')
        if want[-1] == '':
            want.pop()
        w.count('run_log_lines', len(want))
        k = next((k for k in range(pos, len(lines) - len(want) + 1) if lines[k:k + len(want)] == want), None) if want else pos
        if k is None:
            # where does it part?
            best, at = -1, pos
            for k in range(pos, len(lines)):
                n = 0
                while n < len(want) and k + n < len(lines) and lines[k + n] == want[n]:
                    n += 1
                if n > best:
                    best, at = n, k
            got = lines[at + best:at + best + 1]
            return [v('run_log', i, f'the {name} log of the run lacks or changes line {best + 1} of {len(want)} of what {t["kind"]} printed: '
                      f'{got[0][:60] if got else None!r} instead of {want[best][:60]!r}')]
        pos = k + len(want)
    return []


def judge_run_logs(w, run, ev, i):
    if not shows_output(run) or ev['res']['rc'] in ('killed', 'hang', 'deadlock', 'died', 130) or ev['res'].get('fired'):
        return []
    out = []
    for f, name in (('kpex_plain.log', 'plain'), ('kpex.log', 'formatted')):
        try:
            with open(os.path.join(w.run_dir(run), f), 'rb') as fh:
                text = fh.read().decode('utf-8', 'surrogateescape')
        except OSError as e:
            if ev['res'].get('tools'):
                out.append(v('no_run_log', i, f'{f} is missing: {e}'))
            continue
        out += judge_run_log(w, run, ev['res'].get('tools', []), text, name, i)
    return out


def where(got, want):
    k = next((j for j, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
    return f'at character {k} of {len(want)}: {got[k:k + 40]!r} instead of {want[k:k + 40]!r} (log has {len(got)})'


# ---- solver matrices: independent models of everything that is derived from them ----------------

def last_matrix(text, kind):
    """(names, rows of strings) of the last complete matrix of a solver's output; None if the output
    has no matrix, or its last matrix is incomplete"""
    lines = text.split('\n')
    start = None
    for k, l in enumerate(lines):
        if kind == 'FasterCap' and l.strip() == 'Capacitance matrix is:':
            start = k
        if kind == 'fastcap' and l.startswith('CAPACITANCE MATRIX, '):
            start = k
    if start is None:
        return None
    names, rows = [], []
    if kind == 'FasterCap':
        m = re.match(r'Dimension (\d+) x (\d+)$', lines[start + 1]) if start + 1 < len(lines) else None
        if not m:
            return None
        n, body = int(m.group(1)), lines[start + 2:]
    else:
        head = lines[start + 1].split() if start + 1 < len(lines) else []
        n, body = len(head), lines[start + 2:]
    if len(body) < n + 1 or n == 0:          # the last row must be terminated
        return None
    for l in body[:n]:
        c = l.split()
        k = 1 if kind == 'FasterCap' else 2
        if len(c) != n + k:
            return None
        names.append(c[0])
        rows.append(c[k:])
    return names, rows


def model(names, rows):
    """Raw and averaged matrix (Farad-ish numbers, as kpex scales them), and the capacitors"""
    raw = [[float(x) / 1e6 for x in r] for r in rows]
    n = len(names)
    avg = [[raw[i][j] if i == j else (raw[min(i, j)][max(i, j)] + raw[max(i, j)][min(i, j)]) / 2
            for j in range(n)] for i in range(n)]
    nets = [re.sub(r'^g\d+_', '', x) for x in names]
    caps = []
    for i in range(n):
        for j in range(i + 1, n):
            if -avg[i][j] > 0:
                caps.append((f'Cext_{i}_{j}', nets[i], nets[j], -avg[i][j]))
        if i > 0:
            c = avg[i][i] + sum(avg[i][j] for j in range(n) if j != i)
            if c > 0:
                caps.append((f'Cext_{i}_{i}', nets[i], nets[0], c))
    return raw, avg, caps


def close(a, b, rel=1e-9, absol=0.0):
    return abs(a - b) <= max(rel * max(abs(a), abs(b)), absol)


def check_csv(data, names, m):
    if not isinstance(data, bytes):
        return _state(data)
    try:
        h, rows = artifacts.csv_matrix(data)
    except (ValueError, IndexError) as e:
        return f'unreadable: {e}'
    if h != names:
        return f'header {h} instead of {names}'
    if len(rows) != len(m) or any(len(r) != len(names) for r in rows):
        return 'wrong dimensions'
    for i, r in enumerate(rows):
        for j, x in enumerate(r):
            if not close(x, m[i][j]):
                return f'cell [{i},{j}] is {x} instead of {m[i][j]}'
    return None


def netlist_caps(data, model_name='PEX_CAP'):
    """[(node1, node2, value)] of the capacitors, [(n1, n2, value)] of the resistors"""
    real = {d[k] for d in dz.DEVICES.values() for k in ('fet', 'mim')}
    caps, res, other = [], [], []
    for w_ in artifacts.spice_devices(data):
        if real & set(w_[1:]):          # a device of the layout itself
            other.append(w_)
        elif w_[0][0] == 'C':
            caps.append((w_[1], w_[2], si(w_[3])))
        elif w_[0][0] == 'R':
            res.append((w_[1], w_[2], si(w_[3])))
        else:
            other.append(w_)
    return caps, res, other


def si(s):
    m = re.match(r'^([-+0-9.eE]+?)(meg|[tgkmunpfa])?$', s, re.I)
    f = {'t': 1e12, 'g': 1e9, 'meg': 1e6, 'k': 1e3, 'm': 1e-3, 'u': 1e-6, 'n': 1e-9, 'p': 1e-12, 'f': 1e-15,
         'a': 1e-18, None: 1.0}[m.group(2).lower() if m.group(2) else None]
    return float(m.group(1)) * f


def one_net(s):
    """A net with several labels: KLayout joins them with a comma, solver and SPICE names with a bar. Nets
    with the same label are one net for kpex, the SPICE writer numbers them."""
    return re.sub(r'(?<=.)\$\d+$', '', s.replace(',', '|'))


def pairs(caps):
    d = {}
    for a, b, c in caps:
        d.setdefault(tuple(sorted((one_net(a), one_net(b)))), []).append(c)
    return {k: sorted(x) for k, x in d.items()}


def same_pairs(a, b, rel):
    if set(a) != set(b):
        return f'nets {sorted(set(a) ^ set(b))[:4]}'
    for k in a:
        if len(a[k]) != len(b[k]):
            return f'{k}: {len(a[k])} instead of {len(b[k])} devices'
        for x, y in zip(a[k], b[k]):
            if not close(x, y, rel):
                return f'{k}: {x} instead of {y}'
    return None


def check_nets(w, run, ev, names, kind, i):
    """the solver got every net of the layout"""
    if len({d for d, _ in ev.get('versions', ())}) != 1 or any('naming' in s for s in run.get('tools', {}).get(kind) or ()):
        return []
    deck = 'sg13g2' if 'ihp' in run.get('pdk', '') else 'sky130'
    nets = {one_net(n) for n in dz.conductor_nets(w.designs[ev['versions'][0][0]], run['cell'], deck)}
    got = {one_net(re.sub(r'^g\d+_', '', x)) for x in names} - {'VSUBS'}
    w.count('nets_checked', len(nets))
    if nets != got:
        return [v('nets', i, f'conductors of the {kind} matrix: missing {sorted(nets - got)[:4]}, not in the layout {sorted(got - nets)[:4]}')]
    return []


def check_devices(w, run, ev, lines, what, i, of=list):
    """blackboxed devices are in the netlist, others are not (parallel ones may be one in the reduced netlist)"""
    if len({d for d, _ in ev.get('versions', ())}) != 1:
        return []
    deck = 'sg13g2' if 'ihp' in run.get('pdk', '') else 'sky130'
    black = option(run, '--blackbox', 'false').lower() in ('true', 'yes', 't', 'y', '1')
    want = dz.device_classes(w.designs[ev['versions'][0][0]], run['cell'], deck)
    if not black:                       # the 2.5D engine replaces capacitors only, transistors stay
        want = [x for x in want if x == dz.DEVICES[deck]['fet'] and what.startswith('2.5D')]
    real = {d[k] for d in dz.DEVICES.values() for k in ('fet', 'mim')}
    got = sorted(m for l in lines for m in l[1:] if m in real)
    w.count('devices_checked', len(want))
    if of(want) != of(got):
        return [v('devices', i, f"{what}, blackboxed {'with' if black else 'without'}: devices {got} instead of {want}")]
    return []


def judge_matrix(w, run, ev, i):
    """everything derived from a solver's output agrees with it"""
    out = []
    for eng, kind, stem in (('fastercap', 'FasterCap', 'FasterCap'), ('fastcap', 'fastcap', 'FastCap2')):
        if eng not in run['engines']:
            continue
        t = next((t for t in ev['res'].get('tools', []) if t['kind'] == kind), None)
        if t is None:
            if ev['res']['rc'] == 0:
                out.append(v('no_solver', i, f'the run succeeded without running {kind}'))
            continue
        if t['killed'] is not None:
            continue
        lm = last_matrix(norm_nl(t['out']), kind)
        rc = ev['res']['rc']
        if lm is None:
            if rc == 0:
                out.append(v('incomplete_matrix', i, f'{kind} printed no complete last matrix, but the run succeeded'))
            continue
        if rc != 0:
            continue
        w.count('matrices')
        names, rows = lm
        raw, avg, caps = model(names, rows)
        out += check_nets(w, run, ev, names, kind, i)
        c = run['cell']
        r = ev['results']
        for f, m in ((f'{c}_{stem}_Result_Matrix_Raw.csv', raw), (f'{c}_{stem}_Result_Matrix_Avg.csv', avg)):
            e = check_csv(r[f], names, m)
            if e:
                out.append(v('matrix_csv', i, f'{f} is not the matrix of {kind}: {e}'))
        exp = r[f'{c}_{stem}_Expanded_Netlist.cir']
        red = r[f'{c}_{stem}_Reduced_Netlist.cir']
        want = pairs([(a, b, x) for _, a, b, x in caps])
        if isinstance(exp, bytes):
            got, res, other = netlist_caps(exp)
            # nets of the matrix which the layout calls differently do not exist here: names are the nets
            e = same_pairs(pairs(got), want, 1e-6)
            if e:
                out.append(v('expanded_netlist', i, f'the expanded netlist does not have the capacitors of the {kind} matrix: {e}'))
            out += check_devices(w, run, ev, other, f'expanded netlist of {kind}', i)
            if not {frozenset(x[:2]) for x in res} >= {frozenset(('FC_GND', 'GND')), frozenset(('VSUBS', 'GND'))}:
                out.append(v('expanded_netlist', i, f'the expanded netlist lacks its ground connections: {res}'))
        else:
            out.append(v('expanded_netlist', i, f'expanded netlist {_state(exp)}'))
        if isinstance(red, bytes):
            got, res, other = netlist_caps(red)
            out += check_devices(w, run, ev, other, f'reduced netlist of {kind}', i, set)
            e = check_reduced(pairs(got), want)
            if e:
                out.append(v('reduced_netlist', i, f'the reduced netlist is not the reduction of the {kind} matrix: {e}'))
        else:
            out.append(v('reduced_netlist', i, f'reduced netlist {_state(red)}'))
        if eng == 'fastercap':
            out += judge_cap_csv(r[f'{c}_FasterCap_Expanded_Netlist.csv'], want, i)
    return out


def check_reduced(got, want, threshold=0.05e-15):
    """The reduced netlist has one capacitor per pair of nets, with the same capacitance, unless it is tiny."""
    full = {k: sum(x) for k, x in want.items() if k[0] != k[1]}
    for k in sorted(set(full) | set(got)):
        if k[0] == k[1]:
            continue
        x, y = got.get(k), full.get(k, 0.0)
        if x is None:
            if y > threshold * 1.000001:
                return f'no capacitor between {k}, expected {y}'
        elif len(x) != 1:
            return f'{len(x)} capacitors between {k}'
        elif not close(x[0], y, 1e-6):
            return f'{x[0]} between {k} instead of {y}'
        elif y < threshold * 0.999999:
            return f'capacitor between {k} below the threshold'
    return None


def judge_cap_csv(data, want, i):
    if not isinstance(data, bytes):
        return [v('netlist_csv', i, f'netlist CSV {_state(data)}')]
    rows = [l.split(';') for l in data.decode().splitlines()]
    if rows[:1] != [['Device', 'Net1', 'Net2', 'Capacitance [fF]']]:
        return [v('netlist_csv', i, f'header {rows[:1]}')]
    got = {}
    for r in rows[1:]:
        if len(r) != 4:
            return [v('netlist_csv', i, f'row {r}')]
        got.setdefault(tuple(sorted(one_net(x) for x in r[1:3])), []).append(float(r[3]))
    got = {k: sorted(x) for k, x in got.items()}
    if set(got) != set(want):
        return [v('netlist_csv', i, f'nets {sorted(set(got) ^ set(want))[:4]}')]
    for k in got:
        if len(got[k]) != len(want[k]):
            return [v('netlist_csv', i, f'{k}: {len(got[k])} instead of {len(want[k])} devices')]
        for x, y in zip(got[k], want[k]):
            if abs(x - y * 1e15) > 0.00501 + 1e-9 * abs(x):
                return [v('netlist_csv', i, f'{k}: {x} fF instead of {y * 1e15}')]
    return []


def judge_25d(w, run, ev, i):
    """table, netlist and report of the 2.5D engine describe the same extraction"""
    if '2.5D' not in run['engines'] or ev['res']['rc'] != 0:
        return []
    c = run['cell']
    csv, sp = ev['results'][f'{c}_k25d_pex_netlist.csv'], ev['results'][f'{c}_k25d_pex_netlist.spice']
    if not isinstance(csv, bytes) or not isinstance(sp, bytes):
        return [v('k25d', i, f'table {_state(csv)}, netlist {_state(sp)}')]
    rows = [l.split(';') for l in csv.decode().splitlines()]
    if not rows or rows[0] != ['Device', 'Net1', 'Net2', 'Capacitance [fF]', 'Resistance [Ω]']:
        return [v('k25d', i, f'header {rows[:1]}')]
    tc, tr = [], []
    for r in rows[1:]:
        if len(r) != 5 or (r[3] == '') == (r[4] == ''):
            return [v('k25d', i, f'row {r}')]
        (tc if r[3] else tr).append((r[1], r[2], float(r[3] or r[4])))
    caps, res, other = netlist_caps(sp)
    w.count('k25d_devices', len(tc) + len(tr))
    out = check_devices(w, run, ev, other, '2.5D netlist', i)
    for name, t, n, f in (('capacitors', tc, caps, 1e15), ('resistors', tr, res, 1.0)):
        a, b = pairs([(x, y, z) for x, y, z in t]), pairs([(x, y, z * f) for x, y, z in n])
        a = {tuple(plain(k)): x for k, x in a.items()}
        b = {tuple(plain(k)): x for k, x in b.items()}
        if set(a) != set(b):
            out.append(v('k25d', i, f'{name} of table and SPICE netlist connect different nets: {sorted(set(a) ^ set(b))[:4]}'))
            continue
        for k in a:
            if len(a[k]) != len(b[k]) or any(abs(x - y) > 0.000501 + 1e-5 * abs(x) for x, y in zip(a[k], b[k])):
                out.append(v('k25d', i, f'{name} between {k}: table {a[k]}, SPICE netlist {b[k]}'))
                break
    return out


def plain(k):
    """net names as the SPICE writer spells them"""
    return sorted(artifacts.unescape(x) for x in k)


# ---- MAGIC: an independent reading of its extraction files ---------------------------------------

def magic_expected(ext):
    """[(cell, kind, names, lower left corner in micrometres)] of everything the extraction files state"""
    want = []
    for f, data in ext.items():
        if not isinstance(data, bytes):
            continue
        res = f.endswith('.res.ext') and f[:-8] + '.ext' in ext         # (or the extraction of a cell called *.res)
        cell = f[:-8] if res else f[:-4]
        rn, rs = {}, []
        for line in data.decode().splitlines():
            q = [a or b for a, b in re.findall(r'"([^"]*)"|(\S+)', line)]
            if not q:
                continue
            if not res and q[0] == 'port':
                want.append((cell, 'Ports', (q[1], q[7]), point(q[3], q[4])))
            elif not res and q[0] in ('node', 'substrate'):
                want.append((cell, 'Nodes', (q[1], q[6]), point(q[4], q[5])))
            elif not res and q[0] == 'device':
                want.append((cell, 'Devices', (q[1], q[2]), point(q[3], q[4])))
            elif res and q[0] == 'rnode':
                want.append((cell, 'Resistor Nodes', (q[1],), point(q[4], q[5])))
                rn.setdefault(q[1], []).append(point(q[4], q[5]))
            elif res and q[0] == 'resist':
                rs.append(q)
        for q in rs:
            for name in (q[1], q[2]):
                for p in rn.get(name, ()):
                    want.append((cell, 'Resistors', (q[1], q[2], float(q[3])), p))
            if not rn.get(q[1]) and not rn.get(q[2]):
                want.append((cell, 'Resistors', (q[1], q[2], float(q[3])), None))
    return want


def point(x, y):
    return (int(x) / 200, int(y) / 200)


def magic_names(kind, name):
    """what the name of a category of the report says"""
    if kind in ('Ports', 'Nodes'):
        m = re.fullmatch(r'(.*) \((\w+)\)', name)
    elif kind == 'Devices':
        m = re.fullmatch(r'Type=(\S+) Model=(\S+)', name)
    elif kind == 'Resistors':
        m = re.fullmatch(r'#\d+ (.*)\u2194\ufe0e(.*) = (\S+) \u03a9', name)
        return (m.group(1), m.group(2), float(m.group(3))) if m else (name,)
    else:
        return (name,)
    return m.groups() if m else (name,)


def magic_report(w, data, ext, i):
    """a report of a MAGIC run shows what the extraction files state, and nothing else"""
    t = rdbs.tree(data) if isinstance(data, bytes) else None
    if t is None:
        return [v('magic_report', i, 'the MAGIC report cannot be loaded')]
    if not ext:
        return [v('magic_report', i, 'there are no extraction files')]
    items, cats = t
    want = magic_expected(ext)
    w.count('magic_items', len(want))
    have = {}
    for cell, names, box in items:
        if len(names) == 3:
            have.setdefault((cell, names[1], magic_names(names[1], names[2])), []).append(box[:2])
    rest = {(x[1], magic_names(x[1], x[2])) for x in cats if len(x) == 3}
    for cell, kind, names, p in want:
        if p is None:
            if (kind, names) not in rest:
                return [v('magic_report', i, f'{kind} {names} of {cell} is not in the MAGIC report')]
            continue
        l = have.get((cell, kind, names), [])
        k = 0 if l and names[-1] == 'space' else next((k for k, b in enumerate(l) if abs(b[0] - p[0]) < 0.0021 and abs(b[1] - p[1]) < 0.0021), None)
        if k is None:
            return [v('magic_report', i, f'{kind} {names} of {cell} at {p} is not in the MAGIC report: {l[:3]}')]
        l.pop(k)
    extra = [(k, l) for k, l in have.items() if l]
    if extra:
        return [v('magic_report', i, f'the MAGIC report has {extra[0]}, which the extraction files do not state')]
    return []


def judge_magic(w, run, ev, i):
    """report and netlist of MAGIC state what its extraction files state"""
    if 'magic' not in run['engines'] or ev['res']['rc'] != 0:
        return []
    c = run['cell']
    d = f"magic_{run.get('magic_mode', 'CC')}"
    bad = magic_report(w, ev['results'].get(f'{d}/{c}_MAGIC_report.rdb.gz'), ev['ext'], i)
    if bad:
        return bad
    spice = ev['results'].get(f'{d}/{c}.pex.spice')
    wrote = [n for n, x in ev['ext'].items()]
    if not any(n == c + '.ext' for n in wrote) or not isinstance(spice, bytes):
        return [v('magic_report', i, f'no extraction of {c} or no netlist: {wrote}')]
    if run.get('magic_mode', 'CC') != 'CC' and c + '.res.ext' not in ev['ext']:
        return [v('magic_mode', i, f'mode {run["magic_mode"]}, but MAGIC was not asked for resistances')]
    if run.get('magic_mode', 'CC') == 'CC' and c + '.res.ext' in ev['ext']:
        return [v('magic_mode', i, 'mode CC, but there are resistances')]
    return []


def option(run, name, default=None):
    o = run.get('opts', []) + run.get('noise', [])
    return next((b for a, b in reversed(list(zip(o, o[1:]))) if a == name), default)


def number(x):
    try:
        return float(x)
    except ValueError:
        return None


def judge_options(w, run, ev, i):
    """the tools were given this run's options, and the results are of the requested kind"""
    if ev['res']['rc'] != 0:
        return []
    out = []
    for t in ev['res'].get('tools', ()):
        a = t['argv'][1:]
        w.count('calls_checked')
        say = f"{t['kind']} was called with {a}"
        if t['kind'] == 'FasterCap':
            out += fastercap_options(w, run, t, a, i)
        elif t['kind'] == 'klayout':
            rd = dict(x.split('=', 1) for p, x in zip(a, a[1:]) if p == '-rd' and '=' in x)
            want = {'verbose': option(run, '--lvs-verbose', 'false'), 'report': os.path.realpath(os.path.join(w.run_dir(run), run['cell'] + '.lvsdb.gz'))}
            if run.get('schematic'):
                want['schematic'] = os.path.realpath(w.path(run['schematic']))
            for k, x in want.items():
                if (os.path.realpath(rd[k]) if k != 'verbose' and k in rd else rd.get(k)) != x:
                    out.append(v('option', i, f'{k} is {rd.get(k)!r} instead of {x!r}: {say}'))
        elif t['kind'] == 'magic':
            out += magic_options(run, t, i)
    if {'fastercap', 'fastcap'} & set(run['engines']):
        out += solver_input(w, run, ev, i)
    if '2.5D' in run['engines']:
        csv = ev['results'].get(f"{run['cell']}_k25d_pex_netlist.csv")
        mode = option(run, '--mode', 'CC')
        if isinstance(csv, bytes):
            rows = [l.split(';') for l in csv.decode().splitlines()[1:]]
            kinds = {r[0][:1] for r in rows}
            if mode == 'CC' and 'R' in kinds or mode == 'R' and 'C' in kinds:
                out.append(v('option', i, f'--mode {mode}, but the table has {sorted(kinds)}'))
            d, f = ev['versions'][-1] if ev.get('versions') else (None, None)
            if d is not None and len(ev['versions']) == 1:
                if mode != 'R' and dz.nets_of(w.designs[d], run['cell']) and 'C' not in kinds:
                    out.append(v('option', i, f'--mode {mode}, but the table has no capacitors'))
                h = option(run, '--halo')
                if h:
                    deck = 'sg13g2' if 'ihp' in run.get('pdk', '') else 'sky130'
                    boxes = {}
                    for n, b in dz.conductor_boxes(w.designs[d], run['cell'], deck).items():
                        if n is None:
                            continue
                        if n is None:
                            continue
                        boxes.setdefault(one_net(n), []).extend(b)
                    for r in rows:
                        n1, n2 = (one_net(x) for x in r[1:3])
                        if r[0][:1] == 'C' and n1 in boxes and n2 in boxes and n1 != n2:
                            w.count('halo_pairs')
                            x = dz.lateral(boxes[n1], boxes[n2])
                            if x > float(h) + 0.01:
                                out.append(v('option', i, f'--halo {h}, but {r[1:4]} are {x:.3f} um apart'))
    return out[:3]


def fastercap_options(w, run, t, a, i):
    out = []

    def given(flag):
        return [number(x[len(flag):]) for x in a if x.startswith(flag) and number(x[len(flag):]) is not None]
    for flag, o, d in (('-a', '--tolerance', '0.05'), ('-d', '--d_coeff', '0.5'), ('-m', '--mesh', '0.5'), ('-f', '--ooc', '2')):
        if given(flag) != [float(option(run, o, d))]:
            out.append(v('option', i, f'FasterCap was not called with {flag}{option(run, o, d)}: {a}'))
    for o, f in (('--galerkin', '-g'), ('--jacobi', '-pj')):
        if (o in run['opts']) != (f in a):
            out.append(v('option', i, f'FasterCap was called with{"" if f in a else "out"} {f}: {a}'))
    if (option(run, '--auto_precond', 'true').lower() in ('true', 'yes', 't', 'y')) != ('-ap' in a):
        out.append(v('option', i, f'FasterCap was called with{"" if "-ap" in a else "out"} -ap: {a}'))
    n = option(run, '--threads', '4')
    if t.get('threads') != n:
        out.append(v('option', i, f"FasterCap was to use {n} threads, but OMP_NUM_THREADS is {t.get('threads')}"))
    return out


def magic_options(run, t, i):
    def words(l):
        return [number(x) if number(x) is not None else x for x in l.split()]
    out = []
    did = [words(l) for l in re.findall(r'^did: (.*)$', t['out'], re.M)]
    m = run.get('magic_mode', 'CC')
    want = [f"ext2spice short {option(run, '--magic_short', 'none')}", f"ext2spice merge {option(run, '--magic_merge', 'none')}"]
    if m != 'R':
        want.append(f"ext2spice cthresh {option(run, '--magic_cthresh', '0.01')}")
    if m != 'CC':
        want.append(f"ext2spice rthresh {option(run, '--magic_rthresh', '100')}")
        want.append(f"extresist tolerance {option(run, '--magic_tolerance', '1')}")
        want.append('ext2spice extresist on')
    if m == 'R':
        want += ['extract no capacitance', 'extract no coupling']
    h = option(run, '--magic_halo')
    if h:
        want.append(f'extract halo {round(float(h) * 200)}')
    for x in want:
        y = words(x)
        if [z for z in did if z[:2] == y[:2] and (y[1] != 'no' or z == y)][-1:] != [y]:
            out.append(v('option', i, f'MAGIC was not told {x!r}: {did}'))
    if m != 'R' and any(x[:2] == ['extract', 'no'] for x in did):
        out.append(v('option', i, f'MAGIC mode {m}: {did}'))
    if not h and any(x[:2] == ['extract', 'halo'] for x in did):
        out.append(v('option', i, f'MAGIC was told a halo: {did}'))
    return out


# ---- what the solver input says about materials ----------------------------------------------------

_tech = {}


def stack(pdk):
    """[(kind, name, permittivity, reference)] of the process stack"""
    if pdk not in _tech:
        import json
        repo = os.environ.get('KPEX_REPO', '/repo')
        with open(f'{repo}/klayout_pex_protobuf/{pdk}_tech.pb.json') as f:
            d = json.load(f)
        _tech[pdk] = []
        for l in d['process_stack']['layers']:
            kind = l['layer_type'].removeprefix('LAYER_TYPE_').lower()
            body = next((x for k, x in l.items() if isinstance(x, dict)), {})
            _tech[pdk].append((kind, l['name'], body.get('dielectric_k'), body.get('reference')))
    return _tech[pdk]


def selected(pattern, names):
    """documented meaning of --diel"""
    c = [x.strip().lower() for x in pattern.split(',')]
    if 'none' in c or any(x.startswith('+') for x in c):
        return {n for n in names if '+' + n in c}
    return {n for n in names if '-' + n not in c}


def solver_input(w, run, ev, i):
    """only selected dielectrics, each with its permittivity, in a void as the run asked for, with panels as small as it asked for"""
    out = []
    d = artifacts.SOLVER_INPUT
    lst = next((x for n, x in sorted(ev['results'].items()) if n.startswith(d) and n.endswith('.lst')), None)
    if not isinstance(lst, bytes):
        return [v('option', i, 'there is no list file')]
    layers = stack(run.get('pdk', 'sky130A'))
    k = {n: x for kind, n, x, _ in layers if x is not None}
    diel = {n for kind, n, x, _ in layers if kind.endswith('_dielectric')}
    use = selected(option(run, '--diel', 'all'), diel)
    k['(void)'] = float(option(run, '--k_void', '3.9'))
    seen = set()
    for l in lst.decode().splitlines():
        q = l.split()
        m = re.search(r'_outside=([^=]*)_(inside|net)=(.*)\.geo$', q[1]) if q and q[0] in 'CD' and len(q) > 2 else None
        if not m:
            continue
        mats = [m.group(1)] + ([m.group(3)] if m.group(2) == 'inside' else [])
        for x, y in zip(mats, q[2:]):
            seen.add(x)
            if x not in k or abs(float(y) - k[x]) > 1e-6 * k[x]:
                out.append(v('option', i, f'the permittivity of {x} is {y} instead of {k.get(x)}'))
    w.count('materials_checked', len(seen))
    bad = (seen & diel) - use
    if bad:
        out.append(v('option', i, f"--diel {option(run, '--diel', 'all')}, but the solver input has {sorted(bad)}"))
    # the dielectric above a metal is there whatever the layout is
    must, metal = set(), False
    for kind, n, x, _ in layers:
        if kind == 'metal':
            metal = True
        elif kind == 'simple_dielectric' and metal:
            metal = False
            if n in use:
                must.add(n)
    if must - seen:
        out.append(v('option', i, f"--diel {option(run, '--diel', 'all')}, but the solver input lacks {sorted(must - seen)}: {sorted(seen)}"))
    amax = float(option(run, '--delaunay_amax', '50'))
    big = max((area(l) for n, x in ev['results'].items() if n.endswith('.geo') and isinstance(x, bytes) for l in x.decode().splitlines() if l[:1] in 'TQ'), default=0)
    if amax > 0 and big > amax * 1.001:
        out.append(v('option', i, f'--delaunay_amax {amax}, but there is a panel of {big}'))
    return out


def area(line):
    p = [float(x) for x in line.split()[2:]]
    if line[0] == 'Q':
        return area('T 1 ' + ' '.join(map(str, p[:9]))) + area('T 1 ' + ' '.join(map(str, p[:3] + p[6:12])))
    a = [p[3 + j] - p[j] for j in range(3)]
    b = [p[6 + j] - p[j] for j in range(3)]
    c = (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])
    return 0.5 * sum(x * x for x in c) ** 0.5
