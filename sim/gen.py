"""Scenario generation: seeded pieces shared by the properties. Pure functions of the random generator."""
from . import design as dz

CELLS = ('TOP',)


ODD_CELLS = ['TOP$1', 'TOP$$x', 'a.b', 'T[0]', 'T[x]', 'top-x', "it's", 'T#1', '1x', 'T%s', 'T{1}', 'T+', 'lib.Cell_v2', 'T(1)', 'T<1>', 'x' * 60, 'T&A', 'T!', 'T~', '$x', 'T;1', 'p.res', 'a.extra', 'b.ext', 'c.ext.res']


def cells(rng, odd=0.25):
    """the cells of a layout"""
    if rng.random() < odd:
        return tuple(rng.sample(ODD_CELLS, rng.randint(1, 2)))
    return rng.choice([('TOP',), ('TOP', 'AUX')])


ODD_DIRS = ['in/[x]/a{b}.', "in/it's/ä€.", 'in/$HOME/a$1.', 'in/%s/a%d.', 'in/#1/a&b.', 'in/[/x]/q"r.', 'in/[red]/[0].', 'in/a;b/c=d.', 'in/x~/a~b.', 'in/a b/ c.', 'in/(1)/*?.',
            'in/,/a|b.', 'in/@/^.', 'in/日本/ß.', 'in/' + 'long' * 55 + '/x.']
ODD_OUTS = ['o[u]t', '$o/u$t', "o'u't", 'ö/ü', 'o"u', 'a;b', '{o}/{0}', 'o[/x]', 'o*t', 'a%sb', 'a|b', 'r,s', 'x=1', 'o~', '#o', 'a:b', ' lead', 'w' * 200]


def base(rng, versions=1, cells=CELLS, rich=False, nested=0.0, comb=0.0):
    """A scenario with some versions of a layout; their net names differ, so results can be told apart"""
    v0 = rng.randrange(400)
    sc = {'seed': rng.randrange(1 << 30), 't0': rng.randrange(0, 10**15) * 1000,
          'designs': [dz.gen_design(rng, v0 + i, cells, rich) for i in range(versions)], 'steps': []}
    if len(cells) > 1 and nested and rng.random() < nested:
        for d in sc['designs']:
            dz.nest(rng, d)
    if comb and rng.random() < comb:
        for d in sc['designs']:
            dz.comb(rng, d)
    return sc


def gds_step(design, path='in/a.gds', fmt='gds', **kw):
    return dict({'op': 'gds', 'path': path, 'design': design, 'fmt': fmt}, **kw)


K25_OPTS = [[], [], ['--mode', 'CC'], ['--mode', 'RC'], ['--mode', 'R'], ['--halo', '5'], ['--scale', 'false']]
FC_OPTS = [['--diel', 'none'], ['--diel', 'none'], ['--diel', 'none', '--k_void', '1.5'], ['--diel', 'none', '--tolerance', '0.01'],
           ['--diel', 'none', '--delaunay_amax', '20'], ['--diel', 'none', '--galerkin', '--jacobi'],
           ['--diel', 'none', '--ooc', '0', '--auto_precond', 'false'], [], ['--diel', 'none', '--d_coeff', '0.25', '--mesh', '0.75'],
           ['--diel', 'none', '--delaunay_b', '0.7', '--ooc', '1'], ['--diel', 'none', '--geo_check', 'true']]
MG_OPTS = [[], [], ['--magic_cthresh', '0.1'], ['--magic_halo', '2'], ['--magic_short', 'resistor'],
           ['--magic_merge', 'aggressive'], ['--magic_rthresh', '10', '--magic_tolerance', '2']]


def opts(rng, engines, plain=0.4):
    if rng.random() < plain:
        return ['--diel', 'none'] if {'fastercap', 'fastcap'} & set(engines) else []
    o = []
    if '2.5D' in engines:
        o += rng.choice(K25_OPTS)
    if {'fastercap', 'fastcap'} & set(engines):
        o += rng.choice(FC_OPTS)
    if 'magic' in engines:
        o += rng.choice(MG_OPTS)
    if rng.random() < 0.1:
        o += ['--blackbox', rng.choice(['true', 'false'])]
    if rng.random() < 0.1:
        o += ['--log_level', rng.choice(['debug', 'verbose', 'info', 'subprocess'])]
    if rng.random() < 0.05:
        o += ['--lvs-verbose', rng.choice(['true', 'false'])]
    return o


DIEL = {'sky130A': ['fox', 'iox', 'spnit', 'psg', 'lint', 'nild2', 'nild3c', 'nild3', 'nild4c', 'nild4', 'capild', 'nild5', 'nild6', 'topox', 'topnit', 'air'],
        'ihp_sg13g2': ['fox', 'nitride', 'ild0', 'ild1', 'ild2', 'ild3', 'ild4', 'ildtm1', 'ismim', 'ildtm2', 'pass1', 'pass2', 'air']}


def diel(rng, pdk, light=False):
    """a dielectric filter"""
    k = rng.random()
    if k < 0.4:
        return 'none'
    if k > 0.97 and not light:
        return 'all'
    all_ = k > 0.85 and not light
    l = [('-' if all_ else '+') + x for x in rng.sample(DIEL[pdk], rng.randint(1, 3))]
    if all_ or rng.random() < 0.85:             # '+x,+y' alone selects these, too
        l.insert(rng.choice([0, 0, len(l)]), 'all' if all_ else 'none')
    if l[0][0] == '-':                          # the command line takes it for an option
        l.insert(0, l.pop())
    return rng.choice([',', ',', ', ']).join(l)


def wild(rng, eng, pdk, light=False):
    """any values of the options of the engines, at least one of each engine"""
    def num(*r):
        return rng.choice([lambda: str(rng.choice(r)), lambda: str(round(rng.uniform(min(r), max(r)), rng.choice([1, 2, 3, 5]))), lambda: repr(float(rng.choice(r)))])()
    o = []
    some = lambda l: [x for q in rng.sample(l, rng.randint(1, min(len(l), 4))) for x in q()]
    if {'fastercap', 'fastcap'} & set(eng):
        o += some([lambda: ['--k_void', num(1, 2, 3.9, 7)], lambda: ['--delaunay_amax', num(2, 5, 20, 50, 120)], lambda: ['--delaunay_b', num(0.2, 0.4, 0.5, 0.55)],
                   lambda: ['--geo_check', 'false']])
        o += ['--diel', diel(rng, pdk, light)]
        if o[-1] == 'none' and not light and rng.random() < 0.15:
            o += ['--geo_check', 'true']
        o += ['--threads', str(rng.choice([1, 2, 8, 16, 3]))] if rng.random() < 0.4 else []
    if 'fastercap' in eng:
        o += some([lambda: ['--tolerance', num(0.0005, 0.001, 0.01, 0.1, 0.5)], lambda: ['--d_coeff', num(0.1, 0.5, 1, 0.0625)], lambda: ['--mesh', num(0.1, 0.5, 1, 0.0125)],
                   lambda: ['--ooc', num(0, 1, 2, 5)], lambda: ['--auto_precond', rng.choice(['true', 'false', 'True', 'no'])],
                   lambda: ['--galerkin'], lambda: ['--jacobi']])
    if 'magic' in eng:
        o += some([lambda: ['--magic_cthresh', num(0, 0.01, 0.1, 5, 1e-05, 0.00125)], lambda: ['--magic_rthresh', str(rng.choice([0, 1, 50, 100, 1000]))],
                   lambda: ['--magic_tolerance', num(0, 1, 2, 10)], lambda: ['--magic_halo', num(1, 2, 8, 20, 0, 0)],
                   lambda: ['--magic_short', rng.choice(['none', 'resistor', 'voltage'])],
                   lambda: ['--magic_merge', rng.choice(['none', 'conservative', 'aggressive'])]])
    if '2.5D' in eng:
        o += some([lambda: ['--mode', rng.choice(['CC', 'RC', 'R'])], lambda: ['--halo', num(0.5, 1, 5, 12)], lambda: ['--scale', rng.choice(['true', 'false'])]])
    if eng != ['magic']:
        o += ['--lvs-verbose', rng.choice(['true', 'false'])] if rng.random() < 0.3 else []
        o += ['--blackbox', rng.choice(['true', 'false'])] if rng.random() < 0.3 else []
    return o


ENGINE_SETS = [(['2.5D'], 6), (['fastercap'], 3), (['fastcap'], 2), (['magic'], 2), (['2.5D', 'fastercap'], 2),
               (['2.5D', 'magic'], 1), (['fastercap', 'fastcap'], 1), (['2.5D', 'fastercap', 'fastcap', 'magic'], 1)]


def engines(rng, sets=ENGINE_SETS):
    return list(rng.choices([s for s, _ in sets], [w for _, w in sets])[0])


def run(rng, eng=None, sets=ENGINE_SETS, gds='in/a.gds', out='out', cell='TOP', plain=0.4, **kw):
    eng = eng if eng is not None else engines(rng, sets)
    r = {'op': 'run', 'gds': gds, 'out': out, 'cell': cell, 'engines': eng, 'opts': opts(rng, eng, plain), 'tools': {}}
    if 'magic' in eng:
        r['magic_mode'] = rng.choice(['CC', 'RC', 'R'])
    if rng.random() < 0.12:
        r['pdk'] = 'ihp_sg13g2'
    r.update(kw)
    return r


def spelling(rng, r):
    """the same run, called differently"""
    r = dict(r)
    r['form'] = rng.choice(['rel', 'rel', 'abs', 'dot'])
    if rng.random() < 0.3:
        r['cwd'] = rng.choice(['work', 'in', 'home', 'work/deep/er'])
    if rng.random() < 0.2:
        r['slash'] = '/'
    if rng.random() < 0.3:
        r['cellarg'] = True
    if rng.random() < 0.2:
        r['exe'] = 'path'
    return r


def spoil(rng, out='out'):
    """damage to a result of an earlier run"""
    r = {'op': 'spoil', 'dir': out, 'pick': rng.randrange(1000), 'how': rng.choice(['flip', 'zero', 'cut', 'more']), 'at': rng.randrange(1000)}
    if rng.random() < 0.7:
        r['ext'] = rng.choice(['.csv', '.cir', '.spice', '.lst', '.geo', '.stl', '.rdb', '.lvsdb', '.oas', 'Output.txt', '.tcl', 'exported', 'schematic'])
    return r


NAMES = ['lvsdb', '.lvsdb.gz.', 'kpex.log', 'kpex_plain', '.csv', '.spice', '.cir', '.lst', '.geo', 'rdb.gz', '_lvs.log',
         'Output.txt', '.oas', 'exported', 'schematic', 'mkdir', 'rename', 'utime', 'unlink', 'fsync', '.stl', '.tcl']
ENGINE_OPS = {'2.5D': 110, 'fastercap': 280, 'fastcap': 220, 'magic': 70}


def length(eng):
    """about how many operations a run takes"""
    n = 60 + sum({'2.5D': 50, 'fastercap': 210, 'fastcap': 150, 'magic': 50}[e] for e in eng)
    return n


def solver_files(x):
    return [f'{x}_Output', f'{x}_Result_Matrix_Raw', f'{x}_Result_Matrix_Avg', f'{x}_Expanded_Netlist.cir', f'{x}_Reduced']


FILES = {'': ['schematic', '_lvs.log', '.lvsdb.gz.', 'extracted.oas', 'internal.oas', 'nonempty', 'exported', 'kpex_plain', 'kpex.log'],
         '2.5D': ['report.rdb', 'netlist.csv', 'netlist.spice'],
         'fastercap': ['.lst', '.geo', 'net=', 'inside=', '.stl', 'FasterCap_Expanded_Netlist.csv'] + solver_files('FasterCap'),
         'fastcap': ['.lst', '.geo', 'net=', 'inside=', '.stl'] + solver_files('FastCap2'),
         'magic': ['Script.tcl', '_Output.txt', 'MAGIC_report.rdb']}
OTHER = {'': ['mkdir*__', 'mkdir*.kpex_cache', 'fsync*', 'utime*', 'rename*.lvsdb', 'rename*kpex_plain', 'rename*/kpex_', 'unlink*'],
         'fastercap': ['mkdir*FasterCap', 'mkdir*Geom'], 'fastcap': ['mkdir*FasterCap', 'mkdir*Geom'], 'magic': ['mkdir*magic_', 'unlink*']}


def target(rng, eng):
    """an operation on one kind of file that such a run writes"""
    e = rng.choice(['', *eng]) if eng != ['magic'] else rng.choice(['', 'magic', 'magic', 'magic'])
    if e in OTHER and rng.random() < 0.2:
        m = rng.choice(OTHER[e])
    else:
        m = rng.choice(['open', 'write', 'write', 'close']) + '*' + rng.choice(FILES[e])
    return {'at': rng.choice([0, 0, 0, 0, 1, 2, 5]), 'match': m}


def strata():
    """every operation on every kind of file, with an engine that writes such files"""
    l = []
    for e, files in FILES.items():
        l += [(e, f'{op}*{f}', 'errno') for f in files for op in ('open', 'write', 'close')]
        l += [(e, f'write*{f}', 'file_errno') for f in files]
        l += [(e, m, 'errno') for m in OTHER.get(e, ())]
    return l


STRATA = strata()


def stratum(rng, i):
    """the i-th of all operations on kinds of files"""
    e, m, kind = STRATA[i % len(STRATA)]
    return e or rng.choice(['2.5D', '2.5D', 'fastercap']), \
        {'at': 0 if i < len(STRATA) or rng.random() < 0.3 else rng.choice([1, 2, 3]), 'match': m, 'kind': kind, 'arg': rng.choice(ERRNOS)}


def where(rng, eng):
    """where a fault hits: a place in the run, or an operation on files of some kind"""
    if rng.random() < 0.5:
        return target(rng, eng)
    if rng.random() < 0.5:
        return {'at': rng.randrange(length(eng))}
    return {'at': min(int(rng.expovariate(0.35)), 40), 'match': rng.choice(NAMES)}


def crash(rng, eng):
    k = rng.choice(['crash_before', 'crash_after', 'torn_write', 'torn_write'])
    return dict(where(rng, eng), kind=k, arg=rng.choice([0, 10, 300, 500, 700, 990]))


ERRNOS = [28, 28, 5, 122, 13, 30, 24]         # ENOSPC EIO EDQUOT EACCES EROFS EMFILE


def disk_fault(rng, eng):
    k = rng.choice(['errno', 'errno', 'errno', 'errno', 'persist_errno', 'file_errno', 'short_write', 'short_write', 'read_errno'])
    f = dict(where(rng, eng), kind=k, arg=rng.choice(ERRNOS))
    if k == 'short_write':
        f['arg'] = rng.choice([0, 100, 500, 999])
    if k == 'read_errno':
        f['arg'] = 5
    return f


TEXTS = ['hello\n', 'x' * 70 + '\n', 'no newline', 'a\rb\rc\n', 'dos\r\n', '\n', '\n\n\n', '  \t \n', 'äöü µΩ €\n', '\x1b[31mred\x1b[0m\n',
         '[bold]markup[/bold] [/]\n', '[link=x]\n', '%s %d {0} {}\n', '\\ back \\n\n', '\x0c\x0b\n', '\x85 \u2028 x\n', '\0nul\n', ' trailing   \n',
         'Capacitance matrix\n', 'Warning: something\n', 'tab\tbed\n', '*' * 200 + '\n']


def chat(rng, n=None, texts=TEXTS, parts=3, big=0.1):
    """What a tool prints besides its results. Never an unterminated line just before a result."""
    c = []
    for _ in range(rng.randint(1, 5) if n is None else n):
        rep = rng.choice([1, 1, 2, 3, 17])
        if rng.random() < big:
            rep = rng.choice([300, 2000, 9000])
        part, text = rng.randrange(parts), rng.choice(texts)
        c.append([part, rng.choice(['out', 'out', 'err']), text, rep])
    for part in range(2):
        mine = [x for x in c if x[0] == part]
        if mine and not mine[-1][2].endswith(('\n', '\r')):
            c.append([part, mine[-1][1], '\n', 1])
    return c


def pipe(rng):
    """how the operating system delivers a tool's output"""
    s = {'seed': rng.randrange(1 << 20)}
    if rng.random() < 0.5:
        s['cap'] = rng.choice([1, 16, 512, 4096, 65536])
        if s['cap'] == 1:
            s['cap'] = 7
    if rng.random() < 0.5:
        s['chunk'] = rng.choice([1, 2, 3, 10, 100, 5000])
        if s['chunk'] == 1 and rng.random() < 0.7:
            s['chunk'] = 3
    if rng.random() < 0.5:
        s['ahead'] = rng.choice([1, 3, 10, 1000])
    if rng.random() < 0.2:
        s['piece'] = rng.choice([1, 7, 100])
    return s


KLAYOUT_OUT = ['fail_before', 'signal', 'prompt', 'fail_mid', 'ok0_noreport', 'fail_partial', 'ok0_partial', 'signal_partial', 'fail_after', 'no_start']
SOLVER_OUT = ['fail_before', 'signal', 'prompt', 'trunc', 'trunc_signal', 'trunc_fail', 'nomatrix', 'fail_after', 'no_start']
MAGIC_OUT = ['fail_before', 'signal', 'tcl_error', 'fail_partial', 'noext', 'nospice', 'fail_after', 'no_start']
OUTCOMES = {'klayout': KLAYOUT_OUT, 'FasterCap': SOLVER_OUT, 'fastcap': SOLVER_OUT, 'magic': MAGIC_OUT,
            'netlistsvg': ['fail_before', 'signal', 'fail_partial', 'fail_after', 'no_start']}


def outcome(rng, kind):
    s = {'outcome': rng.choice(OUTCOMES[kind])}
    if 'partial' in s['outcome'] or 'trunc' in s['outcome']:
        s['permille'] = rng.choice([0, 1, 100, 500, 900, 980, 990, 995, 998, 999, rng.randrange(1000)])
    if s['outcome'].startswith('fail'):
        s['rc'] = rng.choice([1, 1, 2, 3, 127, 255])
    if s['outcome'] == 'no_start':          # not there, not executable, no memory, too many processes, wrong format
        s['errno'] = rng.choice([2, 13, 12, 11, 8])
    return s


def settle(sc):
    """The technologies have no parasitics of MIM capacitors: the 2.5D engine can only extract such layouts with these devices blackboxed"""
    if any(s[:2] == list(dz.CAPM) for d in sc.get('designs', ()) for c in d['cells'] for s in c['shapes']):
        for st in sc['steps']:
            for q in [st, *st.get('runs', ())]:
                for r in [q, *q.get('chain', ())]:
                    if '2.5D' in r.get('engines', ()):
                        r['opts'] = no_blackbox(r['opts']) + ['--blackbox', 'true']
    return sc


def no_blackbox(opts):
    return [o for i, o in enumerate(opts) if o != '--blackbox' and opts[i - 1:i] != ['--blackbox']]
