"""Random SPICE netlists with a reference model of them, and what a drawing of one must show.

No code of /repo is used here."""
import base64
import json
import re

FAMILIES = [['x', 'x.y', 'x.z', 'x1', 'x.y.z'], ['n1', 'n1.1', 'n11', 'n', 'n1$1'], ['d', 'd[0]', 'd[10]', 'd[0][1]'], ['VDD', 'VDD1', 'AVDD', 'VDD!'], ['GND', 'GND1', 'AGND', 'GND.1', 'VSUBS1'], ['w<3>', 'w<30>', 'w<3', 'w']]
NETS = ['A', 'B', 'Y', 'in', 'Out', 'n1', 'net_2', 'x.y', 'n$3', 'd[0]', 'd[1]', 'VDD', 'VSS', 'GND', 'VSUBS', '0', 'a|b', 'n-1', 'Q#', 'w<3>', 'longlonglonglonglonglonglonglonglonglonglonglonglongname']
CIRCUITS = ['INV', 'Top', 'nand2', 'sub_ckt', 'a.b', 'X1', 'cell$2', 'm_1', 'Top2', 'R1']
R_VALUES = [('1k', 1e3), ('2.5k', 2.5e3), ('3meg', 3e6), ('10', 10), ('0.5', 0.5), ('1e3', 1e3), ('100m', 0.1), ('1.23456', 1.23456), ('0', 0), ('7K', 7e3), ('12e-2', 0.12)]
C_VALUES = [('1f', 1e-15), ('2.5p', 2.5e-12), ('10n', 1e-8), ('1e-15', 1e-15), ('0.125f', 0.125e-15), ('3.3F', 3.3e-15), ('1e-18', 1e-18), ('4u', 4e-6), ('0', 0), ('17.25f', 17.25e-15)]


def gen(rng, tops=1):
    """[{'name', 'ports', 'elements': [[kind, name, nets, value or circuit]]}], callees first"""
    names = rng.sample(CIRCUITS, tops + rng.choice([0, 0, 1, 2]))
    res = []
    used = set()
    for k, name in enumerate(names):
        pool = rng.sample(NETS, rng.randint(2, 9))
        if rng.random() < 0.4:                      # names which only differ in a part
            pool += [x for x in rng.sample(rng.choice(FAMILIES), 3) if x not in pool]
            rng.shuffle(pool)
        ports = pool[:rng.randint(1, min(len(pool), 5))]
        els = []
        for kind, values in (('R', R_VALUES), ('C', C_VALUES)):
            for j in range(rng.choice([0, 1, 2, 3, 8])):
                els.append([kind, rng.choice(['', 'ext_', 'a', '0', 'p.'])+ str(j + 1), [rng.choice(pool), rng.choice(pool)], rng.choice(values)])
        subs = [c for c in res if c['name'] not in names[len(names) - tops:]]
        want = [c for c in subs if c['name'] not in used]
        for j in range(rng.choice([0, 1, 2, 4]) if subs else 0):
            c = rng.choice(want or subs)
            want = [x for x in want if x is not c]
            els.append(['X', rng.choice(['', 'i_']) + str(j + 1), [rng.choice(pool) for _ in c['ports']], c['name']])
        if k == len(names) - 1:                     # whatever is left is used by the last one
            for j, c in enumerate(want):
                els.append(['X', f'last{j}', [rng.choice(pool) for _ in c['ports']], c['name']])
        used |= {e[3] for e in els if e[0] == 'X'}
        rng.shuffle(els)
        seen = set()
        els = [e for e in els if not ((e[0], e[1].upper()) in seen or seen.add((e[0], e[1].upper())))]
        for p in ports:                             # a net without any element is no net for some readers
            if not any(p in e[2] for e in els):
                els.append(['R', f'keep_{len(els)}', [p, pool[0]], R_VALUES[0]])
        res.append({'name': name, 'ports': ports, 'elements': els})
    return res


def tops(circuits):
    called = {e[3] for c in circuits for e in c['elements'] if e[0] == 'X'}
    return [c['name'] for c in circuits if c['name'] not in called]


def text(rng, circuits):
    """one of the ways to write it"""
    order = circuits[:]
    rng.shuffle(order)
    low = rng.random() < 0.5
    out = ['* generated'] if rng.random() < 0.8 else ['* ' + 'x' * 300]
    for c in order:
        head = ['.subckt' if low else '.SUBCKT', c['name'], *c['ports']]
        if len(head) > 4 and rng.random() < 0.4:
            out += [' '.join(head[:3]), '+ ' + ' '.join(head[3:])]
        else:
            out.append(' '.join(head))
        for kind, name, nets, value in c['elements']:
            k = kind.lower() if rng.random() < 0.2 else kind
            out.append(' '.join([k + name, *nets, value if kind == 'X' else value[0]]))
            if rng.random() < 0.05:
                out.append('* between')
        out.append(('.ends' if low else '.ENDS') + (' ' + c['name'] if rng.random() < 0.7 else ''))
        if rng.random() < 0.3:
            out.append('')
    return '\n'.join(out) + '\n'


def drawn(svg):
    """what the simulated netlistsvg was given"""
    m = re.search(rb'<!-- ([A-Za-z0-9+/=]*) -->', svg)
    try:
        return json.loads(base64.b64decode(m.group(1)))
    except Exception:
        return None


def number(x):
    m = re.fullmatch(r'([-+0-9.e]+)(f?)', str(x))
    return float(m.group(1)) if m else None


def differences(svg, circuits, top):
    """how the drawing differs from the circuit"""
    d = drawn(svg)
    if d is None:
        return ['the drawing has no netlist']
    c = next(c for c in circuits if c['name'] == top)
    if [m.upper() for m in d.get('modules', {})] != [top.upper()]:
        return [f"it shows {list(d.get('modules', {}))} instead of {top}"]
    mod = next(iter(d['modules'].values()))
    out, bits, used = [], {}, set()

    def wire(net, got, what):
        if not isinstance(got, list) or len(got) != 1:
            out.append(f'{what} is connected to {got}')
            return
        b = got[0]
        net = net.upper()
        if bits.setdefault(net, b) != b:
            out.append(f'{what}: net {net} is {b}, elsewhere {bits[net]}')
        elif any(x == b and n != net for n, x in bits.items()):
            out.append(f'{what}: nets {[n for n, x in bits.items() if x == b]} are drawn as one')
    ports = {k.upper(): p for k, p in mod.get('ports', {}).items()}
    if sorted(ports) != sorted(p.upper() for p in c['ports']):
        out.append(f"ports are {sorted(ports)} instead of {sorted(p.upper() for p in c['ports'])}")
    else:
        for p in c['ports']:
            wire(p, ports[p.upper()].get('bits'), f'port {p}')
    cells = {k.upper(): x for k, x in mod.get('cells', {}).items() if x.get('type') != 'gnd'}
    for kind, name, nets, value in c['elements']:
        x = cells.pop((kind + name).upper(), None)
        if x is None:
            out.append(f'{kind}{name} is not drawn')
            continue
        con = x.get('connections', {})
        if kind == 'X':
            if x.get('type', '').upper() != '$' + value.upper():
                out.append(f"X{name} is drawn as {x.get('type')} instead of {value}")
            con = [con[k] for k in sorted(con, key=lambda k: int(re.match(r'\d*', k).group() or -1))]
            if len(con) != len(nets):
                out.append(f'X{name} has {len(con)} pins')
        else:
            if x.get('type') != kind.lower() + '_v':
                out.append(f"{kind}{name} is drawn as {x.get('type')}")
            got = x.get('attributes', {}).get('value')
            n = number(got)
            want = value[1] * (1e15 if kind == 'C' else 1)
            if n is None or abs(n - want) > 0.00051 + 1e-9 * want or (kind == 'C') != str(got).endswith('f'):
                out.append(f'{kind}{name} is drawn with {got} instead of {value[0]}')
            con = [con.get('A'), con.get('B')]
        for net, g in zip(nets, con):
            wire(net, g, f'{kind}{name}')
    if cells:
        out.append(f'{sorted(cells)} are drawn, but not in the netlist')
    gnd = sorted(tuple(x.get('connections', {}).get('A', ())) for x in mod.get('cells', {}).values() if x.get('type') == 'gnd')
    want = sorted((b,) for n, b in bits.items() if n in ('GND', 'VSUBS'))
    if gnd != want and not out:
        out.append(f'ground symbols are at {gnd} instead of {want}')
    return out
