"""Layouts of the simulated user: small sky130A designs as plain JSON, and their GDS bytes.

Every net name carries the version of the layout, so that a result can be attributed to the layout
it was extracted from.  Nothing here uses code of /repo.
"""
import gzip
import os
import re
import tempfile

LI, LI_TXT, LI_PIN = (67, 20), (67, 5), (67, 16)
MCON = (67, 44)
M1, M1_TXT, M1_PIN = (68, 20), (68, 5), (68, 16)
VIA1 = (68, 44)
M2, M2_TXT, M2_PIN = (69, 20), (69, 5), (69, 16)
DIFF, NSDM, POLY, LICON = (65, 20), (93, 44), (66, 20), (66, 44)
M3, M3_TXT, M3_PIN, CAPM, VIA3 = (70, 20), (70, 5), (70, 16), (89, 44), (70, 44)
M4, M4_TXT, M4_PIN = (71, 20), (71, 5), (71, 16)

# The same design in the other technology: every layout has it on the layers of both
IHP = {LI: (8, 0), LI_PIN: (8, 2), LI_TXT: (8, 25), MCON: (19, 0), M1: (10, 0), M1_PIN: (10, 2), M1_TXT: (10, 25),
       VIA1: (29, 0), M2: (30, 0), M2_PIN: (30, 2), M2_TXT: (30, 25),
       DIFF: (1, 0), NSDM: (7, 0), POLY: (5, 0), LICON: (6, 0), M3: (67, 0), M3_PIN: (67, 2), M3_TXT: (67, 25), CAPM: (36, 0),
       VIA3: (125, 0), M4: (126, 0), M4_PIN: (126, 2), M4_TXT: (126, 25)}
NAMES = {'sky130': ['li_con', 'met1_con', 'met2_con', 'mcon_con', 'via1_con', 'li_pin_con', 'met1_pin_con', 'met2_pin_con',
                    'li_label', 'met1_label', 'met2_label'],
         'sg13g2': ['metal1_con', 'metal2_con', 'metal3_con', 'via1_drw', 'via2_drw', 'metal1_pin_con', 'metal2_pin_con', 'metal3_pin_con',
                    'metal1_text', 'metal2_text', 'metal3_text']}
# conductors, contacts, pins, labels and device names of the devices
DEVICES = {'sky130': dict(nsd='nsd', poly='poly_con', nc='licon_nsd_con', pc='licon_poly_con', m3='met3_ncap', cap3='met3_cap', capm='capm',
                          via='via3_ncap', capvia='via3_cap', m4='met4_ncap', p3='met3_pin_con', p4='met4_pin_con', t3='met3_label',
                          t4='met4_label', fet='sky130_fd_pr__nfet_01v8', mim='sky130_fd_pr__model__cap_mim', sub='sky130_gnd'),
           'sg13g2': dict(nsd='nsd_fet', poly='poly_con', nc='cont_nsd_con', pc='cont_poly_con', m3='metal5_n_cap', cap3='metal5_cap',
                          capm='cmim_top', via='topvia1_n_cap', capvia='mim_via', m4='topmetal1_con', p3='metal5_pin_con',
                          p4='topmetal1_pin_con', t3='metal5_text', t4='topmetal1_text', fet='sg13_lv_nmos', mim='cap_cmim', sub='sub!')}

VER_ALPHA = 'abcdefghjkmnpqrstuvwxyz'


def ver_name(n):
    s = ''
    n += len(VER_ALPHA) ** 2
    while n:
        s = VER_ALPHA[n % len(VER_ALPHA)] + s
        n //= len(VER_ALPHA)
    return s


# What net names of users have, apart from letters and digits
ODD = ['[0]', '[10]', '<1>', '<31>', '/b', '/b/c', '!', '$1', '|m', '.ä', ',B', "'", ':b', '#', '*', '=b', '(x)', '{y}', '~', '.b', '.g1_b', '%s', '&', '@', '?', '+', '-', '^',
       '[/b]', '[red]', '.' + 'x' * 240, '.' + 'é' * 115, '/' + 'y' * 230, '_2']
ODD_PREFIX = ['g1_', 'g27_', 'g2_g1_', 'net_']


def gen_cell(rng, name, ver, rich=False):
    """A few li stripes, met1 crossings with contacts, perhaps met2."""
    c = plain_cell(rng, name, ver, rich)
    if rich and rng.random() < 0.4:
        c['shapes'] += devices(rng, ver)
    if rng.random() < 0.25:
        one = rng.choice(ODD)
        for s in c['shapes']:
            if len(s) == 5 and rng.random() < 0.7:
                s[4] += one if rng.random() < 0.5 else rng.choice(ODD)
                if rng.random() < 0.15:
                    s[4] = rng.choice(ODD_PREFIX) + s[4]
    return c


def plain_cell(rng, name, ver, rich=False):
    shapes = []
    n = rng.randint(2, 4 if rich else 3)
    pitch = rng.choice([500, 700, 900, 1300])
    w = rng.choice([170, 200, 300, 400])
    xmax = []
    for i in range(n):
        x1 = rng.randrange(0, 800, 50)
        x2 = x1 + rng.randrange(1200, 3600, 50)
        y = i * pitch
        net = f"N{ver}{i}"
        shapes.append([*LI, x1, y, x2, y + w])
        shapes.append([*LI_PIN, x1 + 20, y + 20, x1 + 150, y + 150])
        shapes.append([*LI_TXT, x1 + 60, y + 60, net])
        xmax.append((x1, x2))
    m = rng.randint(0, 2)
    for k in range(m):
        net = f"M{ver}{k}"
        i = rng.randrange(n)
        x1, x2 = xmax[i]
        x = x1 + 200 + k * 700
        shapes.append([*M1, x, -400, x + 300, n * pitch + 200])
        if rng.random() < 0.6 and x + 200 < x2 - 20:
            y = i * pitch
            shapes.append([*MCON, x + 40, y + 5, x + 210, y + 170])
        else:
            shapes.append([*M1_PIN, x + 20, -380, x + 150, -250])
            shapes.append([*M1_TXT, x + 60, -320, net])
    if rich and rng.random() < 0.5:
        net = f"T{ver}"
        shapes.append([*M2, -300, 50, 2500, 450])
        shapes.append([*M2_PIN, -280, 70, -150, 200])
        shapes.append([*M2_TXT, -250, 100, net])
    return {'name': name, 'shapes': shapes}


def devices(rng, ver):
    """a row of transistors with contacts, of which some have names, and MIM capacitors"""
    sh = []
    n = rng.choice([0, 1, 2, 4, 7, 9])
    y = -3000
    if n:
        sh += [[*DIFF, -300, y, 800 * n + 100, y + 600], [*NSDM, -400, y - 100, 800 * n + 200, y + 700]]
        for i in range(n + 1):
            x = 800 * i - 200
            sh += [[*LICON, x, y + 200, x + 170, y + 370], [*LI, x - 20, y - 20, x + 190, y + 620]]
            if rng.random() < 0.7:
                sh += [[*LI_PIN, x, y + 400, x + 150, y + 550], [*LI_TXT, x + 50, y + 450, f'S{ver}{i}']]
        for i in range(n):
            x = 800 * i + 150
            sh.append([*POLY, x, y - 200, x + 200, y + 1300])
            if rng.random() < 0.8:
                sh += [[*LICON, x + 20, y + 1100, x + 180, y + 1260], [*LI, x, y + 1080, x + 200, y + 1280]]
                sh += [[*LI_PIN, x + 20, y + 1100, x + 150, y + 1230], [*LI_TXT, x + 60, y + 1150, f'G{ver}{i if rng.random() < 0.9 else 0}']]
    for k in range(rng.choice([0, 0, 0, 1, 2, 3]) or (n == 0)):
        x, y = 5000, 3000 * k - 2000
        sh += [[*M3, x, y, x + 2600, y + 2000], [*CAPM, x + 300, y + 300, x + 1900, y + 1700], [*M4, x + 200, y + 100, x + 1700, y + 1800],
               [*VIA3, x + 600, y + 600, x + 800, y + 800], [*VIA3, x + 1200, y + 1000, x + 1400, y + 1200]]
        sh += [[*M3_PIN, x + 2200, y + 20, x + 2400, y + 220], [*M3_TXT, x + 2300, y + 120, f'B{ver}{k}']]
        if rng.random() < 0.8:
            sh += [[*M4_PIN, x + 220, y + 120, x + 420, y + 280], [*M4_TXT, x + 300, y + 200, f'U{ver}{k}']]
    return sh


def gen_design(rng, vern, cells=('TOP',), rich=False):
    ver = ver_name(vern)
    return {'ver': ver, 'cells': [gen_cell(rng, c, ver + (f"{i}" if i else ''), rich) for i, c in enumerate(cells)]}


def comb(rng, design):
    """a branched net with several pins and loops over two metals"""
    c = design['cells'][0]
    x0, y0 = -9000, rng.choice([-6000, 3000])
    ver, n = design['ver'], rng.randint(2, 4)
    sh = [[*LI, x0, y0, x0 + 700 * n, y0 + 200]]
    for i in range(n):
        x, h = x0 + 700 * i, rng.randrange(800, 2600, 100)
        sh.append([*LI, x, y0, x + 200, y0 + h])
        if rng.random() < 0.7:
            sh += [[*LI_PIN, x + 20, y0 + h - 160, x + 150, y0 + h - 20], [*LI_TXT, x + 60, y0 + h - 100, f'Q{ver}']]
        if rng.random() < 0.6:
            sh.append([*MCON, x + 15, y0 + 400, x + 185, y0 + 570])
    if rng.random() < 0.7:
        sh.append([*M1, x0 - 200, y0 + 350, x0 + 700 * n, y0 + 620])
        if rng.random() < 0.5:
            sh += [[*M1_PIN, x0 - 180, y0 + 400, x0 - 30, y0 + 550], [*M1_TXT, x0 - 100, y0 + 480, f'Q{ver}']]
    c['shapes'] += sh


def nest(rng, design):
    """the first cell uses the second one, somewhere beside or on top of its own shapes"""
    a, b = design['cells'][:2]
    a['refs'] = [[b['name'], rng.choice([-6000, -1500, 0, 1500, 5000]), rng.choice([-9000, -1000, 200, 3000, 8000])]]


def nets_of(design, cell):
    for c in design['cells']:
        if c['name'] == cell:
            return sorted({s[4] for s in c['shapes'] if len(s) == 5} | {n for r in c.get('refs', ()) for n in nets_of(design, r[0])})
    return []


_cache = {}


def to_bytes(design, fmt='gds'):
    """fmt: gds, gds.gz, oas"""
    key = (repr(design), fmt)
    if key in _cache:
        return _cache[key]
    import klayout.db as kdb
    ly = kdb.Layout()
    ly.dbu = 0.001
    for c in design['cells']:
        ly.create_cell(c['name'])
    for c in design['cells']:
        cell = ly.cell(c['name'])
        for s in c['shapes']:
            for (a, b), k in (((s[0], s[1]), 2), (IHP[s[0], s[1]], 3)):
                sh = cell.shapes(ly.layer(a, b))
                q = [x * k // 2 for x in s[2:] if isinstance(x, int)]
                if len(s) == 5:
                    sh.insert(kdb.Text(s[4], kdb.Trans(q[0], q[1])))
                else:
                    sh.insert(kdb.Box(*q))
        for ref in c.get('refs', ()):
            cell.insert(kdb.CellInstArray(ly.cell(ref[0]).cell_index(), kdb.Trans(ref[1], ref[2])))
    opt = kdb.SaveLayoutOptions()
    opt.format = 'OASIS' if fmt.startswith('oas') else 'GDS2'
    opt.gds2_write_timestamps = False
    opt.write_context_info = False
    data = ly.write_bytes(opt)
    if fmt.endswith('.gz'):
        data = gzip.compress(data, 6, mtime=0)
    if len(_cache) > 500:
        _cache.clear()
    _cache[key] = data
    return data


def shape_layers(ly):
    return [[i.layer, i.datatype] for k in ly.layer_indexes() for i in [ly.get_info(k)]]


def extract_devices(lvs, of, li, n):
    import klayout.db as kdb
    diff, nsdm, licon, m3, via = [lvs.make_polygon_layer(of(p)) for p in (DIFF, NSDM, LICON, M3, VIA3)]
    poly, capm, m4 = [lvs.make_polygon_layer(of(p), n[k]) for p, k in ((POLY, 'poly'), (CAPM, 'capm'), (M4, 'm4'))]
    p3, p4 = [lvs.make_layer(of(p), n[k]) for p, k in ((M3_PIN, 'p3'), (M4_PIN, 'p4'))]
    t3, t4 = [lvs.make_text_layer(of(p), n[k]) for p, k in ((M3_TXT, 't3'), (M4_TXT, 't4'))]
    nact = diff & nsdm
    gate, nsd = nact & poly, nact - poly
    sub = lvs.make_polygon_layer('sub')
    L = {'nsd': nsd, 'poly': poly, 'nc': licon & nsd, 'pc': licon & poly, 'm3': m3 - capm, 'cap3': m3 & capm, 'capm': capm,
         'via': via - capm, 'capvia': via & capm, 'm4': m4}
    for k, r in L.items():
        if k not in ('poly', 'capm', 'm4'):
            lvs.register(r, n[k])
    lvs.extract_devices(kdb.DeviceExtractorMOS4Transistor(n['fet']),
                        {'SD': nsd, 'G': gate, 'tS': nsd, 'tD': nsd, 'tG': poly, 'W': sub})
    lvs.extract_devices(kdb.DeviceExtractorCapacitor(n['mim'], 2e-15), {'P1': L['cap3'], 'P2': capm})
    for r in (*L.values(), p3, p4):
        lvs.connect(r)
    for a, b in (('nsd', 'nc'), ('poly', 'pc'), ('m3', 'cap3'), ('m3', 'via'), ('capm', 'capvia'), ('capvia', 'm4'), ('via', 'm4')):
        lvs.connect(L[a], L[b])
    lvs.connect(L['nc'], li)
    lvs.connect(L['pc'], li)
    for m, p, t in (('m3', p3, t3), ('m4', p4, t4)):
        lvs.connect(L[m], p)
        lvs.connect(L[m], t)
    lvs.connect(L['cap3'], t3)
    lvs.connect_global(sub, n['sub'])


def mini_lvs(gds_path, report_path, top=None, deck='sky130'):
    """What an LVS deck for kpex does, reduced to conductors, vias, pins and labels.
    Returns the bytes of the report."""
    import klayout.db as kdb
    ly = kdb.Layout()
    ly.read(gds_path)
    tops = ly.top_cells()
    if not tops:
        raise ValueError('no top cell')
    t = ly.cell(top) if top else tops[0]
    t.flatten(False)
    lvs = kdb.LayoutVsSchematic(kdb.RecursiveShapeIterator(ly, t, []))
    n = iter(NAMES[deck])
    of = lambda p: ly.layer(*(p if deck == 'sky130' else IHP[p]))
    li, m1, m2, mcon, via1 = [lvs.make_layer(of(p), next(n)) for p in (LI, M1, M2, MCON, VIA1)]
    pins = [lvs.make_layer(of(p), next(n)) for p in (LI_PIN, M1_PIN, M2_PIN)]
    labs = [lvs.make_text_layer(of(p), next(n)) for p in (LI_TXT, M1_TXT, M2_TXT)]
    for x in (li, m1, m2, mcon, via1):
        lvs.connect(x)
    lvs.connect(li, mcon)
    lvs.connect(mcon, m1)
    lvs.connect(m1, via1)
    lvs.connect(via1, m2)
    for c, p, lab in zip((li, m1, m2), pins, labs):
        lvs.connect(p)
        lvs.connect(p, c)
        lvs.connect(c, lab)
    if any(s[:2] == list(q) for s in shape_layers(ly) for q in ((DIFF, M3) if deck == 'sky130' else (IHP[DIFF], IHP[M3]))):
        extract_devices(lvs, of, li, DEVICES[deck])
    lvs.extract_netlist()
    lvs.netlist().make_top_level_pins()
    ref = kdb.Netlist()
    rc = kdb.Circuit()
    rc.name = t.name
    ref.add(rc)
    lvs.reference = ref
    lvs.compare(kdb.NetlistComparer())
    d = tempfile.mkdtemp(prefix='lvs', dir=os.environ.get('SIM_TOOLTMP'))
    p = os.path.join(d, 'r' + ('.lvsdb.gz' if report_path.endswith('.gz') else '.lvsdb'))
    try:
        lvs.write(p)
        with open(p, 'rb') as f:
            return f.read()
    finally:
        if os.path.exists(p):
            os.unlink(p)
        os.rmdir(d)


_nets_cache = {}


def conductor_nets(design, cell, deck):
    """names of the nets which have shapes on a conductor layer, as the LVS extracts them"""
    return set(conductor_boxes(design, cell, deck)) - {None}


def device_classes(design, cell, deck):
    """the classes of the devices that the LVS extracts"""
    return conductor_boxes(design, cell, deck)[None]


def conductor_boxes(design, cell, deck):
    """the boxes of the conductors of every net, as (left, bottom, right, top) in micrometers; under None the classes of the devices"""
    import klayout.db as kdb
    key = (repr(design), cell, deck)
    if key not in _nets_cache:
        d = tempfile.mkdtemp(prefix='nets', dir=os.environ.get('SIM_TOOLTMP'))
        g, r = os.path.join(d, 'x.gds'), os.path.join(d, 'x.lvsdb.gz')
        try:
            with open(g, 'wb') as f:
                f.write(to_bytes(design))
            data = mini_lvs(g, r, cell, deck)
            with open(r, 'wb') as f:
                f.write(data)
            lvs = kdb.LayoutVsSchematic()
            lvs.read(r)
        finally:
            for p in (g, r):
                if os.path.exists(p):
                    os.unlink(p)
            os.rmdir(d)
        c = lvs.netlist().circuit_by_name(cell)
        layers = [n for n in lvs.layer_names() if not re.search('pin|label|text|^sub$|^capm$|^cmim_top$', n)]
        res = _nets_cache[key] = {}
        res[None] = sorted(d.device_class().name for d in c.each_device()) if c is not None else []
        for n in [] if c is None else c.each_net():
            boxes = [p.bbox() for k in layers for p in lvs.shapes_of_net(n, lvs.layer_by_name(k), True).each()]
            if boxes:
                res.setdefault(n.expanded_name(), []).extend((b.left / 1000, b.bottom / 1000, b.right / 1000, b.top / 1000) for b in boxes)
        if len(_nets_cache) > 300:
            _nets_cache.pop(next(iter(_nets_cache)))
    return _nets_cache[key]


def lateral(a, b):
    """smallest distance between two sets of boxes, seen from above"""
    d = 1e9
    for p in a:
        for q in b:
            dx = max(p[0] - q[2], q[0] - p[2], 0)
            dy = max(p[1] - q[3], q[1] - p[3], 0)
            d = min(d, (dx * dx + dy * dy) ** 0.5)
    return d
