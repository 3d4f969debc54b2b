"""Marker databases: seeded content, the loss of categories, and what a database says."""
import gzip
import io
import os
import random
import tempfile
import xml.etree.ElementTree as ET

NAMES = ['[C] Fringe / Side Overlap', 'inside=met1 outside=met2', 'a.b', 'a.b.c', "it's", "'", "''", 'qu"o', 'back\\sl', '\\', '\\n', '<x>&y', 'ünï', '€ 10µ',
         'x \'y.z\' w', 'Shielded', 'A', 'B', '1', '0.05', '(1,2)', 'q"\'.\\', 'tab\tx', ' lead', 'trail ', 'deep/er', '日本', 'a=b', '[0]', '[/x]', '[red]', '[/]', ':boom:', '*', '.', '..', 'net,1',
         'line\nbreak', '\\047', '\\303\\274', '#', 'name()']


def build(path, seed, root):
    """A database like the extraction writes it. -> nothing; the file is complete"""
    import klayout.db as kdb
    import klayout.rdb as rdb
    rng = random.Random(f'rdb/{seed}')
    r = rdb.ReportDatabase('PEX')
    r.description = 'report'
    cells = [r.create_cell(c) for c in rng.sample(['TOP', 'AUX', 'a.b', 'x$1'], rng.randint(1, 2))]
    cats = []
    for n in rng.sample(NAMES, rng.randint(1, 6)):
        c = r.create_category(n)
        c.description = rng.choice(['', 'something', 'ä & <b>'])
        cats.append(c)
        for m in rng.sample(NAMES, rng.randint(0, 3)):
            s = r.create_category(c, m)
            cats.append(s)
            for o in rng.sample(NAMES, rng.choice([0, 0, 1, 2])):
                cats.append(r.create_category(s, o))
    if rng.random() < 0.4:                  # two paths that look the same once joined
        a, b = rng.choice([('a', 'b'), ('net', 'x.y'), ('net.x', 'y'), ('[0]', '1'), (' p', 'q r')])
        if rng.random() < 0.5 and cats:
            top = rng.choice(cats)
            a += '_'
            pair = [r.create_category(top, f'{a}.{b}X'), r.create_category(r.create_category(top, a), f'{b}X')]
        else:
            a += '_'
            pair = [r.create_category(f'{a}.{b}X'), r.create_category(r.create_category(a), f'{b}X')]
        cats += pair
        for c in pair:
            r.create_item(cells[0].rdb_id(), c.rdb_id()).add_value('one of two')
    for k in range(rng.randint(1, 25)):
        i = r.create_item(rng.choice(cells).rdb_id(), rng.choice(cats).rdb_id())
        i.add_value(f'item {k}')
        for _ in range(rng.randint(0, 2)):
            i.add_value(rng.choice([kdb.DBox(0, 0, k, 1), kdb.DPolygon(kdb.DBox(1, 2, 3, 4 + k)), 'text: é <', 0.1 * k]))
    r.save(path)


def lose(data, seed, share=0.4):
    """The XML without some of its categories (with all of their descendants). -> (XML, number lost)"""
    rng = random.Random(f'lose/{seed}')
    et = ET.ElementTree(ET.fromstring(data))
    n = 0

    def walk(e):
        nonlocal n
        cats = e.find('./categories')
        if cats is None:
            return
        for c in list(cats.findall('./category')):
            if rng.random() < share:
                cats.remove(c)
                n += 1
            else:
                walk(c)
    walk(et.getroot())
    b = io.BytesIO()
    et.write(b, encoding='utf-8', xml_declaration=True)
    return b.getvalue(), n


def content(data):
    """What the database says: sorted items, category paths and cells; None if it cannot be loaded"""
    import klayout.rdb as rdb
    fd, p = tempfile.mkstemp(suffix='.rdb', dir=os.environ.get('SIM_TOOLTMP'))
    try:
        os.write(fd, data)
        os.close(fd)
        r = rdb.ReportDatabase('')
        try:
            r.load(p)
        except Exception:
            return None
        items = sorted((r.cell_by_id(i.cell_id()).qname(), r.category_by_id(i.category_id()).path(), [v.to_s() for v in i.each_value()], i.tags_str)
                       for i in r.each_item())
        cats = []

        def walk(c):
            for s in c.each_sub_category() if c is not None else r.each_category():
                cats.append(s.path())
                walk(s)
        walk(None)
        return {'items': items, 'categories': sorted(cats), 'cells': sorted(c.qname() for c in r.each_cell())}
    finally:
        os.unlink(p)


def tree(data):
    """[(cell, category names from the top, values, bounding box)], [category names of every category];
    None if it cannot be loaded"""
    import klayout.rdb as rdb
    fd, p = tempfile.mkstemp(suffix='.rdb', dir=os.environ.get('SIM_TOOLTMP'))
    try:
        os.write(fd, data)
        os.close(fd)
        r = rdb.ReportDatabase('')
        try:
            r.load(p)
        except Exception:
            return None

        def names(c):
            res = []
            while c is not None:
                res.insert(0, c.name())
                c = c.parent()
            return tuple(res)
        items = []
        for i in r.each_item():
            box = None
            for v in i.each_value():
                for k in ('box', 'polygon'):
                    if getattr(v, f'is_{k}')():
                        x = getattr(v, k)()
                        b = x if k == 'box' else x.bbox()
                        box = (b.left, b.bottom, b.right, b.top)
            items.append((r.cell_by_id(i.cell_id()).name(), names(r.category_by_id(i.category_id())), box))
        cats = []

        def walk(c):
            for s in c.each_sub_category() if c is not None else r.each_category():
                cats.append(names(s))
                walk(s)
        walk(None)
        return items, cats
    finally:
        os.unlink(p)


def unpack(path):
    try:
        with (gzip.open if path.endswith('.gz') else open)(path, 'rb') as f:
            return f.read()
    except (OSError, EOFError):
        return None


def spoil_saving(spec, suspended):
    """In the simulated process: the KLayout bug that kpex works around. Every save loses categories"""
    import klayout.rdb as rdb
    real = rdb.ReportDatabase.save
    n = [0]

    def save(self, path):
        real(self, path)
        n[0] += 1
        if n[0] - 1 not in spec.get('at', [0]):
            return
        with suspended():
            data = unpack(path)
            if data is None:
                return
            data, lost = lose(data, spec['seed'], spec.get('share', 0.3))
            s = os.stat(path)
            with (gzip.open if path.endswith('.gz') else open)(path, 'wb') as f:
                f.write(data)
            os.utime(path, ns=(s.st_mtime_ns, s.st_mtime_ns))
    rdb.ReportDatabase.save = save
