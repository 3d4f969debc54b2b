"""What a run leaves behind, in a form that can be compared, and what it must consist of."""
import gzip
import hashlib
import os
import re
import zlib


def required(run):
    """Result files of a successful run, by engine (names relative to the run directory)."""
    c = run['cell']
    r = {}
    for e in run['engines']:
        if e == '2.5D':
            r[e] = [f'{c}_k25d_pex_netlist.csv', f'{c}_k25d_pex_netlist.spice', f'{c}_k25d_pex_report.rdb.gz']
        elif e == 'fastercap':
            r[e] = [f'{c}_FasterCap_Result_Matrix_Raw.csv', f'{c}_FasterCap_Result_Matrix_Avg.csv',
                    f'{c}_FasterCap_Expanded_Netlist.cir', f'{c}_FasterCap_Expanded_Netlist.csv',
                    f'{c}_FasterCap_Reduced_Netlist.cir', f'{c}_FasterCap_Output.txt']
        elif e == 'fastcap':
            r[e] = [f'{c}_FastCap2_Result_Matrix_Raw.csv', f'{c}_FastCap2_Result_Matrix_Avg.csv',
                    f'{c}_FastCap2_Expanded_Netlist.cir', f'{c}_FastCap2_Reduced_Netlist.cir',
                    f'{c}_FastCap2_Output.txt']
        elif e == 'magic':
            m = run.get('magic_mode', 'CC')
            r[e] = [f'magic_{m}/{c}.pex.spice', f'magic_{m}/{c}_MAGIC_report.rdb.gz',
                    f'magic_{m}/{c}_MAGIC_{m}_Output.txt']
    return r


SOLVER_INPUT = 'FasterCap_Input_Files'


def load(path):
    """Bytes of a result file, unpacked; None if missing, 'damaged' if it cannot be unpacked."""
    try:
        with open(path, 'rb') as f:
            b = f.read()
    except (OSError, ValueError):
        return None
    if path.endswith('.gz'):
        d = zlib.decompressobj(31)
        try:
            b = d.decompress(b) + d.flush()
            if not d.eof:
                return 'damaged'
        except zlib.error:
            return 'damaged'
    return b


def canon(data, run_dir, root):
    if isinstance(data, bytes):
        data = data.replace(os.fsencode(os.path.realpath(run_dir)), b'<RUN>').replace(os.fsencode(root), b'<ROOT>')
    return data


def digest(data):
    if data is None or isinstance(data, str):
        return data
    return hashlib.sha256(data).hexdigest()[:24]


def collect(run_dir, root, run, outputs=False):
    """name -> canonical bytes of every result file of the engines of this run"""
    res = {}
    for e, names in required(run).items():
        for n in names:
            if n.endswith('_Output.txt') and not outputs:
                continue
            res[n] = canon(load(os.path.join(run_dir, n)), run_dir, root)
    if 'fastercap' in run['engines'] or 'fastcap' in run['engines']:
        d = os.path.join(run_dir, SOLVER_INPUT)
        lst = [n for n in sorted(os.listdir(d))] if os.path.isdir(d) else []
        lsts = [n for n in lst if n.endswith('.lst')]
        used = set(lsts)
        for l in lsts:                       # only what the list file refers to: stale files may lie around
            b = load(os.path.join(d, l)) or b''
            for line in b.decode('utf-8', 'replace').splitlines():
                w = line.split()
                if len(w) > 1 and w[0] in 'CDB':
                    used.add(w[1])
        for n in sorted(used):
            res[f'{SOLVER_INPUT}/{n}'] = canon(load(os.path.join(d, n)), run_dir, root)
    return res


# ---- reference models --------------------------------------------------------------------------

def csv_matrix(data):
    rows = data.decode().splitlines()
    return rows[0].split(';'), [[float(c) for c in r.split(';')] for r in rows[1:]]


def unescape(name):
    """a name without the escapes of the SPICE writer"""
    def one(m):
        return bytes([int(m.group(1), 16)]) if m.group(1) else m.group(2)
    return re.sub(rb'\\(?:x([0-9a-fA-F]{2})|(.))', one, name.encode('utf-8', 'surrogateescape')).decode('utf-8', 'surrogateescape')


def spice_devices(data):
    """{(letter, name): (nodes, value, model)} of the devices of a SPICE netlist, one top circuit"""
    text = re.sub(r'\n\+\s*', ' ', data.decode())
    res = []
    for line in text.splitlines():
        w = line.split()
        if not w or w[0][0] in '.*':
            continue
        res.append([w[0], *map(unescape, w[1:])])
    return res


def spice_subckt(data):
    text = re.sub(r'\n\+\s*', ' ', data.decode())
    for line in text.splitlines():
        if line.lower().startswith('.subckt'):
            return line.split()[1:]
    return None
