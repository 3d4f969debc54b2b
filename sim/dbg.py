"""Debugging: run one scenario and print what happened. dbg.py <prop> <seed> <idx> | dbg.py <replay>"""
import json, os, sys, subprocess
HERE = os.path.dirname(os.path.abspath(__file__))
if 'simio' not in os.environ.get('LD_PRELOAD', ''):
    e = dict(os.environ, LD_PRELOAD=os.path.join(HERE, '..', 'build', 'simio.so'), PYTHONHASHSEED='0', TZ='UTC', PYTHONDONTWRITEBYTECODE='1', COLUMNS='120', LC_ALL='C.UTF-8')
    sys.exit(subprocess.run(['/opt/venv/bin/python', '-B'] + sys.argv, env=e).returncode)
sys.path.insert(0, os.path.dirname(HERE)); sys.path.insert(0, os.environ.get('KPEX_REPO', '/repo'))
from sim import kernel, popen, execute, props, world, judge
kernel.lib(); popen.install()
import klayout_pex.__main__, klayout_pex.netlist.__main__, klayout_pex.klayout.repair_rdb
root = f'/dev/shm/kpx{os.getpid():07d}/w00/r'
if len(sys.argv) > 2:
    prop, sc = sys.argv[1], props.ALL[sys.argv[1]]().scenario(int(sys.argv[2]), int(sys.argv[3]))
else:
    d = json.load(open(sys.argv[1])); prop, sc = d['property'], d['scenario']
execute.fresh(root)
import shutil
try:
    w = world.World(sc, root, {})
    w.execute()
    for i, (st, ev) in enumerate(zip(sc['steps'], w.events)):
        print(i, json.dumps(st)[:400])
        for r in ([ev['res']] if 'res' in ev else []) + [s['res'] for s in ev.get('subs', ())]:
            print('    ->', r['rc'], str(r.get('exc'))[:300], r.get('fired'), 'ops', r['ops'], [t['kind'] for t in r.get('tools', ())], r.get('stderr', '')[-300:] if r['rc'] else '')
            if os.environ.get('T'):
                print('\n'.join('      ' + l.replace(root, '')[:200] for l in r['trace'].splitlines() if l[0] in os.environ['T'] or l.endswith('!')))
    for x in props.ALL[prop]().judge(w):
        print('VIOL', x)
    if os.environ.get('KEEP'):
        shutil.rmtree('/tmp/w/keep', ignore_errors=True); shutil.copytree(root, '/tmp/w/keep')
finally:
    shutil.rmtree(os.path.dirname(os.path.dirname(root)))
