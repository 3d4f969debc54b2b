"""A worker: executes scenarios on request (JSON lines on stdin/stdout). One root directory, cleaned per scenario.

Started with simio preloaded and with a fixed PYTHONHASHSEED."""
import gc
import hashlib
import importlib
import json
import os
import resource
import shutil
import sys
import time
import traceback


def main():
    root = sys.argv[1]
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))        # a run that gets out of hand fails alone
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    sys.path.insert(0, os.environ.get('KPEX_REPO', '/repo'))
    proto = os.fdopen(os.dup(1), 'w', buffering=1)
    devnull = os.open('/dev/null', os.O_RDWR)
    os.dup2(devnull, 1)
    os.dup2(devnull, 0) if False else None
    from sim import kernel, popen
    kernel.lib()
    popen.install()
    import klayout_pex.__main__                    # noqa: F401
    import klayout_pex.netlist.__main__            # noqa: F401
    import klayout_pex.klayout.repair_rdb          # noqa: F401
    from sim import execute
    execute.warm_up(root)
    gc.collect()
    gc.freeze()
    proto.write(json.dumps({'ready': True}) + '\n')
    for line in sys.stdin:
        req = json.loads(line)
        try:
            ans = execute.serve(req, root)
        except Exception:
            ans = {'error': traceback.format_exc()[-3000:]}
        proto.write(json.dumps(ans) + '\n')
        proto.flush()


if __name__ == '__main__':
    main()
