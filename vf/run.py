import sys, os, json, pathlib
sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent.parent))
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
sys.path.insert(1, os.environ.get('VERIF_REPO', '/repo'))
sys.setrecursionlimit(20000)
from vf import core
if sys.argv[1] == '--replay':
    import importlib
    r = json.load(open(sys.argv[2]))
    if r['kind'] == 'obligation': sys.exit(core.main(r['property']))
    msg = core.run_case(importlib.import_module('props.' + r['property'].lower()), r['case'], r['data'])
    print('holds' if msg is None else 'VIOLATED: ' + msg)
    sys.exit(0 if msg is None else 1)
try: rc = core.main(sys.argv[1])
except core.Violated as e: raise
sys.stdout.flush()
os._exit(rc)
