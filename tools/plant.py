'''Makes and confirms the planted bugs in /verif/seeded (scratch copy of /repo under /tmp; nothing is committed in /repo).

python3 tools/plant.py [id ...]     (re)build and confirm the named planted bugs (all by default); no check reads this or seeded/'''
import sys, os, json, subprocess, pathlib, shutil, tempfile
sys.path.insert(0, str(pathlib.Path(__file__).parent))
from plants import PLANTS
V = pathlib.Path('/verif/seeded'); PY = '/opt/venv/bin/python'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE = '1', PYTHONHASHSEED = '0', MPLBACKEND = 'Agg')
STABLE = json.load(open('/opt/vp/BASELINE.json'))
def sh(cmd, cwd, **k): return subprocess.run(cmd, cwd = cwd, capture_output = True, text = True, env = ENV, **k)
PRE = '''import os, sys
sys.path.insert(0, os.getcwd())
import warnings; warnings.simplefilter('ignore')
def check(c, what):
    if not c: print('DEMO FAILED:', what); sys.exit(1)
'''
def main(ids):
    ok = True
    for p in PLANTS:
        if ids and p['id'] not in ids: continue
        d = V / p['id']; d.mkdir(parents = True, exist_ok = True)
        tmp = pathlib.Path(tempfile.mkdtemp(prefix = 'plant-', dir = '/tmp'))
        repo = tmp / 'repo'
        shutil.copytree('/repo', repo, ignore = shutil.ignore_patterns('__pycache__'))
        try:
            for f, old, new in p['edits']:
                t = (repo / f).read_text()
                assert t.count(old) == 1, (p['id'], f, t.count(old), old)
                (repo / f).write_text(t.replace(old, new))
            diff = sh(['git', 'diff'], repo).stdout
            (d / 'patch.diff').write_text(diff)
            (d / 'demo.py').write_text(PRE + p['demo'].strip() + '\nprint("ok")\n')
            (d / 'demo.sh').write_text('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
            os.chmod(d / 'demo.sh', 0o755)
            (d / 'meta.json').write_text(json.dumps(dict(property = p['property'], needs = p['needs'], what_it_breaks = p['breaks']), indent = 1) + '\n')
            bad = sh(['bash', str(d / 'demo.sh')], repo, timeout = 300)
            good = sh(['bash', str(d / 'demo.sh')], '/repo', timeout = 300)
            # the suite imports the editable install: run it with the scratch copy first on the path
            t = subprocess.run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-x', '--timeout=300', '-W', 'ignore::DeprecationWarning'], cwd = repo, capture_output = True, text = True, env = dict(ENV, PYTHONPATH = str(repo)))
            tail = t.stdout.strip().splitlines()[-1] if t.stdout.strip() else t.stderr[-200:]
            # touched lines are original ones
            lines = [l[1:] for l in diff.splitlines() if l.startswith('-') and not l.startswith('---')]
            base = '\n'.join(sh(['git', 'show', f'bfcd02b:{f}'], '/repo').stdout for f, _, _ in p['edits'])
            orig = any(l in base.splitlines() for l in lines) if lines else True
            verdict = 'OK ' if (bad.returncode != 0 and good.returncode == 0 and t.returncode == 0 and orig) else 'BAD'
            if verdict == 'BAD': ok = False
            print(verdict, p['id'], p['property'], '| patched demo', bad.returncode, (bad.stdout + bad.stderr).strip().splitlines()[-1:] , '| clean demo', good.returncode, good.stderr[-300:], '| tests', tail, '| original lines', orig, flush = True)
        finally: shutil.rmtree(tmp)
    return 0 if ok else 1
sys.exit(main(sys.argv[1:]))
