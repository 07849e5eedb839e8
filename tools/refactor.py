'''python3 tools/refactor.py [--tests] [--search] [ids]: applies each behaviour-preserving edit to a scratch copy, runs the suite (--tests) and its checks there.'''
import sys, os, json, pathlib, shutil, subprocess, tempfile
sys.path.insert(0, str(pathlib.Path(__file__).parent))
from refactors import REFACTORS
args = sys.argv[1:]
tests = '--tests' in args
only = [a for a in args if not a.startswith('--')]
names = [a.split(':') for a in only]
for r in REFACTORS:
    sel = [n for n in names if n[0] == r['id']]
    if names and not sel: continue
    props = sel[0][1].split(',') if sel and len(sel[0]) > 1 else r['props']
    if '--only-tests' in args: props, tests = [], True
    tmp = pathlib.Path(tempfile.mkdtemp(prefix = 'refac-', dir = '/tmp')); repo = tmp / 'repo'
    shutil.copytree('/repo', repo, ignore = shutil.ignore_patterns('__pycache__'))
    try:
        for f, o, n in r['edits']:
            t = (repo / f).read_text()
            assert t.count(o) == 1, (r['id'], f, t.count(o), o)
            (repo / f).write_text(t.replace(o, n))
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE = '1', PYTHONHASHSEED = '0', MPLBACKEND = 'Agg')
        if tests:
            t = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-x', '--timeout=300', '-W', 'ignore'], cwd = repo, capture_output = True, text = True, env = dict(env, PYTHONPATH = str(repo)))
            print(r['id'], 'tests', t.stdout.strip().splitlines()[-1], flush = True)
            if t.returncode: continue
        for p in props:
            t = subprocess.run(['timeout', '900', 'bin/check', p], cwd = '/verif', capture_output = True, text = True, env = dict(env, VERIF_REPO = str(repo), **({} if '--search' in args else {'VERIF_NO_SEARCH': '1'})))
            obs = json.load(open(f'/verif/evidence/obligations/{p}.json')) if pathlib.Path(f'/verif/evidence/obligations/{p}.json').exists() else []
            bad_obs = [o for o in obs if o['status'] != 'proved']
            loud = [o['name'] for o in bad_obs if o['status'] == 'refuted' and '[replayed' not in o.get('detail', '')]
            proof = f'{len(obs) - len(bad_obs)} proved, {len(bad_obs) - len(loud)} undecided, {len(loud)} refuted without replay {loud[:2]}'
            bad = [l for l in t.stdout.splitlines() if 'VIOLATION' in l]
            print('QUIET' if t.returncode == 0 else f'ALARM({t.returncode})', r['id'], p, bad[:2], proof, flush = True)
            if t.returncode: (pathlib.Path('/tmp/ref') / f'{r["id"]}-{p}.log').write_text(t.stdout + t.stderr)
    finally: shutil.rmtree(tmp)
