'''python3 tools/record.py proofs|bugs [ids]|refactors LOG: records results for DESIGN.md in tools/results.json and (proofs) the expected obligations in proofs/expected.json.'''
import json, os, pathlib, subprocess, sys, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
V = pathlib.Path(__file__).resolve().parent.parent; F = V / 'tools' / 'results.json'
R = json.loads(F.read_text()) if F.exists() else dict(proofs = {}, refactors = [], bugs = [])
J = int(os.environ.get('J', '4'))
def verif_copy(tmp):
    v = pathlib.Path(tmp) / 'v'; shutil.copytree(V, v, ignore = shutil.ignore_patterns('.git', 'evidence', 'seeded', '__pycache__')); (v / 'evidence').mkdir(); return v
def check(pid, repo, **extra):
    with tempfile.TemporaryDirectory(prefix = 'rec-', dir = '/tmp') as tmp:
        v = verif_copy(tmp)
        t = subprocess.run(['timeout', '900', 'bin/check', pid], cwd = v, capture_output = True, text = True, env = dict(os.environ, VERIF_REPO = str(repo), VERIF_SEED = '1', PYTHONDONTWRITEBYTECODE = '1', **extra))
        ev = json.loads((v / 'evidence' / f'{pid}.json').read_text()); obs = json.loads((v / 'evidence' / 'obligations' / f'{pid}.json').read_text())
        return t, ev, obs
what = sys.argv[1]
if what == 'proofs':
    ids = sys.argv[2:] or [f'C{i:02d}' for i in range(1, 24)]
    X = V / 'proofs' / 'expected.json'
    exp = json.loads(X.read_text()) if X.exists() else {}
    def one(p):
        t, ev, obs = check(p, '/repo', VERIF_NO_SEARCH = '1'); c = ev['coverage']
        return p, dict(obligations = c['obligations'], discharged = c['discharged'], backends = ', '.join(f'{k} {n}' for k, n in c['backends'].items()), solver_s = c['solver_seconds'], wall_s = c['proof_wall_s'], functions = len(c['functions_under_contract'])), [o['name'] for o in obs if o['status'] == 'proved'], t.returncode
    with ThreadPoolExecutor(J) as ex:
        for p, r, names, rc in ex.map(one, ids):
            R['proofs'][p] = r
            if r['obligations'] == r['discharged'] and rc == 0: exp[p] = names
            print(p, r, rc, flush = True)
    R['proofs'] = dict(sorted(R['proofs'].items()))
    X.write_text(json.dumps(dict(sorted(exp.items())), indent = 0) + '\n')
elif what == 'bugs':
    ids = sys.argv[2:] or sorted(p.name for p in (V / 'seeded').iterdir())
    def one(i):
        with tempfile.TemporaryDirectory(prefix = 'rec-', dir = '/tmp') as tmp:
            repo = pathlib.Path(tmp) / 'repo'; subprocess.run(['cp', '-a', '/repo', str(repo)], check = True)
            subprocess.run(['git', 'apply', str(V / 'seeded' / i / 'patch.diff')], cwd = repo, check = True)
            p = json.loads((V / 'seeded' / i / 'meta.json').read_text())['property']
            def say(t, obs, proof):
                bad = [l for l in t.stdout.splitlines() if l.startswith('VIOLATION')]
                if bad: return 'caught' + (' (no failing input found)' if all('no-failing' in b for b in bad) else '')
                return ('undecided' if any(o['status'] != 'proved' for o in obs) else 'missed') if proof else 'missed'
            a = check(p, repo, VERIF_NO_SEARCH = '1'); b = check(p, repo)
            return dict(id = i, property = p, proof = say(a[0], a[2], True), check = say(b[0], b[2], False))
    with ThreadPoolExecutor(J) as ex:
        for r in ex.map(one, ids):
            print(r, flush = True)
            R['bugs'] = sorted([x for x in R['bugs'] if x['id'] != r['id']] + [r], key = lambda x: (x['property'], x['id']))
else:
    rs = []
    for l in open(sys.argv[2]):
        w = l.split()
        if not w or w[0][:5] not in ('QUIET', 'ALARM'): continue
        t = l[l.rindex(']', 0, l.rindex(' proved')) + 1:] if False else l
        import re
        n = re.search(r'(\d+) proved, (\d+) undecided, (\d+) refuted', l).groups()
        rs.append(dict(id = w[1], property = w[2], verdict = 'quiet' if w[0] == 'QUIET' else 'no failing input found' if 'no-failing' in l else 'ALARM', proved = n[0], undecided = n[1], loud = n[2]))
    R['refactors'] = rs
F.write_text(json.dumps(R, indent = 1) + '\n')
