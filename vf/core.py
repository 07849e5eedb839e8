'''The check runner: proof obligations, run-time contract cases, verdict, evidence and replay files.

A property module (props/cNN.py) provides
    TITLE, LEVEL
    CASES   : {name: function(data)}   run-time contract on the real code for one JSON-able case; raises Violated
    generate(ctx) -> iterator of (case name, data)
    prove(ctx)    -> registers obligations on ctx.obligations (optional)
'''
import json, os, random, sys, time, traceback, hashlib, pathlib

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get('VERIF_REPO', '/repo'))


class Violated(Exception):
    '''A contract evaluated to false on the real code.'''

class Undecided(Exception):
    '''The verifier cannot decide an obligation (unsupported construct, solver unknown, over-approximation).'''


def expect(cond, msg, *args):
    if not cond: raise Violated(msg.format(*args) if args else msg)


class Obligation:
    def __init__(self, name, function, status, backend='z3', seconds=0.0, detail='', bounded=None, counterexample=None, exact=True, paths=None):
        self.name, self.function, self.status, self.backend = name, function, status, backend
        self.seconds, self.detail, self.bounded, self.counterexample, self.exact, self.paths = seconds, detail, bounded, counterexample, exact, paths
        # status: proved | refuted | undecided
    def as_dict(self):
        d = dict(name=self.name, function=self.function, status=self.status, backend=self.backend, seconds=round(self.seconds, 3))
        for k in ('detail', 'bounded', 'counterexample', 'paths'):
            if getattr(self, k): d[k] = getattr(self, k)
        return d


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier != 'thorough'
        self.rng = random.Random(seed * 1000003 + int(hashlib.sha256(pid.encode()).hexdigest()[:8], 16))
        self.obligations = []
        self.assumptions = []
        self.trusted = []
        self.functions = []          # functions under contract
        self.notes = []
        self.t0 = time.time()
    def budget(self, quick, thorough): return quick if self.quick else thorough
    def add(self, *a, **k):
        o = Obligation(*a, **k); self.obligations.append(o); return o


def write_replay(pid, tag, payload):
    d = VERIF / 'evidence' / 'replays'
    d.mkdir(parents=True, exist_ok=True)
    blob = json.dumps(payload, indent=1, default=str, sort_keys=True)
    f = d / f'{pid}-{tag}-{hashlib.sha256(blob.encode()).hexdigest()[:10]}.json'
    f.write_text(blob)
    return f


def load_known():
    f = VERIF / 'known_findings.json'
    return json.loads(f.read_text()) if f.exists() else []


def run_case(mod, name, data):
    '''Run one run-time contract; returns None when it held and the message when it was violated.
    An exception raised by the real code is the case's business: cases decide whether raising is allowed,
    and let unexpected exceptions of the code under test through, which is a violation of totality.'''
    try:
        mod.CASES[name](data)
        return None
    except Violated as e:
        return str(e) or 'contract violated'
    except Exception as e:
        # Raised inside the code under test: a totality violation. Raised by the harness itself: no verdict from this case.
        frames = traceback.extract_tb(e.__traceback__)
        if any(str(f.filename).startswith(str(REPO) + '/') for f in frames) and not getattr(e, 'harness', False):
            at = [f for f in frames if str(f.filename).startswith(str(REPO) + '/')][-1]
            return f'{type(e).__name__}: {e} raised at {at.filename}:{at.lineno} in {at.name}'
        HARNESS_ERRORS.append((name, data, ''.join(traceback.format_exception(e))[-1500:]))
        return None

HARNESS_ERRORS = []


def start_proof(pid, ctx):
    import subprocess, tempfile
    if os.environ.get('VERIF_NO_PROOF') or not (VERIF / 'proofs' / f'{pid.lower()}.py').exists(): return None
    d = tempfile.mkdtemp(prefix = f'vc-{pid}-')
    out = os.path.join(d, 'out.json')
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE = '1')
    p = subprocess.Popen([sys.executable, '-W', 'ignore', str(VERIF / 'vc' / 'session.py'), pid, out], stdout = subprocess.DEVNULL, stderr = subprocess.DEVNULL, env = env, cwd = d, start_new_session = True)
    return p, d, out, time.time()

def finish_proof(pid, ctx, proof):
    import subprocess, shutil
    expected = json.loads((VERIF / 'proofs' / 'expected.json').read_text()).get(pid, []) if (VERIF / 'proofs' / 'expected.json').exists() else []
    if proof is None: return
    p, d, out, t0 = proof
    limit = ctx.budget(420, 800)
    res = None
    try: p.wait(max(5, limit - (time.time() - t0)))
    except subprocess.TimeoutExpired:
        import signal
        os.killpg(p.pid, signal.SIGKILL); p.wait()
        ctx.notes.append(f'the proof process was stopped at its {limit} s limit')
    try: res = json.loads(open(out).read())
    except Exception as e: ctx.add('proof process', '-', 'undecided', detail = f'no result: {type(e).__name__} {e}')
    shutil.rmtree(d, ignore_errors = True)
    if res is None: res = dict(obligations = [], assumptions = [], trusted = [], functions = [], notes = [], error = 'no result')
    for o in res['obligations']:
        status, detail = o['status'], o['detail']
        ctx.add(o['name'], o['function'], status, backend = o['backend'], seconds = o['seconds'], detail = detail, counterexample = [m for m in o['models'] if m], exact = bool(o.get('exact')), paths = o['paths'],
                bounded = o.get('bounded'))
    names = {o['name'] for o in res['obligations']}
    for n in expected:
        if n not in names: ctx.add(n, '-', 'undecided', detail = 'not generated from the current source' + (': ' + res['error'][-300:] if res.get('error') else ''))
    if res.get('error') and not expected: ctx.add('proof machinery', '-', 'undecided', detail = res['error'][-1500:])
    ctx.assumptions += res['assumptions']; ctx.trusted += res['trusted']; ctx.functions += res['functions']; ctx.notes += res['notes']
    ctx.proof_solver_s, ctx.proof_wall = res.get('solver_seconds', 0.0), res.get('wall_s', 0.0)

def groups(obs):
    '''obligations by what they state (the part after " / "), with counts'''
    g = {}
    for o in obs:
        k = o.name.split(' / ')[-1]
        d = g.setdefault(k, dict(proved = 0, other = 0, paths = 0, seconds = 0.0))
        d['proved' if o.status == 'proved' else 'other'] += 1; d['paths'] += o.paths or 0; d['seconds'] = round(d['seconds'] + o.seconds, 3)
    return g

def trimmed(pid, obs):
    '''everything goes to evidence/obligations/<id>.json; the evidence file itself holds what fits'''
    d = VERIF / 'evidence' / 'obligations'
    d.mkdir(parents = True, exist_ok = True)
    (d / f'{pid}.json').write_text(json.dumps([o.as_dict() for o in obs], indent = 1, default = str))
    out, size = [], 0
    for o in sorted(obs, key = lambda o: o.status == 'proved'):
        x = o.as_dict()
        x['function'] = x['function'][:120]; x.pop('counterexample', None)
        size += len(json.dumps(x, default = str)) + 40
        if size > 24000: out.append(f'... {len(obs) - len(out)} more in evidence/obligations/{pid}.json'); break
        out.append(x)
    return out

def same(data): return json.loads(json.dumps(data))


def main(pid):
    import importlib
    sys.path.insert(0, str(VERIF))
    tier, seed = os.environ.get('VERIF_TIER', 'quick'), int(os.environ.get('VERIF_SEED', '1') or 1)
    ctx = Ctx(pid, tier, seed)
    mod = importlib.import_module(f'props.{pid.lower()}')
    lv = json.loads((VERIF / 'tools' / 'levels.json').read_text()); mod.LEVEL = {**lv['default'], **lv.get(pid, {})}['level']
    evaluations, distinct, samples, violations = 0, set(), [], []
    known = [k for k in load_known() if k.get('property') == pid and k.get('status') != 'fixed']
    known_hit = set()

    def report(kind, name, data, msg):
        for i, k in enumerate(known):
            if k.get('case') == name and k.get('data') == same(data): known_hit.add(i); return
        violations.append((kind, name, data, msg))

    # 1. proof obligations over /repo's current source, in their own process (the code is instrumented there)
    proof = start_proof(pid, ctx)

    # 2. run-time contracts on the real code (bounded; the CPython cross-check of the verifier and stand-in for undecided obligations)
    t1 = time.time()
    limit = ctx.budget(getattr(mod, 'QUICK_S', 45), getattr(mod, 'THOROUGH_S', 420))
    nontrivial = getattr(mod, 'nontrivial', lambda name, data: True)
    if hasattr(mod, 'generate') and not os.environ.get('VERIF_NO_SEARCH'):
        for name, data in mod.generate(ctx):
            evaluations += 1
            h = hashlib.md5(json.dumps([name, data], sort_keys=True, default=str).encode()).digest()
            if h not in distinct and nontrivial(name, data):
                distinct.add(h)
                if len(samples) < 3: samples.append([name, data] if len(json.dumps(data, default=str)) < 3000 else [name, 'too long to list'])
            msg = run_case(mod, name, data)
            if msg is not None:
                report('runtime', name, data, msg)
                if len(violations) >= 5: break
            if time.time() - t1 > limit: ctx.notes.append(f'run-time search stopped at its {limit} s budget'); break
    t_rt = time.time() - t1
    finish_proof(pid, ctx, proof)
    t_proof = time.time() - ctx.t0

    # 3. counterexamples of refuted obligations, replayed on the real code
    for o in ctx.obligations:
        if o.status == 'refuted' and o.counterexample:
            for cand in (o.counterexample if isinstance(o.counterexample, list) else [o.counterexample]):
                if isinstance(cand, dict) and cand.get('case') in mod.CASES:
                    evaluations += 1
                    msg = run_case(mod, cand['case'], cand['data'])
                    if msg is not None: report('replayed', cand['case'], cand['data'], f'{o.name}: {msg}'); o.detail += ' [replayed on the real code]'; break


    proved = [o for o in ctx.obligations if o.status == 'proved' and not o.bounded]
    boundedp = [o for o in ctx.obligations if o.status == 'proved' and o.bounded]
    # An obligation the solver refutes (it holds on the unchanged tree, and the solver has a counter-model now) is reported as the violation;
    # timeouts, unknowns and code outside the verifier's reach never are: they are undecided, and only the run-time contracts speak for them.
    refuted = [o for o in ctx.obligations if o.status == 'refuted']
    undecided = [o for o in ctx.obligations if o.status == 'undecided']
    unreplayed = [o for o in refuted if '[replayed' not in o.detail]

    coverage = dict(
        obligations=len(ctx.obligations), discharged=len(proved),
        checker_cmd=f'bin/check {pid}', trusted_base=ctx.trusted,
        functions_under_contract=sorted(set(ctx.functions)),
        bounded_obligations=len(boundedp), undecided=len(undecided), refuted=len(refuted),
        obligation_groups=groups(ctx.obligations), obligation_list=trimmed(pid, ctx.obligations),
        backends={b: sum(1 for o in proved if o.backend == b) for b in sorted({o.backend for o in proved})},
        solver_seconds=round(sum(o.seconds for o in ctx.obligations), 2), proof_wall_s=round(t_proof, 2), runtime_wall_s=round(t_rt, 2),
        evaluations=evaluations, distinct_nontrivial=len(distinct), rule=getattr(mod, 'RULE', ''), samples=samples, notes=ctx.notes,
        cases_without_verdict=len(HARNESS_ERRORS))
    if mod.LEVEL == 'other':
        coverage['explanation'] = getattr(mod, 'EXPLANATION', 'Deductive verification of the listed functions, with bounded run-time contracts for what is undecided.')

    paths = []
    for kind, name, data, msg in violations:
        f = write_replay(pid, name, dict(property=pid, kind=kind, case=name, data=data, message=msg,
                                         how=f'bin/replay <this file> re-runs case {name!r} of props/{pid.lower()}.py on the code in {REPO}'))
        paths.append((f, ''))
        print(f'{pid}: {msg}'[:1500])
    if not violations and unreplayed:
        o = sorted(unreplayed, key = lambda o: not o.exact)[0]
        f = write_replay(pid, 'obligation', dict(property=pid, kind='obligation', failed_obligation=o.name, function=o.function,
                                                 verifier_output=o.detail, all_refuted=[x.as_dict() for x in unreplayed]))
        paths.append((f, ' no-failing-input-found'))
        print(f'{pid}: obligation {o.name} of {o.function} is refuted: {o.detail}'[:1500])
    for i, k in enumerate(known):
        msg = run_case(mod, k['case'], k['data'])
        if msg is not None: print(f"KNOWN-FINDING: property={pid} {k['what']}")

    ev = dict(property=pid, tier=tier if tier in ('quick', 'thorough') else 'quick', seed=seed, level=mod.LEVEL, coverage=coverage,
              assumptions=ctx.assumptions, wall_s=round(time.time() - ctx.t0, 2), violations=len(paths))
    (VERIF / 'evidence').mkdir(exist_ok=True)
    (VERIF / 'evidence' / f'{pid}.json').write_text(json.dumps(ev, indent=1, default=str))
    print(f'{pid}: {len(ctx.obligations)} obligations, {len(proved)} proved, {len(boundedp)} bounded, {len(undecided)} undecided, {len(refuted)} refuted; '
          f'{evaluations} run-time contract evaluations ({len(distinct)} distinct); {time.time() - ctx.t0:.1f} s')
    for o in undecided + refuted: print(f'   {o.status}: {o.name} [{o.function}] {o.detail[:300]}')
    for h in HARNESS_ERRORS[:2]: print('   harness error:', h)
    for f, suffix in paths: print(f'VIOLATION property={pid} replay={f}{suffix}')
    return 1 if paths else 0
