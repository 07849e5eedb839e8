'''A proof process: instruments /repo's current source, runs proofs/<pid>.py over it, writes the obligations as JSON.

python vc/session.py <pid> <out.json>'''
import sys, os, json, time, pathlib, importlib, traceback
VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = os.environ.get('VERIF_REPO', '/repo')

def start():
    sys.path.insert(0, str(VERIF))
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
    sys.setrecursionlimit(20000)
    from vc import engine, instr
    finder = instr.Finder(REPO, engine.vc, engine.BUILTINS)
    sys.meta_path.insert(0, finder)
    return engine, finder

def main(pid, out):
    t0 = time.time()
    engine, finder = start()
    E = engine.E
    res = dict(obligations = [], assumptions = [], trusted = [], functions = [], notes = [], error = None)
    def save():
        obl = []
        for n in E.order:
            r = dict(E.results[n]); obl.append(r)
        res.update(obligations = obl, solver_seconds = E.solver_s, wall_s = time.time() - t0, instrumented = finder.loaded)
        tmp = out + '.tmp'
        pathlib.Path(tmp).write_text(json.dumps(res, default = str)); os.replace(tmp, out)
    res['save'] = None
    try:
        mod = importlib.import_module(f'proofs.{pid.lower()}')
        P = Proof(E, res, save)
        mod.prove(P)
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt,)): raise
        res['error'] = ''.join(traceback.format_exception(e))[-3000:]
    res.pop('save', None)
    save()
    sys.stdout.flush()
    os._exit(0)

class Proof:
    '''What a proof module works with.'''
    def __init__(self, E, res, save): self.E, self.res, self.save = E, res, save
    def assume_note(self, *s): self.res['assumptions'] += [x for x in s if x not in self.res['assumptions']]
    def trust(self, *s): self.res['trusted'] += [x for x in s if x not in self.res['trusted']]
    def under_contract(self, *s): self.res['functions'] += [x for x in s if x not in self.res['functions']]
    def note(self, *s): self.res['notes'] += list(s)
    def explore(self, name, f, function, **k):
        self.under_contract(*[x.strip() for x in function.split(',')])
        try: self.E.explore(name, f, function, **k)
        except Exception as e:
            self.E.active = False
            self.E.current = dict(name = name, function = function, exact = False)
            for r in self.E.results.values():
                if r['name'].startswith(name) and r['status'] == 'proved': r['status'], r['detail'] = 'undecided', 'proof harness error'
            self.E.record(name + ' (harness)', 'undecided', 'proof harness error: ' + ''.join(traceback.format_exception(e))[-900:])
        self.save()
    def parallel(self, jobs, workers = 6):
        '''explore() for independent jobs (name, f, function, keywords), in forked processes.'''
        import pickle, tempfile, select
        E = self.E
        todo, running = list(enumerate(jobs)), {}
        out = {}
        d = tempfile.mkdtemp(prefix = 'vc-')
        while todo or running:
            while todo and len(running) < workers:
                i, (name, f, function, kw) = todo.pop(0)
                pid = os.fork()
                if pid == 0:
                    try:
                        E.results, E.order, E.solver_s = {}, [], 0.0
                        self.save = lambda: None
                        self.explore(name, f, function, **kw)
                        keep = [{k: (v if k in ('name', 'function', 'status', 'detail', 'seconds', 'paths', 'models', 'exact', 'backend', 'explored', 'bounded') else None) for k, v in E.results[n].items()} for n in E.order]
                        with open(f'{d}/{i}.tmp', 'wb') as h: pickle.dump((keep, E.solver_s), h)
                        os.replace(f'{d}/{i}.tmp', f'{d}/{i}')
                    except BaseException: pass
                    os._exit(0)
                running[pid] = i
            pid, _ = os.wait()
            i = running.pop(pid, None)
            if i is None: continue
            try:
                with open(f'{d}/{i}', 'rb') as h: out[i] = pickle.load(h)
                os.unlink(f'{d}/{i}')
            except OSError: out[i] = None
        os.rmdir(d)
        for i, (name, f, function, kw) in enumerate(jobs):
            self.under_contract(*[x.strip() for x in function.split(',')])
            if out.get(i) is None:
                E.current = dict(name = name, function = function, exact = False)
                E.record(name, 'undecided', 'the proof process ended')
                continue
            for r in out[i][0]:
                E.results[r['name']] = r; E.order.append(r['name'])
            E.solver_s += out[i][1]
        self.save()
    def lemma(self, name, status, function, backend, seconds, detail = '', models = (), exact = False):
        '''An obligation discharged outside the path explorer (algebra).'''
        self.under_contract(*[x.strip() for x in function.split(',')])
        E = self.E
        E.current = dict(name = name, function = function, exact = exact)
        E.touched = set()
        r = E.record(name, status, detail, seconds, backend = backend)
        r['models'] += list(models)
        self.save()

if __name__ == '__main__':
    if not os.environ.get('VC_SHOW'): sys.stdout = open(os.devnull, 'w')
    main(sys.argv[1], sys.argv[2])
