import inspect, warnings
import numpy as np
from vf.core import expect
from vf.trees import *
LEVEL = 'other'
RULE = 'expression lists x failure histories (how many fits of each expression fail first) x retry limits, in sequence and in processes; non-trivial: at least one failure'

class Boom(Exception): pass

class patched_fit:
    '''GPModel.fit replaced by one which fails a given number of times per expression; records what it was asked for'''
    def __init__(self, fails): self.fails, self.log = list(fails), []
    def __enter__(self):
        from GPy_ABCD.Models.model import GPModel
        self.cls, self.orig = GPModel, GPModel.fit
        sig, outer, attempts = inspect.signature(GPModel.fit), self, {}
        def fit(m, *a, **k):
            b = sig.bind(m, *a, **k); b.apply_defaults()
            i = m.kernel_expression.tag
            attempts[i] = attempts.get(i, 0) + 1
            m.how = dict(restarts = b.arguments['restarts'], optimiser = b.arguments['optimiser'], attempt = attempts[i])
            outer.log.append(i)
            if attempts[i] <= outer.fails[i]: raise Boom(f'{i}:{attempts[i]}')
            m.fitted = True
            return m
        GPModel.fit = fit
        return self
    def __exit__(self, *a): self.cls.fit = self.orig

def _fit(data):
    specs, fails, retries, restarts, opt, parallel = data
    from GPy_ABCD.Models import modelSearch as M
    X = np.linspace(0, 1, 6)[:, None]; Y = X ** 2
    kexs = [build_root(s) for s in specs]
    for i, k in enumerate(kexs): k.tag = i
    f = M.fit_mods_parallel_processes if parallel else M.fit_mods_not_parallel
    bad = [i for i, n in enumerate(fails) if n > retries]
    res, err = None, None
    with patched_fit(fails) as p, warnings.catch_warnings(record = True) as ws:
        warnings.simplefilter('always')
        try: res = f(X, Y, kexs, restarts, opt, retries)
        except Boom as e: err = e
    if bad:
        expect(res is None, 'fits {} failing more than {} times, yet a list was returned', bad, retries)
        if not parallel: expect(str(err) == f'{bad[0]}:{retries + 1}', 'the error raised is {}, not the last one of expression {}', err, bad[0])
        else: expect(str(err) in {f'{i}:{retries + 1}' for i in bad}, 'the error raised is {}, not the last one of a failing fit', err)
    else:
        expect(err is None, 'fits failing {} times with {} retries raised {!r}', fails, retries, err)
        expect(isinstance(res, list) and len(res) == len(kexs), '{} models for {} expressions', len(res), len(kexs))
        for i, (m, s) in enumerate(zip(res, specs)):
            expect(m.kernel_expression.tag == i and getattr(m, 'fitted', False), 'model {} is not the fitted one of expression {}', i, i)
            expect(np.array_equal(m.X, X) and np.array_equal(m.Y, Y), 'model {} has other data', i)
            expect(m.how['restarts'] == restarts and m.how['optimiser'] == opt, 'model {} was fitted with {}', i, m.how)
            expect(m.how['attempt'] == fails[i] + 1, 'expression {} failing {} times was fitted {} times', i, fails[i], m.how['attempt'])
    if not parallel:
        upto = bad[0] if bad else len(kexs) - 1
        want = sum(min(fails[i], retries) for i in range(upto + 1))
        got = [w for w in ws if issubclass(w.category, UserWarning) and 'etry' in str(w.message)]
        expect(len(got) == want, '{} retry warnings instead of {} (failures {}, retries {})', len(got), want, fails, retries)
        for i in range(upto + 1): expect(p.log.count(i) == min(fails[i], retries) + 1, 'expression {} was attempted {} times', i, p.log.count(i))

def _real(data):
    specs, restarts, parallel = data
    from GPy_ABCD.Models import modelSearch as M
    from vf import kern as K
    X = np.linspace(-2, 2, 8)[:, None]; Y = np.sin(X)
    kexs = [build_root(s) for s in specs]
    f = M.fit_mods_parallel_processes if parallel else M.fit_mods_not_parallel
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        res = f(X, Y, kexs, restarts, 'scg', 1)
    expect(len(res) == len(kexs), '{} models for {} expressions', len(res), len(kexs))
    for m, k in zip(res, kexs):
        expect(m.kernel_expression == k, 'a model of {} where {} was given', m.kernel_expression, k)
        expect(m.model is not None and np.allclose(np.asarray(m.model.X), X) and np.allclose(np.asarray(m.model.Y), Y), 'the model of {} is not fitted to the given data', k)
        expect(canon(K.flatspec(K.kspec(m.model.kern))) == canon(K.flatspec(view(k))), 'the fitted kernel of {} is {}', k, K.kspec(m.model.kern))
        expect(m.restarts == restarts, 'the model of {} was fitted with {} restarts', k, m.restarts)
        runs = m.model.optimization_runs
        expect(len(runs) == restarts, 'the model of {} had {} optimisation runs', k, len(runs))
        expect(all(type(o).__name__ == 'opt_SCG' for o in runs), 'the model of {} was optimised by {}', k, [type(o).__name__ for o in runs])

CASES = {'fit': _fit, 'real': _real}
def nontrivial(name, data): return name == 'real' or any(data[1])

BS = ['WN', 'C', 'LIN', 'PER', ['mul', ['LIN', 'LIN']], ['sum', ['PER', 'C']], ['CP', 'LIN', 'PER']]
def generate(ctx):
    r = ctx.rng
    yield 'real', [['LIN', ['sum', ['LIN', 'PER']], 'C'], 2, False]
    yield 'real', [['C', ['CP', 'LIN', 'C'], 'LIN'], 3, True]
    yield 'fit', [[], [], 1, 2, 'lbfgsb', True]
    yield 'fit', [[], [], 1, 2, 'lbfgsb', False]
    def case(parallel):
        n = r.randint(1, 20 if parallel else 6)
        retries = r.randint(0, 3)
        fails = [r.choice([0, 0, 0, r.randint(0, retries), r.randint(0, retries + (2 if r.random() < .2 else 0))]) for _ in range(n)]
        return [[r.choice(BS) for _ in range(n)], fails, retries, r.randint(1, 9), r.choice(['lbfgsb', 'scg', 'simplex']), parallel]
    for _ in range(6): yield 'fit', case(True)
    i = 0
    while True:
        i += 1
        yield 'fit', case(i % 40 == 0)
