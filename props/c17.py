import math
import numpy as np
from vf.core import expect
from vf.trees import *
from vf.search import FakeGPy
LEVEL = 'other'
RULE = 'log-likelihoods x n x k (n != k + 1) x sequences of scorings; non-trivial: at least one scoring'

def _score(data):
    ll, n, k = data
    from GPy_ABCD.Util.modelUtil import BIC, AIC, AICc
    want = {'BIC': -2 * ll + k * math.log(n), 'AIC': 2 * (k - ll), 'AICc': 2 * (k - ll) + 2 * k * (k + 1) / (n - k - 1)}
    for f in (BIC, AIC, AICc):
        got = f(object(), ll, n, k)
        expect(abs(got - want[f.__name__]) <= 1e-9 * (1 + abs(ll) + k * k + abs(want[f.__name__])), '{}(L = {}, n = {}, k = {}) is {}, not {}', f.__name__, ll, n, k, got, want[f.__name__])

def _cache(data):
    from GPy_ABCD.Models.model import GPModel
    from GPy_ABCD.Util.modelUtil import BIC, AIC, AICc
    n, seq = data
    X = (np.arange(n, dtype = float) // (1 if n % 2 else 3))[:, None] # inputs may repeat
    m = GPModel(X, X, build_root('LIN'))
    for i, (which, ll, k) in enumerate(seq):
        m.model = FakeGPy(X, ll, k)
        calls = []
        def weird(*a): calls.append(a); return ('value', i)
        def other(model, l, nn, kk): calls.append((model, l, nn, kk)); return l - nn * kk
        f = {'BIC': BIC, 'AIC': AIC, 'AICc': AICc, 'weird': weird, 'other': other}[which]
        got = m.compute_utility(f)
        want = ('value', i) if which == 'weird' else f(m.model, ll, n, k)
        expect(got == want, 'scoring number {} with {} gives {} instead of {}', i + 1, which, got, want)
        expect(m.cached_utility_function == want and m.cached_utility_function_type == which, 'after scoring with {} the model holds {} of {}', which, m.cached_utility_function, m.cached_utility_function_type)
        if calls: expect(calls[0][0] is m.model and tuple(calls[0][1:]) == (ll, n, k), 'the score function was given {}', calls[0])

def _real(data):
    from GPy.models import GPRegression
    from vf import kern as K
    import random
    spec, seed, n = data
    from GPy_ABCD.Util.modelUtil import BIC
    m = K.model_for(build_normal_root(spec), random.Random(seed), n)
    calls = []
    def rec(*a): calls.append(a); return BIC(*a)
    got = m.compute_utility(rec)
    mod, ll, nn, k = calls[0]
    expect(mod is m.model and nn == n and abs(ll - float(m.model.log_likelihood())) < 1e-9, 'the score function was given {}', calls[0][1:])
    expect(k == len(m.model.optimizer_array), 'the score function was given {} free parameters, the model has {}', k, len(m.model.optimizer_array))
    fixed = m.model.kern.flattened_parameters[0] if hasattr(m.model.kern, 'flattened_parameters') else None
    if fixed is not None:
        fixed.constrain_fixed(warning = False)
        calls.clear(); m.compute_utility(rec)
        expect(calls[0][3] == k - 1, 'with one parameter fixed the score function is given {} free parameters instead of {}', calls[0][3], k - 1)

CASES = {'score': _score, 'cache': _cache, 'real': _real}

def generate(ctx):
    r = ctx.rng
    for i in range(25): yield 'real', [rand_tree(r, 2), i, r.randint(3, 9)]
    while True:
        k = r.randint(1, 30)
        if r.random() < .2: # fewer points than parameters, or nearly
            n = r.randint(1, k + 3)
            if n != k + 1: yield 'score', [r.uniform(-1e3, 1e3), n, k]
        yield 'score', [r.choice([r.uniform(-1e3, 1e3), float(r.randint(-5, 5)), 0.0]), k + 2 + r.choice([0, r.randint(0, 5), r.randint(0, 1000)]), k]
        yield 'cache', [r.randint(40, 60), [[r.choice(['BIC', 'AIC', 'AICc', 'weird', 'other']), r.uniform(-50, 50), r.randint(1, 20)] for _ in range(r.randint(1, 4))]]
