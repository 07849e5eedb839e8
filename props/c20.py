import pickle
from copy import deepcopy
import numpy as np
from vf.core import expect
from vf import kern as K, numk as N
LEVEL = 'other'
RULE = 'sigmoids and change kernels (nested, with fixed or free slope) x parameters x histories of parameter changes, copies and pickles; non-trivial: a history with at least one change'

def phi(k, x): return np.array(k.phi(np.array(x, float)[:, None])).ravel()

def _shape(data):
    spec, x = data
    k, p = N.make(spec), spec['params']
    l, s, w = p['location'], p['slope'], p.get('width')
    gap = 1e-6 * max(1., s)
    rev = {**spec, 'kind': {'S': 'Sr', 'Sr': 'S', 'SI': 'SIr', 'SIr': 'SI'}[spec['kind']]}
    v, o = phi(k, x), phi(N.make(rev), x)
    expect(np.allclose(v + o, 1, atol = 1e-9), '{}: reversed is not one minus plain at {}', spec, x)
    asc, x = (v if spec['kind'] in ('S', 'SI') else o), np.array(x, float)
    if w is None:
        expect(np.all((asc > 0) & (asc < 1)), '{}: values {} outside (0, 1) at {}', spec, asc, x)
        i = np.argsort(x); d = np.diff(asc[i])
        expect(np.all(d[np.diff(x[i]) > gap] > 0), '{}: not increasing at {}', spec, x[i])
        expect(abs(phi(k, [l])[0] - .5) < 1e-9, '{}: {} at its location', spec, phi(k, [l])[0])
    else:
        mid = l + w / 2
        peak = phi(k, [mid])[0]
        expect(abs((peak if spec['kind'] == 'SI' else 1 - peak) - 1) < 1e-9, '{}: {} in the middle of its window', spec, peak)
        expect(np.all(asc <= 1 + 1e-9) and np.all(asc > -1e-12), '{}: hat values {} at {}', spec, asc, x)
        i = np.argsort(np.abs(x - mid)); d = np.diff(asc[i])
        expect(np.all(d[np.diff(np.abs(x - mid)[i]) > gap] < 1e-12), '{}: hat not decreasing away from its middle {}', spec, x)
        expect(np.allclose(phi(k, 2 * mid - x), v, atol = 1e-9), '{}: hat not symmetric', spec)

def _live(data):
    spec, x, x2, history = data
    k = N.make(spec)
    X, X2 = np.array(x, float)[:, None], np.array(x2, float)[:, None]
    def check(k, when):
        names = [str(n) for n in k.parameter_names_flat()]
        expect(K.close(k.K(X), K.kcov(k, X[:, 0], X[:, 0], True)), '{} {}: K(X) is not that of its current parameters {}', spec, when, dict(zip(names, k.param_array)))
        expect(K.close(k.K(X, X2), K.kcov(k, X[:, 0], X2[:, 0], False)), '{} {}: K(X, X2) is not that of its current parameters {}', spec, when, dict(zip(names, k.param_array)))
        expect(K.close(k.Kdiag(X), np.diag(K.kcov(k, X[:, 0], X[:, 0], True))), '{} {}: Kdiag is not that of its current parameters', spec, when)
    expect(K.close(k.K(X, X2), N.cov(spec, X[:, 0], X2[:, 0], False)), '{}: K is not the blend of its branches', spec)
    check(k, 'initially')
    for step, (what, i, v) in enumerate(history):
        when = f'after {history[:step + 1]}'
        if what == 'copy': k = k.copy()
        elif what == 'deepcopy': k = deepcopy(k)
        elif what == 'pickle': k = pickle.loads(pickle.dumps(k))
        elif what == 'wrap': k = k + N.make({'kind': 'SE', 'params': {'variance': v, 'lengthscale': 1.}})
        else:
            i = i % k.param_array.size
            if what == 'array':
                p = np.array(k.param_array); p[i] = v; k[:] = p
            else: # through the parameter object itself
                q = k.flattened_parameters[i] if hasattr(k, 'flattened_parameters') else None
                if q is None: continue
                q[0] = v
            expect(abs(k.param_array[i] - v) < 1e-9, '{} {}: parameter {} not set', spec, when, i)
        if step % 2 == 1 or step == len(history) - 1 or what not in ('array', 'param'): check(k, when)

CASES = {'shape': _shape, 'live': _live}
def nontrivial(name, data): return name == 'shape' or len(data[3]) > 0

def generate(ctx):
    r = ctx.rng
    def pts(n): return [r.uniform(-4, 4) for _ in range(n)]
    def live():
        s = N.rand_of(r, r.choice(['CP', 'CW']), r.choice([2, 2, 3]), r.random() < .4)
        h = [[r.choice(['array', 'array', 'param', 'param', 'copy', 'deepcopy', 'pickle', 'wrap']), r.randrange(50), r.uniform(.2, 3)] for _ in range(r.randint(1, 6))]
        return [s, pts(4), pts(3), h]
    def shape(k):
        s = N.rand_of(r, k, 2, True); p = s['params']
        return [s, r.choice([pts(8), [p['location'] + p['slope'] * r.uniform(-10, 10) for _ in range(6)] + [p['location'] + p.get('width', 1.) * r.uniform(-1, 2) for _ in range(4)]])]
    for k in ('S', 'Sr', 'SI', 'SIr'):
        for _ in range(15): yield 'shape', shape(k)
    while True:
        yield 'live', live()
        if r.random() < .3: yield 'shape', shape(r.choice(['S', 'Sr', 'SI', 'SIr']))
