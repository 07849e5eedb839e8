import numpy as np
from vf.core import expect
from vf import kern as K, numk as N
LEVEL = 'other'
RULE = 'linear, periodic, sigmoid and change kernels x parameters in every regime x weights x one or two input sets; non-trivial: more than one distinct input'

def _gradient(data):
    spec, x, x2, seed = data
    k = N.make(spec)
    X = np.array(x, float)[:, None]
    X2 = None if x2 is None else np.array(x2, float)[:, None]
    rng = np.random.default_rng(seed)
    W = rng.normal(size = (len(x), len(x) if x2 is None else len(x2)))
    if x2 is None: W = W + W.T # the weights of a likelihood are symmetric on one input set
    k.update_gradients_full(W, X, X2)
    names = [str(n) for n in k.parameter_names_flat()]
    got = np.array(k.gradient, float).ravel()
    p = np.array(k.param_array, float)
    expect(got.shape == p.shape, '{}: {} gradients for {} parameters', spec, got.shape, p.shape)
    own = set()
    if spec['kind'] in ('CP', 'CW'): own = {i for i, n in enumerate(names) if n.count('.') == 1} # the change parameters themselves (documented simplification)
    own |= {i for i, n in enumerate(names) if n.split('.')[-1] in ('location', 'slope', 'width') and 'change' in n}
    for i, n in enumerate(names):
        if i in own: continue
        if n.endswith('lengthscale') and p[i] > 9e3: continue # documented approximation of the limit regime
        def f(v, i = i):
            q = p.copy(); q[i] = v; k[:] = q
            return float((W * np.array(k.K(X, X2))).sum())
        best = None
        scale = float(np.sum(np.abs(W)) * (1 + np.max(np.abs(np.array(k.K(X, X2)))))) 
        for h in (1e-3, 1e-4, 1e-5):
            h *= max(1., abs(p[i]))
            fd = (8 * (f(p[i] + h) - f(p[i] - h)) - (f(p[i] + 2 * h) - f(p[i] - 2 * h))) / (12 * h)
            err = abs(fd - got[i])
            if best is None or err < best[0]: best = (err, fd)
        k[:] = p
        tol = 2e-4 * (abs(got[i]) + abs(best[1])) + 3e-5 * scale / max(1., abs(p[i]))
        expect(best[0] <= tol, '{}: the gradient of {} is {} but the derivative is {} (inputs {}, {}, weights seed {})', spec, n, got[i], best[1], x, x2, seed)

CASES = {'gradient': _gradient}
def nontrivial(name, data): return len(set(data[1])) > 1

def generate(ctx):
    r = ctx.rng
    def pts(n): return [r.uniform(-4, 4) for _ in range(n)]
    own = ['LIN', 'LIN0', 'PER', 'S', 'Sr', 'SI', 'SIr']
    def one(k):
        s = N.rand_of(r, k, 2, True)
        if k == 'PER' and r.random() < .3: s['params']['lengthscale'] = r.choice([.3, .45, .5, .55, 3., 50., 2e4])
        if s['params'].get('slope', 1) < .1: s['params']['slope'] = 10 ** r.uniform(-1, 1) # the differences are not accurate for steep changes
        if s['kind'] == 'PER' and 100 < s['params']['lengthscale'] < 9.9e3: s['params']['lengthscale'] = r.uniform(.1, 50) # cancellation dominates differences there
        return s
    def fix(s):
        if s['kind'] == 'PER' and s['params']['lengthscale'] > 50: s['params']['lengthscale'] = r.uniform(.2, 3)
        for b in s.get('branches', []): fix(b)
        return s
    for i in range(12):
        for k in own: yield 'gradient', [one(k), pts(4), [None, pts(4), pts(3)][i % 3], i]
        for k in ('CP', 'CW'): yield 'gradient', [fix(N.rand_of(r, k, 2)), pts(4), [None, pts(3)][i % 2], i]
    while True: yield 'gradient', [one(r.choice(own)) if r.random() < .7 else fix(N.rand_of(r, r.choice(['CP', 'CW']), r.choice([2, 3]))), pts(r.randint(1, 5)), r.choice([None, pts(r.randint(1, 5))]), r.randrange(10 ** 6)]
