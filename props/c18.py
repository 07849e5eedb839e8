import numpy as np
from vf.core import expect
from vf import kern as K, numk as N
LEVEL = 'other'
RULE = 'every kernel kind x random parameters in every numerical regime x random input sets (with repeated points); non-trivial: more than one distinct input'

def _valid(data):
    spec, x, x2 = data
    k = N.make(spec)
    X, X2 = np.array(x, float)[:, None], np.array(x2, float)[:, None]
    A = np.array(k.K(X))
    n = len(x)
    expect(A.shape == (n, n) and np.all(np.isfinite(A)), '{}: K has shape {} / non-finite entries for inputs {}', spec, A.shape, x)
    s = np.max(np.abs(A), initial = 1e-300)
    expect(np.max(np.abs(A - A.T)) <= 1e-9 * s, '{}: K is not symmetric on {}', spec, x)
    ev = np.linalg.eigvalsh((A + A.T) / 2)
    expect(ev.min() >= -2e-6 * s * n, '{}: K has the negative eigenvalue {} on {}', spec, ev.min(), x)
    if not N.has(spec, 'WN'):
        for Z in (X, X.copy()): expect(np.max(np.abs(np.array(k.K(X, Z)) - A)) <= 1e-9 * s, '{}: K(X, X) differs from K(X) on {}', spec, x)
    C1, C2 = np.array(k.K(X, X2)), np.array(k.K(X2, X))
    expect(C1.shape == (n, len(x2)) and np.max(np.abs(C1 - C2.T)) <= 1e-9 * (s + np.max(np.abs(C1))), '{}: K(X, X2) is not the transpose of K(X2, X) on {}, {}', spec, x, x2)
    d = np.array(k.Kdiag(X)).ravel()
    expect(d.shape == (n,) and np.max(np.abs(d - np.diag(A))) <= 1e-7 * s, '{}: Kdiag {} is not the diagonal {} on {}', spec, d.tolist(), np.diag(A).tolist(), x)
    scale = max(s, np.max(np.abs(np.array(k.Kdiag(X2)))))
    expect(K.close(A, N.cov(spec, X[:, 0], X[:, 0], True), scale = scale), '{}: K is not the documented covariance on {}', spec, x)
    expect(K.close(C1, N.cov(spec, X[:, 0], X2[:, 0], False), scale = scale), '{}: K(X, X2) is not the documented covariance on {}, {}', spec, x, x2)

CASES = {'valid': _valid}
def nontrivial(name, data): return len(set(data[1])) > 1

def points(r, n):
    xs = [r.choice([r.uniform(-5, 5), float(r.randint(-3, 3))]) for _ in range(n)]
    if n > 2 and r.random() < .3: xs[1] = xs[0]
    return xs

def generate(ctx):
    r = ctx.rng
    for k in N.LEAVES + ['CP', 'CW']:
        for _ in range(8): yield 'valid', [N.rand_of(r, k, 2, True), points(r, 5), points(r, 3)]
    while True: yield 'valid', [N.rand_kernel(r, depth = r.choice([2, 2, 3]), extreme = True), points(r, r.randint(1, 6)), points(r, r.randint(1, 4))]
