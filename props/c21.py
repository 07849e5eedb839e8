import numpy as np
from vf.core import expect
from vf import kern as K, numk as N
LEVEL = 'other'
RULE = 'period x lengthscale in every regime (and at the boundaries) x inputs; non-trivial: more than one distinct input'

def _periodic(data):
    p, x = data
    k = N.make({'kind': 'PER', 'params': p})
    v, per = p['variance'], p['period']
    x = np.array(x, float); X = x[:, None]
    A = np.array(k.K(X, X.copy()))
    Kf = lambda a, b: float(np.array(k.K(np.array([[a]]), np.array([[b]])))[0, 0])
    tol = 2e-6 * v
    # beyond l of about 100 the two numbers subtracted agree to within 1/l^2, and so does the attainable accuracy
    if 30 < p['lengthscale'] <= 1e4: tol += v * 4e-16 * p['lengthscale'] ** 2 * 4
    sh = 1.234
    expect(np.allclose(np.array(k.K(X + sh, X + sh)), A, atol = 50 * tol), '{}: not a function of the distance at {}', p, x)
    expect(np.allclose(A, A.T, atol = 1e-12 + tol), '{}: depends on the sign of the distance at {}', p, x)
    for n in (1, -1, 3): expect(np.allclose(np.array(k.K(X + n * per, X)), A, atol = 50 * tol), '{}: does not repeat with its period at {}', p, x)
    expect(np.allclose(np.diag(A), v, atol = tol), '{}: diagonal {} is not the variance', p, np.diag(A))
    expect(np.allclose(np.array(k.Kdiag(X)), v), '{}: Kdiag is not the variance', p)
    expect(np.max(np.abs(A)) <= v + tol, '{}: exceeds its variance at {}', p, x)
    k2 = N.make({'kind': 'PER', 'params': {**p, 'variance': 2 * v}})
    expect(np.allclose(np.array(k2.K(X, X.copy())), 2 * A, atol = 4 * tol), '{}: not linear in the variance', p)
    g = np.arange(4000) * per / 4000
    mean = np.array(k.K(g[:, None], np.array([[0.3]]))).mean()
    expect(abs(mean) <= tol, '{}: averages to {} over a period', p, mean)
    expect(np.allclose(A, v * K.per_shape(x[:, None] - x[None, :], per, p['lengthscale']), atol = 5 * tol), '{}: not the documented covariance at {}', p, x)

CASES = {'periodic': _periodic}
def nontrivial(name, data): return len(set(data[1])) > 1

def generate(ctx):
    r = ctx.rng
    edge = 3.75 ** -.5
    ls = [edge, edge * (1 - 1e-9), edge * (1 + 1e-9), 1e4, 1e4 * (1 + 1e-9), 9.9e3, .02, .05, .1, .3, .7, 1., 3., 10., 30., 100., 1e3, 5e4, 1e6]
    def pts(): return [r.uniform(-5, 5) for _ in range(4)]
    for l in ls:
        for per in (.5, 2 * np.pi, 3.): yield 'periodic', [{'variance': r.uniform(.2, 3), 'period': per, 'lengthscale': l}, pts()]
    while True: yield 'periodic', [N.rand_params(r, 'PER', True), pts()]
