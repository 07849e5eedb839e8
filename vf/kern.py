'''Reference covariances (independent numpy formulas), the structure of real kernel objects, and fitted-model stand-ins.'''
import math
import numpy as np
from vf.core import Violated, expect
from vf import trees as T

LEAF = {'White': 'WN', 'Bias': 'C', 'LinearWithOffset': 'LIN', 'Linear': 'LIN', 'RBF': 'SE', 'PureStdPeriodicKernel': 'PER'}

def sig(a): return (1 + a / (1 + np.abs(a))) / 2

def sigmoid_phi(kind, p, x, slope):
    l, s = float(p['location']), float(p.get('slope', slope))
    if kind in ('S', 'Sr'): v = sig((x - l) / s)
    else:
        w = float(p['width'])
        h = (w / (2 * s)) / (1 + w / (2 * s))
        v = (sig((x - l) / s) - sig((x - l - w) / s)) / h
    return 1 - v if kind in ('Sr', 'SIr') else v

def per_shape(d, period, l):
    '''Unit-variance purely periodic covariance, computed stably in every regime'''
    from scipy.special import ive
    c, u = np.cos(2 * np.pi * d / period), 1 / l ** 2
    if u < 1e-3: # exp(cu) - I0(u) over exp(u) - I0(u), by series
        return (np.expm1(c * u) - (u ** 2 / 4 + u ** 4 / 64)) / (np.expm1(u) - (u ** 2 / 4 + u ** 4 / 64))
    return (np.exp((c - 1) * u) - ive(0, u)) / (1 - ive(0, u))

def base_cov(b, p, x1, x2, same, slope = 0.5):
    '''Covariance of one base kernel or sigmoid factor; p without variance means variance 1'''
    v = float(p.get('variance', 1.))
    n, m = len(x1), len(x2)
    X, Z = x1.reshape(n, 1), x2.reshape(1, m)
    if b == 'WN': return v * np.eye(n) if same else np.zeros((n, m))
    if b == 'C': return v * np.ones((n, m))
    if b == 'LIN':
        o = float(p.get('offset', 0.)); return v * (X - o) * (Z - o)
    if b == 'SE': return v * np.exp(-0.5 * (X - Z) ** 2 / float(p['lengthscale']) ** 2)
    if b == 'PER': return v * per_shape(X - Z, float(p['period']), float(p['lengthscale']))
    if b in ('S', 'Sr', 'SI', 'SIr'): return v * sigmoid_phi(b, p, x1, slope).reshape(n, 1) * sigmoid_phi(b, p, x2, slope).reshape(1, m)
    raise Violated(f'unknown factor {b!r}')

CHANGE_SIGMOIDS = {'CP': ('Sr', 'S'), 'CW': ('SIr', 'SI')}
def change_cov(c, p, left, right, x1, x2, slope):
    a, b = CHANGE_SIGMOIDS[c]
    return base_cov(a, p, x1, x2, False, slope) * left + base_cov(b, p, x1, x2, False, slope) * right

def fixed_slope():
    from GPy_ABCD.Kernels import baseKernels as B
    return float(np.asarray(B.CP(B.C(), B.C()).slope).ravel()[0])


## Structure of real kernel objects

def is_kern(p):
    from GPy.kern.src.kern import Kern
    return isinstance(p, Kern)

def kparts(k): return [p for p in k.parts if is_kern(p)]
def kname(k): return type(k).__name__
def kkind(k):
    n = kname(k)
    if n in LEAF: return LEAF[n]
    if n == 'Add': return 'sum'
    if n == 'Prod': return 'mul'
    if n.startswith('ChangePoint'): return 'CP'
    if n.startswith('ChangeWindow'): return 'CW'
    raise Violated(f'unexpected kernel object {n}')

def kspec(k):
    kind = kkind(k)
    if kind in T.BASES: return kind
    ps = [kspec(p) for p in kparts(k)]
    return [kind] + ps if kind in T.CHANGES else [kind, ps]

def flatspec(s):
    '''Associativity and singletons of sums/products only (no other identity)'''
    if isinstance(s, str): return s
    if s[0] in T.CHANGES: return [s[0], flatspec(s[1]), flatspec(s[2])]
    items = []
    for x in s[1]:
        f = flatspec(x)
        items += f[1] if not isinstance(f, str) and f[0] == s[0] else [f]
    return items[0] if len(items) == 1 else [s[0], items]

def own_params(k): return {p.name: float(np.asarray(p).ravel()[0]) for p in k.parameters if not is_kern(p)}
def leaf_params(k):
    kind = kkind(k)
    names = {'WN': ['variance'], 'C': ['variance'], 'LIN': ['variance', 'offset'], 'SE': ['variance', 'lengthscale'], 'PER': ['variance', 'period', 'lengthscale']}[kind]
    return {n: float(np.asarray(getattr(k, n)).ravel()[0]) for n in names if hasattr(k, n)}

def kcov(k, x1, x2, same):
    '''Covariance denoted by the structure and the linked parameters of a kernel object'''
    kind = kkind(k)
    if kind in T.BASES: return base_cov(kind, leaf_params(k), x1, x2, same)
    ps = [kcov(p, x1, x2, same) for p in kparts(k)]
    if kind == 'sum': return sum(ps)
    if kind == 'mul': return np.prod(ps, axis = 0)
    o = own_params(k)
    return change_cov(kind, o, ps[0], ps[1], x1, x2, o.get('slope', float(np.asarray(k.slope).ravel()[0])))

def kleaves(k): return [k] if kkind(k) in T.BASES else [l for p in kparts(k) for l in kleaves(p)]

def close(a, b, tol = 2e-6, scale = 0.): # scale: the size of the numbers subtracted on the way to b
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.isfinite(a))) and bool(np.all(np.abs(a - b) <= tol * (1e-3 + scale + np.max(np.abs(b), initial = 0.) + np.abs(b))))


## Fitted-model stand-ins: the real kernel of an expression in a real regression model, with chosen parameter values

TIES = {'location': [0., 0., 1., -1., 2.5], 'offset': [0., 0., 1., -2.], 'variance': [1., 1., .5], 'period': [1., 2., 2.], 'lengthscale': [.5, 1., 1., 2.], 'width': [1., 1., 2., .25], 'slope': [.5, .5, 1.]}
def param_values(kern, rng, ties = False):
    '''Well-scaled values for every free parameter of a kernel, by the name of the parameter; distinct ones, or (ties) special and coinciding ones, or (ties 'near') ones a little apart'''
    if ties == 'near': return np.array([rng.choice(TIES.get(str(n).split('.')[-1], [.5, 1.])) + rng.choice([0., .02, .03, .005]) for n in kern.parameter_names_flat()])
    if ties: return np.array([rng.choice(TIES.get(str(n).split('.')[-1], [.5, 1.])) for n in kern.parameter_names_flat()])
    vals = []
    for i, n in enumerate(kern.parameter_names_flat()):
        last = str(n).split('.')[-1]
        if last in ('location', 'offset'): v = rng.uniform(-3, 3)
        elif last == 'variance': v = rng.uniform(0.5, 2.5)
        elif last == 'period': v = rng.uniform(0.7, 4)
        elif last == 'lengthscale': v = rng.uniform(0.4, 2.5)
        else: v = rng.uniform(0.3, 3)
        vals.append(v)
    return np.array(vals)

def model_for(kex, rng, n = 7, ties = False):
    '''A GPModel as it is after fitting: its GPy model built from the expression, with random parameter values (no optimisation needed)'''
    from GPy_ABCD.Models.model import GPModel
    from GPy.models import GPRegression
    X = np.array(sorted(rng.uniform(-4, 4) for _ in range(n)))[:, None]
    Y = np.sin(X)
    m = GPModel(X, Y, kex)
    m.restarts = 1
    m.model = GPRegression(X, Y, kex.to_kernel())
    kern = m.model.kern
    kern[:] = param_values(kern, rng, ties)
    return m

def refit(m, rng, ties = False):
    '''The model fitted (again) by its own fit, the optimisation replaced by random parameter values'''
    from GPy.models import GPRegression
    orig = GPRegression.optimize_restarts
    def optimize_restarts(gp, *a, **k): gp.kern[:] = param_values(gp.kern, rng, ties)
    try:
        GPRegression.optimize_restarts = optimize_restarts
        m.fit(1)
    finally: GPRegression.optimize_restarts = orig
    return m

def node_cov(k, x1, x2, same, slope, used = None):
    '''Covariance of a real expression from the parameters absorbed in its nodes; collects the used values'''
    SumKE, ProductKE, ChangeKE = T.kexs()
    used = used if used is not None else []
    def take(p): used.extend(float(v) for v in p.values()); return p
    ps = k.parameters
    if isinstance(k, ChangeKE):
        expect(len(ps[k.CP_or_CW]) == 1, '{} holds {} parameter sets for its change operator', k, len(ps[k.CP_or_CW]))
        own, sides = take(ps[k.CP_or_CW][0]), []
        for side in ('left', 'right'):
            b = getattr(k, side)
            if isinstance(b, str):
                expect((side, b) in ps and len(ps[(side, b)]) == 1, '{}: no single parameter set for its {} branch: {}', k, side, dict(ps))
                sides.append(base_cov(b, take(ps[(side, b)][0]), x1, x2, same))
            else: sides.append(node_cov(b, x1, x2, same, slope, used))
        return change_cov(k.CP_or_CW, own, sides[0], sides[1], x1, x2, slope)
    terms = []
    for b, n in k.base_terms.items():
        expect(len(ps.get(b, [])) == n, '{} has {} {} terms but {} parameter sets for them', k, n, b, len(ps.get(b, [])))
        for p in ps.get(b, []): terms.append(base_cov(b, take(p), x1, x2, same))
    if isinstance(k, ProductKE):
        for p in ps.get('ProductKE', []): terms.append(float(take(p)['variance']))
    terms += [node_cov(c, x1, x2, same, slope, used) for c in k.composite_terms]
    if isinstance(k, SumKE): return sum(terms)
    out = np.ones((len(x1), len(x2)))
    for t in terms: out = out * t
    return out

def component_cov(ps, x, slope):
    out = np.ones((len(x), len(x)))
    for b, l in ps.items():
        for p in l: out = out * (float(p['variance']) if b == 'ProductKE' else base_cov(b, p, x, x, True, slope))
    return out
