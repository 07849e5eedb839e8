'''The kernels in use, by name, with settable parameters; reference covariances for each.'''
import numpy as np
from vf import kern as K

def make(spec):
    '''spec: {'kind', 'params': {...}, 'fixed': bool, 'branches': [spec, spec]}'''
    from GPy_ABCD.Kernels import baseKernels as B, linearKernel, linearOffsetKernel, periodicKernel, sigmoidalKernels, changeOperators
    k, p = spec['kind'], spec.get('params', {})
    if k in ('S', 'Sr', 'SI', 'SIr'):
        cls = sigmoidalKernels.SigmoidalKernel if k in ('S', 'Sr') else sigmoidalKernels.SigmoidalIndicatorKernel
        extra = {'width': p['width']} if k in ('SI', 'SIr') else {}
        return cls(1, k in ('Sr', 'SIr'), p.get('variance', 1.), p['location'], p['slope'], fixed_slope = spec['fixed'], **extra)
    if k in ('CP', 'CW'):
        cls = changeOperators.ChangePointKernel if k == 'CP' else changeOperators.ChangeWindowKernel
        extra = {'width': p['width']} if k == 'CW' else {}
        return cls(make(spec['branches'][0]), make(spec['branches'][1]), p['location'], p['slope'], fixed_slope = spec['fixed'], **extra)
    if k == 'LIN0': return linearKernel.Linear(1, p['variance'])
    if k == 'sum': return make(spec['branches'][0]) + make(spec['branches'][1])
    if k == 'mul': return make(spec['branches'][0]) * make(spec['branches'][1])
    r = {'WN': B.WN, 'C': B.C, 'SE': B.SE}[k]() if k in ('WN', 'C', 'SE') else linearOffsetKernel.LinearWithOffset(1) if k == 'LIN' else periodicKernel.PureStdPeriodicKernel(1)
    for n, v in p.items(): setattr(r, n, v)
    return r

def cov(spec, x1, x2, same):
    k, p = spec['kind'], spec.get('params', {})
    if k == 'LIN0': return K.base_cov('LIN', p, x1, x2, same)
    if k in ('sum', 'mul'):
        a, b = [cov(s, x1, x2, same) for s in spec['branches']]
        return a + b if k == 'sum' else a * b
    if k in ('CP', 'CW'): return K.change_cov(k, p, cov(spec['branches'][0], x1, x2, same), cov(spec['branches'][1], x1, x2, same), x1, x2, p['slope'])
    return K.base_cov(k, p, x1, x2, same, p.get('slope', 1.))

def rand_params(r, k, extreme = False):
    u = r.uniform
    if k in ('WN', 'C', 'LIN0'): return {'variance': u(.2, 3)}
    if k == 'LIN': return {'variance': u(.2, 3), 'offset': u(-3, 3)}
    if k == 'SE': return {'variance': u(.2, 3), 'lengthscale': u(.3, 3)}
    if k == 'PER':
        l = 10 ** u(-1.2, 5) if extreme and r.random() < .6 else u(.2, 2)
        if extreme and r.random() < .15: l = r.choice([3.75 ** -.5, 9999.9, 10000.1, .5163, .5164])
        return {'variance': u(.2, 3), 'period': u(.3, 5), 'lengthscale': l}
    p = {'variance': u(.2, 3), 'location': u(-3, 3), 'slope': 10 ** u(-1, 1)}
    if k in ('SI', 'SIr', 'CW'): p['width'] = 10 ** u(-1, .8)
    if extreme and r.random() < .4: # steep and flat changes, narrow and wide windows
        p['slope'] = 10 ** u(-4, 3)
        if 'width' in p: p['width'] = r.choice([p['width'], p['slope'] * 10 ** u(-1, 2)])
    if k in ('CP', 'CW'): del p['variance']
    return p

LEAVES = ['WN', 'C', 'LIN', 'SE', 'PER', 'LIN0', 'S', 'Sr', 'SI', 'SIr']
def rand_kernel(r, kinds = LEAVES + ['CP', 'CW'], depth = 2, extreme = False, branch_kinds = ('WN', 'C', 'LIN', 'SE', 'PER', 'sum', 'mul', 'CP', 'CW')):
    k = r.choice(kinds)
    return rand_of(r, k, depth, extreme, branch_kinds)
def rand_of(r, k, depth = 2, extreme = False, branch_kinds = ('WN', 'C', 'LIN', 'SE', 'PER', 'sum', 'mul', 'CP', 'CW')):
    s = {'kind': k}
    if k not in ('sum', 'mul'): s['params'] = rand_params(r, k, extreme)
    if k in ('S', 'Sr', 'SI', 'SIr', 'CP', 'CW'): s['fixed'] = r.random() < .5
    if k in ('CP', 'CW', 'sum', 'mul'):
        bk = [b for b in branch_kinds if depth > 1 or b in ('WN', 'C', 'LIN', 'SE', 'PER')]
        s['branches'] = [rand_of(r, r.choice(bk), depth - 1, extreme, branch_kinds) for _ in range(2)]
    return s

def has(s, k): return s['kind'] == k or any(has(b, k) for b in s.get('branches', []))
