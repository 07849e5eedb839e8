import random
from copy import deepcopy
import numpy as np
from vf.core import expect
from vf.trees import *
from vf import kern as K
LEVEL = 'other'
RULE = 'simplified expressions x distinct parameter values x input sets; non-trivial: at least two terms'
SIGMOIDS = {'S', 'Sr', 'SI', 'SIr'}

def n_components(s):
    '''Number of components of the sum-of-products form'''
    if isinstance(s, str): return 1
    if s[0] in CHANGES: return n_components(s[1]) + n_components(s[2])
    ns = [n_components(x) for x in s[1]]
    if s[0] == 'sum': return sum(ns)
    out = 1
    for n in ns: out *= n
    return out

def components(m, v):
    SumKE, ProductKE, ChangeKE = kexs()
    sop = m.sum_of_prods_kex
    expect(isinstance(sop, SumKE), 'the sum-of-products form of {} is a {}', v, type(sop).__name__)
    expect(sum(sop.base_terms.values()) == 0, 'the sum-of-products form of {} has bare base terms {}', v, dict(sop.base_terms))
    for c in sop.composite_terms:
        expect(isinstance(c, ProductKE) and not c.composite_terms, 'the sum-of-products form of {} has the component {!r}', v, c)
        ps = c.parameters
        expect(len(ps.get('ProductKE', [])) == 1 and list(ps['ProductKE'][0]) == ['variance'], '{}: a component has the overall variances {}', v, ps.get('ProductKE'))
        for b, l in ps.items():
            if b == 'ProductKE': continue
            expect(b in BASES or b in SIGMOIDS, '{}: a component has a factor {!r}', v, b)
            expect(all('variance' not in p for p in l), '{}: a factor {} of a component has its own variance', v, b)
            expect(c.base_terms[b] > 0, '{}: a component has parameters for {} but no such factor', v, b)
            if b in ('LIN', 'PER') or b in SIGMOIDS: expect(c.base_terms[b] == len(l), '{}: a component has {} {} factors and {} parameter sets', v, c.base_terms[b], b, len(l))
        for b, n in c.base_terms.items(): expect(n == 0 or b in ps, '{}: a component has a factor {} without parameters', v, b)
    return sop.composite_terms

def _sop(data):
    spec, seed, fits = (*data, 0)[:3]
    kex = build_normal_root(spec)
    v, before = view(kex), snapshot(kex)
    r = random.Random(seed)
    m = K.model_for(kex, r, 6, ties = seed % 3 == 1)
    for _ in range(fits): # earlier fits of the same model, its form having been looked at after each
        components(m, v)
        K.refit(m, r, ties = seed % 3 == 1)
    cs = components(m, v)
    expect(snapshot(kex) == before, 'the sum-of-products form modified the expression {}', v)
    x, slope = m.X[:, 0], K.fixed_slope()
    got = sum(K.component_cov(c.parameters, x, slope) for c in cs)
    expect(K.close(got, m.model.kern.K(m.X)), 'the sum-of-products form of {} has another covariance than the fitted kernel (parameters {})', v, m.model.kern.param_array.tolist())
    expect(len(cs) == n_components(v), 'the sum-of-products form of {} has {} components', v, len(cs))
    # every fitted value except those absorbed into products is present in some component
    held = {float(val) for c in cs for l in c.parameters.values() for p in l for val in p.values()}
    for n, val in zip(m.model.kern.parameter_names_flat(), m.model.kern.param_array):
        if str(n).split('.')[-1] == 'location': expect(float(val) in held, '{}: the fitted location {} appears in no component', v, val)

CASES = {'sop': _sop}
def nontrivial(name, data): return size(data[0]) > 2

def generate(ctx):
    r = ctx.rng
    small = [s for s in all_specs(1, 2) if not isinstance(s, str)]
    r.shuffle(small)
    fixed = [['mul', [['sum', ['SE', 'PER']], ['sum', ['SE', 'LIN']]]], ['sum', [['mul', ['LIN', 'WN']], 'PER']], ['mul', ['SE', ['sum', ['SE', 'C']], ['sum', ['SE', 'WN']]]],
             ['mul', [['CP', 'SE', 'PER'], ['CW', 'LIN', 'C']]], ['CP', ['CW', 'SE', ['mul', ['SE', ['sum', ['LIN', 'WN']]]]], ['mul', ['LIN', ['CP', 'WN', 'C']]]],
             ['sum', [['mul', ['LIN', 'LIN']], ['CP', 'SE', 'SE'], ['CW', 'C', 'WN']]], ['mul', [['sum', ['LIN', 'WN']], ['sum', ['LIN', 'WN']]]]]
    for s in fixed:
        yield 'sop', [s, r.randrange(10 ** 6), 1]
        for i in range(2): yield 'sop', [s, r.randrange(10 ** 6)] + ([r.choice([1, 2])] if r.random() < .1 else [])
    for s in small[:60 if ctx.quick else None]: yield 'sop', [s, r.randrange(10 ** 6)] + ([r.choice([1, 2])] if r.random() < .1 else [])
    while True:
        s = rand_tree(r, r.choice([2, 3, 3]))
        if n_components(norm(s)) <= 40: yield 'sop', [s, r.randrange(10 ** 6)] + ([r.choice([1, 2])] if r.random() < .1 else [])
