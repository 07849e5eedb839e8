import random
from copy import deepcopy
import numpy as np
from vf.core import expect
from vf.trees import *
from vf import kern as K
LEVEL = 'other'
RULE = 'simplified expressions with repeated terms, in a regression model or bare, with all parameters distinct; non-trivial: at least two terms'

def _match(data):
    spec, seed, in_model = data
    from GPy_ABCD.KernelExpansion.kernelOperations import fit_ker_to_kex_with_params
    r = random.Random(seed)
    kex = build_normal_root(spec)
    v = view(kex)
    if in_model:
        m = K.model_for(kex, r)
        k, X = m.model.kern, m.X
        got = fit_ker_to_kex_with_params(k, deepcopy(kex))
    else:
        k, X = kex.to_kernel(), np.array([[r.uniform(-4, 4)] for _ in range(5)])
        k[:] = K.param_values(k, r)
        got = deepcopy(kex).match_up_fit_parameters(dict(zip(k.parameter_names_flat(), k.param_array)), '')
    expect(got is not None and view(got) == v, 'matching parameters changed the expression {} into {}', v, got)
    x, used = X[:, 0], []
    cov = K.node_cov(got, x, x, True, K.fixed_slope(), used)
    expect(sorted(used) == sorted(float(p) for p in k.param_array), '{}: the values held by the nodes {} are not the kernel\'s {}', v, sorted(used), sorted(k.param_array.tolist()))
    expect(K.close(cov, k.K(X)), '{}: with the parameters its nodes hold it denotes another covariance than the fitted kernel', v)

CASES = {'match': _match}
def nontrivial(name, data): return size(data[0]) > 2

def generate(ctx):
    r = ctx.rng
    subs = ['SE', 'PER', ['sum', ['SE', 'PER']], ['mul', ['LIN', 'PER']], ['CP', 'SE', 'C'], ['CW', 'LIN', 'LIN'], ['mul', ['SE', ['CP', 'PER', 'PER']]]]
    for c in CHANGES:
        for a in subs:
            for b in subs: yield 'match', [[c, a, b], r.randrange(10 ** 6), r.random() < 0.3]
    for i in range(40):
        s = rand_tree(r, 3, max_items = 4)
        yield 'match', [s, r.randrange(10 ** 6), True]
    for n in range(2, 5):
        for b in ('SE', 'PER', 'LIN'):
            for k in ('sum', 'mul'): yield 'match', [[k, [b] * n], 5, False]
    dup = [['sum', [['mul', ['LIN', 'PER']]] * 3], ['mul', [['sum', ['SE', 'PER']]] * 3 + ['LIN']], ['sum', [['CP', 'SE', 'PER']] * 2 + [['CW', 'SE', 'PER']] * 2]]
    for d in dup: yield 'match', [d, 3, False]
    while True:
        s = rand_tree(r, r.choice([2, 3]), max_items = 4)
        yield 'match', [s, r.randrange(10 ** 6), r.random() < 0.1]
