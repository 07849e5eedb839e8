import random
import numpy as np
from vf.core import expect
from vf.trees import *
from vf import kern as K
LEVEL = 'other'
RULE = 'simplified expressions (exhaustive small ones, random deeper ones) x parameter values x one or two input sets; non-trivial: at least two terms'

def _kernel(data):
    spec, seed = data
    r = random.Random(seed)
    kex = build_normal_root(spec)
    v, before = view(kex), snapshot(kex)
    k = kex.to_kernel()
    expect(snapshot(kex) == before, 'building the kernel of {} modified it', v)
    expect(canon(K.flatspec(K.kspec(k))) == canon(K.flatspec(v)), 'the kernel of {} has structure {}', v, K.kspec(k))
    def variances(k):
        kind = K.kkind(k)
        if kind == 'mul':
            bs = [p for p in K.kparts(k) if K.kkind(p) in BASES]
            free = [p for p in bs if 'variance' in p.parameter_names()]
            expect(not bs or len(free) == 1, '{}: a product has {} free variances among its base factors', v, len(free))
        if kind in BASES: return
        for p in K.kparts(k):
            if K.kkind(p) in BASES:
                want = {'LIN': {'offset'}, 'SE': {'lengthscale'}, 'PER': {'period', 'lengthscale'}}.get(K.kkind(p), set()) | ({'variance'} if kind != 'mul' else set())
                expect(want <= set(p.parameter_names()), '{}: a {} factor misses free parameters: it has {}', v, K.kkind(p), p.parameter_names())
            variances(p)
    variances(k)
    X, X2 = np.array([[r.uniform(-4, 4)] for _ in range(4)]), np.array([[r.uniform(-4, 4)] for _ in range(3)])
    for i in range(2):
        k[:] = K.param_values(k, r)
        expect(K.close(k.K(X), K.kcov(k, X[:, 0], X[:, 0], True)), '{}: K(X) is not the covariance the expression denotes for parameters {}', v, k.param_array.tolist())
        expect(K.close(k.K(X, X2), K.kcov(k, X[:, 0], X2[:, 0], False)), '{}: K(X, X2) is not the covariance the expression denotes for parameters {}', v, k.param_array.tolist())
        expect(K.close(k.Kdiag(X), np.diag(K.kcov(k, X[:, 0], X[:, 0], True))), '{}: Kdiag is not the diagonal for parameters {}', v, k.param_array.tolist())

CASES = {'kernel': _kernel}
def nontrivial(name, data): return size(data[0]) > 2

def generate(ctx):
    r = ctx.rng
    small = [s for s in all_specs(1, 2) if not isinstance(s, str)]
    r.shuffle(small)
    for s in small: yield 'kernel', [s, r.randrange(10 ** 6)]
    for c in CHANGES:
        for inner in (['sum', ['SE', 'PER']], ['mul', ['LIN', 'LIN']], ['CP', 'SE', 'C'], ['mul', ['SE', ['sum', ['LIN', 'PER']]]]): yield 'kernel', [[c, inner, inner], 1]
    while True: yield 'kernel', [rand_tree(r, r.choice([2, 3])), r.randrange(10 ** 6)]
