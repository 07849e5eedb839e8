from proofs.kernels import *

def prove(P):
    env = Env()
    P.trust(*TRUSTED, 'GPy White, Bias, RBF, Add and Prod are valid covariance functions whose Kdiag is the diagonal of K'); P.assume_note(REALS)
    P.assume_note('mathematics: v phi phi^T is positive semi-definite for v > 0; sums and entrywise (Schur) products of positive semi-definite matrices are; '
                  'exp(u cos t) - I0(u) has only non-negative cosine coefficients (Jacobi-Anger), so PER is positive semi-definite')
    def cases(kind, fixed):
        return lambda pt: [{'case': 'valid', 'data': [s, x, y]} for q, s, x, y in points(kind, fixed, pt)]
    def pair(kernel, kind, fixed, psd, mode):
        def f():
            k = kernel()
            cs = cases(kind, fixed)
            def call(n, g, *a):
                status, v = E.call(g, *a)
                E.prove(f'{n} returns', status == 'return', repr(v)) or add(f'{n} returns', cs)
                if status != 'return': raise PathEnd
                return arr(v)
            X, _, _ = env.inputs('none'); _, Y, _ = env.inputs(mode)
            A, As, Axx = call('K(X)', k.K, X), call('K(X, X)', k.K, X, X), call('K(X, copy of X)', k.K, X, X.copy())
            same('the second input omitted or given is the same (same object)', As, A, cs)
            same('the second input omitted or given is the same (a copy)', Axx, A, cs)
            same('symmetric', A.T, A, cs)
            C, D = call('K(X, Y)', k.K, X, Y), call('K(Y, X)', k.K, Y, X)
            E.prove('the cross-covariance has one row per first and one column per second input', C.dims == ('N', 'M' if mode == 'two' else 'N') and A.dims == ('N', 'N'), f'{C.dims}') or add('the cross-covariance has one row per first and one column per second input', cs)
            same('the cross-covariance is the transpose of the one taken the other way round', D.T, C, cs)
            same('K(X, Y) and K(X) are the same function', Arr(A.dims, lambda i, j: C.f(i, j).xreplace(dict([(sym(f'y_{j}'), sym(f'x_{j}'))])) if kind not in ('CP', 'CW') else rename(C.f(i, j))), A, cs)
            d = call('Kdiag', k.Kdiag, X)
            same('Kdiag is the diagonal', d, Arr((Dim('N'),), lambda i: A.f(i, i)), cs)
            psd(k, A, cs)
        return f
    def rename(e): return e.xreplace({s: sym(re_branch(s.name)) for s in e.free_symbols if '[' in s.name or s.name.startswith('y_')})
    def re_branch(n):
        if '[' not in n: return n.replace('y_', 'x_')
        h, t = n[:-1].split('['); p = sorted(q.replace('y_', 'x_') for q in t.split(','))
        return f'{h}[{p[0]},{p[1]}]'
    def lin(k, A, cs):
        v = sym('variance', True); o = sym('offset') if has_param(k, 'offset') else sp.Integer(0)
        same('variance times the product of the offset inputs, so rank one and positive semi-definite', A, Arr(A.dims, lambda i, j: v * (sym(f'x_{i}') - o) * (sym(f'x_{j}') - o)), cs)
    def sigm(k, A, cs):
        X, _, _ = env.inputs('none')
        f = arr(k.phi(X))
        f = f if f.ndim == 2 else f[:, None]
        same('variance times the product of the basis function, so positive semi-definite', A, Arr(A.dims, lambda i, j: sym('variance', True) * f.f(i, 0) * f.f(j, 0)), cs)
    def per(k, A, cs):
        e = A.f('a', 'b'); v = sym('variance', True)
        r = v * per_shape(sym('x_a') - sym('x_b'), sym('period', True), sym('lengthscale', True))
        same('a non-negative mixture of cosines of the distance, so positive semi-definite', A, Arr(A.dims, lambda i, j: v * per_shape(sym(f'x_{i}') - sym(f'x_{j}'), sym('period', True), sym('lengthscale', True))), cs)
    def blend(kind):
        def f(k, A, cs):
            X, _, _ = env.inputs('none')
            e = A.f('a', 'b')
            same('branch covariances times rank-one factors, so positive semi-definite', A, blend_of(kind, A), cs)
        return f
    jobs = []
    from proofs.c20 import blend_of
    modes = {'two': '', 'square': ', as many points in both inputs'}
    for mode, kind in [(m, k) for m in modes for k in ('LIN', 'LIN0', 'PER', 'S', 'Sr', 'SI', 'SIr')]:
        for fixed in ((True, False) if kind[0] == 'S' else (False,)):
            cls = {'LIN': 'linearOffsetKernel.LinearWithOffset', 'LIN0': 'linearKernel.Linear', 'PER': 'periodicKernel.PureStdPeriodicKernel'}.get(kind, 'sigmoidalKernels.SigmoidalIndicatorKernel' if 'I' in kind else 'sigmoidalKernels.SigmoidalKernel')
            jobs.append((f'{kind}{" fixed slope" if fixed else ""}{modes[mode]}', pair(lambda kind = kind, fixed = fixed: env.kernel(kind, fixed), kind, fixed, lin if kind[0] == 'L' else per if kind == 'PER' else sigm, mode),
                         f'{cls}.K, {cls}.Kdiag' if kind[0] != 'S' else f'{cls}._phi', {}))
    def change(kind, fixed):
        def f():
            k, a, b = env.change(kind, fixed)
            env.havoc(k)
            return k
        return f
    for mode, kind in [(m, k) for m in modes for k in ('CP', 'CW')]:
        for fixed in (True, False):
            jobs.append((f'{kind} {"fixed" if fixed else "free"} slope{modes[mode]}', pair(change(kind, fixed), kind, fixed, blend(kind), mode), 'changeOperators.ChangeKernelBase.K, changeOperators.ChangeKernelBase.Kdiag', {}))
    P.parallel(jobs)

def per_shape(d, p, l):
    '''the documented covariance over its variance, in the regime of this path (the limit beyond 1e4)'''
    if E.check(z3.Real('lengthscale') <= 10000) == z3.unsat: return sp.cos(2 * sp.pi * d / p)
    u = 1 / l ** 2
    return (sp.exp(sp.cos(2 * sp.pi * d / p) * u) - I0(u)) / (sp.exp(u) - I0(u))
