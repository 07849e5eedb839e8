from proofs.kernels import *

def prove(P):
    env = Env()
    P.trust(*TRUSTED); P.assume_note(REALS, 'I0\' = I1 for the modified Bessel functions')
    P.note('change kernels: the branches are arbitrary kernels (contract: their own update_gradients_full is right for the weights it is given); the gradients of location, slope and width of change kernels are the documented simplification, not claimed')
    modes = ('none', 'same', 'two', 'square')
    GIVEN = ('two', 'square')
    said = {'none': 'omitted', 'same': 'the same', 'two': 'given', 'square': 'given, as many points'}
    def cases(kind, fixed, mode):
        def f(pt):
            out = []
            for q, s, x, y in points(kind, fixed, pt): out.append({'case': 'gradient', 'data': [s, x, None if mode == 'none' else x if mode == 'same' else y, q]})
            return out
        return f
    def own(kind, fixed, mode):
        def f():
            k = env.kernel(kind, fixed); env.used = {}
            X, X2, W = env.inputs(mode)
            cs = cases(kind, fixed, mode)
            status, v = E.call(k.update_gradients_full, W, X, X2)
            E.prove('update_gradients_full returns', status == 'return', repr(v)) or add('update_gradients_full returns', cs)
            if status != 'return': return
            status, K = E.call(k.K, X, X2)
            E.prove('K returns', status == 'return', repr(K)) or add('K returns', cs)
            if status != 'return': return
            for n, low in env.used.items(): env.embi_accuracy(n, low, cs)
            free = params(k)
            names = [p.name for p in free]
            for p in free:
                e = K.f('a', 'b')
                if p.name == 'lengthscale' and kind == 'PER' and E.check(z3.Real('lengthscale') <= 10000) == z3.unsat: continue # the documented approximation
                th = p.scalar()
                if p.gradient is None: E.prove(f'{p.name}: a gradient is stored', False); add(f'{p.name}: a gradient is stored', cs); continue
                want = TOT(sp.Tuple(*[sp.Symbol('dim_' + d) for d in W.dims]), W.f('a', 'b') * derivative(e, th))
                same(f'{p.name}: the gradient is the derivative of the weighted covariance', p.gradient, Arr((), lambda: want), cs, symmetric = mode not in GIVEN)
            # every free parameter of the kernel is one of those
            need = {'S': ['variance', 'location'], 'SI': ['variance', 'location', 'width'], 'LIN': ['variance', 'offset'], 'LIN0': ['variance'], 'PER': ['variance', 'period', 'lengthscale']}[kind.replace('Sr', 'S').replace('SIr', 'SI') if kind != 'PER' else kind]
            E.prove('the free parameters are those documented', sorted(names) == sorted(need + (['slope'] if kind[0] == 'S' and not fixed else [])), repr(names))
        return f
    jobs = []
    for kind in ('LIN', 'LIN0', 'PER', 'S', 'Sr', 'SI', 'SIr'):
        for fixed in ((True, False) if kind[0] == 'S' else (False,)):
            for mode in modes:
                cls = {'LIN': 'linearOffsetKernel.LinearWithOffset', 'LIN0': 'linearKernel.Linear', 'PER': 'periodicKernel.PureStdPeriodicKernel'}.get(kind, 'sigmoidalKernels.SigmoidalIndicatorKernel' if 'I' in kind else 'sigmoidalKernels.SigmoidalKernel')
                jobs.append((f'{kind} {"fixed slope, " if fixed else "free slope, " if kind[0] == "S" else ""}second input {said[mode]}',
                             own(kind, fixed, mode), f'{cls}.update_gradients_full, {cls}.K' if kind[0] != 'S' else f'{cls}.update_gradients_full, {cls}._phi', {}))
    def branch(kind, fixed, mode):
        def f():
            k, a, b = env.change(kind, fixed)
            env.havoc(k)
            X, X2, W = env.inputs(mode)
            cs = cases(kind, fixed, mode)
            status, K = E.call(k.K, X, X2)
            E.prove('K returns', status == 'return', repr(K))
            status, v = E.call(k.update_gradients_full, W, X, X2)
            E.prove('update_gradients_full returns', status == 'return', repr(v)) or add('update_gradients_full returns', cs)
            if status != 'return': return
            e = K.f('a', 'b')
            for br in [q for q in k._linked if isinstance(q, Branch)]:
                n = f'{br.name} branch: '
                ok = len(br.grads) > 0
                E.prove(n + 'its gradients are updated', ok) or add(n + 'its gradients are updated', cs)
                if not ok: continue
                w, x1, x2 = br.grads[-1]            # the contract sets the gradients, so the last call counts
                i, j = str(X.f('a', 0)), str((X if X2 is None else X2).f('b', 0))
                kb = br.k(i, j)
                coef = sp.diff(e, kb)
                same(n + 'weights are the derivative of the weighted covariance by the branch covariance', w, Arr(W.dims, lambda p, q: (W.f('a', 'b') * coef).subs(dict(zip(labels('a', 'b'), labels(p, q))), simultaneous = True)), cs)
                E.prove(n + 'on the same inputs', x1 is X and (x2 is X2 or (mode not in GIVEN and (x2 is X or x2 is None)))) or add(n + 'on the same inputs', cs)
                if mode not in GIVEN: same(n + 'weights stay symmetric', Arr(W.dims, lambda p, q: w.f(p, q) - w.f(q, p)), Arr(W.dims, lambda p, q: sp.Integer(0)), cs)
        return f
    def labels(p, q): return [sym(f'x_{p}'), sym(f'x_{q}') if p != q else sym(f'x_{q}')]
    for kind in ('CP', 'CW'):
        for fixed in (True, False):
            for mode in modes:
                cls = 'changeOperators.ChangePointKernel' if kind == 'CP' else 'changeOperators.ChangeWindowKernel'
                jobs.append((f'{kind} {"fixed" if fixed else "free"} slope, second input {said[mode]}', branch(kind, fixed, mode), f'{cls}.update_gradients_full, {cls}.K, changeOperators.ChangeKernelBase.update_gradients_full', {}))
    P.parallel(jobs)

def derivative(e, th):
    '''d e / d th with the absolute values differentiated as sign * u'''
    d = sp.diff(e, th)
    return d.replace(lambda x: isinstance(x, sp.sign), lambda x: sp.Abs(x.args[0]) / x.args[0]).doit()
