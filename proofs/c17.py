from vc.engine import *

def num(m, x):
    v = m.eval(x.z, model_completion = True)
    return v.as_long() if z3.is_int_value(v) else float(v.as_fraction()) if z3.is_rational_value(v) else None

def prove(P):
    E = P.E
    import GPy_ABCD.Util.modelUtil as mu
    from GPy_ABCD.Models.model import GPModel
    P.assume_note('real arithmetic stands for floating point', 'log is an uninterpreted function', 'GPy: log_likelihood(), _size_transformed() and X of a fitted model are its L, k and data')
    def scores():
        ll, n, k = Real('L'), Int('n'), Int('k')
        E.assume(And(n >= 1, k >= 0, n - k - 1 != 0))
        case = lambda m: dict(case = 'score', data = [num(m, ll), num(m, n), num(m, k)])
        L, N, K = ll.z, z3.ToReal(n.z), z3.ToReal(k.z)
        logn = uf('log', z3.RealSort(), z3.RealSort())(N)
        want = {'BIC': -2 * L + K * logn, 'AIC': 2 * (K - L), 'AICc': 2 * (K - L) + 2 * K * (K + 1) / (N - K - 1)}
        for name, w in want.items():
            kind, v = E.call(getattr(mu, name), object(), ll, n, k)
            E.prove(f'{name} returns', kind == 'return', f'{v!r}', case)
            if kind == 'return': E.prove(f'{name} equals its definition', zv(v) == w if zv(v).sort() == z3.RealSort() else z3.ToReal(zv(v)) == w, '', case)
    P.explore('scores', scores, 'modelUtil.BIC, modelUtil.AIC, modelUtil.AICc', exact = True)

    def cache():
        # any model, any score function, any previous score (None included)
        ll, k = Real('L'), Int('k')
        class Data(Opaque):
            def _vc_len(self): return self.n
        n = Int('n')
        data = lambda name: Data(name, n = n, shape = (n, 1), size = n, ndim = 2)
        d = data('X')
        mod = Opaque('GPy model', X = d, Y = data('Y'), num_data = n, kern = object(), log_likelihood = lambda: ll, _size_transformed = lambda: k)
        m = object.__new__(GPModel)
        m.X, m.Y = d, mod.Y
        for a in ('kernel_expression', '_sum_of_prods_kex', 'restarts'): setattr(m, a, object())
        m.model = mod
        m.cached_utility_function, m.cached_utility_function_type = [(None, None), (Real('old'), 'older'), (Real('old'), 'f')][E.choose(3, 'history')]
        before = {a: v for a, v in vars(m).items() if not a.startswith('cached')}
        calls, value = [], object()
        def f(*a, **kw): calls.append((a, kw)); return value
        kind, v = E.call(m.compute_utility, f)
        E.prove('scoring returns', kind == 'return', f'{v!r}')
        E.prove('the score function is called once with the model and its own L, n, k',
                len(calls) == 1 and calls[0][0][0] is mod and len(calls[0][0]) == 4 and not calls[0][1]
                and bool(calls[0][0][1] is ll) and calls[0][0][2] is n and calls[0][0][3] is k, f'called with {calls}')
        E.prove('the value is returned', v is value)
        E.prove('the value is stored', m.cached_utility_function is value)
        E.prove('the name is stored', m.cached_utility_function_type == 'f')
        E.prove('nothing else of the model changes', all(getattr(m, a) is b for a, b in before.items()))
    P.explore('compute_utility', cache, 'GPModel.compute_utility, GPModel._ordered_score_ps, GPModel._ll, GPModel._n, GPModel._k')
