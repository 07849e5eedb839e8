from vc.engine import *
from vc.arr import *
from vc import engine as _e
import numpy as rnp

def fl(m, x):
    v = m.eval(zv(x), model_completion = True)
    return float(v.as_fraction())

def prove(P):
    E = P.E
    import GPy_ABCD.Util.dataAndPlottingUtil as dp
    import GPy_ABCD.Util.modelUtil as mu
    import GPy_ABCD.Models.modelSearch as ms
    P.assume_note('numpy: np.shape, np.array(...)[:, None], elementwise arithmetic and np.vectorize (elementwise application of its function) behave as documented',
                  'the two functions given to the generators are arbitrary (uninterpreted) real functions')
    R = z3.RealSort()
    def fun(name):
        u = uf(name, R, R)
        return lambda x: SNum(u(z3.ToReal(zv(x)) if zv(x).sort() == z3.IntSort() else zv(x)))
    def pyfunc(v):
        if isinstance(v, Vectorised): return v.pyfunc
        if isinstance(v, rnp.vectorize): return v.pyfunc
        raise Unsupported('the maker does not return a vectorised function')
    def floats(v): return v.otypes is not None and (v.otypes == 'd' or list(v.otypes) in ([float], ['float'], ['d'], [rnp.float64]))

    def cp():
        f1, f2, c, x = fun('f1'), fun('f2'), Real('cp'), Real('x')
        for line_up in (False, True):
            real = dp.np; dp.np = NP()
            try: kind, v = E.call(dp.cp_f_maker, f1, f2, c, line_up)
            finally: dp.np = real
            E.prove('change point: returns', kind == 'return', repr(v))
            E.prove('change point: values are kept as real numbers', floats(v))
            kind, y = E.call(pyfunc(v), x)
            E.prove('change point: evaluates', kind == 'return', repr(y))
            shift = f1(c) - f2(c) if line_up else 0
            E.prove(f'change point: first function strictly before, second from it on{", shifted to be continuous" if line_up else ""}',
                    zv(y) == z3.If(x.z < c.z, f1(x).z, zv(f2(x) + shift)))
            if line_up:
                kind, yc = E.call(pyfunc(v), c)
                E.prove('change point: aligned curve meets the first function at the change', kind == 'return' and zv(yc) == f1(c).z)
    P.explore('cp_f_maker', cp, 'dataAndPlottingUtil.cp_f_maker')
    def cw():
        f1, f2, s, e, x = fun('f1'), fun('f2'), Real('start'), Real('end'), Real('x')
        E.assume(s <= e)
        for line_up in (False, True):
            real = dp.np; dp.np = NP()
            try: kind, v = E.call(dp.cw_f_maker, f1, f2, s, e, line_up)
            finally: dp.np = real
            E.prove('change window: returns', kind == 'return', repr(v))
            E.prove('change window: values are kept as real numbers', floats(v))
            kind, y = E.call(pyfunc(v), x)
            E.prove('change window: evaluates', kind == 'return', repr(y))
            d1 = zv(f1(s) - f2(s)) if line_up else z3.RealVal(0)
            d2 = f2(e).z + d1 - f1(e).z if line_up else z3.RealVal(0)
            E.prove(f'change window: second function inside, ends included, first outside{", shifted to be continuous" if line_up else ""}',
                    zv(y) == z3.If(x.z < s.z, f1(x).z, z3.If(x.z > e.z, f1(x).z + d2, f2(x).z + d1)))
    P.explore('cw_f_maker', cw, 'dataAndPlottingUtil.cw_f_maker')

    def data(name, kinds = ('list', 'flat', '2d')):
        k = kinds[E.choose(len(kinds), name)]
        n = Int('n_' + name); E.assume(n >= 1)
        d = Data(k, Real(name), n, name)
        if k == '2d': d.__dict__['m'] = Int('m_' + name)
        return d
    def col(d, given):
        '''d is the column of the numbers of given, or given itself when it is two-dimensional'''
        return d is given if given.kind == '2d' else isinstance(d, Data) and d.kind == 'col' and d.elem is given.elem and d.n is given.n
    def gens():
        f1, f2 = fun('f1'), fun('f2')
        for which in ('data', 'cp', 'cw'):
            X = data('X'); z = Real('noise'); w, nw = Real('w'), Real('nw'); c, s, e = Real('cp'), Real('s'), Real('e')
            E.assume(s <= e)
            npf = NP(z); real = dp.np; dp.np = npf
            try:
                if which == 'data': kind, v = E.call(dp.generate_data, f1, X, w, nw)
                elif which == 'cp': kind, v = E.call(dp.generate_changepoint_data, X, f1, f2, c, w, nw)
                else: kind, v = E.call(dp.generate_changewindow_data, X, f1, f2, s, e, w, nw)
            finally: dp.np = real
            E.prove(f'{which}: returns', kind == 'return', repr(v))
            GX, GY = v
            E.prove(f'{which}: inputs come back as a column (two-dimensional ones unchanged)', col(GX, X))
            x = X.elem
            f = f1(x).z if which == 'data' else z3.If(x.z < c.z, f1(x).z, f2(x).z) if which == 'cp' else z3.If(z3.Or(x.z < s.z, x.z > e.z), f1(x).z, f2(x).z)
            E.prove(f'{which}: outputs follow the recipe', isinstance(GY, Data) and GY.kind == GX.kind and zv(GY.elem) == f * w.z + z.z * nw.z)
            E.prove(f'{which}: one noise value per input', len(npf.drawn) == 1 and len(npf.drawn[0]) == 2)
    P.explore('generators', gens, 'dataAndPlottingUtil.generate_data, dataAndPlottingUtil.generate_changepoint_data, dataAndPlottingUtil.generate_changewindow_data')

    def fit():
        X, Y = data('X'), data('Y')
        got = {}
        class M(Opaque):
            def __init__(self, X, Y, kex, *a): Opaque.__init__(self, 'model'); got.update(X = X, Y = Y)
            def fit(self, *a, **k): return self
            def compute_utility(self, *a): return 0
        real, realM = mu.np, mu.GPModel
        mu.np, mu.GPModel = NP(), M
        try: kind, v = E.call(mu.fit_kex, X, Y, Opaque('kex', _initialise = lambda: Opaque('kex')), 3)
        finally: mu.np, mu.GPModel = real, realM
        E.prove('fit_kex returns', kind == 'return', repr(v))
        E.prove('fit_kex fits columns', col(got['X'], X) and col(got['Y'], Y))
    P.explore('fit_kex', fit, 'modelUtil.fit_kex')
    def fitk():
        X, Y = data('X'), data('Y')
        got = {}
        class M(Opaque):
            def __init__(self, X, Y, kern, *a): Opaque.__init__(self, 'model', kern = kern); got.update(X = X, Y = Y)
            def optimize_restarts(self, *a, **k): pass
            def plot(self, *a, **k): pass
            def log_likelihood(self): return 0.
            def _size_transformed(self): return 1
        real, realM, realp = mu.np, mu.GPRegression, mu.plt
        def score(*a): return 0.
        mu.np, mu.GPRegression, mu.plt = NP(), M, Opaque('plt', show = lambda: None)
        try: kind, v = E.call(mu.fit_GPy_kern, X, Y, Opaque('kern'), 3, score)
        finally: mu.np, mu.GPRegression, mu.plt = real, realM, realp
        E.prove('fit_GPy_kern returns', kind == 'return', repr(v))
        E.prove('fit_GPy_kern fits columns', col(got['X'], X) and col(got['Y'], Y))
    P.explore('fit_GPy_kern', fitk, 'modelUtil.fit_GPy_kern')
    def search():
        X, Y = data('X'), data('Y')
        got = []
        def fitter(X, Y, kexs, *a, **k): got.append((X, Y)); return SList()
        def rounds(X, Y, *a, **k): got.append((X, Y)); return tuple(a[:5])
        saved = {k: getattr(ms, k) for k in ('np', 'make_simple_kexs', 'model_search_rounds')}
        ms.np, ms.make_simple_kexs, ms.model_search_rounds = NP(), (lambda k: SList()), rounds
        try: kind, v = E.call(ms.explore_model_space, X, Y, SList(['WN']), SList(), mu.BIC, 2, 2, 3, fitter, 'lbfgsb', 1, False)
        finally:
            for k, q in saved.items(): setattr(ms, k, q)
        E.prove('the search returns', kind == 'return', repr(v))
        E.prove('the search fits columns', len(got) == 2 and all(col(a, X) and col(b, Y) for a, b in got))
    P.explore('explore_model_space', search, 'modelSearch.explore_model_space')
