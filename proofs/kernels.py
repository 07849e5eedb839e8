'''The real kernel classes on symbolic parameters and inputs: what is shared by C18, C19, C20 and C21.'''
import sympy as sp, random
from vc.engine import *
from vc.num import *
from vc import num as VN

def sym(n, positive = False): return sp.Symbol(n, positive = True) if positive else sp.Symbol(n, real = True)

class Env:
    '''Loads the kernel modules and puts the contracts of GPy, paramz, numpy and scipy in place of those libraries.'''
    def __init__(self):
        import numpy as rnp
        from GPy.kern.src.basis_funcs import BasisFuncKernel
        from GPy.kern.src.kern import Kern, CombinationKernel
        import GPy_ABCD.Kernels.sigmoidalKernels as S, GPy_ABCD.Kernels.changeOperators as C, GPy_ABCD.Kernels.linearKernel as L
        import GPy_ABCD.Kernels.linearOffsetKernel as LO, GPy_ABCD.Kernels.periodicKernel as P
        self.S, self.C, self.L, self.LO, self.P, self.rnp = S, C, L, LO, P, rnp
        env = self
        npf = NPf()
        for m in (S, C, L, LO, P):
            if hasattr(m, 'np'): m.np = npf
            if hasattr(m, 'Param'): m.Param = Param_
        L.tdot = lambda X: X.dot(X.T)                                   # GPy: tdot(X) == X X^T
        L.PSICOMP_Linear = lambda: Opaque('psicomp')
        P.i0, P.i1 = (lambda x: arr(x).map(I0)), (lambda x: arr(x).map(I1)) # scipy: modified Bessel functions
        self.embi = {k: getattr(P, k, None) for k in ('_embi0', '_embi1', '_embi0min1')}
        self.used, self.accuracy = {}, {}
        P._embi0 = self.approximation('_embi0', lambda u: sp.exp(-u) * I0(u))   # contracts; see embi_accuracy
        P._embi1 = self.approximation('_embi1', lambda u: sp.exp(-u) * I1(u))
        P._embi0min1 = self.approximation('_embi0min1', lambda u: sp.exp(-u) * (I0(u) - I1(u)))

        class Common:
            name = None
            def __setattr__(self, n, v):
                for p in self.__dict__.get('_linked', ()):      # paramz: assignment to a linked parameter copies the value into it
                    if isinstance(p, Param_) and p.name == n: p.set(v); return
                object.__setattr__(self, n, v)
            def __getattr__(self, a):
                if a.startswith('__'): raise AttributeError(a)
                raise Unsupported(f'GPy attribute {a}')
            def base_init(self):
                object.__setattr__(self, '_linked', []); object.__setattr__(self, '_linked_names', [])
                object.__setattr__(self, 'input_dim', 1)
            def link_parameters(self, *ps):
                for p in ps: self.link_parameter(p)
            def link_parameter(self, p, *a):
                if any(q is p for q in self._linked): raise Unsupported('linked twice')
                self._linked.append(p)
            def __deepcopy__(self, memo): raise Unsupported('deep copy of a kernel')
        class KernInit(Common):
            '''Contract of GPy's Kern.__init__, as reached from BasisFuncKernel.'''
            def __init__(self, input_dim, active_dims = None, name = 'kern', useGPU = False):
                self.base_init(); self.name, self.input_dim = name, input_dim
        CBasis = self.basis_source(BasisFuncKernel, KernInit, npf)
        class CKern(Common, Kern):
            def __init__(self, input_dim, active_dims = None, name = 'kern', useGPU = False): self.base_init(); self.name = name
            def parameters_changed(self): pass
        class CComb(Common, CombinationKernel):
            '''Contract of GPy's CombinationKernel: the given kernels are linked, in order.'''
            def __init__(self, kernels, name, extra_dims = [], link_parameters = True):
                self.base_init(); self.name = name
                if link_parameters: self.link_parameters(*kernels)
            def parameters_changed(self): pass
            @property
            def parts(self): return [k for k in self._linked if isinstance(k, Branch)]
        self.unwrap(CBasis, CKern, CComb)
        def make_class(cls, contract):
            self.unwrap(*[c for c in cls.__mro__ if c.__module__.startswith('GPy_ABCD')])
            k = type(cls)(cls.__name__, (cls, contract), {'__setattr__': Common.__setattr__, '__getattr__': Common.__getattr__, '__module__': 'vc'})
            return k
        self.classes = {'S': make_class(S.SigmoidalKernel, CBasis), 'SI': make_class(S.SigmoidalIndicatorKernel, CBasis),
                        'LIN': make_class(LO.LinearWithOffset, CKern), 'LIN0': make_class(L.Linear, CKern), 'PER': make_class(P.PureStdPeriodicKernel, CKern),
                        'CP': make_class(C.ChangePointKernel, CComb), 'CW': make_class(C.ChangeWindowKernel, CComb)}
        C.SigmoidalKernel, C.SigmoidalIndicatorKernel = self.maker('S'), self.maker('SI')
    def basis_source(self, real, init, npf):
        '''GPy's own BasisFuncKernel, its installed source executed as it is except that the memoising decorators are dropped and Kern.__init__ is the contract above.'''
        import ast, inspect, textwrap, numpy
        tree = ast.parse(textwrap.dedent(inspect.getsource(real)))
        cls = tree.body[0]
        for f in ast.walk(cls):
            if isinstance(f, ast.FunctionDef):
                for d in f.decorator_list:
                    if not (isinstance(d, ast.Call) and getattr(d.func, 'id', '') == 'Cache_this'): raise Unsupported(f'decorator {ast.unparse(d)} in BasisFuncKernel')
                f.decorator_list = []
        cls.bases = [ast.Name('KernInit', ast.Load()), ast.Name('Real', ast.Load())]
        ast.fix_missing_locations(tree)
        ns = dict(np = npf, KernInit = init, Real = real, Param = Param_, Logexp = lambda: 'positive', tdot = lambda X: X.dot(X.T))
        exec(compile(tree, inspect.getsourcefile(real), 'exec'), ns)
        return ns['BasisFuncKernel']
    def unwrap(self, *classes):
        '''drops GPy's input-slicing wrapper (identity for one-dimensional inputs)'''
        for c in classes:
            for n, f in list(vars(c).items()):
                if n.startswith('_clean_'):
                    m = n[len('_clean_'):]
                    type.__setattr__(c, m, f)
    def approximation(self, name, f):
        '''The scaled Bessel expression in place of a polynomial approximation; notes from which argument on it is used on this path.'''
        def g(x):
            x = arr(x); e = x.f(*[0 if d == 1 else 'a' for d in x.dims])
            low = next((b for b in (3.75, 3.5, 3., 2., 1., .5, .1) if not E.feasible(cond('<', e, num(b)).z)), 0.)
            self.used[name] = min(self.used.get(name, low), low)
            return x.map(f)
        return g
    def embi_accuracy(self, name, low, cs):
        '''Obligation: the polynomial behind name is within 5e-7 / sqrt(x) of the scaled Bessel expression for every x >= low.

        m_k(x) = mean of (1 - cos t)^k exp(-x (1 - cos t)) over a period of t: m_0 = exp(-x) I0(x), m_1 = exp(-x) (I0(x) - I1(x)); m_k > 0 is decreasing and convex, m_k'' = m_{k+2};
        sqrt(x) m_k(x) is decreasing, sqrt(2 pi x) m_0(x) tends to 1. So on a cell [a, b] of width h a twice differentiable q satisfies
        |q - m_k| <= max at the two ends + h^2/8 (sup |q''| + m_{k+2}(a)).'''
        import numpy as np
        from scipy.special import i0e, i1e
        k = {'_embi0': 0, '_embi0min1': 1}.get(name)
        what = f'{name} is within 5e-7 / sqrt(x) of the scaled Bessel expression for every x >= {low or "0"}'
        if k is None or not low or self.embi[name] is None: E.record(what, 'undecided', 'no bound for this one', 0.); return
        key = name, low
        if key not in self.accuracy:
            t0 = time.time()
            x = Arr((1,), lambda i: sym('u', True))
            TOP, TOL = low * 1e6, 5e-7
            xs = low * np.exp(np.linspace(0, np.log(TOP / low), 40001)); xs[0], xs[-1] = low, TOP
            a, b = xs[:-1], xs[1:]; h = b - a
            B0, B1 = i0e(xs), i1e(xs); B2 = B0 - 2 * B1 / xs; B3 = B1 - 4 * B2 / xs
            slack = 1e-13 * B0 # accuracy of the library's Bessel functions, generously
            m = [B0, B0 - B1, 1.5 * B0 - 2 * B1 + .5 * B2 + 8 * slack, (10 * B0 - 15 * B1 + 6 * B2 - B3) / 4 + 16 * slack]
            u, w = sym('u', True), sp.Dummy('w', positive = True)
            e = sp.expand(sp.expand(sp.sympify(self.embi[name](x).f(0)) * sp.sqrt(u)).subs(u, 1 / w))
            try: co = [float(q) for q in sp.Poly(e, w).all_coeffs()[::-1]]
            except Exception as ex: E.record(what, 'undecided', f'not a polynomial in 1/x over sqrt(x): {e}'); return
            n = np.arange(len(co))
            q = sum(c * xs ** -(j + .5) for j, c in enumerate(co))
            curv = sum(abs(c) * (j + .5) * (j + 1.5) * a ** -(j + 2.5) for j, c in enumerate(co))
            D = np.abs(q - m[k]) + 4 * slack
            at = D * np.sqrt(xs)
            cell = np.sqrt(b) * (np.maximum(D[:-1], D[1:]) + h ** 2 / 8 * (curv + m[k + 2][:-1]))
            # the tail: both sides are within their bounds beyond TOP
            lo, hi = (1 / np.sqrt(2 * np.pi) if k == 0 else 0.), float(np.sqrt(TOP) * (m[k][-1] + 4 * slack[-1]))
            dev = sum(abs(c) * TOP ** -j for j, c in enumerate(co) if j)
            tail = max(abs(co[0] + dev - lo), abs(co[0] - dev - lo), abs(co[0] + dev - hi), abs(co[0] - dev - hi))
            worst = max(float(cell.max()), tail)
            bad = float(at.max()) > TOL
            self.accuracy[key] = ('proved' if worst < TOL else 'refuted' if bad else 'undecided', f'worst {worst:.3g} (largest at a point: {at.max():.3g} at x = {xs[at.argmax()]:.6g})' if worst >= TOL else '', time.time() - t0, float(xs[at.argmax()]), bad)
        status, why, s, x, bad = self.accuracy[key]
        self.accuracy[key] = status, why, 0., x, bad
        E.record(what, status, why, s, backend = 'convexity on 40000 cells', model = cs({'lengthscale': x ** -.5}) if bad else None)
    def maker(self, k):
        def f(*a, **kw): return self.new(k, *a, **kw)
        return f
    def new(self, kind, *a, **kw):
        cls = self.classes[kind]
        o = object.__new__(cls)
        cls.__init__(o, *a, **kw)
        o.parameters_changed()      # paramz calls it when a new kernel has been initialised
        return o
    # ---- inputs
    def inputs(self, mode):
        '''(X, X2, rows label, W): mode 'none' (X2 omitted), 'same' (X2 is X), 'two', 'square' (as many other points).'''
        N, M = Dim('N'), Dim('N' if mode == 'square' else 'M')
        def point(i): return sym(f'x_{i}')
        X = Arr((N, 1), lambda i, j: point(i))
        if mode in ('two', 'square'):
            X2 = Arr((M, 1), lambda i, j: sym(f'y_{i}'))
            return X, X2, Arr((N, M), lambda i, j: sym(f'w_{i}{j}'))
        # symmetric weights of a likelihood
        W = Arr((N, N), lambda i, j: sym('w_' + ''.join(sorted(str(i) + str(j)))))
        return X, (None if mode == 'none' else X), W
    # ---- symbolic kernels
    POSITIVE = {'variance': True, 'lengthscale': True, 'period': True, 'slope': True, 'width': True, 'location': False, 'offset': False}
    def kernel(self, kind, fixed = False, suffix = ''):
        '''A kernel in use with arbitrary parameter values, made by its real constructor.'''
        rev = kind in ('Sr', 'SIr')
        sl = Arr((), lambda: sym('slope' + suffix, True))
        if kind in ('S', 'Sr'): k = self.new('S', 1, rev, 1., 0., sl, fixed_slope = fixed)
        elif kind in ('SI', 'SIr'): k = self.new('SI', 1, rev, 1., 0., sl, 1., fixed_slope = fixed)
        elif kind == 'LIN': k = self.new('LIN', 1)
        elif kind == 'LIN0': k = self.new('LIN0', 1)
        elif kind == 'PER': k = self.new('PER', 1)
        else: raise Unsupported(kind)
        self.havoc(k, suffix)
        return k
    def havoc(self, k, suffix = ''):
        for p in k._linked:
            if isinstance(p, Param_):
                if p.name not in self.POSITIVE: raise Unsupported(f'parameter {p.name}')
                p.set(Arr((), (lambda n: lambda: sym(n + suffix, self.POSITIVE[n]))(p.name)))
        k.parameters_changed()
    def change(self, kind, fixed, record = None):
        '''A change kernel with opaque branches made by its real constructor, then given arbitrary current values of its free parameters.'''
        a, b = Branch('first', record), Branch('second', record)
        k = self.new(kind, a, b, 0., Arr((), lambda: sym('slope', True)), **({'width': 1.} if kind == 'CW' else {}), fixed_slope = fixed)
        return k, a, b

class Branch:
    '''An arbitrary kernel: K(X, X2) is some function of the two points, symmetric; it records what it is called with.'''
    def __init__(self, name, record = None, of = None):
        self.name, self.record, self.of, self.version = name, record if record is not None else [], of, 0
        self.parent = None
        self.grads = []
    def copy(self): return Branch(self.name, self.record, self)
    def __deepcopy__(self, memo): return self.copy()
    @property
    def active_dims(self): return [0]
    @property
    def original(self): return self if self.of is None else self.of.original
    def k(self, p, q):
        n = self.name if self.of is not None else self.name + '_unlinked'
        p, q = sorted((p, q))
        return sym(f'{n}[{p},{q}]')
    def K(self, X, X2 = None):
        self.record.append((self, 'K', X, X2))
        Y = X if X2 is None else X2
        return Arr((X.dims[0], Y.dims[0]), lambda i, j: self.k(str(X.f(i, 0)), str(Y.f(j, 0))))
    def Kdiag(self, X): return Arr((X.dims[0],), lambda i: self.k(str(X.f(i, 0)), str(X.f(i, 0))))
    def update_gradients_full(self, dL_dK, X, X2 = None): self.grads.append((dL_dK, X, X2))
    def __getattr__(self, a):
        if a.startswith('__') or a.startswith('_vc'): raise AttributeError(a)
        raise Unsupported(f'attribute {a} of a branch kernel')

def points(kind, fixed, pt, n = 6):
    '''Concrete kernels and inputs for a replay: the point of the counterexample when there is one, then others in every regime.'''
    from vf import numk as N
    r = random.Random(3); pt = pt or {}
    near = lambda v, d: v if v is not None else d
    for q in range(n):
        s = N.rand_of(r, kind, 2) if kind in ('CP', 'CW') else {'kind': kind, 'params': N.rand_params(r, kind)}
        if kind in ('S', 'Sr', 'SI', 'SIr', 'CP', 'CW'): s['fixed'] = fixed
        if kind == 'PER': s['params']['lengthscale'] = (.3, .45, .7, 1.5, 2e4, 3.)[q % 6]
        if kind in ('CP', 'CW'): s['branches'] = [N.rand_of(r, r.choice(['LIN', 'SE', 'PER']), 1) for _ in range(2)]
        for b in s.get('branches', []):
            if b['kind'] == 'PER': b['params']['lengthscale'] = 1.3
        x, y = [r.uniform(-3, 3) for _ in range(4)], [r.uniform(-3, 3) for _ in range(4)]
        if q % 2 == 0 and pt:
            for k in s['params']:
                if k in pt and abs(pt[k]) < 1e6: s['params'][k] = pt[k]
            for z, l in ((x, 'x_'), (y, 'y_')):
                vs = [v for k, v in sorted(pt.items()) if k.startswith(l) and abs(v) < 1e6]
                z[:len(vs)] = vs
        yield q, s, x, y

def params(k): return [p for p in k._linked if isinstance(p, Param_)]
def has_param(k, n): return any(p.name == n for p in params(k))

# ---- the documented functions (the oracle)
def sig(u): return (1 + u / (1 + sp.Abs(u))) / 2
def phi_of(kind, x, l, s, w = None):
    if kind in ('S', 'Sr'): v = sig((x - l) / s)
    else: v = (sig((x - l) / s) - sig((x - l - w) / s)) / ((w / (2 * s)) / (1 + w / (2 * s)))
    return 1 - v if kind in ('Sr', 'SIr') else v

TRUSTED = [
           'GPy CombinationKernel.__init__ links the given kernels in order; Kern.__init__ sets name and input dimension; (BasisFuncKernel is executed from its installed source); the input-slicing wrapper is the identity on one-column inputs',
           'paramz: assignment to a linked parameter copies the value into it; parameters_changed is called after construction and after every parameter change',
           'numpy elementwise functions, broadcasting, .dot, .T, sums and einsum as documented', 'tdot(X) = X X^T', 'scipy.special.i0, i1 are the modified Bessel functions',
           'numba compilation and Cache_this memoisation preserve the meaning of the functions they decorate']
REALS = 'machine arithmetic treated as mathematical (real numbers; NaN and overflow branches not reached); the derivative at the two points where |u| has a kink is the common one-sided limit'
