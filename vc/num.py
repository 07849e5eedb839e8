'''Arrays known through a generic entry: shapes are symbolic, entries are exact symbolic expressions (sympy) of the entries of the inputs.

A dimension is the number 1, another concrete size, or a Dim (an arbitrary size). An entry is a function of index labels, so an n-by-m array stands for
every size and every input. A sum over all entries is kept as the formal functional TOT(entry): two such sums agree for every weight array exactly when
their entries agree pointwise (after symmetrisation when the weights are symmetric).'''
import sympy as sp, z3, fractions, random, itertools, time
from vc import engine as _e
from vc.engine import E, Unsupported, PathEnd

class Dim(str): '''An arbitrary size.'''
TOT = sp.Function('TOT')
class I1(sp.Function):
    def _eval_is_real(self): return self.args[0].is_real
class I0(sp.Function):
    '''Modified Bessel functions of the first kind: I0' = I1 (I1' is not needed).'''
    def fdiff(self, i = 1): return I1(self.args[0])
    def _eval_is_real(self): return self.args[0].is_real

def num(v):
    if isinstance(v, bool): raise Unsupported('a boolean used as a number')
    if isinstance(v, int): return sp.Integer(v)
    if isinstance(v, float):
        if v != v or v in (float('inf'), float('-inf')): raise Unsupported('non-finite number')
        f = fractions.Fraction(v); d = fractions.Fraction(repr(v)) # decimal literals are read as written: machine arithmetic is treated as mathematical
        return sp.Rational(d.numerator, d.denominator)
    if isinstance(v, sp.Basic): return v
    if hasattr(v, 'item') and getattr(v, 'size', 1) == 1: return num(v.item())
    raise Unsupported(f'{type(v).__name__} in symbolic arithmetic')

class Cond:
    '''A symbolic condition on single numbers.'''
    def __init__(self, z): self.z = z
    def __bool__(self): return E.decide(self.z)
    def any(self): return self
    all = any
    def __invert__(self): return Cond(z3.Not(self.z))
    def __and__(self, o): return Cond(z3.And(self.z, o.z if isinstance(o, Cond) else z3.BoolVal(bool(o))))
    def __or__(self, o): return Cond(z3.Or(self.z, o.z if isinstance(o, Cond) else z3.BoolVal(bool(o))))

def to_z3(e, table):
    '''Rational expressions exactly; anything else as an unconstrained (named) real.'''
    if e.is_Rational: return z3.RealVal(f'{e.p}/{e.q}')
    if e.is_Symbol:
        z = z3.Real(e.name)
        if e.is_positive: table[e.name] = z > 0
        return z
    if e.is_Add: return z3.Sum([to_z3(a, table) for a in e.args])
    if e.is_Mul: return z3.Product([to_z3(a, table) for a in e.args])
    if e.is_Pow and e.exp.is_Integer:
        b = to_z3(e.base, table); r = z3.RealVal(1)
        for _ in range(abs(int(e.exp))): r = r * b
        return r if e.exp > 0 else 1 / r
    if isinstance(e, sp.Abs):
        a = to_z3(e.args[0], table); return z3.If(a >= 0, a, -a)
    z = z3.Real('atom:' + str(e))
    if e.is_positive: table['atom:' + str(e)] = z > 0
    return z

def cond(rel, a, b):
    d = sp.together(sp.sympify(a - b))
    if d.is_Rational: return Cond(z3.BoolVal({'>': d > 0, '>=': d >= 0, '<': d < 0, '<=': d <= 0, '==': d == 0, '!=': d != 0}[rel] == True))
    t = {}
    z = to_z3(d, t)
    for c in t.values(): E.assume(c)
    return Cond({'>': z > 0, '>=': z >= 0, '<': z < 0, '<=': z <= 0, '==': z == 0, '!=': z != 0}[rel])

def bdims(p, q):
    n = max(len(p), len(q)); p = (1,) * (n - len(p)) + p; q = (1,) * (n - len(q)) + q
    r = []
    for a, b in zip(p, q):
        if a == b or b == 1: r.append(a)
        elif a == 1: r.append(b)
        else: raise ValueError(f'operands could not be broadcast together with shapes {p} {q}')
    return tuple(r)
def pick(a, idx):
    '''entry of a (broadcast to len(idx) dimensions) at idx'''
    idx = idx[len(idx) - len(a.dims):]
    return a.f(*[0 if d == 1 else i for d, i in zip(a.dims, idx)])

class Arr:
    __array_priority__ = 1000
    __array_ufunc__ = None
    def __init__(self, dims, f): self.dims, self.f = tuple(dims), f
    # ---- structure
    @property
    def shape(self): return self.dims
    @property
    def ndim(self): return len(self.dims)
    @property
    def size(self):
        r = 1
        for d in self.dims:
            if isinstance(d, Dim): return Dim('*'.join(map(str, self.dims)))
            r *= d
        return r
    @property
    def T(self): return Arr(self.dims[::-1], lambda *i: self.f(*i[::-1]))
    def transpose(self, *a):
        if a: raise Unsupported('transpose with axes')
        return self.T
    @property
    def flat(self): return self.ravel()
    def copy(self): return Arr(self.dims, self.f)
    def __copy__(self): return self.copy()
    def __deepcopy__(self, memo): return self.copy()
    @property
    def values(self): return self.copy()
    def view(self, *a): return self
    def astype(self, *a, **k): return self.copy()
    def ravel(self):
        big = [k for k, d in enumerate(self.dims) if d != 1]
        if len(big) > 1: raise Unsupported('ravel')
        if not big: return Arr((1,), lambda i: self.f(*[0] * self.ndim))
        return Arr((self.dims[big[0]],), lambda i: self.f(*[i if k == big[0] else 0 for k in range(self.ndim)]))
    flatten = ravel
    def squeeze(self, *a): 
        if a: raise Unsupported('squeeze with axes')
        big = [k for k, d in enumerate(self.dims) if d != 1]
        def f(*i):
            j = dict(zip(big, i)); return self.f(*[j.get(k, 0) for k in range(self.ndim)])
        return Arr([self.dims[k] for k in big], f)
    def reshape(self, *s):
        s = s[0] if len(s) == 1 and isinstance(s[0], (tuple, list)) else s
        r = self.ravel()
        if tuple(s) in ((-1,), r.dims): return r
        if len(s) == 2 and s[1] == 1 and (s[0] == -1 or s[0] == r.dims[0]): return Arr((r.dims[0], 1), lambda i, j: r.f(i))
        if len(s) == 2 and s[0] == 1 and (s[1] == -1 or s[1] == r.dims[0]): return Arr((1, r.dims[0]), lambda i, j: r.f(j))
        raise Unsupported('reshape')
    def __getitem__(self, i):
        i = i if isinstance(i, tuple) else (i,)
        if Ellipsis in [x for x in i if x is Ellipsis]:
            k = [x is Ellipsis for x in i].index(True)
            i = i[:k] + (slice(None),) * (self.ndim - sum(1 for x in i if x is not None and x is not Ellipsis)) + i[k + 1:]
        i = i + (slice(None),) * (self.ndim - sum(1 for x in i if x is not None))
        dims, sel, axis = [], [], 0
        for x in i:
            if x is None: dims.append(1); sel.append(None); continue
            if axis >= self.ndim: raise IndexError('too many indices for array')
            d = self.dims[axis]; axis += 1
            if isinstance(x, slice) and x == slice(None): dims.append(d); sel.append('keep')
            elif isinstance(x, slice) and d == 1 and x.step is None and x.start in (None, 0) and x.stop in (None, 1): dims.append(1); sel.append('keep')
            elif isinstance(x, int) and not isinstance(d, Dim):
                if not -d <= x < d: raise IndexError(f'index {x} is out of bounds for axis {axis - 1} with size {d}')
                sel.append(x % d)
            elif isinstance(x, list) and x == [0] and d == 1: dims.append(1); sel.append('keep')
            else: raise Unsupported(f'array index {x!r}')
        def f(*j):
            j = list(j); out = []
            for s in sel:
                if s is None: j.pop(0)
                elif s == 'keep': out.append(j.pop(0))
                else: out.append(s)
            return self.f(*[0 if d == 1 else o for d, o in zip(self.dims, out)])
        return Arr(dims, f)
    def __setitem__(self, i, v):
        i = i if isinstance(i, tuple) else (i,)
        if any(not (x is Ellipsis or (isinstance(x, slice) and x == slice(None)) or (x == 0 and self.dims == (1,))) for x in i): raise Unsupported('assignment to part of an array')
        v = arr(v)
        if bdims(self.dims, v.dims) != self.dims: raise ValueError('could not broadcast input array')
        self.f = (lambda g, nd: lambda *j: pick(g, j))(Arr(v.dims, v.f), self.ndim)
    def __len__(self):
        if not self.dims: raise TypeError('len() of unsized object')
        if isinstance(self.dims[0], Dim): raise Unsupported('length of a symbolic array')
        return self.dims[0]
    def __iter__(self):
        if not self.dims: raise TypeError('iteration over a 0-d array')
        if isinstance(self.dims[0], Dim): raise Unsupported('iteration over a symbolic array')
        return iter([self[k] for k in range(self.dims[0])])
    def _vc_len(self): return self.dims[0]
    # ---- single numbers
    def scalar(self):
        if any(d != 1 for d in self.dims): raise Unsupported('an array where a number is needed')
        return self.f(*[0] * self.ndim)
    def item(self, *a): return Arr((), lambda: self.scalar())
    def __float__(self): raise Unsupported('float() of a symbolic number')
    def __bool__(self):
        s = self.scalar()
        return bool(cond('!=', s, sp.Integer(0)))
    # ---- arithmetic
    def bin(self, o, f):
        if isinstance(o, (str, type(None))): return NotImplemented
        o = arr(o)
        return Arr(bdims(self.dims, o.dims), lambda *i: f(pick(self, i), pick(o, i)))
    def map(self, f): return Arr(self.dims, lambda *i: f(self.f(*i)))
    def __add__(self, o): return self.bin(o, lambda a, b: a + b)
    __radd__ = __add__
    def __mul__(self, o): return self.bin(o, lambda a, b: a * b)
    __rmul__ = __mul__
    def __sub__(self, o): return self.bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self.bin(o, lambda a, b: b - a)
    def __truediv__(self, o): return self.bin(o, lambda a, b: a / b)
    def __rtruediv__(self, o): return self.bin(o, lambda a, b: b / a)
    def __pow__(self, o): return self.bin(o, lambda a, b: a ** b)
    def __rpow__(self, o): return self.bin(o, lambda a, b: b ** a)
    def __neg__(self): return self.map(lambda a: -a)
    def __pos__(self): return self
    def __abs__(self): return self.map(sp.Abs)
    def inplace(op):
        def g(self, o):
            r = op(Arr(self.dims, self.f), o)
            if r.dims != self.dims: raise ValueError('non-broadcastable output operand')
            self.f = r.f; return self
        return g
    __iadd__, __isub__ = inplace(lambda a, b: a + b), inplace(lambda a, b: a - b)
    __imul__, __itruediv__ = inplace(lambda a, b: a * b), inplace(lambda a, b: a / b)
    def rel(r):
        def g(self, o):
            if o is None or isinstance(o, str): return NotImplemented
            o = arr(o)
            d = bdims(self.dims, o.dims)
            if any(x != 1 for x in d): raise Unsupported('elementwise comparison')
            z = (0,) * len(d)
            return cond(r, pick(self, z), pick(o, z))
        return g
    __gt__, __ge__, __lt__, __le__ = rel('>'), rel('>='), rel('<'), rel('<=')
    __eq__, __ne__ = rel('=='), rel('!=')
    __hash__ = object.__hash__
    def dot(self, o):
        o = arr(o)
        if self.ndim == 0 or o.ndim == 0: return self * o
        if self.ndim == 2 and o.ndim == 2:
            if self.dims[1] != o.dims[0]: raise ValueError(f'shapes {self.dims} and {o.dims} not aligned')
            if self.dims[1] != 1: raise Unsupported('matrix product over a symbolic dimension')
            return Arr((self.dims[0], o.dims[1]), lambda i, j: self.f(i, 0) * o.f(0, j))
        raise Unsupported('dot')
    def __matmul__(self, o): return self.dot(o)
    def __rmatmul__(self, o): return arr(o).dot(self)
    def sum(self, axis = None, **k):
        if any(v for v in k.values()): raise Unsupported('sum with options')
        if axis is not None:
            if axis < 0: axis += self.ndim
            if self.dims[axis] != 1: raise Unsupported('sum over one symbolic dimension')
            return Arr(self.dims[:axis] + self.dims[axis + 1:], lambda *i: self.f(*i[:axis], 0, *i[axis:]))
        big = [d for d in self.dims if d != 1]
        if not big: return Arr((), lambda: self.scalar())
        if not all(isinstance(d, Dim) for d in big): raise Unsupported('sum over a concrete dimension')
        labels = iter('ab')
        idx = [0 if d == 1 else next(labels) for d in self.dims]
        e = self.f(*idx)
        return Arr((), lambda: TOT(sp.Tuple(*[sp.Symbol('dim_' + d) for d in big]), e))
    def mean(self, *a, **k): raise Unsupported('mean')
    def any(self): return self.scalar() != 0
    def __getattr__(self, a):
        if a.startswith('__') or a in ('gradient', '_vc_iter', '_vc_isinstance', '_vc_type', '_vc_len'): raise AttributeError(a)
        raise Unsupported(f'array attribute {a}')
    def __repr__(self): return f'<array {self.dims}>'
    def __format__(self, s): return repr(self)

class Param_(Arr):
    '''A parameter: one number, with a gradient slot; assigning to it copies the value in (paramz).'''
    def __init__(self, name, value, transform = None):
        v = arr(value)
        Arr.__init__(self, v.dims if v.dims else (1,), (lambda e: lambda *i: e)(v.scalar()))
        self.name, self.transform, self.gradient = name, transform, None
    def set(self, v): self[:] = v
    def __deepcopy__(self, memo): return Param_(self.name, self.copy())

def arr(v):
    if isinstance(v, Arr): return v
    if isinstance(v, (list, tuple)):
        if len(v) == 1: a = arr(v[0]); return Arr((1,) + a.dims, lambda i, *j: a.f(*j))
        raise Unsupported('array of a list')
    if hasattr(v, 'shape') and getattr(v, 'shape', ()) != ():
        if v.size == 1: e = num(v); return Arr((1,) * v.ndim, lambda *i: e)
        raise Unsupported('a concrete array in symbolic arithmetic')
    e = num(v)
    return Arr((), lambda: e)

class NPf:
    '''The numpy functions on such arrays, with their documented meaning; everything else is unsupported.'''
    def __init__(self): self.pi, self.newaxis, self.e = Arr((), lambda: sp.pi), None, Arr((), lambda: sp.E)
    import numpy as _np
    float64, ndarray, nan, inf = _np.float64, Arr, float('nan'), float('inf')
    def u(f):
        def g(self, x, *a, **k):
            if a or k: raise Unsupported('ufunc options')
            return arr(x).map(f)
        return g
    cos, sin, exp, sqrt, log = u(sp.cos), u(sp.sin), u(sp.exp), u(sp.sqrt), u(sp.log)
    abs = absolute = fabs = u(sp.Abs)
    sign = u(sp.sign)
    square, negative, reciprocal = u(lambda x: x ** 2), u(lambda x: -x), u(lambda x: 1 / x)
    def expm1(self, x): return self.exp(x) - 1
    def add(self, a, b): return arr(a) + b
    def subtract(self, a, b): return arr(a) - b
    def multiply(self, a, b): return arr(a) * b
    def divide(self, a, b): return arr(a) / b
    true_divide = divide
    def power(self, a, b): return arr(a) ** b
    def asarray(self, x, *a, **k): return arr(x) if not isinstance(x, Arr) else x
    array = asarray
    atleast_1d = lambda self, x: arr(x) if arr(x).ndim else arr(x)[None]
    def atleast_2d(self, x): x = arr(x); return x if x.ndim >= 2 else x[None, :] if x.ndim == 1 else x[None, None]
    def isnan(self, x): return False       # over the reals
    def isfinite(self, x): return True
    def isinf(self, x): return False
    def nan_to_num(self, x, *a, **k): return x
    def any(self, x): return x if isinstance(x, (Cond, bool)) else bool(arr(x))
    all = any
    def shape(self, x): return arr(x).dims
    def ndim(self, x): return arr(x).ndim
    def dims(self, s): return tuple(s) if isinstance(s, (tuple, list)) else (s,)
    def empty(self, s, *a, **k):
        def f(*i): raise Unsupported('an uninitialised entry is used')
        return Arr(self.dims(s), f)
    def full(self, s, v, *a, **k):
        r = self.empty(s); r[...] = v; return r
    def zeros(self, s, *a, **k): return self.full(s, 0)
    def ones(self, s, *a, **k): return self.full(s, 1)
    def empty_like(self, x, *a, **k): return self.empty(arr(x).dims)
    def zeros_like(self, x, *a, **k): return self.zeros(arr(x).dims)
    def ones_like(self, x, *a, **k): return self.ones(arr(x).dims)
    def full_like(self, x, v, *a, **k): return self.full(arr(x).dims, v)
    def tile(self, x, n):
        x = arr(x)
        if x.size == 1: return self.full(n, x.scalar())
        raise Unsupported('tile')
    repeat = tile
    def broadcast_to(self, x, s):
        r = self.empty(s); r[...] = x; return r
    def sum(self, x, axis = None, **k): return arr(x).sum(axis, **k)
    def dot(self, a, b): return arr(a).dot(b)
    matmul = dot
    def outer(self, a, b):
        a, b = arr(a).ravel(), arr(b).ravel()
        return Arr((a.dims[0], b.dims[0]), lambda i, j: a.f(0 if a.dims[0] == 1 else i) * b.f(0 if b.dims[0] == 1 else j))
    def transpose(self, x): return arr(x).T
    def squeeze(self, x): return arr(x).squeeze()
    def reshape(self, x, s): return arr(x).reshape(s)
    def diag(self, x):
        if x.ndim == 2 and x.dims[0] == x.dims[1]: return Arr((x.dims[0],), lambda i: x.f(i, i))
        raise Unsupported('diag')
    diagonal = diag
    def einsum(self, s, *ops):
        ops = [arr(o) for o in ops]; s = s.replace(' ', '')
        if s in ('ij,ij', 'ij,ij->', 'i,i', 'i,i->') and ops[0].dims == ops[1].dims: return (ops[0] * ops[1]).sum()
        if s in ('ij,ij->ij',): return ops[0] * ops[1]
        raise Unsupported(f'einsum {s}')
    def where(self, c, a, b):
        if isinstance(c, (Cond, bool)): return a if c else b
        raise Unsupported('where')
    def __getattr__(self, a): raise Unsupported(f'numpy.{a}')

# ---- deciding equalities
class Frac:
    '''num / (product of den factors): exact rational functions in sparse polynomials, with factored denominators.'''
    __slots__ = ('n', 'd')
    def __init__(self, n, d): self.n, self.d = n, d
    @staticmethod
    def red(n, d):
        if not n: return Frac(n, {})
        d = dict(d)
        for f in list(d):
            while d.get(f):
                q, r = n.div(f)
                if r: break
                n = q; d[f] -= 1
                if not d[f]: del d[f]
        return Frac(n, d)
    def __mul__(self, o):
        d = dict(self.d)
        for f, k in o.d.items(): d[f] = d.get(f, 0) + k
        return Frac.red(self.n * o.n, d)
    def __add__(self, o):
        d = dict(self.d)
        for f, k in o.d.items(): d[f] = max(d.get(f, 0), k)
        def up(x):
            n = x.n
            for f, k in d.items():
                for _ in range(k - x.d.get(f, 0)): n = n * f
            return n
        return Frac.red(up(self) + up(o), d)
    def inv(self):
        if not self.n: raise ZeroDivisionError
        n = self.n.ring.one
        for f, k in self.d.items(): n = n * f ** k
        c, fs = self.n.factor_list()
        d = {}
        for f, k in fs: d[f] = d.get(f, 0) + k
        return Frac.red(n / c if False else n.mul_ground(1 / c), d)

def to_frac(e):
    from sympy.polys.rings import ring
    gens = {}
    def scan(x):
        if isinstance(x, sp.exp) and x.args[0].could_extract_minus_sign(): x = sp.exp(-x.args[0])
        if x.is_Rational or x in gens: return
        if x.is_Add or x.is_Mul:
            for a in x.args: scan(a)
        elif x.is_Pow and x.exp.is_Rational:
            if x.exp.is_Integer: scan(x.base)
            else: gens[sp.Pow(x.base, sp.Rational(1, x.exp.q))] = None
        else: gens[x] = None
    scan(e)
    if not gens: gens[sp.Symbol('_one')] = None
    names = [f'g{i}' for i in range(len(gens))]
    R, *xs = ring(names, sp.QQ)
    table = {g: Frac(x, {}) for g, x in zip(gens, xs)}
    memo = {}
    def go(x):
        if x in memo: return memo[x]
        if x.is_Rational: r = Frac(R(sp.QQ(x.p, x.q)), {})
        elif isinstance(x, sp.exp) and x.args[0].could_extract_minus_sign(): r = table[sp.exp(-x.args[0])].inv()
        elif x in table: r = table[x]
        elif x.is_Add:
            r = None
            for a in x.args: r = go(a) if r is None else r + go(a)
        elif x.is_Mul:
            r = None
            for a in x.args: r = go(a) if r is None else r * go(a)
        elif x.is_Pow:
            b = go(x.base) if x.exp.is_Integer else table[sp.Pow(x.base, sp.Rational(1, x.exp.q))]
            k = int(x.exp) if x.exp.is_Integer else x.exp.p
            if k < 0: b, k = b.inv(), -k
            r = Frac(R.one, {})
            for _ in range(k): r = r * b
        else: raise Unsupported(f'{type(x).__name__}')
        memo[x] = r
        return r
    return go(e)

def rational_zero(e):
    '''True when e is zero as a rational function of its atoms (exact, for every value).'''
    if e == 0: return True
    return not to_frac(e).n

def canon(u):
    n, d = sp.fraction(sp.together(sp.expand(u)))
    return sp.expand(n) / sp.expand(d)

def exps(e):
    '''exp of sums split into products of exp of canonical terms'''
    def f(a):
        a = sp.expand(a); r = sp.Integer(1)
        for t in sp.Add.make_args(a):
            r = r / sp.exp(-t) if t.could_extract_minus_sign() else r * sp.exp(t)
        return r
    def tr(x):
        x = sp.expand(x)
        return x
    e = e.replace(lambda x: isinstance(x, (sp.cos, sp.sin)), lambda x: x.func(tr(x.args[0])))
    e = e.replace(lambda x: isinstance(x, (I0, I1)), lambda x: x.func(canon(x.args[0])))
    return e.replace(lambda x: isinstance(x, sp.exp), lambda x: f(x.args[0]))

def signs(es):
    '''Every way of resolving the absolute values in es: yields (conditions, substitution)'''
    atoms = set()
    for e in es: atoms |= e.atoms(sp.Abs)
    groups = {}
    table = {}
    for a in atoms:
        c = sp.factor(a.args[0]); n, d = sp.fraction(sp.together(c))
        key = sp.expand(n)
        if not sp.sympify(d).is_positive:
            if sp.sympify(-d).is_positive: d, key = -d, -key
            else: raise Unsupported(f'sign of {a}')
        flip = key.could_extract_minus_sign()
        k = sp.expand(-key) if flip else key
        groups.setdefault(k, [])
        table[a] = (k, d)
    keys = list(groups)
    for combo in itertools.product((1, -1), repeat = len(keys)):
        s = dict(zip(keys, combo))
        yield [(k, s[k]) for k in keys], {a: s[k] * k / d for a, (k, d) in table.items()}

def feasible(conds):
    s = z3.Solver(); s.set('timeout', 5000)
    t = {}
    for k, sg in conds:
        z = to_z3(k, t); s.add(z > 0 if sg > 0 else z < 0)
    for c in t.values(): s.add(c)
    s.add(E.pc)
    return s.check() != z3.unsat

def numeric(e, conds = (), tries = 12):
    '''A point (over the reals, parameters positive, on this path) at which e is clearly not zero, or None.'''
    r = random.Random(5)
    sy = sorted(e.free_symbols, key = lambda s: s.name)
    def draw(s): return sp.Rational(r.randint(1, 40), 13) * (sp.Rational(10) ** r.choice([0, 0, 0, -1, 5] if s.name == 'lengthscale' else [0]) if s.is_positive else r.choice([1, -1]))
    def drawn():
        for t in range(40 * tries): yield {s: draw(s) for s in sy}
        # the path is rarely met by chance: as many values as possible as drawn, the others from the solver
        s = z3.Solver(); s.set('timeout', 2000); table = {}
        for k, g in conds:
            z = to_z3(sp.sympify(k), table); s.add(z > 0 if g > 0 else z < 0)
        for q in sy: to_z3(q, table)
        s.add(*table.values(), *E.pc)
        for t in range(20):
            s.push()
            for q in r.sample(sy, len(sy)):
                v = draw(q); s.push(); s.add(z3.Real(q.name) == z3.RealVal(f'{v.p}/{v.q}'))
                if s.check() != z3.sat: s.pop()
            if s.check() != z3.sat: return
            m, pt = s.model(), {}
            for q in sy:
                v = m.eval(z3.Real(q.name), model_completion = True)
                if z3.is_algebraic_value(v): v = v.approx(20)
                pt[q] = sp.Rational(v.numerator_as_long(), v.denominator_as_long())
            while s.num_scopes(): s.pop()
            yield pt
    for pt in drawn():
        if any((sp.sympify(k).subs(pt) > 0) != (g > 0) for k, g in conds): continue
        if E.pc:
            z = z3.simplify(z3.substitute(z3.And(E.pc), *[(z3.Real(s.name), z3.RealVal(f'{v.p}/{v.q}')) for s, v in pt.items()]))
            if z3.is_false(z): continue
        tries -= 1
        try:
            x = e.subs(pt).replace(lambda q: isinstance(q, I0), lambda q: sp.besseli(0, q.args[0])).replace(lambda q: isinstance(q, I1), lambda q: sp.besseli(1, q.args[0]))
            v = sp.N(x, 40)
            if v.is_number and abs(v) > sp.Rational(1, 10 ** 15): return {str(k): float(q) for k, q in pt.items()} | {'difference': float(v)}
        except Exception: pass
        if tries <= 0: return None
    return None

def is_zero(e):
    '''(True, '', None) for every value of the symbols (positive ones positive), (False, where, point) or (None, why, None).'''
    e = sp.sympify(e)
    for conds, sub in signs([e]):
        if not feasible(conds): continue
        x = e.xreplace(sub) if sub else e
        if rational_zero(x): continue
        x = exps(x)
        if rational_zero(x): continue
        x2 = exps(sp.expand(x))
        if rational_zero(x2): continue
        pt = numeric(x, conds)
        if pt is not None: return False, f'the difference {str(x)[:160]} is not zero, e.g. {pt}', pt
        return None, f'cannot decide whether {str(x)[:200]} is zero', None
    return True, '', None

def same(name, got, want, cases = (), symmetric = None):
    '''Obligation: two arrays (or numbers) agree entry by entry for every input. symmetric: see totals. cases: replays, or a function of a point.'''
    t = time.time(); pt = None
    try:
        got, want = arr(got), arr(want)
        if got.dims != want.dims:
            squeeze = lambda d: tuple(x for x in d if x != 1)
            if squeeze(got.dims) != squeeze(want.dims) or (len(squeeze(got.dims)) > 0 and got.dims != want.dims):
                E.record(name, 'refuted', f'shape {got.dims}, expected {want.dims}', time.time() - t, backend = 'sympy')
                add(name, cases, None); return False
        labels = iter('abcd'); i = [0 if d == 1 else next(labels) for d in got.dims]
        labels = iter('abcd'); j = [0 if d == 1 else next(labels) for d in want.dims]
        g, w = got.f(*i), want.f(*j)
        z, why, pt = totals(g - w, symmetric) if (g - w).has(TOT) else is_zero(g - w)
    except RecursionError: z, why = None, 'recursion'
    status = 'proved' if z else 'refuted' if z is False else 'undecided'
    E.record(name, status, why, time.time() - t, backend = 'sympy')
    if not z: add(name, cases, pt)
    return bool(z)
def add(name, cases, pt = None):
    n = name if name.startswith(E.current['name']) else E.current['name'] + ' / ' + name
    m = E.results[n]['models']
    if len(m) > 8: return
    try: m += list(cases(pt) if callable(cases) else cases)[:8]
    except Exception: pass

def totals(e, symmetric):
    '''e is an affine expression of formal sums; zero for all weights?'''
    ts = list(e.atoms(TOT))
    dummies = {t: sp.Dummy() for t in ts}
    p = e.xreplace(dummies)
    co = {t: sp.diff(p, d) for t, d in dummies.items()}
    if any(c.has(d) for c in co.values() for d in dummies.values()): return None, 'not linear in the sums', None
    rest = p.xreplace({d: sp.Integer(0) for d in dummies.values()})
    if rest != 0:
        z, why, pt = is_zero(rest)
        if not z: return z, 'a part which is not weighted: ' + why, pt
    by = {}
    for t in ts: by.setdefault(t.args[0], []).append(co[t] * t.args[1])
    for dims, es in by.items():
        x = sum(es)
        if symmetric: x = x + swap(x)
        z, why, pt = is_zero(x)
        if not z: return z, why, pt
    return True, '', None
def swap(e):
    m = {}
    for s in e.free_symbols:
        n = s.name
        if n.endswith('_a'): m[s] = sp.Symbol(n[:-2] + '_b', real = True)
        elif n.endswith('_b'): m[s] = sp.Symbol(n[:-2] + '_a', real = True)
    return e.xreplace(m) if True else e
