'''Pointwise symbolic data: a flat sequence or an n-by-m array known through one generic element.'''
from vc.engine import *
import numpy as _np

class Data(Opaque):
    '''kind: 'list' (flat sequence without array indexing), 'flat' (1-d array), 'col' (n-by-1 made from flat), '2d' (given as 2-d).'''
    def __init__(self, kind, elem, n, name = 'data'):
        Opaque.__init__(self, name)
        self.__dict__.update(kind = kind, elem = elem, n = n)
    @property
    def shape(self):
        if self.kind == 'list': raise AttributeError('a list has no shape')
        return (self.n,) if self.kind == 'flat' else (self.n, 1) if self.kind == 'col' else (self.n, self.m)
    @property
    def ndim(self):
        if self.kind == 'list': raise AttributeError('a list has no ndim')
        return 1 if self.kind == 'flat' else 2
    def reshape(self, *s):
        s = s[0] if len(s) == 1 and isinstance(s[0], tuple) else s
        if self.kind == 'flat' and len(s) == 2 and s[1] == 1: return Data('col', self.elem, self.n)
        raise Unsupported('reshape')
    def __getitem__(self, i):
        if self.kind == 'list' and isinstance(i, tuple): raise TypeError('list indices must be integers or slices, not tuple')
        if self.kind == 'flat' and isinstance(i, tuple) and len(i) == 2 and i[0] == slice(None) and i[1] is None: return Data('col', self.elem, self.n)
        raise Unsupported(f'indexing of {self.kind} data')
    def _vc_len(self): return self.n
    def bin(self, o, f):
        if isinstance(o, Data):
            if o.kind != self.kind: raise Unsupported(f'arithmetic of {self.kind} and {o.kind} data')
            return Data(self.kind, f(self.elem, o.elem), self.n)
        return Data(self.kind, f(self.elem, o), self.n)
    def __add__(self, o): return self.bin(o, lambda a, b: a + b)
    __radd__ = __add__
    def __mul__(self, o): return self.bin(o, lambda a, b: a * b)
    __rmul__ = __mul__
    def __sub__(self, o): return self.bin(o, lambda a, b: a - b)
    def __neg__(self): return Data(self.kind, -self.elem, self.n)

class Vectorised:
    def __init__(self, f, otypes): self.pyfunc, self.otypes = f, otypes
    def __call__(self, x):
        if not isinstance(x, Data): raise Unsupported('vectorised call')
        return Data('flat' if x.kind == 'list' else x.kind, self.pyfunc(x.elem), x.n)

class NP:
    '''The numpy operations the code uses on Data, with their documented meaning; everything else is unsupported.'''
    def __init__(self, noise = None): self.noise, self.drawn = noise, []
    pi = _np.pi
    newaxis = None
    float64 = _np.float64
    def shape(self, x):
        if isinstance(x, Data): return (x.n,) if x.kind in ('list', 'flat') else (x.n, 1) if x.kind == 'col' else (x.n, x.m)
        raise Unsupported('np.shape')
    def ndim(self, x): return len(self.shape(x))
    def array(self, x, dtype = None):
        if not isinstance(x, Data) or dtype not in (None, float): raise Unsupported('np.array')
        return Data('flat' if x.kind == 'list' else x.kind, x.elem, x.n) if x.kind == 'list' else x
    asarray = array
    def reshape(self, x, s): return self.array(x).reshape(*s)
    def vectorize(self, f, otypes = None, **k): return Vectorised(f, otypes)
    @property
    def random(self):
        def randn(*s):
            self.drawn.append(s); return Data('col' if len(s) == 2 and not isinstance(s[1], SNum) else '2d' if len(s) == 2 else 'flat', self.noise, s[0])
        return Opaque('np.random', randn = randn)
    def __getattr__(self, a): raise Unsupported(f'numpy.{a}')
