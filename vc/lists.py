'''Unbounded lists of arbitrary elements, as terms of an uninterpreted sort with the contracts of the list operations.'''
from vc.engine import *
from vc import engine as _e

El = z3.DeclareSort('Element')      # an equality class of elements (equality is assumed to be an equivalence)
Ls = z3.DeclareSort('List')
B, I = z3.BoolSort(), z3.IntSort()
has = z3.Function('contains', Ls, El, B)
cnt = z3.Function('count', Ls, El, I)
rm1 = z3.Function('remove_first', Ls, El, Ls)
snoc = z3.Function('append', Ls, El, Ls)
cat = z3.Function('concat', Ls, Ls, Ls)
size = z3.Function('size', Ls, I)
wit = z3.Function('first_element', Ls, El)
nil = z3.Const('nil', Ls)

def axioms():
    L, x, y = z3.Const('L', Ls), z3.Const('x', El), z3.Const('y', El)
    one = lambda a, b: z3.If(a == b, z3.IntVal(1), z3.IntVal(0))
    return [z3.ForAll([L, x], cnt(L, x) >= 0, patterns = [cnt(L, x)]),
            z3.ForAll([L, x], has(L, x) == (cnt(L, x) > 0), patterns = [has(L, x)]),
            z3.ForAll([L, x, y], z3.Implies(cnt(L, x) > 0, cnt(rm1(L, x), y) == cnt(L, y) - one(x, y)), patterns = [cnt(rm1(L, x), y)]),
            z3.ForAll([L, x, y], cnt(snoc(L, x), y) == cnt(L, y) + one(x, y), patterns = [cnt(snoc(L, x), y)]),
            z3.ForAll([L], size(L) >= 0, patterns = [size(L)]),
            z3.ForAll([L, x], size(snoc(L, x)) == size(L) + 1, patterns = [snoc(L, x)]),
            z3.ForAll([L], z3.Implies(size(L) > 0, cnt(L, wit(L)) > 0), patterns = [size(L)]),
            z3.ForAll([L, x], z3.Implies(size(L) == 0, cnt(L, x) == 0), patterns = [cnt(L, x)]),
            size(nil) == 0]

class Elem:
    '''An arbitrary element: only equality is known of it.'''
    def __init__(self, z_): self.z = z_
    def __eq__(self, o): return SBool(self.z == o.z) if isinstance(o, Elem) else False
    def __ne__(self, o): return SBool(self.z != o.z) if isinstance(o, Elem) else True
    def __hash__(self): raise Unsupported('hash of an arbitrary element')
    def __bool__(self): raise Unsupported('truth of an arbitrary element')
    def __deepcopy__(self, memo): return self
    def __repr__(self): return f'<{self.z}>'

def term(x):
    '''The z3 term of a list made of term segments and elements.'''
    t = nil; first = True
    for p in (x.parts() if isinstance(x, SList) else list(x)):
        if isinstance(p, TSeg): t = p.t if first else cat(t, p.t)
        elif isinstance(p, Elem): t = snoc(t, p.z)
        else: raise Unsupported(f'{p!r} in a list of arbitrary elements')
        first = False
    return t

class TSeg(Seg):
    def __init__(self, t): self.t = t
    def length(self): return SNum(size(self.t))
    def contains(self, x):
        if not isinstance(x, Elem): return False
        return E.decide(has(self.t, x.z))
    def without_first(self, x): return [TSeg(rm1(self.t, x.z))]
    def __repr__(self): return f'<list {self.t}>'

def lists_in(*objs):
    '''The mutable lists directly reachable from values of local variables.'''
    out = []
    for o in objs:
        for x in (o if isinstance(o, (tuple, list)) and not isinstance(o, SList) else [o]):
            if isinstance(x, SList) and not any(x is y for y in out): out.append(x)
    return out

def cells(*fs):
    out = []
    for f in fs:
        while f is not None and getattr(f, '__closure__', None):
            for c in f.__closure__:
                try: v = c.cell_contents
                except ValueError: continue
                out.append(v)
                if callable(v) and getattr(v, '__closure__', None): out += cells(v)
            break
    return out
