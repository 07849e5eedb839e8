from vf.core import expect
from vf.trees import *
LEVEL = 'other'
RULE = 'random and small-exhaustive simplified trees, printed and read back by Python itself (repr) or by an independent reader with the usual precedence (str); non-trivial: depth at least two'

def _repr(data):
    SumKE, ProductKE, ChangeKE = kexs()
    k = build(data)
    if isinstance(k, str): return
    t = repr(k)
    try: back = eval(t, {'SumKE': SumKE, 'ProductKE': ProductKE, 'ChangeKE': ChangeKE})
    except Exception as e: expect(False, 'repr of {} is {!r}, which does not evaluate: {}', view(k), t, e)
    expect(back == k and k == back, 'repr of {} evaluates to {}', view(k), view(back))
    expect(canon(view(back)) == canon(view(k)), 'repr of {} evaluates to {}', view(k), view(back))

class _E:
    def __init__(self, s): self.s = s
    def __add__(self, o): return _E(['sum', [self.s, o.s]])
    def __mul__(self, o): return _E(['mul', [self.s, o.s]])

def _str(data):
    k = build(data)
    if isinstance(k, str): return
    t = str(k)
    env = {b: _E(b) for b in BASES}; env.update(CP = lambda a, b: _E(['CP', a.s, b.s]), CW = lambda a, b: _E(['CW', a.s, b.s]))
    try: back = eval(t, env).s
    except Exception as e: expect(False, '{} prints as {!r}, which cannot be read: {}', view(k), t, e)
    expect(cnorm(back) == cnorm(view(k)), '{} prints as {!r}, which denotes {}', view(k), t, back)
    expect(str(build_raw(view(k))) == t, '{} prints differently when rebuilt in the same order', view(k))

def _same_order(data):
    a = build_raw(data)
    import copy
    b = copy.deepcopy(a)
    if isinstance(a, str): return
    expect(str(a) == str(b) and repr(a) == repr(b), 'equal trees print differently: {} {}', a, b)

CASES = {'repr': _repr, 'str': _str, 'same_order': _same_order}
def nontrivial(name, data): return size(norm(data)) > 4

def generate(ctx):
    for s in all_specs(1, 3):
        if not isinstance(s, str): yield 'repr', s; yield 'str', s
    for i in range(ctx.budget(3000, 40000)):
        s = rand_tree(ctx.rng, ctx.rng.choice([2, 3, 4]))
        yield 'repr', s
        yield 'str', s
        if i % 5 == 0: yield 'same_order', norm(s)
