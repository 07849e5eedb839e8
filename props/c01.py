from fractions import Fraction
from vf.core import expect
LEVEL = 'other'
RULE = 'random lists (1 to 4 each) of S, Sr, SI, SIr factors with many coinciding ends, every subset and order of kinds, fixed and free slopes; non-trivial: at least two factors'

def _mod():
    from GPy_ABCD.KernelExpansion import kernelInterpretation as M
    return M

def inside(kind, f, x):
    l = f['location']
    if kind == 'S': return x > l
    if kind == 'Sr': return x < l
    hit = l < x < l + f['width']
    return hit if kind == 'SI' else not hit

def ends(kind, f):
    l, s = f['location'], f.get('slope', 1.)
    if kind == 'S': return [('start', l, s)]
    if kind == 'Sr': return [('end', l, s)]
    r = l + f['width']
    return [('start', l, s), ('end', r, s)] if kind == 'SI' else [('end', l, s), ('start', r, s)]

def check(bpss, intervals, slopes):
    expect(isinstance(intervals, list), 'the intervals of {} are {!r}', bpss, intervals)
    for i in intervals: expect(isinstance(i, dict) and ('start' in i or 'end' in i), 'an interval of {} is {!r}', bpss, i)
    all_ends = [e for k, fs in bpss for f in fs for e in ends(k, f)]
    xs = sorted({e[1] for e in all_ends})
    pts = [xs[0] - 1] + [(Fraction(a) + Fraction(b)) / 2 for a, b in zip(xs, xs[1:])] + [xs[-1] + 1]
    for x in pts:
        want = all(inside(k, f, x) for k, fs in bpss for f in fs)
        hits = sum((('start' not in i) or x > i['start']) and (('end' not in i) or x < i['end']) for i in intervals)
        expect((hits > 0) == want, 'factors {}: point {} is {} the intersection but the reported intervals are {}', bpss, float(x), 'in' if want else 'outside', intervals)
    for i in intervals:
        if 'start' in i and 'end' in i: expect(i['start'] < i['end'], 'factors {}: the empty interval {} is reported', bpss, i)
        for side in ('start', 'end'):
            if side in i:
                expect(any(e[0] == side and e[1] == i[side] for e in all_ends), 'factors {}: reported {} is not an end of any factor', bpss, i)
                if side + '_slope' in i: expect((side, i[side], i[side + '_slope'] if slopes else 1.) in [(a, b, c if slopes else 1.) for a, b, c in all_ends], 'factors {}: {} does not carry the slope of a factor with that end', bpss, i)

def _intervals(data):
    '''data: list of [kind, [[location, width?, slope?]..]] in order of appearance, and whether slopes are free'''
    spec, free = data
    M = _mod()
    flag = '__FIX_SIGMOIDAL_KERNELS_SLOPE'
    old = M.__dict__.get(flag)
    bpss = [(k, [dict(location = f[0], **({'width': f[1]} if k in ('SI', 'SIr') else {}), **({'slope': f[2]} if free else {})) for f in fs]) for k, fs in spec]
    import copy
    d = {'ProductKE': [{'variance': 1.}], 'C': [{}], **{k: copy.deepcopy(fs) for k, fs in bpss}}
    try:
        if old is not None: M.__dict__[flag] = not free
        elif free: return
        res = M.sigmoids_to_intervals(d)
    finally:
        if old is not None: M.__dict__[flag] = old
    check(bpss, res['sigmoidal_intervals'], free)

def _whole(data):
    '''through the public surface: a component with these change factors is described by these intervals'''
    spec, _ = data
    from vf.trees import kexs
    SumKE, ProductKE, ChangeKE = kexs()
    M = _mod()
    ps = {'ProductKE': [{'variance': 2.}], 'PER': [{'period': 1., 'lengthscale': 1.}]}
    for k, fs in spec: ps[k] = [dict(location = float(f[0]), **({'width': float(f[1])} if k in ('SI', 'SIr') else {}), slope = 1.) for f in fs]
    text = M.base_factors_interpretation(ps)
    import re
    got = []
    for m in re.finditer(r'between (-?[\d.]+) and (-?[\d.]+)|from (-?[\d.]+)|until (-?[\d.]+)', text):
        a, b, c, d = m.groups()
        got.append({**({'start': float(a or c)} if a or c else {}), **({'end': float(b or d)} if b or d else {})})
    check([(k, [dict(location = float(f[0]), **({'width': float(f[1])} if k in ('SI', 'SIr') else {})) for f in fs]) for k, fs in spec], got, False)

CASES = {'intervals': _intervals, 'text': _whole}
def nontrivial(name, data): return sum(len(fs) for _, fs in data[0]) > 1

def generate(ctx):
    from itertools import permutations, product, combinations
    r = ctx.rng
    kinds = ['S', 'Sr', 'SI', 'SIr']
    orders = [p for n in range(1, 5) for p in permutations(kinds, n)]
    # exhaustive: one or two factors of each of two kinds over a tiny grid
    for ks in [p for p in orders if len(p) <= 2]:
        for locs in product([0, 1, 2], repeat = len(ks)):
            for ws in product([1, 3], repeat = len(ks)):
                yield 'intervals', [[[k, [[l, w, i + 1]]] for i, (k, l, w) in enumerate(zip(ks, locs, ws))], False]
    for k in ('SI', 'SIr'):
        for a in product([0, 1, 2, 3], [1, 2], repeat = 2): yield 'intervals', [[[k, [[a[0], a[1], 1], [a[2], a[3], 2]]]], True]
    for i in range(ctx.budget(12000, 200000)):
        ks = r.choice(orders) if r.random() < .7 else r.choice(orders[-24:])
        hi = r.choice([3, 6, 12])
        spec, s = [], 1
        for k in ks:
            fs = []
            for _ in range(r.choice([1, 1, 2, 3, 4])):
                fs.append([r.randint(-hi, hi), r.randint(1, hi), s]); s += 1
            spec.append([k, fs])
        yield 'intervals', [spec, r.random() < .5]
        if i % 10 == 0: yield 'text', [spec, False]
