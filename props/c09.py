from vf.core import expect
from vf.trees import *
LEVEL = 'other'
RULE = 'pairs/triples of simplified trees: shuffles, single-term mutations, multiplicity changes and random pairs; non-trivial: trees with composite terms'

def _pair(data):
    a, b = data
    ka, kb = build(a), build(b)
    if isinstance(ka, str) or isinstance(kb, str): return
    sa, sb = snapshot(ka), snapshot(kb)
    want = canon(view(ka)) == canon(view(kb))
    got, back = ka == kb, kb == ka
    expect(type(got) is bool or got in (True, False), 'equality returned {!r}', got)
    expect(bool(got) == want, '{} == {} is {}', view(ka), view(kb), got)
    expect(bool(back) == want, '{} == {} is {} but the other way round it is {}', view(kb), view(ka), back, got)
    expect((ka != kb) == (not want), '{} != {} is {}', view(ka), view(kb), ka != kb)
    expect(snapshot(ka) == sa and snapshot(kb) == sb, 'comparing {} and {} modified one', a, b)
    # links and parameters are irrelevant
    kb.parameters['WN'].append({'variance': 3.0}); kb.root, kb.parent = 'elsewhere', ka
    expect((ka == kb) == want, 'links or parameters influence {} == {}', a, b)

def _raw(data):
    '''equality of trees with a given stored order and explicit zero counts'''
    a, b = data
    ka, kb = build_raw(a), build_raw(b)
    if isinstance(ka, str) or isinstance(kb, str): return
    expect((ka == kb) == (canon(a) == canon(b)), '{} == {} is {}', a, b, ka == kb)
    expect(ka == ka and not (ka != ka), '{} != itself', a)
    expect(not (ka == 'C') and not (ka == None), '{} equals a non-expression', a)

def _tests(data):
    from GPy_ABCD.Util.genericUtil import unique
    ks = [build(x) for x in data]
    want = []
    for k in ks:
        if canon(view(k)) not in [canon(view(w)) for w in want]: want.append(k)
    got = unique(ks)
    expect([canon(view(x)) for x in got] == [canon(view(x)) for x in want], 'unique over {} gave {}', data, [view(x) for x in got])

CASES = {'pair': _pair, 'raw': _raw, 'dedup': _tests}
def nontrivial(name, data): return any(not isinstance(x, str) and x[0] in ('sum', 'mul') and any(isinstance(y, list) for y in x[1]) for x in data)

def mutate(rng, s):
    if isinstance(s, str): return rng.choice(BASES)
    if s[0] in CHANGES:
        r = rng.random()
        if r < .2: return [s[0], s[2], s[1]]
        if r < .4: return ['CP' if s[0] == 'CW' else 'CW', s[1], s[2]]
        i = rng.choice([1, 2]); out = list(s); out[i] = mutate(rng, s[i]); return out
    items = list(s[1]); r = rng.random()
    if r < .15: return ['mul' if s[0] == 'sum' else 'sum', items]
    if r < .35: items.append(rng.choice(items))
    elif r < .5 and len(items) > 1: items.pop(rng.randrange(len(items)))
    elif r < .65 and len(items) > 1: items[rng.randrange(len(items))] = rng.choice(items)
    else: i = rng.randrange(len(items)); items[i] = mutate(rng, items[i])
    return [s[0], items]

def generate(ctx):
    r = ctx.rng
    A, B = ['sum', ['PER', 'SE']], ['sum', ['PER', 'LIN']]
    for x, y in ([[A, A], [A, B]], [[A, A, B], [A, B, B]], [[A, B, 'LIN'], [B, A, 'LIN']], [['LIN', 'LIN', A], ['LIN', A]], [['LIN', A], ['LIN', A, A]], [[A], [A, B]], [[], [A]], [[A, A], [A]]):
        yield 'raw', [['mul', x], ['mul', y]]
        yield 'raw', [['sum', x], ['mul', x]]
    small = [s for s in all_specs(1, 2, ['LIN', 'PER', 'SE']) if not isinstance(s, str)]
    for a in small:
        for b in small: yield 'raw', [a, b]
    for i in range(ctx.budget(2500, 30000)):
        a = norm(rand_tree(r, r.choice([2, 3])))
        yield 'pair', [a, shuffled(r, a)]
        b = mutate(r, shuffled(r, a))
        yield 'pair', [a, b]
        yield 'raw', [a, b]
        if i % 20 == 0: yield 'dedup', [x for x in (a, shuffled(r, a), b, norm(rand_tree(r, 2)), shuffled(r, b)) if not isinstance(norm(x), str)]
