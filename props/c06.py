from vf.core import expect
from vf.trees import *
LEVEL = 'other'
RULE = 'random and small-exhaustive expression trees over the five base kernels and both change operators, raw (assembled unsimplified) or built by the constructors; non-trivial: at least one composite child'

def _simplify(data):
    '''simplify() on a tree assembled without any simplification'''
    k = link(build_raw(data))
    r = k.simplify()
    expect(r is k or not isinstance(r, str), 'simplify of {} returned {!r}', data, r)
    expect(cnorm(view(r)) == cnorm(data), 'simplify changed the meaning of {} to {}', data, view(r))

def _construct(data):
    k = build(data)
    expect(cnorm(view(k)) == cnorm(data), 'constructing {} gave {}', data, view(k))

def _new_base(data):
    '''adding base terms / composites to a node through its methods'''
    spec, bases, comp = data
    k = link(build(spec))
    k.new_base(bases if len(bases) != 1 else bases[0])
    expect(cnorm(view(k)) == cnorm([spec[0], spec[1] + bases]), 'new_base({}) on {} gave {}', bases, spec, view(k))
    if comp is not None:
        k.new_composite(build(comp))
        expect(cnorm(view(k)) == cnorm([spec[0], spec[1] + bases + [comp]]), 'new_composite({}) on {}+{} gave {}', comp, spec, bases, view(k))

CASES = {'simplify': _simplify, 'construct': _construct, 'new_terms': _new_base}

def nontrivial(name, data): return name == 'new_terms' or any(not isinstance(x, str) for x in (data[1] if data[0] in ('sum', 'mul') else data[1:]))

def generate(ctx):
    from itertools import combinations_with_replacement as cwr
    small = [s for s in all_specs(1, 3) if not isinstance(s, str)]
    for s in small: yield 'construct', s
    lvl1 = [s for s in all_specs(1, 2) if not isinstance(s, str)]
    for k in ('sum', 'mul'):
        for s in lvl1:
            for bs in ([], ['WN'], ['C'], ['LIN'], ['SE', 'C'], ['PER', 'WN']): yield 'simplify', [k, bs + [s]]
    n = ctx.budget(2500, 40000)
    for i in range(n):
        s = rand_tree(ctx.rng, ctx.rng.choice([2, 3, 4]))
        yield 'simplify', s
        if i % 2: yield 'construct', s
        if i % 5 == 0:
            f = norm(rand_tree(ctx.rng, 2))
            if kind(f) in ('sum', 'mul') and len(f[1]) > 1:
                c = norm(rand_tree(ctx.rng, 2))
                yield 'new_terms', [f, [ctx.rng.choice(BASES) for _ in range(ctx.rng.randint(1, 3))], None if isinstance(c, str) else c]
