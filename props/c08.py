from vf.core import expect
from vf.trees import *
LEVEL = 'other'
RULE = 'all pairs of kinds of operands (base names, sums, products, change operators) with random simplified trees; non-trivial: not both operands base names'

def _ops():
    from GPy_ABCD.KernelExpansion import kernelExpressionOperations as O
    return O

def _mk(s): return s if isinstance(s, str) else build_root(s)

def _run(data):
    op, args, kw = data
    O = _ops()
    real = [_mk(a) if isinstance(a, (str, list)) and (isinstance(a, list) or a in BASES) else a for a in args]
    specs = [view(r) if not isinstance(r, (str, type(None))) else r for r in real]
    before = [snapshot(r) for r in real]
    res = getattr(O, op)(*real, **kw)
    expect([snapshot(r) for r in real] == before, '{}({}) modified an argument: now {}', op, args, [view(r) if not isinstance(r, (str, type(None))) else r for r in real])
    ref = {'add': ref_add, 'multiply': ref_multiply, 'swap_base': ref_swap_base, 'one_change': ref_one_change, 'both_changes': ref_both_changes,
           'replace_node': ref_replace_node, 'remove_a_term': ref_remove_a_term, 'higher_curves': ref_higher_curves}[op]
    want = ref(*specs, **({'nested': kw['with_nested_case']} if 'with_nested_case' in kw else {}))
    if op in ('add', 'multiply') and kw.get('with_nested_case') is False: res = [res]
    got = sorted((cnorm(view(r)) for r in res), key = repr)
    want = sorted((cnorm(w) for w in want), key = repr)
    expect(got == want, '{}({}) {} gave {}, expected {}', op, args, kw, got, want)
    # Separation: no modifiable node of an argument inside a result, except a whole argument/branch handed back
    arg_nodes = {id(n) for r in real if not isinstance(r, (str, type(None))) for n in nodes_of(r)}
    for r in res:
        if isinstance(r, str): continue
        whole = id(r) in arg_nodes
        shared = [n for n in nodes_of(r) if id(n) in arg_nodes]
        expect(not shared or whole, '{}({}) shares the node {} with an argument', op, args, view(shared[0]) if shared else None)

def _equal_real(data):
    '''results are usable expressions: equal (by the library's own ==) to the directly constructed reference'''
    op, args = data
    real = [_mk(a) for a in args]
    res = getattr(_ops(), op)(*real, with_nested_case = False)
    want = build({'add': 'sum', 'multiply': 'mul'}[op] and [{'add': 'sum', 'multiply': 'mul'}[op], [view(r) if not isinstance(r, str) else r for r in real]])
    expect(cnorm(view(res)) == cnorm(view(want)), '{}({}) is {} not {}', op, args, view(res), view(want))

CASES = {'operator': _run, 'plain_combination': _equal_real}
def nontrivial(name, data): return any(isinstance(a, list) for a in data[1])

def of_kind(rng, k, depth = 2):
    if k == 'str': return rng.choice(BASES)
    while True:
        s = norm(rand_tree(rng, depth))
        if kind(s) == k: return s

def generate(ctx):
    r = ctx.rng
    kinds = ('str', 'sum', 'mul', 'change')
    for a in BASES:
        for b in BASES:
            for op in ('add', 'multiply'): yield 'operator', [op, [a, b], {}]
    for i in range(ctx.budget(60, 900)):
        for ka in kinds:
            for kb in kinds:
                a, b = of_kind(r, ka), of_kind(r, kb)
                for op in ('add', 'multiply'):
                    yield 'operator', [op, [a, b], {} if r.random() < .6 else {'with_nested_case': r.random() < .5}]
                yield 'operator', ['one_change', [a, r.choice(CHANGES), b], {}]
                yield 'operator', ['both_changes', [a, b], {}]
                if isinstance(a, list) and i % 3 == 0: yield 'operator', ['both_changes', [a, shuffled(r, a)], {}]
            # operands which have something in common: one is a term or branch of the other, or the same again
            if isinstance(a := of_kind(r, r.choice(kinds[1:])), list):
                inner = [x for x in (a[1:] if a[0] in CHANGES else a[1])] + [a]
                b = r.choice([x for x in inner if not isinstance(x, str)] or inner)
                for x, y in ((a, b), (b, a), (a, ['mul', [r.choice(BASES), b]]), (['sum', [r.choice(BASES), b]], b)):
                    x, y = norm(x), norm(y)
                    for op in ('add', 'multiply'): yield 'operator', [op, [x, y], {} if r.random() < .6 else {'with_nested_case': r.random() < .5}]
                    if isinstance(x, list): yield 'operator', ['one_change', [x, r.choice(CHANGES), y], {}]
            if isinstance(a := of_kind(r, ka), list):
                yield 'operator', ['both_changes', [a], {}]
                yield 'operator', ['one_change', [a, 'CW'], {}]
                for B in BASES:
                    yield 'operator', ['swap_base', [a, B], {}]
                yield 'operator', ['remove_a_term', [a], {}]
                yield 'operator', ['higher_curves', [a], {}]
                yield 'operator', ['replace_node', [a, of_kind(r, r.choice(kinds[1:]))], {}]
