from vf.core import expect
from vf.trees import *
LEVEL = 'other'
RULE = 'random and small-exhaustive expression trees, raw or built by the constructors; non-trivial: some rewrite applies'

def _nf(k, data, how):
    v = view(k)
    bad = is_normal(v)
    expect(bad is None, '{} of {} gave {}, not in normal form: {}', how, data, v, bad)
    import copy
    before = canon(v)
    twice = copy.deepcopy(k).simplify()
    expect(canon(view(twice)) == before, 'simplifying the simplified {} changed it to {}', v, view(twice))
    for n in nodes_of(k):
        if kind(view(n)) in ('sum', 'mul'):
            r = type(n)(n.base_terms, n.composite_terms)
            expect(canon(view(r)) == canon(view(n)), 'rebuilding {} from its parts gave {}', view(n), view(r))

def _simplify(data): _nf(link(build_raw(data)).simplify(), data, 'simplify')
def _construct(data):
    k = build(data)
    if not isinstance(k, str): _nf(k, data, 'construction')
def _initialise(data): _nf(build_raw(data)._initialise(), data, '_initialise')
def _expanded(data):
    spec, rules = data
    from GPy_ABCD.KernelExpansion import grammar
    for e in grammar.expand(build_normal_root(spec), [grammar.non_grouped_prs[r] for r in rules]):
        bad = is_normal(view(e))
        expect(bad is None, 'expansion of {} by {} contains {}: {}', spec, rules, view(e), bad)
        expect(len(view(e)[1]) > 1 or isinstance(view(e)[1][0], str) if kind(view(e)) in ('sum', 'mul') else True, 'expansion root {} is an unextracted singleton', view(e))

CASES = {'simplify': _simplify, 'construct': _construct, 'initialise': _initialise, 'expanded': _expanded}
def nontrivial(name, data): return name == 'expanded' or canon(norm(data)) != canon(data)

def generate(ctx):
    for s in all_specs(1, 3):
        if not isinstance(s, str): yield 'construct', s
    for s in all_specs(1, 2):
        if isinstance(s, str): continue
        for k in ('sum', 'mul'):
            for bs in ([], ['WN'], ['C'], ['LIN'], ['SE', 'C']): yield 'simplify', [k, bs + [s]]
    from vf.trees import ref_rules
    names = list(ref_rules(BASES))
    for i in range(ctx.budget(2500, 40000)):
        s = rand_tree(ctx.rng, ctx.rng.choice([2, 3, 4]))
        yield ctx.rng.choice(['simplify', 'construct', 'initialise']), s
        if i % 100 == 0: yield 'expanded', [norm(rand_tree(ctx.rng, 2)), [ctx.rng.choice(names)]]
