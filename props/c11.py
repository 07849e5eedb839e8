from vf.core import expect
from vf.trees import *
from props.c10 import special
LEVEL = 'other'
RULE = 'random simplified trees x subsets of the production rules, compared with an independent enumeration of the rules; non-trivial: at least two nodes'

def _expand(data):
    from GPy_ABCD.KernelExpansion import grammar as g
    from GPy_ABCD import config
    spec, rules = data
    k = build_normal_root(spec)
    v = view(k)
    inc_se = config.__dict__['__INCLUDE_SE_KERNEL']
    want = ref_expand(v, rules, [b for b in BASES if inc_se or b != 'SE'])
    res = g.expand(k, [g.non_grouped_prs[r] for r in rules])
    got = [cnorm(view(e)) for e in res]
    missing = [w for w in want if w not in got]
    extra = [x for x in got if x not in want]
    expect(not missing, 'expanding {} by {} misses {} (rule, node: {})', v, rules, missing[:3], [want[m] for m in missing[:3]])
    expect(not extra, 'expanding {} by {} yields {}', v, rules, extra[:3])
    expect(len(got) == len(set(got)), 'expanding {} by {} repeats {}', v, rules, [x for i, x in enumerate(got) if x in got[:i]][:2])
    for i, a in enumerate(res):
        for b in res[:i]: expect(not (a == b), 'expanding {} by {} contains equal results {}', v, rules, view(a))

def _groups(data):
    '''the exported rule groups consist of the documented rules, and every rule is exported once'''
    from GPy_ABCD.KernelExpansion import grammar as g
    doc = dict(basic = ['plus_base', 'times_base', 'replace_base'], change = ['change_new_base', 'change_same', 'change_point_linear', 'change_window_constant', 'change_window_linear'],
               heuristic = ['times_shifted_base', 'replace_with_singleton', 'remove_some_term', 'try_higher_curves'])
    for grp, names in doc.items():
        expect(set(g.production_rules_by_type[grp]) >= set(names), 'rule group {} misses {}', grp, set(names) - set(g.production_rules_by_type[grp]))
    for name in ('All', 'Original_ABCD', 'Minimal', 'Default'):
        rules = g.production_rules[name]
        expect(len({id(r) for r in rules}) == len(rules), 'group {} lists a rule twice', name)
    import GPy_ABCD
    SE_free = [b for b in g.base_kerns_for_prod]
    expect(set(SE_free) == {'WN', 'C', 'LIN', 'PER'} | ({'SE'} if GPy_ABCD.config.__dict__['__INCLUDE_SE_KERNEL'] else set()), 'production base kernels are {}', SE_free)

CASES = {'expand': _expand, 'groups': _groups}
def nontrivial(name, data): return name == 'groups' or len(positions(norm(data[0]))) > 1

def generate(ctx):
    r = ctx.rng
    rules = list(ref_rules(BASES))
    yield 'groups', []
    for s in BASES + [['CP', 'PER', 'LIN'], ['CW', 'C', 'C'], ['sum', ['PER', 'SE', 'LIN']], ['mul', ['PER', 'SE', 'LIN']], ['mul', ['SE', ['sum', ['PER', 'C']]]], ['sum', ['WN', ['mul', ['WN', 'LIN']]]]]:
        for x in rules: yield 'expand', [s, [x]]
    for i in range(ctx.budget(220, 3000)):
        s = special(r) if i % 4 == 0 else norm(rand_tree(r, r.choice([1, 2, 2, 3])))
        if len(positions(s)) > 9: continue
        yield 'expand', [s, r.sample(rules, r.randint(1, 2))]
        if i % 12 == 0 and len(positions(s)) < 5: yield 'expand', [s, rules]
