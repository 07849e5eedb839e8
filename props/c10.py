from vf.core import expect
from vf.trees import *
LEVEL = 'other'
RULE = 'random simplified trees (incl. base branches of change operators, equal siblings, singleton roots) x every node x every single production rule; non-trivial: an inner node is replaced'

def _grammar():
    from GPy_ABCD.KernelExpansion import grammar
    return grammar

def _pick(k, v, idx):
    '''A node of the traversal and the position it stands for (by identity; stand-ins of equal branches of one operator by order of appearance)'''
    SumKE, ProductKE, ChangeKE = kexs()
    pos = {}
    def walk(n, p):
        pos[id(n)] = p
        if isinstance(n, ChangeKE):
            for i, c in ((1, n.left), (2, n.right)):
                if not isinstance(c, str): walk(c, p + (i,))
        else:
            for j, c in enumerate(n.composite_terms): walk(c, p + (1, len(at(v, p)[1]) - len(n.composite_terms) + j))
    walk(k, ())
    nodes = k.traverse()
    i = idx % len(nodes)
    node = nodes[i]
    if id(node) in pos: return node, pos[id(node)]
    par, val = pos[id(node.parent)], view(node)[1][0]
    same = [x for x in nodes if id(x) not in pos and x.parent is node.parent and view(x) == view(node)]
    sides = [side for side in (1, 2) if at(v, par)[side] == val]
    expect(len(sides) == len(same), 'traverse of {} stands {} times for the leaf {} that occurs {} times', v, len(same), val, len(sides))
    return node, par + (sides[[x is node for x in same].index(True)],)

def _prod_bases(): return sorted(_grammar().base_kerns_for_prod)

def _expand_node(data):
    '''One node, one rule: the set of results is the source with exactly that node replaced'''
    spec, idx, rule = data
    g = _grammar()
    k = build_normal_root(spec)
    v = view(k)
    before = snapshot(k)
    node, pos = _pick(k, v, idx)
    here = at(v, pos)
    here = ['sum', [here]] if isinstance(here, str) else here
    expect(canon(view(node)) == canon(here), 'traverse of {} lists {} where {} stands', v, view(node), here)
    res = [r for l in g.non_grouped_prs[rule](node) for r in l]
    expect(snapshot(k) == before, 'applying {} to node {} of {} modified the source: {}', rule, pos, v, view(k))
    src_nodes = {id(n) for n in nodes_of(k)}
    want = {cnorm(plug(v, pos, n)) for n in ref_rules(_prod_bases())[rule](here)}
    for r in res:
        root = r.root
        expect(not any(id(n) in src_nodes for n in nodes_of(root)), 'a result of {} on {} shares nodes with the source', rule, v)
        expect(cnorm(view(root)) in want, '{} at {} of {} produced {}', rule, pos, v, view(root))
        expect(any(n is r for n in nodes_of(root)), 'the result node of {} at {} of {} is not in its own tree {}', rule, pos, v, view(root))
    expect({cnorm(view(r.root)) for r in res} == want, '{} at {} of {} produced {} results, not {}', rule, pos, v, sorted({cnorm(view(r.root)) for r in res}, key = repr), sorted(want, key = repr))

def _expand(data):
    spec, rules = data
    g = _grammar()
    k = build_normal_root(spec)
    v, before = view(k), snapshot(k)
    res = g.expand(k, [g.non_grouped_prs[r] for r in rules])
    expect(snapshot(k) == before, 'expanding {} by {} modified it: {}', v, rules, view(k))
    src_nodes = {id(n) for n in nodes_of(k)}
    want = ref_expand(v, rules, _prod_bases())
    for e in res:
        bad = links_wrong(e)
        expect(bad is None, 'expansion {} of {} is badly linked: {}', view(e), v, bad)
        expect(e._check_all_parents() and e.is_root(), 'expansion {} of {} fails its own link check', view(e), v)
        expect(not any(id(n) in src_nodes for n in nodes_of(e)), 'expansion {} of {} shares nodes with the source', view(e), v)
        expect(cnorm(view(e)) in want, 'expansion {} of {} by {} is not the source with one node replaced', view(e), v, rules)
    owned = {}
    for i, e in enumerate(res):
        for n in nodes_of(e):
            expect(owned.setdefault(id(n), i) == i, 'two expansions of {} share a node', v)

def _replace(data):
    '''new_tree_with_self_replaced: one node replaced by an arbitrary expression, equal siblings untouched'''
    spec, idx, new = data
    k = build_normal_root(spec)
    v, before = view(k), snapshot(k)
    node, pos = _pick(k, v, idx)
    repl = build(new)
    if isinstance(repl, str): return
    rb = snapshot(repl)
    r = node.new_tree_with_self_replaced(repl)
    expect(snapshot(k) == before and snapshot(repl) == rb, 'replacing node {} of {} by {} modified an operand', pos, v, new)
    expect(canon(view(r)) == canon(view(repl)) and r is not repl, 'replacement returned {} for {}', view(r), new)
    expect(canon(view(r.root)) == canon(plug(v, pos, view(repl))), 'replacing node {} of {} by {} gave {}', pos, v, view(repl), view(r.root))
    bad = links_wrong(r.root._set_all_parents())
    expect(bad is None, 'after replacing node {} of {}: {}', pos, v, bad)
    owner = r.parent
    expect((r.root is r and owner is None) or any(n is owner for n in nodes_of(r.root)), 'the replaced node of {} hangs under a foreign parent', v)

CASES = {'expand_node': _expand_node, 'expand': _expand, 'replace': _replace}
def nontrivial(name, data): return name == 'expand' or len(positions(norm(data[0]))) > 1

def special(rng):
    A = norm(rand_tree(rng, 1))
    return rng.choice([[rng.choice(CHANGES), rng.choice(BASES), rng.choice(BASES)], [rng.choice(CHANGES), A, A], ['sum', [[rng.choice(CHANGES), 'PER', 'PER'], [rng.choice(CHANGES), 'LIN', 'SE']]],
                       ['mul', [['sum', ['PER', 'SE']], ['sum', ['PER', 'SE']], 'LIN']], ['sum', [['mul', ['PER', 'LIN']], ['mul', ['LIN', 'PER']], ['mul', ['PER', ['sum', ['SE', 'LIN']]]]]],
                       ['CP', ['CW', 'LIN', 'LIN'], 'LIN'], ['CW', 'PER', ['mul', ['PER', 'LIN']]]])

def layered(rng, depth, k = None):
    '''Alternating sums and products some levels deep: editing one level collapses it into its neighbours'''
    k = k or rng.choice(['sum', 'mul'])
    if depth == 0: return [k, rng.sample(['PER', 'LIN', 'SE'], 2)]
    kids = [layered(rng, depth - 1, 'mul' if k == 'sum' else 'sum')]
    if rng.random() < .3: kids.append([rng.choice(CHANGES), rng.choice(BASES), rng.choice(BASES)])
    if rng.random() < .3: kids.append(layered(rng, 0, 'mul' if k == 'sum' else 'sum'))
    if len(kids) < 2 or rng.random() < .4: kids.append(rng.choice(['PER', 'LIN', 'SE']))
    return [k, kids]

def generate(ctx):
    r = ctx.rng
    rules = list(ref_rules(BASES))
    for a, b in (('sum', 'mul'), ('mul', 'sum')):
        for x in ('PER', ['CP', 'PER', 'LIN']):
            s = [a, ['PER', [b, [[a, ['SE', 'PER', [b, ['PER', 'LIN']]]], x]]]]
            for rule in rules: yield 'expand', [s, [rule]]
    for s in BASES: yield 'expand', [s, rules]
    for c in CHANGES:
        for a in BASES:
            for b in BASES:
                for i in (1, 2): yield 'replace', [[c, a, b], i, ['mul', ['PER', 'LIN']]]
    for i in range(ctx.budget(400, 6000)):
        s = special(r) if i % 3 == 0 else norm(layered(r, r.choice([2, 3]))) if i % 3 == 1 and i % 2 else norm(rand_tree(r, r.choice([2, 2, 3])))
        yield 'expand_node', [s, r.randrange(12), r.choice(rules)]
        yield 'replace', [s, r.randrange(12), norm(rand_tree(r, 1))]
        yield 'replace', [s, r.randrange(12), r.choice([['sum', [x]] for x in BASES])]
        if i % 8 == 0: yield 'expand', [s, r.sample(rules, r.randint(1, 3))]
