'''Expression trees as plain data ("specs"): generators, building the real objects, abstraction back to data,
and an independent reference of the documented simplification identities, operators and production rules.

spec := 'WN'|'C'|'LIN'|'SE'|'PER' | ['sum', [spec..]] | ['mul', [spec..]] | ['CP'|'CW', spec, spec]
'''
from collections import Counter

BASES = ['WN', 'C', 'LIN', 'SE', 'PER']
STATIONARY = {'WN', 'C', 'SE', 'PER'}
CHANGES = ('CP', 'CW')


def kexs():
    from GPy_ABCD.KernelExpressions.all import SumKE, ProductKE, ChangeKE
    return SumKE, ProductKE, ChangeKE


## Building and abstraction

def build(s):
    '''The real (self-simplifying) constructors applied bottom-up; a bare base stays a string.'''
    SumKE, ProductKE, ChangeKE = kexs()
    if isinstance(s, str): return s
    if s[0] in CHANGES: return ChangeKE(s[0], build(s[1]), build(s[2]))
    cls = SumKE if s[0] == 'sum' else ProductKE
    return cls([x for x in s[1] if isinstance(x, str)], [build(x) for x in s[1] if not isinstance(x, str)])

def build_root(s):
    SumKE, ProductKE, ChangeKE = kexs()
    k = build(s)
    if isinstance(k, str): k = SumKE([k])
    return k._initialise()

def build_normal_root(s):
    '''A simplified, well-linked root, as search produces them (singleton roots standardised by the reference, not by the code under test)'''
    return build_root(norm(s))

def view(k):
    '''Abstraction of a real expression; counts that are not positive or bases that are not names show up as such'''
    SumKE, ProductKE, ChangeKE = kexs()
    if isinstance(k, str): return k
    if isinstance(k, ChangeKE): return [k.CP_or_CW, view(k.left), view(k.right)]
    items = []
    for b, n in k.base_terms.items(): items += [b] * n if n >= 0 else [['neg', b, n]]
    return ['sum' if isinstance(k, SumKE) else 'mul', items + [view(c) for c in k.composite_terms]]

def raw_counts_ok(k): return all(n > 0 for n in k.base_terms.values())


## Canonical (order-insensitive) form

def canon(s):
    if isinstance(s, str): return s
    if s[0] in CHANGES: return (s[0], canon(s[1]), canon(s[2]))
    if s[0] == 'neg': return tuple(s)
    return (s[0],) + tuple(sorted((canon(x) for x in s[1]), key = repr))

def size(s): return 1 if isinstance(s, str) else 1 + sum(size(x) for x in (s[1:] if s[0] in CHANGES else s[1]))


## Reference normal form by the documented identities

def norm(s, lin_offset = True):
    if isinstance(s, str): return s
    if s[0] in CHANGES: return [s[0], norm(s[1], lin_offset), norm(s[2], lin_offset)]
    kind, items = s[0], []
    for x in s[1]:
        n = norm(x, lin_offset)
        items += n[1] if not isinstance(n, str) and n[0] == kind else [n]
    bases, comps = [x for x in items if isinstance(x, str)], [x for x in items if not isinstance(x, str)]
    c = Counter(bases)
    if kind == 'sum':
        for b in ('WN', 'C'):
            if c[b] > 1: c[b] = 1
        if lin_offset and c['LIN'] > 0: c['C'] = 0
    else:
        if c['WN'] > 0: c = Counter({'WN': 1, 'LIN': c['LIN']})
        else:
            if c['SE'] > 1: c['SE'] = 1
            if c['C'] > 0: c['C'] = 0 if (sum(c.values()) - c['C'] + len(comps)) > 0 else 1
    bases = [b for b in BASES for _ in range(c[b])]
    items = bases + comps
    return items[0] if len(items) == 1 else [kind, items]

def cnorm(s): return canon(norm(s))

def is_normal(s, root = True, path = 'root'):
    '''The normal-form predicate on a view; returns None or what is wrong'''
    if isinstance(s, str): return None if s in BASES else f'unknown base {s!r} at {path}'
    if s[0] in CHANGES:
        for i in (1, 2):
            if r := is_normal(s[i], False, f'{path}.{s[0]}[{i}]'): return r
        return None
    if any(not isinstance(x, str) and x[0] == 'neg' for x in s[1]): return f'non-positive count at {path}'
    if len(s[1]) == 0: return f'empty {s[0]} at {path}'
    if not root and len(s[1]) == 1: return f'single-term {s[0]} below another node at {path}'
    if any(not isinstance(x, str) and x[0] == s[0] for x in s[1]): return f'{s[0]} directly inside {s[0]} at {path}'
    c = Counter(x for x in s[1] if isinstance(x, str))
    if s[0] == 'sum':
        if c['WN'] > 1 or c['C'] > 1 or (c['LIN'] and c['C']): return f'unsimplified base terms {dict(c)} in sum at {path}'
    elif c['WN'] > 1 or (c['WN'] and (c['SE'] or c['PER'] or c['C'])) or c['SE'] > 1 or (c['C'] and len(s[1]) > 1):
        return f'unsimplified base terms {dict(c)} in product at {path}'
    for i, x in enumerate(s[1]):
        if r := is_normal(x, False, f'{path}.{s[0]}[{i}]'): return r
    return None


## Reference operators (on specs; 'sum'/'mul'/change nodes or base strings)

def kind(s): return 'str' if isinstance(s, str) else 'change' if s[0] in CHANGES else s[0]
def bases_of(s): return [x for x in s[1] if isinstance(x, str)]
def comps_of(s): return [x for x in s[1] if not isinstance(x, str)]
def without(items, x):
    items = list(items); items.remove(x); return items

def ref_add(a, b, nested = True):
    res = [['sum', [a, b]]]
    if nested and {kind(a), kind(b)} == {'str', 'mul'}:
        base, p = (a, b) if isinstance(a, str) else (b, a)
        res += [['mul', without(bases_of(p), bt) + [['sum', [base, bt]]] + comps_of(p)] for bt in bases_of(p)]
    return res

def ref_multiply(a, b, nested = True):
    res = [['mul', [a, b]]]
    if nested and {kind(a), kind(b)} == {'str', 'sum'}:
        base, p = (a, b) if isinstance(a, str) else (b, a)
        res += [['sum', without(bases_of(p), bt) + [['mul', [base, bt]]] + comps_of(p)] for bt in bases_of(p)]
    return res

def uniq(xs):
    out = []
    for x in xs:
        if x not in out: out.append(x)
    return out

def ref_swap_base(S, B):
    k = kind(S)
    if k == 'str': return [B]
    if k == 'change':
        return ([[S[0], B, S[2]]] if isinstance(S[1], str) and S[1] != B else []) + ([[S[0], S[1], B]] if isinstance(S[2], str) and S[2] != B else [])
    return [[S[0], without(S[1], bt) + [B]] for bt in uniq(bases_of(S)) if bt != B]

def same_kex(a, b): return canon(a) == canon(b)
def ref_one_change(S, c, S2 = None):
    return [[c, S, S]] if S2 is None or same_kex(S, S2) else [[c, S, S2], [c, S2, S]]
def ref_both_changes(S, S2 = None): return ref_one_change(S, 'CP', S2) + ref_one_change(S, 'CW', S2)
def ref_replace_node(S, S2): return [S2]
def ref_remove_a_term(S):
    k = kind(S)
    if k == 'change': return [S[1], S[2]]
    if len(S[1]) <= 1: return []
    return [[S[0], without(S[1], bt)] for bt in uniq(bases_of(S))] + [[S[0], bases_of(S) + comps_of(S)[:i] + comps_of(S)[i + 1:]] for i in range(len(comps_of(S)))]
def ref_higher_curves(S):
    k, L2, L3 = kind(S), ['mul', ['LIN', 'LIN']], ['mul', ['LIN', 'LIN', 'LIN']]
    if k == 'change':
        return [[S[0], ct, S[2]] for ct in (L2, L3) if isinstance(S[1], str)] + [[S[0], S[1], ct] for ct in (L2, L3) if isinstance(S[2], str)]
    rest = [b for b in bases_of(S) if b != 'SE'] + comps_of(S)
    if k == 'sum': return [['sum', rest + [ct]] for ct in (L2, L3)]
    return [['mul', rest + ['LIN'] * n] for n in (2, 3)] + [['mul', rest + (['PER'] if 'PER' in bases_of(S) else ['PER', 'PER'])]]


## Reference production rules: node spec -> list of replacement specs

def ref_rules(prod_bases):
    no_C = [b for b in prod_bases if b != 'C']
    f = lambda ll: [x for l in ll for x in l]
    return {
        'plus_base': lambda S: f(ref_add(S, B) for B in prod_bases),
        'times_base': lambda S: f(ref_multiply(S, B) for B in no_C),
        'replace_base': lambda S: f(ref_swap_base(S, B) for B in prod_bases),
        'change_new_base': lambda S: f(ref_both_changes(S, B) for B in no_C),
        'change_same': lambda S: ref_both_changes(S),
        'change_window_constant': lambda S: ref_one_change(S, 'CW', 'C'),
        'change_window_linear': lambda S: ref_one_change(S, 'CW', 'LIN'),
        'change_point_linear': lambda S: ref_one_change(S, 'CP', 'LIN'),
        'times_shifted_base': lambda S: f(ref_multiply(S, ['sum', [B, 'C']], ) for B in no_C),
        'replace_with_singleton': lambda S: list(prod_bases),
        'remove_some_term': lambda S: ref_remove_a_term(S),
        'try_higher_curves': lambda S: ref_higher_curves(S),
    }

def positions(s, as_leaf = False):
    '''Paths of all nodes of a (viewed) tree: () is the root; base branches of change operators are nodes too'''
    out = [()]
    if not isinstance(s, str):
        if s[0] in CHANGES:
            for i in (1, 2): out += [(i,) + p for p in positions(s[i])]
        else:
            for i, x in enumerate(s[1]):
                if not isinstance(x, str): out += [(1, i) + p for p in positions(x)]
    return out

def at(s, path):
    for i in path: s = s[i]
    return s

def plug(s, path, new):
    if not path: return new
    out = list(s); out[path[0]] = plug(s[path[0]], path[1:], new); return out

def ref_expand(s, rule_names, prod_bases):
    rules, out = ref_rules(prod_bases), {}
    for p in positions(s):
        node = at(s, p)
        if isinstance(node, str): node = ['sum', [node]] # stand-in for a base branch
        for r in rule_names:
            for new in rules[r](node): out.setdefault(cnorm(plug(s, p, new)), (r, p))
    return out


## Generators

def all_specs(depth, max_items, bases = BASES, changes = True):
    '''Every tree up to a small size (used for exhaustive small scopes)'''
    from itertools import combinations_with_replacement as cwr
    level = list(bases)
    for _ in range(depth):
        new = list(level)
        for k in ('sum', 'mul'):
            for n in range(1, max_items + 1): new += [[k, list(c)] for c in cwr(level, n)]
        if changes: new += [[c, a, b] for c in CHANGES for a in level for b in level]
        level = new
    return level

def rand_spec(rng, depth, max_items = 3, p_base = 0.45, bases = BASES, singles = True, p_change = 0.2):
    if depth == 0 or rng.random() < p_base: return rng.choice(bases)
    r = rng.random()
    sub = lambda: rand_spec(rng, depth - 1, max_items, p_base, bases, singles, p_change)
    if r < p_change: return [rng.choice(CHANGES), sub(), sub()]
    k = rng.choice(['sum', 'mul'])
    lo = 1 if singles and rng.random() < 0.25 else 2
    items = [sub() for _ in range(rng.randint(lo, max(lo, max_items)))]
    if rng.random() < 0.25: items.append(rng.choice(items)) # repeated terms
    rng.shuffle(items)
    return [k, items]

def rand_tree(rng, depth = 3, **k):
    while True:
        s = rand_spec(rng, depth, **{'p_base': 0.3, **k})
        if not isinstance(s, str): return s

def shuffled(rng, s):
    if isinstance(s, str): return s
    if s[0] in CHANGES: return [s[0], shuffled(rng, s[1]), shuffled(rng, s[2])]
    items = [shuffled(rng, x) for x in s[1]]; rng.shuffle(items); return [s[0], items]

def build_raw(s):
    '''A real tree with exactly the given shape, assembled without letting any constructor simplify it'''
    SumKE, ProductKE, ChangeKE = kexs()
    if isinstance(s, str): return s
    if s[0] in CHANGES:
        k = ChangeKE(s[0], 'C', 'C'); k.left, k.right = build_raw(s[1]), build_raw(s[2]); return k
    k = (SumKE if s[0] == 'sum' else ProductKE)([])
    for b in s[1]:
        if isinstance(b, str): k.base_terms[b] += 1
        else: k.composite_terms.append(build_raw(b))
    return k

def link(k): return k.set_root()._set_all_parents()

def nodes_of(k):
    '''All composite node objects of a real tree (independent of traverse)'''
    SumKE, ProductKE, ChangeKE = kexs()
    if isinstance(k, str): return []
    kids = [k.left, k.right] if isinstance(k, ChangeKE) else list(k.composite_terms)
    return [k] + [n for c in kids for n in nodes_of(c)]

def snapshot(k):
    '''Everything observable about a tree, for frame checks: shape in stored order, links by identity, parameters'''
    SumKE, ProductKE, ChangeKE = kexs()
    if isinstance(k, (str, int, float, type(None))): return k
    own = [id(k), type(k).__name__, id(k.root), id(k.parent), k.GPy_name, {a: [dict(p) if isinstance(p, dict) else p for p in b] for a, b in k.parameters.items()}]
    if isinstance(k, ChangeKE): return own + [k.CP_or_CW, snapshot(k.left), snapshot(k.right)]
    return own + [dict(k.base_terms), [snapshot(c) for c in k.composite_terms]]

def links_wrong(root):
    '''None, or what is wrong with the parent/root links of the tree under root'''
    SumKE, ProductKE, ChangeKE = kexs()
    if root.parent is not None: return 'the root has a parent'
    def go(k):
        if k.root is not root: return f'a node ({k!r}) has another root'
        kids = [k.left, k.right] if isinstance(k, ChangeKE) else list(k.composite_terms)
        for c in kids:
            if isinstance(c, str): continue
            if c.parent is not k: return f'the parent of {c!r} is not the node containing it'
            if r := go(c): return r
        return None
    return go(root)
