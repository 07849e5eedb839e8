from collections import Counter
import copy
from vf.core import expect, Violated
LEVEL = 'other'
RULE = 'random lists over small alphabets (hashable, unhashable and equality-only elements), graphs, dictionaries, intervals; non-trivial: non-empty input'

class E:
    '''Elements with equality only (no hash), as kernel expressions are'''
    def __init__(self, v, tag = 0): self.v, self.tag = v, tag
    def __eq__(self, o): return isinstance(o, E) and self.v == o.v
    __hash__ = None
    def __repr__(self): return f'E{self.v}.{self.tag}'

def G():
    from GPy_ABCD.Util import genericUtil as g
    return g
def wrap(xs, how): return [E(x, i) if how == 'E' else [x] if how == 'list' else x for i, x in enumerate(xs)]
def ident(a, b): return len(a) == len(b) and all(x is y for x, y in zip(a, b))

def frame(f, *args):
    before = [(a, list(a)) if isinstance(a, list) else (a, copy.deepcopy(a)) for a in args]
    res = f(*args)
    for a, b in before: expect(ident(a, b) if isinstance(a, list) else a == b, '{} modified its argument {}', f, b)
    return res

def _unique(data):
    xs = wrap(data[0], data[1])
    want = [x for i, x in enumerate(xs) if x not in xs[:i]]
    got = frame(G().unique, xs)
    expect(isinstance(got, list) and ident(got, want), 'unique({}) is {}', xs, got)
    if data[1] == '': expect(set(G().unique_h(xs)) == set(xs), 'unique_h')

def _diff(data):
    xs, ys = wrap(data[0], data[2]), wrap(data[1], data[2])
    want = list(xs)
    for y in ys:
        for i, x in enumerate(want):
            if x == y: del want[i]; break
    got = frame(G().diff, xs, ys)
    expect(ident(got, want), 'diff({}, {}) is {}, not {}', xs, ys, got, want)

def _eq_elems(data):
    xs, ys = wrap(data[0], data[2]), wrap(data[1], data[2])
    got = frame(G().eq_elems, xs, ys)
    expect(got is (Counter(data[0]) == Counter(data[1])), 'eq_elems({}, {}) is {}', xs, ys, got)

def _partition(data):
    xs = wrap(data[0], data[1])
    seen = []
    p = lambda x: (seen.append(x), (x.v if isinstance(x, E) else x[0] if isinstance(x, list) else x) % 3 == 0)[1]
    raw = lambda x: x.v if isinstance(x, E) else x[0] if isinstance(x, list) else x
    a, b = frame(lambda l: G().partition(p, l), xs)
    expect(ident(list(a), [x for x in xs if raw(x) % 3 == 0]) and ident(list(b), [x for x in xs if raw(x) % 3 != 0]), 'partition of {} is {}, {}', xs, a, b)
    g = frame(lambda l: G().group_by(lambda x: raw(x) % 3, l), xs)
    expect(set(g.keys()) == {x % 3 for x in data[0]} and all(ident(v, [x for x in xs if raw(x) % 3 == k]) for k, v in g.items()), 'group_by of {} is {}', xs, dict(g))
    f = G().first(lambda x: raw(x) % 3 == 0, xs, 'none')
    m = [x for x in xs if raw(x) % 3 == 0]
    expect(f is (m[0] if m else f) and (m or f == 'none'), 'first of {} is {}', xs, f)

def _flatten(data):
    xss = [wrap(x, data[1]) for x in data[0]]
    got = frame(G().flatten, xss)
    expect(ident(list(got), [x for l in xss for x in l]), 'flatten({}) is {}', xss, got)
    xs, n = [x for l in xss for x in l], data[2]
    cs = [list(c) for c in frame(lambda l: list(G().chunk(l, n)), xs)]
    expect(ident([x for c in cs for x in c], xs) and all(len(c) == n for c in cs[:-1]) and all(0 < len(c) <= n for c in cs), 'chunk({}, {}) is {}', xs, n, cs)
    if xss and len({len(x) for x in xss}) == 1 and len(xss[0]):
        expect(G().unzip(xss) == [list(t) for t in zip(*xss)], 'unzip({})', xss)

def _topological(data):
    n, edges = data # edges: node -> prerequisites
    nodes = [(i, list(ds)) for i, ds in edges]
    keep = copy.deepcopy(nodes)
    ids = [i for i, _ in nodes]
    rest, ok = [(i, {d for d in ds}) for i, ds in nodes], True
    avail = set()
    while rest: # acyclic (and every prerequisite listed) iff nodes can be consumed
        ready = [i for i, ds in rest if not ds - avail]
        if not ready: ok = False; break
        avail |= set(ready); rest = [(i, ds) for i, ds in rest if i not in avail]
    try: got = G().topological_sort(nodes)
    except ValueError: expect(not ok, 'topological_sort({}) raises on an acyclic graph', nodes); got = None
    else:
        expect(ok, 'topological_sort({}) returns {} on a cyclic graph', nodes, got)
        expect(Counter(got) == Counter(ids), 'topological_sort({}) is {}', nodes, got)
        for i, ds in nodes: expect(all(got.index(d) < got.index(i) for d in ds), 'topological_sort({}) lists {} before a prerequisite: {}', nodes, i, got)
    expect(nodes == keep, 'topological_sort modified its argument')

def _dict(data):
    a, b = data
    d0, d1 = {k: list(v) for k, v in a.items()}, {k: list(v) for k, v in b.items()}
    got = G().update_dict_with(d0, d1, lambda x, y: x + ['|'] + y)
    want = {k: (a[k] + ['|'] + b[k] if k in a and k in b else a.get(k, b.get(k))) for k in list(a) + [k for k in b if k not in a]}
    expect(dict(got) == want, 'update_dict_with({}, {}) is {}', a, b, got)
    expect(d1 == b, 'update_dict_with modified its second argument')

def _overlap(data):
    a, b = data
    want = max(0, min(a[1], b[1]) - max(a[0], b[0]))
    got = G().interval_overlap(tuple(a), tuple(b))
    expect(got == want, 'interval_overlap({}, {}) is {}', a, b, got)

def _fold(data):
    xs, k = data
    orig = list(xs)
    acc, rest = G().foldq(lambda acc, x: acc + [x], lambda acc, x, l: l, lambda x: x % 3 != k, xs, [])
    expect(xs == orig, 'foldq modified its argument')
    expect(acc == [x for x in xs if x % 3 != k] and list(rest) == [x for x in xs if x % 3 == k], 'foldq on {} gives {}, {}', xs, acc, rest)
    try: r, raised = G().foldq_(lambda acc, x: acc + [x], lambda acc, x, l: l, lambda x: x % 3 != k, xs, []), False
    except ValueError: raised = True
    expect(raised == any(x % 3 == k for x in xs), 'foldq_ on {} raises: {}', xs, raised)

CASES = {'unique': _unique, 'diff': _diff, 'eq_elems': _eq_elems, 'partition': _partition, 'flatten': _flatten, 'topological': _topological, 'dict': _dict, 'overlap': _overlap, 'fold': _fold}
def nontrivial(name, data): return bool(data[0])

def generate(ctx):
    r = ctx.rng
    def xs(n = 7): return [r.randint(0, 4) for _ in range(r.randint(0, n))]
    end = 60000 if ctx.quick else 10 ** 9
    for _ in range(end):
        how = r.choice(['', 'E', 'list'])
        a, b = xs(), xs()
        if r.random() < .4: b = list(a); r.shuffle(b)
        if r.random() < .2 and b: b[r.randrange(len(b))] = 9
        yield 'unique', [a, how]
        if r.random() < .002: # long lists of mostly different elements
            m = r.choice([17, 40, 70, 130, 300]); big = [r.randrange(2 * m) for _ in range(m)] + [0]; other = r.sample(big, len(big) - 1)
            for q in ('', 'E', 'list'): yield 'unique', [big + big[:3], q]; yield 'diff', [big, other, q]; yield 'eq_elems', [big, other + [big[0]], q]; yield 'partition', [big, q]
            yield 'flatten', [[big, other], '', r.choice([1, 7, 50])]
            yield 'topological', [m, [[i, [i + 1] if i + 1 < m else []] for i in range(m)]]
            yield 'fold', [big, r.randint(0, 3)]
        yield 'diff', [a, b, how]
        yield 'eq_elems', [a, b, how]
        yield 'partition', [a, how]
        yield 'flatten', [[xs(4) for _ in range(r.randint(0, 4))], how, r.randint(1, 4)]
        n = r.randint(0, 6)
        perm = list(range(n)); r.shuffle(perm)
        dag = [[i, sorted(set(r.choice(perm[:j]) for _ in range(r.randint(0, 2)))) if j else []] for j, i in enumerate(perm)]
        r.shuffle(dag)
        if dag and r.random() < .25: dag[r.randrange(n)][1].append(r.randrange(n))
        yield 'topological', [n, dag]
        yield 'dict', [{c: xs(3) for c in 'abcd' if r.random() < .5}, {c: xs(3) for c in 'abcde' if r.random() < .5}]
        def iv(): x, y = sorted([r.randint(0, 9), r.randint(0, 9)]); return [x, y]
        yield 'overlap', [iv(), iv()]
        yield 'fold', [xs(), r.randint(0, 3)]
