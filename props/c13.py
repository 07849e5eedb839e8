from vf.core import expect
from vf.trees import *
LEVEL = 'other'
RULE = 'random simplified trees x base-kernel sets x recording functions; non-trivial: at least two nodes'

def flat(s): return [s] if isinstance(s, str) else [b for x in (s[1:] if s[0] in CHANGES else s[1]) for b in flat(x)]
def has_change(s): return not isinstance(s, str) and (s[0] in CHANGES or any(has_change(x) for x in s[1]))

def _root(spec):
    k = build_normal_root(spec)
    return k, view(k)

def _contains(data):
    spec, bs = data
    k, v = _root(spec)
    want = any(b in flat(v) for b in bs)
    before = snapshot(k)
    for arg in ([bs] if len(bs) != 1 else [bs, bs[0]]):
        expect(bool(k.contains_base(arg)) == want, '{}.contains_base({}) is {}', v, arg, k.contains_base(arg))
    expect(snapshot(k) == before, 'contains_base modified {}', v)

def _stationary(spec):
    k, v = _root(spec)
    before = snapshot(k)
    expect(bool(k.is_stationary()) == (not has_change(v) and 'LIN' not in flat(v)), '{}.is_stationary() is {}', v, k.is_stationary())
    expect(snapshot(k) == before, 'is_stationary modified {}', v)

def stand(x): return ['sum', [x]] if isinstance(x, str) else x

def _traverse(spec):
    k, v = _root(spec)
    before = snapshot(k)
    got = k.traverse()
    expect(snapshot(k) == before, 'traverse modified {}', v)
    expect(got[0] is k, 'traverse of {} does not start with the root', v)
    want = nodes_of(k)
    ids = [id(n) for n in got]
    expect(len(ids) == len(set(ids)), 'traverse of {} repeats a node', v)
    missing = [n for n in want if id(n) not in ids]
    expect(not missing, 'traverse of {} misses {}', v, [view(m) for m in missing])
    others = [n for n in got if id(n) not in {id(w) for w in want}]
    leaves = sorted(at(v, p) for p in positions(v) if isinstance(at(v, p), str))
    expect(sorted(view(o)[1][0] if kind(view(o)) == 'sum' and len(view(o)[1]) == 1 else '?' for o in others) == leaves, 'traverse of {} has stand-ins {} for the leaves {}', v, [view(o) for o in others], leaves)
    for o in others: expect(any(o.parent is w for w in want) and o.root is k.root, 'a stand-in in the traversal of {} is not linked to its change operator', v)
    for n in got:
        if n.parent is not None and id(n) in {id(w) for w in want}: expect(ids.index(id(n.parent)) < ids.index(id(n)), 'traverse of {} lists a node before its parent', v)

def _reduce(spec):
    k, v = _root(spec)
    order = [canon(view(n)) for n in k.traverse()]
    seen = []
    def f(node, acc):
        seen.append(canon(view(node)))
        return acc + [len(acc)]
    res = k.reduce(f, ['start'])
    expect(seen == order, 'reduce over {} applied the function to {} but traverse lists {}', v, seen, order)
    expect(res == ['start'] + list(range(1, len(order) + 1)), 'reduce over {} threaded its accumulator to {}', v, res)

CASES = {'contains': _contains, 'stationary': _stationary, 'traverse': _traverse, 'reduce': _reduce}
def nontrivial(name, data): return len(positions(norm(data[0] if name == 'contains' else data))) > 1

def generate(ctx):
    r = ctx.rng
    for s in all_specs(1, 2):
        yield 'stationary', s; yield 'traverse', s; yield 'reduce', s
        for b in BASES: yield 'contains', [s, [b]]
    for i in range(ctx.budget(2500, 25000)):
        # trees over few bases too, so that absence is as likely as presence
        bs = r.sample(BASES, r.randint(1, 4))
        s = norm(rand_spec(r, r.choice([2, 3, 4]), p_base = .3, bases = bs, p_change = r.choice([0, .2, .4])))
        yield 'contains', [s, r.sample(BASES, r.randint(0, 3))]
        yield 'stationary', s
        if i % 2: yield 'traverse', s
        else: yield 'reduce', s
