import random, re
from collections import Counter
import numpy as np
from vf.core import expect
from vf.trees import *
from vf import kern as K
from props.c03 import components, n_components
from props import c01
LEVEL = 'other'
RULE = 'simplified expressions x parameter values; non-trivial: at least two terms'
NUM = re.compile(r'-?\d+\.\d+')

def f2(x): return '{:.2f}'.format(x)

def _interpret(data):
    spec, seed, fits = (*data, 0)[:3]
    kex = build_normal_root(spec)
    v = view(kex)
    r = random.Random(seed)
    ties = {1: True, 3: 'near'}.get(seed % 4, False)
    m = K.model_for(kex, r, 4, ties = ties)
    for _ in range(fits): # earlier fits of the same model, its description having been looked at after each
        m.interpret()
        K.refit(m, r, ties = ties)
    text = m.interpret()
    fresh = type(m)(m.X, m.Y, m.kernel_expression); fresh.model = m.model
    cs = components(fresh, v)
    lines = text.split('\n')
    expect(len(lines) == 1 + len(cs), 'the description of {} has {} component lines for {} components: {}', v, len(lines) - 1, len(cs), text)
    ns = re.findall(r'\d+', lines[0])
    expect(ns == [str(len(cs))], 'the description of {} announces {} for {} components', v, lines[0], len(cs))
    lines = [l.strip() for l in lines[1:]]
    todo = list(range(len(lines)))
    for c in cs: # Every component has its own line (in any order)
        need, ivals = Counter(), []
        for b, l in c.parameters.items():
            for p in l:
                if b in ('S', 'Sr', 'SI', 'SIr'): ivals.append((b, p))
                else: need.update(f2(float(x)) for x in p.values())
        ok = [i for i in todo if not (need - Counter(NUM.findall(lines[i]))) and says_intervals(lines[i], ivals)]
        expect(ok, '{}: no line mentions the values {} and intervals {} of a component: {}', v, dict(need), ivals, lines)
        todo.remove(ok[0])

def says_intervals(line, factors):
    '''the ends stated in the line are those of the intersection of the factors (up to rounding)'''
    if not factors: return True
    evs = sorted({float(x) for b, p in factors for _, x, _ in c01.ends(b, p)})
    pts = [evs[0] - 1] + [(a + b) / 2 for a, b in zip(evs, evs[1:])] + [evs[-1] + 1]
    inside = [all(c01.inside(b, p, x) for b, p in factors) for x in pts]
    if not any(inside): return bool(re.search(r'\b(nowhere|never|no)\b', line))
    want = Counter(f2(e) for e, a, b in zip(evs, inside, inside[1:]) if a != b)
    return not (want - Counter(NUM.findall(line)))

CASES = {'interpret': _interpret}
def nontrivial(name, data): return size(data[0]) > 2

def generate(ctx):
    from props import c03
    r = ctx.rng
    for s in ([['mul', ['PER', 'PER']], ['mul', ['PER', 'PER', 'PER']], ['mul', ['SE', 'LIN', 'LIN']], ['mul', ['LIN', 'LIN', 'LIN']], ['mul', ['PER', 'LIN', 'LIN', 'LIN']], ['CP', 'SE', 'LIN'], ['CW', 'PER', 'C'], ['CW', ['CP', 'SE', 'PER'], ['CW', 'LIN', 'SE']], ['mul', [['CW', 'SE', 'LIN'], ['CW', 'PER', 'LIN']]]]):
        for i in range(4): yield 'interpret', [s, 2 * r.randrange(10 ** 6) + 1]
    for name, data in c03.generate(ctx): yield 'interpret', data
