import contextlib, io, random
from collections import Counter
import numpy as np
from vf.core import expect
from vf.trees import *
from vf.search import Fitter
LEVEL = 'other'
RULE = 'histories: start lists (with duplicates) x rule sets x beams x rounds x continuations x scores (with ties) x verbose; non-trivial: at least one round'
RULES = [[], ['replace_with_singleton'], ['replace_base'], ['plus_base'], ['remove_some_term'], ['replace_base', 'remove_some_term'], ['plus_base', 'times_base'], ['change_point_linear', 'replace_base']]

def quiet(verbose): return contextlib.redirect_stdout(io.StringIO())

def key(k): return canon(view(k))

def run(data):
    '''Runs the real search (and continuations) and returns (result, fitter, stages)'''
    from GPy_ABCD.Models import modelSearch as M
    from GPy_ABCD.KernelExpansion.grammar import non_grouped_prs
    from GPy_ABCD.Util.modelUtil import BIC, AIC, AICc
    starts, rules, rounds, beam, conts, seed, ties, verbose = data
    p_rules = [non_grouped_prs[n] for n in RULES[rules]]
    f = Fitter(seed, ties)
    X = np.linspace(0, 1, 20)[:, None]
    score = [BIC, AIC, AICc][seed % 3]
    with quiet(verbose):
        res = M.explore_model_space(X, X * 2, start_kernels = [build_root(s) if not isinstance(s, str) else s for s in starts], p_rules = p_rules, utility_function = score, rounds = rounds,
                                    beam = beam, restarts = 2, model_list_fitter = f, max_retries = 1, verbose = verbose)
        stages = [(rounds, beam)]
        for rds, bm in conts:
            res = M.model_search_rounds(X, X * 2, *res, f, p_rules, score, rds, bm, 2, 'lbfgsb', 1, verbose)
            stages.append((rds, bm))
    return res, f, stages, p_rules, score

def beams(stages):
    out = []
    for r, b in stages:
        if isinstance(b, int): b = [b] * r
        b = b[:r] + [b[-1]] * (r - len(b)) if b else []
        out += b
    return out

def _search(data):
    from GPy_ABCD.KernelExpansion.grammar import expand
    (sorted_models, tested_models, tested_k_exprs, expanded, not_expanded), f, stages, p_rules, score = run(data)
    fitted = [m for c in f.calls for m in c['models']]
    ids = lambda ms: Counter(id(m) for m in ms)
    val = {id(m): score(m.model, m.model._ll, len(m.model.X), m.model._k) for m in fitted}
    names = [str(m.kernel_expression) for m in fitted]
    expect(ids(sorted_models) == ids(fitted), 'the best-first list has {} models, {} were fitted', len(sorted_models), len(fitted))
    vs = [val[id(m)] for m in sorted_models]
    expect(all(a <= b for a, b in zip(vs, vs[1:])), 'the best-first list is not in score order: {}', vs)
    expect(all(m.cached_utility_function == val[id(m)] for m in fitted), 'a model does not hold its score')
    expect(len(tested_models) == len(f.calls), '{} per-round lists after {} rounds', len(tested_models), len(f.calls))
    for i, (ms, c) in enumerate(zip(tested_models, f.calls)):
        expect(ids(ms) == ids(c['models']), 'the list of round {} does not hold that round\'s models', i)
        vs = [val[id(m)] for m in ms]
        expect(all(a <= b for a, b in zip(vs, vs[1:])), 'the list of round {} is not in score order', i)
    expect(Counter(map(key, tested_k_exprs)) == Counter(key(m.kernel_expression) for m in fitted), 'the tested expressions {} are not those of the fitted models {}', [str(k) for k in tested_k_exprs], names)
    later = [key(k) for c in f.calls[1:] for k in c['kexs']]
    start = [key(k) for k in f.calls[0]['kexs']]
    expect(len(start) == len(data[0]), '{} models for {} start kernels', len(start), len(data[0]))
    expect(len(later) == len(set(later)) and not set(later) & set(start), 'an expression is fitted twice: {}', names)
    expect(ids(expanded) + ids(not_expanded) == ids(fitted), 'expanded ({}) and not-expanded ({}) do not partition the {} models', len(expanded), len(not_expanded), len(fitted))
    # each round fits exactly the new expansions of the models it expands
    bs = beams(stages)
    expect(len(f.calls) == len(bs) + 1, '{} rounds instead of {}', len(f.calls) - 1, len(bs))
    done, pos = list(f.calls[0]['models']), 0
    tested = set(start)
    for b, c in zip(bs, f.calls[1:]):
        left = len(done) - pos
        now = expanded[pos:pos + min(b, left)]; pos += len(now)
        want = {key(k) for m in now for k in expand(m.kernel_expression, p_rules)} - tested
        got = {key(k) for k in c['kexs']}
        expect(got == want, 'a round expanding {} fits {} extra and misses {} expressions', [str(m.kernel_expression) for m in now], [x for x in got - want][:3], [x for x in want - got][:3])
        tested |= got; done += c['models']
    expect(len(expanded) == pos, '{} models expanded instead of {}', len(expanded), pos)

CASES = {'search': _search}
def nontrivial(name, data): return data[2] > 0

STARTS = ['WN', 'C', 'LIN', 'SE', 'PER', ['mul', ['LIN', 'LIN']], ['sum', ['PER', 'C']], ['CP', 'LIN', 'LIN'], ['mul', ['PER', 'LIN']]]
def history(r, conts = True):
    n = r.randint(1, 5)
    starts = [r.choice(STARTS) for _ in range(n)]
    rules = r.randrange(len(RULES))
    rounds = r.choice([0, 1, 1, 2, 2, 3]) if rules < 5 else r.choice([1, 2])
    beam = r.choice([1, 2, 3, 10 if rules < 4 else 2, [2, 1], [1], [1, 2, 3, 2], [3, 1]])
    cs = [[k, [r.choice([1, 2]) for _ in range(k)]] for k in [r.randint(1, 2) for _ in range(r.choice([0, 0, 1, 2]))]] if conts and rules < 6 else []
    return [starts, rules, rounds, beam, cs, r.randrange(10 ** 6), r.random() < .3, r.random() < .5]

def generate(ctx):
    r = ctx.rng
    for rules in (0, 1):
        for rounds in (0, 1, 4):
            for verbose in (True, False): yield 'search', [['WN', 'C'], rules, rounds, 3, [[2, [1, 2]]], 1, False, verbose]
    while True: yield 'search', history(r)
