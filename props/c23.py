import math
import numpy as np
from vf.core import expect
from vf.trees import *
from vf.search import Fitter, FakeGPy
LEVEL = 'other'
RULE = 'flat lists, ranges, integer and float arrays and two-dimensional arrays x functions x change positions; non-trivial: at least two inputs'

FS = {'square': lambda x: x * x, 'half': lambda x: x / 2, 'three': lambda x: 3, 'int': lambda x: int(x), 'sin': lambda x: math.sin(x), 'neg': lambda x: -2 * x + 0.25, 'step': lambda x: 0 if x < 0 else x + .5}

def form(xs, how):
    if how == 'list': return list(xs)
    if how == 'tuple': return tuple(xs)
    if how == 'array': return np.array(xs)
    if how == 'range': return range(len(xs))
    return np.array(xs)[:, None]

def is_column(got, X, what):
    want = np.array(list(X) if not isinstance(X, np.ndarray) else X)
    if want.ndim == 1: want = want[:, None]
    expect(isinstance(got, np.ndarray) and got.shape == want.shape and np.array_equal(got, want), '{}: the input {} became {}', what, X, np.asarray(got).tolist())

def close(a, b): return a.shape == b.shape and bool(np.all(np.abs(a - b) <= 1e-9 * (1 + np.abs(b))))

def _gen(data):
    from GPy_ABCD.Util import dataAndPlottingUtil as D
    kind, xs, how, f1, f2, lo, hi, line_up, weight = data
    a, b, X = FS[f1], FS[f2], form(xs, how)
    if kind == 'plain': x, y = D.generate_data(a, X, weight, 0)
    elif kind == 'cp': x, y = D.generate_changepoint_data(X, a, b, lo, weight, 0, line_up)
    else: x, y = D.generate_changewindow_data(X, a, b, lo, hi, weight, 0, line_up)
    is_column(x, X, kind)
    def want(t):
        if kind == 'plain': return a(t)
        if kind == 'cp': return a(t) if t < lo else b(t) + (a(lo) - b(lo) if line_up else 0)
        shift1 = a(lo) - b(lo) if line_up else 0
        if t < lo: return a(t)
        if t <= hi: return b(t) + shift1
        return a(t) + (b(hi) + shift1 - a(hi) if line_up else 0)
    w = np.array([[float(want(t)) * weight for t in row] for row in x])
    expect(close(np.asarray(y, float), w), '{} on {} ({}) with {}, {}, {}, {}, line_up {}: {} instead of {}', kind, list(xs), how, f1, f2, lo, hi, line_up, np.asarray(y).ravel().tolist(), w.ravel().tolist())

def _maker(data):
    from GPy_ABCD.Util import dataAndPlottingUtil as D
    kind, xs, f1, f2, lo, hi, line_up = data
    a, b = FS[f1], FS[f2]
    f = D.cp_f_maker(a, b, lo, line_up) if kind == 'cp' else D.cw_f_maker(a, b, lo, hi, line_up)
    if line_up: # continuous at each change: the curve just after (before) a change tends to its value at the change
        for c in ([lo] if kind == 'cp' else [lo, hi]):
            if f1 in ('int', 'step') or f2 in ('int', 'step'): continue
            e = 1e-7
            v = np.asarray(f(np.array([c - e, c, c + e])), float)
            expect(abs(v[0] - v[1]) < 1e-4 and abs(v[2] - v[1]) < 1e-4, '{} aligned, {}, {}: jumps at {}: {}', kind, f1, f2, c, v)
    else:
        v = np.asarray(f(np.array(xs)), float)
        w = np.array([float(a(t) if (t < lo if kind == 'cp' else (t < lo or t > hi)) else b(t)) for t in xs])
        expect(close(v, w), '{} of {}, {} at {}, {}: {} instead of {} on {}', kind, f1, f2, lo, hi, v.tolist(), w.tolist(), xs)

def _noise(data):
    from GPy_ABCD.Util import dataAndPlottingUtil as D
    xs, how, w = data
    np.random.seed(5)
    x, y = D.generate_data(lambda t: 2, form(xs, how), 3, w)
    np.random.seed(5)
    e = np.random.randn(*x.shape)
    expect(close(y, 6 + w * e), 'noise of weight {} on {}', w, how)

def _search(data):
    from GPy_ABCD.Models import modelSearch as M
    xs, ys, how = data
    f = Fitter(1)
    X, Y = form(xs, how), form(ys, how)
    M.explore_model_space(X, Y, start_kernels = ['LIN'], p_rules = [], rounds = 1, beam = 1, model_list_fitter = f, verbose = False)
    for c in f.calls:
        is_column(c['X'], X, 'search inputs'); is_column(c['Y'], Y, 'search outputs')

def _fit_kex(data):
    from GPy_ABCD.Util import modelUtil as U
    from GPy_ABCD.Models.model import GPModel
    xs, ys, how = data
    X, Y = form(xs, how), form(ys, how)
    orig, seen = GPModel.fit, []
    def fit(m, *a, **k): seen.append(m); m.model = FakeGPy(m.X, 1., 2); return m
    try:
        GPModel.fit = fit
        m = U.fit_kex(X, Y, build_root('LIN'), 1)
    finally: GPModel.fit = orig
    expect(len(seen) == 1 and m is seen[0], 'fit_kex fits {} models', len(seen))
    is_column(m.X, X, 'fit_kex inputs'); is_column(m.Y, Y, 'fit_kex outputs')

CASES = {'gen': _gen, 'maker': _maker, 'noise': _noise, 'search': _search, 'fit_kex': _fit_kex}
def nontrivial(name, data): return True

def generate(ctx):
    r = ctx.rng
    hows = ['list', 'tuple', 'array', 'range', 'column']
    def pts(n = 6):
        n = r.randint(1, n) if r.random() < .98 else r.choice([20, 70, 150, 600])
        return r.choice([[r.randint(-5, 5) for _ in range(n)], [round(r.uniform(-5, 5), 3) for _ in range(n)], list(range(n))])
    for how in hows:
        for _ in range(3):
            n = r.choice([1, 3, 6, 40, 150]); xs = [r.randint(-5, 5) for _ in range(n)]; ys = [r.uniform(-5, 5) for _ in range(n)]
            yield 'search', [xs, ys, how]
            yield 'fit_kex', [xs, ys, how]
    end = 8000 if ctx.quick else 10 ** 9
    for _ in range(end):
        lo = r.choice([r.randint(-3, 3), r.uniform(-3, 3)]); hi = lo + r.choice([0, 1, 2, r.uniform(0, 3)])
        f1, f2 = r.choice(list(FS)), r.choice(list(FS))
        xs = pts()
        if r.random() < .6: xs += [lo, hi]
        yield 'gen', [r.choice(['plain', 'cp', 'cw']), xs, r.choice(hows), f1, f2, lo, hi, r.random() < .5, r.choice([1, 2, .5])]
        yield 'maker', [r.choice(['cp', 'cw']), xs, f1, f2, lo, hi, r.random() < .5]
        if r.random() < .05: yield 'noise', [xs, r.choice(hows), r.choice([0, 1, 2.5])]
