'''Interval arithmetic of the change factors, at an arbitrary probe point t which is not an end of any factor or interval.

Specification (from the parameters alone): S holds right of its location, Sr left of it, SI strictly between location and location + width,
SIr outside of that. all_<kind> is "every factor of that kind holds at t" for lists of factors of any length.'''
from itertools import permutations
from vc.engine import *
from vc import engine as _e

def inside(kind, p, t):
    l = p['location'].z
    if kind == 'S': return t > l
    if kind == 'Sr': return t < l
    r = l + p['width'].z
    hit = z3.And(l < t, t < r)
    return hit if kind == 'SI' else z3.Not(hit)

def den(i, t):
    '''an interval dictionary contains t'''
    c = []
    if 'start' in i: c.append(t > zv(i['start']))
    if 'end' in i: c.append(t < zv(i['end']))
    return z3.And(*c) if c else z3.BoolVal(True)

def den1(i, side, t): return t > zv(i['start']) if side == 'start' else t < zv(i['end'])

R_, B_ = z3.RealSort(), z3.BoolSort()
okf = dict(start = z3.Function('is_a_start_with_slope', R_, R_, B_), end = z3.Function('is_an_end_with_slope', R_, R_, B_))

def prove(P):
    E = P.E
    E.branch_timeout = 2000
    import GPy_ABCD.KernelExpansion.kernelInterpretation as ki
    FLAG = '__FIX_SIGMOIDAL_KERNELS_SLOPE'
    P.assume_note('locations, widths and slopes are mathematical reals (location + width is exact); widths are positive',
                  'each listed kind of factor has at least one factor (ordinary product parameters)',
                  'the probe point differs from every end (ends themselves are boundary points of the description)')

    class State: pass
    S = State()
    def reset(free):
        S.t = Real('t').z; S.free = free; S.made = {k: [] for k in ('S', 'Sr', 'SI', 'SIr')}; S.other = []; S.elems = []
        S.holes = []
    def slope_of(p): return p['slope'].z if S.free else z3.RealVal(1)
    def factor(kind, name, record = True):
        p = {'location': Real(f'{name}.location')}
        if S.free: p['slope'] = Real(f'{name}.slope')
        if kind in ('SI', 'SIr'):
            p['width'] = Real(f'{name}.width'); E.assume(p['width'] > 0)
        l = p['location'].z; E.assume(S.t != l)
        sl = slope_of(p)
        if kind in ('SI', 'SIr'):
            r = l + p['width'].z; E.assume(S.t != r)
            a, b = (('start', l), ('end', r)) if kind == 'SI' else (('end', l), ('start', r))
            E.assume(okf[a[0]](a[1], sl)); E.assume(okf[b[0]](b[1], sl))
        else: E.assume(okf['start' if kind == 'S' else 'end'](l, sl))
        if record: S.made[kind].append(p)
        return p
    def generic_interval(kind, name):
        i = {}
        if kind in ('S', 'SI'): i['start'], i['start_slope'] = Real(name + '.start'), Real(name + '.start_slope')
        if kind in ('Sr', 'SI'): i['end'], i['end_slope'] = Real(name + '.end'), Real(name + '.end_slope')
        if kind == 'SI': E.assume(i['start'] < i['end'])
        for s in ('start', 'end'):
            if s in i: E.assume(i[s].z != S.t); E.assume(okf[s](i[s].z, i[s + '_slope'].z))
        return i

    class FactorSeg(Seg):
        '''Any number of factors of one kind, through a chain of element-wise maps.'''
        def __init__(self, kind, holds, maps = (), core = None, empty_ok = False):
            self.kind, self.holds, self.maps = kind, holds, maps
            self.core = core or State()
            if core is None: self.core.wit, self.core.first, self.core.rest, self.core.n = None, None, None, None
            self.empty_ok = empty_ok
        def app(self, p):
            for f in self.maps: p = f(p)
            return p
        def length(self):
            if self.core.n is None:
                self.core.n = Int(f'n_{self.kind}'); E.assume(self.core.n >= (0 if self.empty_ok else 1))
            return self.core.n
        def comp(self, f, c, where):
            if c is not None: raise Unsupported('filtering factors')
            return [FactorSeg(self.kind, self.holds, self.maps + (f,), self.core, self.empty_ok)]
        def extremum(self, name, key):
            if self.empty_ok: raise Unsupported('extremum of a possibly empty part')
            if self.core.wit is None:
                w = factor(self.kind, f'{self.kind}_w'); self.core.wit = w
                E.assume(z3.Implies(self.holds, inside(self.kind, w, S.t)))
                E.assume(z3.Implies(z3.Not(self.holds), z3.Not(inside(self.kind, w, S.t))))
            c = factor(self.kind, f'{self.kind}_{name}')
            E.assume(z3.Implies(self.holds, inside(self.kind, c, S.t)))
            cand, w = self.app(c), self.app(self.core.wit)
            a, b = key(cand), key(w)
            E.assume(a <= b if name == 'min' else a >= b)
            return cand
        def head(self):
            if self.core.first is None:
                p = factor(self.kind, f'{self.kind}_first')
                rest = z3.Bool(f'all_rest_{self.kind}')
                E.assume(self.holds == z3.And(inside(self.kind, p, S.t), rest))
                self.core.first, self.core.rest = p, FactorSeg(self.kind, rest, empty_ok = True)
            return self.core.first
        def side(self, side):
            '''every factor has this end (start or end) on the right side of the probe point'''
            if self.kind != 'SI': return self.holds
            if not hasattr(self.core, 'sides'):
                self.core.sides = {e: E.fresh(f'all_{e}s_{self.kind}', B_) for e in ('start', 'end')}
                E.assume(self.holds == z3.And(*self.core.sides.values()))
            return self.core.sides[side]
        def loop_spec(self, where, loc, names): return Extreme(self, where, names)
        def fold(self, f, acc):
            if self.kind not in ('SIr',) and self.kind not in ('SI', 'S', 'Sr'): raise Unsupported('fold')
            d0 = den_list(acc)
            if E.choose(2, 'fold') == 0:
                D = E.fresh('D_prefix', B_)
                p = factor(self.kind, f'{self.kind}_next', record = False)
                a = SList([IntervalsSeg(D, 'acc')])
                S.holes.append(p)
                r = f(a, self.app(p))
                wellformed('fold step', r)
                E.prove('fold step: the accumulated intervals are intersected with the next factor', den_list(r) == z3.And(D, inside(self.kind, p, S.t)), '', case_step(self.kind, p))
                raise PathEnd
            return SList([IntervalsSeg(z3.And(d0, self.holds), 'folded')])

    SIDES = {}
    class Watched(dict):
        '''an interval of which the ends looked at are remembered'''
        def __getitem__(self, k):
            if k in ('start', 'end'): self.sides.add(k)
            return dict.__getitem__(self, k)
    class Extreme(LoopSpec):
        '''for p in <factors>: one variable holds the best factor so far: the point is beyond its end of interest exactly when it is beyond those of all factors so far.'''
        def __init__(self, seg, where, names): self.seg, self.where, self.names = seg, where, names
        def entry(self, loc):
            ks = [k for k in self.names if k in loc and (loc[k] is None or isinstance(loc[k], dict) and ('start' in loc[k] or 'end' in loc[k]))]
            if len(ks) != 1: raise Unsupported(f'the loop {self.where} does not keep exactly one factor')
            self.k, self.old = ks[0], loc[ks[0]]
            if self.old is None and self.seg.empty_ok: raise Unsupported(f'the loop {self.where} may keep nothing')
            if self.seg.kind == 'SIr': raise Unsupported('extremum of holes')
        def some(self, name, record = False): return self.seg.app(factor(self.seg.kind, f'{self.seg.kind}_{name}', record = record))
        def iteration(self, loc):
            self.best = None if self.old is None and E.choose(2, 'first or later') == 0 else Watched(self.some('best'))
            self.x = Watched(self.some('next'))
            self.sides = self.x.sides = set()
            if self.best is not None: self.best.sides = self.sides
            self.locals = {self.k: self.best}
            return self.x
        def preserved(self, loc):
            b = loc[self.k]
            if b is not self.x and b is not self.best: raise Unsupported(f'the loop {self.where} keeps something else than a factor')
            if self.best is None:
                if b is None: raise Unsupported(f'the loop {self.where} keeps nothing')
                return
            if len(self.sides) != 1: raise Unsupported(f'the loop {self.where} compares no end, or both')
            side = SIDES.setdefault(self.where, next(iter(self.sides)))
            if side not in self.sides: raise Unsupported(f'the loop {self.where} compares different ends')
            D = E.fresh('D_done', B_)
            E.assume(den1(self.best, side, S.t) == D)
            E.prove('loop step: the factor kept holds exactly when all factors so far hold', den1(b, side, S.t) == z3.And(D, den1(self.x, side, S.t)))
        def exit(self, loc):
            side = SIDES.get(self.where)
            if side is None: raise Unsupported(f'the loop {self.where}: no end is known to be compared')
            if self.old is not None and side not in self.old: raise Unsupported(f'the loop {self.where}: no such end')
            b = self.some('best', True)
            E.assume(den1(b, side, S.t) == z3.And(z3.BoolVal(True) if self.old is None else den1(self.old, side, S.t), self.seg.side(side)))
            self.locals = {self.k: b}

    class IntervalsSeg(Seg):
        '''Any number of well-formed intervals of which "one contains t" is the ghost value d.'''
        def __init__(self, d, name): self.d, self.name, self.n, self.only = d, name, None, None
        def length(self):
            if self.n is None:
                self.n = Int('n_' + self.name); E.assume(self.n >= 0); E.assume(z3.Implies(self.d, self.n.z > 0))
            return self.n
        def elem(self, name):
            i = generic_interval(['S', 'Sr', 'SI'][E.choose(3, 'kind')], name)
            E.assume(z3.Implies(den(i, S.t), self.d))
            S.elems.append(i)
            return i
        def loop_spec(self, where, loc, names): return Map(self, where, names)
        def __repr__(self): return f'<intervals {self.name}>'
    class Map(LoopSpec):
        '''for interval in <intervals>: the lists being filled hold t exactly when some processed interval and the other operand do.'''
        def __init__(self, seg, where, assigned): self.seg, self.where, self.assigned = seg, where, assigned
        def accs(self, loc):
            out = []
            for k, o in loc.items():
                if isinstance(o, SList) and not o.parts() and k in loc and not any(o is x for x in out): out.append(o)
            return out
        def entry(self, loc):
            if not S.other: raise Unsupported(f'no specification for the loop {self.where}')
            self.other = S.other[-1]
            self.objs = self.accs(loc)
            if len(self.objs) != 1: raise Unsupported(f'the loop {self.where} does not fill exactly one new list')
            self.names = [k for k, o in loc.items() if o is self.objs[0] and k in self.assigned]
            self.locals = {k: self.objs[0] for k in self.names}
        def iteration(self, loc):
            self.D = E.fresh('D_done', B_)
            list.__setitem__(self.objs[0], slice(None), [IntervalsSeg(z3.And(self.D, self.other), 'done')])
            self.x = self.seg.elem('interval')
            return self.x
        def preserved(self, loc):
            if any(loc[k] is not self.objs[0] for k in self.names): raise Unsupported(f'the loop {self.where} goes on with another list')
            wellformed('loop step', self.objs[0], case_elem(self.x))
            E.prove('loop step: each interval is replaced by its intersection with the other operand', den_list(self.objs[0]) == z3.And(z3.Or(self.D, den(self.x, S.t)), self.other), '', case_elem(self.x))
        def exit(self, loc):
            list.__setitem__(self.objs[0], slice(None), [IntervalsSeg(z3.And(self.seg.d, self.other), 'mapped')])

    def den_list(l):
        if isinstance(l, dict): return den(l, S.t)
        if not isinstance(l, list): raise Unsupported(f'{type(l).__name__} as intervals')
        ds = []
        for x in (l.parts() if isinstance(l, SList) else l):
            if isinstance(x, IntervalsSeg): ds.append(x.d)
            elif isinstance(x, dict): ds.append(den(x, S.t))
            else: raise Unsupported(f'{x!r} among intervals')
        return z3.Or(*ds) if ds else z3.BoolVal(False)
    def wellformed(what, l, case = None):
        for x in ([l] if isinstance(l, dict) else l.parts() if isinstance(l, SList) else l):
            if isinstance(x, IntervalsSeg): continue
            if not isinstance(x, dict): raise Unsupported(f'{x!r} among intervals')
            if any(x is e for e in S.elems): continue
            E.prove(f'{what}: an interval has an end', 'start' in x or 'end' in x)
            if 'start' in x and 'end' in x: E.prove(f'{what}: no empty interval', zv(x['start']) < zv(x['end']), '', case)
            for s in ('start', 'end'):
                if s in x:
                    if s + '_slope' not in x: E.prove(f'{what}: a reported {s} carries a slope', False, '', case); continue
                    E.prove(f'{what}: a reported {s} is a {s} of a factor, with its slope', okf[s](both(x[s], 0.)[0], both(x[s + '_slope'], 0.)[0]), '', case)

    # counterexamples
    def num(m, x):
        v = m.eval(zv(x), model_completion = True)
        return float(v.as_fraction()) if z3.is_rational_value(v) else float(v.approx(20).as_fraction())
    def fdata(m, kind, p): return [num(m, p['location']), num(m, p['width']) if 'width' in p else 1., num(m, p['slope']) if 'slope' in p else 1.]
    def distinct(data):
        # distinct slopes let a wrong slope show; identical ones are kept as given otherwise
        n = 1
        for k, fs in data:
            for f in fs: f[2] = float(n); n += 1
        return data
    def case_whole(order):
        def g(m): return dict(case = 'intervals', data = [distinct([[k, [fdata(m, k, p) for p in S.made[k]] or [[0., 1., 1.]]] for k in order]), S.free])
        return g
    def around(m, i):
        '''holes which leave the interval i'''
        o = []
        if 'start' in i: o.append([num(m, i['start']) - 1000., 1000., 1.])
        if 'end' in i: o.append([num(m, i['end']), 1000., 1.])
        return o
    def case_step(kind, p):
        def g(m): return dict(case = 'intervals', data = [distinct([['SIr', [h for i in S.elems[-1:] for h in around(m, i)] + [fdata(m, kind, p)]]]), S.free])
        return g
    def case_elem(x):
        def g(m):
            d = []
            holes = around(m, x) + [fdata(m, 'SIr', p) for p in S.holes]
            for k in ('S', 'Sr', 'SI'):
                if S.made[k]: d.append([k, [fdata(m, k, p) for p in S.made[k]]])
            return dict(case = 'intervals', data = [distinct(d + [['SIr', holes]]), S.free])
        return g

    # the other operand of the loops: from the contracts of the two functions holding them
    def wrapped(name, other):
        real = getattr(ki, name, None)
        if real is None: return
        def f(*a, **k):
            S.other.append(other(*a))
            try: return real(*a, **k)
            finally: S.other.pop()
        setattr(ki, name, f)
    wrapped('SIr_overlap_step', lambda acc, p: z3.Not(z3.And(zv(p['end']) < S.t, S.t < zv(p['start']))))
    def pair_other(b1, b2):
        o = [b for b in (b1, b2) if b[0] != 'SIr']
        if len(o) != 1 or not isinstance(o[0][1], dict): return z3.BoolVal(True) if len(o) != 1 else z3.BoolVal(False)
        return den(o[0][1], S.t)
    wrapped('simplify_sigmoidal_interval_pair', pair_other)

    def index(l, i):
        p = l.parts()
        if i == 0 and len(p) == 1 and isinstance(p[0], FactorSeg): return p[0].app(p[0].head())
        if i in (0, -1) and len(p) == 1 and isinstance(p[0], IntervalsSeg):
            s = p[0]
            if s.only is None:
                n = s.length()
                if E.decide(n.z == 0): raise IndexError('list index out of range')
                s.only = s.elem('only' if i == 0 else 'last')
                E.assume(z3.Implies(n.z == 1, den(s.only, S.t) == s.d))
            return s.only
        raise Unsupported('index')
    def slice_(l, s):
        p = l.parts()
        if len(p) == 1 and isinstance(p[0], FactorSeg) and s.start == 1 and s.stop is None and s.step is None:
            p[0].head(); r = p[0].core.rest
            return SList([FactorSeg(r.kind, r.holds, p[0].maps, r.core, True)])
        raise Unsupported('slice')
    HOOKS['index'], HOOKS['slice'] = index, slice_
    import functools

    def whole(order, free):
        def f():
            reset(free)
            alls = {k: z3.Bool('all_' + k) for k in order}
            d = {'ProductKE': SList([{'variance': Real('v')}]), 'C': SList([{}])}
            for k in order: d[k] = SList([FactorSeg(k, alls[k])])
            ki.__dict__[FLAG] = not free
            case = case_whole(order)
            kind, r = E.call(ki.sigmoids_to_intervals, d)
            E.prove('returns', kind == 'return', lambda m: repr(r), case)
            E.prove('reports a list of intervals', isinstance(r, dict) and isinstance(r.get('sigmoidal_intervals'), list), '', case)
            l = r['sigmoidal_intervals']
            wellformed('result', l, case)
            E.prove('a point is in a reported interval exactly when every factor holds there', den_list(l) == z3.And(*alls.values()), '', case)
        return f
    fs = ', '.join('kernelInterpretation.' + x for x in ('sigmoids_to_intervals', 'S_overlap', 'Sr_overlap', 'SI_overlap', 'SIr_overlap', 'SIr_overlap_step', 'SIr_split_intervals', 'S_interval',
        'Sr_interval', 'SI_interval', 'SIr_hole_interval', 'SI_ps_left', 'SI_ps_right', 'simplify_sigmoidal_intervals', 'simplify_sigmoidal_intervals_step', 'simplify_sigmoidal_interval_pair',
        'identify_interval_type', 'intersect_segment_semiline', 'intersect_segment_hole', 'intersect_semiline_hole'))
    has_flag = FLAG in ki.__dict__
    kinds, jobs = ['S', 'Sr', 'SI', 'SIr'], []
    for n in range(1, 5):
        for order in permutations(kinds, n):
            for free in (False, True) if has_flag else (False,):
                jobs.append((f'intervals of {"+".join(order)} factors, {"free" if free else "fixed"} slopes', whole(order, free), fs, {}))
    P.parallel(jobs)
