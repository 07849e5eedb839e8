'''Model search: contracts of explore_model_space and model_search_rounds, at an arbitrary probe model M and probe expression K.

A list of models is known by: how often M is in it, whether it is in score order, whether its models hold their scores, its length.
A list of expressions is known by how often an expression equal to K is in it. As M and K are arbitrary, what is proved of them
is proved of every model and every expression. Loop invariant over the rounds:
  sorted_models holds M as often as it was fitted (0 or 1) and is in score order; so do the per-round lists together, each in score order;
  expanded and not_expanded together hold M as often as it was fitted, not_expanded is in score order;
  tested_k_exprs holds K as often as models of it were fitted.'''
from vc.engine import *
from vc import engine as _e
import numpy as np

class StrSeg(str): '''the texts of any number of elements, joined'''

def setup(P, case = 'search'):
    E0 = P.E
    class Proving:
        '''E, with a concrete history for the replay of refuted obligations'''
        def __getattr__(self, a): return getattr(E0, a)
        def prove(self, name, c, detail = ''): return E0.prove(name, c, detail, history)
    E = Proving()
    import GPy_ABCD.Models.modelSearch as ms
    P.assume_note('model_list_fitter returns one new model per given expression, in order (C16 for the two provided fitters)',
                  'expand returns a list; its contents are the expansions (C10, C11)', 'models are compared by identity and expressions by ==, an equivalence (C09)',
                  'scores are comparable numbers; sorted() returns a sorted permutation', 'beam entries and rounds are non-negative integers',
                  'a continuation is given the outputs of a search scored with the same utility function')
    P.trust('genericUtil.unique, diff, flatten: their contracts (proved under C22) are used at the calls')
    class G: pass
    G = G()
    score = uf('score_of_model', z3.IntSort(), z3.RealSort())
    class Cell:
        def __init__(self, scored): self.scored = scored
    class ModSeg(Seg):
        def __init__(self, c, name, cells, order, n = None): self.c, self.name, self.cells, self.order, self._n, self.pre = c, name, list(cells), order, n, {}
        def length(self):
            if self._n is None:
                self._n = Int('n_' + self.name); E.assume(self._n >= 0); E.assume(self._n.z >= self.c)
            return self._n
        def scored(self): return all(c.scored for c in self.cells)
        def elem(self):
            seg = self
            mid = Int('m').z
            k = Opaque('expression of a model', _of = seg)
            class Model(Opaque):
                def __getattr__(s, a):
                    if a == 'cached_utility_function': return SNum(score(mid)) if seg.scored() else None
                    return Opaque.__getattr__(s, a)
            def cu(f):
                if f is not G.utility: raise Unsupported('another utility function')
                for c in seg.cells: c.scored = True
                return SNum(score(mid))
            m = Model('model', kernel_expression = k, compute_utility = cu)
            m.__dict__['_score'] = score(mid)
            m.__dict__['_vc_isinstance'] = lambda c: True if c is ms.GPModel else None
            return m
        def sorted(self, xs, key, reverse):
            ps = xs.parts()
            if not all(isinstance(p, ModSeg) for p in ps): raise Unsupported('sorting a mixture')
            good = not (bool(reverse))
            for p in ps:
                if key is None: raise Unsupported('sorting models without a key')
                m = p.elem()
                v = key(m)
                if not isinstance(v, SNum): good = False; continue
                if E.check(v.z != m._score) != z3.unsat: good = False
            return SList([ModSeg(sum((p.c for p in ps), z3.IntVal(0)), 'sorted', [c for p in ps for c in p.cells], good, SNum(z3.simplify(sum((zv(p.length()) for p in ps), z3.IntVal(0)))))])
        def prefix(self, b):
            bz = z3.simplify(zv(b)); k = bz.sexpr()
            if k not in self.pre:
                n = self.length().z
                E.assume(bz >= 0)
                m = z3.If(bz < n, bz, n)
                c = E.fresh('c_prefix', z3.IntSort()); E.assume(z3.And(c >= 0, c <= self.c, z3.Implies(bz >= n, c == self.c), z3.Implies(m == 0, c == 0)))
                p = ModSeg(c, 'prefix', self.cells, self.order, SNum(z3.simplify(m)))
                p.of, p.bound = self, bz
                self.pre[k] = p
            return self.pre[k]
        def comp(self, f, c, where):
            if c is not None: raise Unsupported('filtering models')
            m = self.elem()
            r = f(m)
            if isinstance(r, str): return [StrSeg('<models>')]
            if r is m.kernel_expression: return [KSeg(self.kcount(), 'expressions')]
            if isinstance(r, SList) and len(r.parts()) == 1 and isinstance(r.parts()[0], Expansion) and r.parts()[0].of is self: return [ExpSeg(self)]
            raise Unsupported(f'comprehension over models: {r!r}')
        def kcount(self):
            if not hasattr(self, 'k'): self.k = E.fresh('k_of_models', z3.IntSort()); E.assume(self.k >= 0)
            return self.k
        def contains(self, x): raise Unsupported('membership of models')
        def __repr__(self): return f'<models {self.name}>'
    class Expansion(Seg):
        def __init__(self, of): self.of = of
    class ExpSeg(Seg):
        '''the lists of expansions of the models of a list'''
        def __init__(self, of):
            self.of = of
            if not hasattr(of, 'x'): of.x = E.fresh('k_expansions', z3.IntSort()); E.assume(of.x >= 0); E.assume(z3.Implies(zv(of.length()) == 0, of.x == 0))
        def flat(self): return SList([KSeg(self.of.x, 'expansions')])
    class KSeg(Seg):
        def __init__(self, k, name, n = None): self.k, self.name, self._n = k, name, n
        def length(self):
            if self._n is None: self._n = Int('nk'); E.assume(self._n >= 0); E.assume(self._n.z >= self.k)
            return self._n
        def contains(self, x):
            if x is not G.K: raise Unsupported('membership of another expression')
            return E.decide(self.k > 0)
        def comp(self, f, c, where):
            # the probe expression stands for the generic element
            r = f(G.K)
            if isinstance(r, str): return [StrSeg('<expressions>')]
            if r is not G.K: raise Unsupported('comprehension over expressions')
            if c is None or c(G.K): return [KSeg(self.k, self.name)]
            return [KSeg(z3.IntVal(0), self.name)]
        def loop_spec(self, where, loc, names): return None
    class RoundsSeg(Seg):
        '''the lists of earlier rounds'''
        def __init__(self, c, n, cells): self.c, self.n, self.cells = c, n, cells
        def length(self): return self.n
        def flat(self): return SList([ModSeg(self.c, 'earlier', self.cells, False)])
        def elem(self):
            c = E.fresh('c_round', z3.IntSort()); E.assume(z3.And(c >= 0, c <= self.c))
            return SList([ModSeg(c, 'one_round', self.cells, True)])
    class Ints(Seg):
        '''a list of integers known by its entries'''
        def zip(self, xs): return SList([ZipSeg(xs)])
    class Given(Ints):
        def __init__(self, n, allint = None): self.n, self.f, self.allint = n, uf('beam', z3.IntSort(), z3.IntSort()), allint
        def length(self): return self.n
        def at(self, i): E.assume(self.f(i) >= 0); return self.f(i)
        def comp(self, f, c, where):
            if c is not None: raise Unsupported('filtering the beam')
            a, bs = f(Int('entry')), [f(x) for x in (2.5, '1', None)]
            if isinstance(a, bool) and all(isinstance(b, bool) for b in bs) and a and not any(bs): return [AllInt(self.allint)]
            raise Unsupported('another test of the beam')
    class AllInt(Seg):
        def __init__(self, b): self.b = b
        def forall(self): return SBool(self.b)
        def exists(self): raise Unsupported('any over the beam')
    class Prefix(Ints):
        def __init__(self, seg, k): self.seg, self.n = seg, SNum(z3.If(zv(k) < seg.length().z, zv(k), seg.length().z))
        def length(self): return self.n
        def at(self, i): return self.seg.at(i)
    class Rep(Ints):
        def __init__(self, v, n): self.v, self.n = v, SNum(z3.If(zv(n) > 0, zv(n), z3.IntVal(0)))
        def length(self): return self.n
        def at(self, i): return zv(self.v)
    class RangeSeg(Ints):
        def __init__(self, lo, hi): self.lo, self.n = zv(lo), SNum(z3.simplify(z3.If(zv(hi) > zv(lo), zv(hi) - zv(lo), z3.IntVal(0))))
        def length(self): return self.n
        def at(self, i): return z3.simplify(self.lo + i)
        def loop_spec(self, where, loc, names): return Rounds(ZipSeg([SList([self])]), where, True, names)
    def at(l, i):
        r, off = None, z3.IntVal(0)
        ps = l.parts() if isinstance(l, SList) else list(l)
        out = []
        for p in ps:
            n = p.length().z if isinstance(p, Seg) else z3.IntVal(1)
            v = (lambda p, off: (lambda: p.at(z3.simplify(i - off)) if isinstance(p, Seg) else zv(p)))(p, off)
            out.append((z3.simplify(off + n), v)); off = z3.simplify(off + n)
        res = out[-1][1]()
        for bound, v in reversed(out[:-1]): res = z3.If(i < bound, v(), res)
        return SNum(z3.simplify(res)), off
    def total(l):
        n = z3.IntVal(0)
        for p in (l.parts() if isinstance(l, SList) else list(l)): n = n + (p.length().z if isinstance(p, Seg) else 1)
        return z3.simplify(n)
    class ZipSeg(Seg):
        def __init__(self, xs): self.xs = xs
        def loop_spec(self, where, loc, names): return Rounds(self, where, False, names)
    NAMES = ['sorted_models', 'tested_models', 'tested_k_exprs', 'expanded', 'not_expanded']
    def count(l):
        c = z3.IntVal(0)
        for p in l.parts():
            if not isinstance(p, ModSeg): raise Unsupported(f'{p!r} in a list of models')
            c = c + p.c
        return c
    def ordered(l):
        ps = l.parts()
        return len(ps) <= 1 and all(p.order and p.scored() for p in ps)
    def check(what, st):
        '''the accounting invariant of the five lists'''
        for n in NAMES:
            if not isinstance(st[n], SList): raise Unsupported(f'{n} is {type(st[n]).__name__}')
        sm, tm, tk, ex, ne = (st[n] for n in NAMES)
        E.prove(f'{what}: the best-first list holds every fitted model exactly once', z3.And(count(sm) == G.fit, G.fit <= 1))
        E.prove(f'{what}: the best-first list is in score order', ordered(sm))
        c, n, good = z3.IntVal(0), z3.IntVal(0), True
        for p in tm.parts():
            if isinstance(p, RoundsSeg): c, n = c + p.c, n + zv(p.n); good = good and all(x.scored for x in p.cells)
            elif isinstance(p, SList): c, n = c + count(p), n + 1; good = good and ordered(p)
            else: raise Unsupported(f'{p!r} among the rounds')
        E.prove(f'{what}: the per-round lists hold every fitted model exactly once', c == G.fit)
        E.prove(f'{what}: the per-round lists are in score order', good)
        E.prove(f'{what}: there is one list per round', n == G.nlists)
        k = z3.IntVal(0)
        for p in tk.parts():
            if not isinstance(p, KSeg): raise Unsupported(f'{p!r} among the tested expressions')
            k = k + p.k
        E.prove(f'{what}: the tested expressions are those of the fitted models', k == G.kfit)
        E.prove(f'{what}: expanded and not-expanded models partition the fitted ones', count(ex) + count(ne) == G.fit)
        E.prove(f'{what}: the not-expanded models are in score order', ordered(ne))
        E.prove(f'{what}: no expression is fitted again beyond the duplicates given at the start', z3.Or(G.kfit <= 1, G.kfit == G.k0))
    def havoc(tag):
        cell = Cell(True)
        fit, kfit, cex, k0 = (E.fresh(f'{tag}_{x}', z3.IntSort()) for x in ('fitted', 'k_fitted', 'c_expanded', 'k_given'))
        if not hasattr(G, 'k0') or G.k0 is None: G.k0 = k0
        E.assume(z3.And(fit >= 0, fit <= 1, kfit >= 0, cex >= 0, cex <= fit, G.k0 >= 0, z3.Or(kfit <= 1, kfit == G.k0)))
        nl = Int(tag + '_lists'); E.assume(nl >= 1)
        G.fit, G.kfit, G.nlists = fit, kfit, nl.z
        return dict(sorted_models = SList([ModSeg(fit, 'sorted', [cell], True)]), tested_models = SList([RoundsSeg(fit, nl, [cell])]), tested_k_exprs = SList([KSeg(kfit, 'tested')]),
                    expanded = SList([ModSeg(cex, 'expanded', [cell], False)]), not_expanded = SList([ModSeg(fit - cex, 'not_expanded', [cell], True)]))
    class Rounds(LoopSpec):
        def __init__(self, seg, where, single = False, names = ()): self.seg, self.where, self.single, self.names = seg, where, single, names
        def entry(self, loc):
            if any(n not in loc for n in NAMES): raise Unsupported(f'{self.where}: the five lists are not all there')
            self.base = G.nlists
            check('before the first round', loc)
            n = None
            for l in self.seg.xs:
                m = total(l); n = m if n is None else z3.If(m < n, m, n)
            self.n = z3.simplify(n)
            if G.rounds is not None: E.prove('exactly the given number of rounds is done', self.n == G.rounds)
            self.pattern = [(a, b) for i, a in enumerate(NAMES) for b in NAMES[i + 1:] if loc[a] is loc[b]]
            self.alias = E.choose(2, 'aliasing') == 1 if self.pattern else False
        def state(self, tag, loc):
            st = havoc(tag)
            for n in NAMES: # a list the loop only modifies in place stays the same object
                if n not in self.names: list.__setitem__(loc[n], slice(None), st[n].parts()); st[n] = loc[n]
            if self.alias:
                for a, b in self.pattern:
                    if a not in self.names or b not in self.names: raise Unsupported('aliased lists modified in place')
                    E.assume(count(st[a]) == count(st[b]))
                    st[b] = st[a]
            return st
        def iteration(self, loc):
            i = Int('round_index'); E.assume(And(i >= 0, SBool(i.z < self.n))); self.i = i
            self.st = self.state('in', loc)
            E.assume(G.nlists == self.base + i.z)
            self.locals = dict(self.st)
            self.before = dict(expanded = self.st['expanded'].parts(), not_expanded = self.st['not_expanded'].parts(), k = G.kfit, lists = {n: l for n, l in self.st.items()})
            G.round = self
            G.calls = 0
            G.newk = None
            item = tuple(at(l, i.z)[0] for l in self.seg.xs)
            return item[0] if self.single else item
        def preserved(self, loc):
            E.prove('a round fits one list of expressions', G.calls == 1)
            check('after a round', loc)
            ex, old = loc['expanded'].parts(), self.before['expanded']
            tail = ex[len(old):]
            E.prove('a round moves the best not-expanded models to the expanded ones', len(ex) == len(old) + 1 and all(a is b for a, b in zip(ex, old)) and getattr(tail[0], 'of', None) is (self.before['not_expanded'] or [None])[0])
            p = tail[0]
            E.prove('as many models as the beam entry of the round are expanded (all if fewer are left)', p.bound == G.expected(self.i.z) if G.expected else True)
            # the expressions fitted: exactly the new expansions of these models
            x = getattr(p, 'x', None)
            if x is None: E.prove('the expanded models are the ones whose expansions are fitted', zv(p.length()) == 0)
            else: E.prove('a round fits exactly the expansions which were not tested before, once each', G.newk == z3.If(z3.And(x > 0, self.before['k'] == 0), z3.IntVal(1), z3.IntVal(0)))
            for i, a in enumerate(NAMES):
                for b in NAMES[i + 1:]:
                    if loc[a] is loc[b] and not (self.alias and (a, b) in self.pattern): raise Unsupported(f'{a} and {b} become the same list')
        def exit(self, loc):
            st = self.state('out', loc)
            E.assume(G.nlists == self.base + self.n)
            self.locals = dict(st)
            G.round = None

    def history(m):
        def num(n, d): v = [x for x in m.decls() if x.name() == n]; return m[v[0]].as_long() if v and z3.is_int_value(m[v[0]]) else d
        rounds = min(max(num('rounds', 2), 1), 3)
        k = G.histories = getattr(G, 'histories', 0) + 1
        beam = [2, [2], [1, 3], [2, 1, 1, 1, 1]][k % 4] if G.kind != 'integer' else min(max(num('beam_width', 2), 1), 3)
        conts = [[2, [2, 1]]] if G.kind == 'continuation' and case == 'search' else []
        return dict(case = case, data = [['WN', 'C', 'LIN', ['mul', ['LIN', 'LIN']]], 2 + k % 2, rounds, beam, conts, k, False, bool(G.verbose)])
    # contracts at the calls
    def fitter(*a, **k):
        if k or len(a) != 6: raise Unsupported('fitter arguments')
        X, Y, ks, restarts, opt, mr = a
        E.prove('the models are fitted to the given data with the given settings', X is G.X and Y is G.Y and restarts is G.restarts and opt is G.opt and mr is G.mr)
        if not isinstance(ks, SList) or not all(isinstance(p, KSeg) for p in ks.parts()): raise Unsupported('fitter expressions')
        kk = sum((p.k for p in ks.parts()), z3.IntVal(0))
        c = E.fresh('c_new', z3.IntSort())
        n = sum((zv(p.length()) for p in ks.parts()), z3.IntVal(0))
        E.assume(z3.And(c >= 0, c <= 1, z3.Implies(c > 0, G.fit == 0), z3.Implies(n == 0, c == 0)))    # the models are new objects
        G.fit, G.kfit, G.nlists = G.fit + c, G.kfit + kk, G.nlists + 1
        G.calls += 1; G.newk = kk
        return SList([ModSeg(c, 'new', [Cell(False)], False, SNum(z3.simplify(n)))])
    def expand(k, rules):
        E.prove('the given production rules are applied', rules is G.rules)
        if not isinstance(k, Opaque) or not hasattr(k, '_of'): raise Unsupported('expanding something else')
        return SList([Expansion(k._of)])
    def unique(l):
        if not isinstance(l, SList) or not all(isinstance(p, KSeg) for p in l.parts()): raise Unsupported('unique of something else')
        k = sum((p.k for p in l.parts()), z3.IntVal(0))
        return SList([KSeg(z3.If(k > 0, z3.IntVal(1), z3.IntVal(0)), 'unique')])
    def diff(a, b):
        if not all(isinstance(l, SList) and all(isinstance(p, ModSeg) for p in l.parts()) for l in (a, b)): raise Unsupported('diff of something else')
        d = count(a) - count(b)
        return SList([ModSeg(z3.If(d > 0, d, z3.IntVal(0)), 'difference', [c for p in a.parts() for c in p.cells], ordered(a))])
    real = {n: getattr(ms, n) for n in ('unique', 'diff', 'expand', 'make_simple_kexs') if hasattr(ms, n)}
    def make(ks):
        if ks is not G.starts: raise Unsupported('other start kernels')
        return SList([KSeg(G.k0, 'start')])
    def install():
        for n, f in dict(unique = unique, diff = diff, expand = expand, make_simple_kexs = make).items():
            if n in real: setattr(ms, n, f)
        HOOKS['range'] = lambda *a: SList([RangeSeg(*((0, a[0]) if len(a) == 1 else a))]) if len(a) < 3 else (_ for _ in ()).throw(Unsupported('range step'))
        HOOKS['repeat'] = lambda l, n: SList([Rep(l.parts()[0], n)]) if len(l.parts()) == 1 and not isinstance(l.parts()[0], Seg) else (_ for _ in ()).throw(Unsupported('repetition'))
        def slice_(l, s):
            p = l.parts()
            if s.start not in (None, 0) or s.step is not None or s.stop is None: raise Unsupported('slice')
            if not p: return SList()
            if len(p) == 1 and isinstance(p[0], ModSeg): return SList([p[0].prefix(s.stop)])
            if len(p) == 1 and isinstance(p[0], KSeg): return SList([KSeg(E.fresh('k_slice', z3.IntSort()), 'slice')])
            if len(p) == 1 and isinstance(p[0], Ints): return SList([Prefix(p[0], s.stop)])
            raise Unsupported('slice')
        def index(l, i):
            p = l.parts()
            if p and all(isinstance(x, (RoundsSeg, SList)) for x in p):
                n = sum((zv(x.n) if isinstance(x, RoundsSeg) else z3.IntVal(1) for x in p), z3.IntVal(0))
                iz = zv(i)
                if E.decide(z3.Or(iz >= n, iz < -n)): raise IndexError('list index out of range')
                if isinstance(p[-1], SList) and E.decide(z3.Or(iz == n - 1, iz == -1)): return p[-1]
                r = [x for x in p if isinstance(x, RoundsSeg)]
                if len(r) == 1: return r[0].elem()
            if p and all(isinstance(x, ModSeg) for x in p) and isinstance(i, int) and i in (0, -1):
                n = sum((zv(x.length()) for x in p), z3.IntVal(0))
                if E.decide(n == 0): raise IndexError('list index out of range')
                return p[0].elem()
            if p and all(isinstance(x, KSeg) for x in p) and isinstance(i, int): return G.K
            if p and any(isinstance(x, Ints) for x in p):
                n = total(l); iz = zv(i)
                if E.decide(z3.Or(iz >= n, iz < -n)): raise IndexError('list index out of range')
                if isinstance(i, int) and i < 0: iz = n + i
                return at(l, z3.simplify(iz))[0]
            raise Unsupported('index')
        HOOKS['slice'], HOOKS['index'] = slice_, index
        E.loop_specs[:] = []; _e.vc.comp_specs[:] = []
    def restore():
        for n, f in real.items(): setattr(ms, n, f)
        for h in ('range', 'repeat', 'slice', 'index'): HOOKS[h] = None
    def common():
        G.X, G.Y = np.zeros((3, 1)), np.ones((3, 1))
        class U(Opaque):
            pass
        G.utility = Opaque('utility', __name__ = 'utility')
        class KX(Opaque):
            def __str__(s): return 'k'
            def __repr__(s): return 'k'
        G.K = KX('probe expression'); G.restarts, G.mr, G.opt = Opaque('restarts'), Opaque('max_retries'), 'opt'
        G.restarts.__class__ = G.mr.__class__ = KX
        G.rules, G.starts = SList([Opaque('rule')]), SList([Opaque('start')])
        G.rounds, G.expected, G.round, G.calls, G.newk, G.k0 = None, None, None, 0, None, None
        G.fit, G.kfit, G.nlists = z3.IntVal(0), z3.IntVal(0), z3.IntVal(0)
    G.ms, G.install, G.restore, G.common, G.check, G.havoc, G.NAMES = ms, install, restore, common, check, havoc, NAMES
    G.E, G.kind, G.verbose = E, None, False
    G.fitter, G.Given, G.count = fitter, Given, count
    return G

FUNCS = 'modelSearch.explore_model_space, modelSearch.model_search_rounds, modelSearch.print_k_list'

def explore_search(P, G, beam_kind, verbose):
    E = G.E; ms = G.ms
    def f():
        G.common(); G.kind, G.verbose = beam_kind, verbose
        rounds = Int('rounds'); E.assume(rounds >= 0)
        G.k0 = E.fresh('k_given', z3.IntSort()); E.assume(G.k0 >= 0)
        b0 = z3.Function('beam', z3.IntSort(), z3.IntSort())
        if beam_kind == 'integer':
            beam = Int('beam_width'); E.assume(beam >= 0)
            G.expected = lambda i: beam.z
            good, parts = z3.BoolVal(True), None
        else:
            n = Int('beam_length'); allint = z3.Bool('all_integers'); E.assume(n >= 0)
            seg = G.Given(n, allint); beam = SList([seg]); parts = beam.parts()
            G.expected = lambda i: b0(z3.If(i < n.z, i, n.z - 1))
            good = z3.And(n.z > 0, allint)
        G.rounds = rounds.z
        G.install()
        try: kind, v = E.call(ms.explore_model_space, G.X, G.Y, start_kernels = G.starts, p_rules = G.rules, utility_function = G.utility, rounds = rounds, beam = beam,
                              restarts = G.restarts, model_list_fitter = G.fitter, optimiser = G.opt, max_retries = G.mr, verbose = verbose)
        finally: G.restore()
        if parts is not None: E.prove('the caller\'s beam list is not modified', beam.parts() == parts)
        if kind == 'raise':
            E.prove('raises only a TypeError, and only for a beam which is no list of integers', z3.Not(good) if isinstance(v, TypeError) else False, repr(v))
            return
        E.prove('a beam which is no list of integers is rejected', good)
        E.prove('five lists are returned', isinstance(v, tuple) and len(v) == 5)
        G.check('result', dict(zip(G.NAMES, v)))
        E.prove('result: one list for the start and one per round', G.nlists == 1 + rounds.z)
    P.explore(f'search with a {beam_kind} beam{", verbose" if verbose else ""}', f, FUNCS)

def reject(P, G):
    E = G.E; ms = G.ms
    bad = [None, 2.5, '3', (1, 2), {1: 2}, {1}, np.array([1, 2]), np.float64(2.), b'1', object()]
    def f():
        G.common()
        rounds = Int('rounds'); E.assume(rounds >= 0)
        G.k0 = E.fresh('k_given', z3.IntSort()); E.assume(G.k0 >= 0)
        beam = bad[E.choose(len(bad), 'beam')]
        G.install()
        try: kind, v = E.call(ms.explore_model_space, G.X, G.Y, start_kernels = G.starts, p_rules = G.rules, utility_function = G.utility, rounds = rounds, beam = beam,
                              restarts = G.restarts, model_list_fitter = G.fitter, optimiser = G.opt, max_retries = G.mr, verbose = False)
        finally: G.restore()
        E.prove('a TypeError is raised', kind == 'raise' and isinstance(v, TypeError), repr(v))
    P.explore('beams of other types are rejected', f, 'modelSearch.explore_model_space')

def continuation(P, G, verbose):
    E = G.E; ms = G.ms
    def f():
        G.common(); G.kind, G.verbose = 'continuation', verbose
        rounds, n = Int('rounds'), Int('beam_length'); E.assume(rounds >= 0); E.assume(n >= 0)
        b0 = z3.Function('beam', z3.IntSort(), z3.IntSort())
        beam = SList([G.Given(n, z3.BoolVal(True))])
        G.expected = lambda i: b0(i)
        G.install()
        st = G.havoc('given')
        first = G.nlists
        if verbose: E.assume(rounds.z <= first) # the log of a continuation shows the lists of earlier rounds
        try: kind, v = E.call(ms.model_search_rounds, G.X, G.Y, *[st[x] for x in G.NAMES], G.fitter, G.rules, G.utility, rounds, beam, G.restarts, G.opt, G.mr, verbose)
        finally: G.restore()
        E.prove('returns', kind == 'return', repr(v))
        E.prove('five lists are returned', isinstance(v, tuple) and len(v) == 5)
        G.check('result', dict(zip(G.NAMES, v)))
        E.prove('result: one more list per round', G.nlists == first + z3.If(rounds.z < n.z, rounds.z, n.z))
    P.explore(f'continuation of a search{", verbose" if verbose else ""}', f, 'modelSearch.model_search_rounds, modelSearch.print_k_list')
