'''Interpretation: the real text builders on components with lists of factors of any length.

A text is a real string in which a formatted parameter value is a unique piece (token) naming the value and its format, and the text of an
unbounded list is a unique piece naming the list. "Any entry is mentioned" is shown for an arbitrary witness entry: the list is some entries,
the witness, some more entries. Sorting is known only as a reordering.'''
import re
from proofs.c03 import *
from proofs import c03 as C3
from vc import engine as _e

BASES_ORDER = BASES
SPECS = ['SE', 'PER', 'LIN', 'WN', 'C', ['mul', ['SE', 'LIN']], ['mul', ['PER', 'PER']], ['mul', ['PER', 'PER', 'PER', 'SE', 'LIN']], ['mul', ['PER', 'PER', 'PER', 'PER']], ['mul', ['LIN', 'LIN']], ['mul', ['LIN', 'LIN', 'LIN']],
         ['mul', ['SE', 'LIN', 'LIN']], ['mul', ['SE', 'LIN', 'LIN', 'LIN']], ['mul', ['PER', 'LIN']], ['mul', ['PER', 'SE']], ['CP', 'SE', 'PER'], ['CW', 'LIN', 'WN'], ['mul', [['CW', 'SE', 'LIN'], ['CW', 'PER', 'SE']]],
         ['mul', ['PER', ['CP', 'C', 'SE']]], ['CP', ['CW', 'SE', 'C'], 'PER'], ['CW', ['CW', 'SE', 'LIN'], ['CP', 'PER', 'LIN']], ['CW', ['CW', ['CW', 'SE', 'C'], 'C'], 'C'], ['mul', [['CP', 'SE', 'LIN'], ['CP', 'C', 'PER']]], ['sum', ['SE', 'LIN', 'PER']]]
def cands2(m = None): return [dict(case = 'interpret', data = [s, 21 + i]) for i, s in enumerate(SPECS + SEEDS)]
case = cands2
TOK = re.compile('\u27e6[^\u27e7]*\u27e7')

def tokens(text):
    '''every value and text named in a text, through the texts of lists'''
    out = []
    for t in TOK.findall(text):
        v = _e.TOKENS.get(t)
        if v is None: raise Unsupported(f'an unknown piece of text {t}')
        out.append(v)
        if v[0] == 'join':
            for p in v[2]: out += tokens(p) if isinstance(p, str) else []
    return out
def one_line(text):
    if '\n' in TOK.sub('', text): return False
    return all(one_line(p if isinstance(p, str) else p.text) for t in TOK.findall(text) if _e.TOKENS[t][0] == 'join' for p in [_e.TOKENS[t][1]] + _e.TOKENS[t][2])
def mentions(text, v):
    '''formula: the value, rounded to two decimals, is in the text'''
    hits = [t[0] for t in tokens(text) if isinstance(t[0], SNum) and t[1] == '.2f']
    return z3.Or(z3.BoolVal(False), *[_e.both(h, v)[0] == _e.both(h, v)[1] for h in hits])

class Texts(Seg):
    '''n texts made by the same rule'''
    def __init__(self, n, make): self.n, self.make = S(n), make; self.text = make()
    def length(self): return SNum(self.n)
    def again(self, n): r = copy.copy(self); r.n = z3.simplify(n); return r
    def first(self): raise Unsupported('first of texts')
    def comp(self, f, c, where):
        if c is not None: raise Unsupported('a filter on texts')
        return [Texts(self.n, lambda: f(self.make()))]
    def __repr__(self): return f'<texts {self.text!r}>'
class Items(Seg):
    '''n parameter sets (or intervals) of one kind, of which nothing else is known'''
    def __init__(self, what, n, make): self.what, self.n, self.make = what, S(n), make
    def length(self): return SNum(z3.simplify(self.n))
    def again(self, n): return Items(self.what, z3.simplify(n), self.make)
    def comp(self, f, c, where):
        if c is not None: raise Unsupported('a filter on parameter sets')
        def make():
            e = self.make(); was = dict(e)
            r = E.local(lambda: f(e))
            if dict(e) != was and same_entry(e, was) is not True: raise Unsupported('parameter sets changed by a comprehension')
            return r
        e = self.make()
        r = E.local(lambda: f(e))
        if r is e: return [self]
        if isinstance(r, str): return [Texts(self.n, lambda: E.local(lambda: f(self.make())))]
        raise Unsupported(f'{rp(r)} of each of {self!r}')
    def sorted(self, xs, key, reverse):
        '''some reordering'''
        ps = xs.parts()
        if not all(isinstance(p, (Items, dict)) for p in ps): raise Unsupported('sorting something else')
        wit = [p for p in ps if isinstance(p, dict)]
        for e in wit + [self.make()]:
            st, r = E.call(key or (lambda x: x), e)
            if st != 'return' or not isinstance(r, SNum): raise Unsupported(f'sorting by {rp(r)}')
        total = z3.Sum([z3.IntVal(0)] + [S(p.length()) for p in ps if isinstance(p, Items)])
        if len(wit) > 1:
            w = E.ghost.get('witness')
            if not any(x is w for x in wit): raise Unsupported('sorting with more than one known entry')
            total = total + len(wit) - 1; wit = [w] # the others become unknown entries again
        a = E.fresh('before', z3.IntSort()); E.fact(a >= 0, a <= total)
        return SList([self.again(a)] + wit + [self.again(total - a)])
    def loop_spec(self, where, loc, names): return Filling(self, loc, names)
    def __repr__(self): return f'<{self.what}>'
class Filling(LoopSpec):
    '''for item in items: one text for each is appended to one list'''
    def __init__(self, seg, loc, names): self.seg, self.names = seg, names
    def lists(self, loc): return [o for o in {id(v): v for v in loc.values() if isinstance(v, SList) and all(isinstance(p, (str, Texts)) for p in v.parts())}.values()]
    def entry(self, loc):
        ls = self.lists(loc)
        if len(ls) != 1: raise Unsupported('a loop which does not fill exactly one list of texts')
        self.l, = ls; self.was = self.l.parts()
    def iteration(self, loc):
        self.done = Texts(E.fresh('done', z3.IntSort()), lambda: _e.Text('\u27e6so far\u27e7')); E.fact(self.done.n >= 0)
        _e.TOKENS['\u27e6so far\u27e7'] = ('done',)
        list.__setitem__(self.l, slice(None), self.was + [self.done])
        self.e = self.seg.make()
        return self.e
    def preserved(self, loc):
        ps, pre = self.l.parts(), self.was + [self.done]
        ok = len(ps) == len(pre) + 1 and all(a is b for a, b in zip(ps, pre)) and isinstance(ps[-1], str)
        E.prove('each entry gets one text', ok, lambda m: rp(ps), case)
        if ok:
            E.prove('a text is within a line', one_line(ps[-1]), lambda m: ps[-1], case)
    def exit(self, loc): list.__setitem__(self.l, slice(None), self.was + [Texts(self.seg.n, lambda: _e.Text('\u27e6done\u27e7'))]); _e.TOKENS['\u27e6done\u27e7'] = ('done',)

def split(l, end):
    '''the first/last element told apart, in the list itself'''
    while l.parts():
        ps = l.parts(); p = ps[0 if end == 'head' else -1]
        if not isinstance(p, Seg): return
        if not isinstance(p, (Items, Texts)): raise Unsupported(f'an end of {p!r}')
        rest = ps[1:] if end == 'head' else ps[:-1]
        if E.decide(p.n > 0):
            x, less = p.make(), p.again(p.n - 1)
            l[0:] = [x, less] + rest if end == 'head' else rest + [less, x]
            return
        l[0:] = rest
def index2(l, i):
    if i in (0, -1) and type(i) is int:
        split(l, 'head' if i == 0 else 'tail')
        ps = l.parts()
        if not ps: raise IndexError('list index out of range')
        return ps[i]
    raise Unsupported('index into an unbounded list')
def slice2(l, s):
    if s.step is None and s.stop is None and type(s.start) is int and s.start == 1:
        c = SList(l.parts()); split(c, 'head'); return SList(c.parts()[1:])
    if s.step is None and s.start in (None, 0) and type(s.stop) is int and s.stop == -1:
        c = SList(l.parts()); split(c, 'tail'); return SList(c.parts()[:-1])
    raise Unsupported('slice of an unbounded list')

def prove(P):
    patch_classes(); hook_counter(); names_table()
    import GPy_ABCD.KernelExpansion.kernelInterpretation as ki, GPy_ABCD.KernelExpressions.base as ba, GPy_ABCD.KernelExpressions.commutatives as cm
    import GPy_ABCD.KernelExpressions.change as ch, GPy_ABCD.Models.model as mo
    P.assume_note('every value is a real number which can be formatted (mathematical reals); string formatting and concatenation are Python\'s',
                  'sorted() returns a reordering of its argument',
                  'the sum-of-products form is a sum of at least one normalised pure product, each with its own parameter sets: proved for C03; the parameters of a fitted expression: proved for C04',
                  'sigmoids_to_intervals returns for any sigmoid factors a possibly empty list of intervals, each with a start or an end or both, and their slopes: proved for C01')
    jobs = []
    OFF, FIX = '__USE_LIN_KERNEL_HORIZONTAL_OFFSET', '__FIX_SIGMOIDAL_KERNELS_SLOPE'
    was = {k: ki.__dict__[k] for k in (OFF, FIX) if k in ki.__dict__}
    def run(f, name, function, specs = (), **kw):
        def g():
            OVERRIDE.clear(); _e.TOKENS.clear(); ki.__dict__.update(was)
            for k in list(_e.HOOKS): _e.HOOKS[k] = None
            _e.HOOKS.update(index = index2, slice = slice2, head = lambda l: split(l, 'head'), tail = lambda l: split(l, 'tail'))
            E.loop_specs[:] = list(specs)
            f()
        jobs.append((name, g, function, dict(max_s = 330, max_paths = 20000, **kw)))

    # ---- T1/T2: one factor kind
    def params_of(b): return [p for p in PARAMS[b] if p != 'variance' and p != 'offset'] + (['offset'] if b == 'LIN' and ki.__dict__.get(OFF, 'offset' in PARAMS[b]) else [])
    def entry(b, name): return {p: Real(f'{name}.{p}') if p == 'offset' else Pos(f'{name}.{p}') for p in params_of(b)}
    def flags(names):
        for k in names:
            if k in was: ki.__dict__[k] = bool(E.choose(2, k))
    def any_list(what, make):
        w = make('w')
        E.ghost['witness'] = w
        a, b = E.fresh('entries before', z3.IntSort()), E.fresh('entries after', z3.IntSort()); E.fact(a >= 0, b >= 0)
        other = lambda: make('other')
        return w, SList([Items(what, a, other), w, Items(what, b, other)])
    def text_of(st, r, what, silent = False):
        E.prove(f'{what}: it returns a text', st == 'return' and isinstance(r, str), lambda m: rp(r), case)
        if st != 'return' or not isinstance(r, str): return False
        E.prove(f'{what}: it is within a line', one_line(r), lambda m: r, case)
        if not silent: E.prove(f'{what}: it says something', bool(TOK.sub('', _e.plain(r)).strip()) or any(isinstance(t[0], SNum) for t in tokens(r)), lambda m: repr(r), case)
        return True
    def all_mentioned(r, w, names, what):
        for p in names: E.prove(f'{what}: any {p} of the factors is mentioned, rounded to two decimals', mentions(r, w[p]), lambda m: f'{r} without {p}', case)
    def term(fn, b):
        def f():
            flags([OFF] if b == 'LIN' else [])
            if b in ('SE', 'WN', 'C'): w, l = (e := entry(b, 'the one')), SList([e]) # at most one of these matters, or they have no parameters
            else: w, l = any_list(b, lambda n: entry(b, n))
            if b in ('WN', 'C'): l = SList([Items(b, Pos_int(), lambda: {})])
            seen = dict(w)
            st, r = E.call(getattr(ki, fn), (b, l))
            if not text_of(st, r, fn): return
            all_mentioned(r, w, params_of(b), fn)
            E.prove(f'{fn}: the parameters are left as they were', same_entry(w, seen), lambda m: rp(w), case)
        return f
    def Pos_int(): n = E.fresh('how many', z3.IntSort()); E.fact(n >= 1); return n
    for b in BASES: run(term('first_term_interpretation', b), f'first_term_interpretation ({b})', 'first_term_interpretation')
    for b in ('SE', 'LIN'): run(term('postmodifier_interpretation', b), f'postmodifier_interpretation ({b})', 'postmodifier_interpretation')
    def sigmoid(b):
        def f():
            w, l = any_list(b, lambda n: entry_of(n, b))
            st, r = E.call(ki.postmodifier_interpretation, (b, l))
            if text_of(st, r, 'a sigmoid', True): E.prove('a sigmoid: nothing is said of it but its intervals', r == '', lambda m: r, case)
        return f
    for b in SIGMOIDS: run(sigmoid(b), f'postmodifier_interpretation ({b})', 'postmodifier_interpretation')
    def interval(name, kind):
        i = {}
        if kind in ('S', 'SI'): i['start'], i['start_slope'] = Real(name + '.start'), Real(name + '.start_slope')
        if kind in ('Sr', 'SI'): i['end'], i['end_slope'] = Real(name + '.end'), Real(name + '.end_slope')
        return i
    def intervals(kind):
        def f():
            flags([FIX])
            if kind == 'none':
                st, r = E.call(ki.postmodifier_interpretation, ('sigmoidal_intervals', SList()))
                text_of(st, r, 'no interval')
                return
            w, l = any_list('intervals', lambda n: interval(n, kind if n == 'w' else ['S', 'Sr', 'SI'][E.choose(3, n)]))
            seen = dict(w)
            st, r = E.call(ki.postmodifier_interpretation, ('sigmoidal_intervals', l))
            if not text_of(st, r, 'intervals'): return
            all_mentioned(r, w, [p for p in w if 'slope' not in p or not ki.__dict__.get(FIX, False)], 'intervals')
            E.prove('intervals: they are left as they were', same_entry(w, seen), lambda m: rp(w), case)
        return f
    for k in ('S', 'Sr', 'SI', 'none'): run(intervals(k), f'postmodifier_interpretation (intervals: {k})', 'postmodifier_interpretation')

    # ---- T3: a component
    def component():
        x = pure('component')
        v, n = x._v, x._n
        before = {k: (c, list(ps_of(l))) for k in known_names(x.parameters) for c, l in [state(x.parameters, k)]}
        made = {}
        def intervals_contract(d):
            if any(s in d for s in SIGMOIDS):
                k = E.fresh('intervals', z3.IntSort()); E.fact(k >= 0)
                made['l'] = SList([Items('intervals', k, lambda: interval('any', ['S', 'Sr', 'SI'][E.choose(3, 'interval')]))])
                d['sigmoidal_intervals'] = made['l']
            return d
        def part(kind, allowed):
            def f(bps):
                b, ps = bps
                if b in SIGMOIDS and kind == 'post': return ''
                if b not in allowed: raise ValueError(f'An unexpected type of {kind} term in a pure product has arisen: {b}')
                return _e.text_token('part', kind, b, ps)
            return f
        for name, c in (('sigmoids_to_intervals', intervals_contract), ('first_term_interpretation', part('first', BASES)), ('postmodifier_interpretation', part('post', ['SE', 'LIN', 'sigmoidal_intervals']))):
            if name not in ki.__dict__: raise Unsupported(f'no {name}')
            ki.__dict__[name] = c
        st, r = E.call(ki.base_factors_interpretation, x.parameters)
        if not text_of(st, r, 'a component'): return
        E.prove('the overall variance is mentioned, rounded to two decimals', mentions(r, v), lambda m: r, case)
        parts = [t for t in tokens(r) if t[0] == 'part']
        here = [b for b in BASES if E.decide(n[b] > 0)]
        want = here + (['sigmoidal_intervals'] if 'l' in made else [])
        E.prove('intervals are found when there are sigmoids', z3.BoolVal('l' in made) == z3.Or(*[n[s] > 0 for s in SIGMOIDS]), '', case)
        E.prove('every kind of factor is described once', collections.Counter(t[2] for t in parts) == collections.Counter(want), lambda m: f'{r}: {want}', case)
        for t in parts:
            b = t[2]
            E.prove('a factor is described from its own parameters', t[3] is made.get('l') if b == 'sigmoidal_intervals' else parts_same(t[3], x._lists.get(b, [])), lambda m: f'{b}: {rp(t[3])}', case)
        for k in set(before) | known_names(x.parameters):
            c, l = state(x.parameters, k)
            E.prove('the component keeps its parameters', k in before and l is not None and zb(parts_same(l, before[k][1])) if c is not False else (E.feasible(before[k][0]) is False if k in before and z3.is_expr(before[k][0]) else k not in before), lambda m: f'{k}: {rp(l)} instead of {rp(before.get(k))}', case)
    real = {k: ki.__dict__[k] for k in ('sigmoids_to_intervals', 'first_term_interpretation', 'postmodifier_interpretation') if k in ki.__dict__}
    def guarded(f):
        def g():
            try: f()
            finally: ki.__dict__.update(real)
        return g
    run(guarded(component), 'base_factors_interpretation', 'base_factors_interpretation')

    # ---- T4: the whole text
    class Comps(Seg):
        '''the components of a form'''
        def __init__(self):
            self.n = E.fresh('components', z3.IntSort()); E.fact(self.n >= 1)
            self.rep = Opaque('a component', parameters = Opaque('parameters of a component'), base_terms = Opaque('base terms'))
        def length(self): return SNum(self.n)
        def comp(self, f, c, where):
            if c is not None: raise Unsupported('a filter on components')
            r = f(self.rep)
            if isinstance(r, str): return [Lines(self, r)]
            if r is self.rep: return [self]
            if r is self.rep.parameters: m = copy.copy(self); m.f = (lambda g: (lambda x: x))(0); return [Params(self)]
            raise Unsupported(f'{rp(r)} of each component')
        def loop_spec(self, where, loc, names): return Lining(self, loc, names, self.rep)
        def __repr__(self): return '<components>'
    class Params(Seg):
        def __init__(self, comps): self.comps = comps
        def length(self): return SNum(self.comps.n)
        def comp(self, f, c, where):
            if c is not None: raise Unsupported('a filter on components')
            r = f(self.comps.rep.parameters)
            if isinstance(r, str): return [Lines(self.comps, r)]
            raise Unsupported(f'{rp(r)} of each component')
        def loop_spec(self, where, loc, names): return Lining(self.comps, loc, names, self.comps.rep.parameters)
        def __repr__(self): return '<parameters of the components>'
    class Lines(Seg):
        '''a text for each component'''
        def __init__(self, comps, text): self.comps, self.text = comps, text
        def length(self): return SNum(self.comps.n)
        def comp(self, f, c, where):
            if c is not None: raise Unsupported('a filter on lines')
            r = f(self.text)
            if isinstance(r, str): return [Lines(self.comps, r)]
            raise Unsupported('something else for each line')
        def total(self): raise Unsupported('sum of texts')
        def __repr__(self): return f'<lines {self.text!r}>'
    class Lining(LoopSpec):
        '''for each component: its line is added to one text (or one list of texts)'''
        def __init__(self, comps, loc, names, item): self.comps, self.names, self.item_ = comps, names, item
        def entry(self, loc):
            self.texts = {k: v for k, v in loc.items() if k in self.names and isinstance(v, str)}
            self.ls = list({id(v): v for v in loc.values() if isinstance(v, SList) and all(isinstance(p, (str, Lines)) for p in v.parts())}.values())
            if len(self.texts) + len(self.ls) != 1: raise Unsupported('a loop which does not make exactly one text')
            if self.ls: self.l, = self.ls; self.was = self.l.parts()
            else: (self.k, self.t), = self.texts.items()
        def iteration(self, loc):
            if self.ls:
                self.done = Lines(self.comps, 'so far'); list.__setitem__(self.l, slice(None), self.was + [self.done])
            else: self.now = _e.text_token('so far', self); self.locals = {self.k: self.now}
            return self.item_
        def preserved(self, loc):
            if self.ls:
                ps, pre = self.l.parts(), self.was + [self.done]
                if not (len(ps) == len(pre) + 1 and all(a is b for a, b in zip(ps, pre)) and isinstance(ps[-1], str)): raise Unsupported('a loop which does not add one text for each component')
                self.step(ps[-1], '\n')
            else:
                v = loc[self.k]
                now = _e.plain(self.now)
                if not (isinstance(v, str) and _e.plain(v).startswith(now)): raise Unsupported('a loop which does not add to the text')
                self.step(_e.plain(v)[len(now):], '')
        def step(self, added, before):
            E.prove('each component adds one line, with its own interpretation', own_line(before + added), lambda m: repr(added), case)
        def exit(self, loc):
            if self.ls: list.__setitem__(self.l, slice(None), self.was + [Lines(self.comps, line_token(self.comps))])
            else: self.locals = {self.k: self.t + _e.text_token('lines', self.comps)}
    def line_token(comps): return _e.text_token('line', comps.rep.parameters)
    def own_line(t):
        '''a line break, then one line with exactly the component's interpretation'''
        t = _e.plain(t); plain = TOK.sub('', t)
        return plain.count('\n') == 1 and t[:1] == '\n' and [_e.TOKENS[x][0] for x in TOK.findall(t)] == ['line']
    def atoms(t):
        '''the text as pieces: strings and components (for each: a line break and its line)'''
        out, t = [''], _e.plain(t)
        def add(x):
            if isinstance(x, str): out[-1] += x
            else: out.extend([x, ''])
        pos = 0
        for m in TOK.finditer(t):
            add(t[pos:m.start()]); pos = m.end()
            v = _e.TOKENS[m.group()]
            if v[0] == 'lines': add(v[1])
            elif v[0] == 'join':
                sep, ps = v[1], v[2]
                for i, p in enumerate(ps):
                    if isinstance(p, Lines):
                        if i: one = sep + p.text
                        elif sep == '' : one = p.text
                        else: # the separator in front of the first one is already there
                            if not out[-1].endswith(sep): return None
                            out[-1] = out[-1][:-len(sep)]; one = sep + p.text
                        if not own_line(one): return None
                        add(p.comps)
                    elif isinstance(p, str):
                        for y in atoms((sep if i else '') + p) or [None]:
                            if y is None: return None
                            add(y)
                    else: return None
            else: add(m.group())
        add(t[pos:])
        return [x for x in out if x != '']
    def sop(of):
        comps = Comps()
        f = Opaque('form', base_terms = collections.Counter({b: 0 for b in BASES} if E.choose(2, 'zero counts') else {}), composite_terms = SList([comps]), parameters = collections.defaultdict(list))
        return f, comps
    real_bfi = ba.__dict__.get('base_factors_interpretation')
    def lines_only(r, comps):
        at = atoms(r)
        if at is None: raise Unsupported(f'the text {r!r}')
        E.prove('a first line, then one line for each component', len(at) == 2 and isinstance(at[0], str) and '\n' not in TOK.sub('', at[0]) and at[1] is comps, lambda m: repr(at), case)
        if not isinstance(at[0], str): return
        plain, ts = TOK.sub('', at[0]), [_e.TOKENS[t] for t in TOK.findall(at[0])]
        E.prove('the first line announces the number of components', not any(ch_.isdigit() for ch_ in plain) and len(ts) == 1 and isinstance(ts[0][0], SNum) and ts[0][1] in ('', 'd') and z3.is_true(z3.simplify(S(ts[0][0]) == comps.n)), lambda m: repr(at[0]), case)
    def whole(cls, given):
        def f():
            form, comps = sop(cls)
            if real_bfi is None: raise Unsupported('no base_factors_interpretation in base')
            seen = []
            def bfi(ps):
                seen.append(ps)
                if ps is not comps.rep.parameters: raise Unsupported('interpreting something else')
                return line_token(comps)
            ba.base_factors_interpretation = bfi
            asked = []
            x = object.__new__(cls)
            x.__dict__['sum_of_prods_form'] = lambda: (asked.append(1), form)[1]
            try: st, r = E.call(x.get_interpretation, form) if given else E.call(x.get_interpretation)
            finally: ba.base_factors_interpretation = real_bfi
            E.prove('it returns a text', st == 'return' and isinstance(r, str), lambda m: rp(r), case)
            E.prove('the form is asked for when it is not given', len(asked) == (0 if given else 1), '', case)
            if st == 'return' and isinstance(r, str): lines_only(r, comps)
        return f
    for cls in (cm.SumKE, cm.ProductKE, ch.ChangeKE):
        for given in (False, True): run(whole(cls, given), f'{cls.__name__}.get_interpretation ({"given the form" if given else "on its own"})', 'KernelExpression.get_interpretation')
    def model():
        form, log = object.__new__(cm.SumKE), []
        form.__dict__['get_interpretation'] = lambda sops = None: (log.append(sops), 'text')[1]
        form.__dict__['sum_of_prods_form'] = lambda: form # a form is its own form
        m = object.__new__(mo.GPModel)
        m.__dict__.update(_sum_of_prods_kex = form, model = Opaque('model'), kernel_expression = Opaque('kex'))
        st, r = E.call(m.interpret)
        E.prove('the text is the interpretation of the form of the fitted expression', st == 'return' and r == 'text' and len(log) == 1 and (log[0] is form or log[0] is None), lambda m: f'{rp(r)} {rp(log)}', case)
    run(model, 'GPModel.interpret', 'GPModel.interpret, GPModel.sum_of_prods_kex')
    from proofs.c03 import again
    run(lambda: again(mo, True), 'GPModel.fit, then its description', 'GPModel.fit, GPModel.interpret, GPModel.sum_of_prods_kex')
    P.parallel(jobs)
