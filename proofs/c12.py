'''Textual forms: the text built by the real methods is read by a parser of the documented grammar and compared with the node it came from.'''
import re
from proofs.exprs import *
from proofs import exprs as X
from vc import engine as _e

LEX = re.compile(r"\s*(?:(⟦[^⟧]*⟧)|('[^']*'|\"[^\"]*\")|([A-Za-z_]\w*)|(.))", re.S)
class Unreadable(Exception): pass
def lex(t):
    out = []
    for m in LEX.finditer(t):
        a, b, c, d = m.groups()
        if a: out.append(('tok', a))
        elif b: out.append(('lit', b[1:-1]))
        elif c: out.append(('name', c))
        elif d and not d.isspace(): out.append(('op', d))
    return out

class Reader:
    '''expression := term (+ term)*; term := atom (* atom)*; atom := name | CP(e, e) | CW(e, e) | (e) | text of a child at its level | join'''
    def __init__(self, toks): self.t, self.i = toks, 0
    def peek(self): return self.t[self.i] if self.i < len(self.t) else ('end', '')
    def take(self, k = None, v = None):
        x = self.peek()
        if (k and x[0] != k) or (v and x[1] != v): raise Unreadable(f'{x[1]!r} where {v or k} is expected')
        self.i += 1
        return x
    def end(self, what):
        if self.i != len(self.t): raise Unreadable(f'{self.peek()[1]!r} after {what}')
    # -- str
    def expression(self):
        items = [self.term()]
        while self.peek() == ('op', '+'): self.take(); items.append(self.term())
        return mix('sum', items)
    def term(self):
        items = [self.atom()]
        while self.peek() == ('op', '*'): self.take(); items.append(self.atom())
        low = [x for x in items if x[0] in ('sum level', 'mul level')]
        if low and len(items) > 1: # a bare sum as a factor binds the wrong way round; a bare product does not
            if any(x[0] == 'sum level' for x in low): raise Unreadable('a sum inside a product without brackets')
        return mix('mul', items) if len(items) > 1 else items[0]
    def atom(self):
        k, v = self.peek()
        if k == 'name':
            self.take()
            if v in ('CP', 'CW'):
                self.take('op', '('); l = self.expression(); self.take('op', ','); r = self.expression(); self.take('op', ')')
                return ('atom', ('chg', v, l[1], r[1]))
            if v not in BASES: raise Unreadable(f'the name {v}')
            return ('atom', v)
        if k == 'op' and v == '(':
            self.take(); e = self.expression(); self.take('op', ')'); return ('atom', e[1])
        if k == 'tok': self.take(); return self.known(v)
        raise Unreadable(f'{v!r} where a name is expected')
    def known(self, v):
        w = _e.TOKENS[v]
        if w[0] == 'text of': return level(w[1])
        if w[0] != 'join': raise Unreadable(f'{v}')
        op = {'+': 'sum', '*': 'mul'}.get(w[1].strip())
        if op is None: raise Unreadable(f'terms separated by {w[1]!r}')
        items = []
        for p in w[2]:
            if isinstance(p, str): items.append(operand_level(op, p))
            elif isinstance(p, Rep): items.append(('atom', ('times', operand_level(op, p.b)[1], p.n)))
            elif isinstance(p, (Img, Kids)):
                img = as_img(p)
                items.append(('atom', ('each', img.base, {c: operand_level(op, t)[1] for c, t in img.vals.items() if E.feasible(img.number(c) > 0)})))
            else: raise Unsupported(f'{p!r} joined')
        r = mix(op, items)
        return r
    # -- repr
    def call(self):
        k, v = self.peek()
        if k == 'tok':
            self.take()
            w = _e.TOKENS[v]
            if w[0] == 'repr of': return ('node', w[1])
            raise Unreadable(f'{v}')
        if k == 'lit': self.take(); return v
        if k == 'op' and v == '[':
            self.take(); out = []
            while self.peek() != ('op', ']'):
                t = self.peek()
                if t[0] == 'tok' and _e.TOKENS[t[1]][0] == 'join':
                    self.take(); w = _e.TOKENS[t[1]]
                    if w[1].strip() != ',': raise Unreadable(f'items separated by {w[1]!r}')
                    for p in w[2]:
                        if isinstance(p, str): out.append(single(p))
                        elif isinstance(p, Rep): out.append(('times', single(p.b), p.n))
                        elif isinstance(p, (Img, Kids)):
                            img = as_img(p); out.append(('each', img.base, {c: single(t) for c, t in img.vals.items() if E.feasible(img.number(c) > 0)}))
                        else: raise Unsupported(f'{p!r} joined')
                else: out.append(self.call())
                if self.peek() != ('op', ']'): self.take('op', ',')
            self.take('op', ']')
            return out
        if k == 'name' and v in ('SumKE', 'ProductKE', 'ChangeKE'):
            self.take(); self.take('op', '('); args = []
            while self.peek() != ('op', ')'):
                args.append(self.call())
                if self.peek() != ('op', ')'): self.take('op', ',')
            self.take('op', ')')
            return (v, args)
        raise Unreadable(f'{v!r} where a constructor is expected')
def single(t):
    r = Reader(lex(t)); v = r.call(); r.end('an item'); return v
def operand_level(op, t):
    r = Reader(lex(t))
    x = r.term() if op == 'sum' else r.atom()
    r.end('an operand')
    if op == 'mul' and x[0] == 'sum level': raise Unreadable('a sum inside a product without brackets')
    return x
def level(x):
    k = kind_of(x)
    return ('sum level' if k == 'sum' else 'mul level' if k == 'mul' else 'atom', ('node', x))
def mix(op, items):
    vals = [i[1] for i in items]
    flat = [y for v in vals for y in (v[2] if isinstance(v, tuple) and v[0] == 'op' and v[1] == op else [v])]
    if len(items) == 1: return items[0] if not (isinstance(vals[0], tuple) and vals[0][0] in ('times', 'each')) else (op + ' level', ('op', op, vals))
    return (op + ' level', ('op', op, flat))

def to_desc(d):
    '''What the text read denotes'''
    if isinstance(d, str): return Desc('base', what = d)
    if d[0] == 'node': return Desc('node', what = d[1])
    if d[0] == 'chg': return Desc('chg', what = (d[1], lone(to_desc(d[2])), lone(to_desc(d[3]))))
    if d[0] == 'op': return gather(d[1], d[2])
    raise Unsupported(f'{d!r}')
def gather(kind, ds):
    counts, items = zero(), []
    for d in ds:
        if isinstance(d, str): counts = add_counts(counts, {d: 1})
        elif d[0] == 'times' and isinstance(d[1], str): counts = add_counts(counts, {d[1]: d[2]})
        elif d[0] == 'each':
            if any(v != ('node', d[1].reps.get(c)) and not (isinstance(v, tuple) and v[0] == 'node' and v[1] is d[1].reps.get(c)) for c, v in d[2].items()): raise Unreadable('an item which is not the text of its own term')
            if any(c not in d[2] for c in d[1].cats if E.feasible(d[1].n[c] > 0)): raise Unreadable('a term without a text')
            items.append(Desc('seg', what = d[1]))
        elif d[0] == 'times': raise Unsupported('a term several times')
        else: items.append(to_desc(d))
    return content(kind, {b: z3.simplify(v) for b, v in counts.items()}, items)
def evaluate(d):
    '''What the representation builds, by the constructors' contract'''
    if isinstance(d, str): return Desc('base', what = d)
    if isinstance(d, list): raise Unreadable('a list where an expression is expected')
    if d[0] == 'node': return Desc('node', what = d[1])
    cls, args = d
    if cls == 'ChangeKE':
        if len(args) != 3 or args[0] not in ('CP', 'CW'): raise Unreadable(f'the arguments of ChangeKE')
        return Desc('chg', what = (args[0], lone(evaluate(args[1])), lone(evaluate(args[2]))))
    if not 1 <= len(args) <= 2 or not all(isinstance(a, list) for a in args): raise Unreadable(f'the arguments of {cls}')
    bases, comps = args[0], args[1] if len(args) > 1 else []
    if any(not isinstance(b, str) and not (b[0] == 'times' and isinstance(b[1], str)) for b in bases): raise Unreadable('base terms which are not names')
    if any(isinstance(c, str) or c[0] == 'times' for c in comps): raise Unreadable('a name among the composite terms')
    names = [b if isinstance(b, str) else b[1] for b in bases]
    if any(n not in BASES for n in names): raise Unreadable(f'the names {names}')
    return gather('sum' if cls == 'SumKE' else 'mul', bases + [c if c[0] in ('each', 'node') else built(c) for c in comps])
def built(c): return ('node', evaluate(c)) if False else c

def text_of(x): return _e.text_token('text of', x)
def repr_of(x): return _e.text_token('repr of', x)
CON = {'__str__': text_of, '__repr__': repr_of}

def prove(P):
    patch_classes(); hook_counter()
    P.assume_note(*TREE_NOTES, 'sub-expressions: the text of a child reads as the child (sums at the level of a sum, products at the level of a product, change operators as an atom), its representation evaluates to an expression equal to it (induction hypothesis)',
                  'texts are read by a reader of the documented grammar (usual precedence of + and *, CP/CW as functions; Python call, list and string syntax), names of the base kernels being single tokens',
                  'constructors give the simplified contents of their arguments (proved: C06, C07, C08)')
    import GPy_ABCD.KernelExpressions.commutative_base as cb
    jobs = []
    def run(f, name, function, **kw):
        def g():
            E.loop_specs[:] = []; OVERRIDE.clear()
            _e.TOKENS.clear()
            f()
        jobs.append((name, g, function, dict(max_s = 240, **kw)))
    def finer(kind): return [Cat(c.kind, 'many', s) for c in inner_cats(kind) if c.shape == 'many' for s in ('bare', 'some')] + [c for c in inner_cats(kind) if c.shape != 'many']
    def some(kind, name):
        '''a simplified composite term, with its contents'''
        if kind == 'chg': return node('chg', name, {**NFC, **CON})
        x = node(kind, name, {**NFC, **CON})
        return nf_contents(x, Cat(kind, 'many'), name, NFC)
    def one(kind, shape):
        def go():
            if kind == 'chg':
                def br(n):
                    i = E.choose(4, n)
                    return BASES[E.choose(len(BASES), n)] if i == 3 else some(['sum', 'mul', 'chg'][i], n)
                return arbitrary('chg', None, None, CP_or_CW = ['CP', 'CW'][E.choose(2, 'kind')], left = br('left'), right = br('right'))
            cat = [c for c in CATS if c.kind == kind and c.shape == shape]
            cat = cat[E.choose(len(cat), 'shape')]
            if shape == 'base': return arbitrary(kind, {cat.sub: 1}, SList())
            if shape == 'single': return arbitrary(kind, {}, SList([some(cat.sub, 'term')]))
            c = {b: E.fresh(f'[{b}]', z3.IntSort()) for b in BASES}
            seg = Kids('terms', finer(kind), contracts = {**NFC, **CON})
            E.assume(z3.And(NF(kind, c, seg.length().z), tot(c) + seg.length().z >= 2))
            x = arbitrary(kind, c, SList([seg])); x.__dict__.update(_kids = seg, _counts = c)
            return x
        return go
    def case(which, x):
        def go(m):
            if kind_of(x) == 'chg': d = [x.CP_or_CW] + [y if isinstance(y, str) else {'sum': ['sum', ['LIN', 'PER']], 'mul': ['mul', ['LIN', 'PER']], 'chg': ['CW', 'PER', 'LIN']}[kind_of(y)] for y in (x.left, x.right)]
            elif '_kids' in x.__dict__: d = concretise(m, kind_of(x), x._counts, x._kids)
            else: d = spec(m, x)
            return dict(case = which, data = d)
        return go
    def plain_desc(x):
        k = kind_of(x)
        if k == 'chg': return Desc('chg', what = (x.CP_or_CW,) + tuple(Desc('base', what = y) if isinstance(y, str) else Desc('node', what = y) for y in (x.left, x.right)))
        items = [Desc('seg', what = p) if isinstance(p, Kids) else Desc('node', what = p) for p in parts_of(x.composite_terms)]
        return content(k, {b: S(n) for b, n in dict.items(x.base_terms)}, items)
    def prune(d): # parts without terms on this path
        d.items = [i for i in d.items if i.kind != 'seg' or E.feasible(S(i.what.length()) > 0)]
        return d
    def check(x, d, what, c, detail):
        f = same(prune(lone(d)), prune(lone(plain_desc(x))))
        E.prove(what, f if isinstance(f, bool) else SBool(f), detail, c)
    def text(which, kind, shape):
        def f():
            x = one(kind, shape)()
            before = shot(x)
            st, t = E.call(str if which == 'str' else repr, x)
            c = case(which, x)
            E.prove('returns a text', st == 'return' and isinstance(t, str), lambda m: rp(t), c)
            if st != 'return' or not isinstance(t, str): return
            E.prove('nothing is modified', unchanged(x, before), '', c)
            what = 'the printed text reads as the expression' if which == 'str' else 'the representation evaluates to an equal expression'
            try:
                r = Reader(lex(t)); v = r.expression()[1] if which == 'str' else r.call(); r.end('the text')
                d = to_desc(v) if which == 'str' else evaluate(v)
            except Unreadable as e:
                E.prove(what, False, f'{e} in {t!r}', c); return
            check(x, d, what, c, t)
            if which == 'repr': E.prove('the representation is of the same class', isinstance(v, tuple) and v[0] == type(x).__name__, t, c)
        return f
    for kind, shapes in (('sum', ('base', 'single', 'many')), ('mul', ('base', 'single', 'many')), ('chg', ('chg',))):
        for sh in shapes:
            cls = {'sum': 'SumOrProductKE', 'mul': 'SumOrProductKE', 'chg': 'ChangeKE'}[kind]
            extra = {'sum': 'SumOrProductKE.bracket_if_needed, order_base_kerns, KernelExpression.bs', 'mul': 'ProductKE.bracket_if_needed, order_base_kerns, KernelExpression.bs', 'chg': 'KernelExpression.bs'}[kind]
            run(text('str', kind, sh), f'{CNAME[kind]}.__str__ ({sh})', f'{cls}.__str__, {extra}')
            run(text('repr', kind, sh), f'{CNAME[kind]}.__repr__ ({sh})', f'{cls}.__repr__')

    # the same contents in the same order print identically, in whatever order the base terms were added
    def parts_text(t):
        out = []
        for k, v in lex_plain(t):
            if k == 'tok' and _e.TOKENS[v][0] == 'join': out.append(('join', _e.TOKENS[v][1], [item(p) for p in _e.TOKENS[v][2]]))
            else: out.append((k, v))
        return out
    def item(p):
        if isinstance(p, Rep): return ('rep', p.b, z3.simplify(S(p.n)).sexpr())
        if isinstance(p, Img): return ('img', id(p.base), sorted((c.key(), t) for c, t in p.vals.items()))
        return p if isinstance(p, str) else ('part', id(p))
    def lex_plain(t): return [('tok' if x.startswith('⟦') else 'txt', x) for x in re.split(r'(⟦[^⟧]*⟧)', t)]
    def order(kind):
        def f():
            x = one(kind, 'many')()
            import itertools
            perms = list(itertools.permutations(BASES))
            i = E.choose(len(perms), 'order')
            y = arbitrary(kind, {b: x._counts[b] for b in perms[i]}, SList(x.composite_terms.parts()), root = Above('another root'), parent = Above('another parent'))
            (a, s), (b, t) = E.call(str, x), E.call(str, y)
            E.prove('equal contents in the same order print identically', a == b == 'return' and parts_text(s) == parts_text(t), lambda m: f'{s!r} {t!r}', case('same_order', x))
        return f
    for kind in ('sum', 'mul'): run(order(kind), f'{CNAME[kind]}.__str__ order', 'SumOrProductKE.__str__, order_base_kerns', max_paths = 20000)
    P.parallel(jobs)
