'''C06 and C07: simplification of a node with any base-term counts and any number of (simplified, by induction) children.'''
from proofs.trees import *
from proofs import trees as T
from vc import engine as _e

def partition_contract(p, xs):
    '''(filter p xs, filter (not . p) xs), in order: proved for C22'''
    return (_e.vc.comp(xs, lambda x: x, p, 'partition', 'list'), _e.vc.comp(xs, lambda x: x, lambda x: not p(x), 'partition', 'list'))

def setup():
    import GPy_ABCD.KernelExpressions.commutative_base as cb
    patch_classes()
    cb.partition = partition_contract
    return cb

def own_counts(name = 'count'):
    c = {b: E.fresh(f'{name}[{b}]', z3.IntSort()) for b in BASES}
    for b in BASES: E.assume(c[b] >= 0)
    return c

def real_node(kind, c, comps):
    x = object.__new__(classes()[kind])
    x.__dict__.update(root = None, parent = None, GPy_name = {'sum': 'sum', 'mul': 'mul'}[kind], parameters = collections.defaultdict(list), symbol = {'sum': '+', 'mul': '*'}[kind],
                      base_terms = counter(c), composite_terms = comps)
    return x

def small(kind, case):
    '''Small trees of this kind, tried on the real code beside the solver's own counterexample'''
    out = []
    for n in range(0, 5):
        for bs in itertools.combinations_with_replacement(BASES, n):
            for kids in [[]] + ([[[OTHER[kind], ['LIN', 'PER']]], [[kind, ['LIN', 'PER']]], [[kind, ['SE', 'PER']], [kind, ['SE', 'PER']]]] if n < 3 else []):
                if bs or kids: out.append(dict(case = case, data = [kind, list(bs) + kids]))
    return out
def cand(case, kind, counts, kids): return lambda m: [dict(case = case, data = concretise(m, kind, counts, kids))] + small(kind, case)

class AbsorbSpec(LoopSpec):
    '''Invariant of absorb_homogeneous_composites, part of the homogeneous composites done:
    base_terms = NB(at entry + base terms of those done), composites (as a multiset) = those at entry - those done + composites of those done.'''
    def __init__(self, img, loc, kind):
        self.img, self.kind, self.me = img, kind, loc['self']
        self.entry_counts = {b: cnt(self.me.base_terms, b) for b in BASES}
        self.entry_parts = [as_img(p) for p in self.me.composite_terms.parts()]
    def havoc(self, tag, done_all):
        k = self.kind
        H = z3.Sum([self.img.number(c) for c in self.img.vals])
        done = H if done_all else E.fresh(f'done{tag}', z3.IntSort())
        D = {b: E.fresh(f'absorbed{tag}[{b}]', z3.IntSort()) for b in BASES}
        M = E.fresh(f'absorbed{tag}[composites]', z3.IntSort())
        facts = [D[b] >= 0 for b in BASES] + [M >= 0, done >= 0, done <= H if done_all else done < H, tot(D) + M >= 2 * done, z3.Implies(done == 0, z3.And(M == 0, tot(D) == 0))]
        if k == 'mul': facts += [D['C'] == 0]
        E.assume(z3.And(*facts))
        self.done, self.D, self.M = done, D, M
        n_comps = z3.Sum([z3.IntVal(0)] + [S(p.length()) if isinstance(p, Seg) else z3.IntVal(1) for p in self.entry_parts]) - done + M
        inv = NB(k, {b: self.entry_counts[b] + D[b] for b in BASES}, n_comps)
        # the state of the counts: the invariant's value (a fresh number equal to it keeps the path conditions small)
        cur = {b: E.fresh(f'state{tag}[{b}]', z3.IntSort()) for b in BASES}
        E.assume(z3.And(*[cur[b] == inv[b] for b in BASES]))
        self.me.__dict__['base_terms'] = counter(cur)
        return n_comps
    def iteration(self, loc):
        n = self.havoc('', False)
        cats = list(self.img.vals)
        v = self.img.vals[cats[E.choose(len(cats), 'which kind of child')]]
        self.hc = v
        self.region = Region(self, SNum(n))
        self.me.__dict__['composite_terms'] = SList([self.region])
        E.ghost['loop'] = self
        return v
    def preserved(self, loc):
        hc = self.hc
        ps = self.me.composite_terms.parts() if isinstance(self.me.composite_terms, SList) else None
        own = [p for p in (hc.composite_terms.parts())]
        ok = ps is not None and len(ps) == 1 + len(own) and any(isinstance(p, Region) and p.removed is hc for p in ps) and all(any(q is p for q in ps) for p in own)
        claim('meaning', 'absorbing a nested node moves its composites up, once each, and drops the node', ok, lambda m: rp(ps))
        claim('links', 'composites moved up get the node as parent', all(v.__dict__.get('parent') is self.me and v.__dict__.get('root') is self.me.__dict__.get('root') for p in own for v in as_img(p).vals.values()))
        want = NB(self.kind, {b: self.entry_counts[b] + self.D[b] + S(hc._abs.counts[b]) for b in BASES}, S(self.region.n) - 1 + S(hc._abs.ncomps))
        claim('meaning', 'absorbing a nested node adds its base terms, up to the documented identities', z3.And(*[cnt(self.me.base_terms, b) == want[b] for b in BASES]), case = E.ghost.get('case'))
        claim('meaning', 'the loop keeps what it assumes', z3.And(tot(self.D) + tot(hc._abs.counts) + self.M + S(hc._abs.ncomps) >= 2 * (self.done + 1), *([S(hc._abs.counts['C']) == 0] if self.kind == 'mul' else [])))
    def exit(self, loc):
        self.havoc('_all', True)
        rest = []
        for p in self.entry_parts:
            if not isinstance(p, Img): rest.append(p); continue
            keep = {k: v for k, v in p.vals.items() if not (p.base is self.img.base and k in self.img.vals)}
            if keep: rest.append(Img(p.base, keep))
        self.absorbed = Absorbed(self)
        self.absorbed.defaults = dict(parent = self.me, root = self.me.__dict__.get('root')) # what every iteration establishes
        E.fact(self.absorbed.length().z == self.M)
        self.me.__dict__['composite_terms'] = SList(rest + [self.absorbed])
        E.ghost['exit'] = self
class Region(Seg):
    '''The composites during the loop: those at entry without the ones done, plus the composites of the ones done.'''
    def __init__(self, spec, n, removed = None): self.spec, self.n, self.removed = spec, n, removed
    def length(self): return self.n if self.removed is None else self.n - 1
    def contains(self, x):
        if x is self.spec.hc and self.removed is None: return True
        raise Unsupported('membership of another node during absorption')
    def without_first(self, x): return [Region(self.spec, self.n, x)] # an equal term (equality is multiset equality: C09) goes: the same multiset
    def __repr__(self): return f'<composites during the loop{" without the current one" if self.removed is not None else ""}>'
class Absorbed(Kids):
    '''All composites of all homogeneous children.'''
    def __init__(self, spec): self.spec = spec; super().__init__('composites of the homogeneous children', inner_cats(spec.kind))

def sbt_contract(kind):
    '''Contract of simplify_base_terms (proved on its own): the node's base terms become their normal form, without zero or negative counts'''
    def f(self):
        n = v_len_z(self.composite_terms)
        want = NB(kind, {b: cnt(self.base_terms, b) for b in BASES}, n)
        if not set(self.base_terms) <= set(BASES): raise Unsupported('other base names')
        cur = {b: E.fresh(f'simplified[{b}]', z3.IntSort()) for b in BASES}
        E.fact(*[cur[b] == want[b] for b in BASES])
        self.base_terms = counter(cur)
        E.ghost['clean'] = (self.base_terms, dict(self.base_terms))
        return self
    return f
def v_len_z(l): return S(_e.v_len(l))
def is_clean(c):
    g = E.ghost.get('clean')
    return g is not None and g[0] is c and list(c) == list(g[1]) and all(c[k] is v for k, v in g[1].items())

WANT = set()
LINK_CASES = None
def claim(tag, name, cond, detail = '', **k):
    if tag in WANT: E.prove(name, cond, detail, **{'case': E.ghost.get('case'), **k})

def loops(kind):
    def f(where, seg, loc, names):
        if isinstance(seg, Img) and 'self' in loc and kind_of(loc['self']) == kind and '_abs' not in loc['self'].__dict__ and all(not isinstance(v, str) for v in seg.vals.values()):
            if all(kind_of(v) == kind for v in seg.vals.values()): return AbsorbSpec(seg, loc, kind)
    return f

def flat_counts(kind, own, kids):
    '''Base counts of the node with its children flattened in (reference: norm of the items, then the node's own identities)'''
    F = {b: own[b] for b in BASES}
    for c in kids.cats:
        if c.shape == 'base': F[c.sub] = F[c.sub] + kids.n[c]
    sp = E.ghost.get('exit')
    if sp is not None: F = {b: F[b] + sp.D[b] for b in BASES}
    return F
def survivors(kind, kids):
    '''category -> the node which has to be among the composites afterwards (not flattened, not a base term)'''
    out = {}
    for c in kids.cats:
        if c.shape == 'base': continue
        x = kids.rep(c)
        v = x if c.shape in ('many', 'chg') else x.composite_terms.parts()[0]
        if kind_of(v) != kind: out[c] = v
    return out
def is_homog(kind, c): return (c.kind == kind and c.shape == 'many') or (c.shape == 'single' and c.sub == kind)

def judge(kind, own, kids, x, tag):
    '''x is the node afterwards'''
    F = flat_counts(kind, own, kids)
    parts = [as_img(p) for p in parts_of(x.composite_terms)]
    surv = survivors(kind, kids)
    got = {}
    other, n_abs = [], 0
    for p in parts:
        if isinstance(p, Img) and p.base is kids:
            for c, v in p.vals.items(): got.setdefault(c, []).append(v)
        elif isinstance(p, Img) and isinstance(p.base, Absorbed) and p.same(as_img(p.base)): n_abs += 1
        else: other.append(p)
    possible = lambda d: {c: v for c, v in d.items() if E.feasible(kids.n[c] > 0)} # categories of which there are any on this path
    got, surv = possible(got), possible(surv)
    hom = [c for c in kids.cats if is_homog(kind, c)]
    claim('meaning', f'{tag}: every other composite term survives, once', not other and n_abs == (1 if E.ghost.get('exit') is not None else 0) and set(got) == set(surv) and all(len(v) == 1 and v[0] is surv[c] for c, v in got.items()), lambda m: rp(got) + rp(other))
    nc = z3.Sum([z3.IntVal(0)] + [kids.n[c] for c in surv]) + (E.ghost['exit'].M if E.ghost.get('exit') is not None else 0)
    want = NB(kind, F, nc)
    c = x.base_terms
    have = {b: cnt(c, b) for b in BASES}
    again = NB(kind, have, nc)
    claim('meaning', f'{tag}: base terms are the flattened ones up to the documented identities', z3.And(*[z3.And(have[b] >= 0, again[b] == want[b]) for b in BASES]), case = E.ghost.get('case'))
    claim('meaning', f'{tag}: no other base name appears', set(c) <= set(BASES), repr(set(c)))
    claim('normal', f'{tag}: base terms are in normal form', NF(kind, have, nc), case = E.ghost.get('case'))
    claim('normal', f'{tag}: no zero or negative count is kept', is_clean(c) or (z3.And(*[S(v) >= 1 for v in c.values()]) if c else True), case = E.ghost.get('case'))
    claim('normal', f'{tag}: no term of the node is of its own kind or a singleton', not other and all(kind_of(v[0]) != kind and v[0]._abs.cat.shape in ('many', 'chg') for v in got.values()), lambda m: rp(got) + rp(other))
    claim('normal', f'{tag}: the node is not empty', tot(have) + nc >= 1, case = E.ghost.get('case'))
    return nc

def prove(P, want, link_cases = None):
    global LINK_CASES
    LINK_CASES = link_cases
    WANT.clear(); WANT.update(want)
    cb = setup()
    from GPy_ABCD.KernelExpressions.all import SumKE, ProductKE, ChangeKE
    import GPy_ABCD.KernelExpansion.kernelOperations as ko
    P.assume_note(*TREE_NOTES, 'list.remove of an absorbed node removes an equal one (equality is multiset equality of contents: C09), which leaves the same multiset of terms', *(['simplify_base_terms leaves nothing a documented identity could still rewrite: proved for C07'] if 'meaning' in want else ['simplify_base_terms only rewrites by the documented identities: proved for C06'] if 'normal' in want else []))
    P.trust('partition: its contract is proved for C22')
    jobs = []
    def run(kind, f, name, function, **kw):
        def g():
            E.loop_specs[:] = [loops(kind)]
            OVERRIDE.clear()
            if kind in ('sum', 'mul') and f.__name__ != 'sbt': OVERRIDE[(classes()[kind], 'simplify_base_terms')] = sbt_contract(kind)
            f(kind)
        if WANT != {'links'} or f.__name__ in ('simp', 'change'): jobs.append((name, g, function, dict(max_s = 240, **kw)))

    # simplify_base_terms: all nine base names (the sigmoids of interpretations included), any number of composites
    def sbt(kind):
        sig = sorted(ko.base_sigmoids) if kind == 'mul' else []
        c = own_counts(); s = {b: E.fresh(f'count[{b}]', z3.IntSort()) for b in sig}
        for b in sig: E.assume(s[b] >= 0)
        kids = Kids('terms', CATS)
        x = real_node(kind, {**c, **s}, SList([kids]))
        n = kids.length().z
        E.ghost['case'] = cand('construct', kind, c, kids)
        st, v = E.call(x.simplify_base_terms)
        claim('normal', 'returns the node', st == 'return' and v is x, lambda m: rp(v))
        if st != 'return': return
        now = {b: cnt(x.base_terms, b) for b in BASES}
        want, have = NB(kind, c, n), NB(kind, now, n) # in an interpretation's product a constant is kept beside nothing but sigmoids: NB does not see them
        claim('meaning', 'base terms up to the documented identities', z3.And(*[z3.And(now[b] >= 0, have[b] == want[b]) for b in BASES]), case = cand('construct', kind, c, kids))
        claim('meaning', 'sigmoid factors and composite terms are untouched', z3.And(*[cnt(x.base_terms, b) == s[b] for b in sig]) if sig else True)
        claim('meaning', 'composite terms are untouched', x.composite_terms.parts()[0] is kids and len(x.composite_terms.parts()) == 1)
        claim('normal', 'no zero or negative count is kept', z3.And(*[S(v) >= 1 for v in x.base_terms.values()]) if x.base_terms else True)
        claim('normal', 'nothing a documented identity could still rewrite', NF(kind, {b: cnt(x.base_terms, b) for b in BASES}, n) if kind == 'sum' else z3.Implies(z3.And(*[s[b] == 0 for b in sig]), NF(kind, {b: cnt(x.base_terms, b) for b in BASES}, n)))
        before = {b: cnt(x.base_terms, b) for b in BASES + sig}
        st, v = E.call(x.simplify_base_terms)
        claim('normal', 'a second time changes nothing', st == 'return' and z3.And(*[cnt(x.base_terms, b) == before[b] for b in BASES + sig]))
    run('sum', sbt, 'SumKE.simplify_base_terms', 'SumKE.simplify_base_terms'); run('mul', sbt, 'ProductKE.simplify_base_terms', 'ProductKE.simplify_base_terms, SumOrProductKE.term_count')

    # simplify: arbitrary children
    def case_of(kind, own, kids): return cand('simplify', kind, own, kids)
    def simp(kind):
        own = own_counts()
        kids = Kids('children', CATS, nf = False)
        E.assume(tot(own) + kids.length().z >= 1)
        E.ghost['case'] = case_of(kind, own, kids)
        x = place_of(real_node(kind, own, SList([kids])))
        above = x.root, x.parent
        if WANT == {'links'}:
            up, E.ghost['case'] = Above('parent'), LINK_CASES
            x.__dict__.update(root = Above('root'), parent = up); kids.defaults = dict(parent = x, root = x.root)
        st, v = E.call(x.simplify)
        if WANT == {'links'}:
            claim('links', 'simplify returns', st == 'return', lambda m: rp(v))
            if st != 'return': return
            ok = all(y.__dict__.get('parent') is x and y.__dict__.get('root') is x.root for p in parts_of(x.composite_terms) for y in (as_img(p).vals.values() if isinstance(as_img(p), Img) else [p]) if not isinstance(y, str))
            claim('links', 'after simplify every term has the node as parent and its root as root', ok)
            claim('links', 'the links of the node itself stay', x.parent is up and type(x.root) is Above)
            return
        claim('meaning', 'simplify returns the node itself', st == 'return' and v is x, lambda m: rp(v))
        if st != 'return': return
        claim('normal', 'every child is simplified', all(kids.rep(c)._abs.__dict__.get('simplified') for c in kids.cats))
        judge(kind, own, kids, x, 'simplify')
        claim('meaning', 'nothing but the terms changes', x.symbol == {'sum': '+', 'mul': '*'}[kind] and x.GPy_name == kind and x.root is above[0] and x.parent is above[1] and len(x.parameters) == 0)
    fns = '{0}.simplify_base_terms, SumOrProductKE.simplify, SumOrProductKE.absorb_singletons, SumOrProductKE.absorb_homogeneous_composites, SumOrProductKE.new_base, SumOrProductKE.extract_if_singleton'
    run('sum', simp, 'SumKE.simplify', fns.format('SumKE')); run('mul', simp, 'ProductKE.simplify', fns.format('ProductKE'))

    # idempotence: a node in normal form with children in normal form
    def again(kind):
        own = own_counts()
        kids = Kids('children', inner_cats(kind))
        n = kids.length().z
        E.assume(z3.And(NF(kind, own, n), tot(own) + n >= 1))
        E.ghost['case'] = case_of(kind, own, kids)
        x = real_node(kind, own, SList([kids]))
        st, v = E.call(x.simplify)
        claim('normal', 'simplify again returns the node itself', st == 'return' and v is x, lambda m: rp(v))
        if st != 'return': return
        claim('normal', 'simplify again keeps the base terms', z3.And(*[cnt(x.base_terms, b) == own[b] for b in BASES]), case = E.ghost['case'])
        ps = [as_img(p) for p in parts_of(x.composite_terms)]
        claim('normal', 'simplify again keeps the composite terms in order', len(ps) == 1 and ps[0].same(as_img(kids)), lambda m: rp(ps))
    if 'normal' in WANT:
        run('sum', again, 'SumKE.simplify twice', fns.format('SumKE')); run('mul', again, 'ProductKE.simplify twice', fns.format('ProductKE'))

    # construction
    def construct(kind):
        own = own_counts()
        as_counter = E.choose(2, 'base terms given as a Counter or as a list') == 0
        kids = Kids('given composites', CATS)
        E.assume(tot(own) + kids.length().z >= 1)
        given = SList([kids]); bt = counter(own)
        arg = bt if as_counter else SList([Rep(b, SNum(own[b])) for b in BASES])
        E.ghost['case'] = cand('construct', kind, own, kids)
        root, parent = Above('root'), Above('parent')
        st, x = E.call(classes()[kind], arg, given, root, parent)
        claim('meaning', 'construction returns', st == 'return', lambda m: rp(x))
        if st != 'return': return
        seen = {id(p.base): p.base for p in [as_img(p) for p in parts_of(x.composite_terms)] if isinstance(p, Img)}
        copies = [b for b in seen.values() if not isinstance(b, Absorbed)]
        claim('meaning', 'construction copies the composites it is given', all(getattr(b, 'copy_of', None) is kids for b in copies), lambda m: rp(copies))
        k2 = copies[0] if copies else None
        if k2 is None: raise Unsupported('the copied composites')
        judge(kind, own, k2, x, 'construction')
        claim('meaning', 'the arguments are left alone', given.parts() == [kids] and (not as_counter or (x.base_terms is not bt and all(z3.eq(S(bt[b]), own[b]) for b in BASES))))
        claim('meaning', 'construction records the links and names', x.root is root and x.parent is parent and x.GPy_name == kind and x.symbol == {'sum': '+', 'mul': '*'}[kind])
    run('sum', construct, 'SumKE construction', 'SumKE.__init__, SumOrProductKE.__init__, KernelExpression.__init__'); run('mul', construct, 'ProductKE construction', 'ProductKE.__init__, SumOrProductKE.__init__, KernelExpression.__init__')

    # adding terms
    def newbase(kind):
        own = own_counts(); add = own_counts('added'); form = E.choose(3, 'a name, a list, a Counter')
        kids = Kids('children', inner_cats(kind)); n = kids.length().z
        x = real_node(kind, own, SList([kids]))
        if form == 0:
            b = BASES[E.choose(len(BASES), 'name')]; arg = b; F = {c: own[c] + (1 if c == b else 0) for c in BASES}
        else: arg = SList([Rep(b, SNum(add[b])) for b in BASES]) if form == 1 else counter(add); F = {c: own[c] + add[c] for c in BASES}
        st, v = E.call(x.new_base, arg)
        claim('meaning', 'new_base returns the node', st == 'return' and v is x, lambda m: rp(v))
        if st != 'return': return
        want = NB(kind, F, n)
        claim('meaning', 'new_base adds the terms, up to the documented identities', z3.And(*[cnt(x.base_terms, b) == want[b] for b in BASES]))
        claim('meaning', 'new_base keeps the composite terms', x.composite_terms.parts() == [kids])
        claim('normal', 'new_base leaves a normal form', NF(kind, {b: cnt(x.base_terms, b) for b in BASES}, n))
    run('sum', newbase, 'SumKE.new_base', 'SumOrProductKE.new_base'); run('mul', newbase, 'ProductKE.new_base', 'SumOrProductKE.new_base')

    # extraction of singletons
    def extract(kind):
        own = own_counts()
        n1 = E.choose(3, 'no composite, one, any number')
        g = node(OTHER[kind], 'only', NFC)
        kids = Kids('children', inner_cats(kind))
        comps = [SList(), SList([g]), SList([kids])][n1]
        n = [z3.IntVal(0), z3.IntVal(1), kids.length().z][n1]
        if n1 == 2: E.assume(n >= 2)
        E.assume(tot(own) + n >= 1)
        x = real_node(kind, own, comps); parent = x.__dict__['parent'] = Above('parent')
        st, v = E.call(x.extract_if_singleton)
        claim('meaning', 'extraction returns', st == 'return', lambda m: rp(v))
        if st != 'return': return
        single = tot(own) + n == 1
        if isinstance(v, str):
            claim('meaning', 'a base term is extracted exactly from a node with that single term', v in BASES and z3.And(single, own[v] == 1), lambda m: rp(v))
        elif v is x:
            claim('meaning', 'a node with several terms stays', z3.Not(single))
        else:
            claim('meaning', 'a composite is extracted exactly from a node with that single term', v is g and n1 == 1 and single)
            claim('meaning', 'an extracted composite gets the parent of the node', g.__dict__.get('parent') is parent)
    if 'meaning' in WANT: run('sum', extract, 'SumKE.extract_if_singleton', 'SumOrProductKE.extract_if_singleton')
    if 'meaning' in WANT: run('mul', extract, 'ProductKE.extract_if_singleton', 'SumOrProductKE.extract_if_singleton')

    # change operators
    def branch(name):
        i = E.choose(len(CATS) + 1, name)
        if i == len(CATS): return BASES[E.choose(len(BASES), 'base')], None
        x = node(CATS[i].kind, name, NFC, parent = None); x._abs.cat = CATS[i]
        return x, CATS[i]
    def expected(v, cat):
        if cat is None: return v
        if cat.shape == 'base': return cat.sub
        if cat.shape == 'single': return v.composite_terms.parts()[0]
        return v
    def change(kind):
        made = WANT != {'links'} and E.choose(2, 'construct or simplify') == 0
        which = 'CP' if E.choose(2, 'kind') == 0 else 'CW'
        l, lc = branch('left')
        # branches are treated separately: the other one ranges over three representatives of its result (base name, node kept, node unwrapped)
        reps = [None, Cat('sum', 'many'), Cat('mul', 'base', 'PER'), Cat('mul', 'single', 'sum')]
        rc = reps[E.choose(len(reps), 'right')]
        if rc is None: r = 'PER'
        else: r = node(rc.kind, 'right', NFC, parent = None); r._abs.cat = rc
        if E.choose(2, 'order') == 1: l, lc, r, rc = r, rc, l, lc
        if made:
            OVERRIDE.clear()
            st, x = E.call(ChangeKE, which, l, r, None, None)
        else:
            x = object.__new__(ChangeKE); x.__dict__.update(root = None, parent = None, GPy_name = 'change', parameters = collections.defaultdict(list), CP_or_CW = which, left = l, right = r)
            if WANT == {'links'}:
                x.__dict__.update(root = Above('root')); E.ghost['case'] = LINK_CASES
                for y in (l, r):
                    if not isinstance(y, str): y.__dict__.update(parent = x, root = x.root)
            st, v = E.call(x.simplify)
            if WANT == {'links'}:
                claim('links', 'after simplify both branches have the node as parent and its root as root', st == 'return' and all(isinstance(y, str) or (y.__dict__.get('parent') is x and y.__dict__.get('root') is x.root) for y in (x.left, x.right)) and x.parent is None and type(x.root) is Above)
                return
            claim('meaning', 'simplify returns the change operator', st == 'return' and v is x, lambda m: rp(v))
        if st != 'return':
            claim('meaning', 'a change operator is made', False, lambda m: rp(x)); return
        claim('meaning', 'a change operator keeps its kind', x.CP_or_CW == which)
        for side, v, cat, got in (('left', l, lc, x.left), ('right', r, rc, x.right)):
            if cat is None: claim('meaning', f'a base branch stays', got == v and isinstance(got, str), lambda m: rp(got)); continue
            if made:
                src = getattr(got, '_abs', None)
                if isinstance(got, str): claim('meaning', 'a single base term becomes the branch, in its place', cat.shape == 'base' and got == cat.sub, lambda m: f'{side} {cat} {rp(got)}'); continue
                o = src.__dict__.get('copy_of') if src is not None else None
                if cat.shape == 'single':
                    claim('meaning', 'a singleton branch is unwrapped, in its place', src is not None and got._abs.name.rstrip("'").endswith('only') and kind_of(got) == cat.sub, lambda m: f'{side} {cat} {rp(got)}')
                else: claim('meaning', 'every other branch stays, copied, in its place', o is v._abs, f'{side} {cat} {src and src.name}')
                claim('normal', 'branches are simplified', cat.shape != 'base' and (src.cat.shape in ('many', 'chg')), f'{cat}')
                continue
            want = expected(v, cat)
            claim('meaning', 'a singleton branch is unwrapped and every other branch stays, in its place', got is want or (isinstance(got, str) and got == want), lambda m: f'{side} {cat} {rp(got)}')
            claim('normal', 'branches are simplified', v._abs.__dict__.get('simplified', False) and (isinstance(got, str) or got._abs.cat.shape in ('many', 'chg')), f'{cat}')
    run('chg', change, 'ChangeKE construction and simplify', 'ChangeKE.__init__, ChangeKE.simplify, ChangeKE.extract_if_singleton')

    # roots of expansions
    if 'normal' in WANT:
        import GPy_ABCD.KernelExpansion.grammar as gr
        def root(kind):
            i = E.choose(len(CATS), 'root')
            cat = CATS[i]
            x = node(cat.kind, 'root', NFC, parent = None, root = None); x._abs.cat = cat
            OVERRIDE.clear()
            st, v = E.call(gr.standardise_singleton_root, x)
            claim('normal', 'standardising a root returns', st == 'return', lambda m: rp(v))
            if st != 'return': return
            if cat.shape == 'base':
                ok = type(v) is SumKE and '_abs' not in v.__dict__ and dict(+v.base_terms) == {cat.sub: 1} and len(v.composite_terms) == 0 and v.root is v and v.parent is None
            elif cat.shape == 'single':
                g = x.composite_terms.parts()[0]
                ok = v is g and g.parent is None and g.root is g and g._abs.__dict__.get('root_set', False)
            else: ok = v is x
            claim('normal', 'a singleton root becomes the sum of its base term or its one composite, any other root stays', ok, lambda m: f'{cat} {rp(v)}')
        run('root', root, 'standardise_singleton_root', 'grammar.standardise_singleton_root')
    P.parallel(jobs)
