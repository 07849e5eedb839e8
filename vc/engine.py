'''Symbolic execution of the real code by CPython on symbolic values, path by path, with z3 deciding every branch and obligation.

Paths are explored exhaustively by re-execution: every branch on a symbolic condition (and every explicit choice) is a decision;
a run follows a decision prefix and records the alternatives. An exploration is complete when no alternative is left.
Unbounded lists are lists with opaque segments (Seg); a loop over a segment is cut by an invariant given as a contract.'''
import os, re, time, z3, functools, itertools, builtins, collections, copy

class PathEnd(BaseException): '''This path is finished (infeasible, or cut after an inductive step).'''
class Unsupported(BaseException): '''The verifier cannot follow the code here: undecided, never a verdict.'''

class Engine:
    def __init__(self):
        self.results = {}            # obligation -> dict(status, paths, seconds, detail, function, model)
        self.order = []
        self.solver_s = 0.0
        self.timeout, self.branch_timeout = 10000, 10000
        self.reset_path([])
        self.loop_specs = []
        self.active = False
        self.smt_dir = None
    # ---- paths
    def reset_path(self, prefix):
        self.prefix, self.taken, self.pc, self.pending = prefix, [], [], []
        self.solver = z3.Solver(); self.solver.set('timeout', self.timeout)
        self.fresh_n = {}
        self.ghost = {}
        self.local_facts = []
    def fresh(self, name, sort = None):
        k = self.fresh_n.get(name, 0); self.fresh_n[name] = k + 1
        n = f'{name}!{k}' if k else name
        return z3.Const(n, sort if sort is not None else z3.RealSort())
    def check(self, *extra):
        t = time.time(); r = self.solver.check(*extra); self.solver_s += time.time() - t
        return r
    def feasible(self, *extra):
        self.solver.set('timeout', self.branch_timeout)
        r = self.check(*extra)
        self.solver.set('timeout', self.timeout)
        return r != z3.unsat
    def assume(self, c):
        c = raw(c)
        if c is True or (z3.is_expr(c) and z3.is_true(c)): return
        if c is False: raise PathEnd
        self.pc.append(c); self.solver.add(c)
        if not self.feasible(): raise PathEnd
    def choose(self, n, label = ''):
        '''Every alternative is explored.'''
        if n == 1: return 0
        i = len(self.taken)
        if i < len(self.prefix): d = self.prefix[i]
        else:
            d = 0
            for alt in range(1, n): self.pending.append(self.taken + [alt])
        self.taken.append(d)
        return d
    def decide(self, c):
        if isinstance(c, bool): return c
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        if not self.active: raise Unsupported(f'a symbolic condition outside an exploration: {c}')
        i = len(self.taken)
        if i < len(self.prefix):
            d = self.prefix[i]; self.taken.append(d)
            yes = d in (0, 'T', 't')
            cc = c if yes else z3.Not(c)
            self.pc.append(cc); self.solver.add(cc)
            return yes
        can_t, can_f = self.feasible(c), self.feasible(z3.Not(c))
        if not can_t and not can_f: raise PathEnd
        if can_t and can_f: self.pending.append(self.taken + ['F'])
        d = ('T' if can_t else 'F') if can_t and can_f else ('t' if can_t else 'f') # lower case: no alternative
        self.taken.append(d)
        cc = c if can_t else z3.Not(c)
        self.pc.append(cc); self.solver.add(cc)
        return can_t
    def forks(self): return sum(d not in ('t', 'f') for d in self.taken)
    def explore(self, name, f, function = '-', max_paths = 4000, max_s = 120, exact = False):
        '''Run f on every path. Anything unsupported makes every obligation of this exploration undecided.'''
        self.current = dict(name = name, function = function, exact = exact)
        todo, n, t0, touched = [[]], 0, time.time(), set()
        self.touched = touched
        problem = None
        self.active = True
        try:
            while todo:
                self.reset_path(todo.pop())
                n += 1
                try: f()
                except PathEnd: pass
                except Unsupported as e:
                    problem = f'unsupported: {e}'
                    if os.environ.get('VC_TRACE'): import traceback; problem += '\n' + ''.join(traceback.format_exception(e))[-1500:]
                    break
                todo += self.pending
                if n > max_paths or time.time() - t0 > max_s:
                    if todo: problem = f'path limit: {n} paths in {time.time() - t0:.0f} s'
                    break
        finally: self.active = False
        for k in touched: self.results[k]['explored'] = n
        if not touched: self.record(name, 'undecided', problem or 'no obligation was reached (vacuous exploration)')
        elif problem:
            for k in touched:
                r = self.results[k]
                if r['status'] == 'proved': r['status'], r['detail'] = 'undecided', problem
        return n
    def fact(self, *cs):
        '''Satisfiable knowledge about fresh symbols: survives local case splits.'''
        for c in cs: self.pc.append(c); self.solver.add(c); self.local_facts.append(c)
    def local(self, thunk, given = None, limit = 200):
        '''thunk() on every path from here, which must all give the same value; its path conditions do not outlive it.'''
        keep = self.prefix, self.taken, self.pc, self.pending
        todo, out, n, merged = [[]], None, 0, []
        outer, facts = self.local_facts, []
        try:
            while todo:
                self.prefix, self.taken, self.pc, self.pending = todo.pop(), [], keep[2] + facts, []
                self.solver.push(); n += 1; self.local_facts = []; start = len(self.pc)
                try:
                    if given is not None: self.assume(given); start = len(self.pc)
                    v = thunk()
                    boolean = isinstance(v, (bool, SBool))
                    if boolean: merged.append((self.pc[start:], v))
                    if out is None: out = [v]
                    elif boolean and isinstance(out[0], (bool, SBool)): pass
                    elif not (v is out[0] or (isinstance(v, (str, bool, int)) and type(v) is type(out[0]) and v == out[0]) or same_value(v, out[0])): raise Unsupported('a case split whose cases give different values')
                except PathEnd: pass
                finally:
                    self.solver.pop()
                    for c in self.local_facts: self.solver.add(c); facts.append(c)
                todo += self.pending
                if n > limit: raise Unsupported('too many local cases')
        finally:
            self.prefix, self.taken, self.pc, self.pending = keep
            self.pc += facts; self.local_facts = outer + facts
        if out is None: raise PathEnd
        if len(merged) > 1 and any(not same_value(v, out[0]) and v is not out[0] for _, v in merged): # truth values: one formula for all cases
            return SBool(z3.simplify(z3.Or(*[z3.And(*[x for x in c if z3.is_expr(x)], raw(v)) for c, v in merged])))
        return out[0]
    def record(self, name, status, detail = '', seconds = 0.0, model = None, backend = 'z3'):
        name = name if name.startswith(self.current['name']) else self.current['name'] + ' / ' + name
        r = self.results.get(name)
        if r is None:
            r = self.results[name] = dict(name = name, function = self.current['function'], status = 'proved', detail = '', seconds = 0.0, paths = 0,
                                          models = [], exact = self.current['exact'], backend = backend, explored = 0)
            self.order.append(name)
        if hasattr(self, 'touched'): self.touched.add(name)
        r['paths'] += 1; r['seconds'] += seconds
        rank = {'proved': 0, 'undecided': 1, 'refuted': 2}
        if rank[status] > rank[r['status']]: r['status'], r['detail'] = status, detail
        if isinstance(model, list): r['models'] += model[:max(0, 300 - len(r['models']))]
        elif model is not None and len(r['models']) < 6: r['models'].append(model)
        return r
    def prove(self, name, c, detail = '', case = None):
        '''Obligation: the path condition implies c. case(model) -> {case, data} to replay on the real code.'''
        c = raw(c)
        t = time.time()
        if isinstance(c, bool) or z3.is_true(c):
            if c is False: # still only a violation when the path is feasible
                r = self.check()
                if r == z3.unsat: raise PathEnd
                r = self.unassumed(r)
                m = self.solver.model() if r == z3.sat else None
                self.record(name, 'refuted' if r == z3.sat else 'undecided', self.explain(detail, m), time.time() - t, self.concrete(case, m))
            else: self.record(name, 'proved', '', time.time() - t)
            return c is not False
        r = self.check(z3.Not(c))
        if r == z3.unknown: r2, m = self.second_opinion(c); r = r2
        if r == z3.unsat: self.record(name, 'proved', '', time.time() - t); return True
        r = self.unassumed(r, z3.Not(c))
        m = self.solver.model() if r == z3.sat else None
        self.record(name, 'refuted' if r == z3.sat else 'undecided', self.explain(detail, m), time.time() - t, self.concrete(case, m))
        return False
    def unassumed(self, r, *extra):
        '''A refutation counts only if it does not need two arbitrary things to be equal of which nothing else is then known to agree.'''
        eqs = self.ghost.get('equalities')
        if r != z3.sat or not eqs: return r
        r2 = self.check(*extra, *[z3.Not(e) for e in eqs.values()])
        return r2 if r2 == z3.sat else z3.unknown
    def second_opinion(self, c):
        s = z3.SolverFor('QF_NRA') if False else z3.Solver()
        s.set('timeout', 2 * self.timeout); s.set('random_seed', 7)
        s.add(self.pc); s.add(z3.Not(c))
        return s.check(), None
    def explain(self, detail, m):
        if callable(detail):
            try: detail = detail(m)
            except (Exception, Unsupported): detail = ''
        d = str(detail)
        if m is not None:
            d += ' | counterexample: ' + ', '.join(f'{v.name()} = {m[v]}' for v in sorted(m.decls(), key = lambda v: v.name())[:14])
        if self.taken: d += f' | path {self.taken[:30]}'
        return d[:900]
    def concrete(self, case, m):
        if case is None or m is None: return None
        try: return case(m)
        except Unsupported: return None
        except Exception: return None
    def call(self, f, *a, **k):
        '''('return', value) or ('raise', exception) of the real code on this path.'''
        try: return 'return', f(*a, **k)
        except (PathEnd, Unsupported): raise
        except RecursionError as e: raise Unsupported('recursion')
        except Exception as e:
            if isinstance(e, (TypeError, AttributeError, ValueError)) and stand_in_error(str(e)): raise Unsupported(f'{type(e).__name__}: {e}') # a stand-in where the language wants the real thing
            return 'raise', e

OWN = {'SList', 'SNum', 'SBool', 'Opaque', 'v_list', 'v_int', 'v_dict', 'Loop'}
def stand_in_error(s):
    '''the message names a class of the verifier (or z3)'''
    if 'z3.' in s or "Seg'" in s: return True
    ws = set(re.findall(r"[A-Za-z_]\w*", s))
    if ws & OWN: return True
    ks = {k.__name__ for b in (Seg, Opaque, LoopSpec) for k in all_sub(b)}
    return any(f"'{k}'" in s or f'type {k} ' in s for k in ks & ws)
def all_sub(c): return [c] + [y for x in c.__subclasses__() for y in all_sub(x)]

SAME = []
def same_value(a, b):
    if any(f(a, b) for f in SAME): return True
    if isinstance(a, (SNum, SBool)) and type(a) is type(b): return z3.eq(z3.simplify(a.z), z3.simplify(b.z))
    if isinstance(a, (list, tuple)) and type(a) is type(b):
        x, y = (a.parts(), b.parts()) if isinstance(a, SList) else (a, b)
        return len(x) == len(y) and all(p is q or (isinstance(p, (str, int)) and type(p) is type(q) and p == q) or same_value(p, q) for p, q in zip(x, y))
    return False

E = Engine()

def raw(c):
    if isinstance(c, SBool): return c.z
    if isinstance(c, (bool, z3.BoolRef)): return c
    return bool(c)
def zv(x):
    if isinstance(x, SNum): return x.z
    if isinstance(x, bool): raise Unsupported('a boolean used as a number')
    if isinstance(x, int): return z3.IntVal(x)
    if isinstance(x, float):
        import fractions
        if x != x or x in (float('inf'), float('-inf')): raise Unsupported('non-finite float')
        return z3.RealVal(str(fractions.Fraction(x)))
    if hasattr(x, 'item') and not isinstance(x, (z3.ExprRef,)): return zv(x.item())
    if z3.is_expr(x): return x
    raise Unsupported(f'{type(x).__name__} used as a number')
def both(a, b):
    a, b = zv(a), zv(b)
    if a.sort() != b.sort():
        if a.sort() == z3.IntSort(): a = z3.ToReal(a)
        if b.sort() == z3.IntSort(): b = z3.ToReal(b)
    return a, b

class SBool:
    __slots__ = ('z',)
    def __init__(self, z_): self.z = z_
    def __bool__(self): return E.decide(self.z)
    def __and__(self, o): return SBool(z3.And(self.z, raw(o)))
    __rand__ = __and__
    def __or__(self, o): return SBool(z3.Or(self.z, raw(o)))
    __ror__ = __or__
    def __invert__(self): return SBool(z3.Not(self.z))
    def __eq__(self, o): return SBool(self.z == raw(o))
    def __hash__(self): return id(self)
    def __deepcopy__(self, memo): return self

UF = {}
def uf(name, *sorts):
    k = (name, tuple(s.name() for s in sorts))
    if k not in UF: UF[k] = z3.Function(name, *sorts)
    return UF[k]

class SNum:
    '''A symbolic real or integer (mathematical: no rounding).'''
    __slots__ = ('z', 'tag')
    def __init__(self, z_, tag = None): self.z, self.tag = z_, tag
    def _bin(f):
        def g(self, o):
            try: a, b = both(self, o)
            except Unsupported:
                if isinstance(o, (str, list, tuple, dict, type(None))): return NotImplemented
                raise
            return SNum(f(a, b))
        return g
    def _rbin(f):
        def g(self, o): a, b = both(o, self); return SNum(f(a, b))
        return g
    __add__, __radd__ = _bin(lambda a, b: a + b), _rbin(lambda a, b: a + b)
    __sub__, __rsub__ = _bin(lambda a, b: a - b), _rbin(lambda a, b: a - b)
    __mul__, __rmul__ = _bin(lambda a, b: a * b), _rbin(lambda a, b: a * b)
    @staticmethod
    def _div(a, b):
        a = z3.ToReal(a) if a.sort() == z3.IntSort() else a
        b = z3.ToReal(b) if b.sort() == z3.IntSort() else b
        if E.decide(b == 0): raise ZeroDivisionError('division by zero')
        return SNum(a / b)
    def __truediv__(self, o): return SNum._div(*both(self, o))
    def __rtruediv__(self, o): return SNum._div(*both(o, self))
    def __neg__(self): return SNum(-self.z)
    def __pos__(self): return self
    def __abs__(self): return SNum(z3.If(self.z >= 0, self.z, -self.z))
    def __pow__(self, n):
        if isinstance(n, int) and 0 <= n <= 6:
            r = z3.RealVal(1) if self.z.sort() == z3.RealSort() else z3.IntVal(1)
            for _ in range(n): r = r * self.z
            return SNum(r)
        raise Unsupported('power')
    @staticmethod
    def _floor(a, b):
        '''floor(a / b)'''
        if E.decide(b == 0): raise ZeroDivisionError('integer division or modulo by zero' if a.sort() == z3.IntSort() else 'float floor division by zero')
        if a.sort() == z3.IntSort(): return z3.If(b > 0, a / b, (-a) / (-b)) # z3's integer division by a positive number is the floor
        return z3.ToReal(z3.ToInt(a / b))
    def __floordiv__(self, o): return SNum(SNum._floor(*both(self, o)))
    def __rfloordiv__(self, o): return SNum(SNum._floor(*both(o, self)))
    def __mod__(self, o): a, b = both(self, o); return SNum(a - b * SNum._floor(a, b))
    def __rmod__(self, o): a, b = both(o, self); return SNum(a - b * SNum._floor(a, b))
    def __divmod__(self, o): return self // o, self % o
    def __floor__(self): return self if self.z.sort() == z3.IntSort() else SNum(z3.ToInt(self.z))
    def __ceil__(self): return self if self.z.sort() == z3.IntSort() else SNum(-z3.ToInt(-self.z))
    def __trunc__(self): return self if self.z.sort() == z3.IntSort() else SNum(z3.If(self.z >= 0, z3.ToInt(self.z), -z3.ToInt(-self.z)))
    def __round__(self, n = None):
        '''a nearest multiple of 10^-n, the same one for the same number'''
        if self.z.sort() == z3.IntSort() and (n is None or n >= 0): return self
        if n is not None and type(n) is not int and not isinstance(n, int): raise Unsupported('rounding to a symbolic number of digits')
        k = uf(f'round{n or 0}', z3.RealSort(), z3.IntSort())(z3.ToReal(self.z) if self.z.sort() == z3.IntSort() else self.z)
        s = z3.Q(10 ** max(n or 0, 0), 10 ** max(-(n or 0), 0))
        x = (z3.ToReal(self.z) if self.z.sort() == z3.IntSort() else self.z) * s
        E.fact(x - z3.ToReal(k) <= z3.Q(1, 2), z3.ToReal(k) - x <= z3.Q(1, 2))
        return SNum(k) if n is None else SNum(z3.ToReal(k) / s)
    def __lt__(self, o): a, b = both(self, o); return SBool(a < b)
    def __le__(self, o): a, b = both(self, o); return SBool(a <= b)
    def __gt__(self, o): a, b = both(self, o); return SBool(a > b)
    def __ge__(self, o): a, b = both(self, o); return SBool(a >= b)
    def __eq__(self, o):
        try: a, b = both(self, o)
        except Unsupported: return False
        return SBool(a == b)
    def __ne__(self, o):
        try: a, b = both(self, o)
        except Unsupported: return True
        return SBool(a != b)
    def __hash__(self): raise Unsupported('a symbolic number as a key')
    def __bool__(self): return E.decide(self.z != 0)
    def __index__(self):
        v = z3.simplify(self.z)
        if z3.is_int_value(v): return v.as_long()
        raise Unsupported('a symbolic integer where a concrete one is needed')
    def __int__(self):
        if self.z.sort() == z3.IntSort(): return self.__index__()
        raise Unsupported('int() of a symbolic number')
    def __float__(self): raise Unsupported('float() of a symbolic number')
    def __format__(self, spec): return token(self, spec)
    def __str__(self): return token(self, '')
    __repr__ = __str__
    def __deepcopy__(self, memo): return self
    def __copy__(self): return self
    def log(self): return SNum(uf('log', z3.RealSort(), z3.RealSort())(z3.ToReal(self.z) if self.z.sort() == z3.IntSort() else self.z))
    def sqrt(self):
        r = E.fresh('sqrt'); z_ = z3.ToReal(self.z) if self.z.sort() == z3.IntSort() else self.z
        if E.decide(z_ < 0): raise Unsupported('square root of a negative number')
        E.assume(z3.And(r >= 0, r * r == z_)); return SNum(r)

TOKENS = {}
SOMETHING = {'part', 'line', 'text of', 'repr of'} # texts proved not to be empty where they are made
TOKEN, NUMERIC = re.compile('\u27e6[^\u27e7]*\u27e7'), set('0123456789.,+-_%eEinfaNIFA')
class Text(str):
    """A text some pieces of which are not known (tokens): what depends on them is not decided. Numbers are known to print as something of digits, signs and the like."""
    def _pieces(self):
        t, out, i = str.__str__(self), [], 0
        for m in TOKEN.finditer(t):
            if m.start() > i: out.append(('text', t[i:m.start()]))
            w = TOKENS.get(m.group(), (None,))[0]; out.append(('number' if isinstance(w, SNum) else 'some' if isinstance(w, str) and w in SOMETHING else 'any', m.group())); i = m.end()
        if i < len(t): out.append(('text', t[i:]))
        return out
    def _unknown(self, what): raise Unsupported(f'{what} of a text known in part')
    def _masked(self, *parts):
        """the text with a private character for each number, and the way back; only where the given parts cannot touch a number"""
        ps = self._pieces()
        if any(k in ('any', 'some') for k, _ in ps) or any(isinstance(x, Text) or set(x) & NUMERIC for x in parts): return None, None
        back, t = {}, ''
        for k, x in ps:
            if k == 'number': c = chr(0xe000 + len(back)); back[c] = x; t += c
            else: t += x
        def again(r):
            if isinstance(r, str):
                r = str.__str__(r)
                for c, x in back.items(): r = str.replace(r, c, x)
                return as_text(r)
            if isinstance(r, list): return [again(x) for x in r]
            return tuple(again(x) for x in r) if isinstance(r, tuple) else r
        return t, again
    def _side(self, end): # what is known at an end, and what comes after
        ps = self._pieces()
        if end: ps = ps[::-1]
        return (ps[0][1], ps[1][0] if len(ps) > 1 else None) if ps and ps[0][0] == 'text' else ('', ps[0][0] if ps else None)
    def _with(self, p, end):
        if isinstance(p, tuple): return any(self._with(x, end) for x in p)
        if isinstance(p, Text): return str.endswith(self, p) if end and str.endswith(self, p) else str.startswith(self, p) if not end and str.startswith(self, p) else self._unknown('an end')
        c, nxt = self._side(end)
        if end: c, p = c[::-1], p[::-1]
        if len(p) <= len(c): return str.startswith(c, p)
        if not str.startswith(p, c): return False
        if nxt is None or (nxt == 'number' and p[len(c)] not in NUMERIC): return False
        self._unknown('an end')
    def startswith(self, p, *a): return self._unknown('a part') if a else self._with(p, False)
    def endswith(self, p, *a): return self._unknown('a part') if a else self._with(p, True)
    def __contains__(self, x):
        if not isinstance(x, Text) and any(k == 'text' and x in t for k, t in self._pieces()): return True
        t, _ = self._masked(x)
        return x in t if t is not None else self._unknown('contents')
    def __getitem__(self, i):
        if isinstance(i, int):
            c, _ = self._side(i < 0)
            if (i >= 0 and i < len(c)) or (i < 0 and -i <= len(c)): return c[i]
        elif isinstance(i, slice) and i.step in (None, 1):
            a, b = i.start or 0, i.stop
            if a >= 0 and a <= len(self._side(False)[0]) and b is None: return as_text(str.__getitem__(self, i))
            if 0 <= a and b is not None and 0 <= b <= len(self._side(False)[0]): return str.__getitem__(self, i)
            if a >= 0 and a <= len(self._side(False)[0]) and b is not None and b < 0 and -b <= len(self._side(True)[0]): return as_text(str.__getitem__(self, i))
        self._unknown('a character')
    def __len__(self): self._unknown('the length')
    def __bool__(self): return True if any(k != 'any' for k, _ in self._pieces()) else self._unknown('emptiness')
    def __iter__(self): self._unknown('the characters')
    def __hash__(self): return str.__hash__(self)
    def __eq__(self, o):
        if not isinstance(o, str): return False
        a, b = self._pieces(), Text._pieces(o)
        while a and b and a[0] == b[0]: a, b = a[1:], b[1:]
        while a and b and a[-1] == b[-1]: a, b = a[:-1], b[:-1]
        if not a and not b: return True
        if not a or not b: return False if any(k != 'any' for k, _ in a + b) else self._unknown('a comparison')
        for x, y in ((a[0], b[0]), (a[-1][::1], b[-1])):
            if x[0] == y[0] == 'text':
                p, q = (x[1], y[1]) if x is a[0] else (x[1][::-1], y[1][::-1])
                n = min(len(p), len(q))
                if p[:n] != q[:n]: return False
            for u, v in ((x, y), (y, x)):
                if u[0] == 'number' and v[0] == 'text' and v[1][0 if x is a[0] else -1] not in NUMERIC: return False
        self._unknown('a comparison')
    def __ne__(self, o): return not self == o
    def _order(self, o): self._unknown('the order')
    __lt__ = __le__ = __gt__ = __ge__ = _order
    def __add__(self, o): return Text(str.__add__(self, o)) if isinstance(o, str) else NotImplemented
    def __radd__(self, o): return Text(str.__add__(o, self)) if isinstance(o, str) else NotImplemented
    def __str__(self): return self
    def __format__(self, spec): return str.__format__(str.__str__(self), '') if spec in ('', 's') else self._unknown('padding')
    def __deepcopy__(self, memo): return self
    def __mod__(self, o): return as_text(str.__mod__(self, o)) if not any('%' in t for k, t in self._pieces() if k != 'text') else self._unknown('formatting')
    def format(self, *a, **k): self._unknown('formatting')
    def join(self, xs): return as_text(str.join(self, xs))
    def __mul__(self, n): return as_text(str.__mul__(self, n))
    __rmul__ = __mul__
def _native_text(name, parts = True):
    def f(self, *a, **k):
        t, again = self._masked(*[x for x in a if isinstance(x, str)]) if parts else (None, None)
        if t is None: self._unknown(name)
        return again(getattr(str, name)(t, *a, **k))
    f.__name__ = name
    return f
for _n in ('replace', 'split', 'rsplit', 'partition', 'rpartition', 'splitlines', 'removeprefix', 'removesuffix', 'count'): setattr(Text, _n, _native_text(_n))
for _n in ('find', 'rfind', 'index', 'rindex', 'lower', 'upper', 'title', 'capitalize', 'swapcase', 'casefold', 'zfill', 'center', 'ljust', 'rjust', 'expandtabs', 'encode', 'translate', 'format_map',
           'isalpha', 'isdigit', 'isalnum', 'isupper', 'islower', 'isspace', 'isnumeric', 'isdecimal', 'isidentifier', 'istitle', 'isascii', 'isprintable'): setattr(Text, _n, _native_text(_n, False))
def _strip(name, left, right):
    def f(self, chars = None):
        known = lambda end: bool(getattr(str, 'strip')(self._side(end)[0], chars)) or (self._side(end)[1] == 'number' and not (set(chars or '') & NUMERIC))
        if (left and not known(False)) or (right and not known(True)): self._unknown(name)
        return as_text(getattr(str, name)(str.__str__(self), chars))
    return f
for _n, _l, _r in (('strip', True, True), ('lstrip', True, False), ('rstrip', False, True)): setattr(Text, _n, _strip(_n, _l, _r))
def as_text(t): return Text(t) if type(t) is str and '\u27e6' in t else t
def plain(t): return str.__str__(t)

def token(x, spec):
    '''A concrete, unique piece of text standing for the formatted symbolic value.'''
    k = f'\u27e6{z3.simplify(x.z).sexpr()}|{spec}\u27e7'
    TOKENS[k] = (x, spec)
    return Text(k)

def alike(a, b): return a is b or (isinstance(a, str) and isinstance(b, str) and plain(a) == plain(b)) or (isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and all(x is y for x, y in zip(a, b)))
def text_token(kind, *what):
    '''A concrete, unique piece of text standing for a text which is only known by what it is (a child's text, a join).'''
    for k, v in TOKENS.items():
        if v[0] == kind and len(v) == 1 + len(what) and all(alike(a, b) for a, b in zip(v[1:], what)): return Text(k)
    k = f'\u27e6{kind} {len(TOKENS)}\u27e7'
    TOKENS[k] = (kind,) + what
    return Text(k)
def joined(sep, parts): return text_token('join', sep, parts)

def Real(name, tag = None): return SNum(E.fresh(name, z3.RealSort()), tag or name)
def Int(name, tag = None): return SNum(E.fresh(name, z3.IntSort()), tag or name)
def And(*a): return z3.And(*[raw(x) if not z3.is_expr(x) else x for x in a])
def Or(*a): return z3.Or(*[raw(x) if not z3.is_expr(x) else x for x in a])
def Not(a): return z3.Not(raw(a) if not z3.is_expr(a) else a) if not isinstance(a, bool) else (not a)

def S_pos(n): return zv(n) > 0

class Seg:
    '''An opaque, arbitrarily long part of a list. Subclasses give the contract: a generic element, membership, length.'''
    def elem(self): raise Unsupported(f'elements of {self!r}')
    def length(self): raise Unsupported(f'length of {self!r}')
    def contains(self, x): raise Unsupported(f'membership in {self!r}')
    def __repr__(self): return f'<{type(self).__name__}>'
    def __deepcopy__(self, memo): return self

class SList(list):
    '''A list which may hold opaque segments; behaves exactly like a list when it does not.'''
    __slots__ = ()
    def segs(self): return [x for x in list.__iter__(self) if isinstance(x, Seg)]
    def opaque(self): return any(isinstance(x, Seg) for x in list.__iter__(self))
    def parts(self): return list(list.__iter__(self))
    def __iter__(self):
        if self.opaque(): raise Unsupported('native iteration over an unbounded list')
        return list.__iter__(self)
    def __reversed__(self):
        if self.opaque(): raise Unsupported('reversed over an unbounded list')
        return list.__reversed__(self)
    def __len__(self): # only native code comes here with segments; truth tests are handled by __bool__
        if self.opaque(): raise Unsupported('native length of an unbounded list')
        return list.__len__(self)
    def __bool__(self):
        if not self.opaque(): return list.__len__(self) > 0
        if any(not isinstance(x, Seg) for x in self.parts()): return True
        n = z3.IntVal(0)
        for s in self.segs(): n = n + zv(s.length())
        return E.decide(n > 0)
    def _native(self, o):
        if isinstance(o, SList): return o.parts()
        if isinstance(o, Seg): raise Unsupported('segment as list')
        return list(o)
    def __add__(self, o):
        if not isinstance(o, list): return NotImplemented
        return SList(self.parts() + self._native(o))
    def __radd__(self, o): return SList(self._native(o) + self.parts())
    def __iadd__(self, o): list.extend(self, self._native(o)); return self
    def extend(self, o): list.extend(self, self._native(o))
    def __mul__(self, n):
        if isinstance(n, SNum): return repeat(self, n)
        return SList(self.parts() * n)
    __rmul__ = __mul__
    def __eq__(self, o):
        if not isinstance(o, list): return NotImplemented
        a, b = self.parts(), (o.parts() if isinstance(o, SList) else list(o))
        if not any(isinstance(x, Seg) for x in a + b): return list(a) == list(b)
        if len(a) == len(b) and all(x is y for x, y in zip(a, b)): return True
        if not a or not b: return not (self if a else o)      # emptiness of the other one
        raise Unsupported('equality of unbounded lists')
    def __ne__(self, o): r = self.__eq__(o); return r if r is NotImplemented else not r
    __hash__ = None
    def __contains__(self, x):
        for y in self.parts():
            if isinstance(y, Seg):
                if y.contains(x): return True
            elif y is x or y == x: return True
        return False
    def remove(self, x):
        for i, y in enumerate(self.parts()):
            if isinstance(y, Seg):
                if y.contains(x): self[i:i+1] = y.without_first(x); return
            elif y is x or y == x: list.__delitem__(self, i); return
        raise ValueError('list.remove(x): x not in list')
    def __getitem__(self, i):
        if not self.opaque() and not isinstance(i, (SNum, slice)): return list.__getitem__(self, i)
        if isinstance(i, slice):
            if not self.opaque() and not any(isinstance(v, SNum) for v in (i.start, i.stop, i.step)): return SList(list.__getitem__(self, i))
            return sym_slice(self, i)
        if isinstance(i, int):
            p = self.parts()
            if i >= 0 and not any(isinstance(x, Seg) for x in p[:i + 1]) and i < len(p): return p[i]
            if i < 0 and not any(isinstance(x, Seg) for x in p[i:]) and -i <= len(p): return p[i]
        return sym_index(self, i)
    def __setitem__(self, i, v):
        if isinstance(i, slice): list.__setitem__(self, i, v); return
        p = self.parts()
        if isinstance(i, int) and i >= 0 and not any(isinstance(x, Seg) for x in p[:i + 1]): list.__setitem__(self, i, v); return
        if isinstance(i, int) and i < 0 and not any(isinstance(x, Seg) for x in p[i:]): list.__setitem__(self, i, v); return
        if type(i) is int and i == -1 and HOOKS.get('tail'):
            HOOKS['tail'](self) # the last element is told apart from the rest, in the list itself
            p = self.parts()
            if not p: raise IndexError('list assignment index out of range')
            if not isinstance(p[-1], Seg): list.__setitem__(self, -1, v); return
        raise Unsupported('assignment into an unbounded list')
    def __delitem__(self, i):
        if i == 0 and type(i) is int and self.opaque() and HOOKS.get('head'): HOOKS['head'](self) # the first element is told apart from the rest, in the list itself
        if i == 0 and type(i) is int and list.__len__(self) and not isinstance(self.parts()[0], Seg): list.__delitem__(self, 0); return
        if self.opaque() and HOOKS.get('delitem') and HOOKS['delitem'](self, i): return
        if self.opaque(): raise Unsupported('deletion by index from an unbounded list')
        list.__delitem__(self, i)
    def __array__(self, dtype = None, copy = None):
        if self.opaque(): raise Unsupported('an unbounded list as a numpy array')
        import numpy
        return numpy.array(self.parts(), dtype)
    def copy(self): return SList(self.parts())
    def __copy__(self): return SList(self.parts())
    def __deepcopy__(self, memo):
        r = SList(); memo[id(self)] = r
        for x in self.parts(): list.append(r, copy.deepcopy(x, memo))
        return r
    def index(self, *a):
        if self.opaque(): raise Unsupported('index in an unbounded list')
        return list.index(self, *a)
    def count(self, x):
        if self.opaque(): raise Unsupported('count in an unbounded list')
        return list.count(self, x)
    def sort(self, **k):
        if self.opaque(): raise Unsupported('sorting an unbounded list')
        list.sort(self, **k)
    def pop(self, *a):
        if self.opaque():
            i = a[0] if a else -1
            if type(i) is int and i in (0, -1) and HOOKS.get('head' if i == 0 else 'tail'): HOOKS['head' if i == 0 else 'tail'](self)
            ps = self.parts()
            if not ps: raise IndexError('pop from empty list')
            if type(i) is int and i in (0, -1) and not isinstance(ps[i], Seg): list.__delitem__(self, i); return ps[i]
            if isinstance(i, SNum) and HOOKS.get('delitem') and HOOKS['index']:
                x = HOOKS['index'](self, i)
                if HOOKS['delitem'](self, i): return x
            raise Unsupported('pop from an unbounded list')
        return list.pop(self, *a)
    def insert(self, *a):
        if self.opaque() and not (type(a[0]) is int and a[0] == 0): raise Unsupported('insert into an unbounded list')
        list.insert(self, *a)
    def clear(self): list.__delitem__(self, slice(None))
    def __repr__(self): return repr(self.parts())
    def __lt__(self, o): raise Unsupported('ordering lists')

HOOKS = {'repeat': None, 'slice': None, 'index': None}
def repeat(l, n):
    if HOOKS['repeat']: return HOOKS['repeat'](l, n)
    raise Unsupported('repetition of a list a symbolic number of times')
def sym_slice(l, s):
    if HOOKS['slice']: return HOOKS['slice'](l, s)
    raise Unsupported('slice of an unbounded list')
def sym_index(l, i):
    if isinstance(i, int) and i == 0:
        for p in l.parts():
            if not isinstance(p, Seg): return p
            if not hasattr(p, 'first'): break
            if E.decide(S_pos(p.length())): return p.first()
        else: raise IndexError('list index out of range')
    if HOOKS['index']: return HOOKS['index'](l, i)
    raise Unsupported('index into an unbounded list')

def is_sym(x): return isinstance(x, SList) and x.opaque() or isinstance(x, Seg) or hasattr(x, '_vc_iter')
def parts_of(x):
    if isinstance(x, SList): return x.parts()
    if hasattr(x, '_vc_iter'): return x._vc_iter().parts()
    return list(x)

class Break(BaseException): pass

def effects(loc, item):
    """what a loop body could change besides the element it is at: the variables before the loop, their lists and dictionaries, the node itself"""
    vs = {f'local {k}': v for k, v in loc.items() if not k.startswith('_vc_')}
    for n, o in [('self', loc.get('self'))]:
        if o is not None and '_abs' not in getattr(o, '__dict__', {}) and not isinstance(o, Opaque): vs.update({f'{n}.{k}': v for k, v in getattr(o, '__dict__', {}).items()})
    out = {}
    for k, v in vs.items():
        if v is item: continue
        out[k] = (v, v.parts() if isinstance(v, SList) else list(dict.items(v)) if isinstance(v, dict) else list(v) if type(v) in (list, set) else None)
    return out
def effects_between(before, now):
    """(lists which grew: {id: (list, was, added)}, everything else which changed)"""
    grown, other = {}, []
    same = lambda a, b: len(a) == len(b) and all(x is y or (isinstance(x, tuple) and len(x) == 2 and x[0] == y[0] and x[1] is y[1]) for x, y in zip(a, b))
    for k, (v, c) in before.items():
        if k not in now or now[k][0] is not v: other.append(k); continue
        d = now[k][1]
        if c is None or same(c, d): continue
        if isinstance(v, SList) and len(d) >= len(c) and same(c, d[:len(c)]): grown[id(v)] = (v, c, d[len(c):])
        else: other.append(k)
    return grown, other
class Poison:
    """The value of a variable which a loop assigns and no invariant speaks of"""
    def __init__(self, name): self.__dict__['_vc_name'] = name
    def _no(self, *a, **k): raise Unsupported(f'{self._vc_name}: a variable assigned in a loop, about which the invariant says nothing')
    __bool__ = __eq__ = __ne__ = __lt__ = __gt__ = __le__ = __ge__ = __len__ = __iter__ = __getitem__ = __call__ = __add__ = __radd__ = __iadd__ = __mul__ = __rmul__ = __sub__ = __rsub__ = __str__ = __format__ = __contains__ = __setattr__ = _no
    __hash__ = None
    def __getattr__(self, a):
        if a.startswith('__') or a.startswith('_vc'): raise AttributeError(a)
        self._no()
    def __deepcopy__(self, memo): return self
    def __repr__(self): return f'<{self._vc_name} after a loop>'
def closure(*fs):
    """the variables the functions of a comprehension see"""
    out = {}
    for f in fs:
        for n, c in zip(getattr(getattr(f, '__code__', None), 'co_freevars', ()), getattr(f, '__closure__', None) or ()):
            try: out[n] = c.cell_contents
            except ValueError: pass
    return out
def pure(where, run, *fs):
    """the functions of a comprehension or fold, which run once for all elements, change nothing they see"""
    loc = closure(*fs); before = effects(loc, None)
    r = run()
    grown, other = effects_between(before, effects(loc, None))
    if grown or other: raise Unsupported(f'{where} changes {[k for k, (v, _) in before.items() if id(v) in grown] + other}')
    return r
def only_owned(where, e0, e1, e2, owns = ()):
    """what the body changed is what the invariant havocked"""
    def changed(a, b):
        g, o = effects_between(a, b)
        return {k for k in a if k in o or id(a[k][0]) in g}
    bad = [k for k in changed(e1, e2) if k not in changed(e0, e1) and k not in owns]
    bad = [k for k in bad if not (k.startswith('local ') and (k not in e2 or e2[k][0] is not e1[k][0]))] # assigned variables are poisoned, not checked
    if bad: raise Unsupported(f'the loop {where} also changes {bad}')

class Loop:
    '''Drives a for loop. Over concrete items it is plain iteration; at a segment the registered loop contract takes over.'''
    def __init__(self, vc, iterable, where, names):
        self.where, self.names, self.values = where, names, {}
        self.sym = is_sym(iterable)
        self.it = None if self.sym else iter(iterable)
        self.queue = parts_of(iterable) if self.sym else None
        self.cur, self.mode, self.spec, self.iterable = None, None, None, iterable
        self.snapshot = iterable.parts() if self.sym and isinstance(iterable, SList) else None
    def has(self, n): return n in self.values
    def val(self, n): return self.values[n]
    def item(self): return self.cur
    def next(self, loc):
        if self.snapshot is not None and not (len(self.snapshot) == list.__len__(self.iterable) and all(a is b for a, b in zip(self.snapshot, list.__iter__(self.iterable)))):
            raise Unsupported(f'the list a loop runs over changes during the loop ({self.where})')
        if not self.sym:
            try: self.cur = next(self.it)
            except StopIteration: return False
            return True
        self.values = {}
        if self.mode == 'alike': # the body has run once, for all of them at once
            self.spec.done(loc)
            if hasattr(self.spec, 'again'):
                more = self.spec.again(loc)
                if more is not None: self.cur = more; return True
            self.mode = None
        if self.mode == 'iter': # the generic iteration has just run: the invariant must hold again, then this path is done
            only_owned(self.where, *self.effs, effects(loc, None), self.spec.owns)
            self.spec.preserved(loc)
            raise PathEnd
        while self.queue:
            x = self.queue.pop(0)
            if not isinstance(x, Seg): self.cur = x; return True
            self.spec = find_loop_spec(self.where, x, loc, self.names)
            self.spec.entry(loc)
            if getattr(self.spec, 'alike', False):
                x, more = self.spec.take(loc)
                self.queue[:0] = more
                if x is None: continue
                self.cur, self.mode = x, 'alike'; return True
            if E.choose(2, 'loop') == 0:
                self.mode = 'iter'
                e0 = effects(loc, None)
                self.cur = self.spec.iteration(loc)
                self.values = self.known()
                self.effs = e0, effects({**loc, **self.values}, None)
                return True
            self.spec.exit(loc)
            self.values.update(self.known())
        return False
    def known(self): return {**{n: Poison(n) for n in self.names}, **(self.spec.locals or {})}

class WLoop:
    def __init__(self, vc, where, names):
        self.where, self.names, self.values, self.spec, self.mode = where, names, {}, None, None
    def has(self, n): return n in self.values
    def val(self, n): return self.values[n]
    def head(self, loc):
        self.values = {}
        if self.mode == 'iter':
            only_owned(self.where, *self.effs, effects(loc, None), self.spec.owns)
            self.spec.preserved(loc)
            raise PathEnd
        if self.mode is None:
            self.spec = find_loop_spec(self.where, None, loc, self.names, optional = True)
            if self.spec is None: self.mode = 'plain'; self.n = 0; return
            self.spec.entry(loc)
            e0 = effects(loc, None)
            self.spec.iteration(loc)
            self.values = {**{n: Poison(n) for n in self.names}, **(self.spec.locals or {})}
            self.effs = e0, effects({**loc, **self.values}, None)
            self.mode = 'iter'
        elif self.mode == 'plain':
            self.n += 1
            if E.active and self.n > 2000: raise Unsupported('unbounded while loop without an invariant')

class LoopSpec:
    '''entry: prove the invariant; iteration: havoc to an arbitrary state satisfying it, return a generic item; preserved: prove it again;
    exit: havoc to the state after the last item.'''
    locals = None
    owns = () # what it checks itself although its arbitrary state may not differ from the one before the loop
    def entry(self, loc): pass
    def iteration(self, loc): raise NotImplementedError
    def preserved(self, loc): pass
    def exit(self, loc): pass

def find_loop_spec(where, seg, loc, names, optional = False):
    for s in E.loop_specs:
        r = s(where, seg, loc, names)
        if r is not None: return r
    if seg is not None and hasattr(seg, 'loop_spec'):
        r = seg.loop_spec(where, loc, names)
        if r is not None: return r
    if optional: return None
    raise Unsupported(f'no invariant for the loop {where} over {seg!r}')

class VC:
    def __init__(self):
        self.replacements = {functools.reduce: self.reduce, itertools.chain: Chain, itertools.product: self.product}
        self.comp_specs = []
    def mk(self, l): return SList(l)
    def loop(self, it, where, names): return Loop(self, it, where, names)
    def wloop(self, where, names): return WLoop(self, where, names)
    def comp(self, it, f, c, where, kind):
        if not is_sym(it):
            if kind == 'gen': return (f(x) for x in it if c is None or c(x))
            return SList([f(x) for x in it if c is None or c(x)])
        out = SList()
        for x in parts_of(it):
            if not isinstance(x, Seg):
                if c is None or c(x): list.append(out, f(x))
            else: list.extend(out, self.comp_seg(x, f, c, where))
        return out
    def comp_seg(self, seg, f, c, where):
        for s in self.comp_specs:
            r = s(seg, f, c, where)
            if r is not None: return list(r) if not isinstance(r, SList) else r.parts()
        if hasattr(seg, 'comp'):
            r = pure(where, lambda: seg.comp(f, c, where), f, c)
            if r is not None: return list(r) if not isinstance(r, SList) else r.parts()
        raise Unsupported(f'no contract for the comprehension {where} over {seg!r}')
    def compcat(self, it, f, c, where, kind):
        if not is_sym(it): return SList([y for x in it if c is None or c(x) for y in parts_of(f(x))]) if kind != 'gen' else (y for x in it if c is None or c(x) for y in f(x))
        out = SList()
        for x in parts_of(it):
            if isinstance(x, Seg):
                r = pure(where, lambda: x.compcat(f, c, where), f, c) if hasattr(x, 'compcat') else None
                if r is None: raise Unsupported(f'nested comprehension {where} over {x!r}')
                list.extend(out, r); continue
            if c is None or c(x): list.extend(out, parts_of(f(x)))
        return out
    def reduce(self, f, xs, *init):
        if not is_sym(xs): return functools.reduce(f, xs, *init)
        ps = parts_of(xs)
        if HOOKS.get('reduce'):
            r = HOOKS['reduce'](f, ps, *init)
            if r is not None: return r
        if init: acc = init[0]
        else:
            if isinstance(ps[0], Seg): raise Unsupported('reduce without an initial value over an unbounded list')
            acc, ps = ps[0], ps[1:]
        for x in ps:
            if isinstance(x, Seg):
                if not hasattr(x, 'fold'): raise Unsupported(f'reduce over {x!r}')
                acc = pure("a fold", lambda: x.fold(f, acc), f)
            else: acc = f(acc, x)
        return acc
    def fstring(self, t): return as_text(t)
    def join(self, sep, xs):
        '''sep.join(xs); over an unbounded list of texts the result is a piece of text of its own'''
        if not isinstance(sep, str) or not is_sym(xs): return as_text(sep.join(xs))
        return joined(sep, parts_of(xs))
    def star(self, f, xs):
        if is_sym(xs):
            if f == self.product and HOOKS.get('product'): return HOOKS['product'](parts_of(xs))
            raise Unsupported('a call with an unbounded number of arguments')
        return f(*xs)
    def product(self, *its, **k):
        if any(is_sym(i) for i in its): raise Unsupported('product of unbounded lists')
        return itertools.product(*its, **k)

class Chain:
    '''itertools.chain over lists which may hold segments (eager).'''
    def __new__(cls, *ls): return cls.from_iterable(ls)
    @staticmethod
    def from_iterable(ls):
        if not is_sym(ls):
            ls = list(ls)
            if not any(is_sym(l) for l in ls): return itertools.chain.from_iterable(ls)
        out = SList()
        for l in parts_of(ls):
            if isinstance(l, Seg):
                if not hasattr(l, 'flat'): raise Unsupported(f'flattening {l!r}')
                list.extend(out, parts_of(l.flat()))
            else: list.extend(out, parts_of(l))
        return out

vc = VC()

# ---- builtins which know symbolic values
def v_len(x):
    if hasattr(x, '_vc_len'): return x._vc_len()
    if isinstance(x, SList) and x.opaque():
        n = z3.IntVal(0)
        for p in x.parts(): n = n + (zv(p.length()) if isinstance(p, Seg) else 1)
        return SNum(z3.simplify(n))
    return builtins.len(x)
class _ListMeta(type):
    def __instancecheck__(cls, x): return isinstance(x, list)
    def __subclasscheck__(cls, c): return issubclass(c, list)
    def __eq__(cls, o): return o is cls or o is list or o is SList
    def __hash__(cls): return hash(list)
class v_list(metaclass = _ListMeta):
    def __new__(cls, x = ()):
        if hasattr(x, '_vc_iter'): return x._vc_iter()
        return SList(parts_of(x))
class _DictMeta(type):
    def __instancecheck__(cls, x): return isinstance(x, dict)
    def __subclasscheck__(cls, c): return issubclass(c, dict)
    def __eq__(cls, o): return o is cls or o is dict
    def __hash__(cls): return hash(dict)
    def __getattr__(cls, a): return getattr(dict, a)
class v_dict(metaclass = _DictMeta):
    def __new__(cls, *a, **k):
        if len(a) == 1 and not k and is_sym(a[0]):
            if HOOKS.get('dict'): return HOOKS['dict'](a[0])
            raise Unsupported('a dictionary of unbounded many entries')
        return dict(*a, **k)
def v_isinstance(x, c):
    cs = c if isinstance(c, tuple) else (c,)
    for k in cs:
        if k is v_list and isinstance(x, list): return True
        if k is v_dict and isinstance(x, dict): return True
        if k is v_int: k = int
        if isinstance(x, SNum) and k in (int, float):
            if (k is int) == (x.z.sort() == z3.IntSort()): return True
        if isinstance(x, SBool) and k in (bool, int): return True
        if hasattr(x, '_vc_isinstance'):
            r = x._vc_isinstance(k)
            if r is not None:
                if r: return True
                continue
        if k is not v_list and builtins.isinstance(x, k): return True
    return False
def v_type(*a):
    if len(a) == 1:
        if isinstance(a[0], SList): return v_list
        if isinstance(a[0], SNum): return v_int if a[0].z.sort() == z3.IntSort() else float
        if builtins.type(a[0]) is int: return v_int
        if hasattr(a[0], '_vc_type'): return a[0]._vc_type()
    return builtins.type(*a)
def seq_bool(xs, conj):
    if not is_sym(xs): return (all if conj else any)(xs)
    for x in parts_of(xs):
        if isinstance(x, Seg):
            v = (x.forall() if conj else x.exists())
        else: v = x
        if bool(v) != conj: return not conj
    return conj
def v_any(xs): return seq_bool(xs, False)
def v_all(xs): return seq_bool(xs, True)
def v_sum(xs, start = 0):
    if not is_sym(xs): return builtins.sum(xs, start)
    r = start
    for x in parts_of(xs):
        r = r + (x.total() if isinstance(x, Seg) else x)
    return r
def v_sorted(xs, *, key = None, reverse = False):
    if not is_sym(xs): return SList(builtins.sorted(xs, key = key, reverse = reverse))
    ps = parts_of(xs)
    for p in ps:
        if isinstance(p, Seg) and hasattr(p, 'sorted'):
            return p.sorted(xs, key, reverse)
    raise Unsupported('sorting an unbounded list')
def ext(name, less):
    native = getattr(builtins, name)
    def f(*a, key = None, default = None):
        if len(a) == 1 and is_sym(a[0]):
            ps = parts_of(a[0])
            k = key or (lambda x: x)
            best = None
            for p in ps:
                cand = p.extremum(name, k) if isinstance(p, Seg) else p
                if cand is None: continue       # an empty segment on this path
                if best is None or less(k(cand), k(best)): best = cand
            if best is None: raise ValueError(f'{name}() arg is an empty sequence')
            return best
        kw = {} if key is None else {'key': key}
        if default is not None: kw['default'] = default
        return native(*a, **kw)
    return f
v_min, v_max = ext('min', lambda a, b: a < b), ext('max', lambda a, b: a > b)
def v_zip(*xs):
    if any(is_sym(x) for x in xs):
        for x in xs:
            for p in (parts_of(x) if is_sym(x) else ()):
                if isinstance(p, Seg) and hasattr(p, 'zip'): return p.zip(xs)
        raise Unsupported('zip of unbounded lists')
    return builtins.zip(*xs)
def v_range(*a):
    if any(isinstance(x, SNum) for x in a):
        if HOOKS.get('range'): return HOOKS['range'](*a)
        raise Unsupported('range with a symbolic bound')
    return builtins.range(*a)
def v_map(f, *xs):
    if len(xs) == 1 and is_sym(xs[0]): return vc.comp(xs[0], f, None, 'map', 'list')
    return builtins.map(f, *xs)
def v_filter(f, xs):
    if is_sym(xs): return vc.comp(xs, lambda x: x, f or (lambda x: x), 'filter', 'list')
    return builtins.filter(f, xs)
def v_tuple(xs = ()):
    if is_sym(xs): return SList(parts_of(xs))
    return builtins.tuple(xs)
def v_enumerate(xs, start = 0):
    if is_sym(xs):
        if HOOKS.get('enumerate'): return HOOKS['enumerate'](xs, start)
        raise Unsupported('enumerate over an unbounded list')
    return builtins.enumerate(xs, start)
def v_print(*a, **k): pass
class _IntMeta(type):
    def __instancecheck__(cls, x): return isinstance(x, int) or (isinstance(x, SNum) and x.z.sort() == z3.IntSort())
    def __subclasscheck__(cls, c): return issubclass(c, int)
    def __eq__(cls, o): return o is cls or o is int
    def __hash__(cls): return hash(int)
class v_int(metaclass = _IntMeta):
    def __new__(cls, x = 0, *a):
        if isinstance(x, SNum):
            if x.z.sort() == z3.IntSort(): return x
            return SNum(z3.If(x.z >= 0, z3.ToInt(x.z), -z3.ToInt(-x.z)))
        return int(x, *a)
BUILTINS = dict(dict = v_dict, int = v_int, len = v_len, list = v_list, isinstance = v_isinstance, type = v_type, any = v_any, all = v_all, sum = v_sum, sorted = v_sorted,
                min = v_min, max = v_max, zip = v_zip, range = v_range, map = v_map, filter = v_filter, enumerate = v_enumerate)

class Opaque:
    '''An object of which only the stated attributes are known: anything else leaves the obligation undecided.'''
    def __init__(self, name = 'opaque', **attrs): self.__dict__.update(attrs); self.__dict__['_vc_name'] = name
    def __getattr__(self, a):
        if a.startswith('__') or a.startswith('_vc'): raise AttributeError(a)
        raise Unsupported(f'attribute {a} of {self._vc_name}')
    def __array__(self, *a, **k): raise Unsupported(f'{self._vc_name} as a numpy array')
    def __deepcopy__(self, memo): return self
    def __repr__(self): return f'<{self._vc_name}>'
