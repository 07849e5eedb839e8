'''Mechanical instrumentation of /repo's source, applied afresh at every import in a proof process.

What it changes (and nothing else):
  - list displays become __vc__.mk(<list>), a list subclass which may hold unbounded symbolic segments;
  - comprehensions / generator expressions with one generator become calls taking the same iterable, conditions and element as lambdas
    (with several generators they are nested the same way);
  - for and while loops get a header through which the loop rule (invariant) is applied; over concrete iterables they run as written;
  - an f-string F becomes __vc__.fstring(F), which keeps track of pieces of text which are not known;
  - a call X.join(Y) becomes __vc__.join(X, Y), which knows unbounded lists of texts;
  - a call f(*X) becomes __vc__.star(f, X), which calls f(*X) unless X is an unbounded list;
  - the decorators @njit(...) and @Cache_this(...) are dropped (compilation and memoisation are trusted);
  - the module's builtins and functools.reduce/itertools.chain/product are versions which know symbolic values.
Everything else is executed by CPython from the code as it is in the repository.'''
import ast, builtins, importlib.abc, importlib.util, pathlib, sys

DROPPED = {'njit', 'Cache_this'}

class Assigned(ast.NodeVisitor):
    def __init__(self): self.names = []
    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)) and n.id not in self.names: self.names.append(n.id)
    def visit_FunctionDef(self, n): self.names.append(n.name)
    def visit_Lambda(self, n): pass
    def visit_ListComp(self, n): pass
    visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

def assigned(nodes):
    v = Assigned()
    for n in nodes: v.visit(n)
    return [n for n in dict.fromkeys(v.names) if not n.startswith('_vc_')]

def has_walrus(n): return any(isinstance(x, ast.NamedExpr) for x in ast.walk(n))
def has_yield(n): return any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await)) for x in ast.walk(n))

class Instrument(ast.NodeTransformer):
    def __init__(self, module): self.module, self.stack, self.counts, self.n, self.funcs = module, [], {}, 0, 0
    def where(self, kind):
        q = '.'.join(self.stack) or '<module>'
        k = self.counts.get((q, kind), 0); self.counts[(q, kind)] = k + 1
        return f'{self.module}:{q}#{kind}{k}'
    def vc(self, name, *args): return ast.Call(ast.Attribute(ast.Name('__vc__', ast.Load()), name, ast.Load()), list(args), [])
    def visit_FunctionDef(self, n):
        n.decorator_list = [self.visit(d) for d in n.decorator_list if not (isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id in DROPPED)]
        n.args = self.generic_visit(n.args) if not self.stack else self.visit(n.args)
        self.stack.append(n.name); f, self.funcs = self.funcs, self.funcs + 1
        n.body = [y for x in n.body for y in self.flat(self.visit(x))]
        self.stack.pop(); self.funcs = f
        return n
    def flat(self, x): return x if isinstance(x, list) else [x]
    def visit_ClassDef(self, n):
        self.stack.append(n.name)
        n.body = [y for x in n.body for y in self.flat(self.visit(x))]
        self.stack.pop()
        return n
    def visit_arguments(self, n): # default values: lists stay plain (they are shared mutable defaults either way)
        return self.generic_visit(n)
    def visit_List(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load): return ast.copy_location(self.vc('mk', n), n)
        return n
    def lam(self, target, expr):
        if isinstance(target, ast.Name): return ast.Lambda(ast.arguments([], [ast.arg(target.id)], None, [], [], None, []), expr)
        names = [x.id for x in ast.walk(target) if isinstance(x, ast.Name)]
        if not (isinstance(target, (ast.Tuple, ast.List)) and all(isinstance(e, ast.Name) for e in target.elts)): return None
        inner = ast.Lambda(ast.arguments([], [ast.arg(x) for x in names], None, [], [], None, []), expr)
        return ast.Lambda(ast.arguments([], [ast.arg('_vc_x')], None, [], [], None, []), ast.Call(inner, [ast.Starred(ast.Name('_vc_x', ast.Load()), ast.Load())], []))
    def comp(self, n, kind):
        if has_walrus(n) or has_yield(n) or any(g.is_async for g in n.generators): return self.generic_visit(n)
        where = self.where(kind)
        self.generic_visit(n)
        def build(i):
            g = n.generators[i]
            conds = g.ifs
            cond = None if not conds else (conds[0] if len(conds) == 1 else ast.BoolOp(ast.And(), conds))
            last = i == len(n.generators) - 1
            body = n.elt if last else build(i + 1)
            f, c = self.lam(g.target, body), None if cond is None else self.lam(g.target, cond)
            if f is None: return None
            return self.vc('comp' if last else 'compcat', g.iter, f, c if c is not None else ast.Constant(None), ast.Constant(where + ('' if i == 0 else f'.{i}')), ast.Constant(kind if i == 0 else 'list'))
        r = build(0)
        return n if r is None else ast.copy_location(r, n)
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr == 'join' and len(n.args) == 1 and not n.keywords and not isinstance(n.args[0], ast.Starred):
            return ast.copy_location(self.vc('join', n.func.value, n.args[0]), n)
        if len(n.args) == 1 and isinstance(n.args[0], ast.Starred) and not n.keywords:
            return ast.copy_location(self.vc('star', n.func, n.args[0].value), n)
        return n
    def visit_JoinedStr(self, n):
        self.generic_visit(n)
        return ast.copy_location(self.vc('fstring', n), n)
    def visit_FormattedValue(self, n): # a nested format specification stays what it is
        n.value = self.visit(n.value)
        return n
    def visit_ListComp(self, n): return self.comp(n, 'list')
    def visit_GeneratorExp(self, n): return self.comp(n, 'gen')
    def visit_DictComp(self, n):
        if len(n.generators) != 1 or has_walrus(n): return self.generic_visit(n)
        n2 = ast.copy_location(ast.GeneratorExp(ast.Tuple([n.key, n.value], ast.Load()), n.generators), n)
        return ast.copy_location(ast.Call(ast.Name('dict', ast.Load()), [self.comp(n2, 'dict')], []), n)
    def rebinding(self, it, names):
        return [ast.If(ast.Call(ast.Attribute(ast.Name(it, ast.Load()), 'has', ast.Load()), [ast.Constant(x)], []),
                       [ast.Assign([ast.Name(x, ast.Store())], ast.Call(ast.Attribute(ast.Name(it, ast.Load()), 'val', ast.Load()), [ast.Constant(x)], []))], []) for x in names]
    def locals(self): return ast.Call(ast.Name('locals', ast.Load()), [], [])
    def visit_For(self, n):
        if not self.funcs: return self.generic_visit(n)
        where = self.where('for')
        names = assigned(n.body + [n.target])
        self.generic_visit(n)
        it = f'_vc_it{self.n}'; self.n += 1
        call = lambda m, *a: ast.Call(ast.Attribute(ast.Name(it, ast.Load()), m, ast.Load()), list(a), [])
        init = ast.Assign([ast.Name(it, ast.Store())], self.vc('loop', n.iter, ast.Constant(where), ast.Constant(tuple(names))))
        body = self.rebinding(it, names) + [ast.Assign([n.target], call('item'))] + n.body
        loop = ast.While(call('next', self.locals()), body, self.rebinding(it, names) + n.orelse)
        return [ast.copy_location(init, n), ast.copy_location(loop, n)]
    def visit_While(self, n):
        if not self.funcs: return self.generic_visit(n)
        where = self.where('while')
        names = assigned(n.body + [n.test])
        self.generic_visit(n)
        it = f'_vc_it{self.n}'; self.n += 1
        call = lambda m, *a: ast.Call(ast.Attribute(ast.Name(it, ast.Load()), m, ast.Load()), list(a), [])
        init = ast.Assign([ast.Name(it, ast.Store())], self.vc('wloop', ast.Constant(where), ast.Constant(tuple(names))))
        # the head is evaluated before every test; a havocked head re-binds the loop's variables
        test = ast.IfExp(ast.Constant(True), ast.Constant(True), ast.Constant(True))
        stop = ast.If(ast.UnaryOp(ast.Not(), n.test), n.orelse + [ast.Break()], [])
        body = [ast.Expr(call('head', self.locals()))] + self.rebinding(it, names) + [stop] + n.body
        return [ast.copy_location(init, n), ast.copy_location(ast.While(ast.Constant(True), body, []), n)]

def instrument_source(src, filename, module):
    tree = ast.parse(src, filename)
    tree = Instrument(module).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec')

class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    '''Loads GPy_ABCD.* from the repository with the instrumentation above.'''
    def __init__(self, repo, vc, vc_builtins, package = 'GPy_ABCD'):
        self.repo, self.vc, self.vcb, self.package = pathlib.Path(repo), vc, vc_builtins, package
        self.loaded = []
    def find_spec(self, name, path, target = None):
        if name != self.package and not name.startswith(self.package + '.'): return None
        rel = self.repo.joinpath(*name.split('.'))
        if (rel / '__init__.py').exists(): return importlib.util.spec_from_file_location(name, rel / '__init__.py', loader = self, submodule_search_locations = [str(rel)])
        if rel.with_suffix('.py').exists(): return importlib.util.spec_from_file_location(name, rel.with_suffix('.py'), loader = self)
        return None
    def create_module(self, spec): return None
    def exec_module(self, module):
        f = module.__spec__.origin
        code = instrument_source(pathlib.Path(f).read_text(), f, module.__name__)
        b = dict(vars(builtins)); b.update(self.vcb); b['__vc__'] = self.vc
        module.__dict__['__builtins__'] = b
        exec(code, module.__dict__)
        self.loaded.append(module.__name__)
        for k, v in list(module.__dict__.items()):
            try: alt = self.vc.replacements.get(v)
            except TypeError: continue
            if alt is not None: module.__dict__[k] = alt
