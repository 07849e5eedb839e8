import warnings as _w, inspect
from vc.engine import *
from vc import engine as _e

def prove(P):
    E = P.E
    import GPy_ABCD.Models.modelSearch as ms
    import GPy_ABCD.Models.model as mm
    P.assume_note('GPy: GPRegression and optimize_restarts do as documented', 'multiprocessing.Pool: starmap/starmap_async(...).get() returns f(*args) for every element in order, and raises what a call raises',
                  'any exception a fit raises is an Exception (KeyboardInterrupt and exit are not failures)')
    real = {k: getattr(ms, k) for k in ('GPModel', 'warn', 'fit_one_model', 'Pool', 'cpu_count')}
    def restore():
        for k, v in real.items(): setattr(ms, k, v)
        E.loop_specs[:] = []; _e.vc.comp_specs[:] = []
        HOOKS['range'] = None
    sig = inspect.signature(mm.GPModel.fit)

    # fit_one_model: the loop invariant is "as many failures as retries so far, at most max_retries, one warning each"
    def fit_one(direction):
        X, Y, kex = Opaque('X'), Opaque('Y'), Opaque('kex')
        kex.__class__ = type('Kex', (Opaque,), {'__str__': lambda s: 'kex', '__repr__': lambda s: 'kex', '__format__': lambda s, f: 'kex'})
        restarts, opt = Opaque('restarts'), Opaque('optimiser')
        mx = Int('max_retries'); E.assume(mx >= 0)
        g = E.ghost; g.update(attempts = [], warns = 0, loops = 0, fails = z3.IntVal(0))
        class Err(Exception): pass
        def GPM(*a, **k):
            try: b = inspect.signature(mm.GPModel.__init__).bind(None, *a, **k).arguments
            except TypeError as e: raise
            ok = b.get('X') is X and b.get('Y') is Y and b.get('kernel_expression') is kex
            E.prove('a model of the expression on the given data is made', ok)
            m = Opaque('model')
            def fit(*a, **k):
                b = sig.bind(m, *a, **k).arguments
                E.prove('the fit uses the given restarts and optimiser', b.get('restarts') is restarts and b.get('optimiser') is opt and set(b) <= {'self', 'restarts', 'optimiser'})
                if E.choose(2, 'fit outcome') == 0: g['attempts'].append(('ok', m)); return m
                e = Err('failed'); g['attempts'].append(('fail', e)); raise e
            m.__dict__['fit'] = fit
            return m
        def warn(*a, **k): g['warns'] += 1
        class Retry(LoopSpec):
            def __init__(self, loc, names):
                self.counters = [n for n in names if n in loc and (isinstance(loc[n], int) or isinstance(loc[n], SNum)) and not isinstance(loc[n], bool)]
                self.entryv = {n: loc[n] for n in self.counters}
            def entry(self, loc): pass
            def iteration(self, loc):
                f = Int('failures'); E.assume(And(f >= 0, f <= mx)); g['fails'] = f.z
                self.locals = {n: self.entryv[n] + direction * f for n in self.counters}
                self.f = f; g['inloop'] = True
            def preserved(self, loc):
                E.prove('a repetition follows one failed attempt, with one warning', len(g['attempts']) == 1 and g['attempts'][0][0] == 'fail' and g['warns'] == 1)
                E.prove('there is a retry left: termination and bound', SNum(self.f.z + 1) <= mx)
                E.prove('the retry counter is kept', And(*[SNum(zv(loc[n])) == self.entryv[n] + direction * (self.f + 1) for n in self.counters]) if self.counters else True)
        class RangeSeg(Seg):
            def __init__(self, lo, hi): self.lo, self.hi = lo, hi
            def loop_spec(self, where, loc, names):
                seg = self
                class S(LoopSpec):
                    def iteration(self, loc):
                        f = Int('failures'); E.assume(And(f >= 0, SNum(zv(seg.lo) + f.z) < seg.hi, f <= mx)); g['fails'] = f.z; self.f = f
                        return seg.lo + f
                    def preserved(self, loc):
                        E.prove('a repetition follows one failed attempt, with one warning', len(g['attempts']) == 1 and g['attempts'][0][0] == 'fail' and g['warns'] == 1)
                        E.prove('there is a retry left: termination and bound', SNum(self.f.z + 1) <= mx)
                    def exit(self, loc): raise Unsupported('a range loop over the attempts which can be exhausted')
                return S()
        HOOKS['range'] = lambda *a: SList([RangeSeg(*((0, a[0]) if len(a) == 1 else a[:2]))])
        E.loop_specs[:] = [lambda where, seg, loc, names: Retry(loc, names) if seg is None else None]
        ms.GPModel, ms.warn = GPM, warn
        try: kind, v = E.call(real['fit_one_model'], X, Y, kex, restarts, opt, mx)
        finally: restore()
        at = g['attempts']
        if kind == 'return':
            E.prove('the first success is returned', len(at) == 1 and at[0][0] == 'ok' and at[0][1] is v, f'{at} returned {v!r}')
            E.prove('one warning per retry', g['warns'] == 0)
            E.prove('at most max_retries retries', g['fails'] <= mx.z)
        else:
            E.prove('the last error is raised to the caller', len(at) == 1 and at[0][0] == 'fail' and at[0][1] is v, f'{at} raised {v!r}')
            E.prove('no warning without a retry', g['warns'] == 0)
            E.prove('an error is raised only after max_retries retries', g['fails'] == mx.z)
    name = 'fit_one_model'
    for d in (1, -1): # counting up or down
        for k in [k for k in E.order if k.startswith(name)]: E.order.remove(k); E.results.pop(k)
        P.explore(name, lambda: fit_one(d), 'modelSearch.fit_one_model')
        if all(E.results[k]['status'] == 'proved' for k in E.order if k.startswith(name)): break

    # lists of fits: one contract call per expression, in order, nothing filtered
    class Kexs(Seg):
        def length(self): return SNum(E.ghost['n'])
        def comp(self, f, c, where):
            x = Opaque('kex')
            if c is not None and not (c(x) is True): raise Unsupported('filtered')
            return [Image(self, x, f(x))]
    class Image(Seg):
        def __init__(self, base, x, y): self.base, self.x, self.y = base, x, y
        def comp(self, f, c, where):
            if c is not None: raise Unsupported('filtered')
            return [Image(self.base, self.x, f(self.y))]
    def setup():
        X, Y, restarts, opt, mx = Opaque('X'), Opaque('Y'), Opaque('restarts'), Opaque('optimiser'), Opaque('max_retries')
        n = Int('n_kexs'); E.assume(n >= 0); E.ghost['n'] = n.z
        calls = []
        fsig = inspect.signature(real['fit_one_model'])
        def one(*a, **k):
            b = fsig.bind(*a, **k); b.apply_defaults(); r = Opaque('fitted')
            calls.append((b.arguments, r)); return r
        ms.fit_one_model = one
        base = Kexs()
        return X, Y, restarts, opt, mx, calls, SList([base]), base
    def judge(v, calls, base, X, Y, restarts, opt, mx, tag):
        if not is_sym(v): raise Unsupported(f'{tag}: result {v!r}')
        ps = parts_of(v)
        E.prove(f'{tag}: exactly one result per expression, in order', len(ps) == 1 and isinstance(ps[0], Image) and ps[0].base is base, repr(ps))
        E.prove(f'{tag}: the fit of that expression is its result', len(calls) == 1 and ps[0].y is calls[0][1] and calls[0][0]['kex'] is ps[0].x)
        a = calls[0][0]
        E.prove(f'{tag}: every fit has the given data, restarts, optimiser and retries', a['X'] is X and a['Y'] is Y and a['restarts'] is restarts and a['optimiser'] is opt and a['max_retries'] is mx)
    def seq():
        X, Y, restarts, opt, mx, calls, kexs, base = setup()
        try: kind, v = E.call(ms.fit_mods_not_parallel, X, Y, kexs, restarts, opt, mx)
        finally: restore()
        E.prove('sequential: returns', kind == 'return', repr(v))
        judge(v, calls, base, X, Y, restarts, opt, mx, 'sequential')
    P.explore('fit_mods_not_parallel', seq, 'modelSearch.fit_mods_not_parallel')
    def par():
        X, Y, restarts, opt, mx, calls, kexs, base = setup()
        cpus = Int('cpus'); E.assume(cpus >= 1)
        class APool(Opaque):
            def __init__(self): super().__init__('pool')
            def __enter__(self): return self
            def __exit__(self, *a): return False
            def starmap(self, f, it, chunksize = None):
                if chunksize is not None: E.prove('parallel: the chunk size is a positive integer', SNum(zv(chunksize)) >= 1)
                return SList([Image(p.base, p.x, f(*p.y)) if isinstance(p, Image) else p for p in parts_of(it)])
            def starmap_async(self, f, it, chunksize = None, *a):
                r = self.starmap(f, it, chunksize); return Opaque('async result', get = lambda *a: r)
        ms.Pool, ms.cpu_count = (lambda *a, **k: APool()), (lambda: cpus)
        try: kind, v = E.call(ms.fit_mods_parallel_processes, X, Y, kexs, restarts, opt, mx)
        finally: restore()
        E.prove('parallel: returns', kind == 'return', repr(v))
        judge(v, calls, base, X, Y, restarts, opt, mx, 'parallel')
    P.explore('fit_mods_parallel_processes', par, 'modelSearch.fit_mods_parallel_processes')

    # GPModel.fit
    def fit():
        calls = {}
        kern = Opaque('kernel')
        gp = Opaque('GPRegression')
        def opt_r(**k): calls['opt'] = k
        gp.__dict__['optimize_restarts'] = opt_r
        def GPR(*a, **k): calls['gp'] = (a, k); return gp
        m = object.__new__(mm.GPModel)
        X, Y = Opaque('X'), Opaque('Y')
        m.X, m.Y, m.kernel_expression = X, Y, Opaque('kex', to_kernel = lambda: kern)
        m._sum_of_prods_kex = m.model = m.cached_utility_function = m.cached_utility_function_type = None
        old, given = [(None, None), (Int('old'), None), (None, Int('r')), (Int('old'), Int('r'))][E.choose(4)]
        m.restarts = old
        opt = Opaque('optimiser')
        realGPR = mm.GPRegression
        mm.GPRegression = GPR
        try: kind, v = E.call(m.fit, given, opt)
        finally: mm.GPRegression = realGPR
        if old is None and given is None:
            E.prove('without any restarts value a ValueError is raised', kind == 'raise' and isinstance(v, ValueError), repr(v)); return
        E.prove('the fit returns the model itself', kind == 'return' and v is m, repr(v))
        want = given if given is not None else old
        a, k = calls['gp']
        b = dict(zip(('X', 'Y', 'kernel'), a)); b.update(k)
        E.prove('the GPy model has the given data and the kernel of the expression', b.get('X') is X and b.get('Y') is Y and b.get('kernel') is kern)
        E.prove('it is optimised with the given restarts and optimiser', 'opt' in calls and calls['opt'].get('num_restarts') is want and calls['opt'].get('optimizer') is opt)
        E.prove('the fitted model is stored', m.model is gp)
    P.explore('GPModel.fit', fit, 'GPModel.fit')
