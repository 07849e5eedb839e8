from proofs.kernels import *

def blend_of(kind, A, suffix = '', other = None):
    '''first * reversed * reversed + second * plain * plain, with the current parameters'''
    l, s, w = sym('location' + suffix), sym('slope' + suffix, True), sym('width' + suffix, True)
    def g(i, j):
        p, r = ('S', 'Sr') if kind == 'CP' else ('SI', 'SIr')
        row = lambda q: sym(f'x_{q}')
        col = (lambda q: sym(f'y_{q}')) if (A.dims[1] == 'M' if other is None else other) else row
        x, y = row(i), col(j)
        n = ','.join(sorted((str(x), str(y))))
        return sym(f'first[{n}]') * phi_of(r, x, l, s, w) * phi_of(r, y, l, s, w) + sym(f'second[{n}]') * phi_of(p, x, l, s, w) * phi_of(p, y, l, s, w)
    return Arr(A.dims, g)

def prove(P, only = ('shape', 'live'), cases = None):
    env = Env()
    P.trust(*TRUSTED); P.assume_note(REALS)
    P.note('copying, pickling and wrapping of change kernels (paramz and GPy machinery) are covered by the bounded run-time contracts of this property only')
    def scases(kind, fixed):
        return lambda pt: [{'case': 'shape', 'data': [s, x + y]} for q, s, x, y in points(kind, fixed, pt)]
    def lcases(kind, fixed):
        if cases: return cases
        def f(pt):
            out = []
            for q, s, x, y in points(kind, fixed, pt):
                out.append({'case': 'live', 'data': [s, x, y, [['array', i, .3 + .41 * ((i + q) % 7)] for i in range(9)]]})
            return out
        return f
    def pos(name, e, conds, cs, strict = True):
        '''e > 0 (>= 0) for all values, absolute values resolved, decided by z3 over the reals'''
        t0 = time.time(); status, why = 'proved', ''
        for sg, sub in signs([e] + [c for c in conds]):
            x = e.xreplace(sub) if sub else e
            n, d = sp.fraction(sp.together(x))
            s = z3.Solver(); s.set('timeout', 20000); t = {}
            for u, g in sg:
                z = to_z3(sp.sympify(u), t); s.add(z >= 0 if g > 0 else z <= 0)
            for c in conds: s.add(to_z3(sp.sympify(c), t) > 0)
            zn, zd = to_z3(sp.expand(n), t), to_z3(sp.expand(d), t)
            for c in t.values(): s.add(c)
            s.add(z3.Not(z3.And(zd != 0, zn * zd > 0 if strict else zn * zd >= 0)))
            r = s.check()
            if r == z3.unsat: continue
            status = 'refuted' if r == z3.sat else 'undecided'
            m = s.model() if r == z3.sat else None
            why = str(m)[:300] if m else 'unknown'
            break
        E.record(name, status, why, time.time() - t0, backend = 'z3')
        if status != 'proved': add(name, cs, None)
    def shape(kind, fixed):
        def f():
            cs = scases(kind, fixed)
            k = env.kernel(kind, fixed)
            rk = env.kernel({'S': 'Sr', 'Sr': 'S', 'SI': 'SIr', 'SIr': 'SI'}[kind], fixed)
            X, _, _ = env.inputs('none')
            status, v = E.call(k.phi, X); status2, r = E.call(rk.phi, X)
            E.prove('phi returns', status == 'return' and status2 == 'return', repr((v, r))) or add('phi returns', cs)
            if status != 'return' or status2 != 'return': return
            v, r = arr(v), arr(r)
            E.prove('one value per input', all([d for d in q.dims if d != 1] == ['N'] for q in (v, r)), f'{v.dims}') or add('one value per input', cs)
            v, r = v.ravel(), r.ravel()
            same('reversed is one minus plain', v + r, Arr((Dim('N'),), lambda i: sp.Integer(1)), cs)
            asc = v if kind in ('S', 'SI') else r
            l, s, w = sym('location'), sym('slope', True), sym('width', True)
            a = asc.f('a'); x = sym('x_a'); h = sym('h', True)
            at = lambda q: a.xreplace({x: sp.sympify(q)})
            if kind in ('S', 'Sr'):
                same('one half at its location', Arr((), lambda: at(l)), Arr((), lambda: sp.Rational(1, 2)), cs)
                # written with u = (x - l) / s: every value of u
                pos('strictly above zero', at(l + s * sym('u')), [], cs)
                pos('strictly below one', 1 - at(l + s * sym('u')), [], cs)
                pos('increasing', at(l + s * (sym('u') + h)) - at(l + s * sym('u')), [], cs)
            else:
                same('exactly one in the middle of its window', Arr((), lambda: at(l + w / 2)), Arr((), lambda: sp.Integer(1)), cs)
                same('symmetric about the middle', Arr((), lambda: at(l + w / 2 + s * sym('u'))), Arr((), lambda: at(l + w / 2 - s * sym('u'))), cs)
                W = sym('W', True) # width in units of slope
                def un(u): return sp.simplify(at(l + w / 2 + s * u)).xreplace({w: W * s}) if False else at(l + w / 2 + s * u).subs(w, W * s)
                u = sym('u', True)
                pos('positive', un(sym('v')), [], cs)
                pos('decreasing away from the middle', un(u) - un(u + h), [], cs)
            same('the documented function', v, Arr((Dim('N'),), lambda i: phi_of(kind, sym(f'x_{i}'), l, s, w)), cs)
        return f
    def live(kind, fixed):
        def f():
            cs = lcases(kind, fixed)
            k, a, b = env.change(kind, fixed)
            linked = [q for q in k._linked if isinstance(q, Branch)]
            E.prove('both branches are linked into the kernel, in order', [q.name for q in linked] == ['first', 'second'] and k.first is linked[0] and k.second is linked[1], repr(linked)) or add('both branches are linked into the kernel, in order', cs)
            E.prove('the branches are copies of the arguments', all(q.of is not None for q in linked))
            names = sorted(p.name for p in params(k))
            E.prove('the free parameters are linked', names == sorted(['location'] + (['width'] if kind == 'CW' else []) + ([] if fixed else ['slope'])), repr(names)) or add('the free parameters are linked', cs)
            for when, suffix in (('with the values it was made with', None), ('after the first change of its parameters', '_1'), ('after another change', '_2')):
                if suffix:
                    for p in params(k): p.set(Arr((), (lambda n: lambda: sym(n + suffix, env.POSITIVE[n]))(p.name)))
                    status, v = E.call(k.parameters_changed)
                    E.prove('parameters_changed returns', status == 'return', repr(v)) or add('parameters_changed returns', cs)
                now = {n: next((p.scalar() for p in params(k) if p.name == n), None) for n in ('location', 'slope', 'width')}
                if now['slope'] is None: now['slope'] = sym('slope', True)
                for mode in ('none', 'same', 'two', 'square'):
                    X, X2, W = env.inputs(mode)
                    status, K = E.call(k.K, X, X2)
                    n = f'K {"(X)" if mode == "none" else "(X, X)" if mode == "same" else "(X, Y)" if mode == "two" else "(X, as many points Y)"} is the documented blend {when}'
                    E.prove(n.replace('is the', 'gives the'), status == 'return', repr(K)) or add(n.replace('is the', 'gives the'), cs)
                    if status != 'return': continue
                    sub = {sym('location'): now['location'], sym('slope', True): now['slope'], sym('width', True): now['width'] if now['width'] is not None else sym('width', True)}
                    B = blend_of(kind, K, other = mode in ('two', 'square'))
                    same(n, K, Arr(B.dims, lambda i, j: B.f(i, j).subs(sub, simultaneous = True)), cs)
                    d_status, d = E.call(k.Kdiag, X)
                    E.prove('Kdiag returns', d_status == 'return', repr(d))
                    A0 = Arr((Dim('N'), Dim('N')), None); B0 = blend_of(kind, A0)
                    same(f'Kdiag is that of the documented blend {when}', d, Arr((Dim('N'),), lambda i: B0.f(i, i).subs(sub, simultaneous = True)), cs)
        return f
    jobs = []
    for kind in ('S', 'Sr', 'SI', 'SIr') if 'shape' in only else ():
        for fixed in (True, False):
            cls = 'sigmoidalKernels.SigmoidalIndicatorKernel' if 'I' in kind else 'sigmoidalKernels.SigmoidalKernel'
            jobs.append((f'{kind} {"fixed" if fixed else "free"} slope', shape(kind, fixed), f'{cls}._phi, {cls}.__init__, sigmoidalKernels.SigmoidalKernelBase.__init__', {}))
    for kind in ('CP', 'CW'):
        for fixed in (True, False):
            cls = 'changeOperators.ChangePointKernel' if kind == 'CP' else 'changeOperators.ChangeWindowKernel'
            jobs.append((f'{kind} {"fixed" if fixed else "free"} slope', live(kind, fixed), f'{cls}.__init__, {cls}.parameters_changed, changeOperators.ChangeKernelBase.__init__, changeOperators.ChangeKernelBase.parameters_changed, changeOperators.ChangeKernelBase.K, changeOperators.ChangeKernelBase.Kdiag', {}))
    P.parallel(jobs)
