from proofs.kernels import *
from proofs.c18 import per_shape

def prove(P):
    env = Env()
    P.trust(*TRUSTED); P.assume_note(REALS, 'mathematics: I0(u) is the mean of exp(u cos t) over a period of t (so 1 < I0(u) <= cosh(u) < exp(u) for u > 0), the mean of cos t is 0')
    P.assume_note('in the covariance _embi0(x) and _embi0min1(x) are taken as exp(-x) I0(x) and exp(-x) (I0(x) - I1(x)); the polynomials behind them are proved to be within 5e-7 / sqrt(x) of these',
                  'mathematics: m_k(x), the mean of (1 - cos t)^k exp(-x (1 - cos t)), is decreasing and convex with m_k\'\' = m_(k+2); sqrt(x) m_k(x) is decreasing; sqrt(2 pi x) m_0(x) tends to 1; 1 + t <= exp(t) <= 1 + t + t^2 for |t| <= 1')
    def cs(pt): return [{'case': 'periodic', 'data': [s['params'], x]} for q, s, x, y in points('PER', False, pt)]
    d = lambda: sym('x_a') - sym('y_b')
    v, p, l = sym('variance', True), sym('period', True), sym('lengthscale', True)
    def f():
        k = env.kernel('PER')
        X, Y, _ = env.inputs('two')
        env.used = {}
        status, K = E.call(k.K, X, Y)
        for n, low in env.used.items(): env.embi_accuracy(n, low, cs)
        E.prove('K returns', status == 'return', repr(K)) or add('K returns', cs)
        if status != 'return': return
        E.prove('one row per first and one column per second input', K.dims == ('N', 'M'), f'{K.dims}') or add('one row per first and one column per second input', cs)
        e = K.f('a', 'b'); x, y, h = sym('x_a'), sym('y_b'), sym('h')
        num = lambda q: Arr((), lambda: q)
        same('depends only on the distance: unchanged when both inputs are shifted', num(e.subs({x: x + h, y: y + h}, simultaneous = True)), num(e), cs)
        same('depends only on the distance: unchanged when the inputs are swapped', num(e.subs({x: y, y: x}, simultaneous = True)), num(e), cs)
        same('repeats after one period', num(e.subs(x, x + p)), num(e), cs)
        same('its variance on the diagonal', num(e.subs(y, x)), num(v), cs)
        status, kd = E.call(k.Kdiag, X)
        E.prove('Kdiag returns', status == 'return', repr(kd)) or add('Kdiag returns', cs)
        if status == 'return': same('Kdiag is the variance', kd, Arr((Dim('N'),), lambda i: v), cs)
        same('scales linearly with its variance', num(e.subs(v, v * h)), num(h * e), cs)
        same('the documented covariance', K, Arr(K.dims, lambda i, j: v * per_shape(sym(f'x_{i}') - sym(f'y_{j}'), p, l)), cs)
        # mean over a period and bounds, through the atoms exp(c cos t) and cos t
        c = exps(e)
        atoms = {a for a in c.atoms(sp.exp, sp.cos) if a.has(sp.cos)}
        exp_atoms = {a for a in atoms if isinstance(a, sp.exp)}
        t0 = time.time(); ok, why = True, ''
        for q in (y, x):
            pass
        if exp_atoms: us = {a: sp.Dummy() for a in exp_atoms}
        else: us = {a: sp.Dummy() for a in atoms}
        z = c.xreplace(us)
        lin = not z.has(sp.cos) and not z.has(x) and not z.has(y) and all(rational_zero(sp.diff(z, a, b)) for a in us.values() for b in us.values())
        mean = {}
        for a, b in us.items():
            if isinstance(a, sp.cos): mean[b] = sp.Integer(0)
            else:
                co = [g for g in a.args[0].atoms(sp.cos)]
                cc = sp.simplify(a.args[0] / co[0]) if len(co) == 1 else None
                if cc is None or cc.has(sp.cos) or cc.has(x) or cc.has(y): lin = False; break
                mean[b] = I0(canon(cc) if not cc.could_extract_minus_sign() else canon(-cc))
        if not lin: E.record('averages to zero over one period', 'undecided', f'not affine in exp(u cos t) or cos t: {c}', 0.); return
        same('averages to zero over one period', num(z.xreplace(mean)), num(sp.Integer(0)), cs)
        # bounds
        zr = {b: z3.Real(f'atom{i}') for i, b in enumerate(us.values())}
        table = {}
        s = z3.Solver(); s.set('timeout', 20000)
        E1, B, V = z3.Real('exp_u'), z3.Real('I0_u'), z3.Real('v')
        s.add(V > 0)
        u = 1 / l ** 2
        zz = z.xreplace({sp.exp(u): sp.Symbol('exp_u'), sp.exp(-u): 1 / sp.Symbol('exp_u'), I0(u): sp.Symbol('I0_u'), v: sp.Symbol('v')}).xreplace({b: sp.Symbol(str(zr[b])) for b in us.values()})
        if zz.free_symbols - {sp.Symbol(n) for n in ('exp_u', 'I0_u', 'v', *map(str, zr.values()))}: E.record('never exceeds its variance in absolute value', 'undecided', f'{zz}'); return
        for a, b in us.items():
            q = zr[b]
            s.add(*([q >= -1, q <= 1] if isinstance(a, sp.cos) else [q <= E1, q * E1 >= 1]))
        s.add(E1 > 1, B > 1, E1 > B, 2 * B * E1 <= E1 * E1 + 1)
        n, dd = sp.fraction(sp.together(zz)); zn, zd = to_z3(sp.expand(n), table), to_z3(sp.expand(dd), table)
        s.add(z3.Not(z3.And(zd != 0, zn * zd <= V * zd * zd, zn * zd >= -V * zd * zd)))
        r = s.check()
        E.record('never exceeds its variance in absolute value', 'proved' if r == z3.unsat else 'refuted' if r == z3.sat else 'undecided', '' if r == z3.unsat else str(s.model())[:300] if r == z3.sat else 'unknown', time.time() - t0)
        if r == z3.sat: add('never exceeds its variance in absolute value', cs)
    P.explore('PER', f, 'periodicKernel.PureStdPeriodicKernel.K, periodicKernel.PureStdPeriodicKernel.Kdiag')
    def poly():
        for name in ('_embi0', '_embi0min1'):
            if env.embi[name] is not None: env.embi_accuracy(name, 3.75, cs)
        # the limit regime meets the general one
        t0 = time.time()
        q = z3.Solver(); q.set('timeout', 20000)
        u, c, ec, eu, b = z3.Reals('u cos exp_u_cos exp_u I0_u')
        q.add(u > 0, u <= z3.RealVal('1e-8'), c >= -1, c <= 1)
        q.add(1 + u * c <= ec, ec <= 1 + u * c + u * u, 1 + u <= eu, eu <= 1 + u + u * u, 1 <= b, b <= 1 + u * u) # 1 + t <= exp(t) <= 1 + t + t^2 for |t| <= 1; 1 <= I0(u) <= 1 + u^2 for 0 <= u <= 1
        reach = q.check()
        eps = z3.RealVal('1e-7')
        r = q.check(z3.Not(z3.And(eu > b, ec - b <= (c + eps) * (eu - b), ec - b >= (c - eps) * (eu - b))))
        E.record('at every lengthscale from 1e4 on the documented covariance is within 1e-7 (times the variance) of its limit', 'proved' if r == z3.unsat and reach == z3.sat else 'undecided', f'{r} {reach}', time.time() - t0)
    P.explore('Bessel', poly, 'periodicKernel._embi0, periodicKernel._embi0min1')
