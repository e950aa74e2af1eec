"""C21: velocity / hydraulic gradient relations."""
from speclib import *

suite = Suite('C21')
suite.num = ['num_const']
suite.assumptions = ['precondition: permeabilities positive, exponent at least 1, limiting gradient above the intercept gradient',
                     'contract of root_finding.fixed_point_no_accel: the returned value is a fixed point of the function given (convergence assumed)',
                     'as documented in the code, the reported slope is the derivative times the sign of the gradient']
M = 'geotecha.constitutive_models.velocity_hydraulic_gradient.'


def method(V, m, name):
    return V.I.getattr(m, name)


def args(V, name, *conds):
    for nm, arg, K in inputs(V, name, *conds):
        yield arg, K, (lambda i, K=K: var(name) if K is None else app(name + 's', i))


def value(r, K, i):
    return ip.lift(r.at() if isinstance(r, Arr) else r) if K is None else r.at(i)


def index(V, K):
    if K is None:
        return None, []
    (i,), rng = V.idx(K)
    return i, rng


sgn = lambda t: ite(lt(num(0), t), num(1), ite(lt(t, num(0)), num(-1), num(0)))


@suite.ob('DarcyFlowModel', *[M + 'DarcyFlowModel.' + f for f in ('v_from_i', 'i_from_v', 'dv_di')])
def darcy(V):
    k = V.real('k')
    V.requires(pos(k))

    def go():
        m = V.call(M + 'DarcyFlowModel', k=k)
        for g, K, G in args(V, 'g'):
            i, rng = index(V, K)
            v = V.call(method(V, m, 'v_from_i'), g)
            compare(V, 'velocity', v, K, mul(k, G(None)) if K is None else (lambda i: mul(k, G(i))))
            compare(V, 'gradient -> velocity -> gradient', V.call(method(V, m, 'i_from_v'), v), K, G(None) if K is None else G)
            s = V.call(method(V, m, 'dv_di'), g)
            compare(V, 'slope', s, K, mul(k, sgn(G(None))) if K is None else (lambda i: mul(k, sgn(G(i)))))
        for v, K, W in args(V, 'v'):
            g = V.call(method(V, m, 'i_from_v'), v)
            compare(V, 'velocity -> gradient -> velocity', V.call(method(V, m, 'v_from_i'), g), K, W(None) if K is None else W)
    V.run(go)


LAW = ('kstar', 'n', 'iL', 'i0', 'klinear')
CASES = [('kstar', 'n', 'iL'), ('kstar', 'n', 'i0'), ('kstar', 'n', 'klinear'), ('kstar', 'iL', 'i0'), ('kstar', 'iL', 'klinear'),
         ('kstar', 'i0', 'klinear'), ('n', 'iL', 'klinear'), ('n', 'i0', 'klinear'), ('iL', 'i0', 'klinear')]


def hansbo_model(V):
    """a law with consistent parameters, as established by the constructor contracts"""
    ks, n, iL = V.real('kstar'), V.real('n'), V.real('iL')
    V.requires(pos(ks), lt(num(1), n), pos(iL))
    i0 = mul(iL, div(sub(n, num(1)), n))
    kl = mul(ks, n, power(iL, sub(n, num(1))))
    return ks, n, iL, i0, kl


def construct(given):
    @suite.ob('HansboNonDarcianFlowModel(%s)' % ', '.join(given), M + 'HansboNonDarcianFlowModel.__init__')
    def f(V):
        # an arbitrary consistent law, of which three parameters are given
        ks, n, iL, i0, kl = hansbo_model(V)
        law = dict(kstar=ks, n=n, iL=iL, i0=i0, klinear=kl)
        p = {k: V.real('p_' + k) for k in given}
        fixed = []

        def fixed_point(I, fn, a, kw):
            func, x0, fargs, xtol, maxiter = take(a, kw, ['func', 'x0', 'args', 'xtol', 'maxiter'], {'args': (), 'xtol': None, 'maxiter': None})
            r = fresh('fp')
            V.F.add(lt(num(1), r))
            fixed.append((r, V.call(func, r, *fargs)))
            return r
        V.I.contracts['geotecha.mathematics.root_finding.fixed_point_no_accel'] = fixed_point
        pk = lambda k: p[k]
        if 'kstar' in p:
            V.requires(pos(p['kstar']))
        if 'klinear' in p:
            V.requires(pos(p['klinear']))
        if 'n' in p:
            V.requires(lt(num(1), p['n']))
        for k in ('iL', 'i0'):
            if k in p:
                V.requires(pos(p[k]))
        if 'iL' in p and 'i0' in p:
            V.requires(lt(p['i0'], p['iL']))
        if given in (('kstar', 'iL', 'klinear'),):
            V.requires(ne(p['iL'], num(1)))

        def go():
            m = V.call(M + 'HansboNonDarcianFlowModel', **p)
            g = {k: ip.lift(V.I.getattr(m, k)) for k in LAW + ('vL',)}
            for k in given:
                V.eq('keeps the given ' + k, g[k], p[k])
            if fixed:
                # n is a fixed point: n equals the value the function returned for n
                (r, fr), = fixed
                V.check('the exponent is the fixed point', g['n'] is r)
                V.eq('slopes agree at the limiting gradient (logarithms)', mul(sub(ip.lift(fr), num(1)), log(g['iL'])), log(div(g['klinear'], mul(g['kstar'], r))),
                     [ne(g['iL'], num(1))])
            else:
                V.eq('slopes agree at the limiting gradient', g['klinear'], mul(g['kstar'], g['n'], power(g['iL'], sub(g['n'], num(1)))))
            V.eq('intercept gradient', mul(g['i0'], g['n']), mul(g['iL'], sub(g['n'], num(1))))
            V.eq('velocity at the limiting gradient', g['vL'], mul(g['klinear'], sub(g['iL'], g['i0'])))
        V.run(go)


for c in CASES:
    construct(c)


def degenerate(given, one):
    """the parameter choices that reduce the law to a straight line"""
    @suite.ob('HansboNonDarcianFlowModel(%s): linear when %s' % (', '.join(given), one), M + 'HansboNonDarcianFlowModel.__init__')
    def f(V):
        p = {k: V.real('p_' + k) for k in given}
        k = p['klinear'] if 'klinear' in p else p['kstar']
        V.requires(pos(k))
        if 'kstar' in p and 'klinear' in p:
            V.requires(eq(p['kstar'], p['klinear']))
        if 'n' in p and one != 'n == 1':
            V.requires(le(num(1), p['n']))
        if one == 'n == 1':
            p['n'] = num(1)
        elif one == 'iL == i0':
            p['i0'] = p['iL']
        else:
            p[one.split()[0]] = num(0)
        for q in ('iL', 'i0'):
            if q in p and p[q].op == 'var':
                V.requires(le(num(0), p[q]))

        def go():
            m = V.call(M + 'HansboNonDarcianFlowModel', **p)
            for x, K, X in args(V, 'x', lambda t: ne(t, num(0))):
                compare(V, 'straight line', V.call(method(V, m, 'v_from_i'), x), K, mul(k, X(None)) if K is None else (lambda i: mul(k, X(i))))
                compare(V, 'inverse', V.call(method(V, m, 'i_from_v'), x), K, div(X(None), k) if K is None else (lambda i: div(X(i), k)))
                compare(V, 'slope', V.call(method(V, m, 'dv_di'), x), K, mul(k, sgn(X(None))) if K is None else (lambda i: mul(k, sgn(X(i)))))
        V.run(go)


for c, o in [(('kstar', 'n', 'iL'), 'n == 1'), (('kstar', 'n', 'iL'), 'iL == 0'), (('kstar', 'n', 'i0'), 'n == 1'), (('kstar', 'n', 'i0'), 'i0 == 0'),
             (('kstar', 'n', 'klinear'), 'n == 1'), (('kstar', 'iL', 'klinear'), 'iL == 0'), (('kstar', 'i0', 'klinear'), 'i0 == 0'),
             (('n', 'iL', 'klinear'), 'n == 1'), (('n', 'iL', 'klinear'), 'iL == 0'), (('n', 'i0', 'klinear'), 'n == 1'), (('n', 'i0', 'klinear'), 'i0 == 0')]:
    degenerate(c, o)


@suite.ob('HansboNonDarcianFlowModel', *[M + 'HansboNonDarcianFlowModel.' + f for f in ('v_from_i', 'i_from_v', 'dv_di')])
def hansbo(V):
    ks, n, iL, i0, kl = hansbo_model(V)

    def go():
        m = V.call(M + 'HansboNonDarcianFlowModel', kstar=ks, n=n, iL=iL)
        curve = lambda t: mul(ks, power(t, n))
        straight = lambda t: mul(kl, sub(t, i0))
        vL = V.I.getattr(m, 'vL')
        V.eq('continuous at the limiting gradient', curve(iL), straight(iL))
        V.eq('velocity at the limiting gradient', ip.lift(vL), curve(iL))
        for g, K, G in args(V, 'g'):
            i, rng = index(V, K)
            G = G(i)
            v = V.call(method(V, m, 'v_from_i'), g)
            s = V.call(method(V, m, 'dv_di'), g)
            b = V.call(method(V, m, 'i_from_v'), v)
            kind = ' (scalar)' if K is None else ' (array)'
            for nm, f, c in ((' beyond iL', straight, lambda a: [lt(iL, a)]), (' at iL', straight, lambda a: [eq(iL, a)]),
                             (' below iL', curve, lambda a: [pos(a), lt(a, iL)])):
                for w, side, a in (('positive', num(1), G), ('negative', num(-1), neg(G))):
                    pc = rng + c(a)
                    lab = ', %s gradient%s%s' % (w, nm, kind)
                    V.eq('velocity' + lab, value(v, K, i), mul(side, f(a)), pc)
                    V.eq('slope' + lab, value(s, K, i), mul(side, D(f)(a)), pc)
                    V.eq('gradient -> velocity -> gradient' + lab, value(b, K, i), G, pc)
            V.eq('no flow without gradient' + kind, value(v, K, i), num(0), rng + [eq(G, num(0))])
        V.holds('velocity grows with gradient: straight part above the curve', le(num(0), sub(iL, i0)))
        for v, K, W in args(V, 'v'):
            i, rng = index(V, K)
            W = W(i)
            g = V.call(method(V, m, 'i_from_v'), v)
            b = V.call(method(V, m, 'v_from_i'), g)
            kind = ' (scalar)' if K is None else ' (array)'
            for nm, c in ((' beyond vL', lambda a: [lt(curve(iL), a)]), (' at vL', lambda a: [eq(curve(iL), a)]), (' below vL', lambda a: [pos(a), lt(a, curve(iL))])):
                for w, side, a in (('positive', num(1), W), ('negative', num(-1), neg(W))):
                    V.eq('velocity -> gradient -> velocity, %s velocity%s%s' % (w, nm, kind), value(b, K, i), W, rng + c(a))
    V.run(go)
