"""C08: loads superpose exactly in the spectral solution."""
from polymodel import *

suite = Suite('C08')
suite.num = ['num_spec1d']
S1 = 'geotecha.speccon.speccon1d.'
suite.assumptions = ['depth profiles cover the normalised depth 0 to 1',
                     'eigenvalues, coefficients and times real (complex eigenvalues: same formulas, run-time check only)',
                     'callee contracts: integrals over depth (C02-C05), over time (C06), common break points (C17), interpolation (C14)']


def zeroed(case, q):
    """the slice of mode numbers without load, and whether mode i is in it"""
    if case == 'from':
        return slice(q, None), lambda i: le(q, i)
    if case == 'to':
        return slice(None, q), lambda i: lt(i, q)
    return None, lambda i: tm.FALSE


def loads(w, V, name, freq):
    """a list of load histories and of optional (omega, phase)"""
    L = V.int('L' + name, 1)
    om = None if not freq else w.maybe_pairs(name, L)
    return L, w.polys(name, L), om


def e_of(name, freq, kind, w):
    """time integral of load number l, eigenvalue index j, time index k"""
    def f(l, j, k):
        h = value(app(name, l))
        a = (app('lam', j), app('t', k), w.dT)
        plain_ = app(kind, h, *a)
        if not freq:
            return plain_
        return ite(app(name + '?', l, sort='B'), plain_, app(kind + 'cos', h, app(name + 'om', l), app(name + 'ph', l), *a))
    return f


def check(V, w, R, spec, label='E Gamma^-1 theta'):
    V.check('two-dimensional', isinstance(R, Arr) and R.ndim == 2)
    V.length('rows', R.dims[0], w.n)
    V.length('columns', R.dims[1], w.T)
    (i, k), rng = V.idx(w.n, w.T)
    V.eq(label, R.at(i, k), spec(i, k), rng)


def weighted(w, theta, zero):
    """sum over modes j of Ig[i, j] theta(j), theta zero in the listed modes"""
    def f(i):
        j = fresh('j', 'I')
        return bsum(j, w.n, ite(zero(j), Z, mul(app('Ig', i, j), theta(app('m', j)))))
    return f


BC = {
    'aDfDt_linear': ('a', 'ED', lambda a, g: lambda m: app('Sin', m, mul(a, g))),
    'abf_linear': ('ab', 'E', lambda a, b, g: lambda m: app('Sin', m, tm.mul(a, b, g))),
    'abDfDt_linear': ('ab', 'ED', lambda a, b, g: lambda m: app('Sin', m, tm.mul(a, b, g))),
    'D_aDf_linear': ('a', 'E', lambda a, g: lambda m: app('SinDaD', m, a, g) if zz in tm.fv(g) else Z),
}


def mk_bc(kind, drn, sides, freq, zero):
    name = S1 + 'dim1sin_E_Igamv_the_BC_' + kind
    args, E, theta = BC[kind]

    @suite.ob('BC_%s drn=%d %s%s zero=%s' % (kind, drn, sides or 'no boundary value', ' with frequencies' if freq else '', zero), name)
    def f(V):
        w = World(V)
        q = V.int('q', 0)
        V.requires(le(q, w.n))
        zi, zf = zeroed(zero, q)
        par = [w.poly(k) for k in args]
        kw = dict(dT=w.dT, theta_zero_indexes=zi)
        parts = []
        for s in ('top', 'bot'):
            kw[s + '_vs_time'] = None
            if s in sides:
                L, ps, om = loads(w, V, s, freq)
                kw[s + '_vs_time'], kw[s + '_omega_phase'] = ps, om
                g = zz if s == 'bot' else (one if drn else sub(one, zz))
                parts.append((L, e_of(s, freq, E, w), weighted(w, theta(*([value(var(k)) for k in args] + [g])), zf)))

        def go():
            R = V.call(name, drn, w.m, w.eigs, w.t, w.Ig, *par, **kw)

            def spec(i, k):
                l = fresh('l', 'I')
                return add(Z, *[mul(bsum(l, L, e(l, i, k)), th(i)) for L, e, th in parts])
            check(V, w, R, spec)
        V.run(go)


for kind in BC:
    for drn in (0, 1):
        for sides in ('', 'top', 'bot', 'top bot'):
            mk_bc(kind, drn, sides, True, 'from' if sides != 'bot' else 'to')
        mk_bc(kind, drn, 'top bot', False, 'none')


@suite.ob('BC terms without property profile contribute nothing', *[S1 + 'dim1sin_E_Igamv_the_BC_' + k for k in BC])
def no_profile(V):
    w = World(V)

    def go():
        for kind in BC:
            for miss in range(len(BC[kind][0])):
                par = [None if k == miss else w.poly('a%d' % k) for k in range(len(BC[kind][0]))]
                L, ps, om = loads(w, V, 'top', False)
                R = V.call(S1 + 'dim1sin_E_Igamv_the_BC_' + kind, 0, w.m, w.eigs, w.t, w.Ig, *par,
                           top_vs_time=ps, bot_vs_time=ps, dT=w.dT)
                check(V, w, R, lambda i, k: Z, kind)
    V.run(go)


def mk_delta_bc(drn, sides, freq, zero):
    name = S1 + 'dim1sin_E_Igamv_the_BC_deltaf_linear'

    @suite.ob('BC_deltaf_linear drn=%d %s%s zero=%s' % (drn, sides or 'no boundary value', ' with frequencies' if freq else '', zero), name)
    def f(V):
        w = World(V)
        q = V.int('q', 0)
        V.requires(le(q, w.n))
        zi, zf = zeroed(zero, q)
        P = V.int('P', 1)
        kw = dict(dT=w.dT, theta_zero_indexes=zi)
        parts = []
        for s in ('top', 'bot'):
            kw[s + '_vs_time'] = None
            if s in sides:
                L, ps, om = loads(w, V, s, freq)
                kw[s + '_vs_time'], kw[s + '_omega_phase'] = ps, om
                g = (lambda z: z) if s == 'bot' else ((lambda z: one) if drn else (lambda z: sub(one, z)))

                def th(i, g=g):
                    j, p = fresh('j', 'I'), fresh('p', 'I')
                    z = app('z', p)
                    return bsum(p, P, bsum(j, w.n, ite(zf(j), Z, tm.mul(app('Ig', i, j), app('k', p), sin(mul(app('m', j), z)), g(z)))))
                parts.append((L, e_of(s, freq, 'E', w), th))

        def go():
            R = V.call(name, drn, w.m, w.eigs, w.t, w.Ig, V.arr('z', P), V.arr('k', P), **kw)

            def spec(i, k):
                l = fresh('l', 'I')
                return add(Z, *[mul(bsum(l, L, e(l, i, k)), th(i)) for L, e, th in parts])
            check(V, w, R, spec)
        V.run(go)


for drn in (0, 1):
    for sides in ('', 'top', 'bot', 'top bot'):
        mk_delta_bc(drn, sides, True, 'from' if sides != 'bot' else 'to')
    mk_delta_bc(drn, 'top bot', False, 'none')


def mk_mag(freq, zero):
    nd, na, nb = [S1 + 'dim1sin_E_Igamv_the_' + k for k in ('deltamag_linear', 'aDmagDt_bilinear', 'abmag_bilinear')]
    tag = '%s zero=%s' % (' with frequencies' if freq else '', zero)

    def setup(V):
        w = World(V)
        q = V.int('q', 0)
        V.requires(le(q, w.n))
        zi, zf = zeroed(zero, q)
        L, ps, om = loads(w, V, 'mag', freq)
        return w, zi, zf, L, ps, dict(omega_phase=om, dT=w.dT, theta_zero_indexes=zi)

    def total(w, L, E, zf, theta):
        """sum over loads of time integral times its own weighted depth integral"""
        def spec(i, k):
            l, j = fresh('l', 'I'), fresh('j', 'I')
            e = e_of('mag', freq, E, w)(l, i, k)
            return bsum(l, L, mul(e, bsum(j, w.n, ite(zf(j), Z, mul(app('Ig', i, j), theta(l, app('m', j)))))))
        return spec

    @suite.ob('aDmagDt_bilinear' + tag, na)
    def f(V):
        w, zi, zf, L, ps, kw = setup(V)

        def go():
            R = V.call(na, w.m, w.eigs, w.t, w.Ig, w.poly('a'), w.polys('dep', L), ps, **kw)
            check(V, w, R, total(w, L, 'ED', zf, lambda l, m: app('Sin', m, mul(value(var('a')), value(app('dep', l))))))
        V.run(go)

    @suite.ob('abmag_bilinear' + tag, nb)
    def f(V):
        w, zi, zf, L, ps, kw = setup(V)

        def go():
            R = V.call(nb, w.m, w.eigs, w.t, w.Ig, w.poly('a'), w.poly('b'), w.polys('dep', L), ps, **kw)
            check(V, w, R, total(w, L, 'E', zf, lambda l, m: app('Sin', m, tm.mul(value(var('a')), value(var('b')), value(app('dep', l))))))
        V.run(go)

    @suite.ob('deltamag_linear' + tag, nd)
    def f(V):
        w, zi, zf, L, ps, kw = setup(V)

        def go():
            R = V.call(nd, w.m, w.eigs, w.t, w.Ig, V.arr('z', L), V.arr('k', L), ps, **kw)
            check(V, w, R, total(w, L, 'E', zf, lambda l, m: mul(app('k', l), sin(mul(app('z', l), m)))))
        V.run(go)


for freq in (False, True):
    for zero in ('none', 'from', 'to'):
        mk_mag(freq, zero)


@suite.ob('without loads nothing is added', S1 + 'dim1sin_E_Igamv_the_aDmagDt_bilinear', S1 + 'dim1sin_E_Igamv_the_abmag_bilinear',
          S1 + 'dim1sin_E_Igamv_the_deltamag_linear')
def no_loads(V):
    w = World(V)

    def go():
        for dep, mag in ((None, None), (LList([]), LList([])), (None, LList([])), (LList([]), None)):
            a = (w.m, w.eigs, w.t, w.Ig)
            R = V.call(S1 + 'dim1sin_E_Igamv_the_aDmagDt_bilinear', *a, w.poly('a'), dep, mag, dT=w.dT)
            check(V, w, R, lambda i, k: Z)
            R = V.call(S1 + 'dim1sin_E_Igamv_the_abmag_bilinear', *a, w.poly('a'), w.poly('b'), dep, mag, dT=w.dT)
            check(V, w, R, lambda i, k: Z)
        R = V.call(S1 + 'dim1sin_E_Igamv_the_deltamag_linear', *a, LList([]), LList([]), LList([]), dT=w.dT)
        check(V, w, R, lambda i, k: Z)
    V.run(go)


@suite.ob('deltamag_linear with missing loads', S1 + 'dim1sin_E_Igamv_the_deltamag_linear')
def missing(V):
    w = World(V)
    L = V.int('L', 1)

    def item(l):
        return None if w.I.decide(app('none?', l, sort='B')) else w.poly(app('mag', l))

    def go():
        R = V.call(S1 + 'dim1sin_E_Igamv_the_deltamag_linear', w.m, w.eigs, w.t, w.Ig, V.arr('z', L), V.arr('k', L),
                   LList(Seq(L, item)), dT=w.dT)

        def spec(i, k):
            l, j = fresh('l', 'I'), fresh('j', 'I')
            e = app('E', value(app('mag', l)), app('lam', i), app('t', k), w.dT)
            return bsum(l, L, ite(app('none?', l, sort='B'), Z, mul(e, bsum(j, w.n, tm.mul(
                app('Ig', i, j), app('k', l), sin(mul(app('z', l), app('m', j))))))))
        check(V, w, R, spec)
    V.run(go)


def mk_foft(drn, sides, freq, zero):
    name = S1 + 'dim1sin_foft_Ipsiw_the_BC_D_aDf_linear'

    @suite.ob('foft_Ipsiw_the_BC_D_aDf drn=%d %s%s zero=%s' % (drn, sides or 'no boundary value', ' with frequencies' if freq else '', zero), name)
    def f(V):
        w = World(V)
        q = V.int('q', 0)
        V.requires(le(q, w.n))
        zi, zf = zeroed(zero, q)
        kw = dict(theta_zero_indexes=zi)
        parts = []
        for s in ('top', 'bot'):
            kw[s + '_vs_time'] = None
            if s in sides:
                L, ps, om = loads(w, V, s, freq)
                kw[s + '_vs_time'], kw[s + '_omega_phase'] = ps, om
                g = zz if s == 'bot' else (one if drn else sub(one, zz))

                def e(l, i, k, s=s, freq=freq):
                    r = app('before', value(app(s, l)), app('t', k))
                    if not freq:
                        return r
                    return mul(r, ite(app(s + '?', l, sort='B'), one, cos(add(mul(app(s + 'om', l), app('t', k)), app(s + 'ph', l)))))
                parts.append((L, e, weighted(w, BC['D_aDf_linear'][2](value(var('a')), g), zf)))

        def go():
            R = V.call(name, drn, w.m, w.eigs, w.t, w.Ig, w.poly('a'), **kw)

            def spec(i, k):
                l = fresh('l', 'I')
                return add(Z, *[mul(bsum(l, L, e(l, i, k)), th(i)) for L, e, th in parts])
            check(V, w, R, spec)
        V.run(go)


for drn in (0, 1):
    for sides in ('', 'top', 'bot', 'top bot'):
        mk_foft(drn, sides, True, 'from' if sides != 'bot' else 'to')
    mk_foft(drn, 'top bot', False, 'none')


def mk_mvpl(zero):
    name = S1 + 'dim1sin_E_Igamv_the_mvpl'

    @suite.ob('mvpl zero=%s' % zero, name)
    def f(V):
        w = World(V)
        q = V.int('q', 0)
        V.requires(le(q, w.n))
        zi, zf = zeroed(zero, q)
        M = V.int('M', 1)
        V.F.gen(lambda apps: [le(one, a) for a in apps if a.op == 'app' and a.args[0] == 'wheels'])

        def load(l):
            n = app('wheels', l, sort='I')
            return obj(convert_to_specbeam=Builtin(lambda: (
                LList(Seq(n, lambda p: w.poly(app('pl', l, p)))), LList(Seq(n, lambda p: (app('om', l, p), app('ph', l, p)))))))

        def go():
            R = V.call(name, w.m, w.eigs, w.t, w.Ig, LList(Seq(M, load)), dT=w.dT, theta_zero_indexes=zi)

            def spec(i, k):
                l, p, j = fresh('l', 'I'), fresh('p', 'I'), fresh('j', 'I')
                m = app('m', j)
                e = app('Esin', value(app('pl', l, p)), mul(app('om', l, p), m), mul(app('ph', l, p), m), app('lam', i), app('t', k), w.dT)
                return bsum(j, w.n, ite(zf(j), Z, mul(app('Ig', i, j), bsum(l, M, bsum(p, app('wheels', l, sort='I'), e)))))
            check(V, w, R, spec)
        V.run(go)


for zero in ('none', 'from', 'to'):
    mk_mvpl(zero)
