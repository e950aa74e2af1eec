"""C25: drain spacing, efficiency and well-resistance conversions; non-Darcian resistance."""
from smearspec import *
from dv import nplib
import mpmath

suite = Suite('C25')
suite.num = ['num_smear']
suite.assumptions = ['scipy.optimize.fsolve returns a root of the function it is given (when it does not, the code reports it)',
                     'spacing patterns: the names Triangle/triangle/t/T and Square/square/s/S; other names start with another letter',
                     'series of the non-Darcian functions: the default number of terms (20) and 1, 2, 3, 5 terms; truncation error is not part of the property']


@suite.ob('re_from_drain_spacing', SZ + 're_from_drain_spacing')
def influence(V):
    sp = V.real('sp', pos(var('sp')))
    K = V.int('K', 1)
    V.F.pointwise('sps', K, lambda i: pos(app('sps', i)))
    sps = V.arr('sps', K)

    def go():
        for pats, area in ((('Triangle', 'triangle', 'T', 't'), mpmath.sqrt(3) / 2), (('Square', 'square', 'S', 's', None), mpmath.mpf(1))):
            for p in pats:
                p = p or 'Sq'
                c = V.call(SZ + 're_from_drain_spacing', num(1), p)
                c = ip.lift(c)
                V.check('ratio is a number', c.op == 'num')
                mpmath.mp.dps = 40
                q = mpmath.mpf(c.args[0].numerator) / c.args[0].denominator
                V.check('area of the influence circle equals the cell area (%s)' % p, abs(mpmath.pi * q * q / area - 1) < mpmath.mpf(10) ** -14 and q > 0)
                V.eq('proportional to spacing (%s)' % p, V.call(SZ + 're_from_drain_spacing', sp, p), mul(c, sp))
                compare(V, 'proportional to spacing, arrays (%s)' % p, V.call(SZ + 're_from_drain_spacing', sps, p), K, lambda i: mul(c, app('sps', i)))
        t = V.call(SZ + 're_from_drain_spacing', sp)
        V.eq('default pattern', t, V.call(SZ + 're_from_drain_spacing', sp, 'Triangle'))
        V.raises('unknown pattern', lambda: V.call(SZ + 're_from_drain_spacing', sp, 'Hexagon'), 'ValueError')
    V.run(go)


def mu_stub(name):
    return ip.Builtin(lambda *a, **kw: app(name, *([ip.lift(x) for x in a] + [ip.lift(kw[k]) for k in sorted(kw)])), name)


@suite.ob('drain_eta', SZ + 'drain_eta')
def eta(V):
    re, n, s, kap, muw = [V.real(t, pos(var(t))) for t in ('re', 'n', 's', 'kap', 'muw')]
    V.requires(pos(app('mu', n, s, kap)))
    V.I.contracts[SZ + 'mu_linear'] = lambda I, f, a, kw: app('mu', *[ip.lift(x) for x in take(a, kw, ['n', 's', 'kap'], {})])

    def go():
        m = app('mu', n, s, kap)
        fn = mu_stub('mu')
        want = div(TWO, mul(sq(re), m))
        wantw = div(TWO, mul(sq(re), add(m, muw)))
        V.eq('eta re^2 mu = 2 (function)', V.call(SZ + 'drain_eta', re, fn, n, s, kap), want)
        V.eq('eta re^2 (mu + muw) = 2 (function)', V.call(SZ + 'drain_eta', re, fn, n, s, kap, muw=muw), wantw)
        V.eq('eta re^2 (mu + muw) = 2 (keywords)', V.call(SZ + 'drain_eta', re, 'mu_linear', n=n, s=s, kap=kap, muw=muw), wantw)
        V.eq('eta re^2 mu = 2 (name)', V.call(SZ + 'drain_eta', re, 'mu_linear', n, s, kap), want)
        V.eq('eta re^2 (mu + muw) = 2 (name)', V.call(SZ + 'drain_eta', re, 'mu_linear', n, s, kap, muw=muw), wantw)
    V.run(go)


@suite.ob('mu_well_resistance', SZ + 'mu_well_resistance')
def well(V):
    kh, qw, n, H, z = [V.real(t) for t in ('kh', 'qw', 'n', 'H', 'z')]
    V.requires(lt(ONE, n), pos(kh), pos(qw), pos(H), le(num(0), z), le(z, H))

    def go():
        f = lambda z: V.call(SZ + 'mu_well_resistance', kh, qw, n, H, z)
        at = f(z)
        avg = V.call(SZ + 'mu_well_resistance', kh, qw, n, H)
        # flow collected by the drain over z..H per unit of conductivity
        g = lambda t: div(mul(num(tm.PI), kh, t, sub(mul(TWO, H), t), sub(ONE, div(ONE, sq(n)))), qw)
        V.eq('well resistance at depth z', value(at), g(z))
        G = lambda t: div(mul(num(tm.PI), kh, sub(mul(H, sq(t)), div(mul(t, t, t), num(3))), sub(ONE, div(ONE, sq(n)))), qw)
        V.eq('primitive', D(G)(z), g(z))
        V.eq('depth average', value(avg), div(sub(G(H), G(num(0))), H))
        V.eq('no resistance at the drained end', value(f(num(0))), num(0))
        V.eq('zero gradient at the closed end', D(g)(H), num(0))
    V.run(go)


def back_calc(mu, kind):
    fn = SZ + 'back_calc_drain_spacing_from_eta'

    @suite.ob('back_calc_drain_spacing_from_eta[%s]' % mu, fn)
    def f(V):
        eta_, rw, muw = [V.real(t) for t in ('eta', 'rw', 'muw')]
        V.requires(pos(eta_), pos(rw), le(num(0), muw))
        if kind == 'piecewise':
            L = V.int('L', 1)
            s, kap = V.arr('s', L), V.arr('kap', L)
            # the drain radius ratios are at least 1, the largest one bounds the drain influence radius
            V.F.pointwise('s', L, lambda i: le(ONE, app('s', i)))
            V.requires(le(ONE, var('smax')))
            mx = ip.Builtin(lambda x, *a, **k: var('smax') if x is s else nplib.libs(V.I)['numpy'].d['max'].f(x, *a, **k), 'np.max')
            V.I.libs['numpy'].d['max'] = V.I.libs['numpy'].d['amax'] = mx
            V.F.pointwise('s', L, lambda i: le(app('s', i), var('smax')))
        else:
            s, kap = V.real('s', le(ONE, var('s'))), V.real('kap', pos(var('kap')))
        nplib.point_facts(V.I, 'mu', lambda r, *t: pos(r))
        root = V.real('root', pos(var('root')))

        def contract(I, fn, a, kw):
            if kind == 'piecewise':
                ss, kk, n, km = take(a, kw, ['s', 'kap', 'n', 'kap_m'], {'n': None, 'kap_m': None})
                V.check('profile handed on', ss is s and kk is kap and km is None and n is not None)
            elif mu == 'mu_ideal':
                n = take(a[:1], {}, ['n'], {})[0]
            else:
                n, ss, kk = take(a, kw, ['n', 's', 'kap'], {})
                V.eq('smear zone handed on', ip.lift(ss), s)
                V.eq('ratio handed on', ip.lift(kk), kap)
            return nplib.elementwise(I, lambda n: app('mu', n), [n], 'f')
        V.I.contracts[SZ + mu] = contract
        x = fresh('n')

        def fsolve(I, f, x0, args=(), **kw):
            """assumed: returns x with f(x, *args) = 0"""
            V.trusted.add('scipy.optimize.fsolve: the value returned is a root')
            r = Arr([nplib.Dim([num(1)])] if False else nplib.toarr(I, [root]).dims, lambda i: root, 'f')
            res = I.call(f, [r] + list(args), {})
            res = res.at(num(0)) if isinstance(res, Arr) and res.ndim else ip.lift(res.at() if isinstance(res, Arr) else res)
            I.pc.append(eq(res, num(0)))
            return r
        V.I.libs['scipy.optimize'].d['fsolve'] = ip.Builtin(lambda *a, **kw: fsolve(V.I, *a, **kw), 'fsolve')

        def go(pat):
            c = V.call(SZ + 're_from_drain_spacing', num(1), pat)
            sp, re, n = V.call(fn, eta_, pat, V.I.getfn(SZ + mu), rw, s, kap, muw)
            V.eq('radius is that of the spacing (%s)' % pat, ip.lift(re), mul(ip.lift(c), ip.lift(sp)))
            V.eq('ratio is that of the radius (%s)' % pat, mul(ip.lift(n), rw), ip.lift(re))
            V.eq('efficiency at the spacing equals the one asked for (%s)' % pat, div(TWO, mul(sq(ip.lift(re)), add(app('mu', ip.lift(n)), muw))), eta_)
        def fallen_below(o, pc):
            """the documented error: the influence radius is smaller than the smear zone"""
            c = ip.lift(V.call(SZ + 're_from_drain_spacing', num(1), pat))
            return o.value.tname == 'ValueError' and mu != 'mu_ideal' and V.F.entails(pc, lt(mul(c, root), mul(rw, var('smax') if kind == 'piecewise' else s)))
        for pat in ('Triangle', 'Square', 't', 'square'):
            V.run(lambda: go(pat), raises=fallen_below)


for m in ('mu_ideal', 'mu_constant', 'mu_linear', 'mu_overlapping_linear', 'mu_parabolic'):
    back_calc(m, 'scalar')
for m in ('mu_piecewise_constant', 'mu_piecewise_linear'):
    back_calc(m, 'piecewise')


def poch(z, j):
    return mul(ONE, *[add(z, num(i)) for i in range(j)])


def series(nf, nterms):
    """binomial series of (1 - r^2/N^2)^(1/nf) r^(-1/nf), and its first and second integrals from the axis"""
    import math
    c = [div(poch(neg(div(ONE, nf)), j), num(math.factorial(j))) for j in range(nterms)]
    p = lambda r, N, e, j: mul(power(r, sub(num(e), div(ONE, nf))), power(div(r, N), num(2 * j)))
    d = lambda k: sub(num(k), div(ONE, nf))
    flow = lambda r, N: add(num(0), *[mul(c[j], p(r, N, 0, j)) for j in range(nterms)])
    g = lambda r, N: add(num(0), *[mul(div(c[j], d(2 * j + 1)), p(r, N, 1, j)) for j in range(nterms)])
    gb = lambda r, N: add(num(0), *[mul(div(c[j], mul(d(2 * j + 1), d(2 * j + 3))), p(r, N, 3, j)) for j in range(nterms)])
    return flow, g, gb


def non_darcy(arr, nterms):
    @suite.ob('_g, _gbar[%s, %s terms]' % ('arrays' if arr else 'scalars', nterms or 'default'), SZ + '_g', SZ + '_gbar')
    def f(V):
        nf, N = V.real('nf', lt(ONE, var('nf'))), V.real('N', lt(ONE, var('N')))
        rng = []
        if arr:
            K = V.int('K', 1)
            V.F.pointwise('r', K, lambda i: land(le(ONE, app('r', i)), le(app('r', i), N)))
            (i,), rng = V.idx(K)
            rs, r = V.arr('r', K), app('r', i)
        else:
            rs = r = V.real('r')
            i = None
            V.requires(le(ONE, r), le(r, N))
        kw = {'nterms': nterms} if nterms else {}

        def go():
            flow, g, gb = series(nf, nterms or 20)
            if nterms in (1, 2, 3):
                V.eq('g is the integral of the flow series', D(lambda r: g(r, N))(r), flow(r, N), rng)
                V.eq('gbar is the integral of r g', D(lambda r: gb(r, N))(r), mul(r, g(r, N)), rng)
            V.eq('g', value(V.call(SZ + '_g', rs, N, nf, **kw), i), g(r, N), rng)
            V.eq('gbar', value(V.call(SZ + '_gbar', rs, N, nf, **kw), i), gb(r, N), rng)
            if arr:
                unchanged(V, ('r', rs))
        V.run(go)


for a_ in (False, True):
    for nt in (1, 2, 3, 5, None):
        non_darcy(a_, nt)


def series_contracts(V, nterms):
    """contracts of _g and _gbar (decided above): functions of radius, outer radius and exponent, with the number of terms handed on"""
    for nm, f in (('_g', 'g'), ('_gbar', 'gb')):
        def model(I, fn, a, kw, f=f):
            r, N, nf, nt = take(a, kw, ['r_rw', 're_rw', 'nflow', 'nterms'], {'nflow': num(Fraction(10001, 10000)), 'nterms': 20})
            V.check('number of terms handed on', ip.conc(nt) == nterms)
            return nplib.elementwise(I, lambda r, N, nf: G(f, r, N, nf), [r, N, nf], 'f')
        V.I.contracts[SZ + nm] = model


def G(f, r, N, nf):
    return app(f, *[num(t.args[0], 'R') if t.op == 'num' else t for t in (r, N, nf)])


def annulus(a, b, n, nf, start):
    """integral of 2 r (start + g(r) - g(a)) over a..b"""
    return add(mul(TWO, sub(G('gb', b, n, nf), G('gb', a, n, nf))), mul(sub(start, G('g', a, n, nf)), sub(sq(b), sq(a))))


def rise(a, b, n, nf):
    return sub(G('g', b, n, nf), G('g', a, n, nf))


@suite.ob('non_darcy_beta_ideal', SZ + 'non_darcy_beta_ideal')
def beta_ideal(V):
    n, nf = V.real('n', lt(ONE, var('n'))), V.real('nf', lt(ONE, var('nf')))
    series_contracts(V, 7)

    def go():
        r = V.call(SZ + 'non_darcy_beta_ideal', n, nf, 7)
        V.eq('average of the pressure profile', value(r), div(annulus(ONE, n, n, nf, num(0)), sub(sq(n), ONE)))
    V.run(go)


@suite.ob('non_darcy_beta_constant', SZ + 'non_darcy_beta_constant')
def beta_constant(V):
    n, s, kap, nf = [V.real(t) for t in ('n', 's', 'kap', 'nf')]
    V.requires(lt(ONE, n), lt(ONE, nf), le(ONE, s), le(s, n), le(ONE, kap))
    series_contracts(V, 7)

    def go():
        r = V.call(SZ + 'non_darcy_beta_constant', n, s, kap, nf, 7)
        q = power(kap, div(ONE, nf))
        want = add(mul(q, annulus(ONE, s, n, nf, num(0))), annulus(s, n, n, nf, mul(q, rise(ONE, s, n, nf))))
        V.eq('average of the pressure profile', value(r), div(want, sub(sq(n), ONE)))
    V.run(go)


def beta_piecewise(with_n):
    fn = SZ + 'non_darcy_beta_piecewise_constant'

    @suite.ob('non_darcy_beta_piecewise_constant[%s]' % (with_n or 's, kap'), fn)
    def f(V):
        s, kap, kw, S, K, N, n = steps(V, with_n, 'constant')
        nf = V.real('nf', lt(ONE, var('nf')))
        series_contracts(V, 7)
        prev = lambda i: ite(eq(i, num(0)), ONE, S(sub(i, ONE)))
        V.F.pointwise('kap', V.int('L', 1), lambda i: pos(app('kap', i)))

        def go():
            i, j = fresh('i', 'I'), fresh('j', 'I')
            q = lambda i: power(K(i), div(ONE, nf))
            start = lambda i: bsum(j, i, mul(q(j), rise(prev(j), S(j), n, nf)))
            r = V.call(fn, s, kap, nflow=nf, nterms=7, **kw)
            flow = lambda i: mul(q(i), rise(prev(i), S(i), n, nf))
            own = lambda i: mul(q(i), annulus(prev(i), S(i), n, nf, num(0)))
            want = bsum(i, N, add(own(i), mul(start(i), sub(sq(S(i)), sq(prev(i))))))
            V.eq('average of the pressure profile', ip.lift(r), div(want, sub(sq(n), ONE)))
            unchanged(V, ('s', s), ('kap', kap))
        V.run(go)


def u_piecewise(with_n):
    fn = SZ + 'non_darcy_u_piecewise_constant'

    @suite.ob('non_darcy_u_piecewise_constant[%s]' % (with_n or 's, kap'), fn)
    def f(V):
        s, kap, kw, S, K, N, n = steps(V, with_n, 'constant')
        nf = V.real('nf', lt(ONE, var('nf')))
        uavg, uw, muw = [V.real(t) for t in ('uavg', 'uw', 'muw')]
        V.requires(le(num(0), muw), pos(var('beta')))
        series_contracts(V, 7)
        prev = lambda i: ite(eq(i, num(0)), ONE, S(sub(i, ONE)))
        M = V.int('M', 1)
        V.F.pointwise('ri', M, lambda i: land(le(ONE, app('ri', i)), le(app('ri', i), n)))
        si = V.arr('ri', M)
        (m,), rng = V.idx(M)
        r = app('ri', m)

        def beta_contract(I, fn, a, kw):
            ss, kk, nn, km, nfl, nt = take(a, kw, ['s', 'kap', 'n', 'kap_m', 'nflow', 'nterms'], {'n': None, 'kap_m': None, 'nflow': None, 'nterms': 20})
            V.check('profile, exponent and terms handed on', nn is None and km is None and nfl is not None and ip.conc(nt) == 7)
            V.eq('exponent', ip.lift(nfl), nf)
            V.length('segments (radii)', ss.dims[0], N)
            V.length('segments (ratios)', kk.dims[0], N)
            (q,), rq = V.idx(N)
            V.eq('radii', ss.at(q), S(q), rq)
            V.eq('ratios', kk.at(q), K(q), rq)
            return var('beta')
        V.I.contracts[SZ + 'non_darcy_beta_piecewise_constant'] = beta_contract

        def go():
            u = V.call(fn, s, kap, si, uavg, uw, muw, nflow=nf, nterms=7, **kw)
            V.length('one value per radius', u.dims[0], M)
            i = V.idx(N)[0][0]
            j = fresh('j', 'I')
            q = lambda i: power(K(i), div(ONE, nf))
            head = add(bsum(j, i, mul(q(j), rise(prev(j), S(j), n, nf))), mul(q(i), rise(prev(i), r, n, nf)))
            V.eq('pore pressure', u.at(m), add(uw, mul(div(sub(uavg, uw), add(var('beta'), muw)), add(muw, head))),
                 rng + [le(num(0), i), lt(i, N), lt(prev(i), r), le(r, S(i))])
            unchanged(V, ('s', s), ('kap', kap), ('ri', si))
        V.run(go)


for wn in (None, 'n', 'n, kap_m'):
    beta_piecewise(wn)
    u_piecewise(wn)


@suite.ob('non_darcy_drain_eta', SZ + 'non_darcy_drain_eta')
def nd_eta(V):
    re, iL, gamw, n, nf = [V.real(t, pos(var(t))) for t in ('re', 'iL', 'gamw', 'n', 'nf')]
    nplib.point_facts(V.I, 'bf', lambda r, *t: pos(r))
    V.I.contracts[SZ + 'non_darcy_beta_ideal'] = lambda I, f, a, kw: app('bf', *[ip.lift(x) for x in take(a, kw, ['n', 'nflow'], {})])

    def go():
        b = app('bf', n, nf)
        rw = div(re, n)
        e1 = sub(nf, ONE)
        want = div(TWO, mul(sq(re), power(b, nf), power(mul(rw, gamw), e1), nf, power(iL, e1)))
        stub = ip.Builtin(lambda *a, **kw: app('bf', *[ip.lift(x) for x in take(list(a), kw, ['n', 'nflow'], {})]), 'beta')
        V.eq('stated combination (name)', V.call(SZ + 'non_darcy_drain_eta', re, iL, gamw, 'non_darcy_beta_ideal', n, nflow=nf), want)
        V.eq('stated combination (function)', V.call(SZ + 'non_darcy_drain_eta', re, iL, gamw, stub, n, nflow=nf), want)
        V.eq('stated combination (n by keyword)', V.call(SZ + 'non_darcy_drain_eta', re, iL, gamw, stub, n=n, nflow=nf), want)
    V.run(go)
