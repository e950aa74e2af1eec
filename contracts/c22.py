"""C22: soil water characteristic curves."""
from speclib import *
from dv import nplib

suite = Suite('C22')
suite.num = ['num_const']
suite.assumptions = ['precondition: positive suctions and shape parameters, reference suctions positive, residual content below saturated content',
                     'k_from_psi, kwrel_from_discrete_swcc: the normalising integral (a sum over the curve) is not zero']
M = 'geotecha.constitutive_models.swcc.'
MIL = num(1000000)
E1 = exp(num(1))


def method(V, m, name):
    return V.I.getattr(m, name)


def correction(psir, c):
    return (lambda p: sub(num(1), div(log(add(num(1), div(p, psir))), log(add(num(1), div(MIL, psir)))))) if c is None else (lambda p: c)


def fx_model(V, corr):
    a, n, m, ws, psir = [V.real(q) for q in ('a', 'n', 'm', 'ws', 'psir')]
    V.requires(*[pos(q) for q in (a, n, m, ws, psir)])
    c = V.real('corr', pos(var('corr'))) if corr else None
    C = correction(psir, c)
    w = lambda p: div(mul(C(p), ws), power(log(add(E1, power(div(p, a), n))), m))
    mk = lambda: V.call(M + 'SWCC_FredlundAndXing1994', a=a, n=n, m=m, ws=ws, psir=psir, correction=c)
    return mk, w, C, dict(ws=ws)


def pf_model(V, corr, psir_given=True):
    ws, a, b, wr, s1 = [V.real(q) for q in ('ws', 'a', 'b', 'wr', 's1')]
    V.requires(*[pos(q) for q in (ws, a, b)])
    V.requires(le(num(0), wr), le(num(0), s1), lt(wr, ws))
    if psir_given:
        psir = V.real('psir')
        V.requires(pos(psir))
    else:
        psir = power(mul(num(Fraction(27, 10)), a), div(num(1), b))
    c = V.real('corr', pos(var('corr'))) if corr else None
    C = correction(psir, c)
    w = lambda p: mul(C(p), add(div(mul(sub(sub(ws, mul(s1, div(log(p), log(num(10))))), wr), a), add(power(p, b), a)), wr))
    kw = dict(psir=psir) if psir_given else {}
    mk = lambda: V.call(M + 'SWCC_PhamAndFredlund2008', ws, a, b, wr, s1, correction=c, **kw)
    return mk, w, C, dict(ws=ws, psir=psir)


def curve(cls, model, corr, **kw):
    @suite.ob('%s[%s]' % (cls, ', '.join(['correction given' if corr else 'correction computed'] + ['%s=%s' % i for i in kw.items()])),
              M + cls + '.w_from_psi', M + cls + '.dw_dpsi')
    def f(V):
        mk, w, C, p = model(V, corr, **kw)

        def go():
            m = mk()
            for nm, arg, K in inputs(V, 'psi', pos):
                x = var('psi') if K is None else (lambda i: app('psis', i))
                f = lambda g: g(x) if K is None else (lambda i: g(x(i)))
                compare(V, 'water content', V.call(method(V, m, 'w_from_psi'), arg), K, f(w))
                compare(V, 'slope is the derivative', V.call(method(V, m, 'dw_dpsi'), arg), K, f(D(w)))
            if not corr:
                V.eq('dry at a suction of one million', ip.lift(V.call(method(V, m, 'w_from_psi'), MIL)), num(0))
            if cls.startswith('SWCC_F'):
                V.eq('saturated content at zero suction', div(mul(C(num(0)), p['ws']), power(log(E1), var('m'))), mul(p['ws'], C(num(0))))
                V.eq('saturated content: factor', C(num(0)), var('corr') if corr else num(1))
            if 'psir_given' in kw:
                V.eq('default residual suction', ip.lift(V.I.getattr(m, 'psir')), p['psir'])
        V.run(go)


for c in (False, True):
    curve('SWCC_FredlundAndXing1994', fx_model, c)
    curve('SWCC_PhamAndFredlund2008', pf_model, c)
    curve('SWCC_PhamAndFredlund2008', pf_model, c, psir_given=False)


def permeability(cls, model, corr):
    @suite.ob('%s.k_from_psi[%s]' % (cls, 'correction given' if corr else 'correction computed'), M + cls + '.k_from_psi')
    def f(V):
        mk, w, C, p = model(V, corr)
        K, n = V.int('K', 2), V.int('npts', 1)
        V.F.pointwise('psis', K, lambda i: pos(app('psis', i)))
        aev = V.real('aev', pos(var('aev')))
        W, DW = (lambda t: app('W', t)), (lambda t: app('DW', t))

        def fn(g):
            def model(I, f, args, kw):
                (x,) = args[1:] if len(args) == 2 else args
                x = nplib.toarr(I, x) if not ip.isnumber(x) else x
                if not isinstance(x, Arr):
                    return g(ip.lift(x))
                s = x.snap()
                return Arr(x.dims, lambda *i: g(ip.lift(s(*i))), 'f')
            return model
        V.I.contracts[M + cls + '.w_from_psi'] = fn(W)
        V.I.contracts[M + cls + '.dw_dpsi'] = fn(DW)
        top = log(MIL)
        # midpoint rule in log suction of (w - w(start)) * slope / suction
        def rule(lo, start):
            d = div(sub(top, log(lo)), n)
            j = fresh('j', 'I')
            y = exp(add(log(lo), mul(d, add(j, num(Fraction(1, 2))))))
            return mul(d, bsum(j, n, div(mul(sub(W(y), start), DW(y)), y)))
        den = rule(aev, p['ws'] if cls.startswith('SWCC_F') else W(aev))
        V.requires(ne(den, num(0)))

        def go():
            m = mk()
            k = V.call(method(V, m, 'k_from_psi'), V.arr('psis', K), aev=aev, npts=n)
            V.length('one value per suction', k.dims[0], K)
            (i,), rng = V.idx(K)
            x = app('psis', i)
            num_ = rule(x, W(x))
            V.eq('ratio of the integrals', k.at(i), div(num_, den), rng)
            if not cls.startswith('SWCC_F'):
                k1 = ip.lift(V.call(method(V, m, 'k_from_psi'), aev, aev=aev, npts=n))
                V.eq('one at the air entry value', k1, div(den, den))
            k1 = V.call(method(V, m, 'k_from_psi'), V.real('psi', pos(var('psi'))), aev=aev, npts=n)
            V.eq('scalar suction', ip.lift(k1), div(rule(var('psi'), W(var('psi'))), den))
        V.run(go)


def discrete(scalar):
    @suite.ob('kwrel_from_discrete_swcc[%s]' % ('scalar' if scalar else 'array'), M + 'kwrel_from_discrete_swcc')
    def f(V):
        N, K = V.int('N', 2), V.int('K', 2)
        ps = monotone_data(V, 'ps', N, strict=True)
        vw = V.arr('vw', N)
        V.F.pointwise('ps', N, lambda i: pos(app('ps', i)))
        end = app('ps', sub(N, num(1)))
        inside = lambda t: land(le(app('ps', num(0)), t), lt(t, end))
        if scalar:
            psi = V.real('psi')
            V.requires(inside(psi))
        else:
            psi = V.arr('psi', K)
            V.F.pointwise('psi', K, lambda i: inside(app('psi', i)))
        n1 = sub(N, num(1))
        x = lambda k: app('ps', k)
        nx = lambda f, k: f(add(k, num(1)))
        w = lambda k: app('vw', k)
        h = num(Fraction(1, 2))
        L10 = log(num(10))
        dl = lambda k: sub(div(log(nx(x, k)), L10), div(log(x(k)), L10))
        mid = lambda k: mul(x(k), power(num(10), mul(h, dl(k))))
        ybar = lambda k: mul(h, add(w(k), nx(w, k)))
        slope = lambda k: div(div(div(sub(nx(w, k), w(k)), dl(k)), L10), mid(k))
        term = lambda k, y0: div(mul(dl(k), mul(sub(ybar(k), y0), slope(k))), mid(k))
        k = fresh('k', 'I')
        den = bsum(k, n1, term(k, ybar(num(0))))
        V.requires(ne(den, num(0)))
        s = V.int('seg', 0)
        V.requires(lt(s, n1))

        def go():
            r = V.call(M + 'kwrel_from_discrete_swcc', psi, ps, vw)
            if scalar:
                got, t, rng = ip.lift(r), psi, []
            else:
                V.length('one value per suction', r.dims[0], K)
                (i,), rng = V.idx(K)
                got, t = r.at(i), app('psi', i)
            pc = rng + [le(x(s), t), lt(t, nx(x, s))]
            j = fresh('j', 'I')
            V.eq('remaining part of the integral from the interval of the suction on', got, div(bsum(j, n1, ite(le(s, j), term(j, ybar(s)), num(0))), den), pc)
            unchanged(V, ('ps', ps), ('vw', vw))
        V.run(go)


discrete(True)
discrete(False)
for c in (False, True):
    permeability('SWCC_FredlundAndXing1994', fx_model, c)
    permeability('SWCC_PhamAndFredlund2008', pf_model, c)


@suite.ob('karel_air_from_saturation', M + 'karel_air_from_saturation')
def air(V):
    q = V.real('q')
    V.requires(pos(q))
    S = V.real('S')
    V.requires(le(num(0), S), le(S, num(1)))

    def go():
        k = ip.lift(V.call(M + 'karel_air_from_saturation', S, qfit=q))
        one = num(1)
        V.eq('dry soil', ip.lift(V.call(M + 'karel_air_from_saturation', num(0), qfit=q)), one)
        V.eq('saturated soil', ip.lift(V.call(M + 'karel_air_from_saturation', num(1), qfit=q)), num(0))
        V.holds('between no flow and full flow', land(le(num(0), k), le(k, one)))
        V.eq('value', k, mul(power(sub(one, S), num(Fraction(1, 2))), power(sub(one, power(S, div(one, q))), mul(num(2), q))), [pos(S), lt(S, one)])
        T = V.real('T')
        k2 = ip.lift(V.call(M + 'karel_air_from_saturation', T, qfit=q))
        V.holds('decreases with saturation', le(k2, k), [pos(S), lt(S, T), lt(T, one)])
    V.run(go)
