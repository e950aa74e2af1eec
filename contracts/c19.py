"""C19: void ratio / effective stress relations."""
from speclib import *

suite = Suite('C19')
suite.num = ['num_const']
suite.assumptions = ['precondition: stresses and compression indices positive, recompression not steeper than compression',
                     'piecewise data: stress and void ratio strictly monotonic in opposite directions, at least two points']
M = 'geotecha.constitutive_models.void_ratio_stress.'
L10 = log(num(10))
log10 = lambda t: div(log(t), L10)


def method(V, m, name):
    return V.I.getattr(m, name)


@suite.ob('AvSoilModel', *[M + 'AvSoilModel.' + f for f in ('e_from_stress', 'stress_from_e', 'av_from_stress')])
def av(V):
    a, sa, ea = V.real('av'), V.real('siga'), V.real('ea')
    V.requires(pos(a))

    def go():
        m = V.call(M + 'AvSoilModel', av=a, siga=sa, ea=ea)
        for nm, arg, K in inputs(V, 's'):
            x = var('s') if K is None else (lambda i: app('ss', i))
            e = V.call(method(V, m, 'e_from_stress'), arg)
            f = lambda t: sub(ea, mul(a, sub(t, sa)))
            compare(V, 'line through (siga, ea) with slope -av', e, K, f(x) if K is None else (lambda i: f(x(i))))
            compare(V, 'stress -> e -> stress', V.call(method(V, m, 'stress_from_e'), e), K, x)
        for nm, arg, K in inputs(V, 'e'):
            x = var('e') if K is None else (lambda i: app('es', i))
            s = V.call(method(V, m, 'stress_from_e'), arg)
            compare(V, 'e -> stress -> e', V.call(method(V, m, 'e_from_stress'), s), K, x)
        t = V.real('t')
        V.eq('compressibility', ip.lift(V.call(method(V, m, 'av_from_stress'), t)), neg(D(lambda z: sub(ea, mul(a, sub(z, sa))))(t)))
    V.run(go)


def cccr_case(path, arr):
    @suite.ob('CcCrSoilModel[%s,%s]' % (path, 'arrays' if arr else 'scalars'),
              *[M + 'CcCrSoilModel.' + f for f in ('e_from_stress', 'stress_from_e', 'av_from_stress')])
    def f(V):
        Cc, Cr, sa, ea = V.real('Cc'), V.real('Cr'), V.real('siga'), V.real('ea')
        V.requires(pos(Cr), le(Cr, Cc), pos(sa))
        if arr:
            K = V.int('K', 1)
            s, p, e0 = V.arr('s', K), V.arr('p', K), V.arr('e0', K)
            (i,), rng = V.idx(K)
            for nm in 'sp':
                V.F.pointwise(nm, K, lambda i, nm=nm: pos(app(nm, i)))
            S, P, E0 = app('s', i), app('p', i), app('e0', i)
            at = lambda r: r.at(i)
        else:
            s, p, e0, rng = V.real('s', pos(var('s'))), V.real('p', pos(var('p'))), V.real('e0'), []
            S, P, E0 = s, p, e0
            at = lambda r: ip.lift(r.at() if isinstance(r, Arr) else r)
        kw = {} if path == 'virgin' else {'pstress': p}
        virgin = lambda z: sub(ea, mul(Cc, log10(div(z, sa))))
        reload = lambda z: add(virgin(P), mul(Cr, log10(div(P, z))))
        cases = [('', virgin, [])] if path == 'virgin' else [(' beyond the past maximum', virgin, [lt(P, S)]), (' at the past maximum', virgin, [eq(P, S)]),
                                                             (' below the past maximum', reload, [lt(S, P)])]

        def go():
            m = V.call(M + 'CcCrSoilModel', Cc=Cc, Cr=Cr, siga=sa, ea=ea)
            e = V.call(method(V, m, 'e_from_stress'), s, **kw)
            back = V.call(method(V, m, 'stress_from_e'), e, **kw)
            a = V.call(method(V, m, 'av_from_stress'), s, **kw)
            for nm, g, c in cases:
                V.eq('void ratio' + nm, at(e), g(S), rng + c)
                V.eq('stress -> e -> stress' + nm, at(back), S, rng + c)
                if 'at the' not in nm:
                    V.eq('compressibility' + nm, at(a), neg(D(g)(S)), rng + c)
            t = V.call(method(V, m, 'stress_from_e'), e0, **kw)
            e2 = at(V.call(method(V, m, 'e_from_stress'), t, **kw))
            ep = virgin(P)
            for nm, c in [('', [])] if path == 'virgin' else [(' (equal indices)', [eq(Cr, Cc)]), (' (compression)', [lt(Cr, Cc), lt(E0, ep)]),
                                                              (' (at the past maximum)', [lt(Cr, Cc), eq(E0, ep)]), (' (recompression)', [lt(Cr, Cc), lt(ep, E0)])]:
                V.eq('e -> stress -> e' + nm, e2, E0, rng + c)
        V.run(go)


for path in ('virgin', 'with past maximum'):
    for arr in (False, True):
        cccr_case(path, arr)


def on_segment(d, k, v, up):
    a, b = app(d, k), app(d, add(k, num(1)))
    lo, hi = (a, b) if up else (b, a)
    return [(' (inside a segment)', [lt(lo, v), lt(v, hi)]), (' (at its start)', [eq(v, a)]), (' (at its end)', [eq(v, b)])]


def pwise(xlog, ylog, up, part):
    @suite.ob('PwiseLinearSoilModel[%s,%s,%s]: %s' % ('log stress' if xlog else 'stress', 'log e' if ylog else 'e', 'stress ascending' if up else 'stress descending', part),
              *[M + 'PwiseLinearSoilModel.' + f for f in ('e_from_stress', 'stress_from_e', 'av_from_stress')])
    def f(V):
        N, K = V.int('N', 2), V.int('K', 1)
        xd, yd = monotone_data(V, 'siga', N, up, strict=True), monotone_data(V, 'ea', N, not up, strict=True)
        for nm in ('siga', 'ea'):
            V.F.pointwise(nm, N, lambda i, nm=nm: pos(app(nm, i)))
        Cr = V.real('Cr')
        V.requires(pos(Cr))
        zlo = app('siga', num(0) if up else sub(N, num(1)))
        zhi = app('siga', sub(N, num(1)) if up else num(0))
        V.F.pointwise('z', K, lambda i: land(lt(zlo, app('z', i)), le(app('z', i), zhi)))
        V.F.pointwise('q', K, lambda i: land(pos(app('q', i)), le(app('q', i), zhi)))
        z, q = V.arr('z', K), V.arr('q', K)
        for a, d, asc in (('s', 'siga', up), ('p', 'siga', up), ('e', 'ea', not up)):
            ends = [app(d, num(0)), app(d, sub(N, num(1)))]
            lo, hi = ends if asc else ends[::-1]
            V.F.pointwise(a, K, lambda i, a=a, lo=lo, hi=hi: land(le(lo, app(a, i)), le(app(a, i), hi)))
        s, p, e = V.arr('s', K), V.arr('p', K), V.arr('e', K)
        fx, fy = (log if xlog else lambda t: t), (log if ylog else lambda t: t)
        ux, uy = (exp if xlog else lambda t: t), (exp if ylog else lambda t: t)

        def go():
            m = V.call(M + 'PwiseLinearSoilModel', xd, yd, Cr, xlog=xlog, ylog=ylog)
            (i,), rng = V.idx(K)
            (g,), grng = V.idx(sub(N, num(1)))
            (h,), hrng = V.idx(sub(N, num(1)))
            S, P, E = app('s', i), app('p', i), app('e', i)
            scale = num(1) if xlog == ylog else (div(num(1), L10) if xlog else L10)
            # Cr is the recompression slope in the plane of (log10) stress and (log10) void ratio
            crs = mul(Cr, scale)
            virgin = lambda v: line('siga', 'ea', fx, fy, g, v)
            below = lambda v: add(virgin(P), mul(crs, sub(fx(P), fx(v))))
            if part == 'without past maximum':
                r = V.call(method(V, m, 'e_from_stress'), s)
                two_way(V, 'stress -> e', fy(r.at(i)), S, 'siga', 'ea', g, fx, fy, up, rng + grng)
                r = V.call(method(V, m, 'stress_from_e'), e)
                two_way(V, 'e -> stress', fx(r.at(i)), E, 'ea', 'siga', g, fy, fx, not up, rng + grng)
            elif part == 'past maximum':
                r = V.call(method(V, m, 'e_from_stress'), s, pstress=p)
                for nm, c in on_segment('siga', g, S, up):
                    V.eq('stress -> e beyond the past maximum' + nm, fy(r.at(i)), virgin(S), rng + grng + [lt(P, S)] + c)
                    V.eq('stress -> e at the past maximum' + nm, fy(r.at(i)), virgin(S), rng + grng + [eq(P, S)] + c)
                for nm, c in on_segment('siga', g, P, up):
                    V.eq('stress -> e below the past maximum' + nm, fy(r.at(i)), below(S), rng + grng + [lt(S, P)] + c)
            elif part == 'inverse with past maximum':
                # with a past maximum: the smaller of the two changes of stress, on the compression line (the result without
                # past maximum, specified above) and on the recompression line through the past maximum
                t, ep = V.call(method(V, m, 'stress_from_e'), e).at(i), V.call(method(V, m, 'e_from_stress'), p).at(i)
                r = V.call(method(V, m, 'stress_from_e'), e, pstress=p)
                V.eq('e -> stress: smaller change of stress', fx(r.at(i)), add(fx(P), tm.mint(sub(fx(t), fx(P)), div(sub(fy(ep), fy(E)), crs))), rng)
            else:
                # slope (stress above the first point of the data)
                Z, Q = app('z', i), app('q', i)
                inside = lambda v: on_segment('siga', g, v, up)[0][1]
                below = lambda v: add(virgin(Q), mul(crs, sub(fx(Q), fx(v))))
                a = V.call(method(V, m, 'av_from_stress'), z)
                V.eq('compressibility', a.at(i), neg(D(lambda t: uy(virgin(t)))(Z)), rng + grng + inside(Z))
                a = V.call(method(V, m, 'av_from_stress'), z, pstress=q)
                V.eq('compressibility beyond the past maximum', a.at(i), neg(D(lambda t: uy(virgin(t)))(Z)), rng + grng + inside(Z) + [lt(Q, Z)])
                V.eq('compressibility below the past maximum', a.at(i), neg(D(lambda t: uy(below(t)))(Z)), rng + grng + inside(Q) + [lt(Z, Q)])
            unchanged(V, ('siga', xd), ('ea', yd), ('s', s), ('p', p), ('e', e), ('z', z), ('q', q))
        V.run(go)


@suite.ob('PwiseLinearSoilModel: the two directions undo each other on both paths')
def lemmas(V):
    """over the postconditions above: X, P, t in segments a, b, c of a compression line whose points
    are nowhere flatter than the recompression slope"""
    c = V.real('c')
    V.requires(pos(c))

    def go():
        X, P, t, xa, xa1, xb, xb1, ya, ya1, yb, yb1, xc, xc1, yc, yc1 = [fresh(q) for q in 'X P t xa xa1 xb xb1 ya ya1 yb yb1 xc xc1 yc yc1'.split()]
        ln = lambda x0, x1, y0, y1, v: add(y0, mul(div(sub(y1, y0), sub(x1, x0)), sub(v, x0)))
        seg = lambda x0, x1, y0, y1, v: [lt(x0, x1), le(x0, v), le(v, x1), lt(y1, y0), le(mul(c, sub(x1, x0)), sub(y0, y1))]
        La, Lb = ln(xa, xa1, ya, ya1, X), ln(xb, xb1, yb, yb1, P)
        steep = le(mul(c, sub(P, X)), sub(La, Lb))
        V.holds('segment not flatter than recompression', le(mul(c, sub(xa1, X)), sub(La, ya1)), seg(xa, xa1, ya, ya1, X))
        V.holds('segment not flatter than recompression (end)', le(mul(c, sub(P, xb)), sub(yb, Lb)), seg(xb, xb1, yb, yb1, P))
        V.holds('different segments', le(mul(c, sub(P, X)), add(sub(V.real('La'), ya1), sub(ya1, yb), sub(yb, V.real('Lb')))),
                [le(mul(c, sub(xa1, X)), sub(V.real('La'), ya1)), le(mul(c, sub(P, xb)), sub(yb, V.real('Lb'))), le(mul(c, sub(xb, xa1)), sub(ya1, yb))])
        V.holds('same segment', le(mul(c, sub(P, X)), sub(La, ln(xa, xa1, ya, ya1, P))), seg(xa, xa1, ya, ya1, X) + [le(P, xa1), le(X, P)])
        sl = V.real('slope')
        V.holds('inverse is decreasing (same segment)', le(X, t), [lt(sl, num(0)), le(add(ya, mul(sl, sub(t, xa))), add(ya, mul(sl, sub(X, xa))))])
        V.holds('inverse is decreasing (different segments)', le(xa1, t), [lt(xc, xc1), lt(yc1, yc), lt(xa, xa1), le(xa1, xc), le(xc, t)])
        LX, LP = V.real('La'), V.real('Lb')
        e = add(LP, mul(c, sub(P, X)))
        V.eq('recompression round trip', add(P, tm.mint(sub(t, P), div(sub(LP, e), c))), X, [le(X, t)])
        V.eq('compression round trip', add(P, tm.mint(sub(X, P), div(sub(LP, LX), c))), X, [le(P, X), le(mul(c, sub(X, P)), sub(LP, LX))])
    V.run(go)


for part in ('inverse with past maximum', 'past maximum', 'without past maximum', 'compressibility'):
    for xl, yl, u in ((True, True, True), (True, False, True), (False, True, True), (False, False, True), (False, False, False)):
        pwise(xl, yl, u, part)


PAIRS = [('e0', 'estress0'), ('e0', 'pstress0'), ('e0', 't0'), ('estress0', 'pstress0'), ('estress0', 't0'), ('pstress0', 't0')]
YG = M + 'YinAndGrahamSoilModel.'


def yg_par(V):
    lam, kap, psi, sa, ea, ta = [V.real(q) for q in ('lam', 'kap', 'psi', 'siga', 'ea', 'ta')]
    V.requires(pos(kap), lt(kap, lam), pos(psi), pos(sa), pos(ta))
    return lam, kap, psi, sa, ea, ta, dict(lam=lam, kap=kap, psi=psi, siga=sa, ea=ea, ta=ta)


def yg_state(pair, arr):
    @suite.ob('YinAndGrahamSoilModel: initial state from %s, %s [%s]' % (pair + ('arrays' if arr else 'scalars',)), YG + '__init__', YG + 'initial_conditions')
    def f(V):
        lam, kap, psi, sa, ea, ta, par = yg_par(V)
        n = V.int('K', 1)
        given, at = {}, {}
        for nm in pair:
            v = V.arr(nm, n) if arr else V.real(nm)
            if nm != 'e0':
                if arr:
                    V.F.pointwise(nm, n, lambda i, nm=nm: pos(app(nm, i)))
                else:
                    V.requires(pos(v))
            given[nm] = v

        def go():
            m = V.call(M + 'YinAndGrahamSoilModel', **par, **given)
            rng = []
            if arr:
                (i,), rng = V.idx(n)
            val = lambda nm: (V.I.getattr(m, nm).at(i) if arr else ip.lift(V.I.getattr(m, nm)))
            e, s, p, t = val('e0'), val('estress0'), val('pstress0'), val('t0')
            for nm in pair:
                V.eq('keeps the given ' + nm, val(nm), app(nm, i) if arr else given[nm], rng)
            V.eq('void ratio of the state', e, add(sub(ea, mul(lam, log(div(p, sa)))), mul(kap, log(div(p, s)))), rng)
            V.eq('age of the state (logarithms)', log(div(t, ta)), mul(div(sub(lam, kap), psi), log(div(p, s))), rng)
            if arr:
                unchanged(V, *[(k, given[k]) for k in pair])
        V.run(go)


for pr in PAIRS:
    for arr in (False, True):
        yg_state(pr, arr)


def yg_inc(arr):
    @suite.ob('YinAndGrahamSoilModel: creep increment [%s]' % ('arrays' if arr else 'scalars'), YG + '_inc_from_stress')
    def f(V):
        lam, kap, psi, sa, ea, ta, par = yg_par(V)
        n = V.int('K', 1)
        nms = ('s0', 'p0', 'a', 'b')
        if arr:
            for nm in nms:
                V.F.pointwise(nm, n, lambda i, nm=nm: pos(app(nm, i)))
            V.F.pointwise('a', n, lambda i: ne(app('a', i), app('b', i)))
        vs = [V.arr(nm, n) if arr else V.real(nm, pos(var(nm))) for nm in nms]
        s0, p0, a, b = vs
        if not arr:
            V.requires(ne(a, b))
        d = V.real('d', le(num(0), var('d')))

        def go():
            m = V.call(M + 'YinAndGrahamSoilModel', **par, estress0=s0, pstress0=p0)
            V.I.setitem(V.I.getattr(m, '_estress'), slice(None), a)
            rng = []
            if arr:
                (i,), rng = V.idx(n)
            S0, P0, A, B = [app(nm, i) if arr else var(nm) for nm in nms]
            al = div(sub(lam, kap), psi)
            T0 = mul(power(div(P0, S0), al), ta)
            r = V.call(method(V, m, '_inc_from_stress'), b, d)
            # integral over a step d of (stress / initial stress)^alpha / t0, stress changing linearly from A to B
            F = lambda s: div(power(div(s, S0), add(al, num(1))), add(al, num(1)))
            V.eq('integral of the creep rate over the step', r.at(i if arr else num(0)), div(mul(d, S0, sub(F(B), F(A))), mul(T0, sub(B, A))), rng)
            t = V.real('t', pos(var('t')))
            V.eq('primitive of the creep rate', D(lambda s: mul(S0, F(s)))(t), power(div(t, S0), al), rng)
            # the increment is never negative: the primitive grows with stress
            V.holds('primitive grows (loading)', lt(F(A), F(B)), rng + [lt(A, B)])
            V.holds('primitive grows (unloading)', lt(F(B), F(A)), rng + [lt(B, A)])
            x, y, q = [V.real(k) for k in 'xyq']
            for nm, c in (('loading', [pos(x), pos(y)]), ('unloading', [lt(x, num(0)), lt(y, num(0))])):
                V.holds('not negative (%s)' % nm, le(num(0), div(mul(d, S0, x), mul(q, y))), rng + c + [pos(q)])
            V.check('stored', V.I.getattr(m, '_inc') is r)
            if arr:
                unchanged(V, ('s0', s0), ('p0', p0), ('b', b))
        V.run(go)


def yg_step(arr):
    @suite.ob('YinAndGrahamSoilModel: two stress steps [%s]' % ('arrays' if arr else 'scalars'), YG + 'e_from_stress', YG + 'av_from_stress')
    def f(V):
        lam, kap, psi, sa, ea, ta, par = yg_par(V)
        n = V.int('K', 1)
        nms = ('s0', 'p0', 's1', 's2')
        if arr:
            for nm in nms:
                V.F.pointwise(nm, n, lambda i, nm=nm: pos(app(nm, i)))
        s0, p0, s1, s2 = [V.arr(nm, n) if arr else V.real(nm, pos(var(nm))) for nm in nms]
        # contract of _inc_from_stress: a creep increment that is not negative, for the step between the stored and the given stress
        for k in ('inc1', 'inc2'):
            V.F.pointwise(k, n if arr else num(1), lambda i, k=k: le(num(0), app(k, i)))
        d1, d2, rate = V.real('d1'), V.real('d2'), V.real('rate', pos(var('rate')))
        steps = []

        def inc(I, fn, args, kw):
            m, to, dt = take(args, kw, ['self', 'estress', 'dt'], {})
            cur = V.I.getattr(m, '_estress').snap()
            steps.append((cur, to, dt))
            V.I.setitem(V.I.getattr(m, '_inc'), slice(None), V.arr('inc%d' % len(steps), n if arr else num(1)))
            return V.I.getattr(m, '_inc')
        V.I.contracts[YG + '_inc_from_stress'] = inc

        def go():
            del steps[:]
            m = V.call(M + 'YinAndGrahamSoilModel', **par, estress0=s0, pstress0=p0)
            rng, i = [], num(0)
            if arr:
                (i,), rng = V.idx(n)
            S0, P0, S1, S2 = [app(nm, i) if arr else var(nm) for nm in nms]
            al = div(sub(lam, kap), psi)
            T0 = mul(power(div(P0, S0), al), ta)
            E0 = add(sub(ea, mul(lam, log(div(P0, sa)))), mul(kap, log(div(P0, S0))))
            e1 = V.call(method(V, m, 'e_from_stress'), s1, dt=d1)
            e1 = e1.at(i)
            e2 = V.call(method(V, m, 'e_from_stress'), s2, dt=d2).at(i)
            a2 = V.call(method(V, m, 'av_from_stress'), s2, estressdot=rate)
            V.check('one creep increment per step', len(steps) == 2)
            for (cur, to, dt), (c0, t0, d0) in zip(steps, ((S0, s1, d1), (S1, s2, d2))):
                V.eq('the step starts at the last stress', cur(i), c0, rng)
                V.check('the step ends at the stress given', to is t0)
                V.eq('length of the step', ip.lift(dt), d0)
            tot = app('inc1', i)
            V.eq('void ratio after one step', e1, sub(sub(E0, mul(kap, log(div(S1, S0)))), mul(psi, log(add(num(1), tot)))), rng)
            tot = add(tot, app('inc2', i))
            V.eq('void ratio after two steps', e2, sub(sub(E0, mul(kap, log(div(S2, S0)))), mul(psi, log(add(num(1), tot)))), rng)
            V.eq('compressibility', a2.at(i), add(div(kap, S2), div(mul(psi, power(div(S2, S0), al)), mul(T0, rate, add(num(1), tot)))), rng)
            a2 = V.call(method(V, m, 'av_from_stress'), s2)
            V.eq('compressibility without creep', a2.at(i) if arr else ip.lift(a2), div(kap, S2), rng)
            if arr:
                unchanged(V, *zip(nms, (s0, p0, s1, s2)))
        V.run(go)


for arr in (False, True):
    yg_inc(arr)
    yg_step(arr)
