"""C24: radial permeability and pore pressure profiles around a drain."""
from smearspec import *

suite = Suite('C24')
suite.num = ['num_smear']
suite.assumptions = ['precondition: n > 1, 1 <= s <= n (s < n for linear profiles), kap > 0 (kap > 1 for the parabolic profile); piecewise profiles have a first segment of positive width',
                     'values which the code treats as equal (numpy.isclose) are equal or not within that tolerance']


def radii(V, n):
    """array of radii, generic element"""
    M = V.int('M', 1)
    V.F.pointwise('ri', M, lambda i: land(le(ONE, app('ri', i)), le(app('ri', i), n)))
    (j,), rng = V.idx(M)
    return V.arr('ri', M), app('ri', j), rng, j, M


def zone_geometry(V, over=False, kap1=False, strict=False):
    n, s, kap = [V.real(t) for t in ('n', 's', 'kap')]
    V.requires(lt(ONE, n), le(ONE, s), pos(kap))
    if not over:
        V.requires((lt if strict else le)(s, n))
    if kap1:
        a = V.real('a')
        V.requires(lt(ONE, a), ne(mul(a, sub(s, ONE)), s))
        kap = div(sq(a), sub(sq(a), ONE))
        return n, s, kap, a
    return n, s, kap


def perm(V, r, M, j):
    V.check('array result', isinstance(r, Arr) and r.ndim == 1)
    V.length('one value per radius', r.dims[0], M)
    return r.at(j)


@suite.ob('k_linear', SZ + 'k_linear')
def k_linear(V):
    n, s, kap = zone_geometry(V)
    si, r, rng, j, M = radii(V, n)

    def go():
        k = perm(V, V.call(SZ + 'k_linear', n, s, kap, si), M, j)
        for nm, c in cases(s, kap):
            if nm == 'no smear zone':
                V.eq('permeability (%s)' % nm, k, ONE, rng + c)
                continue
            z = lambda r: div(add(ONE, mul(sub(kap, ONE), div(sub(r, ONE), sub(s, ONE)))), kap)
            V.eq('permeability in the smear zone (%s)' % nm, k, z(r), rng + c + [lt(r, s)])
            V.eq('undisturbed permeability (%s)' % nm, k, ONE, rng + c + [le(s, r)])
            V.eq('permeability at the drain (%s)' % nm, k, div(ONE, kap), rng + c + [eq(r, ONE), lt(ONE, s)])
            V.eq('continuous at the smear boundary (%s)' % nm, z(s), ONE, c)
        unchanged(V, ('ri', si))
    V.run(go)


@suite.ob('k_parabolic', SZ + 'k_parabolic')
def k_parabolic(V):
    n, s, kap, a = zone_geometry(V, kap1=True)
    si, r, rng, j, M = radii(V, n)

    def go():
        k = perm(V, V.call(SZ + 'k_parabolic', n, s, kap, si), M, j)
        for nm, c in cases(s, kap, False):
            if nm == 'no smear zone':
                V.eq('permeability (%s)' % nm, k, ONE, rng + c)
            if nm.startswith('no '):
                continue
            # 1 - (1 - 1/kap) ((s - r)/(s - 1))^2: value 1/kap at the drain, value 1 and zero slope at the smear boundary
            x = div(sub(s, r), sub(s, ONE))
            V.eq('permeability in the smear zone', k, sub(ONE, mul(sub(ONE, div(ONE, kap)), sq(x))), rng + c + [lt(r, s)])
            V.eq('undisturbed permeability', k, ONE, rng + c + [le(s, r)])
            z = ParabolicZone(n, s, kap, a)
            t = fresh('t')
            V.eq('profile used by the pressure and resistance formulas', div(ONE, z.kap(t)), sub(ONE, mul(sub(ONE, div(ONE, kap)), sq(div(sub(s, t), sub(s, ONE))))),
                 c + [le(ONE, t), le(t, s)])
        unchanged(V, ('ri', si))
    V.run(go)


@suite.ob('k_overlapping_linear', SZ + 'k_overlapping_linear')
def k_overlapping(V):
    n, s, kap = zone_geometry(V, over=True)
    V.requires(ne(n, s))
    si, r, rng, j, M = radii(V, n)

    def go():
        k = perm(V, V.call(SZ + 'k_overlapping_linear', n, s, kap, si), M, j)
        V.eq('no smear zone', k, ONE, rng + [eq(s, ONE)])
        V.eq('no disturbance', k, ONE, rng + [far(s, ONE), eq(kap, ONE)])
        c = rng + [far(s, ONE), far(kap, ONE)]
        sx = sub(mul(TWO, n), s)
        z = lambda r: div(add(ONE, mul(sub(kap, ONE), div(sub(r, ONE), sub(s, ONE)))), kap)
        V.eq('everything disturbed', k, div(ONE, kap), c + [lt(n, s), le(sx, ONE)])
        for nm, d in (('equal', [eq(s, kap)]), ('different', [far(s, kap), ne(s, kap)])):
            V.eq('zones do not overlap, smear zone (%s)' % nm, k, z(r), c + d + [lt(s, n), lt(r, s)])
        V.eq('zones do not overlap, undisturbed', k, ONE, c + [lt(s, n), le(s, r)])
        V.eq('zones overlap, inside', k, z(r), c + [lt(n, s), lt(ONE, sx), lt(r, sx)])
        V.eq('zones overlap, outside: constant from where the zones meet', k, z(sx), c + [lt(n, s), lt(ONE, sx), le(sx, r)])
        # the two drains are a distance 2 n apart: seen from the other drain, radius 2 n - r is linear too, and they agree at r = n
        unchanged(V, ('ri', si))
    V.run(go)


def drive(V):
    uavg, uw, muw = [V.real(t) for t in ('uavg', 'uw', 'muw')]
    V.requires(le(num(0), muw))
    return uavg, uw, muw


def resistance(V, name, params):
    """contract of the mu function (C23): a positive value"""
    from dv import nplib

    def model(I, fn, a, kw):
        t = take(a, kw, *params)
        return nplib.elementwise(I, lambda *x: app(name, *x), t, 'f')
    return model


def pressure(V, u, at, dr, mu, H, tag, conds):
    uavg, uw, muw = dr
    V.eq('pore pressure (%s)' % tag, u, add(uw, mul(div(sub(uavg, uw), add(mu, muw)), add(muw, H(at)))), conds)


@suite.ob('u_ideal', SZ + 'u_ideal')
def u_ideal(V):
    n = V.real('n', lt(ONE, var('n')))
    si, r, rng, j, M = radii(V, n)
    dr = drive(V)
    V.requires(pos(app('muI', n)))
    V.I.contracts[SZ + 'mu_ideal'] = resistance(V, 'muI', (['n'], {}))

    def go():
        z = Zone(n, ONE)
        primitives(V, z, n, 'undisturbed')
        u = perm(V, V.call(SZ + 'u_ideal', n, si, *dr), M, j)
        pressure(V, u, r, dr, app('muI', n), lambda r: between(z.H, ONE, r), 'ideal', rng)
        unchanged(V, ('ri', si))
    V.run(go)


def smear(name, zones, kap1=False, strict=False, linear=False):
    fn = SZ + 'u_' + name

    @suite.ob('u_' + name, fn)
    def f(V):
        if kap1:
            n, s, kap, a = zone_geometry(V, kap1=True)
        else:
            n, s, kap = zone_geometry(V, strict=strict)
            a = None
        si, r, rng, j, M = radii(V, n)
        dr = drive(V)
        V.requires(pos(app('muI', n)), pos(app('muS', n, s, kap)))
        V.I.contracts[SZ + 'mu_' + name] = resistance(V, 'muS', (['n', 's', 'kap'], {}))
        V.I.contracts[SZ + 'mu_ideal'] = resistance(V, 'muI', (['n'], {}))

        def go():
            u = perm(V, V.call(fn, n, s, kap, si, *dr), M, j)
            out = Zone(n, ONE)
            for nm, c in cases(s, kap, linear):
                c = rng + c
                if nm.startswith('no '):
                    if not kap1 or nm == 'no smear zone':
                        pressure(V, u, r, dr, app('muI', n), lambda r: between(out.H, ONE, r), nm, c)
                    continue
                z = zones(n, s, kap, nm, a)
                primitives(V, z, n, nm, hi=s, pc=c)
                pressure(V, u, r, dr, app('muS', n, s, kap), lambda r: between(z.H, ONE, r), nm + ', smear zone', c + [lt(r, s)])
                pressure(V, u, r, dr, app('muS', n, s, kap), lambda r: add(between(z.H, ONE, s), between(out.H, s, r)), nm + ', undisturbed zone', c + [le(s, r)])
            unchanged(V, ('ri', si))
        V.run(go)


smear('constant', lambda n, s, kap, nm, a: Zone(n, kap))
smear('linear', lambda n, s, kap, nm, a: linear_zone(n, s, kap, nm == 'ratio equals extent'), strict=True, linear=True)
smear('parabolic', lambda n, s, kap, nm, a: ParabolicZone(n, s, kap, a), kap1=True)


def piecewise(kind, with_n):
    fn = SZ + 'u_piecewise_' + kind
    mu = 'mu_piecewise_' + kind

    @suite.ob('u_piecewise_%s[%s]' % (kind, with_n or 's, kap'), fn)
    def f(V):
        s, kap, kw, S, K, N, n = steps(V, with_n, kind)
        if kind == 'linear':
            V.requires(eq(app('s', num(0)), ONE), lt(ONE, app('s', ONE)))
            exact_isclose(V)
        prev = (lambda i: ite(eq(i, num(0)), ONE, S(sub(i, ONE)))) if kind == 'constant' else (lambda i: S(sub(i, ONE)))
        dr = drive(V)
        M = V.int('M', 1)
        V.F.pointwise('ri', M, lambda i: land(le(ONE, app('ri', i)), le(app('ri', i), n)))
        si = V.arr('ri', M)
        (j,), rng = V.idx(M)
        r = app('ri', j)
        V.requires(pos(var('muP')))

        def mu_contract(I, fn, a, kw):
            """contract of the mu function (C23) on the combined profile: a positive value"""
            ss, kk = take(a, kw, ['s', 'kap'], {})
            V.length('segments handed to %s (radii)' % mu, ss.dims[0], N)
            V.length('segments handed to %s (ratios)' % mu, kk.dims[0], N)
            (q,), rq = V.idx(N)
            V.eq('radii handed to %s' % mu, ss.at(q), S(q), rq)
            V.eq('ratios handed to %s' % mu, kk.at(q), K(q), rq)
            return var('muP')
        V.I.contracts[SZ + mu] = mu_contract

        def go():
            u = perm(V, V.call(fn, s, kap, si, *dr, **kw), M, j)
            i = V.idx(N)[0][0]
            lo = num(0) if kind == 'constant' else ONE
            c = rng + [le(lo, i), lt(i, N), lt(prev(i), r), le(r, S(i))]
            k = fresh('k', 'I')
            if kind == 'constant':
                z = lambda i: Zone(n, K(i))
                inner = bsum(k, i, between(z(k).H, prev(k), S(k)))
                pressure(V, u, r, dr, var('muP'), lambda r: add(inner, between(z(i).H, prev(i), r)), 'segment i', c)
                pressure(V, u, r, dr, var('muP'), lambda r: num(0), 'at the drain', rng + [eq(r, ONE)])
            else:
                seg = LinearSegments(n, S, K)
                inner = bsum(k, sub(i, ONE), seg.over(add(k, ONE), 'H'))
                pressure(V, u, r, dr, var('muP'), lambda r: add(inner, seg.pick(i, lambda z: between(z.H, prev(i), r))), 'segment i', c)
                pressure(V, u, r, dr, var('muP'), lambda r: num(0), 'at the drain', rng + [eq(r, ONE), eq(app('s', num(0)), ONE)])
            unchanged(V, ('ri', si), ('s', s), ('kap', kap))
        V.run(go)


for wn in (None, 'n', 'n, kap_m'):
    piecewise('constant', wn)
    piecewise('linear', wn)


@suite.ob('linear segments')
def lemma(V):
    V.run(lambda: segment_lemma(V))


@suite.ob('area average')
def average(V):
    """pressure profile Phi(r) = int_1^r kap (1/x - x/n^2): its area average is the resistance integral mu. Zone by zone
    d/dr[(r^2 - n^2) Phi] = 2 r Phi - n^2 kap/r (1 - r^2/n^2)^2; the bracket vanishes at r = n and, with Phi, at r = 1, and is continuous."""
    n, c0, p, q, s, a = [V.real(t) for t in ('n', 'c0', 'kp', 'kq', 's', 'a')]
    V.requires(lt(ONE, n), pos(p), pos(q), lt(ONE, s), le(s, n), lt(ONE, a), ne(mul(a, sub(s, ONE)), s))
    r = fresh('r')

    def go():
        zones = [('constant', Zone(n, q), []), ('proportional', Zone(n, q, div(ONE, s)), []),
                 ('linear', Zone(n, p, div(sub(div(p, q), ONE), sub(s, ONE)), div(sub(s, div(p, q)), sub(s, ONE))), [ne(p, q), ne(p, mul(q, s)), le(r, s)]),
                 ('parabolic', ParabolicZone(n, s, None, a), [le(r, s)])]
        for nm, z, c in zones:
            phi = lambda r: add(c0, between(z.H, ONE, r))
            w = sub(ONE, div(sq(r), sq(n)))
            V.eq('average and resistance (%s)' % nm, D(lambda r: mul(sub(sq(r), sq(n)), phi(r)))(r),
                 sub(mul(TWO, r, phi(r)), mul(sq(n), div(z.kap(r), r), w, w)), c + [le(ONE, r), le(r, n)])
    V.run(go)
