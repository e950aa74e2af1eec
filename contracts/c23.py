"""C23: drain resistance parameters of smear-zone profiles."""
from smearspec import *

suite = Suite('C23')
suite.num = ['num_smear']
suite.assumptions = ['precondition: n > 1, 1 <= s <= n (s < n for the linear profile), kap > 0 (kap > 1 for the parabolic profile, and its parabola not vanishing at the axis)',
                     'values which the code treats as equal (numpy.isclose) are equal or not within that tolerance: inside the tolerance the special formula is an approximation']


@suite.ob('mu_ideal', SZ + 'mu_ideal')
def ideal(V):
    n = V.real('n', lt(ONE, var('n')))
    K = V.int('K', 1)
    V.F.pointwise('ns', K, lambda i: lt(ONE, app('ns', i)))
    ns = V.arr('ns', K)

    def go():
        z = Zone(n, ONE)
        primitives(V, z, n, 'undisturbed')
        f = lambda n: mu_of(n, between(Zone(n, ONE).W, ONE, n))
        V.eq('resistance integral (scalar)', value(V.call(SZ + 'mu_ideal', n)), f(n))
        compare(V, 'resistance integral', V.call(SZ + 'mu_ideal', ns), K, lambda i: f(app('ns', i)))
        unchanged(V, ('ns', ns))
    V.run(go)


def geometry(V, arr, strict=False, over=False, kap1=False):
    """n, s, kap as scalars or arrays; generic element and range"""
    names = ('n', 's', 'kap')
    conds = lambda n, s, kap: [lt(ONE, n), le(ONE, s)] + ([] if over else [(lt if strict else le)(s, n)]) + [lt(ONE, kap) if kap1 else pos(kap)]
    if arr:
        K = V.int('K', 1)
        for nm in names:
            V.F.pointwise(nm, K, lambda i: land(*conds(*[app(x, i) for x in names])))
        (i,), rng = V.idx(K)
        return [V.arr(nm, K) for nm in names], [app(x, i) for x in names], rng, i
    vs = [V.real(nm) for nm in names]
    V.requires(*conds(*vs))
    return vs, vs, [], None


def shape(V, r, arr):
    if arr:
        V.check('array result', isinstance(r, Arr) and r.ndim == 1)
        V.length('one value per geometry', r.dims[0], var('K', 'I') if False else V.int('K', 1))


def constant(arr):
    @suite.ob('mu_constant[%s]' % ('arrays' if arr else 'scalars'), SZ + 'mu_constant')
    def f(V):
        args, (n, s, kap), rng, i = geometry(V, arr)

        def go():
            a, b = Zone(n, kap), Zone(n, ONE)
            primitives(V, a, n, 'smear zone', hi=s, pc=rng)
            primitives(V, b, n, 'undisturbed', pc=rng)
            want = mu_of(n, add(between(a.W, ONE, s), between(b.W, s, n)))
            V.eq('resistance integral', value(V.call(SZ + 'mu_constant', *args), i), want, rng)
        V.run(go)


def linear_mu(n, s, kap, nm):
    if nm.startswith('no '):
        return mu_of(n, between(Zone(n, ONE).W, ONE, n))
    return mu_of(n, add(between(linear_zone(n, s, kap, nm == 'ratio equals extent').W, ONE, s), between(Zone(n, ONE).W, s, n)))


def linear(arr):
    @suite.ob('mu_linear[%s]' % ('arrays' if arr else 'scalars'), SZ + 'mu_linear')
    def f(V):
        args, (n, s, kap), rng, i = geometry(V, arr, strict=True)

        def go():
            r = V.call(SZ + 'mu_linear', *args)
            for nm, c in cases(s, kap):
                if not nm.startswith('no '):
                    z = linear_zone(n, s, kap, nm == 'ratio equals extent')
                    primitives(V, z, n, nm, hi=s, pc=rng + c)
                    V.eq('ratio at the drain (%s)' % nm, z.kap(ONE), kap, rng + c)
                    V.eq('ratio at the edge (%s)' % nm, z.kap(s), ONE, rng + c)
                V.eq('resistance integral (%s)' % nm, value(r, i), linear_mu(n, s, kap, nm), rng + c)
        V.run(go)


def overlapping(arr):
    @suite.ob('mu_overlapping_linear[%s]' % ('arrays' if arr else 'scalars'), SZ + 'mu_overlapping_linear')
    def f(V):
        args, (n, s, kap), rng, i = geometry(V, arr, over=True)
        if arr:
            V.F.pointwise('n', args[0].dims[0].length(), lambda j: ne(app('n', j), app('s', j)))
        else:
            V.requires(ne(n, s))

        def linear_contract(I, fn, a, kw):
            """contract of mu_linear (decided above), elementwise in its three arguments"""
            return elementwise3(V, 'muL', *take(a, kw, ['n', 's', 'kap'], {}))
        V.I.contracts[SZ + 'mu_linear'] = linear_contract

        def go():
            r = V.call(SZ + 'mu_overlapping_linear', *args)
            got = value(r, i)
            muL = lambda *a: app('muL', *a)
            ideal = mu_of(n, between(Zone(n, ONE).W, ONE, n))
            sx = sub(mul(TWO, n), s)
            # permeability ratio where the two zones meet, linear in radius
            k = lambda r: div(add(ONE, mul(sub(kap, ONE), div(sub(r, ONE), sub(s, ONE)))), kap)
            far_ = [far(s, ONE), far(kap, ONE)]
            V.eq('no smear zone', got, ideal, rng + [eq(s, ONE)])
            V.eq('no disturbance', got, ideal, rng + [far(s, ONE), eq(kap, ONE)])
            V.eq('zones do not overlap', got, muL(n, s, kap), rng + far_ + [lt(s, n)])
            V.eq('everything disturbed', got, mul(kap, ideal), rng + far_ + [lt(n, s), le(sx, ONE)])
            # between r = sx and r = n the permeability is constant: in units of that permeability the profile is a linear one
            kx = k(sx)
            kapx = add(ONE, mul(sub(kap, ONE), div(sub(sx, ONE), sub(s, ONE))))
            V.eq('ratio of outer and drain permeability', mul(kap, kx), kapx, rng + far_ + [lt(n, s), lt(ONE, sx)])
            V.eq('zones overlap', got, mul(muL(n, sx, kapx), div(kap, kapx)), rng + far_ + [lt(n, s), lt(ONE, sx)])
            t = fresh('t')
            V.eq('profile of the overlapping zones in units of the outer permeability', div(k(t), kx),
                 div(add(ONE, mul(sub(mul(kap, kx), ONE), div(sub(t, ONE), sub(sx, ONE)))), mul(kap, kx)), rng + far_ + [lt(n, s), lt(ONE, sx), le(ONE, t), le(t, sx)])
        V.run(go)


def elementwise3(V, name, n, s, kap):
    from dv import nplib
    return nplib.elementwise(V.I, lambda a, b, c: app(name, a, b, c), [n, s, kap], 'f')


def parabolic_geometry(V, arr):
    """as geometry, with kap = a^2/(a^2-1) for some a > 1 (every kap > 1 is of that form)"""
    f = lambda a: div(sq(a), sub(sq(a), ONE))
    # the parabola does not vanish at the axis r = 0
    cond = lambda n, s, a: land(lt(ONE, n), le(ONE, s), le(s, n), lt(ONE, a), ne(mul(a, sub(s, ONE)), s))
    kap = fresh('k')
    V.eq('parametrisation', f(sqrt(div(kap, sub(kap, ONE)))), kap, [lt(ONE, kap)])
    V.holds('parametrisation: range', lt(ONE, sqrt(div(kap, sub(kap, ONE)))), [lt(ONE, kap)])
    if arr:
        K = V.int('K', 1)
        for nm in 'nsa':
            V.F.pointwise(nm, K, lambda i: cond(*[app(x, i) for x in 'nsa']))
        (i,), rng = V.idx(K)
        n, s, a = [app(x, i) for x in 'nsa']
        k = V.arr('a', K)
        return [V.arr('n', K), V.arr('s', K), Arr(k.dims, lambda i: f(app('a', i)), 'f')], (n, s, f(a)), rng, i, a
    n, s, a = [V.real(x) for x in 'nsa']
    V.requires(cond(n, s, a))
    return [n, s, f(a)], (n, s, f(a)), [], None, a


def parabolic(arr):
    @suite.ob('mu_parabolic[%s]' % ('arrays' if arr else 'scalars'), SZ + 'mu_parabolic')
    def f(V):
        args, (n, s, kap), rng, i, a = parabolic_geometry(V, arr)

        def go():
            r = V.call(SZ + 'mu_parabolic', *args)
            for nm, c in cases(s, kap, False):
                if nm.startswith('no '):
                    if nm == 'no smear zone':
                        V.eq('resistance integral (%s)' % nm, value(r, i), linear_mu(n, s, kap, nm), rng + c)
                    continue
                z = ParabolicZone(n, s, kap, a)
                primitives(V, z, n, nm, hi=s, pc=rng + c)
                V.eq('ratio at the drain', z.kap(ONE), kap, rng + c)
                V.eq('ratio at the edge', z.kap(s), ONE, rng + c)
                V.eq('edge is the vertex', D(lambda r: div(ONE, z.kap(r)))(s), num(0), rng + c)
                V.eq('resistance integral (%s)' % nm, value(r, i), mu_of(n, add(between(z.W, ONE, s), between(Zone(n, ONE).W, s, n))), rng + c)
        V.run(go)


for a in (False, True):
    constant(a)
    linear(a)
    overlapping(a)
    parabolic(a)


def abel(V, first, N, own, flow, w):
    """sum_i [own_i + (w_i - w_{i-1}) sum_{j<i} flow_j] = sum_i [own_i + (w_end - w_i) flow_i], i = first..N-1, by induction over the number of
    terms; w_{i-1} of the first term is free because its inner sum is empty"""
    i, j = fresh('i', 'I'), fresh('j', 'I')
    one = ONE
    P = lambda m: bsum(j, sub(m, first), flow(add(j, first)))
    T = lambda m: bsum(i, sub(m, first), add(own(add(i, first)), mul(sub(w(add(i, first)), w(sub(add(i, first), one))), P(add(i, first)))))
    R = lambda m: add(bsum(i, sub(m, first), sub(own(add(i, first)), mul(w(add(i, first)), flow(add(i, first))))), mul(w(sub(m, one)), P(m)))
    f1 = add(first, one)
    V.eq('summation by parts (base)', T(f1), R(f1))
    (k,), rng = V.idx(sub(N, one))
    rng = rng + [le(first, k)]
    k1, k2 = add(k, one), add(k, num(2))
    V.eq('summation by parts (step)', sub(T(k2), T(k1)), sub(R(k2), R(k1)), rng)
    return T(N), R(N)


def piecewise_constant(with_n):
    @suite.ob('mu_piecewise_constant[%s]' % (with_n or 's, kap'), SZ + 'mu_piecewise_constant')
    def f(V):
        s, kap, kw, S, K, N, n = steps(V, with_n, 'constant')
        prev = lambda i: ite(eq(i, num(0)), ONE, S(sub(i, ONE)))

        def go():
            z = lambda i: Zone(n, K(i))
            r = V.call(SZ + 'mu_piecewise_constant', s, kap, **kw)
            # in terms of the flow integrals H and the part of the pressure integral inside each segment
            w = lambda i: ite(lt(i, num(0)), div(ONE, sq(n)), div(sq(S(i)), sq(n)))
            flow = lambda i: between(z(i).H, prev(i), S(i))
            own = lambda i: sub(between(z(i).W, prev(i), S(i)), mul(sub(ONE, w(i)), flow(i)))
            T, R = abel(V, num(0), N, own, flow, w)
            V.eq('pressure integral', ip.lift(r), mu_of(n, T))
            i = fresh('i', 'I')
            V.eq('resistance integral', mu_of(n, R), mu_of(n, bsum(i, N, between(z(i).W, prev(i), S(i)))))
            unchanged(V, ('s', s), ('kap', kap))
        V.run(go)


for wn in (None, 'n', 'n, kap_m'):
    piecewise_constant(wn)


def piecewise_linear(with_n):
    @suite.ob('mu_piecewise_linear[%s]' % (with_n or 's, kap'), SZ + 'mu_piecewise_linear')
    def f(V):
        s, kap, kw, S, K, N, n = steps(V, with_n, 'linear')
        V.requires(eq(app('s', num(0)), ONE))
        seg = LinearSegments(n, S, K)
        exact_isclose(V)

        def go():
            r = V.call(SZ + 'mu_piecewise_linear', s, kap, **kw)
            w = lambda i: div(sq(S(i)), sq(n))
            flow = lambda i: seg.over(i, 'H')
            own = lambda i: sub(seg.over(i, 'W'), mul(sub(ONE, w(i)), flow(i)))
            T, R = abel(V, ONE, N, own, flow, w)
            V.eq('pressure integral', ip.lift(r), mu_of(n, T))
            i = fresh('i', 'I')
            V.eq('resistance integral', mu_of(n, R), mu_of(n, bsum(i, sub(N, ONE), seg.over(add(i, ONE), 'W'))))
            unchanged(V, ('s', s), ('kap', kap))
        V.run(go)


for wn in (None, 'n', 'n, kap_m'):
    piecewise_linear(wn)


@suite.ob('linear segments')
def lemma(V):
    V.run(lambda: segment_lemma(V))
