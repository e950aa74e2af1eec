"""C26: plane, area, centroid and second moments of area of planar polygons.

A planar polygon in any position: vertex i is P + u_i e + v_i f with e, f orthonormal.
Its signed area, first and second moments in the plane are the boundary integrals (Green)
over the N edges, the last edge joining the last vertex to the first.
"""
from speclib import *

suite = Suite('C26')
suite.num = ["num_geom"]
suite.assumptions = ["Green's theorem: integrals over a polygon are the stated integrals along its edges",
                     'precondition: the polygon is planar and its area is not zero; each component of the unit normal is 0 or above 1e-6 (the code takes smaller ones, down to rounding errors, for 0)',
                     'second moments are per unit area, as the existing tests of the library fix them']
G = 'geotecha.mathematics.geometry.'
u, v = fn_of('u'), fn_of('v')
half, two, Z, one = num(Fraction(1, 2)), num(2), num(0), num(1)
AX = 'xyz'
tiny = num(Fraction(1, 10**6))


def dot3(a, b):
    return tm.addn([mul(p, q) for p, q in zip(a, b)]) if hasattr(tm, 'addn') else add(add(mul(a[0], b[0]), mul(a[1], b[1])), mul(a[2], b[2]))


class Polygon(object):
    def __init__(self, V, flat=False):
        self.V = V
        self.N = N = V.int('N', 3)
        if flat:
            self.P = (Z, Z, Z)
            self.e, self.f = (one, Z, Z), (Z, one, Z)
            self.m = (Z, Z, one)
        else:
            self.P = tuple(V.real('P' + c) for c in AX)
            self.e = tuple(V.real('e' + c) for c in AX)
            self.f = tuple(V.real('f' + c) for c in AX)
            self.m = tuple(V.real('m' + c) for c in AX)      # e x f
        V.arr('u', N)
        V.arr('v', N)
        # the closed sequence of vertices: position N is vertex 0 again
        self.cl = lambda g: (lambda i: ite(eq(i, N), g(Z), g(i)))
        self.nxt = lambda g: (lambda i: ite(eq(i, sub(N, one)), g(Z), g(add(i, one))))

    def coord(self, k, U, W):
        return add(self.P[k], add(mul(U, self.e[k]), mul(W, self.f[k])))

    def pts(self, cols=3):
        return Arr([plain(self.N), plain(num(cols))],
                   lambda i, j: nplib.pick([self.coord(k, u(i), v(i)) for k in range(cols)], j), 'f')

    def loop(self, P, Q):
        """sum over edges of the integral of P du + Q dv"""
        i = fresh('i', 'I')
        a, b, c, d = [fresh(q) for q in 'abcd']
        t = fresh('t')
        U = lambda t: add(a, mul(t, sub(c, a)))
        W = lambda t: add(b, mul(t, sub(d, b)))
        f = calc.integral(lambda t: add(mul(P(U(t), W(t)), sub(c, a)), mul(Q(U(t), W(t)), sub(d, b))), Z, one)
        return bsum(i, self.N, tm.subst(f, {a: u(i), b: v(i), c: self.nxt(u)(i), d: self.nxt(v)(i)}))

    def exact(self, g):
        """the same for the exact form dg (sum of differences, zero: telescoping lemma)"""
        i = fresh('i', 'I')
        return bsum(i, self.N, sub(g(self.nxt(u)(i), self.nxt(v)(i)), g(u(i), v(i))))

    def potential(self, P, Q):
        """g with dg = P du + Q dv for a closed polynomial form"""
        a, b = fresh('a'), fresh('b')
        g = calc.integral(lambda t: add(mul(P(mul(t, a), mul(t, b)), a), mul(Q(mul(t, a), mul(t, b)), b)), Z, one)
        return lambda U, W: tm.subst(g, {a: U, b: W})


from dv import nplib
zero = lambda U, W: Z


@suite.ob('lemma: differences along a closed polygon add up to zero')
def telescoping(V):
    """S(0) = 0, S(k+1) = S(k) + g(k+1) - g(k)  =>  S(k) = g(k) - g(0); with g(N) = g(0): S(N) = 0"""
    N = V.int('N', 1)
    g, S = fn_of('g'), fn_of('S')
    V.requires(eq(S(Z), Z))
    V.requires(eq(g(N), g(Z)))
    V.forall(N, lambda k: eq(S(add(k, one)), sub(add(S(k), g(add(k, one))), g(k))))
    V.induct('partial sums', add(N, one), lambda k: eq(S(k), sub(g(k), g(Z))))
    V.holds('sum along the closed polygon', eq(S(N), Z))


def area(p):
    return p.loop(zero, lambda U, W: U)


def moment(p, a, b):
    """integral of u^a v^b over the polygon"""
    return p.loop(zero, lambda U, W: mul(div(power(U, num(a + 1)), num(a + 1)), power(W, num(b)) if b else one))


def mk_plane(flat):
    @suite.ob('eqn_of_plane' + (' (two columns)' if flat else ''), G + 'eqn_of_plane', G + 'xyz_from_pts')
    def f(V):
        p = Polygon(V, flat)
        A = area(p)
        if not flat:
            V.requires(*ortho(p))
        # |2 A (e x f)| = 2 |A|
        q = var('anyA')
        vec_ = [mul(two, mul(q, cross(p, k))) for k in range(3)]
        V.eq('lemma: squared length of the area vector (4 A^2 for orthonormal e, f)', dot3(vec_, vec_),
             mul(mul(num(4), mul(q, q)), sub(mul(dot3(p.e, p.e), dot3(p.f, p.f)), power(dot3(p.e, p.f), num(2)))))
        M = V.real('M', lt(Z, var('M')))        # 2 |A|

        def norm(a):
            V.check('norm of the area vector', isinstance(a, Arr) and a.ndim == 1)
            for k in range(3):
                V.eq('vector handed to the norm, component %d' % k, a.at(num(k)), newell(p, k, A))
            return M
        V.I.libs['numpy'].d['linalg'].d['norm'] = ip.Builtin(norm, 'norm')

        def go():
            n, d = V.call(G + 'eqn_of_plane', p.pts(2 if flat else 3))
            V.check('normal has three components', isinstance(n, Arr) and n.ndim == 1 and n.dims[0].size is num(3))
            for k in range(3):
                V.eq('unit normal times twice the area, %s' % AX[k], mul(M, n.at(num(k))), newell(p, k, A))
            # any average of the vertices: N times the offset
            q = fresh('q', 'I')
            mean = [div(bsum(q, p.N, p.coord(k, u(q), v(q))), p.N) for k in range(3)]
            nn = [ip.lift(n.at(num(k))) for k in range(3)]
            V.eq('offset: the mean of the vertices lies in the plane', add(dot3(mean, nn), d), Z)
        V.run(go)


def cross(p, k):
    j, l = (k + 1) % 3, (k + 2) % 3
    return sub(mul(p.e[j], p.f[l]), mul(p.e[l], p.f[j]))


def ortho(p):
    return [eq(dot3(p.e, p.e), one), eq(dot3(p.f, p.f), one), eq(dot3(p.e, p.f), Z)]


def newell(p, k, A):
    """2 A (e x f)_k plus a sum of differences"""
    j, l = (k + 1) % 3, (k + 2) % 3
    # -2 x_l dx_j  =  2 (e x f)_k u dv + dg
    c = cross(p, k)
    P = lambda U, W: mul(num(-2), mul(p.coord(l, U, W), p.e[j]))
    Q = lambda U, W: sub(mul(num(-2), mul(p.coord(l, U, W), p.f[j])), mul(two, mul(c, U)))
    return add(mul(two, mul(c, A)), p.exact(p.potential(P, Q)))


mk_plane(True)
mk_plane(False)


def normal(V, p, flat):
    """unit normal, the contract of eqn_of_plane: n = s (e x f) with s = 1 or -1, through P"""
    if flat:
        s = V.real('s')
        V.requires(lor(eq(s, one), eq(s, num(-1))))
        n = [Z, Z, s]
    else:
        n = [V.real('n' + c) for c in AX]
        V.requires(lor(*[lnot(eq(x, Z)) for x in n]))
    # a component is 0 or well above rounding errors (smaller ones count as 0)
    V.requires(*[lor(eq(x, Z), lt(x, neg(tiny)), lt(tiny, x)) for x in n if x is not Z])
    d = neg(dot3(n, p.P))
    V.I.contracts[G + 'eqn_of_plane'] = lambda I, f, a, k: (vec(n), d)
    return n


def vec(xs):
    return Arr([plain(num(len(xs)))], lambda i: nplib.pick(list(xs), i), 'f')


def form(p, k, tgt, P, Q):
    """(e x f)_k times the loop integral tgt, plus the differences making it the integral of P du + Q dv"""
    c = cross(p, k)
    TP, TQ = tgt
    g = p.potential(lambda U, W: sub(P(U, W), mul(c, TP(U, W))), lambda U, W: sub(Q(U, W), mul(c, TQ(U, W))))
    return add(mul(c, p.loop(TP, TQ)), p.exact(g))


def edge_form(p, k, h):
    """integrate h(x_j, x_l) dx_l along the edges, (j, l) the axes after k"""
    j, l = (k + 1) % 3, (k + 2) % 3
    H = lambda U, W: h(p.coord(j, U, W), p.coord(l, U, W))
    return lambda U, W: mul(H(U, W), p.e[l]), lambda U, W: mul(H(U, W), p.f[l])


def mk_area(flat):
    @suite.ob('polygon_area' + (' (two columns)' if flat else ''), G + 'polygon_area', G + 'xyz_from_pts')
    def f(V):
        p = Polygon(V, flat)
        n = normal(V, p, flat)

        def go():
            R = ip.lift(V.call(G + 'polygon_area', p.pts(2 if flat else 3)))
            ks = [k for k in range(3) if V.I.facts.entails(V.I.pc, lnot(eq(n[k], Z)))]
            V.check('a component of the normal that is not zero', bool(ks))
            some(V, 'area times the component of the normal', ks, lambda k: mul(R, n[k]), lambda k: form(
                p, k, (zero, lambda U, W: U), *edge_form(p, k, lambda X, Y: X)))
        V.run(go)


def some(V, label, ks, lhs, rhs):
    """the identity for one of the axes"""
    for k in ks:
        try:
            return V.eq(label + ' (axis %s)' % AX[k], lhs(k), rhs(k))
        except Fail:
            if k == ks[-1]:
                raise


mk_area(True)
mk_area(False)


@suite.ob('lemma: area, coordinates and moments from the component identities')
def component_lemma(V):
    s, m, n, A, R, a, J = [V.real(q) for q in ('s', 'm', 'n', 'A', 'R', 'a', 'J')]
    V.requires(lor(eq(s, one), eq(s, num(-1))), lnot(eq(n, Z)), lnot(eq(A, Z)), eq(n, mul(s, m)))
    for t, sgn in ((one, 'positive'), (num(-1), 'negative')):
        V.I.pc.append(eq(s, t))
        V.eq('area: R n = m A gives R = s A, %s' % sgn, sub(div(mul(m, A), mul(t, m)), mul(t, A)), Z)
        V.eq('coordinate: x n a = m J with a = s A gives x = J / A, %s' % sgn,
             sub(div(mul(m, J), mul(mul(t, m), mul(t, A))), div(J, A)), Z)
        V.I.pc.pop()


def sides(V, n):
    """which components of the normal vanish (all cases)"""
    return [V.I.decide(eq(x, Z)) for x in n]


@suite.ob('lemma: a plane normal to an axis has no component along it')
def axis_lemma(V):
    """e, f, m = e x f orthonormal: e_k^2 + f_k^2 + m_k^2 = 1 (rows of an orthogonal matrix); m_k = +-1 leaves e_k = f_k = 0"""
    e, f, m = V.real('e'), V.real('f'), V.real('m')
    V.requires(eq(tm.add(mul(e, e), mul(f, f), mul(m, m)), one), eq(mul(m, m), one))
    V.holds('e_k = 0', eq(e, Z))
    V.holds('f_k = 0', eq(f, Z))


def mk_centroid(flat):
    @suite.ob('polygon_centroid' + (' (two columns)' if flat else ''), G + 'polygon_centroid', G + 'xyz_from_pts')
    def f(V):
        p = Polygon(V, flat)
        n = normal(V, p, flat)
        a = V.real('a')
        V.requires(lnot(eq(a, Z)))
        V.I.contracts[G + 'polygon_area'] = lambda I, f, b, k: a

        def go():
            z = sides(V, n)
            R = V.call(G + 'polygon_centroid', p.pts(2 if flat else 3))
            V.check('three coordinates', isinstance(R, Arr) and R.ndim == 1 and R.dims[0].size is num(3))
            for c in range(3):
                x = ip.lift(R.at(num(c)))
                ks = [k for k in range(3) if k != c and not z[k]]
                if not ks:      # the normal is the axis c: x_c = P_c at every vertex
                    V.eq('%s of a plane %s = const' % (AX[c], AX[c]), x, mul(p.P[c], power(n[c], two)))
                    continue
                some(V, '%s times component of normal and area' % AX[c], ks, lambda k: tm.mul(x, n[k], a), lambda k: form(
                    p, k, (zero, lambda U, W: add(mul(p.P[c], U), mul(p.e[c], div(power(U, two), two)), tm.mul(p.f[c], U, W))),
                    *edge_form(p, k, (lambda X, Y: div(mul(X, X), two)) if c == (k + 1) % 3 else (lambda X, Y: mul(X, Y)))))
        V.run(go)


mk_centroid(True)
mk_centroid(False)


def mk_moment(flat):
    @suite.ob('polygon_2nd_moment_of_area' + (' (two columns)' if flat else ''), G + 'polygon_2nd_moment_of_area', G + 'xyz_from_pts')
    def f(V):
        p = Polygon(V, flat)
        n = normal(V, p, flat)
        a = V.real('a')
        C = [V.real('c' + q) for q in AX]
        V.requires(lnot(eq(a, Z)))
        V.I.contracts[G + 'polygon_area'] = lambda I, f, b, k: a
        V.I.contracts[G + 'polygon_centroid'] = lambda I, f, b, k: vec(C)

        def go():
            z = sides(V, n)
            R = V.call(G + 'polygon_2nd_moment_of_area', p.pts(2 if flat else 3))
            V.check('three moments', isinstance(R, Arr) and R.ndim == 1 and R.dims[0].size is num(3))
            for c in range(3):
                x = ip.lift(R.at(num(c)))
                ks = [k for k in range(3) if k != c and not z[k]]
                if not ks:
                    V.eq('no spread along %s of a plane %s = const' % (AX[c], AX[c]), x, Z)
                    continue
                q, e, f = sub(p.P[c], C[c]), p.e[c], p.f[c]
                # integral of (q + e U + f W)^2 dU
                tgt = lambda U, W: tm.add(mul(power(add(q, mul(f, W)), two), U), tm.mul(e, add(q, mul(f, W)), power(U, two)),
                                          div(mul(power(e, two), power(U, num(3))), num(3)))
                some(V, '%s spread times component of normal and area' % AX[c], ks, lambda k: tm.mul(x, n[k], a), lambda k: form(
                    p, k, (zero, tgt),
                    *edge_form(p, k, (lambda X, Y: div(add(power(sub(X, C[c]), num(3)), power(C[c], num(3))), num(3))) if c == (k + 1) % 3
                               else (lambda X, Y: mul(X, power(sub(Y, C[c]), two))))))
        V.run(go)


mk_moment(True)
mk_moment(False)


def mk_xyz(flat, closed):
    @suite.ob('xyz_from_pts (%s columns%s)' % (2 if flat else 3, ', closed' if closed else ''), G + 'xyz_from_pts')
    def f(V):
        N, c = V.int('N', 1), 2 if flat else 3
        P = Arr([plain(N), plain(num(c))], lambda i, j: app('pt', i, j), 'f')

        def go():
            r = V.call(G + 'xyz_from_pts', P, **({'close_polygon': True} if closed else {}))
            V.check('three coordinates', isinstance(r, tuple) and len(r) == 3 and all(isinstance(a, Arr) and a.ndim == 1 for a in r))
            M = add(N, num(1)) if closed else N
            for k, a in enumerate(r):
                V.length(AX[k], a.dims[0], M)
                (i,), rng = V.idx(N)
                V.eq(AX[k], a.at(i), Z if k >= c else app('pt', i, num(k)), rng)
                if closed:
                    V.eq(AX[k] + ' of the first point at the end', a.at(N), Z if k >= c else app('pt', Z, num(k)))
        V.run(go)


for flat_ in (True, False):
    for closed_ in (True, False):
        mk_xyz(flat_, closed_)
