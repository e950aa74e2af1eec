"""Specification of equal-strain radial consolidation around a drain (Darcian flow), written from the equations:
kap(r) = undisturbed / local permeability, 1 <= r <= n (radius over drain radius).

flow rate through radius r:   k(r) du/dr proportional to 1/r - r/n^2
resistance parameter          mu = n^2/(n^2-1) * int_1^n kap(r)/r (1 - r^2/n^2)^2 dr
pressure                      u(r) = uw + (uavg-uw)/(mu+muw) * (muw + int_1^r kap(x) (1/x - x/n^2) dx)
The integrals are given by primitives; every contract proves that the primitive's derivative is the integrand."""
from speclib import *

SZ = 'geotecha.consolidation.smear_zones.'
ONE, TWO = num(1), num(2)


def sq(t):
    return mul(t, t)


class Zone(object):
    """permeability ratio kap(r) = c / (A r + B) on a zone, primitives of the two integrands"""

    def __init__(self, n, c, A=None, B=None):
        self.n, self.c = n, c
        n2, n4 = sq(n), sq(sq(n))
        third = num(Fraction(1, 3))
        if A is None:                              # constant kap
            self.kap = lambda r: c
            self.W = lambda r: mul(c, add(sub(log(r), div(sq(r), n2)), div(sq(sq(r)), mul(num(4), n4))))
            self.H = lambda r: mul(c, sub(log(r), div(sq(r), mul(TWO, n2))))
        elif B is None:                            # permeability proportional to radius: kap = c / (A r)
            self.kap = lambda r: div(c, mul(A, r))
            self.W = lambda r: mul(div(c, A), add(neg(div(ONE, r)), neg(div(mul(TWO, r), n2)), div(mul(third, r, r, r), n4)))
            self.H = lambda r: mul(div(c, A), sub(neg(div(ONE, r)), div(r, n2)))
        else:
            self.kap = lambda r: div(c, add(mul(A, r), B))
            lg = lambda r: log(add(mul(A, r), B))
            self.W = lambda r: mul(c, add(div(sub(log(r), lg(r)), B),
                                          neg(mul(div(TWO, n2), sub(div(r, A), mul(div(B, sq(A)), lg(r))))),
                                          div(add(div(mul(third, r, r, r), A), neg(div(mul(B, r, r), mul(TWO, A, A))), div(mul(B, B, r), mul(A, A, A)),
                                                  neg(mul(div(mul(B, B, B), mul(A, A, A, A)), lg(r)))), n4)))
            self.H = lambda r: mul(c, sub(div(sub(log(r), lg(r)), B), div(sub(div(r, A), mul(div(B, sq(A)), lg(r))), n2)))


class ParabolicZone(object):
    """kap(r) = kap / ((kap-1) (A^2 - (B - C r)^2)) with kap = A^2/(A^2-1), the parabola from 1/kap at r = 1 to 1 at its vertex r = s"""

    def __init__(self, n, s, kap, A):
        n2 = sq(n)
        B = div(s, sub(s, ONE))
        C = div(ONE, sub(s, ONE))
        g = sq(A)
        self.A, self.B, self.C = A, B, C
        p, q = (lambda r: add(sub(A, B), mul(C, r))), (lambda r: sub(add(A, B), mul(C, r)))
        self.kap = lambda r: div(g, mul(p(r), q(r)))
        lp, lq = (lambda r: log(p(r))), (lambda r: log(q(r)))
        d = sub(sq(A), sq(B))
        A2 = mul(TWO, A)
        # int dr / (p q r), int r dr / (p q), int r^3 dr / (p q)
        I0 = lambda r: sub(div(log(r), d), add(div(lp(r), mul(A2, sub(A, B))), div(lq(r), mul(A2, add(A, B)))))
        I1 = lambda r: div(sub(neg(mul(sub(A, B), lp(r))), mul(add(A, B), lq(r))), mul(A2, sq(C)))
        k = lambda t: mul(t, t, t)
        I3 = lambda r: sub(neg(div(add(mul(k(sub(A, B)), lp(r)), mul(k(add(A, B)), lq(r))), mul(A2, sq(sq(C))))),
                           add(div(mul(r, r), mul(TWO, C, C)), div(mul(TWO, B, r), mul(C, C, C))))
        self.W = lambda r: mul(g, add(I0(r), neg(mul(div(TWO, n2), I1(r))), div(I3(r), sq(n2))))
        self.H = lambda r: mul(g, sub(I0(r), div(I1(r), n2)))


def primitives(V, z, n, name, lo=None, hi=None, pc=()):
    """the primitives are primitives"""
    r = fresh('r')
    c = list(pc) + [le(ONE if lo is None else lo, r), le(r, n if hi is None else hi)]
    w = sub(ONE, div(sq(r), sq(n)))
    V.eq('primitive of the resistance integrand (%s)' % name, D(z.W)(r), mul(div(z.kap(r), r), w, w), c)
    V.eq('primitive of the flow integrand (%s)' % name, D(z.H)(r), mul(z.kap(r), sub(div(ONE, r), div(r, sq(n)))), c)


def between(f, a, b):
    return sub(f(b), f(a))


def mu_of(n, total):
    return mul(div(sq(n), sub(sq(n), ONE)), total)


def far(a, b):
    """not within the tolerance of isclose(a, b)"""
    return lt(add(num(Fraction(1, 10 ** 8)), mul(num(Fraction(1, 10 ** 5)), tm.absT(b))), tm.absT(sub(a, b)))


class LinearSegments(object):
    """permeability linear in radius on each segment (s_{i-1}, s_i), kap = undisturbed / local permeability at the segment ends"""
    names = ('repeated radius', 'constant', 'proportional to radius', 'general')

    def __init__(self, n, S, K):
        self.n, self.S, self.K = n, S, K

    def case(self, i):
        """(conditions of the cases, zone of each case)"""
        S, K = self.S, self.K
        a, b, p, q = S(sub(i, ONE)), S(i), K(sub(i, ONE)), K(i)
        ratio, ext = div(p, q), div(b, a)
        # q <- kap at the end; local permeability relative to that at the start: A r + B
        A = div(sub(ratio, ONE), sub(b, a))
        B = div(sub(b, mul(ratio, a)), sub(b, a))
        return [eq(a, b), eq(p, q), eq(ratio, ext)], [Zone(self.n, p), Zone(self.n, p, div(ONE, a)), Zone(self.n, p, A, B)]

    def pick(self, i, f):
        (c0, c1, c2), (z1, z2, z3) = self.case(i)
        return ite(c0, num(0), ite(c1, f(z1), ite(c2, f(z2), f(z3))))

    def over(self, i, name):
        a, b = self.S(sub(i, ONE)), self.S(i)
        return self.pick(i, lambda z: between(getattr(z, name), a, b))


def segment_lemma(V):
    """the zone of each case of a linear segment has the stated ends and primitives"""
    n, a, b, p, q = [V.real(t) for t in ('n', 'ra', 'rb', 'kp', 'kq')]
    V.requires(lt(ONE, n), le(ONE, a), lt(a, b), le(b, n), pos(p), pos(q))
    for nm, j, p, c in (('constant', 0, q, []), ('proportional to radius', 1, div(mul(q, b), a), []), ('general', 2, p, [ne(p, q), ne(mul(p, a), mul(q, b))])):
        seg = LinearSegments(n, lambda i: a if i is num(0) else b, lambda i: p if i is num(0) else q)
        z = seg.case(ONE)[1][j]
        primitives(V, z, n, nm, lo=a, hi=b, pc=c)
        V.eq('ratio at the start (%s)' % nm, z.kap(a), p, c)
        V.eq('ratio at the end (%s)' % nm, z.kap(b), q, c)
        r = fresh('r')
        V.eq('permeability is linear (%s)' % nm, D(lambda r: div(ONE, z.kap(r)), 2)(r), num(0), c + [lt(a, r), lt(r, b)])


def exact_isclose(V):
    """precondition: values compared with numpy.isclose are equal or further apart than its tolerance, so isclose decides equality"""
    from dv import nplib
    V.trusted.add('precondition: values the code compares with numpy.isclose are equal or further apart than its tolerance')
    from fractions import Fraction
    real = V.I.libs['numpy'].d['isclose']
    def small(t, lim):
        # a tolerance no larger than numpy's default; any other one stays the predicate it is
        if t is None:
            return True
        t = nplib.lift(t)
        return t.op == 'num' and 0 <= t.args[0] <= lim
    def isclose(a, b, rtol=None, atol=None, **kw):
        if kw or not (small(rtol, Fraction(1, 10**5)) and small(atol, Fraction(1, 10**8))):
            return real.f(a, b, rtol, atol, **kw)
        return nplib.elementwise(V.I, eq, [a, b], 'b')
    V.I.libs['numpy'].d['isclose'] = ip.Builtin(isclose, 'np.isclose')


def cases(s, kap, linear=True):
    """equal or distinguishable"""
    c = [('no smear zone', [eq(s, ONE)]), ('no disturbance', [far(s, ONE), eq(kap, ONE)])]
    if not linear:
        return c + [('general', [far(s, ONE), far(kap, ONE)])]
    return c + [('ratio equals extent', [far(s, ONE), far(kap, ONE), eq(s, kap)]), ('general', [far(s, ONE), far(kap, ONE), far(s, kap), ne(s, kap)])]


def linear_zone(n, s, kap, equal):
    """permeability from 1/kap at r = 1 linearly to 1 at r = s"""
    if equal:
        return Zone(n, kap, ONE)
    return Zone(n, kap, div(sub(kap, ONE), sub(s, ONE)), div(sub(s, kap), sub(s, ONE)))


def steps(V, with_n, kind, form=None):
    """piecewise profile: s, kap arrays, optionally followed by n and kap_m"""
    L = V.int('L', 1 if kind == 'constant' else 2)
    s, kap = V.arr('s', L), V.arr('kap', L)
    V.F.pointwise('kap', L, lambda i: pos(app('kap', i)))
    kw = {}
    V.F.monotone('s', L, strict=kind == 'constant')
    V.F.pointwise('s', L, lambda i: (lt if kind == 'constant' else le)(ONE, app('s', i)))
    last = app('s', sub(L, ONE))
    S, K, N = (lambda i: app('s', i)), (lambda i: app('kap', i)), L
    V.requires(lt(ONE, last))
    if with_n:
        n = V.real('n')
        V.requires((lt if kind == 'constant' else le)(last, n))
        kw['n'] = n
        km = app('kap', sub(L, ONE))
        if with_n == 'n, kap_m':
            km = kw['kap_m'] = V.real('kap_m', pos(var('kap_m')))
        S, K, N = (lambda i: ite(eq(i, L), n, app('s', i))), (lambda i: ite(eq(i, L), km, app('kap', i))), add(L, ONE)
        last = n
    return s, kap, kw, S, K, N, last


def value(r, i=None):
    return ip.lift(r.at() if isinstance(r, Arr) and r.ndim == 0 else r.at(num(0) if i is None else i) if isinstance(r, Arr) else r)
