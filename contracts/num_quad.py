"""Run-time evaluation of the quadrature contracts (C27)."""
from fractions import Fraction
import numpy as np
from dv.numh import check, close, main
import geotecha.mathematics.quadrature as qd

GL = list(range(2, 21)) + [32, 64, 100]
GK = [7, 10, 15, 20, 25, 30]


def legendre(n):
    """Gauss-Legendre nodes and weights from the recurrence (Newton iteration), independent of the tables"""
    x = np.cos(np.pi * (np.arange(n, 0, -1) - 0.25) / (n + 0.5))
    for _ in range(100):
        p0, p1 = np.ones(n), x
        for k in range(2, n + 1):
            p0, p1 = p1, ((2 * k - 1) * x * p1 - (k - 1) * p0) / k
        dp = n * (x * p1 - p0) / (x * x - 1)
        x = x - p1 / dp
    return x, 2 / ((1 - x * x) * dp * dp)


def tables(rng, k):
    return {'n': (GL + GK)[k % len(GL + GK)], 'kronrod': k % len(GL + GK) >= len(GL)}


@check('C27', 'tables integrate monomials', tables)
def moments(n, kronrod):
    if kronrod:
        x, w1, w2 = qd.gauss_kronrod_abscissae_and_weights(n)
        rules = [(x, w1, 2 * n - 1), (x, w2, 3 * n + 1 + n % 2)]
        if len(x) != 2 * n + 1 or np.count_nonzero(w1) != n:
            return 'number of points'
    else:
        x, w = qd.gauss_legendre_abscissae_and_weights(n)
        rules = [(x, w, 2 * n - 1)]
        if len(x) != n or len(w) != n:
            return 'number of points'
        gx, gw = legendre(n)
        r = close(x, gx, 1e-12, 1e-13) or close(w, gw, 1e-11, 1e-13)
        if r:
            return r
    for x, w, deg in rules:
        fx, p = [Fraction(float(a)) for a in x], [Fraction(float(b)) for b in w]
        if not all(-1 < a < 1 for a in fx):
            return 'node outside the interval'
        for k in range(deg + 1):
            want = Fraction(2, k + 1) if k % 2 == 0 else 0
            if abs(sum(p) - want) > Fraction(1, 10 ** 15):
                return 'integral of x**%d is off by %g' % (k, float(sum(p) - want))
            p = [Fraction(int(round(a * b * 2 ** 120)), 2 ** 120) for a, b in zip(p, fx)]


@check('C27', 'unknown orders are refused', lambda rng, k: {'n': rng.choice([-1, 0, 1, 8, 21, 22, 31, 33, 63, 65, 99, 101, 200, 26, 40])})
def unknown(n):
    for f, ok in ((qd.gauss_legendre_abscissae_and_weights, GL), (qd.gauss_kronrod_abscissae_and_weights, GK)):
        try:
            f(n)
            if n not in ok:
                return '%s accepted %d' % (f.__name__, n)
        except ValueError:
            if n in ok:
                return '%s refused %d' % (f.__name__, n)


def rule(rng, k):
    kron = rng.random() < 0.5
    n = rng.choice(GK if kron else GL)
    m = rng.randint(0, 4)
    edge = sorted(rng.uniform(-2, 3) for _ in range(m + 1))
    one = m == 0
    if one:
        a, b = rng.uniform(-2, 1), rng.uniform(-2, 3)
    elif rng.random() < 0.5:
        a, b = edge[:-1], edge[1:]
    else:
        a, b = [rng.uniform(-2, 3) for _ in range(m)], [rng.uniform(-2, 3) for _ in range(m)]
    deg = rng.randint(0, min(2 * n - 1, 9))
    if rng.random() < 0.3:
        cs = [[rng.uniform(-1, 1) for _ in range(deg + 1)] for _ in range(rng.randint(1, 3))]
    else:
        cs = [rng.uniform(-1, 1) for _ in range(deg + 1)]
    return {'kron': kron, 'n': n, 'a': a, 'b': b, 'cs': cs, 'total': rng.random() < 0.5, 'shift': rng.choice([0.0, 1.5])}


@check('C27', 'composite rules integrate polynomials', rule)
def composite(kron, n, a, b, cs, total, shift):
    C = np.array(cs)

    def f(x, s):
        return sum(C[..., j] * (x - s) ** j for j in range(C.shape[-1]))

    def prim(x):
        return sum(C[..., j] * (x - shift) ** (j + 1) / (j + 1) for j in range(C.shape[-1]))
    r = (qd.gk_quad if kron else qd.gl_quad)(f, a, b, args=(shift,), n=n, sum_intervals=total)
    est = None
    if kron:
        r, est = r
    A, B = np.atleast_1d(a), np.atleast_1d(b)
    want = np.array([prim(v) - prim(u) for u, v in zip(A, B)])
    if total:
        want = want.sum(axis=0)
    if np.shape(r) != np.shape(want):
        return 'shape %r, expected %r' % (np.shape(r), np.shape(want))
    r = close(r, want, 1e-9, 1e-8)
    if r:
        return r
    if kron and np.any(np.abs(est) > 1e-7):
        return 'error estimate %r for an exact rule' % (est,)


def rough(rng, k):
    return {'n': rng.choice(GK), 'w': rng.uniform(5, 60), 'a': [0.0, 1.0], 'b': [1.0, 2.5]}


@check('C27', 'error estimate is the difference of the two rules', rough)
def estimate(n, w, a, b):
    f = lambda x: np.sin(w * x) * np.exp(x)
    x, w1, w2 = qd.gauss_kronrod_abscissae_and_weights(n)
    g, k = [], []
    for u, v in zip(a, b):
        y = f((v - u) / 2 * x + (u + v) / 2)
        g.append((v - u) / 2 * np.sum(w1 * y))
        k.append((v - u) / 2 * np.sum(w2 * y))
    g, k = np.array(g), np.array(k)
    r, e = qd.gk_quad(f, a, b, n=n)
    rs, es = qd.gk_quad(f, a, b, n=n, sum_intervals=True)
    return (close(r, k, 1e-10, 1e-12) or close(e, np.abs(g - k), 1e-8, 1e-11) or close(rs, k.sum(), 1e-10, 1e-12) or close(es, np.abs(g - k).sum(), 1e-8, 1e-11))


if __name__ == '__main__':
    main()
