"""C27: the quadrature tables integrate monomials exactly; the composite rules are the rule on each interval."""
from speclib import *
from dv import nplib
from dv.interp import Builtin, Unsupported

suite = Suite('C27')
suite.num = ['num_quad']
QD = 'geotecha.mathematics.quadrature.'
suite.assumptions = ['table entries are the double precision numbers of the source; moments are compared to the exact ones within 1e-15',
                     'the integrand acts on arrays element by element']
TOL = Fraction(1, 10 ** 15)
GL = list(range(2, 21)) + [32, 64, 100]
GK = [7, 10, 15, 20, 25, 30]


def numbers(V, a):
    xs = V.I.iter_concrete(a)
    r = []
    for x in xs:
        x = num(x)
        if x.op != 'num':
            raise Unsupported('table entry is not a number')
        r.append(Fraction(x.args[0]))
    return r


def rule(V, nm, x, w, points, degree):
    V.check('%s: number of points' % nm, len(x) == points and len(w) == len(x))
    V.check('%s: nodes inside the interval, increasing' % nm, all(-1 < a < 1 for a in x) and all(a < b for a, b in zip(x, x[1:])))
    V.check('%s: symmetric' % nm, all(abs(a + b) <= TOL for a, b in zip(x, x[::-1])) and all(abs(a - b) <= TOL for a, b in zip(w, w[::-1])))
    p = list(w)
    for k in range(degree + 1):
        want = Fraction(2, k + 1) if k % 2 == 0 else 0
        V.check('%s: integral of x**%d' % (nm, k), abs(sum(p) - want) <= TOL)
        p = [Fraction(int(round(a * b * 2 ** 120)), 2 ** 120) for a, b in zip(p, x)]    # rounding below 1e-33


def gl_table(n):
    @suite.ob('Gauss-Legendre table, %d points' % n, QD + 'gauss_legendre_abscissae_and_weights')
    def ob(V):
        def go():
            x, w = V.I.call(V.fn(QD + 'gauss_legendre_abscissae_and_weights'), [n], {})
            w = numbers(V, w)
            V.check('positive weights', all(a > 0 for a in w))
            rule(V, 'rule', numbers(V, x), w, n, 2 * n - 1)
        V.run(go)


def gk_table(n):
    @suite.ob('Gauss-Kronrod table, %d/%d points' % (n, 2 * n + 1), QD + 'gauss_kronrod_abscissae_and_weights')
    def ob(V):
        def go():
            x, w1, w2 = V.I.call(V.fn(QD + 'gauss_kronrod_abscissae_and_weights'), [n], {})
            x, w1, w2 = numbers(V, x), numbers(V, w1), numbers(V, w2)
            V.check('positive weights', all(a > 0 for a in w2))
            V.check('the coarse rule has n points', len([a for a in w1 if a != 0]) == n)
            V.check('the coarse rule uses every second point', all((a != 0) == (i % 2 == 1) for i, a in enumerate(w1)))
            rule(V, 'coarse rule', x, w1, 2 * n + 1, 2 * n - 1)
            rule(V, 'fine rule', x, w2, 2 * n + 1, 3 * n + 1 + n % 2)
        V.run(go)


for _n in GL:
    gl_table(_n)
for _n in GK:
    gk_table(_n)


@suite.ob('orders without a table are refused', QD + 'gauss_legendre_abscissae_and_weights', QD + 'gauss_kronrod_abscissae_and_weights')
def refused(V):
    for f, ok in (('gauss_legendre_abscissae_and_weights', GL), ('gauss_kronrod_abscissae_and_weights', GK)):
        n = V.int('n_' + f)
        V.requires(*[ne(n, num(k)) for k in ok])
        V.raises('unknown order', lambda: V.I.call(V.fn(QD + f), [n], {}), 'ValueError')


def composite(V, which, sum_intervals, vector, scalar):
    M, N = (1 if scalar else V.int('M', 1)), V.int('N', 1)
    P = V.int('P', 1)
    xj, wj, wj2 = V.arr('xj', N), V.arr('wj', N), V.arr('wk', N)
    par = V.real('par')
    calls = []

    def gl(I, f, args, kw):
        calls.append(I.bind(f, args, kw)['n'])
        return (xj, wj) if which == 'gl_quad' else (xj, wj, wj2)
    V.I.contracts[QD + ('gauss_legendre_abscissae_and_weights' if which == 'gl_quad' else 'gauss_kronrod_abscissae_and_weights')] = gl

    def f(x, q):
        V.eq('the arguments are passed on', num(q), par)
        if vector:
            c = ip.Arr([plain(P)], lambda k: num(k), 'i')
            return nplib.elementwise(V.I, lambda a, k: app('f', a, k), [x, c], 'f')
        return nplib.elementwise(V.I, lambda a: app('f', a), [x], 'f')
    a, b = (V.real('a'), V.real('b')) if scalar else (V.arr('a', M), V.arr('b', M))
    A = (lambda i: a) if scalar else (lambda i: app('a', i))
    B = (lambda i: b) if scalar else (lambda i: app('b', i))

    def term(i, j, k, w):
        half, mid = div(sub(B(i), A(i)), num(2)), div(add(A(i), B(i)), num(2))
        x = add(mul(half, app('xj', j)), mid)
        return mul(half, app(w, j), app('f', x, *([k] if vector else [])))

    def each(i, k, w):
        j = fresh('j', 'I')
        return bsum(j, N, term(i, j, k, w))

    def total(k, w):
        if scalar:
            return each(num(0), k, w)
        i = fresh('i', 'I')
        return bsum(i, M, each(i, k, w))

    def go():
        r = V.I.call(V.fn(QD + which), [Builtin(f), a, b], {'args': (par,), 'n': 7, 'sum_intervals': sum_intervals})
        V.check('the order asked for', set(calls) == {7})
        est = None
        if which == 'gk_quad':
            r, est = r
        i, k = V.int('i', 0), V.int('k', 0)
        V.F.add(lt(i, num(M)), lt(k, P))
        ix = ([] if sum_intervals else [num(0) if scalar else i]) + ([k] if vector else [])
        at = lambda v: num(V.I.getitem(v, tuple(ix) if len(ix) > 1 else ix[0])) if ix else num(v)
        if ix:
            V.check('shape', r.ndim == len(ix))
            if not sum_intervals:
                V.length('one value per interval', r.dims[0], num(M))
        if which == 'gl_quad':
            V.eq('rule on each interval', at(r), total(k, 'wj') if sum_intervals else each(i, k, 'wj'))
        else:
            V.eq('fine rule on each interval', at(r), total(k, 'wk') if sum_intervals else each(i, k, 'wk'))
            if not sum_intervals:
                V.eq('error estimate', at(est), tm.absT(sub(each(i, k, 'wk'), each(i, k, 'wj'))))
            else:
                q = fresh('q', 'I')
                d = lambda q: tm.absT(sub(each(q, k, 'wk'), each(q, k, 'wj')))
                V.eq('error estimate', at(est), d(num(0)) if scalar else bsum(q, M, d(q)))
    V.run(go)


for _w in ('gl_quad', 'gk_quad'):
    for _s in (False, True):
        for _v in (False, True):
            for _c in (False, True):
                def _ob(V, _w=_w, _s=_s, _v=_v, _c=_c):
                    composite(V, _w, _s, _v, _c)
                suite.ob('%s%s%s, %s' % (_w, ' summed' if _s else '', ' of a vector' if _v else '', 'one interval' if _c else 'any intervals'), QD + _w)(_ob)
