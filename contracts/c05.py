"""C05: exponential-kernel convolutions of piecewise linear loads."""
from speclib import *

suite = Suite('C05')
suite.num = ['num_loads']
suite.assumptions = [
    'precondition (documented): load times non-decreasing (at least two, not all equal); an initial load is given as a step',
    'precondition: dT and every decay rate positive',
    'load before the first and after the last listed time is not part of the history (contributes nothing)',
]
x, y = fn_of('x'), fn_of('y')
one = num(1)


def setup(V):
    N = V.int('N', 2)
    xs = monotone_data(V, 'x', N)
    V.requires(lt(x(num(0)), x(sub(N, one))))
    spread_data(V, 'x', N)
    ys = V.arr('y', N)
    n, K = V.int('n', 1), V.int('K', 1)
    V.F.pointwise('lam', n, lambda i: lt(num(0), app('lam', i)))
    V.nice(lambda F: F.pointwise('lam', n, lambda i: land(le(num(Fraction(1, 10)), app('lam', i)), le(app('lam', i), num(4)))))
    dT = V.real('dT')
    V.requires(lt(num(0), dT))
    V.nice(lambda F: F.add(le(num(Fraction(1, 5)), dT), le(dT, num(3))))
    d = Data(x, N)
    model_less(V, d, y)
    return N, n, K, xs, ys, V.arr('lam', n), V.arr('t', K), dT, d


load = seg_line(x, y, lambda k: y(add(k, one)))
rate = lambda k, z: div(sub(y(add(k, one)), y(k)), sub(x(add(k, one)), x(k)))


def kernel(dT, lam, t, tau):
    return exp(neg(mul(dT, lam, sub(t, tau))))


def prove(V, r, n, K, d, dT, f, step=None):
    """f(k, tau): load (rate) on segment k; step(k): jump at step k"""
    V.check('a table', isinstance(r, Arr) and r.ndim == 2)
    V.length('one row per output time', r.dims[0], K)
    V.length('one column per decay rate', r.dims[1], n)
    (i, j), rng = V.idx(K, n)
    t, lam = app('t', i), app('lam', j)
    st = None if step is None else (lambda k: mul(step(k), kernel(dT, lam, t, x(k))))
    e = history_integral(V, 'convolution', d, lambda k, z: mul(f(k, z), kernel(dT, lam, t, z)), t, i, rng, st)
    V.eq('convolution', r.at(i, j), e, rng)


jump = lambda k: sub(y(add(k, one)), y(k))


def mk(fn, impl, f, step):
    @suite.ob('%s[%s]' % (fn, impl), INT + fn)
    def g(V):
        N, n, K, xs, ys, lam, t, dT, d = setup(V)

        def go():
            r = V.call(INT + fn, xs, ys, lam, t, dT, implementation=impl)
            prove(V, r, n, K, d, dT, f, step)
            unchanged(V, ('x', xs), ('y', ys), ('lam', lam), ('t', t))
        V.run(go)


for impl in ('scalar', 'vectorized'):
    mk('Eload_linear', impl, load, None)
    mk('EDload_linear', impl, rate, jump)


@suite.ob('polyline entry points', INT + 'pEload_linear', INT + 'pEDload_linear')
def poly(V):
    N, n, K, xs, ys, lam, t, dT, d = setup(V)
    for fn, f, step in (('pEload_linear', load, None), ('pEDload_linear', rate, jump)):
        def go():
            r = V.call(INT + fn, obj(x=xs, y=ys), lam, t, dT)
            prove(V, r, n, K, d, dT, f, step)
        V.run(go)


@suite.ob('default time factor', INT + 'Eload_linear', INT + 'EDload_linear')
def default(V):
    N, n, K, xs, ys, lam, t, dT, d = setup(V)
    for fn, f, step in (('Eload_linear', load, None), ('EDload_linear', rate, jump)):
        def go():
            prove(V, V.call(INT + fn, xs, ys, lam, t), n, K, d, one, f, step)
        V.run(go)
