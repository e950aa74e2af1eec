"""C03: projections of piecewise linear profiles (load vectors) on the sine basis."""
from speclib import *

suite = Suite('C03')
suite.num = ['num_speccon']
suite.assumptions = [
    'precondition (from the solvers): eigenvalues positive and strictly increasing, every layer has top < bottom',
    'D_aDb: the second profile is one straight line over contiguous layers (documented precondition); the contract is the integrated-by-parts form',
]


def prod(L, ps):
    return lambda m: layer_integral(L, lambda k, z: mul(*([layer_line(p, k, z) for p in ps] + [phi(m)(z)])))


def dadb(L):
    """b' ( [a phi] at the ends - int a phi' )"""
    def f(m):
        k = fresh('k', 'I')
        inner = bsum(k, L, mul(layer_slope('b', k), calc.integral(lambda z: mul(layer_line('a', k, z), D(phi(m))(z)), app('zt', k), app('zb', k))))
        last = sub(L, num(1))
        return add(mul(layer_slope('b', last), app('ab', last), sin(mul(m, app('zb', last)))),
                   neg(mul(layer_slope('b', num(0)), app('at', num(0)), sin(mul(m, app('zt', num(0)))))),
                   neg(inner))
    return f


CASES = [
    ('ab', ['a', 'b'], lambda L: prod(L, 'ab')),
    ('abc', ['a', 'b', 'c'], lambda L: prod(L, 'abc')),
    ('D_aDb', ['a', 'b'], dadb),
]


def mk(nm, ps, spec, impl):
    q = INT + 'dim1sin_%s_linear' % nm

    @suite.ob('dim1sin_%s_linear[%s]' % (nm, impl), q)
    def f1(V):
        n, m = eigen(V)
        names = [p + s for p in ps for s in 'tb']
        L, args = layers(V, *names)

        def go():
            A = V.call(q, m, *args, implementation=impl)
            prove_vector(V, A, n, spec(L), nm)
            unchanged(V, *zip(['m'] + names + ['zt', 'zb'], [m] + args))
        V.run(go)


def mkp(nm, ps, spec):
    q = INT + 'pdim1sin_%s_linear' % nm

    @suite.ob('pdim1sin_%s_linear' % nm, q)
    def f1(V):
        n, m = eigen(V)
        names = [p + s for p in ps for s in 'tb']
        L, args = layers(V, *names)
        zt, zb = args[-2:]
        objs = [line_obj(V, 'p' + p) for p in ps]
        V.I.contracts[PW + 'polyline_make_x_common'] = make_common(
            [(o, (zt, zb, args[2 * i], args[2 * i + 1])) for i, o in enumerate(objs)], V)

        def go():
            A = V.call(q, m, *objs)
            prove_vector(V, A, n, spec(L), nm)
        V.run(go)


for nm, ps, spec in CASES:
    for impl in ('scalar', 'vectorized'):
        mk(nm, ps, spec, impl)
    mkp(nm, ps, spec)
