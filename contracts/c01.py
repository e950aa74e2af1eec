"""C01: overlap integrals of the sine basis."""
from speclib import *

suite = Suite('C01')
suite.num = ['num_speccon']
suite.assumptions = [
    'precondition (from the solvers): eigenvalues positive and strictly increasing, every layer has top < bottom',
]


def af(L):
    return lambda mi, mj: layer_integral(L, lambda k, z: mul(layer_line('a', k, z), phi(mi)(z), phi(mj)(z)))


def abf(L):
    return lambda mi, mj: layer_integral(L, lambda k, z: mul(layer_line('a', k, z), layer_line('b', k, z), phi(mi)(z), phi(mj)(z)))


def mk(impl):
    @suite.ob('dim1sin_af_linear[%s]' % impl, INT + 'dim1sin_af_linear')
    def f1(V):
        n, m = eigen(V)
        L, args = layers(V, 'at', 'ab')

        def go():
            A = V.call(INT + 'dim1sin_af_linear', m, *args, implementation=impl)
            prove_matrix(V, A, n, af(L), 'int a phi_i phi_j')
            unchanged(V, *zip(['m', 'at', 'ab', 'zt', 'zb'], [m] + args))
        V.run(go)

    @suite.ob('dim1sin_abf_linear[%s]' % impl, INT + 'dim1sin_abf_linear')
    def f2(V):
        n, m = eigen(V)
        L, args = layers(V, 'at', 'ab', 'bt', 'bb')

        def go():
            A = V.call(INT + 'dim1sin_abf_linear', m, *args, implementation=impl)
            prove_matrix(V, A, n, abf(L), 'int a b phi_i phi_j')
            unchanged(V, *zip(['m', 'at', 'ab', 'bt', 'bb', 'zt', 'zb'], [m] + args))
        V.run(go)


for impl in ('scalar', 'vectorized'):
    mk(impl)


@suite.ob('pdim1sin_af_linear', INT + 'pdim1sin_af_linear')
def f3(V):
    n, m = eigen(V)
    L, (at, ab, zt, zb) = layers(V, 'at', 'ab')

    def go():
        A = V.call(INT + 'pdim1sin_af_linear', m, obj(x1=zt, x2=zb, y1=at, y2=ab))
        prove_matrix(V, A, n, af(L), 'int a phi_i phi_j')
    V.run(go)


@suite.ob('pdim1sin_abf_linear', INT + 'pdim1sin_abf_linear')
def f4(V):
    n, m = eigen(V)
    L, (at, ab, bt, bb, zt, zb) = layers(V, 'at', 'ab', 'bt', 'bb')
    a0, b0 = line_obj(V, 'pa'), line_obj(V, 'pb')

    V.I.contracts[PW + 'polyline_make_x_common'] = make_common([(a0, (zt, zb, at, ab)), (b0, (zt, zb, bt, bb))], V)

    def go():
        A = V.call(INT + 'pdim1sin_abf_linear', m, a0, b0)
        prove_matrix(V, A, n, abf(L), 'int a b phi_i phi_j')
    V.run(go)
