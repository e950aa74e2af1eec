"""C02: stiffness (second and fourth derivative) integrals of the sine basis."""
from speclib import *

suite = Suite('C02')
suite.num = ['num_speccon']
suite.assumptions = [
    'precondition (from the solvers): eigenvalues positive and strictly increasing, every layer has top < bottom',
    'the end terms of the integration by parts vanish for the basis used (stated in the documentation); the contract is the integrated form',
]


def aDf(L):
    return lambda mi, mj: neg(layer_integral(L, lambda k, z: mul(layer_line('a', k, z), D(phi(mi))(z), D(phi(mj))(z))))


def abDDf(L):
    return lambda mi, mj: layer_integral(L, lambda k, z: mul(layer_line('a', k, z), layer_line('b', k, z), D(phi(mi), 2)(z), D(phi(mj), 2)(z)))


def mk(impl):
    @suite.ob('dim1sin_D_aDf_linear[%s]' % impl, INT + 'dim1sin_D_aDf_linear')
    def f1(V):
        n, m = eigen(V)
        L, args = layers(V, 'at', 'ab')

        def go():
            A = V.call(INT + 'dim1sin_D_aDf_linear', m, *args, implementation=impl)
            prove_matrix(V, A, n, aDf(L), '-int a phi_i\' phi_j\'')
            unchanged(V, *zip(['m', 'at', 'ab', 'zt', 'zb'], [m] + args))
        V.run(go)

    @suite.ob('dim1sin_DD_abDDf_linear[%s]' % impl, INT + 'dim1sin_DD_abDDf_linear')
    def f2(V):
        n, m = eigen(V)
        L, args = layers(V, 'at', 'ab', 'bt', 'bb')

        def go():
            A = V.call(INT + 'dim1sin_DD_abDDf_linear', m, *args, implementation=impl)
            prove_matrix(V, A, n, abDDf(L), 'int a b phi_i\'\' phi_j\'\'')
            unchanged(V, *zip(['m', 'at', 'ab', 'bt', 'bb', 'zt', 'zb'], [m] + args))
        V.run(go)


for impl in ('scalar', 'vectorized'):
    mk(impl)


@suite.ob('pdim1sin_D_aDf_linear', INT + 'pdim1sin_D_aDf_linear')
def f3(V):
    n, m = eigen(V)
    L, (at, ab, zt, zb) = layers(V, 'at', 'ab')

    def go():
        A = V.call(INT + 'pdim1sin_D_aDf_linear', m, obj(x1=zt, x2=zb, y1=at, y2=ab))
        prove_matrix(V, A, n, aDf(L), '-int a phi_i\' phi_j\'')
    V.run(go)


@suite.ob('pdim1sin_DD_abDDf_linear', INT + 'pdim1sin_DD_abDDf_linear')
def f4(V):
    n, m = eigen(V)
    L, (at, ab, bt, bb, zt, zb) = layers(V, 'at', 'ab', 'bt', 'bb')
    a0, b0 = line_obj(V, 'pa'), line_obj(V, 'pb')
    V.I.contracts[PW + 'polyline_make_x_common'] = make_common([(a0, (zt, zb, at, ab)), (b0, (zt, zb, bt, bb))], V)

    def go():
        A = V.call(INT + 'pdim1sin_DD_abDDf_linear', m, a0, b0)
        prove_matrix(V, A, n, abDDf(L), 'int a b phi_i\'\' phi_j\'\'')
    V.run(go)
