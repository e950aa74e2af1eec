"""C20: void ratio / permeability relations."""
from speclib import *

suite = Suite('C20')
suite.num = ['num_const']
suite.assumptions = ['precondition: permeabilities, Ck positive; piecewise data strictly monotonic, at least two points',
                     'relation evaluated between the end points of piecewise data when inverted']
M = 'geotecha.constitutive_models.void_ratio_permeability.'


@suite.ob('CkPermeabilityModel', M + 'CkPermeabilityModel.e_from_k', M + 'CkPermeabilityModel.k_from_e')
def ck(V):
    Ck, ka, ea = V.real('Ck'), V.real('ka'), V.real('ea')
    V.requires(pos(Ck), pos(ka))

    def go():
        for nm, arg, K in inputs(V, 'e'):
            m = V.call(M + 'CkPermeabilityModel', Ck=Ck, ka=ka, ea=ea)
            k = V.call(V.I.getattr(m, 'k_from_e'), arg)
            val = (lambda i: app('es', i)) if K is not None else None
            f = lambda e: mul(ka, power(num(10), div(sub(e, ea), Ck)))
            compare(V, 'k from e', k, K, f(var('e')) if K is None else (lambda i: f(app('es', i))))
            back = V.call(V.I.getattr(m, 'e_from_k'), k)
            compare(V, 'e -> k -> e', back, K, var('e') if K is None else (lambda i: app('es', i)))
        for nm, arg, K in inputs(V, 'k', pos):
            e = V.call(V.I.getattr(m, 'e_from_k'), arg)
            back = V.call(V.I.getattr(m, 'k_from_e'), e)
            compare(V, 'k -> e -> k', back, K, var('k') if K is None else (lambda i: app('ks', i)))
    V.run(go)


@suite.ob('ConstantPermeabilityModel', M + 'ConstantPermeabilityModel.k_from_e')
def const(V):
    ka = V.real('ka')

    def go():
        m = V.call(M + 'ConstantPermeabilityModel', ka=ka)
        for nm, arg, K in inputs(V, 'e'):
            compare(V, 'constant', V.call(V.I.getattr(m, 'k_from_e'), arg), K, ka if K is None else (lambda i: ka))
        P, Q = V.int('P', 1), V.int('Q', 1)
        r = V.call(V.I.getattr(m, 'k_from_e'), V.arr2('e2', P, Q))
        V.check('2-d input gives 2-d output', isinstance(r, Arr) and r.ndim == 2)
        V.length('rows', r.dims[0], P)
        V.length('columns', r.dims[1], Q)
        (i, j), rng = V.idx(P, Q)
        V.eq('constant (2-d)', r.at(i, j), ka, rng)
    V.run(go)


def pwise(xlog, ylog, kup, eup):
    @suite.ob('PwiseLinearPermeabilityModel[%s,%s,%s,%s]' % ('log k' if xlog else 'k', 'log e' if ylog else 'e',
                                                             'k ascending' if kup else 'k descending', 'e ascending' if eup else 'e descending'),
              M + 'PwiseLinearPermeabilityModel.e_from_k', M + 'PwiseLinearPermeabilityModel.k_from_e')
    def f(V):
        N, K = V.int('N', 2), V.int('K', 1)
        ka, ea = monotone_data(V, 'ka', N, kup, strict=True), monotone_data(V, 'ea', N, eup, strict=True)
        for nm in ('ka', 'ea'):
            V.F.pointwise(nm, N, lambda i, nm=nm: pos(app(nm, i)))
        for a, d in (('k', 'ka'), ('e', 'ea')):
            ends = [app(d, num(0)), app(d, sub(N, num(1)))]
            lo, hi = ends if (kup if d == 'ka' else eup) else ends[::-1]
            V.F.pointwise(a, K, lambda i, a=a, lo=lo, hi=hi: land(le(lo, app(a, i)), le(app(a, i), hi)))
        k, e = V.arr('k', K), V.arr('e', K)

        def go():
            m = V.call(M + 'PwiseLinearPermeabilityModel', ka, ea, xlog=xlog, ylog=ylog)
            (i,), rng = V.idx(K)
            (s,), srng = V.idx(sub(N, num(1)))
            sx, sy = (log if xlog else lambda t: t), (log if ylog else lambda t: t)
            r = V.call(V.I.getattr(m, 'e_from_k'), k)
            q = V.call(V.I.getattr(m, 'k_from_e'), e)
            two_way(V, 'k -> e', sy(r.at(i)), app('k', i), 'ka', 'ea', s, sx, sy, kup, rng + srng)
            two_way(V, 'e -> k', sx(q.at(i)), app('e', i), 'ea', 'ka', s, sy, sx, eup, rng + srng)
            unchanged(V, ('ka', ka), ('ea', ea), ('k', k), ('e', e))
        V.run(go)


for xl in (False, True):
    for yl in (False, True):
        for ku, eu in ((True, True), (False, False), (True, False), (False, True)):
            pwise(xl, yl, ku, eu)
