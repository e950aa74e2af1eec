"""C09: output reconstruction from spectral coefficients is exact and linear."""
from polymodel import *

suite = Suite('C09')
suite.num = ['num_spec1d']
S1 = 'geotecha.speccon.speccon1d.'
suite.assumptions = ['depth profiles cover the normalised depth 0 to 1, output depths lie in it',
                     'callee contracts: sine samples, means and weighted integrals (C04), interpolation and integrals of composite functions (C14, C15)']
OUT = {
    'f': (lambda m, i: sin(mul(m, app('z', i))), None),
    'avgf': (lambda m, i: app('sinmean', m, app('z', i, Z), app('z', i, one)), None),
    'integrate_af': (lambda m, i: app('sinint', m, value(var('a')), app('z', i, Z), app('z', i, one)), None),
}


def boundary_value(kind, g, i):
    """value, mean or weighted integral of the depth profile g of a boundary value"""
    if kind == 'f':
        return tm.subst(g, {zz: app('z', i)})
    p, q = app('z', i, Z), app('z', i, one)
    if kind == 'avgf':
        return app('mean', g, p, q) if zz in tm.fv(g) else g
    return app('int', mul(g, value(var('a'))), p, q)


def mk(kind, drn, sides, freq):
    name = S1 + 'dim1sin_' + kind

    @suite.ob('%s drn=%d %s%s' % (kind, drn, sides or 'no boundary value', ' with frequencies' if freq else ''), name)
    def f(V):
        w = World(V)
        N = V.int('N', 1)
        v = V.arr2('v', w.n, w.T)
        if kind == 'f':
            V.F.pointwise('z', N, lambda i: land(le(Z, app('z', i)), le(app('z', i), one)))
            z = V.arr('z', N)
        else:
            z = V.arr2('z', N, num(2))
        kw = {}
        parts = []
        for s in ('top', 'bot'):
            if s in sides:
                L = V.int('L' + s, 1)
                kw[s + '_vs_time'] = w.polys(s, L)
                if freq:
                    kw[s + '_omega_phase'] = w.maybe_pairs(s, L)
                parts.append((s, L, zz if s == 'bot' else (one if drn else sub(one, zz))))

        def history(s, l, k):
            r = app('at', value(app(s, l)), app('t', k))
            if not freq:
                return r
            return mul(r, ite(app(s + '?', l, sort='B'), one, cos(add(mul(app(s + 'om', l), app('t', k)), app(s + 'ph', l)))))

        def go():
            extra = (w.poly('a'),) if kind == 'integrate_af' else ()
            R = V.call(name, w.m, z, w.t, v, drn, *extra, **kw)
            V.check('two-dimensional', isinstance(R, Arr) and R.ndim == 2)
            V.length('rows', R.dims[0], N)
            V.length('columns', R.dims[1], w.T)
            (i, k), rng = V.idx(N, w.T)
            j, l = fresh('j', 'I'), fresh('l', 'I')
            want = bsum(j, w.n, mul(OUT[kind][0](app('m', j), i), app('v', j, k)))
            for s, L, g in parts:
                want = add(want, mul(boundary_value(kind, g, i), bsum(l, L, history(s, l, k))))
            V.eq('series plus boundary values', R.at(i, k), want, rng)
            (j, k), rng = V.idx(w.n, w.T)
            V.eq('coefficients not changed', v.at(j, k), app('v', j, k), rng)
        V.run(go)


for kind in OUT:
    for drn in (0, 1):
        for sides in ('', 'top', 'bot', 'top bot'):
            mk(kind, drn, sides, True)
        mk(kind, drn, 'top bot', False)
