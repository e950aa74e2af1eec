"""C14: interpolation of piecewise linear data."""
from speclib import *

suite = Suite('C14')
suite.num = ['num_piecewise']
suite.assumptions = ['precondition (documented): x is monotonic, has at least two points and is not a single point']
x, y = fn_of('x'), fn_of('y')


def data(V, up=True):
    N = V.int('N', 2)
    xs = monotone_data(V, 'x', N, up)
    V.requires(ne(x(num(0)), x(sub(N, num(1)))))
    spread_data(V, 'x', N)
    return N, xs, Data(x, N, up)


def segdata(V, up=True):
    """segments sharing their break points: x1 = x[:-1], x2 = x[1:]"""
    N, xs, d = data(V, up)
    n1 = sub(N, num(1))
    x1 = Arr([plain(n1)], lambda k: x(k), 'f')
    x2 = Arr([plain(n1)], lambda k: x(add(k, num(1))), 'f')
    return N, n1, x1, x2, V.arr('y1', n1), V.arr('y2', n1), d


def value(d, s, has, v, kind, N):
    if kind == 'xy':
        return interp_spec(d, seg_line(x, y, lambda k: y(add(k, num(1)))), s, has, v, y(num(0)), y(sub(N, num(1))))
    y1, y2 = fn_of('y1'), fn_of('y2')
    return interp_spec(d, seg_line(x, y1, y2), s, has, v, y1(num(0)), y2(sub(N, num(2))))


def mk(up, cm):
    nm = '[%s,choose_max=%s]' % ('increasing' if up else 'decreasing', cm)

    @suite.ob('interp_x_y' + nm, PW + 'interp_x_y')
    def f(V):
        N, xs, d = data(V, up)
        ys = V.arr('y', N)
        K = V.int('K', 1)
        xi = V.arr('xi', K)
        model_segment_containing(V, d)
        s, has = d.locate(V, fn_of('xi'), cm)

        def go():
            r = V.call(PW + 'interp_x_y', xs, ys, xi, choose_max=cm)
            V.length('one value per position', r.dims[0], K)
            (i,), rng = V.idx(K)
            v = app('xi', i)
            V.holds('end values exactly outside the data', eq(has(i), d.inside(v)), rng)
            V.eq('value', r.at(i), value(d, s(i), has(i), v, 'xy', N), rng)
            unchanged(V, ('x', xs), ('y', ys), ('xi', xi))
        V.run(go)

    @suite.ob('interp_x1_x2_y1_y2' + nm, PW + 'interp_x1_x2_y1_y2', PW + 'pinterp_x1_x2_y1_y2')
    def g(V):
        N, n1, x1, x2, y1, y2, d = segdata(V, up)
        K = V.int('K', 1)
        xi = V.arr('xi', K)
        model_segment_containing(V, d)
        s, has = d.locate(V, fn_of('xi'), cm)

        def go():
            r = V.call(PW + 'pinterp_x1_x2_y1_y2', obj(x1=x1, x2=x2, y1=y1, y2=y2), xi, choose_max=cm)
            V.length('one value per position', r.dims[0], K)
            (i,), rng = V.idx(K)
            v = app('xi', i)
            V.eq('value', r.at(i), value(d, s(i), has(i), v, 'x1x2', N), rng)
            unchanged(V, ('y1', y1), ('y2', y2), ('xi', xi))
        V.run(go)

    @suite.ob('agreement of the two formats' + nm, PW + 'interp_x_y', PW + 'interp_x1_x2_y1_y2')
    def h(V):
        N, n1, x1, x2, _, _, d = segdata(V, up)
        V.F.monotone('x', N, strict=True) if up else None
        xs, ys = V.arr('x', N), V.arr('y', N)
        y1 = Arr([plain(n1)], lambda k: y(k), 'f')
        y2 = Arr([plain(n1)], lambda k: y(add(k, num(1))), 'f')
        v = V.real('v')
        s, has = d.locate(V, lambda i: v, cm)
        model_segment_containing(V, d)
        d.locate = lambda *a: (s, has)

        def go():
            a = V.call(PW + 'interp_x_y', xs, ys, v, choose_max=cm)
            b = V.call(PW + 'interp_x1_x2_y1_y2', x1, x2, y1, y2, v, choose_max=cm)
            V.eq('same value', a.at(num(0)), b.at(num(0)))
        V.run(go)


for up in (True, False):
    for cm in (False, True):
        mk(up, cm)


@suite.ob('pinterp_x_y', PW + 'pinterp_x_y', PW + 'interp_x_y')
def pxy(V):
    N, xs, d = data(V)
    ys = V.arr('y', N)
    v = V.real('v')
    model_segment_containing(V, d)
    for cm in (False, True):
        s, has = d.locate(V, lambda i: v, cm)

        def go():
            r = V.call(PW + 'pinterp_x_y', obj(x=xs, y=ys), v, choose_max=cm)
            V.length('one value', r.dims[0], num(1))
            V.eq('value', r.at(num(0)), value(d, s(num(0)), has(num(0)), v, 'xy', N))
        V.run(go)


@suite.ob('interp_xa_ya_multipy_x1b_x2b_y1b_y2b', PW + 'interp_xa_ya_multipy_x1b_x2b_y1b_y2b', PW + 'pinterp_xa_ya_multipy_x1b_x2b_y1b_y2b')
def prod(V):
    N, M, K, J = V.int('N', 2), V.int('M', 1), V.int('K', 1), V.int('J', 1)
    xa, ya = V.arr('xa', N), V.arr('ya', N)
    b = [V.arr(q, M) for q in ('x1b', 'x2b', 'y1b', 'y2b')]
    ti, zi = V.arr('ti', K), V.arr('zi', J)
    for cma, cmb in ((False, False), (False, True), (True, False), (True, True)):
        def ma(I, f, args, kw):
            V.trusted.add(C14 + 'interp_x_y')
            q, w, xi, cm = take(args, kw, ['x', 'y', 'xi', 'choose_max'], {'choose_max': False})
            V.check('first line interpolated in time at the requested side', I.truth(cm) == cma)
            for g, h in ((q, xa), (w, ya), (xi, ti)):
                same_arr(V, 'first line interpolated in time', g, h)
            return Arr([plain(K)], lambda i: app('A', i), 'f')

        def mb(I, f, args, kw):
            V.trusted.add(C14 + 'interp_x1_x2_y1_y2')
            q = take(args, kw, ['x1', 'x2', 'y1', 'y2', 'xi', 'choose_max'], {'choose_max': False})
            V.check('second line interpolated at the requested side', I.truth(q[5]) == cmb)
            for g, h in zip(q, b + [zi]):
                same_arr(V, 'second line interpolated in depth', g, h)
            return Arr([plain(J)], lambda i: app('B', i), 'f')
        V.I.contracts[PW + 'interp_x_y'] = ma
        V.I.contracts[PW + 'interp_x1_x2_y1_y2'] = mb

        def go():
            pa = obj(x=xa, y=ya)
            pb = obj(x1=b[0], x2=b[1], y1=b[2], y2=b[3])
            r = V.call(PW + 'pinterp_xa_ya_multipy_x1b_x2b_y1b_y2b', pa, pb, ti, zi, achoose_max=cma, bchoose_max=cmb)
            V.length('rows: positions', r.dims[0], J)
            V.length('columns: times', r.dims[1], K)
            (i, j), rng = V.idx(J, K)
            V.eq('product', r.at(i, j), mul(app('B', i), app('A', j)), rng)
        V.run(go)
