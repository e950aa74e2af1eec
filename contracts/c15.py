"""C15: integrals and averages of piecewise linear functions between limits."""
from speclib import *

suite = Suite('C15')
suite.num = ['num_piecewise']
suite.assumptions = ['precondition: break points non-decreasing (at least two, not all equal), lower limit < upper limit, both within the data']
x, y = fn_of('x'), fn_of('y')
one = num(1)


def xy_data(V):
    N, K = V.int('N', 2), V.int('K', 1)
    xs = monotone_data(V, 'x', N)
    V.requires(lt(x(num(0)), x(sub(N, one))))
    spread_data(V, 'x', N)
    return N, K, xs, V.arr('y', N), Data(x, N)


def seg_data(V, *ys):
    """contiguous segments x1 = x[:-1] < x2 = x[1:]"""
    N, K = V.int('N', 2), V.int('K', 1)
    monotone_data(V, 'x', N, strict=True)
    spread_data(V, 'x', N)
    n1 = sub(N, one)
    x1 = Arr([plain(n1)], lambda k: x(k), 'f')
    x2 = Arr([plain(n1)], lambda k: x(add(k, one)), 'f')
    return N, K, x1, x2, [V.arr(q, n1) for q in ys], Data(x, N)


line_xy = seg_line(x, y, lambda k: y(add(k, one)))
line_of = lambda p: seg_line(x, fn_of('y1' + p), fn_of('y2' + p))


def prove_integral(V, r, d, f, K, avg=False, label='integral'):
    V.check('one-dimensional', isinstance(r, Arr) and r.ndim == 1)
    V.length('one value per pair of limits', r.dims[0], K)
    (i,), rng = V.idx(K)
    u, w = app('xi', i), app('xj', i)
    e = clipped_integral(V, label, d, f, u, w, i, rng)
    if avg:
        e = div(e, sub(w, u))
    V.eq(label, r.at(i), e, rng)


for wrap in ('integrate', 'avg', 'pintegrate', 'pavg'):
    def mk(wrap):
        q = PW + wrap.lstrip('p') + '_x_y_between_xi_xj'

        @suite.ob(wrap + '_x_y_between_xi_xj', q, PW + 'integrate_x_y_between_xi_xj')
        def f(V):
            N, K, xs, ys, d = xy_data(V)
            xi, xj = limits(V, d, K)
            model_between(V, d)
            both_model(V, d, {'y': ys}, 'xy')

            def go():
                if wrap[0] == 'p':
                    r = V.call(PW + wrap + '_x_y_between_xi_xj', obj(x=xs, y=ys), xi, xj)
                else:
                    r = V.call(q, xs, ys, xi, xj)
                prove_integral(V, r, d, line_xy, K, 'avg' in wrap)
                unchanged(V, ('x', xs), ('y', ys), ('xi', xi), ('xj', xj))
            V.run(go)

        q2 = PW + wrap.lstrip('p') + '_x1_x2_y1_y2_between_xi_xj'

        @suite.ob(wrap + '_x1_x2_y1_y2_between_xi_xj', q2, PW + 'integrate_x1_x2_y1_y2_between_xi_xj')
        def g(V):
            N, K, x1, x2, (y1, y2), d = seg_data(V, 'y1', 'y2')
            xi, xj = limits(V, d, K)
            model_between(V, d)
            both_model(V, d, {'x1': x1, 'x2': x2, 'y1': y1, 'y2': y2}, 'x1x2')

            def go():
                if wrap[0] == 'p':
                    r = V.call(PW + wrap + '_x1_x2_y1_y2_between_xi_xj', obj(x1=x1, x2=x2, y1=y1, y2=y2), xi, xj)
                else:
                    r = V.call(q2, x1, x2, y1, y2, xi, xj)
                prove_integral(V, r, d, line_of(''), K, 'avg' in wrap)
                unchanged(V, ('y1', y1), ('y2', y2), ('xi', xi), ('xj', xj))
            V.run(go)
    mk(wrap)

PROD = 'integrate_x1a_x2a_y1a_y2a_multiply_x1b_x2b_y1b_y2b_between'
two_lines = lambda k, z: mul(line_of('a')(k, z), line_of('b')(k, z))


@suite.ob(PROD, PW + PROD)
def product(V):
    N, K, x1, x2, ys, d = seg_data(V, 'y1a', 'y2a', 'y1b', 'y2b')
    xi, xj = limits(V, d, K)
    model_between(V, d)

    def go():
        r = V.call(PW + PROD, x1, x2, ys[0], ys[1], x1, x2, ys[2], ys[3], xi, xj)
        prove_integral(V, r, d, two_lines, K, label='integral of the product')
        unchanged(V, *zip(['y1a', 'y2a', 'y1b', 'y2b', 'xi', 'xj'], ys + [xi, xj]))
    V.run(go)


@suite.ob('p' + PROD, PW + 'p' + PROD)
def pproduct(V):
    N, K, x1, x2, ys, d = seg_data(V, 'y1a', 'y2a', 'y1b', 'y2b')
    xi, xj = limits(V, d, K)
    model_between(V, d)
    a0, b0 = line_obj(V, 'pa'), line_obj(V, 'pb')
    V.I.contracts[PW + 'polyline_make_x_common'] = make_common([(a0, (x1, x2, ys[0], ys[1])), (b0, (x1, x2, ys[2], ys[3]))], V)

    def go():
        r = V.call(PW + 'p' + PROD, a0, b0, xi, xj)
        prove_integral(V, r, d, two_lines, K, label='integral of the product')
    V.run(go)


# ---- a line in time (with optional cosine) times a depth integral
AVG = 'xa_ya_multipy_avg_x1b_x2b_y1b_y2b_between'
TB = 'xa_ya_multiply_integrate_x1b_x2b_y1b_y2b_multiply_x1c_x2c_y1c_y2c_between'
TBC = TB.replace('xa_ya_', 'xa_ya_cos_', 1)
C15 = 'callee contract, discharged under C15: '
B4 = ('x1b', 'x2b', 'y1b', 'y2b')
C4 = ('x1c', 'x2c', 'y1c', 'y2c')


def line_in_time(V, name, K, xai, choose):
    """contract of interp_x_y on line number k of a family: A(k.., i)"""
    def m(I, f, args, kw):
        V.trusted.add(C14 + 'interp_x_y')
        q, w, t, cm = take(args, kw, ['x', 'y', 'xi', 'choose_max'], {'choose_max': False})
        ks = family(V, 'line interpolated in time', q, 'xa')
        V.check('line interpolated in time', family(V, 'line interpolated in time', w, 'ya') == ks)
        same_arr(V, 'interpolated at the requested times', t, xai)
        V.check('interpolated at the requested side', I.truth(cm) == choose)
        return Arr([plain(K)], lambda i: app('A', *(tuple(ks) + (i,))), 'f')
    V.I.contracts[PW + 'interp_x_y'] = m


def depth_integral(V, J, lo, hi, names, callee):
    def m(I, f, args, kw):
        V.trusted.add(C15 + callee)
        ks = None
        for a, nm in zip(args, names):
            if nm[2] == 'c':
                k2 = family(V, 'integrated lines', a, nm)[-1:] if len(family(V, 'integrated lines', a, nm)) else ()
                continue
            k2 = family(V, 'integrated lines', a, nm)
            if ks is None:
                ks = k2
            V.check('integrated lines', ks == k2)
        same_arr(V, 'lower limits', args[len(names)], lo)
        same_arr(V, 'upper limits', args[len(names) + 1], hi)
        return Arr([plain(J)], lambda j: app('B', *(tuple(ks) + (j,))), 'f')
    V.I.contracts[PW + callee] = m


def setup(V):
    K, J, M = V.int('K', 1), V.int('J', 1), V.int('M', 1)
    t, lo, hi = V.arr('t', K), V.arr('lo', J), V.arr('hi', J)
    fam = lambda nm, *ks: Arr([plain(M)], lambda i: app(nm, *(ks + (i,))), 'f')
    line = lambda *ks: obj(x=fam('xa', *ks), y=fam('ya', *ks))
    segs = lambda names, *ks: obj(**{nm[:2]: fam(nm, *ks) for nm in names})
    return K, J, t, lo, hi, line, segs


def prove_outer(V, r, J, K, spec):
    V.check('a table', isinstance(r, Arr) and r.ndim == 2)
    V.length('rows: pairs of limits', r.dims[0], J)
    V.length('columns: times', r.dims[1], K)
    (j, i), rng = V.idx(J, K)
    V.eq('entry', r.at(j, i), spec(j, i), rng)


for cm in (False, True):
    def mk2(cm):
        @suite.ob(AVG + (' choose_max' if cm else ''), PW + AVG, PW + 'p' + AVG)
        def avg(V):
            K, J, t, lo, hi, line, segs = setup(V)
            line_in_time(V, 'A', K, t, cm)
            depth_integral(V, J, lo, hi, B4, 'avg_x1_x2_y1_y2_between_xi_xj')

            def go():
                r = V.call(PW + 'p' + AVG, line(), segs(B4), t, lo, hi, achoose_max=cm)
                prove_outer(V, r, J, K, lambda j, i: mul(app('B', j), app('A', i)))
            V.run(go)

        @suite.ob('line in time times integral' + (' choose_max' if cm else ''), PW + TB, PW + 'p' + TB, PW + TBC, PW + 'p' + TBC)
        def tb(V):
            K, J, t, lo, hi, line, segs = setup(V)
            om, ph = V.real('omega'), V.real('phase')
            line_in_time(V, 'A', K, t, cm)
            depth_integral(V, J, lo, hi, B4 + C4, PROD)
            a = line()
            b0, c0 = line_obj(V, 'pb'), line_obj(V, 'pc')
            pair = lambda names: tuple(segs(names).d[q] for q in ('x1', 'x2', 'y1', 'y2'))
            V.I.contracts[PW + 'polyline_make_x_common'] = make_common([(b0, pair(B4)), (c0, pair(C4))], V)

            def go():
                r = V.call(PW + 'p' + TB, a, b0, c0, t, lo, hi, achoose_max=cm)
                prove_outer(V, r, J, K, lambda j, i: mul(app('B', j), app('A', i)))
            V.run(go)

            def go2():
                r = V.call(PW + 'p' + TBC, a, om, ph, b0, c0, t, lo, hi, achoose_max=cm)
                prove_outer(V, r, J, K, lambda j, i: mul(app('B', j), app('A', i), cos(add(mul(om, app('t', i)), ph))))
            V.run(go2)
    mk2(cm)


def family_common(V, segs, b, c):
    """polyline_make_x_common applied to line k of b and to c"""
    V.trusted.add('callee contract: polyline_make_x_common re-expresses each line on common break points (decided under the PolyLine properties)')

    def m(I, f, args, kw):
        V.check('lines handed over', len(args) == 2 and args[1] is c and isinstance(args[0], Obj) and 'line' in args[0].d)
        k = args[0].d['line']
        return (segs(B4, k), segs(C4, k))
    V.I.contracts[PW + 'polyline_make_x_common'] = m


@suite.ob('superposed products', PW + 'p' + TB + '_super', PW + TB)
def sup(V):
    K, J, t, lo, hi, line, segs = setup(V)
    n = V.int('n', 1)
    line_in_time(V, 'A', K, t, False)
    depth_integral(V, J, lo, hi, B4 + C4, PROD)
    c = line_obj(V, 'pc')
    family_common(V, segs, None, c)
    a = LList(ip.Seq(n, lambda k: line(k)))
    b = LList(ip.Seq(n, lambda k: obj(line=k)))

    def go():
        r = V.call(PW + 'p' + TB + '_super', a, b, c, t, lo, hi)
        k = fresh('k', 'I')
        prove_outer(V, r, J, K, lambda j, i: bsum(k, n, mul(app('B', k, j), app('A', k, i))))
    V.run(go)


@suite.ob('superposed products, single pair', PW + 'p' + TB + '_super', PW + TB)
def sup1(V):
    K, J, t, lo, hi, line, segs = setup(V)
    line_in_time(V, 'A', K, t, False)
    depth_integral(V, J, lo, hi, B4 + C4, PROD)
    c = line_obj(V, 'pc')
    family_common(V, segs, None, c)

    def go():
        r = V.call(PW + 'p' + TB + '_super', line(num(0)), obj(line=num(0)), c, t, lo, hi)
        prove_outer(V, r, J, K, lambda j, i: mul(app('B', num(0), j), app('A', num(0), i)))
    V.run(go)


for kind in ('no phases', 'all phases', 'mixed'):
    def mk3(kind):
        @suite.ob('superposed cosine products, ' + kind, PW + 'p' + TBC + '_super', PW + TBC, PW + TB)
        def supc(V):
            K, J, t, lo, hi, line, segs = setup(V)
            n = V.int('n', 1) if kind != 'mixed' else num(3)
            om, ph = fn_of('om'), fn_of('ph')
            line_in_time(V, 'A', K, t, False)
            depth_integral(V, J, lo, hi, B4 + C4, PROD)
            c = line_obj(V, 'pc')
            family_common(V, segs, None, c)
            lst = (lambda f: LList([f(num(k)) for k in range(3)])) if kind == 'mixed' else (lambda f: LList(ip.Seq(n, f)))
            a, b = lst(lambda k: line(k)), lst(lambda k: obj(line=k))
            phases = {'no phases': None, 'all phases': lst(lambda k: (om(k), ph(k))),
                      'mixed': LList([(om(num(0)), ph(num(0))), None, (om(num(2)), ph(num(2)))])}[kind]
            has = {'no phases': lambda k: tm.FALSE, 'all phases': lambda k: tm.TRUE, 'mixed': lambda k: ne(k, num(1))}[kind]

            def go():
                r = V.call(PW + 'p' + TBC + '_super', a, b, c, t, lo, hi, omega_phase=phases)
                k = fresh('k', 'I')
                prove_outer(V, r, J, K, lambda j, i: bsum(k, n, mul(
                    app('B', k, j), app('A', k, i), ite(has(k), cos(add(mul(om(k), app('t', i)), ph(k))), num(1)))))
            V.run(go)
    mk3(kind)
