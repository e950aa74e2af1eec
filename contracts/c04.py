"""C04: sampling, averaging and weighted integration of the sine basis; eigenvalues."""
from speclib import *

suite = Suite('C04')
suite.num = ['num_speccon']
suite.assumptions = [
    'precondition (from the solvers): eigenvalues positive and strictly increasing, layers contiguous with top < bottom',
    'precondition (documented): depth pairs have upper depth < lower depth, both within the layers',
]
x = fn_of('x')


@suite.ob('m_from_sin_mx', INT + 'm_from_sin_mx')
def eigenvalues(V):
    i = V.int('i', 0)
    for b in (0, 1):
        def go():
            r = ip.lift(V.call(INT + 'm_from_sin_mx', i, boundary=b))
            want = mul(tm.PI, sub(add(i, num(1)), num(Fraction(b, 2))))
            V.eq('eigenvalue %d' % b, r, want)
            V.holds('positive', lt(num(0), r))
            # basis function at the bottom: sin(m) (zero value) or its slope factor cos(m) (zero slope)
            V.eq('boundary condition at the bottom', (cos if b else sin)(r), num(0))
            V.eq('zero value at the top', sin(mul(r, num(0))), num(0))
        V.run(go)

    k = V.int('badb')
    V.requires(ne(k, num(0)), ne(k, num(1)))
    outs = V.I.explore(lambda: V.call(INT + 'm_from_sin_mx', i, boundary=k))
    V.check('other boundary codes rejected', all(o.kind == 'raise' and o.value.tname == 'ValueError' or V.F.check(list(o.pc)) == 'unsat' for o in outs))


@suite.ob('dim1sin', INT + 'dim1sin')
def sample(V):
    n, m = eigen(V)
    K = V.int('K', 1)
    z = V.arr('z', K)

    def go():
        r = V.call(INT + 'dim1sin', m, z)
        V.check('a table', isinstance(r, Arr) and r.ndim == 2)
        V.length('one row per depth', r.dims[0], K)
        V.length('one column per eigenvalue', r.dims[1], n)
        (i, j), rng = V.idx(K, n)
        V.eq('sin(m z)', r.at(i, j), sin(mul(app('m', j), app('z', i))), rng)
        unchanged(V, ('m', m), ('z', z))
    V.run(go)


def pairs(V, K):
    return Arr([plain(K), plain(num(2))], lambda i, c: app('z', i, c), 'f')


@suite.ob('dim1sin_avg_between', INT + 'dim1sin_avg_between')
def avg(V):
    n, m = eigen(V)
    K = V.int('K', 1)
    z = pairs(V, K)
    lo, hi = (lambda i: app('z', i, num(0))), (lambda i: app('z', i, num(1)))

    def g(apps):
        for a in apps:
            if a.op == 'app' and a.args[0] == 'z':
                yield lt(lo(a.args[1]), hi(a.args[1]))
    V.F.gen(g)

    def go():
        r = V.call(INT + 'dim1sin_avg_between', m, z)
        V.check('a table', isinstance(r, Arr) and r.ndim == 2)
        V.length('one row per depth pair', r.dims[0], K)
        V.length('one column per eigenvalue', r.dims[1], n)
        (i, j), rng = V.idx(K, n)
        V.eq('mean of sin(m z)', r.at(i, j), div(calc.integral(phi(app('m', j)), lo(i), hi(i)), sub(hi(i), lo(i))), rng)
    V.run(go)


def between(poly):
    @suite.ob(('p' if poly else '') + 'dim1sin_a_linear_between', INT + 'dim1sin_a_linear_between', *([INT + 'pdim1sin_a_linear_between'] if poly else []))
    def f(V):
        n, m = eigen(V)
        N, K = V.int('N', 2), V.int('K', 1)
        monotone_data(V, 'x', N, strict=True)
        n1 = sub(N, num(1))
        zt = Arr([plain(n1)], lambda k: x(k), 'f')
        zb = Arr([plain(n1)], lambda k: x(add(k, num(1))), 'f')
        at, ab = V.arr('at', n1), V.arr('ab', n1)
        z = pairs(V, K)
        d = Data(x, N)
        lo, hi = (lambda i: app('z', i, num(0))), (lambda i: app('z', i, num(1)))

        def g(apps):
            for a in apps:
                if a.op == 'app' and a.args[0] == 'z':
                    u, w = lo(a.args[1]), hi(a.args[1])
                    yield land(lt(u, w), d.inside(u), d.inside(w))
        V.F.gen(g)
        model_between(V, d)

        def go():
            if poly:
                r = V.call(INT + 'pdim1sin_a_linear_between', m, obj(x1=zt, x2=zb, y1=at, y2=ab), z)
            else:
                r = V.call(INT + 'dim1sin_a_linear_between', m, at, ab, zt, zb, z)
            V.check('a table', isinstance(r, Arr) and r.ndim == 2)
            V.length('one row per depth pair', r.dims[0], K)
            V.length('one column per eigenvalue', r.dims[1], n)
            (i, j), rng = V.idx(K, n)
            e = clipped_integral(V, 'int a sin(m z)', d, lambda k, q: mul(lin(app('at', k), app('ab', k), x(k), x(add(k, num(1))), q), phi(app('m', j))(q)),
                                 lo(i), hi(i), i, rng)
            V.eq('int a sin(m z)', r.at(i, j), e, rng)
            unchanged(V, ('m', m), ('at', at), ('ab', ab))
        V.run(go)


between(False)
between(True)
