"""C16: point form <-> segment form of piecewise linear data."""
from speclib import *
from dv.terms import absT

suite = Suite('C16')
suite.num = ['num_piecewise']
suite.bounded = ['remove_superfluous_from_x_y deletes points from a list while scanning it: its contract is discharged for data of 2, 3 and 4 points (thorough tier: 5 as well) '
                 '(any values); longer data is evaluated at run time on samples (up to 20 points)']
suite.assumptions = ['segment data given by the user join exactly (x1[k+1] = x2[k]) when values are compared']
PL = PW + 'PolyLine'
x, y = fn_of('x'), fn_of('y')
x1, x2, y1, y2 = [fn_of(t) for t in ('x1', 'x2', 'y1', 'y2')]
one = num(1)
SEG = ('x1', 'x2', 'y1', 'y2')


def is_segments(V, r, N):
    """r = (x1, x2, y1, y2): exactly the non-vertical pieces between consecutive points, in order"""
    V.check('four arrays', isinstance(r, tuple) and len(r) == 4 and all(isinstance(a, Arr) and a.ndim == 1 and len(a.dims[0].sizes) == 1 for a in r))
    d = r[0].dims[0]
    q = d.fresh('q')
    inn = d.inrange(q)
    src = V.call_np('arange', N)
    k = fresh('k', 'I')
    # the piece listed at position q of the selection
    want = {0: lambda k: x(k), 1: lambda k: x(add(k, one)), 2: lambda k: y(k), 3: lambda k: y(add(k, one))}
    V.holds('listed exactly when not vertical', iff(inn, land(le(num(0), q), lt(q, sub(N, one)), ne(x(q), x(add(q, one))))))
    for j, a in enumerate(r):
        V.holds('%s: same pieces' % SEG[j], iff(a.dims[0].inrange(q), inn))
        V.eq('%s of the piece' % SEG[j], a.at(q), want[j](q), [inn])


@suite.ob('convert_x_y_to_x1_x2_y1_y2', PW + 'convert_x_y_to_x1_x2_y1_y2')
def to_segments(V):
    N = V.int('N', 2)
    xs, ys = V.arr('x', N), V.arr('y', N)

    def go():
        is_segments(V, V.call(PW + 'convert_x_y_to_x1_x2_y1_y2', xs, ys), N)
        unchanged(V, ('x', xs), ('y', ys))
    V.run(go)


@suite.ob('convert_x_y_to_x1_x2_y1_y2[rejects]', PW + 'convert_x_y_to_x1_x2_y1_y2')
def to_segments_rejects(V):
    N, M = V.int('N', 1), V.int('M', 1)
    V.requires(ne(N, M))
    V.raises('different lengths', lambda: V.call(PW + 'convert_x_y_to_x1_x2_y1_y2', V.arr('x', N), V.arr('y', M)), 'ValueError')


def joined(V, n):
    """segments that join: x1[k+1] = x2[k]"""
    V.forall(sub(n, one), lambda k: eq(x1(add(k, one)), x2(k)))
    return [V.arr(t, n) for t in SEG]


def is_points(V, X, Y, n):
    """the points run through the ends of every segment in order, with a second point exactly at a step"""
    for nm, a in (('x', X), ('y', Y)):
        V.check('%s is a vector of points' % nm, isinstance(a, Arr) and a.ndim == 1 and len(a.dims[0].sizes) == 2)
    d = X.dims[0]
    p = fresh('p', 'I')
    step = land(le(one, p), lt(p, n), ne(y2(sub(p, one)), y1(p)))
    start = land(le(num(0), p), lt(p, n))
    Z = num(0)
    for a in (X, Y):
        e = a.dims[0]
        V.holds('start of every segment and end of the last', iff(e.inrange((p, one)), land(le(Z, p), le(p, n))))
        V.holds('end of a segment only before a step', iff(e.inrange((p, Z)), step))
    for nm, a, s, e in (('x', X, x1, x2), ('y', Y, y1, y2)):
        V.eq(nm + ' at the start of segment p', a.at((p, one)), s(p), [start])
        # the point after the start of segment p: its end, whether or not a step follows
        p1 = add(p, one)
        nxt = ite(d.inrange((p1, Z)), a.at((p1, Z)), a.at((p1, one)))
        V.eq(nm + ' of the next point is the end of segment p', nxt, e(p), [start, lt(p1, n), eq(x1(p1), x2(p))])
        V.eq(nm + ' of the last point is the end of the last segment', nxt, e(p), [start, eq(p1, n)])


@suite.ob('convert_x1_x2_y1_y2_to_x_y', PW + 'convert_x1_x2_y1_y2_to_x_y')
def to_points(V):
    n = V.int('n', 1)
    segs = joined(V, n)

    def go():
        X, Y = V.call(PW + 'convert_x1_x2_y1_y2_to_x_y', *segs)
        is_points(V, X, Y, n)
        unchanged(V, *zip(SEG, segs))
    V.run(go)


for j in range(1, 4):
    def mk(j):
        @suite.ob('convert_x1_x2_y1_y2_to_x_y[rejects length of %s]' % SEG[j], PW + 'convert_x1_x2_y1_y2_to_x_y', PL)
        def f(V):
            n, m = V.int('n', 1), V.int('m', 1)
            V.requires(ne(n, m))
            segs = [V.arr(t, m if i == j else n) for i, t in enumerate(SEG)]
            V.raises('different lengths', lambda: V.call(PW + 'convert_x1_x2_y1_y2_to_x_y', *segs), 'ValueError')
            V.raises('different lengths (PolyLine)', lambda: V.call(PL, *segs), 'TypeError')
    mk(j)


@suite.ob('convert_x1_x2_y1_y2_to_x_y[rejects gaps]', PW + 'convert_x1_x2_y1_y2_to_x_y', PL)
def gaps(V):
    n = V.int('n', 2)
    k = V.int('k', 0)
    segs = [V.arr(t, n) for t in SEG]
    # one joint differs by more than the comparison tolerance of numpy.allclose
    a, b = x1(add(k, one)), x2(k)
    V.requires(lt(k, sub(n, one)), lt(add(num(Fraction(1, 10 ** 8)), mul(num(Fraction(1, 10 ** 5)), tm.absT(b))), tm.absT(sub(a, b))))
    V.raises('segments that do not join', lambda: V.call(PW + 'convert_x1_x2_y1_y2_to_x_y', *segs), 'ValueError')
    V.raises('segments that do not join (PolyLine)', lambda: V.I.getattr(V.call(PL, *segs), 'x'), 'ValueError')


# ------------------------------------------------ PolyLine views
def points_are(V, label, p, N):
    for nm, w in (('x', x), ('y', y)):
        a = V.I.getattr(p, nm)
        V.check('%s: %s is a vector' % (label, nm), isinstance(a, Arr) and a.ndim == 1)
        V.length('%s: number of points' % label, a.dims[0], N)
        (i,), rng = V.idx(N)
        V.eq('%s: %s' % (label, nm), a.at(i), w(i), rng)
    a = V.I.getattr(p, 'xy')
    V.check(label + ': xy has two columns', isinstance(a, Arr) and a.ndim == 2)
    V.length(label + ': xy rows', a.dims[0], N)
    V.length(label + ': xy columns', a.dims[1], num(2))
    (i,), rng = V.idx(N)
    V.eq(label + ': xy first column', a.at(i, num(0)), x(i), rng)
    V.eq(label + ': xy second column', a.at(i, one), y(i), rng)


def mkviews(fmt, first):
    @suite.ob('PolyLine(%s)[%s first]' % (fmt, first), PL, PW + 'convert_x_y_to_x1_x2_y1_y2')
    def f(V):
        N = V.int('N', 2)
        if fmt == 'x, y':
            args = [V.arr('x', N), V.arr('y', N)]
        else:
            args = [Arr([plain(N), plain(num(2))], lambda i, j: ite(eq(j, num(0)), x(i), y(i)), 'f')]

        def segs(p):
            is_segments(V, tuple(V.I.getattr(p, t) for t in SEG), N)
            is_segments(V, V.I.getattr(p, 'x1_x2_y1_y2'), N)

        def go():
            p = V.call(PL, *args)
            if first == 'points':
                points_are(V, 'points', p, N)
                segs(p)
            else:
                segs(p)
            points_are(V, 'points (again)', p, N)
        V.run(go)


for fmt in ('x, y', 'points'):
    for first in ('points', 'segments'):
        mkviews(fmt, first)


def mkseg(first):
    @suite.ob('PolyLine(x1, x2, y1, y2)[%s first]' % first, PL, PW + 'convert_x1_x2_y1_y2_to_x_y')
    def f(V):
        n = V.int('n', 1)
        args = joined(V, n)

        def segs(p):
            for r in (tuple(V.I.getattr(p, t) for t in SEG), V.I.getattr(p, 'x1_x2_y1_y2')):
                for a, nm in zip(r, SEG):
                    V.check(nm + ' is a vector', isinstance(a, Arr) and a.ndim == 1)
                    V.length(nm + ': number of segments', a.dims[0], n)
                    (i,), rng = V.idx(n)
                    V.eq(nm, a.at(i), app(nm, i), rng)

        def pts(p):
            X, Y = V.I.getattr(p, 'x'), V.I.getattr(p, 'y')
            is_points(V, X, Y, n)
            P = V.I.getattr(p, 'xy')
            V.check('xy is two-dimensional', isinstance(P, Arr) and P.ndim == 2)
            is_points(V, V.I.getitem(P, (slice(None), 0)), V.I.getitem(P, (slice(None), 1)), n)

        def go():
            p = V.call(PL, *args)
            if first == 'segments':
                segs(p)
                pts(p)
            else:
                pts(p)
            segs(p)
        V.run(go)


for first in ('points', 'segments'):
    mkseg(first)


@suite.ob('PolyLine[rejects]', PL)
def rejects(V):
    N, M = V.int('N', 1), V.int('M', 1)
    V.requires(ne(N, M))
    V.raises('x and y of different lengths', lambda: V.call(PL, V.arr('x', N), V.arr('y', M)), 'TypeError')
    one_ = V.arr('u', num(1))
    V.raises('one point', lambda: V.call(PL, one_, one_), 'TypeError')
    K = V.int('K', 2)
    V.raises('flat data', lambda: V.call(PL, V.arr('v', K)), 'TypeError')
    C = V.int('C', 1)
    V.requires(ne(C, num(2)))
    V.raises('points without two columns', lambda: V.call(PL, V.arr2('P', K, C)), 'TypeError')
    V.raises('a single point row', lambda: V.call(PL, V.arr2('Q', num(1), num(2))), 'TypeError')
    a = V.arr('a', K)
    V.raises('no argument', lambda: V.call(PL), 'TypeError')
    V.raises('three arguments', lambda: V.call(PL, a, a, a), 'TypeError')
    V.raises('five arguments', lambda: V.call(PL, a, a, a, a, a), 'TypeError')


# ------------------------------------------------ order
def sq(v):
    return mul(v, v)


def superfluous(n, tier='quick'):
    @suite.ob('remove_superfluous_from_x_y[%s points]' % n, PW + 'remove_superfluous_from_x_y', tier=tier)
    def f(V):
        """what is dropped lies within atol of the straight line between the points that stay on either side of it"""
        xs, ys = V.arr('x', num(n)), V.arr('y', num(n))
        tol = V.real('atol', le(num(0), var('atol')))
        for k in range(n - 1):
            V.requires(le(x(num(k)), x(num(k + 1))))

        def go():
            r = V.call(PW + 'remove_superfluous_from_x_y', xs, ys, tol)
            V.check('two arrays', isinstance(r, tuple) and len(r) == 2 and all(isinstance(a, Arr) and a.ndim == 1 for a in r))
            kept = []
            m = ip.conc(V.I.getattr(r[0], 'size'))
            for i in range(m):
                c = [k for k in range(n) if ip.lift(r[0].at(num(i))) == x(num(k)) and ip.lift(r[1].at(num(i))) == y(num(k))]
                V.check('point %s of the result is one of the points' % i, len(c) == 1)
                kept += c
            V.check('first and last stay, in order', kept and kept[0] == 0 and kept[-1] == n - 1 and kept == sorted(set(kept)))
            for u, w in zip(kept, kept[1:]):
                dx, dy = sub(x(num(w)), x(num(u))), sub(y(num(w)), y(num(u)))
                d = sqrt(add(sq(dx), sq(dy)))
                for q in range(u + 1, w):
                    away = absT(div(sub(mul(dx, sub(y(num(u)), y(num(q)))), mul(dy, sub(x(num(u)), x(num(q))))), d))
                    V.holds('point %s dropped between %s and %s' % (q, u, w), lor(le(d, num(Fraction(1, 10 ** 8))), le(away, tol)))
            unchanged(V, ('x', xs), ('y', ys))
        V.run(go)


for n_ in (2, 3, 4):
    superfluous(n_)
superfluous(5, 'thorough')


@suite.ob('force_non_decreasing', PW + 'force_non_decreasing')
def order(V):
    N = V.int('N', 2)
    for up in (True, False):
        nm = 'x' if up else 'r'
        xs = monotone_data(V, nm, N, up)
        ys = V.arr('y', N)
        d = V.int('d', 0)
        V.requires(lt(d, sub(N, one)), ne(app(nm, d), app(nm, add(d, one))))

        def go():
            r = V.call(PW + 'force_non_decreasing', xs, ys)
            (i,), rng = V.idx(N)
            j = i if up else sub(sub(N, one), i)
            for a, w, t in zip(r, (nm, 'y'), ('x', 'y')):
                V.length(t + ': number of points', a.dims[0], N)
                V.eq(t + (': kept' if up else ': reversed'), a.at(i), app(w, j), rng)
            unchanged(V, (nm, xs), ('y', ys))
        V.run(go)
