"""C17: polyline arithmetic is pointwise and leaves its operands unchanged."""
from fractions import Fraction
from speclib import *
from dv import nplib, interp as ip
from dv.terms import absT

suite = Suite('C17')
suite.num = ['num_piecewise']
suite.bounded = ['the sum and difference of two polylines and the common-break-point routine sort and merge break points: their contracts are discharged '
                 'for lines of 2 and 3 points (2 and 2, 3 and 2, 2 and 3; any values, increasing and decreasing, with steps and shared break points); '
                 'longer lines (up to 9 points each) are evaluated at run time on samples']
suite.assumptions = ['two polylines: break points are equal or further apart than the tolerance of PolyLine (1e-5 + 1e-8 |x|), and no break point is superfluous',
                     'precondition of number / polyline: no ordinate is zero; the result is the quotient at the break points']
PL = PW + 'PolyLine'
x, y = fn_of('x'), fn_of('y')
OPS = {'p + c': (lambda V, p, c: V.I.binop('Add', p, c), lambda v, c: add(v, c)),
       'c + p': (lambda V, p, c: V.I.binop('Add', c, p), lambda v, c: add(v, c)),
       'p - c': (lambda V, p, c: V.I.binop('Sub', p, c), lambda v, c: sub(v, c)),
       'c - p': (lambda V, p, c: V.I.binop('Sub', c, p), lambda v, c: sub(c, v)),
       'p * c': (lambda V, p, c: V.I.binop('Mult', p, c), lambda v, c: mul(v, c)),
       'c * p': (lambda V, p, c: V.I.binop('Mult', c, p), lambda v, c: mul(v, c)),
       'p / c': (lambda V, p, c: V.I.binop('Div', p, c), lambda v, c: div(v, c)),
       'c / p': (lambda V, p, c: V.I.binop('Div', c, p), lambda v, c: div(c, v))}


def make(V, fmt):
    N = V.int('N', 2)
    xs, ys = V.arr('x', N), V.arr('y', N)
    if fmt == 'x, y':
        return N, V.call(PL, xs, ys)
    P = Arr([plain(N), plain(num(2))], lambda i, j: ite(eq(j, num(0)), x(i), y(i)), 'f')
    return N, V.call(PL, P)


def holds_points(V, label, p, N, wy):
    for nm, w in (('x', x), ('y', wy)):
        a = V.I.getattr(p, nm)
        V.check('%s: %s is an array' % (label, nm), isinstance(a, Arr) and a.ndim == 1)
        V.length('%s: as many points' % label, a.dims[0], N)
        (i,), rng = V.idx(N)
        V.eq('%s: %s' % (label, nm), a.at(i), w(i), rng)


def mk(op, fmt):
    @suite.ob('%s[%s]' % (op, fmt), PL, PL + '.__add__', PL + '._add_substract', PL + '.__mul__', PL + '.__truediv__', PL + '.__rtruediv__')
    def f(V):
        c = V.real('c', ne(var('c'), num(0)))
        V.F.pointwise('y', V.int('N', 2), lambda i: ne(y(i), num(0)))

        def go():
            N, p = make(V, fmt)
            r = OPS[op][0](V, p, c)
            V.check('a new polyline', r is not p and isinstance(r, Obj) and r.cls.name == 'PolyLine')
            holds_points(V, 'result', r, N, lambda i: OPS[op][1](y(i), c))
            holds_points(V, 'operand unchanged', p, N, y)
        V.run(go)


for op in OPS:
    for fmt in ('x, y', 'points'):
        mk(op, fmt)


def mk2(op):
    @suite.ob('two polylines: %s rejected' % op, PL)
    def f(V):
        N, M = V.int('N', 2), V.int('M', 2)
        V.arr('x', N)

        def go():
            p = V.call(PL, V.arr('x', N), V.arr('y', N))
            q = V.call(PL, V.arr('u', M), V.arr('w', M))
            V.raises('a product or quotient of two polylines is rejected', lambda: V.I.binop(op, p, q), 'TypeError')
        V.run(go)


mk2('Mult')
mk2('Div')


# ---- sum, difference and common break points of two polylines with few points (bounded)
def small_arrays(V):
    """arrays of known length: the elements selected by a mask, and the order of sorting, are decided case by case"""
    I = V.I
    lib = V.I.libs['numpy'].d
    where = lib['where']

    def nz(c):
        c = nplib.toarr(I, c)
        n = ip.conc(c.dims[0].size)
        V.check('a mask of known length', c.ndim == 1 and isinstance(n, int))
        k = [num(j) for j in range(n) if I.truth(c.at(num(j)))]
        return (nplib.toarr(I, k) if k else Arr([plain(num(0))], lambda i: num(0), 'i'),)

    def lexsort(keys):
        ks = [nplib.toarr(I, a) for a in (keys if isinstance(keys, (tuple, list)) else I.listify(keys))][::-1]
        n = ip.conc(ks[0].dims[0].size)

        def before(p, q):
            for a in ks:
                u, w = ip.lift(a.at(num(p))), ip.lift(a.at(num(q)))
                if u is w:
                    continue
                if I.truth(lt(u, w)):
                    return True
                if I.truth(lt(w, u)):
                    return False
            return p < q
        out = []
        for p in range(n):
            j = len(out)
            while j and before(p, out[j - 1]):
                j -= 1
            out.insert(j, p)
        return nplib.toarr(I, [num(p) for p in out])
    lib['nonzero'] = ip.Builtin(nz, 'np.nonzero')
    lib['where'] = ip.Builtin(lambda c, *ab: where.f(c, *ab) if ab else nz(c), 'np.where')
    lib['lexsort'] = ip.Builtin(lexsort, 'np.lexsort')


def value_at(I, X, Y, t, right):
    """value of the polyline at t, from the left or the right; end values beyond its ends"""
    n = len(X)
    ks = range(n)
    on = [k for k in ks if I.truth(eq(X[k], t))]
    if on:
        return Y[on[-1] if right else on[0]]
    if I.truth(lt(t, X[0])):
        return Y[0]
    for k in range(n - 1):
        if I.truth(lt(X[k], t)) and I.truth(lt(t, X[k + 1])):
            return add(Y[k], div(mul(sub(Y[k + 1], Y[k]), sub(t, X[k])), sub(X[k + 1], X[k])))
    return Y[-1]


TOL = lambda t: add(num(Fraction(1, 10 ** 5)), mul(num(Fraction(1, 10 ** 8)), absT(t)))     # PolyLine's own tolerances


def two_lines(V, sizes, down):
    """increasing (or decreasing) break points, equal or clearly apart, of each line"""
    lines = []
    for nm, n, dn in zip('ab', sizes, down):
        X = [V.real('x%s%s' % (nm, k)) for k in range(n)]
        Y = [V.real('y%s%s' % (nm, k)) for k in range(n)]
        for u, w in zip(X, X[1:]):
            V.requires(le(u, w))
        V.requires(lt(X[0], X[-1]))
        lines.append((X, Y, dn))
    every = [t for X, _, _ in lines for t in X]
    for p, u in enumerate(every):
        for w in every[p + 1:]:
            V.requires(lor(eq(u, w), land(le(TOL(u), absT(sub(u, w))), le(TOL(w), absT(sub(u, w))))))
    return lines


def as_polyline(V, l):
    X, Y, dn = l
    I = V.I
    xs, ys = (X[::-1], Y[::-1]) if dn else (X, Y)
    return V.call(PL, nplib.toarr(I, list(xs)), nplib.toarr(I, list(ys)))


def points_of(V, r, what):
    V.check('%s is a polyline' % what, isinstance(r, Obj) and r.cls.name == 'PolyLine')
    xs, ys = V.I.getattr(r, 'x'), V.I.getattr(r, 'y')
    n = ip.conc(xs.dims[0].size)
    V.check('%s: a known number of points' % what, isinstance(n, int) and ip.conc(ys.dims[0].size) == n)
    return [ip.lift(xs.at(num(k))) for k in range(n)], [ip.lift(ys.at(num(k))) for k in range(n)]


def interp_model(V):
    def model(I, f, a, kw):
        xs, ys, t = a[:3]
        right = kw.get('choose_max', a[3] if len(a) > 3 else False)
        n = ip.conc(xs.dims[0].size)
        X, Y = [ip.lift(xs.at(num(k))) for k in range(n)], [ip.lift(ys.at(num(k))) for k in range(n)]
        return nplib.toarr(I, [value_at(I, X, Y, ip.lift(t), right)])
    V.I.contracts[PW + 'interp_x_y'] = model


def reproduces(V, what, pts, at, lines):
    """the points are those of the function `at(t, right)` with the break points of all lines"""
    I = V.I
    xs, ys = pts
    for p, q in zip(xs, xs[1:]):
        V.holds('%s: break points in order' % what, le(p, q))
    for nm, (X, _, _) in zip('ab', lines):
        for k, t in enumerate(X):
            V.holds('%s: break point %s of %s' % (what, k, nm), lor(*[eq(t, p) for p in xs]))
    for k, p in enumerate(xs):
        V.check('%s: point %s is at a break point' % (what, k), any(I.truth(eq(p, t)) for X, _, _ in lines for t in X))
        first = k == 0 or not I.truth(eq(xs[k - 1], p))
        last = k == len(xs) - 1 or not I.truth(eq(xs[k + 1], p))
        V.check('%s: at most two points at one place' % what, first or last)
        l, r = at(p, False), at(p, True)
        if first:
            V.eq('%s: value before point %s' % (what, k), ys[k], l)
            if last:
                V.holds('%s: no step at point %s' % (what, k), le(absT(sub(l, r)), TOL(r)))
        else:
            V.eq('%s: value after point %s' % (what, k), ys[k], r)


def mk3(op, sizes, down, tier='quick'):
    @suite.ob('two polylines: %s[%s and %s points%s]' % (op, sizes[0], sizes[1], ''.join(', %s decreasing' % n for n, d in zip('ab', down) if d)),
              *([PW + 'polyline_make_x_common'] if op == 'common' else [PL + '._add_substract', PL + {'Add': '.__add__', 'Sub': '.__sub__'}[op]]), tier=tier)
    def f(V):
        lines = two_lines(V, sizes, down)
        small_arrays(V)
        interp_model(V)
        V.I.contracts[PW + 'remove_superfluous_from_x_y'] = lambda I, f, a, kw: (a[0], a[1])

        def go():
            I = V.I
            p, q = [as_polyline(V, l) for l in lines]
            before = [points_of(V, o, 'operand') for o in (p, q)]
            val = [(lambda X, Y: lambda t, right: value_at(I, X, Y, t, right))(X, Y) for X, Y, _ in lines]
            if op == 'common':
                r = V.call(PW + 'polyline_make_x_common', p, q)
                V.check('as many polylines', isinstance(r, tuple) and len(r) == 2)
                for k in (0, 1):
                    reproduces(V, 'line %s' % k, points_of(V, r[k], 'line %s' % k), val[k], lines)
            else:
                g = {'Add': add, 'Sub': sub}[op]
                r = I.binop(op, p, q)
                V.check('a new polyline', r is not p and r is not q)
                reproduces(V, 'result', points_of(V, r, 'result'), lambda t, right: g(val[0](t, right), val[1](t, right)), lines)
            for nm, o, b in zip('ab', (p, q), before):
                now = points_of(V, o, 'operand')
                for u, w in zip(b[0] + b[1], now[0] + now[1]):
                    V.eq('operand %s unchanged' % nm, u, w)
        V.run(go)


for op_ in ('Add', 'Sub', 'common'):
    for down_ in ((False, False), (True, False), (False, True), (True, True)):
        mk3(op_, (2, 2), down_)
    mk3(op_, (3, 2), (False, False), 'quick' if op_ != 'Sub' else 'thorough')
    mk3(op_, (2, 3), (False, False), 'quick' if op_ == 'Sub' else 'thorough')
