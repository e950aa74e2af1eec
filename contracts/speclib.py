"""Specification functions shared by the contracts (never read from the code)."""
import sys
import os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from fractions import Fraction
from dv import terms as tm, calc
from dv.terms import num, add, sub, mul, div, neg, lt, le, eq, ne, ite, land, lor, lnot, sin, cos, exp, log, var, fresh, app, bsum, power, sqrt
from dv import interp as ip
from dv.interp import Arr, Obj, plain, LList
from dv.prove import Fail
from dv.vc import Suite

INT = 'geotecha.speccon.integrals.'
PW = 'geotecha.piecewise.piecewise_linear_1d.'


def obj(**kw):
    o = Obj(None)
    o.d.update(kw)
    return o


def eigen(V, name='m', n='n', lo=1):
    """ordered positive eigenvalues m_0 < m_1 < ..."""
    n = V.int(n, lo)
    V.F.pointwise(name, n, lambda i: lt(num(0), app(name, i)))
    V.F.monotone(name, n)
    third = Fraction(1, 3)
    V.nice(lambda F: F.pointwise(name, n, lambda i: land(le(num(third), app(name, i)), le(app(name, i), num(15)))))
    V.nice(lambda F: spread(F, name, third))
    return n, V.arr(name, n)


def spread(F, name, gap):
    def g(apps):
        xs = [a for a in apps if a.op == 'app' and a.args[0] == name and len(a.args) == 2]
        for a in xs:
            for b in xs:
                if a is not b:
                    yield tm.implies(lt(a.args[1], b.args[1]), le(add(a, num(gap)), b))
    F.gen(g)


def layers(V, *props, top='zt', bot='zb', count='L'):
    """layers with zt < zb; properties at top and bottom"""
    L = V.int(count, 1)
    thick = lambda i: land(le(num(Fraction(1, 10)), sub(app(bot, i), app(top, i))), le(sub(app(bot, i), app(top, i)), num(2)),
                           le(num(-1), app(top, i)), le(app(top, i), num(2)))
    V.nice(lambda F: F.pointwise(top, L, thick))
    V.nice(lambda F: F.pointwise(bot, L, thick))
    V.F.pointwise(top, L, lambda i: lt(app(top, i), app(bot, i)))
    V.F.pointwise(bot, L, lambda i: lt(app(top, i), app(bot, i)))
    return L, [V.arr(p, L) for p in props] + [V.arr(top, L), V.arr(bot, L)]


def lin(yt, yb, zt, zb, z):
    """straight line through (zt, yt), (zb, yb)"""
    return add(yt, mul(div(sub(yb, yt), sub(zb, zt)), sub(z, zt)))


def layer_line(p, l, z, top='zt', bot='zb'):
    return lin(app(p + 't', l), app(p + 'b', l), app(top, l), app(bot, l), z)


def layer_slope(p, l, top='zt', bot='zb'):
    return div(sub(app(p + 'b', l), app(p + 't', l)), sub(app(bot, l), app(top, l)))


def layer_integral(L, f, top='zt', bot='zb'):
    """sum over layers of int_top^bot f(layer, z) dz"""
    k = fresh('k', 'I')
    return bsum(k, L, calc.integral(lambda z: f(k, z), app(top, k), app(bot, k)))


def D(f, n=1):
    """n-th derivative of z -> f(z)"""
    def g(z):
        t = fresh('z')
        r = f(t)
        for _ in range(n):
            r = calc.diff(r, t)
        return tm.subst(r, {t: z})
    return g


def phi(m):
    return lambda z: sin(mul(m, z))


def prove_matrix(V, A, n, spec, label=''):
    """A is n x n, symmetric, A[i,j] = spec(m_i, m_j) (diagonal treated separately:
    there the antiderivative has a different form)"""
    V.check(label + ' is a matrix', isinstance(A, Arr) and A.ndim == 2, 'result is not a 2-d array')
    V.length(label + ' rows', A.dims[0], n)
    V.length(label + ' columns', A.dims[1], n)
    (r, c), rng = V.idx(n, n)
    mr, mc = app('m', r), app('m', c)
    a = A.at(r, c)
    V.eq(label + ' diagonal', a, spec(mr, mr), rng + [eq(r, c)])
    V.eq(label + ' upper triangle', a, spec(mr, mc), rng + [lt(r, c)])
    V.eq(label + ' lower triangle', a, spec(mr, mc), rng + [lt(c, r)])
    V.eq(label + ' symmetric', a, A.at(c, r), rng)


def prove_vector(V, A, n, spec, label=''):
    V.check(label + ' is a vector', isinstance(A, Arr) and A.ndim == 1, 'result is not a 1-d array')
    V.length(label + ' length', A.dims[0], n)
    (r,), rng = V.idx(n)
    V.eq(label + ' entry', A.at(r), spec(app('m', r)), rng)


def unchanged(V, *arrs):
    """frame: argument arrays keep their contents"""
    for name, a in arrs:
        vs, pc = V.idx(*[d.length() for d in a.dims])
        V.eq('argument %s not modified' % name, a.at(*vs), app(name, *vs), pc)


def make_common(pairs, V):
    """contract of polyline_make_x_common at a call site: the same lines, each
    re-expressed on the common break points"""
    V.trusted.add('callee contract: polyline_make_x_common re-expresses each line on common break points (decided under the PolyLine properties)')

    def common(I, f, args, kw):
        V.check('all the lines, and no others, handed to the common-break-point routine',
                len(args) == len(pairs) and all(sum(a is p[0] for a in args) == 1 for p in pairs))
        got = [[p[1] for p in pairs if p[0] is a][0] for a in args]
        return tuple(obj(x1=g[0], x2=g[1], y1=g[2], y2=g[3]) for g in got)
    return common


def line_obj(V, name):
    """an arbitrary polyline argument, with its own segments"""
    L = V.int('N' + name, 1)
    return obj(x1=V.arr(name + 'x1', L), x2=V.arr(name + 'x2', L), y1=V.arr(name + 'y1', L), y2=V.arr(name + 'y2', L))


# ---------------------------------------------------------------- piecewise data
def monotone_data(V, name, n, up=True, strict=False):
    """x_0 <= x_1 <= ... (or >=), length n"""
    V.F.monotone(name, n, strict=strict, up=up)
    return V.arr(name, n)


def encloses(x, k, v, up=True):
    """segment k of the data x (a function of the index) is not a step and contains v"""
    a, b = x(k), x(add(k, num(1)))
    return land(ne(a, b), le(a, v), le(v, b)) if up else land(ne(a, b), le(b, v), le(v, a))


def fn_of(name, sort='R'):
    return lambda *i: app(name, *i, sort=sort)


def item(V, r, i):
    """element i of a python list result"""
    return V.I.getitem(r, i)


def opt(v):
    """list of at most one element -> (nonempty, element)"""
    if isinstance(v, LList):
        v = v.v
    if isinstance(v, ip.FSeq):
        return v.c, ip.lift(v.x)
    if isinstance(v, list) and len(v) == 1:
        return tm.TRUE, ip.lift(v[0])
    if isinstance(v, list) and not v:
        return tm.FALSE, None
    if isinstance(v, Arr) and v.ndim == 1:
        d = v.dims[0]
        if d.sizes[0] is num(1):
            return d.condat((num(0),)), ip.lift(v.at(num(0)))
        if d.sizes[0] is num(0):
            return tm.FALSE, None
    raise ip.Unsupported('not a list of at most one element: %r' % (v,))


def members(V, a):
    """1-d integer array -> predicate 'k is listed'"""
    d = a.dims[0]
    q = d.fresh('q')
    def pred(k):
        v = a.at(q)
        return tm.exists(q, d.sizes[0], land(d.condat((q,)), eq(ip.lift(v), k)))
    return pred


def length(V, r):
    from dv import nplib
    return ip.lift(nplib.length(V.I, r))


def selection(V, label, a, pred, pc=()):
    """1-d integer array lists exactly the k with pred(k), once each, in increasing order"""
    if isinstance(a, LList):
        a = V.call_np('asarray', a)
    V.check(label + ': one-dimensional', isinstance(a, Arr) and a.ndim == 1 and len(a.dims[0].sizes) == 1)
    d = a.dims[0]
    p, q = fresh('p', 'I'), fresh('q', 'I')
    inn = lambda v: d.inrange((v,))
    k = fresh('k', 'I')
    pc = list(pc)
    V.holds(label + ': only such segments', pred(ip.lift(a.at(q))), pc + [inn(q)])
    V.holds(label + ': increasing', lt(ip.lift(a.at(p)), ip.lift(a.at(q))), pc + [inn(p), inn(q), lt(p, q)])
    V.holds(label + ': every such segment', members(V, a)(k), pc + [pred(k)])


# ------------------------------------------------ callee contracts (decided under C13/C14)
import itertools as _it
_serial = _it.count()
C13 = 'callee contract, discharged under C13: '
C14 = 'callee contract, discharged under C14: '


def vec(V, a):
    """scalar or 1-d argument -> (length, function of the index)"""
    if ip.isnumber(a):
        return num(1), lambda i: ip.lift(a)
    if isinstance(a, LList):
        a = V.call_np('asarray', a)
    if a.ndim == 0:
        return num(1), lambda i: ip.lift(a.at())
    assert a.ndim == 1 and a.dims[0].plain
    f = a.snap()
    return a.dims[0].size, lambda i: ip.lift(f(i))


class Data(object):
    """monotone break points x_0..x_{N-1} known to the contract"""
    def __init__(self, x, N, up=True):
        self.x, self.N, self.up = x, num(N), up

    def match(self, V, what, a):
        n, f = vec(V, a)
        k = fresh('k', 'I')
        V.holds('%s: called with the break points (count)' % what, eq(n, self.N))
        V.eq('%s: called with the break points' % what, f(k), self.x(k), [le(num(0), k), lt(k, self.N)])

    def inside(self, v):
        lo, hi = (self.x(num(0)), self.x(sub(self.N, num(1))))
        return land(le(lo, v), le(v, hi)) if self.up else land(le(hi, v), le(v, lo))

    def locate(self, V, vals, choose_max):
        """ghost function s(i): the first/last segment containing vals(i), has(i)"""
        memo = self.__dict__.setdefault('_located', {})
        key = (vals(tm.var('_any', 'I')), choose_max, id(V.F))
        if key in memo:
            return memo[key]
        nm = 'seg!%d' % next(_serial)
        s = fn_of(nm, 'I')
        has = fn_of(nm + 'has', 'B')
        x, N, up = self.x, self.N, self.up
        n1 = sub(N, num(1))

        m1, m2 = {}, {}

        def g(apps):
            its = []
            for a in apps:
                if a.op == 'app' and a.args[0] in (nm, nm + 'has') and a.args[1] not in its:
                    its.append(a.args[1])
            ks = None
            for i in its:
                if i not in m1:
                    v = vals(i)
                    h = has(i)
                    m1[i] = (tm.implies(h, land(le(num(0), s(i)), lt(s(i), n1), encloses(x, s(i), v, up))),
                             tm.implies(land(self.inside(v), ne(x(num(0)), x(n1))), h),
                             tm.implies(lnot(self.inside(v)), lnot(h)))
                yield from m1[i]
                if ks is None:
                    from dv import prove
                    ks = prove.index_terms(apps)
                for k in ks:
                    if (i, k) not in m2:
                        rng = land(le(num(0), k), lt(k, n1), encloses(x, k, vals(i), up))
                        m2[i, k] = (tm.implies(rng, has(i)), tm.implies(rng, le(k, s(i)) if choose_max else le(s(i), k)))
                    yield from m2[i, k]
        V.F.gen(g)
        memo[key] = (s, has)
        return s, has


def take(args, kw, names, defaults={}):
    """bind call arguments of a modelled callee"""
    d = dict(defaults)
    d.update(zip(names, args))
    d.update(kw)
    return [d[k] for k in names]


def same_arr(V, label, a, b):
    """the array handed over holds the same values"""
    if a is b:
        return V.check(label, True)
    if isinstance(a, LList):
        a = V.call_np('asarray', a)
    V.check(label, isinstance(a, Arr) and a.ndim == b.ndim)
    for p, q in zip(a.dims, b.dims):
        V.holds(label, eq(p.length(), q.length()))
    vs, pc = V.idx(*[d.length() for d in b.dims])
    V.eq(label, a.at(*vs), b.at(*vs), pc)


def family(V, label, a, name):
    """the array handed over is name(k.., .); returns the k"""
    V.check(label, isinstance(a, Arr) and a.ndim == 1)
    q = fresh('q', 'I')
    t = ip.lift(a.at(q))
    V.check(label, t.op == 'app' and t.args[0] == name and t.args[-1] is q, 'not the line expected here')
    return t.args[1:-1]


def model_segment_containing(V, data):
    """contract of segment_containing_xi for this data"""
    def model(I, f, args, kw):
        V.trusted.add(C13 + 'segment_containing_xi')
        xa, xi, subset, cm = take(args, kw, ['x', 'xi', 'subset', 'choose_max'], {'subset': None, 'choose_max': False})
        if subset is not None:
            raise ip.Unsupported('subset argument')
        data.match(V, 'segment_containing_xi', xa)
        K, v = vec(V, xi)
        s, has = data.locate(V, v, I.truth(cm))
        return LList(ip.Seq(K, lambda i: LList(ip.FSeq(has(i), s(i)))))
    V.I.contracts[PW + 'segment_containing_xi'] = model


def model_between(V, data, seen=None):
    """contract of segments_between_xi_and_xj for this data"""
    def model(I, f, args, kw):
        V.trusted.add(C13 + 'segments_between_xi_and_xj')
        xa, xi, xj = take(args, kw, ['x', 'xi', 'xj'])
        data.match(V, 'segments_between_xi_and_xj', xa)
        K, u = vec(V, xi)
        K2, w = vec(V, xj)
        V.holds('segments_between_xi_and_xj: as many lower as upper limits', eq(K, K2))
        (i,), rng = V.idx(K)
        V.holds('segments_between_xi_and_xj: lower limit below upper limit', lt(u(i), w(i)), rng)
        s1, h1 = data.locate(V, u, True)
        s2, h2 = data.locate(V, w, False)
        has = lambda i: land(h1(i), h2(i))
        n1 = sub(data.N, num(1))

        def g(apps):
            its = {a.args[1] for a in apps if a.op == 'app' and a.args[0] in (s1(num(0)).args[0], s2(num(0)).args[0], h1(num(0)).args[0])}
            for i in sorted(its, key=lambda t: t.id):
                yield tm.implies(has(i), le(s1(i), s2(i)))
        V.F.gen(g)
        if seen is not None:
            seen.append((s1, s2, has))
        one = lambda c, v: Arr([ip.Dim((num(1),), lambda j: c)], lambda j: v, 'i')
        return (LList(ip.Seq(K, lambda i: one(land(has(i), eq(s1(i), s2(i))), s1(i)))),
                LList(ip.Seq(K, lambda i: one(land(has(i), ne(s1(i), s2(i))), s1(i)))),
                LList(ip.Seq(K, lambda i: one(land(has(i), ne(s1(i), s2(i))), s2(i)))),
                LList(ip.Seq(K, lambda i: Arr([ip.Dim((n1,), lambda k: land(has(i), lt(s1(i), k), lt(k, s2(i))))], lambda k: k, 'i'))))
    V.I.contracts[PW + 'segments_between_xi_and_xj'] = model


def interp_spec(data, line, s, has, v, y0, yn):
    """value of piecewise data at v: on segment s, end values outside"""
    n1 = sub(data.N, num(1))
    low = lt(v, data.x(num(0))) if data.up else lt(data.x(num(0)), v)
    return ite(has, line(s, v), ite(low, y0, yn))


def seg_line(x, y1, y2):
    return lambda k, z: lin(y1(k), y2(k), x(k), x(add(k, num(1))), z)


def spread_data(V, name, n):
    """break points are equal or well apart (counterexamples)"""
    def f(F):
        def g(apps):
            xs = [a for a in apps if a.op == 'app' and a.args[0] == name and len(a.args) == 2]
            for a in xs:
                for b in xs:
                    if a is not b:
                        yield lor(eq(a, b), le(num(Fraction(1, 5)), tm.absT(sub(a, b))))
                yield land(le(num(-5), a), le(a, num(5)))
        F.gen(g)
    V.nice(f)


def both_model(V, data, lines, kind, locs=None):
    """contract of interp_x_y / interp_x1_x2_y1_y2 for this data and these ordinates"""
    def model(I, f, args, kw):
        V.trusted.add(C14 + f.name)
        if kind == 'xy':
            xa, ya, xi, cm = take(args, kw, ['x', 'y', 'xi', 'choose_max'], {'choose_max': False})
            same_arr(V, 'interpolates the given ordinates', ya, lines['y'])
            yy = fn_of_arr(ya)
            y1, y2, last = yy, lambda k: yy(add(k, num(1))), yy(sub(data.N, num(1)))
            data.match(V, f.name, xa)
        else:
            x1, x2, ya, yb, xi, cm = take(args, kw, ['x1', 'x2', 'y1', 'y2', 'xi', 'choose_max'], {'choose_max': False})
            for q, w in zip((x1, x2, ya, yb), ('x1', 'x2', 'y1', 'y2')):
                same_arr(V, 'interpolates the given ordinates', q, lines[w])
            y1, y2 = fn_of_arr(ya), fn_of_arr(yb)
            last = y2(sub(data.N, num(2)))
        K, v = vec(V, xi)
        cm = I.truth(cm)
        s, has = (locs or data.locate)(V, v, cm)
        line = seg_line(data.x, y1, y2)
        return Arr([plain(K)], lambda i: interp_spec(data, line, s(i), has(i), v(i), y1(num(0)), last), 'f')
    V.I.contracts[PW + {'xy': 'interp_x_y', 'x1x2': 'interp_x1_x2_y1_y2'}[kind]] = model


def fn_of_arr(a):
    f = a.snap()
    return lambda i: ip.lift(f(i))


def limits(V, data, K, lo='xi', hi='xj'):
    """limits lo_i < hi_i within the data"""
    f = lambda i: land(lt(app(lo, i), app(hi, i)), data.inside(app(lo, i)), data.inside(app(hi, i)))
    V.F.pointwise(lo, K, f)
    V.F.pointwise(hi, K, f)
    return V.arr(lo, K), V.arr(hi, K)


def clipped_integral(V, label, data, f, u, w, i, pc):
    """sum over segments k of the integral of f(k, .) over [x_k, x_{k+1}] clipped to [u, w].
    f: (k, z) -> integrand.  Returns the sum regrouped around the segments holding the limits; the
    regrouping is proved segment by segment.  i: the index of this pair of limits."""
    x, N = data.x, data.N
    n1 = sub(N, num(1))
    s1, h1 = data.locate(V, lambda j: tm.subst(u, {i: j}), True)
    s2, h2 = data.locate(V, lambda j: tm.subst(w, {i: j}), False)
    s1, s2 = s1(i), s2(i)
    F = lambda k, a, b: calc.integral(lambda z: f(k, z), a, b)
    k = fresh('k', 'I')
    xk, xn = x(k), x(add(k, num(1)))
    lo, hi = tm.maxt(xk, u), tm.mint(xn, w)
    clip = ite(land(lt(xk, xn), lt(lo, hi)), F(k, lo, hi), num(0))
    Z = num(0)
    reg = add(ite(eq(k, s1), ite(eq(s1, s2), F(k, u, w), F(k, u, xn)), Z),
              ite(land(ne(s1, s2), eq(k, s2)), F(k, xk, w), Z),
              ite(land(lt(s1, k), lt(k, s2), lt(xk, xn)), F(k, xk, xn), Z))
    V.holds(label + ': limits are located', land(h1(i), h2(i), le(s1, s2)), pc)
    V.eq(label + ': definition clipped to each segment', clip, reg, list(pc) + [le(num(0), k), lt(k, n1)])
    return bsum(k, n1, reg)


# ------------------------------------------------ load histories (ramps, constants, steps)
def model_less(V, data, y):
    """contract of segment_containing_also_segments_less_than_xi for this load history"""
    x = data.x
    nx = lambda f, k: f(add(k, num(1)))
    kinds = [lambda k: land(ne(x(k), nx(x, k)), ne(y(k), nx(y, k))),
             lambda k: land(ne(x(k), nx(x, k)), eq(y(k), nx(y, k))),
             lambda k: land(eq(x(k), nx(x, k)), ne(y(k), nx(y, k)))]

    def model(I, f, args, kw):
        V.trusted.add(C13 + f.name)
        xa, ya, xi, soe, roe, cm = take(args, kw, ['x', 'y', 'xi', 'steps_or_equal_to', 'ramp_const_or_equal_to', 'choose_max'],
                                        {'steps_or_equal_to': True, 'ramp_const_or_equal_to': False, 'choose_max': False})
        data.match(V, f.name, xa)
        n, fy = vec(V, ya)
        k = fresh('k', 'I')
        V.holds(f.name + ': called with the load values (count)', eq(n, data.N))
        V.eq(f.name + ': called with the load values', fy(k), y(k), [le(num(0), k), lt(k, data.N)])
        K, t = vec(V, xi)
        cm = I.truth(cm)
        rel = [le if I.truth(q) else lt for q in (roe, roe, soe)]
        s, has = data.locate(V, t, cm)
        n1 = sub(data.N, num(1))
        before = [LList(ip.Seq(K, lambda i, c=c, r=r: Arr([ip.Dim((n1,), lambda k: land(c(k), r(nx(x, k), t(i))))], lambda k: k, 'i')))
                  for c, r in zip(kinds, rel)]
        at = [LList(ip.Seq(K, lambda i, c=c: Arr([ip.Dim((num(1),), lambda j: land(has(i), c(s(i))))], lambda j: s(i), 'i'))) for c in kinds[:2]]
        return tuple(before + at)
    V.I.contracts[PW + 'segment_containing_also_segments_less_than_xi'] = model


def history_integral(V, label, data, f, t, i, pc, step=None):
    """sum over segments k of int_{x_k}^{min(x_{k+1}, t)} f(k, tau) dtau (segments reached by t), plus
    step(k) for instantaneous steps not after t; regrouped (and the regrouping proved)"""
    x, N = data.x, data.N
    n1 = sub(N, num(1))
    s, has = data.locate(V, lambda j: tm.subst(t, {i: j}), False)
    s, has = s(i), has(i)
    F = lambda k, a, b: calc.integral(lambda z: f(k, z), a, b)
    k = fresh('k', 'I')
    Z = num(0)
    xk, xn = x(k), x(add(k, num(1)))
    clip = ite(land(lt(xk, xn), lt(xk, t)), F(k, xk, tm.mint(xn, t)), Z)
    reg = add(ite(land(ne(xk, xn), lt(xn, t)), F(k, xk, xn), Z), ite(land(has, eq(k, s)), F(k, xk, t), Z))
    V.eq(label + ': definition clipped to the output time', clip, reg, list(pc) + [le(num(0), k), lt(k, n1)])
    if step is not None:
        reg = add(reg, ite(land(eq(xk, xn), le(xn, t)), step(k), Z))
    return bsum(k, n1, reg)


# ------------------------------------------------ scalar relations
def inputs(V, name, *conds):
    """the argument as a scalar and as an array of any length"""
    K = V.int('K', 1)
    for f in conds:
        V.F.pointwise(name + 's', K, lambda i: f(app(name + 's', i)))
    return [('scalar', V.real(name, *[f(var(name)) for f in conds]), None),
            ('array', V.arr(name + 's', K), K)]


def compare(V, label, r, K, want):
    """r (scalar or array) equals want(argument)"""
    if K is None:
        V.eq(label + ' (scalar)', ip.lift(r.at() if isinstance(r, Arr) else r), want)
    else:
        V.check(label + ' (array) is an array', isinstance(r, Arr) and r.ndim == 1)
        V.length(label + ' (array) one value per argument', r.dims[0], K)
        (i,), rng = V.idx(K)
        V.eq(label + ' (array)', r.at(i), want(i), rng)


pos = lambda t: lt(num(0), t)


def line(xd, yd, fx, fy, s, v):
    """fy(y) on the straight line of segment s in the (fx(x), fy(y)) plane"""
    s1 = add(s, num(1))
    return add(fy(app(yd, s)), mul(div(sub(fy(app(yd, s1)), fy(app(yd, s))), sub(fx(app(xd, s1)), fx(app(xd, s)))), sub(fx(v), fx(app(xd, s)))))


def two_way(V, label, got, v, xd, yd, s, fx, fy, up, pc):
    """got is the value of segment s's line for every v in the closed segment; with the
    same statement of the inverse direction, and the lines' mutual inverse below, the
    round trips are identities"""
    a, b = app(xd, s), app(xd, add(s, num(1)))
    lo, hi = (a, b) if up else (b, a)
    want = line(xd, yd, fx, fy, s, v)
    for nm, c in (('at the start', [eq(v, a)]), ('at the end', [eq(v, b)]), ('inside', [lt(lo, v), lt(v, hi)])):
        V.eq('%s: on the line of its segment (%s)' % (label, nm), got, want, pc + c)
    # lemma: the line maps the segment into the other axis' segment and is undone by the inverse line
    x0, x1, y0, y1, g = [fresh(t) for t in ('x0', 'x1', 'y0', 'y1', 'g')]
    ln = lambda x0, x1, y0, y1, g: add(y0, mul(div(sub(y1, y0), sub(x1, x0)), sub(g, x0)))
    f = ln(x0, x1, y0, y1, g)
    V.eq('lemma: inverse line', ln(y0, y1, x0, x1, f), g, [lt(x0, x1), ne(y0, y1)])
    V.holds('lemma: stays in the segment', lor(land(le(y0, f), le(f, y1)), land(le(y1, f), le(f, y0))),
            [lt(x0, x1), le(x0, g), le(g, x1), ne(y0, y1)])


def truth(v):
    """boolean result as a term"""
    if isinstance(v, Arr) and v.ndim == 0:
        v = v.at()
    if isinstance(v, bool):
        return tm.TRUE if v else tm.FALSE
    if isinstance(v, tm.T) and v.sort == 'B':
        return v
    raise Fail('not a truth value')


def iff(a, b):
    return land(tm.implies(a, b), tm.implies(b, a))
