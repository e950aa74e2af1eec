"""C13: locating and classifying segments of piecewise data."""
from speclib import *

suite = Suite('C13')
suite.num = ['num_piecewise']
suite.assumptions = ['precondition (documented): x is monotonic with at least two points']
x = fn_of('x')


def witness(V, N, v, up):
    """x_0 .. x_{N-1} reaches past v  =>  some segment contains v   (induction over the data)"""
    lo = (lambda a, b: le(a, b)) if up else (lambda a, b: le(b, a))
    w = fn_of('w', 'I')
    reach = lambda k: land(ne(x(k), x(num(0))), lo(v, x(k)))
    V.forall(sub(N, num(1)), lambda k: eq(w(add(k, num(1))), ite(reach(k), w(k), k)))
    V.requires(lo(x(num(0)), v))
    V.induct('a value within the data lies in some segment', N,
             lambda k: tm.implies(reach(k), land(le(num(0), w(k)), lt(w(k), k), encloses(x, w(k), v, up))))
    return reach(sub(N, num(1)))


def located(V, N, up, choose_max, c, s, v):
    k = fresh('k', 'I')
    some = tm.exists(k, sub(N, num(1)), encloses(x, k, v, up))
    V.holds('reported iff some segment contains the value', eq(c, some))
    if s is None:
        raise Fail('never reports a segment')
    V.holds('segment exists', land(le(num(0), s), lt(s, sub(N, num(1)))), [c])
    V.holds('segment contains the value', encloses(x, s, v, up), [c])
    V.holds('last' if choose_max else 'first', tm.lnot(encloses(x, k, v, up)),
            [c, le(num(0), k), lt(k, sub(N, num(1))), lt(s, k) if choose_max else lt(k, s)])


def mk(up, choose_max):
    nm = '%s,choose_max=%s' % ('non-decreasing' if up else 'non-increasing', choose_max)

    @suite.ob('segment_containing_xi[%s]' % nm, PW + 'segment_containing_xi')
    def f(V):
        N, K = V.int('N', 2), V.int('K', 1)
        xs, xi = monotone_data(V, 'x', N, up), V.arr('xi', K)

        def go():
            r = V.call(PW + 'segment_containing_xi', xs, xi, choose_max=choose_max)
            V.holds('one entry per value', eq(ip.lift(length(V, r)), K))
            (i,), rng = V.idx(K)
            V.I.pc += rng
            c, s = opt(item(V, r, i))
            located(V, N, up, choose_max, c, s, app('xi', i))
            unchanged(V, ('x', xs), ('xi', xi))
        V.run(go)

    @suite.ob('segment_containing_xi complete[%s]' % nm, PW + 'segment_containing_xi')
    def g(V):
        N = V.int('N', 2)
        xs, v = monotone_data(V, 'x', N, up), V.real('v')
        within = witness(V, N, v, up)

        def go():
            r = V.call(PW + 'segment_containing_xi', xs, v, choose_max=choose_max)
            c, s = opt(item(V, r, num(0)))
            V.holds('a value within the data is located', c, [within])
        V.run(go)


for up in (True, False):
    for cm in (False, True):
        mk(up, cm)


y = fn_of('y')
in_data = lambda N, k: land(le(num(0), k), lt(k, sub(N, num(1))))
nxt = lambda f, k: f(add(k, num(1)))
flat = lambda f, k: eq(f(k), nxt(f, k))
KINDS = {'ramps': lambda k: land(lnot(flat(x, k)), lnot(flat(y, k))),
         'constants': lambda k: land(lnot(flat(x, k)), flat(y, k)),
         'steps': lambda k: land(flat(x, k), lnot(flat(y, k)))}


def xy(V, lo=2):
    N = V.int('N', lo)
    return N, monotone_data(V, 'x', N), V.arr('y', N)


def mk2(kind):
    @suite.ob('start_index_of_%s' % kind, PW + 'start_index_of_%s' % kind)
    def f(V):
        N, xs, ys = xy(V)

        def go():
            r = V.call(PW + 'start_index_of_' + kind, xs, ys)
            selection(V, kind, r, lambda k: land(in_data(N, k), KINDS[kind](k)))
            unchanged(V, ('x', xs), ('y', ys))
        V.run(go)


for k in KINDS:
    mk2(k)


@suite.ob('ramps_constants_steps', PW + 'ramps_constants_steps')
def rcs(V):
    N, xs, ys = xy(V)

    def go():
        r = V.call(PW + 'ramps_constants_steps', xs, ys)
        for a, kind in zip(r, ('ramps', 'constants', 'steps')):
            selection(V, kind, a, lambda k: land(in_data(N, k), KINDS[kind](k)))
    V.run(go)


def mk3(oe, subset):
    @suite.ob('segments_less_than_xi[or_equal_to=%s,subset=%s]' % (oe, subset), PW + 'segments_less_than_xi')
    def f(V):
        N, K = V.int('N', 2), V.int('K', 1)
        xs, xi = monotone_data(V, 'x', N), V.arr('xi', K)
        kw = {'or_equal_to': oe}
        inn = lambda k: in_data(N, k)
        if subset:
            M = V.int('M', 1)
            V.F.pointwise('s', M, lambda i: in_data(N, app('s', i, sort='I')))
            V.F.monotone('s', M)
            kw['subset'] = V.arr('s', M, sort='I')
            inn = lambda k: members(V, kw['subset'])(k)

        def go():
            r = V.call(PW + 'segments_less_than_xi', xs, xi, **kw)
            V.holds('one entry per value', eq(length(V, r), K))
            (i,), rng = V.idx(K)
            V.I.pc += rng
            v = app('xi', i)
            rel = le if oe else lt
            selection(V, 'less', item(V, r, i), lambda k: land(inn(k), rel(nxt(x, k), v)))
        V.run(go)


for oe in (False, True):
    for sb in (False, True):
        mk3(oe, sb)


def mk4(soe, roe, cm):
    @suite.ob('segment_containing_also_segments_less_than_xi[%s,%s,%s]' % (soe, roe, cm), PW + 'segment_containing_also_segments_less_than_xi')
    def f(V):
        N, xs, ys = xy(V)
        K = V.int('K', 1)
        xi = V.arr('xi', K)

        def go():
            r = V.call(PW + 'segment_containing_also_segments_less_than_xi', xs, ys, xi, steps_or_equal_to=soe,
                       ramp_const_or_equal_to=roe, choose_max=cm)
            (i,), rng = V.idx(K)
            V.I.pc += rng
            v = app('xi', i)
            for a, kind in zip(r, ('ramps', 'constants', 'steps')):
                V.holds('one entry per value', eq(length(V, a), K))
                rel = le if (soe if kind == 'steps' else roe) else lt
                selection(V, kind + ' before', item(V, a, i),
                          lambda k: land(in_data(N, k), KINDS[kind](k), rel(nxt(x, k), v)))
            k = fresh('k', 'I')
            better = (lambda a, b: lt(b, a)) if cm else lt
            is_in = lambda k: land(in_data(N, k), encloses(x, k, v))
            for a, kind in zip(r[3:], ('ramps', 'constants')):
                V.holds('one entry per value', eq(length(V, a), K))
                c, s = opt(item(V, a, i))
                V.holds(kind + ' containing: contains the value', land(is_in(s), KINDS[kind](s)), [c])
                V.holds(kind + ' containing: ' + ('last' if cm else 'first'), lnot(land(is_in(k), better(k, s))), [c])
                q = fresh('q', 'I')
                V.holds(kind + ' containing: complete', c,
                        [is_in(k), KINDS[kind](k), lnot(tm.exists(q, sub(N, num(1)), land(is_in(q), better(q, k))))])
        V.run(go)


for soe in (True, False):
    for roe in (False, True):
        for cm in (False, True):
            mk4(soe, roe, cm)


@suite.ob('segment_containing_xi_also_containing_xj', PW + 'segment_containing_xi_also_containing_xj')
def both(V):
    N, K = V.int('N', 2), V.int('K', 1)
    xs, xi, xj = monotone_data(V, 'x', N), V.arr('xi', K), V.arr('xj', K)

    def go():
        r = V.call(PW + 'segment_containing_xi_also_containing_xj', xs, xi, xj)
        (i,), rng = V.idx(K)
        V.I.pc += rng
        for a, v, cm in ((r[0], 'xi', True), (r[1], 'xj', False)):
            c, s = opt(item(V, a, i))
            located(V, N, True, cm, c, s, app(v, i))
    V.run(go)


@suite.ob('segments_between_xi_and_xj', PW + 'segments_between_xi_and_xj')
def between(V):
    N, K = V.int('N', 2), V.int('K', 1)
    xs, xi, xj = monotone_data(V, 'x', N), V.arr('xi', K), V.arr('xj', K)
    V.F.pointwise('xi', K, lambda i: lt(app('xi', i), app('xj', i)))
    V.F.pointwise('xj', K, lambda i: lt(app('xi', i), app('xj', i)))

    def go():
        r = V.call(PW + 'segments_between_xi_and_xj', xs, xi, xj)
        V.check('four lists', isinstance(r, tuple) and len(r) == 4)
        for a in r:
            V.holds('one entry per value', eq(length(V, a), K))
        (i,), rng = V.idx(K)
        V.I.pc += rng
        u, v = app('xi', i), app('xj', i)
        n1 = sub(N, num(1))
        k = fresh('k', 'I')
        # the segment the interval starts in (last containing xi), and ends in (first containing xj)
        has = land(tm.exists(k, n1, encloses(x, k, u)), tm.exists(k, n1, encloses(x, k, v)))
        s1 = tm.first(k, n1, encloses(x, k, u), last=True)
        s2 = tm.first(k, n1, encloses(x, k, v))
        V.holds('the starting segment is not after the ending segment', le(s1, s2), [has])
        selection(V, 'both', item(V, r[0], i), lambda k: land(has, eq(s1, s2), eq(k, s1)))
        selection(V, 'start only', item(V, r[1], i), lambda k: land(has, ne(s1, s2), eq(k, s1)))
        selection(V, 'end only', item(V, r[2], i), lambda k: land(has, ne(s1, s2), eq(k, s2)))
        selection(V, 'between', item(V, r[3], i), lambda k: land(has, lt(s1, k), lt(k, s2)))
    V.run(go)
