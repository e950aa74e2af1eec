"""Run-time evaluation of the piecewise-linear contracts (C13-C18) by brute force."""
import math
import numpy as np
from dv.numh import check, close, main
import geotecha.piecewise.piecewise_linear_1d as pw
from geotecha.piecewise.piecewise_linear_1d import PolyLine

GX, GW = np.polynomial.legendre.leggauss(12)


def quad(f, a, b):
    z = 0.5 * (b - a) * GX + 0.5 * (b + a)
    return 0.5 * (b - a) * sum(w * f(t) for w, t in zip(GW, z))


def xdata(rng, rnd, n=None, steps=True, up=True, far=False):
    """monotone break points on a 1/8 grid, with repeats when steps"""
    n = n or rng.choice([2, 3, 4, 5, 6])
    x = [rng.randrange(-8, 8)]
    while len(x) < n:
        x.append(x[-1] + (0 if steps and rng.random() < 0.35 else rng.randrange(1, 6)))
    if x[-1] == x[0]:
        x[-1] += 3
    # now and then a small spacing far from the origin (thin layers at depth, short times late on)
    x = [1000 + v / 1024.0 for v in x] if far and rng.random() < 0.15 else [v / 8.0 for v in x]
    return x if up else [-v for v in x]


def ydata(rng, n):
    return [rng.choice([0.0, 1.0, 1.0, rng.randrange(-12, 12) / 4.0]) for _ in range(n)]


def queries(rng, x, k, outside=True):
    lo, hi = min(x), max(x)
    c = list(x) + [0.5 * (a + b) for a, b in zip(x, x[1:])] + [rng.uniform(lo, hi) for _ in range(3)]
    if outside:
        c += [lo - 0.25, hi + 0.5]
    return [rng.choice(c) for _ in range(k)]


def encl(x, k, v):
    return x[k] != x[k + 1] and min(x[k], x[k + 1]) <= v <= max(x[k], x[k + 1])


def containing(x, v, cm):
    ks = [k for k in range(len(x) - 1) if encl(x, k, v)]
    return ([ks[-1]] if cm else [ks[0]]) if ks else []


def ints(a):
    return [int(v) for v in np.asarray(a).ravel()]


def kind(x, y, k):
    dx, dy = x[k + 1] - x[k], y[k + 1] - y[k]
    if dx and dy:
        return 'ramps'
    if dx:
        return 'constants'
    if dy:
        return 'steps'
    return None


def same(what, got, want):
    if got != want:
        return '%s: got %s expected %s' % (what, got, want)


def keep(arrs, before):
    for a, b in zip(arrs, before):
        if not np.array_equal(a, b):
            return 'argument modified'


def g_loc(rng, rnd):
    x = xdata(rng, rnd, up=rnd % 2 == 0, far=True)
    return {'x': x, 'xi': queries(rng, x, 3), 'cm': rng.random() < 0.5}


@check('C13', 'segment_containing_xi', g_loc)
def t1(x, xi, cm):
    xa, va = np.array(x), np.array(xi)
    r = pw.segment_containing_xi(xa, va, choose_max=cm)
    return same('segments', [ints(s) for s in r], [containing(x, v, cm) for v in xi]) or keep((xa, va), (x, xi))


def g_xy(rng, rnd):
    x = xdata(rng, rnd, far=True)
    return {'x': x, 'y': ydata(rng, len(x)), 'xi': queries(rng, x, 3), 'soe': rng.random() < 0.5, 'roe': rng.random() < 0.5, 'cm': rng.random() < 0.5}


@check('C13', 'kinds', g_xy)
def t2(x, y, xi, soe, roe, cm):
    xa, ya = np.array(x), np.array(y)
    n = len(x) - 1
    want = {k: [i for i in range(n) if kind(x, y, i) == k] for k in ('ramps', 'constants', 'steps')}
    for k in want:
        e = same('start_index_of_' + k, ints(getattr(pw, 'start_index_of_' + k)(xa, ya)), want[k])
        if e:
            return e
    r = pw.ramps_constants_steps(xa, ya)
    for k, a in zip(('ramps', 'constants', 'steps'), r):
        e = same('ramps_constants_steps: ' + k, ints(a), want[k])
        if e:
            return e
    return keep((xa, ya), (x, y))


@check('C13', 'segments_less_than_xi', g_xy)
def t3(x, y, xi, soe, roe, cm):
    xa = np.array(x)
    le = (lambda a, b: a <= b) if soe else (lambda a, b: a < b)
    r = pw.segments_less_than_xi(xa, np.array(xi), or_equal_to=soe)
    e = same('less', [ints(a) for a in r], [[k for k in range(len(x) - 1) if le(x[k + 1], v)] for v in xi])
    if e:
        return e
    sub = list(range(0, len(x) - 1, 2))
    r = pw.segments_less_than_xi(xa, np.array(xi), subset=np.array(sub), or_equal_to=soe)
    return same('less, subset', [ints(a) for a in r], [[k for k in sub if le(x[k + 1], v)] for v in xi])


@check('C13', 'segment_containing_also_segments_less_than_xi', g_xy)
def t4(x, y, xi, soe, roe, cm):
    r = pw.segment_containing_also_segments_less_than_xi(np.array(x), np.array(y), np.array(xi), steps_or_equal_to=soe, ramp_const_or_equal_to=roe, choose_max=cm)
    n = len(x) - 1
    for a, k in zip(r[:3], ('ramps', 'constants', 'steps')):
        oe = soe if k == 'steps' else roe
        want = [[i for i in range(n) if kind(x, y, i) == k and (x[i + 1] <= v if oe else x[i + 1] < v)] for v in xi]
        e = same(k + ' before', [ints(s) for s in a], want)
        if e:
            return e
    for a, k in zip(r[3:], ('ramps', 'constants')):
        want = []
        for v in xi:
            c = containing(x, v, cm)
            want.append(c if c and kind(x, y, c[0]) == k else [])
        e = same(k + ' containing', [ints(s) for s in a], want)
        if e:
            return e


def g_btw(rng, rnd):
    x = xdata(rng, rnd)
    out = []
    while len(out) < 3:
        a, b = sorted(queries(rng, x, 2))
        if a < b:
            out.append((a, b))
    return {'x': x, 'xi': [a for a, b in out], 'xj': [b for a, b in out]}


@check('C13', 'segments_between_xi_and_xj', g_btw)
def t5(x, xi, xj):
    r = pw.segments_between_xi_and_xj(np.array(x), np.array(xi), np.array(xj))
    for i in range(len(xi)):
        a, b = containing(x, xi[i], True), containing(x, xj[i], False)
        want = [[], [], [], []]
        if a and b:
            s1, s2 = a[0], b[0]
            want = [[s1], [], [], []] if s1 == s2 else [[], [s1], [s2], list(range(s1 + 1, s2))]
        e = same('between', [ints(q[i]) for q in r], want)
        if e:
            return e


@check('C13', 'segment_containing_xi_also_containing_xj', g_btw)
def t6(x, xi, xj):
    r = pw.segment_containing_xi_also_containing_xj(np.array(x), np.array(xi), np.array(xj))
    return same('first', [ints(s) for s in r[0]], [containing(x, v, True) for v in xi]) or \
        same('second', [ints(s) for s in r[1]], [containing(x, v, False) for v in xj])


# ------------------------------------------------------------------ C14
def value(x, y1, y2, v, cm):
    """x: break points, y1/y2: start and end ordinate of each segment"""
    c = containing(x, v, cm)
    if c:
        k = c[0]
        return y1[k] + (y2[k] - y1[k]) * (v - x[k]) / (x[k + 1] - x[k])
    up = x[0] < x[-1]
    below = v < x[0] if up else v > x[0]
    return y1[0] if below else y2[-1]


def g_interp(rng, rnd):
    up = rnd % 3 != 2
    x = xdata(rng, rnd, up=up)
    return {'x': x, 'y': ydata(rng, len(x)), 'xi': queries(rng, x, 4), 'cm': rng.random() < 0.5, 'scalar': rnd % 4 == 0}


@check('C14', 'interp_x_y', g_interp)
def t7(x, y, xi, cm, scalar):
    xa, ya = np.array(x), np.array(y)
    want = np.array([value(x, y[:-1], y[1:], v, cm) for v in xi])
    if scalar:
        r = np.array([float(np.squeeze(pw.interp_x_y(xa, ya, v, choose_max=cm))) for v in xi])
    else:
        r = pw.interp_x_y(xa, ya, np.array(xi), choose_max=cm)
        e = close(pw.pinterp_x_y(PolyLine(x, y), np.array(xi), choose_max=cm), want)
        if e:
            return 'pinterp: ' + e
    return close(r, want) or keep((xa, ya), (x, y))


def g_interp2(rng, rnd):
    up = rnd % 3 != 2
    x = xdata(rng, rnd, steps=False, up=up)
    n = len(x) - 1
    return {'x': x, 'y1': ydata(rng, n), 'y2': ydata(rng, n), 'xi': queries(rng, x, 4), 'cm': rng.random() < 0.5}


@check('C14', 'interp_x1_x2_y1_y2', g_interp2)
def t8(x, y1, y2, xi, cm):
    a = [np.array(q) for q in (x[:-1], x[1:], y1, y2)]
    r = pw.interp_x1_x2_y1_y2(*(a + [np.array(xi)]), choose_max=cm)
    want = np.array([value(x, y1, y2, v, cm) for v in xi])
    return close(r, want) or keep(a, (x[:-1], x[1:], y1, y2)) or \
        close(pw.pinterp_x1_x2_y1_y2(PolyLine(*a), np.array(xi), choose_max=cm), want)


def g_prod(rng, rnd):
    xt = xdata(rng, rnd)
    xz = xdata(rng, rnd, steps=False)
    n = len(xz) - 1
    return {'xt': xt, 'yt': ydata(rng, len(xt)), 'x': xz, 'y1': ydata(rng, n), 'y2': ydata(rng, n), 'ti': queries(rng, xt, 3), 'zi': queries(rng, xz, 2),
            'cma': rng.random() < 0.5, 'cmb': rng.random() < 0.5}


@check('C14', 'interp product', g_prod)
def t9(xt, yt, x, y1, y2, ti, zi, cma, cmb):
    want = np.array([[value(x, y1, y2, z, cmb) * value(xt, yt[:-1], yt[1:], t, cma) for t in ti] for z in zi])
    r = pw.interp_xa_ya_multipy_x1b_x2b_y1b_y2b(np.array(xt), np.array(yt), np.array(x[:-1]), np.array(x[1:]), np.array(y1), np.array(y2),
                                                np.array(ti), np.array(zi), achoose_max=cma, bchoose_max=cmb)
    return close(r, want) or close(pw.pinterp_xa_ya_multipy_x1b_x2b_y1b_y2b(PolyLine(xt, yt), PolyLine(x[:-1], x[1:], y1, y2), np.array(ti), np.array(zi), achoose_max=cma, bchoose_max=cmb), want)


# ------------------------------------------------------------------ C15
def clip(x, f, a, b):
    s = 0.0
    for k in range(len(x) - 1):
        lo, hi = max(a, x[k]), min(b, x[k + 1])
        if lo < hi:
            s += quad(lambda z: f(k, z), lo, hi)
    return s


def ln(x, y1, y2, k, z):
    return y1[k] + (y2[k] - y1[k]) * (z - x[k]) / (x[k + 1] - x[k])


def limits(rng, x, n):
    out = []
    while len(out) < n:
        a, b = sorted(queries(rng, x, 2, outside=False))
        if a < b:
            out.append((a, b))
    return {'xi': [a for a, b in out], 'xj': [b for a, b in out]}


def g_int(rng, rnd):
    x = xdata(rng, rnd)
    d = {'x': x, 'y': ydata(rng, len(x))}
    d.update(limits(rng, x, 3))
    return d


@check('C15', 'integrate_x_y', g_int)
def t10(x, y, xi, xj):
    want = np.array([clip(x, lambda k, z: ln(x, y[:-1], y[1:], k, z), a, b) for a, b in zip(xi, xj)])
    av = want / (np.array(xj) - np.array(xi))
    a = [np.array(q) for q in (x, y, xi, xj)]
    return close(pw.integrate_x_y_between_xi_xj(*a), want) or close(pw.avg_x_y_between_xi_xj(*a), av) or keep(a, (x, y, xi, xj)) or \
        close(pw.pintegrate_x_y_between_xi_xj(PolyLine(x, y), a[2], a[3]), want) or close(pw.pavg_x_y_between_xi_xj(PolyLine(x, y), a[2], a[3]), av)


def g_int2(rng, rnd):
    x = xdata(rng, rnd, steps=False)
    n = len(x) - 1
    d = {'x': x, 'y1': ydata(rng, n), 'y2': ydata(rng, n), 'y3': ydata(rng, n), 'y4': ydata(rng, n)}
    d.update(limits(rng, x, 3))
    t = xdata(rng, rnd)
    d.update({'t': t, 'v': ydata(rng, len(t)), 'ti': queries(rng, t, 2), 'om': rng.choice([0.0, rng.uniform(-3, 3), rng.uniform(-3, 3)]), 'ph': rng.uniform(-3, 3), 'cm': rng.random() < 0.5})
    return d


@check('C15', 'integrate_x1_x2_y1_y2', g_int2)
def t11(x, y1, y2, y3, y4, xi, xj, t, v, ti, om, ph, cm):
    want = np.array([clip(x, lambda k, z: ln(x, y1, y2, k, z), a, b) for a, b in zip(xi, xj)])
    av = want / (np.array(xj) - np.array(xi))
    a = [np.array(q) for q in (x[:-1], x[1:], y1, y2, xi, xj)]
    p = PolyLine(*a[:4])
    e = close(pw.integrate_x1_x2_y1_y2_between_xi_xj(*a), want) or close(pw.avg_x1_x2_y1_y2_between_xi_xj(*a), av) or keep(a[2:], (y1, y2, xi, xj)) or \
        close(pw.pintegrate_x1_x2_y1_y2_between_xi_xj(p, a[4], a[5]), want) or close(pw.pavg_x1_x2_y1_y2_between_xi_xj(p, a[4], a[5]), av)
    if e:
        return e
    tv = np.array([value(t, v[:-1], v[1:], q, cm) for q in ti])
    w = av[:, None] * tv[None, :]
    tl = PolyLine(t, v)
    return close(pw.pxa_ya_multipy_avg_x1b_x2b_y1b_y2b_between(tl, p, np.array(ti), a[4], a[5], achoose_max=cm), w)


@check('C15', 'products', g_int2)
def t12(x, y1, y2, y3, y4, xi, xj, t, v, ti, om, ph, cm):
    want = np.array([clip(x, lambda k, z: ln(x, y1, y2, k, z) * ln(x, y3, y4, k, z), a, b) for a, b in zip(xi, xj)])
    a = [np.array(q) for q in (x[:-1], x[1:], y1, y2)]
    b = [np.array(q) for q in (x[:-1], x[1:], y3, y4)]
    li = [np.array(xi), np.array(xj)]
    e = close(pw.integrate_x1a_x2a_y1a_y2a_multiply_x1b_x2b_y1b_y2b_between(*(a + b + li)), want) or keep(a + b, (x[:-1], x[1:], y1, y2, x[:-1], x[1:], y3, y4))
    if e:
        return e
    pa, pb, tl = PolyLine(*a), PolyLine(*b), PolyLine(t, v)
    e = close(pw.pintegrate_x1a_x2a_y1a_y2a_multiply_x1b_x2b_y1b_y2b_between(pa, pb, *li), want)
    if e:
        return e
    tv = np.array([value(t, v[:-1], v[1:], q, cm) for q in ti])
    tc = tv * np.cos(om * np.array(ti) + ph)
    T = np.array(ti)
    q = 'pxa_ya_multiply_integrate_x1b_x2b_y1b_y2b_multiply_x1c_x2c_y1c_y2c_between'
    qc = q.replace('pxa_ya_', 'pxa_ya_cos_')
    kw = {'achoose_max': cm}
    out = lambda f: want[:, None] * f[None, :]
    return close(getattr(pw, q)(tl, pa, pb, T, *li, **kw), out(tv)) or close(getattr(pw, qc)(tl, om, ph, pa, pb, T, *li, **kw), out(tc)) or \
        close(getattr(pw, q + '_super')([tl, tl], [pa, pa], pb, T, *li, **kw), 2 * out(tv)) or \
        close(getattr(pw, qc + '_super')([tl, tl], [pa, pa], pb, T, *li, omega_phase=[None, (om, ph)], **kw), out(tv) + out(tc)) or \
        close(getattr(pw, qc + '_super')(tl, pa, pb, T, *li, **kw), out(tv))

# ---------------------------------------------------------------- C16-C18
def anydata(rng, n=None, runs=False):
    n = n or rng.choice([2, 3, 4, 5, 6, 9])
    x = [float(rng.randrange(-4, 5))]
    while len(x) < n:
        r = rng.random()
        x.append(x[-1] if r < 0.3 else x[-1] + rng.choice([-2, -0.5, 0.25, 1, 1e-3, -1e-3]) if r < 0.9 else 1e7 * rng.choice([-1, 1]))
    return x


def g_seq(rng, rnd):
    k = rnd % 6
    if k == 0:
        x = anydata(rng)
    elif k in (1, 2):
        x = xdata(rng, rnd, steps=True, up=k == 1)
    elif k == 3:
        x = xdata(rng, rnd, steps=False, up=rng.random() < 0.5)
    else:
        x = xdata(rng, rnd, steps=rng.random() < 0.5, up=k == 4)
        j = rng.randrange(len(x))
        x[j] = x[j] + rng.choice([-1, 1]) * rng.choice([1e-12, 0.125, 3.0])
    return {'x': x, 'kind': rng.choice(['list', 'array', 'int'])}


@check('C18', 'classification', g_seq)
def t20(x, kind):
    if kind == 'int':
        x = [int(8 * v) for v in x]
    a = np.array(x) if kind == 'array' else list(x)
    b = list(x)
    prs = list(zip(b, b[1:]))
    want = {'strictly_increasing': all(p < q for p, q in prs), 'strictly_decreasing': all(p > q for p, q in prs),
            'non_increasing': all(p >= q for p, q in prs), 'non_decreasing': all(p <= q for p, q in prs),
            'has_steps': any(p == q for p, q in prs)}
    ch = [q > p for p, q in prs if p != q]
    if ch:
        want['is_initially_increasing'] = ch[0]
    for f, w in want.items():
        e = same(f, bool(getattr(pw, f)(a)), w)
        if e:
            return e
    if list(a) != b:
        return 'argument modified'


@check('C18', 'runs', g_seq)
def t21(x, kind):
    """start indices of the maximal runs in one direction, in order"""
    prs = [np.sign(q - p) for p, q in zip(x, x[1:])]
    if not any(prs):
        return
    cur = [d for d in prs if d][0]
    want = [[]]
    for i, d in enumerate(prs):
        if d and d != cur:
            want.append([])
            cur = d
        want[-1].append(i)
    got = [ints(v) for v in pw.non_increasing_and_non_decreasing_parts(np.array(x))]
    e = same('runs', got, want)
    if e:
        return e
    # with end points every run ends where the next begins
    got = [ints(v) for v in pw.non_increasing_and_non_decreasing_parts(np.array(x), include_end_point=True)]
    return same('runs with end points', got, [r + [r[-1] + 1] for r in want])


def limits_at(x, y, v):
    """(value from the left, value from the right) of monotone increasing point data, None outside"""
    x, y = list(x), list(y)
    L = R = None
    for k in range(len(x) - 1):
        a, b = x[k], x[k + 1]
        if a == b:
            continue
        if a < v <= b:
            L = y[k] + (y[k + 1] - y[k]) * (v - a) / (b - a)
        if a <= v < b:
            R = y[k] + (y[k + 1] - y[k]) * (v - a) / (b - a)
    return L, R


def rising(x, y):
    return (list(x), list(y)) if x[0] <= x[-1] else (list(x)[::-1], list(y)[::-1])


def grid(*xs):
    p = sorted({float(v) for x in xs for v in x})
    return p + [0.5 * (a + b) for a, b in zip(p, p[1:])] + [p[0] - 1, p[-1] + 1]


def same_function(x, y, u, w, pts, tol=1e-9):
    for v in pts:
        for a, b, side in zip(limits_at(x, y, v), limits_at(u, w, v), ('left', 'right')):
            if (a is None) != (b is None) or a is not None and abs(a - b) > tol * (1 + abs(a)):
                return 'function changed at %r from the %s: %r != %r' % (v, side, b, a)


def g_pts(rng, rnd):
    x = xdata(rng, rnd, steps=rnd % 3 != 0, up=rng.random() < 0.6)
    y = ydata(rng, len(x))
    if rnd % 2:
        # points on the line between their neighbours
        xs, ys = [x[0]], [y[0]]
        for a, b, p, q in zip(x, x[1:], y, y[1:]):
            for t in rng.choice([[], [0.5], [0.25, 0.5], [0.5, 0.75]]):
                xs.append(a + t * (b - a))
                ys.append(p + t * (q - p))
            xs.append(b)
            ys.append(q)
        x, y = xs, ys
    return {'x': x, 'y': y, 'kind': rng.choice(['list', 'array'])}


def give(kind, *a):
    return [np.array(v) if kind == 'array' else list(v) for v in a]


def wide(n):
    return np.arange(n)


@check('C16', 'points to segments and back', g_pts)
def t22(x, y, kind):
    a, b = give(kind, x, y)
    s = pw.convert_x_y_to_x1_x2_y1_y2(a, b)
    ks = [k for k in range(len(x) - 1) if x[k] != x[k + 1]]
    want = [[x[k] for k in ks], [x[k + 1] for k in ks], [y[k] for k in ks], [y[k + 1] for k in ks]]
    for nm, g, w in zip(('x1', 'x2', 'y1', 'y2'), s, want):
        e = same(nm, [float(v) for v in g], w)
        if e:
            return e
    u, w = pw.convert_x1_x2_y1_y2_to_x_y(*s)
    U, W = rising(list(map(float, u)), list(map(float, w)))
    X, Y = rising(x, y)
    e = same_function(X, Y, U, W, grid(X, U))
    if e:
        return e
    # no needless points: exact round trip of proper segment data, consistent views of a PolyLine
    s2 = pw.convert_x_y_to_x1_x2_y1_y2(u, w)
    for g, h in zip(s2, want):
        e = same('segments after the round trip', [float(v) for v in g], h)
        if e:
            return e
    return keep((a, b), (x, y))


@check('C16', 'PolyLine views', g_pts)
def t23(x, y, kind):
    a, b = give(kind, x, y)
    ks = [k for k in range(len(x) - 1) if x[k] != x[k + 1]]
    seg = [[x[k] for k in ks], [x[k + 1] for k in ks], [y[k] for k in ks], [y[k + 1] for k in ks]]
    xy = [list(p) for p in zip(x, y)]
    fl = lambda v: [float(q) for q in v]
    for nm, args in (('points', [np.array(xy) if kind == 'array' else xy]), ('x, y', [a, b])):
        for order in ((0, 1, 2), (2, 1, 0), (1, 0, 2)):
            p = PolyLine(*args)
            for o in order:
                if o == 0:
                    e = same(nm + ' x, y', [fl(p.x), fl(p.y)], [x, y])
                elif o == 1:
                    e = same(nm + ' segments', [fl(v) for v in (p.x1, p.x2, p.y1, p.y2)], seg) or same(nm + ' x1_x2_y1_y2', [fl(v) for v in p.x1_x2_y1_y2], seg)
                else:
                    e = same(nm + ' xy', [fl(v) for v in p.xy], xy)
                if e:
                    return e
    p = PolyLine(*give(kind, *seg))
    e = same('segments kept', [fl(v) for v in (p.x1, p.x2, p.y1, p.y2)], seg)
    if e:
        return e
    X, Y = rising(x, y)
    U, W = rising(fl(p.x), fl(p.y))
    return same_function(X, Y, U, W, grid(X, U)) or same('xy of segments', [fl(v) for v in p.xy], [list(q) for q in zip(fl(p.x), fl(p.y))])


def g_bad(rng, rnd):
    x = xdata(rng, rnd, n=rng.choice([3, 4, 5]), steps=False)
    return {'x': x, 'y': ydata(rng, len(x)), 'how': rng.choice(['short y', 'short x', 'one point', 'gap', 'lengths', 'columns', 'three', 'none', 'flat', 'superfluous']),
            'k': rng.randrange(1, len(x) - 1), 'w': rng.randrange(4), 'gap': rng.choice([0.01, -0.01, 0.5])}


def rejects(f, *excs):
    try:
        f()
    except excs:
        return None
    except Exception as e:
        return 'raises %s' % type(e).__name__
    return 'accepted'


@check('C16', 'inconsistent input', g_bad)
def t24(x, y, how, k, w, gap):
    seg = [np.array(v) for v in (x[:-1], x[1:], y[:-1], y[1:])]
    r = None
    if how == 'short y':
        r = rejects(lambda: PolyLine(x, y[:-1]), TypeError) or rejects(lambda: pw.convert_x_y_to_x1_x2_y1_y2(x, y[:-1]), ValueError)
    elif how == 'short x':
        r = rejects(lambda: PolyLine(x[:-1], y), TypeError) or rejects(lambda: pw.convert_x_y_to_x1_x2_y1_y2(x[:-1], y), ValueError)
    elif how == 'one point':
        r = rejects(lambda: PolyLine(x[:1], y[:1]), TypeError) or rejects(lambda: PolyLine([[x[0], y[0]]]), TypeError)
    elif how == 'gap':
        seg[0][k] += gap
        r = rejects(lambda: pw.convert_x1_x2_y1_y2_to_x_y(*seg), ValueError) or rejects(lambda: PolyLine(*seg).xy, ValueError)
    elif how == 'lengths':
        seg[w] = seg[w][:-1]
        r = rejects(lambda: pw.convert_x1_x2_y1_y2_to_x_y(*seg), ValueError) or rejects(lambda: PolyLine(*seg), TypeError)
    elif how == 'columns':
        r = rejects(lambda: PolyLine([[a, b, 0.0] for a, b in zip(x, y)]), TypeError)
    elif how == 'three':
        r = rejects(lambda: PolyLine(*seg[:3]), TypeError)
    elif how == 'none':
        r = rejects(lambda: PolyLine(), TypeError)
    elif how == 'flat':
        r = rejects(lambda: PolyLine([x]), TypeError)
    else:
        r = rejects(lambda: pw.remove_superfluous_from_x_y(x, y[:-1]), ValueError) or rejects(lambda: pw.remove_superfluous_from_x_y(x[:-1], y), ValueError)
    return r and '%s: %s' % (how, r)


@check('C16', 'remove_superfluous_from_x_y', g_pts)
def t25(x, y, kind):
    a, b = give(kind, x, y)
    u, w = pw.remove_superfluous_from_x_y(a, b)
    X, Y = rising(x, y)
    U, W = rising([float(v) for v in u], [float(v) for v in w])
    if len(u) != len(w) or len(u) > len(x):
        return 'wrong number of points'
    return same_function(X, Y, U, W, grid(X, U)) or keep((a, b), (x, y))


def g_drift(rng, rnd):
    n = rng.choice([4, 5, 8, 12, 20])
    x = [0.0]
    while len(x) < n:
        x.append(x[-1] + rng.choice([0, 0.5, 1, 2]) if rng.random() < 0.9 else x[-1])
    atol = rng.choice([1e-3, 1e-2, 0.1])
    c = rng.choice([-1, 1]) * rng.uniform(.3, 1.5) * atol
    m = rng.choice([n / 2, n - 1, 3])
    # a slow bend: each point is nearly in line with its neighbours
    y = [c * (1 - ((k - m) / m) ** 2) + rng.choice([0, 0, .1 * atol * rng.random()]) for k in range(n)]
    if rng.random() < 0.3:
        x, y = [-v for v in x[::-1]], y[::-1]
    return {'x': x, 'y': y, 'atol': atol, 'kind': rng.choice(['list', 'array'])}


@check('C16', 'nearly straight', g_drift)
def t25b(x, y, atol, kind):
    a, b = give(kind, x, y)
    u, w = pw.remove_superfluous_from_x_y(a, b, atol=atol)
    p, q = list(zip(x, y)), [(float(s), float(t)) for s, t in zip(u, w)]
    if p[0] != q[0] or p[-1] != q[-1]:
        return 'end points lost'

    def fits(i, j):
        """p[i:] can be q[j:] with points dropped that lie within atol of the straight lines left"""
        todo = {i}
        for j in range(j, len(q) - 1):
            new = set()
            for i in todo:
                for k in range(i + 1, len(p)):
                    if p[k] != q[j + 1]:
                        continue
                    dx, dy = p[k][0] - p[i][0], p[k][1] - p[i][1]
                    d = math.hypot(dx, dy)
                    if d < 1e-8 or all(abs(dx * (p[m][1] - p[i][1]) - dy * (p[m][0] - p[i][0])) / d <= atol * (1 + 1e-6) for m in range(i + 1, k)):
                        new.add(k)
            todo = new
        return len(p) - 1 in todo
    return None if fits(0, 0) else 'a dropped point is further than atol from the line that is left: %r' % (q,)


@check('C16', 'forced order', g_pts)
def t26(x, y, kind):
    a, b = give(kind, x, y)
    u, w = pw.force_non_decreasing(a, b)
    X, Y = rising(x, y)
    return same('non-decreasing points', [list(map(float, u)), list(map(float, w))], [X, Y]) or keep((a, b), (x, y))


def g_ar(rng, rnd):
    n = 2 if rnd % 3 else 3
    d = {'n': n, 'c': rng.choice([2.0, -1.5, 0.25, 3, -2]), 'fmt': rng.choice(['pts', 'xy', 'seg'])}
    base = xdata(rng, rnd)
    for k in range(3):
        x = xdata(rng, rnd, steps=rng.random() < 0.7)
        if rng.random() < 0.6:
            # share break points (also steps at the same place)
            x = sorted(set(rng.sample(base, rng.randrange(2, len(base) + 1)) + x[:2]))
            x = sorted(x + [v for v in x if rng.random() < 0.3])
        if x[0] == x[-1]:
            x.append(x[-1] + 1)
        y = ydata(rng, len(x))
        if rng.random() < 0.3:
            x, y = x[::-1], y[::-1]
        d['x%d' % k], d['y%d' % k] = x, y
    return d


def mkline(fmt, x, y):
    if fmt == 'pts':
        return PolyLine([list(p) for p in zip(x, y)])
    if fmt == 'seg':
        return PolyLine(*pw.convert_x_y_to_x1_x2_y1_y2(x, y))
    return PolyLine(list(x), list(y))


def trim(x, y):
    """drop steps at the very ends"""
    x, y = list(x), list(y)
    while x[0] == x[1]:
        del x[0], y[0]
    while x[-1] == x[-2]:
        del x[-1], y[-1]
    return x, y


def line_keep(ps, before):
    for p, (x, y) in zip(ps, before):
        if [float(v) for v in p.x] != list(x) or [float(v) for v in p.y] != list(y):
            return 'operand modified: x=%r y=%r' % ([float(v) for v in p.x], [float(v) for v in p.y])


@check('C17', 'with a number', g_ar)
def t30(n, c, fmt, **d):
    x, y = d['x0'], d['y0']
    if fmt == 'seg':
        x, y = trim(x, y)
        x, y = [list(map(float, v)) for v in pw.convert_x1_x2_y1_y2_to_x_y(*pw.convert_x_y_to_x1_x2_y1_y2(x, y))]
    Y = np.array(y)
    ops = {'p + c': (lambda p: p + c, Y + c), 'c + p': (lambda p: c + p, c + Y), 'p - c': (lambda p: p - c, Y - c),
           'c - p': (lambda p: c - p, c - Y), 'p * c': (lambda p: p * c, Y * c), 'c * p': (lambda p: c * p, c * Y),
           'p / c': (lambda p: p / c, Y / c)}
    if np.all(Y != 0):
        ops['c / p'] = (lambda p: c / p, c / Y)
    p = mkline(fmt, x, y)
    for nm, (f, w) in ops.items():
        r = f(p)
        if not isinstance(r, PolyLine):
            return '%s: not a PolyLine' % nm
        e = close(np.asarray(r.x), np.array(x), atol=0, rtol=0) or close(np.asarray(r.y), w, rtol=1e-12, atol=1e-12) or line_keep([p], [(x, y)])
        if e:
            return '%s: %s' % (nm, e)


def pointwise(nm, r, f, lines):
    """r is f of the lines at every position"""
    X = [rising(x, y) for x, y in lines]
    rx, ry = [float(v) for v in r.x], [float(v) for v in r.y]
    if any(b < a for a, b in zip(rx, rx[1:])):
        return '%s: x not in order' % nm
    if sorted({v for x, y in X for v in x})[0] != rx[0] or sorted({v for x, y in X for v in x})[-1] != rx[-1]:
        return '%s: does not cover the operands' % nm
    for v in grid(rx, *[x for x, y in X]):
        if v < rx[0] or v > rx[-1]:
            continue
        got = limits_at(rx, ry, v)
        vals = []
        for x, y in X:
            L, R = limits_at(x, y, v)
            if v <= x[0]:
                L = y[0]
            if v >= x[-1]:
                R = y[-1]
            if v < x[0]:
                R = y[0]
            if v > x[-1]:
                L = y[-1]
            vals.append((L, R))
        want = [f(*[q[s] for q in vals]) for s in (0, 1)]
        for s, g, w in zip(('left', 'right'), got, want):
            if s == 'left' and v == rx[0] or s == 'right' and v == rx[-1]:
                continue
            if abs(g - w) > 1e-9 * (1 + abs(w)):
                return '%s at %r from the %s: got %r expected %r' % (nm, v, s, g, w)


@check('C17', 'two lines', g_ar)
def t31(n, c, fmt, **d):
    l0, l1 = (d['x0'], d['y0']), (d['x1'], d['y1'])
    p, q = mkline('xy', *l0), mkline('pts', *l1)
    for nm, r, f in (('p + q', p + q, lambda a, b: a + b), ('p - q', p - q, lambda a, b: a - b)):
        e = pointwise(nm, r, f, [l0, l1]) or line_keep([p, q], [l0, l1])
        if e:
            return e
    for nm, g in (('p * q', lambda: p * q), ('p / q', lambda: p / q)):
        e = rejects(g, TypeError)
        if e:
            return nm + ': ' + e


@check('C17', 'common break points', g_ar)
def t32(n, c, fmt, **d):
    ls = [(d['x%d' % k], d['y%d' % k]) for k in range(n)]
    ps = [mkline('xy', *l) for l in ls]
    rs = pw.polyline_make_x_common(*ps)
    for k, r in enumerate(rs):
        e = pointwise('line %d' % k, PolyLine(list(r.x), list(r.y)), lambda *a: a[k], ls)
        if e:
            return e
        for a in ('x1', 'x2'):
            e = close(getattr(r, a), getattr(rs[0], a), rtol=0, atol=0)
            if e:
                return 'break points of line %d differ: %s' % (k, e)
    return line_keep(ps, ls)


if __name__ == '__main__':
    main()
