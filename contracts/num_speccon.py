import numpy as np
from dv.numh import check, close, main
import geotecha.speccon.integrals as integ
from geotecha.piecewise.piecewise_linear_1d import PolyLine

GX, GW = np.polynomial.legendre.leggauss(80)


def quad(f, a, b):
    z = 0.5 * (b - a) * GX + 0.5 * (b + a)
    return 0.5 * (b - a) * np.sum(GW * f(z))


def lin(yt, yb, zt, zb):
    return lambda z: yt + (yb - yt) / (zb - zt) * (z - zt)


IMPL = ['vectorized', 'scalar', 'fortran']


def eig(rng, n):
    k = rng.randrange(4)
    if rng.random() < 0.1:
        return [i + rng.choice([1, 2]) if i == 0 else i + 2 for i in range(n)]       # an array of integers
    if k == 0:
        return [np.pi * (i + 1) for i in range(n)]
    if k == 1:
        return [np.pi * (i + 0.5) for i in range(n)]
    v = sorted(rng.uniform(0.3, 14) for i in range(n))
    return [v[0]] + [v[i] + 0.4 * i for i in range(1, n)]


def bounds(rng, L):
    if rng.random() < 0.5:
        p = [0.0] + sorted(rng.uniform(0.05, 0.95) for _ in range(L - 1)) + [1.0]
        for i in range(1, len(p)):
            p[i] = max(p[i], p[i - 1] + 0.01)
        return p[:-1], p[1:]
    if rng.random() < 0.2:
        return list(range(L)), list(range(1, L)) + [rng.choice([L - 0.5, L])]
    z = rng.uniform(0, 0.3)
    t, b = [], []
    for i in range(L):
        z += rng.choice([0, 0, rng.uniform(0, 0.3)])
        t.append(z)
        z += rng.uniform(0.1, 0.6)
        b.append(z)
    return t, b


def vals(rng, L):
    if rng.random() < 0.15:
        return [rng.randrange(-1, 4) for _ in range(L)]          # an array of integers
    return [rng.choice([0.0, 1.0, rng.uniform(-2, 3), rng.uniform(0.1, 3)]) for _ in range(L)]


def ggen(props, pl=False):
    def gen(rng, rnd):
        n = [1, 3, 2, 4][rnd % 4]
        L = [2, 1, 3, 2][rnd % 4]
        d = {'m': eig(rng, n), 'impl': rng.choice(IMPL)}
        if pl:
            d['zt'] = None
        zt, zb = bounds(rng, L)
        d['zt'], d['zb'] = zt, zb
        for p in props:
            d[p + 't'], d[p + 'b'] = vals(rng, L), vals(rng, L)
        return d
    return gen


def run(fn, props, d):
    args = [d['m']]
    for p in props:
        args += [d[p + 't'], d[p + 'b']]
    args += [d['zt'], d['zb']]
    arrs = [np.array(a) for a in args]
    keep = [a.copy() for a in arrs]
    if len(d['m']) % 2:
        arrs2 = args           # plain lists are accepted too
    else:
        arrs2 = arrs
    r = fn(*arrs2, implementation=d['impl'])
    for a, k in zip(arrs, keep):
        if not np.array_equal(a, k):
            raise AssertionError('argument modified')
    return r


def matrix(d, f):
    m = d['m']
    E = np.zeros((len(m), len(m)))
    for i in range(len(m)):
        for j in range(len(m)):
            for l in range(len(d['zt'])):
                E[i, j] += quad(lambda z: f(l, z, m[i], m[j]), d['zt'][l], d['zb'][l])
    return E


def line(d, p, l, z):
    return lin(d[p + 't'][l], d[p + 'b'][l], d['zt'][l], d['zb'][l])(z)


def slope(d, p, l):
    return (d[p + 'b'][l] - d[p + 't'][l]) / (d['zb'][l] - d['zt'][l])


@check('C01', 'af', ggen(['a']))
def t_af(**d):
    return close(run(integ.dim1sin_af_linear, ['a'], d),
                 matrix(d, lambda l, z, mi, mj: line(d, 'a', l, z) * np.sin(mi * z) * np.sin(mj * z)))


@check('C01', 'abf', ggen(['a', 'b']))
def t_abf(**d):
    return close(run(integ.dim1sin_abf_linear, ['a', 'b'], d),
                 matrix(d, lambda l, z, mi, mj: line(d, 'a', l, z) * line(d, 'b', l, z) * np.sin(mi * z) * np.sin(mj * z)))


def plgen(rng, rnd):
    def one():
        L = rng.choice([1, 2, 3])
        # break points of different lines coincide or are far apart
        p = [0.0] + sorted(x / 40.0 for x in rng.sample(range(1, 40), L - 1)) + [1.0]
        return [p[:-1], p[1:], vals(rng, L), vals(rng, L)]
    return {'m': eig(rng, rng.choice([1, 2, 3])), 'a': one(), 'b': one()}


def pl_eval(a, z):
    for x1, x2, y1, y2 in zip(*a):
        if x1 <= z <= x2:
            return lin(y1, y2, x1, x2)(z)


def pmatrix(d, f, rows=True):
    zs = sorted(set(d['a'][0] + d['a'][1] + d['b'][0] + d['b'][1]))
    m = d['m']
    E = np.zeros((len(m), len(m)))
    for i in range(len(m)):
        for j in range(len(m)):
            for z0, z1 in zip(zs[:-1], zs[1:]):
                E[i, j] += quad(np.vectorize(lambda z: f(z, m[i], m[j])), z0, z1)
    return E


def PL(a):
    return PolyLine(*[np.array(x, float) for x in a])


@check('C01', 'pabf', plgen)
def t_pabf(**d):
    A = integ.pdim1sin_abf_linear(d['m'], PL(d['a']), PL(d['b']))
    B = integ.pdim1sin_af_linear(d['m'], PL(d['a']))
    e = pmatrix(d, lambda z, mi, mj: pl_eval(d['a'], z) * pl_eval(d['b'], z) * np.sin(mi * z) * np.sin(mj * z))
    e2 = pmatrix(d, lambda z, mi, mj: pl_eval(d['a'], z) * np.sin(mi * z) * np.sin(mj * z))
    return close(A, e) or close(B, e2)

@check('C02', 'D_aDf', ggen(['a']))
def t_adf(**d):
    return close(run(integ.dim1sin_D_aDf_linear, ['a'], d),
                 matrix(d, lambda l, z, mi, mj: -line(d, 'a', l, z) * mi * mj * np.cos(mi * z) * np.cos(mj * z)))


@check('C02', 'DD_abDDf', ggen(['a', 'b']))
def t_ddf(**d):
    return close(run(integ.dim1sin_DD_abDDf_linear, ['a', 'b'], d),
                 matrix(d, lambda l, z, mi, mj: line(d, 'a', l, z) * line(d, 'b', l, z) * mi ** 2 * mj ** 2 * np.sin(mi * z) * np.sin(mj * z)))


@check('C02', 'pD', plgen)
def t_pdd(**d):
    A = integ.pdim1sin_DD_abDDf_linear(d['m'], PL(d['a']), PL(d['b']))
    B = integ.pdim1sin_D_aDf_linear(d['m'], PL(d['a']))
    e = pmatrix(d, lambda z, mi, mj: pl_eval(d['a'], z) * pl_eval(d['b'], z) * mi ** 2 * mj ** 2 * np.sin(mi * z) * np.sin(mj * z))
    e2 = pmatrix(d, lambda z, mi, mj: -pl_eval(d['a'], z) * mi * mj * np.cos(mi * z) * np.cos(mj * z))
    return close(A, e) or close(B, e2)


def vector(d, f):
    m = d['m']
    return np.array([sum(quad(lambda z: f(l, z, mi), d['zt'][l], d['zb'][l]) for l in range(len(d['zt']))) for mi in m])


@check('C03', 'ab', ggen(['a', 'b']))
def t_ab(**d):
    return close(run(integ.dim1sin_ab_linear, ['a', 'b'], d),
                 vector(d, lambda l, z, mi: line(d, 'a', l, z) * line(d, 'b', l, z) * np.sin(mi * z)))


@check('C03', 'abc', ggen(['a', 'b', 'c']))
def t_abc(**d):
    return close(run(integ.dim1sin_abc_linear, ['a', 'b', 'c'], d),
                 vector(d, lambda l, z, mi: line(d, 'a', l, z) * line(d, 'b', l, z) * line(d, 'c', l, z) * np.sin(mi * z)))


def dadb_gen(rng, rnd):
    d = ggen(['a'])(rng, rnd)
    L = len(d['zt'])
    p = [rng.choice([0.0, 0.2])]
    for i in range(L):
        p.append(p[-1] + rng.uniform(0.1, 0.5))
    if rng.random() < 0.2:
        p = list(range(L + 1))
    d['zt'], d['zb'] = p[:-1], p[1:]
    c0, c1 = rng.uniform(-2, 2), rng.uniform(-2, 2)
    d['bt'] = [c0 + c1 * z for z in d['zt']]
    d['bb'] = [c0 + c1 * z for z in d['zb']]
    return d


@check('C03', 'D_aDb', dadb_gen)
def t_dadb(**d):
    m = np.array(d['m'])
    e = -vector(d, lambda l, z, mi: slope(d, 'b', l) * line(d, 'a', l, z) * mi * np.cos(mi * z))
    e += slope(d, 'b', -1) * d['ab'][-1] * np.sin(m * d['zb'][-1]) - slope(d, 'b', 0) * d['at'][0] * np.sin(m * d['zt'][0])
    return close(run(integ.dim1sin_D_aDb_linear, ['a', 'b'], d), e)


def pl3gen(rng, rnd):
    d = plgen(rng, rnd)
    d['c'] = plgen(rng, rnd)['a']
    return d


@check('C03', 'pab', pl3gen)
def t_pab(**d):
    zs = sorted(set(sum([d[p][0] + d[p][1] for p in 'abc'], [])))
    def vec(ps):
        return np.array([sum(quad(np.vectorize(lambda z: np.prod([pl_eval(d[p], z) for p in ps]) * np.sin(mi * z)), z0, z1)
                             for z0, z1 in zip(zs[:-1], zs[1:])) for mi in d['m']])
    return (close(integ.pdim1sin_ab_linear(d['m'], PL(d['a']), PL(d['b'])), vec('ab'))
            or close(integ.pdim1sin_abc_linear(d['m'], PL(d['a']), PL(d['b']), PL(d['c'])), vec('abc')))



# ------------------------------------------------------------------ C04
def g_between(rng, rnd):
    L = [1, 2, 3, 4][rnd % 4]
    p = [0.0] + sorted(x / 40.0 for x in rng.sample(range(1, 40), L - 1)) + [1.0]
    c = p + [rng.uniform(0, 1) for _ in range(3)] + [0.5 * (a + b) for a, b in zip(p, p[1:])]
    if rng.random() < 0.3:           # whole-number tops (an array of integers)
        p = list(range(L)) + [rng.choice([L - 0.5, L + 0.25, L])]
        c = p + [rng.uniform(0, p[-1]) for _ in range(3)]
    z = []
    while len(z) < 3:
        a, b = sorted([rng.choice(c), rng.choice(c)])
        if a < b:
            z.append([a, b])
    return {'m': eig(rng, rng.choice([1, 2, 3])), 'x': p, 'at': vals(rng, L), 'ab': vals(rng, L), 'z': z}


@check('C04', 'weighted integral', g_between)
def t_between(m, x, at, ab, z):
    want = np.zeros((len(z), len(m)))
    for i, (a, b) in enumerate(z):
        for j, mj in enumerate(m):
            for k in range(len(at)):
                lo, hi = max(a, x[k]), min(b, x[k + 1])
                if lo < hi:
                    want[i, j] += quad(lambda q: lin(at[k], ab[k], x[k], x[k + 1])(q) * np.sin(mj * q), lo, hi)
    args = [np.array(q) for q in (m, at, ab, x[:-1], x[1:], z)]
    r = integ.dim1sin_a_linear_between(*args)
    return close(r, want) or close(integ.pdim1sin_a_linear_between(args[0], PolyLine(args[3], args[4], args[1], args[2]), args[5]), want)


@check('C04', 'sampling', g_between)
def t_sample(m, x, at, ab, z):
    za, ma = np.array(z), np.array(m)
    e = close(integ.dim1sin(ma, za[:, 0]), np.sin(za[:, 0][:, None] * ma[None, :]))
    if e:
        return e
    want = np.array([[quad(lambda q: np.sin(mj * q), a, b) / (b - a) for mj in m] for a, b in z])
    e = close(integ.dim1sin_avg_between(ma, za), want)
    if e:
        return e
    for b in (0, 1):
        for i in (0, 1, 7, 30):
            mi = integ.m_from_sin_mx(i, boundary=b)
            e = close(mi, np.pi * (i + 1 - 0.5 * b))
            if e:
                return 'eigenvalue: ' + e
    try:
        integ.m_from_sin_mx(1, boundary=2)
    except ValueError:
        return None
    return 'boundary=2 accepted'


if __name__ == '__main__':
    main()
