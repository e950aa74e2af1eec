"""Run-time evaluation of the smear-zone contracts (C23-C25): quadrature of the defining integrals."""
import math
import numpy as np
from dv.numh import check, close, main
from geotecha.consolidation import smear_zones as sz

GL = np.polynomial.legendre.leggauss(50)


def lab(what, msg):
    return msg and '%s: %s' % (what, msg)


def first(*ms):
    for m in ms:
        if m:
            return m


def quad(f, a, b):
    """int_a^b f, intervals graded towards small r"""
    if not b > a:
        return 0.0
    t = 0.0
    k = max(1, int(math.ceil(math.log(b / a) / 0.7)))
    e = np.exp(np.linspace(math.log(a), math.log(b), k + 1))
    for x, y in zip(e[:-1], e[1:]):
        t += (y - x) / 2 * np.sum(GL[1] * f((x + y) / 2 + (y - x) / 2 * GL[0]))
    return t


class Profile(object):
    """permeability ratio as list of (outer radius, kap(r))"""

    def __init__(self, n, parts):
        self.n, self.parts = n, [p for p in parts]

    def flow(self, r):
        """int_1^r kap (1/x - x/n^2)"""
        t, a = 0.0, 1.0
        for b, f in self.parts:
            t += quad(lambda x: f(x) * (1 / x - x / self.n ** 2), a, min(b, r))
            a = b
            if r <= b:
                break
        return t

    def mu(self):
        t, a = 0.0, 1.0
        for b, f in self.parts:
            t += quad(lambda x: f(x) / x * (1 - x * x / self.n ** 2) ** 2, a, b)
            a = b
        return self.n ** 2 / (self.n ** 2 - 1) * t

    def k(self, r):
        for b, f in self.parts:
            if r < b:
                return 1 / float(f(np.float64(r)))
        return 1 / float(self.parts[-1][1](np.float64(r)))


one = lambda r: np.ones_like(r)


def profile(kind, n, s, kap):
    if kind == 'ideal' or s == 1 or kap == 1:
        return Profile(n, [(n, one)])
    if kind == 'constant':
        return Profile(n, [(s, lambda r: kap + 0 * r), (n, one)])
    if kind == 'linear':
        return Profile(n, [(s, lambda r: kap / (1 + (kap - 1) * (r - 1) / (s - 1))), (n, one)])
    if kind == 'parabolic':
        return Profile(n, [(s, lambda r: 1 / (1 - (1 - 1 / kap) * ((s - r) / (s - 1)) ** 2)), (n, one)])
    if kind == 'overlapping_linear':
        lin = lambda r: kap / (1 + (kap - 1) * (r - 1) / (s - 1))
        sx = 2 * n - s
        if n > s:
            return profile('linear', n, s, kap)
        if sx <= 1:
            return Profile(n, [(n, lambda r: kap + 0 * r)])
        return Profile(n, [(sx, lin), (n, lambda r: lin(sx) + 0 * r)])


KINDS = ['ideal', 'constant', 'linear', 'parabolic', 'overlapping_linear']


def g_zone(rng, rnd):
    kind = KINDS[rnd % 5]
    n = 1 + math.exp(rng.uniform(math.log(.3), math.log(60)))
    s = 1 + (n - 1) * rng.choice([rng.uniform(.03, .2), rng.uniform(.1, .95), 1.0 if kind in ('constant', 'parabolic') else .5])
    if kind == 'overlapping_linear' and rng.random() < .6:
        s = n + (n - 1) * rng.uniform(.05, 1.4)
    kap = math.exp(rng.uniform(math.log(1.1), math.log(12)))
    q = rng.randrange(8)
    if q == 0:
        s = 1.0
    elif q == 1:
        kap = 1.0
    elif q == 2 and kind == 'linear':
        kap = s
    elif q == 3 and kind in ('constant', 'linear'):
        kap = rng.uniform(.3, .9)
    elif q == 4 and kind == 'ideal' or q == 5:
        n, s = float(math.ceil(n) + 1), float(max(2, math.floor(s)))
        if kind != 'overlapping_linear':
            s = min(s, n - 1)
        elif s == n:
            s = n + 1
    r = sorted([rng.uniform(1, n) for _ in range(rng.randrange(1, 5))] + [1.0, n] + ([s] if s <= n else []))
    return dict(kind=kind, n=n, s=s, kap=kap, r=r, uavg=rng.choice([1, rng.uniform(-3, 9)]), uw=rng.choice([0, rng.uniform(-3, 3)]), muw=rng.choice([0, rng.uniform(.1, 4)]), ints=bool(q == 5))


def args(kind, n, s, kap):
    return (n,) if kind == 'ideal' else (n, s, kap)


@check('C23', 'mu functions (scalars)', g_zone)
def t_mu(kind, n, s, kap, r, uavg, uw, muw, ints):
    f = getattr(sz, 'mu_' + kind)
    a = args(kind, n, s, kap)
    want = profile(kind, n, s, kap).mu()
    m = close(float(f(*a)), want, 1e-6)
    if not m and ints and float(n).is_integer() and float(s).is_integer():
        m = lab('integers', close(float(f(*args(kind, int(n), int(s), kap))), want, 1e-6))
    return lab('mu_' + kind, m)


def g_zones(rng, rnd):
    z = [g_zone(rng, rnd) for _ in range(rng.randrange(1, 5))]
    return dict(kind=z[0]['kind'], n=[x['n'] for x in z], s=[x['s'] for x in z], kap=[x['kap'] for x in z])


@check('C23', 'mu functions (arrays)', g_zones)
def t_mu_arr(kind, n, s, kap):
    N, S, K = np.array(n), np.array(s), np.array(kap)
    got = getattr(sz, 'mu_' + kind)(*args(kind, N, S, K))
    want = [profile(kind, *x).mu() for x in zip(n, s, kap)]
    return lab('mu_' + kind, first(close(np.ravel(got), want, 1e-6), lab('inputs changed', close(N, n) or close(S, s) or close(K, kap))))


def g_steps(rng, rnd):
    L = rng.randrange(1, 5)
    s = [1.0]
    for _ in range(L):
        s.append(s[-1] + math.exp(rng.uniform(-2, 2)))
    kap = [math.exp(rng.uniform(math.log(.3), math.log(9))) for _ in range(L + 1)]
    mode = rng.randrange(3)
    if rng.random() < .3:
        i = rng.randrange(L)
        kap[i + 1] = kap[i]
    if rng.random() < .25:
        i = rng.randrange(L)
        kap[i + 1] = kap[i] * s[i] / s[i + 1]
    rep = rng.random() < .3 and L > 1
    if rep:
        i = rng.randrange(1, L)
        s.insert(i, s[i])
        kap.insert(i, math.exp(rng.uniform(-1, 2)))
    if rng.random() < .15:
        s = [float(i + 1) for i in range(len(s))]
        rep = False
    r = sorted([rng.uniform(1, s[-1]) for _ in range(rng.randrange(1, 6))] + ([1.0, s[-1]] if rng.random() < .4 else []) + (s[1:] if rng.random() < .4 else []))
    return dict(s=s, kap=kap, mode=mode, r=r, uavg=rng.choice([1, rng.uniform(-3, 9)]), uw=rng.choice([0, rng.uniform(-3, 3)]), muw=rng.choice([0, rng.uniform(.1, 4)]))


def as_constant(s, kap, mode):
    """piecewise constant profile: (profile, args, kwargs)"""
    s2, k2 = [s[0]], []
    for a, b in zip(s[1:], kap[1:]):
        if a > s2[-1]:
            s2.append(a)
            k2.append(b)
    s2 = s2[1:]
    kw = {}
    if mode == 0 or len(s2) == 1:
        P = Profile(s2[-1], [(b, lambda r, q=q: q + 0 * r) for b, q in zip(s2, k2)])
        return P, (s2, k2), kw
    kw['n'] = s2[-1]
    if mode == 1:
        k2[-1] = k2[-2]
    else:
        kw['kap_m'] = k2[-1]
    P = Profile(s2[-1], [(b, lambda r, q=q: q + 0 * r) for b, q in zip(s2, k2)])
    return P, (s2[:-1], k2[:-1]), kw


def as_linear(s, kap, mode):
    s, kap = list(s), list(kap)
    kw = {}
    a = (s, kap)
    if mode and len(s) > 2 and s[-1] > s[-2]:
        kw['n'] = s[-1]
        if mode == 1:
            kap[-1] = kap[-2]
        else:
            kw['kap_m'] = kap[-1]
        a = (s[:-1], kap[:-1])
    parts = []
    for i in range(1, len(s)):
        if s[i] > s[i - 1]:
            parts.append((s[i], lambda r, p=(s[i - 1], s[i], kap[i - 1], kap[i]): 1 / (1 / p[2] + (1 / p[3] - 1 / p[2]) * (r - p[0]) / (p[1] - p[0]))))
    return Profile(s[-1], parts), a, kw


@check('C23', 'mu_piecewise functions', g_steps)
def t_mu_pw(s, kap, mode, r, uavg, uw, muw):
    for nm, f in (('constant', as_constant), ('linear', as_linear)):
        P, a, kw = f(s, kap, mode)
        fn = getattr(sz, 'mu_piecewise_' + nm)
        x = [np.array(v) for v in a]
        want = P.mu()
        m = first(close(float(fn(*x, **kw)), want, 1e-6), lab('lists', close(float(fn(*[list(v) for v in a], **kw)), want, 1e-6)),
                  lab('inputs changed', close(x[0], a[0]) or close(x[1], a[1])))
        if m:
            return 'mu_piecewise_%s(%s, %s, %s): %s' % (nm, a[0], a[1], kw, m)


@check('C24', 'permeability profiles', g_zone)
def t_k(kind, n, s, kap, r, uavg, uw, muw, ints):
    if kind in ('ideal', 'constant'):
        return
    P = profile(kind, n, s, kap)
    f = getattr(sz, 'k_' + kind)
    got = f(n, s, kap, np.array(r))
    # the value at a break itself may be that of either side
    want = [P.k(x) for x in r]
    return lab('k_' + kind, first(close(got, want, 1e-7), lab('single radius', close(np.ravel(f(n, s, kap, r[0])), [P.k(r[0])]))))


@check('C24', 'pressure profiles', g_zone)
def t_u(kind, n, s, kap, r, uavg, uw, muw, ints):
    if kind == 'overlapping_linear':
        return
    P = profile(kind, n, s, kap)
    x = np.array(r)
    a = args(kind, n, s, kap)
    f = getattr(sz, 'u_' + kind)
    got = f(*(a + (x, uavg, uw, muw)))
    want = [uw + (uavg - uw) / (P.mu() + muw) * (muw + P.flow(y)) for y in r]
    m = first(close(got, want, 1e-6), lab('radii changed', close(x, r)))
    if not m:
        m = lab('single radius', close(np.ravel(f(*(a + (r[-1],)))), [P.flow(r[-1]) / P.mu()], 1e-6))
    if not m and ints:
        ri = sorted({int(y) for y in r if 1 <= int(y) <= n})
        if ri:
            m = lab('integer radii', close(f(*(a + (np.array(ri), uavg, uw, muw))), [uw + (uavg - uw) / (P.mu() + muw) * (muw + P.flow(y)) for y in ri], 1e-6))
    return lab('u_' + kind, m)


@check('C24', 'pressure profiles, piecewise', g_steps)
def t_u_pw(s, kap, mode, r, uavg, uw, muw):
    for nm, f in (('constant', as_constant), ('linear', as_linear)):
        P, a, kw = f(s, kap, mode)
        if P.n < r[-1]:
            continue
        fn = getattr(sz, 'u_piecewise_' + nm)
        x = [np.array(v) for v in a] + [np.array(r)]
        mu = P.mu()
        got = fn(*(x + [uavg, uw, muw]), **kw)
        want = [uw + (uavg - uw) / (mu + muw) * (muw + P.flow(y)) for y in r]
        m = first(close(got, want, 1e-6), lab('inputs changed', close(x[0], a[0]) or close(x[1], a[1]) or close(x[2], r)))
        if m:
            return 'u_piecewise_%s(%s, %s, %s, %s, %s, %s, %s): %s' % (nm, a[0], a[1], r, uavg, uw, muw, kw, m)


@check('C24', 'average of the pressure profile', g_zone)
def t_avg(kind, n, s, kap, r, uavg, uw, muw, ints):
    if kind == 'overlapping_linear':
        return
    f = getattr(sz, 'u_' + kind)
    a = args(kind, n, s, kap)
    u = lambda x: f(*(a + (x, uavg, uw, muw)))
    t = sum(quad(lambda x: 2 * x * u(x), p, q) for p, q in ((1.0, min(s, n)), (min(s, n), n)))
    return lab('area average of u_' + kind, close(t / (n * n - 1), uavg, 1e-6, 1e-7))


# ---- C25 -------------------------------------------------------------------

def g_sp(rng, rnd):
    return dict(sp=[rng.uniform(.1, 9) for _ in range(rng.randrange(1, 4))], pattern=rng.choice(['Triangle', 'triangle', 't', 'T', 'Square', 'square', 's', 'S', None]))


@check('C25', 're_from_drain_spacing', g_sp)
def t_re(sp, pattern):
    a = [] if pattern is None else [pattern]
    q = 1 if pattern and pattern[0] in 'sS' else math.sqrt(3) / 2
    re = sz.re_from_drain_spacing(np.array(sp), *a)
    return first(close(math.pi * np.asarray(re) ** 2, q * np.array(sp) ** 2, 1e-12), close(sz.re_from_drain_spacing(sp[0], *a), np.sqrt(q / math.pi) * sp[0], 1e-12))


@check('C25', 'drain_eta', g_zone)
def t_eta(kind, n, s, kap, r, uavg, uw, muw, ints):
    a = args(kind, n, s, kap)
    f = getattr(sz, 'mu_' + kind)
    re = 1.3
    mu = float(np.ravel(f(*a))[0])
    w = 2 / re ** 2 / (mu + muw)
    return first(close(one_value(sz.drain_eta(re, f, *a, muw=muw)), w, 1e-10), close(one_value(sz.drain_eta(re, 'mu_' + kind, *a, muw=muw)), w, 1e-10),
                 close(one_value(sz.drain_eta(re, f, *a)), 2 / re ** 2 / mu, 1e-10))


def one_value(x):
    return float(np.ravel(x)[0])


def g_well(rng, rnd):
    return dict(kh=rng.uniform(.1, 3), qw=rng.uniform(.5, 90), n=rng.uniform(1.2, 40), H=rng.uniform(.5, 30), z=rng.random())


@check('C25', 'mu_well_resistance', g_well)
def t_well(kh, qw, n, H, z):
    at = lambda z: float(sz.mu_well_resistance(kh, qw, n, H, z))
    w = lambda z: math.pi * kh / qw * (1 - 1 / n ** 2) * z * (2 * H - z)
    x, q = GL
    avg = sum(q / 2 * np.array([at(H * (1 + t) / 2) for t in x]))
    return first(lab('value', close(at(z * H), w(z * H), 1e-10)), lab('depth average', close(float(sz.mu_well_resistance(kh, qw, n, H)), avg, 1e-9)),
                 lab('at the ends', close([at(0.0), at(H)], [w(0), w(H)], 1e-9)), lab('at z = 0', close(float(sz.mu_well_resistance(kh, qw, n, H, 0)), 0)))


def g_back(rng, rnd):
    kind = (['constant', 'linear', 'parabolic', 'overlapping_linear', 'ideal', 'piecewise_constant', 'piecewise_linear'])[rnd % 7]
    return dict(kind=kind, rw=rng.uniform(.02, .08), s=rng.uniform(1.5, 5), kap=rng.uniform(1.5, 5), m=rng.uniform(1.5, 9), muw=rng.choice([0, rng.uniform(.1, 3)]), pattern=rng.choice(['Triangle', 'Square', 't', 'T', 'triangular', 's', 'square', 'SQUARE']))


@check('C25', 'back_calc_drain_spacing_from_eta', g_back)
def t_back(kind, rw, s, kap, m, muw, pattern):
    f = getattr(sz, 'mu_' + kind)
    n = s * m
    pw = kind.startswith('piecewise')
    S, K = (np.array([1 + (s - 1) / 2, s]), np.array([kap, kap / 2 + .5])) if pw else (s, kap)
    if pw and kind.endswith('linear'):
        S, K = np.array([1.0, s]), np.array([kap, 1.0])
    mu = (lambda n: f(S, K, n=n)) if pw else (lambda n: f(n, S, K))
    eta = one_value(2 / (n * rw) ** 2 / (mu(n) + muw))
    try:
        sp, re, n2 = sz.back_calc_drain_spacing_from_eta(eta, pattern, f, rw, S, K, muw)
    except ValueError:
        return          # the search may fail; it says so
    return first(lab('radius of the spacing', close(one_value(re), one_value(sz.re_from_drain_spacing(sp, pattern)), 1e-10)), lab('ratio', close(one_value(n2 * rw), one_value(re), 1e-10)),
                 lab('efficiency', close(one_value(2 / re ** 2 / (mu(n2) + muw)), one_value(eta), 1e-5)))


def g_nd(rng, rnd):
    n = 1 + math.exp(rng.uniform(0, 3.5))
    s = 1 + (n - 1) * rng.uniform(.1, .9)
    return dict(n=n, s=s, kap=rng.uniform(1, 6), nf=rng.choice([1.0001, rng.uniform(1.01, 2)]), r=[1.0, n] + [rng.uniform(1, n) for _ in range(3)], nt=rng.choice([20, rng.randrange(2, 30)]))


def nd_terms(nf, nt):
    c, o = 1.0, []
    for j in range(nt):
        o.append(c)
        c *= (j - 1 / nf) / (j + 1)
    return o


def nd_g(r, n, nf, nt):
    return sum(c * r ** (1 - 1 / nf) * (r / n) ** (2 * j) / (2 * j + 1 - 1 / nf) for j, c in enumerate(nd_terms(nf, nt)))


def nd_gb(r, n, nf, nt):
    return sum(c * r ** (3 - 1 / nf) * (r / n) ** (2 * j) / (2 * j + 1 - 1 / nf) / (2 * j + 3 - 1 / nf) for j, c in enumerate(nd_terms(nf, nt)))


@check('C25', 'non-Darcian series', g_nd)
def t_series(n, s, kap, nf, r, nt):
    R = np.array(r)
    return first(lab('g, array', close(sz._g(R, n, nf, nt), nd_g(R, n, nf, nt), 1e-8)), lab('gbar, array', close(sz._gbar(R, n, nf, nt), nd_gb(R, n, nf, nt), 1e-8)),
                 lab('g', close(float(sz._g(r[2], n, nf, nt)), nd_g(r[2], n, nf, nt), 1e-8)), lab('gbar', close(float(sz._gbar(r[2], n, nf, nt)), nd_gb(r[2], n, nf, nt), 1e-8)),
                 lab('g, default terms', close(float(sz._g(r[2], n, nf)), nd_g(r[2], n, nf, 20), 1e-8)))


@check('C25', 'non-Darcian resistance', g_nd)
def t_beta(n, s, kap, nf, r, nt):
    nt = 30
    flow = lambda x: x ** (-1 / nf) * sum(c * (x / n) ** (2 * j) for j, c in enumerate(nd_terms(nf, nt)))
    q = kap ** (1 / nf)
    P = lambda x: (q * quad(flow, 1, min(x, s)) + (quad(flow, s, x) if x > s else 0))
    W = lambda x: flow(x) * (n * n - x * x)
    want = (q * quad(W, 1, s) + quad(W, s, n)) / (n * n - 1)
    ideal = quad(W, 1, n) / (n * n - 1)
    b = lambda f, *a, **k: float(np.ravel(f(*a, **k))[0])
    u = sz.non_darcy_u_piecewise_constant([s, n], [kap, 1.0], np.array(r), 3.0, .5, .2, nflow=nf, nterms=nt)
    pu = [.5 + 2.5 / (want + .2) * (.2 + P(x)) for x in r]
    eta = 2 / (1.7 ** 2 * want ** nf * (1.7 / n * 10) ** (nf - 1) * nf * 8 ** (nf - 1))
    return first(lab('beta_ideal', close(b(sz.non_darcy_beta_ideal, n, nf, nt), ideal, 1e-6)), lab('beta_constant', close(b(sz.non_darcy_beta_constant, n, s, kap, nf, nt), want, 1e-6)),
                 lab('beta_piecewise', close(b(sz.non_darcy_beta_piecewise_constant, [s, n], [kap, 1.0], nflow=nf, nterms=nt), want, 1e-6)),
                 lab('beta_piecewise, n', close(b(sz.non_darcy_beta_piecewise_constant, [s], [kap], n, 1.0, nf, nt), want, 1e-6)),
                 lab('u', close(u, pu, 1e-6)),
                 lab('eta', close(float(sz.non_darcy_drain_eta(1.7, 8, 10, 'non_darcy_beta_constant', n, s, kap, nflow=nf, nterms=nt)), eta, 1e-6)))


if __name__ == '__main__':
    main()
