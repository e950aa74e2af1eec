"""Run-time evaluation of the superposition and output contracts (C08, C09) by quadrature."""
import numpy as np
from dv.numh import check, close, main
import geotecha.speccon.speccon1d as s1
from geotecha.piecewise.piecewise_linear_1d import PolyLine
from num_loads import table, amp, slope

GX, GW = np.polynomial.legendre.leggauss(40)


class Prof(object):
    """piecewise linear function of depth 0..1"""

    def __init__(self, x, y1, y2):
        self.x, self.y1, self.y2 = [np.array(q, float) for q in (x, y1, y2)]

    def line(self):
        return PolyLine(self.x[:-1], self.x[1:], self.y1, self.y2)

    def seg(self, z):
        """value and slope at depths inside segments"""
        k = np.clip(np.searchsorted(self.x, z, side='right') - 1, 0, len(self.y1) - 1)
        s = (self.y2[k] - self.y1[k]) / (self.x[k + 1] - self.x[k])
        return self.y1[k] + s * (z - self.x[k]), s


def prof(rng):
    n = rng.randint(1, 3)
    x = [0.0] + sorted(rng.uniform(0.05, 0.95) for _ in range(n - 1)) + [1.0]
    if n == 3 and x[2] - x[1] < 0.02:
        x[2] = x[1] + 0.02
    return [x, [rng.uniform(0.5, 2) for _ in range(n)], [rng.uniform(0.5, 2) for _ in range(n)]]


def integ(f, ps, a=0.0, b=1.0):
    """int_a^b f(z), broken at all break points of the profiles"""
    e = np.unique(np.concatenate([[a, b]] + [p.x for p in ps]))
    e = e[(e >= a) & (e <= b)]
    t = 0.0
    for p, q in zip(e[:-1], e[1:]):
        t += 0.5 * (q - p) * np.sum(GW * f(0.5 * (p + q) + 0.5 * (q - p) * GX))
    return t


def theta(m, ps, g):
    """int a b ... g sin(m z)"""
    def f(z):
        r = g(z) * np.sin(m * z)
        for p in ps:
            r = r * p.seg(z)[0]
        return r
    return integ(f, ps)


def theta_d(m, p, gs):
    """int (a g')' sin(m z) with jumps of a, g' constant: slopes in the segments plus jumps at the inner breaks"""
    t = integ(lambda z: p.seg(z)[1] * gs * np.sin(m * z), [p])
    for k in range(1, len(p.y1)):
        t += (p.y1[k] - p.y2[k - 1]) * gs * np.sin(m * p.x[k])
    return t


def loads(rng, L):
    out = []
    for _ in range(L):
        n = rng.randint(2, 4)
        x = [rng.choice([0.0, 0.3])]
        while len(x) < n:
            x.append(x[-1] + rng.choice([0.0, 0.5, 1.0]))
        if x[-1] == x[0]:
            x[-1] += 1.0
        out.append([x, [rng.uniform(-2, 2) for _ in x], None if rng.random() < 0.5 else [rng.choice([0.0, rng.uniform(-4, 4)]) if rng.random() < 0.4 else rng.uniform(-4, 4), rng.uniform(-2, 2)]])
    return out


def gen(rng, k):
    n = rng.randint(2, 3)
    m = sorted(rng.uniform(0.5, 8) for _ in range(n))
    for i in range(1, n):
        m[i] = max(m[i], m[i - 1] + 0.3)
    L = rng.randint(1, 3)
    return dict(m=m, lam=[rng.uniform(0.2, 3) for _ in range(n)], t=[rng.choice([0.2, 0.3, 0.8, 1.3, 2.5]) + 1e-3 * rng.random() for _ in range(3)],
                Ig=[[rng.uniform(-1, 1) for _ in range(n)] for _ in range(n)], drn=rng.randint(0, 1), dT=rng.choice([1.0, 0.4]),
                a=prof(rng), b=prof(rng), top=rng.choice([None, loads(rng, L)]), bot=rng.choice([None, loads(rng, rng.randint(1, 2))]),
                dep=[prof(rng) for _ in range(L)], mag=loads(rng, L), z=[rng.uniform(0.05, 1) for _ in range(L)], k=[rng.uniform(0.1, 3) for _ in range(L)],
                zero=rng.choice([None, None, 'from', 'to']), impl=rng.choice(['scalar', 'vectorized']), nofreq=rng.random() < 0.3)


class Case(object):
    def __init__(self, d):
        self.__dict__.update(d)
        self.ma, self.la, self.ta, self.I = [np.array(q) for q in (self.m, self.lam, self.t, self.Ig)]
        self.mask = np.ones(len(self.m))
        self.zi = {None: None, 'from': slice(1, None), 'to': slice(None, 1)}[self.zero]
        if self.zi is not None:
            self.mask[self.zi] = 0
        self.kw = dict(dT=self.dT, theta_zero_indexes=self.zi, implementation=self.impl)
        if self.nofreq:
            for q in (self.top, self.bot, self.mag):
                for l in q or []:
                    l[2] = None

    def E(self, l, rate):
        x, y, op = l
        f = amp(x, y)
        sl = slope(x, y)
        om, ph = op or (0.0, 0.0)
        if not rate:
            return table(x, y, self.t, self.lam, self.dT, lambda k, s: f(k, s) * np.cos(om * s + ph), None)
        return table(x, y, self.t, self.lam, self.dT,
                     lambda k, s: sl(k) * np.cos(om * s + ph) - om * f(k, s) * np.sin(om * s + ph),
                     lambda k: (y[k + 1] - y[k]) * np.cos(om * x[k] + ph))

    def freqs(self, ls):
        return None if ls is None or self.nofreq else [l[2] for l in ls]

    def lines(self, ls):
        return None if ls is None else [PolyLine(np.array(l[0]), np.array(l[1])) for l in ls]

    def add(self, l, rate, th):
        """(eigenvalue, time)"""
        return (self.E(l, rate) * (self.I @ (np.array(th) * self.mask))).T


KINDS = {'aDfDt_linear': (1, True), 'abf_linear': (2, False), 'abDfDt_linear': (2, True), 'D_aDf_linear': (1, False), 'deltaf_linear': (0, False)}


def boundary(kind):
    npar, rate = KINDS[kind]

    def f(**d):
        c = Case(d)
        ps = [Prof(*c.a), Prof(*c.b)][:npar]
        gt = (lambda z: 1 + 0 * z) if c.drn else (lambda z: 1 - z)
        want = 0
        for ls, g, gs in ((c.top, gt, 0.0 if c.drn else -1.0), (c.bot, lambda z: z, 1.0)):
            for l in ls or []:
                if kind == 'deltaf_linear':
                    th = [sum(k * np.sin(z * m) * g(z) for z, k in zip(c.z, c.k)) for m in c.m]
                elif kind == 'D_aDf_linear':
                    th = [theta_d(m, ps[0], gs) for m in c.m]
                else:
                    th = [theta(m, ps, g) for m in c.m]
                want = want + c.add(l, rate, th)
        if np.shape(want) == ():
            want = np.zeros((len(c.m), len(c.t)))
        par = [np.array(c.z), np.array(c.k)] if npar == 0 else [p.line() for p in ps]
        r = getattr(s1, 'dim1sin_E_Igamv_the_BC_' + kind)(
            c.drn, c.ma, c.la, c.ta, c.I, *par, top_vs_time=c.lines(c.top), bot_vs_time=c.lines(c.bot),
            top_omega_phase=c.freqs(c.top), bot_omega_phase=c.freqs(c.bot), **c.kw)
        return close(r, want, 1e-6, 1e-7)
    check('C08', 'boundary ' + kind, gen)(f)


for kind in KINDS:
    boundary(kind)


def moving(which):
    def f(**d):
        c = Case(d)
        a, b = Prof(*c.a), Prof(*c.b)
        want = 0
        for l, q, z, k in zip(c.mag, c.dep, c.z, c.k):
            q = Prof(*q)
            if which == 'deltamag_linear':
                th, rate = [k * np.sin(z * m) for m in c.m], False
            elif which == 'aDmagDt_bilinear':
                th, rate = [theta(m, [a, q], lambda s: 1 + 0 * s) for m in c.m], True
            else:
                th, rate = [theta(m, [a, b, q], lambda s: 1 + 0 * s) for m in c.m], False
            want = want + c.add(l, rate, th)
        head = (c.ma, c.la, c.ta, c.I)
        if which == 'deltamag_linear':
            par = (np.array(c.z), np.array(c.k), c.lines(c.mag))
        else:
            dep = [Prof(*q).line() for q in c.dep]
            par = ((a.line(),) if which[0:2] == 'aD' else (a.line(), b.line())) + (dep, c.lines(c.mag))
        r = getattr(s1, 'dim1sin_E_Igamv_the_' + which)(*head, *par, omega_phase=c.freqs(c.mag), **c.kw)
        return close(r, want, 1e-6, 1e-7)
    check('C08', 'loads ' + which, gen)(f)


for which in ('deltamag_linear', 'aDmagDt_bilinear', 'abmag_bilinear'):
    moving(which)


@check('C08', 'boundary foft', gen)
def foft(**d):
    c = Case(d)
    p = Prof(*c.a)
    want = np.zeros((len(c.m), len(c.t)))
    for ls, gs in ((c.top, 0.0 if c.drn else -1.0), (c.bot, 1.0)):
        for x, y, op in ls or []:
            om, ph = op or (0.0, 0.0)
            v = np.interp(c.ta, x, y) * np.cos(om * c.ta + ph)
            want += np.outer(c.I @ (np.array([theta_d(m, p, gs) for m in c.m]) * c.mask), v)
    r = s1.dim1sin_foft_Ipsiw_the_BC_D_aDf_linear(
        c.drn, c.ma, c.la, c.ta, c.I, p.line(), c.lines(c.top), c.lines(c.bot),
        c.freqs(c.top), c.freqs(c.bot), theta_zero_indexes=c.zi)
    return close(r, want, 1e-6, 1e-7)


class Wheels(object):
    def __init__(self, ls):
        self.ls = ls

    def convert_to_specbeam(self):
        return [PolyLine(np.array(l[0]), np.array(l[1])) for l in self.ls], [l[2] for l in self.ls]


@check('C08', 'moving point loads', gen)
def mvpl(**d):
    for l in d['mag'] + (d['top'] or []):
        l[2] = l[2] or [1.3, -0.4]
    c = Case(dict(d, nofreq=False))
    groups = [g for g in (c.mag, c.top) if g]
    want = np.zeros((len(c.m), len(c.t)))
    for g in groups:
        for x, y, (om, ph) in g:
            f = amp(x, y)
            for j, m in enumerate(c.m):
                E = table(x, y, c.t, c.lam, c.dT, lambda k, s: f(k, s) * np.sin(m * (om * s + ph)), None)
                want += (E * c.I[:, j]).T * c.mask[j]
    r = s1.dim1sin_E_Igamv_the_mvpl(c.ma, c.la, c.ta, c.I, [Wheels(g) for g in groups], **c.kw)
    return close(r, want, 1e-6, 1e-7)


# ---------------------------------------------------------------- outputs (C09)
def after(x, y, t):
    """value of a history at time t: on the last segment that contains t; constant outside"""
    ks = [k for k in range(len(x) - 1) if x[k] < x[k + 1] and x[k] <= t <= x[k + 1]]
    if not ks:
        return y[0] if abs(t - x[0]) < abs(t - x[-1]) else y[-1]
    k = ks[-1]
    return y[k] + (y[k + 1] - y[k]) * (t - x[k]) / (x[k + 1] - x[k])


def outgen(rng, k):
    d = gen(rng, k)
    d['t'] = [rng.choice([0.0, 0.3, 0.5, 0.8, 1.0, 1.3, 1.77, 4.0]) for _ in range(3)]
    d['z'] = [rng.choice([0.0, 1.0, rng.random()]) for _ in range(3)]
    d['pairs'] = [sorted([rng.random() * 0.5, 0.55 + 0.45 * rng.random()]) for _ in range(2)] + [[0.0, 1.0]]
    d['v'] = [[rng.uniform(-1, 1) for _ in d['t']] for _ in d['m']]
    return d


def output(kind):
    def f(**d):
        c = Case(d)
        p = Prof(*c.a)
        v = np.array(d['v'])
        if kind == 'f':
            zs = [(z, z) for z in d['z']]
            of = lambda g, a, b: g(np.array([a]))[0]
        else:
            zs = d['pairs']
            of = (lambda g, a, b: integ(g, [p], a, b) / (b - a)) if kind == 'avgf' else (lambda g, a, b: integ(lambda z: g(z) * p.seg(z)[0], [p], a, b))
        want = np.array([[of(lambda z: np.sin(m * z), a, b) for m in c.m] for a, b in zs]) @ v
        for ls, g in ((c.top, (lambda z: 1 + 0 * z) if c.drn else (lambda z: 1 - z)), (c.bot, lambda z: z)):
            for x, y, op in ls or []:
                om, ph = op or (0.0, 0.0)
                want += np.outer([of(g, a, b) for a, b in zs], [after(x, y, t) * np.cos(om * t + ph) for t in c.t])
        z = np.array(d['z']) if kind == 'f' else np.array(zs)
        par = (p.line(),) if kind == 'integrate_af' else ()
        v0 = v.copy()
        r = getattr(s1, 'dim1sin_' + kind)(c.ma, z, c.ta, v, c.drn, *par, top_vs_time=c.lines(c.top), bot_vs_time=c.lines(c.bot),
                                           top_omega_phase=c.freqs(c.top), bot_omega_phase=c.freqs(c.bot))
        if not np.array_equal(v, v0):
            return 'coefficients changed'
        return close(r, want, 1e-7, 1e-8)
    check('C09', 'output ' + kind, outgen)(f)


for kind in ('f', 'avgf', 'integrate_af'):
    output(kind)


if __name__ == '__main__':
    main()
