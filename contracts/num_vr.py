"""Run-time evaluation of the model assembly contracts (C10, C11) against an independent Galerkin solution by quadrature."""
import numpy as np
from dv.numh import check, close, main
from geotecha.piecewise.piecewise_linear_1d import PolyLine
from geotecha.speccon.speccon1d_vr import Speccon1dVR
from geotecha.speccon.speccon1d_vrw import Speccon1dVRW
from geotecha.speccon.speccon1d_vrc import Speccon1dVRC
from num_loads import table, amp, slope
from num_spec1d import Prof, prof, integ, loads, after

ONE = Prof([0, 1], [1], [1])


def lines(ls):
    return None if ls is None else [PolyLine(np.array(l[0]), np.array(l[1])) for l in ls]


def freqs(ls):
    return None if ls is None else [l[2] for l in ls]


def gen(rng, k):
    maybe = lambda f: f() if rng.random() < 0.6 else None
    L, P = rng.randint(1, 2), rng.randint(1, 2)
    d = dict(neig=rng.randint(2, 3), drn=rng.randint(0, 1), dT=rng.choice([1.0, 0.5, 2.0]), H=rng.choice([1.0, 2.5]), mvref=rng.choice([1.0, 0.4]),
             mv=prof(rng), vert=maybe(lambda: [rng.uniform(0.3, 2), prof(rng)]), rad=maybe(lambda: [rng.uniform(0.3, 2), prof(rng), prof(rng)]),
             top=maybe(lambda: loads(rng, L)), bot=maybe(lambda: loads(rng, 1)), sur=maybe(lambda: [loads(rng, L), [prof(rng) for _ in range(L)]]),
             vac=maybe(lambda: [loads(rng, 1), [prof(rng)]]),
             fix=None if rng.random() < 0.6 else [[rng.uniform(0.1, 0.9), rng.choice([0.7, 20.0]), rng.choice([None, loads(rng, 1)[0]])] for _ in range(P)],
             pump=None if rng.random() < 0.6 else [[rng.uniform(0.1, 0.9), loads(rng, 1)[0]] for _ in range(P)],
             t=[rng.choice([0.2, 0.55, 1.3, 2.6]) + 1e-3 * rng.random() if rng.random() < 0.7 else rng.choice([0.3, 0.5, 0.8, 1.0, 1.3, 2.0]) for _ in range(3)], pick=rng.randint(0, 2),
             z=[0.0, rng.random(), 1.0], pairs=[sorted([rng.random() * 0.5, 0.55 + 0.45 * rng.random()]), [0.0, 1.0]], well=[rng.uniform(0.3, 3), prof(rng)],
             impl=rng.choice(['scalar', 'vectorized']))
    if not d['vert'] and not d['rad']:
        d['vert'] = [0.8, prof(rng)]
    if not d['rad']:
        d['vac'] = None
    if not any(d[q] for q in ('top', 'bot', 'sur', 'vac', 'fix', 'pump')):
        d['top'] = loads(rng, 1)
    return d


def wgen(rng, k):
    d = gen(rng, k)
    d['t'] = [q + 1e-3 * rng.random() for q in d['t']]      # never at a step: the drain pressure is not stated at that instant
    d['vac'] = None
    d['rad'] = d['rad'] or [rng.uniform(0.3, 2), prof(rng), prof(rng)]
    if not any(d[q] for q in ('top', 'bot', 'sur', 'fix', 'pump')):
        d['top'] = loads(rng, 1)
    return d


class Galerkin(object):
    """mv u,t = dTv (kv u,z),z - dTh kh et (u - w) - k (u - p) + ... by sine modes, everything by quadrature"""

    def __init__(self, d):
        self.__dict__.update(d)
        n = self.neig
        self.m = np.pi * (np.arange(n) + (0.5 if self.drn else 0.0)) + (0 if self.drn else np.pi)
        self.MV = Prof(*self.mv)
        self.F = self.pair(self.MV)
        self.K = np.zeros((n, n))
        if self.vert:
            self.KV = Prof(*self.vert[1])
            self.K += self.vert[0] * self.stiff(self.KV)
        if self.rad:
            self.KH, self.ET = Prof(*self.rad[1]), Prof(*self.rad[2])
            self.S = self.rad[0] * self.pair(self.KH, self.ET)
            self.K += self.S
        for z, k, _ in self.fix or []:
            s = np.sin(self.m * z)
            self.K += k * np.outer(s, s)

    def pair(self, *ps):
        def f(i, j):
            def g(z):
                r = np.sin(self.m[i] * z) * np.sin(self.m[j] * z)
                for p in ps:
                    r = r * p.seg(z)[0]
                return r
            return integ(g, ps)
        return np.array([[f(i, j) for j in range(self.neig)] for i in range(self.neig)])

    def stiff(self, p):
        """int k phi_i' phi_j' (phi_i vanishes at the top; at the bottom phi_i or the flux vanishes)"""
        return np.array([[integ(lambda z: p.seg(z)[0] * a * b * np.cos(a * z) * np.cos(b * z), [p]) for b in self.m] for a in self.m])

    def vec(self, g, *ps):
        """int g phi_i"""
        def h(z, a):
            r = g(z) * np.sin(a * z)
            for p in ps:
                r = r * p.seg(z)[0]
            return r
        return np.array([integ(lambda z: h(z, a), ps) for a in self.m])

    def flux(self, p, gs):
        """int phi_i (k g')' with constant g': segment slopes and jumps of k"""
        r = np.zeros(self.neig)
        for i, a in enumerate(self.m):
            r[i] = integ(lambda z: p.seg(z)[1] * gs * np.sin(a * z), [p])
            for k in range(1, len(p.y1)):
                r[i] += (p.y1[k] - p.y2[k - 1]) * gs * np.sin(a * p.x[k])
        return r

    def ends(self):
        """boundary values: history, shape, slope of the shape"""
        for l in self.top or []:
            yield l, ((lambda z: 1 + 0 * z) if self.drn else (lambda z: 1 - z)), (0.0 if self.drn else -1.0)
        for x, y, op in self.bot or []:
            c = self.H if self.drn else 1.0
            yield [x, [c * q for q in y], op], (lambda z: z), 1.0

    def sources(self):
        """(vector, history, rate of the history instead of its value)"""
        for l, p in zip(*(self.sur or [[], []])):
            P = Prof(*p)
            yield self.vec(lambda z: 1.0, self.MV, P), l, True
        for l, p in zip(*(self.vac or [[], []])):
            yield self.rad[0] * self.vec(lambda z: 1.0, self.KH, self.ET, Prof(*p)), l, False
        for z, k, l in self.fix or []:
            if l is not None:
                yield k * np.sin(self.m * z), l, False
        for z, (x, y, op) in self.pump or []:
            yield np.sin(self.m * z), [x, [q / (self.mvref * self.H) for q in y], op], False
        for l, g, gs in self.ends():
            yield -self.vec(g, self.MV), l, True
            if self.rad:
                yield self.drained(g, gs), l, False
            if self.vert:
                yield self.vert[0] * self.flux(self.KV, gs), l, False
            for z, k, _ in self.fix or []:
                yield -k * np.sin(self.m * z) * g(z), l, False

    def drained(self, g, gs):
        return -self.rad[0] * self.vec(g, self.KH, self.ET)

    def matrix(self):
        return self.K

    def coefficients(self):
        G = np.linalg.inv(self.F)
        lam, v = np.linalg.eig(G @ self.matrix())
        lam, v = lam.real, v.real
        A = np.zeros((self.neig, len(self.t)))
        for th, l, rate in self.sources():
            A += v @ (self.time(l, rate, lam) * (np.linalg.inv(v) @ G @ th)).T
        return A

    def time(self, l, rate, lam):
        x, y, op = l
        f, s = amp(x, y), slope(x, y)
        om, ph = op or (0.0, 0.0)
        if not rate:
            return table(x, y, self.t, lam, 1.0, lambda k, q: f(k, q) * np.cos(om * q + ph), None)
        return table(x, y, self.t, lam, 1.0, lambda k, q: s(k) * np.cos(om * q + ph) - om * f(k, q) * np.sin(om * q + ph),
                     lambda k: (y[k + 1] - y[k]) * np.cos(om * x[k] + ph))

    def hist(self, l):
        x, y, op = l
        om, ph = op or (0.0, 0.0)
        return np.array([after(x, y, t) * np.cos(om * t + ph) for t in self.t])

    def field(self, of, A):
        """functional `of` of the pore pressure for every time"""
        r = of(lambda z: np.sin(self.m[:, None] * z)) @ A
        for l, g, gs in self.ends():
            r = r + of(lambda z: np.array([g(z)]))[0] * self.hist(l)
        return r

    def outputs(self):
        A = self.coefficients()
        self.A = A
        por = [self.field(lambda f: f(np.array([z]))[:, 0], A) for z in self.z]
        many = lambda f, ps, a, b: np.array([integ(lambda z: f(z)[q], ps, a, b) for q in range(len(f(np.array([0.5]))))])
        avp = [self.field(lambda f: many(f, [], a, b) / (b - a), A) for a, b in self.pairs]
        sett = []
        for a, b in self.pairs:
            r = -self.field(lambda f: many(lambda z: f(z) * self.MV.seg(z)[0], [self.MV], a, b), A)
            for l, p in zip(*(self.sur or [[], []])):
                P = Prof(*p)
                r = r + self.hist(l) * integ(lambda z: P.seg(z)[0] * self.MV.seg(z)[0], [P, self.MV], a, b)
            sett.append(self.H * self.mvref * r)
        return [np.array(q)[:, self.pick:] for q in (por, avp, sett)]


class Well(Galerkin):
    """with dTw (kw w,z),z + dTh kh et (u - w) = 0 in the drain"""

    def __init__(self, d):
        Galerkin.__init__(self, d)
        self.KW = Prof(*self.well[1])
        self.W = self.well[0] * self.stiff(self.KW) + self.S
        self.C = np.linalg.inv(self.W)

    def matrix(self):
        return self.K - self.S @ self.C @ self.S

    def drained(self, g, gs):
        return self.S @ self.C @ (self.well[0] * self.flux(self.KW, gs))

    def in_drain(self):
        B = self.C @ self.S @ self.A
        for l, g, gs in self.ends():
            B = B + np.outer(self.C @ (self.well[0] * self.flux(self.KW, gs)), self.hist(l))
        return np.array([self.field(lambda f: f(np.array([z]))[:, 0], B) for z in self.z])[:, self.pick:]


class Column(Galerkin):
    """strain rate e' = mv (s' - u'), u = (1 - a) us + a uc, with continuity of flow
    e' = dTh kh et (us - w) - dTv (kv us,z),z = dThc khc (uc - w) - dTvc (kvc uc,z),z
       = -(1 - a) dTv (kv us,z),z - a dTvc (kvc uc,z),z"""

    def __init__(self, d):
        Galerkin.__init__(self, d)
        self.al = 1 / self.nr**2
        self.KVC, self.KHC = Prof(*self.cvert[1]), Prof(*self.chor[1])
        self.V = self.vert[0] * self.stiff(self.KV)
        self.VC = self.cvert[0] * self.stiff(self.KVC)
        self.HC = self.chor[0] * self.pair(self.KHC)
        n, I = self.neig, np.eye(self.neig)
        #   us, uc, w from u and the boundary terms r1 (soil), r2 (column), r3 (both) of the three flows
        big = np.zeros((3 * n, 3 * n))
        big[:n, :n], big[:n, n:2 * n] = (1 - self.al) * I, self.al * I
        soil = np.hstack([self.S + self.V, 0 * I, -self.S])
        col = np.hstack([0 * I, self.HC + self.VC, -self.HC])
        self.all = np.hstack([(1 - self.al) * self.V, self.al * self.VC, 0 * I])
        big[n:2 * n], big[2 * n:] = soil - col, soil - self.all
        self.inv = np.linalg.inv(big)

    def split(self, A, r1, r2):
        """us, uc, w"""
        r3 = (1 - self.al) * r1 + self.al * r2
        return self.inv @ np.concatenate([A, r1 - r2, r1 - r3])

    def fluxes(self, gs):
        return self.vert[0] * self.flux(self.KV, gs), self.cvert[0] * self.flux(self.KVC, gs)

    def matrix(self):
        n = self.neig
        Z = np.zeros(n)
        return np.array([self.all @ self.split(e, Z, Z) for e in np.eye(n)]).T

    def sources(self):
        for l, p in zip(*(self.sur or [[], []])):
            yield self.vec(lambda z: 1.0, self.MV, Prof(*p)), l, True
        for l, g, gs in self.ends():
            yield -self.vec(g, self.MV), l, True
            r1, r2 = self.fluxes(gs)
            yield (1 - self.al) * r1 + self.al * r2 - self.all @ self.split(0 * r1, r1, r2), l, False

    def parts(self):
        n = self.neig
        Z = np.zeros(n)
        X = np.array([self.split(a, Z, Z) for a in self.A.T]).T
        for l, g, gs in self.ends():
            X = X + np.outer(self.split(Z, *self.fluxes(gs)), self.hist(l))
        out = []
        for q in (X[:n], X[n:2 * n]):
            out.append(np.array([self.field(lambda f: f(np.array([z]))[:, 0], q) for z in self.z])[:, self.pick:])
            many = lambda f, a, b: np.array([integ(lambda z: f(z)[k], [], a, b) for k in range(len(f(np.array([0.5]))))])
            out.append(np.array([self.field(lambda f: many(f, a, b) / (b - a), q) for a, b in self.pairs])[:, self.pick:])
        return out


def cgen(rng, k):
    d = wgen(rng, k)
    d['fix'] = d['pump'] = None
    d['vert'] = d['vert'] or [rng.uniform(0.3, 2), prof(rng)]
    d['cvert'], d['chor'], d['nr'] = [rng.uniform(0.3, 2), prof(rng)], [rng.uniform(0.3, 2), prof(rng)], rng.uniform(1.3, 4)
    if not d['sur'] and not d['bot']:
        d['top'] = d['top'] or loads(rng, 1)
    return d


def build(cls, d):
    o = cls()
    o.neig, o.drn, o.dT, o.H, o.mvref, o.implementation = d['neig'], d['drn'], d['dT'], d['H'], d['mvref'], d['impl']
    o.mv = Prof(*d['mv']).line()
    if d['vert']:
        o.dTv, o.kv = d['vert'][0], Prof(*d['vert'][1]).line()
    if d['rad']:
        o.dTh, o.kh, o.et = d['rad'][0], Prof(*d['rad'][1]).line(), Prof(*d['rad'][2]).line()
    o.top_vs_time, o.top_omega_phase, o.bot_vs_time, o.bot_omega_phase = lines(d['top']), freqs(d['top']), lines(d['bot']), freqs(d['bot'])
    if d['sur']:
        o.surcharge_vs_time, o.surcharge_omega_phase, o.surcharge_vs_depth = lines(d['sur'][0]), freqs(d['sur'][0]), [Prof(*p).line() for p in d['sur'][1]]
    if d['vac']:
        o.vacuum_vs_time, o.vacuum_omega_phase, o.vacuum_vs_depth = lines(d['vac'][0]), freqs(d['vac'][0]), [Prof(*p).line() for p in d['vac'][1]]
    if d['fix']:
        o.fixed_ppress = [(z, k, None if l is None else lines([l])[0]) for z, k, l in d['fix']]
        o.fixed_ppress_omega_phase = [l and l[2] for _, _, l in d['fix']]
    if d['pump']:
        o.pumping = [(z, lines([l])[0]) for z, l in d['pump']]
        o.pumping_omega_phase = [l[2] for _, l in d['pump']]
    o.tvals, o.ppress_z, o.avg_ppress_z_pairs, o.settlement_z_pairs = d['t'], d['z'], d['pairs'], d['pairs']
    for k in ('ppress_z', 'avg_ppress_z_pairs', 'settlement_z_pairs'):
        setattr(o, k + '_tval_indexes', slice(d['pick'], None))
    return o


@check('C10', 'model against Galerkin solution by quadrature', gen)
def vr(**d):
    o = build(Speccon1dVR, d)
    o.make_all()
    want = Galerkin(d).outputs()
    for k, w in zip(('por', 'avp', 'set'), want):
        e = close(getattr(o, k), w, 1e-5, 1e-6)
        if e:
            return '%s: %s' % (k, e)


@check('C11', 'well resistance model against Galerkin solution by quadrature', wgen)
def vrw(**d):
    o = build(Speccon1dVRW, d)
    o.dTw, o.kw = d['well'][0], Prof(*d['well'][1]).line()
    o.make_all()
    g = Well(d)
    want = g.outputs()
    for k, w in zip(('por', 'avp', 'set', 'porwell'), want + [g.in_drain()]):
        e = close(getattr(o, k), w, 1e-5, 1e-6)
        if e:
            return '%s: %s' % (k, e)


@check('C11', 'stone column model against Galerkin solution by quadrature', cgen)
def vrc(**d):
    o = build(Speccon1dVRC, d)
    o.dTvc, o.kvc, o.dThc, o.khc, o.n = d['cvert'][0], Prof(*d['cvert'][1]).line(), d['chor'][0], Prof(*d['chor'][1]).line(), d['nr']
    o.make_all()
    g = Column(d)
    want = g.outputs()
    for k, w in zip(('por', 'avp', 'set', 'pors', 'avps', 'porc', 'avpc'), want + g.parts()):
        e = close(getattr(o, k), w, 1e-5, 1e-6)
        if e:
            return '%s: %s' % (k, e)


if __name__ == '__main__':
    main()
