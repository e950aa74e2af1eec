"""Run-time evaluation of the unsaturated model's assembly contracts (C12) against a Galerkin solution by quadrature."""
import numpy as np
from dv.numh import check, close, main
from geotecha.speccon.speccon1d_unsat import Speccon1dUnsat
from num_spec1d import Prof, prof, integ, loads
from num_vr import Galerkin, lines, freqs


def gen(rng, k):
    """coefficients of one sign, weak coupling: real decay rates"""
    def p(lo, hi):
        q = prof(rng)
        return [q[0], [rng.uniform(lo, hi) for _ in q[1]], [rng.uniform(lo, hi) for _ in q[1]]]
    maybe = lambda f: f() if rng.random() < 0.6 else None
    L = rng.randint(1, 2)
    d = dict(neig=2, drn=rng.randint(0, 1), dT=rng.choice([1.0, 0.5]), H=rng.choice([1.0, 2.5]), mvref=rng.choice([1.0, 0.4]), ua=rng.choice([1.0, 3.0]),
             m1kw=p(-0.9, -0.6), m2w=p(-2, -1.5), m1ka=p(-2, -1.5), m2a=p(0.1, 0.2), kw=p(0.5, 2), Da=p(0.5, 2), n=p(0.2, 0.6), S=p(0.3, 0.8),
             dTw=rng.uniform(0.4, 1.5), dTa=rng.uniform(0.4, 1.5), wtop=maybe(lambda: loads(rng, L)), wbot=maybe(lambda: loads(rng, 1)),
             atop=maybe(lambda: loads(rng, L)), abot=maybe(lambda: loads(rng, 1)), sur=maybe(lambda: [loads(rng, L), [prof(rng) for _ in range(L)]]),
             t=[rng.choice([0.2, 0.55, 1.3, 2.6]) + 1e-3 * rng.random() if rng.random() < 0.7 else rng.choice([0.3, 0.5, 0.8, 1.0, 1.3, 2.0]) for _ in range(3)], pick=rng.randint(0, 2),
             z=[0.0, rng.random(), 1.0], pairs=[sorted([rng.random() * 0.5, 0.55 + 0.45 * rng.random()]), [0.0, 1.0]], impl=rng.choice(['scalar', 'vectorized']))
    if rng.random() < 0.3:
        for q in ('wtop', 'wbot', 'atop', 'abot'):
            d[q] = d[q] or loads(rng, 1)
    if not any(d[q] for q in ('wtop', 'wbot', 'atop', 'abot', 'sur')):
        d['wtop'] = loads(rng, 1)
    return d


class Phases(Galerkin):
    """M u,t + (D u,z),z = m1 s,t for u = (water, air)"""

    def __init__(self, d):
        self.__dict__.update(d)
        n = self.neig
        self.m = np.pi * (np.arange(n) + (0.5 if self.drn else 1.0))
        P = {k: Prof(*d[k]) for k in ('m1kw', 'm2w', 'm1ka', 'm2a', 'kw', 'Da', 'n', 'S')}
        self.P = P
        one = lambda *names: self.pair(*[P[k] for k in names])
        c = 1 / (self.ua * self.mvref)
        self.F = np.block([[one('m2w'), one('m1kw') - one('m2w')],
                           [one('m2a'), one('m1ka') - one('m2a') - c * (one('n') - one('n', 'S'))]])
        Z = np.zeros((n, n))
        self.K = -np.block([[self.dTw * self.stiff(P['kw']), Z], [Z, self.dTa * self.stiff(P['Da'])]])

    def phase(self, p):
        self.top, self.bot = (self.wtop, self.wbot) if p == 'w' else (self.atop, self.abot)
        return self.ends()

    def sources(self):
        P, n, c = self.P, self.neig, 1 / (self.ua * self.mvref)
        for l, p in zip(*(self.sur or [[], []])):
            yield np.concatenate([self.vec(lambda z: 1.0, P[k], Prof(*p)) for k in ('m1kw', 'm1ka')]), l, True
        v = lambda g, *ks: self.vec(g, *[P[k] for k in ks])
        for l, g, gs in list(self.phase('w')):
            yield -np.concatenate([v(g, 'm2w'), v(g, 'm2a')]), l, True
            yield -np.concatenate([self.dTw * self.flux(P['kw'], gs), np.zeros(n)]), l, False
        for l, g, gs in list(self.phase('a')):
            yield -np.concatenate([v(g, 'm1kw') - v(g, 'm2w'), v(g, 'm1ka') - v(g, 'm2a') - c * (v(g, 'n') - v(g, 'n', 'S'))]), l, True
            yield -np.concatenate([np.zeros(n), self.dTa * self.flux(P['Da'], gs)]), l, False

    def coefficients(self):
        G = np.linalg.inv(self.F)
        lam, v = np.linalg.eig(G @ self.matrix())
        if np.abs(np.imag(lam)).max() > 0 or lam.min() < 0.05:
            return None
        A = np.zeros((2 * self.neig, len(self.t)))
        for th, l, rate in self.sources():
            A += v @ (self.time(l, rate, lam) * (np.linalg.inv(v) @ G @ th)).T
        return A

    def outputs(self):
        A, n, P = self.coefficients(), self.neig, self.P
        if A is None:
            return None
        out = {}
        many = lambda f, ps, a, b: np.array([integ(lambda z: f(z)[q], ps, a, b) for q in range(len(f(np.array([0.5]))))])

        def field(of, ph):
            list(self.phase(ph))
            return self.field(of, A[:n] if ph == 'w' else A[n:])
        strain = {'w': ('m1kw', 'm2w'), 'a': ('m1ka', 'm2a')}
        for ph in 'wa':
            out['por' + ph] = [field(lambda f: f(np.array([z]))[:, 0], ph) for z in self.z]
            out['avp' + ph] = [field(lambda f: many(f, [], a, b) / (b - a), ph) for a, b in self.pairs]
            m1, m2 = [P[k] for k in strain[ph]]
            s = []
            for a, b in self.pairs:
                on = lambda p, q: field(lambda f: many(lambda z: f(z) * p.seg(z)[0], [p], a, b), q)
                r = on(m2, 'a') - on(m1, 'a') - on(m2, 'w')
                for l, p in zip(*(self.sur or [[], []])):
                    Q = Prof(*p)
                    r = r + self.hist(l) * integ(lambda z: Q.seg(z)[0] * m1.seg(z)[0], [Q, m1], a, b)
                s.append(self.H * self.mvref * r)
            out['set' + ph] = s
        out['set'] = np.array(out['setw']) + np.array(out['seta'])
        return {k: np.array(q)[:, self.pick:] for k, q in out.items()}


@check('C12', 'unsaturated model against Galerkin solution by quadrature', gen)
def unsat(**d):
    want = Phases(d).outputs()
    if want is None:
        return
    o = Speccon1dUnsat()
    o.neig, o.drn, o.dT, o.H, o.mvref, o.ua_, o.implementation = d['neig'], d['drn'], d['dT'], d['H'], d['mvref'], d['ua'], d['impl']
    o.dTw, o.dTa = d['dTw'], d['dTa']
    for k in ('m1kw', 'm2w', 'm1ka', 'm2a', 'kw', 'Da', 'n', 'S'):
        setattr(o, k, Prof(*d[k]).line())
    for k in ('wtop', 'wbot', 'atop', 'abot'):
        setattr(o, k + '_vs_time', lines(d[k]))
        setattr(o, k + '_omega_phase', freqs(d[k]))
    if d['sur']:
        o.surcharge_vs_time, o.surcharge_omega_phase, o.surcharge_vs_depth = lines(d['sur'][0]), freqs(d['sur'][0]), [Prof(*p).line() for p in d['sur'][1]]
    o.tvals, o.ppress_z, o.avg_ppress_z_pairs, o.settlement_z_pairs = d['t'], d['z'], d['pairs'], d['pairs']
    for k in ('ppress_z', 'avg_ppress_z_pairs', 'settlement_z_pairs'):
        setattr(o, k + '_tval_indexes', slice(d['pick'], None))
    o.make_all()
    for k, w in want.items():
        e = close(getattr(o, k), w, 1e-5, 1e-6)
        if e:
            return '%s: %s' % (k, e)


if __name__ == '__main__':
    main()
