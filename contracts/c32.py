"""C32: analytical consolidation solutions satisfy their governing equations, boundary and initial conditions."""
import itertools
from speclib import *
from dv import calc, nplib
from dv.interp import Builtin, LList, Namespace, PDict, PyExc, Unsupported

suite = Suite('C32')
suite.num = ['num_consol']
CO = 'geotecha.consolidation.'
suite.assumptions = ['series are compared term by term; the terms are the eigenfunction expansion of the initial state (completeness of the expansion is not proved)',
                     'layered models: modes are not identically zero; the resistance functions of the drains are positive; kv differs between soil and column (Lu)',
                     'scipy.integrate.quad integrates the given function; the Talbot inversion inverts the given transform']
suite.bounded = ['boundary and interface obligations of Schiffman and Stein and of Nogami and Li are discharged for 1, 2 and 3 layers',
                 'normalisation of the layered modes (null vector of the boundary matrix), root finding and the Bessel functions of Nogami and Li: run-time checks only']
one, Z, two = num(1), num(0), num(2)
half = num(Fraction(1, 2))
sq = lambda a: mul(a, a)
pos = lambda t: lt(Z, t)


def grid(V, *kinds):
    """depths z[i] and times t[j]"""
    nz, nt = V.int('nz', 1), V.int('nt', 1)
    (i, j), rng = V.idx(nz, nt)
    return V.arr('z', nz), V.arr('t', nt), app('z', i), app('t', j), i, j, rng, nz, nt


def shape2(V, label, r, nz, nt):
    V.check(label + ': two dimensions', isinstance(r, Arr) and r.ndim == 2)
    V.length(label + ': one row per depth', r.dims[0], nz)
    V.length(label + ': one column per time', r.dims[1], nt)


def odd(k):
    """M_k = (2 k + 1) pi / 2"""
    return mul(tm.PI, add(k, half))


def diffuses(V, label, term, cv, z, t, sink=None):
    """d term/dt = cv d2 term/dz2 (- sink term)"""
    V.eq(label + ': diffusion equation', D(lambda q: term(z, q))(t), sub(mul(cv, D(lambda q: term(q, t), 2)(z)), mul(sink, term(z, t)) if sink is not None else Z))


def drained(V, label, term, z, t):
    V.eq(label + ': drained', term(z, t), Z)


def closed(V, label, term, z, t):
    V.eq(label + ': no flow', D(lambda q: term(q, t))(z), Z)


def initial(V, label, term, f, shape, H):
    """the term starts as the projection of the initial state on its own shape"""
    x = fresh('x')
    V.eq(label + ': size of the shape', calc.integral(lambda q: sq(shape(q)), Z, H), mul(half, H))
    pr = mul(two, div(one, H), calc.integral(lambda q: mul(f(q), shape(q)), Z, H))
    V.eq(label + ': initial state', term(x, Z), mul(pr, shape(x)))


# ---- Terzaghi
@suite.ob('Terzaghi', CO + 'terzahi.terzaghi_1d', CO + 'terzahi.terzaghi_1d_flowrate')
def terzaghi(V):
    H, kv, mv, gw, ui = [V.real(k) for k in 'H kv mv gamw ui'.split()]
    V.requires(*[pos(q) for q in (H, kv, mv, gw)])
    N = V.int('nterms', 1)
    z, t, zi, tj, i, j, rng, nz, nt = grid(V)
    cv = div(kv, mul(mv, gw))

    def go():
        kw = dict(H=H, kv=kv, mv=mv, gamw=gw, ui=ui, nterms=N)
        por, doc = V.call(CO + 'terzahi.terzaghi_1d', z, t, **kw)
        shape = lambda k: lambda q: sin(div(mul(odd(k), q), H))
        term = lambda k: lambda a, b: mul(ui, two, div(one, odd(k)), shape(k)(a), exp(neg(mul(sq(odd(k)), cv, div(b, sq(H))))))
        k, x, b = V.int('term', 0), V.real('x'), V.real('b')
        u = term(k)
        diffuses(V, 'term', u, cv, x, b)
        drained(V, 'top', u, Z, b)
        closed(V, 'base', u, H, b)
        initial(V, 'term', u, lambda q: ui, shape(k), H)
        shape2(V, 'pore pressure', por, nz, nt)
        q = fresh('k', 'I')
        V.eq('pore pressure', por.at(i, j), bsum(q, N, term(q)(zi, tj)), rng)
        V.length('one degree of consolidation for each time', doc.dims[0], nt)
        V.eq('degree of consolidation is the drained share of the average', mul(ui, sub(one, doc.at(j))),
             bsum(q, N, div(calc.integral(lambda a: term(q)(a, tj), Z, H), H)), rng)
        fl = V.call(CO + 'terzahi.terzaghi_1d_flowrate', z, t, **kw)
        shape2(V, 'flow rate', fl, nz, nt)
        V.eq('flow rate is Darcy flow', fl.at(i, j), mul(div(kv, gw), bsum(q, N, D(lambda a: term(q)(a, tj))(zi))), rng)
        for f, r in (('terzaghi_1d', por), ('terzaghi_1d_flowrate', fl)):
            s = V.call(CO + 'terzahi.' + f, V.real('zs'), V.real('ts'), **kw)
            s = s[0] if f == 'terzaghi_1d' else s
            V.eq('single depth and time', s.at(Z, Z), tm.subst(r.at(i, j), {zi: var('zs'), tj: var('ts')}))
    V.run(go)


# ---- Xie and Leo: large strain
class XL(object):
    def __init__(self, V, both):
        self.V, self.both = V, both
        p = {k: V.real(k) for k in 'qu qp H Hw kv0 mvl e00 Gs gamw'.split()}
        self.__dict__.update(p)
        self.N = V.int('nterms', 1)
        V.requires(*[pos(p[k]) for k in 'qu H kv0 mvl gamw e00'.split()])
        self.cv = div(self.kv0, mul(self.mvl, self.gamw))
        self.kind = 'PTPB' if both else 'PTIB'
        self.p = p
        self.g = sub(one, exp(neg(mul(self.mvl, self.qu))))

    def make(self):
        V = self.V
        self.o = V.I.call(V.fn(CO + 'xieandleo2004.XieAndLeo2004'), [], dict(self.p, drn=0 if self.both else 1, nterms=self.N))
        return self

    def call(self, m, *a):
        return self.V.I.call(self.V.I.getattr(self.o, m), list(a))

    def m(self, name, *a):
        return self.call(name + '_' + self.kind, *a)

    def shape(self, k):
        f = mul(two if self.both else one, odd(k), div(one, self.H))
        return lambda a: sin(mul(f, a))

    def term(self, k):
        c = mul(num(4 if self.both else 1), sq(odd(k)), self.cv, div(one, sq(self.H)))
        return lambda a, b: mul(two, div(one, odd(k)), self.shape(k)(a), exp(neg(mul(c, b))))

    def S(self, a, b):
        q = fresh('k', 'I')
        return bsum(q, self.N, self.term(q)(a, b))

    def e0(self, a):
        return sub(self.e00, mul(self.mvl, self.gamw, sub(self.Gs, one), a))

    def settlement(self, a, b):
        """int_a^H of the vertical strain (e0 - e)/(1 + e0)"""
        q = fresh('k', 'I')
        H = self.H
        return mul(self.g, sub(sub(H, a), bsum(q, self.N, calc.integral(lambda s: self.term(q)(s, b), a, H))))

    def vs(self, a, b):
        return D(lambda s: self.settlement(a, s))(b)


def xl(name):
    def deco(f):
        for both in (False, True):
            def g(V, both=both):
                w = XL(V, both)
                z, t, zi, tj, i, j, rng, nz, nt = grid(V)
                V.F.pointwise('z', nz, lambda i: pos(add(one, w.e0(app('z', i)))))

                def go():
                    w.make()
                    f(V, w, z, t, zi, tj, i, j, rng, nz, nt)
                V.run(go)
            ms = [CO + 'xieandleo2004.XieAndLeo2004.' + m + ('_PTPB' if both else '_PTIB') for m in METHODS[name]]
            suite.ob('Xie and Leo: %s, %s' % (name, 'two-way drainage' if both else 'one-way drainage'), *ms)(g)
        return f
    return deco


METHODS = {'pore pressure': ['u'], 'void ratio': ['e'], 'settlement': ['settlement', 'Us'], 'velocities': ['vs', 'vw'], 'stresses': ['effective_stress', 'total_stress', 'total_pore_pressure', 'xi'],
           'average pore pressure': ['Up']}


@suite.ob('Xie and Leo: initial and final state', *[CO + 'xieandleo2004.XieAndLeo2004.' + m for m in 'Tv e0 efinal settlement_final initial_effective_stress _derived_parameters'.split()])
def xl_states(V):
    w = XL(V, True)
    z, t, zi, tj, i, j, rng, nz, nt = grid(V)
    V.F.pointwise('z', nz, lambda i: pos(add(one, w.e0(app('z', i)))))

    def go():
        w.make()
        e0, ef, s0 = [nplib.toarr(V.I, w.call(m, z)) for m in ('e0', 'efinal', 'initial_effective_stress')]
        V.eq('time factor', nplib.toarr(V.I, w.call('Tv', t)).at(j), mul(w.cv, tj, div(one, sq(w.H))), rng)
        V.eq('void ratio falls with the buoyant weight above', e0.at(i), w.e0(zi), rng)
        V.eq('final void ratio', add(one, ef.at(i)), mul(add(one, w.e0(zi)), exp(neg(mul(w.mvl, w.qu)))), rng)
        V.eq('initial effective stress', mul(w.mvl, sub(s0.at(i), w.qp)), log(div(add(one, w.e00), add(one, w.e0(zi)))), rng)
        V.eq('final settlement', w.call('settlement_final'), mul(w.H, w.g))
        k, x, b = V.int('term', 0), V.real('x'), V.real('b')
        for both in (False, True):
            w.both = both
            u = w.term(k)
            nm = 'two-way' if both else 'one-way'
            diffuses(V, nm, u, w.cv, x, b)
            drained(V, nm + ' top', u, Z, b)
            (drained if both else closed)(V, nm + ' base', u, w.H, b)
            initial(V, nm, u, lambda q: one, w.shape(k), w.H)
    V.run(go)


@xl('pore pressure')
def xl_u(V, w, z, t, zi, tj, i, j, rng, nz, nt):
    u = w.m('u', z, t)
    shape2(V, 'pore pressure', u, nz, nt)
    X = add(one, mul(sub(exp(mul(w.mvl, w.qu)), one), w.S(zi, tj)))
    V.eq('exp(mvl u) - 1 is the consolidating series', exp(mul(w.mvl, u.at(i, j))), X, rng + [pos(X)])


@xl('void ratio')
def xl_e(V, w, z, t, zi, tj, i, j, rng, nz, nt):
    e = w.m('e', z, t)
    shape2(V, 'void ratio', e, nz, nt)
    S = w.S(zi, tj)
    V.eq('void ratio', add(one, e.at(i, j)), mul(add(one, w.e0(zi)), add(sub(one, w.g), mul(w.g, S))), rng)
    # with exp(mvl u) = 1 + (exp(mvl qu) - 1) S this is the compressibility law 1 + e = (1 + e0) exp(-mvl (qu - u))
    s, E = fresh('s'), exp(mul(w.mvl, w.qu))
    V.eq('lemma: compressibility law', add(sub(one, w.g), mul(w.g, s)), mul(exp(neg(mul(w.mvl, w.qu))), add(one, mul(sub(E, one), s))))


@xl('settlement')
def xl_s(V, w, z, t, zi, tj, i, j, rng, nz, nt):
    s, U = w.m('settlement', z, t), nplib.toarr(V.I, w.m('Us', t))
    shape2(V, 'settlement', s, nz, nt)
    V.eq('settlement is the strain below', s.at(i, j), w.settlement(zi, tj), rng)
    V.length('degree of consolidation: one for each time', U.dims[0], nt)
    V.eq('degree of consolidation', mul(w.H, w.g, U.at(j)), w.settlement(Z, tj), rng)


@xl('velocities')
def xl_v(V, w, z, t, zi, tj, i, j, rng, nz, nt):
    E = Arr(w.m('e', z, t).dims, lambda a, b: app('void', a, b), 'f')
    V.F.gen(lambda apps: [pos(a) for a in apps if a.op == 'app' and a.args[0] == 'void'])

    def void(I, fn, args, kw):
        b = I.bind(fn, args, kw)
        V.check('void ratio at the same depths and times', b['a'] is z and b['t'] is t)
        return E
    V.I.contracts[CO + 'xieandleo2004.XieAndLeo2004.e_' + w.kind] = void
    vs, vw, e = w.m('vs', z, t), w.m('vw', z, t), E
    shape2(V, 'solids', vs, nz, nt)
    shape2(V, 'water', vw, nz, nt)
    V.eq('velocity of the solids', vs.at(i, j), w.vs(zi, tj), rng)
    C = w.vs(div(w.H, two), tj) if w.both else Z
    e = e.at(i, j)
    V.eq('water and solids together carry the flow at the closed or middle plane', add(mul(e, vw.at(i, j)), w.vs(zi, tj)), mul(C, add(one, e)), rng + [pos(e)])


@xl('stresses')
def xl_stress(V, w, z, t, zi, tj, i, j, rng, nz, nt):
    u, s = [w.m(m, z, t).at(i, j) for m in ('u', 'settlement')]
    s0 = nplib.toarr(V.I, w.call('initial_effective_stress', z)).at(i)
    g = lambda m: w.m(m, z, t).at(i, j)
    V.eq('effective stress', g('effective_stress'), sub(add(s0, w.qu), u), rng)
    V.eq('position', g('xi'), add(zi, s), rng)
    V.eq('total pore pressure', g('total_pore_pressure'), add(u, mul(w.gamw, add(w.Hw, zi, s))), rng)
    V.eq('total stress', g('total_stress'), add(g('effective_stress'), g('total_pore_pressure')), rng)


@xl('average pore pressure')
def xl_up(V, w, z, t, zi, tj, i, j, rng, nz, nt):
    seen = []

    def quad(f, lo, hi, args=(), **kw):
        x = fresh('x')
        v = V.I.call(f, [x] + list(args))
        v = v.at(*[Z] * v.ndim) if isinstance(v, Arr) else num(v)
        a = V.real('depth')
        V.eq('integrates the pore pressure', tm.subst(v, {x: a}), w.m('u', Arr([plain(one)], lambda q: a, 'f'), Arr([plain(one)], lambda q: args[0], 'f')).at(Z, Z))
        V.eq('from the top', lo, Z)
        V.eq('to the base', hi, w.H)
        return (app('integral', args[0]), Z)
    V.I.libs['scipy.integrate'] = Namespace('scipy.integrate', {'quad': Builtin(quad, 'quad')})
    r = nplib.toarr(V.I, w.m('Up', t))
    V.length('one for each time', r.dims[0], nt)
    V.eq('degree of consolidation by pore pressure', mul(w.qu, w.H, sub(one, r.at(j))), app('integral', tj), rng)


# ---- Deng et al.: well resistance changing with depth and time
def deng_common(V):
    p = {k: V.real(k) for k in 'rw re H kw0 kh mv gamw ui rs ks'.split()}
    V.requires(*[pos(q) for n, q in p.items() if n != 'ui'])
    V.requires(lt(p['rw'], p['re']))
    V.requires(pos(var('mu0')))
    return p


def mu_models(V, p, smear):
    SZn = CO + 'smear_zones.'

    def m(name, want):
        def f(I, fn, args, kw):
            b = I.bind(fn, args, kw)
            for k, v in want.items():
                V.eq('geometry for the drain resistance: ' + k, b[k], v)
            return var('mu0')
        V.I.contracts[SZn + name] = f
    if smear:
        m('mu_constant', dict(n=div(p['re'], p['rw']), s=div(p['rs'], p['rw']), kap=div(p['kh'], p['ks'])))
    else:
        m('mu_ideal', dict(n=div(p['re'], p['rw'])))


def deng13(a2, a3, smear):
    @suite.ob('Deng et al. 2013: discharge capacity %s%s' % ({(0, 0): 'constant', (1, 0): 'varying with depth', (0, 1): 'falling with time', (1, 1): 'varying with depth and time'}[a2, a3], ', smear zone' if smear else ''),
              CO + 'dengetal2013and2014.dengetal2013')
    def f(V):
        p = deng_common(V)
        A1 = V.real('A1')
        A2, A3 = V.real('A2') if a2 else Z, V.real('A3') if a3 else Z
        V.requires(pos(A1), *[pos(q) for q in (A2, A3) if q is not Z] + ([lt(A2, A1)] if a2 else []))
        z, t, zi, tj, i, j, rng, nz, nt = grid(V)
        V.F.pointwise('z', nz, lambda i: land(le(Z, app('z', i)), le(app('z', i), p['H'])))
        H, kh, mu0 = p['H'], p['kh'], var('mu0')
        qw0 = mul(p['kw0'], tm.PI, sq(p['rw']))

        def go():
            mu_models(V, p, smear)
            kw = {k: v for k, v in p.items() if smear or k not in ('rs', 'ks')}
            por = V.call(CO + 'dengetal2013and2014.dengetal2013', z, t, A1=A1, A2=A2, A3=A3, **kw)
            shape2(V, 'pore pressure', por, nz, nt)
            # well resistance: 2 pi kh int_0^z (H - s) / qw ds, with qw(z, t) = qw0 (A1 - A2 z/H) exp(-A3 t)
            if a2:
                X = lambda a: mul(two, tm.PI, kh, sq(H), div(one, mul(qw0, sq(A2))), add(mul(A2, div(a, H)), mul(sub(A1, A2), log(sub(one, div(mul(A2, a), mul(A1, H)))))))
            else:
                X = lambda a: mul(tm.PI, kh, div(one, mul(qw0, A1)), sub(mul(two, H, a), sq(a)))
            a = V.real('a')
            V.eq('lemma: resistance of the drain above', D(X)(a), div(mul(two, tm.PI, kh, sub(H, a)), mul(qw0, sub(A1, mul(A2, div(a, H))))), [le(Z, a), lt(a, H)])
            V.eq('lemma: no resistance at the top', X(Z), Z)
            # rate: dlnu/dt = -2 ch/(re^2 mu), mu = mu0 + X exp(A3 t)
            r = div(mul(two, kh), mul(p['mv'], p['gamw'], sq(p['re'])))
            x, b = V.real('X'), V.real('b')
            V.requires(le(Z, x))
            if a3:
                L = lambda b: mul(div(r, mul(A3, mu0)), sub(log(add(x, mul(mu0, exp(neg(mul(A3, b)))))), log(add(x, mu0))))
            else:
                L = lambda b: neg(mul(r, b, div(one, add(mu0, x))))
            V.eq('lemma: rate of consolidation', D(L)(b), neg(div(r, add(mu0, mul(x, exp(mul(A3, b)))))))
            V.eq('lemma: starts from the initial pressure', L(Z), Z)
            V.F.add(tm.implies(land(*rng), le(Z, X(zi))))        # an integral of a function that is not negative
            want = tm.subst(L(tj), {x: X(zi)})
            V.eq('pore pressure', por.at(i, j), mul(p['ui'], exp(want)), rng)
        V.run(go)


for _a, _b, _s in itertools.product((0, 1), (0, 1), (False, True)):
    deng13(_a, _b, _s)


def deng14(a3, smear):
    @suite.ob('Deng et al. 2014: discharge capacity %s%s' % ('falling with time' if a3 else 'constant', ', smear zone' if smear else ''), CO + 'dengetal2013and2014.dengetal2014')
    def f(V):
        p = deng_common(V)
        A3 = V.real('A3') if a3 else Z
        if a3:
            V.requires(pos(A3))
        N = V.int('nterms', 1)
        z, t, zi, tj, i, j, rng, nz, nt = grid(V)
        H, kh, mu0 = p['H'], p['kh'], var('mu0')
        qw0 = mul(p['kw0'], tm.PI, sq(p['rw']))

        def go():
            mu_models(V, p, smear)
            kw = {k: v for k, v in p.items() if smear or k not in ('rs', 'ks')}
            por = V.call(CO + 'dengetal2013and2014.dengetal2014', z, t, A3=A3, nterms=N, **kw)
            shape2(V, 'pore pressure', por, nz, nt)
            n2 = sq(div(p['re'], p['rw']))
            # drain flow balance of the mode sin(M z/H): qw M^2/H^2 uw = pi (re^2 - rw^2) 2 kh/(mu0 re^2) (u - uw)
            X = lambda k: mul(two, tm.PI, kh, div(sq(H), mul(qw0, sq(odd(k)))), div(sub(n2, one), n2))
            q = V.int('term', 0)
            V.eq('lemma: resistance of the drain', mul(qw0, sq(odd(q)), X(q)), mul(sq(H), tm.PI, sub(sq(p['re']), sq(p['rw'])), two, kh, div(one, sq(p['re']))))   # uw/(u - uw) = X/mu0
            r = div(mul(two, kh), mul(p['mv'], p['gamw'], sq(p['re'])))
            x, b = V.real('X'), V.real('b')
            V.requires(lt(Z, x))
            if a3:
                L = lambda b: mul(div(r, mul(A3, mu0)), sub(log(add(x, mul(mu0, exp(neg(mul(A3, b)))))), log(add(x, mu0))))
            else:
                L = lambda b: neg(mul(r, b, div(one, add(mu0, x))))
            V.eq('lemma: rate of consolidation', D(L)(b), neg(div(r, add(mu0, mul(x, exp(mul(A3, b)))))))
            V.eq('lemma: starts from the initial pressure', L(Z), Z)
            shape = lambda k: lambda a: sin(div(mul(odd(k), a), H))
            term = lambda k: lambda a, b: mul(p['ui'], two, div(one, odd(k)), shape(k)(a), exp(tm.subst(L(b), {x: X(k)})))
            initial(V, 'term', term(q), lambda a: p['ui'], shape(q), H)
            drained(V, 'top', term(q), Z, b)
            closed(V, 'base', term(q), H, b)
            k = fresh('k', 'I')
            V.eq('pore pressure', por.at(i, j), bsum(k, N, term(k)(zi, tj)), rng)
        V.run(go)


for _b, _s in itertools.product((0, 1), (False, True)):
    deng14(_b, _s)


# ---- Lu et al.: composite foundation
def lu(smear):
    @suite.ob('Lu et al. 2010%s' % (': smear zone' if smear else ''), CO + 'luetal2010.luetal2010')
    def f(V):
        p = {k: V.real(k) for k in 'rc re H rs ks kv kvc kh khc mvs mvc gamw utop ubot'.split()}
        V.requires(*[pos(v) for k, v in p.items() if k[0] != 'u'])
        V.requires(lt(p['rc'], p['re']), ne(p['kv'], p['kvc']), pos(var('mu0')))
        N = V.int('nterms', 1)
        z, t, zi, tj, i, j, rng, nz, nt = grid(V)
        H, mu0 = p['H'], var('mu0')

        def go():
            mu_models(V, dict(p, rw=p['rc']), smear)
            kw = {k: v for k, v in p.items() if smear or k not in ('rs', 'ks')}
            por, pors, porc, avp, settle = V.call(CO + 'luetal2010.luetal2010', z, t, nterms=N, **kw)
            for nm, r in (('pore pressure', por), ('soil', pors), ('column', porc)):
                shape2(V, nm, r, nz, nt)
            n2, Y = sq(div(p['re'], p['rc'])), div(p['mvs'], p['mvc'])
            m1, gw = sub(n2, one), p['gamw']
            # a mode u exp(-b t) sin(M z/H), soil us = u (1 + X/(n^2-1)), column uc = u (1 - X)
            B = mul(gw, add(div(mul(sq(p['re']), mu0), mul(two, p['kh'])), div(mul(sq(p['rc']), m1), mul(num(8), p['khc']))))
            E = div(mul(n2, p['mvs']), add(m1, Y))      # rate of volume strain -E du/dt
            s = lambda k: sq(div(odd(k), H))
            # column and soil together: flow out = volume change ; soil: us - uc = B (volume change - vertical flow)
            # -> two linear equations in (b, X)
            a11, a12, r1 = lambda k: mul(gw, n2, E), lambda k: neg(mul(s(k), sub(p['kv'], p['kvc']))), lambda k: mul(s(k), add(mul(m1, p['kv']), p['kvc']))
            a21, a22, r2 = lambda k: mul(B, E), lambda k: neg(add(div(n2, m1), div(mul(B, p['kv'], s(k)), mul(gw, m1)))), lambda k: div(mul(B, p['kv'], s(k)), gw)
            det = lambda k: sub(mul(a11(k), a22(k)), mul(a12(k), a21(k)))
            rate = lambda k: div(sub(mul(r1(k), a22(k)), mul(a12(k), r2(k))), det(k))
            X = lambda k: div(sub(mul(a11(k), r2(k)), mul(r1(k), a21(k))), det(k))
            k = V.int('term', 0)
            shape = lambda k: lambda a: sin(div(mul(odd(k), a), H))
            sg = lambda k: sin(odd(k))
            amp = lambda k: mul(two, div(one, odd(k)), sub(p['utop'], mul(sg(k), sub(p['utop'], p['ubot']), div(one, odd(k)))))
            term = lambda k: lambda a, b: mul(amp(k), shape(k)(a), exp(neg(mul(rate(k), b))))
            initial(V, 'term', term(k), lambda a: add(p['utop'], mul(sub(p['ubot'], p['utop']), div(a, H))), shape(k), H)
            drained(V, 'top', term(k), Z, var('bb'))
            closed(V, 'base', term(k), H, var('bb'))
            q = fresh('k', 'I')
            V.eq('pore pressure', por.at(i, j), bsum(q, N, term(q)(zi, tj)), rng)
            V.eq('soil', pors.at(i, j), bsum(q, N, mul(add(one, div(X(q), m1)), term(q)(zi, tj))), rng)
            V.eq('column', porc.at(i, j), bsum(q, N, mul(sub(one, X(q)), term(q)(zi, tj))), rng)
            V.eq('soil and column make up the average', mul(n2, por.at(i, j)), add(mul(m1, pors.at(i, j)), porc.at(i, j)), rng)
            V.eq('average over depth', avp.at(j), bsum(q, N, div(calc.integral(lambda a: term(q)(a, tj), Z, H), H)), rng)
            V.eq('settlement', settle.at(j), mul(H, E, sub(mul(half, add(p['utop'], p['ubot'])), avp.at(j))), rng)
        V.run(go)


lu(False)
lu(True)


# ---- Tang and Onitsuka: radial and vertical drainage under a load history
TO = CO + 'tangandonitsuka2000.'


@suite.ob('Tang and Onitsuka: response of a mode to the load history', TO + 'tangandonitsuka2000')
def tang_mode(V):
    p = {k: V.real(k) for k in 'kv kh ks kw mv gamw rw rs re H'.split()}
    V.requires(*[pos(v) for v in p.values()])
    V.requires(lt(p['rw'], p['rs']), lt(p['rs'], p['re']))
    N = V.int('N', 2)
    x, y = fn_of('x'), fn_of('y')
    xs = monotone_data(V, 'x', N)
    V.requires(lt(x(Z), x(sub(N, one))))
    ys = V.arr('y', N)
    z, t, zi, tj, i, j, rng, nz, nt = grid(V)
    d = Data(x, N)
    tau, alp = V.real('time'), V.real('alp')
    V.requires(pos(alp))

    def go():
        model_less(V, d, y)
        inner = V.I.contracts[PW + 'segment_containing_also_segments_less_than_xi']

        def scalar(I, f, args, kw):
            xi, = take(args[2:], kw, ['xi'])
            V.check('response at one time', not isinstance(xi, Arr))
            return inner(I, f, list(args[:2]) + [Arr([plain(one)], lambda q: ip.lift(xi), 'f')], kw)
        V.I.contracts[PW + 'segment_containing_also_segments_less_than_xi'] = scalar
        got = []

        def Tm(I, f, args, kw):
            got[:] = [f]
            return Z
        V.I.contracts[TO + '_calc_Tm'] = Tm
        V.I.contracts[PW + 'pinterp_x_y'] = lambda I, f, args, kw: nplib.elementwise(I, lambda q: app('load', q), [args[1]])
        V.call(TO + 'tangandonitsuka2000', z, t, drn=1, surcharge_vs_time=(xs, ys), nterms=V.int('nterms', 1), **p)
        V.check('response calculated', len(got) == 1)
        V.I.contracts.pop(TO + '_calc_Tm')
        r = V.I.call(got[0], [alp, tau, obj(x=xs, y=ys)])
        k = lambda s: exp(neg(mul(sq(alp), sub(tau, s))))
        rate = lambda q: div(sub(y(add(q, one)), y(q)), sub(x(add(q, one)), x(q)))
        w = history_integral(V, 'response', d, lambda q, s: mul(rate(q), k(s)), tau, Z, [], lambda q: mul(sub(y(add(q, one)), y(q)), k(x(q))))
        V.eq('convolution of the load rate with the decay of the mode', r, w)
    V.run(go)


def tang(both):
    @suite.ob('Tang and Onitsuka: pore pressure and settlement, %s' % ('two-way drainage' if both else 'one-way drainage'), TO + 'tangandonitsuka2000')
    def f(V):
        p = {k: V.real(k) for k in 'kv kh ks kw mv gamw rw rs re H'.split()}
        V.requires(*[pos(v) for v in p.values()])
        V.requires(lt(p['rw'], p['rs']), lt(p['rs'], p['re']))
        V.requires(pos(var('mu0')))
        NT = V.int('nterms', 1)
        N = V.int('N', 2)
        xs, ys = monotone_data(V, 'x', N), V.arr('y', N)
        z, t, zi, tj, i, j, rng, nz, nt = grid(V)
        np_ = V.int('ntp', 1)
        tp = V.arr('tp', np_)
        H = p['H']
        V.F.pointwise('z', nz, lambda i: land(le(Z, app('z', i)), le(app('z', i), H)))
        h = div(H, two) if both else H        # drainage path

        def go():
            def Tm(I, fn, args, kw):
                b = I.bind(fn, args, kw)
                V.check('response to the given load', b['mag_vs_time'] is seen[0])
                return app('T', b['alp'], ip.lift(b['t']))

            def line(I, fn, args, kw):
                V.check('load given by its times and values', len(args) == 2 and args[0] is xs and args[1] is ys)
                seen[:] = [obj(x=xs, y=ys)]
                return seen[0]
            seen = []
            V.I.contracts[TO + '_calc_Tm'] = Tm
            V.I.contracts[PW + 'PolyLine'] = line
            V.I.contracts[PW + 'pinterp_x_y'] = lambda I, fn, args, kw: nplib.elementwise(I, lambda q: app('load', q), [args[1]])
            n, s, kap = div(p['re'], p['rw']), div(p['rs'], p['rw']), div(p['kh'], p['ks'])
            n2 = sq(n)
            # smear zone resistance (Hansbo), see smear_zones.mu_constant
            mu = lambda n, s, kap: add(mul(div(sq(n), sub(sq(n), one)), add(log(div(n, s)), mul(kap, log(s)), num(Fraction(-3, 4)))),
                                       mul(div(sq(s), sub(sq(n), one)), sub(one, div(sq(s), mul(num(4), sq(n))))),
                                       mul(div(kap, sub(sq(n), one)), add(div(sub(sq(sq(s)), one), mul(num(4), sq(n))), neg(sq(s)), one)))
            mu0 = var('mu0')
            mus = []

            def F(I, fn, args, kw):
                b = I.bind(fn, args, kw)
                mus[:] = [fn]
                for k, v in (('n', n), ('s', s), ('kap', kap)):
                    V.eq('geometry for the drain resistance: ' + k, b[k], v)
                return mu0
            V.I.contracts[TO + 'F_func'] = F
            q = V.int('term', 0)
            # well flow balance of the mode sin(M z/H): qw M^2/H^2 uw = pi (re^2 - rw^2) 2 kh/(mu re^2) (u - uw)
            X = lambda k: mul(two, tm.PI, p['kh'], div(sq(h), mul(p['kw'], tm.PI, sq(p['rw']), sq(odd(k)))), div(sub(n2, one), n2))
            bm = lambda k: add(mul(p['kv'], div(one, mul(p['mv'], p['gamw'])), sq(div(odd(k), h))), mul(two, p['kh'], div(one, mul(p['mv'], p['gamw'], sq(p['re']))), div(one, add(mu0, X(k)))))
            T = lambda k, b: app('T', sqrt(bm(k)), b)
            shape = lambda k: lambda a: sin(div(mul(odd(k), a), h))
            amp = lambda k: mul(two, div(one, odd(k)))
            initial(V, 'term', lambda a, b: mul(amp(q), shape(q)(a)), lambda a: one, shape(q), h)
            if both:
                V.eq('lemma: the lower half mirrors the upper', shape(q)(sub(H, zi)), shape(q)(zi))
            for given in (True, False):
                kw = dict(tpor=tp) if given else {}
                por, avp, settle = V.call(TO + 'tangandonitsuka2000', z, t, drn=0 if both else 1, surcharge_vs_time=(xs, ys), nterms=NT, **dict(p, **kw))
                b = app('tp', j) if given else tj
                m = np_ if given else nt
                shape2(V, 'pore pressure', por, nz, m)
                r2 = [c for c in rng[:2]] + [le(Z, j), lt(j, m)]
                k = fresh('k', 'I')
                V.eq('pore pressure', por.at(i, j), bsum(k, NT, mul(amp(k), shape(k)(zi), T(k, b))), r2)
                k = fresh('k', 'I')
                V.length('average: one for each time', avp.dims[0], nt)
                V.eq('average over the depth', avp.at(j), bsum(k, NT, mul(amp(k), calc.integral(shape(k), Z, h), div(one, h), T(k, tj))), rng)
                V.eq('settlement is the drained part of the load', settle.at(j), mul(H, p['mv'], sub(app('load', tj), avp.at(j))), rng)
            unchanged(V, ('z', z), ('t', t))
            V.check('resistance of the smear zone calculated', len(mus) == 1)
            V.I.contracts.pop(TO + 'F_func')
            a, b, c = V.real('n'), V.real('s'), V.real('kap')
            V.eq('resistance of the smear zone', V.I.call(mus[0], [a, b, c]), mu(a, b, c), [lt(one, b), lt(b, a), pos(c)])
        V.run(go)


tang(False)
tang(True)


# ---- Cosenza and Korosak: fractional time derivative
CK = CO + 'cosenzaandkorosak2014.'


def cosenza(given):
    @suite.ob('Cosenza and Korosak%s' % (': own times for the pore pressure' if given else ''), CK + 'cosenzaandkorosak2014')
    def f(V):
        p = {k: V.real(k) for k in 'L kv mv gamw ui'.split()}
        V.requires(*[pos(v) for k, v in p.items() if k != 'ui'])
        NT, P = V.int('nterms', 1), V.int('P', 1)
        z, t, zi, tj, i, j, rng, nz, nt = grid(V)
        m = V.int('ntp', 1)
        tp = V.arr('tp', m)
        th, v = V.arr('theta', P), V.arr('v', P)
        V.F.pointwise('theta', P, lambda k: le(Z, app('theta', k)))
        L = p['L']

        def go():
            fs = []

            def Talbot(f, n=num(24), shift=num(0), **kw):
                fs[:] = [f]

                def inverse(t, args=()):
                    V.check('exponents and weights of the fractional terms', args[0] is v and args[1] is th)
                    return nplib.elementwise(V.I, lambda b: app('B', ip.lift(args[2]), b), [t])
                return Builtin(inverse, 'inverse')
            V.I.contracts['geotecha.mathematics.laplace.Talbot'] = lambda I, fn, args, kw: Talbot(*args, **kw)
            por, doc = V.call(CK + 'cosenzaandkorosak2014', z, t, th, v, nterms=NT, **dict(p, **(dict(tpor=tp) if given else {})))
            w = lambda k: mul(two, odd(k), div(one, L))
            lam = lambda k: mul(p['kv'], div(one, mul(p['mv'], p['gamw'])), sq(w(k)))
            shape = lambda k: lambda a: sin(mul(w(k), a))
            amp = lambda k: mul(two, div(one, odd(k)))
            q = V.int('term', 0)
            initial(V, 'term', lambda a, b: mul(amp(q), shape(q)(a)), lambda a: one, shape(q), L)
            drained(V, 'top', lambda a, b: shape(q)(a), Z, tj)
            drained(V, 'base', lambda a, b: shape(q)(a), L, tj)
            b, n = (app('tp', j), m) if given else (tj, nt)
            shape2(V, 'pore pressure', por, nz, n)
            k = fresh('k', 'I')
            r2 = rng[:2] + [le(Z, j), lt(j, n)]
            V.eq('pore pressure', por.at(i, j), bsum(k, NT, mul(p['ui'], amp(k), shape(k)(zi), app('B', lam(k), b))), r2)
            V.length('degree of consolidation: one for each time', doc.dims[0], nt)
            k = fresh('k', 'I')
            V.eq('degree of consolidation', doc.at(j), sub(one, bsum(k, NT, mul(amp(k), calc.integral(shape(k), Z, L), div(one, L), app('B', lam(k), tj)))), rng)
            # transform of a mode: s B - 1 + sum theta (s^v B - s^(v-1)) + lam B = 0
            s, l = V.real('s'), V.real('lam')
            V.requires(pos(s), pos(l))
            B = V.I.call(fs[0], [s, v, th, l])
            B = B.at() if isinstance(B, Arr) else B
            k = fresh('k', 'I')
            pw = lambda e: bsum(k, P, mul(app('theta', k), tm.power(s, e(app('v', k)))))
            V.eq('transformed equation of a mode', B, div(add(one, pw(lambda e: sub(e, one))), add(s, l, pw(lambda e: e))))
        V.run(go)


cosenza(False)
cosenza(True)


# ---- Schiffman and Stein: layers
SS = CO + 'schiffmanandstein1970.SchiffmanAndStein1970.'


def make_obj(V, cls, attrs):
    o = ip.Obj(cls)
    for k, v in attrs.items():
        V.I.setattr(o, k, v)
    return o


def rows(*xs):
    xs = [ip.lift(x) for x in xs]

    def pick(i):
        r = xs[-1]
        for n in range(len(xs) - 2, -1, -1):
            r = ite(eq(i, num(n)), xs[n], r)
        return r
    return Arr([plain(num(len(xs)))], pick, 'f')


def ss_bc(L, top, bot):
    @suite.ob('Schiffman and Stein: boundaries %d/%d and interfaces, %d layer%s' % (top, bot, L, 's' if L > 1 else ''), SS + '_calc_derived_properties', SS + '_make_BC')
    def f(V):
        names = 'kv mv h'.split()
        q = {n: [V.real('%s%d' % (n, i)) for i in range(L)] for n in names}
        V.requires(*[pos(v) for n in names for v in q[n]])
        e = {n: V.real(n) for n in 'ktop htop kbot hbot'.split()}
        V.requires(*[pos(v) for v in e.values()])
        b0 = V.real('beta')
        V.requires(pos(b0))

        def go():
            V.I.contracts['geotecha.inputoutput.inputoutput.InputFileLoaderCheckerSaver.check_input_attributes'] = lambda I, fn, a, k: None
            o = make_obj(V, V.fn(SS[:-1]), dict({n: rows(*q[n]) for n in names}, t=V.arr('t', V.int('nt', 1)), z=V.arr('z', V.int('nz', 1)), bctop=top, bcbot=bot, **e))
            V.I.call(V.I.getattr(o, '_calc_derived_properties'), [])
            beta = nplib.toarr(V.I, V.I.call(V.I.getattr(o, '_make_BC'), [b0]))
            M = V.I.getattr(o, 'BC')
            V.length('one equation for each constant', M.dims[0], num(2 * L))
            V.length('constants', M.dims[1], num(2 * L))
            be = [V.real('b%d' % i) for i in range(L)]
            for i in range(L):
                V.eq('all layers decay at the same rate', mul(div(q['kv'][i], q['mv'][i]), sq(beta.at(num(i)))), mul(div(q['kv'][0], q['mv'][0]), sq(b0)))
            x = [(V.real('B%d' % i), V.real('C%d' % i)) for i in range(L)]
            Zf = lambda i: lambda s: add(mul(x[i][0], cos(mul(beta.at(num(i)), s))), mul(x[i][1], sin(mul(beta.at(num(i)), s))))
            zb = [add(Z, *q['h'][:i + 1]) for i in range(L)]
            row = lambda r: add(Z, *[add(mul(M.at(num(r), num(2 * i)), x[i][0]), mul(M.at(num(r), num(2 * i + 1)), x[i][1])) for i in range(L)])
            kv, h = q['kv'], q['h']
            t0, t1 = Zf(0)(Z), D(Zf(0))(Z)
            V.eq('top boundary', row(0), {0: t0, 1: t1, 3: mul(div(h[0], kv[0]), sub(mul(kv[0], t1), mul(div(e['ktop'], e['htop']), t0)))}[top])
            g0, g1 = Zf(L - 1)(zb[-1]), D(Zf(L - 1))(zb[-1])
            V.eq('bottom boundary', row(2 * L - 1), {0: g0, 1: g1, 3: mul(div(h[-1], kv[-1]), add(mul(kv[-1], g1), mul(div(e['kbot'], e['hbot']), g0)))}[bot])
            for i in range(L - 1):
                V.eq('pore pressure continuous at interfaces', row(2 * i + 1), sub(Zf(i)(zb[i]), Zf(i + 1)(zb[i])))
                V.eq('flow continuous at interfaces', mul(kv[i + 1], row(2 * i + 2)), sub(mul(kv[i], D(Zf(i))(zb[i])), mul(kv[i + 1], D(Zf(i + 1))(zb[i]))))
        V.run(go)


for _t in (0, 1, 3):
    for _b in (0, 1, 3):
        ss_bc(2, _t, _b)
ss_bc(1, 3, 3)
ss_bc(3, 3, 3)


def ss_modes(V):
    """n modes B cos(beta z) + C sin(beta z) on any number of layers"""
    n, L = V.int('n', 1), V.int('L', 1)
    V.F.pointwise('h', L, lambda i: pos(app('h', i)))
    V.F.pointwise('mv', L, lambda i: pos(app('mv', i)))
    V.F.pointwise('cv', L, lambda i: pos(app('cv', i)))
    V.F.pointwise('zl', L, lambda i: pos(app('zl', i)))
    V.F.gen(lambda apps: [pos(a) for a in apps if a.op == 'app' and a.args[0] == 'beta'])
    A2 = lambda nm: Arr([plain(n), plain(L)], lambda i, j: app(nm, i, j), 'f')
    at = dict(n=n, nlayers=L, h=V.arr('h', L), mv=V.arr('mv', L), cv=V.arr('cv', L), zlayer=V.arr('zl', L), _Bm=A2('B'), _Cm=A2('C'), _beta=A2('beta'))
    shape = lambda m, l: lambda s: add(mul(app('B', m, l), cos(mul(app('beta', m, l), s))), mul(app('C', m, l), sin(mul(app('beta', m, l), s))))
    lim = lambda l: (sub(app('zl', l), app('h', l)), app('zl', l))
    return n, L, at, shape, lim


@suite.ob('Schiffman and Stein: initial state in modes', SS + '_calc_Am')
def ss_am(V):
    n, L, at, shape, lim = ss_modes(V)
    (m, l), rng = V.idx(n, L)
    N = lambda l: mul(app('mv', l), calc.integral(shape(m, l), *lim(l)))
    d = lambda l: mul(app('mv', l), calc.integral(lambda s: sq(shape(m, l)(s)), *lim(l)))
    k = fresh('k', 'I')

    def go():
        o = make_obj(V, V.fn(SS[:-1]), at)
        V.I.call(V.I.getattr(o, '_calc_Am'), [])
        A = V.I.getattr(o, '_Am')
        V.length('one for each mode', A.dims[0], n)
        V.P.definedness = False      # the weighted size of a mode is taken to be non-zero
        V.eq('weighted projection of the uniform initial state', A.at(m), div(bsum(k, L, N(k)), bsum(k, L, d(k))), rng[:2])
    V.run(go)


def ss_tm(V):
    V.I.contracts[SS + '_calc_Tm'] = lambda I, f, args, kw: app('T', *[ip.lift(a) for a in args[1:]])
    V.I.contracts[PW + 'pinterp_x_y'] = lambda I, f, args, kw: nplib.elementwise(I, lambda q: app('load', q), [V.call_np('atleast_1d', args[1])])


@suite.ob('Schiffman and Stein: settlement and average pore pressure', SS + 'calc_settle_and_avp')
def ss_settle(V):
    n, L, at, shape, lim = ss_modes(V)
    nt = V.int('nt', 1)
    (j,), rng = V.idx(nt)
    tj = app('t', j)
    one_ = lambda l, m: mul(app('A', m), app('T', app('cv', l), app('beta', m, l), tj), calc.integral(shape(m, l), *lim(l)))

    def go():
        ss_tm(V)
        o = make_obj(V, V.fn(SS[:-1]), dict(at, t=V.arr('t', nt), _Am=V.arr('A', n), surcharge_vs_time=obj()))
        V.I.call(V.I.getattr(o, 'calc_settle_and_avp'), [])
        st, av = V.I.getattr(o, 'set'), V.I.getattr(o, 'avp')
        V.length('one for each time', st.dims[0], nt)
        V.length('one for each time', av.dims[0], nt)
        l, m = fresh('l', 'I'), fresh('m', 'I')
        H = app('zl', sub(L, one))
        V.eq('average over the depth', av.at(j), div(bsum(l, L, bsum(m, n, one_(l, m))), H), rng)
        V.eq('settlement is the drained part of the load', st.at(j), sub(mul(app('load', tj), bsum(l, L, mul(app('mv', l), app('h', l)))), bsum(l, L, mul(app('mv', l), bsum(m, n, one_(l, m))))), rng)
    V.run(go)


@suite.ob('Schiffman and Stein: pore pressure', SS + 'calc_por')
def ss_por(V):
    n, L, at, shape, lim = ss_modes(V)
    nt, nz = V.int('nt', 1), V.int('nz', 1)
    (i, j), rng = V.idx(nz, nt)
    zi, tj = app('z', i), app('t', j)
    lay = lambda v: app('layer', v, sort='I')
    V.F.gen(lambda apps: [land(le(Z, a), lt(a, L)) for a in apps if a.op == 'app' and a.args[0] == 'layer'])

    def go():
        ss_tm(V)

        def search(a, v, side='left', **kw):
            V.check('depths are looked up in the bottoms of the layers', a is at['zlayer'] and side == 'left')
            return nplib.elementwise(V.I, lay, [v], dtype='i')
        V.I.import_mod('numpy').d['searchsorted'] = Builtin(search, 'searchsorted')
        o = make_obj(V, V.fn(SS[:-1]), dict(at, tpor=V.arr('t', nt), z=V.arr('z', nz), _Am=V.arr('A', n), surcharge_vs_time=obj()))
        V.I.call(V.I.getattr(o, 'calc_por'), [])
        p = V.I.getattr(o, 'por')
        shape2(V, 'pore pressure', p, nz, nt)
        m = fresh('m', 'I')
        V.eq('pore pressure', p.at(i, j), bsum(m, n, mul(app('A', m), app('T', app('cv', lay(zi)), app('beta', m, lay(zi)), tj), shape(m, lay(zi))(zi))), rng)
    V.run(go)


def decay(V, call, r, label):
    """call(t): response of a mode to the load history; r: rate of decay"""
    N = V.int('N', 2)
    x, y = fn_of('x'), fn_of('y')
    xs, ys = monotone_data(V, 'x', N), V.arr('y', N)
    V.requires(lt(x(Z), x(sub(N, one))))
    d = Data(x, N)
    tau = V.real('time')

    def go():
        model_less(V, d, y)
        inner = V.I.contracts[PW + 'segment_containing_also_segments_less_than_xi']

        def scalar(I, f, args, kw):
            xi, = take(args[2:], kw, ['xi'])
            V.check('response at one time', not isinstance(xi, Arr))
            return inner(I, f, list(args[:2]) + [Arr([plain(one)], lambda q: ip.lift(xi), 'f')], kw)
        V.I.contracts[PW + 'segment_containing_also_segments_less_than_xi'] = scalar
        got = call(obj(x=xs, y=ys), xs, ys, tau)
        k = lambda s: exp(neg(mul(r, sub(tau, s))))
        rate = lambda q: div(sub(y(add(q, one)), y(q)), sub(x(add(q, one)), x(q)))
        w = history_integral(V, 'response', d, lambda q, s: mul(rate(q), k(s)), tau, Z, [], lambda q: mul(sub(y(add(q, one)), y(q)), k(x(q))))
        V.eq('convolution of the load rate with the decay of the mode', got, w)
    V.run(go)


@suite.ob('Schiffman and Stein: response of a mode to the load history', SS + '_calc_Tm')
def ss_resp(V):
    c, b = V.real('cv'), V.real('beta')
    V.requires(pos(c), pos(b))

    def call(line, xs, ys, tau):
        o = make_obj(V, V.fn(SS[:-1]), dict(surcharge_vs_time=line))
        return V.I.call(V.I.getattr(o, '_calc_Tm'), [c, b, tau])
    decay(V, call, mul(c, sq(b)), '')


# ---- Nogami and Li: layers with vertical and radial drainage
NL = CO + 'nogamiandli2003.NogamiAndLi2003.'


def nl_modes(V):
    nh, nv, L = V.int('nh', 1), V.int('nv', 1), V.int('L', 1)
    for k in ('h', 'mv', 'zl'):
        V.F.pointwise(k, L, lambda i, k=k: pos(app(k, i)))
    V.F.gen(lambda apps: [pos(a) for a in apps if a.op == 'app' and a.args[0] in ('beta', 'alp')])
    A3 = lambda nm: Arr([plain(nh), plain(nv), plain(L)], lambda i, j, k: app(nm, i, j, k), 'f')
    A2 = lambda nm: Arr([plain(nh), plain(nv)], lambda i, j: app(nm, i, j), 'f')
    at = dict(nh=nh, nv=nv, nlayers=L, h=V.arr('h', L), mv=V.arr('mv', L), zlayer=V.arr('zl', L), phia0=V.arr('phia0', two), _sn=V.arr('s', nh),
              _alp=A2('alp'), _betamn=A3('beta'), _phia=A3('f'), _phidota=A3('g'))
    # continued from the value f and slope g at the top of the layer
    shape = lambda i, j, l: lambda s: add(mul(app('f', i, j, l), cos(mul(app('beta', i, j, l), s))), mul(app('g', i, j, l), div(sin(mul(app('beta', i, j, l), s)), app('beta', i, j, l))))
    return nh, nv, L, at, shape


@suite.ob('Nogami and Li: initial state in modes', NL + '_calc_Amn_and_Bmn', NL + '_calc_Cm')
def nl_am(V):
    nh, nv, L, at, shape = nl_modes(V)
    (i, j, l), rng = V.idx(nh, nv, L)
    N = calc.integral(shape(i, j, l), Z, app('h', l))
    d = calc.integral(lambda s: sq(shape(i, j, l)(s)), Z, app('h', l))

    def go():
        polar(V)
        o = make_obj(V, V.fn(NL[:-1]), at)
        V.I.call(V.I.getattr(o, '_calc_Amn_and_Bmn'), [])
        A, B = V.I.getattr(o, '_Amn'), V.I.getattr(o, '_Bmn')
        V.eq('integral of the mode over the layer', A.at(i, j, l), N, rng)
        V.eq('integral of its square', B.at(i, j, l), d, rng)

        def done(I, f, args, kw):
            V.I.setattr(o, '_Amn', Arr([plain(nh), plain(nv), plain(L)], lambda *q: app('Amn', *q), 'f'))
            V.I.setattr(o, '_Bmn', Arr([plain(nh), plain(nv), plain(L)], lambda *q: app('Bmn', *q), 'f'))
        V.I.contracts[NL + '_calc_Amn_and_Bmn'] = done
        V.I.call(V.I.getattr(o, '_calc_Cm'), [])
        k = fresh('k', 'I')
        V.P.definedness = False      # the weighted size of a mode is taken to be non-zero
        V.eq('weighted projection of the uniform initial state', V.I.getattr(o, '_Cm').at(i, j),
             div(bsum(k, L, mul(app('mv', k), app('Amn', i, j, k))), bsum(k, L, mul(app('mv', k), app('Bmn', i, j, k)))), rng[:4])
    V.run(go)


def polar(V):
    V.F.gen(lambda apps: [pos(a) for a in apps if a.op == 'app' and a.args[0] == 'size'])     # no layer with a straight mode
    V.I.import_mod('cmath').d['polar'] = Builtin(lambda b: (app('size', ip.lift(b)), app('angle', ip.lift(b))), 'polar')


def nl_models(V, o, nh, nv):
    V.I.contracts[NL + '_calc_Tm'] = lambda I, f, args, kw: app('T', *[ip.lift(a) for a in args[1:]])
    V.I.contracts[PW + 'pinterp_x_y'] = lambda I, f, args, kw: nplib.elementwise(I, lambda q: app('load', q), [args[1]])
    V.I.contracts[NL + '_calc_un'] = lambda I, f, args, kw: V.I.setattr(o, '_un', V.arr('un', nh))


@suite.ob('Nogami and Li: settlement and average pore pressure', NL + '_calc_avp')
def nl_settle(V):
    nh, nv, L, at, shape = nl_modes(V)
    nt = V.int('nt', 1)
    (p,), rng = V.idx(nt)
    tp = app('t', p)
    c = lambda i, j: mul(app('Cmn', i, j), app('un', i), app('T', app('alp', i, j), tp))

    def go():
        V.I.import_mod('numpy').d['searchsorted'] = Builtin(lambda a, v, **kw: nplib.elementwise(V.I, lambda q: app('layer', q, sort='I'), [v], dtype='i'), 'searchsorted')
        o = make_obj(V, V.fn(NL[:-1]), dict(at, t=V.arr('t', nt), z=V.arr('z', V.int('nz', 1)), _Cmn=Arr([plain(nh), plain(nv)], lambda i, j: app('Cmn', i, j), 'f'), surcharge_vs_time=obj()))
        nl_models(V, o, nh, nv)
        V.I.call(V.I.getattr(o, '_calc_avp'), [])
        st, av = V.I.getattr(o, 'set'), V.I.getattr(o, 'avp')
        shape2(V, 'settlement', st, one, nt)
        shape2(V, 'average', av, one, nt)
        i, j, l = [fresh(k, 'I') for k in 'ijl']
        H = bsum(l, L, app('h', l))
        V.P.definedness = False
        w = lambda i, j, l: calc.integral(shape(i, j, l), Z, app('h', l))
        V.eq('average over the depth', av.at(Z, p), bsum(i, nh, bsum(j, nv, bsum(l, L, div(mul(c(i, j), w(i, j, l)), H)))), rng)
        V.eq('settlement is the drained part of the load', st.at(Z, p), bsum(i, nh, bsum(j, nv, bsum(l, L, mul(app('mv', l), sub(div(mul(app('load', tp), app('h', l)), mul(nh, nv)), mul(c(i, j), w(i, j, l))))))), rng)
    V.run(go)


@suite.ob('Nogami and Li: pore pressure', NL + '_calc_por')
def nl_por(V):
    nh, nv, L, at, shape = nl_modes(V)
    nt, nz = V.int('nt', 1), V.int('nz', 1)
    (k, p), rng = V.idx(nz, nt)
    zk, tp = app('z', k), app('t', p)
    lay = lambda v: app('layer', v, sort='I')
    V.F.gen(lambda apps: [land(le(Z, a), lt(a, L)) for a in apps if a.op == 'app' and a.args[0] == 'layer'])
    c = lambda i, j: mul(app('Cmn', i, j), app('un', i), app('T', app('alp', i, j), tp))

    def go():
        def search(a, v, side='left', **kw):
            V.check('depths are looked up in the bottoms of the layers', a is at['zlayer'] and side == 'left')
            return nplib.elementwise(V.I, lay, [v], dtype='i')
        V.I.import_mod('numpy').d['searchsorted'] = Builtin(search, 'searchsorted')
        o = make_obj(V, V.fn(NL[:-1]), dict(at, tpor=V.arr('t', nt), z=V.arr('z', nz), _Cmn=Arr([plain(nh), plain(nv)], lambda i, j: app('Cmn', i, j), 'f'), surcharge_vs_time=obj()))
        nl_models(V, o, nh, nv)
        V.I.call(V.I.getattr(o, '_calc_por'), [])
        por = V.I.getattr(o, 'por')
        shape2(V, 'pore pressure', por, nz, nt)
        i, j = fresh('i', 'I'), fresh('j', 'I')
        l = lay(zk)
        V.eq('pore pressure', por.at(k, p), bsum(i, nh, bsum(j, nv, mul(c(i, j), shape(i, j, l)(sub(zk, sub(app('zl', l), app('h', l))))))), rng)
    V.run(go)


@suite.ob('Nogami and Li: response of a mode to the load history', NL + '_calc_Tm')
def nl_resp(V):
    a = V.real('alp')
    V.requires(pos(a))

    def call(line, xs, ys, tau):
        o = make_obj(V, V.fn(NL[:-1]), dict(surcharge_vs_time=line))
        return V.I.call(V.I.getattr(o, '_calc_Tm'), [a, tau])
    decay(V, call, sq(a), '')


def nl_bc(L, top, bot, radial):
    @suite.ob('Nogami and Li: boundaries %d/%d and interfaces, %d layer%s%s' % (top, bot, L, 's' if L > 1 else '', ', radial flow' if radial else ''),
              NL + '_calc_derived_properties', NL + '_beta', NL + '_calc_betamn', NL + '_calc_phia_and_phidota', NL + '_vertical_characteristic_curve')
    def f(V):
        names = 'kv mv h kh'.split()
        q = {n: [V.real('%s%d' % (n, i)) for i in range(L)] for n in names}
        V.requires(*[pos(v) for n in names for v in q[n]])
        r0, r1 = V.real('r0'), V.real('r1')
        V.requires(pos(r0), lt(r0, r1))
        nv = V.int('nv', 1)
        nh = V.int('nh', 1) if radial else one
        s = (lambda i: app('s', i)) if radial else (lambda i: Z)
        (i, j), rng = V.idx(nh, nv)
        V.F.gen(lambda apps: [pos(a) for a in apps if a.op == 'app' and a.args[0] in ('alp', 'sqrtb')])

        def go():
            polar(V)
            V.I.contracts['geotecha.inputoutput.inputoutput.InputFileLoaderCheckerSaver.check_input_attributes'] = lambda I, fn, a, k: None
            arr = {n: rows(*q[n]) for n in names if n != 'kh' or radial}
            o = make_obj(V, V.fn(NL[:-1]), dict(dict(kh=None, r0=None, r1=None), **dict(arr, t=V.arr('t', V.int('nt', 1)), z=V.arr('z', V.int('nz', 1)), bctop=top, bcbot=bot, nv=nv,
                                                                                     nh=nh, **(dict(r0=r0, r1=r1) if radial else {}))))
            V.I.call(V.I.getattr(o, '_calc_derived_properties'), [])
            a1, s1 = V.real('alp1'), V.real('s1')
            V.I.setattr(o, '_alp', Arr([plain(nh), plain(nv)], lambda i, j: app('alp', i, j), 'f'))
            V.I.setattr(o, '_sn', Arr([plain(nh)], lambda i: s(i), 'f'))
            # cv beta^2 + ch (s/r0)^2 = alp^2 (the root may be imaginary)
            V.P.definedness = False
            b2 = nplib.toarr(V.I, V.I.call(V.I.getattr(o, '_beta'), [a1, s1 if radial else Z]))
            for l in range(L):
                w = sq(a1)
                if radial:
                    w = sub(w, mul(div(q['kh'][l], q['mv'][l]), sq(div(s1, r0))))
                V.eq('all layers decay at the same rate', mul(div(q['kv'][l], q['mv'][l]), sq(b2.at(num(l)))), w)
            V.P.definedness = True
            V.I.contracts[NL + '_beta'] = lambda I, fn, a, k: Arr([plain(num(L))], lambda l: app('bet', ip.lift(a[1]), ip.lift(a[2]), l), 'f')
            V.I.call(V.I.getattr(o, '_calc_betamn'), [])
            V.I.call(V.I.getattr(o, '_calc_phia_and_phidota'), [])
            bt, F, G = [V.I.getattr(o, n) for n in ('_betamn', '_phia', '_phidota')]
            al = app('alp', i, j)
            be = [app('bet', al, s(i), num(l)) for l in range(L)]
            shp = lambda l: lambda x: add(mul(F.at(i, j, num(l)), cos(mul(be[l], x))), mul(G.at(i, j, num(l)), div(sin(mul(be[l], x)), be[l])))
            pc = rng + [ne(b, Z) for b in be]
            for l in range(L):
                V.eq('shape constants of the modes', bt.at(i, j, num(l)), be[l], pc)
            V.eq('top boundary', {0: shp(0)(Z), 1: D(shp(0))(Z)}[top], Z, pc)
            V.eq('top of the mode normalised', {0: D(shp(0))(Z), 1: shp(0)(Z)}[top], one, pc)
            for l in range(L - 1):
                V.eq('pore pressure continuous at interfaces', shp(l)(q['h'][l]), shp(l + 1)(Z), pc)
                V.eq('flow continuous at interfaces', mul(q['kv'][l], D(shp(l))(q['h'][l])), mul(q['kv'][l + 1], D(shp(l + 1))(Z)), pc)
            r = V.I.call(V.I.getattr(o, '_vertical_characteristic_curve'), [al, s(i)])
            V.eq('bottom boundary', r, {0: shp(L - 1)(q['h'][-1]), 1: D(shp(L - 1))(q['h'][-1])}[bot], pc)
        V.run(go)


for _t in (0, 1):
    for _b in (0, 1):
        nl_bc(2, _t, _b, True)
nl_bc(1, 0, 1, False)
nl_bc(3, 0, 1, False)
