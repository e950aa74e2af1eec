"""C12: the unsaturated soil model assembles the stated coupled equations of pore water and pore air."""
from specmodel import *

suite = Suite('C12')
suite.num = ['num_unsat']
MOD = 'geotecha.speccon.speccon1d_unsat.Speccon1dUnsat'
suite.assumptions = ['attribute combinations as accepted by check_input_attributes (C30): all soil properties given',
                     'eigenvalues and eigenvectors real', 'numpy.linalg.inv and eig return the inverse and the eigen-decomposition of their argument',
                     'matrix entries below 1e-8 may be set to zero, as documented in the code',
                     'callee contracts: integrals over depth (C02-C05), load terms (C08), outputs (C09), common break points (C17)']
PROPS = 'm1ka m1kw m2a m2w kw Da n S'.split()
val = lambda *ks: tm.mul(*[value(var(k)) for k in ks]) if len(ks) > 1 else value(var(ks[0]))


class Two(Assembly):
    """water modes 0..n-1 and air modes n..2n-1"""

    def __init__(self, V):
        Assembly.__init__(self, V, MOD)
        self.reals('dTw', 'dTa', 'ua_')
        V.requires(lt(Z, self.ua_))
        self.n2 = mul(num(2), self.n)
        self.mm = V.arr('mm', self.n2)
        self.lam = V.arr('lam', self.n2)
        self.Ig = V.arr2('Ig', self.n2, self.n2)

    def soil(self, **attrs):
        d = dict(dTw=self.dTw, dTa=self.dTa, ua_=self.ua_)
        d.update(self.profiles(PROPS))
        d.update(attrs)
        return self.make(**d)

    def quadrants(self, V, what, got, want, tol):
        """block matrix: want[a][b](i, j) for rows of phase a, columns of phase b (0 water, 1 air)"""
        got = nplib.toarr(V.I, got)
        n = self.n
        for d in got.dims:
            V.length('size of ' + what, d, self.n2)
        (i, j), rng = V.idx(n, n)
        for a in range(2):
            for b in range(2):
                e = got.at(add(i, n) if a else i, add(j, n) if b else j)
                label = '%s of %s in the %s equation' % (what, ('water', 'air')[b], ('water', 'air')[a])
                if tol:
                    close_entry(V, label, e, want[a][b](i, j), rng, TOL)
                else:
                    V.eq(label, e, want[a][b](i, j), rng)

    def both(self, drn, sides):
        """attributes and normalised histories of water and air; sides like 'wtop abot'"""
        at, h = {}, {}
        for p in 'wa':
            a, h[p] = self.histories(drn, ' '.join(s[1:] for s in sides.split() if s[0] == p), p)
            at.update(a)
        return at, h


@suite.ob('_make_m: sine modes of the drainage condition, for both phases', MOD + '._make_m')
def make_m(V):
    w = Two(V)

    def go():
        for drn in (0, 1):
            o = w.make(drn=drn)
            w.run_method(o, '_make_m')
            m, mb = [nplib.toarr(V.I, w.get(o, k)) for k in ('m', 'm_block')]
            V.length('one entry per eigenvalue', m.dims[0], w.n)
            V.length('one entry per eigenvalue and phase', mb.dims[0], w.n2)
            (i,), rng = V.idx(w.n)
            want = mul(tm.PI, add(i, num(1) if not drn else num(Fraction(1, 2))))
            V.eq('drn=%d' % drn, m.at(i), want, rng)
            V.eq('water modes', mb.at(i), want, rng)
            V.eq('air modes', mb.at(add(i, w.n)), want, rng)
    V.run(go)


def storage(w, m):
    ss = lambda *ks: lambda i, j: app('SinSin', m(i), m(j), val(*ks))
    gas = lambda i, j: div(sub(ss('n')(i, j), ss('n', 'S')(i, j)), mul(w.ua_, w.mvref))
    return [[ss('m2w'), lambda i, j: sub(ss('m1kw')(i, j), ss('m2w')(i, j))],
            [ss('m2a'), lambda i, j: sub(sub(ss('m1ka')(i, j), ss('m2a')(i, j)), gas(i, j))]]


def drainage(w, m):
    flow = lambda f, k: lambda i, j: mul(div(f, w.dT), app('SinDaDSin', m(i), m(j), val(k)))
    zero = lambda i, j: Z
    return [[flow(w.dTw, 'kw'), zero], [zero, flow(w.dTa, 'Da')]]


@suite.ob('_make_gam: storage of both phases', MOD + '._make_gam')
def make_gam(V):
    w = Two(V)

    def go():
        o = w.soil(m=w.m)
        w.run_method(o, '_make_gam')
        w.quadrants(V, 'storage', w.get(o, 'gam'), storage(w, lambda i: app('m', i)), True)
    V.run(go)


@suite.ob('_make_psi: drainage of both phases', MOD + '._make_psi')
def make_psi(V):
    w = Two(V)

    def go():
        o = w.soil(m=w.m)
        w.run_method(o, '_make_psi')
        w.quadrants(V, 'drainage', w.get(o, 'psi'), drainage(w, lambda i: app('m', i)), False)
    V.run(go)


def two_modes(w, V, o, G, P):
    """eigenvalues and eigenvectors of the 2n system"""
    n, w.n = w.n, w.n2
    try:
        modes(w, V, o, nplib.toarr(V.I, G), nplib.toarr(V.I, P))
    finally:
        w.n = n


@suite.ob('_make_eigs_and_v', MOD + '._make_eigs_and_v')
def eigs(V):
    w = Two(V)
    G, P = V.arr2('gam', w.n2, w.n2), V.arr2('psi', w.n2, w.n2)

    def go():
        o = w.make(gam=G, psi=P)
        w.run_method(o, '_make_eigs_and_v')
        two_modes(w, V, o, G, P)
    V.run(go)


@suite.ob('make_time_independent_arrays: modes, storage, drainage, eigenvalues in order', MOD + '.make_time_independent_arrays')
def independent(V):
    w = Two(V)

    def go():
        o = w.soil(drn=1)
        w.run_method(o, 'make_time_independent_arrays')
        m = lambda i: mul(tm.PI, add(i, num(Fraction(1, 2))))
        w.quadrants(V, 'storage', w.get(o, 'gam'), storage(w, m), True)
        w.quadrants(V, 'drainage', w.get(o, 'psi'), drainage(w, m), False)
        two_modes(w, V, o, w.get(o, 'gam'), w.get(o, 'psi'))
    V.run(go)


def mk_the(drn, sides, surcharge):
    @suite.ob('make_E_Igamv_the drn=%d boundaries %s%s' % (drn, sides or 'none', ' with surcharge' if surcharge else ''),
              MOD + '.make_E_Igamv_the', *([MOD + '._make_E_Igamv_the_BC'] if sides else []) + ([MOD + '._make_E_Igamv_the_surcharge'] if surcharge else []))
    def f(V):
        w = Two(V)
        Ls = V.int('Ls', 1)
        at, h = w.both(drn, sides)
        at.update(drn=drn, m=w.m, m_block=w.mm, eigs=w.lam, tvals=w.t, Igamv=w.Ig)
        if surcharge:
            at.update(surcharge_vs_depth=w.polys('sdep', Ls), surcharge_vs_time=w.polys('stim', Ls), surcharge_omega_phase=w.tokens('sfreq', Ls))

        def go():
            o = w.soil(**at)
            w.run_method(o, 'make_E_Igamv_the')
            g = lambda k: w.get(o, k)
            mode = [w.mm, w.lam, w.t, w.Ig]
            # terms of the water equation have no part on the air rows, and the other way round
            only = {'w': dict(theta_zero_indexes=slice(w.n, None)), 'a': dict(theta_zero_indexes=slice(None, w.n))}
            parts = []

            def part(eq_, c, kind, *args):
                parts.append((c, w.expect(S1 + 'dim1sin_E_Igamv_the_' + kind, *args, **only[eq_])))
            if surcharge:
                for eq_, k in (('w', 'm1kw'), ('a', 'm1ka')):
                    part(eq_, one, 'aDmagDt_bilinear', *mode, g(k), g('surcharge_vs_depth'), g('surcharge_vs_time'), g('surcharge_omega_phase'), w.dT)
            if sides:
                gas = div(one, mul(w.mvref, w.ua_))
                minus = num(-1)
                for eq_, ph, c, k in (('w', 'w', minus, 'm2w'), ('w', 'a', minus, 'm1kw'), ('w', 'a', one, 'm2w'),
                                      ('a', 'w', minus, 'm2a'), ('a', 'a', minus, 'm1ka'), ('a', 'a', one, 'm2a'), ('a', 'a', gas, 'n')):
                    part(eq_, c, 'BC_aDfDt_linear', drn, *mode, g(k), *h[ph], w.dT)
                part('a', neg(gas), 'BC_abDfDt_linear', drn, *mode, g('n'), g('S'), *h['a'], w.dT)
                part('w', neg(w.dTw), 'BC_D_aDf_linear', drn, *mode, g('kw'), *h['w'], w.dT)
                part('a', neg(w.dTa), 'BC_D_aDf_linear', drn, *mode, g('Da'), *h['a'], w.dT)
            w.assembled(V, 'right hand side', g('E_Igamv_the'), parts, rows=w.n2)
        V.run(go)


SIDES = ['', 'wtop', 'wbot', 'atop', 'abot', 'wtop wbot', 'atop abot', 'wtop atop', 'wbot abot', 'wtop wbot atop abot']
for drn in (0, 1):
    for sides in SIDES:
        mk_the(drn, sides, False)
    mk_the(drn, '', True)
    mk_the(drn, SIDES[-1], True)


def mk_por(meth, drn, sides):
    what, nm, keys = {'_make_por': ('f', 'ppress_z', ('porw', 'pora')), '_make_avp': ('avgf', 'avg_ppress_z_pairs', ('avpw', 'avpa'))}[meth]

    @suite.ob('%s drn=%d boundaries %s' % (meth, drn, sides or 'none'), MOD + '.' + meth)
    def f(V):
        w = Two(V)
        N, K = V.int('N', 1), V.int('K', 0)
        V.requires(le(K, w.T))
        at, h = w.both(drn, sides)
        at.update(drn=drn, m=w.m, tvals=w.t, v_E_Igamv_the=V.arr2('vE', w.n2, w.T))
        at.update({nm: V.arr('z', N) if what == 'f' else V.arr2('z', N, num(2)), nm + '_tval_indexes': slice(K, None)})

        def go():
            o = w.make(**at)
            w.run_method(o, meth)
            cols = sub(w.T, K)
            for q, key in enumerate(keys):
                A = arr(w.n, cols, lambda i, k: app('vE', add(i, w.n) if q else i, add(k, K)))
                R = w.out(what, w.m, w.get(o, nm), w.picked(K), A, drn, *h['wa'[q]])
                w.compare(V, key, w.get(o, key), N, cols, lambda i, k: R.at(i, k))
        V.run(go)


def mk_set(drn, sides, surcharge):
    @suite.ob('_make_set drn=%d boundaries %s%s' % (drn, sides or 'none', ' with surcharge' if surcharge else ''), MOD + '._make_set')
    def f(V):
        w = Two(V)
        N, K, Ls = V.int('N', 1), V.int('K', 0), V.int('Ls', 1)
        V.requires(le(K, w.T))
        at, h = w.both(drn, sides)
        at.update(drn=drn, m=w.m, tvals=w.t, v_E_Igamv_the=V.arr2('vE', w.n2, w.T), settlement_z_pairs=V.arr2('z', N, num(2)), settlement_z_pairs_tval_indexes=slice(K, None))
        if surcharge:
            at.update(surcharge_vs_depth=w.polys('sdep', Ls), surcharge_vs_time=w.polys('stim', Ls), surcharge_omega_phase=w.tokens('sfreq', Ls))

        def go():
            o = w.soil(**at)
            w.run_method(o, '_make_set')
            cols = sub(w.T, K)
            tk = w.picked(K)
            pw = arr(w.n, cols, lambda i, k: app('vE', i, add(k, K)))
            pa = arr(w.n, cols, lambda i, k: app('vE', add(i, w.n), add(k, K)))
            total = []
            for key, m1, m2 in (('setw', 'm1kw', 'm2w'), ('seta', 'm1ka', 'm2a')):
                diff = Poly(w.cls, sub(val(m2), val(m1)), var('any'))
                a = w.out('integrate_af', w.m, w.get(o, 'settlement_z_pairs'), tk, pa, drn, diff, *h['a'])
                b = w.out('integrate_af', w.m, w.get(o, 'settlement_z_pairs'), tk, pw, drn, w.get(o, m2), *h['w'])
                # m1 (sigma - ua) + m2 (ua - uw), integrated over the depths
                c = loaded(w, o, m1, tk, N) if surcharge else None
                want = lambda i, k, a=a, b=b, c=c: tm.mul(add(sub(a.at(i, k), b.at(i, k)), c.at(i, k) if c else Z), w.H, w.mvref)
                total.append(want)
                w.compare(V, key, w.get(o, key), N, cols, want)
            w.compare(V, 'set', w.get(o, 'set'), N, cols, lambda i, k: add(total[0](i, k), total[1](i, k)))
        V.run(go)


for drn in (0, 1):
    for sides in ('', 'wtop', 'abot', 'wbot atop', 'wtop wbot atop abot'):
        for meth in ('_make_por', '_make_avp'):
            mk_por(meth, drn, sides)
        mk_set(drn, sides, sides in ('', 'wtop wbot atop abot'))


@suite.ob('make_time_dependent_arrays: coefficients of the sine modes', MOD + '.make_time_dependent_arrays')
def dependent(V):
    w = Two(V)
    v = V.arr2('v', w.n2, w.n2)
    N = V.int('N', 1)

    def go():
        o = w.soil(drn=0, m=w.m, m_block=w.mm, eigs=w.lam, tvals=w.t, Igamv=w.Ig, v=v, ppress_z=V.arr('z', N),
                   surcharge_vs_depth=w.polys('sdep', one), surcharge_vs_time=w.polys('stim', one))
        w.run_method(o, 'make_time_dependent_arrays')
        R, E = w.get(o, 'v_E_Igamv_the'), w.get(o, 'E_Igamv_the')
        w.compare(V, 'v . E Igamv theta', R, w.n2, w.T, dot(ap('v'), lambda j, k: E.at(j, k), w.n2))
        (k,), rng = V.idx(w.T)
        V.eq('times unchanged', nplib.toarr(V.I, w.get(o, 'tvals')).at(k), app('t', k), rng)
        (q,), rng = V.idx(N)
        V.eq('depths unchanged', nplib.toarr(V.I, w.get(o, 'ppress_z')).at(q), app('z', q), rng)
    V.run(go)
