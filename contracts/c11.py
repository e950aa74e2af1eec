"""C11: the well-resistance and stone-column models assemble the stated coupled equations."""
from specmodel import *

suite = Suite('C11')
suite.num = ['num_vr']
VRW = 'geotecha.speccon.speccon1d_vrw.Speccon1dVRW'
VRC = 'geotecha.speccon.speccon1d_vrc.Speccon1dVRC'
suite.assumptions = ['attribute combinations as accepted by check_input_attributes (C30): radial drainage and drain properties given',
                     'eigenvalues and eigenvectors real', 'numpy.linalg.inv and eig return the inverse and the eigen-decomposition of their argument',
                     'matrix entries below 1e-8 may be set to zero, as documented in the code',
                     'callee contracts: integrals over depth (C02-C05), load terms (C08), outputs (C09), common break points (C17)']
for MOD in (VRW, VRC):
    mk_modes(suite, MOD)
    mk_gam(suite, MOD)
    mk_dependent(suite, MOD, ['mv'])
S_IN = lambda a, h: lambda i, j: app('SinSin', app('m', i), app('m', j), h)
val = lambda *ks: tm.mul(*[value(var(k)) for k in ks]) if len(ks) > 1 else value(var(ks[0]))


def flow(w, dT, k):
    """mode couplings of vertical flow in a profile"""
    return lambda i, j: mul(div(dT, w.dT), app('SinDaDSin', app('m', i), app('m', j), val(k)))


def across(w, dT, *ks):
    """mode couplings of radial flow"""
    return lambda i, j: mul(div(dT, w.dT), app('SinSin', app('m', i), app('m', j), val(*ks)))


# ---------------------------------------------------------------- well resistance
def W(V):
    w = Assembly(V, VRW)
    w.reals('dTv', 'dTh', 'dTw')
    return w


def mk_psi(given):
    @suite.ob('well: _make_psi, _make_psi_w from %s' % given, VRW + '._make_psi', VRW + '._make_psi_w')
    def f(V):
        w = W(V)
        P = V.int('P', 0)
        attrs = dict(m=w.m)
        attrs.update(w.profiles([k for k in given.split() if k != 'fixed_ppress']))
        if 'fixed_ppress' in given:
            attrs['fixed_ppress'] = w.fixed(P)

        def go():
            o = w.make(**attrs)
            w.run_method(o, '_make_psi')
            w.run_method(o, '_make_psi_w')
            s = across(w, w.dTh, 'kh', 'et')

            def soil(i, j):
                r = s(i, j)
                if 'kv' in given:
                    r = sub(r, flow(w, w.dTv, 'kv')(i, j))
                if 'fixed_ppress' in given:
                    r = add(r, pinned(w, P)(app('m', i), app('m', j)))
                return r
            w.matrix(V, 'psi', w.get(o, 'psi'), soil)
            w.matrix(V, 'psi_s', w.get(o, 'psi_s'), s)
            w.matrix(V, 'psi_w', w.get(o, 'psi_w'), lambda i, j: sub(s(i, j), flow(w, w.dTw, 'kw')(i, j)))
        V.run(go)


for given in ('dTh kh et dTw kw', 'dTh kh et dTw kw dTv kv', 'dTh kh et dTw kw fixed_ppress', 'dTh kh et dTw kw dTv kv fixed_ppress'):
    mk_psi(given)


@suite.ob('well: _make_eigs_and_v eliminates the drain pressure', VRW + '._make_eigs_and_v')
def eigs(V):
    w = W(V)
    G, P, S, C = [V.arr2(k, w.n, w.n) for k in ('gam', 'psi', 'psis', 'psiw')]

    def go():
        o = w.make(gam=G, psi=P, psi_s=S, psi_w=C)
        w.run_method(o, '_make_eigs_and_v')
        t = w.term(C)
        Ci = lambda i, j: app('inverse', t, i, j)
        w.matrix(V, 'inverse of psi_w', w.get(o, 'Ipsi_w'), Ci, tol=False)
        SC = dot(ap('psis'), Ci, w.n)
        w.matrix(V, 'psi_s inv(psi_w)', w.get(o, 'psi_s_Ipsi_w'), SC, tol=False)
        SCS = dot(SC, ap('psis'), w.n)
        w.matrix(V, 'psi less what the drain takes', w.get(o, 'psi'), lambda i, j: sub(app('psi', i, j), SCS(i, j)))
        modes(w, V, o, G, w.get(o, 'psi'))
    V.run(go)


def mk_the(drn, given, sides, loads):
    @suite.ob('well: make_E_Igamv_the drn=%d given %s boundaries %s loads %s' % (drn, given, sides or 'none', loads or 'none'),
              VRW + '.make_E_Igamv_the', *[VRW + '._make_E_Igamv_the_' + k for k in loads.split() + (['BC'] if sides else [])])
    def f(V):
        w = W(V)
        P, Ls = V.int('P', 1), V.int('Ls', 1)
        at, h = w.histories(drn, sides)
        at.update(w.profiles(given.split()))
        at.update(drn=drn, m=w.m, eigs=w.eigs, tvals=w.t, Igamv=w.Ig, mv=w.poly('mv'), psi_s_Ipsi_w=V.arr2('SC', w.n, w.n))
        if 'surcharge' in loads:
            at.update(surcharge_vs_depth=w.polys('sdep', Ls), surcharge_vs_time=w.polys('stim', Ls), surcharge_omega_phase=w.tokens('sfreq', Ls))
        if 'fixed_ppress' in loads:
            at.update(fixed_ppress=w.fixed(P), fixed_ppress_omega_phase=w.tokens('ffreq', P))
        if 'pumping' in loads:
            at.update(pumping=w.pumps(P), pumping_omega_phase=w.tokens('pfreq', P))

        def go():
            o = w.make(**at)
            w.run_method(o, 'make_E_Igamv_the')
            g = lambda k: w.get(o, k)
            mode = [w.m, w.eigs, w.t, w.Ig]
            parts = w.loads(o, loads, P)
            if sides:
                parts.append((num(-1), w.E('BC_aDfDt_linear', drn, *mode, g('mv'), *h, w.dT)))
                if 'kv' in given:
                    parts.append((w.dTv, w.E('BC_D_aDf_linear', drn, *mode, g('kv'), *h, w.dT)))
                if 'fixed_ppress' in loads:
                    zf, kf = [LList(Seq(P, lambda i, q=q: app(q, i))) for q in ('zf', 'kf')]
                    parts.append((num(-1), w.E('BC_deltaf_linear', drn, *mode, zf, kf, *h, w.dT)))
                through = arr(w.n, w.n, dot(ap('Ig'), ap('SC'), w.n))
                parts.append((w.dTw, w.E('BC_D_aDf_linear', drn, w.m, w.eigs, w.t, through, g('kw'), *h, w.dT)))
            w.assembled(V, 'right hand side', g('E_Igamv_the'), parts)
        V.run(go)


RAD = 'dTh kh et dTw kw'
for drn in (0, 1):
    for sides in ('', 'top', 'bot', 'top bot'):
        mk_the(drn, RAD, sides, 'surcharge' if sides in ('', 'top bot') else '')
        mk_the(drn, RAD + ' dTv kv', sides, 'surcharge fixed_ppress pumping')
for loads in ('fixed_ppress', 'pumping'):
    mk_the(0, RAD, '', loads)
for what in ('f', 'avgf', 'integrate_af'):
    for drn in (0, 1):
        for sides in ('', 'top', 'bot', 'top bot'):
            mk_out(suite, VRW, what, drn, sides, surcharge=sides != 'top')


def mk_well(drn, sides):
    @suite.ob('well: _make_porwell drn=%d boundaries %s' % (drn, sides or 'none'), VRW + '._make_porwell')
    def f(V):
        w = W(V)
        N, K = V.int('N', 1), V.int('K', 0)
        V.requires(le(K, w.T))
        at, h = w.histories(drn, sides)
        at.update(w.profiles(RAD.split()))
        at.update(drn=drn, m=w.m, eigs=w.eigs, tvals=w.t, ppress_z=V.arr('z', N), ppress_z_tval_indexes=slice(K, None),
                  v_E_Igamv_the=V.arr2('vE', w.n, w.T), Ipsi_w=V.arr2('C', w.n, w.n), psi_s=V.arr2('S', w.n, w.n))

        def go():
            o = w.make(**at)
            w.run_method(o, '_make_porwell')
            cols = sub(w.T, K)
            tk = w.picked(K)
            foft = w.expect(S1 + 'dim1sin_foft_Ipsiw_the_BC_D_aDf_linear', drn, w.m, w.eigs, tk, w.get(o, 'Ipsi_w'), w.get(o, 'kw'), *h)
            # drain modes: inv(psi_w) (psi_s A + dTw/dT theta f)
            CS = dot(dot(ap('C'), ap('S'), w.n), lambda i, k: app('vE', i, add(k, K)), w.n)
            R = w.out('f', w.m, w.get(o, 'ppress_z'), tk, arr(w.n, cols, CS), drn, *h)
            Q = w.out('f', w.m, w.get(o, 'ppress_z'), tk, arr(w.n, cols, lambda i, k: foft.at(i, k)), drn)
            w.compare(V, 'drain pressure', w.get(o, 'porwell'), N, cols, lambda i, k: add(R.at(i, k), mul(div(w.dTw, w.dT), Q.at(i, k))))
        V.run(go)


for drn in (0, 1):
    for sides in ('', 'top', 'bot', 'top bot'):
        mk_well(drn, sides)


# ---------------------------------------------------------------- stone column
def C(V):
    w = Assembly(V, VRC)
    w.reals('dTv', 'dTh', 'dTvc', 'dThc', 'alp')
    return w


COL = 'dTv kv dTh kh et dTvc kvc dThc khc'
IDENT = lambda i, j: tm.ite(eq(i, j), one, Z)


@suite.ob('column: _make_psi: elimination of soil, column and average pore pressure', VRC + '._make_psi')
def column_psi(V):
    w = C(V)

    def go():
        o = w.make(m=w.m, alp=w.alp, **w.profiles(COL.split()))
        w.run_method(o, '_make_psi')
        n = w.n
        sv, sh = flow(w, w.dTv, 'kv'), across(w, w.dTh, 'kh', 'et')
        cv, ch = flow(w, w.dTvc, 'kvc'), across(w, w.dThc, 'khc')
        s = lambda i, j: sub(sh(i, j), sv(i, j))
        c = lambda i, j: sub(ch(i, j), cv(i, j))
        V.check('one system is solved', len(w.inverted) == 1)
        B = w.inverted[0]
        V.length('three unknowns per mode', B.dims[0], mul(num(3), n))
        (i, j), rng = V.idx(n, n)
        # soil, column, radially averaged pore pressures; rows: average, continuity of flow, interface
        want = [[lambda i, j: mul(sub(one, w.alp), IDENT(i, j)), lambda i, j: mul(w.alp, IDENT(i, j)), lambda i, j: Z],
                [s, lambda i, j: neg(c(i, j)), lambda i, j: sub(ch(i, j), sh(i, j))],
                [lambda i, j: sub(sh(i, j), mul(w.alp, sv(i, j))), lambda i, j: mul(w.alp, cv(i, j)), lambda i, j: neg(sh(i, j))]]
        for a in range(3):
            for b in range(3):
                V.eq('block %d%d of the system' % (a, b), B.at(add(i, mul(num(a), n)), add(j, mul(num(b), n))), want[a][b](i, j), rng)
        t = w.term(B)
        bet = lambda a, b: lambda i, j: app('inverse', t, add(i, mul(num(a), n)), add(j, mul(num(b), n)))
        for a in range(3):
            for b in range(3):
                w.matrix(V, 'bet%d%d' % (a, b), w.get(o, 'bet%d%d' % (a, b)), bet(a, b), tol=False)
        for k, f in (('psi_sv', sv), ('psi_sh', sh), ('psi_cv', cv), ('psi_ch', ch), ('psi_s', s), ('psi_c', c)):
            w.matrix(V, k, w.get(o, k), f, tol=False)
        x, y = dot(sv, bet(0, 0), n), dot(cv, bet(1, 0), n)
        w.matrix(V, 'psi', w.get(o, 'psi'), lambda i, j: neg(add(mul(sub(one, w.alp), x(i, j)), mul(w.alp, y(i, j)))), tol=False)
    V.run(go)


@suite.ob('column: _make_eigs_and_v', VRC + '._make_eigs_and_v')
def column_eigs(V):
    w = C(V)
    G, P = V.arr2('gam', w.n, w.n), V.arr2('psi', w.n, w.n)

    def go():
        o = w.make(gam=G, psi=P)
        w.run_method(o, '_make_eigs_and_v')
        w.matrix(V, 'psi', w.get(o, 'psi'), ap('psi'))
        modes(w, V, o, G, w.get(o, 'psi'))
    V.run(go)


def blocks(V, w):
    d = {k: V.arr2(k, w.n, w.n) for k in 'psi_sv psi_cv bet00 bet01 bet02 bet10 bet11 bet12'.split()}
    d['alp'] = w.alp
    return d


def weighted(w, a):
    """bet_a1 + alp bet_a2"""
    return lambda i, j: add(app('bet%d1' % a, i, j), mul(w.alp, app('bet%d2' % a, i, j)))


def mk_column_the(drn, sides, surcharge):
    @suite.ob('column: make_E_Igamv_the drn=%d boundaries %s%s' % (drn, sides or 'none', ' with surcharge' if surcharge else ''),
              VRC + '.make_E_Igamv_the', *([VRC + '._make_E_Igamv_the_BC'] if sides else []) + ([VRC + '._make_E_Igamv_the_surcharge'] if surcharge else []))
    def f(V):
        w = C(V)
        Ls = V.int('Ls', 1)
        at, h = w.histories(drn, sides)
        at.update(w.profiles(COL.split()))
        at.update(blocks(V, w))
        at.update(drn=drn, m=w.m, eigs=w.eigs, tvals=w.t, Igamv=w.Ig, mv=w.poly('mv'))
        if surcharge:
            at.update(surcharge_vs_depth=w.polys('sdep', Ls), surcharge_vs_time=w.polys('stim', Ls), surcharge_omega_phase=w.tokens('sfreq', Ls))

        def go():
            o = w.make(**at)
            w.run_method(o, 'make_E_Igamv_the')
            g = lambda k: w.get(o, k)
            parts = w.loads(o, 'surcharge' if surcharge else '', one)
            if sides:
                parts.append((num(-1), w.E('BC_aDfDt_linear', drn, w.m, w.eigs, w.t, w.Ig, g('mv'), *h, w.dT)))
                # part of the column flow in the average equation
                a, b = dot(ap('psi_sv'), weighted(w, 0), w.n), dot(ap('psi_cv'), weighted(w, 1), w.n)
                G = lambda i, j: sub(sub(mul(w.alp, IDENT(i, j)), mul(sub(one, w.alp), a(i, j))), mul(w.alp, b(i, j)))
                soil = arr(w.n, w.n, dot(ap('Ig'), lambda i, j: sub(IDENT(i, j), G(i, j)), w.n))
                column = arr(w.n, w.n, dot(ap('Ig'), G, w.n))
                parts.append((w.dTv, w.E('BC_D_aDf_linear', drn, w.m, w.eigs, w.t, soil, g('kv'), *h, w.dT)))
                parts.append((w.dTvc, w.E('BC_D_aDf_linear', drn, w.m, w.eigs, w.t, column, g('kvc'), *h, w.dT)))
            w.assembled(V, 'right hand side', g('E_Igamv_the'), parts)
        V.run(go)


for drn in (0, 1):
    for sides in ('', 'top', 'bot', 'top bot'):
        for surcharge in (False, True):
            mk_column_the(drn, sides, surcharge)


def mk_column_out(meth, drn, sides):
    what, nm, keys = {'_make_por': ('f', 'ppress_z', ('por', 'pors', 'porc')), '_make_avp': ('avgf', 'avg_ppress_z_pairs', ('avp', 'avps', 'avpc'))}[meth]

    @suite.ob('column: %s drn=%d boundaries %s' % (meth, drn, sides or 'none'), VRC + '.' + meth)
    def f(V):
        w = C(V)
        N, K = V.int('N', 1), V.int('K', 0)
        V.requires(le(K, w.T))
        at, h = w.histories(drn, sides)
        at.update(w.profiles(COL.split()))
        at.update(blocks(V, w))
        at.update(drn=drn, m=w.m, eigs=w.eigs, tvals=w.t, mv=w.poly('mv'), v_E_Igamv_the=V.arr2('vE', w.n, w.T))
        at.update({nm: V.arr('z', N) if what == 'f' else V.arr2('z', N, num(2)), nm + '_tval_indexes': slice(K, None)})

        def go():
            o = w.make(**at)
            w.run_method(o, meth)
            cols = sub(w.T, K)
            tk = w.picked(K)
            A = lambda i, k: app('vE', i, add(k, K))
            z = w.get(o, nm)
            for a, key in enumerate(keys):
                M = A if a == 0 else dot(ap('bet%d0' % (a - 1)), A, w.n)
                R = w.out(what, w.m, z, tk, arr(w.n, cols, M), drn, *h)
                want = lambda i, k: R.at(i, k)
                if a and sides:
                    B = arr(w.n, w.n, weighted(w, a - 1))
                    fv, fc = [w.expect(S1 + 'dim1sin_foft_Ipsiw_the_BC_D_aDf_linear', drn, w.m, w.eigs, tk, B, w.get(o, k), *h) for k in ('kv', 'kvc')]
                    Q = w.out(what, w.m, z, tk, arr(w.n, cols, lambda i, k: sub(mul(div(w.dTv, w.dT), fv.at(i, k)), mul(div(w.dTvc, w.dT), fc.at(i, k)))), drn)
                    want = lambda i, k: add(R.at(i, k), Q.at(i, k))
                w.compare(V, key, w.get(o, key), N, cols, want)
        V.run(go)


for drn in (0, 1):
    for sides in ('', 'top', 'bot', 'top bot'):
        for meth in ('_make_por', '_make_avp'):
            mk_column_out(meth, drn, sides)
        mk_out(suite, VRC, 'integrate_af', drn, sides, surcharge=sides != 'top')


@suite.ob('column: make_time_independent_arrays: column area ratio is 1/n^2', VRC + '.make_time_independent_arrays')
def column_independent(V):
    w = C(V)
    ratio = V.real('n')
    V.requires(lt(one, ratio))

    def go():
        o = w.make(drn=1, mv=w.poly('mv'), n=ratio, **w.profiles(COL.split()))
        w.run_method(o, 'make_time_independent_arrays')
        m = lambda i: mul(tm.PI, add(i, num(Fraction(1, 2))))
        V.eq('alp', ip.lift(w.get(o, 'alp')), div(one, mul(ratio, ratio)))
        w.matrix(V, 'gam', w.get(o, 'gam'), lambda i, j: app('SinSin', m(i), m(j), value(var('mv'))))
        w.matrix(V, 'psi_sv', w.get(o, 'psi_sv'), lambda i, j: mul(div(w.dTv, w.dT), app('SinDaDSin', m(i), m(j), val('kv'))), tol=False)
        modes(w, V, o, w.get(o, 'gam'), w.get(o, 'psi'))
    V.run(go)
