"""C10: the vertical and radial consolidation model assembles the stated equation."""
from specmodel import *

suite = Suite('C10')
suite.num = ['num_vr']
MOD = 'geotecha.speccon.speccon1d_vr.Speccon1dVR'
suite.assumptions = ['attribute combinations as accepted by check_input_attributes (C30)', 'eigenvalues and eigenvectors real',
                     'numpy.linalg.inv and eig return the inverse and the eigen-decomposition of their argument',
                     'matrix entries below 1e-8 may be set to zero, as documented in the code',
                     'callee contracts: integrals over depth (C02-C05), load terms (C08), outputs (C09), common break points (C17)']


def VR(V):
    w = Assembly(V, MOD)
    w.reals('dTv', 'dTh')
    return w


mk_modes(suite, MOD)
mk_gam(suite, MOD)


def mk_psi(given):
    @suite.ob('_make_psi: drainage matrix from %s' % (' '.join(given) or 'nothing'), MOD + '._make_psi')
    def f(V):
        w = VR(V)
        P = V.int('P', 0)
        attrs = dict(m=w.m)
        attrs.update(w.profiles([k for k in given if k != 'fixed_ppress']))
        if 'fixed_ppress' in given:
            attrs['fixed_ppress'] = w.fixed(P)

        def go():
            o = w.make(**attrs)
            w.run_method(o, '_make_psi')
            def want(i, j):
                mi, mj = app('m', i), app('m', j)
                r = Z
                if {'dTv', 'kv'} <= set(given):
                    r = sub(r, mul(div(w.dTv, w.dT), app('SinDaDSin', mi, mj, value(var('kv')))))
                if {'dTh', 'kh', 'et'} <= set(given):
                    r = add(r, mul(div(w.dTh, w.dT), app('SinSin', mi, mj, tm.mul(value(var('kh')), value(var('et'))))))
                if 'fixed_ppress' in given:
                    r = add(r, pinned(w, P)(mi, mj))
                return r
            w.matrix(V, 'psi', w.get(o, 'psi'), want)
        V.run(go)


for given in ('', 'dTv kv', 'dTh kh et', 'fixed_ppress', 'dTv kv dTh kh et', 'dTv kv fixed_ppress', 'dTh kh et fixed_ppress',
              'dTv kv dTh kh et fixed_ppress', 'dTv', 'kv', 'dTh kh', 'kh et', 'dTh et'):
    mk_psi(given.split())


@suite.ob('_make_eigs_and_v: modes of the drainage matrix relative to the storage matrix', MOD + '._make_eigs_and_v')
def make_eigs(V):
    w = VR(V)
    G, P = V.arr2('gam', w.n, w.n), V.arr2('psi', w.n, w.n)

    def go():
        o = w.make(gam=G, psi=P)
        w.run_method(o, '_make_eigs_and_v')
        modes(w, V, o, G, P)
    V.run(go)


def mk_the(drn, given, sides, loads):
    """right hand side of the modal equations"""
    @suite.ob('make_E_Igamv_the drn=%d given %s boundaries %s loads %s' % (drn, given or 'nothing', sides or 'none', loads or 'none'),
              MOD + '.make_E_Igamv_the', *[MOD + '._make_E_Igamv_the_' + k for k in loads.split() + (['BC'] if sides else [])])
    def f(V):
        w = VR(V)
        P = V.int('P', 1)
        Ls, Lv = V.int('Ls', 1), V.int('Lv', 1)
        at, h = w.histories(drn, sides)
        at.update(w.profiles(given.split()))
        at.update(drn=drn, m=w.m, eigs=w.eigs, tvals=w.t, Igamv=w.Ig, mv=w.poly('mv'))
        if 'surcharge' in loads:
            at.update(surcharge_vs_depth=w.polys('sdep', Ls), surcharge_vs_time=w.polys('stim', Ls), surcharge_omega_phase=w.tokens('sfreq', Ls))
        if 'vacuum' in loads:
            at.update(vacuum_vs_depth=w.polys('vdep', Lv), vacuum_vs_time=w.polys('vtim', Lv), vacuum_omega_phase=w.tokens('vfreq', Lv))
        if 'fixed_ppress' in loads:
            at.update(fixed_ppress=w.fixed(P), fixed_ppress_omega_phase=w.tokens('ffreq', P))
        if 'pumping' in loads:
            at.update(pumping=w.pumps(P), pumping_omega_phase=w.tokens('pfreq', P))

        def go():
            o = w.make(**at)
            w.run_method(o, 'make_E_Igamv_the')
            w.assembled(V, 'right hand side', w.get(o, 'E_Igamv_the'), right_hand_side(w, o, drn, given, sides, h, loads, P))
        V.run(go)


def right_hand_side(w, o, drn, given, sides, h, loads, P):
    """(factor, operator) of every term of the right hand side"""
    g = lambda k: w.get(o, k)
    mode = [w.m, w.eigs, w.t, w.Ig]
    parts = w.loads(o, loads, P)
    if 'vacuum' in loads and 'kh' in given:
        parts.append((w.dTh, w.E('abmag_bilinear', *mode, g('kh'), g('et'), g('vacuum_vs_depth'), g('vacuum_vs_time'), g('vacuum_omega_phase'), w.dT)))
    zf, kf = [LList(Seq(P, lambda i, q=q: app(q, i))) for q in ('zf', 'kf')]
    if sides:
        parts.append((num(-1), w.E('BC_aDfDt_linear', drn, *mode, g('mv'), *h, w.dT)))
        if 'kh' in given:
            parts.append((neg(w.dTh), w.E('BC_abf_linear', drn, *mode, g('kh'), g('et'), *h, w.dT)))
        if 'kv' in given:
            parts.append((w.dTv, w.E('BC_D_aDf_linear', drn, *mode, g('kv'), *h, w.dT)))
        if 'fixed_ppress' in loads:
            parts.append((num(-1), w.E('BC_deltaf_linear', drn, *mode, zf, kf, *h, w.dT)))
    return parts


BOTH = 'dTv kv dTh kh et'
for drn in (0, 1):
    for given in ('dTv kv', 'dTh kh et', BOTH):
        for sides in ('', 'top', 'bot', 'top bot'):
            mk_the(drn, given, sides, 'surcharge' if sides in ('', 'top bot') else '')
    mk_the(drn, BOTH, 'top bot', 'surcharge vacuum fixed_ppress pumping')
    mk_the(drn, 'dTv kv', 'top bot', 'fixed_ppress')
    mk_the(drn, 'dTh kh et', 'bot', 'vacuum pumping')
for loads in ('surcharge', 'vacuum', 'fixed_ppress', 'pumping'):
    mk_the(0, BOTH, '', loads)
mk_the(0, 'dTv kv', '', 'pumping')
for what in ('f', 'avgf', 'integrate_af'):
    for drn in (0, 1):
        for sides in ('', 'top', 'bot', 'top bot'):
            mk_out(suite, MOD, what, drn, sides, surcharge=sides != 'top')
mk_dependent(suite, MOD, ['mv'])


@suite.ob('make_time_independent_arrays: modes, storage, drainage, eigenvalues in order', MOD + '.make_time_independent_arrays')
def independent(V):
    w = VR(V)

    def go():
        o = w.make(drn=1, mv=w.poly('mv'), **w.profiles(BOTH.split()))
        w.run_method(o, 'make_time_independent_arrays')
        m = lambda i: mul(tm.PI, add(i, num(Fraction(1, 2))))
        w.matrix(V, 'gam', w.get(o, 'gam'), lambda i, j: app('SinSin', m(i), m(j), value(var('mv'))))
        w.matrix(V, 'psi', w.get(o, 'psi'), lambda i, j: sub(mul(div(w.dTh, w.dT), app('SinSin', m(i), m(j), tm.mul(value(var('kh')), value(var('et'))))),
                                                             mul(div(w.dTv, w.dT), app('SinDaDSin', m(i), m(j), value(var('kv'))))))
        modes(w, V, o, w.get(o, 'gam'), w.get(o, 'psi'))
    V.run(go)
