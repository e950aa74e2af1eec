"""Run-time evaluation of the beam contracts (C28)."""
import warnings
import numpy as np
from dv.numh import check, close, main
import geotecha.beam_on_foundation.specbeam as sb
from geotecha.piecewise.piecewise_linear_1d import PolyLine
warnings.simplefilter('ignore')
U = lambda rng, a, b: float(rng.uniform(a, b))


# ---- static shapes
def statics(rng, k):
    n = int(rng.randrange(0, 4))
    return {'L': U(rng, .3, 3), 'xc': U(rng, -2, 2), 'd': U(rng, .2, 4), 'xcs': [U(rng, -3, 3) for _ in range(n)], 'fr': [U(rng, -1, 2) for _ in range(n)], 'w': U(rng, .5, 2)}


@check('C28', 'static shapes', statics)
def static(L, xc, d, xcs, fr, w):
    f = lambda x: float(sb.point_load_static_defl_shape_function(x, L, xc=xc))
    want = np.exp(-d / L) * (np.cos(d / L) + np.sin(d / L))
    r = close([f(xc + d), f(xc - d), f(xc), sb.point_load_static_defl_shape_function(d, L), sb.static_point_load_shape(-d, L)], [want, want, 1, want, want], 1e-10, 1e-12)
    if r:
        return 'shape: ' + r
    h = .05 * L
    c = [sb.static_point_load_shape(d + i * h, L) for i in range(-2, 3)]
    if d > 3 * h:
        d4 = (c[0] - 4 * c[1] + 6 * c[2] - 4 * c[3] + c[4]) / h ** 4
        r = close(d4 * L ** 4, -4 * c[2], 2e-2, 2e-2)
        if r:
            return 'beam equation: ' + r
    x, y = sb.multi_static(xcs, fr, wsingle=w, xlim=(-5, 6), n=12, L=L)
    e = sum((w * q * np.exp(-abs(x - a) / L) * (np.cos(abs(x - a) / L) + np.sin(abs(x - a) / L)) for a, q in zip(xcs, fr)), np.zeros(12))
    return close(x, np.linspace(-5, 6, 12)) or close(y, e, 1e-9, 1e-11)


# ---- moving point loads
def vehicle(rng, k):
    n = int(rng.randrange(1, 5))
    return {'x': [U(rng, -6, 0) for _ in range(n)], 'p': [U(rng, .5, 9) for _ in range(n)], 'offset': U(rng, -2, 1) * (k % 2), 'v': U(rng, .4, 4) * (1, -1)[k // 2 % 2],
            'L': U(rng, 2, 12), 't0': U(rng, -2, 3) * (k // 4 % 2), 'x0': U(rng, -3, 3) * (k // 8 % 2), 'ts': [U(rng, -3, 12) for _ in range(7)], 'xp': U(rng, 0, 1)}


@check('C28', 'moving loads', vehicle)
def moving(x, p, offset, v, L, t0, x0, ts, xp):
    m = sb.MovingPointLoads(x, p, offset=offset, v=v, L=L, t0=t0, x0=x0)
    d = (np.array(x) + offset) * (1 if v > 0 else -1)
    start = x0 if v > 0 else x0 + L
    pos = lambda t: start + d + v * (t - t0)
    inside = lambda t: (pos(t) >= x0) & (pos(t) <= x0 + L)
    for t in ts:
        if np.min(np.abs(np.r_[pos(t) - x0, pos(t) - x0 - L])) < 1e-9:
            continue
        gx, gp = m.point_loads_on_beam(t)
        r = close(gx, pos(t), 1e-10, 1e-10) or close(gp, np.array(p) * inside(t), 1e-12)
        if r:
            return 'loads on the beam at %r: %s' % (t, r)
        r = close(m.axle_positions(t=t, v0=v, t0=t0, x0=start), pos(t), 1e-10, 1e-10)
        if r:
            return 'axle positions: ' + r
    r = close(pos(m.start_time.mean() * 0 + m.start_time), np.full(len(x), start), 1e-9, 1e-9) or close(pos(m.end_time), np.full(len(x), x0 + L if v > 0 else x0), 1e-9, 1e-9)
    if r:
        return 'entry and exit: ' + r
    at = x0 + xp * L
    r = close(pos(np.array(m.time_axles_pass_point(at, v0=v, t0=t0, x0=start))), np.full(len(x), at), 1e-8, 1e-8)
    if r:
        return 'passing a point: ' + r
    if x0 == 0:
        r = close(pos(np.array(m.time_axles_pass_beam_point(xp * L))), np.full(len(x), at), 1e-8, 1e-8)
        if r:
            return 'passing a beam point: ' + r
    load, omph = m.convert_to_specbeam()
    for t in ts:
        for i in range(len(x)):
            if abs(pos(t)[i] - x0) < 1e-6 or abs(pos(t)[i] - x0 - L) < 1e-6:
                continue
            pl, (om, ph) = load[i], omph[i]
            on = pl.x[0] < t < pl.x[-1]
            mag = pl.y[1] if on else 0.
            if on != bool(inside(t)[i]) or (on and abs(mag - p[i]) > 1e-12):
                return 'converted load %d at %r: %r' % (i, t, mag)
            r = close(om * t + ph, pos(t)[i], 1e-9, 1e-9)
            if r:
                return 'converted position: ' + r


# ---- infinite beam
def infinite(rng, k):
    return {'alp': U(rng, .05, .85) if k % 3 else U(rng, 1.2, 2.), 'bet': (0.0 if k % 3 and k % 2 else U(rng, .02, .9)), 'k': U(rng, .3, 3)}


@check('C28', 'infinite beam', infinite)
def inf_beam(alp, bet, k):
    f = lambda n, lo=-6, hi=6: [np.array(a) for a in sb.moving_load_on_beam_on_elastic_foundation(alp, bet, slim=(lo, hi), npts=n)]
    s, d = f(2001)
    r = close(s.real, np.linspace(-6, 6, 2001), 1e-12, 1e-12)
    if r:
        return 'points: ' + r
    if np.max(np.abs(d.imag)) > 1e-7:
        return 'deflection is not real'
    d = d.real
    if bet == 0 and alp < 1:
        # deflection under the load without damping
        r = close(d[1000], 1 / np.sqrt(1 - alp ** 2), 1e-6)
        if r:
            return 'closed form: ' + r
    # steady equation by finite differences away from the load
    h = s[1].real - s[0].real
    for i in list(range(100, 960, 100)) + list(range(1040, 1900, 100)):
        j = 12
        c = d[i - 2 * j:i + 2 * j + 1:j]
        hh = h * j
        d1, d2, d4 = (c[3] - c[1]) / 2 / hh, (c[3] - 2 * c[2] + c[1]) / hh ** 2, (c[0] - 4 * c[1] + 6 * c[2] - 4 * c[3] + c[4]) / hh ** 4
        if abs(d4 + 4 * alp ** 2 * d2 - 8 * alp * bet * d1 + 4 * c[2]) > .05 * (1 + abs(d4)) * (1 + 4 * alp ** 2):
            return 'moving beam equation at s=%r' % s[i].real
    ss, dd = f(11, -60, 60)
    if (bet > .1 or (alp < .8)) and max(abs(dd[0]), abs(dd[-1])) > .05:
        return 'deflection does not decay'
    if abs(d[1000] - d[999]) > 20 * h or abs(d[1001] - d[1000]) > 20 * h:
        return 'deflection jumps under the load'
    r = close(sb.DAFinfinite(alp, bet, 1.0), np.max(d), 5e-3, 1e-3)
    if r:
        return 'amplification: ' + r
    return close(sb.DAFinfinite(alp, bet, k), sb.DAFinfinite(alp / k ** .25, bet / k ** .5, 1.) / k ** .75, 1e-3) or \
        close(sb.DAFrelative(alp, bet, k), sb.DAFinfinite(alp, bet, k), 1e-2)


# ---- transitions
def trans(rng, k):
    x1, x2 = U(rng, -3, 3), U(rng, -3, 3)
    L = abs(x2 - x1)
    return {'x1': x1, 'x2': x2 + (.2 if L < .1 else 0), 'y1': U(rng, -1, 1), 'dy': U(rng, -1, 1), 'a': U(rng, -2, 2), 'b': U(rng, .1, 2), 'z': U(rng, -2, 2), 'y': U(rng, .05, .45)}


@check('C28', 'transition curves', trans)
def transitions(x1, x2, y1, dy, a, b, z, y):
    y2 = y1 + dy * abs(x2 - x1)
    f = lambda x: sb.reverse_curve_transition(np.atleast_1d(np.array(x, dtype=float)), x1, y1, x2, y2)
    mid = (x1 + x2) / 2
    e = (x2 - x1)
    r = close(f([x1 - e, x1, mid, x2, x2 + e]), [y1, y1, (y1 + y2) / 2, y2, y2], 1e-8, 1e-9)
    if r:
        return 'reverse curve: ' + r
    R = (e ** 2 + (y2 - y1) ** 2) / 4 / abs(y2 - y1)
    xs = x1 + e * np.linspace(.02, .48, 6)
    s = np.sign(y2 - y1)
    r = close(f(xs), y1 + s * (R - np.sqrt(R ** 2 - (xs - x1) ** 2)), 1e-7, 1e-8) or close(f(x1 + x2 - xs), y2 - s * (R - np.sqrt(R ** 2 - (xs - x1) ** 2)), 1e-7, 1e-8)
    if r:
        return 'arcs: ' + r
    w = .5 + .5 * np.tanh((z - a) / b)
    return close(sb.tanhtran(z, a, b), w, 1e-12) or close(sb.tanhtran(sb.tanhtrani(y, a, b), a, b), y, 1e-9) or close(sb.tanhtran(a - 1.3, a, sb.tanhtranib(a - 1.3, y, a)), y, 1e-9)


# ---- the beam model
def beam(rng, k):
    return {'E': U(rng, 1e3, 1e4), 'I': U(rng, .01, .1), 'rho': U(rng, 1, 3), 'A': U(rng, .2, 1), 'L': U(rng, 5, 20), 'k1': U(rng, 20, 90), 'mu': U(rng, 1, 9), 'x0': U(rng, -1, 1) * (k // 2 % 2), 't0': U(rng, 0, .2),
            'v': U(rng, 10, 40) * (1, -1)[k % 2], 'P': U(rng, 1, 5), 'om': U(rng, 1, 9), 'ph': U(rng, -1, 1), 'k1b': U(rng, .5, 2), 'k3': U(rng, 100, 30000) * (k % 3 == 0), 'k3b': U(rng, .3, 2), 'cyc': bool(k // 2 % 2)}


@check('C28', 'beam model', beam)
def model(E, I, rho, A, L, k1, mu, x0, t0, v, P, om, ph, k1b, k3, k3b, cyc):
    T = 4 * np.sqrt(L ** 2 * rho / E)
    tv = np.linspace(0, T, 9)
    N = 4
    kw = dict(BC='SS', nterms=N, E=E, I=I, rho=rho, A=A, L=L, k1=k1, mu=mu, k3=k3, nquad=8, k1bar=PolyLine([0, 1], [1, k1b]), k3bar=PolyLine([0, 1], [1, k3b]),
              tvals=tv, xvals=np.linspace(0, L, 7), use_analytical=False)
    kw.update(moving_loads_x=[[0., -.3 * L]], moving_loads_Fz=[[P, 2 * P]], moving_loads_v=[v], moving_loads_t0=[t0], moving_loads_x0=[x0], moving_loads_L=[.8 * L])
    kw.update(stationary_loads_x=[.3 * L], stationary_loads_vs_t=[PolyLine([0, T], [P, .5 * P])], stationary_loads_omega_phase=[(om, ph)] if cyc else None)
    b = sb.SpecBeam(**kw)
    s = np.sqrt(E / rho)
    m = b.moving_loads[0]
    r = close([m.L, m.x0, m.t0, m.v], [.8 * L, x0, t0, v], 1e-12)
    if r:
        return 'raw moving loads: ' + r
    n = b.moving_loads_norm[0]
    r = close([n.L, n.x0, n.t0, n.v, n.p[0], n.x[1]], [.8, x0 / L, t0 / L * s, v / s, P / E / A, -.3], 1e-10)
    if r:
        return 'normalised moving loads: ' + r
    if cyc:
        r = close(b.stationary_loads_omega_phase_norm[0], [om * L / s, ph], 1e-10)
        if r:
            return 'cyclic load: ' + r
    r = close([b.kf, b.k1_norm, b.mu_norm, b.k3_norm], [np.sqrt(I / A) / L, k1 * L ** 2 / E / A, mu * L / A / np.sqrt(rho * E), k3 * L ** 4 / E / A], 1e-10)
    if r:
        return 'normalised properties: ' + r
    # right hand side of the equations of motion from a fine quadrature
    b.calulate_qk(t=tv)
    q, qd = np.linspace(.01, .02, N), np.linspace(-.3, .4, N)
    t = 1.7
    got = np.array(b.vectorfield(np.r_[q, qd], t))
    xx = (np.arange(6000) + .5) / 6000
    al = np.pi * np.arange(1, N + 1)
    S = np.sin(al[:, None] * xx)
    W = lambda f: (S[:, None, :] * S[None] * f).mean(axis=2)
    k1x = 1 + (k1b - 1) * xx
    K = b.kf ** 2 * W(1.0) * (al[:, None] * al[None]) ** 2 + b.k1_norm * W(k1x)
    F = -K.dot(q) - b.mu_norm * W(1.0).dot(qd)
    xj = .5 * (1 - np.cos(np.pi * np.arange(8) / 7))
    r = close(b.xj, xj, 1e-12, 1e-12) or close([np.sum(b.Ij * xj ** e) for e in range(8)], 1 / np.arange(1., 9), 1e-7)
    if r:
        return 'quadrature: ' + r
    Sj = np.sin(al[:, None] * xj)
    F = F - b.k3_norm * (Sj * (q.dot(Sj)) ** 3 * (1 + (k3b - 1) * xj) * b.Ij).sum(axis=1)
    start = n.x0 if v > 0 else n.x0 + n.L
    for xa, pa in ((0., P), (-.3, 2 * P)):
        z = start + xa * np.sign(v) + n.v * (t - n.t0)
        if abs(z - n.x0) < 1e-6 or abs(z - n.x0 - n.L) < 1e-6:
            return
        if n.x0 <= z <= n.x0 + n.L:
            F = F + pa / E / A * np.sin(al * z)
    tn = T * s / L
    mag = P * (1 - .5 * t / tn) / E / A
    F = F + mag * np.sin(al * .3) * (np.cos(om * L / s * t + ph) if cyc else 1.0)
    want = np.r_[qd, np.linalg.solve(W(1.0), F)]
    return close(got, want, 2e-3, 2e-3 * np.max(np.abs(want)))


def analytic(rng, k):
    return {'v': U(rng, .1, .6) * (1, -1)[k % 2], 'k1': U(rng, 5, 30), 'mu': U(rng, .5, 4), 'om': U(rng, 0, 3), 'ph': U(rng, -1, 1), 'which': k % 2}


@check('C28', 'analytical against numerical solution', analytic)
def solutions(v, k1, mu, om, ph, which):
    kw = dict(BC='SS', nterms=4, kf=.3, k1_norm=k1, mu_norm=mu, nquad=5, k1bar=PolyLine([0, .4, 1], [1, 1.5, .7]),
              tvals_norm=np.linspace(0, 4, 9), xvals_norm=np.linspace(0, 1, 6))
    if which:
        kw.update(moving_loads_x_norm=[[0., -.2]], moving_loads_Fz_norm=[[1., .5]], moving_loads_v_norm=[v], moving_loads_t0_norm=[.3])
    else:
        kw.update(stationary_loads_x_norm=[.35], stationary_loads_vs_t_norm=[PolyLine([0, 1, 6], [0, 1, .6])], stationary_loads_omega_phase_norm=[(om, ph)])
    a = sb.SpecBeam(use_analytical=True, force_calc=True, **kw)
    a.runme()
    n = sb.SpecBeam(use_analytical=False, **kw)
    n.calulate_qk(t_norm=np.linspace(0, 4, 9), hmax=.02)
    d = n.wofx(x_norm=np.linspace(0, 1, 6))
    da = np.array(a.defl_norm)
    s = np.max(np.abs(d))
    return close(da, d if da.shape == d.shape else d.T, 2e-2, 1e-2 * s)


main()
