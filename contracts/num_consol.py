"""Run-time evaluation of the analytical consolidation contracts (C32)."""
import os
os.environ.setdefault('MPLBACKEND', 'agg')
import contextlib
import io
import math
import numpy as np
import scipy.integrate
import scipy.special as sp
from dv.numh import check, close, main
from geotecha.piecewise.piecewise_linear_1d import PolyLine
from geotecha.consolidation.terzahi import terzaghi_1d, terzaghi_1d_flowrate
from geotecha.consolidation.xieandleo2004 import XieAndLeo2004
from geotecha.consolidation.dengetal2013and2014 import dengetal2013, dengetal2014
from geotecha.consolidation.luetal2010 import luetal2010
from geotecha.consolidation.tangandonitsuka2000 import tangandonitsuka2000
from geotecha.consolidation.cosenzaandkorosak2014 import cosenzaandkorosak2014
from geotecha.consolidation.schiffmanandstein1970 import SchiffmanAndStein1970
from geotecha.consolidation.nogamiandli2003 import NogamiAndLi2003

A = np.asarray


def U(rng, lo, hi):
    return lo + (hi - lo) * rng.random()


def LU(rng, lo, hi):
    return math.exp(U(rng, math.log(lo), math.log(hi)))


def modes(n):
    return (np.arange(n) + 0.5) * np.pi


def d1(f, x, h):
    return (f(x - 2 * h) - 8 * f(x - h) + 8 * f(x + h) - f(x + 2 * h)) / (12 * h)


def d2(f, x, h):
    return (-f(x - 2 * h) + 16 * f(x - h) - 30 * f(x) + 16 * f(x + h) - f(x + 2 * h)) / (12 * h * h)


def profile(z, Tv, H, n):
    """pore pressure, average, flow d/dz for a unit initial pore pressure, drained top and closed base"""
    z, Tv = A(z, float), A(Tv, float)
    M = modes(n)
    e = np.exp(-M ** 2 * Tv[:, None])
    u = np.array([[np.sum(2 / M * np.sin(M * zz / H) * ee) for ee in e] for zz in z])
    du = np.array([[np.sum(2 / H * np.cos(M * zz / H) * ee) for ee in e] for zz in z])
    return u, np.sum(2 / M ** 2 * e, axis=1), du


# ---- Terzaghi
def g_terz(rng, k):
    return {'z': sorted(rng.random() for _ in range(rng.choice([1, 2, 4]))) + [0.0, 1.0], 'Tv': [0.0] + sorted(LU(rng, 1e-3, 2) for _ in range(rng.choice([1, 3]))),
            'H': LU(rng, 0.2, 20), 'kv': LU(rng, 1e-3, 10), 'mv': LU(rng, 1e-3, 10), 'gamw': rng.choice([10.0, 9.81, 1.0]), 'ui': U(rng, -5, 50), 'n': rng.choice([1, 2, 7, 60])}


@check('C32', 'Terzaghi', g_terz)
def terz(z, Tv, H, kv, mv, gamw, ui, n):
    zz, cv = A(z) * H, kv / mv / gamw
    t = A(Tv) * H ** 2 / cv
    por, doc = terzaghi_1d(zz, t, H=H, kv=kv, mv=mv, gamw=gamw, ui=ui, nterms=n)
    q = terzaghi_1d_flowrate(zz, t, H=H, kv=kv, mv=mv, gamw=gamw, ui=ui, nterms=n)
    u, av, du = profile(zz, Tv, H, n)
    for nm, r, w in (('pore pressure', por, ui * u), ('degree of consolidation', doc, 1 - av), ('flow rate', q, kv / gamw * ui * du)):
        m = close(r, w, 1e-9, 1e-9 * abs(ui))
        if m:
            return nm + ' ' + m


# ---- Xie and Leo
def g_xl(rng, k):
    return {'qu': LU(rng, 10, 400), 'qp': LU(rng, 1, 50), 'H': LU(rng, 1, 20), 'Hw': U(rng, 0, 5), 'kv0': LU(rng, 1e-10, 1e-8), 'mvl': LU(rng, 1e-4, 3e-3), 'e00': U(rng, 1.5, 4),
            'Gs': U(rng, 2.5, 2.8), 'drn': k % 2, 'n': rng.choice([20, 60]), 'a': sorted(U(rng, 0.05, 0.95) for _ in range(rng.choice([1, 3]))), 'Tv': sorted(LU(rng, 0.02, 1.5) for _ in range(rng.choice([1, 2])))}


@check('C32', 'Xie and Leo', g_xl)
def xl(qu, qp, H, Hw, kv0, mvl, e00, Gs, drn, n, a, Tv):
    s = '_PTIB' if drn else '_PTPB'
    gamw = 9.81
    o = XieAndLeo2004(qu, qp, H, Hw, kv0, mvl, e00, Gs, gamw=gamw, drn=drn, nterms=n)
    g = lambda nm: getattr(o, nm + s)
    cv = kv0 / mvl / gamw
    a, t = A(a) * H, A(Tv) * H * H / cv
    ze = np.array([0.0])
    F = math.exp(mvl * qu) - 1
    M = modes(n)
    if drn:
        w, _, dw = profile(a, A(Tv), H, n)
    else:
        w, _, dw = profile(a, A(Tv) * 4, H / 2, n)
    u = g('u')(a, t)
    m = close(u, np.log(1 + F * w) / mvl, 1e-8)
    if m:
        return 'excess pore pressure ' + m
    e0 = e00 - mvl * gamw * (Gs - 1) * a
    if close(o.e0(a), e0, 1e-12):
        return 'initial void ratio'
    s0 = qp + np.log((1 + e00) / (1 + e0)) / mvl
    if close(o.initial_effective_stress(a), s0, 1e-10):
        return 'initial effective stress'
    ef = (1 + e0) * math.exp(-mvl * qu) - 1
    if close(o.efinal(a), ef, 1e-10):
        return 'final void ratio'
    sig = g('effective_stress')(a, t)
    m = close(sig, s0[:, None] + qu - u, 1e-9)
    if m:
        return 'effective stress ' + m
    e = g('e')(a, t)
    m = close(1 + e, (1 + e0[:, None]) * np.exp(-mvl * (sig - s0[:, None])), 1e-8)
    if m:
        return 'compressibility law: void ratio ' + m
    S = g('settlement')(a, t)
    # the settlement at a is the compression of everything below it
    for i, aa in enumerate(a):
        for j, tt in enumerate(t):
            f = lambda x: (1 + o.e0(A([x]))[0] - 1 - g('e')(A([x]), A([tt]))[0, 0]) / (1 + o.e0(A([x]))[0])
            want = scipy.integrate.quad(f, aa, H, epsabs=1e-9, limit=200)[0]
            far = np.sum(1 / M ** 2) * 2 - 1     # truncation of the series for 1
            if abs(S[i, j] - want) > H * (abs(far) + 1e-6) * (1 - math.exp(-mvl * qu)) * 1.01:
                return 'settlement %r at a=%r t=%r, compression below %r' % (S[i, j], aa, tt, want)
    if close(o.settlement_final(), H * (1 - math.exp(-mvl * qu)), 1e-10):
        return 'final settlement'
    S0 = g('settlement')(ze, t)[0]
    if close(g('Us')(t), S0 / o.settlement_final(), 1e-8):
        return 'degree of consolidation by settlement'
    if close(g('xi')(a, t), a[:, None] + S, 1e-10):
        return 'current position'
    depth = gamw * (Hw + a[:, None] + S)
    if close(g('total_pore_pressure')(a, t), u + depth, 1e-9):
        return 'total pore pressure'
    if close(g('total_stress')(a, t), sig + g('total_pore_pressure')(a, t), 1e-9):
        return 'total stress is not effective stress plus pore pressure'
    vs = g('vs')(a, t)
    h = t * 1e-3
    rate = A([d1(lambda x: g('settlement')(a, A([x]))[:, 0], tt, hh) for tt, hh in zip(t, h)]).T
    m = close(vs, rate, 1e-5, 1e-9 * np.max(np.abs(rate)))
    if m:
        return 'settlement rate ' + m
    vw = g('vw')(a, t)
    flux = e * vw + vs                             # volume of water and solids through a level
    base = g('vs')(A([H]), t)[0] + g('e')(A([H]), t)[0] * g('vw')(A([H]), t)[0]
    # continuity: the total flux divided by (1+e) is the same at every level (PTPB: moves with the base)
    q = (e * vw + vs)
    if drn:
        if np.max(np.abs(q)) > 1e-7 * max(np.max(np.abs(vs)), 1e-300):
            return 'volume of water and solids not conserved'
    else:
        ratio = q / (1 + e)
        b = base / (1 + g('e')(A([H]), t)[0])
        m = close(ratio, np.repeat(b[None, :], len(a), 0), 1e-6, 1e-9 * np.max(np.abs(vs)))
        if m:
            return 'volume of water and solids not conserved ' + m
    tj = t[:1]
    av = scipy.integrate.quad(lambda x: g('u')(A([x]), tj)[0, 0], 0, H, epsabs=1e-9 * qu, limit=200)[0] / H
    m = close(g('Up')(tj), [1 - av / qu], 1e-5)
    if m:
        return 'degree of consolidation by pore pressure ' + m
    for U_ in (0.2, 0.55, 0.9):
        tt = getattr(o, 't_from_Us' + s)(A([U_]))
        if close(g('Us')(A(tt)), [U_], 1e-2):
            return 't_from_Us: U at the returned time is %r, asked %r' % (g('Us')(A(tt)), U_)


# ---- Deng et al.
def mu0_of(rw, re, rs, kh, ks):
    n = re / rw
    s, kap = (1.0, 1.0) if rs is None or ks is None else (rs / rw, kh / ks)
    return n ** 2 / (n ** 2 - 1) * (math.log(n / s) + kap * math.log(s) - 0.75) + s ** 2 / (n ** 2 - 1) * (1 - s ** 2 / 4 / n ** 2) + kap / (n ** 2 - 1) * ((s ** 4 - 1) / 4 / n ** 2 - s ** 2 + 1)


def g_deng(rng, k):
    rw = LU(rng, 0.02, 0.2)
    re = rw * U(rng, 5, 30)
    A1 = U(rng, 0.3, 1.5)
    kh = LU(rng, 1e-9, 1e-6)
    sm = rng.choice([0, 1])
    return {'z': [0.0, 1.0] + [rng.random() for _ in range(rng.choice([0, 2]))], 'Th': [0.0] + [LU(rng, 0.01, 3) for _ in range(rng.choice([1, 2]))], 'rw': rw, 're': re, 'A1': A1, 'A2': A1 * U(rng, 0.05, 0.95) if k & 1 else 0,
            'a3': LU(rng, 0.01, 3) if k & 2 else 0, 'H': LU(rng, 1, 30), 'rs': rw * U(rng, 1.1, 4) if sm else None, 'ks': kh / U(rng, 1, 6) if sm else None, 'kw0': LU(rng, 10, 1e5) * kh * 10, 'kh': kh,
            'mv': LU(rng, 1e-4, 1e-2), 'gamw': rng.choice([10.0, 9.81]), 'ui': U(rng, 1, 50), 'n': rng.choice([1, 5, 40])}


@check('C32', 'Deng et al.', g_deng)
def deng(z, Th, rw, re, A1, A2, a3, H, rs, ks, kw0, kh, mv, gamw, ui, n):
    ch = kh / mv / gamw
    t = A(Th) * 4 * re ** 2 / ch
    A3 = a3 * ch / 4 / re ** 2
    mu0 = mu0_of(rw, re, rs, kh, ks)
    zz = A(z) * H
    qw0 = kw0 * math.pi * rw ** 2
    por = dengetal2013(zz, t, rw, re, A1=A1, A2=A2, A3=A3, H=H, rs=rs, ks=ks, kw0=kw0, kh=kh, mv=mv, gamw=gamw, ui=ui)
    want = np.zeros((len(z), len(t)))
    for i, x in enumerate(zz):
        muw = scipy.integrate.quad(lambda q: 2 * math.pi * kh * (H - q) / qw0 / (A1 - A2 * q / H), 0, x, epsabs=0)[0] if x else 0.0
        for j, T in enumerate(Th):
            want[i, j] = ui * math.exp(-scipy.integrate.quad(lambda q: 8 / (mu0 + muw * math.exp(a3 * q)), 0, T, epsabs=1e-12)[0])
    m = close(por, want, 1e-7)
    if m:
        return '2013: ' + m
    por = dengetal2014(zz, t, rw, re, A3=A3, H=H, rs=rs, ks=ks, kw0=kw0, kh=kh, mv=mv, gamw=gamw, ui=ui, nterms=n)
    M, N = modes(n), re / rw
    # drain resistance of a mode from the flow balance along the drain
    muw = 2 * math.pi * kh * H ** 2 / qw0 / M ** 2 * (1 - 1 / N ** 2)
    for j, T in enumerate(Th):
        r = A([math.exp(-scipy.integrate.quad(lambda q: 8 / (mu0 + mw * math.exp(a3 * q)), 0, T, epsabs=1e-12)[0]) for mw in muw])
        want[:, j] = [ui * np.sum(2 / M * np.sin(M * x / H) * r) for x in zz]
    m = close(por, want, 1e-7)
    if m:
        return '2014: ' + m


# ---- Lu et al.
def g_lu(rng, k):
    rc = LU(rng, 0.05, 0.5)
    re = rc * U(rng, 1.8, 6)
    kh = LU(rng, 0.1, 3)
    sm = k & 1
    kv = LU(rng, 0.1, 3)
    return {'rc': rc, 're': re, 'H': U(rng, 3, 15), 'rs': rc * U(rng, 1.05, min(1.7, 0.95 * re / rc)) if sm else None, 'ks': kh / U(rng, 1, 5) if sm else None, 'kv': kv, 'kvc': kv * LU(rng, 5, 2000), 'kh': kh,
            'khc': LU(rng, 0.2, 20), 'mvs': LU(rng, 0.02, 1), 'mvc': LU(rng, 1e-4, 1e-2), 'gamw': 10.0, 'utop': U(rng, 0, 2), 'ubot': U(rng, 0, 2), 'n': rng.choice([1, 2, 9, 50]),
            'z': [0.0, 1.0] + [U(rng, 0.15, 0.85) for _ in range(2)], 'T': [LU(rng, 0.01, 1) for _ in range(2)]}


@check('C32', 'Lu et al.', g_lu)
def lu(rc, re, H, rs, ks, kv, kvc, kh, khc, mvs, mvc, gamw, utop, ubot, n, z, T):
    n2 = (re / rc) ** 2
    zz = A(z) * H
    kw = dict(H=H, rs=rs, ks=ks, kv=kv, kvc=kvc, kh=kh, khc=khc, mvs=mvs, mvc=mvc, gamw=gamw, utop=utop, ubot=ubot, nterms=n)
    mu0 = mu0_of(rc, re, rs, kh, ks)
    Y = mvs / mvc
    E = n2 * mvs / (n2 - 1 + Y)
    M = modes(n)
    # unknown rate b and pressure difference X of a mode from the two flow balances
    B = gamw * (re ** 2 * mu0 / 2 / kh + rc ** 2 * (n2 - 1) / 8 / khc)
    s = (M / H) ** 2
    rate, X = np.zeros(n), np.zeros(n)
    for m in range(n):
        lhs = A([[gamw * n2 * E, -s[m] * (kv - kvc)], [B * E, -(n2 / (n2 - 1) + B * kv * s[m] / gamw / (n2 - 1))]])
        rate[m], X[m] = np.linalg.solve(lhs, [s[m] * ((n2 - 1) * kv + kvc), B * kv * s[m] / gamw])
    t = A(T) / rate[0]
    por, pors, porc, avp, settle = luetal2010(zz, t, rc, re, **kw)
    sg = (-1.0) ** np.arange(n)
    amp = 2 / M * (utop - sg * (utop - ubot) / M)
    W = [np.zeros((len(z), len(t))) for _ in range(3)]
    av = np.zeros(len(t))
    for j, tt in enumerate(t):
        e = amp * np.exp(-rate * tt)
        for i, x in enumerate(zz):
            f = e * np.sin(M * x / H)
            W[0][i, j], W[1][i, j], W[2][i, j] = np.sum(f), np.sum(f * (1 + X / (n2 - 1))), np.sum(f * (1 - X))
        av[j] = np.sum(e / M)
    for nm, r, w in (('average', por, W[0]), ('soil', pors, W[1]), ('column', porc, W[2]), ('mean over depth', avp, av), ('settlement', settle, H * E * ((utop + ubot) / 2 - av))):
        m = close(r, w, 1e-6, 1e-9)
        if m:
            return nm + ' ' + m


# ---- load histories
def history(rng, T):
    """increasing times with steps and ramps, first magnitude zero"""
    x, y = [0.0], [0.0]
    for _ in range(rng.choice([1, 2, 3])):
        if rng.random() < 0.5:
            x.append(x[-1])
        else:
            x.append(x[-1] + T * U(rng, 0.02, 0.6))
        y.append(U(rng, -20, 100))
        x.append(x[-1] + T * U(rng, 0.02, 0.6))
        y.append(rng.choice([y[-1], U(rng, 0, 100)]))
    x.append(x[-1] + 50 * T)
    y.append(y[-1])
    return [x, y]


def response(b, t, xy):
    """solution of T' + b T = load', T = 0 before the load"""
    r = 0.0
    for x1, x2, y1, y2 in zip(xy[0][:-1], xy[0][1:], xy[1][:-1], xy[1][1:]):
        if x1 == x2:
            if x1 <= t:
                r += (y2 - y1) * math.exp(-b * (t - x1))
        elif x1 < t:
            e = min(x2, t)
            r += (y2 - y1) / (x2 - x1) * (math.exp(-b * (t - e)) - math.exp(-b * (t - x1))) / b
    return r


def level(t, xy):
    """load at t (after a step at t)"""
    v = 0.0
    for x1, x2, y1, y2 in zip(xy[0][:-1], xy[0][1:], xy[1][:-1], xy[1][1:]):
        if x1 <= t:
            v = y2 if t >= x2 else y1 + (y2 - y1) * (t - x1) / (x2 - x1)
    return v


def times(rng, T, xy, n):
    return [t for t in sorted(U(rng, 0, 1) ** 2 * T * 2 for _ in range(n))]


# ---- Tang and Onitsuka
def g_tang(rng, k):
    rw = LU(rng, 0.03, 0.1)
    T = LU(rng, 0.01, 10)
    xy = history(rng, T)
    s = U(rng, 1.0, 3)
    return {'kv': LU(rng, 0.1, 10), 'kh': LU(rng, 0.1, 10), 'kap': rng.choice([1.0, U(rng, 1, 6)]), 'kw': LU(rng, 1, 1e4), 'mv': LU(rng, 0.05, 2), 'gamw': rng.choice([10.0, 1.0]), 'rw': rw, 's': s, 'n': s * U(rng, 1.5, 15),
            'H': LU(rng, 0.5, 5), 'drn': k % 2, 'xy': xy, 'z': [0.0, 1.0, 0.5] + [rng.random() for _ in range(2)], 't': times(rng, T, xy, 3), 'tpor': rng.choice([None, times(rng, T, xy, 2)]), 'nterms': rng.choice([1, 4, 12])}


@check('C32', 'Tang and Onitsuka', g_tang)
def tang(kv, kh, kap, kw, mv, gamw, rw, s, n, H, drn, xy, z, t, tpor, nterms):
    re, rs = rw * n, rw * s
    zz = A(z) * H
    keep = zz.copy()
    por, avp, settle = tangandonitsuka2000(zz, A(t), kv, kh, kh / kap, kw, mv, gamw, rw, rs, re, H, drn, surcharge_vs_time=(tuple(xy[0]), tuple(xy[1])), tpor=None if tpor is None else A(tpor), nterms=nterms)
    if not np.array_equal(zz, keep):
        return 'depths changed'
    n2, H_ = n * n, H if drn else H / 2.0
    F = (math.log(n / s) + kap * math.log(s) - 0.75) * n2 / (n2 - 1) + s ** 2 / (n2 - 1) * (1 - kap) * (1 - s ** 2 / 4 / n2) + kap / (n2 - 1) * (1 - 1 / 4 / n2)
    M = modes(nterms)
    D = 8 / M ** 2 * (n2 - 1) / n2 * kh / kw * (H_ / 2 / rw) ** 2
    b = kv / mv / gamw * (M / H_) ** 2 + kh / mv / gamw * 2 / re ** 2 / (F + D)
    tp = t if tpor is None else tpor
    up = zz if drn else np.where(zz > H_, H - zz, zz)
    want = A([[sum(2 / m * math.sin(m * x / H_) * response(bb, q, xy) for m, bb in zip(M, b)) for q in tp] for x in up])
    m = close(por, want, 1e-7, 1e-8)
    if m:
        return 'pore pressure ' + m
    av = A([sum(2 / m ** 2 * response(bb, q, xy) for m, bb in zip(M, b)) for q in t])
    m = close(avp, av, 1e-7, 1e-8)
    if m:
        return 'average pore pressure ' + m
    m = close(settle, [H * mv * (level(q, xy) - a) for q, a in zip(t, av)], 1e-7, 1e-8)
    if m:
        return 'settlement ' + m


# ---- Cosenza and Korosak
def g_cos(rng, k):
    return {'z': [0.0, 0.5, 1.0] + [rng.random() for _ in range(2)], 'Tv': sorted(LU(rng, 0.01, 1) for _ in range(rng.choice([1, 3]))), 'Tp': rng.choice([None, sorted(LU(rng, 0.01, 1) for _ in range(rng.choice([1, 2, 3])))]),
            'L': LU(rng, 0.5, 10), 'kv': LU(rng, 0.1, 10), 'mv': LU(rng, 0.05, 2), 'gamw': rng.choice([10.0, 1.0]), 'ui': U(rng, 1, 50), 'n': rng.choice([1, 3, 10]), 'theta': rng.choice([0.0, 0.0, U(rng, 0.05, 0.5)]), 'parts': rng.choice([1, 2])}


def wright(theta, lam, t):
    """mode with memory exponent 1/2: inverse of (1 + theta s^-1/2) / (s + theta s^1/2 + lam) via the roots in sqrt(s)"""
    disc = np.sqrt(complex(theta ** 2 - 4 * lam))
    p = [(-theta + disc) / 2, (-theta - disc) / 2]
    r = 0
    for a, b in (p, p[::-1]):
        # s^-1/2 (q + theta) / ((q - a)(q - b)), q = sqrt(s): residue c at q = a times 1/(q (q - a)) <-> exp(a^2 t) erfc(-a sqrt t)
        r += (a + theta) / (a - b) * sp.wofz(-1j * a * math.sqrt(t))
    return r.real


@check('C32', 'Cosenza and Korosak', g_cos)
def cosenza(z, Tv, Tp, L, kv, mv, gamw, ui, n, theta, parts):
    cv = kv / mv / gamw
    zz, t = A(z) * L, A(Tv) * L * L / cv
    tp = None if Tp is None else A(Tp) * L * L / cv
    # theta in units of time^-1/2
    th = theta * math.sqrt(cv) / L
    thetas, vs = ([th], [0.5]) if parts == 1 else ([th / 4, 3 * th / 4], [0.5, 0.5])
    por, doc = cosenzaandkorosak2014(zz, t, thetas, vs, tpor=tp, L=L, kv=kv, mv=mv, gamw=gamw, ui=ui, nterms=n)
    M = (2 * np.arange(n) + 1) * np.pi
    lam = M ** 2 * cv / L ** 2
    T = lambda l, q: math.exp(-l * q) if th == 0 else wright(th, l, q)
    want = ui * A([[sum(4 / m * math.sin(m * x / L) * T(l, q) for m, l in zip(M, lam)) for q in (t if tp is None else tp)] for x in zz])
    m = close(por, want, 1e-5)
    if m:
        return 'pore pressure ' + m
    m = close(doc, [1 - sum(8 / m ** 2 * T(l, q) for m, l in zip(M, lam)) for q in t], 1e-5, 1e-6)
    if m:
        return 'degree of consolidation ' + m


# ---- layered profiles
def g_layers(rng, k, kinds):
    L = rng.choice([1, 2, 3])
    top, bot = rng.choice([c for c in kinds if c != (1, 1)])
    h = [U(rng, 0.5, 2) for _ in range(L)]
    mv = [LU(rng, 0.3, 3) for _ in range(L)]
    kv = [LU(rng, 0.3, 3) for _ in range(L)]
    T = sum(h) ** 2 * sum(mv) / sum(kv)
    return dict(h=h, mv=mv, kv=kv, top=top, bot=bot, z=[rng.random() for _ in range(3)], xy=history(rng, T * 0.3), t=[T * LU(rng, 0.02, 0.6) for _ in range(3)], tpor=[T * LU(rng, 0.02, 0.6) for _ in range(2)])


class Modes:
    """independent layered eigenfunctions: shooting with the flux as second state; impeded ends carry k/h of the stiff layer"""

    def __init__(self, h, kv, mv, top, bot, kt=None, kb=None):
        self.h, self.kv, self.mv, self.top, self.bot, self.kt, self.kb = A(h), A(kv), A(mv), top, bot, kt, kb

    def start(self):
        return {0: (0.0, 1.0), 1: (1.0, 0.0), 3: (1.0, self.kt)}[self.top]

    def states(self, w):
        """(u, k u_z) at the top of each layer and at the base; decay rate w^2"""
        s = [self.start()]
        for h, k, m in zip(self.h, self.kv, self.mv):
            b = w * math.sqrt(m / k)
            u, q = s[-1]
            c, d = math.cos(b * h), math.sin(b * h)
            s.append((u * c + q / k / b * d, -u * k * b * d + q * c))
        return s

    def end(self, w):
        u, q = self.states(w)[-1]
        return {0: u, 1: q, 3: q + (self.kb or 0) * u}[self.bot]

    def roots(self, n):
        step = 0.02 * math.pi / np.sum(self.h * np.sqrt(self.mv / self.kv))
        r, w, f = [], step / 2, self.end(step / 2)
        while len(r) < n:
            w2 = w + step
            f2 = self.end(w2)
            if f * f2 < 0:
                r.append(scipy.optimize.brentq(self.end, w, w2, xtol=1e-13))
            w, f = w2, f2
        return r

    def pieces(self, w):
        s = self.states(w)
        return [(s[i][0], s[i][1] / self.kv[i], w * math.sqrt(self.mv[i] / self.kv[i])) for i in range(len(self.h))]

    def shape(self, w, z):
        z0 = 0.0
        for i, (a, d, b) in enumerate(self.pieces(w)):
            if z <= z0 + self.h[i] or i == len(self.h) - 1:
                return a * math.cos(b * (z - z0)) + d / b * math.sin(b * (z - z0))
            z0 += self.h[i]

    def layer_int(self, w):
        return A([a * math.sin(b * h) / b + d * (1 - math.cos(b * h)) / b ** 2 for (a, d, b), h in zip(self.pieces(w), self.h)])

    def size(self, w):
        r = 0.0
        x, wt = np.polynomial.legendre.leggauss(40)
        for (a, d, b), h, m in zip(self.pieces(w), self.h, self.mv):
            q = h * (x + 1) / 2
            r += m * h / 2 * np.sum(wt * (a * np.cos(b * q) + d / b * np.sin(b * q)) ** 2)
        return r


import scipy.optimize


def ss_gen(rng, k):
    d = g_layers(rng, k, [(0, 0), (0, 1), (1, 0), (3, 0), (0, 3), (3, 1), (1, 3), (3, 3)])
    d.update(n=rng.choice([1, 4, 8]), imp=[LU(rng, 0.3, 2), LU(rng, 0.3, 2), LU(rng, 0.3, 2), LU(rng, 0.3, 2)])
    return d


def arr(v):
    return 'np.array(%r)' % ([float(x) for x in v],)


def quiet(f):
    with contextlib.redirect_stdout(io.StringIO()):
        return f()


def layered(o, md, ws, weights, rates, h, mv, z, t, tpor, xy, por, avp, st, total):
    H = sum(h)
    want = A([[sum(c * md.shape(w, x) * response(r, q, xy) for w, c, r in zip(ws, weights, rates)) for q in tpor] for x in z])
    m = close(por, want, 2e-5, 1e-6)
    if m:
        return 'pore pressure ' + m
    ints = [md.layer_int(w) for w in ws]
    lay = A([sum(c * i * response(r, q, xy) for i, c, r in zip(ints, weights, rates)) for q in t])      # times x layers
    if total:
        m = close(np.ravel(avp), lay.sum(axis=1) / H, 2e-5, 1e-6)
        if m:
            return 'average pore pressure ' + m
    m = close(np.ravel(st), [sum(mm * (level(q, xy) * hh - l) for mm, hh, l in zip(mv, h, row)) for q, row in zip(t, lay)], 2e-5, 1e-5)
    if m:
        return 'settlement ' + m


@check('C32', 'Schiffman and Stein', ss_gen)
def ss(h, mv, kv, top, bot, z, xy, t, tpor, n, imp):
    ht, kt, hb, kb = imp
    zz = [x * sum(h) for x in z] + [0.0, float(np.cumsum(h)[-1])] + ([h[0]] if len(h) > 1 else [])
    txt = 'h=%s\nkv=%s\nmv=%s\nbctop=%d\nbcbot=%d\nn=%d\nz=%s\nt=%s\ntpor=%s\nsurcharge_vs_time=PolyLine(%r, %r)\n' % (arr(h), arr(kv), arr(mv), top, bot, n, arr(zz), arr(sorted(t)), arr(tpor), xy[0], xy[1])
    if top == 3:
        txt += 'htop=%r\nktop=%r\n' % (ht, kt)
    if bot == 3:
        txt += 'hbot=%r\nkbot=%r\n' % (hb, kb)
    o = SchiffmanAndStein1970(txt)
    quiet(o.make_output)
    t = sorted(t)
    md = Modes(h, kv, mv, top, bot, kt / ht, kb / hb)
    ws = md.roots(n)
    co = [np.sum(A(mv) * md.layer_int(w)) / md.size(w) for w in ws]
    r = layered(o, md, ws, co, [w * w for w in ws], h, mv, zz, t, tpor, xy, o.por, o.avp, o.set, True)
    if r:
        return r
    names = {d['name']: d['data'] for d in o._grid_data_dicts}
    for nm, v in (('_data_por', o.por), ('_data_avp', o.avp), ('_data_set', o.set)):
        if close(names[nm], v.T, 1e-12):
            return 'output table ' + nm


def nl_gen(rng, k):
    d = g_layers(rng, k, [(0, 0), (0, 1), (1, 0)])
    d.update(n=rng.choice([1, 3]))
    d['radial'] = None if k % 2 else dict(r0=U(rng, 0.05, 0.2), nn=U(rng, 4, 12), kh=LU(rng, 0.2, 2), nh=rng.choice([1, 2]), rcalc=rng.choice([None, U(rng, 0, 1)]))
    return d


@check('C32', 'Nogami and Li', nl_gen)
def nl(h, mv, kv, top, bot, z, xy, t, tpor, n, radial):
    zz = [x * sum(h) for x in z] + [0.0, float(np.cumsum(h)[-1])] + ([h[0]] if len(h) > 1 else [])
    t = sorted(t)
    txt = 'h=%s\nkv=%s\nmv=%s\nbctop=%d\nbcbot=%d\nnv=%d\nz=%s\nt=%s\ntpor=%s\nsurcharge_vs_time=PolyLine(%r, %r)\n' % (arr(h), arr(kv), arr(mv), top, bot, n, arr(zz), arr(t), arr(tpor), xy[0], xy[1])
    c, rad, sn = [1.0], [1.0], [0.0]
    if radial:
        r0 = radial['r0']
        r1 = r0 * radial['nn']
        # the same coefficient of radial consolidation in every layer: the radial modes decay alike
        f = lambda r, s: sp.jv(0, r / r0 * s) * sp.yv(0, s) - sp.jv(0, s) * sp.yv(0, r / r0 * s)
        g = lambda s: sp.jv(1, r1 / r0 * s) * sp.yv(0, s) - sp.jv(0, s) * sp.yv(1, r1 / r0 * s)
        sn, s, step = [], 1e-4, 0.02 / radial['nn']
        while len(sn) < radial['nh']:
            if g(s) * g(s + step) < 0:
                sn.append(scipy.optimize.brentq(g, s, s + step, xtol=1e-14))
            s += step
        w1 = Modes(h, kv, mv, top, bot).roots(1)[0]
        ch = radial['kh'] * w1 ** 2 * r0 ** 2 / sn[0] ** 2
        kh = [ch * m for m in mv]
        # search fine enough to tell close vertical roots apart
        txt += 'r0=%r\nr1=%r\nkh=%s\nnh=%d\nvertical_roots_dx=1e-4\nvertical_roots_p=1.004\n' % (r0, r1, arr(kh), radial['nh'])
        if radial['rcalc'] is not None:
            rc = r0 + radial['rcalc'] * (r1 - r0)
            txt += 'rcalc=%r\n' % rc
        c, rad = [], []
        I = lambda fn: scipy.integrate.quad(fn, r0, r1, epsabs=0, epsrel=1e-10, limit=200)[0]
        for s in sn:
            c.append(I(lambda r: r * f(r, s)) / I(lambda r: r * f(r, s) ** 2))
            rad.append(f(rc, s) if radial['rcalc'] is not None else I(lambda r: r * f(r, s)) * 2 / (r1 ** 2 - r0 ** 2))
    o = NogamiAndLi2003(txt)
    quiet(o.make_output)
    md = Modes(h, kv, mv, top, bot)
    vs = md.roots(n)
    ws, co, rates = [], [], []
    for s, cc, rr in zip(sn, c, rad):
        for w in vs:
            ws.append(w)
            co.append(cc * rr * np.sum(A(mv) * md.layer_int(w)) / md.size(w))
            rates.append(w * w + (ch * s * s / r0 ** 2 if radial else 0.0))
    r = layered(o, md, ws, co, rates, h, mv, zz, t, tpor, xy, o.por, o.avp, o.set, True)
    if r:
        return r
    names = {d['name']: d['data'] for d in o._grid_data_dicts}
    for nm, v in (('_data_por', o.por), ('_data_avp', o.avp), ('_data_set', o.set)):
        if close(names[nm], v.T, 1e-12):
            return 'output table ' + nm


if __name__ == '__main__':
    main()
