"""Run-time evaluation of the constitutive-model contracts (C19-C22)."""
import math
import numpy as np
from dv.numh import check, close, main
from geotecha.constitutive_models import void_ratio_stress as vs, void_ratio_permeability as vk, velocity_hydraulic_gradient as vh, swcc


def shaped(x, kind):
    return float(x[0]) if kind == 's' else np.array(x)


def kinds(rnd):
    return 'as'[rnd % 2]


def deriv(f, x, h=None):
    """five-point central difference, vectorised"""
    x = np.asarray(x, dtype=float)
    h = (1e-3 * np.abs(x) + 1e-9) if h is None else h
    return (-f(x + 2 * h) + 8 * f(x + h) - 8 * f(x - h) + f(x - 2 * h)) / (12 * h)


def same_shape(what, r, x):
    if np.shape(r) != np.shape(x):
        return '%s: result of shape %s for input of shape %s' % (what, np.shape(r), np.shape(x))


def lab(what, msg):
    return msg and '%s: %s' % (what, msg)


def first(*ms):
    for m in ms:
        if m:
            return m


def geo(rng, lo, hi, n=None):
    f = lambda: math.exp(rng.uniform(math.log(lo), math.log(hi)))
    return f() if n is None else [f() for _ in range(n)]


# ---- C19 -------------------------------------------------------------------

def g_av(rng, rnd):
    n = rng.randrange(1, 5)
    return dict(av=geo(rng, 1e-3, 5), siga=geo(rng, 1, 100), ea=rng.uniform(.5, 4), s=geo(rng, 1, 300, n), kind=kinds(rnd))


@check('C19', 'AvSoilModel', g_av)
def t_av(av, siga, ea, s, kind):
    m = vs.AvSoilModel(av=av, siga=siga, ea=ea)
    S = shaped(s, kind)
    e = m.e_from_stress(S)
    return first(lab('line', close(e, ea - av * (np.array(S) - siga))), lab('s->e->s', close(m.stress_from_e(e), S)), same_shape('e', e, S),
                 lab('e->s->e', close(m.e_from_stress(m.stress_from_e(S)), S)),
                 lab('av', close(float(np.ravel(m.av_from_stress(S))[0]), av)), lab('av', close(float(np.ravel(m.av_from_stress())[0]), av)))


def g_cccr(rng, rnd):
    n = rng.randrange(1, 5)
    Cc = geo(rng, .05, 5)
    p = geo(rng, 5, 200, n)
    s = [q if rng.random() < .1 else geo(rng, 1, 400) for q in p]
    return dict(Cc=Cc, Cr=Cc * rng.choice([1.0, .5, .1, rng.uniform(.05, 1)]), siga=geo(rng, 1, 100), ea=rng.uniform(.5, 4), s=s, p=p, kind=kinds(rnd), past=rng.random() < .7)


@check('C19', 'CcCrSoilModel', g_cccr)
def t_cccr(Cc, Cr, siga, ea, s, p, kind, past):
    m = vs.CcCrSoilModel(Cc=Cc, Cr=Cr, siga=siga, ea=ea)
    S, P = shaped(s, kind), shaped(p, kind)
    kw = {'pstress': P} if past else {}
    virgin = lambda z: ea - Cc * np.log10(np.asarray(z) / siga)
    path = (lambda z: np.where(np.asarray(z) >= P, virgin(z), virgin(P) + Cr * np.log10(np.asarray(P) / z))) if past else virgin
    e = m.e_from_stress(S, **kw)
    e0 = virgin(P) + Cr * np.log10(np.asarray(P) / S)
    off = np.abs(np.asarray(S) - P) > 1e-2 * np.asarray(P)
    a = np.asarray(m.av_from_stress(S, **kw))
    return first(lab('e', close(e, path(S))), lab('s->e->s', close(m.stress_from_e(e, **kw), S)), same_shape('e', e, S),
                 lab('e->s->e', close(m.e_from_stress(m.stress_from_e(e0, **kw), **kw), e0)),
                 lab('av', close(np.where(off, a, 0), np.where(off, -deriv(path, S), 0), rtol=1e-6)),
                 lab('scalar stress', close(m.e_from_stress(float(s[0]), **({'pstress': float(p[0])} if past else {})), np.ravel(path(S))[0])))


def g_pw(rng, rnd):
    n = rng.randrange(2, 6)
    sig = [geo(rng, 1, 20)]
    ea = [rng.uniform(3, 5)]
    xlog, ylog = rng.random() < .5, rng.random() < .5
    while len(sig) < n:
        sig.append(sig[-1] * (1 + rng.uniform(.1, 3)))
        ea.append(ea[-1] * rng.uniform(.6, .95))
    fx, fy = (np.log10 if xlog else np.array), (np.log10 if ylog else np.array)
    steep = -np.diff(fy(ea)) / np.diff(fx(sig))
    Cr = float(min(steep)) * rng.choice([.1, .5, .9])
    K = rng.randrange(1, 5)
    lo, hi = sig[0], sig[-1]
    pick = lambda: rng.choice([rng.uniform(lo, hi), rng.uniform(lo, hi), rng.choice(sig)])
    if rng.random() < .3:
        sig, ea = sig[::-1], ea[::-1]
    return dict(sig=sig, ea=ea, Cr=Cr, xlog=xlog, ylog=ylog, s=[pick() for _ in range(K)], p=[pick() for _ in range(K)], kind=kinds(rnd))


@check('C19', 'PwiseLinearSoilModel', g_pw)
def t_pw(sig, ea, Cr, xlog, ylog, s, p, kind):
    x, y = np.array(sig), np.array(ea)
    m = vs.PwiseLinearSoilModel(x, y, Cr, xlog=xlog, ylog=ylog)
    S, P = np.array(s), np.array(p)
    fx, ix = (np.log10, lambda v: 10 ** v) if xlog else (np.asarray, np.asarray)
    fy, iy = (np.log10, lambda v: 10 ** v) if ylog else (np.asarray, np.asarray)
    o = np.argsort(x)
    X, Y = fx(x[o]), fy(y[o])
    line = lambda v: np.interp(fx(v), X, Y)
    virgin = lambda v: iy(line(v))
    path = lambda v: np.where(v >= P, virgin(v), iy(line(P) + Cr * (fx(P) - fx(v))))
    Sx = shaped(s, kind)
    Px = shaped(p, kind)
    sel = (lambda a: float(np.ravel(a)[0])) if kind == 's' else np.asarray
    e0, e1 = m.e_from_stress(Sx), m.e_from_stress(Sx, pstress=Px)
    bad = first(lab('e', close(sel(e0), sel(virgin(S)))), lab('e with past maximum', close(sel(e1), sel(path(S)))),
                lab('s->e->s', close(sel(m.stress_from_e(sel(virgin(S)))), sel(S))),
                lab('s->e->s with past maximum', close(sel(m.stress_from_e(sel(path(S)), pstress=Px)), sel(S))))
    if bad:
        return bad
    Z = S
    off = np.array([min(abs(z - np.array(sig))) > .01 * z and z > min(sig) and abs(z - q) > .01 * z for z, q in zip(S, P)])
    a0, a1 = np.asarray(m.av_from_stress(Z)), np.asarray(m.av_from_stress(Z, pstress=P))
    return first(lab('av', close(np.where(off, a0, 0), np.where(off, -deriv(virgin, Z), 0), rtol=1e-6)),
                 lab('av with past maximum', close(np.where(off, a1, 0), np.where(off, -deriv(path, Z), 0), rtol=1e-6)),
                 None if np.array_equal(x, sig) and np.array_equal(y, ea) else 'data modified')


def g_yg(rng, rnd):
    lam = rng.uniform(.1, .5)
    n = rng.randrange(1, 4)
    s = [geo(rng, 5, 60) for _ in range(n)]
    return dict(lam=lam, kap=lam * rng.uniform(.05, .5), psi=lam * rng.uniform(.02, .1), siga=geo(rng, 5, 50), ea=rng.uniform(1, 3), ta=geo(rng, .1, 10),
                s=s, ocr=[rng.uniform(1, 3) for _ in s], pair=rnd % 6, kind=kinds(rnd // 6), dt=geo(rng, .01, 10),
                steps=[[rng.choice([q, q * rng.uniform(1.01, 1.5), q * rng.uniform(.7, .99)]) for q in s] for _ in range(rng.randrange(1, 4))], dots=geo(rng, .01, 10))


PAIRS = [('e0', 'estress0'), ('e0', 'pstress0'), ('e0', 't0'), ('estress0', 'pstress0'), ('estress0', 't0'), ('pstress0', 't0')]


@check('C19', 'YinAndGrahamSoilModel', g_yg)
def t_yg(s, ocr, pair, kind, dt, steps, dots, **par):
    lam, kap, psi, siga, ea, ta = [par[k] for k in ('lam', 'kap', 'psi', 'siga', 'ea', 'ta')]
    al = (lam - kap) / psi
    S, R = shaped(s, kind), shaped(ocr, kind)
    state = dict(estress0=S, pstress0=S * R, t0=ta * R ** al, e0=ea - lam * np.log(S * R / siga) + kap * np.log(R))
    m = vs.YinAndGrahamSoilModel(**par, **{k: state[k] for k in PAIRS[pair]})
    bad = first(*[lab(k + ' from ' + ', '.join(PAIRS[pair]), close(getattr(m, k), v, rtol=1e-6)) for k, v in state.items()])
    if bad:
        return bad
    tot, cur = 0, np.atleast_1d(S) * 1.0
    es = []
    for q in steps:
        q = np.array(q[:len(cur)])
        if 'estress0' not in PAIRS[pair]:
            # the recovered initial stress equals the stress only up to rounding: no exactly constant stress
            q = np.where(np.abs(q - cur) < 1e-6 * cur, 1.1 * q, q)
        # creep integral over the step, stress changing linearly
        inc = dt / state['t0'] * sum(w / 2 * ((cur + (z + 1) / 2 * (q - cur)) / S) ** al for z, w in zip(*np.polynomial.legendre.leggauss(24)))
        tot = tot + inc
        e = m.e_from_stress(q, dt=dt)
        es.append(np.array(e))
        bad = lab('void ratio', close(e, state['e0'] - kap * np.log(q / S) - psi * np.log(1 + tot), rtol=1e-7))
        bad = bad or lab('compressibility', close(m.av_from_stress(q, estressdot=dots), kap / q + psi / state['t0'] / dots / (1 + tot) * (q / S) ** al, rtol=1e-6))
        if bad:
            return bad
        cur = q
    if not np.array_equal(np.ravel(S), np.ravel(shaped(s, kind))):
        return 'initial state modified'
    m2 = vs.YinAndGrahamSoilModel(**par)
    return first(lab('normally consolidated', close(m2.e_from_stress(S), ea - lam * np.log(S / siga))))


# ---- C20 -------------------------------------------------------------------

def g_ck(rng, rnd):
    n = rng.randrange(1, 5)
    return dict(Ck=geo(rng, .05, 5), ka=geo(rng, 1e-9, 10), ea=rng.uniform(.5, 4), e=[rng.uniform(.3, 5) for _ in range(n)], kind=kinds(rnd))


@check('C20', 'CkPermeabilityModel', g_ck)
def t_ck(Ck, ka, ea, e, kind):
    m = vk.CkPermeabilityModel(Ck=Ck, ka=ka, ea=ea)
    E = shaped(e, kind)
    k = m.k_from_e(E)
    return first(lab('k', close(np.log(k), np.log(ka) + (np.asarray(E) - ea) / Ck * np.log(10))), lab('e->k->e', close(m.e_from_k(k), E)), same_shape('k', k, E),
                 lab('k->e->k', close(np.log(m.k_from_e(m.e_from_k(E))), np.log(E))))


def g_ckc(rng, rnd):
    shape = [[], [1], [rng.randrange(1, 4)], [rng.randrange(1, 4), rng.randrange(1, 4)]][rnd % 4]
    return dict(ka=geo(rng, 1e-9, 10), shape=shape, as_list=rng.random() < .3)


@check('C20', 'ConstantPermeabilityModel', g_ckc)
def t_ckc(ka, shape, as_list):
    m = vk.ConstantPermeabilityModel(ka=ka)
    e = np.ones(shape) * 1.5
    r = m.k_from_e(float(e) if not shape else e.tolist() if as_list else e)
    return close(r, np.ones(shape) * ka)


def g_pk(rng, rnd):
    n = rng.randrange(2, 6)
    k, e = [geo(rng, .1, 1)], [rng.uniform(.5, 1)]
    while len(k) < n:
        k.append(k[-1] * (1 + rng.uniform(.1, 2)))
        e.append(e[-1] + rng.uniform(.1, 1))
    if rng.random() < .3:
        e = e[::-1]
    if rng.random() < .4:
        k, e = k[::-1], e[::-1]
    K = rng.randrange(1, 5)
    pick = lambda a: rng.choice([rng.uniform(min(a), max(a)), rng.choice(a)])
    return dict(k=k, e=e, xlog=rng.random() < .5, ylog=rng.random() < .5, q=[pick(k) for _ in range(K)], w=[pick(e) for _ in range(K)])


@check('C20', 'PwiseLinearPermeabilityModel', g_pk)
def t_pk(k, e, xlog, ylog, q, w):
    a, b = np.array(k), np.array(e)
    m = vk.PwiseLinearPermeabilityModel(a, b, xlog=xlog, ylog=ylog)
    fx, fy = (np.log if xlog else np.asarray), (np.log if ylog else np.asarray)
    o, u = np.argsort(k), np.argsort(e)
    Q, W = np.array(q), np.array(w)
    e1, k1 = m.e_from_k(Q), m.k_from_e(W)
    return first(lab('e', close(fy(e1), np.interp(fx(Q), fx(a[o]), fy(b[o])))), lab('k', close(fx(k1), np.interp(fy(W), fy(b[u]), fx(a[u])))),
                 lab('k->e->k', close(m.k_from_e(e1), Q)), lab('e->k->e', close(m.e_from_k(k1), W)), lab('scalar', close(m.k_from_e(w[0]), k1[0])),
                 None if np.array_equal(a, k) and np.array_equal(b, e) and np.array_equal(Q, q) and np.array_equal(W, w) else 'data modified')


# ---- C21 -------------------------------------------------------------------

def g_darcy(rng, rnd):
    n = rng.randrange(1, 6)
    return dict(k=geo(rng, 1e-3, 10), g=[rng.choice([0.0, rng.uniform(-20, 20), rng.uniform(-1, 1)]) for _ in range(n)], kind=kinds(rnd))


def flow(m, f, s, x, kind):
    X = shaped(x, kind)
    v = m.v_from_i(X)
    ok = np.asarray(X) != 0
    return first(lab('velocity', close(v, f(X))), same_shape('velocity', v, X), lab('inverse', close(m.i_from_v(v), X)),
                 lab('inverse (velocity first)', close(m.v_from_i(m.i_from_v(X)), X)),
                 lab('slope', close(np.where(ok, m.dv_di(X), 0), np.where(ok, s(X), 0))), lab('odd', close(m.v_from_i(-1 * X), -1 * np.asarray(v))))


@check('C21', 'DarcyFlowModel', g_darcy)
def t_darcy(k, g, kind):
    return flow(vh.DarcyFlowModel(k=k), lambda x: k * np.asarray(x), lambda x: k * np.sign(x), g, kind)


CASES = [('kstar', 'n', 'iL'), ('kstar', 'n', 'i0'), ('kstar', 'n', 'klinear'), ('kstar', 'iL', 'i0'), ('kstar', 'iL', 'klinear'),
         ('kstar', 'i0', 'klinear'), ('n', 'iL', 'klinear'), ('n', 'i0', 'klinear'), ('iL', 'i0', 'klinear')]


def g_hans(rng, rnd):
    n = rng.randrange(1, 6)
    iL = geo(rng, .5, 20)
    return dict(kstar=geo(rng, .01, 10), n=rng.uniform(1.05, 2.5), iL=iL, case=rnd % 9,
                g=[rng.choice([0.0, iL, -iL, rng.uniform(-3 * iL, 3 * iL), rng.uniform(-iL, iL)]) for _ in range(n)], kind=kinds(rnd // 9))


@check('C21', 'HansboNonDarcianFlowModel', g_hans)
def t_hans(kstar, n, iL, case, g, kind):
    p = dict(kstar=kstar, n=n, iL=iL, i0=iL * (n - 1) / n, klinear=kstar * n * iL ** (n - 1))
    try:
        m = vh.HansboNonDarcianFlowModel(**{k: p[k] for k in CASES[case]})
    except RuntimeError as e:
        # convergence of the iteration is not part of the property
        return None if case in (4, 5) and 'converge' in str(e) else 'raises %r' % e
    if case in (4, 5):
        # n is found by iteration, and need not be unique: any consistent law is accepted
        q = {k: getattr(m, k) for k in p}
        bad = first(*[lab('given ' + k, close(q[k], p[k])) for k in CASES[case]])
        bad = bad or first(lab('slopes agree', close(q['klinear'], q['kstar'] * q['n'] * q['iL'] ** (q['n'] - 1), rtol=1e-4)), lab('intercept', close(q['i0'], q['iL'] * (q['n'] - 1) / q['n'], rtol=1e-4)))
        return bad
    bad = first(*[lab(k, close(getattr(m, k), v, rtol=1e-6)) for k, v in p.items()])
    f = lambda x: np.where(np.abs(x) < iL, np.sign(x) * kstar * np.abs(x) ** n, np.sign(x) * p['klinear'] * (np.abs(x) - p['i0']))
    s = lambda x: np.where(np.abs(x) < iL, np.sign(x) * n * kstar * np.abs(x) ** (n - 1), np.sign(x) * p['klinear'])
    return bad or lab('vL', close(m.vL, kstar * iL ** n)) or flow(m, f, s, g, kind)


DEG = [(('kstar', 'n', 'iL'), 'n'), (('kstar', 'n', 'iL'), 'iL'), (('kstar', 'n', 'i0'), 'n'), (('kstar', 'n', 'i0'), 'i0'),
       (('kstar', 'n', 'klinear'), 'n'), (('kstar', 'iL', 'klinear'), 'iL'), (('kstar', 'i0', 'klinear'), 'i0'),
       (('n', 'iL', 'klinear'), 'n'), (('n', 'iL', 'klinear'), 'iL'), (('n', 'i0', 'klinear'), 'n'), (('n', 'i0', 'klinear'), 'i0')]


def g_deg(rng, rnd):
    d = g_darcy(rng, rnd)
    return dict(k=d['k'], case=rnd % len(DEG), n=rng.uniform(1, 2), iL=rng.uniform(1, 10), g=[x or 1.0 for x in d['g']], kind=d['kind'])


@check('C21', 'HansboNonDarcianFlowModel (linear cases)', g_deg)
def t_deg(k, case, n, iL, g, kind):
    given, one = DEG[case]
    p = dict(kstar=k, klinear=k, n=n, iL=iL, i0=iL / 2)
    p[one] = 1.0 if one == 'n' else 0.0
    m = vh.HansboNonDarcianFlowModel(**{q: p[q] for q in given})
    return flow(m, lambda x: k * np.asarray(x), lambda x: k * np.sign(x), g, kind)


# ---- C22 -------------------------------------------------------------------

def g_swcc(rng, rnd):
    n = rng.randrange(1, 5)
    return dict(pf=rnd % 4 >= 2, a=geo(rng, .5, 5000), n=rng.uniform(.5, 4), m=rng.uniform(.3, 3), ws=rng.uniform(.2, .9), wr=rng.uniform(0, .1), s1=rng.choice([0.0, rng.uniform(0, .02)]),
                b=rng.uniform(.5, 3), psir=geo(rng, 10, 5000), corr=rng.choice([None, None, 1.0, rng.uniform(.5, 1.5)]), psi=geo(rng, .1, 1e5, n), kind=kinds(rnd))


def curve(pf, a, n, m, ws, wr, s1, b, psir, corr):
    C = (lambda p: 1 - np.log(1 + p / psir) / np.log(1 + 1e6 / psir)) if corr is None else (lambda p: corr)
    if pf:
        return swcc.SWCC_PhamAndFredlund2008(ws, a, b, wr, s1, psir=psir, correction=corr), lambda p: C(p) * ((ws - s1 * np.log10(p) - wr) * a / (p ** b + a) + wr)
    return (swcc.SWCC_FredlundAndXing1994(a=a, n=n, m=m, ws=ws, psir=psir, correction=corr), lambda p: C(p) * ws / np.log(np.e + (p / a) ** n) ** m)


@check('C22', 'curve and slope', g_swcc)
def t_swcc(psi, kind, **kw):
    m, w = curve(**kw)
    x = shaped(psi, kind)
    X = np.asarray(x)
    d = deriv(w, X)
    got = np.asarray(m.dw_dpsi(x))
    v = m.w_from_psi(x)
    bad = first(lab('w', close(v, w(X), rtol=1e-8)), same_shape('w', v, x), lab('slope', close(got * X, d * X, rtol=1e-5)), same_shape('slope', got, x))
    if bad:
        return bad
    if kw['corr'] is None:
        bad = lab('dry', close(m.w_from_psi(1e6), 0.0))
    if not kw['pf']:
        bad = bad or lab('saturated', close(m.w_from_psi(0.0), kw['ws'] * (1 if kw['corr'] is None else kw['corr'])))
    else:
        q = swcc.SWCC_PhamAndFredlund2008(kw['ws'], kw['a'], kw['b'], kw['wr'], kw['s1'])
        bad = bad or lab('default residual suction', close(q.psir, (2.7 * kw['a']) ** (1 / kw['b'])))
    return bad


def g_kpsi(rng, rnd):
    d = g_swcc(rng, rnd)
    if d['kind'] == 'a' and len(d['psi']) == 1:
        d['psi'] += geo(rng, .1, 1e5, 1)
    d.update(aev=geo(rng, 1, 100), npts=rng.choice([1, 5, 40, 500]))
    return d


@check('C22', 'k_from_psi', g_kpsi)
def t_kpsi(psi, kind, aev, npts, **kw):
    m, w = curve(**kw)

    def rule(lo, start):
        d = (np.log(1e6) - np.log(lo)) / npts
        y = np.exp(np.log(lo) + d * (np.arange(npts) + .5))
        return d * np.sum((w(y) - start) * np.asarray(m.dw_dpsi(y)) / y)
    den = rule(aev, w(aev) if kw['pf'] else kw['ws'])
    x = shaped(psi, kind)
    want = np.array([rule(p, w(p)) / den for p in np.ravel(x)]).reshape(np.shape(x))
    return first(lab('k', close(m.k_from_psi(x, aev=aev, npts=npts), want, rtol=1e-6)),
                 lab('one at the air entry value', close(m.k_from_psi(aev, aev=aev, npts=npts), 1.0)) if kw['pf'] else None)


def g_disc(rng, rnd):
    n = rng.randrange(2, 8)
    p, w = [geo(rng, .1, 5)], [rng.uniform(.4, .6)]
    while len(p) < n:
        p.append(p[-1] * rng.uniform(1.3, 8))
        w.append(w[-1] * rng.uniform(.5, .98))
    k = rng.randrange(2, 6)
    q = [rng.choice([rng.uniform(p[0], p[-1]), rng.choice(p[:-1])]) for _ in range(k)]
    return dict(p=p, w=w, q=q, kind=kinds(rnd))


@check('C22', 'kwrel_from_discrete_swcc', g_disc)
def t_disc(p, w, q, kind):
    P, W = np.array(p), np.array(w)
    x = shaped(q, kind)
    dl = np.diff(np.log10(P))
    mid = P[:-1] * 10 ** (dl / 2)
    yb = (W[1:] + W[:-1]) / 2
    sl = np.diff(W) / dl / np.log(10) / mid
    part = lambda s: np.sum((dl * (yb - yb[s]) * sl / mid)[s:])
    den = part(0)
    if abs(den) < 1e-12:
        return
    seg = lambda v: max(k for k in range(len(p) - 1) if p[k] <= v)
    want = np.array([part(seg(v)) / den for v in np.ravel(x)]).reshape(np.shape(x))
    return first(close(swcc.kwrel_from_discrete_swcc(x, P, W), want), None if np.array_equal(P, p) and np.array_equal(W, w) else 'data modified')


def g_air(rng, rnd):
    return dict(q=rng.uniform(.5, 5), S=sorted(rng.uniform(0, 1) for _ in range(4)))


@check('C22', 'karel_air_from_saturation', g_air)
def t_air(q, S):
    f = lambda s: swcc.karel_air_from_saturation(s, qfit=q)
    S = np.array(S)
    v = np.array([f(s) for s in S])
    return first(lab('value', close(v, (1 - S) ** .5 * (1 - S ** (1 / q)) ** (2 * q))), lab('array', close(f(S), v)), lab('dry', close(f(0.0), 1.0)), lab('saturated', close(f(1.0), 0.0)))


if __name__ == '__main__':
    main()
