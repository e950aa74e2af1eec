"""Run-time evaluation of the load-convolution contracts (C05, C06) by quadrature."""
import numpy as np
from dv.numh import check, close, main
import geotecha.speccon.integrals as integ
from geotecha.piecewise.piecewise_linear_1d import PolyLine

GX, GW = np.polynomial.legendre.leggauss(60)


def quad(f, a, b):
    z = 0.5 * (b - a) * GX + 0.5 * (b + a)
    return 0.5 * (b - a) * np.sum(GW * f(z))


def gen(rng, rnd):
    n = rng.choice([2, 3, 4, 5, 6])
    x = [rng.choice([0.0, 0.5])]
    while len(x) < n:
        x.append(x[-1] + rng.choice([0.0, 0.25, 0.5, 0.75, 1.25]))
    if x[-1] == x[0]:
        x[-1] += 1.0
    y = [rng.choice([0.0, 1.0, 1.0, rng.uniform(-3, 3)]) for _ in x]
    if rng.random() < 0.2:           # arrays of integers
        x = sorted(rng.randrange(0, 5) for _ in x)
        x[-1] += x[-1] == x[0]
        y = [rng.randrange(-2, 4) for _ in x]
    c = x + [0.5 * (a + b) for a, b in zip(x, x[1:])] + [x[0] - 0.2, x[-1] + 0.7, x[-1] + 3.0]
    return {'x': x, 'y': y, 't': [rng.choice(c) for _ in range(3)], 'lam': sorted(rng.uniform(0.2, 5) for _ in range(rng.choice([1, 2]))),
            'dT': rng.choice([1.0, 0.3, 2.0]), 'om': rng.choice([0.0, 1.0, rng.uniform(-6, 6)]), 'ph': rng.uniform(-3, 3), 'impl': rng.choice(['scalar', 'vectorized', 'fortran'])}


def table(x, y, t, lam, dT, f, rate):
    """f(k, tau): load or its derivative; rate: instantaneous steps count as impulses of f = jump"""
    out = np.zeros((len(t), len(lam)))
    for i, ti in enumerate(t):
        for j, l in enumerate(lam):
            for k in range(len(x) - 1):
                if x[k] == x[k + 1]:
                    if rate is not None and x[k + 1] <= ti:
                        out[i, j] += rate(k) * np.exp(-dT * l * (ti - x[k]))
                elif x[k] < ti:
                    out[i, j] += quad(lambda s: f(k, s) * np.exp(-dT * l * (ti - s)), x[k], min(x[k + 1], ti))
    return out


def run(fn, pfn, x, y, extra, t, lam, dT, impl, want):
    a = [np.array(q) for q in (x, y)]
    b = [np.array(lam), np.array(t)]
    r = fn(*(a + extra + b), dT=dT, implementation=impl)
    for p, q in zip(a + b, (x, y, lam, t)):
        if not np.array_equal(p, q):
            return 'argument modified'
    e = close(r, want, 1e-6, 1e-8)
    if e:
        return '[%s] %s' % (impl, e)
    e = close(pfn(*([PolyLine(*a)] + extra + b), dT=dT, implementation=impl), want, 1e-6, 1e-8)
    return e and 'polyline: ' + e


def amp(x, y):
    return lambda k, s: y[k] + (y[k + 1] - y[k]) * (s - x[k]) / (x[k + 1] - x[k])


def slope(x, y):
    return lambda k: (y[k + 1] - y[k]) / (x[k + 1] - x[k])


@check('C05', 'load', gen)
def t1(x, y, t, lam, dT, om, ph, impl):
    return run(integ.Eload_linear, integ.pEload_linear, x, y, [], t, lam, dT, impl, table(x, y, t, lam, dT, amp(x, y), None))


@check('C05', 'load rate', gen)
def t2(x, y, t, lam, dT, om, ph, impl):
    sl = slope(x, y)
    return run(integ.EDload_linear, integ.pEDload_linear, x, y, [], t, lam, dT, impl,
               table(x, y, t, lam, dT, lambda k, s: sl(k) + 0 * s, lambda k: y[k + 1] - y[k]))


@check('C06', 'cosine load', gen)
def t3(x, y, t, lam, dT, om, ph, impl):
    a = amp(x, y)
    return run(integ.Eload_coslinear, integ.pEload_coslinear, x, y, [om, ph], t, lam, dT, impl,
               table(x, y, t, lam, dT, lambda k, s: a(k, s) * np.cos(om * s + ph), None))


@check('C06', 'sine load', gen)
def t4(x, y, t, lam, dT, om, ph, impl):
    a = amp(x, y)
    return run(integ.Eload_sinlinear, integ.pEload_sinlinear, x, y, [om, ph], t, lam, dT, impl,
               table(x, y, t, lam, dT, lambda k, s: a(k, s) * np.sin(om * s + ph), None))


@check('C06', 'cosine load rate', gen)
def t5(x, y, t, lam, dT, om, ph, impl):
    a, sl = amp(x, y), slope(x, y)
    return run(integ.EDload_coslinear, integ.pEDload_coslinear, x, y, [om, ph], t, lam, dT, impl,
               table(x, y, t, lam, dT, lambda k, s: sl(k) * np.cos(om * s + ph) - a(k, s) * om * np.sin(om * s + ph),
                     lambda k: (y[k + 1] - y[k]) * np.cos(om * x[k] + ph)))


if __name__ == '__main__':
    main()
