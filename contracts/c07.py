"""C07: the compiled Fortran routines satisfy the same definitions as their Python counterparts (C01, C02, C03, C05, C06).

The Fortran source is transcribed mechanically on every run (dv/fortran.py) and each routine is called both directly and through the
Python function that offers it as implementation='fortran'."""
from speclib import *
from dv.terms import absT
import importlib.util as _iu


def _load(n):
    s = _iu.spec_from_file_location('contract_%s_for_c07' % n, os.path.join(os.path.dirname(os.path.abspath(__file__)), n + '.py'))
    m = _iu.module_from_spec(s)
    s.loader.exec_module(m)
    return m


c01, c02, c03, c05, c06 = [_load(n) for n in ('c01', 'c02', 'c03', 'c05', 'c06')]
x, y, one = c05.x, c05.y, c05.one
EXT = 'geotecha.speccon.ext_integrals.'

suite = Suite('C07')
suite.num = ['num_fortran']
suite.assumptions = c01.suite.assumptions + c02.suite.assumptions[1:] + c03.suite.assumptions[1:] + c05.suite.assumptions + [
    'precondition: neighbouring load times, and neighbouring load magnitudes, are either equal or differ by more than 5e-7 of their sum '
    '(the routines treat closer ones as equal); decay rates real',
    'the Fortran source is transcribed to Python statement by statement on every run (dv/fortran.py refuses what it does not know); dropped: '
    'kind parameters, storage order; the f2py wrapper is taken to behave as documented (extents from the arrays, output arrays returned), '
    'and the module it builds from the current source is evaluated at run time',
]
AREA = {'af': ('dim1sin_af_linear', 'ab'[:1], 'm', c01.af), 'abf': ('dim1sin_abf_linear', 'ab', 'm', c01.abf),
        'D_aDf': ('dim1sin_D_aDf_linear', 'a', 'm', c02.aDf), 'DD_abDDf': ('dim1sin_DD_abDDf_linear', 'ab', 'm', c02.abDDf)}
for nm, ps, spec in c03.CASES:
    AREA[nm] = ('dim1sin_%s_linear' % nm, ''.join(ps), 'v', spec)


def area(nm, direct):
    fn, ps, kind, spec = AREA[nm]
    q = EXT + fn.lower() if direct else INT + fn
    kw = {} if direct else {'implementation': 'fortran'}

    @suite.ob(fn + (' (Fortran)' if direct else '[fortran]'), q, *([] if direct else [EXT + fn.lower()]))
    def f(V):
        n, m = eigen(V)
        names = [p + s for p in ps for s in 'tb']
        L, args = layers(V, *names)

        def go():
            A = V.call(q, m, *args, **kw)
            (prove_matrix if kind == 'm' else prove_vector)(V, A, n, spec(L), nm)
            unchanged(V, *zip(['m'] + names + ['zt', 'zb'], [m] + args))
        V.run(go)


def apart(V, f, N):
    eps = num(Fraction(5, 10 ** 7))
    V.forall(sub(N, one), lambda k: lor(eq(f(k), f(add(k, one))), lt(mul(eps, absT(add(f(k), f(add(k, one))))), absT(sub(f(k), f(add(k, one)))))))


def prove_load(V, r, n, K, N, dT, f, step):
    """f(k, tau): list of load (rate) terms by case; step(k): jump at step k; one term per segment, as defined"""
    V.check('a table', isinstance(r, Arr) and r.ndim == 2)
    V.length('one row per output time', r.dims[0], K)
    V.length('one column per decay rate', r.dims[1], n)
    (i, j), rng = V.idx(K, n)
    t, lam = app('t', i), app('lam', j)
    k, Z = fresh('k', 'I'), num(0)
    xk, xn = x(k), x(add(k, one))
    e = ite(land(lt(xk, xn), lt(xk, t)), calc.integral(lambda z: mul(f(k, z), c05.kernel(dT, lam, t, z)), xk, tm.mint(xn, t)), Z)
    if step is not None:
        e = add(e, ite(land(eq(xk, xn), le(xn, t)), mul(step(k), c05.kernel(dT, lam, t, xk)), Z))
    V.eq('convolution', r.at(i, j), bsum(k, sub(N, one), e), rng)


def is_trig(fn):
    return 'cos' in fn or 'sin' in fn


def load(fn):
    @suite.ob(fn + ' (Fortran)', EXT + fn.lower())
    def g(V):
        N, n, K, xs, ys, lam, t, dT, d = c05.setup(V)
        apart(V, x, N)
        apart(V, y, N)
        om, ph = V.real('omega'), V.real('phase')
        if is_trig(fn):
            f0, step = c06.spec(fn, om, ph)
        else:
            f0, step = (c05.rate, c05.jump) if fn.startswith('ED') else (c05.load, None)

        def f(k, z):
            # one definition; the case of equal magnitudes is named so that it is considered on its own
            e = f0(k, z)
            return e if fn == 'EDload_linear' else ite(eq(y(k), y(add(k, one))), tm.subst(e, {y(add(k, one)): y(k)}), e)

        def go():
            r = V.call(EXT + fn.lower(), xs, ys, *((om, ph) if is_trig(fn) else ()), lam, t, dT)
            prove_load(V, r, n, K, N, dT, f, step)
            unchanged(V, ('x', xs), ('y', ys), ('lam', lam), ('t', t))
        V.run(go)

    @suite.ob(fn + '[fortran]', INT + fn)
    def h(V):
        """the Python function hands its arguments to the routine (under its contract, above) and returns the result"""
        N, n, K, xs, ys, lam, t, dT, d = c05.setup(V)
        om, ph = V.real('omega'), V.real('phase')
        names = ['loadtim', 'loadmag'] + ['omega', 'phase'] * is_trig(fn) + ['eigs', 'tvals', 'dT']
        want = [xs, ys] + [om, ph] * is_trig(fn) + [lam, t, dT]
        mine = xs, ys, lam, t
        out = Arr([plain(K), plain(n)], lambda i, j: app('routine', i, j), 'f')

        def model(I, f, args, kw):
            V.trusted.add(EXT + fn.lower())
            got = take(args, kw, names, {'dT': num(1)})
            for nm, a, b in zip(names, got, want):
                if isinstance(b, Arr):
                    a = a if isinstance(a, Arr) else None
                    V.check('the routine is given ' + nm, a is not None and a.ndim == 1)
                    V.length('the routine is given %s in full' % nm, a.dims[0], b.dims[0].length())
                    (q,), rng = V.idx(b.dims[0].length())
                    V.eq('the routine is given ' + nm, a.at(q), b.at(q), rng)
                else:
                    V.eq('the routine is given ' + nm, ip.lift(a), ip.lift(b))
            return out
        V.I.contracts[EXT + fn.lower()] = model

        def go():
            r = V.call(INT + fn, xs, ys, *((om, ph) if is_trig(fn) else ()), lam, t, dT, implementation='fortran')
            V.check('a table', isinstance(r, Arr) and r.ndim == 2)
            V.length('one row per output time', r.dims[0], K)
            V.length('one column per decay rate', r.dims[1], n)
            (i, j), rng = V.idx(K, n)
            V.eq('the result of the routine', r.at(i, j), app('routine', i, j), rng)
            unchanged(V, ('x', xs), ('y', ys), ('lam', lam), ('t', t))
        V.run(go)


for direct in (True, False):
    for nm in AREA:
        area(nm, direct)
for fn in ('Eload_linear', 'EDload_linear', 'Eload_coslinear', 'EDload_coslinear', 'Eload_sinlinear'):
    load(fn)
