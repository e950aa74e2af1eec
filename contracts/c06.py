"""C06: exponential-kernel convolutions of harmonic loads (piecewise linear amplitude times sine or cosine)."""
from speclib import *
import importlib.util as _iu
_s = _iu.spec_from_file_location('contract_c05_shared', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'c05.py'))
c05 = _iu.module_from_spec(_s)
_s.loader.exec_module(c05)
x, y, one = c05.x, c05.y, c05.one

suite = Suite('C06')
suite.num = ['num_loads']
suite.assumptions = c05.suite.assumptions + ['precondition: frequency and phase arbitrary real numbers']


def harmonic(om, ph, trig):
    return lambda tau: trig(add(mul(om, tau), ph))


def spec(fn, om, ph):
    """load (or load rate) on segment k at tau, jump at step k"""
    trig = sin if 'sin' in fn else cos
    h = harmonic(om, ph, trig)
    full = lambda k: (lambda z: mul(c05.load(k, z), h(z)))
    if fn.lstrip('p').startswith('ED'):
        return (lambda k, z: D(full(k))(z)), (lambda k: mul(c05.jump(k), h(x(k))))
    return (lambda k, z: full(k)(z)), None


def mk(fn, impl):
    @suite.ob('%s[%s]' % (fn, impl), INT + fn)
    def g(V):
        N, n, K, xs, ys, lam, t, dT, d = c05.setup(V)
        om, ph = V.real('omega'), V.real('phase')
        f, step = spec(fn, om, ph)

        def go():
            r = V.call(INT + fn, xs, ys, om, ph, lam, t, dT, implementation=impl)
            c05.prove(V, r, n, K, d, dT, f, step)
            unchanged(V, ('x', xs), ('y', ys), ('lam', lam), ('t', t))
        V.run(go)


for impl in ('scalar', 'vectorized'):
    for fn in ('Eload_coslinear', 'EDload_coslinear', 'Eload_sinlinear'):
        mk(fn, impl)


for fn in ('pEload_coslinear', 'pEDload_coslinear', 'pEload_sinlinear'):
    def mk2(fn):
        @suite.ob(fn, INT + fn)
        def poly(V):
            N, n, K, xs, ys, lam, t, dT, d = c05.setup(V)
            om, ph = V.real('omega'), V.real('phase')
            f, step = spec(fn, om, ph)

            def go():
                r = V.call(INT + fn, obj(x=xs, y=ys), om, ph, lam, t, dT)
                c05.prove(V, r, n, K, d, dT, f, step)
            V.run(go)
    mk2(fn)
