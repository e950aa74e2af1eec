"""C28: static shapes, moving load positions, moving load deflection, beam model inputs and matrices."""
from specmodel import *
from dv import nplib, calc
from dv.interp import Builtin, Unsupported, LList, Seq, Abstract

suite = Suite('C28')
suite.num = ['num_beam']
SB = 'geotecha.beam_on_foundation.specbeam.'
ML = SB + 'MovingPointLoads'
suite.assumptions = ['numpy.roots returns roots of the polynomial it is given; numpy.linalg.solve returns a solution of the system it is given',
                     'the first two roots returned by numpy.roots are the decaying ones (numeric check only)',
                     'arrays are abstracted as maps over the reals; complex numbers as field elements']
one, Z = num(1), num(0)


def pos(V, *names):
    r = [V.real(n) for n in names]
    V.requires(*[lt(Z, x) for x in r])
    return r


# ---- static deflection shapes
def shape(d, L):
    """deflection at distance d >= 0 from the load"""
    return mul(exp(neg(div(d, L))), add(cos(div(d, L)), sin(div(d, L))))


@suite.ob('static shape of a point load', SB + 'point_load_static_defl_shape_function', SB + 'static_point_load_shape')
def static(V):
    x, xc, d = V.real('x'), V.real('xc'), V.real('d')
    L, = pos(V, 'L')

    def go():
        f = lambda x: V.call(SB + 'point_load_static_defl_shape_function', x, L, xc=xc)
        g = lambda x: V.call(SB + 'static_point_load_shape', x, L)
        V.eq('right of the load', f(x), shape(sub(x, xc), L), [le(xc, x)])
        V.eq('left of the load', f(x), shape(sub(xc, x), L), [le(x, xc)])
        V.eq('symmetric', f(add(xc, d)), f(sub(xc, d)))
        V.eq('one under the load', f(xc), one)
        V.eq('load at the origin by default', V.call(SB + 'point_load_static_defl_shape_function', x, L), g(x))
        V.eq('load at the origin', g(x), shape(x, L), [le(Z, x)])
        V.eq('load at the origin, left', g(x), shape(neg(x), L), [le(x, Z)])
        s = lambda z: shape(z, L)
        V.eq('beam equation away from the load', add(mul(power(L, 4), D(s, 4)(d)), mul(num(4), s(d))), Z)
        V.eq('level under the load', D(s)(Z), Z)
        V.eq('shear jump carries the load', mul(power(L, 3), D(s, 3)(Z)), num(4))
        V.holds('decays', le(f(x), mul(num(2), exp(neg(div(sub(x, xc), L))))), [le(xc, x)])
        V.holds('decays from below', le(mul(num(-2), exp(neg(div(sub(x, xc), L)))), f(x)), [le(xc, x)])
    V.run(go)


@suite.ob('several static loads superpose', SB + 'multi_static')
def superpose(V):
    N, n = V.int('N', 0), V.int('n', 2)
    xc, fr = V.arr('xc', N), V.arr('frel', N)
    w, x0, x1 = [V.real(k) for k in ('wsingle', 'xmin', 'xmax')]
    L, = pos(V, 'L')
    one_load = lambda I, f, args, kw: (lambda b: nplib.elementwise(I, lambda x: app('shape', x, b['L'], b['xc']), [b['x']], 'f'))(I.bind(f, args, kw))

    def go():
        V.I.contracts[SB + 'point_load_static_defl_shape_function'] = one_load
        x, y = V.call(SB + 'multi_static', xc, fr, wsingle=w, xlim=(x0, x1), n=n, L=L)
        V.length('points', x.dims[0], n)
        V.length('deflections', y.dims[0], n)
        (i,), rng = V.idx(n)
        V.eq('equally spaced points', mul(x.at(i), sub(n, one)), add(mul(x0, sub(n, one)), mul(i, sub(x1, x0))), rng)
        k = fresh('k', 'I')
        V.eq('sum over the loads', y.at(i), mul(w, bsum(k, N, mul(fr.at(k), app('shape', x.at(i), L, xc.at(k))))), rng)
    V.run(go)


# ---- moving loads
class Vehicle(object):
    def __init__(self, V, sign):
        self.V = V
        self.N = V.int('N', 1)
        self.x, self.p = V.arr('x', self.N), V.arr('p', self.N)
        for k in 'offset v L t0 x0'.split():
            setattr(self, k, V.real(k))
        V.requires(lt(Z, self.v) if sign > 0 else lt(self.v, Z))
        self.sign = sign

    def make(self, **kw):
        d = dict(offset=self.offset, v=self.v, L=self.L, t0=self.t0, x0=self.x0)
        d.update(kw)
        return self.V.I.call(self.V.fn(ML), [self.x, self.p], d)

    def xt(self, i):
        """offset from the reference point, mirrored when travelling to the left"""
        r = add(self.x.at(i), self.offset)
        return r if self.sign > 0 else neg(r)

    def at(self, i, t, x0=None, t0=None, v=None):
        """position at time t of a vehicle whose reference point is at x0 at t0"""
        return add(self.x0 if x0 is None else x0, add(self.xt(i), mul(self.v if v is None else v, sub(t, self.t0 if t0 is None else t0))))

    def entry(self):
        return self.x0 if self.sign > 0 else add(self.x0, self.L)

    def exit(self):
        return self.x0 if self.sign < 0 else add(self.x0, self.L)

    def get(self, o, k):
        return self.V.I.getattr(o, k)


def both(name, *fns):
    def deco(f):
        for s, nm in ((1, 'to the right'), (-1, 'to the left')):
            suite.ob('%s, travelling %s' % (name, nm), *fns)(lambda V, s=s: f(V, Vehicle(V, s)))
    return deco


@both('creating a vehicle', ML + '.__init__', ML + '.setv', ML + '.getv')
def create(V, w):
    def go():
        o = w.make()
        g = lambda k: w.get(o, k)
        for k in 'offset v L t0 x0'.split():
            V.eq('keeps ' + k, g(k), getattr(w, k))
        (i,), rng = V.idx(w.N)
        for k in 'x p xt start_time end_time xnow pnow'.split():
            V.length('one value per axle: ' + k, g(k).dims[0], w.N)
        V.eq('offset added', g('xt').at(i), add(w.x.at(i), w.offset), rng)
        V.eq('keeps x', g('x').at(i), w.x.at(i), rng)
        V.eq('keeps p', g('p').at(i), w.p.at(i), rng)
        V.eq('axle is at the entry at its start time', w.at(i, g('start_time').at(i), w.entry()), w.entry(), rng)
        V.eq('axle is at the exit at its end time', w.at(i, g('end_time').at(i), w.entry()), w.exit(), rng)
        (j,), r2 = V.idx(w.N)
        V.I.setitem(g('x'), 0, num(5))
        V.eq('own copy of the coordinates', w.x.at(j), app('x', j), r2)
        v2 = V.real('v2')
        V.requires(lt(Z, v2))
        V.I.setattr(o, 'v', v2)
        V.eq('new speed', g('v'), v2)
        V.eq('start time after a change of speed', mul(v2, sub(g('start_time').at(i), w.t0)), neg(add(w.x.at(i), w.offset)), rng)
        V.I.setattr(o, 'v', None)
        V.check('no speed, no times', g('start_time') is None and g('end_time') is None and g('v') is None)
    V.run(go)


@both('position of the axles', ML + '.axle_positions')
def axles(V, w):
    t, a, b, v = V.real('t'), V.real('a'), V.real('b'), V.real('u')
    V.requires(lt(v, Z) if w.sign < 0 else le(Z, v))

    def go():
        o = w.make()
        (i,), rng = V.idx(w.N)
        r = V.I.call(V.I.getattr(o, 'axle_positions'), [], dict(t=t, v0=v, t0=a, x0=b))
        V.length('one position per axle', r.dims[0], w.N)
        V.eq('start plus speed times time', r.at(i), w.at(i, t, b, a, v), rng)
        V.eq('offsets unchanged', w.get(o, 'xt').at(i), add(w.x.at(i), w.offset), rng)
    V.run(go)


@both('loads on the beam', ML + '.point_loads_on_beam', ML + '.axle_positions')
def onbeam(V, w):
    t, = [V.real('t')]

    def go():
        o = w.make()
        (i,), rng = V.idx(w.N)
        V.I.call(V.I.getattr(o, 'point_loads_on_beam'), [V.real('before')], {})
        r, p = V.I.call(V.I.getattr(o, 'point_loads_on_beam'), [t], {})
        V.length('positions', r.dims[0], w.N)
        V.length('loads', p.dims[0], w.N)
        V.eq('start plus speed times time', r.at(i), w.at(i, t, w.entry()), rng)
        s, e = w.get(o, 'start_time').at(i), w.get(o, 'end_time').at(i)
        V.eq('full load while on the beam', p.at(i), w.p.at(i), rng + [le(s, t), le(t, e)])
        V.eq('no load before entering', p.at(i), Z, rng + [lt(t, s)])
        V.eq('no load after leaving', p.at(i), Z, rng + [lt(e, t)])
        V.eq('loads kept', w.get(o, 'p').at(i), w.p.at(i), rng)
    V.run(go)


@both('times at a point', ML + '.time_axles_pass_point', ML + '.time_axles_pass_beam_point')
def passing(V, w):
    x, a, b = V.real('xx'), V.real('a'), V.real('b')

    def go():
        o = w.make()
        (i,), rng = V.idx(w.N)
        r = V.I.call(V.I.getattr(o, 'time_axles_pass_point'), [x], dict(v0=w.v, t0=a, x0=b))
        V.length('one time per axle', r.dims[0], w.N)
        V.eq('axle is at the point at that time', w.at(i, r.at(i), b, a), x, rng)
        r = V.I.call(V.I.getattr(o, 'time_axles_pass_beam_point'), [x], {})
        V.length('one time per axle on the beam', r.dims[0], w.N)
        V.eq('axle is at the point of the beam at that time', w.at(i, r.at(i), w.entry()), x, rng)
    V.run(go)


class Line(Abstract):
    def __init__(self, x, y):
        Abstract.__init__(self, None)
        self.x, self.y = x, y


@both('loads and phases for the spectral solution', ML + '.convert_to_specbeam')
def convert(V, w):
    def go():
        o = w.make()
        for kind in ('own values', 'given values'):
            if kind == 'own values':
                u, kw = w, {}
            else:
                u = Vehicle.__new__(Vehicle)
                u.__dict__.update(w.__dict__)
                for k in 'v L t0 x0'.split():
                    setattr(u, k, V.real(k + '2'))
                V.requires(lt(Z, u.v) if w.sign > 0 else lt(u.v, Z))
                kw = dict(v=u.v, L=u.L, t0=u.t0, x0=u.x0)
            lines, op = V.I.call(V.I.getattr(o, 'convert_to_specbeam'), [], kw)
            V.holds(kind + ': one line per axle', eq(length(V, lines), w.N))
            V.holds(kind + ': one phase per axle', eq(length(V, op), w.N))
            (i,), rng = V.idx(w.N)
            V.I.pc.extend(rng)
            om, ph = item(V, op, i)
            t = V.real('t')
            V.eq(kind + ': speed and phase give the position', add(mul(om, t), ph), u.at(i, t, u.entry()), rng)
            V.eq(kind + ': frequency', om, u.v, rng)
            ln = item(V, lines, i)
            x, y = w.get(ln, 'x'), w.get(ln, 'y')
            V.length(kind + ': four points', x.dims[0], 4)
            V.length(kind + ': four loads', y.dims[0], 4)
            for j, at in enumerate((u.entry(), u.entry(), u.exit(), u.exit())):
                V.eq('%s: time of point %d' % (kind, j), u.at(i, x.at(num(j)), u.entry()), at, rng)
                V.eq('%s: load at point %d' % (kind, j), y.at(num(j)), w.p.at(i) if j in (1, 2) else Z, rng)
    V.run(go)


@suite.ob('a standing vehicle is refused', ML + '.convert_to_specbeam', ML + '.time_axles_pass_beam_point')
def standing(V):
    w = Vehicle(V, 1)

    def go():
        o = w.make()
        V.raises('no phases', lambda: V.I.call(V.I.getattr(o, 'convert_to_specbeam'), [], dict(v=0)), 'ValueError')
    V.run(go)


# ---- deflection under a moving load
def roots_model(V, seen):
    """numpy.roots: each member of the result satisfies the polynomial (see Infinite.check)"""
    def roots(p, *a):
        c = [num(x) for x in V.I.iter_concrete(p)]
        k = len(seen)
        r = [var('root%d_%d' % (k, i)) for i in range(len(c) - 1)]
        seen.append((c, r))
        return nplib.toarr(V.I, LList(list(r)))
    return Builtin(roots, 'roots')


def solve_model(V, seen):
    """numpy.linalg.solve: a solution of the system"""
    def solve(M, b):
        M, b = nplib.toarr(V.I, M), nplib.toarr(V.I, b)
        n = len(V.I.iter_concrete(b))
        x = [var('A%d_%d' % (len(seen), i)) for i in range(n)]
        rows = [([M.at(num(i), num(j)) for j in range(n)], b.at(num(i))) for i in range(n)]
        seen.append((rows, x))
        return nplib.toarr(V.I, LList(list(x)))
    return Builtin(solve, 'solve')


class Infinite(object):
    """the deflection of an infinite beam under a moving load, as the code computes it"""
    def __init__(self, V):
        self.V = V
        self.polys, self.systems = [], []
        np = V.I.import_mod('numpy')
        np.d['roots'] = roots_model(V, self.polys)
        np.d['linalg'].d['solve'] = solve_model(V, self.systems)

    def check(self, alp, bet, s, disp, i, rng):
        V = self.V
        V.check('one polynomial, one system', len(self.polys) == 1 and len(self.systems) == 1)
        (c, g), (rows, A) = self.polys[0], self.systems[0]
        for k, (a, b) in enumerate(zip(c, (one, Z, mul(num(4), power(alp, 2)), mul(num(-8), mul(alp, bet)), num(4)))):
            V.eq('characteristic polynomial, coefficient %d' % k, a, b)
        V.check('fourth order', len(c) == 5 and len(A) == 4)
        front = lambda z: add(*[mul(A[k], exp(mul(z, g[k]))) for k in (0, 1)])
        back = lambda z: add(*[mul(A[k], exp(mul(z, g[k]))) for k in (2, 3)])
        for k, (row, r) in enumerate(rows):
            # the system solved is continuity of the k-th derivative at the load, jump 8 in the third
            f = lambda coef, z: add(*[mul(coef[j], mul(num(1 if j < 2 else -1), power(g[j], k))) for j in range(4)])
            V.eq('condition %d at the load' % k, sub(add(*[mul(x, a) for x, a in zip(row, A)]), r),
                 sub(sub(D(front, k)(Z) if k else front(Z), D(back, k)(Z) if k else back(Z)), num(8 if k == 3 else 0)))
        x = s.at(i)
        V.eq('ahead of the load', disp.at(i), front(x), rng + [le(Z, x)])
        V.eq('behind the load', disp.at(i), back(x), rng + [lt(x, Z)])
        z = var('zeta')

        def p(x):
            """zero at the roots, by contract"""
            r = Z
            for a in c:
                r = add(mul(r, x), a)
            return r
        for nm, f, ks in (('ahead', front, (0, 1)), ('behind', back, (2, 3))):
            V.eq('beam equation ' + nm, add(D(f, 4)(z), mul(c[2], D(f, 2)(z)), mul(c[3], D(f)(z)), mul(num(4), f(z))),
                 add(*[mul(A[k], exp(mul(z, g[k])), p(g[k])) for k in ks]))


@suite.ob('deflection of an infinite beam under a moving load', SB + 'moving_load_on_beam_on_elastic_foundation')
def moving(V):
    alp, bet, a, b = [V.real(k) for k in ('alp', 'bet', 'smin', 'smax')]
    n = V.int('n', 2)

    def go():
        w = Infinite(V)
        s, d = V.call(SB + 'moving_load_on_beam_on_elastic_foundation', alp, bet, slim=(a, b), npts=n)
        V.length('points', s.dims[0], n)
        V.length('deflections', d.dims[0], n)
        (i,), rng = V.idx(n)
        V.eq('equally spaced points', mul(s.at(i), sub(n, one)), add(mul(a, sub(n, one)), mul(i, sub(b, a))), rng)
        w.check(alp, bet, s, d, i, rng)
    V.run(go)


def capture_max(V, seen):
    def mx(a, *r):
        seen.append(nplib.toarr(V.I, a))
        return app('largest', num(len(seen)))
    V.I.import_mod('numpy').d['max'] = V.I.import_mod('numpy').d['amax'] = Builtin(mx, 'max')


@suite.ob('amplification factor relative to the reference stiffness', SB + 'DAFinfinite')
def daf(V):
    alp, bet, k = V.real('alp'), V.real('bet'), V.real('k')
    V.requires(lt(Z, k))

    def go():
        calls, seen = [], []

        def model(I, f, args, kw):
            b = I.bind(f, args, kw)
            calls.append(b)
            n = plain(num(b['npts']))
            return (Arr([n], lambda i: app('s', i), 'c'), Arr([n], lambda i: app('disp', i), 'c'))
        V.I.contracts[SB + 'moving_load_on_beam_on_elastic_foundation'] = model
        capture_max(V, seen)
        r = V.call(SB + 'DAFinfinite', alp, bet, k)
        V.check('one deflection line', len(calls) == 1 and len(seen) == 1)
        c = calls[0]
        V.eq('speed ratio at that stiffness', mul(c['alp'], power(k, Fraction(1, 4))), alp)
        V.eq('damping ratio at that stiffness', mul(c['bet'], power(k, Fraction(1, 2))), bet)
        V.eq('largest deflection', seen[0].at(num(7)), app('disp', num(7)))
        V.eq('scaled to the reference deflection', mul(r, power(k, Fraction(3, 4))), app('largest', num(1)))
        lo, hi = V.I.iter_concrete(c['slim'])
        V.check('the load is within the line', num(lo).args[0] < 0 < num(hi).args[0])
    V.run(go)


@suite.ob('relative amplification factor, one function version', SB + 'DAFrelative')
def daf2(V):
    alp, bet, k = V.real('alp'), V.real('bet'), V.real('k')
    V.requires(lt(Z, k))

    def go():
        seen = []
        w = Infinite(V)
        capture_max(V, seen)
        n, lines = V.int('n', 2), []

        def linspace(a, b, m=50, dtype=None):
            lines.append((num(a), num(b)))
            return Arr([plain(n)], lambda i: app('s', i), 'c')
        V.I.import_mod('numpy').d['linspace'] = Builtin(linspace, 'linspace')
        r = V.call(SB + 'DAFrelative', alp, bet, k)
        V.check('one deflection line', len(seen) == 1 and len(lines) == 1)
        d, (lo, hi) = seen[0], lines[0]
        V.check('the load is within the line', lo.args[0] < 0 < hi.args[0])
        (i,), rng = V.idx(n)
        s = Arr([plain(n)], lambda i: app('s', i), 'c')
        V.length('deflections', d.dims[0], n)
        c = w.polys[0][0]
        V.eq('scaled to the reference deflection', mul(r, power(k, Fraction(3, 4))), app('largest', num(1)))
        w.check(div(alp, power(k, Fraction(1, 4))), div(bet, power(k, Fraction(1, 2))), s, d, i, rng)
    V.run(go)


# ---- transitions
@suite.ob('smooth transition and its inverses', SB + 'tanhtran', SB + 'tanhtrani', SB + 'tanhtranib')
def tanh(V):
    x, y, a, b = [V.real(k) for k in 'x y a b'.split()]
    V.requires(lt(Z, b))
    u = div(sub(y, num(Fraction(1, 2))), num(Fraction(1, 2)))
    off = lnot(eq(log(div(add(one, u), sub(one, u))), Z))     # y is not 1/2

    def go():
        f = lambda x, a, b: V.call(SB + 'tanhtran', x, a, b)
        V.eq('half way at the position', f(a, a, b), num(Fraction(1, 2)))
        V.eq('symmetric', add(f(add(a, x), a, b), f(sub(a, x), a, b)), one)
        V.holds('between 0 and 1', land(le(Z, f(x, a, b)), le(f(x, a, b), one)))
        yy = [lt(Z, y), lt(y, one)]
        V.eq('inverse', f(V.call(SB + 'tanhtrani', y, a, b), a, b), y, yy)
        z = add(a, x)
        bb = V.call(SB + 'tanhtranib', z, y, a)
        V.eq('smoothing through a point', f(z, a, bb), y, yy + [off, lnot(eq(x, Z))])
    V.run(go)


@suite.ob('reverse curve transition', SB + 'reverse_curve_transition')
def curve(V):
    x1, y1, x2, y2 = [V.real(k) for k in 'x1 y1 x2 y2'.split()]
    n = V.int('n', 1)
    x = V.arr('x', n)
    V.requires(lnot(eq(x1, x2)))

    def go():
        y = V.call(SB + 'reverse_curve_transition', x, x1, y1, x2, y2)
        V.length('one value per point', y.dims[0], n)
        (i,), rng = V.idx(n)
        z, v = x.at(i), y.at(i)
        up = lt(x1, x2)
        lo, hi, ya, yb = ite(up, x1, x2), ite(up, x2, x1), ite(up, y1, y2), ite(up, y2, y1)
        V.eq('level before the transition', v, ya, rng + [le(z, lo)])
        V.eq('level after the transition', v, yb, rng + [le(hi, z)])
        h, L = ite(lt(y1, y2), sub(y2, y1), sub(y1, y2)), sub(hi, lo)
        R = div(L, mul(num(2), sin(mul(num(2), app('atan', div(h, L))))))
        drop = lambda a: sub(R, sqrt(sub(power(R, 2), power(sub(z, a), 2))))
        sg = ite(lt(ya, yb), one, num(-1))
        mid = div(add(x1, x2), num(2))
        inside = [lt(lo, z), lt(z, hi), lnot(eq(y1, y2))]
        V.eq('first arc, level where it starts', v, add(ya, mul(sg, drop(lo))), rng + inside + [lt(z, mid)])
        V.eq('second arc, level where it ends', v, sub(yb, mul(sg, drop(hi))), rng + inside + [le(mid, z)])
    V.run(go)


# ---- the beam model

BM = SB + 'SpecBeam'
PROPS = 'Ebar Ibar Abar rhobar k1bar k3bar mubar'.split()


class Beam(Model):
    def __init__(self, V):
        Model.__init__(self, V, BM)
        self.beta = V.arr('beta', self.n)
        for name, op in (('pdim1sin_DD_abDDf_linear', 'DDSinabDDSin'),):
            def f(b, op=op):
                h = self.functions(b['a'], b['b'])
                m = self.vec(b['m'])
                return Arr([m.dims[0], m.dims[0]], lambda i, j: app(op, ip.lift(m.at(i)), ip.lift(m.at(j)), mul(*h)))
            self.model(INT + name, f)

    def bare(self, **at):
        o = Obj(self.cls_model)
        d = dict(nterms=self.n, beta=self.beta, implementation='vectorized')
        d.update({k: self.poly(k) for k in PROPS})
        d.update(at)
        for k, v in d.items():
            self.I.setattr(o, k, v)
        return o

    def call(self, o, name, *args, **kw):
        return self.I.call(self.I.getattr(o, name), list(args), kw)

    def matrix(self, what, got, n, want):
        got = nplib.toarr(self.I, got)
        V = self.V
        V.length('rows of ' + what, got.dims[0], n)
        V.length('columns of ' + what, got.dims[1], n)
        (i, j), rng = V.idx(n, n)
        V.eq(what, got.at(i, j), want(i, j), rng)


def weak(w):
    """entries of the mass, stiffness and damping matrices"""
    b = lambda i: app('beta', i)
    h = lambda *ks: mul(*[value(var(k)) for k in ks]) if len(ks) > 1 else value(var(ks[0]))
    return (lambda i, j: app('SinSin', b(i), b(j), h('rhobar', 'Abar')),
            lambda i, j: add(mul(power(var('kf'), 2), app('DDSinabDDSin', b(i), b(j), h('Ebar', 'Ibar'))), mul(var('k1'), app('SinSin', b(i), b(j), h('k1bar')))),
            lambda i, j: mul(var('mu'), app('SinSin', b(i), b(j), h('mubar'))))


def norms(V):
    return dict(kf=V.real('kf'), k1_norm=V.real('k1'), mu_norm=V.real('mu'), k3_norm=V.real('k3'))


@suite.ob('beam: spectral matrices', BM + '.time_independant_matrices')
def matrices(V):
    w = Beam(V)
    nq = V.int('nq', 1)
    kn = norms(V)

    def go():
        o = w.bare(xj=V.arr('xj', nq), **kn)
        w.call(o, 'time_independant_matrices')
        M, K, C = weak(w)
        w.matrix('mass', w.get(o, 'lam_qdotdot'), w.n, M)
        w.matrix('stiffness', w.get(o, 'psi_q'), w.n, lambda i, j: neg(K(i, j)))
        w.matrix('damping', w.get(o, 'psi_qdot'), w.n, lambda i, j: neg(C(i, j)))
        (i,), rng = V.idx(nq)
        V.eq('nonlinear stiffness at the quadrature points', nplib.toarr(V.I, w.get(o, 'k3barj')).at(i), app('before', value(var('k3bar')), app('xj', i)), rng)
    V.run(go)


def quadrants(V, w, what, got, want):
    got = nplib.toarr(V.I, got)
    n = w.n
    for d in got.dims:
        V.length('size of ' + what, d, mul(num(2), n))
    (i, j), rng = V.idx(n, n)
    for a in range(2):
        for b in range(2):
            V.eq('%s, block %d %d' % (what, a, b), got.at(add(i, n) if a else i, add(j, n) if b else j), want[a][b](i, j), rng)


ident = lambda i, j: ite(eq(i, j), one, Z)
zero2 = lambda i, j: Z


@suite.ob('beam: first order form of the equation of motion', BM + '._make_gam', BM + '._make_psi')
def blocks(V):
    w = Beam(V)
    ms = [V.arr2(k, w.n, w.n) for k in ('M', 'K', 'C')]

    def go():
        o = w.bare(lam_qdotdot=ms[0], psi_q=ms[1], psi_qdot=ms[2])
        w.call(o, '_make_gam')
        w.call(o, '_make_psi')
        M, K, C = [lambda i, j, k=k: app(k, i, j) for k in ('M', 'K', 'C')]
        quadrants(V, w, 'gam', w.get(o, 'gam'), [[ident, zero2], [zero2, M]])
        quadrants(V, w, 'psi', w.get(o, 'psi'), [[zero2, lambda i, j: neg(ident(i, j))], [K, C]])
    V.run(go)


@suite.ob('beam: modes of the first order form', BM + '._make_eigs_and_v')
def beam_modes(V):
    w = Beam(V)
    G, P = V.arr2('gam', w.n, w.n), V.arr2('psi', w.n, w.n)

    def go():
        o = w.bare(gam=G, psi=P)
        w.call(o, '_make_eigs_and_v')
        modes(w, V, o, G, P)
    V.run(go)


@suite.ob('beam: trial functions and deflection', BM + '.phiSS', BM + '.w')
def trial(V):
    w = Beam(V)
    q, x = V.arr('q', w.n), V.real('x')

    def go():
        o = w.bare()
        V.I.setattr(o, 'phi', V.I.getattr(o, 'phiSS'))
        k = fresh('k', 'I')
        V.eq('sum of sines', w.call(o, 'w', q, x), bsum(k, w.n, mul(q.at(k), sin(mul(app('beta', k), x)))))
    V.run(go)



@suite.ob('beam: load terms of the analytical solution', BM + '.make_E_Igamv_the', BM + '._make_E_Igamv_the_mvpl', BM + '._make_E_Igamv_the_stationary',
          BM + '.make_time_dependent_arrays')
def load_terms(V):
    w = Beam(V)
    n2 = mul(num(2), w.n)
    T = w.T
    G, S = V.int('G', 1), V.int('S', 1)
    M, lam = V.arr('mm', n2), V.arr('lam2', n2)
    Ig, v = V.arr2('Ig2', n2, n2), V.arr2('v', n2, n2)
    calls = {}

    def catch(name):
        def f(b):
            calls[name] = b
            return Arr([plain(n2), plain(T)], lambda i, k: app(name, i, k))
        w.model(S1 + 'dim1sin_E_Igamv_the_' + name, f)

    def go():
        for name in ('mvpl', 'deltamag_linear'):
            catch(name)
        for mv, st in ((1, 0), (0, 1), (1, 1), (0, 0)):
            calls.clear()
            groups, xs, hist, om = w.tokens('group', G), LList(Seq(S, lambda i: app('xs', i))), w.tokens('hist', S), w.tokens('om', S)
            o = w.bare(beta_block=M, eigs=lam, tvals_norm=w.t, Igamv=Ig, v=v, has_moving_loads=bool(mv), has_stationary_loads=bool(st),
                       moving_loads_norm=groups, stationary_loads_x_norm=xs, stationary_loads_vs_t_norm=hist, stationary_loads_omega_phase_norm=om)
            w.call(o, 'make_time_dependent_arrays')
            E, R = [nplib.toarr(V.I, w.get(o, k)) for k in ('E_Igamv_the', 'v_E_Igamv_the')]
            (i, k), rng = V.idx(n2, T)
            want = add(app('mvpl', i, k) if mv else Z, app('deltamag_linear', i, k) if st else Z)
            V.eq('sum of the load terms', E.at(i, k), want, rng)
            j = fresh('j', 'I')
            V.eq('coefficients of the modes', R.at(i, k), bsum(j, n2, mul(app('v', i, j), E.at(j, k))), rng)
            V.check('one call per load type', set(calls) == {n for n, u in (('mvpl', mv), ('deltamag_linear', st)) if u})
            for name, b in calls.items():
                for key, x in (('m', M), ('eigs', lam), ('tvals', w.t), ('Igamv', Ig)):
                    V.eq('%s: argument %s' % (name, key), w.term(b[key]), w.term(x))
                V.eq(name + ': time factor', b['dT'], one)
                z = b['theta_zero_indexes']
                V.check(name + ': loads act on the second half of the equations', isinstance(z, slice) and z.start in (None, 0) and z.step is None)
                V.eq(name + ': first half without load', z.stop, w.n)
            if mv:
                V.eq('moving loads', w.term(list(calls['mvpl'].values())[4]), w.term(groups))
            if st:
                b = list(calls['deltamag_linear'].values())
                for name, a, x in (('positions', b[4], xs), ('histories', b[6], hist), ('frequencies', b[7], om)):
                    V.eq('stationary loads: ' + name, w.term(a), w.term(x))
                V.holds('stationary loads: one factor per load', eq(length(V, b[5]), S))
                (s,), r2 = V.idx(S)
                mark = len(V.I.pc)
                V.I.pc.extend(r2)
                V.eq('stationary loads: unit factor', item(V, b[5], s), one)
                del V.I.pc[mark:]
    V.run(go)


@suite.ob('beam: analytical solution solves the assembled equations', BM + '.runme')
def run_analytical(V):
    w = Beam(V)
    nq, X = V.int('nq', 1), V.int('X', 1)
    kn = norms(V)
    L = V.real('L')
    steps = []

    def go():
        del steps[:]
        for name in ('_make_eigs_and_v', 'make_time_dependent_arrays', 'make_output'):
            def f(I, fn, args, kw, name=name):
                steps.append(name)
                if name == 'make_output':
                    I.setattr(args[0], 'defl_norm', Arr([plain(X), plain(w.T)], lambda i, k: app('defl', i, k)))
            V.I.contracts[BM + '.' + name] = f
        o = w.bare(xj=V.arr('xj', nq), use_analytical=True, force_calc=True, L=L, **kn)
        w.call(o, 'runme')
        V.check('eigenvalues, load terms, output in order', steps == ['_make_eigs_and_v', 'make_time_dependent_arrays', 'make_output'])
        M, K, C = weak(w)
        quadrants(V, w, 'gam', w.get(o, 'gam'), [[ident, zero2], [zero2, M]])
        quadrants(V, w, 'psi', w.get(o, 'psi'), [[zero2, lambda i, j: neg(ident(i, j))], [K, C]])
        bb = nplib.toarr(V.I, w.get(o, 'beta_block'))
        V.length('two blocks of wave numbers', bb.dims[0], mul(num(2), w.n))
        (i,), rng = V.idx(w.n)
        V.eq('wave numbers of the first block', bb.at(i), app('beta', i), rng)
        V.eq('wave numbers of the second block', bb.at(add(w.n, i)), app('beta', i), rng)
        (a, k), r2 = V.idx(X, w.T)
        V.eq('deflection in units of length', nplib.toarr(V.I, w.get(o, 'defl')).at(a, k), mul(L, app('defl', a, k)), r2)
    V.run(go)


@suite.ob('beam: deflection from the coefficients of the modes', BM + '._make_defl', BM + '.make_output')
def beam_defl(V):
    w = Beam(V)
    n2, X = mul(num(2), w.n), V.int('X', 2)
    L, vE = V.real('L'), V.arr2('vE', n2, w.T)
    xs = V.arr('xs', X)

    def go():
        def f(b):
            V.eq('wave numbers', w.term(b['m']), w.term(w.beta))
            V.eq('output positions', w.term(b['outz']), w.term(xs))
            V.eq('output times', w.term(b['tvals']), w.term(w.t))
            V.eq('pinned ends', b['drn'], Z)
            M = nplib.toarr(V.I, b['v_E_Igamv_the'])
            V.length('deflection modes only', M.dims[0], w.n)
            V.length('all times', M.dims[1], w.T)
            V.check('no boundary values', all(b[k] is None for k in b if 'vs_time' in k or 'omega' in k))
            j = fresh('j', 'I')
            return Arr([plain(X), plain(w.T)], lambda i, k: bsum(j, w.n, mul(sin(mul(app('beta', j), app('xs', i))), M.at(j, k))))
        w.model(S1 + 'dim1sin_f', f)
        np = V.I.import_mod('numpy')
        part = lambda nm: Builtin(lambda a: nplib.elementwise(V.I, lambda x: app(nm, x), [a], 'f'), nm)
        np.d['imag'], np.d['real'] = part('Im'), part('Re')
        np.d['allclose'] = Builtin(lambda *a, **kw: V.I.decide(app('negligible', sort='B')), 'allclose')
        o = w.bare(xvals_norm=xs, tvals_norm=w.t, v_E_Igamv_the=vE, L=L)
        w.call(o, 'make_output')
        (i, k), rng = V.idx(X, w.T)
        j = fresh('j', 'I')
        want = bsum(j, w.n, mul(sin(mul(app('beta', j), app('xs', i))), app('vE', j, k)))
        want = app('Re', want)
        V.eq('normalised deflection', nplib.toarr(V.I, w.get(o, 'defl_norm')).at(i, k), want, rng)
        V.eq('deflection in units of length', nplib.toarr(V.I, w.get(o, 'defl')).at(i, k), mul(L, want), rng)
    V.run(go, raises=lambda o, pc: o.value.tname == 'ValueError' and lnot(app('negligible', sort='B')) in pc)


RAW = 'E I rho A L k1 k3 mu'.split()


def raw(V):
    r = {k: V.real('in_' + k) for k in RAW}
    V.requires(*[lt(Z, x) for k, x in r.items() if k not in ('k3', 'mu', 'k1')])
    return r


def speed(r):
    """time is measured in L / sqrt(E / rho)"""
    return sqrt(div(r['E'], r['rho']))


@suite.ob('beam: normalised properties from raw ones', BM + '.__init__')
def scale_props(V):
    w = Beam(V)
    r = raw(V)
    X = V.int('X', 1)
    xs, ts = V.arr('xs', X), w.t

    def go():
        o = V.I.call(V.fn(BM), [], dict(nterms=w.n, nquad=None, tvals=ts, xvals=xs, moving_loads_x=None, **r))
        g = lambda k: w.get(o, k)
        E, I_, rho, A, L = [r[k] for k in ('E', 'I', 'rho', 'A', 'L')]
        V.eq('kf', g('kf'), div(sqrt(div(I_, A)), L))
        V.eq('k1_norm', g('k1_norm'), div(mul(r['k1'], power(L, 2)), mul(E, A)))
        V.eq('k3_norm', g('k3_norm'), div(mul(r['k3'], power(L, 4)), mul(E, A)))
        V.eq('mu_norm', mul(g('mu_norm'), mul(A, sqrt(mul(rho, E)))), mul(r['mu'], L))
        (k,), rng = V.idx(w.T)
        V.eq('tvals_norm', g('tvals_norm').at(k), div(mul(app('t', k), speed(r)), L), rng)
        (i,), rng = V.idx(X)
        V.eq('xvals_norm', g('xvals_norm').at(i), div(app('xs', i), L), rng)
        (i,), rng = V.idx(w.n)
        V.length('one wave number per term', g('beta').dims[0], w.n)
        V.eq('wave numbers of pinned ends', g('beta').at(i), mul(tm.PI, add(i, one)), rng)
        V.eq('sine trial functions', V.I.call(g('phi'), [V.real('x'), V.real('b')]), sin(mul(V.real('x'), V.real('b'))))
        V.check('no loads', g('has_moving_loads') is False and g('has_stationary_loads') is False)
    V.run(go)


def groups_of(V, name, G):
    return LList(Seq(G, lambda i: LList(Seq(app(name + '#', i, sort='I'), lambda j: app(name, i, j)))))


def mk_moving(kind, given):
    @suite.ob('beam: moving loads from %s values%s' % (kind, ' with ' + ' '.join(given) if given else ''), BM + '.__init__')
    def f(V):
        w = Beam(V)
        r = raw(V)
        G = V.int('G', 1)
        norm = kind == 'normalised'
        sfx = '_norm' if norm else ''
        c = speed(r)
        scale = dict(x=div(one, r['L']), offset=div(one, r['L']), x0=div(one, r['L']), L=div(one, r['L']), v=div(one, c),
                     t0=div(c, r['L']), Fz=div(one, mul(r['E'], r['A'])))
        V.F.gen(lambda apps: [le(Z, a) for a in apps if a.op == 'app' and a.args[0] in ('mlx#', 'mlFz#')])

        def go():
            kw = dict(nterms=w.n, nquad=None, tvals=w.t, xvals=V.arr('xs', 1), **r)
            for k in ['x', 'Fz'] + ['v'] + given:
                kw['moving_loads_%s%s' % (k, sfx)] = groups_of(V, 'ml' + k, G) if k in ('x', 'Fz') else LList(Seq(G, lambda i, k=k: app('ml' + k, i)))
            w.model(ML + '.__init__', lambda b: [V.I.setattr(b['self'], 'in_' + k, v) for k, v in b.items() if k != 'self'] and None)
            o = V.I.call(V.fn(BM), [], kw)
            (i,), rng = V.idx(G)
            default = dict(offset=Z, t0=Z, x0=Z, L=one)
            for which in ('moving_loads_norm',) + (() if norm else ('moving_loads',)):
                ms = w.get(o, which)
                V.holds(which + ': one vehicle per group', eq(length(V, ms), G))
                mark = len(V.I.pc)
                V.I.pc.extend(rng)
                m = item(V, ms, i)
                for k, a in (('x', 'x'), ('Fz', 'p'), ('v', 'v'), ('offset', 'offset'), ('t0', 't0'), ('x0', 'x0'), ('L', 'L')):
                    got = w.get(m, 'in_' + a)
                    s = one if norm or which == 'moving_loads' else scale[k]
                    if k in ('x', 'Fz'):
                        V.holds('%s: one %s per axle' % (which, k), eq(length(V, got), app('ml%s#' % k, i, sort='I')))
                        (j,), r2 = V.idx(app('ml%s#' % k, i, sort='I'))
                        V.I.pc.extend(r2)
                        V.eq('%s: %s of an axle' % (which, k), item(V, got, j), mul(s, app('ml' + k, i, j)))
                    elif k in given or k == 'v':
                        V.eq('%s: %s' % (which, k), got, mul(s, app('ml' + k, i)))
                    else:
                        V.eq('%s: default %s' % (which, k), got, r['L'] if which == 'moving_loads' and k == 'L' else default[k])
                del V.I.pc[mark:]
        V.run(go)


mk_moving('raw', [])
mk_moving('raw', ['offset', 't0', 'x0', 'L'])
mk_moving('raw', ['t0'])
mk_moving('normalised', [])
mk_moving('normalised', ['offset', 't0', 'x0', 'L'])


def mk_stationary(freq):
    @suite.ob('beam: stationary loads from raw values%s' % (('', ' with frequencies', ', one of two cyclic')[freq]), BM + '.__init__')
    def f(V):
        w = Beam(V)
        r = raw(V)
        S = V.int('S', 1) if freq < 2 else num(2)

        def go():
            seq = lambda f: LList(Seq(S, f)) if freq < 2 else LList([f(num(0)), f(one)])
            kw = dict(nterms=w.n, nquad=None, tvals=w.t, xvals=V.arr('xs', 1), **r)
            kw['stationary_loads_x'] = seq(lambda i: app('sx', i))

            def history(i):
                o = w.poly(app('h', i))
                o.d['x'] = Arr([plain(app('h#', i, sort='I'))], lambda j: app('hx', i, j))
                o.d['y'] = Arr([plain(app('h#', i, sort='I'))], lambda j: app('hy', i, j))
                return o
            kw['stationary_loads_vs_t'] = seq(history)

            def made(b):
                V.I.setattr(b['self'], 'in_', b['args'])
            w.model(PLQ + '.__init__', made)
            if freq:
                kw['stationary_loads_omega_phase'] = LList(Seq(S, lambda i: (app('fom', i), app('fph', i)))) if freq == 1 else LList([None, (app('fom', one), app('fph', one))])
            o = V.I.call(V.fn(BM), [], kw)
            g = lambda k: w.get(o, 'stationary_loads_%s_norm' % k)
            for k in ('x', 'vs_t', 'omega_phase'):
                V.holds('one per load: ' + k, eq(length(V, g(k)), S))
            (i,), rng = V.idx(S)
            V.I.pc.extend(rng)
            for i in ([i] if freq < 2 else [num(0), one]):
                V.eq('position', item(V, g('x'), i), div(app('sx', i), r['L']))
                a = item(V, g('vs_t'), i)
                x, y = w.get(a, 'in_')
                (j,), r2 = V.idx(app('h#', i, sort='I'))
                V.eq('times of the history', nplib.toarr(V.I, x).at(j), div(mul(app('hx', i, j), speed(r)), r['L']), r2)
                V.eq('magnitudes of the history', nplib.toarr(V.I, y).at(j), div(app('hy', i, j), mul(r['E'], r['A'])), r2)
                op = item(V, g('omega_phase'), i)
                if not freq or (freq == 2 and i is not one):
                    V.check('not cyclic', op is None)
                else:
                    om, ph = op
                    t = V.real('t')
                    V.eq('the same cycles in normalised time', add(mul(om, div(mul(t, speed(r)), r['L'])), ph), add(mul(app('fom', i), t), app('fph', i)))
        V.run(go)


mk_stationary(0)
mk_stationary(1)
mk_stationary(2)


def mk_field(mv, st):
    @suite.ob('beam: rate of change of the state%s%s' % (', moving loads' if mv else '', ', stationary loads' if st else ''), BM + '.vectorfield')
    def f(V):
        w = Beam(V)
        n2, nq = mul(num(2), w.n), V.int('nq', 1)
        s, t = V.arr('state', n2), V.real('t')
        M, K, C = [V.arr2(k, w.n, w.n) for k in ('M', 'K', 'C')]
        k3 = V.real('k3')
        na = [V.int('na', 1), V.int('nb', 1)]

        def go():
            V.I.import_mod('numpy').d['random'] = ip.Namespace('numpy.random', dict(rand=Builtin(lambda *a: var('random'), 'rand')))
            w.model(ML + '.point_loads_on_beam', lambda b: (lambda g: (Arr([plain(na[g])], lambda j: app('ax', num(g), b['t'], j)),
                                                                      Arr([plain(na[g])], lambda j: app('ap', num(g), b['t'], j))))(int(V.I.getattr(b['self'], 'tag').args[0])))
            cls = V.fn(ML)

            def group(g):
                o = Obj(cls)
                o.d['tag'] = num(g)
                return o
            w.model(PW + 'pinterp_x_y', lambda b: app('mag', w.fn(b['a'])[1], ip.lift(b['xi'])))
            o = w.bare(vsvdot=V.arr('old', n2), psi_q=K, psi_qdot=C, lam_qdotdot=M, has_moving_loads=bool(mv), has_stationary_loads=bool(st),
                       moving_loads_norm=LList([group(0), group(1)]), stationary_loads_x_norm=LList([V.real('s0'), V.real('s1')]),
                       stationary_loads_vs_t_norm=LList([w.poly('h0'), w.poly('h1')]),
                       stationary_loads_omega_phase_norm=LList([None, (V.real('om'), V.real('ph'))]), BC_coeff=1, k3_norm=k3,
                       Ij=V.arr('Ij', nq), xj=V.arr('xj', nq), k3barj=V.arr('k3j', nq))
            V.I.setattr(o, 'phi', V.I.getattr(o, 'phiSS'))
            r = nplib.toarr(V.I, w.call(o, 'vectorfield', s, t))
            V.length('one rate per state', r.dims[0], n2)
            (i,), rng = V.idx(w.n)
            V.eq('rate of the coefficients', r.at(i), app('state', add(w.n, i)), rng)
            k, j, q = [fresh(c, 'I') for c in 'kjq']
            b = lambda a: app('beta', a)
            disp = lambda x: bsum(k, w.n, mul(app('state', k), sin(mul(b(k), x))))

            def force(a):
                e = add(bsum(k, w.n, mul(app('K', a, k), app('state', k))), bsum(k, w.n, mul(app('C', a, k), app('state', add(w.n, k)))))
                if mv:
                    for g in (0, 1):
                        e = add(e, bsum(j, na[g], mul(app('ap', num(g), t, j), sin(mul(b(a), app('ax', num(g), t, j))))))
                if st:
                    e = add(e, mul(app('mag', value(var('h0')), t), sin(mul(b(a), var('s0')))))
                    e = add(e, mul(app('mag', value(var('h1')), t), sin(mul(b(a), var('s1'))), cos(add(mul(var('om'), t), var('ph')))))
                return sub(e, mul(k3, bsum(q, nq, mul(app('Ij', q), power(disp(app('xj', q)), 3), app('k3j', q), sin(mul(b(a), app('xj', q)))))))
            Mt = w.term(M)
            if w.solved:
                R = w.solved[-1]
                (a,), r2 = V.idx(w.n)
                V.eq('forces', R.at(a), force(a), r2)
                V.eq('solved for the accelerations', r.at(add(w.n, i)), bsum(k, w.n, mul(app('inverse', Mt, i, k), R.at(k))), rng)
            else:
                raise Unsupported('the mass matrix is not solved for')
        w.solved = []
        la = V.I.libs['numpy'].d['linalg']
        old = la.d['solve']

        def solve(a, b):
            b = nplib.toarr(V.I, b)
            w.solved.append(Arr(list(b.dims), b.snap()))
            return V.I.call(old, [a, b])
        la.d['solve'] = Builtin(solve, 'solve')
        V.run(go)


for _mv in (0, 1):
    for _st in (0, 1):
        mk_field(_mv, _st)


@suite.ob('beam: deflection at points and times from the coefficients', BM + '.wofx')
def wofx(V):
    w = Beam(V)
    X = V.int('X', 2)
    L = V.real('L')
    V.requires(lt(Z, L))

    def go():
        w.model(BM + '.w', lambda b: app('w', *(lambda q: (ip.lift(q.at(A0)), q.dims[0].size))(nplib.toarr(V.I, b['qk'])), ip.lift(b['x'])))
        for nm, kw, at in (('normalised', dict(x_norm=V.arr('xs', X)), lambda i: app('xs', i)), ('raw', dict(x=V.arr('xs', X)), lambda i: div(app('xs', i), L))):
            for norm in (True, False):
                o = w.bare(L=L, tvals_norm=w.t, qsol=V.arr2('qs', w.T, mul(num(2), w.n)))
                r = nplib.toarr(V.I, w.call(o, 'wofx', normalise_w=norm, **kw))
                (i, k), rng = V.idx(X, w.T)
                V.length('points', r.dims[0], X)
                V.length('times', r.dims[1], w.T)
                want = app('w', app('qs', k, A0), w.n, at(i))
                V.eq('deflection at %s points, %snormalised' % (nm, '' if norm else 'not '), r.at(i, k), want if norm else mul(want, L), rng)
    V.run(go)
