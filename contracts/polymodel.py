"""Callers of the spectral integral functions: polylines known by the function they represent.

A polyline argument is an Abstract value: h(z) (an opaque function of depth or time) on break points
known by name only.  Callees are used by contract: the integral functions (C01-C05: the integral of the
functions their polylines represent) return an application of an integral operator to h, the time
integrals (C06) an application to load function, eigenvalue and time, polyline_make_x_common (C17) the
same functions on shared break points.
"""
from speclib import *
from dv import nplib
from dv.interp import Abstract, Builtin, Seq, Unsupported

zz = var('zz')
one, Z = num(1), num(0)
PLQ = PW + 'PolyLine'


def value(i):
    """the function named i at zz"""
    return app('of', i, zz)


class Poly(Abstract):
    """a polyline representing h(zz) on the break points `grid` (a term)"""

    def __init__(self, cls, h, grid, span=True):
        Abstract.__init__(self, cls)
        self.h, self.grid = h, grid
        n = app('#', grid, sort='I')
        for k in ('x1', 'x2'):
            self.d[k] = Arr([plain(n)], lambda l, k=k: app(k, grid, l))
        for k in ('y1', 'y2'):
            self.d[k] = Arr([plain(n)], lambda l, k=k: app(k, grid, h, l))

    def again(self, index):
        g = fresh('grid') if index is None else app(fresh('grid').args[0], index)
        return Poly(self.cls, self.h, g)

    def same(self, o):
        return isinstance(o, Poly) and o.h is self.h

    def substituted(self, m):
        h, g = tm.subst(self.h, m), tm.subst(self.grid, m)
        return self if h is self.h and g is self.grid else Poly(self.cls, h, g)


class World(object):
    """the callee contracts for one obligation"""

    def __init__(self, V):
        self.V = V
        self.I = V.I
        self.cls = V.I.getattr(V.I.module('geotecha.piecewise.piecewise_linear_1d'), 'PolyLine')
        self.n = V.int('n', 1)
        self.T = V.int('T', 1)
        self.m = V.arr('m', self.n)
        self.eigs = V.arr('lam', self.n)
        self.t = V.arr('t', self.T)
        self.dT = V.real('dT')
        self.Ig = V.arr2('Ig', self.n, self.n)
        self.shared = {}
        V.F.gen(lambda apps: [le(one, a) for a in apps if a.op == 'app' and a.args[0] == '#'])
        self.install()

    def poly(self, name):
        """an arbitrary polyline of its own"""
        i = var(name) if isinstance(name, str) else name
        return Poly(self.cls, value(i), i)

    def polys(self, name, L):
        """a list of L arbitrary polylines"""
        return LList(Seq(L, lambda i: self.poly(app(name, i))))

    def maybe_pairs(self, name, L):
        """None or (omega, phase) for each of L loads"""
        def item(i):
            if self.I.decide(app(name + '?', i, sort='B')):
                return None
            return (app(name + 'om', i), app(name + 'ph', i))
        return LList(Seq(L, item))

    # ------------------------------------------------------------ meaning of a polyline
    def fn(self, o):
        """(break points, function of zz) of a polyline"""
        if isinstance(o, Poly):
            return o.grid, o.h
        V = self.V
        V.check('a polyline', isinstance(o, Obj) and getattr(o.cls, 'name', None) == 'PolyLine')
        x1, x2, y1, y2 = [nplib.toarr(self.I, self.I.getattr(o, k)) for k in ('x1', 'x2', 'y1', 'y2')]
        if x1.dims[0].size is one:
            a, b, c, d = [ip.lift(q.at(Z)) for q in (x1, x2, y1, y2)]
            return None, lin(c, d, a, b, zz)
        l = fresh('l', 'I')
        g = ip.lift(x1.at(l))
        if not (g.op == 'app' and g.args[0] == 'x1' and g.args[2] is l):
            raise Unsupported('polyline not built on the break points of another one')
        g = g.args[1]
        V.check('end points of the same segments', ip.lift(x2.at(l)) is app('x2', g, l))
        hs = []
        for y, s in ((y1, '1'), (y2, '2')):
            y = ip.lift(y.at(l))
            mp = {app('x' + s, g, l): zz, app('x2', g, sub(app('#', g, sort='I'), one)): one, app('x1', g, Z): Z}
            for q in subterms(y):
                if q.op == 'app' and q.args[0] == 'y' + s and q.args[1] is g and q.args[3] is l:
                    mp[q] = q.args[2]
            r = tm.subst(y, mp)
            if l in tm.fv(r) or degree(r) > 1:
                raise Unsupported('values that are not linear between the break points')
            hs.append(r)
        V.check('the same function at both ends of every segment', hs[0] is hs[1])
        return g, hs[0]

    def functions(self, *ps):
        """the functions polylines represent (the callees bring them to common break points themselves)"""
        return [self.fn(p)[1] for p in ps]

    # ------------------------------------------------------------ callee contracts
    def model(self, name, f):
        def con(I, fn, args, kw):
            b = I.bind(fn, list(args), dict(kw))
            return f(b)
        self.I.contracts[name] = con

    def vec(self, a):
        a = nplib.toarr(self.I, a)
        return a

    def install(self):
        V, model, vec = self.V, self.model, self.vec

        def scaled(b, op):
            me, o = b['self'], b['other']
            if isinstance(o, Obj):
                raise ip.PyExc('TypeError', 'product of two polylines')
            if not isinstance(me, Poly):
                raise Unsupported('multiple of a polyline known by its points')
            o = ip.lift(o)
            if op is div:
                V.holds('divisor not zero', ne(o, Z))
            return Poly(self.cls, op(me.h, o), me.grid)
        model(PLQ + '.__mul__', lambda b: scaled(b, mul))
        model(PLQ + '.__truediv__', lambda b: scaled(b, div))

        def summed(b, op):
            # sum and difference of the functions at every depth (C17)
            me, o = list(b.values())
            if isinstance(o, Poly):
                return Poly(self.cls, op(me.h, o.h), app('joined', me.grid, o.grid))
            if isinstance(o, (Obj, LList, tuple, Arr)):
                raise Unsupported('polyline plus %r' % (o,))
            return Poly(self.cls, op(me.h, ip.lift(o)), me.grid)
        model(PLQ + '.__add__', lambda b: summed(b, add))
        model(PLQ + '.__sub__', lambda b: summed(b, sub))

        def one_d(a, f):
            a = vec(a)
            return Arr([a.dims[0]], lambda i: f(ip.lift(a.at(i))))

        def two_d(a, f):
            a = vec(a)
            return Arr([a.dims[0], a.dims[0]], lambda i, j: f(ip.lift(a.at(i)), ip.lift(a.at(j))))

        def prod(hs):
            return tm.mul(*hs) if len(hs) > 1 else hs[0]

        for name, ks, op, g in (
                ('pdim1sin_ab_linear', 'ab', 'Sin', prod), ('pdim1sin_abc_linear', 'abc', 'Sin', prod),
                ('pdim1sin_D_aDb_linear', 'ab', 'SinDaD', None)):
            def f(b, ks=ks, op=op, g=g, name=name):
                hs = self.functions(*[b[k] for k in ks])
                if g is None and zz not in tm.fv(hs[1]):
                    return one_d(b['m'], lambda m: Z)       # the derivative of a constant
                return one_d(b['m'], lambda m: app(op, m, *([g(hs)] if g else hs)))
            model(INT + name, f)
        for name, ks, op in (('pdim1sin_af_linear', 'a', 'SinSin'), ('pdim1sin_abf_linear', 'ab', 'SinSin'),
                             ('pdim1sin_D_aDf_linear', 'a', 'SinDaDSin')):
            def f(b, ks=ks, op=op, name=name):
                hs = self.functions(*[b[k] for k in ks])
                return two_d(b['m'], lambda p, q: app(op, p, q, prod(hs)))
            model(INT + name, f)

        for name, op, extra in (('pEload_linear', 'E', ()), ('pEDload_linear', 'ED', ()), ('pEload_coslinear', 'Ecos', ('omega', 'phase')),
                                ('pEDload_coslinear', 'EDcos', ('omega', 'phase')), ('pEload_sinlinear', 'Esin', ('omega', 'phase'))):
            def f(b, op=op, extra=extra):
                ks = list(b)
                h = self.fn(b[ks[0]])[1]
                ex = [ip.lift(b[k]) for k in extra]
                e, t = vec(b['eigs']), vec(b['tvals'])
                dT = ip.lift(b['dT'])
                return Arr([t.dims[0], e.dims[0]], lambda k, j: app(op, h, *ex, ip.lift(e.at(j)), ip.lift(t.at(k)), dT))
            model(INT + name, f)

        def common(b):
            ps = list(list(b.values())[0])
            hs = [self.fn(p)[1] for p in ps]
            g = fresh('common') if self.I.dec is None else fresh('common')
            return tuple(Poly(self.cls, h, g) for h in hs)
        model(PW + 'polyline_make_x_common', common)

        def latest(b, key='choose_max'):
            """which value counts at the time of a step"""
            d = dict(b['kwargs'].v) if 'kwargs' in b else {}
            c = d.pop(key, False)
            V.check('interpolation options', not d and c in (True, False))
            return 'at' if c else 'before'

        def interp(b):
            g, h = self.fn(b['a'])
            op = latest(b)
            return one_d(b['xi'], lambda q: app(op, h, q))
        model(PW + 'pinterp_x_y', interp)

        def rows(z, t, f):
            z, t = vec(z), vec(t)
            return Arr([z.dims[0], t.dims[0]], lambda i, k: f(i, ip.lift(t.at(k))))

        def product(b):
            h, g = self.fn(b['a'])[1], self.fn(b['b'])[1]
            op = latest(b, 'achoose_max')
            z = vec(b['xbi'])
            (i,), rng = V.idx(z.dims[0].size)
            V.holds('depths within the profile', land(le(Z, ip.lift(z.at(i))), le(ip.lift(z.at(i)), one)), rng)
            return rows(z, b['xai'], lambda i, t: mul(app(op, h, t), tm.subst(g, {zz: ip.lift(z.at(i))})))
        model(PW + 'pinterp_xa_ya_multipy_x1b_x2b_y1b_y2b', product)

        def average(b):
            h, g = self.fn(b['a'])[1], self.fn(b['b'])[1]
            op = latest(b, 'achoose_max')
            z1, z2 = vec(b['xbi']), vec(b['xbj'])
            return rows(z1, b['xai'], lambda i, t: mul(app(op, h, t), app('mean', g, ip.lift(z1.at(i)), ip.lift(z2.at(i)))))
        model(PW + 'pxa_ya_multipy_avg_x1b_x2b_y1b_y2b_between', average)

        def weighted(b):
            h = self.fn(b['a'])[1]
            g = prod(self.functions(b['b'], b['c']))
            op = latest(b, 'achoose_max')
            z1, z2 = vec(b['xbi']), vec(b['xbj'])
            return rows(z1, b['xai'], lambda i, t: mul(app(op, h, t), app('int', g, ip.lift(z1.at(i)), ip.lift(z2.at(i)))))
        model(PW + 'pxa_ya_multiply_integrate_x1b_x2b_y1b_y2b_multiply_x1c_x2c_y1c_y2c_between', weighted)

        def sampled(b):
            m, z = vec(b['m']), vec(b['z'])
            return Arr([z.dims[0], m.dims[0]], lambda i, j: sin(mul(ip.lift(m.at(j)), ip.lift(z.at(i)))))
        model(INT + 'dim1sin', sampled)

        def between(b, f):
            m, z = vec(b['m']), nplib.toarr(self.I, b['z'])
            V.check('pairs of depths', isinstance(z, Arr) and z.ndim == 2)
            return Arr([z.dims[0], m.dims[0]], lambda i, j: f(ip.lift(m.at(j)), ip.lift(z.at(i, Z)), ip.lift(z.at(i, one))))
        model(INT + 'dim1sin_avg_between', lambda b: between(b, lambda m, p, q: app('sinmean', m, p, q)))

        def weighted_sin(b):
            h = self.fn(b['a'])[1]
            return between(b, lambda m, p, q: app('sinint', m, h, p, q))
        model(INT + 'pdim1sin_a_linear_between', weighted_sin)


def subterms(t, seen=None):
    seen = set() if seen is None else seen
    if t in seen:
        return
    seen.add(t)
    yield t
    for a in t.args:
        if isinstance(a, tm.T):
            yield from subterms(a, seen)


def degree(t):
    """degree in zz and in functions of zz"""
    if zz not in tm.fv(t):
        return 0
    if t.op == 'add':
        return max(degree(a) for a in t.args)
    if t.op == 'mul':
        return sum(degree(a) for a in t.args)
    if t is zz or t.op == 'app':
        return 1
    return 2
