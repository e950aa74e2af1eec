"""Consolidation models: objects whose methods assemble matrices from the functions of speccon1d.

The functions of speccon1d (contracts C08, C09) are used as opaque operators: equal arguments give equal
results; an argument is known by its meaning (the function a polyline represents, the entries of an array,
the elements of a list).  Inverse and eigen-decomposition of a matrix are operators of the matrix entries.
"""
from polymodel import *
from dv.interp import Builtin, PDict

S1 = 'geotecha.speccon.speccon1d.'
NONE = app('none')
A0, B0, L0 = var('#row', 'I'), var('#col', 'I'), var('#item', 'I')


class Token(Abstract):
    """a value the model passes on without looking into it"""

    def __init__(self, cls, term):
        Abstract.__init__(self, cls)
        self.term = term

    def again(self, index):
        raise Unsupported('an opaque value changed in a loop')

    def same(self, o):
        return isinstance(o, Token) and o.term is self.term

    def substituted(self, m):
        t = tm.subst(self.term, m)
        return self if t is self.term else Token(self.cls, t)


class Model(World):
    def __init__(self, V, qual):
        World.__init__(self, V)
        mod, name = qual.rsplit('.', 1)
        self.cls_model = V.I.getattr(V.I.module(mod), name)
        self.inverted = []
        self.linalg()

    def obj(self, **attrs):
        """an object of the model with the documented defaults, given the attributes"""
        o = Obj(self.cls_model)
        self.V.I.call(self.V.I.getattr(o, '_setup'))
        I = self.V.I
        names, defaults = I.getattr(o, '_attributes').v, I.getattr(o, '_attribute_defaults').v
        for k in names:
            I.setattr(o, k, defaults.get(k))
        I.setattr(o, 'version', 'unknown')
        for k, v in attrs.items():
            self.V.check('attribute %s documented' % k, k in names or k in self.computed)
            I.setattr(o, k, v)
        return o

    computed = 'm eigs v gam psi Igamv E_Igamv_the v_E_Igamv_the psi_s psi_w Ipsi_w psi_s_Ipsi_w alp psi_sv psi_sh psi_cv psi_ch psi_c bet bet00 bet01 bet02 bet10 bet11 bet12 bet20 bet21 bet22 m_block'.split()

    def run_method(self, o, name):
        return self.V.I.call(self.V.I.getattr(o, name))

    def get(self, o, name):
        return self.V.I.getattr(o, name)

    def token(self, name, *ix):
        return Token(self.cls, app('tok', var(name), *ix))

    def tokens(self, name, L):
        return LList(Seq(L, lambda i: self.token(name, i)))

    # ------------------------------------------------------------ arguments by meaning
    def term(self, x):
        if x is None:
            return NONE
        if isinstance(x, bool):
            return app('bool', num(int(x)))
        if isinstance(x, str):
            return app('str', var(x))
        if isinstance(x, Token):
            return x.term
        if isinstance(x, Arr):
            if x.ndim == 0:
                return ip.lift(x.at())
            return app('array', *[d.size for d in x.dims], ip.lift(x.at(*(A0, B0)[:x.ndim])))
        if isinstance(x, Obj):
            return app('fn', self.fn(x)[1])
        if isinstance(x, slice):
            return app('slice', *[self.term(v) for v in (None if ip.conc(x.start) == 0 else x.start, x.stop, None if ip.conc(x.step) == 1 else x.step)])
        if isinstance(x, LList):
            v = x.v
            if isinstance(v, Seq):
                return app('list', v.n, self.term(v.fn(L0)))
            return app('seq', *[self.term(k) for k in v])
        if isinstance(x, tuple):
            return app('seq', *[self.term(k) for k in x])
        return ip.lift(x)

    def opaque(self, name, shape):
        """use function `name` (qualified) as an operator with result of the given shape"""
        def f(b):
            sh = shape(b)
            ts = self.arguments(name, b)
            return Arr([plain(x) for x in sh], lambda i, j: app(name.rsplit('.', 1)[1], *ts, i, j))
        self.model(name, f)

    def linear(self, name, arg, rows, cols):
        """an operator of speccon1d that is linear in the rows of the matrix argument `arg` (contract C08):
        result[i, k] = sum over j of arg[i, j] * effect(j, i, k)"""
        def f(b):
            M = nplib.toarr(self.I, b.pop(arg))
            ts = self.arguments(name, b)
            j = fresh('j', 'I')
            return Arr([M.dims[0], cols(b)], lambda i, k: bsum(j, M.dims[1].size, mul(ip.lift(M.at(i, j)), app(name.rsplit('.', 1)[1], *ts, j, *([i, k] if rows else [k])))))
        self.model(name, f)

    def arguments(self, name, b):
        if 'implementation' in b:
            self.V.check('%s: implementation' % name, b.pop('implementation') in ('scalar', 'vectorized', 'fortran'))
        b = dict(b)
        if 'ab' in name.rsplit('.', 1)[1] and 'a' in b and 'b' in b:     # the integrand has the product of a and b
            b['a'] = tm.mul(self.fn(b['a'])[1], self.fn(b.pop('b'))[1])
        for k in [k for k, v in b.items() if isinstance(v, PDict)]:
            d = b.pop(k).v
            b.update({q: d[q] for q in sorted(d)})
        return [self.term(v) for k, v in b.items()]

    def outputs(self, name):
        """an output of speccon1d: linear in the coefficients, plus the boundary values (contract C09)"""
        def f(b):
            b = list(b.values())
            m, z, t, M, drn = b[:5]
            h = [self.term(q) for q in b[-4:]]
            extra = [self.term(q) for q in b[5:-4]]
            M, t, drn = nplib.toarr(self.I, M), nplib.toarr(self.I, t), self.term(drn)
            ts = [self.term(m), self.term(z)] + extra
            j = fresh('j', 'I')
            N = nplib.toarr(self.I, z).dims[0]
            nm = name.rsplit('.', 1)[1]

            def at(i, k):
                r = bsum(j, M.dims[0].size, mul(app(nm + ' of mode', *ts, i, j), ip.lift(M.at(j, k))))
                for s, x, om in (('top', h[0], h[2]), ('bot', h[1], h[3])):
                    if x is not NONE:
                        r = add(r, app(nm + ' of ' + s, drn, *extra, self.term(z), x, om, ip.lift(t.at(k)), i))
                return r
            V = self.V
            V.length('%s: one column per time' % nm, M.dims[1], t.dims[0].size)
            return Arr([N, t.dims[0]], at)
        self.model(name, f)

    def expect(self, name, *args, **kw):
        """what the operator returns for these arguments (missing ones: the documented defaults)"""
        return self.V.I.call(self.V.fn(name), list(args), dict(kw))

    # ------------------------------------------------------------ linear algebra
    def linalg(self):
        I, V = self.I, self.V

        def square(a, what):
            a = nplib.toarr(I, a)
            V.check('%s: a matrix' % what, isinstance(a, Arr) and a.ndim == 2)
            V.length('%s: square' % what, a.dims[0], a.dims[1].size)
            return a

        def inv(a):
            a = square(a, 'inv')
            self.inverted.append(Arr(list(a.dims), a.snap()))
            t = self.term(a)
            return Arr(list(a.dims), lambda i, j: app('inverse', t, i, j))

        def eig(a):
            a = square(a, 'eig')
            t = self.term(a)
            return (Arr([a.dims[0]], lambda i: app('eigenvalue', t, i)),
                    Arr(list(a.dims), lambda i, j: app('eigenvector', t, i, j)))

        def solve(a, b):
            a = square(a, 'solve')
            return I.call(I.getattr(I.libs['numpy'], 'dot'), [inv(a), b])
        la = I.libs['numpy'].d['linalg']
        la.d['inv'] = Builtin(inv, 'inv')
        la.d['eig'] = Builtin(eig, 'eig')
        la.d['solve'] = Builtin(solve, 'solve')


def subset(mask, names):
    return [k for q, k in enumerate(names) if mask >> q & 1]


def close_entry(V, label, got, want, rng, tol):
    """an assembled entry: the stated value, entries below the tolerance may be set to zero"""
    V.holds(label, lor(eq(got, want), land(eq(got, Z), lt(want, tol), lt(neg(tol), want))), rng)


def modes(w, V, o, G, P):
    """eigs and v are those of inv(gam) psi, Igamv is the inverse of gam v"""
    B = Arr([plain(w.n), plain(w.n)], lambda i, j: mat(w, Arr([plain(w.n)] * 2, lambda a, b: app('inverse', w.term(G), a, b)), P, i, j))
    t = w.term(B)
    (i, j), rng = V.idx(w.n, w.n)
    e, v, Ig = [nplib.toarr(V.I, w.get(o, k)) for k in ('eigs', 'v', 'Igamv')]
    V.length('one eigenvalue per mode', e.dims[0], w.n)
    V.eq('eigenvalues of inv(gam) psi', e.at(i), app('eigenvalue', t, i), rng)
    V.eq('eigenvectors of inv(gam) psi', v.at(i, j), app('eigenvector', t, i, j), rng)
    gv = Arr([plain(w.n), plain(w.n)], lambda a, b: mat(w, G, Arr([plain(w.n)] * 2, lambda c, d: app('eigenvector', t, c, d)), a, b))
    V.eq('inverse of gam v', Ig.at(i, j), app('inverse', w.term(gv), i, j), rng)


def mat(w, A, B, i, j):
    k = var('#sum', 'I')
    return bsum(k, w.n, mul(A.at(i, k), B.at(k, j)))


class Assembly(Model):
    """a consolidation model of the speccon family"""

    def __init__(self, V, qual):
        Model.__init__(self, V, qual)
        self.H, self.mvref = V.real('H'), V.real('mvref')
        V.requires(lt(Z, self.H), lt(Z, self.mvref), ne(self.dT, Z))
        T = lambda b: nplib.toarr(V.I, b['tvals']).dims[0]
        for k in ('BC_abf_linear', 'BC_abDfDt_linear', 'BC_D_aDf_linear', 'BC_deltaf_linear', 'BC_aDfDt_linear', 'abmag_bilinear', 'aDmagDt_bilinear', 'deltamag_linear'):
            self.linear(S1 + 'dim1sin_E_Igamv_the_' + k, 'Igamv', True, T)
        self.linear(S1 + 'dim1sin_foft_Ipsiw_the_BC_D_aDf_linear', 'Ipsiw', False, T)
        for k in ('f', 'avgf', 'integrate_af'):
            self.outputs(S1 + 'dim1sin_' + k)
        self.opaque(SUPER, lambda b: (nplib.toarr(V.I, b['xbi']).dims[0].size, nplib.toarr(V.I, b['xai']).dims[0].size))

    def reals(self, *names):
        for k in names:
            setattr(self, k, self.V.real(k))

    def make(self, **attrs):
        d = dict(neig=self.n, dT=self.dT, H=self.H, mvref=self.mvref)
        d.update(attrs)
        return self.obj(**d)

    def fixed(self, L):
        """(depth, stiffness, history) of the fixed pore pressures"""
        return LList(Seq(L, lambda i: (app('zf', i), app('kf', i), self.token('magf', i))))

    def pumps(self, L):
        return LList(Seq(L, lambda i: (app('zp', i), self.poly(app('magp', i)))))

    def profiles(self, given):
        return {k: getattr(self, k) if k.startswith('dT') else self.poly(k) for k in given}

    def histories(self, drn, sides, prefix=''):
        """boundary values given to the model, and what they are once depths are normalised by H"""
        at, norm = {}, {}
        for s in ('top', 'bot'):
            q = prefix + s
            norm[s + '_vs_time'] = norm[s + '_omega_phase'] = None
            if s in sides:
                L = self.V.int('L' + q, 1)
                at[q + '_vs_time'] = norm[s + '_vs_time'] = self.polys(q, L)
                at[q + '_omega_phase'] = norm[s + '_omega_phase'] = self.tokens(q + 'freq', L)
                if s == 'bot' and drn == 1:
                    norm['bot_vs_time'] = LList(Seq(L, lambda i, q=q: Poly(self.cls, mul(self.H, value(app(q, i))), var('any'))))
        return at, [norm[k] for k in ('top_vs_time', 'bot_vs_time', 'top_omega_phase', 'bot_omega_phase')]

    def assembled(self, V, what, got, terms, rows=None):
        """matrix `got` is the sum of factor * operator over terms"""
        got = nplib.toarr(V.I, got)
        n = self.n if rows is None else rows
        V.length('rows of ' + what, got.dims[0], n)
        V.length('columns of ' + what, got.dims[1], self.T)
        (i, k), rng = V.idx(n, self.T)
        V.eq(what, got.at(i, k), add(Z, *[mul(c, M.at(i, k)) for c, M in terms]), rng)

    def matrix(self, V, what, got, want, n=None, tol=True):
        """square matrix with entries want(i, j)"""
        got = nplib.toarr(V.I, got)
        n = self.n if n is None else n
        V.length('rows of ' + what, got.dims[0], n)
        V.length('columns of ' + what, got.dims[1], n)
        (i, j), rng = V.idx(n, n)
        if tol:
            close_entry(V, what, got.at(i, j), want(i, j), rng, TOL)
        else:
            V.eq(what, got.at(i, j), want(i, j), rng)

    def E(self, kind, *args):
        """the load term of speccon1d for these arguments"""
        return self.expect(S1 + 'dim1sin_E_Igamv_the_' + kind, *args)

    def loads(self, o, loads, P):
        """(factor, operator) of surcharge, fixed pore pressures and pumping"""
        g = lambda k: self.get(o, k)
        mode = [self.m, self.eigs, self.t, self.Ig]
        fz = lambda f: LList(Seq(P, f))
        parts = []
        if 'surcharge' in loads:
            parts.append((one, self.E('aDmagDt_bilinear', *mode, g('mv'), g('surcharge_vs_depth'), g('surcharge_vs_time'), g('surcharge_omega_phase'), self.dT)))
        if 'fixed_ppress' in loads:
            parts.append((one, self.E('deltamag_linear', *mode, fz(lambda i: app('zf', i)), fz(lambda i: app('kf', i)),
                                      fz(lambda i: self.token('magf', i)), g('fixed_ppress_omega_phase'), self.dT)))
        if 'pumping' in loads:
            rate = fz(lambda i: Poly(self.cls, div(value(app('magp', i)), mul(self.mvref, self.H)), var('any')))
            parts.append((one, self.E('deltamag_linear', *mode, fz(lambda i: app('zp', i)), fz(lambda i: one), rate, g('pumping_omega_phase'), self.dT)))
        return parts

    def out(self, kind, *args):
        return self.expect(S1 + 'dim1sin_' + kind, *args)

    def picked(self, K):
        """output times from number K on"""
        return Arr([plain(sub(self.T, K))], lambda k: app('t', add(k, K)))

    def compare(self, V, what, got, rows, cols, want):
        got = nplib.toarr(V.I, got)
        V.length('rows of ' + what, got.dims[0], rows)
        V.length('columns of ' + what, got.dims[1], cols)
        (i, k), rng = V.idx(rows, cols)
        V.eq(what, got.at(i, k), want(i, k), rng)


SUPER = PW + 'pxa_ya_cos_multiply_integrate_x1b_x2b_y1b_y2b_multiply_x1c_x2c_y1c_y2c_between_super'
TOL = num(Fraction(1, 10**8))


def dot(A, B, n):
    """matrix product"""
    def at(i, j):
        k = fresh('k', 'I')
        return bsum(k, n, mul(A(i, k), B(k, j)))
    return at


def ap(name):
    """entry function of the symbolic matrix `name`"""
    return lambda i, j: app(name, i, j)


def arr(n, m, f):
    return Arr([plain(n), plain(m)], f)


# ---------------------------------------------------------------- obligations shared by the models
def mk_modes(suite, MOD):
    @suite.ob('_make_m: sine modes of the drainage condition', MOD + '._make_m')
    def make_m(V):
        w = Assembly(V, MOD)

        def go():
            for drn in (0, 1):
                o = w.make(drn=drn)
                w.run_method(o, '_make_m')
                m = nplib.toarr(V.I, w.get(o, 'm'))
                V.length('one entry per eigenvalue', m.dims[0], w.n)
                (i,), rng = V.idx(w.n)
                V.eq('drn=%d' % drn, m.at(i), mul(tm.PI, add(i, num(1) if not drn else num(Fraction(1, 2)))), rng)
        V.run(go)


def mk_gam(suite, MOD):
    @suite.ob('_make_gam: storage matrix', MOD + '._make_gam')
    def make_gam(V):
        w = Assembly(V, MOD)

        def go():
            o = w.make(m=w.m, mv=w.poly('mv'))
            w.run_method(o, '_make_gam')
            w.matrix(V, 'gam', w.get(o, 'gam'), lambda i, j: app('SinSin', app('m', i), app('m', j), value(var('mv'))))
        V.run(go)


def mk_out(suite, MOD, what, drn, sides, surcharge=False):
    """pore pressure, average pore pressure and settlement from the coefficients"""
    meth = {'f': '_make_por', 'avgf': '_make_avp', 'integrate_af': '_make_set'}[what]

    @suite.ob('%s drn=%d boundaries %s%s' % (meth, drn, sides or 'none', ' with surcharge' if surcharge else ''), MOD + '.' + meth)
    def f(V):
        w = Assembly(V, MOD)
        N, K = V.int('N', 1), V.int('K', 0)
        V.requires(le(K, w.T))
        Ls = V.int('Ls', 1)
        at, h = w.histories(drn, sides)
        z = V.arr('z', N) if what == 'f' else V.arr2('z', N, num(2))
        at.update(drn=drn, m=w.m, tvals=w.t, mv=w.poly('mv'), v_E_Igamv_the=V.arr2('vE', w.n, w.T))
        nm = {'f': 'ppress_z', 'avgf': 'avg_ppress_z_pairs', 'integrate_af': 'settlement_z_pairs'}[what]
        at.update({nm: z, nm + '_tval_indexes': slice(K, None)})
        if surcharge:
            at.update(surcharge_vs_depth=w.polys('sdep', Ls), surcharge_vs_time=w.polys('stim', Ls), surcharge_omega_phase=w.tokens('sfreq', Ls))

        def go():
            o = w.make(**at)
            w.run_method(o, meth)
            cols = sub(w.T, K)
            tk, vk = w.picked(K), arr(w.n, cols, lambda i, k: app('vE', i, add(k, K)))
            extra = [w.get(o, 'mv')] if what == 'integrate_af' else []
            R = w.out(what, w.m, z, tk, vk, drn, *extra, *h)

            def want(i, k):
                if what != 'integrate_af':
                    return R.at(i, k)
                r = neg(R.at(i, k))
                if surcharge:
                    r = add(r, loaded(w, o, 'mv', tk, N).at(i, k))
                return tm.mul(r, w.H, w.mvref)
            w.compare(V, 'output', w.get(o, {'f': 'por', 'avgf': 'avp', 'integrate_af': 'set'}[what]), N, cols, want)
        V.run(go)


def loaded(w, o, mv, tk, N):
    """strain of the surcharge between the output depths"""
    return w.V.I.call(w.V.fn(SUPER), [w.get(o, 'surcharge_vs_time'), w.get(o, 'surcharge_vs_depth'), w.get(o, mv), tk,
                                      Arr([plain(N)], lambda q: app('z', q, Z)), Arr([plain(N)], lambda q: app('z', q, one))],
                      dict(omega_phase=w.get(o, 'surcharge_omega_phase'), achoose_max=True))


def mk_dependent(suite, MOD, attrs):
    @suite.ob('make_time_dependent_arrays: coefficients of the sine modes', MOD + '.make_time_dependent_arrays')
    def dependent(V):
        w = Assembly(V, MOD)
        v = V.arr2('v', w.n, w.n)

        def go():
            o = w.make(drn=0, m=w.m, eigs=w.eigs, tvals=w.t, Igamv=w.Ig, v=v,
                       surcharge_vs_depth=w.polys('sdep', one), surcharge_vs_time=w.polys('stim', one), **{k: w.poly(k) for k in attrs})
            w.run_method(o, 'make_time_dependent_arrays')
            R, E = w.get(o, 'v_E_Igamv_the'), w.get(o, 'E_Igamv_the')
            w.compare(V, 'v . E Igamv theta', R, w.n, w.T, dot(ap('v'), lambda j, k: E.at(j, k), w.n))
            (k,), rng = V.idx(w.T)
            V.eq('times unchanged', nplib.toarr(V.I, w.get(o, 'tvals')).at(k), app('t', k), rng)
        V.run(go)


def pinned(w, P):
    """stiffness of the fixed pore pressures"""
    def at(mi, mj):
        p = fresh('p', 'I')
        return bsum(p, P, tm.mul(div(app('kf', p), w.dT), sin(mul(mi, app('zf', p))), sin(mul(mj, app('zf', p)))))
    return at
