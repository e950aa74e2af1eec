"""Specification side calculus: derivatives and certified antiderivatives."""
from fractions import Fraction
from math import factorial
from . import terms as tm
from .terms import num, T
from . import pit


def diff(t, z, memo=None):
    """d t / d z"""
    if memo is None:
        memo = {}

    def go(t):
        if t is z:
            return num(1)
        if z not in tm.fv(t):
            return num(0)
        if t in memo:
            return memo[t]
        if t.op == 'add':
            r = tm.add(*[go(a) for a in t.args])
        elif t.op == 'mul':
            ts = []
            for i, a in enumerate(t.args):
                d = go(a)
                if not (d.op == 'num' and d.args[0] == 0):
                    ts.append(tm.mul(d, *[b for j, b in enumerate(t.args) if j != i]))
            r = tm.add(num(0), *ts)
        elif t.op == 'pow':
            b, e = t.args
            if z not in tm.fv(e):
                r = tm.mul(e, tm.power(b, tm.sub(e, num(1))), go(b))
            else:
                r = tm.mul(t, go(tm.mul(e, tm.log(b))))
        elif t.op == 'app' and t.args[0] in ('exp', 'sin', 'cos', 'log', 'atan'):
            a = t.args[1]
            d = {'exp': lambda: t, 'sin': lambda: tm.cos(a), 'cos': lambda: tm.neg(tm.sin(a)), 'log': lambda: tm.div(num(1), a),
                 'atan': lambda: tm.div(num(1), tm.add(num(1), tm.mul(a, a)))}[t.args[0]]()
            r = tm.mul(d, go(a))
        elif t.op == 'ite':
            r = tm.ite(t.args[0], go(t.args[1]), go(t.args[2]))
        elif t.op == 'sum':
            bv = t.args[0]
            k = tm.fresh('k', 'I')
            r = tm.bsum(k, t.args[1], go(tm.subst(t.args[2], {bv: k})))
        else:
            raise ValueError('cannot differentiate %s' % tm.show(t, 3))
        memo[t] = r
        return r
    return go(t)


def linear(t, z):
    """t = a*z + b"""
    a = diff(t, z)
    if z in tm.fv(a):
        p = pit.poly_of(a)
        if any(z in tm.fv(x) for m in p for x, e in m):
            raise ValueError('not linear')
        a = pit.poly_term(p)
    b = tm.subst(t, {z: num(0)})
    return a, b


def _canon(t):
    return pit.poly_term(pit.poly_of(t))


def expform(t, z):
    """{(n, lam): coef}: t = sum coef * z**n * exp(lam*z)"""
    if z not in tm.fv(t):
        return {(0, num(0)): t}
    if t is z:
        return {(1, num(0)): num(1)}
    if t.op == 'add':
        r = {}
        for a in t.args:
            for k, c in expform(a, z).items():
                r[k] = tm.add(r[k], c) if k in r else c
        return r
    if t.op == 'mul' or (t.op == 'pow' and t.args[1].op == 'num' and t.args[1].args[0] > 0 and t.args[1].args[0].denominator == 1):
        fs = t.args if t.op == 'mul' else [t.args[0]] * int(t.args[1].args[0])
        r = {(0, num(0)): num(1)}
        for a in fs:
            e = expform(a, z)
            q = {}
            for (n1, l1), c1 in r.items():
                for (n2, l2), c2 in e.items():
                    k = (n1 + n2, _canon(tm.add(l1, l2)))
                    c = tm.mul(c1, c2)
                    q[k] = tm.add(q[k], c) if k in q else c
            r = q
        return r
    if t.op == 'app' and t.args[0] in ('exp', 'sin', 'cos'):
        a, b = linear(t.args[1], z)
        if t.args[0] == 'exp':
            return {(0, _canon(a)): tm.exp(b)}
        ia, ib = tm.mul(tm.IMAG, a), tm.mul(tm.IMAG, b)
        ep, em = tm.exp(ib), tm.exp(tm.neg(ib))
        if t.args[0] == 'cos':
            cp = cm = num(Fraction(1, 2))
        else:
            cp = tm.div(num(1), tm.mul(num(2), tm.IMAG))
            cm = tm.neg(cp)
        r = {}
        for l, c in ((_canon(ia), tm.mul(cp, ep)), (_canon(tm.neg(ia)), tm.mul(cm, em))):
            k = (0, l)
            r[k] = tm.add(r[k], c) if k in r else c
        return r
    raise ValueError('integrand not of polynomial-exponential form: %s' % tm.show(t, 4))


CERTS = {'n': 0}


class Certificate(Exception):
    pass


def antiderivative(f, z):
    F = num(0)
    for (n, lam), c in expform(f, z).items():
        if lam.op == 'num' and lam.args[0] == 0:
            F = tm.add(F, tm.mul(c, tm.power(z, num(n + 1)), num(Fraction(1, n + 1))))
        else:
            s = num(0)
            for k in range(n + 1):
                s = tm.add(s, tm.mul(num((-1) ** k * factorial(n) // factorial(n - k)), tm.power(z, num(n - k)),
                                     tm.power(lam, num(-(k + 1)))))
            F = tm.add(F, tm.mul(c, tm.exp(tm.mul(lam, z)), s))
    ok, info = pit.is_zero(tm.sub(diff(F, z), f))
    if not ok:
        raise Certificate('antiderivative certificate fails')
    CERTS['n'] += 1
    return F


_zc = [0]


def integral(f, lo, hi):
    """int_lo^hi f(z) dz as a term; f: python function of a term.  The antiderivative
    is certified by differentiation (fundamental theorem of calculus)."""
    z = tm.fresh('z', 'R')
    body = f(z)
    for a in (body.args if body.op == 'mul' else [body]):
        if a.op == 'ite' and z not in tm.fv(a.args[0]):  # the case does not depend on the variable of integration
            pick = lambda b: lambda w: tm.subst(tm.subst(body, {a: b}), {z: w})
            return tm.ite(a.args[0], integral(pick(a.args[1]), lo, hi), integral(pick(a.args[2]), lo, hi))
    F = antiderivative(body, z)
    return tm.sub(tm.subst(F, {z: hi}), tm.subst(F, {z: lo}))
