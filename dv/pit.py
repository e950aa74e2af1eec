"""Field identity back end.

Decides t == 0 for terms built from field operations, exp, log, sin, cos and
powers by evaluating t in a 127-bit prime field under random values of the
atoms that respect the defining relations (S^2 + C^2 = 1 and angle addition,
exp(a+b) = exp(a)exp(b), log of products, i^2 = -1, (b^(1/L))^L = b).  A
non-zero polynomial of degree d survives one round with probability <= d/2^126;
three independent rounds are used, so a wrong "zero" has probability far below
1e-60.  Random values come from a fixed seed.
"""
import random
from fractions import Fraction
from math import lcm, gcd
from . import terms as tm
from .terms import T, num

P = 85070591730234615865843651857942052973
IVAL = 26389797906749493974549346716035284884


class Undefined(Exception):
    def __init__(self, msg, term=None):
        Exception.__init__(self, msg)
        self.term = term


class NonResidue(Exception):
    pass


class NoPoly(Exception):
    pass


# ---------------------------------------------------------------- polynomials
def _mmul(m1, m2):
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e != 0), key=lambda x: x[0].id))


def p_add(p, q):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + c
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = v
    return r


def _redI(m, c):
    """reduce powers of i"""
    for a, e in m:
        if a is tm.IMAG:
            k = e % 4
            if k != e or k >= 2:
                rest = tuple(x for x in m if x[0] is not tm.IMAG)
                if k >= 2:
                    c = -c
                    k -= 2
                if k:
                    rest = _mmul(rest, ((tm.IMAG, 1),))
                return rest, c
    return m, c


def p_mul(p, q):
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m, c = _redI(_mmul(m1, m2), c1 * c2)
            v = r.get(m, 0) + c
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = v
    return r


_pmemo = {}


def poly_of(t):
    """expand t over atoms; Laurent monomials, other denominators become atoms"""
    r = _pmemo.get(t)
    if r is None:
        r = _poly(t)
        if len(r) > 4000:
            raise NoPoly('too large')
        _pmemo[t] = r
    return r


def _poly(t):
    if t.op == 'num':
        return {(): t.args[0]} if t.args[0] != 0 else {}
    if t.op == 'add':
        r = {}
        for a in t.args:
            r = p_add(r, poly_of(a))
        return r
    if t.op == 'mul':
        r = {(): Fraction(1)}
        for a in t.args:
            r = p_mul(r, poly_of(a))
        return r
    if t.op == 'pow' and t.args[1].op == 'num' and t.args[1].args[0].denominator == 1:
        n = int(t.args[1].args[0])
        b = poly_of(t.args[0])
        if not b:
            if n < 0:
                raise Undefined('zero denominator', t)
            return {}
        if len(b) == 1:
            (m, c), = b.items()
            m2, c2 = _redI(tuple((a, e * n) for a, e in m), Fraction(c) ** n)
            if any(a.op == 'add' and e > 0 for a, e in m2):
                # the inverse of an inverse of a sum
                r = {tuple(x for x in m2 if not (x[0].op == 'add' and x[1] > 0)): c2}
                for a, e in m2:
                    for _ in range(e if a.op == 'add' and e > 0 else 0):
                        r = p_mul(r, poly_of(a))
                return r
            return {m2: c2}
        if n > 0:
            r = {(): Fraction(1)}
            for _ in range(n):
                r = p_mul(r, b)
            return r
        cb, lead = canon_poly(b)
        cb, com = const_content(cb)
        at = poly_term(cb)
        return {tuple(sorted([(at, n)] + [(a, e * n) for a, e in com], key=lambda q: q[0].id)): lead ** n}
    if t is tm.UNDEF:
        raise Undefined('zero denominator', t)
    return {((t, 1),): Fraction(1)}


def canon_poly(p):
    ms = sorted(p, key=lambda m: tuple((a.id, e) for a, e in m))
    lead = p[ms[-1]]
    return {m: c / lead for m, c in p.items()}, lead


def const_content(p):
    """(p / m, m) with m the common power of known non-zero constants"""
    com = []
    for a in {a for m in p for a, e in m if tm._nonzero_const(a)}:
        k = min(dict(m).get(a, 0) for m in p)
        if k:
            com.append((a, k))
    if com:
        mono = tuple(sorted([(a, -k) for a, k in com], key=lambda q: q[0].id))
        p = p_mul(p, {mono: Fraction(1)})
    return p, com


def poly_term(p):
    ts = []
    for m, c in p.items():
        ts.append(tm.mul(num(Fraction(c)), *[tm.power(a, num(e)) for a, e in m]))
    return tm.add(*ts) if ts else num(0)


def primefac(n):
    out = {}
    d = 2
    while d * d <= n and d < 100000:
        while n % d == 0:
            out[d] = out.get(d, 0) + 1
            n //= d
        d += 1
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out


def logfac(n):
    """multiplicative basis 2, 10, 3, 7, ... (10 instead of 5, so that log 10 is one atom)"""
    out = primefac(n)
    k = out.pop(5, 0)
    if k:
        out[10] = k
        out[2] = out.get(2, 0) - k
    return {q: e for q, e in out.items() if e}


_fmemo = {}


def log_factors(a):
    """sum a = c * product of (irreducible factor, exponent); factors are atoms or sums in normal form (sign of c dropped)"""
    r = _fmemo.get(a)
    if r is not None:
        return r
    import sympy
    out = {}
    lead = Fraction(1)
    p = poly_of(a)
    for _ in range(6):
        neg = {}
        for m in p:
            for x, e in m:
                if e < 0:
                    neg[x] = max(neg.get(x, 0), -e)
        if not neg:
            break
        for x, e in neg.items():
            if x.op == 'add':
                c2, fs = log_factors(x)
                lead /= c2 ** e
                for f, k in fs:
                    out[f] = out.get(f, 0) - e * k
            else:
                out[x] = out.get(x, 0) - e
        p = poly_of(poly_term(p_mul(p, {tuple(sorted(neg.items(), key=lambda q: q[0].id)): Fraction(1)})))
    else:
        raise NoPoly('nested denominators')
    if not p:
        raise Undefined('log of zero', a)
    atoms = sorted({x for m in p for x, e in m}, key=lambda x: x.id)
    syms = [sympy.Symbol('a%d' % i) for i in range(len(atoms))]
    idx = dict(zip(atoms, syms))
    e = sum(sympy.Rational(c.numerator, c.denominator) * sympy.prod([idx[x] ** k for x, k in m]) for m, c in p.items())
    co, fl = sympy.factor_list(e)
    co = Fraction(int(co.p), int(co.q)) * lead
    for f, k in fl:
        q = {}
        for mon, c in sympy.Poly(f, *syms).terms():
            q[tuple((x, int(v)) for x, v in zip(atoms, mon) if v)] = Fraction(int(c.p), int(c.q))
        q, ld = canon_poly(q)
        co *= ld ** int(k)
        b = poly_term(q)
        out[b] = out.get(b, 0) + int(k)
    r = _fmemo[a] = (abs(co), [(b, k) for b, k in out.items() if k])
    return r


def logparts(a, need, factor=None):
    """log a = sum k*log(b) + sum additive terms ; returns (dict b->coef Fraction, [terms])

    factor = 'strict': sums are factored, every factor must be positive.
    factor = 'lax': sums are factored, only the whole sum must be positive; the atoms log(b) then stand for log|b|
    (sound where b is not also the base of a root or exponential)."""
    logs, adds = {}, []

    def go(a, k, top):
        if a.op == 'num':
            v = a.args[0]
            if v <= 0:
                raise Undefined('log of non-positive number', a)
            for q, e in logfac(v.numerator).items():
                logs[num(q)] = logs.get(num(q), 0) + k * e
            for q, e in logfac(v.denominator).items():
                logs[num(q)] = logs.get(num(q), 0) - k * e
            return
        if a.op == 'mul':
            fs = list(a.args)
            if fs[0].op == 'num' and fs[0].args[0] < 0:
                # log(-c*g) = log c + log(-g)
                j = next((j for j in range(1, len(fs)) if fs[j].op == 'add'), None)
                if j is None:
                    j = next((j for j in range(1, len(fs)) if fs[j].op in ('var', 'app')), None)
                if j is not None:
                    fs[0] = num(-fs[0].args[0])
                    fs[j] = tm.mul(num(-1), fs[j])
                    if fs[j].op == 'mul':
                        need.add(fs[j])
                        logs[fs[j]] = logs.get(fs[j], 0) + k
                        del fs[j]
            for f in fs:
                go(f, k, False)
            return
        if a.op == 'pow':
            if a.args[1].op == 'num':
                if a.args[1].args[0].denominator == 1 and a.args[1].args[0] % 2 == 0:
                    need.add(a.args[0])
                go(a.args[0], k * a.args[1].args[0], False)
            else:
                need.add(a.args[0])
                adds.append(tm.mul(num(k), a.args[1], tm.log(a.args[0])))
            return
        if a.op == 'app' and a.args[0] == 'exp':
            adds.append(tm.mul(num(k), a.args[1]))
            return
        if a.op == 'add':
            p = poly_of(a)
            if len(p) == 1:
                return go(poly_term(p), k, False)
            if factor:
                need.add(a)
                c, fs = log_factors(a)
                go(num(c), k, False)
                for b, e in fs:
                    if b.op == 'add':
                        if factor == 'strict':
                            need.add(b)
                        logs[b] = logs.get(b, 0) + k * e
                    elif factor == 'strict' or b.op not in ('var', 'app'):
                        go(b, k * e, False)
                    else:
                        logs[b] = logs.get(b, 0) + k * e
                return
            # common monomial factor and content
            ats = {}
            for i, m in enumerate(p):
                d = dict(m)
                if i == 0:
                    ats = d
                else:
                    ats = {x: min(e, d.get(x, 0)) for x, e in ats.items()}
                    for x, e in d.items():
                        if x not in ats:
                            ats[x] = min(e, 0)
            ats = {x: e for x, e in ats.items() if e != 0}
            cm = tuple(sorted(((x, -e) for x, e in ats.items()), key=lambda z: z[0].id))
            q = p_mul(p, {cm: Fraction(1)})
            for x, e in ats.items():
                go(x, k * e, False)
            q, lead = canon_poly(q)
            if lead < 0:
                q = {m: -c for m, c in q.items()}
                lead = -lead
            go(num(Fraction(lead)), k, False)
            b = poly_term(q)
            need.add(b)
            logs[b] = logs.get(b, 0) + k
            return
        need.add(a)
        logs[a] = logs.get(a, 0) + k
    go(a, Fraction(1), True)
    return {b: k for b, k in logs.items() if k != 0}, adds


_cxmemo = {}


def canon_expo(t):
    """arguments of exponentials and sines inside t in normal form"""
    if t.op not in ('add', 'mul', 'pow', 'app') or t.depth:
        return t
    r = _cxmemo.get(t)
    if r is None:
        r = t
        if is_expo(t):
            try:
                r = tm.app(t.args[0], poly_term(reduce_den(poly_of(canon_expo(t.args[1])))))
            except (NoPoly, Undefined, ZeroDivisionError):
                pass
        elif t.op != 'app':
            a = [canon_expo(x) for x in t.args]
            if any(x is not y for x, y in zip(a, t.args)):
                r = tm.rebuild(t, a)
        _cxmemo[t] = r
    return r


def arg_poly(arg, need, factor=None):
    """exponent polynomial with logs expanded"""
    def exl(t):
        if t.depth and t.op in ('sum', 'exists', 'first'):
            return t
        if t.op == 'app' and t.args[0] == 'log':
            logs, adds = logparts(canon_expo(t.args[1]), need, factor)
            out = [tm.mul(num(k), tm.app('log', b)) for b, k in logs.items()]
            return tm.add(num(0), *(out + [exl(x) for x in adds]))
        if t.op in ('add', 'mul', 'pow'):
            return tm.rebuild(t, [exl(x) for x in t.args])
        return t
    return reduce_den(poly_of(exl(arg)))


def reduce_den(p):
    """monomials n * (n + c)^-1 -> 1 - c*(n + c)^-1 : numerators reduced modulo each denominator"""
    for _ in range(40):
        for m, c in p.items():
            d = dict(m)
            hit = None
            for D, e in m:
                if e < 0 and D.op == 'add':
                    q = poly_of(D)
                    ms = sorted(q, key=lambda z: tuple((a.id, k) for a, k in z))
                    lead = ms[-1]
                    if lead and all(d.get(a, 0) >= k > 0 for a, k in lead):
                        hit = (D, q, lead)
                        break
            if hit:
                break
        else:
            return p
        D, q, lead = hit
        rest = {a: e - dict(lead).get(a, 0) for a, e in m}
        rest = tuple(sorted(((a, e) for a, e in rest.items() if e), key=lambda z: z[0].id))
        # lead = (D - others) / coefficient
        up = dict(rest)
        up[D] = up.get(D, 0) + 1
        up = tuple(sorted(((a, e) for a, e in up.items() if e), key=lambda z: z[0].id))
        new = {up: c / q[lead]}
        others = {k: -v / q[lead] for k, v in q.items() if k != lead}
        new = p_add(new, p_mul({rest: c}, others))
        p = p_add({k: v for k, v in p.items() if k != m}, new)
    return p


def is_expo(t):
    return t.op == 'app' and t.args[0] in ('exp', 'sin', 'cos') and len(t.args) == 2


def is_pow(t):
    return t.op == 'pow' and not (t.args[1].op == 'num' and t.args[1].args[0].denominator == 1)


def split_mono(m):
    """monomial -> (hasI, rest)"""
    hasI = any(a is tm.IMAG for a, e in m)
    return hasI, tuple(x for x in m if x[0] is not tm.IMAG)


class Evaluator(object):
    def __init__(self, roots, seed, factor=False):
        self.seed = seed
        self.factor = factor
        self.need = set()        # must be positive
        self.L = {}              # (kind, mono) -> lcm of denominators
        self.args = {}
        self.denoms = set()
        self.prep(roots)
        self.rnd = None

    def prep(self, roots):
        seen = set()
        st = list(roots)
        while st:
            t = st.pop()
            if t in seen:
                continue
            seen.add(t)
            if t.op in ('sum', 'exists', 'first', 'ite'):
                continue      # opaque
            if is_expo(t):
                self.add_arg(t, t.args[1], t.args[0])
            elif is_pow(t):
                self.add_arg(t, tm.mul(t.args[1], tm.log(t.args[0])), 'exp')
                st.append(t.args[0])
                continue
            elif t.op == 'app' and t.args[0] == 'log':
                p = arg_poly(t, self.need, 'lax' if self.factor else None)
                self.args[t] = p
                for m in p:
                    for a, e in m:
                        if a.op == 'app' and a.args[0] == 'log':
                            if a.args[1].op != 'num':
                                st.append(a.args[1])
                        else:
                            st.append(a)
                continue
            elif t.op == 'app':
                continue
            for a in t.args:
                if isinstance(a, T):
                    st.append(a)

    def add_arg(self, t, arg, kind):
        p = arg_poly(arg, self.need, 'strict' if self.factor else None)
        self.args[t] = p
        for m, c in p.items():
            hasI, rest = split_mono(m)
            k = 'trig' if (kind != 'exp' or hasI) else 'exp'
            if kind != 'exp' and hasI:
                raise NoPoly('trig of complex')
            b = self.logbase(rest) if k == 'exp' else None
            key = (k, rest)
            self.L[key] = lcm(self.L.get(key, 1), Fraction(c).denominator)

    @staticmethod
    def logbase(m):
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'app' and m[0][0].args[0] == 'log':
            return m[0][0].args[1]
        return None

    def round(self, k):
        self.rnd = random.Random('%s/%s' % (self.seed, k))
        self.val = {}
        self.base = {}

    def rand(self):
        return self.rnd.randrange(2, P - 2)

    def inv(self, v, t):
        if v % P == 0:
            raise Undefined('zero denominator', t)
        return pow(v, P - 2, P)

    def ev(self, t):
        v = self.val.get(t)
        if v is None:
            # iterative deepening avoided: recursion depth is bounded by term nesting
            v = self.val[t] = self._ev(t) % P
        return v

    def _ev(self, t):
        op = t.op
        if op == 'num':
            f = t.args[0]
            return f.numerator * pow(f.denominator, P - 2, P)
        if op == 'add':
            s = 0
            for a in t.args:
                s += self.ev(a)
            return s
        if op == 'mul':
            s = 1
            for a in t.args:
                s = s * self.ev(a) % P
            return s
        if op == 'pow' and not is_pow(t):
            n = int(t.args[1].args[0])
            b = self.ev(t.args[0])
            if n < 0:
                self.denoms.add(t.args[0])
                return pow(self.inv(b, t.args[0]), -n, P)
            return pow(b, n, P)
        if t is tm.IMAG:
            return IVAL
        if is_expo(t) or is_pow(t):
            if is_pow(t):
                self.need.add(t.args[0])
            e, (s, c) = 1, (0, 1)
            for m, co in self.args[t].items():
                hasI, rest = split_mono(m)
                if t.op == 'pow' or t.args[0] == 'exp':
                    if not hasI:
                        e = e * self.expmono(rest, co, t) % P
                    else:
                        s, c = self.angadd((s, c), self.trigmono(rest, co))
                else:
                    s, c = self.angadd((s, c), self.trigmono(rest, co))
            if t.op == 'pow' or t.args[0] == 'exp':
                return e * (c + IVAL * s)
            return s if t.args[0] == 'sin' else c
        if op == 'app' and t.args[0] == 'log':
            s = 0
            for m, co in self.args[t].items():
                v = co.numerator * pow(co.denominator, P - 2, P)
                for a, e in m:
                    b = self.atomlog(a.args[1]) if (a.op == 'app' and a.args[0] == 'log') else self.ev(a)
                    v = v * (pow(b, e, P) if e > 0 else pow(self.inv(b, a), -e, P)) % P
                s += v
            return s
        if t is tm.UNDEF:
            raise Undefined('zero denominator', t)
        # opaque atom
        if op == 'ite' or t.sort == 'B':
            raise NoPoly('unsplit condition %s' % tm.show(t, 4))
        return self.rand()

    def atomlog(self, b):
        k = ('logval', b)
        if k not in self.base:
            self.base[k] = self.rand()
        return self.base[k]

    def expmono(self, m, c, t):
        L = self.L[('exp', m)]
        k = ('exp', m)
        r = self.base.get(k)
        if r is None:
            b = self.logbase(m)
            if b is None:
                r = self.rand()
            else:
                v = self.ev(b)
                if v == 0:
                    raise Undefined('power of zero', b)
                r = self.root(v, L)
            self.base[k] = r
        n = int(c * L)
        if n < 0:
            r = self.inv(r, t)
            n = -n
        return pow(r, n, P)

    def root(self, v, L):
        while L % 2 == 0:
            v = sqrtmod(v)
            if v is None:
                raise NonResidue()
            L //= 2
        if L > 1:
            if gcd(L, P - 1) != 1:
                raise NoPoly('root')
            v = pow(v, pow(L, -1, P - 1), P)
        return v

    def trigmono(self, m, c):
        # pi * integer things
        if any(a is tm.PI for a, e in m):
            rest = tuple(x for x in m if x[0] is not tm.PI)
            if all(e == 1 for a, e in m) and all(a.sort == 'I' for a, e in rest):
                if not rest:
                    q = c * 2
                    if q.denominator == 1:
                        return [(0, 1), (1, 0), (0, -1), (-1, 0)][int(q) % 4]
                else:
                    if c.denominator == 1:
                        if int(c) % 2 == 0:
                            return (0, 1)
                        k = ('sign', rest)
                        if k not in self.base:
                            self.base[k] = self.rnd.choice((1, P - 1))
                        return (0, self.base[k])
        L = self.L[('trig', m)]
        k = ('trig', m)
        if k not in self.base:
            u = self.rand()
            d = self.inv(1 + u * u, num(1))
            self.base[k] = (2 * u * d % P, (1 - u * u) * d % P)
        s, co = self.base[k]
        n = int(c * L)
        if n < 0:
            s = -s % P
            n = -n
        r = (0, 1)
        while n:
            if n & 1:
                r = self.angadd(r, (s, co))
            s, co = self.angadd((s, co), (s, co))
            n >>= 1
        return r

    @staticmethod
    def angadd(a, b):
        return ((a[0] * b[1] + a[1] * b[0]) % P, (a[1] * b[1] - a[0] * b[0]) % P)


def sqrtmod(v):
    if v == 0:
        return 0
    if pow(v, (P - 1) // 2, P) != 1:
        return None
    # P = 5 mod 8
    if P % 8 == 5:
        r = pow(v, (P + 3) // 8, P)
        if r * r % P != v:
            r = r * pow(2, (P - 1) // 4, P) % P
        return r if r * r % P == v else None
    raise NotImplementedError


assert P % 8 == 5 and IVAL * IVAL % P == P - 1


def is_zero(t, seed=0, rounds=3, factor=False):
    """-> (ok, info) ; info: dict(need=set of positive terms, denoms=set of nonzero terms)"""
    import sys
    if sys.getrecursionlimit() < 20000:
        sys.setrecursionlimit(20000)
    if t.op == 'num':
        return t.args[0] == 0, {'need': set(), 'denoms': set()}
    E = Evaluator([t], seed, factor)
    done, k = 0, 0
    while done < rounds:
        E.round(k)
        k += 1
        try:
            v = E.ev(t)
        except NonResidue:
            if k > 400:
                raise NoPoly('no residues')
            continue
        if v != 0:
            return False, {'need': E.need, 'denoms': E.denoms}
        done += 1
    return True, {'need': E.need, 'denoms': E.denoms}
