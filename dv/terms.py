"""Hash-consed terms: the logic in which obligations are stated.

Sorts: 'R' numbers (elements of a field; reals or complex), 'I' integers,
'B' booleans.  Bound variables of sum/exists are canonical (named by nesting
depth), so alpha-equivalent terms are the same object.
"""
from fractions import Fraction
import itertools

_table = {}
_ctr = itertools.count()


class T(object):
    __slots__ = ('op', 'args', 'sort', 'id', 'depth', '_fv')

    def __hash__(self):
        # deterministic iteration order of sets of terms
        return self.id

    def __repr__(self):
        return show(self)

    def __bool__(self):
        raise TypeError('symbolic term used as a python bool: %s' % show(self, 6))


def _mk(op, args, sort):
    key = (op, args, sort)
    t = _table.get(key)
    if t is None:
        t = T.__new__(T)
        t.op = op
        t.args = args
        t.sort = sort
        t.id = next(_ctr)
        d = 0
        for a in args:
            if isinstance(a, T) and a.depth > d:
                d = a.depth
        if op in ('sum', 'exists', 'first'):
            d += 1
        t.depth = d
        t._fv = None
        _table[key] = t
    return t


def num(v, sort=None):
    if isinstance(v, T):
        return v
    if isinstance(v, bool):
        return TRUE if v else FALSE
    if isinstance(v, int):
        return _mk('num', (Fraction(v),), sort or 'I')
    if isinstance(v, Fraction):
        return _mk('num', (v,), sort or 'R')
    if isinstance(v, float):
        if v != v or v in (float('inf'), float('-inf')):
            return app('float_' + repr(v).replace('-', 'neg'), sort='R')
        return _mk('num', (Fraction(repr(v)),), 'R')
    if isinstance(v, complex):
        return add(num(v.real), mul(IMAG, num(v.imag)))
    raise TypeError('cannot lift %r' % (v,))


TRUE = _mk('true', (), 'B')
FALSE = _mk('false', (), 'B')


def var(name, sort='R'):
    return _mk('var', (name,), sort)


_fresh = itertools.count()


def fresh(prefix, sort='R'):
    return var('%s!%d' % (prefix, next(_fresh)), sort)


def app(name, *args, sort='R'):
    return _mk('app', (name,) + tuple(num(a) for a in args), sort)


IMAG = app('I')
PI = app('pi')
UNDEF = app('undef')      # value of a division by zero: never equal to anything


def isnum(t):
    return t.op == 'num'


def nval(t):
    return t.args[0]


def _jsort(ts):
    for t in ts:
        if t.sort == 'B':
            raise TypeError('bool in arithmetic')
        if t.sort == 'R':
            return 'R'
    return 'I'


def b2i(t):
    """bool term used as a number"""
    t = num(t)
    if t.sort == 'B':
        return ite(t, num(1), num(0))
    return t


def add(*ts):
    ts = [b2i(t) for t in ts]
    if UNDEF in ts:
        return UNDEF
    sort = _jsort(ts)
    c = Fraction(0)
    coef = {}
    order = []
    for t in ts:
        for u in (t.args if t.op == 'add' else (t,)):
            if u.op == 'num':
                c += u.args[0]
                continue
            k, b = _coef(u)
            if b in coef:
                coef[b] += k
            else:
                coef[b] = k
                order.append(b)
    out = []
    for b in order:
        k = coef[b]
        if k == 0:
            continue
        out.append(b if k == 1 else mul(_mk('num', (k,), b.sort if k.denominator == 1 else 'R'), b))
    if c != 0 or not out:
        out.append(_mk('num', (c,), sort))
    if len(out) == 1:
        o = out[0]
        return o
    out.sort(key=lambda t: t.id)
    return _mk('add', tuple(out), sort)


def _coef(u):
    if u.op == 'mul' and u.args[0].op == 'num':
        rest = u.args[1:]
        if len(rest) == 1:
            return u.args[0].args[0], rest[0]
        return u.args[0].args[0], _mk('mul', rest, u.sort)
    return Fraction(1), u


def neg(t):
    return mul(num(-1), t)


def sub(a, b):
    return add(a, neg(b2i(b)))


def _nonzero_const(b):
    return b.op == 'app' and (b.args[0] == 'pi' or b.args[0] == 'log' and isnum(b.args[1]) and b.args[1].args[0] > 0 and b.args[1].args[0] != 1)


def mul(*ts):
    ts = [b2i(t) for t in ts]
    if UNDEF in ts:
        return UNDEF
    sort = _jsort(ts)
    c = Fraction(1)
    pw = {}
    order = []
    for t in ts:
        for u in (t.args if t.op == 'mul' else (t,)):
            if u.op == 'num':
                c *= u.args[0]
                continue
            if u.op == 'pow' and isnum(u.args[1]):
                b, e = u.args[0], u.args[1].args[0]
            else:
                b, e = u, Fraction(1)
            if b in pw:
                # x**a * x**b -> x**(a+b): same-sign integer exponents only
                # (mixed signs are kept apart so definedness is not lost)
                es = pw[b]
                for i, e0 in enumerate(es):
                    if ((e0 > 0) == (e > 0) or _nonzero_const(b)) and e0.denominator == 1 and e.denominator == 1:
                        es[i] = e0 + e
                        break
                else:
                    es.append(e)
            else:
                pw[b] = [e]
                order.append(b)
    if c == 0:
        return _mk('num', (Fraction(0),), sort)
    out = []
    for b in order:
        for e in pw[b]:
            if e == 0:
                continue
            out.append(b if e == 1 else _mk('pow', (b, _mk('num', (e,), 'I' if e.denominator == 1 else 'R')),
                                            'I' if (b.sort == 'I' and e > 0 and e.denominator == 1) else 'R'))
    out.sort(key=lambda t: t.id)
    if c != 1 or not out:
        if len(out) == 1 and out[0].op == 'add' and c == -1:
            return add(*[mul(num(-1), x) for x in out[0].args])
        out.insert(0, _mk('num', (c,), 'I' if c.denominator == 1 and sort == 'I' else ('I' if c.denominator == 1 else 'R')))
    if len(out) == 1:
        o = out[0]
        if o.op == 'num' and o.sort != sort:
            return _mk('num', o.args, sort)
        return o
    return _mk('mul', tuple(out), sort)


class DivByZero(Exception):
    pass


def power(a, e):
    a, e = b2i(a), b2i(e)
    if a is UNDEF or e is UNDEF:
        return UNDEF
    if isnum(e):
        ev = e.args[0]
        if ev == 0:
            return num(1) if a.sort == 'I' else _mk('num', (Fraction(1),), 'R')
        if ev == 1:
            return a
        if isnum(a):
            if ev.denominator == 1:
                if a.args[0] == 0 and ev < 0:
                    raise DivByZero()
                v = a.args[0] ** int(ev)
                return _mk('num', (v,), 'I' if (a.sort == 'I' and ev > 0) else 'R')
            if a.args[0] == 1:
                return _mk('num', (Fraction(1),), 'R')
            if a.args[0] == 0 and ev > 0:
                return _mk('num', (Fraction(0),), 'R')
        if ev.denominator == 1:
            if a.op == 'mul':
                return mul(*[power(x, e) for x in a.args])
            if a.op == 'pow' and isnum(a.args[1]) and a.args[1].args[0].denominator == 1:
                if _nonzero_const(a.args[0]):
                    return power(a.args[0], num(a.args[1].args[0] * ev))
                if (a.args[1].args[0] > 0 and ev > 0) or a.args[1].args[0] == -1 and ev > 0 or (a.args[1].args[0] < 0 and ev > 0):
                    return power(a.args[0], num(a.args[1].args[0] * ev))
        e = _mk('num', (ev,), 'I' if ev.denominator == 1 else 'R')
        s = 'I' if (a.sort == 'I' and ev.denominator == 1 and ev > 0) else 'R'
        return _mk('pow', (a, e), s)
    if isnum(a) and a.args[0] == 1:
        return num(1)
    return _mk('pow', (_canon_num(a), e), 'R')


def div(a, b):
    b = b2i(b)
    if isnum(b) and b.args[0] == 0:
        raise DivByZero()
    r = mul(b2i(a), power(b, num(-1)))
    if r.sort == 'I' :
        r = toreal(r)
    return r


def toreal(t):
    t = b2i(t)
    if t.sort == 'R':
        return t
    if t.op == 'num':
        return _mk('num', t.args, 'R')
    return t


# ---- booleans
def lnot(a):
    a = num(a)
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == 'not':
        return a.args[0]
    if a.op == 'lt':
        return le(a.args[1], a.args[0])
    if a.op == 'le':
        return lt(a.args[1], a.args[0])
    return _mk('not', (a,), 'B')


def land(*ts):
    out = []
    seen = set()
    for t in ts:
        t = num(t)
        for u in (t.args if t.op == 'and' else (t,)):
            if u is FALSE:
                return FALSE
            if u is TRUE or u in seen:
                continue
            seen.add(u)
            out.append(u)
    for u in out:
        if lnot(u) in seen:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda t: t.id)
    return _mk('and', tuple(out), 'B')


def lor(*ts):
    out = []
    seen = set()
    for t in ts:
        t = num(t)
        for u in (t.args if t.op == 'or' else (t,)):
            if u is TRUE:
                return TRUE
            if u is FALSE or u in seen:
                continue
            seen.add(u)
            out.append(u)
    for u in out:
        if lnot(u) in seen:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda t: t.id)
    return _mk('or', tuple(out), 'B')


def implies(a, b):
    return lor(lnot(a), b)


def _cmpnorm(a, b):
    """subtract common addends so x+1<y+1 is x<y; keep readable"""
    d = sub(a, b)
    return d


def _logfactor(t):
    for f in (t.args if t.op == 'mul' else (t,)):
        if f.op == 'pow' and isnum(f.args[1]) and f.args[1].args[0] == -1:
            b = f.args[0]
            if b.op == 'app' and b.args[0] == 'log' and isnum(b.args[1]) and b.args[1].args[0] > 1:
                return f
    return None


def _strip(a, b):
    """multiply both sides of a comparison by the positive constant log(c), c > 1, dividing every addend"""
    f = None
    for t in (a, b):
        if isnum(t) and t.args[0] == 0:
            continue
        for u in (t.args if t.op == 'add' else (t,)):
            g = _logfactor(u)
            if g is None or (f is not None and g is not f):
                return a, b
            f = g
    if f is None:
        return a, b
    drop = lambda u: num(1) if u is f else mul(*[x for x in u.args if x is not f])
    up = lambda t: t if isnum(t) else add(*[drop(u) for u in t.args]) if t.op == 'add' else drop(t)
    return up(a), up(b)


def lt(a, b):
    a, b = b2i(a), b2i(b)
    if a.sort == 'R' or b.sort == 'R':
        a, b = _strip(a, b)
    if a is b:
        return FALSE
    d = _cmpnorm(a, b)
    if isnum(d):
        return TRUE if d.args[0] < 0 else FALSE
    if a.sort == 'I' and b.sort == 'I':
        # integers: a<b  <=>  a+1<=b ; use le normal form
        return le(add(a, num(1)), b)
    return _mk('lt', (a, b), 'B')


def le(a, b):
    a, b = b2i(a), b2i(b)
    if a.sort == 'R' or b.sort == 'R':
        a, b = _strip(a, b)
    if a is b:
        return TRUE
    d = _cmpnorm(a, b)
    if isnum(d):
        return TRUE if d.args[0] <= 0 else FALSE
    if a.sort == 'I' and b.sort == 'I':
        if d.op == 'sum':
            e = count_nonempty(d)
            if e is not None:
                return lnot(e)
        elif d.op == 'add' and len(d.args) <= 3 and any(u.op in ('sum', 'mul') for u in d.args):
            for u in d.args:
                s, c = (u.args[1], -1) if u.op == 'mul' and len(u.args) == 2 and isnum(u.args[0]) and u.args[0].args[0] == -1 else (u, 1)
                e = count_short(s)
                if e is not None:
                    # count <= n - 1  <=>  an element is left out; n <= count  <=>  none is
                    rest = sub(d, u)
                    if c == 1 and rest is sub(num(1), s.args[1]):
                        return e
                    if c == -1 and rest is s.args[1]:
                        return lnot(e)
        if d.op == 'add' and len(d.args) == 2:
            for u, w in (d.args, d.args[::-1]):
                if isnum(u) and u.args[0] == 1 and w.op == 'mul' and len(w.args) == 2 and isnum(w.args[0]) and w.args[0].args[0] == -1:
                    e = count_nonempty(w.args[1])
                    if e is not None:
                        return e
        return _mk('ile', (d,), 'B')     # d <= 0
    return _mk('le', (a, b), 'B')


def count_nonempty(t):
    """t = sum_{v<n} [cond] 1  ->  exists v<n: cond"""
    if t.op != 'sum':
        return None
    v, n, body = t.args
    if body.op == 'ite' and isnum(body.args[1]) and isnum(body.args[2]) and body.args[1].args[0] == 1 and body.args[2].args[0] == 0:
        return exists(v, n, body.args[0])
    if body.op == 'ite' and isnum(body.args[1]) and isnum(body.args[2]) and body.args[1].args[0] == 0 and body.args[2].args[0] == 1:
        return exists(v, n, lnot(body.args[0]))
    return None


def count_short(t):
    """t = sum_{v<n} [cond] 1  ->  exists v<n: not cond"""
    if t.op != 'sum':
        return None
    v, n, body = t.args
    if body.op == 'ite' and isnum(body.args[1]) and isnum(body.args[2]):
        if (body.args[1].args[0], body.args[2].args[0]) == (1, 0):
            return exists(v, n, lnot(body.args[0]))
        if (body.args[1].args[0], body.args[2].args[0]) == (0, 1):
            return exists(v, n, body.args[0])
    return None


_old_lnot = lnot


def lnot(a):  # noqa: F811  (adds the integer form)
    a = num(a)
    if a.op == 'ile':
        return le(num(1), a.args[0])
    if a.op == 'or':
        return land(*[lnot(x) for x in a.args])
    if a.op == 'and':
        return lor(*[lnot(x) for x in a.args])
    return _old_lnot(a)


def eq(a, b):
    a, b = num(a), num(b)
    if a is b:
        return TRUE
    if a.sort == 'B' or b.sort == 'B':
        if a.sort == 'B' and b.sort == 'B':
            return lor(land(a, b), land(lnot(a), lnot(b)))
        a, b = b2i(a), b2i(b)
    d = _cmpnorm(a, b)
    if isnum(d):
        return TRUE if d.args[0] == 0 else FALSE
    if a.op == 'ite' and isnum(a.args[1]) and isnum(a.args[2]) and isnum(b):
        return ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
    if b.op == 'ite' and isnum(b.args[1]) and isnum(b.args[2]) and isnum(a):
        return ite(b.args[0], eq(b.args[1], a), eq(b.args[2], a))
    if a.sort == 'I' and b.sort == 'I':
        nd = neg(d)
        for u in (d, nd):
            e = count_nonempty(u)
            if e is not None:
                return lnot(e)
            if u.op == 'add' and len(u.args) == 2:
                for w in u.args:
                    e = count_short(w)
                    if e is not None and sub(u, w) is neg(w.args[1]):
                        return land(le(num(0), w.args[1]), lnot(e))
        if nd.id < d.id:
            d = nd
        return _mk('ieq', (d,), 'B')
    if a.id > b.id:
        a, b = b, a
    return _mk('eq', (a, b), 'B')


def ne(a, b):
    return lnot(eq(a, b))


def gt(a, b):
    return lt(b, a)


def ge(a, b):
    return le(b, a)


def ite(c, a, b):
    c = num(c)
    a, b = num(a), num(b)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a.sort != b.sort:
        # a number next to a real is a real
        if a.op == 'num' and a.sort == 'I' and b.sort == 'R':
            a = num(a.args[0], 'R')
        elif b.op == 'num' and b.sort == 'I' and a.sort == 'R':
            b = num(b.args[0], 'R')
    if a is b:
        return a
    if a.sort == 'B' and b.sort == 'B':
        return lor(land(c, a), land(lnot(c), b))
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if c.op == 'exists':
        # sums over an empty domain vanish: ite(D nonempty, a, b) = a when a[sum_D := 0] is b
        if drop_sums(a, c) is b:
            return a
    if c.op == 'ieq' or c.op == 'eq':
        pass
    if a.sort == 'B':
        a = b2i(a)
    if b.sort == 'B':
        b = b2i(b)
    return _mk('ite', (c, a, b), _jsort((a, b)))


def maxt(a, b):
    return ite(le(a, b), b, a)


def mint(a, b):
    return ite(le(a, b), a, b)


def absT(a):
    a = b2i(a)
    if isnum(a):
        return _mk('num', (abs(a.args[0]),), a.sort)
    return ite(le(num(0), a), a, neg(a))


# ---- binders
def _bvar(depth, sort='I'):
    return var('_b%d' % depth, sort)


def bsum(v, size, body, cond=TRUE):
    """sum_{v=0}^{size-1} [cond] body"""
    size, body, cond = num(size), b2i(body), num(cond)
    body = ite(cond, body, num(0))
    if isnum(body) and body.args[0] == 0:
        return body
    if isnum(size):
        n = int(size.args[0])
        if n <= 0:
            return num(0)
        if n <= 24:
            return add(*[subst(body, {v: num(i)}) for i in range(n)])
    if v not in fv(body):
        return mul(size, body)   # lengths are >= 0
    # Kronecker delta anywhere in the body: [v == g] decides whether it vanishes
    for x in _deltas(body, v):
        g = solve_int(x.args[0], v)
        if g is not None and v not in fv(g):
            r = subst(body, {x: FALSE})
            e = sub(g, size)
            if isnum(e) and e.args[0] >= 0 or isnum(g) and g.args[0] < 0:
                return bsum(v, size, r)        # never met within the range
            if isnum(r) and r.args[0] == 0:
                return ite(land(le(num(0), g), lt(g, size)), subst(body, {v: g}), num(0))
    # linear splitting: constant factors out, Kronecker deltas eliminated
    if body.op == 'add':
        if any(_hasite(b) or v not in fv(b) for b in body.args):
            return add(*[bsum(v, size, b) for b in body.args])
    if body.op == 'mul':
        ins, outs = [], []
        for f in body.args:
            (ins if v in fv(f) else outs).append(f)
        if outs:
            return mul(*(outs + [bsum(v, size, mul(*ins))]))
        for k, f in enumerate(ins):
            if f.op == 'ite' and any(isnum(q) and q.args[0] == 0 for q in f.args[1:]):
                rest = mul(*(ins[:k] + ins[k + 1:]))
                return bsum(v, size, ite(f.args[0], mul(f.args[1], rest), mul(f.args[2], rest)))
    if body.op == 'ite':
        c, a, b = body.args
        if v not in fv(c):
            return ite(c, bsum(v, size, a), bsum(v, size, b))
        if isnum(a) and a.args[0] == 0:
            c, a, b = lnot(c), b, a
        if isnum(b) and b.args[0] == 0:
            if a.op == 'ite' and isnum(a.args[2]) and a.args[2].args[0] == 0:
                return bsum(v, size, a.args[1], land(c, a.args[0]))
            if a.op == 'ite' and isnum(a.args[1]) and a.args[1].args[0] == 0:
                return bsum(v, size, a.args[2], land(c, lnot(a.args[0])))
            cs = c.args if c.op == 'and' else (c,)
            outs = [x for x in cs if v not in fv(x)]
            if outs:
                return ite(land(*outs), bsum(v, size, a, land(*[x for x in cs if v in fv(x)])), num(0))
            for x in cs:
                if x.op == 'ieq':
                    g = solve_int(x.args[0], v)
                    if g is not None:
                        rest = land(*[y for y in cs if y is not x])
                        return ite(land(le(num(0), g), lt(g, size), subst(rest, {v: g})),
                                   subst(a, {v: g}), num(0))
            # sum of additive body under the same condition
            if a.op == 'add' and any(_hasite(x) for x in a.args):
                return add(*[bsum(v, size, x, c) for x in a.args])
            if a.op == 'mul':
                ins, o2 = [], []
                for f in a.args:
                    (ins if v in fv(f) else o2).append(f)
                if o2:
                    return mul(*(o2 + [bsum(v, size, mul(*ins) if ins else num(1), c)]))
        else:
            return add(bsum(v, size, a, c), bsum(v, size, b, lnot(c)))
    r = _inrange(body, v, num(0), sub(size, num(1)), size, {})
    if r is not body:
        return bsum(v, size, r)
    d = max(body.depth, 0)
    bv = _bvar(d)
    if bv is not v:
        body = subst(body, {v: bv})
    return _mk('sum', (bv, size, body), body.sort)


def _extreme(d, v, lo, hi, size):
    """largest value of an integer term linear in v, for lo <= v <= hi and size >= 1 (None: unknown)"""
    k = Fraction(0)
    for u in (d.args if d.op == 'add' else (d,)):
        if v in fv(u):
            c, b = _coef(u)
            if b is not v:
                return None
            k += c
    if k:
        d = subst(d, {v: hi if k > 0 else lo})
    if isnum(d):
        return d.args[0]
    n, rest = Fraction(0), Fraction(0)
    for u in (d.args if d.op == 'add' else (d,)):
        if isnum(u):
            rest += u.args[0]
        else:
            c, b = _coef(u)
            if b is not size:
                return None
            n += c
    return n + rest if n <= 0 else None


def _inrange(t, v, lo, hi, size, memo):
    """the body of a sum with the conditions that hold (or fail) everywhere in the range decided"""
    if t.sort != 'B' and not _has_cond(t):
        return t
    key = (t, lo, hi)
    if key in memo:
        return memo[key]
    r = t
    if t.op == 'ile':
        m = _extreme(t.args[0], v, lo, hi, size)
        if m is not None and m <= 0:
            r = TRUE
        else:
            m = _extreme(neg(t.args[0]), v, lo, hi, size)
            if m is not None and m < 0:
                r = FALSE
    elif t.op == 'ieq':
        for d in (t.args[0], neg(t.args[0])):
            m = _extreme(d, v, lo, hi, size)
            if m is not None and m < 0:
                r = FALSE
    elif t.op == 'ite':
        c, a, b = t.args
        c2 = _inrange(c, v, lo, hi, size, memo)
        if c2 is TRUE:
            r = _inrange(a, v, lo, hi, size, memo)
        elif c2 is FALSE:
            r = _inrange(b, v, lo, hi, size, memo)
        else:
            l2, h2 = lo, hi
            if c2.op == 'ieq':
                g = solve_int(c2.args[0], v)
                if g is hi:
                    h2 = sub(hi, num(1))
                elif g is lo:
                    l2 = add(lo, num(1))
            a2 = _inrange(a, v, lo, hi, size, memo)
            b2 = _inrange(b, v, l2, h2, size, memo)
            if c2 is not c or a2 is not a or b2 is not b:
                r = ite(c2, a2, b2)
    elif t.op in ('add', 'mul', 'pow', 'not', 'and', 'or'):
        xs = [_inrange(x, v, lo, hi, size, memo) if isinstance(x, T) else x for x in t.args]
        if any(x is not y for x, y in zip(xs, t.args)):
            f = {'add': add, 'mul': mul, 'not': lnot, 'and': land, 'or': lor, 'pow': power}[t.op]
            r = f(*xs)
    memo[key] = r
    return r


_hc = {}


def _has_cond(t):
    """an ite outside nested sums"""
    r = _hc.get(t)
    if r is None:
        r = _hc[t] = t.op == 'ite' or t.op in ('add', 'mul', 'pow') and any(isinstance(x, T) and _has_cond(x) for x in t.args)
    return r


def _deltas(t, v, lim=4):
    out = []
    seen = set()
    st = [(t, False)]
    while st and len(out) < lim:
        u, inc = st.pop()
        if (u, inc) in seen or v not in fv(u):
            continue
        seen.add((u, inc))
        if u.op == 'ieq' and inc:
            if u not in out:
                out.append(u)
        elif u.op == 'ite':
            st += [(u.args[1], inc), (u.args[2], inc), (u.args[0], True)]
        elif u.op in ('add', 'mul', 'and', 'or', 'not'):
            st += [(a, inc) for a in u.args]
    return out


def _hasite(t):
    return t.op == 'ite' or (t.op == 'mul' and any(x.op == 'ite' for x in t.args))


def sum_parts(t):
    """sum term -> (v, size, cond, body)"""
    v, size, body = t.args
    if body.op == 'ite' and isnum(body.args[2]) and body.args[2].args[0] == 0:
        return v, size, body.args[0], body.args[1]
    if body.op == 'ite' and isnum(body.args[1]) and body.args[1].args[0] == 0:
        return v, size, lnot(body.args[0]), body.args[2]
    return v, size, TRUE, body


def exists(v, size, cond):
    size, cond = num(size), num(cond)
    if cond is FALSE:
        return FALSE
    if isnum(size):
        n = int(size.args[0])
        if n <= 0:
            return FALSE
        if n <= 24:
            return lor(*[subst(cond, {v: num(i)}) for i in range(n)])
    if v not in fv(cond):
        return land(cond, lt(num(0), size))
    cs = cond.args if cond.op == 'and' else (cond,)
    outs = [x for x in cs if v not in fv(x)]
    if outs:
        return land(*(outs + [exists(v, size, land(*[x for x in cs if v in fv(x)]))]))
    for x in cs:
        if x.op == 'ieq':
            g = solve_int(x.args[0], v)
            if g is not None:
                rest = land(*[y for y in cs if y is not x])
                return land(le(num(0), g), lt(g, size), subst(rest, {v: g}))
    bv = _bvar(cond.depth)
    if bv is not v:
        cond = subst(cond, {v: bv})
    return _mk('exists', (bv, size, cond), 'B')


def first(v, size, cond, last=False):
    """least (greatest) v in [0,size) with cond; meaningful when exists"""
    size, cond = num(size), num(cond)
    bv = _bvar(cond.depth)
    if bv is not v:
        cond = subst(cond, {v: bv})
    return _mk('first', (bv, size, cond, TRUE if last else FALSE), 'I')


def solve_int(d, v):
    """d == 0 (integer, linear in v with coefficient +-1) -> v = term, or None"""
    coef = Fraction(0)
    rest = []
    for u in (d.args if d.op == 'add' else (d,)):
        if v in fv(u):
            k, b = _coef(u)
            if b is not v:
                return None
            coef += k
        else:
            rest.append(u)
    if coef == 1:
        return neg(add(*rest)) if rest else num(0)
    if coef == -1:
        return add(*rest) if rest else num(0)
    return None


def fv(t):
    if t._fv is not None:
        return t._fv
    if t.op == 'var':
        s = frozenset((t,))
    else:
        s = frozenset()
        for a in t.args:
            if isinstance(a, T):
                s = s | fv(a)
        if t.op in ('sum', 'exists', 'first'):
            s = s - {t.args[0]}
    t._fv = s
    return s


def rebuild(t, args):
    op = t.op
    if op == 'add':
        return add(*args)
    if op == 'mul':
        return mul(*args)
    if op == 'pow':
        try:
            return power(*args)
        except DivByZero:
            return UNDEF
    if op == 'ite':
        return ite(*args)
    if op == 'lt':
        return lt(*args)
    if op == 'le':
        return le(*args)
    if op == 'eq':
        return eq(*args)
    if op == 'ieq':
        return eq(args[0], num(0))
    if op == 'ile':
        return le(args[0], num(0))
    if op == 'not':
        return lnot(*args)
    if op == 'and':
        return land(*args)
    if op == 'or':
        return lor(*args)
    if op == 'sum':
        return bsum(*args)
    if op == 'exists':
        return exists(*args)
    if op == 'first':
        return first(args[0], args[1], args[2], args[3] is TRUE)
    if op == 'app':
        return fapp(args[0], *args[1:], sort=t.sort)
    return t


def subst(t, m, memo=None):
    """m: dict var/term -> term (capture-avoiding)"""
    if memo is None:
        memo = {}
    keys = frozenset(k for k in m)
    simple = all(k.op == 'var' for k in m)

    def go(t):
        if t in m:
            return m[t]
        if simple and not (fv(t) & keys):
            return t
        if t in memo:
            return memo[t]
        if t.op in ('num', 'var', 'true', 'false'):
            return t
        if t.op in ('sum', 'exists', 'first'):
            bv = t.args[0]
            nv = fresh('sb', 'I')
            inner = subst(t.args[2], {bv: nv})
            inner2 = go(inner)
            size = go(t.args[1])
            if t.op == 'sum':
                r = bsum(nv, size, inner2)
            elif t.op == 'exists':
                r = exists(nv, size, inner2)
            else:
                r = first(nv, size, inner2, t.args[3] is TRUE)
        elif t.op == 'ite':
            c = go(t.args[0])
            if c is TRUE:
                r = go(t.args[1])
            elif c is FALSE:
                r = go(t.args[2])
            else:
                r = ite(c, go(t.args[1]), go(t.args[2]))
        else:
            args = [go(a) if isinstance(a, T) else a for a in t.args]
            r = rebuild(t, args)
        memo[t] = r
        return r
    return go(t)


def drop_sums(t, ex):
    """replace by 0 every sum whose domain is contained in the (empty) domain of ex"""
    bv, size, cond = ex.args
    cs = set(cond.args if cond.op == 'and' else (cond,))
    memo = {}

    def go(t):
        if t.depth == 0:
            return t
        if t in memo:
            return memo[t]
        r = None
        if t.op == 'sum' and t.args[1] is size:
            v, s, c, b = sum_parts(t)
            c2 = subst(c, {v: bv}) if v is not bv else c
            have = set(c2.args if c2.op == 'and' else (c2,))
            if cs <= have:
                r = num(0)
        if r is None:
            if t.op in ('sum', 'exists', 'first', 'num', 'var'):
                r = t
            else:
                r = rebuild(t, [go(a) if isinstance(a, T) else a for a in t.args])
        memo[t] = r
        return r
    return go(t)


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    st = [t]
    out = []
    while st:
        u = st.pop()
        if u in seen:
            continue
        seen.add(u)
        out.append(u)
        for a in u.args:
            if isinstance(a, T):
                st.append(a)
    return out


# ---- interpreted function symbols
def fapp(name, *args, sort='R'):
    f = _FN.get(name)
    if f is not None and len(args) == 1:
        return f(args[0])
    return app(name, *args, sort=sort)


def _canon_num(a):
    if isnum(a) and a.args[0].denominator == 1 and a.sort != 'I':
        return _mk('num', a.args, 'I')
    return a


def exp(a):
    a = b2i(a)
    if isnum(a) and a.args[0] == 0:
        return num(Fraction(1))
    return _mk('app', ('exp', _canon_num(a)), 'R')


def log(a):
    a = b2i(a)
    if isnum(a) and a.args[0] == 1:
        return num(Fraction(0))
    if a.op == 'app' and a.args[0] == 'exp':
        return a.args[1]       # logs are of positive reals
    a = _canon_num(a)
    if a.op == 'pow' and isnum(a.args[0]) and a.args[0].args[0] > 0 and not isnum(a.args[1]):
        return mul(a.args[1], log(a.args[0]))
    if a.op == 'ite' and any(x.op == 'pow' or x.op == 'app' and x.args[0] == 'exp' for x in a.args[1:]):
        return ite(a.args[0], log(a.args[1]), log(a.args[2]))
    return _mk('app', ('log', a), 'R')


def sin(a):
    a = b2i(a)
    if isnum(a) and a.args[0] == 0:
        return num(Fraction(0))
    return _mk('app', ('sin', a), 'R')


def cos(a):
    a = b2i(a)
    if isnum(a) and a.args[0] == 0:
        return num(Fraction(1))
    return _mk('app', ('cos', a), 'R')


def tan(a):
    return div(sin(a), cos(a))


def sinh(a):
    return div(sub(exp(a), exp(neg(a))), num(2))


def cosh(a):
    return div(add(exp(a), exp(neg(a))), num(2))


def tanh(a):
    return div(sinh(a), cosh(a))


def sqrt(a):
    a = b2i(a)
    if isnum(a):
        v = a.args[0]
        if v >= 0:
            import math
            p, q = math.isqrt(v.numerator), math.isqrt(v.denominator)
            if p * p == v.numerator and q * q == v.denominator:
                return num(Fraction(p, q))
    return power(a, num(Fraction(1, 2)))


_FN = {'exp': exp, 'log': log, 'sin': sin, 'cos': cos}


def show(t, depth=12):
    if not isinstance(t, T):
        return repr(t)
    op = t.op
    if op == 'num':
        return str(t.args[0])
    if op == 'var':
        return t.args[0]
    if op in ('true', 'false'):
        return op
    if depth <= 0:
        return '..'
    s = [show(a, depth - 1) if isinstance(a, T) else a for a in t.args]
    if op == 'add':
        return '(' + ' + '.join(s) + ')'
    if op == 'mul':
        return '*'.join(s)
    if op == 'pow':
        return '%s^%s' % (s[0], s[1])
    if op == 'app':
        return '%s(%s)' % (s[0], ', '.join(s[1:])) if len(s) > 1 else s[0]
    if op == 'ite':
        return 'ite(%s, %s, %s)' % tuple(s)
    if op in ('lt', 'le', 'eq'):
        return '%s %s %s' % (s[0], {'lt': '<', 'le': '<=', 'eq': '=='}[op], s[1])
    if op == 'ile':
        return '%s <= 0' % s[0]
    if op == 'ieq':
        return '%s == 0' % s[0]
    if op in ('and', 'or'):
        return '(' + (' %s ' % op).join(s) + ')'
    if op == 'not':
        return '!(%s)' % s[0]
    return '%s(%s)' % (op, ', '.join(s))
