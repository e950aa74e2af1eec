"""Operators, indexing and models of builtins / math / numpy / operator.

Each model is the mathematical meaning of the function (trusted base)."""
import ast
import itertools
import operator as _op
from fractions import Fraction
from . import terms as tm
from .terms import T, num, TRUE, FALSE
from .prove import Fail
from . import interp as ip
from .interp import (Arr, Buf, Dim, plain, LList, PDict, PSet, Seq, FSeq, Obj, Cls, Func, Bound, Builtin, Namespace,
                     TypeVal, Opaque, Poison, Lazy, Iter, Prop, SuperProxy, Module, PreList, Unsupported,
                     PyExc, MISSING, Fn, Abstract, conc, lift, isnumber, samedim)


# ------------------------------------------------------------------ coercion
def toarr(I, v):
    """numpy.asarray view of v (Arr for sequences, scalar stays scalar)"""
    if isinstance(v, Lazy):
        v = v.thunk()
    if isinstance(v, Arr):
        return v
    if isnumber(v):
        return v
    if isinstance(v, LList):
        v = v.v
    if isinstance(v, Iter):
        c = v.concrete()
        if c is None:
            raise Unsupported('array from iterator')
        v = c
    if isinstance(v, FSeq):
        x = v.x
        return Arr([Dim((num(1),), lambda i: v.c)], lambda i: lift(x), 'f')
    if isinstance(v, Seq):
        k = tm.fresh('e', 'I')
        s = v.fn(k)
        if isnumber(s):
            return Arr([plain(v.n)], lambda i: lift(v.fn(i)), 'i' if lift(s).sort == 'I' else 'f')
        s = toarr(I, s)
        return Arr([plain(v.n)] + list(s.dims), lambda i, *r: toarr(I, v.fn(i)).at(*r), s.dtype)
    if isinstance(v, (list, tuple)):
        if len(v) == 0:
            return Arr([plain(0)], lambda i: num(0), 'f')
        xs = [toarr(I, x) for x in v]
        if all(isnumber(x) for x in xs):
            ts = [lift(x) for x in xs]
            dt = 'b' if all(t.sort == 'B' for t in ts) else ('i' if all(t.sort in 'IB' for t in ts) else 'f')
            if dt != 'b':
                ts = [tm.b2i(t) for t in ts]
            return Arr([plain(len(ts))], lambda i: pick(ts, i), dt)
        if all(isinstance(x, Arr) for x in xs):
            fs = [x.snap() for x in xs]
            d0 = xs[0].dims
            for x in xs[1:]:
                if len(x.dims) != len(d0):
                    raise Unsupported('ragged array')
                for a, b in zip(d0, x.dims):
                    same_len(I, a, b)
            return Arr([plain(len(xs))] + list(d0), lambda i, *r: pick([lift(f(*r)) for f in fs], i), xs[0].dtype)
    if isinstance(v, Obj) and isinstance(v.cls, Cls):
        raise Unsupported('array of objects')
    raise Unsupported('asarray(%r)' % (v,))


def pick(ts, i):
    i = conc(i)
    if isinstance(i, int):
        return ts[i]
    r = ts[-1]
    for k in range(len(ts) - 2, -1, -1):
        r = tm.ite(tm.eq(i, num(k)), ts[k], r)
    return r


def same_len(I, a, b):
    if samedim(a, b):
        return a
    if a.plain and b.plain:
        I.require(tm.eq(a.size, b.size), 'equal lengths')
        return a
    raise Unsupported('different domains %s %s' % (a.key(), b.key()))


def isone(d):
    return d.plain and conc(d.size) == 1


def bdims(I, arrs):
    nd = max(a.ndim for a in arrs)
    dims = [None] * nd
    for a in arrs:
        off = nd - a.ndim
        for k, d in enumerate(a.dims):
            if isone(d):
                continue
            if dims[off + k] is None:
                dims[off + k] = d
            else:
                cur = dims[off + k]
                if not samedim(cur, d):
                    same_len(I, cur, d)
    return [plain(1) if d is None else d for d in dims]


def reader(a, dims):
    """element function of array a broadcast to dims"""
    f = a.snap()
    off = len(dims) - a.ndim
    ones = [isone(d) for d in a.dims]

    def at(*idx):
        ix = idx[off:]
        ix = tuple(zero_idx(d) if o else x for o, x, d in zip(ones, ix, a.dims))
        return f(*ix)
    return at


def zero_idx(d):
    return num(0) if len(d.sizes) == 1 else tuple(num(0) for _ in d.sizes)


def elementwise(I, f, args, dtype=None):
    args = [toarr(I, a) for a in args]
    arrs = [a for a in args if isinstance(a, Arr)]
    if not arrs:
        return conc(f(*[lift(a) for a in args]))
    dims = bdims(I, arrs)
    rs = [reader(a, dims) if isinstance(a, Arr) else (lambda t: (lambda *ix: t))(lift(a)) for a in args]
    if dtype is None:
        dtype = 'f'
        if all((a.dtype in 'ib') if isinstance(a, Arr) else lift(a).sort in 'IB' for a in args):
            dtype = 'i'
    return Arr(dims, lambda *ix: lift(f(*[lift(r(*ix)) for r in rs])), dtype)


def _div(a, b):
    return tm.toreal(tm.div(a, b))


def _floor(x):
    x = tm.b2i(x)
    if x.op == 'num':
        v = x.args[0]
        return num(int(v.numerator // v.denominator))
    if x.sort == 'I':
        return x
    return tm.app('floor', x, sort='I')


def _mod(a, b):
    a, b = tm.b2i(a), tm.b2i(b)
    if a.op == 'num' and b.op == 'num':
        return num(a.args[0] % b.args[0]) if a.sort == 'R' or b.sort == 'R' else num(int(a.args[0] % b.args[0]))
    return tm.app('mod', a, b, sort='I' if a.sort == 'I' and b.sort == 'I' else 'R')


def _floordiv(a, b):
    a, b = tm.b2i(a), tm.b2i(b)
    if a.op == 'num' and b.op == 'num':
        if b.args[0] == 0:
            raise PyExc('ZeroDivisionError')
        return num(int(a.args[0] // b.args[0]))
    return tm.app('floordiv', a, b, sort='I' if a.sort == 'I' and b.sort == 'I' else 'R')


def _bitand(a, b):
    if a.sort == 'B' and b.sort == 'B':
        return tm.land(a, b)
    raise Unsupported('bitwise and of numbers')


def _bitor(a, b):
    if a.sort == 'B' and b.sort == 'B':
        return tm.lor(a, b)
    raise Unsupported('bitwise or of numbers')


def _xor(a, b):
    if a.sort == 'B' and b.sort == 'B':
        return tm.lor(tm.land(a, tm.lnot(b)), tm.land(tm.lnot(a), b))
    raise Unsupported('bitwise xor of numbers')


BIN = {'Add': tm.add, 'Sub': tm.sub, 'Mult': tm.mul, 'Div': _div, 'Pow': tm.power, 'Mod': _mod, 'FloorDiv': _floordiv,
       'BitAnd': _bitand, 'BitOr': _bitor, 'BitXor': _xor}
PYOP = {'Add': _op.add, 'Sub': _op.sub, 'Mult': _op.mul, 'Mod': _op.mod, 'FloorDiv': _op.floordiv, 'Pow': _op.pow,
        'BitAnd': _op.and_, 'BitOr': _op.or_, 'BitXor': _op.xor, 'LShift': _op.lshift, 'RShift': _op.rshift}
DUN = {'Add': 'add', 'Sub': 'sub', 'Mult': 'mul', 'Div': 'truediv', 'Pow': 'pow', 'Mod': 'mod', 'FloorDiv': 'floordiv'}
NI = Opaque('NotImplemented')


def binop(I, op, a, b):
    if isinstance(a, Lazy):
        a = a.thunk()
    if isinstance(b, Lazy):
        b = b.thunk()
    if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
        if op == 'Div':
            if b == 0:
                raise PyExc('ZeroDivisionError')
            return num(Fraction(a, b))
        if op == 'Pow' and b < 0:
            return num(Fraction(a) ** b)
        if op in PYOP:
            try:
                return PYOP[op](a, b)
            except ZeroDivisionError:
                raise PyExc('ZeroDivisionError')
    if isinstance(a, str) or isinstance(a, Opaque) or isinstance(b, str) or isinstance(b, Opaque):
        if isinstance(a, str) and isinstance(b, str) and op == 'Add':
            return a + b
        if isinstance(a, str) and isinstance(b, int) and op == 'Mult':
            return a * b
        if isinstance(a, str) and op == 'Mod':
            if isinstance(b, (str, int)) or (isinstance(b, tuple) and all(isinstance(x, (str, int)) for x in b)):
                return a % b
            return Opaque('str')
        if op in ('Add', 'Mod') and all(isinstance(x, (str, Opaque)) or getattr(x, 'is_str', False) for x in (a, b)):
            return Opaque('str')
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            raise Unsupported('operation on %r %r' % (a, b))
        raise PyExc('TypeError')
    for x, y, pre in ((a, b, '__'), (b, a, '__r')):
        if isinstance(x, Obj) and isinstance(x.cls, Cls) and op in DUN:
            m = x.cls.lookup(pre + DUN[op] + '__')
            if m is not MISSING:
                r = I.call(m, [x, y])
                if r is not NI:
                    return r
    if isinstance(a, Obj) or isinstance(b, Obj):
        raise PyExc('TypeError', ('unsupported operand',))
    if isinstance(a, tuple) and isinstance(b, tuple) and op == 'Add':
        return a + b
    if isinstance(a, tuple) and isinstance(b, int) and op == 'Mult':
        return a * b
    if isinstance(a, LList) and isinstance(b, LList) and op == 'Add':
        if isinstance(a.v, list) and isinstance(b.v, list):
            return LList(a.v + b.v)
        raise Unsupported('symbolic list concatenation')
    if op == 'Mult' and (isinstance(a, LList) or isinstance(b, LList)):
        l, n = (a, b) if isinstance(a, LList) else (b, a)
        if isinstance(n, Arr):
            return elementwise(I, tm.mul, [a, b])
        if isinstance(l.v, list):
            if isinstance(n, int):
                return LList(l.v * n)
            if isinstance(n, T) and n.sort == 'I' and len(l.v) == 1:
                x = l.v[0]
                return LList(Seq(n, lambda i: x))
        raise Unsupported('list repetition')
    if a is None or b is None:
        raise PyExc('TypeError', ('NoneType operand',))
    if op in ('Mult', 'Add', 'Sub') and all(isinstance(x, Arr) and x.dtype == 'b' for x in (a, b)):
        if op == 'Sub':
            raise PyExc('TypeError', ('numpy boolean subtract',))
        return elementwise(I, tm.land if op == 'Mult' else tm.lor, [a, b], dtype='b')
    if op in BIN:
        if isinstance(a, Arr) or isinstance(b, Arr) or (isnumber(a) and isnumber(b)):
            try:
                return elementwise(I, BIN[op], [a, b], dtype='b' if op.startswith('Bit') else None if op not in ('Div',) else 'f')
            except tm.DivByZero:
                if not (isinstance(a, Arr) or isinstance(b, Arr)):
                    raise PyExc('ZeroDivisionError')
                raise
    if op == 'MatMult':
        return dot(I, a, b)
    if isinstance(a, (LList, tuple, PDict, Func, Cls, Builtin)) or isinstance(b, (LList, tuple, PDict, Func, Cls, Builtin)):
        raise PyExc('TypeError')
    raise Unsupported('%s of %r and %r' % (op, a, b))


def unop(I, op, v):
    if isinstance(v, Lazy):
        v = v.thunk()
    if op == 'USub':
        if isinstance(v, int):
            return -v
        if isinstance(v, Obj):
            m = v.cls.lookup('__neg__')
            return I.call(m, [v])
        return elementwise(I, tm.neg, [v])
    if op == 'UAdd':
        return v
    if op == 'Invert':
        if isinstance(v, bool):
            raise Unsupported('~bool')
        if isinstance(v, int):
            return ~v
        return elementwise(I, tm.lnot, [v], 'b')
    raise Unsupported(op)


CMP = {'Lt': tm.lt, 'LtE': tm.le, 'Gt': tm.gt, 'GtE': tm.ge, 'Eq': tm.eq, 'NotEq': tm.ne}
PCMP = {'Lt': _op.lt, 'LtE': _op.le, 'Gt': _op.gt, 'GtE': _op.ge, 'Eq': _op.eq, 'NotEq': _op.ne}


def compare(I, op, a, b):
    if isinstance(a, Lazy):
        a = a.thunk()
    if isinstance(b, Lazy):
        b = b.thunk()
    if op in ('Is', 'IsNot'):
        if a is None or b is None:
            r = a is b
            x = b if a is None else a
            if isinstance(x, ip.Maybe):
                return conc(x.isnone if op == 'Is' else tm.lnot(x.isnone))
        elif isinstance(a, (bool, T)) and isinstance(b, (bool, T)):
            r = a is b if isinstance(a, bool) or isinstance(b, bool) else lift(a) is lift(b)
        else:
            r = a is b
        return r if op == 'Is' else not r
    if op in ('In', 'NotIn'):
        c = contains(I, b, a)
        return c if op == 'In' else conc(tm.lnot(num(c)))
    if isinstance(a, (str, Opaque)) or isinstance(b, (str, Opaque)):
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            raise Unsupported('comparing opaque values')
        if isinstance(a, str) and isinstance(b, str):
            return PCMP[op](a, b)
        if op == 'Eq':
            return False
        if op == 'NotEq':
            return True
        raise PyExc('TypeError')
    if (a is None or b is None) and op in ('Eq', 'NotEq') and isinstance(b if a is None else a, ip.Maybe):
        return compare(I, 'Is' if op == 'Eq' else 'IsNot', a, b)
    if isinstance(a, Obj) or isinstance(b, Obj):
        x = a if isinstance(a, Obj) else b
        y = b if x is a else a
        nm = {'Eq': '__eq__', 'NotEq': '__ne__', 'Lt': '__lt__', 'Gt': '__gt__', 'LtE': '__le__', 'GtE': '__ge__'}[op]
        m = x.cls.lookup(nm) if isinstance(x.cls, Cls) else MISSING
        if m is MISSING and op == 'NotEq':
            m = x.cls.lookup('__eq__') if isinstance(x.cls, Cls) else MISSING
            if m is not MISSING:
                return conc(tm.lnot(I.cond(I.call(m, [x, y]))))
        if m is not MISSING:
            return I.call(m, [x, y])
        if op == 'Eq':
            return a is b
        if op == 'NotEq':
            return a is not b
        raise Unsupported('object comparison')
    if a is None or b is None:
        if op in ('Eq', 'NotEq') and not isinstance(a, Arr) and not isinstance(b, Arr):
            return (a is b) == (op == 'Eq')
        raise PyExc('TypeError', ('NoneType comparison',))
    if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
        return PCMP[op](a, b)
    if isinstance(a, tuple) and isinstance(b, tuple) and op in ('Eq', 'NotEq'):
        if len(a) != len(b):
            return op == 'NotEq'
        c = tm.land(*[I.cond(compare(I, 'Eq', x, y)) for x, y in zip(a, b)])
        return conc(c if op == 'Eq' else tm.lnot(c))
    if isinstance(a, LList) and isinstance(b, LList) and op in ('Eq', 'NotEq'):
        if isinstance(a.v, list) and isinstance(b.v, list):
            return compare(I, op, tuple(a.v), tuple(b.v))
        raise Unsupported('symbolic list comparison')
    if (isinstance(a, (LList, tuple, PDict)) and isnumber(b)) or (isinstance(b, (LList, tuple, PDict)) and isnumber(a)):
        if op in ('Eq', 'NotEq'):
            return op == 'NotEq'
        raise PyExc('TypeError')
    if isinstance(a, (TypeVal, Cls, Func, Builtin)) or isinstance(b, (TypeVal, Cls, Func, Builtin)):
        r = a is b or (isinstance(a, TypeVal) and isinstance(b, TypeVal) and a.name == b.name)
        return r if op == 'Eq' else not r
    return elementwise(I, CMP[op], [a, b], 'b')


def contains(I, c, x):
    if isinstance(c, Obj) and '__contains__' in c.d:
        return I.call(c.d['__contains__'], [x])
    if isinstance(c, str):
        if isinstance(x, str):
            return x in c
        raise Unsupported('in str')
    if isinstance(c, PDict):
        return I.hashkey(x) in c.v
    if isinstance(c, LList):
        c = c.v
    if isinstance(c, (tuple, list)):
        r = FALSE
        for y in c:
            if isinstance(y, str) or isinstance(x, str) or y is None or x is None:
                if type(x) == type(y) and x == y:
                    return True
                continue
            r = tm.lor(r, I.cond(compare(I, 'Eq', x, y)))
        return conc(r)
    if isinstance(c, Iter) and c.arr is not None:
        c = c.arr
    if isinstance(c, Arr) and c.ndim == 1:
        f = c.snap()
        d = c.dims[0]
        vs = tuple(tm.fresh('q', 'I') for _ in d.sizes)
        cond = tm.land(d.condat(vs), tm.eq(f(*([vs] if len(vs) > 1 else vs)), lift(x)))
        for v, s in zip(vs, d.sizes):
            cond = tm.exists(v, s, cond)
        return conc(cond)
    raise Unsupported('in %r' % (c,))


# ------------------------------------------------------------------ indexing
def norm_index(I, k, d, what='index'):
    k = conc(k)
    if not d.plain:
        raise Unsupported('integer index into a filtered domain')
    if isinstance(k, int):
        n = conc(d.size)
        if isinstance(n, int):
            if k < -n or k >= n:
                raise PyExc('IndexError', ('index out of range',))
            return num(k if k >= 0 else n + k)
        if k < 0:
            r = tm.add(d.size, num(k))
            I.require(tm.le(num(0), r), what + ' in bounds')
            return r
        I.require(tm.lt(num(k), d.size), what + ' in bounds')
        return num(k)
    k = lift(k)
    if k.sort != 'I':
        raise PyExc('IndexError', ('non-integer index',))
    return wrap_index(I, k, d.size, what)


def wrap_index(I, k, n, what):
    """Python's reading of a possibly negative index; the bounds are an obligation"""
    k, n = lift(k), lift(n)
    if I.facts.entails(I.pc, tm.le(num(0), k)):
        I.require(tm.land(tm.le(num(0), k), tm.lt(k, n)), what + ' in bounds')
        return k
    if n.op != 'num' and not I.facts.entails(I.pc, tm.lt(k, num(0))):
        I.require(tm.land(tm.le(num(0), k), tm.lt(k, n)), what + ' in bounds')
        return k
    I.require(tm.land(tm.le(tm.neg(n), k), tm.lt(k, n)), what + ' in bounds')
    return tm.ite(tm.lt(k, num(0)), tm.add(k, n), k)


def slice_dim(I, s, d):
    """-> (Dim, map new index -> old index)"""
    if not d.plain:
        if s == slice(None):
            return d, (lambda i: i)
        if s == slice(None, None, -1):
            raise Unsupported('reversed filtered domain')
        raise Unsupported('slice of filtered domain')
    n = d.size
    st = s.step
    st = 1 if st is None else conc(st)
    if not isinstance(st, int) or st == 0:
        raise Unsupported('symbolic step')

    def pos(x, default):
        if x is None:
            return num(default) if isinstance(default, int) else default
        x = conc(x)
        if isinstance(x, int):
            cn = conc(n)
            if isinstance(cn, int):
                if x < 0:
                    x += cn
                return num(min(max(x, 0), cn))
            if x < 0:
                r = tm.add(n, num(x))
                if not I.facts.entails(I.pc, tm.le(num(0), r)):
                    r = tm.maxt(r, num(0))
                return r
            if x == 0 or I.facts.entails(I.pc, tm.le(num(x), n)):
                return num(x)
            return tm.mint(num(x), n)
        x = lift(x)
        if I.facts.entails(I.pc, tm.land(tm.le(num(0), x), tm.le(x, n))):
            return x
        raise Unsupported('slice bound %s' % tm.show(x, 5))
    if st > 0:
        a, b = pos(s.start, 0), pos(s.stop, n)
        ln = tm.sub(b, a)
        if st != 1:
            cl = conc(ln)
            if not isinstance(cl, int):
                raise Unsupported('strided symbolic slice')
            ln = num(max(0, -(-cl // st)))
        elif not I.facts.entails(I.pc, tm.le(num(0), ln)):
            ln = tm.maxt(ln, num(0))
        return plain(ln), (lambda i: tm.add(a, tm.mul(num(st), i)))
    if st == -1 and s.start is None and s.stop is None:
        return d, (lambda i: tm.sub(tm.sub(n, num(1)), i))
    cn = conc(n)
    if isinstance(cn, int):
        def cint(x):
            x = conc(x)
            if x is not None and not isinstance(x, int):
                raise Unsupported('slice')
            return x
        r = range(cn)[slice(cint(s.start), cint(s.stop), st)]
        return plain(len(r)), (lambda i: tm.add(num(r.start if len(r) else 0), tm.mul(num(r.step), i)))
    if st == -1:
        def posr(x, default):
            if x is None:
                return default
            x = conc(x)
            if isinstance(x, int):
                return num(x) if x >= 0 else tm.add(n, num(x))
            return lift(x)
        a = posr(s.start, tm.sub(n, num(1)))
        b = posr(s.stop, num(-1))
        ln = tm.sub(a, b)
        I.require(tm.land(tm.le(num(0), ln), tm.lt(a, n), tm.le(num(-1), b)), 'slice in bounds')
        return plain(ln), (lambda i: tm.sub(a, i))
    raise Unsupported('negative step slice')


NEWAXIS = None


def expand_key(I, a, k):
    if not isinstance(k, tuple):
        k = (k,)
    n = sum(1 for x in k if x is not None and x is not Ellipsis and not (isinstance(x, Arr) and x.dtype == 'b' and x.ndim > 1))
    n += sum(x.ndim for x in k if isinstance(x, Arr) and x.dtype == 'b' and x.ndim > 1)
    out = []
    for x in k:
        if x is Ellipsis:
            out += [slice(None)] * (a.ndim - n)
        else:
            out.append(x)
    if Ellipsis not in [x for x in k if x is Ellipsis]:
        out += [slice(None)] * (a.ndim - n)
    return out


def is_fancy(x):
    return isinstance(x, (Arr, LList)) and not (isinstance(x, Arr) and x.ndim == 0)


def index_plan(I, a, k):
    """basic indexing plan: (dims, map) ; fancy: handled by caller"""
    dims = []
    maps = []       # per source dim: function(newidx list)->old idx
    src = 0
    pos = 0
    for x in expand_key(I, a, k):
        if x is None:
            dims.append(plain(1))
            pos += 1
            continue
        if src >= a.ndim:
            raise PyExc('IndexError', ('too many indices',))
        d = a.dims[src]
        if isinstance(x, slice):
            nd, m = slice_dim(I, x, d)
            dims.append(nd)
            maps.append((pos, m))
            pos += 1
        else:
            if isinstance(x, Arr) and x.ndim == 0:
                x = x.at()
            if d.plain:
                i = norm_index(I, x, d)
            else:
                if conc(x) in (0, -1) and len(d.sizes) == 1:
                    v = tm.fresh('q', 'I')
                    I.require(d.nonempty(), 'index into a possibly empty selection')
                    i = tm.first(v, d.size, d.condat((v,)), last=(conc(x) == -1))
                elif isinstance(x, T) and I.facts.entails(I.pc, d.inrange(x)):
                    i = x
                else:
                    raise Unsupported('index %r into a filtered domain' % (x,))
            maps.append((None, i))
        src += 1
    def vmap(*idx):
        return tuple(m(idx[p]) if p is not None else m for p, m in maps)
    return dims, vmap


class Cycle(ip.Cell):
    """itertools.cycle of a concrete sequence"""

    def __init__(self, vs):
        ip.Cell.__init__(self)
        self.d.update(vs=list(vs), at=0)


def divmod_term(I, k, n):
    """quotient and remainder of the integer term k by n > 0, when they can be read off its terms"""
    q, r = [], []
    for t in (k.args if k.op == 'add' else (k,)):
        fs = list(t.args) if t.op == 'mul' else [t]
        if n in fs:
            fs.remove(n)
            q.append(tm.mul(*fs) if fs else num(1))
        elif n.op == 'num' and t.op == 'mul' and t.args[0].op == 'num' and (t.args[0].args[0] / n.args[0]).denominator == 1:
            q.append(tm.mul(num(t.args[0].args[0] / n.args[0]), *t.args[1:]))
        else:
            r.append(t)
    q, r = tm.add(*q) if q else num(0), tm.add(*r) if r else num(0)
    if not I.facts.entails(I.pc, tm.land(tm.le(num(0), r), tm.lt(r, n))):
        raise Unsupported('position in a flattened array')
    return q, r


class FlatView(object):
    """ndarray.flat (only the first item may be read)"""

    def __init__(self, a):
        self.a = a


def getitem(I, o, k):
    if isinstance(o, Lazy):
        o = o.thunk()
    if isinstance(o, FlatView):
        if conc(k) != 0:
            raise Unsupported('item of a flattened view')
        return getitem(I, o.a, (0,) * o.a.ndim)
    if isinstance(o, Iter) and o.arr is not None:
        o = o.arr
    if isinstance(o, Arr):
        ks = k if isinstance(k, tuple) else (k,)
        if any(is_fancy(x) for x in ks):
            dims, vmap = fancy(I, o, k)
            f = o.snap()
            return Arr(dims, lambda *ix: f(*vmap(*ix)), o.dtype)
        dims, vmap = index_plan(I, o, k)
        if not dims:
            return conc(lift(o.at(*vmap())))
        om = o.vmap
        m2 = vmap if om is None else (lambda *ix: om(*vmap(*ix)))
        return Arr(dims, None, o.dtype, buf=o.buf, vmap=m2)
    if isinstance(o, LList):
        o2 = o.v
        if isinstance(o2, list):
            return index_list(I, o2, k, True)
        if isinstance(o2, Seq):
            return index_seq(I, o2, k, True)
        if isinstance(o2, FSeq):
            if conc(k) in (0, -1):
                I.require(o2.c, 'index into possibly empty list')
                return o2.x
        if isinstance(o2, PreList):
            if not o2.stores and not o2.appended and isinstance(o2.init, Seq):
                return o2.item(lift(k))
        raise Unsupported('list index')
    if isinstance(o, Abstract) and hasattr(o, 'item'):
        return o.item(I, k)
    if isinstance(o, tuple):
        return index_list(I, list(o), k, False)
    if isinstance(o, range):
        r = list(o)
        return index_list(I, r, k, False)
    if isinstance(o, PDict):
        kk = I.hashkey(k)
        if kk not in o.v:
            raise PyExc('KeyError', (kk,))
        return o.v[kk]
    if isinstance(o, Indexer):
        return o.f(k)
    if isinstance(o, str):
        k = k if isinstance(k, slice) else conc(k)
        try:
            return o[k]
        except IndexError:
            raise PyExc('IndexError')
    if isinstance(o, Obj):
        m = o.cls.lookup('__getitem__') if isinstance(o.cls, Cls) else MISSING
        if m is not MISSING:
            return I.call(m, [o, k])
        raise PyExc('TypeError', ('not subscriptable',))
    if isnumber(o) or o is None:
        raise PyExc('TypeError', ('not subscriptable',))
    if isinstance(o, Namespace) and 'getitem' in o.d:
        return o.d['getitem'](k)
    raise Unsupported('subscript of %r' % (o,))


def index_list(I, l, k, islist):
    if isinstance(k, slice):
        def c(x):
            x = conc(x)
            if x is not None and not isinstance(x, int):
                raise Unsupported('symbolic slice of a list')
            return x
        r = l[slice(c(k.start), c(k.stop), c(k.step))]
        return LList(r) if islist else tuple(r)
    k = conc(k)
    if isinstance(k, bool):
        k = int(k)
    if isinstance(k, int):
        if k < -len(l) or k >= len(l):
            raise PyExc('IndexError', ('list index',))
        return l[k]
    if isinstance(k, T):
        if k.sort == 'B':
            k = tm.b2i(k)
        if k.sort != 'I':
            raise PyExc('TypeError', ('list index',))
        if not l:
            raise PyExc('IndexError')
        I.require(tm.land(tm.le(num(0), k), tm.lt(k, num(len(l)))), 'list index in bounds')
        r = l[-1]
        for i in range(len(l) - 2, -1, -1):
            r = I.vmerge(tm.eq(k, num(i)), l[i], r)
        return r
    raise PyExc('TypeError', ('list index',))


def index_seq(I, s, k, islist):
    if isinstance(k, slice):
        d, m = slice_dim(I, k, plain(s.n))
        return LList(Seq(d.size, lambda i: s.fn(m(i))))
    i = norm_index(I, k, plain(s.n), 'list index')
    return s.fn(i)


def positions(I, x, d):
    """the positions selected by a mask of known values"""
    n = conc(x.dims[0].length())
    if not (isinstance(n, int) and x.dims[0].plain and d.plain and conc(d.size) == n):
        return x
    v = [conc(lift(y)) for y in (I.iter_concrete(x) or ())]
    if len(v) != n or not all(isinstance(y, bool) for y in v):
        return x
    return toarr(I, [i for i, y in enumerate(v) if y])


def fancy(I, a, k):
    """advanced indexing (index arrays and masks) -> dims, map"""
    ks = expand_key(I, a, k)
    src = 0
    entries = []         # per source dim entries
    fdims = None
    nfancy_pos = None
    out_slots = []       # sequence of ('f',) or ('s', dim)
    parts = []
    for x in ks:
        if x is None:
            out_slots.append(('n', plain(1)))
            continue
        if isinstance(x, LList):
            x = toarr(I, x)
        if isinstance(x, Arr) and x.dtype == 'b' and x.ndim == 1:
            x = positions(I, x, a.dims[src])
        if isinstance(x, Arr) and x.dtype == 'b':
            # boolean mask over x.ndim source dims
            ms = x.snap()
            if x.ndim == 1:
                d = a.dims[src]
                xd = x.dims[0]
                same_len(I, d, xd)
                nd = Dim(d.sizes, (lambda d, ms: (lambda *i: tm.land(d.condat(i), lift(ms(*(i if len(i) == 1 else (i,)))))))(d, ms))
                parts.append(('fancy', [nd], lambda *j: j[0]))
                src += 1
                if 'f' not in [s[0] for s in out_slots]:
                    out_slots.append(('f', None))
                continue
            sizes = []
            for q in range(x.ndim):
                if not a.dims[src + q].plain:
                    raise Unsupported('mask over filtered dims')
                sizes.append(a.dims[src + q].size)
            nd = Dim(sizes, lambda *i: lift(ms(*i)))
            for q in range(x.ndim):
                parts.append(('fancy', [nd], (lambda q: (lambda *j: j[0][q]))(q)))
                src += 1
            if 'f' not in [s[0] for s in out_slots]:
                out_slots.append(('f', None))
            continue
        d = a.dims[src]
        if isinstance(x, Arr) and x.ndim > 0:
            f = x.snap()
            if d.plain and conc(d.size).__class__ is int:
                # a table of fixed length may be indexed from its end
                f = (lambda f, n: (lambda *j: (lambda t: tm.ite(tm.lt(t, num(0)), tm.add(t, num(n)), t))(lift(f(*j)))))(f, conc(d.size))
            parts.append(('fancy', list(x.dims), (lambda f: (lambda *j: f(*j)))(f), x, d))
            if 'f' not in [s[0] for s in out_slots]:
                out_slots.append(('f', None))
        elif isinstance(x, slice):
            nd, m = slice_dim(I, x, d)
            parts.append(('slice', nd, m))
            out_slots.append(('s', nd))
        else:
            i = norm_index(I, x, d)
            parts.append(('const', i))
        src += 1
    # broadcast fancy dims
    fl = [p for p in parts if p[0] == 'fancy']
    class _A(object):
        pass
    arrs = []
    for p in fl:
        o = _A()
        o.dims = p[1]
        o.ndim = len(p[1])
        arrs.append(o)
    fd = bdims(I, arrs)
    dims = []
    layout = []
    for s in out_slots:
        if s[0] == 'f':
            layout.append(('f', len(dims), len(fd)))
            dims += fd
        else:
            layout.append((s[0], len(dims), 1))
            dims.append(s[1])
    fpos = [l[1] for l in layout if l[0] == 'f'][0]
    spos = [l[1] for l in layout if l[0] == 's']
    # bounds of integer index arrays
    for p in fl:
        if len(p) > 3:
            x, d = p[3], p[4]
            ix = [dd.fresh('b') for dd in x.dims]
            t = tm.num(p[2](*ix))
            rng = [dd.inrange(i) for dd, i in zip(x.dims, ix)]
            if d.plain:
                I2pc = list(I.pc)
                I.pc.extend(rng)
                try:
                    if t.op == 'num' and t.args[0] < 0:
                        raise Unsupported('negative index array')
                    I.require(tm.land(tm.le(num(0), t), tm.lt(t, d.size)), 'index array in bounds')
                finally:
                    del I.pc[len(I2pc):]
            else:
                raise Unsupported('index array into filtered domain')

    def vmap(*idx):
        fi = idx[fpos:fpos + len(fd)]
        out = []
        si = 0
        for p in parts:
            if p[0] == 'fancy':
                nd = len(p[1])
                j = fi[len(fd) - nd:]
                j = tuple(zero_idx(dd) if isone(dd) and not isone(fd[len(fd) - nd + q]) else jj
                          for q, (dd, jj) in enumerate(zip(p[1], j)))
                out.append(p[2](*j))
            elif p[0] == 'slice':
                out.append(p[2](idx[spos[si]]))
                si += 1
            else:
                out.append(p[1])
        return tuple(out)
    return dims, vmap


def broadcast_value(I, v, dims):
    v = toarr(I, v)
    if not isinstance(v, Arr):
        t = lift(v)
        return lambda *ix: t
    if v.ndim > len(dims):
        raise PyExc('ValueError', ('shape mismatch',))
    off = len(dims) - v.ndim
    for d, e in zip(dims[off:], v.dims):
        if not isone(e):
            same_len(I, d, e)
    return reader(v, dims)


def invert_map(I, dims, vmap, a):
    """for a source index r: (condition, new index) with vmap(new)=r ; unique"""
    def inv(*r):
        vs = tuple(d.fresh('w') for d in dims)
        img = vmap(*vs)
        eqs = []
        flatv = ip._flat(vs)
        flatr = ip._flat(r)
        flati = ip._flat(img)
        sub = {}
        conds = []
        for im, rr in zip(flati, flatr):
            im, rr = num(im), num(rr)
            im = tm.subst(im, sub)
            un = [v for v in flatv if v in tm.fv(im) and v not in sub]
            if not un:
                conds.append(tm.eq(im, rr))
                continue
            if len(un) > 1:
                raise Unsupported('index map not invertible')
            g = tm.solve_int(tm.sub(im, rr), un[0])
            if g is None:
                raise Unsupported('index map not invertible')
            sub = {k: tm.subst(v, {un[0]: g}) for k, v in sub.items()}
            sub[un[0]] = g
        for d, v in zip(dims, vs):
            if d.plain and conc(d.size) in (0, 1) and v not in sub:
                sub[v] = num(0)
        for v in flatv:
            if v not in sub:
                raise Unsupported('index map not injective')
        new = tuple(tuple(sub[x] for x in v) if isinstance(v, tuple) else sub[v] for v in vs)
        conds = [tm.subst(c, sub) for c in conds]
        for d, n in zip(dims, new):
            conds.append(d.inrange(n))
        return tm.land(*conds), new
    return inv


def setitem(I, o, k, v):
    if isinstance(o, Arr):
        ks = k if isinstance(k, tuple) else (k,)
        if alternate(I, o, ks, v):
            return
        if any(is_fancy(x) for x in ks):
            if len(ks) == 1 and o.ndim == 1 and is_fancy(ks[0]):
                x = toarr(I, ks[0])
                x = positions(I, x, o.dims[0]) if x.ndim == 1 and x.dtype == 'b' else x
                ps = [conc(lift(p)) for p in (I.iter_concrete(x) or ())] if x.ndim == 1 and x.dtype == 'i' else []
                v = toarr(I, v)
                vs = [v] * len(ps) if not isinstance(v, Arr) else I.iter_concrete(v) if v.ndim == 1 else None
                if ps and all(isinstance(p, int) for p in ps) and vs is not None and len(vs) == len(ps):
                    vs = list(vs)
                    for p, y in zip(ps, vs):
                        setitem(I, o, p, y)
                    return
            dims, vmap = fancy(I, o, k)
        else:
            dims, vmap = index_plan(I, o, k)
        store(I, o, dims, vmap, v)
        return
    if isinstance(o, LList):
        if isinstance(o.v, list):
            l = list(o.v)
            k2 = conc(k)
            if isinstance(k2, slice):
                if k2 == slice(None):
                    I.setk(o, 'v', list(I.iter_concrete(v)))
                    return
                raise Unsupported('list slice store')
            if isinstance(k2, int):
                if k2 < -len(l) or k2 >= len(l):
                    raise PyExc('IndexError')
                l[k2] = v
                I.setk(o, 'v', l)
                return
            I.require(tm.land(tm.le(num(0), k2), tm.lt(k2, num(len(l)))), 'list index in bounds')
            I.setk(o, 'v', [I.vmerge(tm.eq(k2, num(i)), v, x) for i, x in enumerate(l)])
            return
        if isinstance(o.v, PreList):
            p = o.v
            if p.appended:
                raise Unsupported('mixed list updates')
            I.setk(o, 'v', PreList(p.name, p.init, (), p.stores + ((lift(k), v),), p.reads))
            return
        if isinstance(o.v, Seq):
            s = o.v
            kk = norm_index(I, k, plain(s.n), 'list index')
            I.setk(o, 'v', Seq(s.n, lambda i: I.vmerge(tm.eq(i, kk), v, s.fn(i))))
            return
        raise Unsupported('store into list')
    if isinstance(o, PDict):
        d = dict(o.v)
        d[I.hashkey(k)] = v
        I.setk(o, 'v', d)
        return
    if isinstance(o, Obj):
        m = o.cls.lookup('__setitem__')
        if m is not MISSING:
            I.call(m, [o, k, v])
            return
    raise Unsupported('item assignment on %r' % (o,))


def alternate(I, o, ks, v):
    """a[0::2] = number or a[1::2] = number in an array of any length: alternation written with (-1)**i = cos(pi i)"""
    if len(ks) != 1 or not isinstance(ks[0], slice) or o.ndim != 1 or o.vmap is not None or o.dtype != 'f' or not o.dims[0].plain:
        return False
    s = ks[0]
    a = conc(s.start)
    a = 0 if a is None else a
    if conc(s.step) != 2 or s.stop is not None or a not in (0, 1) or isinstance(conc(o.dims[0].size), int) or not isnumber(v):
        return False
    old, t = o.buf.d['fn'], lift(v)

    def fn(*r):
        i, = ip._flat(r)
        g = tm.cos(tm.mul(tm.PI, num(i)))
        w = tm.mul(num(Fraction(1, 2)), tm.add(num(1), g) if a == 0 else tm.sub(num(1), g))
        return tm.add(tm.mul(w, t), tm.mul(tm.sub(num(1), w), lift(old(*r))))
    I.setk(o.buf, 'fn', Fn(fn))
    return True


def _prod(ns):
    r = 1
    for n in ns:
        r *= n
    return r


def table(cells):
    items = sorted(cells.items())

    def fn(*r):
        r = [num(x) for x in ip._flat(r)]
        v = items[-1][1]
        for p, t in reversed(items[:-1]):
            v = tm.ite(tm.land(*[tm.eq(x, num(q)) for x, q in zip(r, p)]), t, v)
        return v
    return fn


def store(I, a, dims, vmap, v):
    buf = a.buf
    om = a.vmap
    full = vmap if om is None else (lambda *ix: om(*vmap(*ix)))
    rd = broadcast_value(I, v, dims)
    old = buf.d['fn']
    if buf.dtype == 'i':
        # storing reals in integer arrays truncates
        ix = [d.fresh('t') for d in dims]
        t = lift(rd(*ix))
        if t.sort == 'R' and not (t.op == 'num' and t.args[0].denominator == 1):
            raise Unsupported('store of a real into an integer array')
    isb = buf.dtype == 'b'
    if not dims:
        flat = ip._flat(full())
        t = lift(rd())

        def fn(*r):
            c = tm.land(*[tm.eq(num(x), num(y)) for x, y in zip(ip._flat(r), flat)])
            return tm.ite(c, t, lift(old(*r)))
        cells = None
        pos = tuple(conc(num(x)) for x in flat)
        size = [conc(d.size) if d.plain else None for d in buf.dims]
        if all(isinstance(x, int) for x in pos + tuple(size)) and _prod(size) <= 16:
            cells = dict(getattr(old, 'cells', None) or {})
            cells[pos] = t
            if len(cells) == _prod(size):
                # every element has been stored: nothing of the earlier contents is left
                fn = table(cells)
        I.setk(buf, 'fn', Fn(fn, cells))
        return
    inv = invert_map(I, dims, full, a)
    # test invertibility eagerly
    inv(*[d.fresh('z') for d in buf.dims])

    memo = {}

    def fn(*r):
        key = tuple(ip._flat(r))
        t = memo.get(key)
        if t is None:
            c, new = inv(*r)
            # an element outside (inside) the stored part is not computed from the new (old) contents
            t = lift(rd(*new)) if c is TRUE else lift(old(*r)) if c is FALSE else tm.ite(c, lift(rd(*new)), lift(old(*r)))
            memo[key] = t
        return t
    I.setk(buf, 'fn', Fn(fn))


def store_all(I, a, r):
    if isinstance(r, Arr) and r.ndim > a.ndim:
        raise PyExc('ValueError', ('broadcast',))
    store(I, a, a.dims, lambda *ix: ix, r)


# ------------------------------------------------------------------ reductions
def sum_over(dims, f):
    """sum of f(idx...) over all dims"""
    vs = [d.fresh('s') for d in dims]
    t = lift(f(*vs))
    t = tm.b2i(t)
    for d, v in reversed(list(zip(dims, vs))):
        vv = v if isinstance(v, tuple) else (v,)
        t = tm.ite(d.condat(vv), t, num(0))
        for x, s in zip(reversed(vv), reversed(d.sizes)):
            t = tm.bsum(x, s, t)
    return t


def reduce_sum(I, a, axis=None, out=None, dtype=None, keepdims=False):
    a = toarr(I, a)
    if not isinstance(a, Arr):
        return a
    f = a.snap()
    if axis is None:
        return conc(sum_over(a.dims, f))
    ax = conc(axis)
    if isinstance(ax, tuple):
        axes = [x % a.ndim for x in ax]
    else:
        if ax < -a.ndim or ax >= a.ndim:
            raise PyExc('ValueError', ('axis out of bounds',))
        axes = [ax % a.ndim]
    keep = [i for i in range(a.ndim) if i not in axes]

    def fn(*ix):
        def g(*r):
            full = [None] * a.ndim
            for p, x in zip(keep, ix):
                full[p] = x
            for p, x in zip(axes, r):
                full[p] = x
            return f(*full)
        return sum_over([a.dims[x] for x in axes], g)
    if not keep:
        return conc(fn())
    return Arr([a.dims[i] for i in keep], fn, a.dtype if a.dtype != 'b' else 'i')


def length(I, v):
    if isinstance(v, Lazy):
        v = v.thunk()
    if isinstance(v, LList):
        v = v.v
    if isinstance(v, (list, tuple, str, dict, range)):
        return len(v)
    if isinstance(v, Seq):
        return conc(v.n)
    if isinstance(v, FSeq):
        return conc(tm.ite(v.c, num(1), num(0)))
    if isinstance(v, PDict):
        return len(v.v)
    if isinstance(v, Arr):
        if v.ndim == 0:
            raise PyExc('TypeError', ('len of unsized',))
        n = conc(v.dims[0].length())
        if not v.dims[0].plain and isinstance(n, T):
            I.dimlen[n] = v.dims[0]
        return n
    if isinstance(v, Obj) and isinstance(v.cls, Cls):
        m = v.cls.lookup('__len__')
        if m is not MISSING:
            return I.call(m, [v])
        if isinstance(v, Abstract) and hasattr(v, 'length'):
            return v.length(I)
        raise PyExc('TypeError', ('no len',))
    if isnumber(v) or v is None:
        raise PyExc('TypeError', ('no len',))
    raise Unsupported('len of %r' % (v,))


def dot(I, a, b):
    a, b = toarr(I, a), toarr(I, b)
    if not isinstance(a, Arr) or not isinstance(b, Arr):
        return elementwise(I, tm.mul, [a, b])
    f, g = a.snap(), b.snap()
    if a.ndim == 1 and b.ndim == 1:
        d = same_len(I, a.dims[0], b.dims[0])
        return conc(sum_over([d], lambda k: tm.mul(lift(f(k)), lift(g(k)))))
    if a.ndim == 2 and b.ndim == 2:
        d = same_len(I, a.dims[1], b.dims[0])
        return Arr([a.dims[0], b.dims[1]], lambda i, j: sum_over([d], lambda k: tm.mul(lift(f(i, k)), lift(g(k, j)))))
    if a.ndim == 2 and b.ndim == 1:
        d = same_len(I, a.dims[1], b.dims[0])
        return Arr([a.dims[0]], lambda i: sum_over([d], lambda k: tm.mul(lift(f(i, k)), lift(g(k)))))
    if a.ndim == 1 and b.ndim == 2:
        d = same_len(I, a.dims[0], b.dims[0])
        return Arr([b.dims[1]], lambda j: sum_over([d], lambda k: tm.mul(lift(f(k)), lift(g(k, j)))))
    raise Unsupported('dot')


def copy_arr(a):
    f = a.snap()
    return Arr(a.dims, f, a.dtype)


# ------------------------------------------------------------------ attributes
def getattribute(I, o, k):
    if isinstance(o, Lazy):
        o = o.thunk()
    if isinstance(o, Namespace):
        if k in o.d:
            return o.d[k]
        if getattr(o, 'complete', False):
            raise PyExc('AttributeError', (k,))
        raise Unsupported('%s.%s' % (o.name, k))
    if isinstance(o, Module):
        v = o.get(k)
        if v is not MISSING:
            return v
        try:
            return I.import_mod(o.name + '.' + k)
        except PyExc:
            raise PyExc('AttributeError', (k,))
    if isinstance(o, Abstract):
        if k in o.d:
            return o.d[k]
        m = o.cls.lookup(k) if isinstance(o.cls, Cls) else MISSING
        if isinstance(m, Func):
            return Bound(m, o)
        if hasattr(o, 'attr'):
            return o.attr(I, k)
        raise Unsupported('attribute %s of an object known by its meaning' % k)
    if isinstance(o, Obj):
        c = o.cls
        if isinstance(c, Cls):
            m = c.lookup(k)
            if isinstance(m, Prop):
                return I.call(m.fget, [o])
            if k in o.d:
                v = o.d[k]
                if isinstance(v, Poison):
                    if v.node is not None and id(v.node) not in I.nomerge:
                        I.nomerge.add(id(v.node))
                        raise ip.Restart()
                    raise Unsupported('attribute %s: %s' % (k, v.why))
                if isinstance(v, Lazy):
                    v = v.thunk()
                    I.setk(o, k, v)
                return v
            if m is not MISSING:
                if isinstance(m, Func):
                    if getattr(m, 'static', False):
                        return m
                    return Bound(m, o)
                if isinstance(m, Poison):
                    raise Unsupported(m.why)
                return m
            if k == '__class__':
                return c
            if k == '__dict__':
                return PDict({a: b for a, b in o.d.items()})
            g = c.lookup('__getattr__')
            if g is not MISSING:
                return I.call(g, [o, k])
            raise PyExc('AttributeError', (k,))
        if k in o.d:
            return o.d[k]
        raise PyExc('AttributeError', (k,))
    if isinstance(o, Cls):
        m = o.lookup(k)
        if m is not MISSING:
            return m
        if k == '__name__':
            return o.name
        raise PyExc('AttributeError', (k,))
    if isinstance(o, SuperProxy):
        mro = o.obj.cls.mro()
        i = mro.index(o.cls)
        for c in mro[i + 1:]:
            if k in c.attrs:
                return Bound(c.attrs[k], o.obj)
        if k == '__init__':
            return Builtin(lambda *a, **kw: None)
        raise PyExc('AttributeError', (k,))
    if isinstance(o, Arr):
        return arr_attr(I, o, k)
    if isinstance(o, LList):
        return list_attr(I, o, k)
    if isinstance(o, PDict):
        return dict_attr(I, o, k)
    if isinstance(o, str):
        if k == 'format':
            def fmt(*a, **kw):
                if all(isinstance(x, (str, int)) for x in a) and all(isinstance(x, (str, int)) for x in kw.values()):
                    return o.format(*a, **kw)
                return Opaque('str')
            return Builtin(fmt)
        def sm(*a):
            if any(isinstance(x, LList) and isinstance(x.v, Seq) for x in a):
                return Opaque('str')
            a = [list(x.v) if isinstance(x, LList) else x for x in a]
            if any(isinstance(x, (Opaque, T)) for x in a) or any(isinstance(x, list) and any(not isinstance(y, str) for y in x) for x in a):
                return Opaque('str')
            r = getattr(o, k)(*a)
            return LList(r) if isinstance(r, list) else r
        return Builtin(sm)
    if isinstance(o, tuple):
        if k == 'index':
            return Builtin(lambda x: list(o).index(x))
        if k == 'count':
            return Builtin(lambda x: list(o).count(x))
    if isinstance(o, Opaque):
        return Opaque(o.what + '.' + k)
    if isinstance(o, Func):
        if k == '__name__':
            return o.name
    if isinstance(o, T) or isinstance(o, int):
        if k in ('real',):
            return o
        if k == 'ndim':
            return 0
        if k == 'shape':
            return ()
        if k == 'size':
            return 1
        if k == 'copy' or k == 'item':
            return Builtin(lambda: o)
        if k == 'dtype':
            return TypeVal('float')
        raise PyExc('AttributeError', (k,))
    if o is None:
        raise PyExc('AttributeError', (k,))
    if isinstance(o, Builtin) and hasattr(o, 'attrs') and k in o.attrs:
        return o.attrs[k]
    raise Unsupported('attribute %s of %r' % (k, o))


def arr_attr(I, o, k):
    if k == 'shape':
        return tuple(conc(d.length()) for d in o.dims)
    if k == 'ndim':
        return o.ndim
    if k == 'size':
        r = 1
        for d in o.dims:
            r = conc(tm.mul(lift(r), d.length()))
        return r
    if k == 'flat':
        return FlatView(o)
    if k == 'T':
        if o.ndim < 2:
            return o
        dims = list(reversed(o.dims))
        om = o.vmap
        m = (lambda *ix: tuple(reversed(ix))) if om is None else (lambda *ix: om(*reversed(ix)))
        return Arr(dims, None, o.dtype, buf=o.buf, vmap=m)
    if k == 'dtype':
        return TypeVal({'f': 'float', 'i': 'int', 'b': 'bool', 'c': 'complex'}[o.dtype])
    if k in ('real',):
        return o
    np = I.libs['numpy'].d
    if k == 'copy':
        return Builtin(lambda *a, **kw: copy_arr(o))
    if k == 'flatten' or k == 'ravel':
        return Builtin(lambda: np['ravel'].f(o))
    if k == 'reshape':
        return Builtin(lambda *s: np['reshape'].f(o, s[0] if len(s) == 1 else tuple(s)))
    if k == 'astype':
        return Builtin(lambda *a, **kw: np['asarray'].f(copy_arr(o), *a))
    if k == 'fill':
        return Builtin(lambda v: store_all(I, o, v))
    if k == 'tolist':
        return Builtin(lambda: LList(I.iter_concrete(o)) if I.iter_concrete(o) is not None else LList(Seq(o.dims[0].size, lambda i: getitem(I, o, i))))
    if k in ('sum', 'max', 'min', 'mean', 'any', 'all', 'cumsum', 'dot', 'argmax', 'argmin', 'prod', 'nonzero', 'transpose', 'sort', 'argsort', 'conj', 'searchsorted', 'squeeze', 'repeat', 'take'):
        if k in np:
            return Builtin(lambda *a, **kw: np[k].f(o, *a, **kw))
        raise Unsupported('array method ' + k)
    raise PyExc('AttributeError', (k,))


def list_attr(I, o, k):
    def append(x):
        v = o.v
        if isinstance(v, list):
            I.setk(o, 'v', v + [x])
        elif isinstance(v, PreList):
            if v.stores:
                raise Unsupported('mixed list updates')
            I.setk(o, 'v', PreList(v.name, v.init, v.appended + (x,), ()))
        elif isinstance(v, Seq):
            n = v.n
            I.setk(o, 'v', Seq(tm.add(n, num(1)), lambda i: I.vmerge(tm.lt(i, n), v.fn(i), x)))
        else:
            raise Unsupported('append')

    def need():
        if not isinstance(o.v, list):
            raise Unsupported('list.%s on symbolic list' % k)
        return list(o.v)
    if k == 'append':
        return Builtin(append)
    if k == 'extend':
        def ext(x):
            vs = I.iter_concrete(x)
            if vs is None:
                raise Unsupported('extend')
            I.setk(o, 'v', need() + vs)
        return Builtin(ext)
    if k == 'insert':
        def ins(i, x):
            l = need()
            l.insert(conc(i), x)
            I.setk(o, 'v', l)
        return Builtin(ins)
    if k == 'pop':
        def pop(i=-1):
            l = need()
            if not l:
                raise PyExc('IndexError')
            r = l.pop(conc(i))
            I.setk(o, 'v', l)
            return r
        return Builtin(pop)
    if k == 'remove':
        def rem(x):
            l = need()
            for i, y in enumerate(l):
                if I.truth(compare(I, 'Eq', x, y)):
                    del l[i]
                    I.setk(o, 'v', l)
                    return
            raise PyExc('ValueError')
        return Builtin(rem)
    if k == 'index':
        def index(x):
            for i, y in enumerate(need()):
                if I.truth(compare(I, 'Eq', x, y)):
                    return i
            raise PyExc('ValueError')
        return Builtin(index)
    if k == 'count':
        def count(x):
            n = 0
            for y in need():
                if I.truth(compare(I, 'Eq', x, y)):
                    n += 1
            return n
        return Builtin(count)
    if k == 'reverse':
        return Builtin(lambda: I.setk(o, 'v', need()[::-1]))
    if k == 'copy':
        return Builtin(lambda: LList(o.v))
    raise PyExc('AttributeError', (k,))


def set_attr(I, o, k):
    if k == 'add':
        return Builtin(lambda x: I.setk(o, 'v', dict(o.v) | {I.hashkey(x): None}))
    if k == 'update':
        return Builtin(lambda *vs: I.setk(o, 'v', dict(o.v) | {I.hashkey(x): None for v in vs for x in I.iter_concrete(v)}))
    if k == 'copy':
        return Builtin(lambda: PSet(o.v))
    raise Unsupported('set.%s' % k)


def dict_attr(I, o, k):
    if isinstance(o, PSet):
        return set_attr(I, o, k)
    if k == 'get':
        return Builtin(lambda a, b=None: o.v.get(I.hashkey(a), b))
    if k == 'keys':
        return Builtin(lambda: LList(list(o.v)))
    if k == 'values':
        return Builtin(lambda: LList(list(o.v.values())))
    if k in ('items', 'iteritems'):
        return Builtin(lambda: LList(list(o.v.items())))
    if k == 'update':
        def upd(x=None, **kw):
            d = dict(o.v)
            if x is not None:
                d.update(x.v)
            d.update(kw)
            I.setk(o, 'v', d)
        return Builtin(upd)
    if k == 'copy':
        return Builtin(lambda: PDict(o.v))
    if k == 'pop':
        def pop(key, *dflt):
            key = I.hashkey(key)
            d = dict(o.v)
            if key in d:
                r = d.pop(key)
                I.setk(o, 'v', d)
                return r
            if dflt:
                return dflt[0]
            raise PyExc('KeyError', (key,))
        return Builtin(pop)
    if k == 'setdefault':
        def sd(key, dflt=None):
            key = I.hashkey(key)
            if key not in o.v:
                d = dict(o.v)
                d[key] = dflt
                I.setk(o, 'v', d)
            return o.v[key]
        return Builtin(sd)
    if k == 'has_key':
        return Builtin(lambda a: I.hashkey(a) in o.v)
    raise PyExc('AttributeError', (k,))


# ------------------------------------------------------------------ builtins
class Indexer(object):
    """an object used only through obj[...]"""
    def __init__(self, f):
        self.f = f


def rng(I):
    def f(*a):
        a = [conc(x) for x in a]
        if any(isinstance(x, T) and x.sort != 'I' for x in a):
            raise PyExc('TypeError', ('range of non-integer',))
        lo, hi, st = 0, None, 1
        if len(a) == 1:
            hi = a[0]
        elif len(a) == 2:
            lo, hi = a
        else:
            lo, hi, st = a
        if all(isinstance(x, int) for x in (lo, hi, st)):
            return range(lo, hi, st)
        if st == 1:
            n = tm.sub(lift(hi), lift(lo))
            if not I.facts.entails(I.pc, tm.le(num(0), n)):
                n = tm.maxt(n, num(0))
            r = Iter(lambda: None, lambda: (n, lambda i: conc(tm.add(lift(lo), i)), None, False))
            r.arr = Arr([plain(n)], lambda i: tm.add(lift(lo), i), 'i')
            return r
        if st == -1:
            n = tm.sub(lift(lo), lift(hi))
            if not I.facts.entails(I.pc, tm.le(num(0), n)):
                n = tm.maxt(n, num(0))
            r = Iter(lambda: None, lambda: (n, lambda i: conc(tm.sub(lift(lo), i)), None, False))
            r.arr = Arr([plain(n)], lambda i: tm.sub(lift(lo), i), 'i')
            return r
        raise Unsupported('range step')
    return f


def builtins(I):
    B = {}

    def reg(name, f):
        B[name] = Builtin(f, name)
    reg('range', rng(I))
    reg('xrange', rng(I))
    reg('len', lambda v: length(I, v))

    def enum(v, start=0):
        vs = I.iter_concrete(v)
        if vs is not None:
            return LList([(start + i, x) for i, x in enumerate(vs)])

        def sy():
            n, item, cond, rev = I.iter_symbolic(v)
            if cond is not None and not isinstance(v, LList):
                raise Unsupported('enumerate of a filtered sequence')
            return n, lambda i: (conc(tm.add(i, lift(start))), item(i)), cond, rev
        return Iter(lambda: None, sy)
    reg('enumerate', enum)

    def next_(c, *default):
        if isinstance(c, Cycle):
            vs = c.d['vs']
            if not vs:
                if default:
                    return default[0]
                raise PyExc('StopIteration')
            I.setk(c, 'at', (c.d['at'] + 1) % len(vs))
            return vs[c.d['at'] - 1]
        raise Unsupported('next of %r' % (c,))
    reg('next', next_)

    def zip_(*vs):
        if any(isinstance(v, Cycle) for v in vs):
            cs = [v if isinstance(v, Cycle) else I.iter_concrete(v) for v in vs]
            if any(c is None for c in cs) or all(isinstance(c, Cycle) for c in cs):
                raise Unsupported('zip of cycles')
            n = min([len(c) for c in cs if not isinstance(c, Cycle)] + [0 for c in cs if isinstance(c, Cycle) and not c.d['vs']])
            out = [[next_(c) for _ in range(n)] if isinstance(c, Cycle) else c for c in cs]
            for c in cs:
                if not isinstance(c, Cycle):
                    if len(c) == n:
                        break
                elif c.d['vs']:
                    next_(c)
                else:
                    break
            return LList(list(zip(*out)))
        cs = [I.iter_concrete(v) for v in vs]
        if all(c is not None for c in cs):
            return LList(list(zip(*cs)))
        if any(c is not None for c in cs):
            n = min(len(c) for c in cs if c is not None)
            out = []
            for v, c in zip(vs, cs):
                if c is not None:
                    out.append(c)
                else:
                    L = length(I, v)
                    I.require(tm.ge(lift(L), num(n)), 'zip length')
                    out.append([getitem(I, v, i) for i in range(n)])
            return LList(list(zip(*out)))

        def sy():
            parts = [I.iter_symbolic(v) for v in vs]
            n0 = parts[0][0]
            for p in parts:
                if p[2] is not None:
                    raise Unsupported('zip of filtered sequence')
                if p[0] is not n0:
                    I.require(tm.eq(p[0], n0), 'zip of equal lengths')
            return n0, lambda i: tuple(p[1](i) for p in parts), None, False
        return Iter(lambda: None, sy)
    reg('zip', zip_)
    reg('izip', zip_)

    def rev(v):
        vs = I.iter_concrete(v)
        if vs is not None:
            return LList(vs[::-1])

        def sy():
            n, item, cond, r = I.iter_symbolic(v)
            if cond is not None:
                raise Unsupported('reversed filtered sequence')
            return n, lambda i: item(tm.sub(tm.sub(n, num(1)), i)), None, False
        return Iter(lambda: None, sy)
    reg('reversed', rev)

    def absf(v):
        return elementwise(I, tm.absT, [v])
    reg('abs', absf)

    def minmax(f):
        def g(*a, **kw):
            if kw:
                raise Unsupported('min/max keywords')
            if len(a) == 1:
                x = a[0]
                vs = I.iter_concrete(x)
                if vs is None:
                    return I.libs['numpy'].d['max' if f is tm.maxt else 'min'].f(x)
            else:
                vs = list(a)
            if not vs:
                raise PyExc('ValueError', ('empty sequence',))
            r = vs[0]
            for x in vs[1:]:
                r = conc(f(lift(r), lift(x)))
            return r
        return g
    reg('max', minmax(tm.maxt))
    reg('min', minmax(tm.mint))

    def sum_(v, start=0):
        vs = I.iter_concrete(v)
        if vs is not None:
            r = start
            for x in vs:
                r = binop(I, 'Add', r, x)
            return r
        if isinstance(v, Arr) and v.ndim == 1:
            return binop(I, 'Add', start, reduce_sum(I, v))
        n, item, cond, _ = I.iter_symbolic(v)
        i = tm.fresh('s', 'I')
        x = item(i)
        if not isnumber(x):
            raise Unsupported('sum of non-numbers')
        return binop(I, 'Add', start, conc(tm.bsum(i, n, lift(x), cond(i) if cond else TRUE)))
    reg('sum', sum_)

    def anyall(isany):
        def g(v):
            vs = I.iter_concrete(v)
            if vs is not None:
                cs = [I.cond(x) for x in vs]
                return conc(tm.lor(*cs) if isany else tm.land(*cs))
            n, item, cond, _ = I.iter_symbolic(v)
            i = tm.fresh('q', 'I')
            c = I.cond(item(i))
            g2 = cond(i) if cond else TRUE
            if isany:
                return conc(tm.exists(i, n, tm.land(g2, c)))
            return conc(tm.lnot(tm.exists(i, n, tm.land(g2, tm.lnot(c)))))
        return g
    reg('any', anyall(True))
    reg('all', anyall(False))

    def isinst(v, t):
        ts = t if isinstance(t, tuple) else (t,)
        if isinstance(v, Abstract) and hasattr(v, 'isa'):
            return I.decide(tm.lor(*[v.isa(x) for x in ts]))
        for x in ts:
            if isinst1(I, v, x):
                return True
        return False
    reg('isinstance', isinst)
    reg('issubclass', lambda a, b: b in a.mro())

    def list_(v=()):
        if isinstance(v, Arr) or isinstance(v, Iter):
            vs = I.iter_concrete(v)
            if vs is not None:
                return LList(vs)
            n, item, cond, _ = I.iter_symbolic(v)
            if cond is not None:
                raise Unsupported('list of a filtered sequence')
            return LList(Seq(n, item))
        if isinstance(v, LList) and not isinstance(v.v, list):
            return LList(v.v)
        return LList(I.iter_concrete(v))
    B['list'] = TypeVal('list')
    B['type:list'] = list_

    def tuple_(v=()):
        vs = I.iter_concrete(v)
        if vs is None:
            return v if isinstance(v, LList) else list_(v)
        return tuple(vs)
    B['tuple'] = TypeVal('tuple')
    B['type:tuple'] = tuple_

    def dict_(v=None, **kw):
        d = {}
        if isinstance(v, PDict):
            d.update(v.v)
        elif v is not None:
            for p in I.iter_concrete(v):
                a, b = I.iter_concrete(p)
                d[I.hashkey(a)] = b
        d.update(kw)
        return PDict(d)
    B['dict'] = TypeVal('dict')
    B['type:dict'] = dict_
    B['type:OrderedDict'] = dict_

    def set_(v=()):
        out = []
        for x in I.iter_concrete(v):
            if x not in out:
                out.append(x)
        if all(isinstance(x, str) for x in out):
            return PSet({x: None for x in out})
        return LList(out)
    B['set'] = TypeVal('set')
    B['type:set'] = set_

    def int_(v=0):
        v = conc(v)
        if isinstance(v, (int, bool)):
            return int(v)
        if isinstance(v, str):
            try:
                return int(v)
            except ValueError:
                raise PyExc('ValueError')
        t = lift(v)
        if t.sort == 'B':
            return conc(tm.b2i(t))
        if t.op == 'num':
            return int(t.args[0])
        if t.sort == 'I':
            return t
        return tm.app('trunc', t, sort='I')
    B['int'] = TypeVal('int')
    B['type:int'] = int_

    def float_(v=0):
        if isinstance(v, str):
            try:
                return num(float(v))
            except ValueError:
                raise PyExc('ValueError')
        v = conc(v)
        if isinstance(v, Arr):
            if v.ndim == 0:
                return v.at()
            if all(isone(d) for d in v.dims):
                return lift(v.at(*[num(0)] * v.ndim))
            raise PyExc('TypeError')
        if not isnumber(v):
            raise PyExc('TypeError')
        return tm.toreal(lift(v))
    B['float'] = TypeVal('float')
    B['type:float'] = float_
    B['complex'] = TypeVal('complex')
    B['type:complex'] = lambda a=0, b=0: tm.add(tm.toreal(lift(a)), tm.mul(tm.IMAG, lift(b)))
    B['property'] = Builtin(lambda fget=None, fset=None, fdel=None, doc=None: Prop(fget, fset), 'property')

    def bool_(v=False):
        return conc(I.cond(v))
    B['bool'] = TypeVal('bool')
    B['type:bool'] = bool_

    def str_(v=''):
        if isinstance(v, (str, int)):
            return str(v)
        return Opaque('str')
    B['str'] = TypeVal('str')
    B['type:str'] = str_
    B['object'] = TypeVal('object')
    B['type:object'] = lambda: Obj(Cls('object', [], {}, None))
    reg('repr', lambda v: Opaque('str'))
    reg('print', lambda *a, **k: None)
    reg('id', lambda v: id(v))

    def hasattr_(o, k):
        if isinstance(k, Abstract):
            return k.has(I, o)
        try:
            getattribute(I, o, k)
            return True
        except PyExc as e:
            if e.tname == 'AttributeError':
                return False
            raise
    reg('hasattr', hasattr_)

    def getattr_(o, k, *d):
        if isinstance(k, Abstract):
            return k.read(I, o, *d)
        try:
            return getattribute(I, o, k)
        except PyExc as e:
            if e.tname == 'AttributeError' and d:
                return d[0]
            raise
    reg('getattr', getattr_)
    reg('setattr', lambda o, k, v: k.write(I, o, v) if isinstance(k, Abstract) else I.setattr(o, k, v))

    def delattr_(o, k):
        if k in o.d:
            I.delk(o, k)
        else:
            raise PyExc('AttributeError')
    reg('delattr', delattr_)
    reg('callable', lambda v: isinstance(v, (Func, Bound, Builtin, Cls)))

    def type_(v):
        if isinstance(v, Obj):
            return v.cls
        return TypeVal({bool: 'bool', int: 'int', str: 'str', tuple: 'tuple', LList: 'list', PDict: 'dict', type(None): 'NoneType',
                        T: 'float', Arr: 'ndarray'}.get(type(v), 'object'))
    reg('type', type_)

    def map_(f, *vs):
        cs = [I.iter_concrete(v) for v in vs]
        if any(c is None for c in cs):
            raise Unsupported('map over symbolic')
        return LList([I.call(f, list(a)) for a in zip(*cs)])
    reg('map', map_)

    def filter_(f, v):
        out = []
        for x in I.iter_concrete(v):
            if I.truth(x if f is None else I.call(f, [x])):
                out.append(x)
        return LList(out)
    reg('filter', filter_)

    def sorted_(v, key=None, reverse=False):
        vs = I.iter_concrete(v)
        if vs is None or not all(isinstance(x, (int, str)) for x in vs) or key is not None:
            raise Unsupported('sorted')
        return LList(sorted(vs, reverse=bool(reverse)))
    reg('sorted', sorted_)

    def round_(v, nd=None):
        v = conc(v)
        if isinstance(v, int):
            return v
        if isinstance(v, T) and v.op == 'num':
            r = round(v.args[0], nd) if nd is not None else round(v.args[0])
            return num(r) if isinstance(r, Fraction) else r
        raise Unsupported('round')
    reg('round', round_)
    reg('pow', lambda a, b: binop(I, 'Pow', a, b))
    reg('divmod', lambda a, b: (binop(I, 'FloorDiv', a, b), binop(I, 'Mod', a, b)))
    reg('iter', lambda v: v)
    reg('slice', lambda *a: slice(*a))
    B['True'], B['False'], B['None'] = True, False, None
    B['Ellipsis'] = Ellipsis
    B['NotImplemented'] = NI
    for n in list(ip.Interp.EXC) + ['Exception', 'BaseException', 'UserWarning', 'DeprecationWarning', 'Warning']:
        B[n] = TypeVal(n)
        B['type:' + n] = (lambda n: (lambda *a, **k: ('exc', n, a)))(n)
    B['__name__'] = '__dv__'
    return B


def isinst1(I, v, t):
    if isinstance(v, Lazy):
        v = v.thunk()
    if isinstance(t, Cls):
        return isinstance(v, Obj) and isinstance(v.cls, Cls) and t in v.cls.mro()
    if isinstance(t, TypeVal):
        n = t.name
        if n in ('Number', 'Real', 'Complex'):
            return isnumber(v)
        if n == 'int':
            return isinstance(v, int) or (isinstance(v, T) and v.sort in 'IB')
        if n == 'Integral':
            return isinstance(v, int) or (isinstance(v, T) and v.sort == 'I')
        if n == 'float':
            return isinstance(v, T) and v.sort == 'R'
        if n == 'bool':
            return isinstance(v, bool) or (isinstance(v, T) and v.sort == 'B')
        if n == 'complex':
            return False
        if n in ('str', 'basestring', 'unicode'):
            return isinstance(v, (str,)) or (isinstance(v, Opaque) and v.what == 'str')
        if n == 'list':
            return isinstance(v, LList)
        if n == 'tuple':
            return isinstance(v, tuple)
        if n in ('dict', 'OrderedDict'):
            return isinstance(v, PDict)
        if n == 'ndarray':
            return isinstance(v, Arr)
        if n == 'object':
            return True
        if n in ('Iterable', 'Sequence', 'collections.Iterable'):
            return isinstance(v, (LList, tuple, Arr, str, PDict))
        if n == 'NoneType':
            return v is None
        if n == 'set':
            return isinstance(v, PSet)
        if n in ('frozenset', 'generator', 'Figure', 'Line2D'):
            return False
        if n == 'function':
            return isinstance(v, (Func, Bound))
    raise Unsupported('isinstance %r' % (t,))


# ------------------------------------------------------------------ numpy
def shape_dims(I, s):
    if isinstance(s, LList):
        s = s.v
    if isinstance(s, Arr):
        s = I.iter_concrete(s)
    if not isinstance(s, (tuple, list)):
        s = (s,)
    out = []
    for x in s:
        x = conc(x)
        t = lift(x)
        if t.sort != 'I':
            raise PyExc('TypeError', ('shape must be integer',))
        # the length of a selection used as a shape: same index domain as the selection
        out.append(I.dimlen[t] if t in I.dimlen else plain(t))
    return out


def dt(x, default='f'):
    if x is None:
        return default
    if isinstance(x, TypeVal):
        return {'float': 'f', 'int': 'i', 'bool': 'b', 'complex': 'c'}.get(x.name, 'f')
    if isinstance(x, str):
        return {'f': 'f', 'i': 'i', 'c': 'c', 'b': 'b'}.get(x[0], 'f')
    return default


def mathfn(I, f):
    def g(x, out=None):
        r = elementwise(I, f, [x], 'f')
        if out is None:
            return r
        if not isinstance(out, Arr):
            raise Unsupported('out=')
        store_all(I, out, Arr(r.dims, r.snap(), r.dtype))
        return out
    return Builtin(g)


def sorted_data(I, a, what, strict):
    """obligation: 1-d array a is ascending; -> (name determined by its contents, reader, length)"""
    d = a.dims[0]
    if not d.plain:
        raise Unsupported('%s on a filtered array' % what)
    f, n = a.snap(), d.size
    any_ = tm.var('_any', 'I')
    key = (lift(f(any_)), n)
    memo = I.__dict__.setdefault('_sorted', {})
    if key not in memo:
        memo[key] = 'x%d' % len(memo)
    k = tm.fresh('k', 'I')
    k1 = tm.add(k, num(1))
    x, y = lift(f(k)), lift(f(k1))
    I.require(tm.implies(tm.land(tm.le(num(0), k), tm.lt(k1, n)), tm.lt(x, y) if strict else tm.le(x, y)),
              '%s needs ascending data' % what)
    I.require(tm.lt(num(0), n), '%s needs data' % what)
    return memo[key], f, n


def point_facts(I, nm, fact):
    """facts about an integer-valued function nm of one real"""
    memo = {}
    done = I.__dict__.setdefault('_pointfacts', set())
    if nm in done:
        return
    done.add(nm)

    def g(apps):
        for a in apps:
            if a.op == 'app' and a.args[0] == nm:
                if a not in memo:
                    memo[a] = fact(a, a.args[1])
                yield memo[a]
    I.facts.gen(g)


def libs(I):
    np = {}

    def reg(*names):
        def deco(f):
            for n in names:
                np[n] = Builtin(f, 'np.' + n)
            return f
        return deco

    fns = {'sin': tm.sin, 'cos': tm.cos, 'tan': tm.tan, 'exp': tm.exp, 'log': tm.log, 'sqrt': tm.sqrt,
           'sinh': tm.sinh, 'arctanh': lambda x: tm.div(tm.log(tm.div(tm.add(num(1), x), tm.sub(num(1), x))), num(2)), 'cosh': tm.cosh, 'tanh': tm.tanh,
           'log10': lambda x: tm.div(tm.log(x), tm.log(num(10))), 'log2': lambda x: tm.div(tm.log(x), tm.log(num(2))),
           'arctan': lambda x: tm.app('atan', x), 'arcsin': lambda x: tm.app('asin', x), 'arccos': lambda x: tm.app('acos', x),
           'log1p': lambda x: tm.log(tm.add(num(1), x)), 'expm1': lambda x: tm.sub(tm.exp(x), num(1)),
           'square': lambda x: tm.mul(x, x), 'negative': tm.neg, 'fabs': tm.absT, 'cosec': None}
    for n, f in fns.items():
        if f:
            np[n] = mathfn(I, f)
    for n in ('abs', 'absolute'):
        np[n] = Builtin(lambda x: elementwise(I, tm.absT, [x]))
    np['sign'] = Builtin(lambda x: elementwise(I, lambda t: tm.ite(tm.lt(num(0), t), num(1), tm.ite(tm.lt(t, num(0)), num(-1), num(0))), [x]))
    np['floor'] = mathfn(I, _floor)
    # reals: NaN and infinities only come from the constants themselves (division by zero is a separate obligation)
    isc = lambda *ns: Builtin(lambda x: elementwise(I, lambda t: TRUE if t.op == 'app' and t.args[0] in ns else FALSE, [x], 'b'))
    np['isnan'], np['isinf'] = isc('nan'), isc('inf')
    np['isfinite'] = Builtin(lambda x: elementwise(I, lambda t: FALSE if t.op == 'app' and t.args[0] in ('nan', 'inf') else TRUE, [x], 'b'))
    np['conj'] = np['real'] = Builtin(lambda x: x)
    np['pi'] = tm.PI
    np['e'] = tm.exp(num(1))
    np['newaxis'] = None
    np['inf'] = tm.app('inf')
    np['nan'] = tm.app('nan')
    np['ndarray'] = TypeVal('ndarray')
    np['float'] = np['float64'] = np['double'] = TypeVal('float')
    np['int'] = np['int64'] = np['int32'] = np['intp'] = TypeVal('int')
    np['bool'] = np['bool_'] = TypeVal('bool')
    np['complex'] = np['complex128'] = TypeVal('complex')
    I_ = I

    @reg('asarray', 'asanyarray', 'ascontiguousarray', 'asfarray')
    def asarray(v, dtype=None, order=None):
        if v is None:
            return v      # numpy: a 0-d object array holding None
        r = toarr(I, v)
        if not isinstance(r, Arr):
            t = lift(r)
            r = Arr([], lambda: t, dt(dtype, 'i' if t.sort == 'I' else 'f'))
            r.scalar = True
            return r
        if dtype is not None and dt(dtype) != r.dtype:
            k = dt(dtype)
            f = r.snap()
            if k in 'fc':
                if r.dtype in 'ib':
                    return Arr(r.dims, lambda *ix: tm.toreal(lift(f(*ix))), k)
                return Arr(r.dims, f, k)
            if k == 'i':
                if r.dtype == 'b':
                    return Arr(r.dims, lambda *ix: tm.b2i(lift(f(*ix))), 'i')
                ix = tuple(d.fresh('z') for d in r.dims)
                t = lift(f(*ix))
                if t.sort == 'I' or (t.op == 'num' and t.args[0].denominator == 1):
                    return Arr(r.dims, f, 'i')
                return Arr(r.dims, lambda *ix: tm.app('trunc', lift(f(*ix)), sort='I'), 'i')
            if k == 'b':
                return Arr(r.dims, lambda *ix: tm.ne(lift(f(*ix)), num(0)), 'b')
        return r

    @reg('array')
    def array(v, dtype=None, copy=True, ndmin=0):
        r = asarray(v, dtype)
        r = copy_arr(r) if r.ndim else r
        while r.ndim < (conc(ndmin) or 0):
            r = getitem(I, r, (None, slice(None)) if r.ndim else None)
        return r

    @reg('copy')
    def copy(v):
        r = toarr(I, v)
        return copy_arr(r) if isinstance(r, Arr) else r

    @reg('atleast_1d')
    def atleast_1d(*vs):
        out = []
        for v in vs:
            r = toarr(I, v)
            if isinstance(r, Arr) and r.ndim == 0:
                t0 = lift(r.at())
                r = Arr([plain(1)], lambda i: t0, r.dtype)
            if not isinstance(r, Arr):
                t = lift(r)
                r = Arr([plain(1)], lambda i, t=t: t, 'i' if t.sort == 'I' else 'f')
            out.append(r)
        return out[0] if len(out) == 1 else LList(out)

    @reg('atleast_2d')
    def atleast_2d(v):
        r = atleast_1d(v)
        if r.ndim == 1:
            return getitem(I, r, (None, slice(None)))
        return r

    def const(c, b=None):
        def f(shape, dtype=None, order=None):
            k = dt(dtype)
            val = c
            if k == 'b':
                val = TRUE if c.args[0] != 0 else FALSE
            elif k == 'i':
                val = num(int(c.args[0]))
            elif c.sort == 'I':
                val = tm.toreal(c)
            return Arr(shape_dims(I, shape), lambda *ix: val, k)
        return f
    np['zeros'] = Builtin(const(num(0)))
    np['ones'] = Builtin(const(num(1)))

    @reg('empty')
    def empty(shape, dtype=None):
        nm = 'uninit!%d' % next(ip._serial)
        k = dt(dtype)
        return Arr(shape_dims(I, shape), lambda *ix: tm.app(nm, *ip._flat(ix), sort={'i': 'I', 'b': 'B'}.get(k, 'R')), k)

    @reg('full')
    def full(shape, v, dtype=None):
        t = lift(v)
        return Arr(shape_dims(I, shape), lambda *ix: t, dt(dtype, {'I': 'i', 'B': 'b'}.get(t.sort, 'f')))

    def like(c):
        def f(a, dtype=None):
            a = toarr(I, a)
            if not isinstance(a, Arr):
                t = lift(a)
                k = dt(dtype, {'I': 'i', 'B': 'b'}.get(t.sort, 'f'))
                v = c if k in 'fci' else (TRUE if c.args[0] else FALSE)
                v = tm.toreal(v) if k in 'fc' else v
                return Arr([], lambda: v, k)
            k = dt(dtype, a.dtype)
            v = c if k in 'fci' else (TRUE if c.args[0] else FALSE)
            if k in 'fc':
                v = tm.toreal(v)
            return Arr(a.dims, lambda *ix: v, k)
        return f
    np['zeros_like'] = Builtin(like(num(0)))
    np['ones_like'] = Builtin(like(num(1)))

    @reg('empty_like')
    def empty_like(a, dtype=None):
        a = toarr(I, a)
        nm = 'uninit!%d' % next(ip._serial)
        k = dt(dtype, a.dtype)
        return Arr(a.dims, lambda *ix: tm.app(nm, *ip._flat(ix), sort={'i': 'I', 'b': 'B'}.get(k, 'R')), k)

    @reg('full_like')
    def full_like(a, v, dtype=None):
        a = toarr(I, a)
        t = lift(v)
        return Arr(a.dims, lambda *ix: t, dt(dtype, a.dtype))

    np['sum'] = Builtin(lambda a, axis=None, **k: reduce_sum(I, a, axis, **k))
    np['dot'] = np['matmul'] = Builtin(lambda a, b: dot(I, a, b))

    @reg('mean', 'average')
    def mean(a, axis=None):
        a = toarr(I, a)
        n = num(1)
        for q, d in enumerate(a.dims):
            if axis is None or q == conc(axis) % a.ndim:
                n = tm.mul(n, d.length())
        return binop(I, 'Div', reduce_sum(I, a, axis), conc(n))

    def ew2(f):
        def g(a, b, out=None, casting='same_kind'):
            r = elementwise(I, f, [a, b])
            if out is None:
                return r
            if not isinstance(out, Arr):
                raise Unsupported('out=')
            store_all(I, out, Arr(r.dims, r.snap(), r.dtype) if isinstance(r, Arr) else r)
            return out
        return Builtin(g)
    np['add'], np['subtract'], np['multiply'] = ew2(tm.add), ew2(tm.sub), ew2(tm.mul)
    np['divide'] = np['true_divide'] = ew2(_div)
    np['power'] = ew2(tm.power)
    np['maximum'], np['minimum'] = ew2(tm.maxt), ew2(tm.mint)
    np['mod'] = ew2(_mod)

    def ewb(f):
        return Builtin(lambda *a: elementwise(I, f, a, 'b'))
    np['logical_and'], np['logical_or'], np['logical_not'] = ewb(lambda a, b: tm.land(tb(a), tb(b))), ewb(lambda a, b: tm.lor(tb(a), tb(b))), ewb(lambda a: tm.lnot(tb(a)))
    for n, o in (('equal', 'Eq'), ('not_equal', 'NotEq'), ('less', 'Lt'), ('less_equal', 'LtE'), ('greater', 'Gt'), ('greater_equal', 'GtE')):
        np[n] = Builtin((lambda o: (lambda a, b: compare(I, o, toarr(I, a), toarr(I, b))))(o))

    def tb(a):
        return a if a.sort == 'B' else tm.ne(a, num(0))

    def anyall(isany):
        def f(a, axis=None):
            a = toarr(I, a)
            if not isinstance(a, Arr):
                return conc(tb(lift(a)))
            g = a.snap()
            if axis is not None and a.ndim > 1:
                raise Unsupported('any/all axis')
            vs = [d.fresh('q') for d in a.dims]
            c = tb(lift(g(*vs)))
            if not isany:
                c = tm.lnot(c)
            for d, v in reversed(list(zip(a.dims, vs))):
                vv = v if isinstance(v, tuple) else (v,)
                c = tm.land(d.condat(vv), c)
                for x, s in zip(reversed(vv), reversed(d.sizes)):
                    c = tm.exists(x, s, c)
            return conc(c if isany else tm.lnot(c))
        return f
    np['any'], np['all'] = Builtin(anyall(True)), Builtin(anyall(False))

    def extreme(ismax):
        def f(a, axis=None):
            a = toarr(I, a)
            if not isinstance(a, Arr):
                return a
            vs = I.iter_concrete(a) if a.ndim == 1 else None
            if vs is not None:
                r = vs[0]
                for x in vs[1:]:
                    r = conc((tm.maxt if ismax else tm.mint)(lift(r), lift(x)))
                return r
            raise Unsupported('max/min of a symbolic array')
        return f
    np['max'] = np['amax'] = Builtin(extreme(True))
    np['min'] = np['amin'] = Builtin(extreme(False))

    @reg('diff')
    def diff(a, n=1, axis=-1):
        a = toarr(I, a)
        ax = conc(axis) % a.ndim
        hi = getitem(I, a, tuple([slice(None)] * ax + [slice(1, None)]))
        lo = getitem(I, a, tuple([slice(None)] * ax + [slice(None, -1)]))
        return binop(I, 'Sub', hi, lo)

    @reg('where')
    def where(c, *ab):
        if ab:
            a, b = ab
            return elementwise(I, lambda cc, x, y: tm.ite(tb(cc), x, y), [c, a, b])
        return nonzero(c)

    @reg('nonzero')
    def nonzero(c):
        c = toarr(I, c)
        f = c.snap()
        if c.ndim == 1 and len(c.dims[0].sizes) == 1 and c.dims[0].plain:
            d0 = c.dims[0]
            d = Dim(d0.sizes, lambda i: tb(lift(f(i))))
            return (Arr([d], lambda i: i, 'i'),)
        if all(d.plain for d in c.dims):
            d = Dim([x.size for x in c.dims], lambda *i: tb(lift(f(*i))))
            return tuple(Arr([d], (lambda q: (lambda i: i[q]))(q), 'i') for q in range(c.ndim))
        raise Unsupported('nonzero of a filtered array')

    @reg('flatnonzero')
    def flatnonzero(c):
        return nonzero(c)[0]

    @reg('arange')
    def arange(*a, **kw):
        a = [conc(x) for x in a]
        lo = 0
        if len(a) == 1:
            hi = a[0]
        elif len(a) >= 2:
            lo, hi = a[0], a[1]
        st = a[2] if len(a) > 2 else 1
        if st == 1 and lift(lo).sort == 'I' and lift(hi).sort == 'I':
            n = tm.sub(lift(hi), lift(lo))
            if not I.facts.entails(I.pc, tm.le(num(0), n)):
                n = tm.maxt(n, num(0))
            return Arr([plain(n)], lambda i: tm.add(lift(lo), i), 'i')
        if all(isinstance(x, int) for x in (lo, hi, st)):
            r = list(range(lo, hi, st))
            return toarr(I, r)
        raise Unsupported('arange')

    @reg('indices')
    def indices(shape, dtype=None, sparse=False):
        if sparse is not False:
            raise Unsupported('sparse indices')
        dims = [plain(lift(n)) for n in shape]
        return tuple(Arr(list(dims), (lambda k: (lambda *i: i[k]))(k), 'i') for k in range(len(dims)))

    @reg('linspace')
    def linspace(a, b, n=50, endpoint=True, retstep=False, dtype=None):
        kind = dt(dtype)
        if kind not in 'fc' or retstep is not False:
            raise Unsupported('linspace of integers, or with its step')
        n = conc(n)
        if lift(n).sort != 'I':
            raise PyExc('TypeError', ('linspace num must be an integer',))
        a, b = lift(a), lift(b)
        if not I.truth(endpoint):
            return Arr([plain(n)], lambda i: tm.add(a, tm.mul(i, tm.div(tm.sub(b, a), lift(n)))), kind)
        if isinstance(n, int):
            if n == 1:
                return Arr([plain(1)], lambda i: tm.toreal(a), kind)
        elif not I.facts.entails(I.pc, tm.le(num(2), n)):
            raise Unsupported('linspace with fewer than two points')
        return Arr([plain(n)], lambda i: tm.add(a, tm.mul(i, tm.div(tm.sub(b, a), tm.sub(lift(n), num(1))))), kind)

    @reg('diag_indices')
    def diag_indices(n, ndim=2):
        x = arange(n)
        return tuple(x for _ in range(ndim))

    def tri(upper):
        def f(n, k=0, m=None):
            n = lift(n)
            k = conc(k)
            d = Dim((n, n), (lambda i, j: tm.le(tm.add(i, lift(k)), j)) if upper else (lambda i, j: tm.le(j, tm.add(i, lift(k)))))
            return (Arr([d], lambda i: i[0], 'i'), Arr([d], lambda i: i[1], 'i'))
        return f
    np['triu_indices'], np['tril_indices'] = Builtin(tri(True)), Builtin(tri(False))

    @reg('eye', 'identity')
    def eye(n, dtype=None):
        d = plain(n)
        return Arr([d, d], lambda i, j: tm.ite(tm.eq(i, j), tm.toreal(num(1)), tm.toreal(num(0))), 'f')

    @reg('diag')
    def diag(a, k=0):
        a = toarr(I, a)
        f = a.snap()
        if a.ndim == 1:
            return Arr([a.dims[0], a.dims[0]], lambda i, j: tm.ite(tm.eq(i, j), lift(f(i)), num(0)), a.dtype)
        return Arr([a.dims[0]], lambda i: f(i, i), a.dtype)

    @reg('prod', 'product')
    def prod(a, axis=None):
        vs = I.iter_concrete(toarr(I, a))
        if vs is None or axis not in (None, 0) or toarr(I, a).ndim != 1:
            raise Unsupported('product')
        r = 1
        for v in vs:
            r = binop(I, 'Mult', r, v)
        return r

    @reg('outer')
    def outer(a, b):
        a, b = toarr(I, a), toarr(I, b)
        f, g = a.snap(), b.snap()
        return Arr([a.dims[0], b.dims[0]], lambda i, j: tm.mul(lift(f(i)), lift(g(j))))

    @reg('transpose')
    def transpose(a):
        return arr_attr(I, toarr(I, a), 'T')

    @reg('ravel')
    def ravel(a):
        a = toarr(I, a)
        if a.ndim == 1:
            return copy_arr(a)
        if a.ndim == 2:
            ns = [conc(d.length()) for d in a.dims]
            f = a.snap()
            if isinstance(ns[1], int):
                if ns[1] == 1:
                    return Arr([a.dims[0]], lambda i: f(i, num(0)), a.dtype)
            if ns[0] == 1:
                return Arr([a.dims[1]], lambda i: f(num(0), i), a.dtype)
            if all(isinstance(n, int) for n in ns):
                ts = [lift(f(num(i), num(j))) for i in range(ns[0]) for j in range(ns[1])]
                return Arr([plain(len(ts))], lambda i: pick(ts, i), a.dtype)
        if a.ndim > 1 and all(d.plain for d in a.dims):
            f, ns = a.snap(), [d.size for d in a.dims]

            def at(k):
                ix = []
                for n in reversed(ns[1:]):
                    k, r = divmod_term(I, lift(k), lift(n))
                    ix.append(r)
                return f(*([k] + ix[::-1]))
            size = num(1)
            for n in ns:
                size = tm.mul(size, n)
            return Arr([plain(size)], at, a.dtype)
        raise Unsupported('ravel')

    @reg('reshape')
    def reshape(a, s, order='C'):
        a = toarr(I, a)
        if not isinstance(s, tuple):
            s = tuple(I.iter_concrete(s)) if not isnumber(s) else (s,)
        s = [conc(x) for x in s]
        if a.ndim == 1 and len(s) == 2 and a.dims[0].plain:
            f = a.snap()
            if s[1] == 1:
                return Arr([a.dims[0], plain(1)], lambda i, j: f(i), a.dtype)
            if s[0] == 1:
                return Arr([plain(1), a.dims[0]], lambda i, j: f(j), a.dtype)
        if len(s) == 1:
            return ravel(a)
        size = num(1)
        for n in s:
            size = tm.mul(size, lift(n))
        if a.ndim == 1 and a.dims[0].plain and I.facts.entails(I.pc, tm.eq(lift(a.dims[0].size), size)):
            f = a.snap()

            def at(*ix):
                k = num(0)
                for n, i in zip(s, ix):
                    k = tm.add(tm.mul(k, lift(n)), i)
                return f(k)
            return Arr([plain(n) for n in s], at, a.dtype)
        raise Unsupported('reshape')

    def joined(vs, axis):
        """arrays one after the other along `axis`"""
        nd = vs[0].ndim
        if any(v.ndim != nd for v in vs) or any(not v.dims[axis].plain for v in vs):
            raise Unsupported('concatenate')
        for v in vs[1:]:
            for q in range(nd):
                if q != axis:
                    same_len(I, vs[0].dims[q], v.dims[q])
        fs = [v.snap() for v in vs]
        offs = [num(0)]
        for v in vs:
            offs.append(tm.add(offs[-1], v.dims[axis].size))

        def fn(*ix):
            i = ix[axis]
            part = lambda q: lift(fs[q](*(ix[:axis] + (tm.sub(i, offs[q]),) + ix[axis + 1:])))
            r = part(len(fs) - 1)
            for q in range(len(fs) - 2, -1, -1):
                r = tm.ite(tm.lt(i, offs[q + 1]), part(q), r)
            return r
        dims = list(vs[0].dims)
        dims[axis] = plain(offs[-1])
        return Arr(dims, fn, 'f' if any(v.dtype == 'f' for v in vs) else vs[0].dtype)

    @reg('concatenate')
    def concatenate(vs, axis=0):
        vs = [atleast_1d(x) for x in I.iter_concrete(vs)]
        axis = conc(axis)
        if not isinstance(axis, int):
            raise Unsupported('concatenate along no axis')
        return joined(vs, axis + vs[0].ndim if axis < 0 else axis)

    @reg('hstack')
    def hstack(vs):
        vs = [atleast_1d(x) for x in I.iter_concrete(vs)]
        return joined(vs, 0 if vs[0].ndim == 1 else 1)

    @reg('bmat', 'block')
    def bmat(rows):
        rows = [[toarr(I, x) for x in I.iter_concrete(r)] for r in I.iter_concrete(rows)]
        if any(not isinstance(x, Arr) or x.ndim != 2 for r in rows for x in r):
            raise Unsupported('bmat')
        return joined([joined(r, 1) for r in rows], 0)

    @reg('append')
    def append(a, b, axis=None):
        return concatenate(LList([a, b]))

    def r_(k):
        parts = []
        for x in (k if isinstance(k, tuple) else (k,)):
            if isinstance(x, slice):
                if isinstance(conc(x.step), complex) or isinstance(x.step, complex):
                    raise Unsupported('r_ with a complex step')
                parts.append(arange(*[0 if x.start is None else x.start, x.stop] + ([] if x.step is None else [x.step])))
            elif isnumber(x):
                parts.append(toarr(I, LList([x])))
            else:
                parts.append(toarr(I, x))
        return parts[0] if len(parts) == 1 else concatenate(LList(parts))
    np['r_'] = Indexer(r_)

    @reg('insert')
    def insert(a, k, v, axis=None):
        a = toarr(I, a)
        kk = conc(k)
        if isinstance(kk, int) and isnumber(v) and isinstance(a, Arr) and a.ndim == 1 and a.dims[0].plain:
            n = conc(a.dims[0].size)
            if kk == 0 or n == 0:
                return concatenate(LList([LList([v]), a])) if n != 0 else toarr(I, LList([v]))
            if isinstance(n, int):
                if kk < 0:
                    kk += n
                xs = [conc(lift(a.at(num(i)))) for i in range(n)]
                return toarr(I, LList(xs[:kk] + [v] + xs[kk:]))
        if isinstance(a, Arr) and a.ndim == 1 and a.dims[0].plain and isinstance(k, Arr) and k.ndim == 1 and len(k.dims[0].sizes) == 1:
            # v[q] goes before position q + c for every selected q: the result is read
            # position by position, (p, 0) inserted before p, (p, 1) the old element p
            d = k.dims[0]
            v = toarr(I, v)
            q = tm.fresh('q', 'I')
            c = tm.sub(lift(k.at(q)), q)
            if q in tm.fv(c):
                raise Unsupported('insert at irregular positions')
            fv = (lambda q: v) if not isinstance(v, Arr) else (lambda q: v.at()) if v.ndim == 0 else None
            if fv is None:
                if v.ndim != 1:
                    raise Unsupported('insert')
                same_len(I, v.dims[0], d)
                fv = v.snap()
            n = a.dims[0].size
            fa = a.snap()
            I.require(tm.implies(d.inrange((q,)), tm.land(tm.le(num(0), lift(k.at(q))), tm.le(lift(k.at(q)), n))), 'insert position')
            cond = lambda p, s: tm.ite(tm.eq(s, num(0)), d.inrange((tm.sub(p, c),)), tm.lt(p, n))
            val = lambda pos: tm.ite(tm.eq(pos[1], num(0)), lift(fv(tm.sub(pos[0], c))), lift(fa(pos[0])))
            return Arr([Dim((tm.add(n, num(1)), num(2)), cond)], val, a.dtype)
        raise Unsupported('insert')

    @reg('column_stack')
    def column_stack(vs):
        vs = [toarr(I, x) for x in I.iter_concrete(vs)]
        fs = [v.snap() for v in vs]
        d = vs[0].dims[0]
        for v in vs[1:]:
            same_len(I, d, v.dims[0])
        return Arr([d, plain(len(vs))], lambda i, j: pick([lift(f(i)) for f in fs], j), 'f')

    @reg('vstack')
    def vstack(vs):
        vs = [toarr(I, x) for x in I.iter_concrete(vs)]
        if all(v.ndim == 2 for v in vs):
            return joined(vs, 0)
        return toarr(I, LList(vs))

    @reg('ones_')
    def _o():
        raise Unsupported('')

    @reg('tile')
    def tile(a, reps):
        raise Unsupported('tile')

    @reg('repeat')
    def repeat(a, n, axis=None):
        raise Unsupported('repeat')

    @reg('delete')
    def delete(a, obj, axis=None):
        """numpy.delete: remove the elements at the given positions"""
        a = toarr(I, a)
        obj = toarr(I, obj)
        f = a.snap()
        d = a.dims[0]
        if isinstance(obj, Arr) and obj.ndim == 1:
            od = obj.dims[0]
            if not I.facts.feasible(I.pc + [od.nonempty()]):
                return copy_arr(a)
            if d.plain:
                # plain source: positions are indices
                def keep(i):
                    return tm.lnot(num(contains(I, obj, i)))
                return Arr([Dim(d.sizes, keep)], f, a.dtype)
        raise Unsupported('delete from a filtered sequence')

    @reg('setdiff1d')
    def setdiff1d(a, b, **k):
        a, b = toarr(I, a), toarr(I, b)
        d = a.dims[0]
        f = a.snap()
        return Arr([Dim(d.sizes, lambda *i: tm.land(d.condat(i), tm.lnot(num(contains(I, b, f(*i))))))], f, a.dtype)

    @reg('isclose')
    def isclose(a, b, rtol=None, atol=None):
        rtol = num(Fraction(1, 100000)) if rtol is None else lift(rtol)
        atol = num(Fraction(1, 100000000)) if atol is None else lift(atol)
        return elementwise(I, lambda x, y: tm.le(tm.absT(tm.sub(x, y)), tm.add(atol, tm.mul(rtol, tm.absT(y)))), [a, b], 'b')

    @reg('allclose')
    def allclose(a, b, rtol=None, atol=None):
        return np['all'].f(isclose(a, b, rtol, atol))

    @reg('array_equal')
    def array_equal(a, b):
        a, b = toarr(I, a), toarr(I, b)
        if a.ndim != b.ndim:
            return False
        for p, q in zip(a.dims, b.dims) if a.ndim else ():
            if p.plain and q.plain and p.size is not q.size and not I.truth(tm.eq(p.size, q.size)):
                return False
        return np['all'].f(compare(I, 'Eq', a, b))

    @reg('size')
    def size(a, axis=None):
        a = toarr(I, a)
        if not isinstance(a, Arr):
            return 1
        return arr_attr(I, a, 'size')

    @reg('shape')
    def shape(a):
        a = toarr(I, a)
        return arr_attr(I, a, 'shape') if isinstance(a, Arr) else ()

    @reg('ndim')
    def ndim(a):
        a = toarr(I, a)
        return a.ndim if isinstance(a, Arr) else 0

    @reg('isscalar')
    def isscalar(a):
        return isnumber(a) or isinstance(a, str)

    @reg('result_type', 'promote_types')
    def result_type(*vs):
        ks = []
        for v in vs:
            if isinstance(v, (TypeVal, Builtin)) or isinstance(v, str):
                ks.append(dt(v))
            else:
                v = toarr(I, v)
                ks.append(v.dtype if isinstance(v, Arr) else {'I': 'i', 'B': 'b'}.get(lift(v).sort, 'f'))
        k = max(ks, key='bifc'.index)
        return TypeVal({'f': 'float', 'i': 'int', 'b': 'bool', 'c': 'complex'}[k])

    @reg('iscomplexobj')
    def iscomplexobj(a):
        return False

    @reg('polyval')
    def polyval(p, x):
        vs = I.iter_concrete(toarr(I, p))
        if vs is None:
            raise Unsupported('polyval')
        r = 0
        for c in vs:
            r = binop(I, 'Add', binop(I, 'Mult', r, x), c)
        return r

    @reg('piecewise')
    def piecewise(*a, **k):
        raise Unsupported('piecewise')

    @reg('searchsorted')
    def searchsorted(a, v, side='left', sorter=None):
        """position r with a[r-1] < v <= a[r] (left) or a[r-1] <= v < a[r] (right); a must be ascending"""
        a = toarr(I, a)
        if a.ndim != 1 or sorter is not None:
            raise Unsupported('searchsorted')
        nm, f, n = sorted_data(I, a, 'searchsorted', False)
        nm = 'ss_%s_%s' % (side, nm)
        lo, hi = (tm.lt, tm.le) if side == 'left' else (tm.le, tm.lt)

        def fact(r, t):
            return tm.land(tm.le(num(0), r), tm.le(r, n),
                           tm.implies(tm.lt(num(0), r), lo(lift(f(tm.sub(r, num(1)))), t)),
                           tm.implies(tm.lt(r, n), hi(t, lift(f(r)))))
        point_facts(I, nm, fact)
        return elementwise(I, lambda t: tm.app(nm, t, sort='I'), [v], 'i')

    @reg('interp')
    def interp(x, xp, fp, left=None, right=None, period=None):
        """piecewise linear through (xp, fp), end values held; xp must be strictly ascending"""
        xp, fp = toarr(I, xp), toarr(I, fp)
        if xp.ndim != 1 or fp.ndim != 1 or left is not None or right is not None or period is not None:
            raise Unsupported('np.interp')
        same_len(I, xp.dims[0], fp.dims[0])
        nm, f, n = sorted_data(I, xp, 'np.interp', True)
        g = fp.snap()
        nm = 'seg_' + nm
        last = tm.sub(n, num(1))
        x0, x1 = lift(f(num(0))), lift(f(last))

        def fact(s, t):
            return tm.implies(tm.land(tm.le(x0, t), tm.le(t, x1), tm.le(num(2), n)),
                              tm.land(tm.le(num(0), s), tm.lt(s, last), tm.le(lift(f(s)), t),
                                       tm.implies(tm.lt(t, x1), tm.lt(t, lift(f(tm.add(s, num(1))))))))
        point_facts(I, nm, fact)

        def val(t):
            s = tm.app(nm, t, sort='I')
            s1 = tm.add(s, num(1))
            ln = tm.add(lift(g(s)), tm.mul(tm.div(tm.sub(lift(g(s1)), lift(g(s))), tm.sub(lift(f(s1)), lift(f(s)))), tm.sub(t, lift(f(s)))))
            return tm.ite(tm.le(t, x0), lift(g(num(0))), tm.ite(tm.le(x1, t), lift(g(last)), ln))
        return elementwise(I, val, [x], 'f')

    @reg('cross')
    def cross(a, b):
        xs, ys = I.iter_concrete(toarr(I, a)), I.iter_concrete(toarr(I, b))
        if xs is None or ys is None or len(xs) != 3 or len(ys) != 3 or not all(isnumber(x) for x in xs + ys):
            raise Unsupported('cross')
        def d(i, j):
            return binop(I, 'Sub', binop(I, 'Mult', xs[i], ys[j]), binop(I, 'Mult', xs[j], ys[i]))
        return toarr(I, LList([d(1, 2), d(2, 0), d(0, 1)]))

    @reg('cumsum')
    def cumsum(a, axis=None):
        a = toarr(I, a)
        if a.ndim != 1:
            raise Unsupported('cumsum')
        vs = I.iter_concrete(a)
        if vs is not None:
            out, s = [], 0
            for x in vs:
                s = binop(I, 'Add', s, x)
                out.append(s)
            return toarr(I, LList(out))
        f = a.snap()

        def fn(i):
            k = tm.fresh('k', 'I')
            return tm.bsum(k, a.dims[0].size, lift(f(k)), tm.le(k, i))
        return Arr(a.dims, fn, a.dtype)

    @reg('cumprod')
    def cumprod(a, axis=None, out=None):
        a = toarr(I, a)
        vs = I.iter_concrete(a) if a.ndim == 1 else None
        if vs is None:
            raise Unsupported('cumprod')
        res, s = [], num(1)
        for x in vs:
            s = tm.mul(s, lift(x))
            res.append(s)
        r = toarr(I, LList(res))
        if out is not None:
            setitem(I, out, slice(None, None, None), r)
            return out
        return r

    @reg('argmax')
    def argmax(a, axis=None):
        vs = I.iter_concrete(toarr(I, a))
        if vs is None:
            raise Unsupported('argmax')
        best, bi = lift(vs[0]), num(0)
        for i, x in enumerate(vs[1:], 1):
            if I.decide(tm.lt(best, lift(x))):
                best, bi = lift(x), num(i)
        return conc(bi)

    @reg('errstate', 'seterr')
    def errstate(**k):
        raise Unsupported('errstate')

    @reg('squeeze')
    def squeeze(a):
        a = toarr(I, a)
        keep = [i for i, d in enumerate(a.dims) if not isone(d)]
        f = a.snap()

        def fn(*ix):
            full = [num(0)] * a.ndim
            for p, x in zip(keep, ix):
                full[p] = x
            return f(*full)
        return Arr([a.dims[i] for i in keep], fn, a.dtype)

    @reg('ix_')
    def ix_(*a):
        raise Unsupported('ix_')

    @reg('meshgrid')
    def meshgrid(*a, **k):
        raise Unsupported('meshgrid')

    @reg('linalg_inv')
    def inv(a):
        raise Unsupported('inv')

    np['linalg'] = Namespace('numpy.linalg', {})
    npm = Namespace('numpy', np)

    m = {}
    for n in ('sin', 'cos', 'tan', 'exp', 'log', 'sqrt', 'sinh', 'cosh', 'tanh', 'fabs', 'floor', 'log10', 'log2'):
        m[n] = np[n]
    m['atan'], m['asin'], m['acos'] = np['arctan'], np['arcsin'], np['arccos']
    m['pi'], m['e'] = tm.PI, tm.exp(num(1))
    m['pow'] = Builtin(lambda a, b: binop(I, 'Pow', a, b))
    m['factorial'] = Builtin(lambda n: _fact(conc(n)))

    def _fact(n):
        import math
        if isinstance(n, int):
            return math.factorial(n)
        raise Unsupported('factorial')

    np['math'] = Namespace('math', m)

    def poch(z, j):
        """z (z+1) ... (z+j-1)"""
        j = conc(j)
        if not isinstance(j, int) or j < 0:
            raise Unsupported('poch')
        return elementwise(I, lambda t: tm.mul(num(1), *[tm.add(t, num(i)) for i in range(j)]), [z], 'f')
    special = Namespace('scipy.special', {'poch': Builtin(poch), 'factorial': Builtin(lambda n: _fact(conc(n)))})
    optimize = Namespace('scipy.optimize', {})
    scipy = Namespace('scipy', {'special': special, 'optimize': optimize})

    opmod = {}
    for n, o in (('add', 'Add'), ('sub', 'Sub'), ('mul', 'Mult'), ('truediv', 'Div'), ('div', 'Div'), ('pow', 'Pow'), ('mod', 'Mod')):
        opmod[n] = Builtin((lambda o: (lambda a, b: binop(I, o, a, b)))(o))
    for n, o in (('iadd', 'Add'), ('isub', 'Sub'), ('imul', 'Mult'), ('itruediv', 'Div'), ('idiv', 'Div')):
        opmod[n] = Builtin((lambda o: (lambda a, b: I.augment(o, a, b)))(o))
    for n, o in (('lt', 'Lt'), ('le', 'LtE'), ('gt', 'Gt'), ('ge', 'GtE'), ('eq', 'Eq'), ('ne', 'NotEq')):
        opmod[n] = Builtin((lambda o: (lambda a, b: compare(I, o, a, b)))(o))
    opmod['itemgetter'] = Builtin(lambda k: Builtin(lambda o: getitem(I, o, k)))

    numbers = Namespace('numbers', {n: TypeVal(n) for n in ('Number', 'Real', 'Integral', 'Complex')})
    cp = Builtin(lambda v: shallow(I, v))
    dcp = Builtin(lambda v: deep(I, v))
    col = Namespace('collections', {'OrderedDict': TypeVal('OrderedDict'), 'Iterable': TypeVal('Iterable')})
    def cycle(v):
        vs = I.iter_concrete(v)
        if vs is None:
            raise Unsupported('cycle of a symbolic sequence')
        return Cycle(vs)
    it = Namespace('itertools', {'cycle': Builtin(cycle, 'cycle'), 'product': Builtin(lambda *vs, **k: LList(list(itertools.product(*[I.iter_concrete(v) for v in vs])))),
                                 'chain': Builtin(lambda *vs: LList([x for v in vs for x in I.iter_concrete(v)]))})
    def reduce_(f, v, *init):
        vs = I.iter_concrete(v)
        vs = list(init) + vs
        r = vs[0]
        for x in vs[1:]:
            r = I.call(f, [r, x])
        return r
    L = {'numpy': npm, 'math': Namespace('math', m), 'cmath': Namespace('cmath', m), 'operator': Namespace('operator', opmod), 'numbers': numbers,
         'copy': Namespace('copy', {'copy': cp, 'deepcopy': dcp}), 'collections': col, 'itertools': it,
         'functools': Namespace('functools', {'reduce': Builtin(reduce_), 'wraps': Builtin(lambda f: Builtin(lambda g: g))}),
         'warnings': Namespace('warnings', {'warn': Builtin(lambda *a, **k: None)}),
         'sys': Namespace('sys', {'version_info': (3, 12, 0)}),
         'numpy.linalg': np['linalg'], 'scipy': scipy, 'scipy.special': special, 'scipy.optimize': optimize}
    L['numbers'] = numbers
    return L


def shallow(I, v):
    if isinstance(v, LList):
        return LList(v.v)
    if isinstance(v, PDict):
        return type(v)(v.v)
    if isinstance(v, Arr):
        return copy_arr(v)
    if isinstance(v, Obj):
        o = Obj(v.cls)
        o.d = dict(v.d)
        return o
    return v


def deep(I, v):
    if isinstance(v, LList):
        return LList([deep(I, x) for x in v.v] if isinstance(v.v, list) else v.v)
    if isinstance(v, PDict):
        return type(v)({k: deep(I, x) for k, x in v.v.items()})
    if isinstance(v, Arr):
        return copy_arr(v)
    if isinstance(v, tuple):
        return tuple(deep(I, x) for x in v)
    if isinstance(v, Obj):
        o = Obj(v.cls)
        o.d = {k: deep(I, x) for k, x in v.d.items()}
        return o
    return v
