"""Symbolic executor for the numeric subset of Python used in geotecha.

Executes the AST of the functions in the repository's current source.  Scalars
are terms (floats are mathematical reals), arrays are (dims, element function)
with symbolic lengths, `for` over a symbolic range is summarised by one
symbolic iteration (accumulate / unique store / last value rules).
"""
import ast
import os
import itertools
from fractions import Fraction
from . import terms as tm
from .terms import T, num, TRUE, FALSE
from .prove import Facts, Prover, Fail

REPO = os.environ.get('DV_REPO', '/repo')


class Unsupported(Exception):
    pass


class PyExc(Exception):
    def __init__(self, tname, args=()):
        Exception.__init__(self, tname)
        self.tname = tname
        self.eargs = args


class NoMerge(Exception):
    pass


MISSING = object()
_serial = itertools.count()


class Cell(object):
    def __init__(self):
        self.d = {}
        self.birth = next(_serial)


class Env(Cell):
    def __init__(self, parent=None, module=None):
        Cell.__init__(self)
        self.parent = parent
        self.module = module
        self.nonlocals = set()


class Obj(Cell):
    def __init__(self, cls):
        Cell.__init__(self)
        self.cls = cls
        self.frozen = False

    def __repr__(self):
        return '<Obj %s>' % getattr(self.cls, 'name', self.cls)


class Abstract(Obj):
    """an object known by its meaning only (same meaning, other representation, after a loop)"""

    def again(self, index):
        """the same meaning with an unknown representation"""
        raise NotImplementedError

    def same(self, other):
        raise NotImplementedError

    def substituted(self, m):
        """the value with terms replaced"""
        raise NotImplementedError


class Maybe(Abstract):
    """a value that is None exactly when the term isnone holds"""


class LList(Cell):
    def __init__(self, v):
        Cell.__init__(self)
        self.d['v'] = v          # python list or Seq

    @property
    def v(self):
        return self.d['v']


class PDict(Cell):
    def __init__(self, v=None):
        Cell.__init__(self)
        self.d['v'] = dict(v or {})

    @property
    def v(self):
        return self.d['v']


class PSet(PDict):
    """a set of concrete elements (the keys)"""


class Seq(object):
    """immutable symbolic-length sequence"""
    def __init__(self, n, fn):
        self.n = num(n)
        self.fn = fn


class Fn(object):
    """element function of an array buffer (merged pointwise); cells: elements stored one by one since"""
    def __init__(self, f, cells=None):
        self.f = f
        self.cells = cells

    def __call__(self, *idx):
        return self.f(*idx)


class Opaque(object):
    """a value nothing is known about (strings for messages, figures ...)"""
    def __init__(self, what):
        self.what = what

    def __repr__(self):
        return '<%s>' % self.what


class Poison(object):
    def __init__(self, why, node=None):
        self.why = why
        self.node = node


class Lazy(object):
    def __init__(self, thunk):
        self.thunk = thunk


class Func(object):
    def __init__(self, node, env, module, name, cls=None):
        self.node = node
        self.env = env
        self.module = module
        self.name = name
        self.cls = cls
        self.defaults = None
        self.kwdefaults = None

    @property
    def qual(self):
        return '%s.%s' % (self.module.name, (self.cls.name + '.' if self.cls else '') + self.name)


class Bound(object):
    def __init__(self, func, obj):
        self.func = func
        self.obj = obj


class Builtin(object):
    def __init__(self, f, name='builtin'):
        self.f = f
        self.name = name


class Cls(object):
    def __init__(self, name, bases, attrs, module):
        self.name = name
        self.bases = bases
        self.attrs = attrs
        self.module = module

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, Cls):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
        return out

    def lookup(self, k):
        for c in self.mro():
            if k in c.attrs:
                return c.attrs[k]
        return MISSING


class Prop(object):
    def __init__(self, fget, fset=None):
        self.fget = fget
        self.fset = fset


class Namespace(object):
    """model of an external module: attribute -> value"""
    def __init__(self, name, d):
        self.name = name
        self.d = d


class TypeVal(object):
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return '<type %s>' % self.name


# ------------------------------------------------------------------ arrays
class Dim(object):
    __slots__ = ('sizes', 'cond')

    def __init__(self, sizes, cond=None):
        self.sizes = tuple(num(s) for s in sizes)
        self.cond = cond

    @property
    def plain(self):
        return self.cond is None and len(self.sizes) == 1

    @property
    def size(self):
        return self.sizes[0]

    def vars(self):
        return tuple(tm.var('_d%d' % i, 'I') for i in range(len(self.sizes)))

    def condat(self, idx):
        if self.cond is None:
            return TRUE
        if not isinstance(idx, tuple):
            idx = (idx,)
        return num(self.cond(*idx))

    def key(self):
        return (self.sizes, self.condat(self.vars()))

    def inrange(self, idx):
        if not isinstance(idx, tuple):
            idx = (idx,)
        cs = [self.condat(idx)]
        for i, s in zip(idx, self.sizes):
            cs += [tm.le(num(0), i), tm.lt(i, s)]
        return tm.land(*cs)

    def fresh(self, name='d'):
        v = tuple(tm.fresh(name, 'I') for _ in self.sizes)
        return v if len(v) > 1 else v[0]

    def length(self):
        if self.plain:
            return self.sizes[0]
        vs = tuple(tm.fresh('q', 'I') for _ in self.sizes)
        t = tm.ite(self.condat(vs), num(1), num(0))
        for v, s in zip(vs, self.sizes):
            t = tm.bsum(v, s, t)
        return t

    def nonempty(self):
        vs = tuple(tm.fresh('q', 'I') for _ in self.sizes)
        c = self.condat(vs)
        for v, s in zip(vs, self.sizes):
            c = tm.exists(v, s, c)
        return c


def plain(n):
    return Dim((n,))


class Buf(Cell):
    def __init__(self, dims, fn, dtype='f'):
        Cell.__init__(self)
        self.dims = tuple(dims)
        self.d['fn'] = fn if isinstance(fn, Fn) else Fn(fn)
        self.dtype = dtype
        self.input = None


class Arr(object):
    def __init__(self, dims, fn=None, dtype='f', buf=None, vmap=None):
        self.dims = tuple(dims)
        self.buf = buf if buf is not None else Buf(dims, fn, dtype)
        self.vmap = vmap

    @property
    def dtype(self):
        return self.buf.dtype

    @property
    def ndim(self):
        return len(self.dims)

    def at(self, *idx):
        if len(idx) != len(self.dims):
            raise Unsupported('index arity')
        if self.vmap is not None:
            idx = self.vmap(*idx)
        return self.buf.d['fn'](*idx)

    def snap(self):
        """immutable element function of the present content"""
        f = self.buf.d['fn']
        vm = self.vmap
        if vm is None:
            return f
        return lambda *idx: f(*vm(*idx))

    def __repr__(self):
        return '<Arr %s>' % (', '.join(tm.show(d.length(), 4) for d in self.dims))


def conc(v):
    """concretise integer constants"""
    if isinstance(v, T):
        if v.op == 'num' and v.sort == 'I' and v.args[0].denominator == 1:
            return int(v.args[0])
        if v is TRUE:
            return True
        if v is FALSE:
            return False
    return v


def isnumber(v):
    return isinstance(v, (int, T, Fraction, float, complex))


def lift(v):
    if isinstance(v, T):
        return v
    return num(v)


def vsubst(v, m):
    if isinstance(v, T):
        return conc(tm.subst(v, m))
    if isinstance(v, Arr):
        f = v.snap()
        dims = [subst_dim(d, m) for d in v.dims]
        return Arr(dims, lambda *idx: fsub(f, idx, m), v.dtype)
    if isinstance(v, tuple):
        return tuple(vsubst(x, m) for x in v)
    if isinstance(v, LList):
        if isinstance(v.v, Seq):
            return LList(seq_subst(v.v, m))
        return LList(vsubst(v.v, m))
    if isinstance(v, Seq):
        return seq_subst(v, m)
    if isinstance(v, list):
        return [vsubst(x, m) for x in v]
    if isinstance(v, FSeq):
        return FSeq(tm.subst(v.c, m), vsubst(v.x, m))
    if isinstance(v, Abstract):
        return v.substituted(m)
    if isinstance(v, Obj) and occurs(v, set(m)):
        r = Obj(v.cls)
        r.d.update({k: vsubst(x, m) for k, x in v.d.items()})
        r.frozen = True
        return r
    return v


def fsub(f, idx, m):
    # evaluate at fresh indices then substitute both (indices may mention m's keys)
    flat = []
    for i in idx:
        if isinstance(i, tuple):
            flat.append(tuple(tm.fresh('s', 'I') for _ in i))
        else:
            flat.append(tm.fresh('s', 'I'))
    t = f(*flat)
    t = tm.subst(lift(t), m)
    m2 = {}
    for a, b in zip(flat, idx):
        if isinstance(a, tuple):
            for x, y in zip(a, b):
                m2[x] = num(y)
        else:
            m2[a] = num(b)
    return tm.subst(t, m2)


def subst_dim(d, m):
    c = d.cond
    return Dim([tm.subst(s, m) for s in d.sizes],
               None if c is None else (lambda *idx: fsub(c, idx, m)))


def seq_subst(s, m):
    def fn(i):
        k = tm.fresh('s', 'I')
        v = vsubst(s.fn(k), m)
        return vsubst(v, {k: num(i)})
    return Seq(tm.subst(s.n, m), fn)


def samedim(a, b):
    if a is b:
        return True
    return a.key() == b.key()


# ------------------------------------------------------------------ modules
class Module(object):
    def __init__(self, I, name, path):
        self.I = I
        self.name = name
        self.path = path
        with open(path) as f:
            self.src = f.read()
        if path.endswith('.f95'):
            from . import fortran
            try:
                self.src = fortran.transcribe(self.src)
            except fortran.Refused as e:
                raise Unsupported('Fortran: %s' % e)
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            self.tree = ast.parse(self.src)
        self.defs = {}
        self.cache = {}
        self.index(self.tree.body)

    def index(self, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                self.defs[st.name] = st
            elif isinstance(st, (ast.Import, ast.ImportFrom)):
                for al in st.names:
                    nm = al.asname or al.name.split('.')[0]
                    self.defs.setdefault(nm, (st, al)) if nm not in self.defs else self.defs.__setitem__(nm, (st, al))
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.defs[t.id] = st
                    elif isinstance(t, ast.Tuple):
                        for x in t.elts:
                            if isinstance(x, ast.Name):
                                self.defs[x.id] = st
            elif isinstance(st, ast.Try):
                self.index(st.body)
            elif isinstance(st, ast.If):
                pass

    def get(self, k):
        if k in self.cache:
            return self.cache[k]
        if k not in self.defs:
            return MISSING
        d = self.defs[k]
        I = self.I
        env = Env(None, self)
        if isinstance(d, ast.FunctionDef):
            v = I.make_func(d, env)
        elif isinstance(d, ast.ClassDef):
            v = I.make_class(d, env)
        elif isinstance(d, tuple):
            v = I.do_import(d[0], d[1], self)
        else:
            I.exec_stmt(d, env)
            for kk, vv in env.d.items():
                self.cache[kk] = vv
            return self.cache[k]
        self.cache[k] = v
        return v


class Outcome(object):
    def __init__(self, pc, effects, kind, value):
        self.pc = pc
        self.effects = effects
        self.kind = kind
        self.value = value


class Interp(object):
    def __init__(self, facts=None, contracts=None, repo=None):
        from . import nplib
        self.facts = facts or Facts()
        self.pc = []
        self.trail = []
        self.modules = {}
        self.contracts = contracts or {}
        self.repo = repo or REPO
        self.dec = []
        self.pos = 0
        self.forks = []
        self.nomerge = set()
        self.used = set()           # functions executed (inlined)
        self.used_contracts = set()
        self.assumed = set()        # external functions modelled
        self.bounds_checked = 0
        self.bounds_seen = set()
        self.derived = set()     # facts implied by the path condition they were added to
        self.bound_fail = []
        self.dimlen = {}            # length of a selection -> its index domain
        self.depth = 0
        self.libs = nplib.libs(self)
        self.builtins = nplib.builtins(self)
        self.current_line = None
        self.maxpaths = 256
        import math
        self.constants = [(math.log(10), tm.log(num(10))), (1 / math.log(10), tm.div(num(1), tm.log(num(10)))),
                          (math.pi, tm.PI), (math.log(2), tm.log(num(2))), (math.e, tm.exp(num(1)))]
        self.concrete_unroll = 64

    # ---------------------------------------------------------- heap
    def setk(self, cell, key, val):
        if cell.d.get(key, MISSING) is val:
            return
        self.trail.append((cell, key, cell.d.get(key, MISSING)))
        cell.d[key] = val

    def delk(self, cell, key):
        self.trail.append((cell, key, cell.d.get(key, MISSING)))
        cell.d.pop(key, None)

    def rollback(self, mark):
        while len(self.trail) > mark:
            cell, key, old = self.trail.pop()
            if old is MISSING:
                cell.d.pop(key, None)
            else:
                cell.d[key] = old

    def effects(self, mark):
        eff = {}
        for cell, key, old in self.trail[mark:]:
            eff[(cell, key)] = cell.d.get(key, MISSING)
        return eff

    # ---------------------------------------------------------- paths
    def explore(self, thunk, extra_pc=()):
        outs = []
        stack = [[]]
        saved = (self.dec, self.pos, self.forks)
        pcmark = len(self.pc)
        try:
            while stack:
                if len(outs) > self.maxpaths:
                    raise Unsupported('too many paths')
                dec = stack.pop()
                mark = len(self.trail)
                self.pc.extend(extra_pc)
                base = len(self.pc)
                self.dec, self.pos, self.forks = list(dec), 0, []
                try:
                    try:
                        v = thunk()
                        kind = 'ok'
                    except PyExc as e:
                        v = e
                        kind = 'raise'
                    outs.append(Outcome(self.pc[base:], self.effects(mark), kind, v))
                    stack.extend(self.forks)
                finally:
                    self.rollback(mark)
                    del self.pc[pcmark:]
        finally:
            self.dec, self.pos, self.forks = saved
        return outs

    def decide(self, c):
        c = num(c)
        if c is TRUE or c in self.pc:
            return True
        if c is FALSE or tm.lnot(c) in self.pc:
            return False
        if not self.facts.feasible(self.pc + [tm.lnot(c)]):
            return True
        if not self.facts.feasible(self.pc + [c]):
            return False
        if self.pos < len(self.dec):
            d = self.dec[self.pos]
            self.pos += 1
        else:
            self.forks.append(self.dec[:self.pos] + [False])
            self.dec.append(True)
            self.pos += 1
            d = True
        self.pc.append(c if d else tm.lnot(c))
        return d

    def require(self, c, what):
        """obligation that must hold here (index bounds, shapes)"""
        c = num(c)
        self.bounds_seen.add((what, c))
        self.bounds_checked = len(self.bounds_seen)
        if self.facts.entails(self.pc, c):
            return True
        self.bound_fail.append((what, list(self.pc), c))
        raise Fail('%s not provable: %s' % (what, tm.show(c, 6)), list(self.pc), c)

    # ---------------------------------------------------------- merging
    def vmerge(self, c, a, b):
        if a is b:
            return a
        try:
            if isinstance(a, Lazy):
                a = a.thunk()
            if isinstance(b, Lazy):
                b = b.thunk()
        except Unsupported as e:
            return Poison(str(e), getattr(self, 'merge_node', None))
        if a is MISSING or b is MISSING or isinstance(a, Poison) or isinstance(b, Poison):
            return Poison('only assigned on one branch', getattr(self, 'merge_node', None))
        if isnumber(a) and isnumber(b):
            return conc(tm.ite(c, lift(a), lift(b)))
        if isinstance(a, Abstract) and a.same(b):
            return a.again(None)
        if isinstance(a, Maybe) and isinstance(b, Maybe):
            return a.merge(c, b)
        if isinstance(a, Fn) and isinstance(b, Fn):
            return Fn(lambda *idx: tm.ite(c, lift(a(*idx)), lift(b(*idx))))
        if isinstance(a, Arr) and isinstance(b, Arr) and len(a.dims) == len(b.dims):
            f, g = a.snap(), b.snap()
            if all(samedim(x, y) for x, y in zip(a.dims, b.dims)):
                return Arr(a.dims, lambda *idx: tm.ite(c, lift(f(*idx)), lift(g(*idx))), a.dtype)
            if len(a.dims) == 1:
                if b.dims[0].plain and b.dims[0].size is num(0):
                    d = a.dims[0]
                    return Arr([Dim(d.sizes, lambda *i: tm.land(c, d.condat(i)))], f, a.dtype)
                if a.dims[0].plain and a.dims[0].size is num(0):
                    return self.vmerge(tm.lnot(c), b, a)
                if a.dims[0].sizes == b.dims[0].sizes:
                    d, e = a.dims[0], b.dims[0]
                    return Arr([Dim(d.sizes, lambda *i: tm.ite(c, d.condat(i), e.condat(i)))],
                               lambda *idx: tm.ite(c, lift(f(*idx)), lift(g(*idx))), a.dtype)
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.vmerge(c, x, y) for x, y in zip(a, b))
        if isinstance(a, list) and isinstance(b, list):
            if len(a) == len(b):
                return [self.vmerge(c, x, y) for x, y in zip(a, b)]
            if len(a) == 1 and len(b) == 0:
                x = a[0]
                return FSeq(c, x)
            if len(a) == 0 and len(b) == 1:
                return FSeq(tm.lnot(c), b[0])
        if isinstance(a, FSeq) or isinstance(b, FSeq):
            ab = []
            for x in (a, b):
                if isinstance(x, FSeq):
                    ab.append((x.c, x.x))
                elif isinstance(x, list) and len(x) == 1:
                    ab.append((TRUE, x[0]))
                elif isinstance(x, list) and not x:
                    ab.append((FALSE, MISSING))
                else:
                    break
            else:
                (c1, x1), (c2, x2) = ab
                x = x2 if x1 is MISSING else x1 if x2 is MISSING else self.vmerge(c, x1, x2)
                return FSeq(tm.ite(c, c1, c2), x)
        if isinstance(a, PreList) and isinstance(b, PreList) and a.name == b.name and not a.appended and not b.appended:
            ixs = []
            for ix, _ in a.stores + b.stores:
                if ix not in ixs:
                    ixs.append(ix)
            if len(ixs) == 1 and len(a.stores) <= 1 and len(b.stores) <= 1 and isinstance(a.init, Seq):
                ix = ixs[0]
                va = a.stores[0][1] if a.stores else a.item(ix)
                vb = b.stores[0][1] if b.stores else b.item(ix)
                return PreList(a.name, a.init, (), ((ix, self.vmerge(c, va, vb)),), a.reads)
        if isinstance(a, LList) and isinstance(b, LList):
            m = self.vmerge(c, a.v, b.v)
            return LList(m)
        if isinstance(a, Seq) and isinstance(b, Seq) and a.n is b.n:
            return Seq(a.n, lambda i: self.vmerge(c, a.fn(i), b.fn(i)))
        if isinstance(a, (str, type(None))) and a == b:
            return a
        if isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b):
            return {k: self.vmerge(c, a[k], b[k]) for k in a}
        if isinstance(a, PSet) and isinstance(b, PSet):
            if set(a.v) == set(b.v):
                return a
            raise NoMerge('sets')
        if isinstance(a, PDict) and isinstance(b, PDict) and set(a.v) == set(b.v):
            return PDict({k: self.vmerge(c, a.v[k], b.v[k]) for k in a.v})
        if isinstance(a, Opaque) and isinstance(b, Opaque):
            return a
        raise NoMerge('%r / %r' % (a, b))

    def apply_merged(self, outs, mark_birth):
        """outs: outcomes all 'ok'; apply merged effects to the heap"""
        keys = []
        seen = set()
        for o in outs:
            for k in o.effects:
                if k not in seen:
                    seen.add(k)
                    keys.append(k)
        vals = []
        # contents of objects created on a branch first: merging references to them reads the contents
        for cell, key in keys:
            if cell.birth > mark_birth:
                for o in outs:
                    if (cell, key) in o.effects:
                        v = o.effects[(cell, key)]
                        if v is not MISSING:
                            self.setk(cell, key, v)
                        elif key in cell.d:
                            self.delk(cell, key)
                        break
        for cell, key in keys:
            cur = cell.d.get(key, MISSING)
            if cell.birth > mark_birth:
                continue
            v = None
            first = True
            for o in reversed(outs):
                x = o.effects.get((cell, key), cur)
                if first:
                    v = x
                    first = False
                else:
                    v = self.vmerge(tm.land(*o.pc), x, v)
            vals.append((cell, key, v))
        for cell, key, v in vals:
            if v is MISSING:
                if key in cell.d:
                    self.delk(cell, key)
            else:
                self.setk(cell, key, v)

    # ---------------------------------------------------------- entry points
    def module(self, name):
        if name in self.modules:
            return self.modules[name]
        p = os.path.join(self.repo, *name.split('.'))
        path = p + '.py' if os.path.exists(p + '.py') else os.path.join(p, '__init__.py')
        if not os.path.exists(path) and os.path.exists(p + '.f95'):
            path = p + '.f95'       # a compiled module: its source, transcribed
        if not os.path.exists(path):
            raise Unsupported('module %s' % name)
        m = self.modules[name] = Module(self, name, path)
        return m

    def getfn(self, qual):
        parts = qual.split('.')
        for k in range(len(parts) - 1, 0, -1):
            try:
                m = self.module('.'.join(parts[:k]))
            except Unsupported:
                continue
            v = m.get(parts[k])
            if v is MISSING:
                raise Unsupported('no %s in %s' % (parts[k], m.name))
            for a in parts[k + 1:]:
                v = self.getattr(v, a)
            return v
        raise Unsupported(qual)

    def do_import(self, st, al, module):
        if isinstance(st, ast.Import):
            if al.asname:
                return self.import_mod(al.name)
            return self.import_mod(al.name.split('.')[0])
        modname = st.module
        if st.level:
            base = module.name.split('.')
            base = base[:len(base) - st.level]
            modname = '.'.join(base + ([st.module] if st.module else []))
        if modname == '__future__':
            return None
        m = self.import_mod(modname)
        return self.getattr(m, al.name)

    def import_mod(self, name):
        if name in self.libs:
            return self.libs[name]
        if name.startswith('geotecha'):
            if ('fortran:' + name) in self.libs:
                return self.libs['fortran:' + name]
            try:
                return self.module(name)
            except Unsupported:
                raise PyExc('ImportError', ('no module %s' % name,))
        return Namespace(name, {})

    def make_func(self, node, env, cls=None):
        f = Func(node, env, env.module, node.name, cls)
        for dec in node.decorator_list:
            if isinstance(dec, ast.Name) and dec.id in ('property', 'staticmethod', 'classmethod'):
                if dec.id == 'property':
                    f.defaults, f.kwdefaults = [], []
                    return Prop(f)
                if dec.id == 'staticmethod':
                    f.static = True
                    continue
            elif isinstance(dec, ast.Attribute) and dec.attr == 'setter':
                f.is_setter = True
                continue
            raise Unsupported('decorator %s' % ast.unparse(dec))
        a = node.args
        f.defaults = [self.eval(x, env) for x in a.defaults]
        f.kwdefaults = [None if x is None else self.eval(x, env) for x in a.kw_defaults]
        return f

    def make_class(self, node, env):
        bases = []
        for b in node.bases:
            bases.append(self.eval(b, env))
        c = Cls(node.name, bases, {}, env.module)
        cenv = Env(env, env.module)
        cenv.d = c.attrs
        for st in node.body:
            if isinstance(st, ast.FunctionDef):
                try:
                    v = self.make_func(st, env, c)
                except Unsupported as e:
                    v = Poison(str(e))
                if isinstance(v, Func) and getattr(v, 'is_setter', False):
                    p = c.attrs.get(st.name)
                    if isinstance(p, Prop):
                        p.fset = v
                        continue
                if isinstance(v, Prop):
                    v.fget.cls = c
                c.attrs[st.name] = v
            elif isinstance(st, ast.Assign):
                self.exec_stmt(st, cenv)
            elif isinstance(st, (ast.Expr, ast.Pass)):
                pass
            else:
                raise Unsupported('class body %s' % type(st).__name__)
        return c

    # ---------------------------------------------------------- calls
    def call(self, f, args=(), kwargs=None):
        kwargs = dict(kwargs or {})
        args = list(args)
        if isinstance(f, Builtin):
            return f.f(*args, **kwargs)
        if isinstance(f, Bound):
            return self.call(f.func, [f.obj] + args, kwargs)
        if isinstance(f, Func):
            con = self.contracts.get(f.qual)
            if con is not None:
                self.used_contracts.add(f.qual)
                r = con(self, f, args, kwargs)
                if r is not NotImplemented:
                    return r
            return self.call_func(f, args, kwargs)
        if isinstance(f, Cls):
            con = self.contracts.get('%s.%s' % (f.module.name, f.name))
            if con is not None:
                self.used_contracts.add('%s.%s' % (f.module.name, f.name))
                r = con(self, f, args, kwargs)
                if r is not NotImplemented:
                    return r
            o = Obj(f)
            init = f.lookup('__init__')
            if init is not MISSING:
                self.call(init, [o] + args, kwargs)
            elif any(isinstance(b, TypeVal) for b in f.bases):
                o.d['args'] = tuple(args)
            return o
        if isinstance(f, TypeVal):
            c = self.builtins.get('type:' + f.name)
            if c is not None:
                return c(*args, **kwargs)
        if isinstance(f, Obj):
            m = f.cls.lookup('__call__')
            if m is not MISSING:
                return self.call(m, [f] + args, kwargs)
        if isinstance(f, Opaque):
            return Opaque(f.what)
        raise Unsupported('call of %r' % (f,))

    def bind(self, f, args, kwargs):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        d = {}
        if len(args) > len(names):
            if a.vararg is None:
                raise PyExc('TypeError', ('too many positional arguments',))
            d[a.vararg.arg] = tuple(args[len(names):])
            args = args[:len(names)]
        elif a.vararg is not None:
            d[a.vararg.arg] = ()
        for n, v in zip(names, args):
            d[n] = v
        kwonly = [x.arg for x in a.kwonlyargs]
        extra = {}
        for k, v in kwargs.items():
            if k in names or k in kwonly:
                if k in d:
                    raise PyExc('TypeError', ('multiple values',))
                d[k] = v
            else:
                extra[k] = v
        if a.kwarg is not None:
            d[a.kwarg.arg] = PDict(extra)
        elif extra:
            raise PyExc('TypeError', ('unexpected keyword %s' % list(extra),))
        nd = len(f.defaults)
        for i, n in enumerate(names):
            if n not in d:
                k = i - (len(names) - nd)
                if k < 0:
                    raise PyExc('TypeError', ('missing argument %s' % n,))
                d[n] = f.defaults[k]
        for n, v in zip(kwonly, f.kwdefaults):
            if n not in d:
                d[n] = v
        return d

    def call_func(self, f, args, kwargs):
        self.depth += 1
        if self.depth > 60:
            raise Unsupported('recursion depth')
        try:
            env = Env(f.env, f.module)
            env.func = f
            env.d.update(self.bind(f, args, kwargs))
            self.used.add(f.qual)
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body, env)
            sig = self.exec_block(f.node.body, env)
            if sig is not None and sig[0] == 'return':
                return sig[1]
            return None
        finally:
            self.depth -= 1

    # ---------------------------------------------------------- statements
    def exec_block(self, body, env):
        for i, st in enumerate(body):
            sig = self.exec_stmt(st, env)
            if sig is not None:
                return sig
        return None

    def exec_stmt(self, st, env):
        m = getattr(self, 'st_' + type(st).__name__, None)
        if m is None:
            raise Unsupported('statement %s' % type(st).__name__)
        self.current_line = (env.module.name if env.module else '?', getattr(st, 'lineno', 0))
        return m(st, env)

    def st_Pass(self, st, env):
        return None

    def st_Global(self, st, env):
        return None

    def st_Nonlocal(self, st, env):
        env.nonlocals.update(st.names)

    def st_Expr(self, st, env):
        if isinstance(st.value, ast.Constant):
            return None
        self.eval(st.value, env)

    def st_Assert(self, st, env):
        if not self.truth(self.eval(st.test, env)):
            raise PyExc('AssertionError')

    def st_Import(self, st, env):
        for al in st.names:
            if al.asname:
                self.setk(env, al.asname, self.import_mod(al.name))
            else:
                self.setk(env, al.name.split('.')[0], self.import_mod(al.name.split('.')[0]))

    def st_ImportFrom(self, st, env):
        for al in st.names:
            self.setk(env, al.asname or al.name, self.do_import(st, al, env.module))

    def st_FunctionDef(self, st, env):
        f = self.make_func(st, env)
        self.setk(env, st.name, f)

    def st_ClassDef(self, st, env):
        self.setk(env, st.name, self.make_class(st, env))

    def st_Return(self, st, env):
        return ('return', None if st.value is None else self.eval(st.value, env))

    def st_Break(self, st, env):
        return ('break',)

    def st_Continue(self, st, env):
        return ('continue',)

    def st_Delete(self, st, env):
        for t in st.targets:
            if isinstance(t, ast.Name):
                self.delk(env, t.id)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, env)
                k = self.eval(t.slice, env)
                if isinstance(o, PDict):
                    d = dict(o.v)
                    del d[self.hashkey(k)]
                    self.setk(o, 'v', d)
                elif isinstance(o, LList) and isinstance(o.v, list) and isinstance(k, int):
                    l = list(o.v)
                    del l[k]
                    self.setk(o, 'v', l)
                else:
                    raise Unsupported('del')
            else:
                raise Unsupported('del')

    def st_Assign(self, st, env):
        v = self.eval(st.value, env)
        for t in st.targets:
            self.assign(t, v, env)

    def st_AnnAssign(self, st, env):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, env), env)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            e = env
            if t.id in env.nonlocals:
                e = env.parent
                while e is not None and t.id not in e.d:
                    e = e.parent
            self.setk(e, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            vs = self.unpack(v, None if star else n)
            if star:
                s = star[0]
                k = n - s - 1
                for x, y in zip(t.elts[:s], vs[:s]):
                    self.assign(x, y, env)
                self.assign(t.elts[s].value, LList(list(vs[s:len(vs) - k])), env)
                for x, y in zip(t.elts[s + 1:], vs[len(vs) - k:]):
                    self.assign(x, y, env)
                return
            for x, y in zip(t.elts, vs):
                self.assign(x, y, env)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            self.setattr(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            k = self.evalslice(t.slice, env)
            self.setitem(o, k, v)
        else:
            raise Unsupported('assign target')

    def unpack(self, v, n):
        vs = self.iter_concrete(v, n)
        if vs is None:
            raise Unsupported('unpack of symbolic sequence')
        if n is not None and len(vs) != n:
            raise PyExc('ValueError', ('unpack',))
        return vs

    def st_AugAssign(self, st, env):
        from . import nplib
        t = st.target
        op = type(st.op).__name__
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, env)
            v = self.eval(st.value, env)
            self.assign(t, self.augment(op, cur, v), env)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            k = self.evalslice(t.slice, env)
            v = self.eval(st.value, env)
            cur = self.getitem(o, k)
            if isinstance(cur, (Arr,)) and isinstance(v, (Arr, T, int)):
                self.setitem(o, k, self.binop(op, cur, v))
            else:
                self.setitem(o, k, self.augment(op, cur, v))
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            cur = self.getattr(o, t.attr)
            v = self.eval(st.value, env)
            self.setattr(o, t.attr, self.augment(op, cur, v))
        else:
            raise Unsupported('augassign')

    def augment(self, op, cur, v):
        """in-place operators: arrays and lists are mutated"""
        if isinstance(cur, Arr):
            if isinstance(v, LList):
                v = self.libs['numpy'].d['asarray'].f(v)
            r = self.binop(op, cur, v)
            if isinstance(r, Arr):
                self.store_all(cur, r)
                return cur
            return r
        if isinstance(cur, LList) and op == 'Add':
            vs = self.iter_concrete(v)
            if isinstance(cur.v, list) and vs is not None:
                self.setk(cur, 'v', cur.v + list(vs))
                return cur
            raise Unsupported('list +=')
        if isinstance(cur, Obj):
            m = cur.cls.lookup('__i%s__' % {'Add': 'add', 'Sub': 'sub', 'Mult': 'mul', 'Div': 'truediv'}.get(op, op))
            if m is not MISSING:
                return self.call(m, [cur, v])
        return self.binop(op, cur, v)

    def st_If(self, st, env):
        c = self.cond(self.eval(st.test, env))
        if c is TRUE:
            return self.exec_block(st.body, env)
        if c is FALSE:
            return self.exec_block(st.orelse, env)
        return self.branch(c, lambda: self.exec_block(st.body, env), lambda: self.exec_block(st.orelse, env), st)

    def branch(self, c, tb, fb, node):
        if self.known(c) is True:
            return tb()
        if self.known(c) is False:
            return fb()
        key = id(node)
        if key not in self.nomerge:
            r = self.try_merge(c, tb, fb, node)
            if r is not NotImplemented:
                return r
        if self.decide(c):
            return tb()
        return fb()

    def known(self, c):
        if c is TRUE or c in self.pc:
            return True
        if c is FALSE or tm.lnot(c) in self.pc:
            return False
        if not self.facts.feasible(self.pc + [tm.lnot(c)]):
            return True
        if not self.facts.feasible(self.pc + [c]):
            return False
        return None

    def try_merge(self, c, tb, fb, node):
        mark_birth = next(_serial)
        try:
            o1 = self.explore(tb, [c])
            if any(o.kind != 'ok' or o.value is not None for o in o1):
                return NotImplemented
            o2 = self.explore(fb, [tm.lnot(c)])
            if any(o.kind != 'ok' or o.value is not None for o in o2):
                return NotImplemented
        except NoMerge:
            return NotImplemented
        for o in o1:
            o.pc = [c] + o.pc
        for o in o2:
            o.pc = [tm.lnot(c)] + o.pc
        mark = len(self.trail)
        try:
            self.merge_node = node
            self.apply_merged(o1 + o2, mark_birth)
        except NoMerge:
            self.rollback(mark)
            return NotImplemented
        return None

    def st_Raise(self, st, env):
        if st.exc is None:
            cur = getattr(self, 'cur_exc', None)
            if cur is not None:
                raise cur
            raise PyExc('RuntimeError')
        e = self.eval(st.exc, env)
        if isinstance(e, TypeVal):
            raise PyExc(e.name, ())
        if isinstance(e, tuple) and e and e[0] == 'exc':
            raise PyExc(e[1], e[2])
        if isinstance(e, Obj):
            raise PyExc(e.cls.name, (e,))
        raise Unsupported('raise %r' % (e,))

    EXC = {'ZeroDivisionError': 'ArithmeticError', 'ArithmeticError': 'Exception', 'ValueError': 'Exception',
           'TypeError': 'Exception', 'IndexError': 'LookupError', 'KeyError': 'LookupError', 'LookupError': 'Exception',
           'AttributeError': 'Exception', 'ImportError': 'Exception', 'AssertionError': 'Exception',
           'RuntimeError': 'Exception', 'NotImplementedError': 'RuntimeError', 'NameError': 'Exception',
           'UnboundLocalError': 'NameError', 'StopIteration': 'Exception', 'SyntaxError': 'Exception',
           'ModuleNotFoundError': 'ImportError', 'OverflowError': 'ArithmeticError'}

    def exc_match(self, name, h):
        while name is not None:
            if name == h:
                return True
            name = self.EXC.get(name, 'Exception' if name != 'Exception' else None)
        return h == 'BaseException'

    def st_Try(self, st, env):
        try:
            sig = self.exec_block(st.body, env)
            if sig is None and st.orelse:
                sig = self.exec_block(st.orelse, env)
        except PyExc as e:
            for h in st.handlers:
                names = []
                if h.type is not None:
                    tv = self.eval(h.type, env)
                    for x in (tv if isinstance(tv, tuple) else (tv,)):
                        names.append(x.name)
                if h.type is None or any(self.exc_match(e.tname, n) for n in names):
                    if h.name:
                        self.setk(env, h.name, ('exc', e.tname, e.eargs))
                    self.cur_exc = e
                    sig = self.exec_block(h.body, env)
                    break
            else:
                if st.finalbody:
                    self.exec_block(st.finalbody, env)
                raise
        if st.finalbody:
            s2 = self.exec_block(st.finalbody, env)
            if s2 is not None:
                return s2
        return sig

    def st_With(self, st, env):
        raise Unsupported('with')

    def st_While(self, st, env):
        form = counting(st)
        if form is not None:
            done, sig = self.counted(st, env, *form)
            if done:
                return sig
        n = 0
        while True:
            c = self.cond(self.eval(st.test, env))
            if not self.decide(c):
                if st.orelse:
                    return self.exec_block(st.orelse, env)
                return None
            sig = self.exec_block(st.body, env)
            if sig is not None:
                if sig[0] == 'break':
                    return None
                if sig[0] == 'return':
                    return sig
            n += 1
            if n > self.concrete_unroll:
                raise Unsupported('unbounded while loop')

    def counted(self, st, env, name, op, bound, step, body):
        """while name < bound: body; name += 1  (bound the same in every iteration), as a loop over a range -> (done?, signal)"""
        load = ast.Name(name, ast.Load())
        lo, hi = conc(self.eval(load, env)), conc(self.eval(bound, env))
        isint = lambda v: (isinstance(v, int) and not isinstance(v, bool)) or (isinstance(v, T) and v.sort == 'I')
        if isinstance(lo, int) and isinstance(hi, int) or not (isint(lo) and isint(hi)):
            return False, None
        end = lift(hi) if op in ('Lt', 'Gt') else tm.add(lift(hi), num(step))
        n = tm.sub(end, lift(lo)) if step > 0 else tm.sub(lift(lo), end)
        if not self.facts.entails(self.pc, tm.le(num(0), n)):
            n = tm.maxt(n, num(0))

        def one(i):
            self.assign(ast.Name(name, ast.Store()), conc(tm.add(lift(lo), tm.mul(num(step), i))), env)
            now = conc(self.eval(bound, env))
            if now is not hi and now != hi:
                raise Unsupported('while loop whose bound changes')
            return self.exec_block(body, env)
        sig = self.symloop(n, one, None, env, st, False)
        if sig is not None:
            return True, None if sig[0] == 'left' else sig
        self.assign(ast.Name(name, ast.Store()), conc(tm.add(lift(lo), tm.mul(num(step), n))), env)
        return True, self.exec_block(st.orelse, env) if st.orelse else None

    def st_For(self, st, env):
        it = self.eval(st.iter, env)
        vs = self.iter_concrete(it)
        if vs is not None:
            for v in vs:
                self.assign(st.target, v, env)
                sig = self.exec_block(st.body, env)
                if sig is not None:
                    if sig[0] == 'break':
                        return None
                    if sig[0] == 'return':
                        return sig
            if st.orelse:
                return self.exec_block(st.orelse, env)
            return None
        n, item, cond, rev = self.iter_symbolic(it)
        if n is num(1):
            # at most one element
            c = cond(num(0)) if cond is not None else TRUE

            def one():
                self.assign(st.target, item(num(0)), env)
                sig = self.exec_block(st.body, env)
                return None if sig is not None and sig[0] in ('break', 'continue') else sig
            if st.orelse:
                raise Unsupported('for-else')
            return one() if c is TRUE else self.branch(c, one, lambda: None, st)

        def body(i):
            self.assign(st.target, item(i), env)
            return self.exec_block(st.body, env)
        sig = self.symloop(n, body, cond, env, st, rev)
        if sig is not None:
            return None if sig[0] == 'left' else sig
        if st.orelse:
            return self.exec_block(st.orelse, env)
        return None

    # ---------------------------------------------------------- symbolic loops
    def symloop(self, n, body, cond, env, node, rev=False):
        """for i in 0..n-1 [cond(i)]: body(i)"""
        n = num(n)
        i = tm.fresh('i', 'I')
        guard = [tm.le(num(0), i), tm.lt(i, n)]
        ci = cond(i) if cond is not None else TRUE
        if ci is not TRUE:
            guard.append(ci)
        if not self.facts.feasible(self.pc + guard):
            return None
        havoc = {}       # (cell,key) -> opaque pre value info
        pre_birth = next(_serial)
        for attempt in range(12):
            # states at iteration start: locations in `havoc` are opaque
            mark = len(self.trail)
            pres = {h['pre'].buf for h in havoc.values() if isinstance(h['pre'], Arr)}
            for (cell, key), h in havoc.items():
                self.setk(cell, key, h['pre'])
            def run():
                sig = body(i)
                return sig if sig is not None and sig[0] in ('break', 'return') else None
            try:
                outs = self.explore(run, guard)
            finally:
                self.rollback(mark)
            exits = [o for o in outs if o.kind == 'raise' or o.value is not None]
            outs = [o for o in outs if o.kind != 'raise' and o.value is None]
            new = False
            for o in outs:
                for (cell, key) in o.effects:
                    if cell.birth > pre_birth:
                        continue
                    if (cell, key) not in havoc:
                        havoc[(cell, key)] = self.make_pre(cell, key, i)
                        new = True
            for (cell, key), h in havoc.items():
                # an object taken to be unchanged by the loop turned out to change
                if h['kind'] == 'abstract' and any(not h['pre'].same(o.effects.get((cell, key), h['pre'])) for o in outs):
                    h.update(kind='other', pre=Poison('value carried around a loop'))
                    new = True
            if not new:
                break
        else:
            raise Unsupported('loop did not stabilise')
        found = None
        if exits:
            # the loop is left early at the first index whose iteration takes a leaving path
            if rev:
                raise Unsupported('leaving a reversed loop')
            ex = any_path([[c for c in o.pc if c not in self.derived] for o in exits])
            if mentions(ex, havoc):
                raise Unsupported('leaving a loop on a loop-carried value')
            k = tm.fresh('k', 'I')
            cond_k = tm.subst(tm.land(ci, ex), {i: k})
            if self.decide(tm.exists(k, n, cond_k)):
                found = tm.first(k, n, cond_k)
                full = n
                n = found
                here = tm.land(tm.le(num(0), found), tm.lt(found, full), tm.subst(tm.land(ci, ex), {i: found}))
        # contents of objects created in the body (read lazily below)
        for o in outs:
            for (cell, key), x in o.effects.items():
                if cell.birth > pre_birth:
                    if cell in pres:
                        raise Unsupported('array both rebound and updated in place in a loop')
                    self.setk(cell, key, x)
        # merged post value of every havoced location
        finals = []
        opaque = {h['name'] for h in havoc.values() if h['name']}
        for (cell, key), h in havoc.items():
            v = None
            for o in reversed(outs):
                x = o.effects.get((cell, key), h['pre'])
                if v is None:
                    v = x
                    continue
                try:
                    v = self.vmerge(tm.land(*o.pc), x, v)
                except NoMerge as e:
                    v = Poison(str(e))
            h['post'] = v
        for (cell, key), h in havoc.items():
            finals.append((cell, key, self.loop_final(cell, key, h, havoc, i, n, ci, guard, rev)))
        for cell, key, v in finals:
            if v is MISSING:
                self.delk(cell, key)
            else:
                self.setk(cell, key, v)
        if found is not None:
            self.derived.add(here)
            self.pc.append(here)
            sig = body(found)
            if sig is None or sig[0] == 'continue':
                raise Unsupported('the leaving iteration of a loop was not reproduced')
            return ('left',) if sig[0] == 'break' else sig
        return None

    def make_pre(self, cell, key, i):
        cur = cell.d.get(key, MISSING)
        name = 'pre!%d' % next(_serial)
        h = {'init': cur, 'name': name}
        if isinstance(cell, Buf) and key == 'fn':
            h['kind'] = 'buf'
            srt = {'i': 'I', 'b': 'B'}.get(cell.dtype, 'R')
            h['pre'] = Fn(lambda *idx: tm.app(name, *_flat(idx), sort=srt))
        elif isinstance(cell, LList) and key == 'v':
            h['kind'] = 'list'
            h['pre'] = PreList(name, cur)
        elif isnumber(cur):
            h['kind'] = 'scalar'
            t = lift(cur)
            h['pre'] = tm.app(name, sort='R' if t.sort != 'B' else 'B')
        elif isinstance(cur, Arr):
            h['kind'] = 'arr'
            h['pre'] = Arr(cur.dims, lambda *idx: tm.app(name, *_flat(idx)), cur.dtype)
        elif isinstance(cur, Abstract):
            h['kind'] = 'abstract'
            h['name'] = None
            h['pre'] = cur.again(i)
        else:
            h['kind'] = 'other'
            h['name'] = None
            h['pre'] = Poison('value carried around a loop')
        return h

    def loop_final(self, cell, key, h, havoc, i, n, ci, guard, rev=False):
        post, pre, init, kind = h['post'], h['pre'], h['init'], h['kind']
        if kind == 'abstract':
            # loop invariant: the meaning of the object does not change
            return pre.again(None) if pre.same(post) else Poison('object changed in a loop')
        if kind == 'other' or isinstance(post, Poison):
            return self.last_value(post, init, havoc, i, n, ci)
        if kind == 'scalar':
            if isinstance(post, (Arr, LList, Obj, tuple, Opaque, str, type(None), Func)):
                return self.last_value(post, init, havoc, i, n, ci)
            if isinstance(post, Lazy):
                post = post.thunk()
            p = lift(post)
            if not mentions(p, havoc):
                return self.last_value(post, init, havoc, i, n, ci)
            d = self.extract(p, lift(pre), (), ())
            if d is not None and not mentions(d, havoc):
                k = tm.fresh('k', 'I')
                return conc(tm.add(lift(init), tm.bsum(k, n, tm.subst(d, {i: k}), tm.subst(ci, {i: k}))))
            return Poison('loop-carried scalar with no closed form')
        if kind == 'arr':
            if isinstance(post, Arr) and len(post.dims) == len(init.dims) and all(samedim(a, b) for a, b in zip(post.dims, init.dims)):
                idx = tuple(d.fresh('r') for d in post.dims)
                p = lift(post.at(*idx))
                if not mentions(p, havoc):
                    return self.last_value(post, init, havoc, i, n, ci)
                fn = self.buf_final(p, idx, lambda *ix: lift(init.snap()(*ix)), pre.snap(), post.dims, havoc, i, n, ci, guard, h, rev)
                return Arr(post.dims, fn, init.dtype)
            if isinstance(post, Arr):
                return self.last_value(post, init, havoc, i, n, ci)
            raise Unsupported('array rebinding in loop')
        if kind == 'buf':
            idx = tuple(d.fresh('r') for d in cell.dims)
            p = lift(post(*idx))
            initf = init
            fn = self.buf_final(p, idx, lambda *ix: lift(initf(*ix)), pre, cell.dims, havoc, i, n, ci, guard, h, rev)
            return Fn(fn)
        if kind == 'list':
            return self.list_final(post, pre, init, havoc, i, n, ci)
        raise Unsupported(kind)

    def last_value(self, post, init, havoc, i, n, ci):
        if isinstance(post, Poison):
            return post
        def thunk():
            if ci is not TRUE:
                raise Unsupported('last value of a filtered loop')
            v = post.thunk() if isinstance(post, Lazy) else post
            if mentions_v(v, havoc):
                raise Unsupported('loop-carried value')
            last = vsubst(v, {i: tm.sub(n, num(1))})
            if self.facts.entails(self.pc, tm.lt(num(0), n)):
                return last
            return self.vmerge(tm.lt(num(0), n), last, init)
        return Lazy(thunk)

    def extract(self, p, target, eqs, cs):
        """delta with p == target + delta, or None.  eqs: substitution valid here"""
        if p is target:
            return num(0)
        if p.op == 'add':
            rest = list(p.args)
            if target in rest:
                rest.remove(target)
                return tm.add(num(0), *rest)
            # under equalities
            for k, x in enumerate(rest):
                if x.op == 'app' and target.op == 'app' and x.args[0] == target.args[0] and len(x.args) == len(target.args):
                    d = tm.land(*[tm.eq(a, b) for a, b in zip(x.args[1:], target.args[1:])])
                    cc = set()
                    for c in cs:
                        cc.update(c.args if c.op == 'and' else (c,))
                    need = set(d.args if d.op == 'and' else (d,))
                    if need <= cc or self.facts.entails(self.pc + list(cs), d):
                        del rest[k]
                        return tm.add(num(0), *rest)
            for k, x in enumerate(rest):
                if x.op == 'ite':
                    d = self.extract(x, target, eqs, cs)
                    if d is not None:
                        del rest[k]
                        return tm.add(d, *rest)
            return None
        if p.op == 'ite':
            c, a, b = p.args
            da = self.extract(a, target, eqs, cs + (c,))
            if da is None:
                return None
            db = self.extract(b, target, eqs, cs + (tm.lnot(c),))
            if db is None:
                return None
            return tm.ite(c, da, db)
        if p.op == 'app' and target.op == 'app' and p.args[0] == target.args[0]:
            d = tm.land(*[tm.eq(a, b) for a, b in zip(p.args[1:], target.args[1:])])
            if self.facts.entails(self.pc + list(cs), d):
                return num(0)
        return None

    def buf_final(self, p, idx, init, pre, dims, havoc, i, n, ci, guard, h, rev=False):
        target = lift(pre(*idx))
        flat = _flat(idx)
        rng = [d.inrange(x) for d, x in zip(dims, idx)]
        if target.sort != 'B':
            d = self.extract(p, target, (), tuple(guard) + tuple(rng))
            if d is not None and not mentions(d, havoc):
                k = tm.fresh('k', 'I')
                tot = tm.bsum(k, n, tm.subst(d, {i: k}), tm.subst(ci, {i: k}))

                def fn(*ix):
                    return tm.add(init(*ix), tm.subst(tot, dict(zip(flat, [num(x) for x in _flat(ix)]))))
                return fn
        # store rule: p = ite(c1, v1, ite(c2, v2, ... target))
        cases = []
        ok = self.store_cases(p, target, [], cases)
        if ok:
            final = None
            # frame reads: v may read the array at places the loop never writes
            wr = tm.lor(*[tm.land(*cs) for cs, v in cases])
            cases2 = []
            for cs, v in cases:
                v = self.frame_read(v, havoc, i, n, ci, wr, flat, h, init, guard, cs)
                if v is None:
                    ok = False
                    break
                cases2.append((cs, v))
            if ok:
                sol = []
                for cs, v in cases2:
                    lits = []
                    for c in cs:
                        lits += list(c.args) if c.op == 'and' else [c]
                    g = None
                    for c in lits:
                        if c.op == 'ieq':
                            s = tm.solve_int(c.args[0], i)
                            if s is not None and i in tm.fv(c.args[0]):
                                g = s
                                break
                    if g is None:
                        if i not in tm.fv(v):
                            k = tm.fresh('k', 'I')
                            ex = tm.exists(k, n, tm.subst(tm.land(ci, *lits), {i: k}))
                            sol.append((ex, v))
                            continue
                        ok = False
                        break
                    m = {i: g}
                    cond = tm.land(tm.le(num(0), g), tm.lt(g, n), tm.subst(ci, m), *[tm.subst(c, m) for c in lits])
                    sol.append((cond, tm.subst(v, m)))
                if any(mentions(c, havoc) for c, v in sol):
                    ok = False
                if ok and len(sol) > 1:
                    # different cases may be hit by different iterations: must be exclusive
                    for (c1, v1), (c2, v2) in itertools.combinations(sol, 2):
                        if self.facts.feasible(self.pc + rng + [c1, c2]):
                            ok = False
                            break
                if ok:
                    def fn(*ix):
                        m = dict(zip(flat, [num(x) for x in _flat(ix)]))
                        r = init(*ix)
                        for c, v in reversed(sol):
                            r = tm.ite(tm.subst(c, m), tm.subst(v, m), r)
                        return r
                    return fn
        fn = self.own_index(p, target, flat, rng, n, ci, i, guard, h, havoc, init)
        if fn is not None:
            return fn
        fn = self.own_sites(p, target, flat, rng, n, ci, i, guard, h, havoc, init)
        if fn is not None:
            return fn
        if ci is tm.TRUE and not rev and not mentions(p, havoc) and not any(mentions(g, havoc) for g in guard):
            # every iteration stores all of it again: the last one stays
            last = tm.subst(p, {i: tm.sub(n, num(1))})
            some = self.facts.entails(self.pc, tm.lt(num(0), n))

            def fn(*ix):
                v = tm.subst(last, dict(zip(flat, [num(x) for x in _flat(ix)])))
                return v if some else tm.ite(tm.lt(num(0), n), v, init(*ix))
            return fn
        raise Unsupported('no loop rule applies: %s' % tm.show(p, 6)[:300])

    def own_sites(self, p, target, flat, rng, n, ci, i, guard, h, havoc, init):
        """iteration i changes the array at several places, no place changed by two iterations, reading only what it changes there"""
        lits = sorted((u for u in tm.subterms(p) if u.op == 'ieq' and i in tm.fv(u) and any(r in tm.fv(u) for r in flat)), key=lambda u: u.id)
        if len(lits) < 2:
            return None
        gs = [tm.solve_int(u.args[0], i) for u in lits]
        if any(g is None or mentions(g, havoc) for g in gs):
            return None
        base = self.pc + list(guard)
        off = {u: tm.FALSE for u in lits}
        p2 = tm.subst(p, off)
        if p2 is not target and not self.facts.entails(base + rng + [tm.lnot(u) for u in lits], tm.eq(p2, target)):
            return None
        conds = [tm.land(tm.le(num(0), g), tm.lt(g, n), tm.subst(ci, {i: g})) for g in gs]
        if any(mentions(c, havoc) for c in conds):
            return None
        if any(self.facts.feasible(base + [a, b]) for a, b in itertools.combinations(conds, 2)):
            return None
        sol = []
        for u, g, c in zip(lits, gs, conds):
            q = tm.subst(tm.subst(p, {**off, u: tm.TRUE}), {i: g})
            while True:
                for t in sorted((t.args[0] for t in tm.subterms(q) if t.op == 'ite'), key=lambda t: t.id):
                    if not mentions(t, havoc) and not self.facts.feasible(base + [c, t]):
                        q = tm.subst(q, {t: tm.FALSE})
                        break
                    if not mentions(t, havoc) and not self.facts.feasible(base + [c, tm.lnot(t)]):
                        q = tm.subst(q, {t: tm.TRUE})
                        break
                else:
                    break
            apps = [t for t in tm.subterms(q) if t.op == 'app' and t.args[0] == h['name']]
            if any(list(t.args[1:]) != list(flat) for t in apps):
                return None
            q = tm.subst(q, {t: init(*t.args[1:]) for t in apps})
            if mentions(q, havoc):
                return None
            sol.append((c, q))

        def fn(*ix):
            m = dict(zip(flat, [num(x) for x in _flat(ix)]))
            r = init(*ix)
            for c, q in sol:
                r = tm.ite(tm.subst(c, m), tm.subst(q, m), r)
            return r
        return fn

    def own_index(self, p, target, flat, rng, n, ci, i, guard, h, havoc, init):
        """iteration i changes the array only at places no other iteration changes, reading it only there"""
        for lit in {u for u in tm.subterms(p) if u.op == 'ieq' and i in tm.fv(u)}:
            g = tm.solve_int(lit.args[0], i)
            own = [c for c, r in enumerate(flat) if r in tm.fv(lit)]
            if g is None or not own:
                continue
            p2 = tm.subst(p, {lit: tm.FALSE})
            if p2 is not target and not self.facts.entails(self.pc + list(guard) + rng + [tm.lnot(lit)], tm.eq(p2, target)):
                continue
            q = tm.subst(p, {i: g})
            apps = [u for u in tm.subterms(q) if u.op == 'app' and u.args[0] == h['name']]
            if any(u.args[1 + c] is not flat[c] for u in apps for c in own):
                continue
            q = tm.subst(q, {u: init(*u.args[1:]) for u in apps})
            if mentions(q, havoc):
                continue
            cond = tm.land(tm.le(num(0), g), tm.lt(g, n), tm.subst(ci, {i: g}))
            if mentions(cond, havoc):
                continue

            def fn(*ix):
                m = dict(zip(flat, [num(x) for x in _flat(ix)]))
                return tm.ite(tm.subst(cond, m), tm.subst(q, m), init(*ix))
            return fn
        return None

    def store_cases(self, p, target, cs, out):
        if p is target:
            return True
        if p.op == 'ite':
            c, a, b = p.args
            return self.store_cases(a, target, cs + [c], out) and self.store_cases(b, target, cs + [tm.lnot(c)], out)
        if p.sort == 'B' and p.op in ('and', 'or', 'not'):
            return False
        out.append((cs, p))
        return True

    def frame_read(self, v, havoc, i, n, ci, wr, flat, h, init, guard, cs):
        apps = [u for u in tm.subterms(v) if u.op == 'app' and isinstance(u.args[0], str) and u.args[0].startswith('pre!')]
        if not apps:
            return v
        m = {}
        for a in apps:
            if a.args[0] != h['name']:
                # another havoced location: must be unmodified at that index -- not supported
                return None
            k = tm.fresh('k', 'I')
            w = tm.subst(wr, dict([(i, k)] + list(zip(flat, a.args[1:]))))
            kk = [tm.le(num(0), k), tm.lt(k, n), tm.subst(ci, {i: k})]
            if self.facts.feasible(self.pc + list(guard) + list(cs) + kk + [w]):
                return None
            m[a] = init(*a.args[1:])
        return tm.subst(v, m)

    def list_final(self, post, pre, init, havoc, i, n, ci):
        """list built by append in a loop, or items replaced at distinct indices"""
        if isinstance(post, PreList):
            if post.appended and not post.stores:
                if len(post.appended) != 1 or ci is not TRUE:
                    raise Unsupported('append pattern')
                v = post.appended[0]
                if mentions_v(v, havoc):
                    raise Unsupported('loop-carried append')
                s = Seq(n, lambda k: vsubst(v, {i: num(k)}))
                if isinstance(init, list) and not init:
                    return s
                raise Unsupported('append to non-empty list')
            if post.stores and not post.appended:
                if len(post.stores) != 1:
                    raise Unsupported('several stores to a list')
                ix, v = post.stores[0]
                if ix is not i or ci is not TRUE or any(r is not i for r in post.reads):
                    raise Unsupported('list store index')
                if isinstance(init, Seq) and init.n is n:
                    if mentions_v(v, havoc):
                        raise Unsupported('loop-carried list item')
                    return Seq(n, lambda k: vsubst(v, {i: num(k)}))
                raise Unsupported('list store')
        raise Unsupported('list modified in a loop')

    # ---------------------------------------------------------- iteration
    def iter_concrete(self, v, n=None):
        """python list of the elements, or None when the length is symbolic"""
        if isinstance(v, (tuple, list)):
            return list(v)
        if isinstance(v, LList):
            if isinstance(v.v, list):
                return list(v.v)
            return None
        if isinstance(v, PDict):
            return list(v.v)
        if isinstance(v, range):
            return list(v)
        if isinstance(v, str):
            return list(v)
        if isinstance(v, Iter):
            return v.concrete()
        if isinstance(v, Arr):
            d = v.dims[0]
            if d.plain:
                k = conc(d.size)
                if isinstance(k, int):
                    return [self.getitem(v, j) for j in range(k)]
                if n is not None and self.facts.entails(self.pc, tm.eq(d.size, num(n))):
                    return [self.getitem(v, j) for j in range(n)]
            return None
        if isinstance(v, (Seq, FSeq)):
            return None
        if isinstance(v, Abstract) and hasattr(v, 'sequence'):
            return None
        if isinstance(v, Obj):
            raise Unsupported('iterating an object')
        raise Unsupported('iterate %r' % (v,))

    def iter_symbolic(self, v):
        """(n, item(i), cond(i) or None, reversed)"""
        if isinstance(v, LList):
            v = v.v
        if isinstance(v, Seq):
            return v.n, v.fn, None, False
        if isinstance(v, FSeq):
            return num(1), (lambda i: v.x), (lambda i: v.c), False
        if isinstance(v, PreList):
            raise Unsupported('iterating a list modified in the loop')
        if isinstance(v, Iter):
            return v.symbolic()
        if isinstance(v, Arr):
            d = v.dims[0]
            if len(d.sizes) != 1:
                raise Unsupported('iterate over pair domain')
            if len(v.dims) == 1:
                f = v.snap()
                return d.size, (lambda i: conc(f(i))), (None if d.cond is None else d.condat), False
            return d.size, (lambda i: self.getitem(v, i)), (None if d.cond is None else d.condat), False
        if isinstance(v, Abstract) and hasattr(v, 'sequence'):
            return v.sequence(self)
        raise Unsupported('iterate %r' % (v,))

    # ---------------------------------------------------------- truth
    def cond(self, v):
        """truth value as a term"""
        if isinstance(v, Lazy):
            v = v.thunk()
        if isinstance(v, bool):
            return TRUE if v else FALSE
        if v is None:
            return FALSE
        if isinstance(v, int):
            return TRUE if v else FALSE
        if isinstance(v, T):
            if v.sort == 'B':
                return v
            return tm.ne(v, num(0)) if v.sort == 'R' or not (v.op == 'sum') else sum_nonzero(v)
        if isinstance(v, (str, tuple, list)):
            return TRUE if len(v) else FALSE
        if isinstance(v, LList):
            if isinstance(v.v, list):
                return TRUE if v.v else FALSE
            if isinstance(v.v, Seq):
                return tm.lt(num(0), v.v.n)
        if isinstance(v, PDict):
            return TRUE if v.v else FALSE
        if isinstance(v, Abstract) and hasattr(v, 'truth'):
            return v.truth(self)
        if isinstance(v, Arr):
            if v.ndim == 0:
                return self.cond(v.at())
            if all(conc(d.length()) == 1 for d in v.dims):
                return self.cond(v.at(*[num(0)] * v.ndim))
            if v.ndim == 1 and not isinstance(conc(v.dims[0].length()), int):
                pass
            raise PyExc('ValueError', ('ambiguous truth value',))
        if isinstance(v, Obj):
            m = v.cls.lookup('__bool__') if isinstance(v.cls, Cls) else MISSING
            if m is not MISSING:
                return self.cond(self.call(m, [v]))
            m = v.cls.lookup('__len__') if isinstance(v.cls, Cls) else MISSING
            if m is not MISSING:
                return self.cond(self.call(m, [v]))
            return TRUE
        if isinstance(v, (Func, Bound, Builtin, Cls, TypeVal, Module, Namespace)):
            return TRUE
        raise Unsupported('truth of %r' % (v,))

    def truth(self, v):
        return self.decide(self.cond(v))

    # ---------------------------------------------------------- expressions
    def eval(self, e, env):
        m = getattr(self, 'ex_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(e).__name__)
        return m(e, env)

    def lookup(self, name, env):
        e = env
        while e is not None:
            if name in e.d:
                v = e.d[name]
                if isinstance(v, Poison):
                    if v.node is not None and id(v.node) not in self.nomerge:
                        self.nomerge.add(id(v.node))
                        raise Restart()
                    raise Unsupported('%s: %s' % (name, v.why))
                if isinstance(v, Lazy):
                    v = v.thunk()
                    self.setk(e, name, v)
                return v
            e = e.parent
        if env.module is not None:
            v = env.module.get(name)
            if v is not MISSING:
                return v
        if name in self.builtins:
            return self.builtins[name]
        if name == 'globals' and env.module is not None:
            def item(k, m=env.module):
                v = m.get(k) if isinstance(k, str) else MISSING
                if v is MISSING:
                    raise PyExc('KeyError', (k,))
                return v
            return Builtin(lambda: Namespace('globals', {'getitem': item}), 'globals')
        raise PyExc('NameError', (name,))

    def ex_Constant(self, e, env):
        v = e.value
        if isinstance(v, float):
            # exact decimal reading of the literal; a literal that is a double
            # next to a well known constant is read as that constant
            for c, t in self.constants:
                if v == c or abs(v - c) <= 2e-16 * abs(c):
                    self.assumed.add('float literal %r read as %s' % (v, tm.show(t)))
                    return t
            return num(v)
        if isinstance(v, complex):
            return num(v)
        return v

    def ex_Name(self, e, env):
        return self.lookup(e.id, env)

    def ex_Attribute(self, e, env):
        return self.getattr(self.eval(e.value, env), e.attr)

    def ex_Tuple(self, e, env):
        return tuple(self.elts(e.elts, env))

    def ex_List(self, e, env):
        return LList(self.elts(e.elts, env))

    def elts(self, es, env):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                vs = self.iter_concrete(self.eval(x.value, env))
                if vs is None:
                    raise Unsupported('star of symbolic sequence')
                out += vs
            else:
                out.append(self.eval(x, env))
        return out

    def ex_Set(self, e, env):
        return tuple(self.elts(e.elts, env))

    def hashkey(self, k):
        k = conc(k)
        if isinstance(k, (str, int, bool, type(None), tuple, TypeVal, Builtin, Func, Cls)):
            return k
        if isinstance(k, T) and k.op == 'num':
            return k
        raise Unsupported('dict key %r' % (k,))

    def ex_Dict(self, e, env):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.eval(v, env).v)
            else:
                d[self.hashkey(self.eval(k, env))] = self.eval(v, env)
        return PDict(d)

    def ex_JoinedStr(self, e, env):
        return Opaque('str')

    def ex_Lambda(self, e, env):
        f = Func(e, env, env.module, '<lambda>')
        f.defaults = [self.eval(x, env) for x in e.args.defaults]
        f.kwdefaults = []
        return f

    def ex_BinOp(self, e, env):
        a = self.eval(e.left, env)
        b = self.eval(e.right, env)
        return self.binop(type(e.op).__name__, a, b)

    def ex_UnaryOp(self, e, env):
        v = self.eval(e.operand, env)
        op = type(e.op).__name__
        if op == 'Not':
            c = self.cond(v)
            return conc(tm.lnot(c))
        return self.unop(op, v)

    def ex_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)
        acc = None
        vals = e.values
        for k, x in enumerate(vals):
            v = self.eval(x, env)
            if k == len(vals) - 1:
                if acc is None:
                    return v
                if isinstance(v, bool) or (isinstance(v, T) and v.sort == 'B'):
                    return conc(tm.land(acc, v) if isand else tm.lor(acc, v))
                if self.decide(acc):
                    return v if isand else True
                return False if isand else v
            c = self.cond(v)
            kn = self.known(c)
            if kn is True:
                if isand:
                    continue
                return v
            if kn is False:
                if isand:
                    return v if not isinstance(v, T) else False
                continue
            if isinstance(v, T) and v.sort == 'B' and self.pure(vals[k + 1:]):
                acc = c if acc is None else (tm.land(acc, c) if isand else tm.lor(acc, c))
                continue
            if acc is not None:
                c = tm.land(acc, c) if isand else tm.lor(acc, c)
                acc = None
            if self.decide(c):
                if not isand:
                    return v
            else:
                if isand:
                    return v if not isinstance(v, T) else False
        return acc

    def pure(self, es):
        for e in es:
            for n in ast.walk(e):
                if isinstance(n, (ast.Subscript, ast.Call, ast.BinOp)) and not (isinstance(n, ast.BinOp) and not isinstance(n.op, (ast.Div, ast.Mod, ast.FloorDiv, ast.Pow))):
                    return False
        return True

    def ex_Compare(self, e, env):
        left = self.eval(e.left, env)
        out = None
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, env)
            c = self.compare(type(op).__name__, left, right)
            if out is None:
                out = c
            elif isinstance(out, (bool, T)) and isinstance(c, (bool, T)):
                out = conc(tm.land(self.cond(out), self.cond(c)))
            else:
                raise Unsupported('chained array comparison')
            left = right
        return out

    def ex_IfExp(self, e, env):
        c = self.cond(self.eval(e.test, env))
        k = self.known(c)
        if k is True:
            return self.eval(e.body, env)
        if k is False:
            return self.eval(e.orelse, env)
        if id(e) not in self.nomerge:
            try:
                mb = next(_serial)
                o1 = self.explore(lambda: self.eval(e.body, env), [c])
                o2 = self.explore(lambda: self.eval(e.orelse, env), [tm.lnot(c)])
                if len(o1) == 1 and len(o2) == 1 and o1[0].kind == o2[0].kind == 'ok' and not [k for o in (o1[0], o2[0]) for k in o.effects if k[0].birth < mb]:
                    for o in (o1[0], o2[0]):
                        for (cell, key), v in o.effects.items():
                            self.setk(cell, key, v)
                    return self.vmerge(c, o1[0].value, o2[0].value)
            except NoMerge:
                pass
        if self.decide(c):
            return self.eval(e.body, env)
        return self.eval(e.orelse, env)

    def ex_Call(self, e, env):
        if isinstance(e.func, ast.Name) and e.func.id == 'super':
            return self.mksuper(env, [self.eval(a, env) for a in e.args])
        f = self.eval(e.func, env)
        args = self.elts(e.args, env)
        kw = {}
        for k in e.keywords:
            v = self.eval(k.value, env)
            if k.arg is None:
                kw.update(v.v)
            else:
                kw[k.arg] = v
        line = self.current_line
        r = self.call(f, args, kw)
        self.current_line = line
        return r

    def mksuper(self, env, args):
        e = env
        while e is not None and not hasattr(e, 'func'):
            e = e.parent
        f = e.func
        selfname = f.node.args.args[0].arg
        return SuperProxy(f.cls, self.lookup(selfname, e))

    def ex_Subscript(self, e, env):
        o = self.eval(e.value, env)
        return self.getitem(o, self.evalslice(e.slice, env))

    def evalslice(self, s, env):
        if isinstance(s, ast.Slice):
            return slice(*[None if x is None else conc(self.eval(x, env)) for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple):
            return tuple(self.evalslice(x, env) for x in s.elts)
        return conc(self.eval(s, env))

    def ex_Starred(self, e, env):
        raise Unsupported('starred')

    def ex_ListComp(self, e, env):
        return LList(self.comp(e, env))

    def ex_GeneratorExp(self, e, env):
        v = self.comp(e, env)
        return LList(v)

    def ex_DictComp(self, e, env):
        d = {}
        for k, v in self.comp(e, env, pair=True):
            d[self.hashkey(k)] = v
        return PDict(d)

    def ex_SetComp(self, e, env):
        return tuple(self.comp(e, env))

    def comp(self, e, env, pair=False):
        gens = e.generators
        elt = (lambda en: (self.eval(e.key, en), self.eval(e.value, en))) if pair else (lambda en: self.eval(e.elt, en))

        def go(k, en):
            if k == len(gens):
                return [elt(en)]
            g = gens[k]
            it = self.eval(g.iter, en)
            vs = self.iter_concrete(it)
            if vs is not None:
                out = []
                for v in vs:
                    e2 = Env(en, env.module)
                    self.assign(g.target, v, e2)
                    ok = True
                    for c in g.ifs:
                        if not self.truth(self.eval(c, e2)):
                            ok = False
                            break
                    if ok:
                        r = go(k + 1, e2)
                        if isinstance(r, Seq):
                            if len(gens) == k + 2 and len(vs) == 1:
                                return r
                            raise Unsupported('nested symbolic comprehension')
                        out += r
                return out
            if k != len(gens) - 1 or g.ifs:
                raise Unsupported('symbolic comprehension')
            n, item, cond, rev = self.iter_symbolic(it)
            if cond is not None:
                raise Unsupported('comprehension over a filtered sequence')
            i = tm.fresh('c', 'I')
            guard = [tm.le(num(0), i), tm.lt(i, n)]
            mb = next(_serial)

            def run():
                e2 = Env(en, env.module)
                self.assign(g.target, item(i), e2)
                return elt(e2)
            if not self.facts.feasible(self.pc + guard):
                return []
            outs = self.explore(run, guard)
            if any(o.kind != 'ok' for o in outs):
                raise Unsupported('exception in comprehension')
            v = None
            for o in reversed(outs):
                for (cell, key), x in o.effects.items():
                    if cell.birth < mb:
                        raise Unsupported('side effect in comprehension')
                    self.setk(cell, key, x)
                v = o.value if v is None else self.vmerge(tm.land(*o.pc), o.value, v)
            return Seq(n, lambda k: vsubst(v, {i: num(k)}))
        return go(0, env)

    # ---------------------------------------------------------- operators
    def binop(self, op, a, b):
        from . import nplib
        return nplib.binop(self, op, a, b)

    def unop(self, op, v):
        from . import nplib
        return nplib.unop(self, op, v)

    def compare(self, op, a, b):
        from . import nplib
        return nplib.compare(self, op, a, b)

    def getitem(self, o, k):
        from . import nplib
        return nplib.getitem(self, o, k)

    def setitem(self, o, k, v):
        from . import nplib
        return nplib.setitem(self, o, k, v)

    def store_all(self, a, r):
        from . import nplib
        return nplib.store_all(self, a, r)

    def getattr(self, o, k):
        from . import nplib
        return nplib.getattribute(self, o, k)

    def setattr(self, o, k, v):
        if isinstance(o, Obj):
            if o.frozen:
                raise Unsupported('update of a member of a symbolic collection of objects')
            p = o.cls.lookup(k) if isinstance(o.cls, Cls) else MISSING
            if isinstance(p, Prop):
                if p.fset is None:
                    raise PyExc('AttributeError', (k,))
                return self.call(p.fset, [o, v])
            self.setk(o, k, v)
            return
        raise Unsupported('setattr on %r' % (o,))


class Restart(Exception):
    pass


class SuperProxy(object):
    def __init__(self, cls, obj):
        self.cls = cls
        self.obj = obj


class FSeq(object):
    """a sequence of at most one element: [x] if c else []"""
    def __init__(self, c, x):
        self.c = c
        self.x = x


class PreList(object):
    """content of a list at the start of a loop iteration (opaque)"""
    def __init__(self, name, init, appended=(), stores=(), reads=None):
        self.name = name
        self.init = init
        self.appended = tuple(appended)
        self.stores = tuple(stores)
        self.reads = [] if reads is None else reads     # indices read at iteration start (shared)

    def item(self, k):
        self.reads.append(k)
        return self.init.fn(k)


class Iter(object):
    """range / enumerate / zip / reversed over possibly symbolic sequences"""
    def __init__(self, concrete, symbolic):
        self._c = concrete
        self._s = symbolic
        self.arr = None

    def concrete(self):
        return self._c()

    def symbolic(self):
        return self._s()


def _flat(idx):
    out = []
    for x in idx:
        if isinstance(x, tuple):
            out += list(x)
        else:
            out.append(x)
    return out


def counting(st):
    """(name, comparison, bound, +-1, rest of the body) of a loop  while name < bound: ...; name += 1  or None"""
    if not hasattr(st, '_counting'):
        st._counting = _counting(st)
    return st._counting


FLIP = {'Lt': 'Gt', 'LtE': 'GtE', 'Gt': 'Lt', 'GtE': 'LtE'}


def _counting(st):
    body, t = st.body, st.test
    if isinstance(t, ast.Constant) and t.value and isinstance(body[0], ast.If) and not body[0].orelse and len(body[0].body) == 1 \
            and isinstance(body[0].body[0], ast.Break):
        t, body = ast.UnaryOp(ast.Not(), body[0].test), body[1:]
    neg = False
    while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        t, neg = t.operand, not neg
    if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and type(t.ops[0]).__name__ in FLIP and len(body) > 1):
        return None
    op, a, b = type(t.ops[0]).__name__, t.left, t.comparators[0]
    last = body[-1]
    if isinstance(last, ast.AugAssign) and isinstance(last.target, ast.Name):
        name, kind, by = last.target.id, type(last.op).__name__, last.value
    elif isinstance(last, ast.Assign) and len(last.targets) == 1 and isinstance(last.targets[0], ast.Name) and isinstance(last.value, ast.BinOp):
        name, kind, by = last.targets[0].id, type(last.value.op).__name__, last.value.right
        l = last.value.left
        if kind == 'Add' and isinstance(l, ast.Constant):
            l, by = by, l
        if not (isinstance(l, ast.Name) and l.id == name):
            return None
    else:
        return None
    if not (isinstance(by, ast.Constant) and by.value == 1 and isinstance(by.value, int)) or kind not in ('Add', 'Sub'):
        return None
    if isinstance(b, ast.Name) and b.id == name:
        op, a, b = FLIP[op], b, a
    if not (isinstance(a, ast.Name) and a.id == name):
        return None
    if neg:
        op = {'Lt': 'GtE', 'LtE': 'Gt', 'Gt': 'LtE', 'GtE': 'Lt'}[op]
    step = 1 if kind == 'Add' else -1
    if (op in ('Lt', 'LtE')) != (step == 1):
        return None
    for u in body[:-1]:
        for w in ast.walk(u):
            if isinstance(w, ast.Name) and w.id == name and not isinstance(w.ctx, ast.Load):
                return None
            if isinstance(w, (ast.Continue, ast.Global, ast.Nonlocal, ast.FunctionDef, ast.Lambda)):
                return None
    return name, op, b, step, body[:-1]


def any_path(paths):
    """disjunction of conjunctions; paths that differ in the sign of one literal are joined"""
    sets = []
    for p in paths:
        lits = set()
        for c in p:
            lits.update(c.args if c.op == 'and' else (c,))
        sets.append(lits)
    again = True
    while again:
        again = False
        for x, y in itertools.combinations(range(len(sets)), 2):
            d = sets[x] ^ sets[y]
            if not d or (len(d) == 2 and tm.lnot(min(d, key=lambda t: t.id)) in d):
                sets[x] = sets[x] & sets[y]
                del sets[y]
                again = True
                break
    return tm.lor(*[tm.land(*sorted(z, key=lambda t: t.id)) for z in sets])


def mentions(t, havoc):
    names = {h['name'] for h in havoc.values() if h['name']}
    for u in tm.subterms(t):
        if u.op == 'app' and u.args[0] in names:
            return True
    return False


def mentions_v(v, havoc):
    if isinstance(v, T):
        return mentions(v, havoc)
    if isinstance(v, Arr):
        try:
            idx = tuple(d.fresh('r') for d in v.dims)
            return mentions(lift(v.at(*idx)), havoc)
        except Unsupported:
            return True
    if isinstance(v, (tuple, list)):
        return any(mentions_v(x, havoc) for x in v)
    if isinstance(v, LList):
        return mentions_v(v.v, havoc)
    if isinstance(v, FSeq):
        return mentions(v.c, havoc) or mentions_v(v.x, havoc)
    if isinstance(v, (PreList, Poison)):
        return True
    if isinstance(v, Seq):
        return mentions_v(v.fn(tm.fresh('q', 'I')), havoc)
    if isinstance(v, Obj):
        return any(mentions_v(x, havoc) for x in v.d.values() if not isinstance(x, Obj) or x.birth > v.birth)
    return False


def occurs(v, keys, seen=None):
    """one of the variables occurs in the value"""
    seen = set() if seen is None else seen
    if id(v) in seen:
        return False
    seen.add(id(v))
    if isinstance(v, T):
        return bool(tm.fv(v) & keys)
    if isinstance(v, Arr):
        return bool(tm.fv(lift(v.at(*[d.fresh('r') for d in v.dims]))) & keys) or any(occurs(s, keys, seen) for d in v.dims for s in d.sizes)
    if isinstance(v, (tuple, list)):
        return any(occurs(x, keys, seen) for x in v)
    if isinstance(v, LList):
        return occurs(v.v, keys, seen)
    if isinstance(v, Seq):
        return occurs(num(v.n), keys, seen) or occurs(v.fn(tm.fresh('q', 'I')), keys, seen)
    if isinstance(v, FSeq):
        return occurs(v.c, keys, seen) or occurs(v.x, keys, seen)
    if isinstance(v, Obj):
        return any(occurs(x, keys, seen) for x in v.d.values())
    return False


def sum_nonzero(v):
    """count(D) != 0  <=>  D nonempty"""
    bv, size, cond, body = tm.sum_parts(v)
    if body.op == 'num' and body.args[0] == 1:
        k = tm.fresh('q', 'I')
        return tm.exists(k, size, tm.subst(cond, {bv: k}))
    return tm.ne(v, num(0))
