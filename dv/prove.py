"""Obligation prover: case splits on conditions (z3 for feasibility and for
order/index reasoning), field identities in each case (pit)."""
import os
import itertools
import time
import z3
from fractions import Fraction
from . import terms as tm
from .terms import T, num, TRUE, FALSE
from . import pit

STATS = {'z3_calls': 0, 'z3_time': 0.0, 'pit_calls': 0, 'pit_time': 0.0, 'leaves': 0, 'z3_unknown': 0}

_z3f = {}


def _fun(name, sorts, out):
    k = (name, tuple(sorts), out)
    f = _z3f.get(k)
    if f is None:
        m = {'R': z3.RealSort(), 'I': z3.IntSort(), 'B': z3.BoolSort()}
        f = _z3f[k] = z3.Function('%s/%d%s%s' % (name, len(sorts), ''.join(sorts), out), *([m[s] for s in sorts] + [m[out]]))
    return f


_zmemo = {}


def toz3(t):
    r = _zmemo.get(t)
    if r is None:
        r = _zmemo[t] = _toz3(t)
    return r


def _real(t):
    r = toz3(t)
    if z3.is_int(r):
        if z3.is_int_value(r):
            return z3.RealVal(r.as_long())
        return z3.ToReal(r)
    return r


def _toz3(t):
    op = t.op
    if op == 'num':
        f = t.args[0]
        if f.denominator == 1 and t.sort == 'I':
            return z3.IntVal(f.numerator)
        return z3.RealVal(str(f))
    if op == 'true':
        return z3.BoolVal(True)
    if op == 'false':
        return z3.BoolVal(False)
    if op == 'var':
        return {'R': z3.Real, 'I': z3.Int, 'B': z3.Bool}[t.sort](t.args[0])
    if op == 'add':
        if t.sort == 'I':
            return z3.Sum([toz3(a) for a in t.args])
        return z3.Sum([_real(a) for a in t.args])
    if op == 'mul':
        xs = [toz3(a) if t.sort == 'I' else _real(a) for a in t.args]
        r = xs[0]
        for x in xs[1:]:
            r = r * x
        return r
    if op == 'pow' and not pit.is_pow(t):
        n = int(t.args[1].args[0])
        b = toz3(t.args[0]) if n > 0 and t.sort == 'I' else _real(t.args[0])
        r = b
        for _ in range(abs(n) - 1):
            r = r * b
        return r if n > 0 else 1 / r
    if op == 'ite':
        if t.sort == 'I':
            return z3.If(toz3(t.args[0]), toz3(t.args[1]), toz3(t.args[2]))
        return z3.If(toz3(t.args[0]), _real(t.args[1]), _real(t.args[2]))
    if op == 'lt':
        return _real(t.args[0]) < _real(t.args[1])
    if op == 'le':
        return _real(t.args[0]) <= _real(t.args[1])
    if op == 'eq':
        return _real(t.args[0]) == _real(t.args[1])
    if op == 'ile':
        return toz3(t.args[0]) <= 0
    if op == 'ieq':
        return toz3(t.args[0]) == 0
    if op == 'not':
        return z3.Not(toz3(t.args[0]))
    if op == 'and':
        return z3.And([toz3(a) for a in t.args])
    if op == 'or':
        return z3.Or([toz3(a) for a in t.args])
    if op == 'app' and t.args[0] not in ('exp', 'log', 'sin', 'cos', 'pi', 'I'):
        if len(t.args) == 1:
            return {'R': z3.Real, 'I': z3.Int, 'B': z3.Bool}[t.sort]('app_' + t.args[0])
        f = _fun(t.args[0], [a.sort for a in t.args[1:]], t.sort)
        return f(*[toz3(a) if a.sort != 'R' else _real(a) for a in t.args[1:]])
    # opaque
    nm = 'op_%s_%d' % (op, t.id)
    return {'R': z3.Real, 'I': z3.Int, 'B': z3.Bool}[t.sort](nm)


def apps_of(ts):
    seen = set()
    out = []
    for t in ts:
        for u in tm.subterms(t, seen):
            if u.op in ('app', 'pow', 'exists', 'first', 'sum'):
                if not any(v.args[0].startswith('_b') for v in tm.fv(u)):
                    out.append(u)
    return out


def index_terms(apps, most=14):
    """integer terms used as indices: instances for quantified index facts"""
    out = []
    for a in apps:
        for t in ([a] if a.op == 'first' else a.args[1:] if a.op == 'app' else ()):
            if isinstance(t, T) and t.sort == 'I' and t not in out and len(out) < most:
                out.append(t)
    return out


_axmemo = {}


def _pair_axioms(a, b):
    r = _axmemo.get(('pair', a, b))
    if r is not None:
        return r
    x = a.args[1]
    z, one = num(0), num(1)
    if a.args[0] == 'exp':
        if b is None:
            r = [tm.implies(tm.lt(z, x), tm.lt(one, a)), tm.implies(tm.lt(x, z), tm.lt(a, one))]
        else:
            y = b.args[1]
            r = [tm.implies(tm.lt(x, y), tm.lt(a, b)), tm.implies(tm.lt(y, x), tm.lt(b, a)), tm.implies(tm.eq(x, y), tm.eq(a, b))]
    elif b is None:
        r = [tm.implies(tm.lt(one, x), tm.lt(z, a)), tm.implies(tm.land(tm.lt(z, x), tm.lt(x, one)), tm.lt(a, z))]
    else:
        y = b.args[1]
        r = [tm.implies(tm.land(tm.lt(z, x), tm.lt(x, y)), tm.lt(a, b)), tm.implies(tm.land(tm.lt(z, y), tm.lt(y, x)), tm.lt(b, a)),
             tm.implies(tm.eq(x, y), tm.eq(a, b))]
    _axmemo['pair', a, b] = r
    return r


def std_axioms(apps):
    ax = []
    ex = [a for a in apps if a.op == 'app' and a.args[0] == 'exp']
    lg = [a for a in apps if a.op == 'app' and a.args[0] == 'log']
    for a in apps:
        if a.op == 'app' and a.args[0] == 'exp':
            ax.append(tm.lt(num(0), a))
        elif a.op == 'app' and a.args[0] == 'pi':
            ax.append(tm.lt(num(Fraction(314159, 100000)), a))
            ax.append(tm.lt(a, num(Fraction(314160, 100000))))
        elif a.op == 'app' and a.args[0] in ('sin', 'cos') and len(a.args) == 2:
            ax.append(tm.le(num(-1), a))
            ax.append(tm.le(a, num(1)))
        elif pit.is_pow(a):
            b, e = a.args
            ax.append(tm.implies(tm.lt(num(0), b), tm.lt(num(0), a)))
            r = _axmemo.get(('unit', a))
            if r is None:
                z, one = num(0), num(1)
                r = _axmemo['unit', a] = [tm.implies(tm.land(tm.lt(z, e), tm.lt(z, b), tm.le(b, one)), tm.le(a, one)), tm.implies(tm.land(tm.lt(z, e), tm.eq(b, z)), tm.eq(a, z))]
            ax += r
            if e.op == 'num' and e.args[0] == Fraction(1, 2):
                ax.append(tm.implies(tm.le(num(0), b), tm.land(tm.le(num(0), a), tm.eq(tm.mul(a, a), b))))
        elif a.op == 'first':
            v, size, cond, last = a.args
            ax.append(tm.implies(tm.exists(v, size, cond),
                                 tm.land(tm.le(num(0), a), tm.lt(a, size), tm.subst(cond, {v: a}))))
            for t in index_terms(apps):
                r = _axmemo.get((a, t))
                if r is None:
                    r = _axmemo[a, t] = tm.implies(tm.land(tm.le(num(0), t), tm.lt(t, size), tm.subst(cond, {v: t})),
                                                   tm.le(t, a) if last is TRUE else tm.le(a, t))
                ax.append(r)
        elif a.op == 'exists':
            v, size, cond = a.args
            w = tm.first(v, size, cond)
            ax.append(tm.implies(a, tm.land(tm.le(num(0), w), tm.lt(w, size), tm.subst(cond, {v: w}))))
            for t in index_terms(apps):
                r = _axmemo.get((a, t))
                if r is None:
                    r = _axmemo[a, t] = tm.implies(tm.land(tm.le(num(0), t), tm.lt(t, size), tm.subst(cond, {v: t})), a)
                ax.append(r)
    pw = [a for a in apps if pit.is_pow(a)]
    if len(pw) <= 8:
        for a in pw:
            e = a.args[1]
            if e.op == 'pow' and e.args[1].op == 'num' and e.args[1].args[0] == -1 and a.args[0].op != 'pow':
                # (b^(1/e))^e = b
                r = _axmemo.get(('root', a))
                if r is None:
                    r = _axmemo['root', a] = tm.implies(tm.lt(num(0), a.args[0]), tm.eq(tm._mk('pow', (a, e.args[0]), 'R'), a.args[0]))
                ax.append(r)
        for a, b in itertools.combinations(pw, 2):
            if a.args[1] is b.args[1]:
                r = _axmemo.get(('pow', a, b))
                if r is None:
                    x, y, e = a.args[0], b.args[0], a.args[1]
                    z = num(0)
                    ok = tm.land(tm.lt(z, x), tm.lt(z, y))
                    r = _axmemo['pow', a, b] = [tm.implies(tm.land(ok, tm.lt(z, e), tm.lt(x, y)), tm.lt(a, b)),
                                                tm.implies(tm.land(ok, tm.lt(z, e), tm.lt(y, x)), tm.lt(b, a)),
                                                tm.implies(tm.eq(x, y), tm.eq(a, b))]
                ax += r
    if len(ex) <= 6:
        for a, b in itertools.combinations(ex, 2):
            ax += _pair_axioms(a, b)
        for a in ex:
            ax += _pair_axioms(a, None)
    if len(lg) <= 9:
        for a, b in itertools.combinations(lg, 2):
            ax += _pair_axioms(a, b)
        for a in lg:
            ax += _pair_axioms(a, None)
    return ax


QUICK = 500       # ms: pruning of cases (an open case is examined further)
PATIENT = 15000   # ms: last word before a goal fails


class Facts(object):
    def __init__(self):
        self.ground = []
        self.gens = []
        self.notes = []
        self._memo = {}

    def copy(self):
        f = Facts()
        f.ground = list(self.ground)
        f.gens = list(self.gens)
        f.notes = list(self.notes)
        return f

    def add(self, *ts):
        for t in ts:
            t = num(t)
            if t is FALSE:
                raise ValueError('contradictory precondition')
            if t is not TRUE:
                self.ground.append(t)
        self._memo = {}
        return self

    def gen(self, g):
        self.gens.append(g)
        self._memo = {}
        return self

    def pointwise(self, name, n, f, arity=1):
        """for all 0<=i<n: f(i) where name(i) occurs"""
        memo = {}

        def g(apps):
            for a in apps:
                if a.op == 'app' and a.args[0] == name and len(a.args) == 2:
                    r = memo.get(a)
                    if r is None:
                        i = a.args[1]
                        r = memo[a] = tm.implies(tm.land(tm.le(num(0), i), tm.lt(i, num(n))), f(i))
                    yield r
        return self.gen(g)

    def monotone(self, name, n, strict=True, up=True):
        rel = tm.lt if strict else tm.le
        memo = {}

        def g(apps):
            xs = [a for a in apps if a.op == 'app' and a.args[0] == name and len(a.args) == 2]
            for a, b in itertools.combinations(xs, 2):
                r = memo.get((a, b))
                if r is None:
                    i, j = a.args[1], b.args[1]
                    rng = tm.land(tm.le(num(0), i), tm.lt(i, num(n)), tm.le(num(0), j), tm.lt(j, num(n)))
                    f1, f2 = (rel(a, b), rel(b, a)) if up else (rel(b, a), rel(a, b))
                    r = memo[(a, b)] = (tm.implies(tm.land(rng, tm.lt(i, j)), f1), tm.implies(tm.land(rng, tm.lt(j, i)), f2))
                yield r[0]
                yield r[1]
        return self.gen(g)

    def instances(self, ts):
        """ground facts relevant to the terms ts (two rounds of instantiation)"""
        out = list(self.ground)
        seen = set()
        base = list(ts) + out
        quant = any(u.op in ('exists', 'first') for t in base for u in tm.subterms(t))
        for _ in range(3 if quant else 2):
            apps = apps_of(base)
            new = []
            for ax in std_axioms(apps):
                if ax not in seen and ax is not TRUE:
                    seen.add(ax)
                    new.append(ax)
            for g in self.gens:
                for f in g(apps):
                    if f is TRUE or f in seen:
                        continue
                    seen.add(f)
                    new.append(f)
            if not new:
                break
            out += new
            base = base + new
        return out

    # -- queries
    def check(self, ts, timeout=3000):
        """'unsat' | 'sat' | 'unknown' for facts and ts"""
        key = frozenset(ts)
        r, limit = self._memo.get(key, (None, 0))
        if r is not None and (r != 'unknown' or timeout <= limit):
            return r
        ts = sorted(key, key=lambda t: t.id)
        if any(t is FALSE for t in ts):
            return 'unsat'
        s = z3.Solver()
        s.set('timeout', timeout)
        lg = os.environ.get('DV_Z3LOG')
        t0 = time.time()
        for t in self.ground + ts:
            s.add(toz3(t))
        r = str(s.check())
        if r != 'unsat':
            for t in self.instances(ts)[len(self.ground):]:
                s.add(toz3(t))
            r = str(s.check())
        if lg:
            st = s.statistics()
            rl = [st.get_key_value(k) for k in st.keys() if k == 'rlimit count']
            d = rl[0] - getattr(Facts, '_rl', 0)
            Facts._rl = rl[0]
            open(lg, 'a').write('%s %.3f %s\n' % (r, time.time() - t0, d))
        STATS['z3_calls'] += 1
        STATS['z3_time'] += time.time() - t0
        if r == 'unknown':
            STATS['z3_unknown'] += 1
        self._memo[key] = (r, timeout)
        return r

    def feasible(self, ts, timeout=3000):
        return self.check(ts, timeout) != 'unsat'

    def entails(self, pc, c):
        c = num(c)
        if c is TRUE or c in pc:
            return True
        if c is FALSE:
            return self.check(list(pc)) == 'unsat'
        if c.op == 'and':
            return all(self.entails(pc, x) for x in c.args)
        return self.check(list(pc) + [tm.lnot(c)]) == 'unsat'


class Fail(Exception):
    def __init__(self, why, case=(), term=None):
        Exception.__init__(self, why)
        self.why = why
        self.case = list(case)
        self.term = term


# --------------------------------------------------------------- case splits
def cond_atoms(t, top=True):
    """conditions of ite nodes reachable without entering a binder"""
    seen = set()
    st = [t]
    while st:
        u = st.pop()
        if u in seen:
            continue
        seen.add(u)
        if u.op == 'sum':
            st.append(u.args[1])      # a conditional length
            continue
        if u.op == 'first':
            continue
        if u.op == 'ite':
            c = u.args[0]
            a = atom_in(c)
            if a is not None:
                return a
        for a in u.args:
            if isinstance(a, T):
                st.append(a)
    return None


def atom_in(c):
    if c.op in ('lt', 'le', 'eq', 'ile', 'ieq', 'exists', 'var', 'app'):
        # conditions may contain ites themselves
        if c.op not in ('exists', 'var'):
            for a in c.args:
                if isinstance(a, T):
                    x = cond_atoms(a)
                    if x is not None:
                        return x
        return c
    if c.op in ('and', 'or', 'not'):
        for a in c.args:
            x = atom_in(a)
            if x is not None:
                return x
    return None


def replace_under(t, m):
    """replace condition atoms by truth values (also inside binders: atoms are closed terms)"""
    return tm.subst(t, m)


def solve_real(a, b):
    """equation a == b -> (atom, value) with atom a var/app occurring linearly, coefficient numeric"""
    try:
        p = pit.poly_of(tm.sub(a, b))
    except (pit.NoPoly, pit.Undefined):
        return None
    cands = []
    for m, c in p.items():
        if len(m) == 1 and m[0][1] == 1:
            at = m[0][0]
            if at.op in ('var', 'app') and (at.op == 'var' or at.args[0] not in ('exp', 'log', 'sin', 'cos', 'pi', 'I')):
                rest = {k: v for k, v in p.items() if k != m}
                rt = pit.poly_term(rest)
                if at in set(tm.subterms(rt)):
                    continue
                cands.append((at, tm.mul(num(Fraction(-1) / c), rt)))
    if not cands:
        return None
    cands.sort(key=lambda x: (0 if x[0].op == 'var' else 1, -x[0].id))
    return cands[0]


def solve_intterm(d):
    p = pit.poly_of(d)
    for m, c in sorted(p.items(), key=lambda x: -max([a.id for a, e in x[0]] or [0])):
        if len(m) == 1 and m[0][1] == 1 and abs(c) == 1 and m[0][0].op == 'var':
            at = m[0][0]
            rest = {k: v for k, v in p.items() if k != m}
            rest = {k: -v / c for k, v in rest.items()}
            if any(v.denominator != 1 or any(e < 0 for a, e in k) for k, v in rest.items()):
                continue
            rt = tm.add(num(0), *[tm.mul(num(int(v)), *[tm.power(a, num(int(e))) for a, e in k]) for k, v in rest.items()])
            if at in tm.fv(rt) or rt.sort != 'I':
                continue
            return at, rt
    return None


def apply_lit(t, lit):
    """simplify t under literal lit"""
    m = {}
    if lit.op == 'not':
        m[lit.args[0]] = FALSE
    else:
        m[lit] = TRUE
        n = tm.lnot(lit)
        if n.op != 'not':
            m[n] = FALSE
    if lit.op == 'le':
        m[tm.lt(lit.args[1], lit.args[0])] = FALSE
    if lit.op == 'lt':
        m[tm.eq(lit.args[0], lit.args[1])] = FALSE
        m[tm.le(lit.args[0], lit.args[1])] = TRUE
    m = {k: v for k, v in m.items() if k.op not in ('true', 'false')}
    t = tm.subst(t, m)
    if lit.op == 'eq':
        s = solve_real(*lit.args)
        if s:
            t = tm.subst(t, {s[0]: s[1]})
    elif lit.op == 'ieq':
        s = solve_intterm(lit.args[0])
        if s:
            t = tm.subst(t, {s[0]: s[1]})
    return t


def single_index(t, k, possible):
    """the one index g singled out by conditions k == g in t (None: none or several)"""
    gs = set()
    for u in tm.subterms(t):
        if u.op == 'ieq' and k in tm.fv(u):
            g = tm.solve_int(u.args[0], k)
            if g is None or k in tm.fv(g):
                return None
            gs.add(g)
    gs = [g for g in gs if possible(g)]
    return gs[0] if len(gs) == 1 else None


def has_sum(t):
    return t.op == 'sum' or (t.op in ('add', 'mul') and any(has_sum(a) for a in t.args))


def expand_sums(t):
    """products distributed over additions that hold a sum"""
    if not has_sum(t):
        return t
    if t.op == 'add':
        return tm.add(*[expand_sums(a) for a in t.args])
    if t.op == 'mul':
        fs = [expand_sums(a) for a in t.args]
        for i, f in enumerate(fs):
            if f.op == 'add' and has_sum(f):
                rest = fs[:i] + fs[i + 1:]
                return tm.add(*[expand_sums(tm.mul(a, *rest)) for a in f.args])
    return t


_csmemo = {}


def canon_sums(t, below=False):
    """bodies of sums in normal form (below: only sums under an inverse)"""
    m = {}
    st = [t]
    for u in tm.subterms(t):
        if u.op == 'sum' and (not below):
            m[u] = u
        elif below and u.op == 'pow' and u.args[1].op == 'num' and u.args[1].args[0] < 0:
            for w in tm.subterms(u.args[0]):
                if w.op == 'sum':
                    m[w] = w
    for u in list(m):
        r = _csmemo.get(u)
        if r is None:
            v, size, body = u.args
            try:
                k = tm.fresh('k', 'I')
                r = tm.bsum(k, size, tm.subst(pit.poly_term(pit.poly_of(body)), {v: k}))
            except (pit.NoPoly, pit.Undefined, ZeroDivisionError):
                r = u
            _csmemo[u] = r
        m[u] = r
    m = {a: b for a, b in m.items() if a is not b}
    return tm.subst(t, m) if m else t


class Prover(object):
    def __init__(self, facts, definedness=True):
        self.facts = facts
        self.definedness = definedness
        self.leaves = 0
        self.budget = 4000

    def eq(self, a, b, pc=()):
        """raises Fail unless pc |- a == b"""
        if a is b:
            return
        self.zero(tm.sub(a, b), list(pc))

    def holds(self, c, pc=()):
        c = num(c)
        pc = list(pc)
        if self.facts.entails(pc, c):
            return
        a = atom_in(c)
        raise Fail('z3: not entailed (%s)' % self.facts.check(pc + [tm.lnot(c)]), pc, c)

    def simp(self, t, pc):
        for l in pc:
            t = apply_lit(t, l)
        return t

    def zero(self, t, pc):
        t0 = t
        for l in pc:
            t = apply_lit(t, l)
        self._zero(t, list(pc), t0)

    def _zero(self, t, pc, orig):
        if t.op == 'num' and t.args[0] == 0:
            return
        a = cond_atoms(t)
        if a is None:
            return self.leaf(t, pc)
        na = tm.lnot(a)
        fa = self.facts.feasible(pc + [a], QUICK)
        if not fa:
            return self._zero(tm.subst(apply_lit(t, na), {a: FALSE}), pc + [na], orig)
        fn = self.facts.feasible(pc + [na], QUICK)
        if not fn:
            return self._zero(tm.subst(apply_lit(t, a), {a: TRUE}), pc + [a], orig)
        # three-way split of a <= b: strict cases first, equality last
        if a.op == 'le':
            x, y = a.args
            l1, l2, l3 = tm.lt(x, y), tm.eq(x, y), tm.lt(y, x)
            for l in (l1, l2, l3):
                if self.facts.feasible(pc + [l], QUICK):
                    tv = FALSE if l is l3 else TRUE
                    self._zero(tm.subst(apply_lit(t, l), {a: tv}), pc + [l], orig)
            return
        if a.op == 'lt':
            x, y = a.args
            l1, l2, l3 = tm.lt(x, y), tm.eq(x, y), tm.lt(y, x)
            for l in (l1, l2, l3):
                if self.facts.feasible(pc + [l], QUICK):
                    tv = TRUE if l is l1 else FALSE
                    self._zero(tm.subst(apply_lit(t, l), {a: tv}), pc + [l], orig)
            return
        self._zero(tm.subst(apply_lit(t, a), {a: TRUE}), pc + [a], orig)
        self._zero(tm.subst(apply_lit(t, na), {a: FALSE}), pc + [na], orig)

    def leaf(self, t, pc):
        self.leaves += 1
        STATS['leaves'] += 1
        if self.leaves > self.budget:
            raise Fail('case budget exceeded', pc, t)
        # equalities entailed by the literals have been substituted literal by literal
        t = canon_sums(expand_sums(t), True)
        terms = t.args if t.op == 'add' else (t,)
        sums, rest = [], []
        for u in terms:
            s, others = None, []
            for f in (u.args if u.op == 'mul' else (u,)):
                if f.op == 'sum' and s is None:
                    s = f
                else:
                    others.append(f)
            if s is not None:
                sums.append((tm.mul(num(1), *others), s))
            else:
                rest.append(u)
        if sums:
            groups = {}
            for c, s in sums:
                groups.setdefault(s.args[1], []).append((c, s))
            try:
                self.leaf_id(canon_sums(t), pc)     # sums as opaque atoms may already cancel
                return
            except Fail:
                pass
            groups, extra = self.align(groups, pc)
            if any(u.op == 'sum' for x in extra for u in tm.subterms(x)):
                # split-off end terms contain sums themselves: combine them with the others first
                r = tm.add(num(0), *(rest + extra + [tm.mul(c, s) for cs in groups.values() for c, s in cs]))
                self._zero(r, pc, r)
                return
            for size, cs in groups.items() if len(groups) > 1 else ():
                # a sum with one distinguished index whose term holds sums itself: take it out, combine it with the other groups
                if not any(u.op == 'sum' for c, s in cs for u in tm.subterms(s.args[2])):
                    continue
                k = tm.fresh('k', 'I')
                tot = tm.add(num(0), *[tm.mul(c, tm.subst(s.args[2], {s.args[0]: k})) for c, s in cs])
                p2 = pc + [tm.le(num(0), k), tm.lt(k, size)]
                g = single_index(tot, k, lambda g: self.facts.feasible(p2 + [tm.eq(k, g)]))
                if g is None:
                    continue
                p2.append(tm.ne(k, g))
                if self.facts.feasible(p2):
                    self._zero(tm.subst(tot, {}), p2, tot)
                r = tm.add(num(0), *(rest + extra + [tm.mul(c, s) for z, q in groups.items() if z is not size for c, s in q] +
                                     [tm.ite(tm.land(tm.le(num(0), g), tm.lt(g, size)), tm.subst(tot, {k: g}), num(0))]))
                self._zero(r, pc, r)
                return
            for size, cs in groups.items():
                k = tm.fresh('k', 'I')
                tot = tm.add(num(0), *[tm.mul(c, tm.subst(s.args[2], {s.args[0]: k})) for c, s in cs])
                p2 = pc + [tm.le(num(0), k), tm.lt(k, size)]
                g = single_index(tot, k, lambda g: self.facts.feasible(p2 + [tm.eq(k, g)]))
                if g is not None:
                    # the term at a distinguished index is taken out of the sum
                    extra.append(tm.ite(tm.land(tm.le(num(0), g), tm.lt(g, size)), tm.subst(tot, {k: g}), num(0)))
                    p2.append(tm.ne(k, g))
                if not self.facts.feasible(p2):
                    continue
                self._zero(tm.subst(tot, {}), p2, tot)
            r = tm.add(num(0), *(rest + extra))
            if r.op == 'num' and r.args[0] == 0:
                return
            self._zero(r, pc, r)
            return
        self.leaf_id(t, pc)

    def align(self, groups, pc):
        """make sizes differing by constants equal by splitting off end terms"""
        sizes = list(groups)
        extra = []
        if len(sizes) == 1:
            return groups, extra
        for s in sizes:     # a sum stopped at a first index, next to one over a longer range: the terms left out are zero
            if s.op == 'first':
                for b in sizes:
                    if b is not s and b.op != 'first' and self.facts.entails(pc, tm.land(tm.le(num(0), s), tm.le(s, b))):
                        g = {z: list(groups[z]) for z in sizes if z is not s}
                        for c, q in groups[s]:
                            v, _, body = q.args
                            g[b].append((c, tm._mk('sum', (v, b, tm.ite(tm.lt(v, s), body, num(0))), q.sort)))
                        return self.align(g, pc)
        out = {}
        for s in sizes:
            for b in out:
                d = tm.sub(s, b)
                if d.op == 'num':
                    break
            else:
                out[s] = [s]
                continue
            out[b].append(s)
        res = {}
        for b, ss in out.items():
            m = min(ss, key=lambda s: tm.sub(s, b).args[0])
            if not self.facts.entails(pc, tm.le(num(0), m)):
                for s in ss:
                    res[s] = groups[s]
                continue
            lst = []
            for s in ss:
                d = int(tm.sub(s, m).args[0])
                for c, q in groups[s]:
                    v, size, body = q.args
                    for i in range(d):
                        extra.append(tm.mul(c, tm.subst(body, {v: tm.add(m, num(i))})))
                    lst.append((c, tm._mk('sum', (v, m, body), q.sort)))
            res[m] = lst
        return res, extra

    def leaf_id(self, t, pc):
        zp = {u: num(0) for u in tm.subterms(t) if u.op == 'pow' and pit.is_pow(u) and u.args[0].op == 'num' and u.args[0].args[0] == 0
              and self.facts.entails(pc, tm.lt(num(0), u.args[1]))}
        if zp:
            return self._zero(tm.subst(t, zp), pc, t)
        t0 = time.time()
        STATS['pit_calls'] += 1
        try:
            ok, info = pit.is_zero(t)
            if not ok and any(u.op == 'app' and u.args[0] == 'log' and any(w.op == 'add' for w in tm.subterms(u)) for u in tm.subterms(t)):
                t2 = self.split_roots(t, pc)
                ok, info = pit.is_zero(t2, factor=True)
        except pit.Undefined as e:
            if self.facts.check(pc) == 'unsat':
                return
            raise Fail('undefined: %s [%s]' % (e, tm.show(e.term, 5)), pc, t)
        except pit.NoPoly as e:
            raise Fail('cannot normalise: %s' % e, pc, t)
        except ZeroDivisionError as e:
            if self.facts.check(pc) == 'unsat':
                return
            raise Fail('undefined', pc, t)
        finally:
            STATS['pit_time'] += time.time() - t0
        if not ok:
            extra = self.canon_lits(pc)
            if extra and pit_conflict(extra):
                return
            if self.facts.check(pc + extra, PATIENT) == 'unsat':
                return
            t3 = self.simp(t, pc)     # literals may apply again after later substitutions
            if t3 is not t:
                return self._zero(t3, pc, t)
            # t vanishes if it differs from zero by the two sides of an equality known here
            for c in pc:
                if c.op == 'eq' and not any(u.op == 'sum' for u in tm.subterms(c)):
                    for q in (1, -1):
                        t2 = tm.add(t, tm.mul(num(q), tm.sub(c.args[0], c.args[1])))
                        try:
                            if pit.is_zero(t2)[0]:
                                return self.leaf_id(t2, pc)
                        except (pit.NoPoly, pit.Undefined, ZeroDivisionError):
                            pass
            m = self.congruent(t, pc)
            if m:
                pc2 = pc + [c2 for c2 in (tm.subst(c, m) for c in pc) if c2 not in pc]
                return self._zero(self.simp(tm.subst(t, m), pc2), pc2, t)
            m = self.alike(t, pc)
            if m:
                return self._zero(tm.subst(t, m), pc, t)
            # equalities forced by the literals (a<=b, b<=a given separately)
            raise Fail('field identity fails', pc, t)
        if self.definedness:
            for d in info['denoms']:
                if not self.nonzero(d, pc):
                    raise Fail('denominator may vanish: %s' % tm.show(d, 6), pc, d)
            bad = [p for p in info['need'] if not self.positive(p, pc)]
            if bad and self.factored(t, pc):
                bad = []
            for p in bad:
                    raise Fail('argument of log/root may be non-positive: %s' % tm.show(p, 6), pc, p)

    def factored(self, t, pc):
        """identity with the sums under logarithms factored: only the whole arguments need to be positive"""
        try:
            ok, info = pit.is_zero(self.split_roots(t, pc), factor=True)
        except (pit.Undefined, pit.NoPoly, ZeroDivisionError):
            return False
        return ok and all(self.nonzero(d, pc) for d in info['denoms']) and all(self.positive(p, pc) for p in info['need'])

    def split_roots(self, t, pc):
        """(c * f^k * ...)^e written as c^e * f^(k e) * ... when that removes a root (all factors positive)"""
        m = {}
        for u in tm.subterms(t):
            if pit.is_pow(u) and u.args[1].op == 'num' and any(w.op == 'add' for w in tm.subterms(u.args[0])):
                try:
                    c, fs = pit.log_factors(u.args[0])
                except (pit.NoPoly, pit.Undefined):
                    continue
                e = u.args[1].args[0]
                if any((k * e).denominator == 1 for f, k in fs) and all(self.positive(f, pc) for f, k in fs):
                    m[u] = tm.mul(tm.power(num(c), num(e)), *[tm.power(f, num(k * e)) for f, k in fs])
        return tm.subst(t, m) if m else t

    def canon_lits(self, pc):
        """consequences of the literals with the arguments of exp and log in normal form"""
        out = []

        def can(t):
            if t.op == 'app' and t.args[0] == 'log':
                p = pit.poly_of(can(t.args[1]))
                if len(p) == 1:
                    (m, c), = p.items()
                    if c > 0 and all(self.positive(a, pc) for a, e in m):
                        xs = [tm.mul(num(e), tm.log(a)) for a, e in m]
                        return tm.add(num(0), *(xs + ([tm.log(num(c))] if c != 1 else [])))
                return tm.log(pit.poly_term(p))
            if t.op == 'app' and t.args[0] == 'exp':
                p = pit.poly_of(can(t.args[1]))
                r = tm.exp(pit.poly_term(p))
                xs = []
                for m, c in p.items():
                    if c.denominator == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'app' and m[0][0].args[0] == 'log':
                        xs.append(tm.power(m[0][0].args[1], num(int(c))))
                    else:
                        break
                else:
                    if xs:
                        out.append(tm.eq(r, tm.mul(*xs)))
                return r
            if pit.is_pow(t):
                b = pit.poly_term(pit.poly_of(can(t.args[0])))
                p = pit.poly_of(can(t.args[1]))
                k = p.get((), 0)
                if k and k.denominator == 1:
                    p = {m: c for m, c in p.items() if m}
                    return tm.mul(tm.power(b, pit.poly_term(p)), tm.power(b, num(int(k))))
                return tm.power(b, pit.poly_term(p))
            if not t.args or t.op in ('num', 'var', 'sum', 'exists', 'first'):
                return t
            return tm.subst(t, {a: can(a) for a in t.args if isinstance(a, tm.T)})
        for c in pc:
            if any(u.op == 'app' and u.args[0] in ('exp', 'log') or pit.is_pow(u) for u in tm.subterms(c)):
                try:
                    d = can(c)
                    if d.op in ('lt', 'le', 'eq'):
                        p, com = pit.const_content(pit.poly_of(tm.sub(d.args[0], d.args[1])))
                        # log(c), c > 1, and pi are positive
                        if all(a.args[0] == 'pi' or a.args[1].args[0] > 1 for a, e in com):
                            d = {'lt': tm.lt, 'le': tm.le, 'eq': tm.eq}[d.op](pit.poly_term(p), num(0))
                except (pit.NoPoly, pit.Undefined, ZeroDivisionError):
                    continue
                if d is not c:
                    out.append(d)
        return out

    def congruent(self, t, pc):
        """index terms of t that are equal under pc, as a renaming"""
        idx = []
        for u in tm.subterms(t):
            if u.op == 'app':
                for a in u.args[1:]:
                    if a.sort == 'I' and a not in idx and not any(v.args[0].startswith('_b') for v in tm.fv(a)):
                        idx.append(a)
        idx.sort(key=lambda a: (a.op == 'num', a.depth, a.id))
        m = {}
        reps = []
        for a in idx[:16]:
            for b in reps:
                d = tm.sub(a, b)
                if d.op == 'num':
                    continue
                if self.facts.check(pc + [tm.eq(a, b)]) != 'unsat' and self.facts.entails(pc, tm.eq(a, b)):
                    m[a] = b
                    break
            else:
                reps.append(a)
        return m

    def alike(self, t, pc):
        """arguments of functions that are the same rational function written differently, as a renaming"""
        by = {}
        if any(u.op == 'sum' for u in tm.subterms(t)):
            return self.alike_sums(t, pc)
        univ = any(c.op == 'not' and c.args[0].op == 'exists' for c in pc)
        for u in tm.subterms(t):
            if u.depth:
                continue
            if u.op == 'app':
                at = [((u.args[0], n), a) for n, a in enumerate(u.args[1:])]
            elif u.op == 'pow' and pit.is_pow(u):
                at = [('pow', u.args[0])]
            else:
                continue
            for key, a in at:
                if a.sort == 'R' and (a.op in ('add', 'mul', 'pow') or univ and a.op == 'app'):
                    l = by.setdefault(key, [])
                    if a not in l:
                        l.append(a)
        m = {}
        for l in by.values():
            reps = []
            for a in sorted(l, key=lambda a: (a.depth, a.id))[:12]:
                for b in reps:
                    if a.op == 'app':
                        if b.op == 'app' and self.facts.entails(pc, tm.eq(a, b)):
                            m[a] = b
                            break
                        continue
                    try:
                        ok, info = pit.is_zero(tm.sub(a, b))
                    except (pit.NoPoly, pit.Undefined, ZeroDivisionError):
                        continue
                    if ok and all(self.nonzero(d, pc) for d in info['denoms']) and all(self.positive(p, pc) for p in info['need']):
                        m[a] = b
                        break
                else:
                    reps.append(a)
        return m

    def alike_sums(self, t, pc):
        """sums under an inverse with equal terms written differently, as a renaming"""
        reps, m = [], {}
        inside = {w for u in tm.subterms(t) if u.op == 'pow' and u.args[1].op == 'num' and u.args[1].args[0] < 0
                  for w in tm.subterms(u.args[0]) if w.op == 'sum' and not any(v.args[0].startswith('_b') for v in tm.fv(w))}
        for a in sorted(inside, key=lambda a: a.id)[:8]:
            for b in reps:
                if a.args[1] is not b.args[1]:
                    continue
                k = tm.fresh('k', 'I')
                p2 = pc + [tm.le(num(0), k), tm.lt(k, a.args[1])]
                x, y = [tm.subst(u.args[2], {u.args[0]: k}) for u in (a, b)]
                try:
                    ok, info = pit.is_zero(tm.sub(x, y))
                except (pit.NoPoly, pit.Undefined, ZeroDivisionError):
                    continue
                if ok and all(self.nonzero(d, p2) for d in info['denoms']) and all(self.positive(p, p2) for p in info['need']):
                    m[a] = b
                    break
            else:
                reps.append(a)
        return m

    def positive(self, p, pc):
        return self.facts.entails([], tm.lt(num(0), p)) or self.facts.entails(pc, tm.lt(num(0), p))

    def nonzero(self, d, pc):
        f = self.facts
        k = ('nz', d)
        if f._memo.get(k):
            return True
        r = self._nonzero(d, [])
        if r:
            f._memo[k] = True
            return True
        return self._nonzero(d, pc)

    def _nonzero(self, d, pc):
        if d.op == 'mul':
            return all(self._nonzero(x, pc) for x in d.args)
        if d.op == 'pow' and d.args[1].op == 'num':
            return self._nonzero(d.args[0], pc) if d.args[1].args[0] > 0 else True
        if d.op == 'num':
            return d.args[0] != 0
        if d is tm.IMAG or d is tm.PI or (d.op == 'app' and d.args[0] == 'exp'):
            return True
        ri = reim(d)
        if ri is not None:
            return self.facts.entails(pc, tm.lor(tm.ne(ri[0], num(0)), tm.ne(ri[1], num(0))))
        if self.facts.entails(pc, tm.ne(d, num(0))):
            return True
        try:
            fs = factor(d)
        except Exception:
            return False
        if fs is None:
            return False
        return all(x is tm.IMAG or self._nonzero_f(x, pc) for x in fs)

    def _nonzero_f(self, x, pc):
        ri = reim(x)
        if ri is not None:
            return self.facts.entails(pc, tm.lor(tm.ne(ri[0], num(0)), tm.ne(ri[1], num(0))))
        return self.facts.entails(pc, tm.ne(x, num(0)))


def pit_conflict(lits):
    """two literals p < 0 (p <= 0, p == 0) with canonical polynomials that exclude each other"""
    seen = {}
    for l in lits:
        if l.op in ('lt', 'le', 'eq') and l.args[1].op == 'num' and l.args[1].args[0] == 0:
            try:
                p = pit.poly_of(l.args[0])
            except (pit.NoPoly, pit.Undefined):
                continue
            if not p or () in p and len(p) == 1:
                continue
            p, lead = pit.canon_poly(p)
            k = tuple(sorted(((tuple((a.id, e) for a, e in m), c) for m, c in p.items())))
            sg = 1 if lead > 0 else -1
            s = {'lt': {-sg}, 'le': {-sg, 0}, 'eq': {0}}[l.op]
            seen[k] = seen.get(k, {-1, 0, 1}) & s
            if not seen[k]:
                return True
    return False


def reim(t):
    """real and imaginary part (atoms real) when i occurs in t"""
    if tm.IMAG not in tm.subterms(t):
        return None
    try:
        p = pit.poly_of(t)
    except (pit.NoPoly, pit.Undefined):
        return None
    re, im = {}, {}
    for m, c in p.items():
        h, rest = pit.split_mono(m)
        if any(tm.IMAG in tm.subterms(a) for a, e in rest):
            return None
        e = sum(k for a, k in m if a is tm.IMAG)
        if h:
            im[rest] = c if e == 1 else -c
        else:
            re[rest] = c
    return pit.poly_term(re), pit.poly_term(im)



_factor_memo = {}


def factor(t):
    """irreducible factors over Q of the expanded numerator of t (None if trivial)"""
    if t in _factor_memo:
        return _factor_memo[t]
    import sympy
    p = pit.poly_of(t)
    atoms = sorted({a for m in p for a, e in m}, key=lambda a: a.id)
    syms = {a: sympy.Symbol('a%d' % i) for i, a in enumerate(atoms)}
    inv = {str(s): a for a, s in syms.items()}
    mn = {a: min([dict(m).get(a, 0) for m in p]) for a in atoms}
    e = 0
    for m, c in p.items():
        d = dict(m)
        x = sympy.Rational(c.numerator, c.denominator)
        for a in atoms:
            x *= syms[a] ** (d.get(a, 0) - mn[a])
        e += x
    out = [a for a in atoms if mn[a] > 0]
    c, fl = sympy.factor_list(e)
    if not out and len(fl) == 1 and all(v == 0 for v in mn.values()):
        _factor_memo[t] = None
        return None
    for f, k in fl:
        pol = sympy.Poly(f, *syms.values())
        ts = []
        for mon, co in pol.terms():
            co = sympy.Rational(co)
            ts.append(tm.mul(num(Fraction(int(co.p), int(co.q))), *[tm.power(a, num(int(e))) for a, e in zip(syms, mon)]))
        out.append(tm.add(*ts))
    _factor_memo[t] = out
    return out
