"""Obligations: registration and execution of contracts."""
import time
import traceback
from . import terms as tm
from .terms import num, T, TRUE
from . import prove, pit
from .prove import Prover, Fail
from . import interp as ip
from .interp import Interp, Unsupported, PyExc, Restart


class Obligation(object):
    def __init__(self, name, fn, functions, tier):
        self.name = name
        self.fn = fn
        self.functions = functions
        self.tier = tier


class Suite(object):
    """the contracts of one property"""
    def __init__(self, pid):
        self.pid = pid
        self.obs = []
        self.num = []            # (numeric module, [check name prefixes])
        self.assumptions = []
        self.bounded = []
        self.findings = []

    def ob(self, name, *functions, **kw):
        def deco(fn):
            self.obs.append(Obligation(name, fn, functions, kw.get('tier', 'quick')))
            return fn
        return deco


class V(object):
    """execution context of one obligation group"""
    def __init__(self, contracts=None):
        self.I = Interp(contracts=contracts)
        self.F = self.I.facts
        self.goals = []          # (label, seconds)
        self.P = Prover(self.F)
        self.selftested = 0
        self.trusted = set()
        self.inputs = {}
        self.nicer = []          # extra constraints for readable, well conditioned counterexamples

    # -- declaring inputs
    def real(self, name, *conds):
        v = tm.var(name)
        self.inputs[name] = ('scalar', 'R')
        self.F.add(*conds)
        return v

    def int(self, name, lo=None):
        v = tm.var(name, 'I')
        self.inputs[name] = ('scalar', 'I')
        if lo is not None:
            self.F.add(tm.le(num(lo), v))
        return v

    def arr(self, name, n, sort='R', dtype=None):
        self.inputs[name] = ('arr', (num(n),), sort)
        return ip.Arr([ip.plain(n)], lambda i: tm.app(name, i, sort=sort), dtype or ('i' if sort == 'I' else 'f'))

    def arr2(self, name, n, m):
        self.inputs[name] = ('arr', (num(n), num(m)), 'R')
        return ip.Arr([ip.plain(n), ip.plain(m)], lambda i, j: tm.app(name, i, j))

    def requires(self, *cs):
        self.F.add(*cs)

    def nice(self, f):
        self.nicer.append(f)

    # -- running code
    def fn(self, q):
        return self.I.getfn(q)

    def call(self, q, *args, **kw):
        f = self.fn(q) if isinstance(q, str) else q
        return self.I.call(f, list(args), kw)

    def call_np(self, name, *args):
        return self.I.libs['numpy'].d[name].f(*args)

    def run(self, thunk, raises=None):
        """all paths of thunk; thunk must state its goals itself"""
        if self.F.check([]) == 'unsat':
            raise Fail('vacuous: the precondition is contradictory')
        for _ in range(40):
            ngoals = len(self.goals)
            try:
                outs = self.I.explore(thunk)
                break
            except Restart:
                del self.goals[ngoals:]
                continue
        else:
            raise Unsupported('does not converge')
        for o in outs:
            if o.kind == 'raise':
                if raises is not None and raises(o, list(o.pc)):
                    continue
                if self.F.check(list(o.pc)) == 'unsat':
                    continue
                raise Fail('raises %s%r' % (o.value.tname, o.value.eargs), o.pc)
        return outs

    # -- goals
    def raises(self, label, thunk, exc, msg=None):
        """every feasible path of thunk raises exc"""
        outs = self.I.explore(thunk)
        if not outs:
            raise Unsupported('no path: ' + label)
        for o in outs:
            if o.kind == 'raise' and self.I.exc_match(o.value.tname, exc):
                continue
            f = Fail('does not raise %s' % exc, list(self.I.pc) + list(o.pc))
            f.label = label
            raise f
        self.goals.append((label, 0.0))

    def eq(self, label, a, b, pc=()):
        a, b = ip.lift(a), ip.lift(b)
        t0 = time.time()
        pc = list(self.I.pc) + list(pc)
        try:
            self.P.eq(a, b, pc)
        except Fail as e:
            e.label = label
            raise
        self.goals.append((label, time.time() - t0))
        if self.selftested < 2 and a.sort != 'B':
            # the same machinery must reject a deliberately wrong postcondition
            self.selftested += 1
            if self.F.check(pc) != 'unsat':
                try:
                    Prover(self.F).eq(a, tm.add(b, num(1)), pc)
                except Fail:
                    pass
                else:
                    raise Fail('self-test: a false postcondition was accepted (%s)' % label, pc)

    def holds(self, label, c, pc=()):
        t0 = time.time()
        pc = list(self.I.pc) + list(pc)
        try:
            self.P.holds(c, pc)
        except Fail as e:
            e.label = label
            raise
        self.goals.append((label, time.time() - t0))

    def check(self, label, ok, why=''):
        """a structural postcondition decided by the executor itself"""
        if not ok:
            f = Fail(why or 'does not hold', list(self.I.pc))
            f.label = label
            raise f
        self.goals.append((label, 0.0))

    def induct(self, label, n, P, lo=0):
        """lemma by induction: P(k) for all lo <= k < n; usable as a fact afterwards"""
        k = tm.fresh('k', 'I')
        n, lo = num(n), num(lo)
        self.holds(label + ' (base)', tm.implies(tm.lt(lo, n), P(lo)))
        self.holds(label + ' (step)', P(tm.add(k, num(1))),
                   [tm.le(lo, k), tm.lt(tm.add(k, num(1)), n), P(k)])
        def g(apps):
            for t in prove.index_terms(apps):
                yield tm.implies(tm.land(tm.le(lo, t), tm.lt(t, n)), P(t))
        self.F.gen(g)

    def forall(self, n, P):
        """assumed (definition or callee contract): P(k) for all 0 <= k < n"""
        n = num(n)
        memo = {}

        def g(apps):
            for t in prove.index_terms(apps):
                r = memo.get(t)
                if r is None:
                    r = memo[t] = tm.implies(tm.land(tm.le(num(0), t), tm.lt(t, n)), P(t))
                yield r
        self.F.gen(g)

    def idx(self, *ns):
        """generic indices 0 <= i < n: (vars, range facts)"""
        vs, pc = [], []
        for n in ns:
            v = tm.fresh('i', 'I')
            vs.append(v)
            pc += [tm.le(num(0), v), tm.lt(v, num(n))]
        return vs, pc

    def length(self, label, d, n):
        """array dimension d has length n"""
        self.holds(label, tm.eq(d.length(), num(n)))


def run_obligation(ob, suite):
    """-> dict (plain data)"""
    t0 = time.time()
    r = {'name': ob.name, 'functions': list(ob.functions), 'status': 'proved', 'why': '', 'goals': []}
    v = V()
    try:
        ob.fn(v)
        if not v.goals:
            raise Fail('vacuous: no obligation was generated')
    except Fail as e:
        r['status'] = 'failed'
        r['why'] = str(e.why)
        r['label'] = getattr(e, 'label', '')
        r['case'] = [tm.show(c, 6)[:300] for c in e.case]
        r['term'] = tm.show(e.term, 4)[:400] if isinstance(e.term, T) else ''
        r['hints'] = model_of(v, e.case)
    except PyExc as e:
        r['status'] = 'failed'
        r['why'] = 'raises %s %r' % (e.tname, e.eargs)
    except (Unsupported, ip.NoMerge, ip.tm.DivByZero, pit.Undefined, pit.NoPoly) as e:
        r['status'] = 'unsupported'
        r['why'] = '%s: %s' % (type(e).__name__, e)
        if v.I.current_line:
            r['why'] += ' (near %s)' % (v.I.current_line,)
    except RecursionError as e:
        r['status'] = 'unsupported'
        r['why'] = 'recursion'
        tr = traceback.format_exc().split('\n')
        r['trace'] = '\n'.join(tr[-60:])
    except Exception as e:
        r['status'] = 'crash'
        r['why'] = '%s: %s' % (type(e).__name__, e)
        r['trace'] = traceback.format_exc()[-2500:]
    r['goals'] = [g[0] for g in v.goals]
    r['bounds'] = v.I.bounds_checked
    r['used'] = sorted(v.I.used)
    r['used_contracts'] = sorted(v.I.used_contracts)
    r['external'] = sorted(v.I.assumed)
    r['trusted'] = sorted(v.trusted)
    r['leaves'] = v.P.leaves
    r['stats'] = dict(prove.STATS)
    r['wall'] = time.time() - t0
    return r


def model_of(v, case):
    """small concrete inputs satisfying the precondition and the failing case
    (the verifier's counterexample candidate, replayed on the real code)"""
    import z3
    import itertools
    out = []
    sizes = sorted({d for k in v.inputs.values() if k[0] == 'arr' for d in k[1] if d.op == 'var'}, key=lambda t: t.id)
    t0 = time.time()
    F = v.F.copy()
    for f in v.nicer:
        f(F)
    for combo in itertools.product((1, 2, 3), repeat=len(sizes)):
        if time.time() - t0 > 15 or len(out) >= 3:
            break
        try:
            extra = [tm.eq(s, num(c)) for s, c in zip(sizes, combo)]
            m = dict(zip(sizes, map(num, combo)))
            names = {}
            for nm, k in v.inputs.items():
                if k[0] == 'arr':
                    ns = [int(tm.subst(d, m).args[0]) for d in k[1]]
                    names[nm] = (ns, k[2])
            elems = [tm.app(nm, *map(num, ix), sort=st) for nm, (ns, st) in names.items()
                     for ix in itertools.product(*map(range, ns))]
            # instantiate quantified facts at the concrete elements
            anchors = [tm.eq(tm.fresh('h', e.sort), e) for e in elems]
            cs = [tm.subst(c, m) for c in case] + extra + anchors
            s = z3.Solver()
            s.set('timeout', 3000)
            box = [c for e in elems if e.sort == 'R' for c in (tm.le(num(-20), e), tm.le(e, num(20)))]
            for t in F.instances(cs) + cs + box:
                s.add(prove.toz3(t))
            if str(s.check()) != 'sat':
                continue
            mod = s.model()
            d = {}
            for nm, (ns, st) in names.items():
                d[nm] = arrval(mod, nm, ns, st)
            for nm, k in v.inputs.items():
                if k[0] == 'scalar':
                    d[nm] = zval(mod, tm.var(nm, k[1]))
            out.append(d)
        except Exception:
            continue
    return out


def zval(mod, t):
    import z3
    x = mod.eval(prove.toz3(t), model_completion=True)
    if z3.is_int_value(x):
        return x.as_long()
    if z3.is_rational_value(x):
        return float(x.numerator_as_long()) / float(x.denominator_as_long())
    if z3.is_algebraic_value(x):
        a = x.approx(20)
        return float(a.numerator_as_long()) / float(a.denominator_as_long())
    if z3.is_true(x):
        return True
    if z3.is_false(x):
        return False
    raise ValueError


def arrval(mod, nm, ns, st, pre=()):
    if len(pre) == len(ns):
        return zval(mod, tm.app(nm, *map(num, pre), sort=st))
    return [arrval(mod, nm, ns, st, tuple(pre) + (i,)) for i in range(ns[len(pre)])]
