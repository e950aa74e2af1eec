"""C30: input attribute checks raise exactly when the documented rule is broken.

The object under check holds any number of attributes; each value is a handle (a term) of which only
what the checks can observe is known: whether it is None, a list, has a length, its length."""
from speclib import *
from dv import nplib
from dv.interp import Abstract, Builtin, Cls, LList, Maybe, NoMerge, Opaque, PDict, PyExc, Seq, TypeVal, Unsupported

suite = Suite('C30')
suite.num = ['num_io']
IO = 'geotecha.inputoutput.inputoutput.'
suite.assumptions = ['attributes are plain instance attributes (no properties)',
                     'the attribute names given to one call of a function that writes attributes are distinct',
                     'attribute values are None or objects with a well defined length; their truth value is not used by the rules']
one, Z = num(1), num(0)
implies = tm.implies
ANY = Cls('value', [], {}, None)


def none(h):
    return app('none', h, sort='B')


def islist(h):
    return app('islist', h, sort='B')


def haslen(h):
    return app('haslen', h, sort='B')


def size(h):
    return app('len', h, sort='I')


def facts(V, sized=False):
    """a list is not None and has a length; lengths are not negative; a filled list is a list of that length"""
    def gen(apps):
        r = []
        for a in apps:
            if a.op != 'app':
                continue
            if a.args[0] == 'none' and sized:
                r.append(lor(a, haslen(a.args[1])))
            elif a.args[0] == 'islist':
                r.append(implies(a, land(lnot(none(a.args[1])), haslen(a.args[1]))))
            elif a.args[0] == 'haslen':
                r.append(implies(a, lnot(none(a.args[1]))))
            elif a.args[0] == 'len':
                r.append(le(Z, a))
            elif a.args[0] == 'size':
                r.append(le(one, a))
            elif a.args[0] == 'elem':
                r.append(lnot(none(a)))
                r.append(lnot(islist(a)))
        return r
    V.F.gen(gen)


class Val(Maybe):
    """an attribute value: the handle h"""

    def __init__(self, h):
        Maybe.__init__(self, ANY)
        self.h = h
        self.isnone = none(h)

    def again(self, index):
        return self

    def same(self, o):
        return isinstance(o, Val) and o.h is self.h

    def merge(self, c, o):
        if not isinstance(o, Val):
            raise NoMerge('a value and something else')
        return Val(tm.ite(c, self.h, o.h))

    def substituted(self, m):
        return type(self)(tm.subst(self.h, m))

    def isa(self, t):
        if isinstance(t, TypeVal) and t.name == 'list':
            return islist(self.h)
        raise Unsupported('type test of an attribute value')

    def attr(self, I, k):
        if k == '__len__':
            if I.decide(haslen(self.h)):
                return Builtin(lambda: self.length(I), '__len__')
            raise PyExc('AttributeError', (k,))
        if k == 'x':
            return Xs(self.h)
        raise Unsupported('attribute %s of an attribute value' % k)

    def item(self, I, k):
        if not I.decide(islist(self.h)):
            raise PyExc('TypeError', ('not subscriptable',))
        k = num(k)
        I.require(land(le(Z, k), lt(k, size(self.h))), 'list index')
        return Val(app('elem', self.h, k))

    def sequence(self, I):
        if not I.decide(islist(self.h)):
            raise PyExc('TypeError', ('not iterable',))
        return size(self.h), lambda j: Val(app('elem', self.h, num(j))), None, False

    def length(self, I):
        if I.decide(haslen(self.h)):
            return size(self.h)
        raise PyExc('TypeError', ('no len',))

    def truth(self, I):
        return app('truthy', self.h, sort='B')


class Xs(Abstract):
    """the x values of a PolyLine: only the ends are known"""

    def __init__(self, h):
        Abstract.__init__(self, ANY)
        self.h = h

    def again(self, index):
        return self

    def same(self, o):
        return isinstance(o, Xs) and o.h is self.h

    def substituted(self, m):
        return Xs(tm.subst(self.h, m))

    def item(self, I, k):
        if k not in (0, -1):
            raise Unsupported('an inner x value')
        return app('xend', self.h, num(k))


class Name(Maybe):
    """the name of attribute idx (one or two indices)"""
    is_str = True

    def __init__(self, *idx):
        Maybe.__init__(self, ANY)
        self.idx = idx
        self.isnone = tm.FALSE

    def same(self, o):
        return isinstance(o, Name) and o.idx == self.idx

    def again(self, index):
        return self

    def merge(self, c, o):
        if not isinstance(o, Name) or len(o.idx) != len(self.idx):
            raise NoMerge('a name and something else')
        return Name(*[tm.ite(c, num(x), num(y)) for x, y in zip(self.idx, o.idx)])

    def substituted(self, m):
        return Name(*[tm.subst(i, m) for i in self.idx])

    def read(self, I, o, *d):
        return o.d['__getattribute__'].f(self)

    def write(self, I, o, v):
        return o.d['__setattr__'].f(self, v)

    def has(self, I, o):
        return True


def encode(I, v):
    """the handle of a stored value"""
    if isinstance(v, Val):
        return v.h
    if isinstance(v, LList):
        xs = v.v
        if isinstance(xs, list):
            if len(xs) == 1:
                return app('only', encode(I, xs[0]))
            raise Unsupported('a stored list')
        if isinstance(xs, Seq):
            k = tm.fresh('k', 'I')
            h = encode(I, xs.fn(k))
            if k in set(tm.subterms(h)):
                raise Unsupported('a stored list')
            return app('filled', num(xs.n), h)
    if v is None:
        return app('NONE')
    raise Unsupported('a stored %r' % (v,))


def holder(V, store):
    """an object whose attribute idx has the handle store[idx]"""
    o = ip.Obj(Cls('holder', [], {}, None))

    def get(k):
        return Val(num(V.I.getitem(store, k.idx if len(k.idx) > 1 else k.idx[0])))

    def put(k, v):
        V.I.setitem(store, k.idx if len(k.idx) > 1 else k.idx[0], encode(V.I, v))
    o.d['__getattribute__'] = Builtin(get)
    o.d['__setattr__'] = Builtin(put)
    return o


def groups(V, nm):
    """any number of groups of any number of attributes, names may repeat"""
    G = V.int(nm + 'G', 0)
    return G, LList(Seq(G, lambda g: LList(Seq(app('size', num(g), sort='I'), lambda i: Name(app('attr', num(g), num(i), sort='I'))))))


def world(V):
    N = V.int('N', 1)
    facts(V)
    V.F.gen(lambda apps: [land(le(Z, a), lt(a, N)) for a in apps if a.op == 'app' and a.args[0] == 'attr'])
    return holder(V, V.arr('val', N))


def value(g, i):
    return app('val', app('attr', g, i, sort='I'))


def some(v, n, c):
    x = tm.fresh(v, 'I')
    return tm.exists(x, n, c(x))


def exact(V, go, broken, tname='ValueError'):
    """go raises exactly when broken, and then the stated error"""
    def run():
        rule = broken
        if callable(rule):
            rule = rule()
        try:
            go()
        except PyExc as e:
            V.holds('raised only when the rule is broken', rule)
            V.check('the documented error', e.tname == tname)
            return
        V.holds('accepted only when the rule holds', lnot(rule))
    V.run(run)


@suite.ob('zero or all', IO + 'check_attribute_combinations')
def zero_or_all(V):
    o = world(V)
    G, gs = groups(V, 'z')
    broken = some('g', G, lambda g: land(some('i', app('size', g, sort='I'), lambda i: none(value(g, i))),
                                         some('j', app('size', g, sort='I'), lambda i: lnot(none(value(g, i))))))
    exact(V, lambda: V.I.call(V.fn(IO + 'check_attribute_combinations'), [o], {'zero_or_all': gs}), broken)


@suite.ob('at least one', IO + 'check_attribute_combinations')
def at_least_one(V):
    o = world(V)
    G, gs = groups(V, 'z')
    broken = some('g', G, lambda g: lnot(some('j', app('size', g, sort='I'), lambda i: lnot(none(value(g, i))))))
    exact(V, lambda: V.I.call(V.fn(IO + 'check_attribute_combinations'), [o], {'at_least_one': gs}), broken)


@suite.ob('one implies others', IO + 'check_attribute_combinations')
def one_implies(V):
    o = world(V)
    G, gs = groups(V, 'z')
    broken = some('g', G, lambda g: lor(le(app('size', g, sort='I'), one),
                                        land(lnot(none(value(g, Z))),
                                             some('j', sub(app('size', g, sort='I'), one), lambda i: none(value(g, add(i, one)))))))
    exact(V, lambda: V.I.call(V.fn(IO + 'check_attribute_combinations'), [o], {'one_implies_others': gs}), broken)


def state(V):
    """an object with N attributes named 0..N-1"""
    N = V.int('N', 0)
    facts(V)
    st = V.arr('val', N)
    return N, st, holder(V, st), LList(Seq(N, lambda i: Name(num(i))))


def now(V, st, k):
    return num(V.I.getitem(st, k))


def at(N, k):
    return le(Z, k), lt(k, N)


@suite.ob('is list', IO + 'check_attribute_is_list')
def is_list(V):
    N, st, o, names = state(V)
    broken = some('i', N, lambda i: land(lnot(none(app('val', i))), lnot(islist(app('val', i)))))
    exact(V, lambda: V.I.call(V.fn(IO + 'check_attribute_is_list'), [o, names]), broken)


@suite.ob('non list values are wrapped when asked', IO + 'check_attribute_is_list')
def wrapped(V):
    N, st, o, names = state(V)
    k = V.int('k')
    V.requires(*at(N, k))

    def go():
        V.I.call(V.fn(IO + 'check_attribute_is_list'), [o, names], {'force_list': True})
        h = app('val', k)
        V.eq('stored value', now(V, st, k), ite(lor(none(h), islist(h)), h, app('only', h)))
    V.run(go)


@suite.ob('a list check changes nothing', IO + 'check_attribute_is_list')
def unchanged(V):
    N, st, o, names = state(V)
    k = V.int('k')
    V.requires(*at(N, k))

    def go():
        try:
            V.I.call(V.fn(IO + 'check_attribute_is_list'), [o, names])
        except PyExc:
            pass
        V.eq('stored value', now(V, st, k), app('val', k))
    V.run(go)


def defaults(V):
    """a dictionary with an unknown subset of the names"""
    d = ip.Obj(Cls('dict', [], {}, None))

    def get(k, dflt=None):
        if len(k.idx) != 1:
            raise Unsupported('name')
        if V.I.decide(app('has', k.idx[0], sort='B')):
            return Val(app('default', k.idx[0]))
        return dflt
    d.d['get'] = Builtin(get)
    return d


@suite.ob('initialise from defaults', IO + 'initialize_objects_attributes')
def initialise(V):
    N, st, o, names = state(V)
    k = V.int('k')
    V.requires(*at(N, k))

    def go():
        V.I.call(V.fn(IO + 'initialize_objects_attributes'), [o, names], {'defaults': defaults(V), 'not_found_value': Val(app('missing'))})
        V.eq('stored value', now(V, st, k), ite(app('has', k, sort='B'), app('default', k), app('missing')))
    V.run(go)


@suite.ob('copy between objects', IO + 'copy_attributes_between_objects')
def copied(V):
    N, st, o, names = state(V)
    k = V.int('k')
    V.requires(*at(N, k))
    src = ip.Obj(Cls('holder', [], {}, None))
    table = ip.Obj(Cls('dict', [], {}, None))

    def get(n, dflt=None):
        if V.I.decide(app('present', n.idx[0], sort='B')):
            return Val(app('source', n.idx[0]))
        return dflt
    table.d['get'] = Builtin(get)
    src.d['__dict__'] = table

    def go():
        V.I.call(V.fn(IO + 'copy_attributes_between_objects'), [src, o, names], {'defaults': defaults(V), 'not_found_value': Val(app('missing'))})
        V.eq('stored value', now(V, st, k), ite(app('present', k, sort='B'), app('source', k),
                                                ite(app('has', k, sort='B'), app('default', k), app('missing'))))
    V.run(go)


@suite.ob('pairs have equal length', IO + 'check_attribute_pairs_have_equal_length')
def pairs(V):
    o = world(V)
    P = V.int('P', 0)
    ps = LList(Seq(P, lambda g: LList([Name(app('attr', num(g), num(i), sort='I')) for i in (0, 1)])))
    both = lambda g: land(lnot(none(value(g, Z))), lnot(none(value(g, one))))
    sized = lambda g: land(haslen(value(g, Z)), haslen(value(g, one)))
    unsized = some('g', P, lambda g: land(both(g), lnot(sized(g))))
    differ = some('g', P, lambda g: land(both(g), sized(g), lnot(eq(size(value(g, Z)), size(value(g, one))))))

    def run():
        try:
            V.I.call(V.fn(IO + 'check_attribute_pairs_have_equal_length'), [o, ps])
        except PyExc as e:
            if e.tname == 'TypeError':
                V.holds('TypeError only for a value without length', unsized)
            else:
                V.holds('raised only for different lengths', differ)
                V.check('the documented error', e.tname == 'ValueError')
            return
        V.holds('accepted only with equal lengths', lnot(lor(unsized, differ)))
    V.run(run)


@suite.ob('three names are not a pair', IO + 'check_attribute_pairs_have_equal_length')
def not_pairs(V):
    o = world(V)
    ps = LList([LList([Name(app('attr', Z, num(i), sort='I')) for i in (0, 1, 2)])])
    exact(V, lambda: V.I.call(V.fn(IO + 'check_attribute_pairs_have_equal_length'), [o, ps]), tm.TRUE)


@suite.ob('same length filling', IO + 'force_attribute_same_len_if_none')
def filling(V):
    G = V.int('G', 0)
    M = V.int('M', 1)
    facts(V, True)
    sz = lambda g: app('size', num(g), sort='I')
    V.F.gen(lambda apps: [le(a, M) for a in apps if a.op == 'app' and a.args[0] == 'size'])
    st = V.arr2('val', G, M)
    o = holder(V, st)
    gs = LList(Seq(G, lambda g: LList(Seq(sz(g), lambda i: Name(num(g), num(i))))))
    g, k = V.int('g'), V.int('k')
    V.requires(*at(G, g), *at(sz(g), k))
    v = lambda i: app('val', g, i)

    def go():
        V.I.call(V.fn(IO + 'force_attribute_same_len_if_none'), [o, gs], {'value': Val(app('fill'))})
        V.eq('stored value', num(V.I.getitem(st, (g, k))),
             ite(land(lt(Z, k), none(v(k)), lnot(none(v(Z)))), app('filled', size(v(Z)), app('fill')), v(k)))
    V.run(go)


@suite.ob('same x limits', IO + 'check_attribute_PolyLines_have_same_x_limits')
def limits(V):
    """values are PolyLines or non-empty lists of PolyLines; the limits of the first one found are the reference.

    numpy.allclose is a predicate of the two pairs of limits."""
    o = world(V)
    V.F.gen(lambda apps: [implies(islist(a.args[1]), le(one, a)) for a in apps if a.op == 'app' and a.args[0] == 'len'])
    S = V.int('S', 1)
    gs = LList([LList(Seq(S, lambda i: Name(app('attr', Z, num(i), sort='I'))))])

    def ref():
        i = tm.fresh('i', 'I')
        h = value(Z, tm.first(i, S, lnot(none(value(Z, i)))))
        return app('elem', h, Z) if V.I.decide(islist(h)) else h

    def off(p, q):
        return lnot(app('close', *[app('xend', h, num(e)) for h in (p, q) for e in (0, -1)], sort='B'))

    def allclose(a, b):
        r = []
        for x in (a, b):
            x = V.I.iter_concrete(x)
            if x is None or len(x) != 2:
                raise Unsupported('allclose of other than two numbers')
            r += [num(y) for y in x]
        return app('close', *r, sort='B')
    V.I.import_mod('numpy').d['allclose'] = Builtin(allclose, 'allclose')
    def broken():
        if not V.I.decide(some('i', S, lambda i: lnot(none(value(Z, i))))):
            return tm.FALSE
        q = ref()
        return some('i', S, lambda i: land(lnot(none(value(Z, i))), ite(
            islist(value(Z, i)), some('j', size(value(Z, i)), lambda j: off(app('elem', value(Z, i), j), q)), off(value(Z, i), q))))
    exact(V, lambda: V.I.call(V.fn(IO + 'check_attribute_PolyLines_have_same_x_limits'), [o, gs]), broken)


@suite.ob('second group has its own limits (two groups of two)', IO + 'check_attribute_PolyLines_have_same_x_limits')
def second_group(V):
    """bounded: two groups of two attributes"""
    o = world(V)
    V.F.gen(lambda apps: [lnot(a) for a in apps if a.op == 'app' and a.args[0] == 'islist'])
    gs = LList([LList([Name(app('attr', num(g), num(i), sort='I')) for i in (0, 1)]) for g in (0, 1)])
    ends = lambda h: [app('xend', h, num(e)) for e in (0, -1)]

    def allclose(a, b):
        return app('close', *[num(y) for x in (a, b) for y in V.I.iter_concrete(x)], sort='B')
    V.I.import_mod('numpy').d['allclose'] = Builtin(allclose, 'allclose')
    V.F.gen(lambda apps: [a for a in apps if a.op == 'app' and a.args[0] == 'close' and a.args[1] is a.args[3] and a.args[2] is a.args[4]])

    def off(g):
        p, q = value(num(g), Z), value(num(g), one)
        return land(lnot(none(p)), lnot(none(q)), lnot(app('close', *ends(q), *ends(p), sort='B')))
    exact(V, lambda: V.I.call(V.fn(IO + 'check_attribute_PolyLines_have_same_x_limits'), [o, gs]), lor(off(0), off(1)))


RULES = {'_zero_or_all': ('check_attribute_combinations', 'zero_or_all'), '_at_least_one': ('check_attribute_combinations', 'at_least_one'),
         '_one_implies_others': ('check_attribute_combinations', 'one_implies_others'),
         '_attributes_that_should_be_lists': ('check_attribute_is_list', 'attributes'),
         '_attributes_to_force_same_len': ('force_attribute_same_len_if_none', 'same_len_attributes'),
         '_attributes_that_should_have_same_x_limits': ('check_attribute_PolyLines_have_same_x_limits', 'attributes'),
         '_attributes_that_should_have_same_len_pairs': ('check_attribute_pairs_have_equal_length', 'attributes')}


def input_rules(V, given):
    """every rule list of the class reaches its check, in the order: combinations, wrapping, filling, comparisons"""
    c = V.fn(IO + 'InputFileLoaderCheckerSaver')
    o = ip.Obj(c)
    lists = {k: LList([k]) for k in RULES}
    if given:
        o.d.update(lists)
    log = []
    for q in {q for q, a in RULES.values()}:
        def model(I, f, args, kw, q=q):
            b = I.bind(f, args, kw)
            log.append((q, b))
            return None
        V.I.contracts[IO + q] = model

    def go():
        del log[:]
        V.I.call(V.I.getattr(o, 'check_input_attributes'), [], {})
        names = [q for q, b in log]
        for q in {q for q, a in RULES.values()}:
            V.check('%s applied once' % q, names.count(q) == 1)
        for k, (q, a) in RULES.items():
            for q2, b in log:
                if q2 == q:
                    V.check('%s on this object' % q, b['obj'] is o)
                    V.check('%s reaches %s' % (k, q), b[a] is lists[k] if given else (isinstance(b[a], LList) and b[a].v == []))
        for q, b in log:
            if q == 'check_attribute_is_list':
                V.check('values are wrapped', b['force_list'] is True)
            if q == 'force_attribute_same_len_if_none':
                V.check('filled with None', b['value'] is None)
        order = [names.index(x) for x in ('check_attribute_is_list', 'force_attribute_same_len_if_none', 'check_attribute_pairs_have_equal_length') if x in names]
        V.check('wrapping, then filling, then comparing', order == sorted(order))
    V.run(go)


@suite.ob('all rules of a model are applied', IO + 'InputFileLoaderCheckerSaver.check_input_attributes')
def rules_given(V):
    input_rules(V, True)


@suite.ob('rules may be absent', IO + 'InputFileLoaderCheckerSaver.check_input_attributes')
def rules_absent(V):
    input_rules(V, False)
