"""Run-time evaluation of the input-text contracts (C29) and the attribute checks (C30)."""
import numpy as np
from dv.numh import check, close, main
import geotecha.inputoutput.inputoutput as io
from geotecha.piecewise.piecewise_linear_1d import PolyLine

ALLOW = ['ast', 'builtin', 'numpy', 'PolyLine']
BAD = ['__import__("os")', 'eval("1")', 'exec("1")', 'open("zz")', 'globals()', 'vars()', 'getattr(np, "sin")', 'setattr(np, "a", 1)', '().__class__', 'np.os', 'np.sys.path',
       'np.core', 'np.lib', 'np.ctypeslib', 'zzz', 'zzz(1)', '(1).__add__(2)', 'np.__dict__', '"a".__class__.__mro__', 'zzz.sin', 'np.zzz(1)', '(zz := 3)', 'breakpoint()', 'object()', 'f"{1}"',
       'delattr(np, "sin")', 'memoryview(b"a")', 'help()', 'np.sin.__self__', 'sin(1.0)', 'PolyLine.__init__', 'x0.__class__']
BADST = ['import os', 'from os import path', 'import numpy.linalg as npl', 'class A(): pass', 'async def f(): pass', 'def f():\n    import os', 'def f():\n    nonlocal_ = 1\n    import sys\n    return 1',
         'for i in range(2):\n    from os import path', 'if 0:\n    import os', 'try:\n    import os\nexcept:\n    pass', 'while 0:\n    class B: pass', 'with np.errstate() as q:\n    import os',
         'def f(a=[].__class__): pass', 'if []:\n    __class__ = 1\nb = ().__class__', 'if 0:\n    __import__ = 1\n__import__("os")', 'if 0:\n    eval = 1\neval("1")', 'for __dict__ in []:\n    pass\nb = np.__dict__',
         'zz = 1\nnp.zz', 'lib = 1\nnp.lib', 'zz = [zz2 for zz in [1]]', 'def g():\n    return 1\ng()', 'del np.sin\nnp.zz', 'yy = lambda: zz']
WRAP = ['a1 = %s', 'a1 = [1, %s]', 'a1 = {"k": %s}', 'a1 = (2.0, (%s,))', 'a1 = np.array([%s])', 'a1 = dict(k=%s)', 'a1 = 1 if 1 else %s', 'a1 = [q0 for q0 in []] if 0 else %s' if False else 'a1 = [%s][0]', 'a1 = 3 + %s',
        'if %s:\n    pass', 'for i1 in [%s]:\n    pass', 'def h():\n    return %s', 'a1 = lambda: %s', 'a1 = [1][0:%s]', 'assert %s', 'x0[%s] = 1', 'print(%s)', 'while %s:\n    break', 'a1 = not %s', 'a1 = 1 < 2 < %s', 'a1 = max(*[%s])',
        'try:\n    pass\nfinally:\n    a1 = %s', '%s', 'a1 = -%s']
GOOD = ['a%d = 1', 'a%d = -2.5', 'a%d = "text"', 'a%d = [1, 2.0, "s"]', 'a%d = (1, 2)', 'a%d = {"k": 1}', 'a%d = None', 'a%d = True', 'a%d = np.linspace(0, 1, 5)', 'a%d = np.array([1.0, 2])', 'a%d = x0[0] + 2 * x0[1]',
        'a%d = 2**3 / 4 - 1', 'a%d = np.cos(np.pi / 3)', 'a%d = x0[0:1]', 'a%d = slice(None, None)', 'a%d = abs(-3)', 'a%d = [(0.1, None), (2, 3)]', 'a%d = np.log10(100.0)', 'a%d = max(1, 2)', 'a%d = len(x0)', 'a%d = range(3)',
        'a%d = 0\nfor i in range(3):\n    a%d += i', 'if x0[0] < 1:\n    a%d = 1\nelse:\n    a%d = 2', 'a%d = b"x"', 'a%d = {1, 2}', 'a%d = np.logspace(-1, 1, 3)', 'a%d = list(np.arange(3))', 'a%d = [0.0]\na%d.append(2.0)', 'a%d = "{}".format(3)',
        'a%d = dict(save=True, n=2)', 'a%d = ...', 'a%d = 1j', 'a%d = ""', 'a%d = []']


def script(rng, k):
    good = [g.replace('%d', str(q + 10)) for q, g in enumerate(rng.sample(GOOD, rng.randint(1, 6)))]
    r = rng.random()
    if k < len(GOOD):
        return {'lines': [GOOD[k].replace('%d', '1')], 'ok': True}
    if r < 0.3:
        return {'lines': good, 'ok': True}
    bad = rng.choice(BADST) if r < 0.55 else rng.choice(WRAP) % rng.choice(BAD)
    good.insert(rng.randint(0, len(good)), bad)
    return {'lines': good, 'ok': False}


@check('C29', 'scripts are run only when every construct is allowed', script)
def scripts(lines, ok):
    text = 'probe(0)\nx0 = [1.0, 2.0]\n' + '\n'.join(lines) + '\nprobe(1)\n'
    ran = []
    ck = io.SyntaxChecker(list(ALLOW))
    ck.allowed_functions['probe'] = ran.append
    try:
        m = io.make_module_from_text(text, ck)
    except SyntaxError as e:
        if ran:
            return 'rejected (%s) but part of it ran: %r' % (e, text)
        return 'plain script rejected: %s: %r' % (e, text) if ok else None
    except Exception as e:
        return 'accepted, then %s: %r' % (type(e).__name__, text)
    if not ok:
        return 'accepted: %r' % text
    ns = {'np': np, 'PolyLine': PolyLine, 'probe': lambda k: None}
    exec(text, ns)
    for k, v in ns.items():
        if k.startswith('a') and repr(v) != repr(getattr(m, k, 'missing')):
            return '%s is %r, expected %r' % (k, getattr(m, k, 'missing'), v)
    if ran != [0, 1]:
        return 'ran %r' % ran


def lists(rng, k):
    return {'allow': rng.sample(ALLOW, rng.randint(0, 3)), 'what': rng.choice(['a = 1', 'a = np.cos(0)', 'a = abs(1)', 'a = PolyLine([0, 1], [1, 1])', 'a = "x".join([])', 'a = [].append'])}


@check('C29', 'what is not on the lists is refused', lists)
def subset(allow, what):
    need = {'a = 1': ['ast'], 'a = np.cos(0)': ['ast', 'numpy'], 'a = abs(1)': ['ast', 'builtin'], 'a = PolyLine([0, 1], [1, 1])': ['ast', 'PolyLine'], 'a = "x".join([])': ['ast', 'builtin'], 'a = [].append': ['ast']}[what]
    if what == 'a = [].append':
        want = 'ast' in allow and ('builtin' in allow or 'numpy' in allow)
    else:
        want = all(n in allow for n in need)
    try:
        io.make_module_from_text(what, io.SyntaxChecker(list(allow)))
        got = True
    except SyntaxError:
        got = False
    if got != want:
        return '%r with %r %s' % (what, allow, 'accepted' if got else 'rejected')


VALS = [None, None, None, 0, 0.0, '', 'ab', [], [1], [1, 2], [None], (1, 2), [1, 2, 3], 2.5, False, 'A1', 'A2', 'A3']


def val(v):
    """JSON description -> value (A1..A3 stand for numpy arrays)"""
    return np.arange(float(int(v[1]))) if isinstance(v, str) and v[:1] == 'A' else list(v) if isinstance(v, list) else v


class Holder(object):
    pass


def holder(vals):
    o = Holder()
    for i, v in enumerate(vals):
        setattr(o, 'n%d' % i, val(v))
    return o


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return type(a) is type(b) and a.shape == b.shape and bool(np.all(a == b))
    return type(a) is type(b) and (repr(a) == repr(b))


def attempt(f):
    try:
        f()
        return None
    except Exception as e:
        return e


def compare(what, got, want, tname=('ValueError',)):
    """got: exception or None; want: should it raise"""
    if want and got is None:
        return '%s: accepted' % what
    if not want and got is not None:
        return '%s: raised %s: %s' % (what, type(got).__name__, got)
    if want and type(got).__name__ not in tname:
        return '%s: raised %s: %s' % (what, type(got).__name__, got)


def untouched(what, o, before):
    for k, v in before.items():
        if not same(v, getattr(o, k)):
            return '%s: %s changed from %r to %r' % (what, k, v, getattr(o, k))
    if set(o.__dict__) != set(before):
        return '%s: attributes %r' % (what, sorted(o.__dict__))


def combos(rng, k):
    n = rng.randint(1, 7)
    grp = lambda lo: [['n%d' % rng.randrange(n) for _ in range(rng.randint(lo, 4))] for _ in range(rng.randint(0, 4))]
    return {'vals': [rng.choice(VALS) for _ in range(n)], 'zero': grp(1), 'least': grp(1), 'implies': grp(2) if rng.random() < 0.9 else grp(1)}


@check('C30', 'combination rules', combos)
def combination_rules(vals, zero, least, implies):
    o = holder(vals)
    nn = lambda k: vals[int(k[1:])] is not None
    z = any(any(map(nn, g)) and not all(map(nn, g)) for g in zero)
    a = any(not any(map(nn, g)) for g in least)
    i = any(len(g) <= 1 or (nn(g[0]) and not all(map(nn, g[1:]))) for g in implies)
    before = dict(o.__dict__)
    f = io.check_attribute_combinations
    return (compare('zero or all', attempt(lambda: f(o, zero_or_all=zero)), z) or compare('at least one', attempt(lambda: f(o, at_least_one=least)), a)
            or compare('one implies others', attempt(lambda: f(o, one_implies_others=implies)), i)
            or compare('all rules', attempt(lambda: f(o, zero, least, implies)), z or a or i) or untouched('combinations', o, before))


def listed(rng, k):
    n = rng.randint(1, 7)
    names = ['n%d' % i for i in range(n) if rng.random() < 0.7]
    rng.shuffle(names)
    return {'vals': [rng.choice(VALS) for _ in range(n)], 'names': names}


@check('C30', 'list rule', listed)
def list_rule(vals, names):
    o, p = holder(vals), holder(vals)
    bad = [k for k in names if vals[int(k[1:])] is not None and not isinstance(getattr(o, k), list)]
    before = dict(o.__dict__)
    r = compare('is list', attempt(lambda: io.check_attribute_is_list(o, names)), bool(bad)) or untouched('is list', o, before)
    if r:
        return r
    r = compare('force list', attempt(lambda: io.check_attribute_is_list(p, names, force_list=True)), False)
    if r:
        return r
    for k, v in before.items():
        w = getattr(p, k)
        if k in bad:
            if not (isinstance(w, list) and len(w) == 1 and same(w[0], v)):
                return 'force list: %s = %r became %r' % (k, v, w)
        elif not same(w, v):
            return 'force list: %s = %r became %r' % (k, v, w)


def pairs(rng, k):
    n = rng.randint(2, 6)
    ps = [['n%d' % rng.randrange(n) for _ in range(2)] for _ in range(rng.randint(0, 4))]
    return {'vals': [rng.choice(VALS) for _ in range(n)], 'ps': ps}


@check('C30', 'pair lengths', pairs)
def pair_lengths(vals, ps):
    o = holder(vals)
    before = dict(o.__dict__)
    want, kinds = False, ()
    for a, b in ps:
        x, y = getattr(o, a), getattr(o, b)
        if x is None or y is None:
            continue
        if not (hasattr(x, '__len__') and hasattr(y, '__len__')):
            want, kinds = True, kinds + ('TypeError',)
        elif len(x) != len(y):
            want, kinds = True, kinds + ('ValueError',)
    return compare('pairs', attempt(lambda: io.check_attribute_pairs_have_equal_length(o, ps)), want, kinds) or untouched('pairs', o, before)


def fill(rng, k):
    n = rng.randint(2, 8)
    names = ['n%d' % i for i in range(n)]
    rng.shuffle(names)
    gs = []
    while names and rng.random() < 0.8:
        q = rng.randint(1, 4)
        gs.append(names[:q])
        names = names[q:]
    sized = [v for v in VALS if v is None or hasattr(val(v), '__len__')]
    return {'vals': [rng.choice(sized) for _ in range(n)], 'gs': [g for g in gs if g], 'value': rng.choice([None, 0, 'x'])}


@check('C30', 'same length filling', fill)
def same_length(vals, gs, value):
    o = holder(vals)
    want = dict(o.__dict__)
    for g in gs:
        if want[g[0]] is not None:
            for k in g[1:]:
                if want[k] is None:
                    want[k] = [value] * len(want[g[0]])
    e = attempt(lambda: io.force_attribute_same_len_if_none(o, gs, value))
    if e is not None:
        return 'filling raised %s: %s' % (type(e).__name__, e)
    return untouched('filling', o, want)


def limits(rng, k):
    n = rng.randint(1, 5)
    base = [(0.0, 1.0), (0.0, 2.0), (0.5, 1.0)]
    main = rng.choice(base)

    def one():
        a, b = main if rng.random() < 0.85 else rng.choice(base)
        if rng.random() < 0.1:
            b = b + 1e-9
        mid = [rng.uniform(a, b) for _ in range(rng.randint(0, 2))]
        return [a] + sorted(mid) + [b]
    vals = [None if rng.random() < 0.35 else one() if rng.random() < 0.4 else [one() for _ in range(rng.randint(1, 3))] for _ in range(n)]
    gs = [['n%d' % rng.randrange(n) for _ in range(rng.randint(1, 3))] for _ in range(rng.randint(0, 3))]
    return {'vals': vals, 'gs': gs}


@check('C30', 'common x limits', limits)
def common_limits(vals, gs):
    o = Holder()
    pl = lambda x: PolyLine(list(x), [1.0] * len(x))
    for i, v in enumerate(vals):
        setattr(o, 'n%d' % i, None if v is None else [pl(x) for x in v] if isinstance(v[0], list) else pl(v))
    before = dict(o.__dict__)
    want = False
    for g in gs:
        ends = []
        for k in g:
            v = vals[int(k[1:])]
            if v is not None:
                ends += [(x[0], x[-1]) for x in (v if isinstance(v[0], list) else [v])]
        want = want or any(abs(e[q] - ends[0][q]) > 1e-6 for e in ends for q in (0, 1))
    r = compare('x limits', attempt(lambda: io.check_attribute_PolyLines_have_same_x_limits(o, gs)), want)
    if r:
        return r
    for k, v in before.items():
        if getattr(o, k) is not v:
            return 'x limits: %s changed' % k


def init(rng, k):
    n = rng.randint(1, 6)
    return {'vals': [rng.choice(VALS) for _ in range(n)], 'names': rng.sample(['n%d' % i for i in range(9)], rng.randint(0, 6)),
            'defaults': {'n%d' % rng.randrange(9): rng.choice([0, None, 'd', [1]]) for _ in range(rng.randint(0, 5))}, 'missing': rng.choice([None, 7])}


@check('C30', 'initialise and copy', init)
def initialise(vals, names, defaults, missing):
    o, src, dst = holder(vals), holder(vals), Holder()
    want = dict(o.__dict__)
    for k in names:
        want[k] = defaults[k] if k in defaults else missing
    io.initialize_objects_attributes(o, names, defaults, missing)
    r = untouched('initialise', o, want)
    if r:
        return r
    io.copy_attributes_between_objects(src, dst, names, defaults, missing)
    want = {k: src.__dict__[k] if k in src.__dict__ else defaults[k] if k in defaults else missing for k in names}
    return untouched('copy', dst, want)


class Model(io.InputFileLoaderCheckerSaver):
    _zero_or_all = [['n0', 'n1'], ['n2', 'n3']]
    _at_least_one = [['n0', 'n2'], ['n4']]
    _one_implies_others = [['n5', 'n4', 'n0']]
    _attributes_that_should_be_lists = ['n0', 'n1', 'n5']
    _attributes_to_force_same_len = [['n1', 'n6'], ['n5', 'n7']]
    _attributes_that_should_have_same_len_pairs = [['n0', 'n1'], ['n1', 'n6']]


def model(rng, k):
    return {'vals': [rng.choice([None, None, 3, [1], [1, 2]]) for _ in range(8)]}


@check('C30', 'all rules of a model', model)
def model_rules(vals):
    o = Model.__new__(Model)
    o.__dict__.update(holder(vals).__dict__)
    nn = [v is not None for v in vals]
    bad = nn[0] != nn[1] or nn[2] != nn[3] or not (nn[0] or nn[2]) or not nn[4] or (nn[5] and not nn[0])
    want = dict(o.__dict__)
    for i in (0, 1, 5):
        v = want['n%d' % i]
        if v is not None and not isinstance(v, list):
            want['n%d' % i] = [v]
    for a, b in (('n1', 'n6'), ('n5', 'n7')):
        if want[a] is not None and want[b] is None:
            want[b] = [None] * len(want[a])
    kinds = ('ValueError',)
    if not bad:
        for a, b in (('n0', 'n1'), ('n1', 'n6')):
            if want[a] is not None and want[b] is not None:
                if not isinstance(want[b], list):
                    bad, kinds = True, kinds + ('TypeError',)
                elif len(want[a]) != len(want[b]):
                    bad = True
    e = attempt(o.check_input_attributes)
    r = compare('model', e, bad, kinds)
    return r or (None if bad else untouched('model', o, want))


if __name__ == '__main__':
    main()
