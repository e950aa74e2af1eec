"""C31: colours, grid index maps, option dictionaries, styles and depth axes of the plotting helpers."""
import itertools
from speclib import *
from dv import interp as ip
from dv import nplib
from dv.interp import Builtin, LList, Namespace, PDict, PyExc, Unsupported

suite = Suite('C31')
suite.num = ['num_plot']
OD = 'geotecha.plotting.one_d.'
suite.assumptions = ['dict(), dict.update, isinstance(x, dict) and itertools.cycle behave as documented', 'matplotlib draws what it is given']
suite.bounded = ['dictionaries with up to two keys each, up to three positional items, lists of up to three objects, styles from lists of up to three entries',
                 'grids of one, two and three dimensions (any sizes)']
one, Z = num(1), num(0)


def exact(V, go, ok, tname='ValueError'):
    """go succeeds exactly when ok"""
    def run():
        try:
            r = go()
        except PyExc as e:
            V.holds('refused only when out of range', lnot(ok))
            V.check('the documented error', e.tname == tname)
            return
        V.holds('accepted only when in range', ok)
        return r
    return run


def colours(name, n, expect, scale):
    @suite.ob('%s of %s%s' % (name[4:], {3: 'rgb', 4: 'rgba'}[n], '' if scale == 1 else ' (0 to 255)'), OD + name)
    def f(V):
        c = [V.real(k) for k in 'r g b a'.split()[:n]]
        k, k2 = V.real('factor'), V.real('other')
        t = V.real('t')
        ok = land(le(Z, k), le(k, one))
        top = num(scale)
        kw = {} if scale == 1 else {'scaled': False}

        def at(k):
            r = V.call(OD + name, tuple(c), factor=k, **kw)
            V.check('as many values as given', isinstance(r, tuple) and len(r) == n)
            return r

        def go():
            r = exact(V, lambda: at(k), ok)()
            if r is None:
                return
            for j in range(3):
                V.eq('component', r[j], expect(c[j], k, top))
                inside = [le(Z, c[j]), le(c[j], top)]
                V.F.add(tm.implies(land(*inside, ok), land(le(Z, mul(c[j], k)), le(mul(c[j], k), mul(k, top)), le(mul(c[j], k), c[j]))))     # products of bounded factors
                V.holds('within the valid range', land(le(Z, r[j]), le(r[j], top)), inside)
                V.holds('not lighter' if name == 'rgb_shade' else 'not darker', le(r[j], c[j]) if name == 'rgb_shade' else le(c[j], r[j]), inside)
            if n == 4:
                V.eq('transparency unchanged', r[3], c[3])
            lo, hi = at(num(0)), at(num(1))
            for j in range(3):
                V.eq('factor 0', lo[j], Z if name == 'rgb_shade' else c[j])
                V.eq('factor 1', hi[j], c[j] if name == 'rgb_shade' else top)
        V.run(go)


for _n, _s in itertools.product((3, 4), (1, 255)):
    colours('rgb_shade', _n, lambda c, k, top: mul(c, k), _s)
    colours('rgb_tint', _n, lambda c, k, top: add(c, mul(k, sub(top, c))), _s)


# ---- option dictionaries
KEYS = [(), ('a',), ('a', 'b')], [(), ('b',), ('b', 'c')]


@suite.ob('updated copy of a dictionary', OD + 'copy_dict')
def copies(V):
    def go():
        for ka, kb in itertools.product(*KEYS):
            a, b = PDict({k: var('src_' + k) for k in ka}), PDict({k: var('new_' + k) for k in kb})
            r = V.call(OD + 'copy_dict', a, b)
            V.check('all keys', set(r.v) == set(ka) | set(kb))
            for k in r.v:
                V.eq('value of ' + k, r.v[k], var(('new_' if k in kb else 'src_') + k))
            V.check('a new dictionary', r is not a and r is not b)
            V.I.setitem(r, 'z', num(1))
            V.check('originals untouched', set(a.v) == set(ka) and set(b.v) == set(kb) and all(a.v[k] is var('src_' + k) for k in ka)
                    and all(b.v[k] is var('new_' + k) for k in kb))
    V.run(go)


@suite.ob('dictionaries and other items of a sequence', OD + 'split_sequence_into_dict_and_nondicts')
def split(V):
    def go():
        for pat in itertools.chain(*[itertools.product('dx', repeat=n) for n in range(4)]):
            items, want, merged = [], [], {}
            for i, p in enumerate(pat):
                if p == 'x':
                    items.append(var('item%d' % i))
                    want.append(items[-1])
                else:
                    d = {'a': var('a%d' % i), 'k%d' % i: var('k%d' % i)}
                    items.append(PDict(d))
                    merged.update(d)
            r = V.call(OD + 'split_sequence_into_dict_and_nondicts', *items)
            non, dic = r
            non = V.I.iter_concrete(non)
            V.check('other items in order', len(non) == len(want) and all(x is y for x, y in zip(non, want)))
            V.check('later dictionaries override', dic.v == merged)
            V.I.setitem(dic, 'z', num(1))
            V.check('originals untouched', all('z' not in x.v and len(x.v) == 2 for x in items if isinstance(x, PDict)))
    V.run(go)


# ---- grids
def grid(nd, steps, tr):
    @suite.ob('grid of %d dimension%s, steps %s%s' % (nd, 's' * (nd > 1), steps, ', transposed' if tr else ''), OD + 'row_major_order_reverse_map')
    def f(V):
        ns = [V.int('n%d' % d, 1) for d in range(nd)]

        def flat(ix, ns):
            r = Z
            for i, n in zip(ix, ns):
                r = add(mul(r, n), i)
            return r

        def go():
            kw = {}
            if steps is not None:
                kw['index_steps'] = steps
            if tr:
                kw['transpose'] = True
            r = nplib.toarr(V.I, V.call(OD + 'row_major_order_reverse_map', tuple(ns), **kw))
            size = one
            for n in ns:
                size = mul(size, n)
            V.check('one dimension', r.ndim == 1)
            V.length('one entry per cell', r.dims[0], size)
            ix, rng = V.idx(*ns)
            V.I.pc.extend(rng)
            k = flat(ix[::-1], ns[::-1]) if tr else flat(ix, ns)
            to = [i if s == 1 else sub(sub(n, one), i) for i, n, s in zip(ix, ns, steps or (1,) * nd)]
            V.eq('cell of an index', nplib.lift(r.at(k)), flat(to, ns))
            del V.I.pc[-len(rng):]
        V.run(go)


for _nd in (1, 2, 3):
    for _st in [None] + list(itertools.product((1, -1), repeat=_nd)):
        for _tr in (False, True):
            grid(_nd, _st, _tr)


# ---- properties and methods of several objects
def recorder(V, log, i, names):
    o = ip.Obj(ip.Cls('thing', [], {}, None))
    for n in names:
        o.d[n] = Builtin(lambda *a, n=n, **k: log.append((i, n, a, tuple(sorted(k.items())))), n)
    return o


@suite.ob('properties applied to objects', OD + 'apply_dict_to_object')
def apply_props(V):
    def go():
        log = []
        d1, d2 = PDict({'color': var('c1'), 'marker': var('m1'), 'other': var('o1')}), PDict({'marker': var('m2')})
        th = [recorder(V, log, i, ['set_color', 'set_marker', 'set_size']) for i in range(3)]
        V.call(OD + 'apply_dict_to_object', th[0], d1)
        V.check('single object', sorted(log) == [(0, 'set_color', (var('c1'),), ()), (0, 'set_marker', (var('m1'),), ())], repr(log))
        del log[:]
        V.call(OD + 'apply_dict_to_object', LList(th), LList([d2, None, d1]))
        V.check('each its own', sorted(log) == [(0, 'set_marker', (var('m2'),), ()), (2, 'set_color', (var('c1'),), ()), (2, 'set_marker', (var('m1'),), ())], repr(log))
        V.raises('different lengths', lambda: V.call(OD + 'apply_dict_to_object', LList(th), LList([d1])), 'ValueError')
    V.run(go)


@suite.ob('a method called on each element', OD + 'iterable_method_call')
def method_call(V):
    def go():
        x, y, z = [var(k) for k in 'xyz']

        def calls(unpack, *args):
            log = []
            th = [recorder(V, log, i, ['go', 'stay']) for i in range(3)]
            V.call(OD + 'iterable_method_call', LList(th), 'go', unpack, *args)
            return log
        c = lambda i, *a: (i, 'go', a, ())
        V.check('no argument', calls(False) == [c(0), c(1), c(2)])
        V.check('one argument', calls(False, x) == [c(i, x) for i in range(3)])
        V.check('one argument, unpacked', calls(True, (x, y)) == [c(i, x, y) for i in range(3)])
        V.check('nothing', calls(False, None) == [] and calls(True, None) == [])
        V.check('an argument each', calls(False, x, None, z) == [c(0, x), c(2, z)])
        V.check('an argument each, unpacked', calls(True, (x,), None, (y, z)) == [c(0, x), c(2, y, z)])
        V.check('fewer arguments than elements', calls(False, x, y) == [c(0, x), c(1, y)])
    V.run(go)


@suite.ob('axis labels of subplots', OD + 'xylabel_subplots')
def labels(V):
    def go():
        log = []
        fig = ip.Obj(ip.Cls('figure', [], {}, None))
        fig.d['axes'] = LList([recorder(V, log, i, ['set_xlabel', 'set_ylabel']) for i in range(3)])
        V.call(OD + 'xylabel_subplots', fig)
        V.check('no labels', log == [])
        V.call(OD + 'xylabel_subplots', fig, LList(['a', None, 'b']), LList([None, 'c']))
        V.check('labels', log == [(0, 'set_ylabel', ('a',), ()), (2, 'set_ylabel', ('b',), ()), (1, 'set_xlabel', ('c',), ())])
    V.run(go)


# ---- subplots
def plots(V):
    """stand-ins for pyplot and the figure that record what is drawn"""
    w = Namespace('world', {})
    w.log = []
    cls = ip.Cls('axes', [], {}, None)
    w.axes = []

    def axes(where, **kw):
        a = ip.Obj(cls)
        n = len(w.axes)
        w.axes.append((a, where, kw))
        for m in ('plot', 'scatter', 'invert_yaxis', 'set_xlabel', 'set_ylabel', 'set_xlim', 'set_xticks'):
            a.d[m] = Builtin(lambda *p, m=m, **k: w.log.append((n, m, p, k)), m)
        return a
    w.new = axes
    fig = ip.Obj(ip.Cls('figure', [], {}, None))
    fig.d['add_subplot'] = Builtin(axes, 'add_subplot')
    w.fig = fig
    return w


@suite.ob('subplots in a grid', OD + 'plot_data_in_grid')
def in_grid(V):
    def go():
        x, y, u, v = [var(k) for k in 'xyuv']
        d = PDict({'color': var('c')})
        d2 = PDict({'plot_type': 'scatter', 'alpha': var('al')})
        data = LList([(LList([x, y]),), (LList([x, v, d]), (u, v)), (LList([u, y, d2]),)])
        gs = LList(['cell%d' % i for i in range(6)])
        want = [(0, 'plot', (x, y), {}), (1, 'plot', (x, v), {'color': var('c')}), (1, 'plot', (u, v), {}), (2, 'scatter', (u, y), {'alpha': var('al')})]
        none = [None] * 3
        for kw, cells, sx, sy in (({}, [0, 1, 2], none, none), ({'gs_index': LList([4, 0, 5])}, [4, 0, 5], none, none),
                                  ({'sharex': LList([0])}, [0, 1, 2], [None, 0, 0], none), ({'sharey': LList([None, 0, 1])}, [0, 1, 2], none, [None, 0, 1])):
            w = plots(V)
            r = V.I.iter_concrete(V.call(OD + 'plot_data_in_grid', w.fig, data, gs, **kw))
            V.check('one subplot for each set of data', len(r) == 3 and all(p is a for p, (a, _, _) in zip(r, w.axes)))
            V.check('in its cell', [c for _, c, _ in w.axes] == ['cell%d' % i for i in cells])
            at = lambda k: None if k is None else r[k]
            V.check('shared axes', [(k.get('sharex'), k.get('sharey')) for _, _, k in w.axes] == [(at(p), at(q)) for p, q in zip(sx, sy)])
            V.check('draws the data', w.log == want, repr(w.log))
        V.check('originals untouched', set(d2.v) == {'plot_type', 'alpha'} and set(d.v) == {'color'})
    V.run(go)


# ---- styles
@suite.ob('line and marker styles', OD + 'MarkersDashesColors.__call__', OD + 'MarkersDashesColors.__init__', OD + 'MarkersDashesColors.merge_default_markers',
          OD + 'MarkersDashesColors.construct_styles')
def styles(V):
    def go():
        m = V.I.call(V.fn(OD + 'MarkersDashesColors'), [], {'markersize': var('ms')})
        g = lambda k: V.I.iter_concrete(V.I.getattr(m, k))
        mk, da, co = [g(k) for k in ('markers', 'dashes', 'colors')]
        black = V.I.getattr(m, 'color')
        for k, col in enumerate(co + [black]):
            for q in (V.I.iter_concrete(col) if not isinstance(col, str) else ()):
                V.holds('colour %s is a valid one' % k, land(le(num(0), ip.lift(q)), le(ip.lift(q), num(1))))
        V.I.call(V.I.getattr(m, 'construct_markers'), [])
        raw, base = g('markers'), V.I.getattr(m, 'default_marker').v
        V.check('default properties', base['markersize'] is var('ms') and base['color'] == black)
        V.check('markers are the defaults with their own properties', len(raw) == len(mk) > 0 and all(d.v == {**base, **r.v} for d, r in zip(mk, raw)))
        V.I.call(V.I.getattr(m, 'merge_default_markers'), [])
        for ms, ds, mc, lc in ((LList([0, 5, 31]), LList([0]), None, None), (None, LList([1, 2]), None, LList([3])), (LList([2]), None, LList([1, 0, 2]), LList([0, 1]))):
            st = V.I.iter_concrete(V.I.call(m, [ms, ds, mc, lc]))
            L = lambda l: None if l is None else V.I.iter_concrete(l)
            a, b, c, e = L(ms), L(ds), L(mc), L(lc)
            V.check('as many styles as the longest list', len(st) == max(len(l) for l in (a, b, c, e) if l))
            for i, s in enumerate(st):
                s = dict(s.v)
                w = {}
                if a is None:
                    w['marker'] = 'none'
                else:
                    w.update(mk[a[i % len(a)]].v)
                    for k in ('markeredgecolor', 'markerfacecolor'):
                        if w[k] != 'none':
                            w[k] = black if c is None else co[c[i % len(c)]]
                if b is None:
                    w['linestyle'] = 'None'
                else:
                    w['dashes'] = da[b[i % len(b)]]
                w['color'] = black if e is None else co[e[i % len(e)]]
                V.check('style', s == w, '%r %r' % (s, w))
        n0 = [dict(d.v) for d in mk]
        V.I.call(m, [LList([0]), None, LList([0]), None])
        V.check('markers untouched', n0 == [dict(d.v) for d in g('markers')])
    V.run(go)


@suite.ob('colours of the styles lightened and darkened', OD + 'MarkersDashesColors.tint_colors', OD + 'MarkersDashesColors.shade_colors')
def shades(V):
    k = V.real('factor')
    V.requires(le(Z, k), le(k, one))

    def go():
        for name in ('tint', 'shade'):
            m = V.I.call(V.fn(OD + 'MarkersDashesColors'), [], {})
            old = V.I.iter_concrete(V.I.getattr(m, 'colors'))
            V.check('colours', len(old) > 0 and all(len(c) == 3 for c in old))
            V.I.call(V.I.getattr(m, name + '_colors'), [k])
            new = V.I.iter_concrete(V.I.getattr(m, 'colors'))
            V.check('as many colours', len(new) == len(old))
            for a, b in zip(old, new):
                for x, y in zip(a, b):
                    V.eq(name, y, mul(x, k) if name == 'shade' else add(x, mul(k, sub(one, num(x)))))
    V.run(go)


# ---- figures
def figures(V):
    w = getattr(V, 'world', None)
    if w is not None:       # the module keeps its first imports: one world, emptied
        for l in (w.log, w.axes, w.lines, w.cur, w.figkw):
            del l[:]
        return w
    w = V.world = plots(V)
    I = V.I
    w.lines = []
    for m in ('max', 'min'):
        def ends(a, m=m):
            a = nplib.toarr(I, a)
            return app(m + ' of', app('array', *[nplib.lift(a.at(num(k))) for k in (0, 1)]))
        for q in (m, 'a' + m):
            I.import_mod('numpy').d[q] = Builtin(ends, q)

    def line(x, y, kw):
        o = ip.Obj(ip.Cls('line', [], {}, None))
        o.d.update(x=x, y=y)
        props = dict(kw)
        o.d['props'] = props
        for n in 'color marker label markevery markersize dashes linestyle alpha markeredgecolor markerfacecolor markeredgewidth fillstyle'.split():
            o.d['set_' + n] = Builtin(lambda v, n=n: props.__setitem__(n, v), n)
        w.lines.append(o)
        return o
    cls = ip.Cls('axes', [], {}, None)

    def axes(where=None, **kw):
        a = ip.Obj(cls)
        a.mine = []
        w.axes.append((a, where, kw))
        a.inverted = 0
        a.calls = []

        def plot(x, y, **kw):
            if isinstance(y, Arr) and y.ndim == 2 or isinstance(x, Arr) and x.ndim == 2:
                cols = [v for v in (x, y) if isinstance(v, Arr) and v.ndim == 2][0].dims[1].size
                n = plain_int(cols)
                pick = lambda v, j: nplib.getitem(I, v, (slice(None), j)) if isinstance(v, Arr) and v.ndim == 2 else v
                a.mine.extend(line(pick(x, j), pick(y, j), kw) for j in range(n))
            else:
                a.mine.append(line(x, y, kw))
        a.d['plot'] = Builtin(plot, 'plot')
        a.d['get_lines'] = Builtin(lambda: LList(list(a.mine)), 'get_lines')
        for m in 'invert_yaxis set_xlabel set_ylabel set_xlim set_xticks get_xlim get_yticklabels'.split():
            a.d[m] = Builtin(lambda *p, m=m, **k: (a.calls.append((m, p)), (num(0), var('xmax')))[1], m)
        leg = ip.Obj(ip.Cls('legend', [], {}, None))
        for m in ('set_draggable', 'get_title'):
            leg.d[m] = Builtin(lambda *p, m=m, **k: a.calls.append((m, p)), m)
        a.d['legend'] = Builtin(lambda **k: (a.calls.append(('legend', k)), leg)[1], 'legend')
        xa = ip.Obj(ip.Cls('axis', [], {}, None))
        for m in 'set_label_position tick_top set_major_locator set_minor_locator'.split():
            xa.d[m] = Builtin(lambda *p, **k: None, m)
        a.d['xaxis'] = xa
        return a
    cur = []

    def gca():
        if not cur:
            cur.append(axes())
        return cur[-1]

    def subplot(where, **kw):
        cur.append(axes(where, **kw))
        return cur[-1]
    fig = ip.Obj(ip.Cls('figure', [], {}, None))
    fig.d.update(gca=Builtin(gca, 'gca'), tight_layout=Builtin(lambda: None, 'tight_layout'), axes=None)
    w.fig = fig
    w.figkw = []
    deleg = lambda m: Builtin(lambda *p, **k: I.call(I.getattr(gca(), m), list(p), k), m)
    nothing = Builtin(lambda *p, **k: None, 'nothing')
    I.libs['matplotlib.pyplot'] = Namespace('plt', dict(figure=Builtin(lambda **k: (w.figkw.append(k), fig)[1], 'figure'), gca=Builtin(gca, 'gca'), plot=deleg('plot'),
                                         xlabel=deleg('set_xlabel'), ylabel=deleg('set_ylabel'), subplot=Builtin(subplot, 'subplot'), setp=nothing,
                                         MaxNLocator=nothing, AutoLocator=nothing))
    def gridspec(n, m=1, **kw):
        o = PDict({(i, j): 'cell%d,%d' % (i, j) for i in range(n) for j in range(m)} | {i: 'cell%d' % i for i in range(n * m)})
        return o
    I.libs['matplotlib.gridspec'] = Namespace('gridspec', dict(GridSpec=Builtin(gridspec, 'GridSpec')))
    I.libs['matplotlib'] = Namespace('mpl', dict(gridspec=I.libs['matplotlib.gridspec'], pyplot=I.libs['matplotlib.pyplot']))
    I.libs['random'] = Namespace('random', dict(seed=Builtin(lambda *a: w.log.append(('seed',) + a), 'seed'), random=Builtin(lambda: var('rnd'), 'random'),
                                                randint=Builtin(lambda a, b: app('randint', num(a), num(b)), 'randint')))
    I.libs['matplotlib.lines'] = Namespace('matplotlib.lines', dict(_mark_every_path=None))
    w.cur = cur
    return w


def plain_int(n):
    n = num(n)
    assert n.op == 'num'
    return int(n.args[0])


STYLES = [{'color': 'c0', 'marker': 'm0'}, {'color': 'c1'}]


def styled(V, w, labels=None):
    for i, l in enumerate(w.lines):
        p = l.d['props']
        V.check('style of line %d' % i, all(p.get(k) == v for k, v in STYLES[i % 2].items()))
        V.check('label of line %d' % i, p.get('label') == (labels[i] if labels else None))


def vs_depth(levels):
    @suite.ob('values against depth%s' % (' as reduced levels' if levels else ''), OD + 'plot_vs_depth')
    def f(V):
        n = V.int('n', 1)
        x, z = V.arr2('x', n, num(3)), V.arr('z', n)
        H, R = V.real('H'), V.real('RL')

        def go():
            for labels, given in itertools.product((None, ['a', 'b', 'c']), (True, False)):
                w = figures(V)
                kw = {'line_labels': LList(list(labels))} if labels else {}
                if given:
                    kw['H'] = H
                if levels:
                    kw['RLzero'] = R
                pd = PDict({'styles': LList([PDict(s) for s in STYLES]), 'xlabel': 'X'})
                r = V.call(OD + 'plot_vs_depth', x, z, prop_dict=pd, **kw)
                V.check('the figure', r is w.fig and len(w.axes) == 1 and len(w.lines) == 3)
                (i,), rng = V.idx(n)
                for j, l in enumerate(w.lines):
                    V.eq('values of line %d' % j, l.d['x'].at(i), app('x', i, num(j)), rng)
                    zz = mul(app('z', i), H) if given else app('z', i)
                    V.eq('depths of line %d' % j, l.d['y'].at(i), sub(R, zz) if levels else zz, rng)
                styled(V, w, labels)
                calls = w.axes[0][0].calls
                V.check('depth increases downwards', [c for c, _ in calls].count('invert_yaxis') == (0 if levels else 1))
                V.check('axis labels', ('set_xlabel', ('X',)) in calls and ('set_ylabel', ('RL' if levels else 'Depth, z',)) in calls)
                V.check('legend only with labels', [c for c, _ in calls].count('legend') == (1 if labels else 0))
                V.check('options untouched', set(pd.v) == {'styles', 'xlabel'})
        V.run(go)


for _l in (False, True):
    vs_depth(_l)


@suite.ob('values against time', OD + 'plot_vs_time')
def vs_time(V):
    n = V.int('n', 1)
    t, y = V.arr('t', n), V.arr2('y', n, num(3))

    def go():
        for labels, leg in ((None, True), (['a', 'b', 'c'], True), (['a', 'b', 'c'], False)):
            w = figures(V)
            pd = PDict({'styles': LList([PDict(s) for s in STYLES]), 'has_legend': leg})
            r = V.call(OD + 'plot_vs_time', t, y, **dict({'line_labels': LList(list(labels))} if labels else {}, prop_dict=pd))
            V.check('the figure', r is w.fig and len(w.axes) == 1 and len(w.lines) == 3)
            (i,), rng = V.idx(n)
            for j, l in enumerate(w.lines):
                V.eq('times of line %d' % j, l.d['x'].at(i), app('t', i), rng)
                V.eq('values of line %d' % j, l.d['y'].at(i), app('y', i, num(j)), rng)
            styled(V, w, labels)
            V.check('legend', [c for c, _ in w.axes[0][0].calls].count('legend') == (1 if labels and leg else 0))
    V.run(go)


@suite.ob('where markers are drawn', OD + 'apply_markevery_to_sequence_of_lines')
def every(V):
    def go():
        w = figures(V)
        def run(v, **kw):
            o = [ip.Obj(ip.Cls('line', [], {}, None)) for _ in range(2)]
            got = []
            for p in o:
                p.d['set_markevery'] = Builtin(got.append, 'set_markevery')
            V.call(OD + 'apply_markevery_to_sequence_of_lines', LList(o), v, **kw)
            return got
        V.check('none', run(None) == [None, None])
        V.check('every fourth', run(4, random_start=False) == [4, 4])
        r = run(4)
        V.check('random first marker among the first ones', len(r) == 2 and all(q == (app('randint', num(0), num(4)), 4) for q in r), repr(r))
        w.log[:] = []
        run(4, seed=7)
        V.check('repeatable', w.log == [('seed', 7)], repr(w.log))
        f = num(Fraction(1, 5))
        r = run(f)
        V.check('fraction of the length', all(len(q) == 2 and q[1] is f for q in r) and len(r) == 2, repr(r))
        for q in r:
            V.eq('random first marker', q[0], mul(var('rnd'), f))
        V.check('fraction of the length, no random start', run(f, random_start=False) == [f, f])
    V.run(go)


@suite.ob('saving in several formats', OD + 'save_figure')
def save(V):
    def go():
        log = []
        fig = ip.Obj(ip.Cls('figure', [], {}, None))
        fig.d['savefig'] = Builtin(lambda f, **k: log.append((f, k)), 'savefig')
        V.call(OD + 'save_figure', fig, 'name', LList(['pdf', 'png']), dpi=var('d'))
        V.check('one file for each format', log == [('name.pdf', {'format': 'pdf'}), ('name.png', {'format': 'png', 'dpi': var('d')})], repr(log))
    V.run(go)


def segments(V):
    """subdivision of a profile: known by what it is given"""
    calls = []

    def model(I, f, args, kw):
        b = I.bind(f, args, kw)
        calls.append(b)
        k = num(len(calls))
        n = app('pieces', k, sort='I')
        V.F.gen(lambda apps: [le(num(1), a) for a in apps if a.op == 'app' and a.args[0] == 'pieces'])
        return Arr([plain(n)], lambda i: app('sx', k, i)), Arr([plain(n)], lambda i: app('sy', k, i))
    V.I.contracts[PW + 'subdivide_x_y_into_segments'] = model
    return calls


def source(V, name, n):
    c = V.fn(PW + 'PolyLine')
    return V.I.call(c, [V.arr(name + 'x', n), V.arr(name + 'y', n)])


def profile(levels):
    @suite.ob('profiles side by side%s' % (' as reduced levels' if levels else ''), OD + 'plot_single_material_vs_depth')
    def f(V):
        n = V.int('n', 2)
        H, R = V.real('H'), V.real('RL')

        def go():
            w = figures(V)
            seg = segments(V)
            pl = [source(V, 'p', n), source(V, 'q', n)]
            r = V.call(OD + 'plot_single_material_vs_depth', LList(pl), LList(['a', 'b']), H=H, prop_dict=PDict({'styles': LList([PDict(s) for s in STYLES])}),
                       **({'RLzero': R} if levels else {}))
            V.check('the figure', r is w.fig and len(w.axes) == 2 and len(w.lines) == 2 and len(seg) == 2)
            V.check('side by side on one depth axis', [a[1] for a in w.axes] == ['cell0', 'cell1'] and w.axes[1][2].get('sharey') is w.axes[0][0])
            (i,), rng = V.idx(n)
            for k, nm in enumerate('pq'):
                V.eq('depths of profile %d' % k, nplib.toarr(V.I, seg[k]['x']).at(i), app(nm + 'x', i), rng)
                V.eq('values of profile %d' % k, nplib.toarr(V.I, seg[k]['y']).at(i), app(nm + 'y', i), rng)
                l = w.lines[k]
                V.check('one line in each', l in w.axes[k][0].mine)
                V.eq('drawn values', l.d['x'].at(Z), app('sy', num(k + 1), Z))
                z = mul(app('sx', num(k + 1), Z), H)
                V.eq('drawn depths', l.d['y'].at(Z), sub(R, z) if levels else z)
                V.check('style', all(l.d['props'].get(p) == v for p, v in STYLES[0].items()))
                V.check('axis label', ('set_xlabel', ('ab'[k],)) in w.axes[k][0].calls)
            V.check('depth label', ('set_ylabel', ('RL' if levels else 'Depth, z',)) in w.axes[0][0].calls)
            V.check('depth increases downwards', sum(c == 'invert_yaxis' for a in w.axes for c, _ in a[0].calls) == (0 if levels else 1))
        V.run(go)


for _l in (False, True):
    profile(_l)


def loads(levels, cyc, absent=False):
    @suite.ob('loads against time and depth%s%s%s' % (' as reduced levels' if levels else '', ', cyclic' if cyc else '', (', one fixed' if absent == 1 else ', one fixed and no range given') if absent else ''), OD + 'plot_generic_loads')
    def f(V):
        n = V.int('n', 2)
        H, R, om, ph = [V.real(k) for k in 'H RL om ph'.split()]
        lo, hi = V.real('t0'), V.real('t1')
        V.requires(lt(lo, hi), lt(Z, om))

        def go():
            w = figures(V)
            seg = segments(V)
            t, d = source(V, 't', n), source(V, 'd', n)
            first = (t, d, (om, ph) if cyc else None)
            trip = LList([LList([first]), LList([(None, d, None) if absent else (t, (V.arr('zz', n), V.arr('vv', n)), None)])])
            kw = dict(trange=(lo, hi)) if absent == 1 else {}
            r = V.call(OD + 'plot_generic_loads', trip, LList(['s', 'v']), ylabels=LList(['ya', 'yb']), H=H,
                       prop_dict=PDict({'styles': LList([PDict(s) for s in STYLES])}), **dict(kw, **({'RLzero': R} if levels else {})))
            V.check('the figure', r is w.fig and len(w.axes) == 4 and len(w.lines) == 4)
            ax = {c: a for a, c, _ in w.axes}
            V.check('a time and a depth plot for each group', set(ax) == {'cell%d,%d' % (i, j) for i in (0, 1) for j in (0, 1)})
            V.check('shared axes', all(k.get('sharex') is (ax['cell0,' + c[-1]] if c[4] == '1' else None) for _, c, k in w.axes))
            k, lv = 0, lambda z: sub(R, mul(z, H)) if levels else mul(z, H)
            (i,), rng = V.idx(n)
            for g in (0, 1):
                a, b = ax['cell%d,0' % g].mine, ax['cell%d,1' % g].mine
                V.check('one line in each plot', len(a) == len(b) == 1)
                a, b = a[0], b[0]
                k += 1
                h = seg[k - 1]
                if absent and g == 1:
                    xs, ys = [nplib.toarr(V.I, h[q]) for q in 'xy']
                    V.check('fixed load over the time range', xs.dims[0].size is num(2))
                    for j, e in enumerate((lo, hi) if absent == 1 else [app(m + ' of', app('array', app('tx', Z), app('tx', one))) for m in ('min', 'max')]):
                        V.eq('time range', xs.at(num(j)), e)
                        V.eq('zero load', ys.at(num(j)), Z)
                else:
                    V.eq('times', nplib.toarr(V.I, h['x']).at(i), app('tx', i), rng)
                    V.eq('magnitudes', nplib.toarr(V.I, h['y']).at(i), app('ty', i), rng)
                x = app('sx', num(k), Z)
                V.eq('drawn times', a.d['x'].at(Z), x)
                y = app('sy', num(k), Z)
                V.eq('drawn loads', a.d['y'].at(Z), mul(y, cos(add(mul(om, x), ph))) if cyc and g == 0 else y)
                if g == 0 or absent:
                    k += 1
                    V.eq('depths', nplib.toarr(V.I, seg[k - 1]['x']).at(i), app('dx', i), rng)
                    V.eq('factors', nplib.toarr(V.I, seg[k - 1]['y']).at(i), app('dy', i), rng)
                    V.eq('drawn depths', b.d['y'].at(Z), lv(app('sx', num(k), Z)))
                    V.eq('drawn factors', b.d['x'].at(Z), app('sy', num(k), Z))
                else:
                    V.eq('drawn depths', b.d['y'].at(i), lv(app('zz', i)), rng)
                    V.eq('drawn factors', b.d['x'].at(i), app('vv', i), rng)
                for l in (a, b):
                    V.check('style', all(l.d['props'].get(p) == v for p, v in STYLES[g].items()))
                    V.check('label', l.d['props'].get('label') == 'sv'[g] + '0')
                V.check('load label', ('set_ylabel', ('y' + 'ab'[g],)) in ax['cell%d,0' % g].calls)
                V.check('time range shown', absent != 1 or ('set_xlim', ((lo, hi),)) in ax['cell%d,0' % g].calls)
        V.run(go)


for _a in itertools.product((False, True), repeat=2):
    loads(*_a)
loads(False, False, 1)
loads(False, False, 2)
