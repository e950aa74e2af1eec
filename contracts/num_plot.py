"""Run-time evaluation of the plotting-helper contracts (C31)."""
import os
os.environ.setdefault('MPLBACKEND', 'agg')
import itertools
import tempfile
import numpy as np
import matplotlib
matplotlib.use('agg')
import matplotlib.pyplot as plt
import matplotlib.gridspec as gridspec
from dv.numh import check, close, main
import geotecha.plotting.one_d as od
from geotecha.piecewise.piecewise_linear_1d import PolyLine


def colour(rng, k):
    top = rng.choice([1, 255])
    pick = lambda: rng.choice([0.0, 1.0, rng.random()]) * top
    return {'c': [pick() for _ in range(rng.choice([3, 4]))], 'scaled': top == 1, 'factor': rng.choice([0.0, 1.0, rng.random(), rng.random(), -rng.random(), 1 + rng.random()])}


@check('C31', 'shades and tints', colour)
def colours(c, scaled, factor):
    top = 1 if scaled else 255
    for name, want in (('rgb_shade', lambda v: v * factor), ('rgb_tint', lambda v: v + factor * (top - v))):
        for arg in (list(c), tuple(c)):
            try:
                r = getattr(od, name)(arg, factor=factor, scaled=scaled)
            except ValueError:
                if 0 <= factor <= 1:
                    return '%s refused factor %r' % (name, factor)
                continue
            if not 0 <= factor <= 1:
                return '%s accepted factor %r' % (name, factor)
            if len(r) != len(c):
                return '%s: %d values' % (name, len(r))
            if close(r[:3], [want(v) for v in c[:3]], 1e-12, 1e-12):
                return '%s(%r, %r) = %r' % (name, c, factor, r)
            if list(r[3:]) != list(c[3:]):
                return '%s changed the transparency' % name
            if min(r[:3]) < -1e-12 or max(r[:3]) > top * (1 + 1e-12):
                return '%s left the valid range: %r' % (name, r)


def dicts(rng, k):
    d = lambda: {q: rng.randrange(9) for q in rng.sample('abcde', rng.randrange(4))}
    return {'items': [d() if rng.random() < 0.6 else rng.randrange(99) for _ in range(rng.randrange(6))], 'a': d(), 'b': d()}


@check('C31', 'copied and merged option dictionaries', dicts)
def copies(items, a, b):
    a0, b0 = dict(a), dict(b)
    r = od.copy_dict(a, b)
    w = dict(a0)
    w.update(b0)
    if r != w:
        return 'copy_dict(%r, %r) = %r' % (a0, b0, r)
    r['zz'] = 1
    if a != a0 or b != b0:
        return 'copy_dict changed its arguments'
    keep = [dict(i) if isinstance(i, dict) else i for i in items]
    non, dic = od.split_sequence_into_dict_and_nondicts(*items)
    w = {}
    for i in keep:
        if isinstance(i, dict):
            w.update(i)
    if list(non) != [i for i in keep if not isinstance(i, dict)] or dic != w:
        return 'split of %r: %r %r' % (keep, non, dic)
    dic['zz'] = 1
    if items != keep:
        return 'split changed its arguments'


def cells(rng, k):
    nd = rng.randint(1, 4)
    return {'shape': [rng.randint(1, 5) for _ in range(nd)], 'steps': rng.choice([None, [rng.choice([1, -1]) for _ in range(nd)]]), 'transpose': rng.random() < 0.5}


@check('C31', 'grid index maps', cells)
def grid(shape, steps, transpose):
    kw = {} if steps is None else {'index_steps': steps}
    r = np.asarray(od.row_major_order_reverse_map(tuple(shape), transpose=transpose, **kw))
    n = int(np.prod(shape))
    if r.shape != (n,) or sorted(r.tolist()) != list(range(n)):
        return 'not every cell exactly once: %r' % (r.tolist(),)
    flat = {}
    for ix in itertools.product(*[range(s) for s in shape]):
        flat[ix] = len(flat)
    order = sorted(flat, key=lambda ix: ix[::-1]) if transpose else list(flat)
    st = steps or [1] * len(shape)
    for k, ix in enumerate(order):
        to = tuple(i if s == 1 else m - 1 - i for i, m, s in zip(ix, shape, st))
        if r[k] != flat[to]:
            return 'index %d: %d, expected %d' % (k, r[k], flat[to])


class Thing(object):
    def __init__(self):
        self.log = []

    def set_color(self, v):
        self.log.append(('color', v))

    def set_size(self, v):
        self.log.append(('size', v))

    def go(self, *a):
        self.log.append(a)


def objs(rng, k):
    n = rng.randint(1, 4)
    d = lambda: {q: rng.randrange(9) for q in rng.sample(['color', 'size', 'other'], rng.randrange(4))}
    return {'n': n, 'dics': [rng.choice([None, d(), d()]) for _ in range(n)], 'args': [rng.choice([None, rng.randrange(9)]) for _ in range(rng.randint(0, n))], 'unpack': rng.random() < 0.5}


@check('C31', 'properties and methods of several objects', objs)
def several(n, dics, args, unpack):
    th = [Thing() for _ in range(n)]
    od.apply_dict_to_object(th, dics)
    for t, d in zip(th, dics):
        if sorted(t.log) != sorted((k, v) for k, v in (d or {}).items() if k != 'other'):
            return 'apply_dict_to_object: %r for %r' % (t.log, d)
    if n > 1:
        try:
            od.apply_dict_to_object(th, dics[:-1])
            return 'lists of different lengths accepted'
        except ValueError:
            pass
    th = [Thing() for _ in range(n)]
    od.iterable_method_call(th, 'go', unpack, *[(a, 7) if unpack and a is not None else a for a in args])
    for i, t in enumerate(th):
        if not args:
            w = [()]
        else:
            a = args[0] if len(args) == 1 else (args[i] if i < len(args) else None)
            w = [] if a is None else [(a, 7) if unpack else (a,)]
        if t.log != w:
            return 'element %d called with %r, expected %r' % (i, t.log, w)


def stl(rng, k):
    f = lambda lo, hi: rng.choice([None, [rng.randint(lo, hi) for _ in range(rng.randint(1, 5))]])
    return {'m': f(0, 31), 'd': f(0, 5), 'mc': f(0, 5), 'lc': f(0, 5), 'factor': rng.random(), 'black': rng.random() < 0.5}


@check('C31', 'styles of lines and markers', stl)
def styles(m, d, mc, lc, factor, black):
    if not any((m, d)):
        return
    c = od.MarkersDashesColors(markersize=3, **({'color': (1, 0, 0)} if black else {}))
    mk, da, co = [dict(v) for v in c.markers], list(c.dashes), list(c.colors)
    base = c.color
    if len(mk) != 32 or any(v['markersize'] != 3 for v in mk):
        return 'markers'
    raw = od.MarkersDashesColors()
    raw.construct_markers()
    for a, b in zip(raw.markers, mk):
        if any(b[k] != v for k, v in a.items()):
            return 'a marker lost its own properties'
    st = c(m, d, mc, lc)
    if len(st) != max(len(l) for l in (m, d, mc, lc) if l):
        return '%d styles' % len(st)
    for i, s in enumerate(st):
        w = {}
        if m is None:
            w['marker'] = 'none'
        else:
            w.update(mk[m[i % len(m)]])
            for k in ('markeredgecolor', 'markerfacecolor'):
                if w[k] != 'none':
                    w[k] = base if mc is None else co[mc[i % len(mc)]]
        if d is None:
            w['linestyle'] = 'None'
        else:
            w['dashes'] = da[d[i % len(d)]]
        w['color'] = base if lc is None else co[lc[i % len(lc)]]
        if dict(s) != w:
            return 'style %d is %r, expected %r' % (i, s, w)
    if [dict(v) for v in c.markers] != mk:
        return 'the markers changed'
    for name, f in (('shade', lambda v: v * factor), ('tint', lambda v: v + factor * (1 - v))):
        c = od.MarkersDashesColors()
        old = [tuple(v) for v in c.colors]
        getattr(c, name + '_colors')(factor)
        if len(c.colors) != len(old) or close(c.colors, [[f(v) for v in q] for q in old], 1e-12, 1e-12):
            return '%s_colors' % name


def ingrid(rng, k):
    n = rng.randint(1, 4)
    sh = lambda: rng.choice([None, [0], [0] if n == 1 else [None] + [rng.choice([None, rng.randrange(i + 1)]) for i in range(n - 1)]])
    return {'n': n, 'ix': rng.choice([None, rng.sample(range(6), n)]), 'sx': sh(), 'sy': sh(), 'sets': [rng.randint(1, 3) for _ in range(n)], 'kind': [rng.choice(['plot', 'scatter', None]) for _ in range(n)]}


@check('C31', 'subplots in a grid', ingrid)
def in_grid(n, ix, sx, sy, sets, kind):
    fig = plt.figure()
    try:
        gs = gridspec.GridSpec(2, 3)
        data = []
        opts = []
        for i in range(n):
            rows = []
            for j in range(sets[i]):
                o = {'alpha': 0.5, 'label': 'l%d%d' % (i, j)}
                if kind[i]:
                    o['plot_type'] = kind[i]
                opts.append((o, dict(o)))
                rows.append((np.array([1.0, 2, 3]) + i, np.array([0.0, 1, j]), o))
            data.append(rows)
        ax = od.plot_data_in_grid(fig, data, gs, gs_index=ix, sharex=sx, sharey=sy)
        if len(ax) != n or list(fig.axes) != list(ax):
            return 'one subplot for each set of data'
        for i, a in enumerate(ax):
            if a.get_subplotspec().num1 != (i if ix is None else ix[i]):
                return 'subplot %d is in cell %d' % (i, a.get_subplotspec().num1)
            for s, g in ((sx, a.get_shared_x_axes()), (sy, a.get_shared_y_axes())):
                s = [None] + s * (n - 1) if s == [0] else s
                if s is not None and s[i] is not None and not g.joined(a, ax[s[i]]):
                    return 'subplot %d does not share the axis of subplot %d' % (i, s[i])
            if sx is None and len(a.get_shared_x_axes().get_siblings(a)) > 1:
                return 'subplot %d shares an axis without being asked' % i
            got = [np.column_stack(l.get_data()) for l in a.get_lines()] if kind[i] != 'scatter' else [np.asarray(c.get_offsets()) for c in a.collections]
            if len(got) != sets[i]:
                return 'subplot %d draws %d sets' % (i, len(got))
            for j, g in enumerate(got):
                if close(g, np.column_stack(data[i][j][:2]), 1e-12, 1e-12):
                    return 'subplot %d draws other data' % i
        if any(o != c for o, c in opts):
            return 'the options changed'
    finally:
        plt.close('all')


def lined(rng, k):
    n = rng.randint(1, 5)
    nl = rng.choice([0, 1, 2, 3, 5])
    return {'z': sorted(rng.random() for _ in range(n)), 'x': [[rng.uniform(-3, 3) for _ in range(max(nl, 1))] for _ in range(n)] if nl else [rng.uniform(-3, 3) for _ in range(n)],
            'H': rng.choice([None, rng.uniform(0.5, 20)]), 'RL': rng.choice([None, 0.0, rng.uniform(-5, 5)]), 'labels': rng.random() < 0.5, 'leg': rng.random() < 0.7, 'sty': rng.choice([0, 1, 2, 7])}


@check('C31', 'values against depth and time', lined)
def depth(z, x, H, RL, labels, leg, sty):
    z, x = np.array(z), np.array(x)
    nl = 1 if x.ndim == 1 else x.shape[1]
    lab = ['line%d' % i for i in range(nl)] if labels else None
    st = [{'color': (0.1 * i, 0.2, 0.3), 'linewidth': 1 + i, 'marker': 'so^'[i % 3]} for i in range(sty)]
    pd = {'has_legend': leg, 'xlabel': 'XX'}
    if sty:
        pd['styles'] = st
    pd0, st0 = dict(pd), [dict(s) for s in st]
    x0, z0 = x.copy(), z.copy()
    try:
        for time in (False, True):
            kw = {}
            if time:
                fig = od.plot_vs_time(z, x, line_labels=lab, prop_dict=pd)
                wy = None
            else:
                if H is not None:
                    kw['H'] = H
                if RL is not None:
                    kw['RLzero'] = RL
                fig = od.plot_vs_depth(x, z, line_labels=lab, prop_dict=pd, **kw)
                wy = z * (1 if H is None else H)
                if RL is not None:
                    wy = RL - wy
            if len(fig.axes) != 1:
                return 'one plot'
            a = fig.axes[0]
            ls = a.get_lines()
            if len(ls) != nl:
                return '%d lines for %d sets' % (len(ls), nl)
            for j, l in enumerate(ls):
                col = x if x.ndim == 1 else x[:, j]
                gx, gy = l.get_data()
                if close(gx, z if time else col, 1e-12, 1e-12) or close(gy, col if time else wy, 1e-12, 1e-12):
                    return 'line %d draws other values (%s)' % (j, 'time' if time else 'depth')
                if lab and l.get_label() != lab[j]:
                    return 'label of line %d: %r' % (j, l.get_label())
                if sty:
                    s = st[j % sty]
                    if tuple(l.get_color()) != tuple(s['color']) or l.get_linewidth() != s['linewidth'] or l.get_marker() != s['marker']:
                        return 'style of line %d' % j
            if not time:
                lo, hi = a.get_ylim()
                if (lo > hi) != (RL is None):
                    return 'direction of the depth axis'
                if a.get_ylabel() != ('Depth, z' if RL is None else 'RL') or a.get_xlabel() != 'XX':
                    return 'axis labels %r' % ((a.get_xlabel(), a.get_ylabel()),)
            t = a.get_legend()
            if (t is not None) != bool(lab and leg):
                return 'legend'
            if t is not None and [q.get_text() for q in t.get_texts()] != lab:
                return 'legend texts'
        if pd != pd0 or st != st0 or not np.array_equal(x, x0) or not np.array_equal(z, z0):
            return 'the arguments changed'
    finally:
        plt.close('all')


def poly(rng, n=None):
    n = n or rng.randint(2, 4)
    xs = sorted(rng.uniform(0, 1) for _ in range(n - 2))
    return [[0.0] + xs + [1.0], [rng.uniform(-2, 5) for _ in range(n)]]


def prof(rng, k):
    return {'pl': [poly(rng) for _ in range(rng.randint(1, 3))], 'H': rng.choice([1.0, rng.uniform(0.5, 9)]), 'RL': rng.choice([None, 0.0, rng.uniform(-4, 4)])}


def on_line(px, py, x, y):
    return np.allclose(np.interp(x, px, py), y, 1e-9, 1e-9)


@check('C31', 'profiles side by side', prof)
def profiles(pl, H, RL):
    try:
        lab = ['p%d' % i for i in range(len(pl))]
        st = [{'color': (0.1, 0.5, 0.1)}, {'color': (0.9, 0.1, 0.2)}]
        fig = od.plot_single_material_vs_depth([PolyLine(*p) for p in pl], lab, H=H, RLzero=RL, prop_dict={'styles': st})
        if len(fig.axes) != len(pl):
            return '%d plots' % len(fig.axes)
        a0 = fig.axes[0]
        lev = lambda z: np.asarray(z) * H if RL is None else RL - np.asarray(z) * H
        for i, (a, p) in enumerate(zip(fig.axes, pl)):
            if len(a.get_lines()) != 1:
                return 'one line in each plot'
            x, y = [np.asarray(v) for v in a.get_lines()[0].get_data()]
            z = y / H if RL is None else (RL - y) / H
            if not on_line(p[0], p[1], z, x) or close([z.min(), z.max()], [0, 1], 1e-9, 1e-9) or not all(np.abs(z - q).min() < 1e-9 for q in p[0]):
                return 'profile %d draws other data' % i
            if a.get_xlabel() != lab[i]:
                return 'label %r' % a.get_xlabel()
            if i and not a.get_shared_y_axes().joined(a, a0):
                return 'profile %d has its own depth axis' % i
            if tuple(a.get_lines()[0].get_color()) != st[0]['color']:
                return 'style'
        if a0.get_ylabel() != ('Depth, z' if RL is None else 'RL'):
            return 'depth label'
        lo, hi = a0.get_ylim()
        if (lo > hi) != (RL is None):
            return 'direction of the depth axis'
    finally:
        plt.close('all')


def loadset(rng, k):
    def one():
        return {'t': rng.choice(['none', 'poly', 'poly', 'pair']), 'tv': [[0.0, rng.uniform(0.5, 2), rng.uniform(3, 5)], [rng.uniform(0, 5) for _ in range(3)]], 'd': rng.choice(['poly', 'pts']), 'dv': poly(rng),
                'om': rng.choice([None, [rng.uniform(0.5, 3), rng.uniform(-1, 1)]])}
    return {'groups': [[one() for _ in range(rng.randint(1, 3))] for _ in range(rng.randint(1, 3))], 'trange': rng.choice([None, [rng.uniform(-1, 0), rng.uniform(6, 9)]]), 'H': rng.choice([1.0, rng.uniform(0.5, 9)]),
            'RL': rng.choice([None, rng.uniform(-4, 4)]), 'leg': rng.random() < 0.7, 'sty': rng.choice([None, 2, 3])}


@check('C31', 'loads against time and depth', loadset)
def loads(groups, trange, H, RL, leg, sty):
    if trange is None and all(o['t'] == 'none' for g in groups for o in g):
        groups[0][0]['t'] = 'poly'
    try:
        def trip(o):
            t = {'none': None, 'poly': PolyLine(*o['tv']), 'pair': tuple(map(tuple, o['tv']))}[o['t']]
            d = PolyLine(*o['dv']) if o['d'] == 'poly' else tuple(map(np.array, o['dv']))
            return (t, d, None if o['om'] is None or o['t'] == 'none' else tuple(o['om']))
        tr = [[trip(o) for o in g] for g in groups]
        names = ['n%d_' % i for i in range(len(groups))]
        yl = ['lab%d' % i for i in range(len(groups))]
        st = [{'color': (0.25 * i, 0.5, 0.1)} for i in range(sty or 0)]
        pd = {'has_legend': leg}
        if st:
            pd['styles'] = st
        fig = od.plot_generic_loads(tr, names, ylabels=yl, trange=trange, H=H, RLzero=RL, prop_dict=pd)
        axs = fig.axes
        if len(axs) != 2 * len(groups):
            return 'a time and a depth plot for each group'
        k = 0
        T = [v for g in groups for o in g if o['t'] != 'none' for v in o['tv'][0]]
        t0, t1 = trange or (min(T), max(T))
        for i, g in enumerate(groups):
            a, b = axs[2 * i], axs[2 * i + 1]
            la, lb = a.get_lines(), b.get_lines()
            if len(la) != len(g) or len(lb) != len(g):
                return 'one line in each plot for each load'
            for j, (o, p, q) in enumerate(zip(g, la, lb)):
                x, y = [np.asarray(v) for v in p.get_data()]
                tv = [[t0, t1], [0.0, 0.0]] if o['t'] == 'none' else o['tv']
                w = np.interp(x, *tv)
                if o['om'] is not None and o['t'] != 'none':
                    w = w * np.cos(o['om'][0] * x + o['om'][1])
                if close(y, w, 1e-9, 1e-9) or close([x.min(), x.max()], [tv[0][0], tv[0][-1]], 1e-9, 1e-9):
                    return 'load %d of group %d draws other values' % (j, i)
                f, z = [np.asarray(v) for v in q.get_data()]
                z = z / H if RL is None else (RL - z) / H
                if close(f, np.interp(z, *o['dv']), 1e-7, 1e-7) or close([z.min(), z.max()], [0, 1], 1e-9, 1e-9):
                    return 'depth factors %d of group %d draw other values' % (j, i)
                if p.get_label() != names[i] + str(j):
                    return 'label %r' % p.get_label()
                if st and (tuple(p.get_color()) != st[k % sty]['color'] or tuple(q.get_color()) != st[k % sty]['color']):
                    return 'style of load %d of group %d' % (j, i)
                k += 1
            if a.get_ylabel() != yl[i]:
                return 'label of group %d: %r' % (i, a.get_ylabel())
            if trange and close(a.get_xlim(), trange, 1e-12, 1e-12):
                return 'time range'
            if (a.get_legend() is not None) != leg:
                return 'legend'
    finally:
        plt.close('all')


def mark(rng, k):
    return {'n': rng.randint(1, 4), 'every': rng.choice([None, rng.randint(1, 9), rng.uniform(0.05, 0.5)]), 'rnd': rng.random() < 0.6, 'seed': rng.choice([None, 3])}


@check('C31', 'where markers are drawn', mark)
def markers(n, every, rnd, seed):
    ls = [matplotlib.lines.Line2D([0, 1], [0, 1]) for _ in range(n)]
    out = []
    for _ in range(2):
        od.apply_markevery_to_sequence_of_lines(ls, markevery=every, random_start=rnd, seed=seed)
        out.append([l.get_markevery() for l in ls])
        for v in out[-1]:
            if every is None or not rnd:
                if v != every:
                    return 'every %r: %r' % (every, v)
            elif v[1] != every or not 0 <= v[0] <= every:
                return 'every %r: %r' % (every, v)
    if seed is not None and out[0] != out[1]:
        return 'not repeatable'


def names(rng, k):
    return {'ext': rng.sample(['pdf', 'png', 'svg'], rng.randint(1, 3)), 'xl': rng.choice([None, ['a', None], ['b', 'c', 'd']]), 'yl': rng.choice([None, ['e', None, 'f']])}


@check('C31', 'saved files and subplot labels', names)
def save(ext, xl, yl):
    class Fig(object):
        log = []

        def savefig(self, f, **k):
            self.log.append((f, k.get('format'), k.get('dpi')))
    f = Fig()
    f.log = []
    od.save_figure(f, 'nm', list(ext), dpi=7)
    if [l[0] for l in f.log] != ['nm.' + e for e in ext] or any(d not in (None, 7) for _, _, d in f.log):
        return 'files %r' % f.log
    fig, _ = plt.subplots(1, 3)
    try:
        od.xylabel_subplots(fig, yl, xl)
        for i, a in enumerate(fig.axes):
            g = lambda l: '' if l is None or i >= len(l) or l[i] is None else l[i]
            if (a.get_xlabel(), a.get_ylabel()) != (g(xl), g(yl)):
                return 'labels of subplot %d' % i
    finally:
        plt.close('all')


if __name__ == '__main__':
    main()
