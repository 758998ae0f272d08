"""C27: plots show the requested samples; bound to spec/Plots.tla"""
import copy
import os
import random
import shutil
import warnings

import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
import numpy as np
from matplotlib.colors import to_rgb

from getdist import MCSamples, plots, chains as gd_chains
from getdist.paramnames import ParamNames
from harness.core import Check, behaviours
from harness.p_ini import pmap, sample, tmpdir, quiet

gd_chains.print_load_details = False
np.seterr(all='ignore')
NAMES = [['p0', 'p1', 'p2', 'p3'], ['p2', 'p0', 'p3', 'p1'], ['p1', 'p0', 'p2'], ['p3', 'p1', 'p0', 'p2'], ['p0', 'q3', 'p1']]
COLS = ['red', 'green', 'blue', 'm', 'c', 'orange', '#123456', 'grey']
BASE = dict(kind='', sets=[0], upper=[], px=[], py=[], pairs=[], nx=0, ren=[], cols=[], ls=[], labels=[], order=[], mx=[], my=[],
            lims=[], title=False, norm=False, fill=False, args='')
LOW = 9.2        # hard lower bound of p1 in set 3


def values(s):
    r = np.random.default_rng(17 + s)
    n = 400
    x = {}
    for p in NAMES[s]:
        k = int(p[1:])
        x[p] = 10 * k + 0.7 * s + (1 + 0.1 * s) * r.normal(size=n)
    if s == 3:
        x['p1'] = LOW + np.abs(x['p1'] - LOW)
    x['p0'] = x['p0'] + 0.4 * (x['p1'] - 10) * (-1) ** s
    return np.stack([x[p] for p in NAMES[s]], 1), r.integers(1, 4, n).astype(float)


def make_set(s):
    x, w = values(s)
    return MCSamples(samples=x, weights=w, loglikes=np.sum((x - x.mean(0)) ** 2, 1) / 2, names=NAMES[s],
                     labels=['P%d_{%s}' % (s, p) for p in NAMES[s]], label='set %d' % s,
                     ranges={'p1': [LOW, None]} if s == 3 else None, settings={'ignore_rows': 0})


_ref = {}


def ref_set(s):
    if ('set', s) not in _ref:
        with quiet():
            _ref['set', s] = make_set(s)
    return _ref['set', s]


def ref1(s, p):
    if (s, p) not in _ref:
        d = ref_set(s).get1DDensityGridData(p)
        _ref[s, p] = (d.x.copy(), d.P / d.P.max())
    return _ref[s, p]


def ref2(s, p, r):
    if (s, p, r) not in _ref:
        d = ref_set(s).get2DDensityGridData(p, r, num_plot_contours=2)
        d.normalize('max')
        _ref[s, p, r] = d
    return _ref[s, p, r]


def title_of(s, p):
    k = ('title', s, p)
    if k not in _ref:
        _ref[k] = '$' + ref_set(s).getInlineLatex(p, limit=1) + '$'
    return _ref[k]


def rgb(c):
    return '%d,%d,%d' % tuple(int(round(255 * v)) for v in to_rgb(c))


def ext(v):
    return [int(np.floor(1000 * np.min(v))), int(np.ceil(1000 * np.max(v)))]


def find1(x, y):
    y = np.asarray(y)
    m = float(np.max(y))
    for s in range(len(NAMES)):
        for p in NAMES[s]:
            rx, rp = ref1(s, p)
            if len(rx) == len(x) and np.allclose(rx, x, atol=2e-3) and np.allclose(rp, y / m, atol=5e-3):
                return s, p, x[rp > 0.02], m
    return -1, '', np.asarray(x), m


def find2(paths):
    """(set, x parameter, y parameter, levels) whose contour it is"""
    v = np.vstack([p.vertices for p in paths if len(p.vertices)])
    v = v[np.isfinite(v).all(1)]
    cen = (v.min(0) + v.max(0)) / 2
    for s in range(len(NAMES)):
        for p in NAMES[s]:
            if abs(cen[0] - 10 * int(p[1:])) > 5:
                continue
            for r in NAMES[s]:
                if r == p or abs(cen[1] - 10 * int(r[1:])) > 5:
                    continue
                d = ref2(s, p, r)
                if not (d.x[0] - 0.02 <= v[:, 0].min() and v[:, 0].max() <= d.x[-1] + 0.02 and d.y[0] - 0.02 <= v[:, 1].min()
                        and v[:, 1].max() <= d.y[-1] + 0.02):
                    continue
                val = d.spl.ev(v[:, 0], v[:, 1]) if hasattr(d, 'spl') and d.spl is not None else np.array(
                    [float(np.ravel(d.Prob(a, b))[0]) for a, b in v])
                ex, ey = (d.x[-1] - d.x[0]) * 1e-3, (d.y[-1] - d.y[0]) * 1e-3
                edge = (v[:, 0] < d.x[0] + ex) | (v[:, 0] > d.x[-1] - ex) | (v[:, 1] < d.y[0] + ey) | (v[:, 1] > d.y[-1] - ey)
                lev = sorted(d.contours, reverse=True)        # inner first
                near = [np.abs(val - l) < 0.02 for l in lev]
                if np.mean(near[0] | near[1] | edge) > 0.99:
                    got = [k + 1 for k in range(2) if np.mean(near[k] & ~edge) > 0.2]
                    return s, p, r, got, v
    return -1, '', '', [], v


def draws_of(ax):
    """what is drawn in a panel: densities, contours, points; markers"""
    out, xm, ym = [], [], []
    for l in ax.lines:
        x, y = np.asarray(l.get_xdata(), dtype=float), np.asarray(l.get_ydata(), dtype=float)
        if len(x) == 2:
            if x[0] == x[1]:
                xm.append(int(round(x[0])) if abs(x[0] - round(x[0])) < 1e-9 else -99999)
            else:
                ym.append(int(round(y[0])) if abs(y[0] - round(y[0])) < 1e-9 else -99999)
            continue
        s, p, xr, m = find1(x, y)
        area = float(np.trapezoid(y, x)) if hasattr(np, 'trapezoid') else float(np.trapz(y, x))
        out.append(dict(s=s, x=p, y='', col=rgb(l.get_color()), ls=l.get_linestyle(), kind='line', xe=ext(xr), ye=[0, 0],
                        nrm='max' if abs(m - 1) < 2e-3 else 'int' if abs(area - 1) < 2e-3 else 'other'))
    sets = {}
    order = []
    for c in ax.collections:
        off = np.asarray(c.get_offsets())
        if c.get_array() is not None or len(off) > 1 or len(off) == 1 and np.any(off != 0):
            out.append(points_of(c, off))
            continue
        paths = [p for p in c.get_paths() if len(p.vertices)]
        if not paths:
            continue
        s, p, r, lev, v = find2(paths)
        fill = len(c.get_facecolor()) > 0
        k = (s, p, r)
        if k not in sets:
            sets[k] = dict(line=[], fill=[], v=[], lcol=set(), ls=set(), fcol=None)
            order.append(k)
        t = sets[k]
        t['v'].append(v)
        if fill:
            t['fill'].append(tuple(lev))
            t['fcol'] = rgb(c.get_facecolor()[-1][:3])      # of the last (innermost) band
        else:
            t['line'] += lev
            t['lcol'].add(rgb(c.get_edgecolor()[0][:3]))
            st = c.get_linestyle()[0]
            t['ls'].add('-' if st[1] is None else '--' if len(st[1]) == 2 else '-.' if len(st[1]) == 4 else '?')
    for k in order:
        t = sets[k]
        s = k[0]
        v = np.vstack(t['v'])
        if t['fill']:
            if not (sorted(t['fill']) == [(1,), (1, 2)] or sorted(t['fill']) == [(1,), (2,)]):
                s = -2
            out.append(dict(s=s, x=k[1], y=k[2], col=t['fcol'], ls='', kind='fill', xe=ext(v[:, 0]), ye=ext(v[:, 1]), nrm=''))
        else:
            if sorted(t['line']) != [1, 2] or len(t['lcol']) != 1:
                s = -2
            out.append(dict(s=s, x=k[1], y=k[2], col=min(t['lcol']), ls=min(t['ls']), kind='line', xe=ext(v[:, 0]),
                            ye=ext(v[:, 1]), nrm=''))
    return out, xm, ym


def points_of(c, off):
    z = c.get_array()
    col = rgb(c.get_facecolor()[0][:3])
    for s in range(len(NAMES)):
        rows = ref_set(s).samples
        if len(off) > len(rows):
            continue
        for j, p in enumerate(NAMES[s]):
            hit = np.searchsorted(np.sort(rows[:, j]), off[:, 0])
            if not np.all(np.isclose(np.sort(rows[:, j])[np.clip(hit, 0, len(rows) - 1)], off[:, 0], atol=1e-4) | np.isclose(
                    np.sort(rows[:, j])[np.clip(hit - 1, 0, len(rows) - 1)], off[:, 0], atol=1e-4)):
                continue
            for k, r in enumerate(NAMES[s]):
                if r == p:
                    continue
                ix = [int(np.argmin(np.abs(rows[:, j] - a) + np.abs(rows[:, k] - b))) for a, b in off]
                if not np.allclose(rows[ix][:, [j, k]], off, atol=1e-4):
                    continue
                zn = ''
                if z is not None:
                    zs = [q for m, q in enumerate(NAMES[s]) if np.allclose(rows[ix, m], z, atol=1e-4)]
                    zn = zs[0] if zs else '?'
                return dict(s=s, x=p, y=r, z=zn, col=col, ls='', kind='points', xe=ext(off[:, 0]), ye=ext(off[:, 1]), nrm='')
    return dict(s=-1, x='', y='', z='', col=col, ls='', kind='points', xe=ext(off[:, 0]), ye=ext(off[:, 1]), nrm='')


def observe(g, one=False):
    at, bars = {}, []
    for ax in g.fig.axes:
        if ax.get_label() == '<colorbar>' or getattr(ax, '_colorbar', None) is not None:
            bars.append(ax.get_ylabel() or ax.get_xlabel())
            continue
        sp = ax.get_subplotspec()
        if sp is None:
            continue
        top = sp.get_topmost_subplotspec()
        at.setdefault((top.rowspan.start, top.colspan.start), []).append(ax)
    panels = []
    for (r, c), axs in sorted(at.items()):
        full = [a for a in axs if a.lines or a.collections] or axs[:1]
        ax = full[0]
        dr, xm, ym = draws_of(ax)
        t = ax.get_title()
        tt = []
        if t:
            tt = next(([s, p] for s in range(len(NAMES)) for p in NAMES[s] if title_of(s, p) == t), [-1, ''])
        panels.append(dict(r=r, c=c, xl=ax.get_xlabel(), yl=ax.get_ylabel(), draws=dr if len(full) == 1 else [], xm=xm, ym=ym,
                           xlim=ext(ax.get_xlim()), ylim=ext(ax.get_ylim()), title=tt))
    leg = []
    legs = list(g.fig.legends) + [a.get_legend() for a in g.fig.axes if a.get_legend() is not None]
    for l in legs:
        hs = l.legend_handles if hasattr(l, 'legend_handles') else l.legendHandles
        for t, h in zip(l.get_texts(), [h for h in hs if h is not None]):
            line = hasattr(h, 'get_linestyle') and hasattr(h, 'get_color')
            leg.append(dict(label=t.get_text(), col=rgb(h.get_color() if line else h.get_facecolor()[:3]),
                            ls=h.get_linestyle() if line else ''))
    ncol = max(k[1] for k in at) + 1 if at else 1
    return dict(err='', nc=ncol, panels=panels, legend=leg, bars=bars)


def listed(ms, names, rng, dictonly=False):
    """markers as a dictionary by name, or (when possible) as a list by position"""
    d = {m[0]: m[1] for m in ms}
    if dictonly or rng.random() < 0.5:
        return d
    return [d.get(p) for p in names]


def run_plot(g, sets, q, rng):
    """makes the plot of request q; returns the observation"""
    roots = [sets[s] for s in q['sets']]
    kw = {}
    cols = list(q['cols'])
    if q['labels']:
        kw['legend_labels'] = list(q['labels'])
    if q['order']:
        n = len(q['sets']) + len([u for u in q['upper'] if u not in q['sets']])
        kw['label_order'] = -1 if q['order'] == list(reversed(range(n))) and rng.random() < 0.5 else list(q['order'])
    raw = [q['rawcols'][k] for k in range(len(cols))]
    watch = []

    def give(name, v):
        kw[name] = v
        watch.append((v, copy.deepcopy(v)))
    try:
        with warnings.catch_warnings(), quiet():
            warnings.simplefilter('ignore')
            nc = 0
            if q['kind'] == '1d':
                if raw:
                    give('colors', raw)
                if q['ls']:
                    give('ls', list(q['ls']))
                if q['args']:
                    give('line_args', [{'lw': 2}])
                if q['nx']:
                    kw['nx'] = q['nx']
                if q['ren']:
                    give('param_renames', {a: b for a, b in q['ren']})
                if q['mx']:
                    kw['markers'] = listed(q['mx'], q['px'], rng)
                if q['lims']:
                    kw['xlims'] = [[l[1] / 1000, l[2] / 1000] for l in q['lims']]
                if q['title']:
                    kw['title_limit'] = 1
                if q['norm']:
                    kw['normalized'] = True
                px = list(q['px'])
                if px == NAMES[q['sets'][0]] and rng.random() < 0.5:
                    px = None
                nc = g.plots_1d(roots if len(roots) > 1 or rng.random() < 0.5 else roots[0], px, **kw)[0]
            elif q['kind'] == '2d':
                if raw:
                    give('colors', raw)
                if q['ls']:
                    give('ls', list(q['ls']))
                if q['args']:
                    give('line_args', [{'lw': 2}])
                if q['nx']:
                    kw['nx'] = q['nx']
                if q['fill']:
                    kw['filled'] = True
                pr = q['pairs']
                if len({p[0] for p in pr}) == 1 and rng.random() < 0.5:
                    nc = g.plots_2d(roots, pr[0][0], [p[1] for p in pr], **kw)[0]
                else:
                    nc = g.plots_2d(roots, param_pairs=[list(p[:2]) for p in pr], **kw)[0]
            elif q['kind'] == 'rect':
                if raw:
                    give('colors', raw)
                if q['fill']:
                    kw['filled'] = True
                if q['mx']:
                    kw['xmarkers'] = listed(q['mx'], q['px'], rng)
                if q['my']:
                    kw['ymarkers'] = listed(q['my'], q['py'], rng)
                if q['lims']:
                    kw['param_limits'] = {l[0]: [l[1] / 1000, l[2] / 1000] for l in q['lims']}
                g.rectangle_plot(list(q['px']), list(q['py']), roots=roots, **kw)
            elif q['kind'] == 'tri':
                if raw:
                    give('contour_colors', raw[:len(roots)])
                if q['ls']:
                    give('contour_ls', list(q['ls']))
                if q['args']:
                    give('contour_args', [{'alpha': 1.}])
                if q['fill']:
                    kw['filled'] = True
                if q['mx']:
                    kw['markers'] = listed(q['mx'], q['px'], rng)
                if q['title']:
                    kw['title_limit'] = 1
                if q['lims']:
                    kw['param_limits'] = {l[0]: [l[1] / 1000, l[2] / 1000] for l in q['lims']}
                if q['upper']:
                    alls = q['sets'] + [u for u in q['upper'] if u not in q['sets']]
                    kw['upper_roots'] = [sets[u] for u in q['upper']]
                    kw['upper_kwargs'] = {'contour_colors': [raw[alls.index(u)] for u in q['upper']]}
                px = list(q['px'])
                if px == NAMES[q['sets'][0]] and rng.random() < 0.5:
                    px = None
                g.triangle_plot(roots, px, **kw)
            elif q['kind'] == '3d':
                if q['pairs'][0][2] == '':
                    g.make_figure(1)
                    g.plot_2d_scatter(roots, q['pairs'][0][0], q['pairs'][0][1])
                    nc = 1
                else:
                    nc = g.plots_3d(roots, [list(p) for p in q['pairs']], **({'nx': q['nx']} if q['nx'] else {}))[0]
            o = observe(g)
            if nc:
                o['nc'] = int(nc)
            for a, b in watch:
                if a != b:
                    o['err'] = 'an argument was changed: %s to %s' % (b, a)
            return o
    except Exception as e:
        return dict(err='%s: %s' % (type(e).__name__, e), nc=1, panels=[], legend=[], bars=[])


def decorate(q, rng, rich=True):
    q = dict(BASE, **q)
    n = len(q['sets']) + len([u for u in q['upper'] if u not in q['sets']])
    q['rawcols'] = []
    ps = q['px'] + q['py'] + [p for pr in q['pairs'] for p in pr[:2]]
    if q['upper'] or rng.random() < 0.3:
        q['rawcols'] = rng.sample(COLS, n)
    q['cols'] = [rgb(c) for c in q['rawcols']]
    if q['kind'] in ('2d', 'rect', 'tri') and rng.random() < 0.4:
        q['fill'] = True
    if q['kind'] in ('1d', '2d', 'tri') and not q['fill'] and not q['upper'] and rng.random() < 0.25:
        q['ls'] = [rng.choice(['-', '--']) for _ in q['sets']]
    if rng.random() < 0.25:
        q['labels'] = ['leg%d' % k for k in range(n)]
    if n > 1 and rng.random() < 0.3:
        q['order'] = list(range(n))
        rng.shuffle(q['order'])
        if rng.random() < 0.5:
            q['order'] = list(reversed(range(n)))
    if rng.random() < 0.3:
        q['mx'] = [[p, 10 * int(p[1:]) + rng.choice([0, 0, 1])] for p in q['px'] if rng.random() < 0.6]
        q['my'] = q['mx'] if q['kind'] == 'tri' else [[p, 10 * int(p[1:])] for p in q['py'] if rng.random() < 0.6]
    if rng.random() < 0.2 and q['kind'] != '2d':
        q['lims'] = [[p, 10000 * int(p[1:]) - 4000, 10000 * int(p[1:]) + rng.choice([3000, 5000])] for p in q['px'] + q['py']]
        if q['kind'] != '1d':
            q['lims'] = [l for l in q['lims'] if rng.random() < 0.5]
    if q['kind'] in ('1d', 'tri') and rng.random() < 0.3:
        q['title'] = True
    if q['kind'] == '1d' and rng.random() < 0.35:
        q['norm'] = True
    if rng.random() < 0.2 and not q['upper']:
        q['args'] = 'short'
    return q


def rand_request(rng):
    kind = rng.choice(['1d', '1d', '2d', 'rect', 'tri', 'tri', '3d'])
    first = rng.choice([0, 1, 3])
    rest = [s for s in range(5) if s != first]
    rng.shuffle(rest)
    sets = [first] + rest[:rng.choice([0, 1, 1, 2, 3])]
    ps = ['p0', 'p1', 'p2', 'p3']
    rng.shuffle(ps)
    q = dict(kind=kind, sets=sets)
    if kind == '1d':
        q['px'] = list(NAMES[first]) if rng.random() < 0.2 else ps[:rng.randint(1, 4)]
        q['nx'] = rng.choice([0, 0, 1, 2, 3])
        if rng.random() < 0.4:
            q['ren'] = [['p3', 'q3']]
    elif kind in ('2d', '3d'):
        prs = [[a, b] for a in ps for b in ps if a != b]
        if kind == '2d' and rng.random() < 0.4:
            prs = [p for p in prs if p[0] == ps[0]]
        q['pairs'] = rng.sample(prs, rng.randint(1, 3))
        q['nx'] = rng.choice([0, 0, 1, 2])
        if kind == '3d':
            q['sets'] = [s for s in sets if s not in (2, 4)][:2]
            if rng.random() < 0.25:
                q['pairs'], q['nx'] = [q['pairs'][0] + ['']], 0
            else:
                q['pairs'] = [p + [rng.choice([x for x in ps if x not in p])] for p in q['pairs'][:2]]
    elif kind == 'rect':
        k = rng.randint(1, 3)
        q['px'], q['py'] = ps[:k], ps[k:k + rng.randint(1, 4 - k)]
    else:
        q['px'] = ps[:rng.choice([2, 2, 3, 3, 4])]
        if rng.random() < 0.3:
            q['upper'] = rng.sample([0, 1, 3], rng.choice([1, 1, 2]))
    return q


def scenario(job):
    reqs, sd = job
    rng = random.Random(sd)
    np.random.seed(rng.randint(0, 2 ** 31))
    root = tmpdir(rng)
    out = [dict(op='start')]
    try:
        files = rng.random() < 0.2
        with quiet():
            sets = [make_set(s) for s in range(5)]
            if files:
                for s in range(5):
                    sets[s].saveAsText(os.path.join(root, 'chain%d' % s))
                sets = ['chain%d' % s for s in range(5)]
            g = plots.get_subplot_plotter(**({'chain_dir': root, 'analysis_settings': {'ignore_rows': 0}} if files else {}))
        if rng.random() < 0.2:
            g.settings.plot_args = rng.choice([{'alpha': 0.9}, [{'alpha': 0.9}, None], [{}]])
        for q0 in reqs:
            q = decorate(q0, rng)
            o = run_plot(g, sets, q, rng)
            ev = dict(op='scatter' if q['kind'] == '3d' else 'plot', q={k: v for k, v in q.items() if k != 'rawcols'}, names=NAMES,
                      obs=o, files=files)
            if o['err'] == '' and q['kind'] == '1d':
                # densities relative to their maximum, or of unit area
                want = 'int' if q['norm'] else 'max'
                for p in o['panels']:
                    for d in p['draws']:
                        if d['nrm'] != want:
                            d['s'] = -3
            out.append(ev)
            if o['err']:
                break
            if q['kind'] in ('tri', 'rect', '2d') and rng.random() < 0.5:
                p = rng.choice(o['panels'])
                if p['draws'] and p['draws'][0]['y']:
                    x, y = p['draws'][0]['x'], p['draws'][0]['y']
                    a = dict(op='axes', q=ev['q'], names=NAMES, nc=o['nc'], x=x, y=y)
                    try:
                        ax = g.get_axes_for_params(x, y)
                        sp = ax.get_subplotspec()
                        a['obs'] = dict(err='', at=[sp.rowspan.start, sp.colspan.start])
                    except Exception as e:
                        a['obs'] = dict(err='%s: %s' % (type(e).__name__, e), at=[])
                    out.append(a)
    except Exception as e:
        out.append(dict(op='plot', q=dict(BASE), names=NAMES, obs=dict(err='%s: %s' % (type(e).__name__, e), nc=1, panels=[],
                                                                     legend=[], bars=[])))
    finally:
        plt.close('all')
        shutil.rmtree(root, ignore_errors=True)
    return out


def key(sc, j):
    e = sc[j]
    return e['op'] + '/' + (e.get('q') or {}).get('kind', '') + ('/err' if e.get('obs', {}).get('err') else '')


def check_C27():
    c = Check('C27')
    T = c.thorough
    r = c.model('MCPlots', consts=dict(MaxP=3, MaxS=2, Emit='TRUE') if T else dict(Emit='TRUE'), timeout=3000)
    beh = behaviours(r.out)
    c.extra['requests_in_model'] = len(beh)
    kinds = {}
    for b in beh:
        kinds.setdefault(b['kind'] + str(bool(b['upper'])) + str(bool(b['ren'])), []).append(b)
    chosen = [b for k in sorted(kinds) for b in sample(c.rng, kinds[k], 1500 if T else 45)]
    c.rng.shuffle(chosen)
    jobs = [(chosen[k:k + 2], '%s/m%d' % (c.seed, k)) for k in range(0, len(chosen), 2)]
    c.trace('TracePlots', pmap(scenario, jobs, chunk=4), 'requests of the model', key=key)
    n = 3000 if T else 160
    jobs = [([rand_request(c.rng) for _ in range(c.rng.randint(1, 4))], '%s/r%d' % (c.seed, k)) for k in range(n)]
    c.trace('TracePlots', pmap(scenario, jobs, chunk=4), 'random sessions', key=key)
    c.assumptions.append('drawn lines, contours and points are recognised by comparing them with the densities and rows of fresh '
                         'copies of the sample sets (the densities themselves are the subject of C26)')
    return c.finish()
