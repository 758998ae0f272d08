"""C26: densities on grids; bound to spec/Dens.tla"""
import math
import random

import numpy as np

from getdist import MCSamples, chains as gd_chains
from getdist.densities import Density1D, Density2D, getContourLevels
from harness.core import Check, behaviours
from harness.p_ini import pmap, sample

gd_chains.print_load_details = False
np.seterr(all='ignore')


def err(e):
    return dict(err=True, msg='%s: %s' % (type(e).__name__, e))


def axis(rng, n):
    return rng.choice([0, -3., 10]) + np.arange(n) * rng.choice([0.25, 0.5, 1, 2])


def lev2(v):
    r = round(v)
    return 2 * r if abs(v - r) < 1e-9 else 2 * math.floor(v) + 1


def level_event(rng, dims, P):
    half = rng.random() < 0.7
    c = [rng.choice([8, 16, 20, 32, 40, 44, 48, 60, 61, 63]) for _ in range(rng.choice([1, 2, 3]))]
    miss = 0 if rng.random() < 0.7 else rng.randint(0, max(1, sum(P) // 4))
    ev = dict(op='level', dims=dims, P=P, half=half, c=c, miss=miss)
    A = np.array(P, dtype=float).reshape(dims)
    B = A.copy()
    try:
        fr = [x / 64. for x in c]
        if rng.random() < 0.3:
            fr = tuple(fr)
        if half and miss == 0 and rng.random() < 0.6 and len(dims) < 3:
            d = Density1D(axis(rng, dims[0]), A) if len(dims) == 1 else Density2D(axis(rng, dims[1]), axis(rng, dims[0]), A)
            r = d.getContourLevels(fr)
        else:
            kw = {}
            if not half:
                kw['half_edge'] = False
            if miss:
                kw['missing_norm'] = miss / 2. ** len(dims)
                if not half:
                    kw['missing_norm'] = miss / 2. ** len(dims)
            r = getContourLevels(A, fr, **kw)
        ev['obs'] = dict(err=False, lev=[lev2(float(v)) for v in r])
        if not np.array_equal(A, B):
            ev['obs'] = dict(err=True, msg='the density was changed')
            ev['miss'] = -10 ** 6      # never allowed
    except Exception as e:
        ev['obs'] = err(e)
        if type(e).__name__ != 'DensitiesError':
            ev['miss'] = -10 ** 6
    return ev


def norm_event(rng, dims, P):
    if not any(P):
        return None
    x = [axis(rng, n) for n in dims]
    vol = int(round(8 * np.prod([a[1] - a[0] for a in x])))
    if vol < 1 or abs(vol - 8 * np.prod([a[1] - a[0] for a in x])) > 1e-9 or sum(P) * 8 * vol > 10 ** 4 * 2:
        return None
    by = rng.choice(['max', 'integral', 'integral'])
    ev = dict(op='norm', dims=dims, P=P, by=by, vol=vol)
    try:
        A = np.array(P, dtype=float).reshape(dims)
        d = Density1D(x[0], A) if len(dims) == 1 else Density2D(x[1], x[0], A)
        if rng.random() < 0.5 and min(dims) > 3:
            d(x[0]) if len(dims) == 1 else d(x[1], x[0])                     # (interpolation prepared before)
        if rng.random() < 0.3:
            d.normalize('max' if by == 'integral' else 'integral')
        ip = rng.random() < 0.5
        r = d.normalize(**dict({} if by == 'integral' and rng.random() < 0.5 else dict(by=by), **(dict(in_place=True) if ip else {})))
        assert r is d
        if min(dims) > 3 and rng.random() < 0.5:
            Q = d(x[0]) if len(dims) == 1 else d(x[1], x[0], grid=True).T
        else:
            Q = d.P
        ev['obs'] = dict(err=not ip and not np.array_equal(A.reshape(-1), P), Q=[int(round(10000 * v)) for v in np.asarray(Q).reshape(-1)])
    except Exception as e:
        ev['obs'] = err(e)
    return ev


def eval_event(rng):
    n = rng.choice([1, 2])
    dims = [rng.randint(4, 7) for _ in range(n)]
    x = [axis(rng, k) for k in dims]
    smooth = rng.random() < 0.6
    co = [rng.randint(0, 5) for _ in range(4)]

    def f(i, j=0):
        return co[0] + co[1] * i + co[2] * j + co[3] * i * (j if n == 2 else i)
    if smooth:
        P = [f(i) for i in range(dims[0])] if n == 1 else [f(i, j) for i in range(dims[0]) for j in range(dims[1])]
    else:
        P = [rng.randint(0, 50) for _ in range(int(np.prod(dims)))]
    ev = dict(op='eval', dims=dims, P=P, mid=[])
    mid, out = [], []
    try:
        A = np.array(P, dtype=float).reshape(dims)
        if n == 1:
            d = Density1D(x[0], A)
            g = rng.random()
            at = d(x[0]) if g < 0.3 else d.Prob(list(x[0])) if g < 0.6 else [d.Prob(float(v))[0] for v in x[0]]
            out = [float(d(x[0][0] - 0.5)[0]), float(d(x[0][-1] + 0.25)[0])]
            if smooth:
                for i in range(dims[0] - 1):
                    ev['mid'].append(int(round(1000 * f(i + 0.5))))
                    mid.append(d((x[0][i] + x[0][i + 1]) / 2)[0])
        else:
            d = Density2D(x[1], x[0], A)
            g = rng.random()
            X, Y = np.meshgrid(x[1], x[0])
            if g < 0.3:
                at = d.Prob(X.reshape(-1), Y.reshape(-1))
            elif g < 0.6:
                at = d(x[1], x[0]).T.reshape(-1)
            else:
                at = [float(np.squeeze(d.Prob(a, b))) for a, b in zip(X.reshape(-1), Y.reshape(-1))]
            if smooth:
                for i in range(dims[0] - 1):
                    for j in range(dims[1] - 1):
                        ev['mid'].append(int(round(1000 * f(i + 0.5, j + 0.5))))
                        mid.append(float(np.squeeze(d((x[1][j] + x[1][j + 1]) / 2, (x[0][i] + x[0][i + 1]) / 2))))
        ev['obs'] = dict(err=False, at=[int(round(1000 * v)) for v in at], mid=[int(round(1000 * v)) for v in mid], out=[int(round(1000 * v)) for v in out])
    except Exception as e:
        ev['obs'] = err(e)
    return ev


def lim_event(rng):
    n = rng.choice([20, 50, 100, 257])
    x = rng.choice([0, -5., 100]) + np.arange(n) * rng.choice([0.01, 0.1, 1, 3])
    t = np.linspace(0, 1, n)
    k = rng.choice(['gauss', 'skew', 'low', 'high', 'parabola', 'cut'])
    c = rng.uniform(0.35, 0.65)
    P = {'gauss': np.exp(-(t - c) ** 2 / 2 / 0.07 ** 2), 'skew': t ** 2 * np.exp(-12 * t) * 100, 'low': np.exp(-t ** 2 / 2 / rng.uniform(0.1, 0.4) ** 2),
         'high': np.exp(-(1 - t) ** 2 / 2 / rng.uniform(0.1, 0.4) ** 2), 'parabola': 2 - 4 * (t - c) ** 2, 'cut': np.exp(-(t - 0.15) ** 2 / 2 / 0.2 ** 2)}[k]
    P = P * rng.choice([1, 1, 7.5])
    p = [rng.choice([500, 2500, 5000, 6800, 9000, 9500, 9900]) for _ in range(rng.choice([1, 2, 3]))]
    # (the levels are found on a grid of cells of this size)
    ev = dict(op='lim', p=p, tol=40, shape=k)
    try:
        d = Density1D(x, P)
        fr = [v / 10000. for v in p]
        if len(p) == 1 and rng.random() < 0.7:
            r = [d.getLimits(fr[0])]
        elif rng.random() < 0.5:
            r = d.getLimits(np.array(fr))
        else:
            r = d.getLimits(np.array(fr), interpGrid=d.initLimitGrids())
        fine = np.linspace(x[0], x[-1], 20001)
        F = np.asarray(d(fine))
        tot, mx = (F.sum() - (F[0] + F[-1]) / 2), F.max()
        l = []
        for lo, hi, bot, top in r:
            g = np.linspace(max(lo, x[0]), min(hi, x[-1]), 20001)
            G = np.asarray(d(g))
            m = (G.sum() - (G[0] + G[-1]) / 2) * (hi - lo) / (x[-1] - x[0]) / tot
            e = 1e-9 * (x[-1] - x[0])
            l.append(dict(mass=int(round(10000 * m)), bot=bool(bot), top=bool(top), mn='edge' if abs(lo - x[0]) < e else 'in', mx='edge' if abs(hi - x[-1]) < e else 'in',
                          dlo=int(round(10000 * G[0] / mx)), dhi=int(round(10000 * G[-1] / mx)), lo0=int(round(10000 * F[0] / mx)), hi0=int(round(10000 * F[-1] / mx))))
        ev['obs'] = dict(err=False, l=l)
    except Exception as e:
        ev['obs'] = err(e)
    return ev


def samp_event(rng):
    r = np.random.RandomState(rng.randrange(10 ** 9))
    n = 3000
    corr = rng.choice([-0.8, -0.5, 0, 0.5, 0.8])
    a = r.normal(size=n)
    b = corr * a + math.sqrt(1 - corr ** 2) * r.normal(size=n)
    sa, sb = 10. ** rng.randint(-3, 3), 10. ** rng.randint(-3, 3)
    ma, mb = rng.choice([-7, 0, 30]) * sa, rng.choice([-7, 0, 30]) * sb
    X = np.array([ma + sa * a, mb + sb * b, r.rand(n)]).T
    ranges, mode = {}, [0, 0]
    if rng.random() < 0.4 and not corr:
        X[:, 0] = ma + sa * abs(a)
        ranges['a'] = [ma, None]
    if rng.random() < 0.4 and not corr:
        X[:, 1] = mb - sb * abs(b)
        ranges['b'] = [None, mb]
    s = MCSamples(samples=X, names=['a', 'b', 'c'], ranges=ranges, ignore_rows=0)
    conts = rng.choice([[0.68, 0.95], [0.5, 0.9], [0.68, 0.95, 0.99]])
    s.updateSettings(settings=dict(contours=' '.join(map(str, conts))), doUpdate=False)
    s.contours = np.array(conts)
    swap = rng.random() < 0.5
    p = ['b', 'a'] if swap else ['a', 'b']
    (m1, s1), (m2, s2) = [((ma, sa), (mb, sb))[q == 'b'] for q in p]
    dim = rng.choice([1, 2, 2])
    ev = dict(op='samp', dim=dim, mode=[0, 0][:dim], corr=int(round(10 * corr)) if dim == 2 else 0, cont=[], pars=p, rng=[list(map(str, v)) for v in ranges.values()])
    try:
        if dim == 1:
            d = s.get1DDensity(p[0]) if rng.random() < 0.5 else s.get1DDensityGridData(rng.choice([p[0], 'abc'.index(p[0])]))
            lo, hi = ranges.get(p[0], [None, None])
            inside = [lo is None or d.x[0] >= lo - 1e-6 * s1, hi is None or d.x[-1] <= hi + 1e-6 * s1]
            if lo is not None:
                inside.append(float(d(lo - 0.1 * s1)[0]) == 0)
            ev['obs'] = dict(err=False, shape=d.P.shape == d.x.shape, nonneg=bool(np.min(d.P) >= -1e-6), maxone=bool(abs(np.max(d.P) - 1) < 1e-6), inside=[bool(z) for z in inside],
                             mode=[int(round(100 * (d.x[np.argmax(d.P)] - m1) / s1))], same=0, opp=0, cont=[])
        else:
            k = rng.choice([0, 1, len(conts)])
            a1, a2 = rng.choice([(p[0], p[1]), ('abc'.index(p[0]), 'abc'.index(p[1]))])
            d = s.get2DDensityGridData(a1, a2, num_plot_contours=k) if k else s.get2DDensity(a1, a2)
            inside = []
            for q, ax, sc in ((p[0], d.x, s1), (p[1], d.y, s2)):
                lo, hi = ranges.get(q, [None, None])
                inside += [lo is None or ax[0] >= lo - 1e-6 * sc, hi is None or ax[-1] <= hi + 1e-6 * sc]
            iy, ix = np.unravel_index(np.argmax(d.P), d.P.shape)
            W = np.ones(d.P.shape)
            W[0] /= 2
            W[-1] /= 2
            W[:, 0] /= 2
            W[:, -1] /= 2
            cont = []
            if k:
                ev['cont'] = [int(round(10000 * z)) for z in conts[:k]]
                cont = [int(round(10000 * np.sum((W * d.P)[d.P > z]) / np.sum(W * d.P))) for z in d.contours]

            def v(i, j):
                return int(round(10000 * float(np.squeeze(d.Prob(m1 + i * s1, m2 + j * s2)))))
            same, opp = (v(.9, .9) + v(-.9, -.9), v(.9, -.9) + v(-.9, .9)) if corr else (0, 0)
            ev['obs'] = dict(err=False, shape=d.P.shape == (d.y.size, d.x.size), nonneg=bool(np.min(d.P) >= -1e-6), maxone=bool(abs(np.max(d.P) - 1) < 1e-6), inside=[bool(z) for z in inside],
                             mode=[int(round(100 * (d.x[ix] - m1) / s1)), int(round(100 * (d.y[iy] - m2) / s2))], same=same, opp=opp, cont=cont)
    except Exception as e:
        ev['obs'] = err(e)
    return ev


def small_event(rng):
    """few, correlated rows: a density all the same, where the rows are"""
    r = np.random.RandomState(rng.randrange(10 ** 9))
    n = rng.randint(15, 40)
    x = np.cumsum(r.rand(n)) if rng.random() < 0.6 else r.rand(n)
    X = np.array([x, r.normal(size=n)]).T
    ev = dict(op='small', rows=n)
    try:
        s = MCSamples(samples=X, weights=r.randint(1, 4, n).astype(float), names=['a', 'b'], ignore_rows=0)
        d = s.get1DDensity('a')
        sd = np.std(x)
        ev['obs'] = dict(err=False, maxone=bool(abs(np.max(d.P) - 1) < 1e-6), near=bool(np.min(x) - 3 * sd < d.x[0] <= np.min(x) + 1e-9
                                                                                      and np.max(x) - 1e-9 <= d.x[-1] < np.max(x) + 3 * sd))
    except Exception as e:
        ev['obs'] = err(e)
    return ev


def rand_grid(rng):
    n = rng.choice([1, 2, 2, 2, 3])
    dims = [rng.randint(2, [12, 7, 4][n - 1]) for _ in range(n)]
    k = int(np.prod(dims))
    if rng.random() < 0.5:
        P = [rng.randint(0, rng.choice([1, 3, 20, 300])) for _ in range(k)]
    else:
        idx = np.array(list(np.ndindex(*dims)))
        c = [rng.uniform(-1, m) for m in dims]
        P = [int(round(200 * math.exp(-sum((i - j) ** 2 for i, j in zip(t, c)) / rng.choice([2, 8])))) for t in idx]
    if not any(P):
        P[0] = 1
    return dims, P


def model_scenario(a):
    b, seed = a
    rng = random.Random(seed)
    out = [dict(op='start')] + [level_event(rng, b['dims'], b['P']) for _ in range(2)]
    return out + [e for e in [norm_event(rng, b['dims'], b['P'])] if e]


def rand_scenario(seed):
    rng = random.Random(seed)
    out = [dict(op='start')]
    for _ in range(4):
        dims, P = rand_grid(rng)
        out.append(level_event(rng, dims, P))
        if len(dims) < 3:
            out.append(norm_event(rng, dims, [v % 13 for v in P]))
        out.append(eval_event(rng))
        out.append(lim_event(rng))
    return [e for e in out if e]


def samp_scenario(seed):
    rng = random.Random(seed)
    return [dict(op='start'), samp_event(rng)] + [small_event(rng) for _ in range(3)]


def key(sc, j):
    return sc[j]['op'] + '/' + sc[j].get('obs', {}).get('msg', '').split(':')[0]


def check_C26():
    c = Check('C26')
    T = c.thorough
    r = c.model('MCDens')
    beh = behaviours(r.out)
    c.trace('TraceDens', pmap(model_scenario, [(b, '%s/%d' % (c.seed, k)) for k, b in enumerate(beh if T else sample(c.rng, beh, 1000))]), 'small grids', key=key)
    c.trace('TraceDens', pmap(rand_scenario, ['%s/r%d' % (c.seed, k) for k in range(6000 if T else 500)]), 'random grids', key=key)
    c.trace('TraceDens', pmap(samp_scenario, ['%s/s%d' % (c.seed, k) for k in range(1500 if T else 120)]), 'densities of samples', key=key)
    c.assumptions.append('integer densities for levels (the level found is judged by the cells above and below it); unimodal densities for limits, within 0.4% of the probability')
    return c.finish()
