"""C06: confidence limits and likelihood statistics; bound to spec/Quant.tla"""
import random

import numpy as np

from getdist import MCSamples, chains as gd_chains
from getdist.chains import WeightedSamples
from harness.core import Check, behaviours
from harness.p_ini import pmap, sample

gd_chains.print_load_details = False
np.seterr(all='ignore')
END = 9999


class V:
    """a strictly increasing map of model integers to the numbers the code sees"""

    def __init__(self, rng):
        k = rng.random()
        self.scale = rng.choice([1, 0.5, 2.0 ** -30, 1e-7, 1e9, 3.7])
        self.off = rng.choice([0, 0, -5, 0.125])
        self.inv = {}

    def f(self, n):
        v = float(n * self.scale + self.off * self.scale)
        self.inv[v] = n
        return v

    def arr(self, l):
        return np.array([self.f(n) for n in l])

    def back(self, a):
        return [self.inv.get(float(v), -99999) for v in np.atleast_1d(a)]


def frac(f, scalar=float):
    return f[0] / f[1]


class W:
    def __init__(self, rng, mc=None, contours=None):
        self.rng, self.v, self.lv, self.prep = rng, V(rng), V(rng), []
        self.mc = rng.random() < 0.6 if mc is None else mc
        self.contours = contours

    def do(self, e):
        rng = self.rng
        op = e['op']
        if op == 'data':
            ws = rng.choice([1, 1, 2.0 ** -7, 4])
            self.ws = ws
            w = np.array(e['w'], dtype=float) * ws
            if rng.random() < 0.15 and ws == 1:
                w = np.array(e['w'])
            if all(k == 1 for k in e['w']) and rng.random() < 0.5:
                w = None
            x = np.array([self.v.arr(c) for c in e['xs']]).T
            if rng.random() < 0.3:
                x = np.asfortranarray(x)
            L = self.lv.arr(e['L'])
            if self.mc:
                kw = dict(settings=dict(min_weight_ratio=-1))
                if self.contours:
                    kw['settings']['contours'] = [frac(f) for f in self.contours]
                self.s = MCSamples(samples=x, weights=w, loglikes=L, names=['p%d' % k for k in range(x.shape[1])],
                                   ignore_rows=0, **kw)
                assert self.s.numrows == len(e['w'])
            else:
                self.s = WeightedSamples(samples=x, weights=w, loglikes=L, min_weight_ratio=-1)
        elif op == 'filter':
            where = np.array(e['where']) == 1
            self.s.filter(where if rng.random() < 0.5 else np.where(where)[0])
            if self.mc and rng.random() < 0.5:
                self.s.updateBaseStatistics()
        elif op == 'like':
            m = self.s.getLikeStats()
            par = [m.parWithName('p%d' % k) for k in range(self.s.samples.shape[1])]
            e['obs'] = dict(bot=[self.v.back(p.ND_limit_bot) for p in par], top=[self.v.back(p.ND_limit_top) for p in par],
                            best=[self.v.back(p.bestfit_sample)[0] for p in par], like=self.lv.back(m.logLike_sample)[0])
        else:
            kw = {}
            if op in ('conf', 'prep'):
                if e['a'] or rng.random() < 0.2:
                    kw['start'] = e['a']
                if e['b'] != END or rng.random() < 0.2:
                    kw['end'] = None if e['b'] == END else e['b']
                if e['ww']:
                    kw['weights'] = np.array(e['ww'], dtype=float) * rng.choice([1, 0.25])
            if e['src'] == 'vec':
                p = self.v.arr(e['vec'])
            else:
                j = e['j'] - 1
                p = rng.choice([j, self.s.samples[:, j], np.array(self.s.samples[:, j])] + (['p%d' % j] * 2 if self.mc else []))
            if op == 'prep':
                self.prep.append(self.s.initParamConfidenceData(p, **kw))
            elif op == 'two':
                e['obs'] = self.v.back(self.s.twoTailLimits(p, frac(e['fr'][0])))
            else:
                fr = [frac(f) for f in e['fr']]
                lim = fr[0] if len(fr) == 1 and rng.random() < 0.7 else np.array(fr)
                if e['prep']:
                    p, kw = self.prep[e['prep'] - 1], {}
                if e['upper']:
                    kw['upper'] = True
                e['obs'] = self.v.back(self.s.confidence(p, lim, **kw))
        return e


def rand_frac(rng, tot, den=None):
    if rng.random() < 0.5:
        d = rng.choice([2, 4, 8, 64])
        return [rng.randint(1, d - 1), d]
    while True:                     # fractions that no cumulative weight hits exactly
        d = rng.choice([97, 101, 89, 83])
        if tot % d:
            return [rng.randint(1, d - 1), d]


def total(e, a=0, b=END, ww=None):
    w = ww or e
    return sum(w[a:None if b == END else b])


def model_scenario(args):
    b, seed = args
    rng = random.Random(seed)
    n = len(b['x'])
    x2 = [rng.randint(1, 3) for _ in range(n)]
    tot = sum(b['w'])
    cont = sorted([rand_frac(rng, tot), rand_frac(rng, tot)], key=lambda f: f[0] / f[1])
    if rng.random() < 0.2:
        cont = cont[:1]
    for col in (b['x'], x2):        # constant columns are removed as fixed parameters
        if len(set(col)) == 1:
            col[rng.randrange(n)] = 4
    w = W(rng, True, cont)
    out = [dict(op='start'), w.do(dict(op='data', xs=[b['x'], x2], w=b['w'], L=b['L']))]
    q = [dict(op='conf', src='col', j=1, a=0, b=END, ww=[], upper=u, prep=0, fr=[[k, 8] for k in range(1, 8)]) for u in (True, False)]
    q += [dict(op='two', src='col', j=1, fr=[[k, 8]]) for k in rng.sample(range(1, 8), 3)]
    q += [dict(op='like', fr=cont)]
    rng.shuffle(q)
    return out + [w.do(e) for e in q]


def rand_scenario(seed):
    rng = random.Random(seed)
    n = rng.choice([1, 2, 5, 8, 12, 25, 60])
    np_ = rng.randint(1, 3)
    vals = rng.choice([3, 10, 1000])
    wm = rng.choice([1, 1, 3, 20])

    def mk(n):
        w = [rng.randint(0 if wm > 1 and rng.random() < 0.2 else 1, wm) for _ in range(n)]
        if rng.random() < 0.2:
            w[rng.randrange(n)] = 5 * n * wm            # most of the weight in one sample
        xs = [[rng.randint(-vals, vals) for _ in range(n)] for _ in range(np_)]
        if rng.random() < 0.15:
            xs[0].sort(reverse=rng.random() < 0.5)
        if rng.random() < 0.5:
            L = rng.sample(range(1, 4 * n + 2), n)
        else:
            L = [rng.randint(1, n) for _ in range(n)]
            while max(L.count(t) for t in L) > 5:       # the specification tries all orders of ties
                L = [rng.randint(1, n) for _ in range(n)]
        return xs, w, L
    xs, wt, L = mk(n)
    if not sum(wt):
        wt[0] = 1
    while True:
        cont = sorted([rand_frac(rng, sum(wt)) for _ in range(rng.choice([1, 2, 2, 2, 3]))], key=lambda f: f[0] / f[1])
        if all(a[0] * b[1] < b[0] * a[1] for a, b in zip(cont, cont[1:])):
            break
    w = W(rng, False if any(len(set(col)) == 1 for col in xs) else None, contours=cont)
    out = [dict(op='start'), w.do(dict(op='data', xs=xs, w=wt, L=L))]
    preps = []
    for _ in range(rng.randint(3, 9)):
        r = rng.random()
        n = len(wt)
        tot = sum(wt)
        if r < 0.12 and n > 3:
            where = [rng.randint(0, 1) for _ in range(n)]
            k = [i for i in range(n) if where[i]]
            nt = sum(wt[i] for i in k)
            if not nt or any(nt % f[1] == 0 for f in cont if f[1] > 64):
                continue
            if w.mc and any(len({col[i] for i in k}) == 1 for col in xs):
                continue
            out.append(w.do(dict(op='filter', where=where)))
            xs = [[c[i] for i in k] for c in xs]
            wt, L = [wt[i] for i in k], [L[i] for i in k]
            continue
        if r < 0.3 and w.mc:
            out.append(w.do(dict(op='like', fr=cont[:2])))
            continue
        e = dict(op='conf', a=0, b=END, ww=[], upper=rng.random() < 0.5, prep=0)
        e.update(dict(src='col', j=rng.randint(1, np_)) if rng.random() < 0.7 else dict(src='vec', vec=[rng.randint(-vals, vals) for _ in range(n)]))
        if rng.random() < 0.4 and n > 2:
            e['a'] = rng.choice([0, rng.randint(0, n - 1), -rng.randint(1, n)])
            e['b'] = rng.choice([END, rng.randint(1, n), -rng.randint(1, n)])
        if rng.random() < 0.25:
            e['ww'] = [rng.randint(1, 9) for _ in range(n)]
        t = total(wt, e['a'], e['b'], e['ww'])
        if t <= 0:
            continue
        if r < 0.42:
            e['op'] = 'prep'
            out.append(w.do(e))
            preps.append(t)
        elif r < 0.6 and preps:
            k = rng.randrange(len(preps))
            e['prep'] = k + 1
            e['fr'] = [rand_frac(rng, preps[k]) for _ in range(rng.choice([1, 1, 3, 5]))]
            out.append(w.do(e))
        elif r < 0.7:
            e['op'] = 'two'
            f = rng.choice([2, 4, 8, 32])
            e['fr'] = [[rng.randint(1, f - 1), f]]
            out.append(w.do(e))
        else:
            e['fr'] = [rand_frac(rng, t) for _ in range(rng.choice([1, 1, 3, 5]))]
            out.append(w.do(e))
    return out


def marge_scenario(seed):
    """the limits quoted from samples: equal tails, or one tail next to a hard prior boundary"""
    rng = random.Random(seed)
    n = rng.choice([300, 600])
    shape = rng.choice(['two', 'two', 'upper', 'lower', 'flat'])
    if shape == 'two':
        x = [int(rng.gauss(0, 3000)) for _ in range(n)]
        ranges = None
    elif shape == 'flat':
        x = [rng.randint(0, 10000) for _ in range(n)]
        ranges = (0, 10000)
    else:
        x = [abs(int(rng.gauss(0, 3000))) for _ in range(n)]
        ranges = (0, None)
        if shape == 'lower':
            x, ranges = [-v for v in x], (None, 0)
    wt = [rng.randint(1, 3) for _ in range(n)]
    cont = [[rng.randint(30, 45), 64], [rng.randint(50, 62), 64]]
    s = MCSamples(samples=np.array([x]).T / 1024., weights=np.array(wt), names=["a"], ranges={'a': [None if v is None else v / 1024. for v in ranges]} if ranges else None,
                  settings=dict(contours=[frac(f) for f in cont], credible_interval_threshold=1e9), ignore_rows=0)
    m = s.getMargeStats().parWithName('a')
    out = [dict(op='start'), dict(op='data', xs=[x], w=wt, L=[1] * n)]

    def back(v):
        v = v * 1024
        return int(round(v)) if abs(v - round(v)) < 1e-6 else -99999
    for k, lim in enumerate(m.limits):
        if lim.twotail:
            out.append(dict(op='tails', j=1, fr=[cont[k]], obs=[back(lim.lower), back(lim.upper)]))
        elif lim.onetail_upper or lim.onetail_lower:
            out.append(dict(op='one', j=1, fr=[cont[k]], upper=lim.onetail_upper, obs=[back(lim.upper if lim.onetail_upper else lim.lower)]))
    return out


def key(sc, j):
    return sc[j]['op']


def check_C06():
    c = Check('C06')
    T = c.thorough
    r = c.model('MCQuant', consts=dict(MaxW=2))
    beh = behaviours(r.out)
    c.extra['behaviours_in_model'] = len(beh)
    jobs = [(b, '%s/%d' % (c.seed, k)) for k, b in enumerate(sample(c.rng, beh, 20000 if T else 2500))]
    c.trace('TraceQuant', pmap(model_scenario, jobs), 'all small sample sets', key=key)
    c.trace('TraceQuant', pmap(rand_scenario, ['%s/r%d' % (c.seed, k) for k in range(15000 if T else 2000)]), 'random samples', key=key)
    c.trace('TraceQuant', pmap(marge_scenario, ['%s/m%d' % (c.seed, k) for k in range(400 if T else 40)]), 'quoted limits', key=key)
    c.assumptions.append('integer weights (times powers of two), and fractions that are either multiples of 1/64 or never hit exactly')
    return c.finish()
