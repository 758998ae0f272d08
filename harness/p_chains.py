"""C01-C05: weighted samples and chains, bound to spec/Chains.tla"""
import contextlib
import copy
import io
import logging
import math
import os
import tempfile
from fractions import Fraction

import numpy as np

from harness.core import Check, as_int, behaviours, BAD
from getdist import chains as gd_chains, MCSamples
from getdist.chains import WeightedSamples, Chains

gd_chains.print_load_details = False
logging.disable(logging.CRITICAL)
np.seterr(all='ignore')
LN2 = math.log(2)


def ratio_ints(ws):
    """weights as smallest integers with the same ratios, or None"""
    if not len(ws):
        return []
    mx = max(float(w) for w in ws)
    if not (mx > 0):
        return [0 if w == 0 else BAD for w in ws]
    fr = []
    for w in ws:
        r = float(w) / mx
        f = Fraction(r).limit_denominator(1 << 15)
        if abs(float(f) - r) > 1e-11 * max(r, 1e-9) + 1e-13:
            return [BAD] * len(ws)
        fr.append(f)
    lcm = 1
    for f in fr:
        lcm = lcm * f.denominator // math.gcd(lcm, f.denominator)
    v = [int(f * lcm) for f in fr]
    return v if max(v) < 46000 else [BAD] * len(ws)


def frac_pair(v, maxden):
    try:
        v = float(v)
    except Exception:
        return [BAD, 1]
    if v != v or v in (float('inf'), float('-inf')):
        return [BAD, 1]
    f = Fraction(v).limit_denominator(maxden)
    if abs(float(f) - v) > 1e-9 * max(1, abs(v)):
        return [BAD, 1]
    return [f.numerator, f.denominator]


class Driver:
    """executes operations on the real classes and projects the visible state"""

    def __init__(self, cls, init, rng, minw=None):
        self.cls, self.rng = cls, rng
        self.wden, self.hasL = init['wden'], init['hasL']
        self.prop = False
        self.mode = init['mode']
        self.copies = []
        chs = init['chains']
        self.minratio = 1e-30 if init['minw'] else -1
        names = init['names']
        # parameter values are (integer of the specification + offset) * scale
        self.scale, self.off = rng.choice([(1., 0), (1., 0), (1., 0), (2. ** -30, 0), (2. ** 30, 0), (1., 2 ** 20),
                                           (2. ** -40, 2 ** 16)])
        if getattr(self, 'fixscale', False):
            self.scale, self.off = 1., 0
        wint = init['wden'] == 1 and rng.random() < 0.4

        def arrs(c):
            x = (np.array([r['x'] for r in c], dtype=float).reshape(len(c), len(names)) + self.off) * self.scale
            w = np.array([r['w'] for r in c], dtype=int if wint else float)
            if not wint:
                w = w / self.wden
            ll = np.array([r['l'] * LN2 for r in c], dtype=float)
            return x, w, ll

        xs, ws, ls = zip(*[arrs(c) for c in chs])
        self.given = [a.copy() for a in xs + ws + ls], list(xs + ws + ls)
        ls_arg = list(ls) if self.hasL else None
        if cls == 'W':
            self.ob = WeightedSamples(samples=xs[0], weights=ws[0], loglikes=ls[0] if self.hasL else None,
                                      min_weight_ratio=self.minratio)
        elif cls == 'C':
            if self.mode == 'single':
                self.ob = Chains(samples=xs[0], weights=ws[0], loglikes=ls[0] if self.hasL else None, names=names,
                                 min_weight_ratio=self.minratio)
            else:
                self.ob = Chains(names=names, min_weight_ratio=self.minratio)
                self.ob.loadChains(None, list(xs), weights=list(ws), loglikes=ls_arg)
                if self.mode == 'combined':
                    self.ob.makeSingle()
        else:
            st = {'ignore_rows': 0, 'min_weight_ratio': self.minratio}
            if self.mode == 'single':
                self.ob = MCSamples(samples=xs[0], weights=ws[0], loglikes=ls[0] if self.hasL else None, names=names,
                                    settings=st)
            else:
                self.ob = MCSamples(samples=list(xs), weights=list(ws), loglikes=ls_arg, names=names, settings=st)

    # ---- execution
    def call(self, e):
        ob, op = self.ob, e['op']
        if op == 'filter':
            ob.filter(np.array(e['mask'], dtype=bool))
        elif op == 'filterix':
            ix = np.array(e['ix'], dtype=int)
            ob.filter(ix if self.rng.random() < 0.7 else [int(i) for i in ix])
        elif op == 'delzeros':
            ob.deleteZeros()
        elif op == 'minweight':
            ob.setMinWeightRatio(e['num'] / e['den'])
        elif op == 'burnrows':
            if self.cls == 'W' or self.rng.random() < 0.5:
                ob.removeBurn(e['n'])
            else:
                ob.removeBurnFraction(e['n'])
        elif op == 'burnfrac':
            if self.cls == 'W' or (self.mode != 'separate' and self.rng.random() < 0.5):
                ob.removeBurn(e['num'] / e['den'])
            else:
                ob.removeBurnFraction(e['num'] / e['den'])
        elif op == 'thin':
            ob.thin(e['k'] if e['kden'] == 1 else e['k'] / e['kden'])
            self.wden = 1
        elif op == 'wthin':
            ob.weighted_thin(e['k'] if e['kden'] == 1 else e['k'] / e['kden'])
            self.wden = 1
        elif op == 'reweight':
            arr = np.array(e['d']) * LN2
            keep = arr.copy()
            ob.reweightAddingLogLikes(arr)
            self.given[0].append(keep), self.given[1].append(arr)
            self.prop = True
        elif op == 'cool':
            ob.cool(e['num'] / e['den'])
            self.prop = True
        elif op == 'addcol':
            ob.addDerived((np.array(e['vec'], dtype=float) + self.off) * self.scale, e['name'], label='L_' + e['name'])
        elif op == 'delfixed':
            ob.deleteFixedParams()
        elif op == 'makesingle':
            ob.makeSingle()
            self.mode = 'combined'
        elif op == 'copy':
            new = ob.copy() if hasattr(ob, 'copy') else copy.deepcopy(ob)
            self.copies.append((ob, self.snap(ob)))
            self.ob = new
        elif op == 'query':
            pass
        else:
            raise KeyError(op)

    def snap(self, ob):
        if ob.samples is None:
            return [(c.samples.copy(), c.weights.copy(), None if c.loglikes is None else c.loglikes.copy())
                    for c in ob.chains]
        return [(ob.samples.copy(), ob.weights.copy(), None if ob.loglikes is None else ob.loglikes.copy())]

    def rowset(self, xs, ws, ls):
        if self.prop:
            w = ratio_ints(ws)
        else:
            w = [as_int(v, self.wden) for v in ws]
        n = len(xs)
        if len(w) != n or (self.hasL and (ls is None or len(ls) != n)):
            return [dict(w=BAD, l=BAD, x=[BAD])] * (n + 1)
        return [dict(w=w[k], l=as_int(ls[k], 1 / LN2, 1e-6) if self.hasL else 0, x=[as_int(v / self.scale - self.off) for v in xs[k]])
                for k in range(n)]

    def seps(self):
        cs = self.ob.getSeparateChains()
        flat = self.rowset(np.vstack([c.samples for c in cs]), np.hstack([c.weights for c in cs]),
                           np.hstack([c.loglikes for c in cs]) if self.hasL and all(
                               c.loglikes is not None for c in cs) else None)
        out, k = [], 0
        for c in cs:
            out.append(flat[k:k + len(c.samples)])
            k += len(c.samples)
        return out

    def rows(self):
        if self.mode == 'separate':
            return [r for c in self.seps() for r in c]
        if self.ob.numrows != self.ob.samples.shape[0] or self.ob.n != self.ob.samples.shape[1]:
            return [dict(w=BAD, l=BAD, x=[BAD])]
        if self.cls != 'W' and self.ob.numrows and self.rng.random() < 0.5:
            nm = self.ob.getParamNames().list()
            pars = self.ob.getParams()
            for j, name in enumerate(nm):
                v = pars
                for part in name.split('.'):
                    v = getattr(v, part)
                v = getattr(v, 'value', v)
                if not np.array_equal(self.ob[name], self.ob.samples[:, j]) or \
                        not np.array_equal(v, self.ob.samples[:, j]):
                    return [dict(w=BAD, l=BAD, x=[BAD])]
        return self.rowset(self.ob.samples, self.ob.weights, self.ob.loglikes)

    def names(self):
        nm = self.ob.getParamNames().list()
        ix = [self.ob.index.get(n, -1) if n in self.ob.index else -1 for n in nm] if hasattr(self.ob, 'index') else []
        return nm

    def same(self):
        def eq(a, b):
            return a is None and b is None or (a is not None and b is not None and a.shape == b.shape and
                                               np.array_equal(a, b))
        for a, b in zip(*self.given):
            if not eq(a, b):
                return False
        return True

    def copies_same(self):
        for ob, sn in self.copies:
            if len(self.snap(ob)) != len(sn) or not all(
                    (p is None and q is None) or (p is not None and q is not None and np.array_equal(p, q))
                    for s1, s2 in zip(self.snap(ob), sn) for p, q in zip(s1, s2)):
                return False
        return True

    def stat(self):
        ob, rng = self.ob, self.rng
        norm = ob.get_norm() if rng.random() < 0.5 else ob.norm
        n = float(norm)
        if rng.random() < 0.5:
            means = ob.getMeans()
        else:
            means = [ob.mean(i) for i in range(ob.n)]
        cov = ob.getCov() if rng.random() < 0.5 else ob.cov()
        var = ob.getVars() if rng.random() < 0.5 else [ob.std(i) ** 2 for i in range(ob.n)]
        d = self.wden
        corr = ob.getCorrelationMatrix() if rng.random() < 0.5 else ob.corr()
        sd = np.sqrt(np.diag(cov))
        covn = [[as_int(cov[i][j], (n * d) ** 2, 1e-6) for j in range(ob.n)] for i in range(ob.n)]
        for i in range(ob.n):
            for j in range(ob.n):
                exp = cov[i][j] / (sd[i] * sd[j]) if sd[i] > 1e-12 and sd[j] > 1e-12 else None
                if exp is not None and not abs(corr[i][j] - exp) < 1e-9:
                    covn[i][j] = BAD
        return dict(norm=as_int(n, d), sx=[as_int(m, n * d, 1e-6) for m in means], cov=covn,
                    var=[as_int(v, (n * d) ** 2, 1e-6) for v in var])

    def run(self, e, look):
        err = ''
        try:
            self.call(e)
        except Exception as ex:
            err = type(ex).__name__
        obs = dict(err=err)
        try:
            obs['n'] = self.nrows()
            if 'rows' in look:
                obs['rows'] = self.rows()
                if self.cls != 'W':
                    obs['names'] = self.names()
            if 'sep' in look and self.mode != 'single':
                obs['sep'] = self.seps()
            if 'gr' in look and self.mode == 'combined':
                cs = self.ob.getSeparateChains()
                norms = [float(np.sum(c.weights)) for c in cs]
                if not self.prop and len(cs) > 1 and all(len(c.weights) for c in cs) and \
                        max(norms) - min(norms) < 1e-9 and min(norms) > 0 and \
                        any(np.ptp(c.samples[c.weights > 0, 0]) > 0 for c in cs):
                    obs['gr'] = frac_pair(self.ob.getGelmanRubin(nparam=1), 60000)
            if 'copies' in look:
                obs['same'] = self.copies_same()
            if 'given' in look:
                obs['same'] = self.same() and self.copies_same()
            if 'stat' in look and self.scale == 1 and not self.off and self.mode != 'separate' and not self.prop and self.ob.numrows > 0 \
                    and np.sum(self.ob.weights) > 0:
                obs['stat'] = self.stat()
        except Exception as ex:
            obs['err'] = 'observing: %s: %s' % (type(ex).__name__, ex)
            obs['same'] = False
        return dict(e, obs=obs)

    def nrows(self):
        if self.ob.samples is None:
            return sum(len(c.samples) for c in self.ob.getSeparateChains())
        return len(self.ob.samples)

    def weights(self):
        if self.ob.samples is None:
            return np.hstack([c.weights for c in self.ob.getSeparateChains()])
        return self.ob.weights

    def loglikes(self):
        if self.ob.samples is None:
            return np.hstack([c.loglikes for c in self.ob.getSeparateChains()])
        return self.ob.loglikes


def new_event(init, cls, fixdel, obs):
    return dict(op='new', cls=cls, mode=init['mode'], chains=init['chains'], names=init['names'], hasL=init['hasL'],
                wden=init['wden'], minw=init['minw'], fixdel=fixdel, obs=obs)


def start(cls, init, rng, look):
    """returns driver (or None) and first event"""
    try:
        d = Driver(cls, init, rng)
        ev = d.run(dict(op='query'), look)
        return d, new_event(init, cls, cls == 'M', ev['obs'])
    except Exception as ex:
        return None, new_event(init, cls, cls == 'M', dict(err=type(ex).__name__ + ': ' + str(ex)))


def replay(beh, cls, rng, look):
    init = beh['init']
    d, ev = start(cls, init, rng, look)
    out = [ev]
    for h in beh['ops'] if d else []:
        if d.nrows() != h['n']:     # the code took another of the allowed outcomes of the previous step
            break
        out.append(d.run(h['e'], look))
        if out[-1]['obs'].get('n') is None:
            break
    return out


def classes_for(init):
    if init['mode'] == 'single':
        return ['W', 'C']
    return ['C']


# ------------------------------------------------------------------ random scenarios

def rand_init(rng, ncol=None, nchains=None, rows=(1, 8), maxw=6, zero=0.1, wden=None, hasL=None, mode=None, minw=None,
              equalnorm=False, vals=9):
    mode = mode or rng.choice(['single', 'combined', 'combined', 'separate'])
    nch = 1 if mode == 'single' else (nchains or rng.randint(1, 4))
    ncol = ncol or rng.randint(1, 4)
    fixedcol = rng.random() < 0.5 and ncol > 1
    chs = []
    idn = 0
    for c in range(nch):
        n = rng.randint(*rows)
        ch = []
        for k in range(n):
            idn += 1
            x = [rng.randint(-vals, vals) for _ in range(ncol)]
            if fixedcol:
                x[-1] = 3
            ch.append(dict(w=0 if rng.random() < zero else rng.randint(1, maxw), l=2 * rng.randint(0, 3), x=x))
        if all(r['w'] == 0 for r in ch):
            ch[0]['w'] = 1
        chs.append(ch)
    if equalnorm:
        top = max(sum(r['w'] for r in c) for c in chs)
        for c in chs:
            c[rng.randrange(len(c))]['w'] += top - sum(r['w'] for r in c)
    return dict(mode=mode, chains=chs, names=['p%d' % i for i in range(ncol)], hasL=True if hasL is None else hasL,
                wden=wden or 1, minw=rng.random() < 0.3 if minw is None else minw)


def seps_of(d):
    return d.ob.getSeparateChains() if d.mode != 'single' else [d.ob]


def rand_event(rng, d, ops):
    """an applicable operation for the current state of driver d"""
    for _ in range(20):
        op = rng.choice(ops)
        n = d.nrows()
        sep = d.mode == 'separate'
        if n == 0:
            return None
        if op == 'filter':
            if sep and rng.random() < 0.8:
                continue
            p = rng.choice([0.5, 0.8, 0.9])
            m = [rng.random() < p for _ in range(n)]
            if not sep and rng.random() < 0.05:
                m = m + [True]
            if not any(m):
                continue
            return dict(op=op, mask=m)
        if op == 'makesingle':
            if sep:
                return dict(op=op)
            continue
        if op == 'wthin':
            cs = seps_of(d)
            if d.prop or any(not len(c.weights) or np.sum(c.weights) == 0 for c in cs):
                continue
            if rng.random() < 0.1:
                return dict(op=op, k=5, kden=2)
            return dict(op=op, k=rng.choice([1, 2, 2, 3, 3, 4, 5, 7]), kden=1)
        if op == 'burnfrac':
            f = rng.choice([(3, 10), (1, 2), (1, 4), (1, 10), (2, 3)])
            return dict(op=op, num=f[0], den=f[1])
        if op in ('delfixed', 'copy', 'query'):
            if op == 'delfixed':
                cs = d.ob.chains if sep else [d.ob]
                if any(not len(c.samples) for c in cs):
                    continue
                a = np.vstack([c.samples for c in cs])
                if np.all(np.ptp(a, axis=0) == 0):
                    continue
            return dict(op=op)
        if sep:
            continue
        if op == 'filterix':
            m = [i for i in range(n) if rng.random() < 0.7]
            if not m:
                continue
            return dict(op=op, ix=m)
        if op == 'delzeros':
            return dict(op=op)
        if op == 'minweight':
            if d.prop:
                continue
            return dict(op=op, num=1, den=rng.choice([2, 3, 5]))
        if op == 'burnrows':
            return dict(op=op, n=rng.randint(1, max(1, n // 3)))
        if op == 'thin':
            if d.prop or np.sum(d.weights()) == 0:
                continue
            if rng.random() < 0.1:
                return dict(op=op, k=5, kden=2)
            return dict(op=op, k=rng.choice([1, 2, 2, 3, 3, 4, 5, 7]), kden=1)
        if op == 'reweight':
            if d.budget <= 0:
                continue
            d.budget -= 3
            return dict(op=op, d=[rng.randint(-1, 2) for _ in range(n)])
        if op == 'cool':
            if not d.hasL or d.budget <= 0:
                continue
            ll = [as_int(v, 1 / LN2, 1e-6) for v in d.loglikes()]
            rg = max(ll) - min(ll)
            opts = []
            if rg <= d.budget:
                opts.append((2, 1))
            if rg * 2 <= d.budget:
                opts.append((3, 1))
            if all(v % 2 == 0 for v in ll) and rg / 2 <= d.budget:
                opts.append((1, 2))
            if all(v % 2 == 0 for v in ll) and rg / 2 <= d.budget:
                opts.append((3, 2))
            if not opts:
                continue
            o = rng.choice(opts)
            d.budget -= int(rg * abs(o[0] / o[1] - 1))
            return dict(op=op, num=o[0], den=o[1])
        if op == 'addcol':
            names = d.ob.getParamNames().list() if d.cls != 'W' else []
            if d.cls == 'W' or len(names) > 6:
                continue
            r = rng.random()
            if r < 0.1:
                return dict(op=op, name=rng.choice(names), vec=[rng.randint(0, 9) for _ in range(n)])
            if r < 0.15 and n > 1:
                return dict(op=op, name='bad', vec=[1] * (n + 1))
            return dict(op=op, name='d%d' % rng.randint(0, 99), vec=[rng.randint(0, 9) for _ in range(n)])
    return None


def random_scenarios(rng, count, ops, look, classes=('W', 'C', 'C', 'M'), length=(2, 7), **kw):
    out = []
    while len(out) < count:
        cls = rng.choice(classes)
        k = dict(kw)
        if cls == 'W':
            k['mode'] = 'single'
        if cls == 'M':
            k['mode'] = k.get('mode') or rng.choice(['single', 'combined'])
            if k['mode'] == 'separate':
                k['mode'] = 'combined'
            k.setdefault('rows', (5, 9))
            k['minw'] = True
        init = rand_init(rng, **k)
        # every chain must keep at least one non-fixed column for MCSamples
        if cls == 'M':
            a = np.array([r['x'] for c in init['chains'] for r in c if r['w'] > 0])
            if np.all(np.ptp(a, axis=0) == 0):
                continue
        d, ev = start(cls, init, rng, look)
        sc = [ev]
        if d:
            d.budget = 6
            for _ in range(rng.randint(*length)):
                try:
                    e = rand_event(rng, d, ops)
                except Exception as ex:     # the object can no longer be inspected
                    sc.append(dict(op='query', obs=dict(err='%s: %s' % (type(ex).__name__, ex), same=False)))
                    break
                if e is None:
                    break
                r = d.run(e, look)
                sc.append(r)
                if r['obs']['err'].startswith('observing'):
                    break
                if r['obs']['err'] and r['op'] != 'filter' and r['op'] not in ('thin', 'wthin', 'addcol'):
                    break
                if d.nrows() == 0:
                    break
                if d.mode == 'separate' and any(len(c.samples) == 0 for c in d.ob.chains):
                    break
        out.append(sc)
    return out


ALLOPS = ["filter", "filterix", "delzeros", "minweight", "burnrows", "burnfrac", "thin", "wthin", "reweight", "cool",
          "addcol", "delfixed", "copy", "makesingle"]


def tlaset(ops):
    return '{' + ','.join('"%s"' % o for o in ops) + '}'


def key_of(sc, j):
    return '%s/%s/%s' % (sc[0]['cls'], sc[0]['mode'], sc[j]['op'])


def common(c, ops, look, ndepth, nrand, randkw=None, sub=None):
    """model-check, replay every behaviour of the model, then random histories"""
    c.model('MCChains', consts=dict(Depth=2))
    r = c.model('MCChains', consts=dict(Depth=ndepth, Ops=tlaset(ops), Emit='TRUE'))
    beh = behaviours(r.out)
    if sub and len(beh) > sub:
        beh = c.rng.sample(beh, sub)
    scs = []
    for b in beh:
        for cls in classes_for(b['init']):
            if cls == 'W' and any(h['e']['op'] == 'addcol' for h in b['ops']):
                continue
            scs.append(replay(b, cls, c.rng, look))
    c.extra['behaviours_replayed'] = len(scs)
    c.trace('TraceChains', scs, 'behaviours', key=key_of)
    rs = random_scenarios(c.rng, nrand, ops, look, **(randkw or {}))
    c.trace('TraceChains', rs, 'random histories', key=key_of)
    ops_seen = {}
    for s in scs + rs:
        for e in s:
            ops_seen[e['op']] = ops_seen.get(e['op'], 0) + 1
    c.extra['events_by_operation'] = ops_seen
    c.assumptions.append('parameter values, weights and log-likelihoods are taken from small integer grids '
                         '(log-likelihoods in units of ln 2) so that every expected value is exact')


def check_C01():
    c = Check('C01')
    common(c, ALLOPS, {'rows', 'copies'}, 3 if c.thorough else 2, 12000 if c.thorough else 1500,
           sub=60000 if c.thorough else 8000)
    rs = random_scenarios(c.rng, 3000 if c.thorough else 400, ALLOPS, {'rows', 'copies'}, rows=(10, 60), length=(3, 10))
    c.trace('TraceChains', rs, 'larger sample sets', key=key_of)
    rs = random_scenarios(c.rng, 2000 if c.thorough else 300, [o for o in ALLOPS if o != 'cool'], {'rows', 'copies'},
                          hasL=False)
    c.trace('TraceChains', rs, 'no log-likelihoods', key=key_of)
    rs = extra_scenarios(c.rng, 1500 if c.thorough else 250, ['merge'], dots=True)
    c.trace('TraceChains', rs, 'combining two sample sets', key=key_of)
    return c.finish()


def check_C02():
    c = Check('C02')
    ops = [o for o in ALLOPS if o not in ('copy',)]
    look = {'sep'}
    common(c, ops, look, 3 if c.thorough else 2, 10000 if c.thorough else 1500, sub=50000 if c.thorough else 8000,
           randkw=dict(classes=('C', 'C', 'M')))
    rs = random_scenarios(c.rng, 4000 if c.thorough else 800, ops, {'sep', 'gr'}, classes=('C', 'M'), mode='combined',
                          equalnorm=True, length=(1, 4), rows=(3, 4), zero=0.05, maxw=3, vals=3, nchains=2 + c.rng.randint(0, 1))
    c.extra['gelman_rubin_observations'] = sum('gr' in e['obs'] for s in rs for e in s)
    c.trace('TraceChains', rs, 'equal-norm chains (R-1)', key=key_of)
    rs = random_scenarios(c.rng, 2000 if c.thorough else 300, [o for o in ops if o != 'cool'], {'sep'}, hasL=False,
                          classes=('C', 'C', 'M'), mode='combined')
    c.trace('TraceChains', rs, 'no log-likelihoods', key=key_of)
    return c.finish()


# ------------------------------------------------------------------ C03

def check_C03():
    c = Check('C03')
    r = c.model('MCThin', consts=dict(MaxLen=5, MaxW=4, MaxK=6) if c.thorough else None)
    cases = behaviours(r.out)
    look = {'rows'}
    scs = []
    for b in cases:
        rows = [dict(w=w, l=k, x=[k + 1, 7 - k]) for k, w in enumerate(b['ws'])]
        init = dict(mode='single', chains=[rows], names=['a', 'b'], hasL=True, wden=1, minw=False)
        cls = c.rng.choice(['W', 'C'])
        for op in ('thin', 'wthin'):
            d, ev = start(cls, init, c.rng, look)
            sc = [ev]
            if d:
                sc.append(thin_ix_event(d, b['k'], c.rng))
                sc.append(d.run(dict(op=op, k=b['k'], kden=1), look))
            scs.append(sc)
    c.extra['weight_vector_cases'] = len(cases)
    c.extra['exhaustive'] = True
    c.trace('TraceChains', scs, 'all small weight vectors', key=key_of)
    rs = []
    for _ in range(3000 if c.thorough else 500):
        big = c.rng.random() < 0.3
        kw = dict(maxw=c.rng.choice([1, 2, 6, 30]), rows=(1, 25), zero=c.rng.choice([0, 0.1, 0.5]), ncol=2, minw=False)
        cls = c.rng.choice(['W', 'C', 'C', 'M'])
        if cls == 'M':
            kw['rows'] = (6, 25)
            kw['minw'] = True
        mode = 'single' if cls == 'W' else c.rng.choice(['single', 'combined'] + (['separate'] if cls == 'C' else []))
        init = rand_init(c.rng, mode=mode, wden=c.rng.choice([1, 1, 1, 2]), hasL=c.rng.random() < 0.8, **kw)
        d, ev = start(cls, init, c.rng, {'rows', 'sep'} if mode != 'single' else {'rows'})
        sc = [ev]
        if d:
            for _k in range(c.rng.randint(1, 3)):
                k = c.rng.choice([1, 2, 3, 4, 5, 8, 13, 40])
                kden = 2 if c.rng.random() < 0.1 and k % 2 else 1
                try:
                    cs = seps_of(d)
                    if any(not len(x.weights) or np.sum(x.weights) == 0 for x in cs):
                        break
                except Exception as ex:
                    sc.append(dict(op='query', obs=dict(err='%s: %s' % (type(ex).__name__, ex))))
                    break
                if mode != 'separate' and kden == 1:
                    sc.append(thin_ix_event(d, k, c.rng))
                op = 'wthin' if mode == 'separate' else c.rng.choice(['thin', 'wthin'])
                sc.append(d.run(dict(op=op, k=k, kden=kden), {'rows', 'sep'} if mode != 'single' else {'rows'}))
                if d.wden != 1 and not sc[-1]['obs']['err']:
                    d.wden = 1
        rs.append(sc)
    c.trace('TraceChains', rs, 'random weights and factors', key=key_of)
    rs = extra_scenarios(c.rng, 1500 if c.thorough else 250, ['thinfile', 'pick'])
    c.trace('TraceChains', rs, 'thinned files and random single samples', key=key_of)
    c.assumptions.append('random single samples are judged by how often each row is taken (six standard deviations)')
    c.assumptions.append('the first sample may additionally be kept (documented behaviour of the fast path)')
    return c.finish()


def thin_ix_event(d, k, rng):
    """thin_indices and thin_indices_and_weights for the current weights"""
    obs = dict(err='', n=d.nrows())
    try:
        w = d.ob.weights
        ix = d.ob.thin_indices(k) if rng.random() < 0.5 else d.ob.thin_indices(k, weights=w.copy())
        obs['ix'] = [as_int(i) for i in ix]
        u, cnt = d.ob.thin_indices_and_weights(k, w)
        obs['uix'] = [[as_int(a), as_int(b)] for a, b in zip(u, cnt)]
    except Exception as ex:
        obs['err'] = type(ex).__name__
    return dict(op='thinix', k=k, kden=1, obs=obs)


def thin_file_event(d, k, rng, tdir):
    """the file of thinned samples, written for the current samples"""
    obs = dict(err='', n=d.nrows())
    cool = rng.choice([(1, 1), (1, 1), (2, 1), (1, 2)])
    ix = []
    try:
        ix = [as_int(i) for i in d.ob.thin_indices(k)]
        ll = [as_int(v, 1 / LN2, 1e-6) for v in d.ob.loglikes]
        if max(ll) - min(ll) > 8 or cool[1] == 2 and any(v % 2 for v in ll):
            cool = (1, 1)
        f = os.path.join(tdir, 'thin%d.txt' % rng.randrange(10 ** 9))
        with contextlib.redirect_stdout(io.StringIO()):
            d.ob.writeThinData(f, d.ob.thin_indices(k), cool=cool[0] / cool[1])
        obs['file'] = file_rows(d, f, cool != (1, 1))
    except Exception as ex:
        obs['err'] = '%s: %s' % (type(ex).__name__, ex)
    return dict(op='thinfile', ix=ix, num=cool[0], den=cool[1], obs=obs)


def file_rows(d, f, prop=False):
    with open(f) as fh:
        a = [[float(v) for v in line.split()] for line in fh if line.strip()]
    w = ratio_near([r[0] for r in a]) if prop else [as_int(r[0], 1, 1e-6) for r in a]
    return [dict(w=w[k], l=as_int(r[1], 1 / LN2, 1e-5), x=[as_int(v, 1, 1e-5) for v in r[2:]]) for k, r in enumerate(a)]


def ratio_near(ws):
    """ratios (powers of two) of numbers given to seven digits"""
    mn = min(ws) if ws else 1
    if not mn > 0:
        return [BAD] * len(ws)
    return [as_int(w / mn, 1, 1e-5 * w / mn) for w in ws]


def pick_event(d, rng, tdir, draws=60):
    """random single samples of the current samples, several draws"""
    n = d.nrows()
    obs = dict(err='', n=n)
    kind = rng.choice(['ix', 'ix', 'arr', 'file'] if d.cls == 'M' else ['ix'])
    t = rng.choice([(1, 1), (1, 1), (2, 1), (3, 2)])
    cnt, ordered = [0] * n, True
    try:
        rows = [list(map(float, r)) for r in d.ob.samples]
        if kind != 'ix' and (len(set(map(tuple, rows))) != n or kind == 'file' and not d.hasL):
            kind = 'ix'
        for k in range(draws):
            rs = rng.randrange(10 ** 9)
            thin = t[0] / t[1] if t != (1, 1) or rng.random() < 0.5 else None
            if kind == 'ix':
                ix = [int(i) for i in d.ob.random_single_samples_indices(random_state=rs, thin=thin)]
            elif kind == 'arr':
                a = d.ob.makeSingleSamples(single_thin=thin, random_state=rs)
                ix = [rows.index(list(map(float, r))) for r in a]
            else:
                f = os.path.join(tdir, 'single.txt')
                d.ob.makeSingleSamples(f, single_thin=thin, random_state=rs)
                now = d.rows()
                ix = []
                for r in file_rows(d, f):
                    m = [i for i in range(n) if now[i]['x'] == r['x']]
                    if r['w'] != 1 or not m or now[m[0]]['l'] != r['l']:
                        ordered = False
                    else:
                        ix.append(m[0])
            ordered = ordered and all(i < j for i, j in zip(ix, ix[1:]))
            for i in ix:
                cnt[i] += 1
        obs.update(cnt=cnt, ordered=ordered)
    except Exception as ex:
        obs['err'] = '%s: %s' % (type(ex).__name__, ex)
    return dict(op='pick', kind=kind, tnum=t[0], tden=t[1], draws=draws, obs=obs)


def merge_event(d, rng):
    """samples appended to those of another set, for the common parameters"""
    names = d.ob.getParamNames().list()
    pool = names + ['q1', 'q2']
    onames = rng.sample(pool, rng.randint(1, len(pool)))
    if not any(x in names for x in onames):
        onames.append(names[0])
    n = rng.randint(3, 7)
    rows = [dict(w=rng.randint(1, 4), l=2 * rng.randint(0, 3), x=[k * k + 3 * j + k for j in range(len(onames))])
            for k in range(n)]
    app, sw = rng.random() < 0.3, rng.choice([(1, 1), (1, 1), (2, 1), (1, 3)])
    obs = dict(err='', n=d.nrows())
    try:
        o = MCSamples(samples=np.array([r['x'] for r in rows], dtype=float), weights=np.array([r['w'] for r in rows]),
                      loglikes=np.array([r['l'] * LN2 for r in rows]), names=onames, settings={'ignore_rows': 0})
        if app:
            m = d.ob.getCombinedSamplesWithSamples(o, None)
        elif sw == (1, 1) and rng.random() < 0.7:
            m = d.ob.getCombinedSamplesWithSamples(o)
        else:
            m = d.ob.getCombinedSamplesWithSamples(o, sample_weights=sw)
        obs['mnames'] = m.getParamNames().list()
        w = ratio_ints(m.weights)
        obs['merged'] = [dict(w=w[k], l=as_int(m.loglikes[k], 1 / LN2, 1e-6) if m.loglikes is not None else BAD,
                              x=[as_int(v) for v in m.samples[k]]) for k in range(m.numrows)]
    except Exception as ex:
        obs['err'] = '%s: %s' % (type(ex).__name__, ex)
    return dict(op='merge', other=dict(names=onames, rows=rows), app=app, sw=list(sw), obs=obs)


def extra_scenarios(rng, count, kinds, dots=False):
    """histories of changes interleaved with thinned files, random single samples and merging"""
    out = []
    with tempfile.TemporaryDirectory() as tdir:
        while len(out) < count:
            kind = rng.choice(kinds)
            cls = 'M' if kind != 'pick' else rng.choice(['M', 'M', 'C', 'W'])
            mode = 'single' if cls == 'W' else rng.choice(['single', 'combined'])
            init = rand_init(rng, mode=mode, rows=(6, 14), maxw=rng.choice([1, 3, 6]), minw=True, hasL=True, vals=40)
            if dots:
                init['names'] = [n if rng.random() < 0.5 else 'sub.' + n for n in init['names']]
            a = np.array([r['x'] for c in init['chains'] for r in c if r['w'] > 0])
            if np.all(np.ptp(a, axis=0) == 0):
                continue
            d = Driver.__new__(Driver)
            try:
                d.fixscale = True
                d.__init__(cls, init, rng)
                ev = new_event(init, cls, cls == 'M', d.run(dict(op='query'), {'rows'})['obs'])
            except Exception as ex:
                out.append([new_event(init, cls, cls == 'M', dict(err='%s: %s' % (type(ex).__name__, ex)))])
                continue
            sc = [ev]
            d.budget = 0
            for _ in range(rng.randint(1, 3)):
                try:
                    if rng.random() < 0.7 and len(sc) > 1:
                        e = rand_event(rng, d, ['filter', 'burnrows', 'filterix', 'addcol', 'wthin', 'thin'])
                        if e is None:
                            break
                        sc.append(d.run(e, {'rows'}))
                    if d.nrows() < 2:
                        break
                    if kind == 'thinfile':
                        e = thin_file_event(d, rng.choice([1, 2, 3, 5]), rng, tdir)
                    elif kind == 'pick':
                        e = pick_event(d, rng, tdir)
                    else:
                        if np.any(np.ptp(d.ob.samples, axis=0) == 0):
                            break
                        e = merge_event(d, rng)
                    sc.append(e)
                except Exception as ex:
                    sc.append(dict(op='query', obs=dict(err='%s: %s' % (type(ex).__name__, ex), same=False)))
                    break
            out.append(sc)
    return out


# ------------------------------------------------------------------ C05

def check_C05():
    c = Check('C05')
    look = {'rows', 'given'}
    ops = ['reweight', 'cool', 'filter', 'addcol', 'copy', 'burnrows']
    common(c, ops, look, 3 if c.thorough else 2, 8000 if c.thorough else 1500, sub=30000 if c.thorough else 6000)
    rs = random_scenarios(c.rng, 4000 if c.thorough else 800, ['reweight', 'cool', 'reweight', 'cool', 'filter'], look,
                          length=(1, 4), rows=(2, 30), zero=0.05)
    c.trace('TraceChains', rs, 'mostly reweighting', key=key_of)
    rs = random_scenarios(c.rng, 2000 if c.thorough else 300, ['reweight', 'reweight', 'filter', 'addcol'], look,
                          length=(1, 4), hasL=False)
    c.trace('TraceChains', rs, 'no log-likelihoods', key=key_of)
    # wide dynamic range: compare exponents only (spec: relative weight change = 2^-change)
    scs = []
    for _ in range(2000 if c.thorough else 300):
        n = c.rng.randint(2, 12)
        spread = c.rng.choice([10, 100, 400, 900])
        l0 = [c.rng.randint(0, spread) for _ in range(n)]
        off = c.rng.choice([0, 0, 3000, -2000])
        l0 = [v + off for v in l0]
        cls = c.rng.choice(['W', 'C'])
        init = dict(mode='single', chains=[[dict(w=1, l=v, x=[k, k * k]) for k, v in enumerate(l0)]],
                    names=['a', 'b'], hasL=True, wden=1, minw=False)
        d = Driver(cls, init, c.rng)
        if c.rng.random() < 0.5:
            e = dict(op='reweight', d=[c.rng.randint(0, spread) - c.rng.choice([0, 1500]) for _ in range(n)])
            dd = e['d']
        else:
            num, den = c.rng.choice([(2, 1), (3, 1), (1, 2), (5, 1)])
            l0 = [v - v % den for v in l0]
            init['chains'] = [[dict(w=1, l=v, x=[k, k * k]) for k, v in enumerate(l0)]]
            d = Driver(cls, init, c.rng)
            e = dict(op='cool', num=num, den=den)
            dd = [v * num // den - v for v in l0]
        err = ''
        try:
            d.call(e)
        except Exception as ex:
            err = type(ex).__name__
        w = d.ob.weights
        top = float(np.max(w))
        lw = []
        for v in w:
            if not (v == v) or v == float('inf') or not top > 0:
                lw.append(99999)
            elif v / top <= 2.0 ** -1000:
                lw.append(-99999)            # below what floating point represents
            else:
                lw.append(as_int(math.log2(v / top), 1, 1e-6))
        scs.append([dict(op='wide', d=dd, l0=l0, obs=dict(
            err=err, lw=lw, l=[as_int(v, 1 / LN2, 1e-6) for v in d.ob.loglikes]))])
    c.trace('TraceWide', scs, 'wide dynamic range')
    return c.finish()


# ------------------------------------------------------------------ C04

def same_text(u, v):
    """the same text up to rounding of the last digits printed (so -0.0000 is 0.0000)"""
    if not isinstance(u, str) or not isinstance(v, str):
        return False
    tu, tv = u.split(), v.split()
    if len(tu) != len(tv):
        return False
    for a, b in zip(tu, tv):
        if a != b:
            try:
                x, y = float(a), float(b)
            except ValueError:
                return False
            digits = len(a.split('.')[1].split('e')[0].split('E')[0]) if '.' in a else 0
            scale = 10. ** int(a.lower().split('e')[1]) if 'e' in a.lower() else 1.
            if not abs(x - y) <= 2.01 * scale * 10. ** -digits:
                return False
    return True


class StatObject:
    """an MCSamples with history of modifications, and fresh re-creations of every version"""

    def __init__(self, rng):
        self.rng = rng
        npr = np.random.RandomState(rng.randint(0, 2 ** 31 - 1))
        self.npr = npr
        xs, ws, ls = [], [], []
        for k in range(2):
            n = rng.randint(40, 60)
            a = npr.normal(size=n)
            b = 0.6 * a + npr.normal(size=n) + 5
            cc = np.zeros(n)
            cc[::9] = npr.normal(size=len(cc[::9]))
            e = np.abs(npr.normal(size=n)) + 0.01
            xs.append(np.array([a, b, cc, e]).T)
            ws.append(npr.randint(1, 5, size=n).astype(float))
            ls.append((a ** 2 + e ** 2) / 2 + npr.random(n))
        self.settings = {'ignore_rows': 0}
        self.ranges = {'e': [0, None]}
        self.ob = MCSamples(samples=xs, weights=ws, loglikes=ls, names=['a', 'b', 'c', 'e'], labels=['A', 'B', 'C', 'E'],
                            settings=dict(self.settings), ranges=dict(self.ranges))
        self.versions = []
        self.nder = 0
        self.snapshot()

    def snapshot(self):
        ob = self.ob
        offs = [len(ch.weights) for ch in ob.getSeparateChains()]
        self.versions.append(dict(x=ob.samples.copy(), w=ob.weights.copy(), l=ob.loglikes.copy(), offs=offs,
                                  names=[(p.name, p.label, p.isDerived) for p in ob.paramNames.names],
                                  ranges=copy.deepcopy(ob.ranges), settings=dict(self.settings)))

    def fresh(self, v):
        from getdist.paramnames import ParamNames
        s = self.versions[v]
        pn = ParamNames(names=[n for n, _, _ in s['names']], labels=[lab for _, lab, _ in s['names']])
        for p, (_, _, der) in zip(pn.names, s['names']):
            p.isDerived = der
        xs, ws, ls, k = [], [], [], 0
        for n in s['offs']:
            xs.append(s['x'][k:k + n].copy()), ws.append(s['w'][k:k + n].copy()), ls.append(s['l'][k:k + n].copy())
            k += n
        return MCSamples(samples=xs, weights=ws, loglikes=ls, names=pn, settings=dict(s['settings']),
                         ranges=copy.deepcopy(s['ranges']))

    def modify(self, m):
        ob, rng, npr = self.ob, self.rng, self.npr
        n = ob.numrows
        if m == 'filter':
            ob.filter(npr.random(n) < 0.9)
        elif m == 'filterix':
            ob.filter(np.sort(npr.choice(n, n - 4, replace=False)))
        elif m == 'reweight':
            ob.reweightAddingLogLikes(npr.random(n) * 2)
        elif m == 'cool':
            ob.cool(rng.choice([0.7, 1.3]))
        elif m == 'addcol':
            self.nder += 1
            ob.addDerived(ob.samples[:, 0] ** 2 + ob.samples[:, 1], 'd%d' % self.nder, label='D%d' % self.nder)
        elif m == 'delfixed':
            if 'c' in ob.paramNames.list():
                col = ob.samples[:, ob.paramNames.list().index('c')]
                ob.filter(col == np.median(col))
            ob.deleteFixedParams()
        elif m == 'burn':
            ob.removeBurn(rng.choice([3, 0.1]))
        elif m == 'thin':
            ob.setSamples(ob.samples, np.round(ob.weights) + 1, ob.loglikes, min_weight_ratio=-1)
            ob.thin(2)
        elif m == 'wthin':
            ob.setSamples(ob.samples, np.round(ob.weights) + 1, ob.loglikes, min_weight_ratio=-1)
            ob.weighted_thin(2)
        elif m == 'contours':
            self.settings['contours'] = rng.choice(['0.5 0.9', '0.6 0.8', '0.68 0.95 0.99'])
            ob.updateSettings({'contours': self.settings['contours']})
        elif m == 'settings':
            self.settings['smooth_scale_1D'] = rng.choice([0.4, 0.6, 3])
            self.settings['num_bins'] = rng.choice([60, 90])
            ob.updateSettings({k: self.settings[k] for k in ('smooth_scale_1D', 'num_bins')})
        elif m == 'ranges':
            ob.setRanges({'a': [float(np.min(ob.samples[:, 0])) - rng.choice([0, 0.01, 0.1]), None]})
        elif m == 'setsamples':
            ob.changeSamples(ob.samples * 1.25 + 0.5)
        elif m == 'delzeros':
            w = ob.weights.copy()
            w[npr.randint(n)] = 0
            ob.setSamples(ob.samples, w, ob.loglikes, min_weight_ratio=-1)
            ob.deleteZeros()
        elif m == 'minweight':
            ob.setMinWeightRatio(0.3)
        elif m == 'none':
            return self.snapshot()
        if any(np.all(ob.samples[:, k] == ob.samples[0, k]) for k in range(ob.n)):
            ob.deleteFixedParams()     # a new object created from the samples would not have them
        self.snapshot()

    @staticmethod
    def report(ob, q):
        if q == 'basic':
            return list(ob.getMeans()) + list(ob.getVars()) + list(np.ravel(ob.getCov())) + [
                ob.get_norm(), ob.mean('b'), ob.std('b'), ob.var(0)] + list(ob.mean([0, 1])) + list(np.ravel(ob.cov([0, 1])))
        if q == 'corr':
            return list(np.ravel(ob.getCorrelationMatrix())) + list(np.ravel(ob.corr([0, 1])))
        if q == 'marge':
            m = ob.getMargeStats()
            res = list(m.limits)
            for p in m.names:
                res += [p.name, p.label, p.mean, p.err]
                for lim in p.limits:
                    res += [lim.lower, lim.upper, lim.limitTag()]
            return res
        if q == 'like':
            m = ob.getLikeStats()
            res = [m.logLike_sample, m.meanLogLike, m.logMeanLike, m.complexity, m.logMeanInvLike]
            for p in m.names:
                res += [p.name, p.bestfit_sample] + list(p.ND_limit_bot) + list(p.ND_limit_top)
            return res
        if q == 'covmat':
            m = ob.getCovMat()
            return list(m.paramNames) + list(np.ravel(m.matrix))
        if q == 'dens1d':
            res = []
            for nm in ('a', 'e'):
                d = ob.get1DDensity(nm)
                res += list(d.x) + list(d.P)
            return res
        if q == 'dens1dset':
            d = ob.get1DDensity('a', num_bins=30)
            d2 = ob.get1DDensity('e', smooth_scale_1D=0.5)
            ob.get1DDensity('a', fine_bins=200)
            return list(d.x) + list(d.P) + list(d2.P)
        if q == 'dens2d':
            d = ob.get2DDensity('a', 'e', fine_bins_2D=64)
            return list(d.x) + list(d.y) + list(np.ravel(d.P))
        if q == 'bestfit':
            return [x for kv in ob.getParamBestFitDict(best_sample=True).items() for x in kv]
        if q == 'conf':
            return list(ob.twoTailLimits(0, 0.9)) + [ob.confidence('b', 0.1), ob.confidence('b', 0.1, upper=True)]
        if q == 'latex':
            return list(ob.getLatex()[1]) + [ob.getInlineLatex('a'), ob.getTable().tableTex()]
        if q == 'pairs':
            return [x for p in ob.getCorrelatedVariable2DPlots(nparam=3) for x in p]
        if q == 'summary':
            return [ob.getNumSampleSummaryText()]
        if q == 'limits':
            return [ob.getLower('a'), ob.getUpper('a'), ob.getLower('e'), ob.getLower('b')]
        if q == 'converge':
            return [ob.getConvergeTests(what=('MeanVar', 'GelmanRubin', 'SplitTest'))]
        if q == 'pca':
            return [ob.PCA(['a', 'b'], param_map='NN')]
        raise KeyError(q)

    @staticmethod
    def equal(a, b, tol=1e-7):
        if len(a) != len(b):
            return False
        for u, v in zip(a, b):
            if isinstance(u, (str, bool)) or u is None or isinstance(v, str) or v is None:
                if u != v and not same_text(u, v):
                    return False
            elif not (u == v or abs(u - v) <= tol * max(abs(u), abs(v), 1e-3 if tol < 1e-6 else 1.)):
                return False
        return True

    def query(self, q):
        try:
            rep = self.report(self.ob, q)
        except Exception as ex:
            return dict(err='%s: %s' % (type(ex).__name__, ex), vers=[])
        vers = []
        # bandwidth optimization amplifies rounding errors
        tol = {'dens1d': 1e-4, 'dens1dset': 1e-4, 'dens2d': 1e-4, 'marge': 1e-4}.get(q, 1e-7)
        order = [len(self.versions) - 1] + list(range(len(self.versions) - 1))
        for v in order:
            try:
                if self.equal(rep, self.report(self.fresh(v), q), tol):
                    vers.append(v)
            except Exception as ex:
                if v == order[0]:
                    return dict(err='', vers=[v], note='fresh object cannot report either: %s' % ex)
            if vers:
                break
        return dict(err='', vers=vers)


def stat_scenario(args):
    import random
    hist, seed = args
    rng = random.Random(seed)
    try:
        so = StatObject(rng)
    except Exception as ex:
        return [dict(op='new', obs=dict(err='')), dict(op='mod', a='create', obs=dict(err='%s: %s' % (type(ex).__name__, ex)))]
    out = [dict(op='new', obs=dict(err=''))]
    for h in hist:
        if h['k'] == 'mod':
            err = ''
            try:
                so.modify(h['a'])
            except Exception as ex:
                err = '%s: %s' % (type(ex).__name__, ex)
            out.append(dict(op='mod', a=h['a'], obs=dict(err=err)))
            if err:
                break
        else:
            out.append(dict(op='query', a=h['a'], obs=so.query(h['a'])))
    return out


def check_C04():
    from multiprocessing import Pool
    c = Check('C04')
    r = c.model('Stats')
    beh = behaviours(r.out)
    if not c.thorough:
        # every (modification, query) pair, with differing earlier queries
        by = {}
        for b in beh:
            by.setdefault((b[1]['a'], b[2]['a']), []).append(b)
        beh = []
        for k in sorted(by):
            same = [b for b in by[k] if b[0]['a'] == k[1]]
            beh += by[k] if k[0] == 'none' else same + c.rng.sample(by[k], 4)
    longer = []
    mods = sorted({b[1]['a'] for b in beh})
    qs = sorted({b[2]['a'] for b in beh})
    for _ in range(2000 if c.thorough else 100):
        h = []
        for _k in range(c.rng.randint(3, 8)):
            h.append(dict(k='mod', a=c.rng.choice(mods)) if c.rng.random() < 0.5 else dict(k='query', a=c.rng.choice(qs)))
        longer.append(h + [dict(k='query', a=c.rng.choice(qs))])
    jobs = [(b, '%s/%d' % (c.seed, k)) for k, b in enumerate(beh + longer)]
    with Pool(8) as p:
        scs = p.map(stat_scenario, jobs, chunksize=8)
    c.extra['query_histories'] = len(scs)
    c.trace('TraceStats', scs, 'query/modify histories', key=lambda sc, j: '%s after %s' % (
        sc[j].get('a'), [e['a'] for e in sc[1:j] if e['op'] == 'mod'][-1:]))
    ops = [o for o in ALLOPS if o not in ('reweight', 'cool')]
    rs = random_scenarios(c.rng, 6000 if c.thorough else 1000, ops, {'stat'}, vals=6, maxw=4,
                          rows=(3, 8))
    c.extra['exact_statistics_checked'] = sum('stat' in e['obs'] for s in rs for e in s)
    c.trace('TraceChains', rs, 'exact weighted statistics', key=key_of)
    c.assumptions.append('a freshly created object is the reference for densities, limits and tables; means, variances, '
                         'covariances and correlations are compared with exact values')
    return c.finish()
