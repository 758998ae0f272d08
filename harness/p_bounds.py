"""C14: parameter bounds; bound to spec/Bounds.tla"""
import copy
import json
import os
import random
import shutil

import numpy as np
import yaml

from getdist import MCSamples, chains as gd_chains
from getdist.inifile import IniFile
from getdist.parampriors import ParamBounds
from getdist import cobaya_interface
from harness.core import Check, behaviours
from harness.p_ini import pmap, tmpdir, sample

gd_chains.print_load_details = False
np.seterr(all='ignore')
VALS = ['0.0', '1.0', '-1.0', '2.0', '0.5', '-2.5', '0.022383', '1e-05', '123456.78', '-3.1415927', '67.36', '12345678.0',
        '-1.2345678e-12', '3e+20', '9.9999999', '1.0000001']
POOL = ['x', 'y', 'z', 'omegabh2', 'w', 'wa', 'H0', 'a.b', 'N', 'chi2_x']


def tok(v):
    return 'N' if v is None else repr(float('%.12g' % float(v)) + 0.0)


def rand_r(rng):
    r = [rng.choice(VALS), rng.choice(VALS)]
    k = rng.random()
    if k < 0.2:
        r[0] = 'N'
    elif k < 0.4:
        r[1] = 'N'
    elif k < 0.5:
        r = ['N', 'N']
    elif k < 0.65:
        r[1] = r[0]
    return r


class W:
    def __init__(self, rng):
        self.rng = rng
        self.dir = tmpdir(rng)
        self.o = {}
        self.files = []
        self.n = 0

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def value(self, t, k):
        rng = self.rng
        if t == 'N':
            return rng.choice(['N', None, -np.inf if k == 0 else np.inf])
        f = float(t)
        return rng.choice([f, t, np.float64(f), '%.9e' % f] + ([int(f)] if f == int(f) and abs(f) < 1e9 else []))

    def rng_of(self, r):
        v = [self.value(t, k) for k, t in enumerate(r)]
        return tuple(v) if self.rng.random() < 0.5 else v

    def path(self, ext):
        self.n += 1
        return os.path.join(self.dir, 'f%d%s' % (self.n, ext))

    def write(self, lines, ext=None):
        f = self.path(ext or self.rng.choice(['.ranges', '.bounds']))
        with open(f, 'w') as h:
            for l in lines:
                h.write(self.rng.choice(['', ' ', '\t']) + self.rng.choice([' ', '   ', '\t']).join(
                    [l[0]] + [t if t == 'N' else '%.9g' % float(t) for t in l[1:]]) + self.rng.choice(['', ' ']) + '\n')
        return f

    def ranges(self, o):
        x = self.o[o]
        return x.ranges if isinstance(x, MCSamples) else x

    def one(self, o):
        x = self.o[o]
        mc = isinstance(x, MCSamples)
        own = []
        if mc:
            own = [dict(n=p, r=[tok(x.getLower(p)), tok(x.getUpper(p))]) for p in x.paramNames.list()]
            g = x.getBounds()
            for q in own:
                if [tok(g.getLower(q['n'])), tok(g.getUpper(q['n']))] != q['r']:
                    q['r'] = ['getBounds', 'differs']
        b = self.ranges(o)
        fixed = b.fixedValueDict()
        if mc:
            d = x.getParamSampleDict(0)
            cols = x.paramNames.list()
            d2 = x.getParamSampleDict(0, want_fixed=False)
            if sorted(set(d) - set(cols) - {'weight', 'loglike'}) != sorted(set(fixed) - set(cols)) or \
                    any(tok(d[n]) != tok(v) for n, v in fixed.items()) or set(d2) - {'weight', 'loglike'} != set(cols):
                fixed = {'wrong sample dict': 0}
        for n in POOL:
            if b.fixedValue(n) != fixed.get(n):
                fixed['differs'] = 1
        return dict(o=o, r=[dict(n=n, r=[tok(b.getLower(n)), tok(b.getUpper(n))]) for n in POOL], order=list(b.names),
                    fixed=[dict(n=k, v=tok(v)) for k, v in fixed.items()], cols=x.paramNames.list() if mc else [], own=own)

    def mc(self, e):
        rng = self.rng
        nrow = 12
        names = list(e['cols'])
        cons = {f['n']: float(f['v']) for f in e['fixed']}
        for f in e['fixed']:
            names.insert(rng.randint(0, len(names)), f['n'])
        data = np.array([[cons.get(n, None if n in cons else (k * (j + 2)) % 11 + k / 16.) for j, n in enumerate(names)]
                         for k in range(nrow)])
        # the order in which fixed columns are found
        e['fixed'] = [f for n in names for f in e['fixed'] if f['n'] == n]
        settings = {'limits[%s]' % x['n']: ' '.join(x['r']) for x in e['lim']}
        if e['all'] != ['N', 'N']:
            settings['all_limits'] = ' '.join(e['all'])
        ini = None
        if settings and rng.random() < 0.4:
            ini = self.path('.ini')
            with open(ini, 'w') as h:
                for k, v in settings.items():
                    h.write('%s = %s\n' % (k, v))
            settings = None
            if rng.random() < 0.5:
                ini = IniFile(ini)
        arg = None
        form = e.pop('form')
        if e['l']:
            if form == 'list':
                arg = [self.rng_of(x['r']) for x in e['l']]
            elif form == 'pb':
                arg = ParamBounds()
                for x in e['l']:
                    arg.setRange(x['n'], self.rng_of(x['r']))
            else:
                arg = {x['n']: self.rng_of(x['r']) for x in e['l']}
        if form == 'cobaya':
            info = dict(params={}, likelihood={'like': None}, sampler={'mcmc': {}})
            for x in e['l']:
                r = [None if t == 'N' else float(t) for t in x['r']]
                if x['n'] in names:
                    info['params'][x['n']] = self.cob_sampled(r)
                else:
                    info['params'][x['n']] = r[0]
            extra = ['minuslogprior', 'minuslogprior__0', 'chi2', 'chi2__like']
            import pandas
            names2 = names + extra

            class Coll:
                def __init__(self, df):
                    self.data = df

                def __getitem__(self, k):
                    return self.data[k]
            df = pandas.DataFrame({**{'weight': np.ones(nrow), 'minuslogpost': np.arange(nrow) / 4.},
                                   **{n: (data[:, j] if j < len(names) else (np.arange(nrow) * 5) % 7 + j) for j, n in enumerate(names2)}})
            if rng.random() < 0.5:
                cobaya_interface.MCSamplesFromCobaya(info, [Coll(df)])
            before = copy.deepcopy(info)
            res = cobaya_interface.MCSamplesFromCobaya(info, [Coll(df)], settings=settings, ini=ini)
            if info != before:
                raise ValueError('info changed')
            e['cols'] = names2
            e['l'] = e['l'] + [dict(n=n, r=['N', 'N']) for n in extra]
            return res
        kw = {}
        if e['lines'] or form == 'root':
            root = self.path('')
            with open(root + '.ranges', 'w') as h:
                for l in e['lines']:
                    h.write(' '.join([l[0]] + [t if t == 'N' else '%.9g' % float(t) for t in l[1:]]) + '\n')
            with open(root + '.paramnames', 'w') as h:
                h.write(''.join(n + '\t' + n + '\n' for n in names))
            np.savetxt(root + '.txt', np.c_[np.ones(nrow), np.arange(nrow) / 4., data], fmt='%.9e')
            if form == 'list':
                e['l'] = []
                arg = None
            return MCSamples(root, ranges=arg, settings=settings, ini=ini).readChains([root + '.txt'])
        if form == 'list' and arg is not None:
            arg = [self.rng_of(x['r']) for x in e['l']]
        before = copy.deepcopy(arg) if not isinstance(arg, ParamBounds) else str(arg)
        m = MCSamples(samples=data, loglikes=np.arange(nrow) / 4., names=names, ranges=arg, settings=settings, ini=ini, **kw)
        if (str(arg) if isinstance(arg, ParamBounds) else arg) != before:
            raise ValueError('argument changed')
        return m

    def cob_sampled(self, r):
        rng = self.rng
        if r == [None, None]:
            pr = rng.choice([dict(dist='norm', loc=1, scale=2), dict(dist='norm'), dict(dist='norm', scale=3.), dict(dist='t', df=3, loc=0, scale=1)])
        elif None not in r:
            pr = list(r) if rng.random() < 0.4 else dict(min=r[0], max=r[1])
            if rng.random() < 0.1:
                pr = tuple(r)
        else:
            pr = {k: v for k, v in zip(('min', 'max'), r) if v is not None}
        return dict(prior=pr, ref=0.5, latex='l')

    def yaml_bounds(self, pars):
        """a Cobaya parameter file; pars: [n, kind, r]"""
        rng = self.rng
        params, add = {}, {}
        for p in pars:
            r = [None if t == 'N' else float(t) for t in p['r']]
            lims = {k: v for k, v in zip(('min', 'max'), r) if v is not None}
            k = p['kind']
            if k == 'sampled':
                v = self.cob_sampled(r)
                if isinstance(v['prior'], tuple):
                    v['prior'] = list(v['prior'])
            elif k == 'fixed':
                v = r[0] if rng.random() < 0.5 else dict(value=r[0], latex='q')
            elif k == 'derived':
                v = dict(lims, latex='d') if lims or rng.random() < 0.5 else None
                if v is not None and rng.random() < 0.3:
                    v['derived'] = True
            elif k == 'func':
                v = dict(lims, value='lambda x: 2*x')
            else:                   # not recorded
                v = rng.choice([dict(value='lambda x: x', derived=False)])
            if rng.random() < 0.15 and k in ('fixed', 'derived', 'func'):
                add[p['n']] = v
                if isinstance(v, dict) and rng.random() < 0.5:
                    params[p['n']] = dict(v, latex='old')
                    params[p['n']].pop('min', None)
            else:
                params[p['n']] = v
        info = dict(params=params, likelihood={'like': None})
        if add:
            info['post'] = dict(suffix='p', add=dict(params=add))
            # added parameters that were there before keep their place, new ones come last
        f = self.path(rng.choice(['.yaml', '.yml']))
        with open(f, 'w') as h:
            if rng.random() < 0.5:
                json.dump(info, h)
            else:
                yaml.safe_dump(info, h, sort_keys=False)
        order = list(params) + [n for n in add if n not in params] + ['minuslogprior', 'minuslogprior__0', 'chi2', 'chi2__like']
        return f, order

    def do(self, e):
        rng = self.rng
        err = False
        what = ''
        try:
            op = e['op']
            x = self.o.get(e.get('o'))
            if op == 'new':
                if e.pop('yaml', None):
                    pars = e.pop('pars')
                    f, order = self.yaml_bounds(pars)
                    d = {p['n']: p['r'] for p in pars if p['kind'] != 'not'}
                    e['lines'] = [[n] + d.get(n, ['N', 'N']) for n in order if n in d or n not in [p['n'] for p in pars]]
                    self.o[e['o']] = ParamBounds(f)
                else:
                    self.o[e['o']] = ParamBounds(self.write(e['lines'])) if e['lines'] or rng.random() < 0.3 else ParamBounds()
            elif op == 'set':
                l = e['l']
                if isinstance(x, MCSamples):
                    if e.pop('list', None):
                        x.setRanges([self.rng_of(q['r']) for q in l] if rng.random() < 0.5 else tuple(self.rng_of(q['r']) for q in l))
                    else:
                        x.setRanges({q['n']: self.rng_of(q['r']) for q in l})
                else:
                    for q in l:
                        if q['r'][0] == q['r'][1] != 'N' and rng.random() < 0.5:
                            x.setFixed(q['n'], float(q['r'][0]))
                        else:
                            x.setRange(q['n'], self.rng_of(q['r']))
            elif op == 'save':
                if isinstance(x, MCSamples) and rng.random() < 0.4:
                    root = self.path('')
                    x.saveAsText(root)
                    self.files.append(root + '.ranges')
                else:
                    f = self.path(rng.choice(['.ranges', '.bounds']))
                    self.ranges(e['o']).saveToFile(f)
                    self.files.append(f)
            elif op == 'load':
                if rng.random() < 0.5:
                    self.o[e['o']] = ParamBounds(self.files[e['f'] - 1])
                else:
                    b = ParamBounds()
                    b.loadFromFile(self.files[e['f'] - 1])
                    self.o[e['o']] = b
            elif op == 'mc':
                self.o[e['o']] = self.mc(e)
            elif op == 'replace':
                x.setRanges(self.ranges(e['from']))
            elif op == 'copy':
                self.o[e['o']] = self.o[e['from']].copy() if isinstance(self.o[e['from']], MCSamples) else copy.deepcopy(self.o[e['from']])
            elif op == 'lim':
                x.updateSettings({'limits[%s]' % e['n']: ' '.join(e['r'])})
            elif op == 'all':
                x.updateSettings({'all_limits': ' '.join(e['r'])})
            elif op == 'add':
                x.addDerived(np.arange(len(x.samples)) ** 2 / 8., e['n'], label='l', range=self.rng_of(e['r']))
            elif op == 'bad':
                k = e['k']
                if k == 'name':
                    self.ranges(e['o']).setRange(rng.choice([3, None, ('x',)]), [0, 1])
                elif k == 'getname':
                    rng.choice([self.ranges(e['o']).getLower, self.ranges(e['o']).getUpper])(5)
                elif k == 'value':
                    self.ranges(e['o']).setRange(e['n'], rng.choice([['abc', 'N'], ['x1', 3]]))
                elif k == 'type':
                    x.setRanges(rng.choice([3, 'x', np.float64(3)]))
                elif k == 'dup':
                    x.addDerived(np.arange(len(x.samples)) / 8., e['n'], label='l', range=self.rng_of(e['r']))
                elif k == 'ext':
                    ParamBounds(self.write([['x', '0.0', '1.0']], '.txt'))
            else:
                raise KeyError(op)
        except Exception as ex:
            err = True
            what = '%s: %s' % (type(ex).__name__, ex)
        try:
            allo = [self.one(o) for o in sorted(self.o)]
        except Exception as ex:
            err, what, allo = True, 'observing: %s: %s' % (type(ex).__name__, ex), []
        return dict(e, obs=dict(err=err, what=what, all=allo))


def new_mc(rng, o, names=None):
    cols = names or rng.sample(POOL, rng.randint(1, 4))
    rest = [n for n in POOL if n not in cols]
    fixed = [dict(n=n, v=rng.choice(VALS[:7])) for n in rng.sample(rest, rng.choice([0, 0, 0, 1, 2]))] if not names else []
    form = rng.choice(['dict', 'dict', 'list', 'pb', 'root', 'none', 'cobaya'])
    lines = []
    if form == 'list':
        k = rng.randint(1, len(cols))
        l = [dict(n=n, r=rand_r(rng)) for n in cols[:k]]
        fixed = []
    elif form in ('none',):
        l = []
    elif form == 'cobaya':
        fixed = []
        l = [dict(n=n, r=rand_r(rng)) for n in cols]
        for x in l:
            if x['r'][0] == x['r'][1] != 'N':
                x['r'] = ['N', x['r'][1]]
        for n in rng.sample(rest, rng.randint(0, 2)):
            v = rng.choice(VALS)
            l.insert(rng.randint(0, len(l)), dict(n=n, r=[v, v]))
        cols = list(cols)
    else:
        l = [dict(n=n, r=rand_r(rng)) for n in rng.sample(POOL, rng.randint(0, 4))]
        if form in ('root', 'dict') and rng.random() < 0.6:
            lines = [[n] + rand_r(rng) for n in rng.sample(POOL, rng.randint(1, 5))]
    lim = [dict(n=n, r=rand_r(rng)) for n in rng.sample(POOL, rng.choice([0, 0, 1, 2, 3]))]
    allr = rand_r(rng) if rng.random() < 0.1 else ['N', 'N']
    return dict(op='mc', o=o, cols=cols, l=l, form=form, lines=lines, fixed=fixed, lim=lim, all=allr)


def model_scenario(args):
    b, seed = args
    rng = random.Random(seed)
    w = W(rng)
    try:
        out = [dict(op='start'), w.do(dict(op='new', o=1, lines=[])),
               w.do(dict(op='mc', o=2, cols=['x'], l=[], form='none', lines=[], fixed=[], lim=[], all=['N', 'N']))]
        for e in b['ops']:
            if e['op'] == 'set':
                e = dict(op='set', o=e['o'], l=[dict(n=e['n'], r=e['r'])])
            out.append(w.do(dict(e)))
        return out
    finally:
        w.close()


def rand_scenario(seed):
    rng = random.Random(seed)
    w = W(rng)
    try:
        out = [dict(op='start')]
        for o in range(1, rng.randint(2, 3)):
            r = rng.random()
            if r < 0.5:
                out.append(w.do(new_mc(rng, o)))
            elif r < 0.8:
                lines = [[n] + rand_r(rng) for n in rng.choices(POOL, k=rng.randint(0, 6))]
                for l in lines:
                    if rng.random() < 0.1:
                        l[:] = l[:2] if rng.random() < 0.5 else l + ['1.0']
                out.append(w.do(dict(op='new', o=o, lines=lines)))
            else:
                pars = []
                for n in rng.sample(POOL, rng.randint(1, 6)):
                    k = rng.choice(['sampled', 'sampled', 'fixed', 'derived', 'func', 'not'])
                    r = rand_r(rng)
                    if k == 'fixed':
                        r = [rng.choice(VALS)] * 2
                    pars.append(dict(n=n, kind=k, r=r))
                out.append(w.do(dict(op='new', o=o, yaml=True, pars=pars)))
            if out[-1]['obs']['err']:
                return out
        for _ in range(rng.randint(2, 9)):
            o = rng.choice(sorted(w.o))
            mc = isinstance(w.o[o], MCSamples)
            r = rng.random()
            nm = lambda: rng.choice(w.o[o].paramNames.list()) if mc and rng.random() < 0.6 else rng.choice(POOL)
            if r < 0.35:
                if mc and rng.random() < 0.3:
                    l = [dict(n=n, r=rand_r(rng)) for n in w.o[o].paramNames.list()]
                    e = dict(op='set', o=o, l=l[:rng.randint(1, len(l))], list=True)
                else:
                    e = dict(op='set', o=o, l=[dict(n=n, r=rand_r(rng)) for n in {nm() for _ in range(rng.randint(1, 3))}])
            elif r < 0.5:
                e = dict(op='save', o=o)
            elif r < 0.6 and w.files:
                e = dict(op='load', o=rng.choice([k for k in w.o if not isinstance(w.o[k], MCSamples)] + [max(w.o) + 1]), f=rng.randint(1, len(w.files)))
            elif r < 0.68 and mc:
                e = dict(op='replace', o=o, **{'from': rng.choice(sorted(w.o))})
            elif r < 0.75 and len(w.o) < 4:
                e = dict(op='copy', o=max(w.o) + 1, **{'from': o})
            elif r < 0.85 and mc:
                e = dict(op='lim', o=o, n=nm(), r=rand_r(rng))
            elif r < 0.87 and mc:
                r2 = rand_r(rng)
                if r2 == ['N', 'N']:
                    r2 = ['0.0', 'N']
                e = dict(op='all', o=o, r=r2)
            elif r < 0.93 and mc:
                free = [n for n in POOL if n not in w.o[o].paramNames.list()]
                if not free:
                    continue
                e = dict(op='add', o=o, n=rng.choice(free), r=rand_r(rng))
            else:
                e = dict(op='bad', o=o, k=rng.choice(['name', 'getname', 'value', 'ext'] + (['type', 'dup'] if mc else [])))
                e['n'] = rng.choice(w.o[o].paramNames.list()) if e['k'] == 'dup' else nm()
                e['r'] = rand_r(rng)
            out.append(w.do(e))
            if out[-1]['obs']['err'] and e['op'] != 'bad':
                break
        return out
    finally:
        w.close()


def key(sc, j):
    return sc[j]['op'] + '/' + sc[j].get('obs', {}).get('what', '').split(':')[0]


def check_C14():
    c = Check('C14')
    T = c.thorough
    r = c.model('MCBounds', consts=dict(Depth=4 if T else 3))
    beh = behaviours(r.out)
    c.extra['behaviours_in_model'] = len(beh)
    jobs = [(b, '%s/%d' % (c.seed, k)) for k, b in enumerate(sample(c.rng, beh, 15000 if T else 1200))]
    c.trace('TraceBounds', pmap(model_scenario, jobs), 'model histories', key=key)
    c.trace('TraceBounds', pmap(rand_scenario, ['%s/r%d' % (c.seed, k) for k in range(15000 if T else 1500)]), 'random histories', key=key)
    c.assumptions.append('bounds have at most eight significant digits (what a saved file keeps)')
    return c.finish()
