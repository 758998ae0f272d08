"""C09, C10: saving and loading samples, burn-in removal; bound to spec/Store.tla"""
import argparse
import contextlib
import hashlib
import io
import json
import logging
import os
import random
import re
import shutil
from multiprocessing import Pool

import numpy as np

from getdist import chains as gd_chains, MCSamples, loadMCSamples
from getdist.chains import Chains, chainFiles
from getdist.inifile import IniFile
from harness.core import Check, behaviours, as_int, SCRATCH, BAD

gd_chains.print_load_details = False
logging.disable(logging.CRITICAL)
np.seterr(all='ignore')
NOB = 999999
LABELS = ['', 'x', '\\Omega_m', 'H_0', 'm_{\\nu} [eV]', 'n_s', 'a b', 'A^{tE}_{143}', '\\ln(10^{10} A_s)', 'x=2']
SET_LABELS = ['', '$(w_0,w_a)$', 'a $x(b)$ $(c) d', 'LCDM', 'Planck TT, lowE', '$\\Lambda$CDM+$m_\\nu$', 'a=b', 'with "quotes"', '2018', 'T', '1e-3', "it's"]


class Job:
    def __init__(self, kind, root):
        self.kind, self.batchPath, self.chainRoot = kind, os.path.dirname(root), root
        self.isImportanceJob = kind == 'importance'

    def isBurnRemoved(self):
        return self.kind == 'burned'


class World:
    def __init__(self, rng):
        self.rng = rng
        self.dir = os.path.join(SCRATCH, 'st_%d_%d' % (os.getpid(), rng.randint(0, 10 ** 9)))
        os.makedirs(self.dir)
        self.ob = None
        self.n = 0
        self.allnames = []
        self.wden = 1
        # values on disk are integers times this scale (exact in 9 digits)
        self.scale = 1

    def root(self, r):
        return os.path.join(self.dir, 'sub%d' % (r % 2) if r % 3 == 1 else '', 'r%d_%s' % (r, 'x' * (r % 2)))

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def write_disk(self, r, d):
        """chain files made by hand (not by the code under test)"""
        rng = self.rng
        root = self.root(r)
        os.makedirs(os.path.dirname(root), exist_ok=True)
        self.allnames = sorted(set(self.allnames) | {p['name'] for p in d['info']} | {b['n'] for b in d['bounds']})
        if d.get('cobaya'):
            root = os.path.abspath(root)
        sep = '.' if d.get('cobaya') else rng.choice('__.')
        for c, ch in enumerate(d['chains']):
            name = root + '.txt' if len(d['chains']) == 1 and rng.random() < 0.5 else '%s%s%d.txt' % (root, sep, c + 1)
            with open(name, 'w') as f:
                fmt = rng.choice(['%g', '%.6f', '%.9e'])
                if d.get('cobaya'):
                    f.write('#  weight  minuslogpost  ' + '  '.join(p['name'] for p in d['info']) + '\n')
                for row in ch:
                    f.write(' '.join([fmt % (row['w'] / d['wden']), fmt % row['l']] + [fmt % x for x in row['x']]) + '\n')
        if d.get('cobaya'):
            import yaml
            bd = {b['n']: [None if v == NOB else v / 4 for v in b['r']] for b in d['bounds']}
            params = {}
            for p in d['info'][:-4]:
                a, b = bd.get(p['name'], [None, None])
                lims = {k: v for k, v in (('min', a), ('max', b)) if v is not None}
                if p['derived']:
                    params[p['name']] = dict(lims, latex=p['label'])
                else:
                    params[p['name']] = dict(prior=[a, b] if len(lims) == 2 and rng.random() < 0.5 else
                                             lims if lims else dict(dist='norm', loc=0, scale=1), latex=p['label'], ref=0.5)
            items = list(params.items())
            k = rng.randint(0, len(items))
            if 'fixd' in bd:
                items.insert(k, ('fixd', bd['fixd'][0] if rng.random() < 0.5 else dict(value=bd['fixd'][0], latex='f')))
            yml = dict(params=dict(items), likelihood={'like1': None}, sampler={'mcmc': {'seed': 1}})
            if d['label']:
                yml['label'] = d['label']
            if d['burned']:
                yml['post'] = dict(skip=0.3, suffix='p')
            elif rng.random() < 0.3:
                yml['post'] = dict(suffix='p')
            with open(root + ('.updated.yaml' if rng.random() < 0.7 else '__full.yaml'), 'w') as f:
                if d['label'] == '1e-3' or rng.random() < 0.3:     # all strings quoted
                    json.dump(yml, f, indent=1)
                else:
                    yaml.safe_dump(yml, f, sort_keys=False)
            return
        with open(root + '.paramnames', 'w') as f:
            for p in d['info']:
                f.write(p['name'] + ('*' if p['derived'] else '') + rng.choice([' ', '\t', '    ']) + p['label'] + '\n')
        if d['bounds'] or rng.random() < 0.3:
            with open(root + '.ranges', 'w') as f:
                for b in d['bounds']:
                    f.write('%s  %s %s\n' % (b['n'], *['N' if v == NOB else repr(v / 4) for v in b['r']]))
        if d['burned'] or d['label'] or rng.random() < 0.2:
            with open(root + '.properties.ini', 'w') as f:
                if d['label']:
                    f.write('label = %s\n' % (d['label'].replace('$', '$$') if '$(' in d['label'] else d['label']))
                if d['burned'] or rng.random() < 0.3:
                    f.write('burn_removed = %s\n' % (rng.choice(['T', 'True']) if d['burned'] else 'F'))

    def mem(self, e):
        """samples from arrays"""
        self.allnames = sorted(set(self.allnames) | {p['name'] for p in e['info']} | {b['n'] for b in e['bounds']})
        xs = [np.array([r['x'] for r in c], dtype=float) for c in e['chains']]
        ws = [np.array([r['w'] for r in c], dtype=float) / e['wden'] for c in e['chains']]
        ls = [np.array([r['l'] for r in c], dtype=float) for c in e['chains']]
        ranges = {b['n']: [None if v == NOB else v / 4 for v in b['r']] for b in e['bounds']}
        if e['mode'] == 'single':
            xs, ws, ls = xs[0], ws[0], ls[0]
        self.ob = MCSamples(samples=xs, weights=ws, loglikes=ls, names=[p['name'] + ('*' if p['derived'] else '') for p in e['info']],
                            labels=[p['label'] for p in e['info']], ranges=ranges, label=e['label'] or None,
                            settings={'ignore_rows': 0})

    def load(self, r, ign, how, job):
        rng, root = self.rng, self.root(r)
        v = ign['num'] if ign['den'] == 0 else ign['num'] / ign['den']
        item = Job(job, root) if job else None
        if how == 'kw' and item:
            how = 'load'
        if how == 'load':
            return loadMCSamples(root, settings={'ignore_rows': v}, jobItem=item, no_cache=rng.random() < 0.5)
        if how == 'ini':
            p = os.path.join(self.dir, 'set%d.ini' % rng.randint(0, 10 ** 9))
            with open(p, 'w') as f:
                f.write('ignore_rows = %s\n' % v)
            return loadMCSamples(root, ini=p if rng.random() < 0.5 else IniFile(p), jobItem=item, no_cache=rng.random() < 0.5)
        files = chainFiles(root) or chainFiles(root, separator='.')
        if how == 'kw':
            return MCSamples(root, ignore_rows=v).readChains(files)
        if how == 'read':
            return MCSamples(root, jobItem=item, settings={'ignore_rows': v}).readChains(files)
        raise KeyError(how)

    def script(self, r, ign, how):
        from getdist.command_line import getdist_script
        v = ign['num'] if ign['den'] == 0 else ign['num'] / ign['den']
        root = self.root(r)
        out = os.path.join(self.dir, 'out%d' % self.rng.randint(0, 10 ** 9))
        os.makedirs(out)
        ini = os.path.join(out, 's.ini')
        other = self.rng.choice([0, 0.2, 0.4, 3, 0.3])
        with open(ini, 'w') as f:
            f.write('ignore_rows = %s\nno_plots = T\nno_tests = T\nplots_only = %s\nout_dir = %s/\nfine_bins = 256\nnum_bins=40\n' % (
                v if how == 'ini' else other, self.rng.choice('TF'), out))
            if self.rng.random() < 0.5:
                f.write('file_root = %s\n' % root)
                root = None
        args = argparse.Namespace(ini_file=ini, chain_root=root, ignore_rows=v if how == 'arg' else None, make_plots=False)
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            txt = getdist_script(args, exit_on_error=False)
        m = re.search(r'using (\d+) rows', txt)
        w = re.search(r'tot weight ([\d.]+)', txt)
        return dict(rows=int(m.group(1)), weight=as_int(float(w.group(1)), self.wden) if w else BAD)

    def chains_of(self, ob):
        try:
            cs = ob.getSeparateChains()
        except Exception:
            cs = [ob]
        out = []
        for c in cs:
            if len(c.weights) != len(c.samples) or len(c.loglikes) != len(c.samples):
                return [[dict(w=BAD, l=BAD, x=[])]]
            out.append([dict(w=as_int(w, self.wden), l=as_int(l), x=[as_int(v) for v in x])
                        for w, l, x in zip(c.weights, c.loglikes, c.samples)])
        flat = [r for c in out for r in c]
        if flat != [dict(w=as_int(w, self.wden), l=as_int(l), x=[as_int(v) for v in x])
                    for w, l, x in zip(ob.weights, ob.loglikes, ob.samples)]:
            return [[dict(w=BAD, l=BAD, x=[])]]
        return out

    def observe(self, ob):
        return dict(chains=self.chains_of(ob),
                    info=[dict(name=p.name, label=p.label, derived=bool(p.isDerived)) for p in ob.paramNames.names],
                    bounds=[dict(n=n, r=[NOB if v is None else as_int(v, 4) for v in (ob.ranges.getLower(n), ob.ranges.getUpper(n))])
                            for n in self.allnames],
                    label=ob.label if isinstance(ob.label, str) else '' if ob.label is None else '<not a string>', burned=bool(ob.properties.bool('burn_removed', False)))

    def files(self):
        return {os.path.join(b, f): hashlib.md5(open(os.path.join(b, f), 'rb').read()).hexdigest()
                for b, _, fs in os.walk(self.dir) for f in fs if not f.endswith('.py_mcsamples')}

    def do(self, e):
        obs = dict(err='')
        op = e['op']
        try:
            if op == 'mem':
                self.wden = e['wden']
                self.mem(e)
            elif op == 'load':
                before = self.files()
                self.ob = self.load(e['root'], e['ign'], e['how'], e['job'])
                after = self.files()
                if any(after.get(k) != v for k, v in before.items()):
                    obs['err'] = 'files changed by loading'
            elif op == 'script':
                before = {k: v for k, v in self.files().items()}
                obs.update(self.script(e['root'], e['ign'], e['how']))
                after = self.files()
                if any(after.get(k) != v for k, v in before.items()):
                    obs['err'] = 'files changed by script'
                return dict(e, obs=obs)
            elif op == 'save':
                root = self.root(e['root'])
                if e['single']:
                    self.ob.saveAsText(root + ('.txt' if e.get('txt') else ''), make_dirs=True)
                elif e['mark']:
                    self.ob.saveChainsAsText(root, make_dirs=True, properties=dict(burn_removed=True))
                else:
                    self.ob.saveChainsAsText(root, make_dirs=True)
            elif op == 'filter':
                self.ob.filter(np.array(e['mask'], dtype=bool))
            elif op == 'wthin':
                self.ob.weighted_thin(e['k'])
                self.wden = 1
            elif op == 'burnrows':
                self.ob.removeBurn(e['n'])
            elif op == 'setrange':
                if e['name'] not in self.allnames:
                    self.allnames.append(e['name'])
                self.ob.setRanges({e['name']: [None if v == NOB else v / 4 for v in e['range']]})
            elif op == 'setlabel':
                self.ob.label = e['label']
            elif op == 'addcol':
                if e['name'] not in self.allnames:
                    self.allnames.append(e['name'])
                rng = [None if v == NOB else v / 4 for v in e['range']]
                self.ob.addDerived(np.array(e['vec'], dtype=float), e['name'], label=e['label'],
                                   range=None if rng == [None, None] else rng)
            elif op == 'delfixed':
                self.ob.deleteFixedParams()
            else:
                raise KeyError(op)
            obs.update(self.observe(self.ob))
        except Exception as ex:
            obs['err'] = '%s: %s' % (type(ex).__name__, ex)
        return dict(e, obs=obs)

    @property
    def rows(self):
        return len(self.ob.samples)


ROUTES = ['load', 'load', 'ini', 'kw', 'read']


def model_scenario(args):
    beh, seed = args
    rng = random.Random(seed)
    w = World(rng)
    out = [dict(op='start')]
    try:
        d = dict(beh['disk'])
        d['bounds'] = [dict(n=k, r=v) for k, v in d['bounds'].items()]
        w.write_disk(1, d)
        out.append(dict(d, op='disk', root=1))
        nroot = 1
        for h in beh['ops']:
            e = dict(h)
            if e['op'] == 'load':
                e['how'] = rng.choice(ROUTES)
                e['job'] = rng.choice(['importance', 'burned']) if e['jb'] else rng.choice(['', '', 'plain'])
            elif e['op'] == 'save':
                nroot += 1
                e['root'] = nroot
                if e['single'] and rng.random() < 0.3:
                    e['txt'] = True
            elif e['op'] in ('filter', 'addcol'):
                k = e.get('mask', e.get('vec'))
                if len(k) != w.rows:
                    break          # the code took another of the allowed roundings
            out.append(w.do(e))
            if out[-1]['obs']['err']:
                break
    finally:
        w.close()
    return out


def rand_content(rng, big=False, zeros=False):
    ncol = rng.randint(1, 4)
    nch = rng.randint(1, 4)
    wden = rng.choice([1, 1, 1, 2, 4])
    fixed = {j for j in range(1, ncol) if rng.random() < 0.25}
    scale = rng.choice([1, 1, 1000])
    chs, idn = [], 0
    for c in range(nch):
        n = rng.randint(50, 90) if big else rng.randint(3, 14)
        ch = []
        for k in range(n):
            idn += 1
            x = [idn] + [7 if j in fixed else rng.randint(-9, 9) * scale for j in range(1, ncol)]
            ch.append(dict(w=0 if zeros and rng.random() < 0.1 and ch else rng.randint(1, 9), l=rng.randint(0, 50), x=x))
        chs.append(ch)
    names = rng.sample(['omegabh2', 'H0', 'a', 'x_1', 'chi2_lowTEB', 'p2', 'Omega.m', 'n-s', 'rs/dv'], ncol)
    info = [dict(name=n, label=rng.choice(LABELS[1:]), derived=rng.random() < 0.4) for n in names]
    bounds = []
    for n in names + ['fixd']:
        if rng.random() < 0.5:
            a, b = rng.choice([NOB, -4000003, 1, 7]), rng.choice([NOB, 4000001, 401])
            if n == 'fixd':
                a = b = 13
            bounds.append(dict(n=n, r=[a, b]))
    return dict(chains=chs, info=info, bounds=bounds, label=rng.choice(SET_LABELS), burned=rng.random() < 0.25, wden=wden)


def as_cobaya(rng, d):
    """the same content in the form of Cobaya output: sampled, then derived parameters, then prior and likelihood columns"""
    order = [j for j, p in enumerate(d['info']) if not p['derived']] + [j for j, p in enumerate(d['info']) if p['derived']]
    extra = [dict(name='minuslogprior', label='-\\log\\pi', derived=True),
             dict(name='minuslogprior__0', label='-\\log\\pi_\\mathrm{0}', derived=True),
             dict(name='chi2', label='\\chi^2', derived=True), dict(name='chi2__like1', label='\\chi^2_\\mathrm{like1}', derived=True)]
    chs = [[dict(r, x=[r['x'][j] for j in order] + [rng.randint(0, 9) for _ in extra]) for r in c] for c in d['chains']]
    bounds = [b for b in d['bounds'] if b['n'] != 'fixd' or b['r'][0] == b['r'][1]]
    return dict(d, chains=chs, info=[d['info'][j] for j in order] + extra, bounds=bounds, cobaya=True)


def rand_ign(rng, n):
    r = rng.random()
    if r < 0.35:
        return dict(num=0, den=0)
    if r < 0.6:
        return dict(num=rng.randint(1, n), den=0)
    return dict(num=rng.randint(1, 7), den=10) if rng.random() < 0.7 else dict(num=1, den=rng.choice([2, 3, 4, 8]))


def cut_ok(d, ign, jb, least=2):
    """enough rows left (statistics need two, densities some tens)"""
    if d['burned'] or jb or not ign['num']:
        return True
    left = 0
    for c in d['chains']:
        left += max(0, len(c) - (ign['num'] if ign['den'] == 0 else int(len(c) * ign['num'] / ign['den'] + 1)))
    return left >= least


def rand_scenario(args):
    seed, focus = args
    rng = random.Random(seed)
    w = World(rng)
    out = [dict(op='start')]
    try:
        zeros = focus == 'save' and rng.random() < 0.2
        d = rand_content(rng, big=focus == 'script', zeros=False)
        if focus == 'save' and rng.random() < 0.4:
            if rng.random() < 0.5:
                d['chains'] = d['chains'][:1]
            e = dict(d, op='mem', mode='single' if len(d['chains']) == 1 and rng.random() < 0.5 else 'combined', burned=False)
            out.append(w.do(e))
        else:
            w.wden = d['wden']
            if rng.random() < 0.3:
                d = as_cobaya(rng, d)
            w.write_disk(1, d)
            out.append(dict(d, op='disk', root=1))
            if focus == 'script':
                for _ in range(2):
                    ign = rand_ign(rng, 20)
                    if cut_ok(d, ign, False, 40):
                        out.append(w.do(dict(op='script', root=1, ign=ign, how=rng.choice(['ini', 'arg']))))
                return out
            for _ in range(1 if focus == 'save' else rng.randint(1, 3)):
                ign = rand_ign(rng, 6)
                jb = rng.random() < 0.25
                if not cut_ok(d, ign, jb):
                    ign = dict(num=0, den=0)
                w.wden = d['wden']
                out.append(w.do(dict(op='load', root=1, ign=ign, jb=jb, how=rng.choice(ROUTES),
                                     job=rng.choice(['importance', 'burned']) if jb else rng.choice(['', '', 'plain']))))
                if out[-1]['obs']['err']:
                    return out
        if out[-1]['obs']['err']:
            return out
        nroot = 1
        wdens = {}
        for _ in range(rng.randint(1, 6)):
            single = out[-1]['op'] == 'mem' and out[-1]['mode'] == 'single' or w.ob.chain_offsets is None
            n = w.rows
            r = rng.random()
            if r < 0.4:
                nroot += 1
                s = single or rng.random() < 0.5
                e = dict(op='save', root=nroot, single=s, mark=not s and rng.random() < 0.3)
                if s and rng.random() < 0.3:
                    e['txt'] = True
                wdens[nroot] = (w.wden, e['mark'] or w.ob.properties.bool('burn_removed', False))
            elif r < 0.55 and wdens:
                k = rng.choice(sorted(wdens))
                w.wden = wdens[k][0]
                e = dict(op='load', root=k, ign=dict(num=0, den=0), jb=False, how=rng.choice(ROUTES), job='')
                if wdens[k][1] and rng.random() < 0.5:       # burn-in is gone already, must not be removed again
                    e['ign'] = rand_ign(rng, 3)
            elif r < 0.65 and n > 3:
                m = [rng.random() < 0.8 for _ in range(n)]
                if sum(m) < 2:
                    continue
                e = dict(op='filter', mask=m)
            elif r < 0.7 and n > 6 and w.wden == 1 and not single and all(len(c.weights) for c in w.ob.getSeparateChains()):
                e = dict(op='wthin', k=2, kden=1)
            elif r < 0.75 and n > 5:
                e = dict(op='burnrows', n=rng.randint(1, 3))
            elif r < 0.85:
                e = dict(op='setrange', name=rng.choice(w.allnames + ['newp']), range=[rng.choice([NOB, -44, 2]), rng.choice([NOB, 4444])])
            elif r < 0.9:
                e = dict(op='setlabel', label=rng.choice(SET_LABELS[1:]))
            elif 'zz' not in w.allnames:
                e = dict(op='addcol', name='zz', label=rng.choice(LABELS[1:]), vec=[rng.randint(-99, 99) + k for k in range(n)],
                         range=[rng.choice([NOB, -4000]), NOB])
            else:
                continue
            out.append(w.do(e))
            if out[-1]['obs']['err'] or w.rows < 2:
                break
        if not out[-1]['obs']['err'] and w.rows >= 2:        # always reload something saved
            if not wdens:
                nroot += 1
                s = w.ob.chain_offsets is None or rng.random() < 0.5
                out.append(w.do(dict(op='save', root=nroot, single=s, mark=False)))
                wdens[nroot] = (w.wden, False)
            k = rng.choice(sorted(wdens))
            if not out[-1]['obs']['err']:
                w.wden = wdens[k][0]
                out.append(w.do(dict(op='load', root=k, ign=dict(num=0, den=0), jb=False, how=rng.choice(ROUTES), job='')))
        return out
    finally:
        w.close()


def key(sc, j):
    e = sc[j]
    return '/'.join([e['op'], e.get('how', '')] + ([e['obs']['err'].split(':')[0]] if e.get('obs', {}).get('err') else []))


def run(c, scs, fn, label):
    with Pool(8) as p:
        res = p.map(fn, scs, chunksize=16)
    c.trace('TraceStore', res, label, key=key)
    return res


def model_jobs(c, want, keep):
    r = c.model('MCStore', consts=dict(Depth=4 if c.thorough else 3))
    beh = behaviours(r.out)
    c.extra['behaviours_in_model'] = len(beh)
    beh = [b for b in beh if keep(b)]
    groups = {}
    for b in beh:
        groups.setdefault(repr([(o['op'], o.get('ign'), o.get('single'), o.get('mark')) for o in b['ops']]), []).append(b)
    keys = sorted(groups)
    c.rng.shuffle(keys)
    out = []
    k = 0
    while len(out) < min(want, len(beh)):
        for g in keys:
            if k < len(groups[g]) and len(out) < want:
                out.append(groups[g][k])
        k += 1
    return [(b, '%s/%d' % (c.seed, i)) for i, b in enumerate(out)]


def check_C09():
    c = Check('C09')
    jobs = model_jobs(c, 20000 if c.thorough else 400, lambda b: any(o['op'] == 'save' for o in b['ops']))
    run(c, jobs, model_scenario, 'model behaviours')
    run(c, [('%s/s%d' % (c.seed, k), 'save') for k in range(8000 if c.thorough else 500)], rand_scenario, 'random save/load histories')
    c.assumptions.append('labels have no # or ! (comment and TeX escape characters of the file format)')
    return c.finish()


def check_C10():
    c = Check('C10')
    jobs = model_jobs(c, 20000 if c.thorough else 300, lambda b: any(o['op'] == 'load' and o['ign']['num'] for o in b['ops']))
    run(c, jobs, model_scenario, 'model behaviours')
    run(c, [('%s/l%d' % (c.seed, k), 'load') for k in range(6000 if c.thorough else 350)], rand_scenario, 'random loads')
    run(c, [('%s/x%d' % (c.seed, k), 'script') for k in range(1000 if c.thorough else 60)], rand_scenario, 'getdist script')
    return c.finish()
