"""C07: loading through the cache, bound to spec/Cache.tla"""
import copy
import glob
import hashlib
import logging
import os
import pickle
import random
import shutil
from multiprocessing import Pool

import numpy as np

import getdist
from getdist import chains as gd_chains, MCSamples, loadMCSamples, mcsamples
from getdist.inifile import IniFile
from harness.core import Check, behaviours, SCRATCH

gd_chains.print_load_details = False
logging.disable(logging.CRITICAL)
np.seterr(all='ignore')
NROW = 60
POOL = [dict(), dict(ignore_rows=0), dict(ignore_rows=0.5), dict(ignore_rows=2), dict(ignore_rows=0, contours='0.5 0.9'),
        {'ignore_rows': 0, 'limits[a]': '-5 99999999'}, dict(ignore_rows=0, smooth_scale_1D=0.4),
        {'ignore_rows': 0, 'marker[a]': '3'}, dict(ignore_rows=0, min_weight_ratio=1e-3),
        {'ignore_rows': 0, 'contours': '0.5 0.9', 'max_frac_twotail1': '0.2'},
        dict(ini=True, ignore_rows=0, num_bins=77), dict(ini=True, ignore_rows=0.5, fine_bins=512, smooth_scale_1D=0.7),
        dict(job='plain'), dict(job='importance'), dict(job='burned', num_bins=70),
        dict(ini=True, ignore_rows=1), dict(ini=True, ignore_rows=0, force_twotail='T')]
ATTRS = ['ignore_rows', 'contours', 'num_bins', 'fine_bins', 'smooth_scale_1D', 'smooth_scale_2D', 'min_weight_ratio',
         'max_frac_twotail', 'converge_test_limit', 'force_twotail', 'markers', 'num_bins_2D',
         'boundary_correction_order', 'mult_bias_correction_order']


def burn(s):
    b = s.get('ignore_rows', 0.3) if s.get('job', 'plain') == 'plain' else 0
    return dict(num=int(b), den=0) if b >= 1 or b == 0 else dict(num=int(round(b * 10)), den=10)


YAML = """params:
  a:
    prior: {min: -1e9, max: 1e9}
    latex: a_l
  fix:
    prior: {min: -1e9, max: 1e9}
    latex: f_l
  b:
    prior: {min: %d, max: 1e9}
    latex: b_l
  d:
    latex: d_l
    derived: true
likelihood: {one: null}
sampler: {mcmc: {}}
"""


class Job:
    def __init__(self, kind):
        self.kind = kind
        self.batchPath = '/nowhere/' + kind
        self.isImportanceJob = kind == 'importance'

    def isBurnRemoved(self):
        return self.kind == 'burned'

    @property
    def params(self):
        return dict(self.__dict__)


class World:
    def __init__(self, rng, sets, kind=None):
        self.rng, self.sets = rng, sets
        self.dir = os.path.join(SCRATCH, 'cw_%d_%d' % (os.getpid(), rng.randint(0, 10 ** 9)))
        os.makedirs(self.dir)
        self.name = 'rt%d' % rng.randint(0, 10 ** 9)
        self.root = os.path.join(self.dir, self.name)
        self.load_root = rng.choice([self.root, self.root, self.name, os.path.join('.', self.name)])
        self.kind = kind or rng.choice(['ranges', 'ranges', 'props', 'names', 'yaml'])
        self.tick = 0
        self.ver = 4
        self.big = rng.choice([NROW, NROW, NROW])
        if self.kind != 'yaml':
            with open(self.root + '.paramnames', 'w') as f:
                f.write('a  a_l\nfix  f_l\nb  b_l\nd*  d_l\n')
            self.stamp(self.root + '.paramnames', -500)
        self.chains = {}
        for c in (1, 2):
            self.write(c, c)
        self.aux(3)
        self.inis = {}
        for k, s in sets.items():
            if s.get('ini'):
                p = os.path.join(self.dir, 'set_%s.ini' % k)
                with open(p, 'w') as f:
                    for key, v in s.items():
                        if key != 'ini':
                            f.write('%s = %s\n' % (key, v))
                self.inis[k] = p

    def stamp(self, path, t):
        os.utime(path, (1.6e9 + t, 1.6e9 + t))

    def now(self):
        self.tick += 1
        return self.tick

    def chain(self, c):
        return '%s%s%d.txt' % (self.root, '.' if self.kind == 'yaml' else '_', c)

    def write(self, c, v, t=None):
        p = self.chain(c)
        with open(p, 'w') as f:
            for k in range(NROW):
                a = c * 100000 + v * 100 + k
                f.write('%d %d %d 7 %s %d%s\n' % (1, 10 + (k * 3) % 5, a, -0.5 * k * k + v, a + k,
                                                  ' 1 1 2 2' if self.kind == 'yaml' else ''))
        self.stamp(p, self.now() if t is None else t)
        self.chains[c] = v

    def aux(self, v):
        """one of the files beside the chains, in its version v (0: it does not exist, or is as it was originally)"""
        p = self.root + dict(ranges='.ranges', props='.properties.ini', names='.paramnames',
                             yaml='.updated.yaml')[self.kind]
        text = dict(ranges='b  %d  N\n' % (v - 100000), props='label = lab%d\n' % v,
                    names='a  a_l\nfix  f_l\nb  b_l%s\nd*  d_l\n' % (v or ''),
                    yaml=YAML % (v - 100000))[self.kind]
        if v or self.kind in ('names', 'yaml'):
            with open(p, 'w') as f:
                f.write(text)
            self.stamp(p, self.now())
        elif os.path.exists(p):
            os.remove(p)

    def read_aux(self, ob):
        if self.kind == 'props':
            return int(ob.label[3:]) if ob.label else 0
        if self.kind == 'names':
            return int(ob.parLabel('b')[3:] or 0)
        lo = ob.ranges.getLower('b')
        return 0 if lo is None else int(round(lo)) + 100000

    def cachefiles(self):
        return [f for d in {getdist.cache_dir or self.dir, self.dir} for f in glob.glob(os.path.join(d, self.name + '*.py_mcsamples'))]

    def hash_files(self):
        h = {}
        for f in sorted(os.listdir(self.dir)):
            if not f.endswith('.py_mcsamples'):
                p = os.path.join(self.dir, f)
                h[f] = (hashlib.md5(open(p, 'rb').read()).hexdigest(), os.path.getmtime(p))
        return h

    def args(self, k, reuse={}):
        s = self.sets[k]
        kw = {}
        if s.get('ini'):
            kw['ini'] = self.inis[k] if self.rng.random() < 0.5 else IniFile(self.inis[k])
            if self.rng.random() < 0.5:        # settings override the ini
                kw["settings"] = {q: v for q, v in s.items() if q != "ini"}
                ini = IniFile(self.inis[k])
                ini.params["ignore_rows"] = "0.1"
                if "num_bins" in s:
                    ini.params["num_bins"] = "60"
                kw["ini"] = ini
        elif s:
            kw['settings'] = {q: v for q, v in s.items() if q != 'job'}
        if 'job' in s:
            kw['jobItem'] = Job(s['job'])
        return kw

    def load(self, k, nocache=False, race=None):
        kw = self.args(k)
        before = self.hash_files()
        kept = {q: (copy.deepcopy(v) if isinstance(v, dict) else copy.deepcopy(v.params) if isinstance(v, (IniFile, Job)) else v)
                for q, v in kw.items()}
        obs = dict(err='', same=True, raced=False)
        orig = MCSamples.readChains
        if race is not None:
            def racing(ob, *a, **kws):
                r = orig(ob, *a, **kws)
                obs['raced'] = True
                self.write(race, self.ver)
                return r
            MCSamples.readChains = racing
        try:
            os.chdir(self.dir)
            ob = loadMCSamples(self.load_root, no_cache=nocache, **kw)
        except Exception as ex:
            return dict(obs, err='%s: %s' % (type(ex).__name__, ex), files=[], aux=-1, sets=[])
        finally:
            MCSamples.readChains = orig
            os.chdir('/')
        for f in self.cachefiles():
            self.stamp(f, self.now())
        try:
            if race is None and self.hash_files() != before:
                obs['same'] = False
            for q, v in kw.items():
                w = v if isinstance(v, (dict, str)) else v.params
                if w != kept[q]:
                    obs['same'] = False
            obs.update(self.observe(ob))
        except Exception as ex:
            return dict(obs, err='observing %s: %s' % (type(ex).__name__, ex), files=[], aux=-1, sets=[])
        if race is not None:
            self.ver += 1
        return obs

    def observe(self, ob):
        files = []
        nm = ob.paramNames.list()
        a = ob.samples[:, nm.index('a')]
        bad = nm != ['a', 'b', 'd'] or [p.label[:3] for p in ob.paramNames.names] != ['a_l', 'b_l', 'd_l'] or \
            [p.isDerived for p in ob.paramNames.names] != [False, False, True]
        for x, y, d, l in zip(a, ob.samples[:, nm.index('b')], ob.samples[:, nm.index('d')], ob.loglikes):
            c, v, k = int(x) // 100000, int(x) % 100000 // 100, int(x) % 100
            if y != -0.5 * k * k + v or d != x + k or l != 10 + (k * 3) % 5:
                bad = True
            if files and files[-1][:2] == [c, v] and files[-1][3] + 1 == k:
                files[-1][2] += 1
                files[-1][3] = k
            else:
                files.append([c, v, 1, k])
        if any(f[3] != NROW - 1 for f in files) or bad:      # only leading rows may be missing
            files = [[-1, -1, -1, 0]]
        lens = [len(ch.samples) for ch in ob.getSeparateChains()]
        if lens != [f[2] for f in files]:
            files = [[-2, -2, -2, 0]]
        if abs(ob.getMeans()[0] - np.mean(a)) > 1e-6 * np.mean(a) or ob.getMeans().shape != (3,):
            files = [[-3, -3, -3, 0]]
        aux = self.read_aux(ob)
        sig = signature(ob)
        return dict(files=[f[:3] for f in files], aux=aux,
                    sets=[k for k in self.sets if reference(self.sets[k], self.kind == 'yaml') == sig])

    def damage(self, how):
        for f in self.cachefiles():
            if how == 'delete':
                os.remove(f)
                continue
            data = open(f, 'rb').read()
            if how == 'empty':
                data = b''
            elif how == 'truncate':
                data = data[:self.rng.randint(0, max(0, len(data) - 1))]
            elif how == 'garbage':
                data = bytes(self.rng.randrange(256) for _ in range(50))
            elif how == 'foreign':
                data = pickle.dumps(self.rng.choice([{'version': 1}, [1, 2], np.zeros(3)]))
            elif how == 'oldversion':
                try:
                    ob = pickle.loads(data)
                    ob.version = 'x' if isinstance(ob.version, str) else ob.version - 1
                    ob.samples = ob.samples + 1
                    data = pickle.dumps(ob)
                except Exception:
                    data = b''
            with open(f, 'wb') as o:
                o.write(data)
            self.stamp(f, self.now())

    def close(self):
        for f in self.cachefiles():
            os.remove(f)
        shutil.rmtree(self.dir, ignore_errors=True)


def signature(ob):
    sig = []
    for a in ATTRS:
        v = getattr(ob, a, None)
        sig.append(repr([float(x) for x in v]) if isinstance(v, (list, tuple, np.ndarray)) else
                   repr(sorted(v.items())) if isinstance(v, dict) else
                   repr(float(v)) if isinstance(v, (int, float, np.number)) else repr(v))
    sig.append(repr((ob.ranges.getLower('a'), ob.ranges.getUpper('a'))))
    sig.append(repr((ob.batch_path, ob.jobItem and ob.jobItem.kind)))
    m = ob.getMargeStats()
    sig.append(repr([float(x) for x in m.limits]))
    sig.append(repr([len(p.limits) for p in m.names]))
    p = ob.paramNames.parWithName('a')
    sig.append(repr((p.limmin, p.limmax, p.has_limits_bot, p.has_limits_top)))
    return sig


_ref = {}


def reference(s, yaml):
    """attributes of an object loaded with these settings from files that were never loaded before"""
    k = repr((sorted(s.items()), yaml))
    if k not in _ref:
        w = World(random.Random(k + str(os.getpid())), {'A': s}, 'yaml' if yaml else 'ranges')
        try:
            ob = loadMCSamples(w.root, no_cache=True, **w.args('A'))
            _ref[k] = signature(ob)
        finally:
            w.close()
    return _ref[k]


def scenario(args):
    hist, seed = args
    rng = random.Random(seed)
    a, b = rng.sample(POOL, 2)
    w = World(rng, {'A': a, 'B': b})
    out = [dict(op='new', sets=repr(w.sets))]
    try:
        for h in hist:
            if h['op'] in ('load', 'race'):
                s = w.sets[h['set']]
                if h['op'] == 'load':
                    obs = w.load(h['set'], h['nocache'])
                else:
                    obs = w.load(h['set'], race=h['c'])
                out.append(dict(h, burn=burn(s), rows=NROW, obs=obs))
                if obs['err']:
                    break
            elif h['op'] == 'write':
                w.write(h['c'], w.ver, -1000 - w.ver if h['old'] else None)
                w.ver += 1
                out.append(h)
            elif h['op'] == 'remove':
                os.remove(w.chain(h['c']))
                out.append(h)
            elif h['op'] == 'aux':
                w.aux(w.ver if h['exists'] else 0)
                w.ver += 1
                out.append(h)
            elif h['op'] == 'damage':
                w.damage(h['how'])
                out.append(h)
    finally:
        w.close()
    return out


def rand_hist(rng, n):
    chains = {1, 2}
    h = [dict(op='load', set=rng.choice('AB'), nocache=False)]
    while len(h) < n:
        r = rng.random()
        if r < 0.4:
            h.append(dict(op='load', set=rng.choice('AB'), nocache=rng.random() < 0.15))
        elif r < 0.5:
            h.append(dict(op='race', set=rng.choice('AB'), c=rng.choice(sorted(chains))))
        elif r < 0.7:
            c = rng.randint(1, 3)
            chains.add(c)
            h.append(dict(op='write', c=c, old=rng.random() < 0.4))
        elif r < 0.8 and len(chains) > 1:
            c = rng.choice(sorted(chains))
            chains.remove(c)
            h.append(dict(op='remove', c=c))
        elif r < 0.88:
            h.append(dict(op='aux', exists=rng.random() < 0.6))
        else:
            h.append(dict(op='damage', how=rng.choice(['delete', 'empty', 'truncate', 'garbage', 'foreign', 'oldversion'])))
    h.append(dict(op='load', set=rng.choice('AB'), nocache=False))
    return h


def check_C07():
    c = Check('C07')
    r = c.model('MCCache')
    beh = behaviours(r.out)
    c.extra['behaviours_in_model'] = len(beh)
    if not c.thorough:
        short = {}
        for b in beh:
            short.setdefault((b[0]['op'], b[0].get('nocache'), b[1]['op'], b[1].get('old'), b[1].get('how'), b[2]['op'],
                              b[2].get('old'), b[0]['set'] == b[3]['set']), []).append(b)
        beh = []
        for k in sorted(short, key=repr):
            beh += c.rng.sample(short[k], min(4, len(short[k])))
    longer = [rand_hist(c.rng, c.rng.randint(3, 10)) for _ in range(4000 if c.thorough else 250)]
    jobs = [(b, '%d/%d' % (c.seed, k)) for k, b in enumerate(beh + longer)]
    with Pool(8) as p:
        scs = p.map(scenario, jobs, chunksize=8)
    c.extra['loads'] = sum(e['op'] in ('load', 'race') for s in scs for e in s)
    c.trace('TraceCache', scs, 'load/modify histories', key=lambda sc, j: ' '.join(e['op'] for e in sc[:j + 1]))
    c.assumptions.append('a change of a file changes its modification time or its size')
    return c.finish()
