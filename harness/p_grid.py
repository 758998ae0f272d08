"""C18, C19: grids of runs; bound to spec/Grid.tla, spec/GridIni.tla"""
import json
import os
import random
import shutil
import sys

import getdist
from getdist import IniFile
from paramgrid import batchjob, gridconfig
from harness.core import Check, behaviours, REPO
from harness.p_ini import pmap, tmpdir, sample, quiet

PARS = ['p', 'q', 'omegak', 'mnu', 'meffsterile']
DATA = ['a', 'b', 'c', 'lowl', 'BAO', 'Alens2']
UDATA = ['a', 'x_y', 'v1_2', 'BAO', 'lowl', 'c']          # with underscores in names
FILT = ['zre', 'cut']
KEYS = ['k1', 'k2', 'k3', 'k4', 'accuracy_level', 'use_x', 'data_dir']

MODULE = '''
import json, os
from paramgrid import batchjob
_d = json.loads(%r)
s = _d['s']

class Wanting(batchjob.importanceSetting):
    def wantImportance(self, jobItem):
        return self.want in jobItem.data_set.names

class WantTest(object):
    def __init__(self, want): self.want = want
    def wantImportance(self, jobItem):
        return self.want in jobItem.data_set.names

class Filter(batchjob.importanceFilter):
    def wantImportance(self, jobItem):
        return not self.want or self.want in jobItem.data_set.names

def fn(kv):
    return {x['k']: x['v'] for x in kv}

def info(l, names):
    for x in l:
        if x['names'] == names: return x

def plist(x, style):
    """settings of a data set: dictionaries and files, in one of the ways to write them"""
    l = [fn(d) for d in x['dicts']] + [f if style %% 2 else f.replace('.ini', '') for f in x['files']]
    if style == 2 and len(l) == 1: return l[0]
    if style == 3: return [[fn(d) for d in x['dicts']]] + x['files']
    return l

_shared = {}
def dset(names):
    x = info(s['datas'], names)
    style = x['style']
    kw = {}
    if x['cov']: kw['covmat'] = x['cov'] + '.covmat'
    if style == 4:
        first = list(names[:1])
        l = _shared.setdefault(tuple(first), first)        # the same list for several data sets
        d = batchjob.dataSet(l, [], **kw)
        for n in names[1:]: d.add(n, [])
        for f in x['files']: d.addEnd(None, f)
        for kv in x['dicts']: d.add(None, fn(kv))
        return d
    if style == 5:
        d = batchjob.dataSet(names[0] if len(names) == 1 else list(names), plist(x, 0), **kw)
        e = d.copy()
        e.add('junk', ['junk.ini'])
        return d
    return batchjob.dataSet(list(names), plist(x, style), **kw)

def imp(r):
    x = info(s['impd'], r['names'])
    style = x['style']
    l = plist(x, 3 if style == 3 else 1)
    if r['want'] and style == 1 and x['min']: return [list(r['names']), l, WantTest(r['want'])]
    if not r['want'] and style == 1 and x['min']: return (list(r['names']), l)
    c = Wanting if r['want'] else batchjob.importanceSetting
    o = c(list(r['names']), l, minimize=x['min'])
    o.want = r['want']
    return o

def filt(r):
    f = Filter(list(r['names']))
    f.want = r['want']
    return f

groups = []
_sets = {}
for _g in s['groups']:
    _ds = []
    for _n in _g['data']:
        _k = tuple(_n)
        if _k not in _sets: _sets[_k] = dset(_n)
        _ds.append(_sets[_k])
    if _d['style'] %% 2:
        g = batchjob.jobGroup(_g['name'], params=[list(p) for p in _g['params']], importanceRuns=[imp(r) for r in _g['imps']], datasets=_ds)
    else:
        g = batchjob.jobGroup(_g['name'])
        g.params = [list(p) for p in _g['params']]
        g.importanceRuns = [imp(r) for r in _g['imps']]
        g.datasets = _ds
    if _g['opts']: g.extra_opts = fn(_g['opts'])
    if _g['pextra']: g.param_extra_opts = {x['n']: fn(x['kv']) for x in _g['pextra']}
    groups.append(g)
ini_dir = _d['ini_dir']
cov_dir = _d['cov_dir']
defaults = list(s['defaults'])
importanceDefaults = list(s['impdefaults'])
params = fn(s['prior'])
param_extra_opts = {x['n']: fn(x['kv']) for x in s['pextra']}
if s['all']: importanceRuns = [imp(r) for r in s['all']]
if s['filters']: importance_filters = [filt(r) for r in s['filters']]
if s['skip']: skip = list(s['skip'])
if s['extra']: extra_opts = fn(s['extra'])
if s['override']: override_defaults = list(s['override'])
if s['bestfit'] == 'T': start_at_bestfit = True
if s['hasmaps']: covNameMappings = fn(s['maps'])
if s['renames']: covrenames = [[r['k'], r['v']] for r in s['renames']]
if s['without']: covWithoutNameOrder = list(s['without'])
if s['covmat']: covmat = s['covmat'] + '.covmat'
if not s['newcov']: newCovmats = False
if s['jobs']: jobItems = [batchjob.jobItem(_d['path'], list(j['par']), dset(j['data']), base=j['base']) for j in s['jobs']]
'''


def rand_kv(rng, n=2, keys=KEYS):
    return [dict(k=k, v='%s%d' % (rng.choice(['v', '', '-']), rng.randint(0, 99))) for k in rng.sample(keys, rng.randint(0, min(n, len(keys))))]


def fill(rng, s, rich):
    """complete the settings of a grid with options, files and covariance matrices"""
    datas = []
    for d in [d for g in s['groups'] for d in g['data']] + [j['data'] for j in s['jobs']]:
        if d not in datas:
            datas.append(d)
    files = ['f%d.ini' % k for k in range(5)]
    nf = lambda m: rng.sample(files, rng.randint(0, m)) if rich else []
    s['datas'] = []
    for d in datas:
        style = rng.randrange(6)
        dicts = [rand_kv(rng) for _ in range(rng.randint(0, 2))] if rich else []
        if style == 4:
            dicts = dicts[:1]
        s['datas'].append(dict(names=d, dicts=dicts, files=nf(2), cov=rng.choice(['', '', 'dcov']) if rich else '', style=style))
    imps = []
    for r in s['all'] + [r for g in s['groups'] for r in g['imps']]:
        if r['names'] not in imps:
            imps.append(r['names'])
    s['impd'] = [dict(names=d, dicts=[rand_kv(rng) for _ in range(rng.randint(0, 2))] if rich else [], files=nf(2), min=rng.random() < 0.6, style=rng.choice([1, 3])) for d in imps]
    for g in s['groups']:
        g['opts'] = rand_kv(rng) if rich else []
        g['pextra'] = [dict(n=p, kv=rand_kv(rng)) for p in rng.sample(PARS, rng.randint(0, 2))] if rich else []
    s['prior'] = [dict(k=p, v='%d 0 %d 1 1' % (k, k + 5)) for k, p in enumerate(PARS)]
    s['pextra'] = [dict(n=p, kv=rand_kv(rng)) for p in rng.sample(PARS, rng.randint(0, 3))] if rich else []
    s['extra'] = rand_kv(rng) if rich else []
    s['defaults'], s['impdefaults'], s['override'] = nf(3), nf(2), nf(1) if rng.random() < 0.4 else []
    s['content'] = [dict(n=f, kv=rand_kv(rng, 4) + ([dict(k='param[%s]' % p, v='%d' % rng.randint(0, 9)) for p in rng.sample(PARS, 2)])) for f in files]
    s['bestfit'] = 'T' if rich and rng.random() < 0.2 else 'F'
    s['hasmaps'] = rich and rng.random() < 0.4
    dn = sorted({n for d in datas for n in d})
    s['maps'] = [dict(k=n, v=rng.choice(['M' + n, ''])) for n in rng.sample(dn, min(len(dn), 2))] if s['hasmaps'] else []
    s['renames'] = [dict(k=rng.choice(dn), v=rng.choice(dn + ['new'])) for _ in range(2)] if rich and rng.random() < 0.4 else []
    s['without'] = rng.sample(dn, min(2, len(dn))) if rich and rng.random() < 0.4 else []
    s['covmat'] = 'setcov' if rich and rng.random() < 0.2 else ''
    s['newcov'] = rng.random() < 0.8
    s['order'] = sorted(set(dn + PARS + ['M' + n for n in dn]))
    cand = ['dcov', 'setcov']
    for d in datas:
        for p in [p for g in s['groups'] for p in g['params']]:
            for names in (d, sorted(d), sorted('M' + x if rng.random() < 0.5 else x for x in d), d[:-1], d[1:], ['new'] + d[1:]):
                cand.append('_'.join(['base'] + rng.choice([list(p), sorted(p)]) + names))
    s['covs'] = rng.sample(sorted(set(cand)), min(len(set(cand)), rng.choice([0, 1, 2, 4, 8]))) if rich else []
    return s


class G:
    def __init__(self, rng):
        self.rng, self.d = rng, tmpdir(rng)
        self.syspath, self.mods = list(sys.path), set(sys.modules)
        self.cache = getdist.cache_dir
        if rng.random() < 0.4:
            getdist.cache_dir = ''          # (cached settings in the grid's own directory)

    def close(self):
        getdist.cache_dir = self.cache
        sys.path[:] = self.syspath
        for m in set(sys.modules) - self.mods:
            if m.startswith('vset'):
                del sys.modules[m]
        shutil.rmtree(self.d)

    def view(self, x, root):
        rel = lambda p: p[len(root):] if p.startswith(root) else '?' + p
        return dict(name=x.name, par=list(x.param_set), data=list(x.data_set.names), imp=bool(x.isImportanceJob), parent=x.parent.name if x.isImportanceJob else '',
                    group=x.group or '', base=x.base, paramtag=x.paramtag, datatag=x.datatag, rel=x.relativePath, chain=rel(x.chainRoot), dist=rel(x.distRoot), ini=rel(x.iniFile()))

    def event(self, op, fn, default, **e):
        try:
            with quiet():
                obs = fn()
            return dict(op=op, err=False, obs=obs, **e)
        except Exception as ex:
            return dict(op=op, err=True, obs=default, exc='%s: %s' % (type(ex).__name__, ex), **e)

    def make(self, s, k=0, modname='vset'):
        """creates the grid from a settings module"""
        rng = self.rng
        base = os.path.join(self.d, 'g%d' % k)
        os.makedirs(os.path.join(base, 'set'))
        os.makedirs(os.path.join(base, 'ini'))
        os.makedirs(os.path.join(base, 'cov'))
        for f in s['content']:
            with open(os.path.join(base, 'ini', f['n']), 'w') as h:
                h.write(''.join('%s = %s\n' % (x['k'], x['v']) for x in f['kv']))
        for c in s['covs']:
            open(os.path.join(base, 'cov', c + '.covmat'), 'w').close()
        root = os.path.join(base, 'grid') + os.sep
        ini_dir = os.path.relpath(os.path.join(base, 'ini'), REPO) + os.sep
        mod = MODULE % json.dumps(dict(s=s, ini_dir=ini_dir, cov_dir=os.path.join(base, 'cov'), path=root, style=rng.randrange(2)))
        with open(os.path.join(base, 'set', modname + '.py'), 'w') as h:
            h.write(mod)
        sys.path.insert(0, os.path.join(base, 'set'))
        sys.modules.pop(modname, None)      # (normally each grid is made in its own process)

        def go():
            b = self.batch = gridconfig.makeGrid(root[:-1], settingName=modname)
            return [self.view(x, root) for x in b.items(wantImportance=True)]
        self.s, self.root, self.base, self.modname, self.batch = s, root, base, modname, None
        e = self.event('make', go, [], s=s)
        sys.path.remove(os.path.join(base, 'set'))
        return e

    def find(self):
        rng, out = self.rng, []
        b, root = self.batch, self.root
        its = list(b.items(wantImportance=True))
        for x in rng.sample(its, min(len(its), 4)):
            par = rng.sample(x.param_set, len(x.param_set))
            data = rng.sample(x.data_set.names, len(x.data_set.names))
            if rng.random() < 0.2:
                data = data[:-1] or data
            elif rng.random() < 0.2:
                par = par[:-1]
            tag = '_'.join(data)
            if len(data) > 1 and rng.random() < 0.3:
                tag = data[0] + '_post_' + '_'.join(data[1:])
            imp = rng.random() < 0.8
            p = '_'.join(par) if rng.random() < 0.5 else list(par)
            base = x.base if rng.random() < 0.9 else 'nobase'
            how = rng.choice(['name', 'item', 'raise'])

            def fn():
                if how == 'item':
                    r = b.resolveName(p, tag, wantImportance=imp, raiseError=False, base=base, returnJobItem=True)
                    return r.name if r is not None else ''
                if how == 'raise':
                    try:
                        return b.resolveName(p, tag, wantImportance=imp, base=base)
                    except Exception as ex:
                        if 'No match' in str(ex):
                            return ''
                        raise
                return b.resolveName(p, tag, wantImportance=imp, raiseError=False, base=base) or ''
            out.append(self.event('find', fn, '?', base=base, par=par, data=data, imp=imp))
            n = rng.choice([x.name, x.name, 'none'])

            def res():
                r = b.resolveRoot(n)
                return r.name if r is not None else ''
            out.append(self.event('root', res, '?', name=n))
            out.append(self.event('has', lambda: bool(b.hasName(n)), False, name=n))
        for imp in (True, False):
            out.append(self.event('items', lambda: [x.name for x in b.items(wantImportance=imp)], [], imp=imp))
        return out

    def files(self):
        out, root = [], self.root
        have = sorted(os.path.join(d, f) for d in ('iniFiles', 'postIniFiles') for f in os.listdir(root + d)) if self.batch is not None else []
        out.append(dict(op='files', err=False, obs=have))
        cov = os.path.join(self.base, 'cov') + os.sep

        def read(f):
            ini = IniFile(root + f)
            kv = {}
            for k, v in ini.params.items():
                v = str(v)
                if k in ('file_root', 'redo_outroot'):
                    v = v[len(root):] if v.startswith(root) else '?' + v
                elif k == 'propose_matrix':
                    v = v[len(cov):-7] if v.startswith(cov) and v.endswith('.covmat') else '?' + v
                kv[k] = v
            return [dict(k=k, v=v) for k, v in sorted(kv.items())]
        for f in self.rng.sample(have, min(len(have), 8)):
            out.append(self.event('file', lambda: read(f), [], f=f))
        return out

    def texts(self):
        return {f: open(os.path.join(self.root, f)).read() for d in ('iniFiles', 'postIniFiles', 'config') for f in (os.path.join(d, x) for x in os.listdir(self.root + d)) if not f.endswith('.pyc') and '__pycache__' not in f}

    def again(self):
        """writing the grid again changes nothing"""
        before = self.texts()
        sys.path.insert(0, os.path.join(self.base, 'set'))
        sys.modules.pop(self.modname, None)

        def go():
            b = gridconfig.makeGrid(self.root, settingName=self.modname)
            if self.texts() != before:
                raise Exception('files differ when the grid is written again')
            return [self.view(x, self.root) for x in b.items(wantImportance=True)]
        e = self.event('make', go, [], s=self.s)
        sys.path.remove(os.path.join(self.base, 'set'))
        return e

    def read(self, exist=None):
        """read the grid from its directory: as saved, or (exist) from its configuration with the chains there are"""
        def go():
            if exist is not None:
                batchjob.resetGrid(self.root)
            b = batchjob.readobject(self.root if self.rng.random() < 0.5 else self.root[:-1])
            return [self.view(x, self.root) for x in b.items(wantImportance=True)]
        names = exist
        if exist is None:
            names = [x.name for x in self.batch.items()]
        else:
            for x in self.batch.items():
                f = x.chainRoot + '_1.txt'
                if x.name in exist:
                    with open(f, 'w') as h:
                        h.write('1 1 1\n')
                elif self.rng.random() < 0.3:
                    open(f, 'w').close()
        return self.event('read', go, [], exist=names)


def rand_settings(rng, data=DATA):
    par = lambda: rng.sample(PARS, rng.choice([0, 0, 1, 1, 2]))
    dat = lambda: rng.sample(data, rng.choice([1, 1, 2, 3]))

    def distinct(f, n):
        out = []
        for _ in range(n):
            x = f()
            if sorted(x) not in [sorted(y) for y in out]:
                out.append(x)
        return out
    pars, dats = distinct(par, 4), distinct(dat, 5)
    run = lambda: dict(names=rng.sample(data, rng.choice([1, 1, 2])), want=rng.choice(['', '', '', rng.choice(data)]))
    s = dict(groups=[], all=[run() for _ in range(rng.choice([0, 1, 1, 2]))], filters=[dict(names=[f], want='') for f in rng.sample(FILT, rng.choice([0, 0, 1, 2]))], skip=[], jobs=[])
    for k in range(rng.randint(1, 3)):
        s['groups'].append(dict(name='g%d' % k, params=rng.sample(pars, rng.randint(1, len(pars))), data=rng.sample(dats, rng.randint(1, min(3, len(dats)))), imps=[run() for _ in range(rng.choice([0, 1, 2]))]))
    if rng.random() < 0.25:
        s['jobs'] = [dict(base='other', par=rng.choice(pars), data=rng.choice(dats))]
    if rng.random() < 0.3:
        g = rng.choice(s['groups'])
        s['skip'] = ['_'.join(['base'] + rng.choice(g['params']) + rng.choice(g['data'])) + rng.choice(['', '', '_post_' + rng.choice(FILT)])]
    return s


def scenario(args):
    s, seed, rich = args
    rng = random.Random(seed)
    g = G(rng)
    try:
        if s is None:
            s = rand_settings(rng, UDATA if not rich and rng.random() < 0.3 else DATA)
        s = fill(rng, json.loads(json.dumps(s)), rich)
        out = [g.make(s)]
        if g.batch is None:
            return out
        if not rich:
            return out + g.find()
        out += g.files()
        steps = [lambda: out.append(g.again()), lambda: out.append(g.read())]
        rng.shuffle(steps)
        for f in steps[:rng.randint(0, 2)]:
            f()
        if rng.random() < 0.5:
            out += g.files()
        if rng.random() < 0.4:
            # another grid, whose settings file may have the same name
            g2 = G(rng)
            try:
                getdist.cache_dir = g.cache if getdist.cache_dir else ''
                s2 = fill(rng, rand_settings(rng), True)
                o2 = [g2.make(s2, 1, rng.choice(['vset', 'vset2']))]
                if g2.batch is not None:
                    m1, m2 = [x.name for x in g.batch.items()], [x.name for x in g2.batch.items()]
                    o2.append(g2.read(rng.sample(m2, rng.randint(min(1, len(m2)), len(m2)))))
                    out.append(g.read(rng.sample(m1, rng.randint(min(1, len(m1)), len(m1)))))
                out += o2
            finally:
                g2.close()
        elif rng.random() < 0.6:
            m = [x.name for x in g.batch.items()]
            if m:
                out.append(g.read(rng.sample(m, rng.randint(1, len(m)))))
        return out
    finally:
        g.close()


def key(sc, j):
    return sc[j]['op'] + '/' + sc[j].get('exc', '').split(':')[0]


def check_C18():
    c = Check('C18')
    T = c.thorough
    r = c.model('MCGrid', consts=dict(NGroups=2 if T else 1))
    beh = behaviours(r.out)
    c.extra['behaviours_in_model'] = len(beh)
    jobs = [(b, '%s/%d' % (c.seed, k), False) for k, b in enumerate(sample(c.rng, beh, 20000 if T else 900))]
    c.trace('TraceGrid', pmap(scenario, jobs), 'model settings', key=key)
    c.trace('TraceGrid', pmap(scenario, [(None, '%s/r%d' % (c.seed, k), False) for k in range(20000 if T else 1200)]), 'random settings', key=key)
    c.assumptions.append('names of parameters, data and importance filters are different, and a combination is not requested in two orders')
    return c.finish()


def check_C19():
    c = Check('C19')
    T = c.thorough
    r = c.model('MCGrid')
    beh = behaviours(r.out)
    c.extra['behaviours_in_model'] = len(beh)
    jobs = [(b, '%s/%d' % (c.seed, k), True) for k, b in enumerate(sample(c.rng, beh, 1700 if T else 250))]
    c.trace('TraceGrid', pmap(scenario, jobs), 'model settings', key=key)
    c.trace('TraceGrid', pmap(scenario, [(None, '%s/r%d' % (c.seed, k), True) for k in range(12000 if T else 600)]), 'random settings', key=key)
    c.assumptions.append('the value of a key given by several settings dictionaries that were added to one data set separately is not specified')
    return c.finish()
