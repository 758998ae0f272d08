"""C28: samples loaded by name come from the right place with the right settings; bound to spec/Lookup.tla"""
import json
import os
import random
import shutil
import sys

import numpy as np

from getdist import IniFile, chains as gd_chains, plots
from paramgrid import gridconfig, batchjob
from harness.core import Check, behaviours
from harness.p_ini import pmap, sample, tmpdir, quiet

gd_chains.print_load_details = False
KEYS = ['ignore_rows', 'max_scatter_points', 'my_setting']
NAME = {'a': 'base_mnu_a', 'b': 'base_mnu_b', 'c': 'base_mnu_c'}
ROWS = 20
GRID = '''
import json
from paramgrid import batchjob
_d = json.loads(%r)
ini_dir = 'batch3/'
defaults = []
importanceDefaults = []
getdist_options = _d['ini']
groups = [batchjob.jobGroup('main', params=[['mnu']], datasets=[batchjob.dataSet(x['names'], [], dist_settings=x['set']) for x in _d['data']])]
'''


def asdict(s):
    return {x['k']: x['v'] for x in s}


class World:
    def __init__(self, rng, locs):
        self.rng, self.locs = rng, locs
        self.root = tmpdir(rng)
        self.syspath, self.mods = list(sys.path), set(sys.modules)
        self.files, self.burned = {}, {}
        self.objs = []
        self.an = None
        for i, l in enumerate(locs):
            self.make(i + 1, l)

    def close(self):
        sys.path[:] = self.syspath
        for m in set(sys.modules) - self.mods:
            if m.startswith('vlook'):
                del sys.modules[m]
        shutil.rmtree(self.root, ignore_errors=True)

    def chain(self, i, where, n, root):
        rng = self.rng
        os.makedirs(os.path.dirname(root), exist_ok=True)
        k = len(self.files)
        self.files[i, where, n] = root
        self.burned[i, where, n] = rng.random() < 0.15
        two = rng.random() < 0.3
        for c in range(2 if two else 1):
            with open(root + ('_%d' % (c + 1) if two or rng.random() < 0.5 or os.path.dirname(root).count('grid') else '') + '.txt', 'w') as f:
                for r in range(ROWS):
                    f.write('1 %g %g %g\n' % (5 + r, 1000 * (k + 1) + r + c / 10, rng.random()))
        with open(root + '.paramnames', 'w') as f:
            f.write('p P\nq Q\n')
        if self.burned[i, where, n]:
            with open(root + '.properties.ini', 'w') as f:
                f.write('burn_removed = T\n')
        self.two = getattr(self, 'two', {})
        self.two[k] = two
        return k

    def make(self, i, l):
        rng = self.rng
        d = os.path.join(self.root, 'loc%d' % i)
        l['path'] = d
        if l['kind'] == 'grid':
            mod = 'vlook%d' % rng.randrange(10 ** 9)
            own = {o['r']: asdict(o['set']) for o in l['own']}
            data = [dict(names=[n], set=own.get(n, {})) for n in l['here']]
            os.makedirs(os.path.join(self.root, 'set%d' % i))
            with open(os.path.join(self.root, 'set%d' % i, mod + '.py'), 'w') as f:
                f.write(GRID % json.dumps(dict(ini=asdict(l['ini']), data=data)))
            sys.path.insert(0, os.path.join(self.root, 'set%d' % i))
            with quiet():
                b = gridconfig.makeGrid(d, settingName=mod)
            sys.path.remove(os.path.join(self.root, 'set%d' % i))
            for x in b.items():
                self.chain(i, 'here', x.data_set.names[0], x.chainRoot)
            return
        os.makedirs(d)
        for n in l['here']:
            self.chain(i, 'here', n, os.path.join(d, NAME[n]))
        for n in l['sub']:
            self.chain(i, 'sub', n, os.path.join(d, rng.choice(['x', 'y', 'x/z']), NAME[n]))
        if l['ini'] or rng.random() < 0.2:
            with open(os.path.join(d, 'getdist.ini'), 'w') as f:
                for x in l['ini']:
                    f.write('%s = %s\n' % (x['k'], x['v']))

    def loc(self, i):
        p = self.locs[i - 1]['path'] + self.rng.choice(['', '/'])
        if self.locs[i - 1]['kind'] == 'grid' and self.rng.random() < 0.3:
            return batchjob.readobject(p)
        return p

    def settings(self, s):
        d = asdict(s)
        r = self.rng.random()
        if not d and r < 0.6:
            return None
        if r < 0.8:
            return {k: (str(v) if self.rng.random() < 0.5 else v) for k, v in d.items()}
        ini = IniFile(os.path.join(os.path.dirname(plots.__file__), 'analysis_defaults.ini'))
        ini.params.update({k: str(v) for k, v in d.items()})
        return ini

    def seen(self, mc, n, j):
        """what was loaded: source, settings, object"""
        ident = next((k for k, o in self.objs if o is mc), None)
        if ident is None:
            ident = j
            self.objs.append((j, mc))
        p = mc.getParams().p
        k = int(round(float(np.min(p)))) // 1000 - 1
        key = list(self.files)[k]
        chains = 2 if self.two[k] else 1
        cut = int(round(float(np.min(p)))) % 1000
        if mc.numrows != chains * (ROWS - cut):
            cut = -1
        my = mc.ini.params.get('my_setting')
        return dict(err='', src=[key[0], key[1]], id=ident, set=[[cut], [int(mc.max_scatter_points)], [] if my is None else [int(my)]],
                    name=os.path.basename(mc.getName() or ''), wantname=NAME[n])

    def run(self, o, j):
        rng = self.rng
        e = dict(o, id=j, burned=False)
        none = dict(err='', src=[], id=0, set=[], name='', wantname='')
        try:
            with quiet():
                if o['op'] == 'new':
                    self.an = plots.MCSampleAnalysis([self.loc(i) for i in o['locs']] if len(o['locs']) != 1 or rng.random() < 0.5 else self.loc(o['locs'][0]),
                                                     settings=self.settings(o['set']))
                    e['obs'] = none
                elif o['op'] == 'add':
                    self.an.add_chain_dir(self.loc(o['loc']))
                    e['obs'] = none
                elif o['op'] == 'remove':
                    self.an.remove_root(NAME[o['n']])
                    e['obs'] = none
                elif o['op'] == 'reset':
                    self.an.reset(self.settings(o['set']), chain_settings_have_priority=o['first'])
                    e['obs'] = none
                elif o['op'] in ('load', 'file'):
                    kw = {}
                    if o['set']:
                        kw['settings'] = asdict(o['set'])
                        given = dict(kw['settings'])
                    if not o['mem']:
                        kw['cache'] = False
                    if o['op'] == 'file':
                        f = self.files[o['src'][0], o['src'][1], o['n']]
                        if not kw and NAME[o['n']] not in self.an.mcsamples and rng.random() < 0.5:
                            mc = self.an.add_root(f)
                        else:
                            mc = self.an.samples_for_root(NAME[o['n']], f, **kw)
                    else:
                        mc = self.an.samples_for_root(NAME[o['n']], **kw)
                    e['obs'] = self.seen(mc, o['n'], j)
                    s = e['obs']['src']
                    e['burned'] = self.burned[s[0], s[1], o['n']]
                    if o['set'] and kw['settings'] != given:
                        e['obs']['err'] = 'settings of the caller changed'
                    # what is plotted under the name is of these samples
                    d = self.an.get_density(NAME[o['n']], 'p')
                    w = mc.copy()
                    w.density1D = {}
                    f = w.get1DDensityGridData('p')
                    if not (len(d.x) == len(f.x) and np.allclose(d.x, f.x) and np.allclose(d.P, f.P)):
                        e['obs']['err'] = 'density of other samples'
                    one = self.an.load_single_samples(NAME[o['n']])
                    if not np.all(np.isin(one[:, 0], mc.samples[:, 0])):
                        e['obs']['err'] = 'single samples of other samples'
        except plots.GetDistPlotError as x:
            e['obs'] = dict(none, err='notfound' if 'not found' in str(x) else str(x))
        except Exception as x:
            e['obs'] = dict(none, err='%s: %s' % (type(x).__name__, x))
        return e


def scenario(job):
    b, sd = job
    rng = random.Random(sd)
    w = None
    try:
        w = World(rng, [dict(l) for l in b['locs']])
        out = [dict(op='locs', locs=b['locs'])]
        for j, o in enumerate(b['ops']):
            out.append(w.run(o, j))
        return out
    finally:
        if w:
            w.close()


def tree(job):
    """chains in a tree of directories, and what names stand for in it"""
    _, sd = job
    rng = random.Random(sd)
    base = tmpdir(rng)
    try:
        tops = rng.sample(['base', 'base_mnu', 'x', 'dd'], rng.randint(1, 3))
        stock = [['base', 'mnu', 'a'], ['base', 'a', 'mnu'], ['base', 'mnu'], ['base', 'mnu', 'a', 'post', 'b'], ['base', 'mnu', 'a', 'b'], ['c']]
        stock = rng.sample(stock, rng.randint(2, 5))
        items = []
        for _ in range(rng.randint(1, 6)):
            dirs = [rng.choice(tops)] + [rng.choice(['x', 'y', 'base']) for _ in range(rng.choice([0, 0, 1, 1, 2]))]
            x = dict(dirs=dirs, toks=rng.choice(stock))
            if x not in items:
                items.append(x)
        for k, x in enumerate(items):
            d = os.path.join(base, *x['dirs'])
            os.makedirs(d, exist_ok=True)
            root = os.path.join(d, '_'.join(x['toks']))
            with open(root + '_1.txt', 'w') as f:
                f.write(''.join('1 2 %g %g\n' % (100 * (k + 1) + r, rng.random()) for r in range(12)))
            with open(root + '.paramnames', 'w') as f:
                f.write('p\nq\n')
        reqs = []
        for _ in range(rng.randint(4, 9)):
            x = rng.choice(items) if rng.random() < 0.85 else dict(dirs=[rng.choice(tops)], toks=rng.choice(stock))
            toks, lit = list(x['toks']), True
            if rng.random() < 0.3:
                rng.shuffle(toks)
            if rng.random() < 0.15 and 'post' not in toks:
                toks.insert(rng.randint(1, len(toks)), 'post')
            if toks[0] == 'post':
                toks = list(x['toks'])
            if rng.random() < 0.15 and len(toks) > 1:
                lit = False
            n = rng.choice([0, 0, 0, 1, 1, 2, 3])
            reqs.append(dict(dirs=x['dirs'][len(x['dirs']) - n:] if 0 < n <= len(x['dirs']) else ([] if n == 0 else x['dirs']), toks=toks, literal=lit))
        obs = dict(err='', got=[], tops=[])
        try:
            an = plots.MCSampleAnalysis(base + rng.choice(['', '/']))
            for q in reqs:
                k = rng.randrange(len(q['toks']) - 1) if not q['literal'] else -1
                name = '/'.join(q['dirs'] + [''.join(t + ('' if i == len(q['toks']) - 1 else '__' if i == k else '_') for i, t in enumerate(q['toks']))])
                try:
                    with quiet():
                        s = an.samples_for_root(name, cache=rng.random() < 0.5)
                    obs['got'].append([int(float(s.getParams().p.min())) // 100])
                except ValueError:
                    obs['got'].append([0])
                except plots.GetDistPlotError:
                    obs['got'].append([])
            for t in tops:
                names = [z.split('/') for z in an.chain_dirs[0].roots_for_dir(t)]
                obs['tops'].append(dict(dir=t, names=[[[d] for d in z[:-1]] + [z[-1].split('_')] for z in names]))
        except Exception as e:
            obs['err'] = '%s: %s' % (type(e).__name__, e)
        return [dict(op='tree', items=items, reqs=reqs, obs=obs)]
    finally:
        shutil.rmtree(base, ignore_errors=True)


def rand_set(rng):
    s = []
    if rng.random() < 0.5:
        s.append(dict(k=KEYS[0], v=rng.choice([2, 3, 5])))
    if rng.random() < 0.5:
        s.append(dict(k=KEYS[1], v=rng.choice([100, 300, 500])))
    return s


def rand_session(rng):
    locs = []
    for _ in range(rng.randint(1, 4)):
        kind = rng.choice(['plain', 'plain', 'tree', 'grid'])
        ns = ['a', 'b', 'c']
        rng.shuffle(ns)
        some = lambda lo: rng.sample(ns, rng.randint(lo, 2))
        ini = rand_set(rng) if rng.random() < 0.6 else []
        if kind != 'plain' or rng.random() < 0.5:
            ini = ini + ([dict(k=KEYS[2], v=rng.randint(1, 9))] if rng.random() < 0.4 else [])
        own = []
        here = some(1) if kind != 'tree' else []
        if kind == 'grid':
            own = [dict(r=n, set=rand_set(rng)) for n in here if rng.random() < 0.5]
        locs.append(dict(kind=kind, here=here, sub=[] if kind == 'grid' else some(0 if kind == 'plain' else 1), ini=ini, own=own))
    order = list(range(1, len(locs) + 1))
    rng.shuffle(order)
    k = rng.randint(1, len(order))
    ops = [dict(op='new', locs=order[:k], set=rand_set(rng))]
    srcs = [(i + 1, wh, n) for i, l in enumerate(locs) for wh in ('here', 'sub') for n in l[wh]]
    for _ in range(rng.randint(3, 9)):
        r = rng.random()
        if r < 0.5:
            ops.append(dict(op='load', n=rng.choice('abc'), mem=rng.random() < 0.7, set=[]))
            if rng.random() < 0.3:
                ops[-1].update(set=rand_set(rng) + ([dict(k=KEYS[2], v=11)] if rng.random() < 0.3 else []))
        elif r < 0.65:
            i, wh, n = rng.choice(srcs)
            ops.append(dict(op='file', n=n, src=[i, wh], mem=rng.random() < 0.7, set=rand_set(rng) if rng.random() < 0.3 else []))
        elif r < 0.75:
            ops.append(dict(op='remove', n=rng.choice('abc')))
        elif r < 0.88:
            ops.append(dict(op='reset', set=rand_set(rng), first=rng.random() < 0.5))
        else:
            ops.append(dict(op='add', loc=rng.choice(order)))
    return dict(locs=locs, ops=ops)


def key(sc, j):
    e = sc[j]
    return e['op'] + '/' + str(e.get('obs', {}).get('err', ''))[:40]


def check_C28():
    c = Check('C28')
    T = c.thorough
    r = c.model('MCLookup', consts=dict(Depth=5 if T else 4, Emit='TRUE'), timeout=3000)
    beh = behaviours(r.out)
    c.extra['sessions_in_model'] = len(beh)
    chosen = sample(c.rng, beh, 20000 if T else 1000)
    c.trace('TraceLookup', pmap(scenario, [(b, '%s/m%d' % (c.seed, k)) for k, b in enumerate(chosen)], chunk=16), 'sessions of the model', key=key)
    c.trace('TraceLookup', pmap(tree, [(None, '%s/t%d' % (c.seed, k)) for k in range(8000 if T else 600)], chunk=16), 'names in trees', key=key)
    n = 12000 if T else 700
    jobs = [(rand_session(c.rng), '%s/r%d' % (c.seed, k)) for k in range(n)]
    c.trace('TraceLookup', pmap(scenario, jobs, chunk=16), 'random sessions', key=key)
    return c.finish()
