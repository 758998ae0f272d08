"""C20: selecting and submitting the runs of a grid; bound to spec/Select.tla"""
import json
import os
import random
import re
import shutil
import sys
import time

from paramgrid import batchjob, batchjob_args, gridconfig
from harness.core import Check, behaviours
from harness.p_ini import pmap, sample, quiet
from harness.p_jobs import W

MODULE = '''
import json, os
from paramgrid import batchjob
_d = json.loads(%r)
ini_dir = 'batch3/'
defaults = []
importanceDefaults = []
class Filter(batchjob.importanceFilter):
    def filter(self, batch, jobItem):
        with open(os.environ['VSEL_LOG'], 'a') as f: f.write(jobItem.name + '\\n')
groups = []
for _g in _d['groups']:
    g = batchjob.jobGroup(_g['name'], params=_g['params'], datasets=[batchjob.dataSet(x, []) for x in _g['data']],
                          importanceRuns=[batchjob.importanceSetting(x['names'], minimize=x['min']) for x in _g['imps']])
    groups.append(g)
if _d['filters']: importance_filters = [Filter(x['names'], minimize=x['min']) for x in _d['filters']]
if _d['all']: importanceRuns = [batchjob.importanceSetting(x['names'], minimize=x['min']) for x in _d['all']]
'''
AGES = [0, 5, 50, 150, 450, 1000, 1200, 5000]
LISTS = ['itag', 'inames', 'name', 'param', 'ptag', 'skippar', 'data', 'dtag', 'must', 'skipdata', 'group', 'skipgroup']
ARG = dict(itag='importancetag', name='name', param='param', ptag='paramtag', skippar='skip_param', data='data', dtag='datatag', must='musthave_data', skipdata='skip_data',
           group='group', skipgroup='skip_group')
SMALL = dict(groups=[dict(name='main', params=[['mnu']], data=[['a'], ['b']], imps=[])], filters=[], all=[])
NOFILTER = dict({k: [] for k in LISTS}, imp='both')
NONE = dict(ch=[], min='none', cst=dict(r=-1, done=False), chk=False, cv=-1, marge=-1, queued=[], burned=False)
BOOLS = ['minimize', 'impmin', 'impgiven', 'impchanged', 'impready', 'filters', 'notexist', 'minfailed', 'pstopped', 'chainexists', 'notqueued']
NOOPTS = dict({k: False for k in BOOLS}, notall=0, pconv=0, conv=0, checkpoint=-1)
OPTARG = dict(minimize='minimize', impmin='importance_minimize', impchanged='importance_changed', impready='importance_ready', filters='filters', notexist='notexist', minfailed='minimize_failed',
              pstopped='parent_stopped', chainexists='chain_exists', notqueued='not_queued')


def num(v):
    return '%.4f' % (v / 1e4)


class S(W):
    def __init__(self, rng, spec, imps=None):
        W.__init__(self, rng)
        self.mods, self.syspath = set(sys.modules), list(sys.path)
        os.environ['VSEL_LOG'] = self.path('filtered')
        os.makedirs(self.path('set'))
        self.mod = 'vsel%d' % rng.randrange(10 ** 9)
        with open(self.path('set/%s.py' % self.mod), 'w') as h:
            h.write(MODULE % json.dumps(spec))
        sys.path.insert(0, self.path('set'))
        with quiet():
            self.batch = gridconfig.makeGrid(self.path('grid'), settingName=self.mod)
        sys.path.remove(self.path('set'))
        self.bp = self.path('grid') + rng.choice(['', '/'])
        self.items = list(self.batch.items(wantImportance=True))
        self.st = {x.name: dict(NONE) for x in self.items}
        self.jobs = {}
        self.given = None

    def close(self):
        sys.path[:] = self.syspath
        for m in set(sys.modules) - self.mods:
            if m.startswith('vsel'):
                del sys.modules[m]
        W.close(self)

    def grid_event(self):
        its = []
        for x in self.items:
            p = x.parent if x.isImportanceJob else None
            its.append(dict(name=x.name, par=list(x.param_set), data=list(x.data_set.names), ptag=x.paramtag, dtag=x.datatag, group=x.group or '', imp=bool(x.isImportanceJob),
                            itag=x.importanceTag if p else '', inames=list(x.data_set.importanceNames) if p else [], parent=p.name if p else '', pimp=bool(p and p.isImportanceJob),
                            pparent=p.parent.name if p and p.isImportanceJob else '', filter=hasattr(x, 'importanceFilter'), wantmin=bool(x.want_minimize)))
        return dict(op='grid', err=False, obs=[], items=its, tags=sorted(set(x['ptag'] for x in its)))

    # --- what is on disk
    def write(self, f, txt, age, now):
        os.makedirs(os.path.dirname(f), exist_ok=True)
        with open(f, 'w') as h:
            h.write(txt)
        os.utime(f, (now - age, now - age))

    def apply(self):
        rng, now = self.rng, int(time.time())
        for x in self.items:
            shutil.rmtree(x.chainPath, ignore_errors=True)
        for x in self.items:
            s = self.st[x.name]
            for c in s['ch']:
                self.write(x.chainName(c['n']), '1 2 3\n' if c['full'] else '', c['age'], now)
            if s['min'] != 'none':
                self.write(x.chainRoot + '.minimum', '-log(Like) = %s\n%s\n\n 1 0.022 omegabh2 \\Omega_b h^2\n\n 2 1.5 nnu N_\\nu\n\n' %
                           ('5634.3' if s['min'] == 'ok' else '1.000000000000E+030', ' chi-sq    =  11268.6' if rng.random() < 0.5 else ''), 30, now)
            elif rng.random() < 0.2:
                self.write(x.chainRoot + '.minimum', '', 30, now)
            if s['cst']['r'] >= 0:
                self.write(x.chainRoot + '.converge_stat', '  %s  \n%s' % (num(s['cst']['r']), 'Done\n' if s['cst']['done'] else rng.choice(['', '\n', 'Running\n'])), 30, now)
            elif rng.random() < 0.2:
                self.write(x.chainRoot + '.converge_stat', '', 30, now)
            if s['chk']:
                self.write(x.chainRoot + '_1.chk', rng.choice(['', 'x']), 30, now)
            if s['cv'] != -1:
                txt = 'Gelman\n' if s['cv'] == -2 else ' Variance test\nvar(mean)/mean(var) for eigenvalues\n  1      0.00010\n  2%13s\n\nmore\n' % num(s['cv'])
                self.write(x.distRoot + '.converge', txt, 30, now)
            elif rng.random() < 0.2:
                self.write(x.distRoot + '.converge', '', 30, now)
            if s['marge'] >= 0:
                self.write(x.distRoot + '.margestats', 'x', s['marge'], now)
            if s['burned']:
                self.write(x.chainRoot + '.properties.ini', 'burn_removed = T\n', 30, now)
            elif rng.random() < 0.2:
                self.write(x.chainRoot + '.properties.ini', 'burn_removed = F\n', 30, now)

    def set_queue(self):
        """submit and remove jobs so that exactly those in the states are in the queue"""
        want = {(n, v) for n, s in self.st.items() for v in s['queued']}
        for k in [k for k in self.jobs if k not in want]:
            self.queue = [q for q in self.queue if q['id'] != self.jobs[k]]
            del self.jobs[k]
        for n, v in sorted(want - set(self.jobs)):
            self.jobs[n, v] = self.submit('job', [n + v], seq=False)['id']
            for q in self.queue:
                if q['id'] == self.jobs[n, v] and self.rng.random() < 0.5:
                    q['st'] = 'R'

    def status(self):
        self.apply()
        self.set_queue()
        return dict(op='status', err=False, obs=[], st=json.loads(json.dumps(self.st)))

    def args(self, f):
        a = [self.bp]
        for k in LISTS:
            if k != 'inames' and f[k]:
                a += ['--' + ARG[k]] + list(f[k])
        if f['imp'] == 'no':
            a.append('--noimportance')
        elif f['imp'] == 'only':
            a += ['--importance'] + list(f['inames'])
        return a

    def event(self, op, fn, default, **e):
        try:
            with quiet():
                return dict(op=op, err=False, obs=fn(), **e)
        except (Exception, SystemExit) as ex:
            return dict(op=op, err=True, obs=default, exc='%s: %s' % (type(ex).__name__, ex), **e)

    def opts(self, f):
        o = batchjob_args.batchArgs('x', notExist=True, notall=True, converge=True)
        o.parseForBatch(self.args(f))
        return o

    def api(self, f, exist):
        return self.event('api', lambda: [x.name for x in self.opts(f).filteredBatchItems(chainExist=exist)], [], f=f, exist=exist)

    def files(self):
        """chain files of every run: those there, the first ones as asked for"""
        def nums(x, l):
            a, b = x.chainRoot + '_', '.txt'
            return [int(v[len(a):-len(b)]) if v.startswith(a) and v.endswith(b) else -1 for v in l]

        def go():
            r = []
            for x in self.items:
                k = 1 + (len(x.name) + len(r)) % 3
                r.append(dict(n=x.name, k=k, there=nums(x, x.chainNames()), first=nums(x, x.chainNames(k)), all=bool(x.allChainExists(k))))
            return r
        return self.event('files', go, [])

    def tags(self, f, exist):
        return self.event('tags', lambda: [dict(t=t, l=[x.name for x in l]) for t, l in self.opts(f).sortedParamtagDict(chainExist=exist)], [], f=f, exist=exist)

    def listgrid(self, f, o):
        def go():
            a = self.args(f) + ['--exists'] * o['exists'] + ['--notexist'] * o['notexist'] + (['--converge', num(o['conv'])] if o['conv'] else [])
            return [dict(n=l.split(' (')[0], g=l.split(' (')[1][:-1]) for l in self.run_script('listGrid.py', a).split('\n') if l.strip() and not l.startswith('WARNING') and not l.startswith('Error reading')]
        return self.event('listgrid', go, [], f=f, o=o)

    def check(self, f, o, mode):
        default = dict(missing=[], unconv=[], unfinished=[], stuck=[])

        def go():
            a = self.args(f) + ['--exist'] * o['exist'] + ['--not_running'] * o['notrunning'] + ['--running'] * o['running'] + (['--converge', num(o['conv'])] if o['conv'] else [])
            a += {'check': [], 'unfinished': [] if o['running'] else ['--checkpoint'], 'stuck': ['--stuck']}[mode]
            r, to = {k: [] for k in default}, 'unconv'
            for l in self.run_script('checkConverge.py', a).split('\n'):
                if l.startswith('Not exist'):
                    to = 'missing'
                elif l.startswith('Converge check'):
                    to = 'unconv'
                elif l.startswith('Convergence from'):
                    to = 'unfinished'
                elif l.startswith('Chain stuck?...'):
                    r['stuck'].append(l[15:].strip())
                elif l.startswith('...'):
                    r[to].append(os.path.basename(l.split()[1]))
            return r
        return self.event(mode, go, default, f=f, o=o)

    def getdist(self, f, o):
        default = dict(ran=[], inis=[])
        log = self.path('ran')
        self.put('ran', '')
        self.put('gd.sh', 'echo "$1" >> %s\n' % log)
        shutil.rmtree(self.path('grid/getdist'), ignore_errors=True)

        def go():
            a = self.args(f) + ['--command', '/bin/sh', '--command_params', self.path('gd.sh')] + ['--norun'] * o['norun'] + ['--notexist'] * o['notexist'] + ['--update_only'] * o['updateonly']
            a += ['--burn_removed'] * o['burnremoved'] + (['--burn_remove', o['burn']] if o['burn'] else [])
            self.run_script('runGridGetdist.py', a)
            d = self.path('grid/getdist')
            order = {x.name: k for k, x in enumerate(self.items)}
            inis = []
            for g in sorted(os.listdir(d), key=lambda g: order.get(g[:-4], 999)):
                p = {}
                for l in open(os.path.join(d, g)):
                    if '=' in l:
                        k, v = l.split('=', 1)
                        p[k.strip()] = v.strip()
                inis.append(dict(n=g[:-4], root=os.path.basename(p['file_root']), ign=p.get('ignore_rows', ''), cmp=os.path.basename(p.get('compare1', ''))))
            return dict(ran=[os.path.basename(l.strip())[:-4] for l in open(log)], inis=inis)
        e = self.event('getdist', go, default, f=f, o=o)
        for x in self.items:         # (the stand-in makes no files)
            if os.path.isdir(x.distPath) and not os.listdir(x.distPath):
                os.rmdir(x.distPath)
        return e

    def runbatch(self, f, o):
        rng = self.rng
        dry = o['filters'] or rng.random() < 0.7
        src, txt = self.resources(1)
        src['perjob'] = [1, -1, -1, 1]
        kw = self.template(src, txt)
        a = self.args(dict(f, imp='only' if o['impgiven'] else 'both'))
        for k, v in OPTARG.items():
            a += ['--' + v] * o[k]
        if o['notall']:
            a += ['--notall', o['notall']]
        for k, v in (('conv', 'converge'), ('pconv', 'parent_converge')):
            if o[k]:
                a += ['--' + v, num(o[k])]
        if o['checkpoint'] >= 0:
            a += ['--checkpoint_run'] + ([num(o['checkpoint'])] if o['checkpoint'] or rng.random() < 0.3 else [])
        for k, v in kw.items():
            if v is not None and k != 'runsPerJob':
                a += ['--' + k, v]
        a += ['--dryrun'] * dry
        new = [self.newid() for _ in range(12)]
        self.put('filtered', '')
        self.put('rc', '0\n')
        first = self.calls
        for k, (_, s) in enumerate(new):
            self.reply(first + 1 + k, s)
        self.listing()

        def go():
            out = self.run_script('runbatch.py', a)
            root = self.path('grid') + '/'
            rel = lambda p: p[len(root):] if p.startswith(root) else '?' + p
            if dry:
                subs = [rel(l[4:].strip()) for l in out.split('\n') if l.startswith('... ')]
            else:
                subs = [rel(re.sub(r'\.ini$', '', c['ini'])) for k in range(first + 1, self.ncalls() + 1) for c in self.parse(self.path('call_%d' % k))['cmds']]
            return dict(subs=subs, applied=open(self.path('filtered')).read().split())
        e = self.event('runbatch', go, dict(subs=[], applied=[]), f=f, o=o, real=not dry)
        if not dry:
            for (n, s), r in zip(new, e['obs']['subs']):
                self.queue.append(dict(id=s, num=n, list=self.listform % n, st='Q', user='tester'))
                r = os.path.basename(r)
                v = '_minimize' if r.endswith('_minimize') else ''
                nm = r[:len(r) - len(v)]
                if nm in self.st:
                    self.st[nm] = dict(self.st[nm], queued=sorted(set(self.st[nm]['queued'] + [v])))
                    if (nm, v) in self.jobs:
                        self.queue = [q for q in self.queue if q['id'] != self.jobs[nm, v]]
                    self.jobs[nm, v] = s
        for k in range(12):
            g = self.path('reply_%d' % (self.ncalls() + 1 + k))
            if os.path.exists(g):
                os.remove(g)
        self.calls = self.ncalls()
        return e


def model_scenario(args):
    """a life of the runs, from the model; all submissions as asked for"""
    b, seed = args
    rng = random.Random(seed)
    w = S(rng, dict(SMALL, groups=[dict(SMALL['groups'][0], imps=[dict(names=['z'], min=True)])]))
    nm = {'m1': 'base_mnu_a', 'm2': 'base_mnu_b', 'm1_post_z': 'base_mnu_a_post_z'}
    # the grid also has importance runs of the second one: not part of the life
    drop = 'base_mnu_b_post_z'
    try:
        out = [w.grid_event(), w.status()]
        for e in b['ops']:
            n = nm.get(e['n'])
            s = dict(w.st[n]) if n else None
            imp = n is not None and '_post_' in n
            chain = lambda a: [dict(n=1, full=True, age=a)]
            if e['op'] == 'submit':
                f = dict(NOFILTER, skipdata=[])
                f['name'] = sorted(set(nm.values()))
                out.append(w.runbatch(f, e['o']))
                vm = '_minimize' if e['o']['minimize'] or e['o']['impmin'] else ''
                for r in out[-1]['obs']['subs']:
                    r = os.path.basename(r)
                    r = r[:len(r) - len(vm)]
                    if r in w.st:
                        w.st[r] = dict(w.st[r], queued=sorted(set(w.st[r]['queued'] + [vm])))
            elif e['op'] == 'start':
                s.update(ch=chain(10), queued=[v for v in s['queued'] if v], chk=not imp)
                if not imp:
                    s['cst'] = dict(r=200, done=False)
            elif e['op'] == 'minimized':
                s.update(queued=[v for v in s['queued'] if not v], min=rng.choice(['ok', 'fail']))
            elif e['op'] == 'finish':
                s.update(ch=chain(10), cst=dict(r=20, done=True))
            elif e['op'] == 'analyse':
                s.update(cv=s['cst']['r'], marge=0)
            elif e['op'] == 'tick':
                for k in w.st:
                    if w.st[k]['ch']:
                        w.st[k] = dict(w.st[k], ch=chain(w.st[k]['ch'][0]['age'] + 1000))
            if n:
                w.st[n] = s
            out.append(w.status())
        return out
    finally:
        w.close()


def rand_spec(rng):
    P = [[], ['mnu'], ['mnu', 'nnu'], ['omegak'], ['nnu']]
    D = [['a'], ['a', 'b'], ['c'], ['b', 'lowl'], ['al']]
    I = [['BAO'], ['z'], ['lensing', 'BAO'], ['lensing']]
    imps = lambda m: [dict(names=n, min=rng.random() < 0.7) for n in rng.sample(I, rng.randint(0, m))]
    ds = rng.sample(D, rng.randint(2, 4))
    g = [dict(name='main', params=rng.sample(P, rng.randint(1, 3)), data=ds[:-1], imps=imps(2)), dict(name=rng.choice(['second', 'mai']), params=rng.sample(P, rng.randint(1, 2)), data=ds[-1:], imps=imps(1))]
    return dict(groups=g[:rng.randint(1, 2)], filters=[dict(names=['zre5'], min=rng.random() < 0.3)] if rng.random() < 0.5 else [], all=[])


def rand_status(rng, imp):
    s = json.loads(json.dumps(NONE))
    r = rng.random()
    if r < 0.75:
        n = rng.choice([1, 2, 2, 4])
        a = rng.choice(AGES)
        s['ch'] = [dict(n=k, full=rng.random() < (0.9 if k == 1 else 0.75), age=a if rng.random() < 0.8 else rng.choice(AGES)) for k in range(1, n + 1)]
        if rng.random() < 0.15:
            s['ch'] = [c for c in s['ch'] if c['n'] != rng.randint(1, 4)]
    if not imp or rng.random() < 0.1:
        if rng.random() < 0.7:
            s['cst'] = dict(r=rng.choice([10, 50, 100, 200, 1000, 25000]), done=rng.random() < 0.5)
        s['chk'] = rng.random() < 0.7
    s['min'] = rng.choice(['none', 'ok', 'ok', 'fail'])
    s['cv'] = rng.choice([-1, -1, -2, 10, 50, 100, 200, 1000])
    s['marge'] = rng.choice([-1, -1] + AGES)
    s['burned'] = not imp and rng.random() < 0.3
    s['queued'] = [v for v in ('', '_minimize') if rng.random() < 0.2]
    return s


def glob(rng, n):
    r = rng.random()
    if r < 0.3:
        return n
    i, j = sorted(rng.sample(range(len(n) + 1), 2))
    if r < 0.5:
        return n[:i] + '?' + n[i + 1:] if i < len(n) else n + '*'
    if r < 0.8:
        return rng.choice([n[:i] + '*', '*' + n[i:], n[:i] + '*' + n[j:]])
    return rng.choice([n[:i], '*' + n[i:j] + '*', n[:i] + '?' + n[i:], '*'])


def rand_filter(rng, w, most=3):
    f = json.loads(json.dumps(NOFILTER))
    its = w.items
    x = lambda: rng.choice(its)
    vals = dict(itag=lambda: rng.choice(['BAO', 'z', 'lensing_BAO', 'lensing', 'zre5']), name=lambda: glob(rng, x().name), param=lambda: rng.choice(['mnu', 'nnu', 'omegak', 'mn']),
                ptag=lambda: rng.choice([x().paramtag, x().paramtag, 'base', 'mnu']), skippar=lambda: rng.choice(['mnu', 'nnu', 'omegak', 'nn']),
                data=lambda: rng.choice(['a', 'b', 'c', 'lowl', 'al', 'BAO', 'z']), dtag=lambda: rng.choice([x().datatag, x().datatag, 'a', 'a_b']),
                must=lambda: rng.choice(['a', 'b', 'c', 'lowl', 'BAO']), skipdata=lambda: rng.choice(['a', 'b', 'c', 'lowl', 'BAO', 'z']), group=lambda: rng.choice(['main', 'second', 'mai']),
                skipgroup=lambda: rng.choice(['main', 'second', 'mai']), inames=lambda: rng.choice(['BAO', 'z', 'lensing', 'zre5']))
    f['imp'] = rng.choice(['both', 'both', 'no', 'only'])
    ks = [k for k in LISTS if not (k == 'inames' and f['imp'] != 'only') and not (k == 'itag' and f['imp'] == 'no')]
    for k in rng.sample(ks, rng.choice([0, 1, 1, 2, most])):
        f[k] = list(dict.fromkeys(vals[k]() for _ in range(rng.choice([1, 1, 2]))))
    return f


def rand_opts(rng):
    o = dict(NOOPTS)
    kind = rng.choice(['main', 'main', 'imp', 'imp', 'filters', 'min', 'impmin'])
    o['minimize'] = kind == 'min'
    o['impmin'] = kind == 'impmin'
    o['filters'] = kind == 'filters'
    o['impgiven'] = kind in ('imp', 'impmin', 'filters') and rng.random() < 0.6
    if kind in ('imp', 'filters', 'impmin'):
        for k in ('impchanged', 'impready', 'pstopped'):
            o[k] = rng.random() < 0.3
        o['pconv'] = rng.choice([0, 0, 0, 50, 100])
        if kind == 'imp' and not (o['impchanged'] or o['impready']):
            o['impgiven'] = True
    ks = ['notexist', 'minfailed', 'chainexists', 'notqueued', 'notall', 'conv', 'checkpoint']
    for k in rng.sample(ks, rng.choice([0, 1, 1, 1, 2, 3])):
        o[k] = rng.choice([1, 2, 4]) if k == 'notall' else rng.choice([50, 100, 1000]) if k == 'conv' else rng.choice([0, 0, 50, 100]) if k == 'checkpoint' else True
    return o


def rand_scenario(seed):
    rng = random.Random(seed)
    w = S(rng, rand_spec(rng))
    try:
        out = [w.grid_event()]
        for _ in range(rng.randint(2, 4)):
            w.st = {x.name: rand_status(rng, x.isImportanceJob) for x in w.items}
            out.append(w.status())
            out.append(w.files())
            for _ in range(rng.randint(5, 9)):
                r = rng.random()
                if r < 0.2:
                    out.append(w.api(rand_filter(rng, w), rng.random() < 0.3))
                elif r < 0.27:
                    out.append(w.tags(rand_filter(rng, w), rng.random() < 0.5))
                elif r < 0.35:
                    out.append(w.listgrid(rand_filter(rng, w), dict(exists=rng.random() < 0.3, notexist=rng.random() < 0.3, conv=rng.choice([0, 0, 50, 100]))))
                elif r < 0.48:
                    m = rng.choice(['check', 'unfinished', 'stuck'])
                    o = dict(exist=m == 'check' and rng.random() < 0.3, notrunning=rng.random() < 0.4, running=m == 'unfinished' and rng.random() < 0.3, conv=0)
                    if m == 'check' and (rng.random() < 0.7 or any(s['cv'] == -2 for s in w.st.values())):
                        o['conv'] = rng.choice([50, 100, 1000])
                    out.append(w.check(rand_filter(rng, w), o, m))
                elif r < 0.58:
                    out.append(w.getdist(rand_filter(rng, w), dict(norun=rng.random() < 0.2, notexist=rng.random() < 0.3, updateonly=rng.random() < 0.4, burnremoved=rng.random() < 0.2, burn=rng.choice(['', '', '0.3', '0.5']))))
                else:
                    o = rand_opts(rng)
                    f = rand_filter(rng, w, 2) if rng.random() < 0.4 else dict(NOFILTER)
                    f['imp'] = 'both'
                    if not (o['impgiven']):
                        f['inames'] = []
                    if not (o['impgiven'] or o['impmin'] or o['impchanged'] or o['impready'] or o['filters']):
                        f['itag'] = []
                    out.append(w.runbatch(f, o))
                    if out[-1].pop('real'):
                        out.append(w.status())
        return out
    finally:
        w.close()


def key(sc, j):
    return sc[j]['op']


def check_C20():
    c = Check('C20')
    T = c.thorough
    r = c.model('MCSelect')
    beh = [b for b in behaviours(r.out) if sum(e['op'] != 'submit' for e in b['ops']) > 1]
    c.extra['behaviours_in_model'] = len(beh)
    if T:
        c.model('MCSelect', cfg='MCSelectDeep.cfg')
    jobs = [(b, '%s/%d' % (c.seed, k)) for k, b in enumerate(sample(c.rng, beh, 4000 if T else 200))]
    c.trace('TraceSelect', pmap(model_scenario, jobs, 8), 'lives of runs', key=key)
    c.trace('TraceSelect', pmap(rand_scenario, ['%s/r%d' % (c.seed, k) for k in range(6000 if T else 400)], 8), 'random states and criteria', key=key)
    c.assumptions.append('the batch system and the analysis program are stand-ins')
    return c.finish()
