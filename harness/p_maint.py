"""C21: maintenance scripts of grids; bound to spec/Maint.tla"""
import json
import os
import random
import shutil
import time
import zipfile

from harness.core import Check, behaviours, BAD
from harness.p_ini import pmap, sample
from harness.p_select import S, NOFILTER, SMALL, rand_spec, rand_filter, num

SKIP = ['.data', '.chk', '.chk_tmp', '.log', '.corr', '.py', '.m', '.py_mcsamples', '.pysamples']       # by default
DAY = 86400
LABELS = ['x', '\\Omega_b h^2', 'H_0', 'm_\\nu', 'A  B', 'n_s']
PNAMES = ['a', 'b', 'omegabh2', 'H0', 'mnu', 'a1', 'chi2_x', 'longparametername_for_testing']


class M(S):
    def __init__(self, rng, spec):
        S.__init__(self, rng, spec)
        self.root = self.path('grid') + os.sep
        self.reg = {}       # content -> number
        self.lines = {}
        self.tgt = self.path('out/target')
        self.links = False
        self.ntgt = 0

    def grid_event(self):
        e = S.grid_event(self)
        for d, x in zip(e['items'], self.items):
            d.update(rel=x.relativePath, nname=x.makeNormedName()[0])
        return e

    # --- files and what they contain
    def new(self, d, f, txt, age=0, cv=-1, burn=False):
        p = os.path.join(self.root, d, f)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w') as h:
            h.write(txt)
        t = time.time() - age * DAY - 3600
        os.utime(p, (t, t))
        u = self.look(p, d, f, True)
        u.pop('link')
        u.update(age=age, cv=cv)
        return u

    def look(self, p, d, f, add=False):
        link = os.path.islink(p)
        if link and os.path.realpath(p) != os.path.realpath(os.path.join(self.root, d, f)):
            return dict(d=d, f=f, c=BAD, **{'from': 0}, n=0, burn=False, link=True)
        with open(p) as h:
            txt = h.read()
        return self.content(txt, d, f, link, add)

    def content(self, txt, d, f, link=False, add=False):
        u = dict(d=d, f=f, c=BAD, n=len(txt.split('\n')) - 1, burn=False, link=link)
        u['from'] = 0
        if f.endswith('.properties.ini'):
            kv = dict((x.strip() for x in l.split('=', 1)) for l in txt.split('\n') if '=' in l)
            u.update(n=-1 if txt else 0, c=int(kv.pop('tag', 0)), burn=kv.pop('burn_removed', 'F') in ('T', 'True'))
            if kv:
                u['c'] = BAD
            return u
        if txt in self.reg:
            u['c'] = self.reg[txt]
        elif add:
            u['c'] = self.reg[txt] = len(self.reg) + 1
            self.lines[u['c']] = txt.split('\n')[:-1]
        else:
            l = txt.split('\n')[:-1]
            for c, ls in self.lines.items():
                if txt.endswith('\n') and len(l) <= len(ls) and ls[len(ls) - len(l):] == l or not txt and ls and ls[0].startswith('chain'):
                    if not txt:
                        continue
                    u.update(c=c, **{'from': len(ls) - len(l)})
        return u

    def tree(self, top, link=False):
        out = []
        for base, dirs, files in os.walk(top):
            rel = os.path.relpath(base, top)
            d = '' if rel == '.' else rel + '/'
            if not link and d.split('/')[0] in ('iniFiles', 'postIniFiles', 'getdist') or '__pycache__' in d or (not link and d == ''):
                continue
            for f in files:
                u = self.look(os.path.join(base, f), d, f)
                if not link:
                    u.pop('link')
                out.append(u)
        return out

    def text(self, k, n, what='line'):
        return ''.join('%s %d %d\n' % (what, k, j) for j in range(n))

    def config(self):
        fs = []
        for f in os.listdir(self.root + 'config'):
            p = self.root + 'config/' + f
            if os.path.isfile(p):
                u = self.look(p, 'config/', f, True)
                u.pop('link')
                fs.append(dict(u, age=0, cv=-1))
        if self.rng.random() < 0.5:
            os.makedirs(self.root + 'config/__pycache__', exist_ok=True)
            open(self.root + 'config/__pycache__/x.pyc', 'w').close()
        return fs

    def converge(self, k, cv):
        return 'file %d\nvar(mean)/mean(var) for eigenvalues\n  1      0.00010\n  2%13s\n\n' % (k, num(cv))

    def rand_files(self):
        rng, fs, k = self.rng, self.config(), 0
        for x in self.items:
            n, c, d = x.name, x.relativePath, x.relativePath + 'dist/'
            old = rng.random() < 0.3

            def age():
                return rng.choice([0, 0, 1, 10]) if not old else 10
            if rng.random() < 0.8:
                chains = list(range(1, rng.choice([1, 2, 4]) + 1))
                if rng.random() < 0.1:
                    chains = [i for i in chains if i != rng.randint(1, 3)]
                for i in chains:
                    k += 1
                    fs.append(self.new(c, '%s_%d.txt' % (n, i), self.text(k, rng.choice([0, 1, 3, 8, 9]) if rng.random() < 0.3 else 8, 'chain'), age()))
            for f in ('.paramnames', '.ranges', '.minimum', '.inputparams', '.chk', '.log', '.py_mcsamples', '_1.chk', '_2.log', '.converge_stat', '.txt'):
                if rng.random() < 0.35:
                    k += 1
                    fs.append(self.new(c, n + f, self.text(k, rng.choice([0, 1, 2])), age()))
            if rng.random() < 0.5:
                k += 1
                b = rng.choice([True, False, None])
                tag = rng.random() < 0.7
                u = self.new(c, n + '.properties.ini', ('tag = %d\n' % k if tag else '') + ('' if b is None else 'burn_removed = %s\n' % ('T' if b else 'F')), age())
                fs.append(u)
            for f in ('.margestats', '.likestats', '_2D.py', '_tri.pdf', '.py', '.pdf', '.covmat', '.tar.gz'):
                if rng.random() < 0.35:
                    k += 1
                    fs.append(self.new(d, n + f, self.text(k, rng.choice([0, 1, 2])), age()))
            if rng.random() < 0.7:
                k += 1
                cv = rng.choice([10, 50, 100])
                fs.append(self.new(d, n + '.converge', self.converge(k, cv), age(), cv))
            for f in ('notes.txt', n + 'x.txt', n[:-1] + '.txt', n + 'x_1.txt'):
                if rng.random() < 0.15 and not any(u['d'] == c and u['f'] == f for u in fs):
                    k += 1
                    fs.append(self.new(c, f, self.text(k, 1), age()))
        names = [x.name for x in self.items]
        return dict(op='files', err=False, obs=[], fs=fs)

    def state(self):
        return self.tree(self.root)

    # --- the scripts
    def clean(self, f, o):
        a = self.args(f) + ['--ext'] * (o['ext'] != ['*']) + (o['ext'] if o['ext'] != ['*'] else [])
        a += (['--chainnum', o['chainnum']] if o['chainnum'] else []) + ['--empty'] * o['empty'] + ['--dist'] * o['dist'] + ['--confirm'] * o['confirm'] + (['--converge', num(o['conv'])] if o['conv'] else [])

        def go():
            out = self.run_script('cleanup.py', a)
            listed = []
            for l in out.split('\n'):
                if l.startswith(self.root):
                    p = l.split('  (')[0][len(self.root):]
                    listed.append(dict(d=os.path.dirname(p) + '/', f=os.path.basename(p)))
            return dict(fs=self.state(), listed=listed)
        if o['confirm'] and self.links:
            self.tgt = ''           # (links to files that may be deleted)
        return self.event('clean', go, dict(fs=[], listed=[]), f=f, o=o)

    def target(self, fresh):
        if fresh or not os.path.isdir(self.tgt):
            self.ntgt += 1
            self.tgt = self.path('out/target%d' % self.ntgt)
            self.links = False
            return True
        return False

    def copy(self, f, o, fresh=False, zipped=False):
        a = self.args(f)
        a[1:1] = []
        rng = self.rng
        o = dict(o)
        if o['burn'] and '_*' in o['ext']:      # (whether burn in is removed from other files that are chains is not specified)
            o['burn'] = 0
        if zipped:
            o['link'] = False
            tgt = self.path('out%d.zip' % rng.randrange(10 ** 6)) if rng.random() < 0.6 else self.path('z%d' % rng.randrange(10 ** 6))
        else:
            if o['link']:
                fresh = True
            fresh = self.target(fresh)
            tgt = self.tgt + rng.choice(['', '/'])
            self.links = self.links or o['link']
        a.insert(1, tgt)
        a += ['--zip'] * (zipped and not tgt.endswith('.zip')) + ['--chains'] * o['chains'] + ['--dist'] * o['dist'] + ['--sym_link'] * o['link'] + ['--no_config'] * (not o['config']) + ['--dryrun'] * o['dryrun']
        a += (['--remove_burn_fraction', o['burn'] / 4] if o['burn'] else []) + (['--max_age_days', o['maxage']] if o['maxage'] else []) + (['--converge', num(o['conv'])] if o['conv'] else [])
        a += (['--file_extensions'] + o['ext'] if o['ext'] != ['.*'] else []) + (['--skip_extensions'] + o['skip'] if o['skip'] != SKIP else [])

        def go():
            self.run_script('copyGridFiles.py', a)
            if zipped:
                with zipfile.ZipFile(tgt) as z:
                    t = [self.content(z.read(n).decode(), os.path.dirname(n) + '/', os.path.basename(n)) for n in z.namelist()]
                os.remove(tgt)
            else:
                t = self.tree(self.tgt, True)
            return dict(fs=self.state(), tgt=t)
        return self.event('copy', go, dict(fs=[], tgt=[]), f=f, o=o, fresh=fresh or zipped, zip=zipped)

    def extract(self, f, o):
        a = self.args(f)
        self.target(True)
        a[1:1] = [self.tgt] + o['ext']
        a += ['--normalize_names'] * o['norm'] + (['--converge', num(o['conv'])] if o['conv'] else [])

        def go():
            self.run_script('extractDistFiles.py', a)
            t = self.tree(self.tgt, True)
            shutil.rmtree(self.tgt)
            return dict(fs=self.state(), tgt=t)
        return self.event('extract', go, dict(fs=[], tgt=[]), f=f, o=o, fresh=True)

    # --- parameters
    def params_event(self):
        rng = self.rng
        out = []
        for x in self.items:
            nm = rng.sample(PNAMES, rng.randint(2, 5))
            ps = [dict(name=n, label=rng.choice(LABELS), derived=k >= 2 and rng.random() < 0.5, comment=rng.choice(['', '', 'a comment'])) for k, n in enumerate(nm)]
            best = [dict(name=n, label=rng.choice(LABELS[:4]), val='%.6E' % rng.uniform(-5, 5), num=k + 1) for k, n in enumerate(nm)] if rng.random() < 0.7 else []
            os.makedirs(self.root + x.relativePath, exist_ok=True)
            r = self.root + x.relativePath + x.name
            with open(r + '.paramnames', 'w') as h:
                for p in ps:
                    h.write(p['name'] + '*' * p['derived'] + '\t' + p['label'] + ('\t#' + p['comment'] if p['comment'] else '') + '\n')
            head = ['-log(Like) =     %s' % rng.choice(['5634.3', '1.5'])] + ([' chi-sq    =  11268.6'] if rng.random() < 0.6 else [])
            rest = [' -log(Like)     chi-sq   data', '     1.25     2.5   CMB: a = b', '     0.5     1.0   b a'] if rng.random() < 0.6 else []
            run = dict(run=x.name, ps=ps, best=best, rest=head + rest)
            if best:
                c = [0] + sorted(rng.sample(range(1, len(best) + 1), 1))
                lines = head + ['']
                for k, p in enumerate(best):
                    if k == c[1]:
                        lines.append('')
                    w = rng.choice([len(p['name']) + 1, 22])
                    lines.append('%5d  %s   %s %s' % (p['num'], p['val'], p['name'].ljust(w), p['label']))
                lines += [''] * (1 if c[1] < len(best) else 2) + (['  9  1.0 zz z', ''] if False else [''])
                lines += rest
                with open(r + '.minimum', 'w') as h:
                    h.write('\n'.join(lines) + '\n')
            else:
                run['rest'] = []
            out.append(run)
        return dict(op='params', err=False, obs=[], pars=out)

    def read_params(self):
        out = []
        for x in self.items:
            r = self.root + x.relativePath + x.name
            ps, best, rest = [], [], []
            for l in open(r + '.paramnames'):
                n, lab = l.rstrip('\n').split('\t', 1)
                com = ''
                if '\t#' in lab:
                    lab, com = lab.split('\t#')
                ps.append(dict(name=n.strip('*'), label=lab, derived=n.endswith('*'), comment=com))
            if os.path.exists(r + '.minimum'):
                tail = False
                for k, l in enumerate(open(r + '.minimum')):
                    l = l.rstrip('\n')
                    if l.startswith(' -log'):
                        tail = True
                    t = l.split(None, 3)
                    if tail or l.startswith('-log') or l.startswith(' chi-sq'):
                        rest.append(l)
                    elif t:
                        best.append(dict(num=int(t[0]), val=t[1], name=t[2], label=t[3] if len(t) > 3 else '?'))
            out.append(dict(run=x.name, ps=ps, best=best, rest=rest))
        return out

    def rename(self, f):
        rng = self.rng
        olds = rng.sample(PNAMES, rng.randint(0, 3))
        news = rng.choice([['new%d' % k for k in range(3)], ['n', 'anewverylongparametername_indeed', 'q']])
        if rng.random() < 0.3 and len(olds) > 1:
            news = olds[1:] + olds[:1]            # exchanged
        how = rng.choice(['map', 'pairs'])
        m = [dict(old=o, new=n, label=rng.choice(LABELS[:4]) if how == 'map' else '') for o, n in zip(olds, news)]
        labels = [dict(n=n, label=rng.choice(['L1', 'L_2 x'])) for n in rng.sample(PNAMES + [z['new'] for z in m if z['new'] not in PNAMES], 2)] if not m or rng.random() < 0.3 else []
        a = self.args(f)
        if m and how == 'map':
            self.put('map', ''.join('%s  %s %s\n' % (z['old'], z['new'], z['label']) for z in m))
            a += ['--map_file', self.path('map')]
        elif m:
            a += ['--old_new'] + [y for z in m for y in (z['old'], z['new'])]
        if labels:
            self.put('lab.paramnames', ''.join('%s\t%s\n' % (z['n'], z['label']) for z in labels))
            a += ['--labelNames', self.path('lab.paramnames')]
        confirm = rng.random() < 0.8
        a += ['--confirm'] * confirm

        def go():
            self.run_script('renameParam.py', a)
            return self.read_params()
        return self.event('rename', go, [], f=f, m=m, labels=labels, confirm=confirm)


MODELFILES = [('base/a/', 'base_a_1.txt', 8), ('base/a/', 'base_a_2.txt', 4), ('base/a/', 'base_a.paramnames', 2), ('base/a/', 'base_a_1.chk', 0), ('base/a/', 'base_a_post_b_1.txt', 8),
              ('base/a/', 'base_a_post_b.paramnames', 2), ('base/a/', 'base_a_post_b_c_1.txt', 0), ('base/a/dist/', 'base_a.converge', 100), ('base/a/dist/', 'base_a_2D.py', 1),
              ('base/a/dist/', 'base_a_post_b.converge', 10), ('base/a/dist/', 'base_a_post_b_2D.py', 1), ('base/a/', 'base_ab.txt', 1)]


def model_scenario(args):
    b, seed = args
    rng = random.Random(seed)
    w = M(rng, dict(groups=[dict(name='g', params=[[]], data=[['a']], imps=[dict(names=['b'], min=True), dict(names=['b', 'c'], min=True)])], filters=[], all=[]))
    try:
        fs = w.config()
        for k, (d, f, n) in enumerate(MODELFILES):
            cv = f.endswith('.converge')
            fs.append(w.new(d, f, w.converge(k, n) if cv else w.text(k, n, 'chain'), 0, n if cv else -1))
        out = [w.grid_event(), dict(op='files', err=False, obs=[], fs=fs)]
        for e in b['ops']:
            if e['op'] == 'clean':
                out.append(w.clean(e['f'], e['o']))
            elif e['op'] == 'copy':
                out.append(w.copy(e['f'], e['o']))
            else:
                out.append(w.extract(e['f'], e['o']))
        return out
    finally:
        w.close()


def rand_scenario(seed):
    rng = random.Random(seed)
    w = M(rng, rand_spec(rng))
    try:
        out = [w.grid_event()]
        if rng.random() < 0.3:
            out.append(w.params_event())
            for _ in range(rng.randint(1, 3)):
                out.append(w.rename(rand_filter(rng, w, 2) if rng.random() < 0.5 else dict(NOFILTER)))
            return out
        out.append(w.rand_files())
        for _ in range(rng.randint(3, 7)):
            f = rand_filter(rng, w, 2) if rng.random() < 0.6 else dict(NOFILTER)
            r = rng.random()
            if r < 0.4:
                ext = rng.choice([['*'], ['*'], ['txt'], ['txt', 'chk'], ['p*'], ['conv*'], ['???'], ['log', 'properties.ini']])
                out.append(w.clean(f, dict(ext=ext, chainnum=rng.choice(['', '', '', '1', '2']), empty=rng.random() < 0.25, dist=rng.random() < 0.3, conv=rng.choice([0, 0, 0, 50]), confirm=rng.random() < 0.5)))
            elif r < 0.8:
                o = dict(chains=rng.random() < 0.7, dist=rng.random() < 0.5, ext=rng.choice([['.*'], ['.*'], ['.paramnames', '.ranges'], ['.conv*'], ['.*', '_2D.py'], ['_*'], ['.properties.ini', '.p*']]),
                         skip=rng.choice([SKIP, SKIP, ['.ranges', '.chk'], ['.p*']]), maxage=rng.choice([0, 0, 0, 5]), conv=rng.choice([0, 0, 0, 50]), burn=rng.choice([0, 0, 1, 2, 3]), link=False,
                         config=rng.random() < 0.8, dryrun=rng.random() < 0.1)
                z = rng.random() < 0.25
                if z:
                    o['dryrun'] = False
                if not z and rng.random() < 0.25:
                    o['link'], o['burn'], o['dryrun'] = True, 0, False
                out.append(w.copy(f, o, rng.random() < 0.4, z))
            else:
                out.append(w.extract(f, dict(ext=rng.choice([['margestats'], ['.pdf', '_tri.pdf'], ['_*.p*'], ['converge', 'covmat'], ['.tar.gz', 'py'], ['_2D.py']]), conv=rng.choice([0, 0, 50]), norm=rng.random() < 0.5)))
        return out
    finally:
        w.close()


def key(sc, j):
    return sc[j]['op']


def check_C21():
    c = Check('C21')
    T = c.thorough
    r = c.model('MCMaint')
    beh = behaviours(r.out)
    c.extra['behaviours_in_model'] = len(beh)
    jobs = [(b, '%s/%d' % (c.seed, k)) for k, b in enumerate(sample(c.rng, beh, 8000 if T else 500))]
    c.trace('TraceMaint', pmap(model_scenario, jobs, 16), 'model histories', key=key)
    c.trace('TraceMaint', pmap(rand_scenario, ['%s/r%d' % (c.seed, k) for k in range(12000 if T else 700)], 16), 'random histories', key=key)
    c.assumptions.append('extensions given to copy and extract files are patterns for what follows the name of a run')
    return c.finish()
