"""C29: the command-line analysis; bound to spec/CmdLine.tla"""
import contextlib
import io
import itertools
import os
import random
import shutil

import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
import numpy as np

from getdist import IniFile, MCSamples, chains as gd_chains, types
from getdist.command_line import getdist_command
from getdist.covmat import CovMat
from harness.core import Check, behaviours
from harness.p_ini import pmap, sample, tmpdir, quiet

gd_chains.print_load_details = False
np.seterr(all='ignore')
ROWS = 30
KEYS = ['chains', 'first', 'last', 'excl', 'cutini', 'cutarg', 'burned', 'cool', 'thin', 'notests', 'noplots', 'plotsonly', 'pca', 'ini',
        'pars', 'fixed', 'derived', 'thincool', 'one', 'against', 'two', 'tri', 'three']
NODATA = dict(chains=[], cut=-1, cool=0)


class Run:
    def __init__(self, o, rng):
        o = dict(dict(derived=[], thincool=0), **o)
        self.o, self.rng = o, rng
        self.dir = tmpdir(rng)
        self.name = rng.choice(['test', 'base_mnu_a', 'run.x'])
        self.cdir = os.path.join(self.dir, rng.choice(['chains', 'c/d', 'chains']))
        os.makedirs(self.cdir)
        self.root = os.path.join(self.cdir, self.name)
        self.data = {}
        self.used = dict(settings={'ignore_rows': 0})
        r = np.random.default_rng(rng.randrange(10 ** 9))
        for k in o['chains']:
            x = np.zeros((ROWS, len(o['pars'])))
            for j, p in enumerate(o['pars']):
                x[:, j] = 5. if p in o['fixed'] else np.round(10 * (j + 1) + (1 + 0.3 * k) * r.normal(size=ROWS) + k * 0.4, 4)
            w = r.integers(1, 5, ROWS).astype(float)
            like = np.round(3 + r.random(ROWS) * 1.5 + 0.3 * k, 3)
            self.data[k] = (w, like, x)
            with open(self.root + ('_%d' % k if k else '') + '.txt', 'w') as f:
                for a, b, v in zip(w, like, x):
                    f.write('%d %.3f %s\n' % (a, b, ' '.join('%.4f' % z for z in v)))
        with open(self.root + '.paramnames', 'w') as f:
            for p in o['pars']:
                f.write('%s%s L%s\n' % (p, '*' if p in o['derived'] else '', p))
        if o['burned']:
            with open(self.root + '.properties.ini', 'w') as f:
                f.write('burn_removed = T\n')
        # chains of others beside them
        self.other = os.path.join(self.cdir, self.name + 'x')
        for s in ('_1.txt', '.paramnames'):
            with open(self.other + s, 'w') as f:
                f.write('1 2 3\n' if s == '_1.txt' else 'q Q\n')

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    # --- the chains it was
    def candidate(self, chains, cut):
        return [self.data[k][0][cut:] for k in chains], [self.data[k][1][cut:] for k in chains], [self.data[k][2][cut:] for k in chains]

    def stats(self, chains, cut, cool):
        ws, ls, xs = self.candidate(chains, cut)
        w, l, x = np.concatenate(ws), np.concatenate(ls), np.vstack(xs)
        if cool != 1:
            w = w * np.exp(-(l - l.min()) * (cool - 1))
        m = w @ x / w.sum()
        d = x - m
        return m, (d * w[:, None]).T @ d / w.sum()

    def recognise(self, test):
        for n in range(1, len(self.data) + 1):
            for chains in itertools.combinations(sorted(self.data), n):
                for cut in (0, 2, 3, 9, 1, 4, 5, 6, 7, 8, 10):
                    for cool in (1, 2, 3):
                        m, c = self.stats(chains, cut, cool)
                        if test(m, c):
                            return dict(chains=list(chains), cut=cut, cool=cool)
        return dict(NODATA)

    def reference(self, got):
        ws, ls, xs = self.candidate(got['chains'], got['cut'])
        s = MCSamples(samples=[x.copy() for x in xs], weights=[w.copy() for w in ws], loglikes=[l.copy() for l in ls], names=self.o['pars'],
                      labels=['L' + p for p in self.o['pars']], **self.used)
        s.deleteFixedParams()
        if got['cool'] != 1:
            s.cool(got['cool'])
        s.updateBaseStatistics()
        return s

    # --- the command
    def settings(self, out, outroot):
        o, rng = self.o, self.rng
        l = []
        if o['first']:
            l.append('first_chain = %d' % o['first'])
        if o['last'] >= 0:
            l.append('chain_num = %d' % o['last'])
        if o['excl']:
            l.append('exclude_chain = ' + ' '.join(map(str, o['excl'])))
        if o['cutini'] >= 0:
            l.append('ignore_rows = %s' % ('0.3' if o['cutini'] == 9 else o['cutini']))
        if o['cool'] != 1 or rng.random() < 0.2:
            l.append('cool = %d' % o['cool'])
        if o['thin']:
            l.append('thin_factor = %d' % o['thin'])
            if o['thincool']:
                l.append('thin_cool = %d' % o['thincool'])
        for k, n in (('notests', 'no_tests'), ('noplots', 'no_plots'), ('plotsonly', 'plots_only')):
            if o[k] or rng.random() < 0.3:
                l.append('%s = %s' % (n, 'T' if o[k] else 'F'))
        if o['pca']:
            l += ['PCA_params = %s' % rng.choice(['ALL', 'xa yc', 'xa f yc']), 'PCA_num = 2'][:1 if rng.random() < 0.5 else 2]
            if l[-1] == 'PCA_params = ALL' or l[-2:][0] == 'PCA_params = ALL':
                l = [x for x in l if x != 'PCA_num = 2']
        else:
            l.append('PCA_num = 0')
        if o['one'] or rng.random() < 0.2:
            l.append('plot_params = ' + ' '.join(o['one']))
        if o['against']:
            l.append('plot_2D_param = ' + o['against'])
        if o['two'] or rng.random() < 0.2:
            l.append('plot_2D_num = %d' % len(o['two']))
            l += ['plot%d = %s' % (k + 1, ' '.join(p)) for k, p in enumerate(o['two'])]
        if o['tri']:
            l.append('triangle_plot = T')
            if o['tri'][0] or rng.random() < 0.5:
                l.append('triangle_params = ' + ' '.join(o['tri'][0]))
        if o['three']:
            l.append('num_3D_plots = %d' % len(o['three']))
            l += ['3D_plot%d = %s' % (k + 1, ' '.join(p)) for k, p in enumerate(o['three'])]
        if out:
            l.append('out_dir = ' + out)
        if outroot:
            l.append('out_root = ' + outroot)
        rng.shuffle(l)
        return l

    def run(self):
        o, rng = self.o, self.rng
        work = os.path.join(self.dir, 'work')
        os.makedirs(work)
        out = rng.choice(['', 'plots', os.path.join(self.dir, 'outs/')]) if o['ini'] else ''
        outroot = 'renamed' if o['ini'] and rng.random() < 0.2 else ''
        root = self.root if rng.random() < 0.6 else os.path.relpath(self.root, work)
        given = root + ('.txt' if rng.random() < 0.15 else '')
        args = []
        if o['ini']:
            l = self.settings(out, outroot)
            if rng.random() < 0.4:
                l.insert(0, 'file_root = ' + root)
            else:
                args.append(given)
            with open(os.path.join(work, 'my.ini'), 'w') as f:
                f.write('\n'.join(l) + '\n')
            args.insert(0, 'my.ini')
            ini = IniFile(os.path.join(work, 'my.ini'))
            ini.params['ignore_rows'] = '0'
            self.used = dict(ini=ini)
        else:
            args.append(given)
        if o['cutarg'] >= 0:
            args += ['--ignore_rows', str(o['cutarg'])]
        before = self.snapshot(self.cdir)
        obs = dict(err='', files=[], others=True, cov=NODATA, covpars=[], marge=NODATA, margepars=[], limits=True, like=True, thin=True, one=[], two=[],
                   tri=[], three=[])
        cwd = os.getcwd()
        try:
            os.chdir(work)
            with quiet(), contextlib.redirect_stdout(io.StringIO()):
                getdist_command(args)
            base = os.path.join(work, out) if out else work
            nm = outroot or self.name
            allf = [f for f in os.listdir(base) if f != 'my.ini' and f not in ('plots',)]
            obs['files'] = sorted(f[len(nm):] for f in allf if f.startswith(nm))
            obs['others'] = self.snapshot(self.cdir) == before and all(f.startswith(nm) for f in allf) and (
                not out or os.listdir(work) in (['my.ini'], ['plots', 'my.ini'], ['my.ini', 'plots']))
            self.look(obs, os.path.join(base, nm))
            if not o['noplots']:
                self.draw(obs, os.path.join(base, nm))
        except (Exception, SystemExit) as e:
            obs['err'] = '%s: %s' % (type(e).__name__, e)
        finally:
            os.chdir(cwd)
            plt.close('all')
        return [dict(op='getdist', o={k: o[k] for k in KEYS}, args=args, obs=obs)]

    @staticmethod
    def snapshot(d):
        return {f: open(os.path.join(d, f), 'rb').read() for f in os.listdir(d)}

    def look(self, obs, f):
        o = self.o
        vary = [j for j, p in enumerate(o['pars']) if p not in o['fixed']]
        base = [j for j in vary if o['pars'][j] not in o['derived']]
        cov = CovMat(f + '.covmat')
        obs['covpars'] = list(cov.paramNames)
        C = np.asarray(cov.matrix)
        cor = np.loadtxt(f + '.corr', ndmin=2)

        def these(m, c):
            v = c[np.ix_(vary, vary)]
            sd = np.sqrt(np.diag(v))
            return (C.shape == (len(base),) * 2 and cor.shape == v.shape and np.allclose(C, c[np.ix_(base, base)], rtol=1e-4, atol=1e-7)
                    and np.allclose(cor, v / np.outer(sd, sd), atol=1e-5))

        obs['cov'] = got = self.recognise(these)
        ref = self.reference(got) if got['chains'] else None
        if os.path.exists(f + '.margestats'):
            ms = types.MargeStats(f + '.margestats')
            obs['margepars'] = [p.name for p in ms.names]
            mean, err = np.array([p.mean for p in ms.names]), np.array([p.err for p in ms.names])
            obs['marge'] = self.recognise(lambda m, c: len(mean) == len(vary) and np.allclose(mean, m[vary], rtol=2e-6, atol=1e-7)
                                          and np.allclose(err, np.sqrt(np.diag(c))[vary], rtol=2e-5, atol=1e-7))
            if ref is not None and obs['margepars'] == list(ref.paramNames.list()):
                rm = ref.getMargeStats()
                for p in ms.names:
                    q = rm.parWithName(p.name)
                    s = max(q.err, 1e-9)
                    for a, b in zip(p.limits, q.limits):
                        if abs(a.lower - b.lower) > 2e-3 * s or abs(a.upper - b.upper) > 2e-3 * s or a.limitType() != b.limitType():
                            obs['limits'] = False
        if os.path.exists(f + '.likestats') and ref is not None:
            ls = types.LikeStats(f + '.likestats')
            best = int(np.argmin(ref.loglikes))
            obs['like'] = bool(abs(ls.logLike_sample - ref.loglikes[best]) < 1e-3 and all(
                abs(p.bestfit_sample - ref.samples[best, ref.index[p.name]]) < 1e-3 for p in ls.names))
        if os.path.exists(f + '_thin.txt') and ref is not None:
            t = np.loadtxt(f + '_thin.txt', ndmin=2)
            ws, ls_, xs = self.candidate(got['chains'], got['cut'])
            w, x = np.concatenate(ws), np.vstack(xs)
            if got['cool'] == 1:
                ix = ref.thin_indices(o['thin'])
                tc, tl = max(o['thincool'], 1), ref.loglikes[ix]
                tw = np.exp(-(tc - 1) * (tl - ref.loglikes.max()))
                obs['thin'] = bool(len(t) == len(ix) and np.allclose(t[:, 1], tc * tl, rtol=1e-6) and np.allclose(t[:, 0] / t[0, 0], tw / tw[0], rtol=1e-5)
                                   and (tc > 1 or np.all(t[:, 0] == 1)) and t.shape == (len(ix), len(vary) + 2) and np.allclose(t[:, 2:], ref.samples[ix], atol=1e-3))

    def draw(self, obs, f):
        """runs the scripts; the panels of the figures they make"""
        for end, k in (('.py', 'one'), ('_2D.py', 'two'), ('_tri.py', 'tri'), ('_3D.py', 'three')):
            if not os.path.exists(f + end):
                continue
            ns = {}
            with open(f + end) as h:
                code = h.read()
            plt.close('all')
            with quiet(), contextlib.redirect_stdout(io.StringIO()):
                exec(compile(code, f + end, 'exec'), ns)
            fig = plt.gcf()
            for ax in fig.axes:
                if getattr(ax, '_colorbar', None) is not None or ax.get_label() == '<colorbar>':
                    continue
                if not (ax.lines or ax.collections):
                    continue
                pr = [p for p in (getattr(ax, 'getdist_params', None) or [])]
                lab = lambda t: t.strip('$')[1:] if t.startswith('$L') else ''
                x, y = lab(ax.get_xlabel()), lab(ax.get_ylabel())
                if k == 'tri' and pr:
                    x, y = [getattr(p, 'name', p) for p in pr] if len(pr) > 1 else (getattr(pr[0], 'name', pr[0]), '')
                obs[k].append([x, y])
            made = f + end[:-3] + '.pdf'
            if not os.path.exists(made) or os.path.getsize(made) == 0:
                obs['err'] = 'no plot made by ' + end


def scenario(job):
    o, sd = job
    r = Run(o, random.Random(sd))
    try:
        return r.run()
    finally:
        r.close()


def rand_request(rng):
    o = dict(chains=rng.choice([[0], [1], [1, 2], [1, 2, 3], [1, 2, 3], [2, 4], [1, 3, 10]]), first=0, last=-1, excl=[], cutini=-1, cutarg=-1, burned=rng.random() < 0.15,
             cool=1, thin=0, notests=False, noplots=True, plotsonly=False, pca=False, ini=True, one=[], against='', two=[], tri=[], three=[])
    pars = ['xa', 'xb', 'yc', 'xyd', 'z']
    rng.shuffle(pars)
    pars = pars[:rng.randint(2, 5)]
    o['fixed'] = ['f'] if rng.random() < 0.5 else []
    o['pars'] = pars + o['fixed']
    o['thincool'] = rng.choice([0, 0, 2, 3])
    o['derived'] = rng.sample(o['pars'], rng.choice([0, 0, 1, 1, 2]))
    if len([p for p in pars if p not in o['derived']]) < 1:
        o['derived'] = []
    rng.shuffle(o['pars'])
    if rng.random() < 0.15:
        o['ini'] = False
    else:
        o['first'] = rng.choice([0, 0, 0, 1, 2])
        o['last'] = rng.choice([-1, -1, -1, 2, 3])
        o['excl'] = rng.choice([[], [], [1], [2], [3, 1], [10]])
        o['cutini'] = rng.choice([-1, 0, 2, 3, 5, 9])
        o['cool'] = rng.choice([1, 1, 1, 2])
        o['thin'] = rng.choice([0, 0, 2, 3, 5]) if o['cool'] == 1 else 0    # cooled weights are not integers
        o['notests'] = rng.random() < 0.3
        o['plotsonly'] = rng.random() < 0.15
        o['pca'] = rng.random() < 0.2 and {'xa', 'yc'} <= set(pars)
        if rng.random() < 0.35 and min(o['chains']) < 2:                  # the scripts find chains by their first file
            o['noplots'] = False
            allp = o['pars'] + ['nope']
            pick = lambda n: rng.sample(allp, min(n, len(allp)))
            o['one'] = rng.choice([[], pick(2), ['x*'], ['?c'], ['z', 'y?'], ['*'], ['?', 'x?']])
            r = rng.random()
            if r < 0.3:
                o['against'] = rng.choice(pars)
            elif r < 0.7:
                o['two'] = [pick(2) for _ in range(rng.randint(1, 3))]
            o['tri'] = rng.choice([[], [[]], [pick(3)], [['x*']], [['yc']], [['*']], [['f*', 'x*', 'yc']]])
            if rng.random() < 0.3:
                o['three'] = [pick(3) for _ in range(rng.randint(1, 2))]
    if rng.random() < 0.3:
        o['cutarg'] = rng.choice([0, 2, 3, 4])
    if not [k for k in o['chains'] if k >= o['first'] and (o['last'] < 0 or k <= o['last']) and k not in o['excl']]:
        return rand_request(rng)
    return o


def key(sc, j):
    e = sc[j]
    return e['op'] + '/' + e['obs']['err'][:60]


def check_C29():
    c = Check('C29')
    T = c.thorough
    r = c.model('MCCmdLine', consts=dict(Emit='TRUE'), timeout=3000)
    beh = behaviours(r.out)
    c.extra['requests_in_model'] = len(beh)
    a, b = [x for x in beh if x['noplots']], [x for x in beh if not x['noplots']]
    chosen = sample(c.rng, a, 100000 if T else 500) + sample(c.rng, b, 100000 if T else 80)
    c.trace('TraceCmdLine', pmap(scenario, [(x, '%s/m%d' % (c.seed, k)) for k, x in enumerate(chosen)], chunk=8), 'options of the model', key=key)
    n = 6000 if T else 300
    jobs = [(rand_request(c.rng), '%s/r%d' % (c.seed, k)) for k in range(n)]
    c.trace('TraceCmdLine', pmap(scenario, jobs, chunk=8), 'random requests', key=key)
    return c.finish()
