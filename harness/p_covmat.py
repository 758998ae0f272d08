"""C15: covariance matrices; bound to spec/Covmat.tla"""
import contextlib
import io
import os
import random
import runpy
import shutil
import sys

import numpy as np

from getdist import MCSamples, chains as gd_chains
from getdist.covmat import CovMat
from harness.core import Check, behaviours, as_int, REPO, BAD
from harness.p_ini import pmap, tmpdir, sample

gd_chains.print_load_details = False
np.seterr(all='ignore')
POOL = ['a', 'b', 'c', 'omegabh2', 'H0', 'x.y', 'ns', 'logA']


def ints(m, f):
    m = np.atleast_2d(np.asarray(m, dtype=float))
    if m.ndim != 2 or m.shape[0] != m.shape[1]:
        return [[BAD]]
    return [[as_int(v, f) for v in row] for row in m]


class W:
    def __init__(self, rng):
        self.rng = rng
        self.dir = tmpdir(rng)
        self.o = {}
        self.n = 0

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def path(self, ext='.covmat'):
        self.n += 1
        return os.path.join(self.dir, 'c%d%s' % (self.n, ext))

    def script(self, name, args):
        old = sys.argv
        sys.argv = [name] + args
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                try:
                    runpy.run_path(os.path.join(REPO, 'python', 'getdist', name))
                except SystemExit as e:
                    if e.code:
                        raise ValueError('exit %s' % e.code)
        finally:
            sys.argv = old

    def one(self, o):
        c = self.o[o]
        if c.matrix.shape != (len(c.paramNames),) * 2 or c.size != len(c.paramNames):
            return dict(o=o, names=list(c.paramNames), m=[[BAD]], corr=[[BAD]])
        before = c.matrix.copy()
        corr = ints(np.round(c.correlation(), 3), 1000)
        if not np.array_equal(before, c.matrix):
            corr = [[BAD]]
        return dict(o=o, names=list(c.paramNames), m=ints(c.matrix, 8), corr=corr)

    def check_plot(self, c):
        import matplotlib
        matplotlib.use('Agg')
        import matplotlib.pyplot as plt
        plt.clf()
        c.plot()
        ax = [a for a in plt.gcf().axes if a.get_label() != '<colorbar>'][0]
        labs = [t.get_text() for t in ax.get_yticklabels()]
        arr = np.asarray(ax.collections[0].get_array()).reshape(len(c.paramNames), -1)
        plt.close('all')
        if labs != list(c.paramNames) or not np.allclose(arr, c.correlation()):
            raise ValueError('plot: %s' % labs)

    def do(self, e):
        rng = self.rng
        err = ''
        try:
            op = e['op']
            if op == 'new':
                m = np.array(e['m'], dtype=float) / 8
                if rng.random() < 0.5:
                    f = self.path()
                    with open(f, 'w') as h:
                        h.write(rng.choice(['# ', '#', '#  ']) + ' '.join(e['names']) + '\n')
                        for r in m:
                            h.write('  '.join(rng.choice(['%.9g', '%15.7E', '%.6f']) % x for x in r) + '\n')
                    self.o[e['o']] = CovMat(f)
                else:
                    self.o[e['o']] = CovMat(matrix=m, paramNames=list(e['names']))
            elif op == 'scale':
                with contextlib.redirect_stdout(io.StringIO()):
                    self.o[e['o']].rescaleParameter(e['n'], e['k'])
            elif op == 'merge':
                self.o[e['o']] = self.o[e['a']].mergeCovmatWhereNew(self.o[e['b']])
            elif op == 'reload':
                f = self.path()
                self.o[e['o']].saveToFile(f)
                self.o[e['o']] = CovMat(f)
            elif op == 'copy':
                f = self.path()
                self.o[e['a']].saveToFile(f)
                self.o[e['o']] = CovMat(f)
            elif op == 'comb':
                fs = []
                for k in e['l']:
                    fs.append(self.path())
                    self.o[k].saveToFile(fs[-1])
                out = self.path()
                self.script('covcomb.py', [out] + fs)
                self.o[e['o']] = CovMat(out)
            elif op == 'scaledir':
                d, d2 = self.path('in'), self.path('out')
                os.mkdir(d)
                if rng.random() < 0.5:
                    os.mkdir(d2)
                names = []
                for j, k in enumerate(e['from']):
                    names.append('%s%d.covmat' % (rng.choice(['m', 'base_x', 'n.1']), j))
                    self.o[k].saveToFile(os.path.join(d, names[-1]))
                with open(os.path.join(d, 'other.txt'), 'w') as h:
                    h.write('not a matrix')
                before = {f: open(os.path.join(d, f)).read() for f in os.listdir(d)}
                self.script('covscale.py', [d + rng.choice(['', '/']), d2, ':'.join(x['n'] for x in e['fac']), ':'.join(str(x['k']) for x in e['fac'])])
                if before != {f: open(os.path.join(d, f)).read() for f in os.listdir(d)}:
                    raise ValueError('input directory changed')
                if sorted(os.listdir(d2)) != sorted(names):
                    raise ValueError('files %s' % os.listdir(d2))
                for f, t in zip(names, e['to']):
                    self.o[t] = CovMat(os.path.join(d2, f))
            elif op == 'plot':
                self.check_plot(self.o[e['o']])
            elif op == 'samples':
                return dict(e, obs=self.samples(e))
            else:
                raise KeyError(op)
        except Exception as ex:
            err = '%s: %s' % (type(ex).__name__, ex)
        return dict(e, obs=dict(err=err, all=[self.one(o) for o in sorted(self.o)]))

    def samples(self, e):
        rng = self.rng
        x = np.array([r['x'] for r in e['rows']], dtype=float)
        w = np.array([r['w'] for r in e['rows']], dtype=float)
        s = MCSamples(samples=x, weights=w, loglikes=np.arange(len(w)) / 8., names=[p['name'] + '*' * p['derived'] for p in e['info']], settings={'ignore_rows': 0})
        n2 = float(w.sum()) ** 2
        o = dict(err='', names=[], mats=[])

        def add(idx, m):
            o['mats'].append(dict(idx=[k + 1 for k in idx], m=ints(np.round(np.asarray(m) * n2, 3), 1)))
        try:
            order = ['covmat', 'nparam', 'pars', 'names', 'cov', 'file', 'again', 'script']
            rng.shuffle(order)
            np_ = len(e['info'])
            c = s.getCovMat()
            o['names'] = list(c.paramNames)
            add([-1], c.matrix)
            if o['names']:
                # the export is the caller's: changing it does not change the samples
                c.rescaleParameter(c.paramNames[0], 3)
            for k in order:
                if k == 'covmat':
                    add([-1], s.getCovMat().matrix)
                elif k == 'nparam':
                    q = rng.randint(1, np_)
                    add(range(q), s.getCov(q))
                    add(range(np_), s.getCov())
                elif k == 'pars':
                    q = rng.sample(range(np_), rng.randint(1, np_))
                    add(q, s.getCov(pars=q))
                elif k == 'cov':
                    q = rng.sample(range(np_), rng.randint(1, np_))
                    add(q, s.cov(q))
                    add(range(np_), s.cov())
                elif k == 'names':
                    q = rng.sample(range(np_), rng.randint(1, np_))
                    add(q, s.cov([e['info'][j]['name'] for j in q]))
                elif k == 'file' and o['names']:
                    f = self.path()
                    s.writeCovMatrix(f)
                    c = CovMat(f)
                    if c.paramNames != o['names']:
                        o['err'] = 'names in file'
                    add([-1], np.round(c.matrix * n2) / n2)
                elif k == 'again' and o['names']:
                    f = self.path()
                    s.getCovMat().saveToFile(f)
                    add([-1], np.round(CovMat(f).matrix * n2) / n2)
        except Exception as ex:
            o['err'] = '%s: %s' % (type(ex).__name__, ex)
        return o


def model_scenario(args):
    b, seed = args
    rng = random.Random(seed)
    w = W(rng)
    try:
        out = [dict(op='start')]
        for k, m in enumerate(b['start']):
            out.append(w.do(dict(op='new', o=k + 1, names=m['names'], m=m['m'])))
        for e in b['ops']:
            out.append(w.do(dict(e)))
            if out[-1]['obs']['err']:
                break
        if rng.random() < 0.02:
            out.append(w.do(dict(op='plot', o=rng.choice(sorted(w.o)))))
        return out
    finally:
        w.close()


def rand_matrix(rng, names):
    s = {n: rng.choice([1, 2, 3, 4, 5, 8]) for n in names}
    r = {}
    for n in names:
        for k in names:
            r[(n, k)] = r[(k, n)] = rng.randint(-7, 7)
    return [[8 * s[n] * s[k] if n == k else s[n] * s[k] * r[(n, k)] for k in names] for n in names]


def rand_scenario(seed):
    rng = random.Random(seed)
    w = W(rng)
    try:
        out = [dict(op='start')]
        if rng.random() < 0.4:
            np_ = rng.randint(1, 5)
            info = [dict(name=n, derived=rng.random() < 0.35) for n in rng.sample(POOL, np_)]
            n = rng.randint(np_ + 3, 16)
            rows = [dict(w=rng.randint(1, 4), x=[rng.randint(-9, 9) for _ in info]) for _ in range(n)]
            for j in range(np_):          # all columns vary
                rows[0]['x'][j], rows[1]['x'][j] = 9, -8
            out.append(w.do(dict(op='samples', info=info, rows=rows)))
            return out
        for o in range(1, rng.randint(2, 5)):
            names = rng.sample(POOL, rng.randint(1, 5))
            out.append(w.do(dict(op='new', o=o, names=names, m=rand_matrix(rng, names))))
        scaled = 0
        for _ in range(rng.randint(2, 7)):
            ks = sorted(w.o)
            new = max(ks) + 1
            r = rng.random()
            if r < 0.3 and scaled < 3:
                scaled += 1
                e = dict(op='scale', o=rng.choice(ks), n=rng.choice(POOL), k=rng.choice([2, -1, 3, -2]))
            elif r < 0.55 and new < 8:
                e = dict(op='merge', o=new, a=rng.choice(ks), b=rng.choice(ks))
            elif r < 0.7:
                e = dict(op='reload', o=rng.choice(ks))
            elif r < 0.8 and new < 8:
                e = dict(op='comb', o=new, l=rng.choices(ks, k=rng.randint(1, 4)))
            elif r < 0.9 and new < 7 and scaled < 3:
                scaled += 1
                fr = rng.choices(ks, k=rng.randint(1, 3))
                e = dict(op='scaledir', to=[new + j for j in range(len(fr))], fac=[dict(n=n, k=rng.choice([2, -1, 3])) for n in rng.sample(POOL, rng.randint(1, 3))], **{'from': fr})
            elif r < 0.92:
                e = dict(op='plot', o=rng.choice(ks))
            else:
                continue
            out.append(w.do(e))
            if out[-1]['obs']['err']:
                break
        return out
    finally:
        w.close()


def key(sc, j):
    return sc[j]['op'] + '/' + sc[j].get('obs', {}).get('err', '').split(':')[0]


def check_C15():
    c = Check('C15')
    T = c.thorough
    r = c.model('MCCovmat', consts=dict(Depth=3 if T else 2))
    beh = behaviours(r.out)
    c.extra['behaviours_in_model'] = len(beh)
    jobs = [(b, '%s/%d' % (c.seed, k)) for k, b in enumerate(sample(c.rng, beh, 20000 if T else 1500))]
    c.trace('TraceCovmat', pmap(model_scenario, jobs), 'model histories', key=key)
    c.trace('TraceCovmat', pmap(rand_scenario, ['%s/r%d' % (c.seed, k) for k in range(15000 if T else 1500)]), 'random histories', key=key)
    c.assumptions.append('matrices with integer (times 1/8) entries and square variances, for which all results are exact')
    return c.finish()
