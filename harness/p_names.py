"""C13: parameter name lists; bound to spec/Names.tla"""
import os
import random
import shutil

from getdist.paramnames import ParamNames, ParamInfo
from getdist import MCSamples
from harness.core import Check, behaviours, SCRATCH
from harness.p_ini import pmap, tmpdir, sample

ALPHA = ['a', 'b', 'ab', 'abc', 'c', 'd', 'e', 'H0', 'h0', 'omegam', 'omegamh2', 'chi2_a', 'chi2_ab', 'x.y', 'n-s']
LABELS = ['', 'x', '\\Omega_m h^2', 'a b', 'A_{s} [x]', 'z*', '$x$', 'l']
COMMENTS = ['', '', 'some comment', 'c']


class W:
    def __init__(self, rng):
        self.rng = rng
        self.dir = tmpdir(rng)
        self.p = None

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def info(self, q):
        return ParamInfo(name=q['name'], label=q['label'], comment=q['comment'], derived=q['derived'], renames=self.aslist(q['ren']))

    def aslist(self, l):
        r = self.rng.random()
        return l[0] if len(l) == 1 and r < 0.3 else tuple(l) if r < 0.5 else list(l)

    def make(self, ps):
        rng = self.rng
        plain = all(not q['ren'] for q in ps)
        if plain and rng.random() < 0.5:
            f = os.path.join(self.dir, 'n%d.paramnames' % rng.randint(0, 10 ** 9))
            with open(f, 'w') as h:
                for q in ps:
                    h.write(q['name'] + ('*' if q['derived'] else '') + ('\t' + q['label'].replace('\\', rng.choice('\\!')) if q['label'] or q['comment'] else '') +
                            (rng.choice(['\t', ' ']) + '#' + q['comment'] if q['comment'] else '') + '\n' + ('\n' if rng.random() < 0.1 else ''))
            return ParamNames(f)
        if plain and not any(q['comment'] or not q['label'] for q in ps) and rng.random() < 0.5:
            return ParamNames(names=[q['name'] + '*' * q['derived'] for q in ps], labels=[q['label'] for q in ps])
        p = ParamNames()
        for q in ps:
            i = self.info(q)
            i.label = q['label']
            p.names.append(i)
        return p

    def d(self, d):
        return {x['n']: self.aslist(x['l']) for x in d}

    def obs(self):
        return [dict(name=q.name, label=q.label, comment=q.comment, derived=bool(q.isDerived),
                     ren=sorted([q.renames] if isinstance(q.renames, str) else q.renames)) for q in self.p.names]

    def index(self, par):
        if par is None:
            return 0
        l = [k + 1 for k, q in enumerate(self.p.names) if q is par]
        return l[0] if l else -1

    def do(self, e):
        o = dict(err=False)
        rng = self.rng
        p = self.p
        try:
            op = e['op']
            if op == 'new':
                self.p = self.make(e['ps'])
            elif op == 'add':
                q = e['p']
                if rng.random() < 0.5 and q['derived']:
                    p.addDerived(q['name'], label=q['label'], comment=q['comment'], renames=self.aslist(q['ren']))
                else:
                    p.addDerived(q['name'], label=q['label'], comment=q['comment'], derived=q['derived'], renames=self.aslist(q['ren']))
            elif op == 'del':
                p.deleteIndices(rng.choice([list, tuple, set])(e['idx']))
            elif op == 'filter':
                before = self.obs()
                old, self.p = self.p, p.filteredCopy(list(e['keep']))
                if self.p.names:       # a copy: changing it leaves the original alone
                    self.p.names[0].label += 'z'
                    self.p.names[0].renames = ['zz'] + list(self.p.names[0].renames)
                new, self.p = self.p, old
                if self.obs() != before:
                    o['err'] = True
                self.p = new
                if new.names:
                    new.names[0].label = new.names[0].label[:-1]
                    new.names[0].renames = new.names[0].renames[1:]
            elif op == 'filterby':
                self.p = p.filteredCopy(self.make(e['by']))
            elif op == 'renames':
                p.updateRenames(self.d(e['d']))
            elif op == 'reload':
                f = os.path.join(self.dir, 'r%d.paramnames' % rng.randint(0, 10 ** 9))
                p.saveAsText(f)
                self.p = ParamNames(f)
            elif op == 'labels':
                p.setLabels(e['labels'])
            elif op == 'labelsfrom':
                other = self.make(e['by'])
                if rng.random() < 0.5:
                    f = os.path.join(self.dir, 'l%d.paramnames' % rng.randint(0, 10 ** 9))
                    other.saveAsText(f)
                    other = f
                if e['der']:
                    p.setLabelsAndDerivedFromParamNames(other)
                else:
                    p.setLabelsFromParamNames(other)
            elif op == 'par':
                o['i'] = 0
                o['i'] = self.index(p.parWithName(e['n'], error=e['error'], renames=self.d(e['d']) or None))
            elif op == 'pars':
                o['l'] = []
                o['l'] = [self.index(x) for x in p.parsWithNames(e['ns'], error=e['error'], renames=self.d(e['d']) or None)]
                if len(e['ns']) == 1 and ('*' in e['ns'][0] or '?' in e['ns'][0]):
                    if p.getMatches(e['ns'][0], strings=True) != [p.names[k - 1].name for k in o['l']]:
                        o['l'] = [-2]
            elif op == 'num':
                o['i'] = p.numberOfName(e['n'])
                o['has'] = p.hasParam(e['n'])
            elif op == 'lists':
                o.update(names=p.list(), labels=p.labels(), running=p.getRunningNames(), derived=p.getDerivedNames(), nder=p.numDerived(), n=p.numParams())
                if p.numNonDerived() != len(o['running']) or [p.name(k, True) for k in range(len(p.names))] != [q.name + '*' * q.isDerived for q in p.names]:
                    o['n'] = -1
            else:
                raise KeyError(op)
            o['ps'] = self.obs()
        except Exception as ex:
            o.update(err=True, what='%s: %s' % (type(ex).__name__, ex), ps=[])
        return dict(e, obs=o)


def rand_table(rng, pool):
    return [dict(n=n, l=rng.sample([x for x in pool if x != n], rng.randint(0, 2))) for n in rng.sample(pool, rng.randint(0, 3))]


def queries(w, rng, names, n=4):
    out = []
    pool = names
    for _ in range(n):
        r = rng.random()
        d = rand_table(rng, pool) if rng.random() < 0.4 else []
        if r < 0.45:
            out.append(w.do(dict(op='par', n=rng.choice(pool), d=d, error=rng.random() < 0.4)))
        elif r < 0.75:
            ns = []
            for _ in range(rng.randint(1, 3)):
                x = rng.choice(pool)
                if rng.random() < 0.5:
                    x = rng.choice(['*', x + '*', '*' + x, '?' * len(x), x[:-1] + '?', '*' + x + '*', x[:1] + '*' + x[-1:], '??*', x[:1] + '?*'])
                ns.append(x)
            out.append(w.do(dict(op='pars', ns=ns, d=d, error=rng.random() < 0.3)))
        elif r < 0.9:
            out.append(w.do(dict(op='num', n=rng.choice(pool))))
        else:
            out.append(w.do(dict(op='lists')))
    return out


def model_scenario(args):
    b, seed = args
    rng = random.Random(seed)
    w = W(rng)
    try:
        out = [dict(op='start'), w.do(dict(op='new', ps=b['init']))]
        pool = ['a', 'b', 'c', 'ab', 'd', 'e', 'f', 'g']
        for e in b['ops']:
            if e['op'] == 'add':
                e = dict(op='add', p=dict(name=e['name'], label=e['name'] + '_l', comment='', derived=True, ren=[]))
            out += queries(w, rng, pool, 1)
            out.append(w.do(e))
            if out[-1]['obs']['err']:
                return out
        return out + queries(w, rng, pool, 4)
    finally:
        w.close()


def rand_par(rng, name, pool):
    return dict(name=name, label=rng.choice(LABELS[1:]), comment=rng.choice(COMMENTS), derived=rng.random() < 0.4,
                ren=sorted(rng.sample([x for x in pool if x != name], rng.choice([0, 0, 0, 1, 2]))))


def rand_scenario(seed):
    rng = random.Random(seed)
    w = W(rng)
    try:
        pool = rng.sample(ALPHA, 9)
        plain = rng.random() < 0.4
        ps = [rand_par(rng, n, pool) for n in rng.sample(pool, rng.randint(1, 6))]
        if plain:
            ps = [dict(p, ren=[]) for p in ps]
        out = [dict(op='start'), w.do(dict(op='new', ps=ps))]
        for _ in range(rng.randint(2, 8)):
            if out[-1]['obs']['err'] and out[-1]['op'] not in ('par', 'pars'):
                return out
            r = rng.random()
            cur = w.p.list()
            free = [x for x in pool if x not in cur]
            if r < 0.2 and free:
                e = dict(op='add', p=rand_par(rng, rng.choice(free), pool))
            elif r < 0.3 and len(cur) > 1:
                e = dict(op='del', idx=rng.sample(range(len(cur)), rng.randint(0, len(cur) - 1)))
            elif r < 0.4:
                e = dict(op='filter', keep=rng.sample(pool, 6))
            elif r < 0.5:
                e = dict(op='filterby', by=[rand_par(rng, n, pool) for n in rng.sample(pool, 5)])
            elif r < 0.7:
                e = dict(op='renames', d=rand_table(rng, pool))
            elif r < 0.8:
                e = dict(op='reload')
            elif r < 0.87:
                e = dict(op='labels', labels=[rng.choice(LABELS) for _ in range(rng.randint(0, len(cur)))])
            else:
                e = dict(op='labelsfrom', by=[dict(rand_par(rng, n, pool), ren=[]) for n in rng.sample(pool, 4)], der=rng.random() < 0.5)
            out.append(w.do(e))
            if not w.p.names:
                break
            out += queries(w, rng, pool, 2)
        return out
    finally:
        w.close()


def key(sc, j):
    return sc[j]['op'] + '/' + sc[j].get('obs', {}).get('what', '').split(':')[0]


def check_C13():
    c = Check('C13')
    T = c.thorough
    r = c.model('MCNames', consts=dict(Depth=4 if T else 3))
    beh = behaviours(r.out)
    c.extra['behaviours_in_model'] = len(beh)
    jobs = [(b, '%s/%d' % (c.seed, k)) for k, b in enumerate(sample(c.rng, beh, 30000 if T else 1500))]
    c.trace('TraceNames', pmap(model_scenario, jobs), 'model histories', key=key)
    c.trace('TraceNames', pmap(rand_scenario, ['%s/r%d' % (c.seed, k) for k in range(20000 if T else 1500)]), 'random histories', key=key)
    c.assumptions.append('labels contain no # or ! (comment and TeX escape characters of the file format); names are distinct')
    return c.finish()
