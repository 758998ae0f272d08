"""C23: files of results; bound to spec/StatFiles.tla"""
import io
import os
import random
import re
import shutil
from contextlib import redirect_stdout

import numpy as np

from getdist import MCSamples, chains as gd_chains, types
from getdist.paramnames import ParamInfo, ParamNames
from harness.core import Check, behaviours
from harness.p_ini import pmap, sample, tmpdir

gd_chains.print_load_details = False
np.seterr(all='ignore')
LIMS = ['two', '>', '<', 'none']
WORDS = [r'\Omega_b', 'h^2', r'\tau', '{A}', 'two', '<', '>', 'none', '1.5', '[Mpc]', 'H_0', '*', '=', ':', '#']
NAMES = ['omegabh2', 'H0', 'x', 'chi2_CMB', 'two', 'a_very_long_parameter_name_indeed', 'n1', 'none', 'theta', 'calPlanck', '7', '-log']
KINDS = ['', 'CMB', 'BAO', 'SN', 'BK']


def m7(v):
    return '%.7E' % v


def lab(words):
    return ' '.join(words)


def unlab(s):
    return (s or '').split()


def rnum(rng):
    r = rng.random()
    if r < 0.1:
        return 0.
    return rng.choice([1, -1]) * rng.uniform(1, 10) * 10. ** rng.choice([-20, -7, -1, 0, 0, 0, 1, 2, 5, 30])


def rtok(rng):
    return float(m7(rnum(rng)))


def rlabel(rng):
    return rng.sample(WORDS, rng.choice([0, 1, 1, 2, 3]))


def plabel(rng):
    return rng.sample([w for w in WORDS if w != '#'], rng.choice([1, 1, 2, 3]))     # (in .paramnames files # starts a comment)


def rmarge(rng, tok=True):
    n = rng.choice([1, 2, 3, 4, 7])
    cont = rng.choice([['0.68', '0.95', '0.99'], ['0.68', '0.95'], ['0.68'], ['0.5', '0.683', '0.954', '0.9973', '0.9999']])
    names = rng.sample(NAMES, n)
    ders = sorted(rng.random() < 0.4 for _ in names) if rng.random() < 0.7 else [rng.random() < 0.4 for _ in names]
    return dict(kind='marge', limits=cont, pars=[
        dict(name=k, der=d, mean=m7(rnum(rng)), err=m7(abs(rnum(rng))), label=rlabel(rng), best='',
             lims=[dict(lo=m7(rnum(rng)), hi=m7(rnum(rng)), tag=rng.choice(LIMS)) for _ in cont]) for k, d in zip(names, ders)])


def rbest(rng, names=None):
    pool = rng.sample(names or NAMES, len(names or NAMES))
    if names:
        pool = pool + [n for n in NAMES if n not in names][:2]
        rng.shuffle(pool)
    cut = sorted(rng.randint(0, len(pool)) for _ in range(3))
    parts = pool[:cut[0]], pool[cut[0]:cut[1]], pool[cut[1]:cut[2]]

    def ps(l):
        return [dict(name=n, val=repr(rtok(rng)), label=rlabel(rng)) for n in l]
    chis = [dict(kind=rng.choice(KINDS), tag=rng.choice(['', '', 'tag', 'data_set']), name=rng.choice(['plik', 'lowl', 'BAO: x', 'smica (v1.2)', 'JLA']), val=repr(rtok(rng)))
            for _ in range(rng.choice([0, 0, 1, 3, 5]))]
    for c in chis:
        if not c['kind']:
            c['name'] = c['name'].replace(':', '')
    return dict(like=repr(rtok(rng)), varied=ps(parts[0]), fixed=ps(parts[1]), derived=ps(parts[2]), chis=chis)


def write_best(f, b, rng):
    """the format of CosmoMC's minimizer"""
    L = []
    if rng.random() < 0.3:
        L.append(' weight    =  1')
    L.append(' -log(Like) = %20s' % b['like'])
    if rng.random() < 0.5:
        L.append('  chi-sq    = %20s' % repr(2 * float(b['like'])))
    L.append('')
    i = 0
    for part in ('varied', 'fixed', 'derived'):
        for p in b[part]:
            i += 1
            L.append(('%5d  %15.7E   %-22s %s' if rng.random() < 0.8 else '%d %.7E %s %s') % (i, float(p['val']), p['name'], lab(p['label'])))
        if part != 'derived' or b['chis'] or rng.random() < 0.7:
            L.append('')
    if b['chis']:
        L.append(' -log(Like)     chi-sq   data')
        for c in b['chis']:
            t = (c['tag'] + ' = ' if c['tag'] else '') + c['name']
            if c['kind']:
                t = c['kind'] + ': ' + t
            L.append('%12.3f %s   %s' % (float(c['val']) / 2, c['val'], t))
        if rng.random() < 0.5:
            L.append('')
    with open(f, 'w') as h:
        h.write('\n'.join(L) + '\n')


def obs(o):
    if isinstance(o, types.MargeStats):
        return dict(kind='marge', limits=[repr(float(x)) for x in o.limits],
                    pars=[dict(name=p.name, der=bool(p.isDerived), mean=m7(p.mean), err=m7(p.err), label=unlab(p.label),
                               best=repr(float(p.best_fit)) if o.hasBestFit else '',
                               lims=[dict(lo=m7(l.lower), hi=m7(l.upper), tag=l.limitTag()) for l in p.limits]) for p in o.names])
    if isinstance(o, types.BestFit):
        return dict(kind='best', like=repr(float(o.logLike)),
                    pars=[dict(name=p.name, val=repr(float(p.best_fit)), label=unlab(p.label), der=bool(p.isDerived), fixed=bool(p.isFixed)) for p in o.names],
                    chis=[chi(k, c) for k, c in o.chiSquareds])
    if isinstance(o, types.LikeStats):
        f = '%f'
        return dict(kind='like', sample=f % o.logLike_sample, inv='' if o.logMeanInvLike is None else f % o.logMeanInvLike, mean=f % o.meanLogLike, log=f % o.logMeanLike)
    if isinstance(o, types.ConvergeStats):
        return dict(kind='conv', eigs=['%.5f' % float(x) for x in o.R_eigs], worst='%.5f' % float(o.worstR()) if o.R_eigs else '',
                    steps=[int(x) for x in getattr(o, 'auto_correlation_steps', [])],
                    corr=[dict(name=n, vals=['%.3f' % float(x) for x in v]) for n, v in
                          zip(getattr(o, 'auto_correlation_pars', []), getattr(o, 'auto_correlations', [])) if v])
    return o['v']      # convergence tests in memory


def chi(k, c):
    return dict(kind=k, tag=c.tag or '', name=c.name, val=repr(float(c.chisq)))


def mk_marge(v, rng):
    m = types.MargeStats()
    m.hasBestFit = False
    m.limits = [float(x) for x in v['limits']]
    conv = rng.choice([float, np.float64])
    for p in v['pars']:
        q = ParamInfo(name=p['name'], derived=p['der'])
        q.label = lab(p['label'])
        q.mean, q.err = conv(p['mean']), conv(p['err'])
        q.limits = [types.ParamLimit([conv(l['lo']), conv(l['hi'])], l['tag']) for l in p['lims']]
        m.names.append(q)
    return m


def mk_like(v):
    m = types.LikeStats()
    m.logLike_sample, m.meanLogLike, m.logMeanLike = float(v['sample']), float(v['mean']), float(v['log'])
    m.logMeanInvLike = float(v['inv']) if v['inv'] else None
    m.complexity = 2 * (m.meanLogLike - m.logLike_sample)
    return m


def conv_samples(rng, d, names, labels):
    """several chains and their convergence tests"""
    r = np.random.RandomState(rng.randrange(10 ** 9))
    nch = rng.choice([1, 2, 3, 4])
    n = len(names)
    sz = rng.choice([40, 120, 300])
    sc, off = 10. ** r.randint(-6, 6, size=n), rng.choice([0.01, 0.3, 30])       # (larger R are written without a separating space)
    S = [(r.normal(size=(sz + r.randint(0, 20), n)) + r.normal(size=n) * off) * sc for _ in range(nch)]
    W = [r.randint(1, 5, size=len(s)).astype(float) for s in S]
    if rng.random() < 0.2:
        W = [w * 0.37 for w in W]
    s = MCSamples(samples=S, weights=W, loglikes=[r.rand(len(x)) for x in S], names=names, labels=labels, ignore_rows=0,
                  settings=dict(corr_length_thin=rng.choice([0, 2, 3, 50]), corr_length_steps=rng.choice([1, 5, 15])))
    s.updateSettings(settings=dict(corr_length_thin=rng.choice([0, 2, 3, 50]), corr_length_steps=rng.choice([1, 5, 15])), doUpdate=False)
    what = rng.choice([['GelmanRubin', 'CorrSteps'], ['MeanVar', 'GelmanRubin', 'SplitTest', 'RafteryLewis', 'CorrLengths', 'CorrSteps'],
                       ['MeanVar', 'GelmanRubin', 'SplitTest', 'CorrLengths'], ['CorrSteps'], ['GelmanRubin']])
    f = os.path.join(d, 'a.converge')
    with redirect_stdout(io.StringIO()):
        if rng.random() < 0.5:
            s.rootdirname = f[:-9]
            text = s.getConvergeTests(writeDataToFile=True, what=what)
        else:
            text = s.getConvergeTests(writeDataToFile=True, filename=f, what=what)
    nd = s.paramNames.numNonDerived()
    e = []
    if nch > 1 and nd > 0 and 'GelmanRubin' in what:
        D = s.getGelmanRubinEigenvalues()
        e = ['%.5f' % x for x in D] if D is not None else []
    steps, corr = [], []
    if 'Parameter auto-corr' in text:
        L = text[text.index('Parameter auto-corr'):].split('\n')[2:]
        steps = [int(x) for x in L[0].split()]
        if L[0].strip():
            w = len(s.paramNames.parFormat() % '')
            for l in L[1:1 + len(names)]:
                corr.append(dict(name=l[:w].strip(), vals=['%.3f' % float(l[w + 8 * k:w + 8 * k + 8]) for k in range(len(steps))]))
    return dict(v=dict(kind='conv', eigs=e, worst=max(e, key=float) if e else '', steps=steps, corr=corr)), f


def real_marge(rng):
    """results of samples, through the same object that is written"""
    r = np.random.RandomState(rng.randrange(10 ** 9))
    n = rng.choice([1, 2, 3])
    names = rng.sample([x for x in NAMES if x != '7' and '-' not in x], n)
    x = r.normal(size=(300, n)) * 10. ** r.randint(-4, 4, size=n)
    ranges = {}
    for j, k in enumerate(names):
        if rng.random() < 0.5:
            x[:, j] = abs(x[:, j])
            ranges[k] = [0, None]
        elif rng.random() < 0.3:
            x[:, j] = -abs(x[:, j])
            ranges[k] = [None, 0]
        elif rng.random() < 0.3:
            x[:, j] = r.rand(300)
            ranges[k] = [0, 1]
    return MCSamples(samples=x, names=names, labels=[lab(rlabel(rng)) for _ in names], ranges=ranges, ignore_rows=0, weights=r.randint(1, 4, size=300),
                     loglikes=r.rand(300) * rng.choice([1, 20, 100]) + rng.choice([0, 5, -1000]))


def run(ops, seed, d):
    rng = random.Random(seed)
    objs, ev = {}, [dict(op='start')]
    pts = {}
    for o in ops:
        e = dict(o)
        x = {}
        try:
            if o['op'] == 'mk':
                v = o.get('v')
                if v == 'samples':
                    s = real_marge(rng)
                    objs[o['o']] = s.getMargeStats() if rng.random() < 0.5 else s.getLikeStats()
                    e['v'] = obs(objs[o['o']])
                elif v == 'conv':
                    k = rng.choice([1, 2, 4])
                    nm = rng.sample(NAMES, k)
                    pn = [z + '*' if j >= k - rng.choice([0, 0, 1]) and k > 1 else z for j, z in enumerate(nm)]
                    objs[o['o']], objs_f = conv_samples(rng, d, pn, [lab(rlabel(rng)) for _ in nm])
                    shutil.move(objs_f, os.path.join(d, 'conv%d' % o['o']))
                    e['v'] = objs[o['o']]['v']
                else:
                    objs[o['o']] = mk_marge(v, rng) if v['kind'] == 'marge' else mk_like(v)
            elif o['op'] == 'save':
                z = objs[o['o']]
                f = os.path.join(d, 'f%d' % o['f'])
                if isinstance(z, dict):
                    shutil.copyfile(os.path.join(d, 'conv%d' % o['o']), f)
                elif rng.random() < 0.8:
                    z.saveAsText(f)
                else:
                    with open(f, 'w') as h:
                        h.write(str(z))
                kinds = e.setdefault('k', type(z).__name__)
                run.kind[(d, o['f'])] = kinds
            elif o['op'] == 'load':
                cls = {'dict': types.ConvergeStats}.get(run.kind[(d, o['f'])]) or getattr(types, run.kind[(d, o['f'])])
                f = os.path.join(d, 'f%d' % o['f'])
                if o['pn']:
                    z = cls(f)
                    z.setLabelsFromParamNames(pnfile(d, o['pn']))
                elif rng.random() < 0.5:
                    z = cls(f)
                else:
                    z = cls()
                    z.loadFromFile(f)
                objs[o['o']] = z
            elif o['op'] in ('best', 'addbest'):
                f = os.path.join(d, 'b%d.minimum' % len(ev))
                write_best(f, o['b'], rng)
                if o['op'] == 'best':
                    kw = dict(want_fixed=True) if o['fixed'] else {}
                    if o['pn']:
                        kw['setParamNameFile'] = pnfile(d, o['pn'])
                    objs[o['o']] = types.BestFit(f, **kw)
                else:
                    objs[o['o']].addBestFit(types.BestFit(f, want_fixed=o['fixed']))
            elif o['op'] == 'dict':
                r = objs[o['o']].getParamDict(**({} if o['derived'] else dict(include_derived=False)))
                x = dict(like=repr(float(r.pop('loglike'))))
                w = r.pop('weight', 1)
                x['d'] = [dict(n=k, v=repr(float(v))) for k, v in r.items()]
                if w != 1:
                    x['like'] = 'weight'
            elif o['op'] == 'chi':
                r = objs[o['o']].chiSquareForKindName(o['kind'], o['name'])
                x = dict(v='' if r is None else repr(float(r)))
            elif o['op'] == 'kinds':
                x = dict(l=[dict(kind=k, c=[chi(k, c) for c in l]) for k, l in objs[o['o']].sortedChiSquareds()])
            elif o['op'] == 'point':
                e2, x = point(rng, d)
                e.update(e2)
            e['obs'] = dict(x, err=False, all=[dict(o=k, v=obs(z)) for k, z in sorted(objs.items())])
        except Exception as ex:
            e['obs'] = dict(err=True, msg='%s: %s' % (type(ex).__name__, ex), all=[])
            ev.append(e)
            break
        ev.append(e)
    return ev


run.kind = {}


def pnfile(d, pn):
    f = os.path.join(d, 'l%d.paramnames' % random.randrange(10 ** 9))
    with open(f, 'w') as h:
        for p in pn:
            h.write('%s   %s\n' % (p['name'], lab(p['label'])))
    return f


def point(rng, d):
    """the parameters of one sample, or of the best fit, of a set of samples"""
    n = rng.choice([1, 2, 4])
    names = rng.sample(NAMES, n)
    der = sorted(rng.random() < 0.3 for _ in names)
    fixn = [x for x in NAMES if x not in names][:rng.choice([0, 1, 2])]
    fx = [dict(n=k, v=m7(float(rng.choice([0, 1.5, -2, 0.1])))) for k in fixn]
    sz = rng.choice([1, 2, 20])
    S = np.array([[rtok(rng) for _ in names] for _ in range(sz)])
    root = os.path.join(d, 'p%d' % rng.randrange(10 ** 9))
    L = None if rng.random() < 0.2 else [rng.randint(0, 1000) / 8. for _ in range(sz)]
    bf = None
    mode = rng.choice(['sample', 'sample', 'best_sample', 'best']) if L else 'sample'
    files = mode == 'best' or rng.random() < 0.4
    if mode == 'best':
        bf = rbest(rng, names)
        bf['fixed'] = []
        maxpost = rng.random() < 0.6
        write_best(root + ('.minimum' if maxpost else '.bestfit'), bf, rng)
        if not maxpost or rng.random() < 0.5:
            write_best(root + ('.bestfit' if maxpost else '.minimum'), dict(rbest(rng, names), fixed=[]), rng)
    kw = dict(names=[k + '*' if z else k for k, z in zip(names, der)], labels=names, ignore_rows=0)
    if files:
        L = L or [0.] * sz
        with open(root + '_1.txt', 'w') as h:
            for k in range(sz):
                h.write('1 ' + repr(float(L[k])) + ''.join(' ' + repr(float(v)) for v in S[k]) + '\n')
        with open(root + '.paramnames', 'w') as h:
            h.write('\n'.join('%s %s' % (k + '*' if z else k, k) for k, z in zip(names, der)) + '\n')
        with open(root + '.ranges', 'w') as h:
            for q in fx:
                h.write('%s %s %s\n' % (q['n'], q['v'], q['v']))
        from getdist import loadMCSamples
        s = loadMCSamples(root, no_cache=True, settings=dict(ignore_rows=0))
        # constant columns are removed and become fixed parameters
    else:
        s = MCSamples(samples=S, loglikes=L and np.array(L), ranges={q['n']: [float(q['v'])] * 2 for q in fx}, **kw)
    wd, wf = rng.random() < 0.6, rng.random() < 0.6
    have = [p.name for p in s.paramNames.names]
    dd = dict(zip(names, der))
    fixed = fx + [dict(n=k, v=m7(S[0][j])) for j, k in enumerate(names) if k not in have]
    if mode == 'best':
        r = s.getParamBestFitDict(want_derived=wd, want_fixed=wf, **({} if maxpost else dict(max_posterior=False)))
        vals = [dict(n=p['name'], v=m7(float(p['val'])), der=z) for part, z in (('varied', False), ('derived', True)) for p in bf[part]]
        vals = [v for v in vals if not (wf and v['n'] in [q['n'] for q in fixed])]
        like = float(bf['like'])
    else:
        ix = rng.randrange(sz)
        if mode == 'best_sample':
            ix = L.index(min(L))
            r = s.getParamBestFitDict(best_sample=True, want_derived=wd, want_fixed=wf)
        else:
            r = s.getParamSampleDict(ix, want_derived=wd, want_fixed=wf)
        vals = [dict(n=k, v=m7(S[ix][names.index(k)]), der=dd[k]) for k in have]
        like = L[ix] if L is not None else None
    got = r.pop('loglike', None)
    r.pop('weight', None)
    out = [dict(n=k, v=m7(float(v))) for k, v in r.items()]
    if like is not None and (got is None or float(got) != float(like)):
        out.append(dict(n='(likelihood)', v=repr(got)))
    return dict(vals=vals, fx=fixed, derived=wd, fixed=wf, mode=mode), dict(d=out)


def scenario(a):
    ops, seed = a
    d = tmpdir(random.Random(seed))
    try:
        return run(ops, seed, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def with_par(b, n):
    if not any(p['name'] == n for k in ('varied', 'derived') for p in b[k]):
        b['fixed'] = [p for p in b['fixed'] if p['name'] != n]
        b['varied'].append(dict(name=n, val='1.25', label=[]))
    return b


def rand_ops(seed):
    rng = random.Random(seed)
    kind = rng.choice(['marge', 'marge', 'marge', 'like', 'conv', 'samples', 'best', 'best', 'point'])
    if kind == 'point':
        return [dict(op='point') for _ in range(4)]
    if kind == 'conv':
        return [dict(op='mk', o=1, v='conv'), dict(op='save', o=1, f=1), dict(op='load', o=2, f=1, pn=[])]
    if kind == 'best':
        ops = []
        for o in range(1, rng.choice([2, 3])):
            b = rbest(rng)
            fixed = rng.random() < 0.4
            pn = [dict(name=k, label=plabel(rng)) for k in rng.sample(NAMES, rng.randint(1, len(NAMES)))] if rng.random() < 0.4 else []
            ops.append(dict(op='best', o=o, b=b, fixed=fixed, pn=pn))
            ops.append(dict(op='dict', o=o, derived=True if fixed else rng.random() < 0.5))
            ops.append(dict(op='kinds', o=o))
            for _ in range(3):
                c = rng.choice(b['chis'] + [dict(kind=rng.choice(KINDS), name='plik')])
                ops.append(dict(op='chi', o=o, kind=c['kind'], name=c['name']))
        return ops
    ops = []
    if kind == 'samples':
        ops.append(dict(op='mk', o=1, v='samples'))
        v = None
    elif kind == 'like':
        def t():
            return '%f' % rng.choice([0, rng.uniform(-5, 5), rng.uniform(0, 1e5)])
        v = dict(kind='like', sample=t(), inv=rng.choice(['', t(), '0.000000']), mean=t(), log=t())
        ops.append(dict(op='mk', o=1, v=v))
    else:
        v = rmarge(rng)
        ops.append(dict(op='mk', o=1, v=v))
    nf = 0
    live = [1]
    for _ in range(rng.randint(2, 6)):
        r = rng.random()
        if nf == 0 or r < 0.3:
            nf += 1
            ops.append(dict(op='save', o=rng.choice(live), f=nf))
        elif r < 0.7:
            o = len(live) + 1
            live.append(o)
            pn = []
            if kind == 'marge' and rng.random() < 0.3:
                pn = [dict(name=k, label=plabel(rng)) for k in rng.sample(NAMES, rng.randint(1, len(NAMES)))]
            ops.append(dict(op='load', o=o, f=rng.randint(1, nf), pn=pn))
        elif kind == 'marge':
            ops.append(dict(op='addbest', o=rng.choice(live), b=with_par(rbest(rng, [p['name'] for p in v['pars']]), v['pars'][0]['name']), fixed=False))
    return ops


def rand_scenario(seed):
    return scenario((rand_ops(seed), seed))


def model_ops(b):
    """values of the model at the precision of the files"""
    def fix(v):
        return dict(v, pars=[dict(p, mean=m7(float(p['mean'])), err=m7(float(p['err'])), lims=[dict(lo=m7(float(l['lo'])), hi=m7(float(l['hi'])), tag=l['tag']) for l in p['lims']]) for p in v['pars']])
    return [dict(o, v=fix(o['v'])) if o['op'] == 'mk' else o for o in b['ops']]


def key(sc, j):
    return sc[j]['op'] + '/' + sc[j].get('obs', {}).get('msg', '').split(':')[0]


def check_C23():
    c = Check('C23')
    T = c.thorough
    r = c.model('MCStatFiles', consts=dict(Depth=5 if T else 4, Emit='TRUE'))
    beh = behaviours(r.out)
    jobs = [(model_ops(b), 7 * k + c.seed) for k, b in enumerate(sample(c.rng, beh, 3000 if T else 700))]
    c.trace('TraceStatFiles', pmap(scenario, jobs), 'behaviours of the specification', key=key)
    c.trace('TraceStatFiles', pmap(rand_scenario, [c.rng.randrange(10 ** 9) for _ in range(6000 if T else 1500)]), 'random histories', key=key)
    c.assumptions.append('numbers have exponents of at most two digits; N-dimensional limits of likelihood statistics are documented as not read')
    return c.finish()
