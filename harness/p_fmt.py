"""C22: printed numbers and tables; bound to spec/Fmt.tla"""
import os
import random
import re
import shutil

import numpy as np

from getdist import MCSamples, chains as gd_chains, types
from getdist.paramnames import ParamInfo, ParamNames
from harness.core import Check, behaviours
from harness.p_ini import pmap, sample, tmpdir

gd_chains.print_load_details = False
np.seterr(all='ignore')
NUM = r'([+-]?)(\d+)(?:\.(\d+))?'
POW = r'(?:\\cdot 10\^\{(-?\d+)\})?'
BAD = dict(sgn='', M=0, dp=0)
LABELS = {'x': 'x', 'y': 'y_1', 'omegabh2': r'\Omega_b h^2', 'H0': 'H_0', 'chi2_like': r'\chi^2_{\rm like}', 'chi2': r'\chi^2',
          'ns': '{n_s}', 'mnu': r'\Sigma m_\nu', 'averylongparametername': r'\theta_{\rm a\,very\,long\,label\,for\,a\,parameter}', 'tau': ''}
POOL = list(LABELS)


def num(g):
    s, a, b = g
    d = a + (b or '')
    if len(d.lstrip('0')) > 9:
        return dict(sgn='big', M=0, dp=0)
    return dict(sgn=s or '', M=int(d), dp=len(b or ''))


def cell(t):
    """what is written in one cell"""
    raw = t
    c = dict(k='bad', t=raw, n=[], x=0, s=[], dof=0, bold=False)
    t = t.strip()
    if not t:
        return dict(c, k='blank')
    m = re.fullmatch(r'\{\\boldmath(.*)\}', t)
    if m:
        c['bold'], t = True, m.group(1).strip()
    if t == '---':
        return dict(c, k='none')
    if t[0] == '$' and t[-1] == '$' and len(t) > 1:
        t = t[1:-1].strip()
    body = t
    m = re.search(r'\\quad\((.*)\)$', body)
    if m:
        body = body[:m.start()].strip()
        for part in m.group(1).split(', '):
            s = re.fullmatch(r'([+-]\d+\.\d) \\sigma(|_s|_i)', part)
            if not s:
                return c
            c['s'].append(dict(v=max(-9999, min(9999, int(round(float(s.group(1)) * 10)))), t=s.group(2)))
    for k, rx in (('pm', NUM + r'\\pm ' + NUM), ('asym', NUM + r'\^\{' + NUM + r'\}_\{' + NUM + r'\}')):
        m = re.fullmatch(rx, body)
        e = None
        if not m:
            m = re.fullmatch(r'\\left\(\\,' + rx + r'\\,\\right\)\\cdot 10\^\{(-?\d+)\}', body)
            e = m and int(m.groups()[-1])
        if m:
            g = m.groups()
            return dict(c, k=k, n=[num(g[i:i + 3]) for i in range(0, 6 if k == 'pm' else 9, 3)], x=e or 0)
    m = re.fullmatch(NUM + r'\\,\(\{\\nu\\rm\{:\}\\,(\d+)\.(\d)\}\)', body)
    if m:
        return dict(c, k='dof', n=[num(m.groups()[:3])], dof=min(3 * 10 ** 7, int(m.group(4) + m.group(5))))
    m = re.fullmatch(r'(< |> |)' + NUM + POW, body)
    if m:
        g = m.groups()
        return dict(c, k={'< ': 'upper', '> ': 'lower', '': 'num'}[g[0]], n=[num(g[1:4])], x=int(g[4] or 0))
    return dict(c, k='label', t=t)


def fl(m, e):
    return float('%de%d' % (m, e))


def rand_q(rng, name, ncont, big=True, digits=7):
    """one parameter: integers in units of 10^e"""
    chi2 = name.startswith('chi2')
    if chi2:
        e = rng.choice([-2, -1, 0])
        q = dict(mean=rng.choice([rng.randint(0, 3000), rng.randint(0, 10 ** 6)]), err=rng.randint(1, 2000))
    elif not big:
        e = rng.choice([-3, 0, -6])
        q = dict(mean=rng.randint(-100, 100), err=rng.randint(5, 40))
    else:
        e = rng.choice([-12, -7, -6, -5, -4, -3, -2, -1, 0, 1, 3, 9])
        q = dict(mean=rng.choice([1, 1, 1, -1, 0]) * rng.choice([rng.randint(1, 10 ** rng.randint(1, digits)), 10 ** rng.randint(0, digits - 1), 10 ** rng.randint(1, digits - 1) - 1]),
                 err=rng.choice([rng.randint(1, 10 ** rng.randint(1, 5)), 10 ** rng.randint(0, 4), 10 ** rng.randint(1, 4) - 1]))
    lims = []
    for k in range(ncont):
        w = q['err'] * (k + 1)
        r = rng.random()
        up = w if r < 0.2 else max(1, int(w * rng.uniform(0.85, 1.15))) if r < 0.6 else rng.randint(1, 4 * w + 1)
        lo = w if r < 0.2 else max(1, int(w * rng.uniform(0.85, 1.15))) if r < 0.6 else rng.randint(1, 4 * w + 1)
        if rng.random() < 0.03:
            lo = 0
        if rng.random() < 0.03 and lo:
            up = -(lo // 2)
        tag = rng.choice(['two'] * 5 + ['>', '<', 'none'])
        l = dict(lo=q['mean'] - lo, hi=q['mean'] + up, tag=tag)
        if tag != 'two' and rng.random() < 0.3:
            l['hi'] = l['lo'] + rng.randint(1, 10 ** 6)
        if l['hi'] <= l['lo']:
            l['hi'] = l['lo'] + 1
        lims.append(l)
    q.update(name=name, label=LABELS[name] or name, der=rng.random() < 0.4, chi2=chi2, e=e, lims=lims,
             best=q['mean'] + rng.randint(-2 * q['err'], 2 * q['err']))
    return q


def mk_marge(qs, cont, bf, rng, d):
    """the statistics as an object, made directly or read from a file"""
    if rng.random() < 0.5 and all(abs(v) < 10 ** 7 for q in qs for v in [q['mean'], q['err']] + [l[k] for l in q['lims'] for k in ('lo', 'hi')]):
        f = os.path.join(d, 'a%d.margestats' % rng.randrange(10 ** 9))
        with open(f, 'w') as h:
            h.write('Marginalized limits: ' + '; '.join(str(c) for c in cont) + '\n\nparameter  mean etc\n')
            for q in qs:
                h.write('%-12s' % (q['name'] + '*' * q['der']) + '%15.7E%15.7E' % (fl(q['mean'], q['e']), fl(q['err'], q['e'])))
                for l in q['lims']:
                    h.write('%15.7E%15.7E  %-5s' % (fl(l['lo'], q['e']), fl(l['hi'], q['e']), l['tag']))
                h.write('   ' + (LABELS[q['name']] or q['name']) + '\n')
        m = types.MargeStats(f)
    else:
        np_ = rng.random() < 0.5
        m = types.MargeStats()
        m.hasBestFit = False
        m.limits = cont
        for q in qs:
            p = ParamInfo(name=q['name'], label=LABELS[q['name']], derived=q['der'])
            conv = np.float64 if np_ else float
            p.mean, p.err = conv(fl(q['mean'], q['e'])), conv(fl(q['err'], q['e']))
            p.limits = [types.ParamLimit([conv(fl(l['lo'], q['e'])), conv(fl(l['hi'], q['e']))], l['tag']) for l in q['lims']]
            m.names.append(p)
    if bf:
        b = types.BestFit()
        b.logLike = 1.5
        for q in rng.sample(qs, len(qs)):
            p = ParamInfo(name=q['name'], label='other', derived=q['der'])
            p.best_fit = fl(q['best'], q['e'])
            b.names.append(p)
        m.addBestFit(b)
    return m


def mk_best(qs, rng):
    b = types.BestFit()
    b.logLike = 1.5
    for q in qs:
        p = ParamInfo(name=q['name'], label=LABELS[q['name']], derived=q['der'])
        p.best_fit = fl(q['best'], q['e'])
        b.names.append(p)
    return b


def formatter(rng, esf):
    f = rng.choice([types.NoLineTableFormatter, types.TableFormatter, types.OpenTableFormatter])()
    if esf != 2:
        f.numberFormatter.err_sf = esf
    return f


def err(e):
    return dict(err=True, msg='%s: %s' % (type(e).__name__, e))


def num_event(rng, m, e):
    sf, plus, sci = rng.randint(1, 5), rng.random() < 0.4, rng.random() < 0.4
    ev = dict(op='num', m=m, e=e, sf=sf, plus=plus, sci=sci)
    try:
        f = types.NumberFormatter()
        v = fl(m, e)
        v = rng.choice([v, np.float64(v)] + ([m * 10 ** e] if e >= 0 else []))
        if rng.random() < 0.3:
            f.sig_figs = sf
            r = f.formatNumber(v, wantSign=plus, sci=sci)
        else:
            r = f.formatNumber(v, sf, plus, sci)
        s, x = r if sci else (r, 0)
        g = re.fullmatch(NUM, s)
        ev['obs'] = dict(err=not g, p=num(g.groups()) if g else BAD, x=int(x), t=s)
    except Exception as ex:
        ev['obs'] = err(ex)
    return ev


def fig_event(rng, v, u, l, e):
    esf, plus, sci = rng.choice([2, 2, 2, 1, 3]), rng.random() < 0.7, rng.random() < 0.5
    if not plus:
        u, l = abs(u), abs(l)
    ev = dict(op='fig', v=v, u=u, l=l, e=e, esf=esf, plus=plus, sci=sci)
    try:
        f = types.NumberFormatter(err_sf=esf)
        r = f.namesigFigs(fl(v, e), fl(u, e), fl(l, e), wantSign=plus, sci=sci)
        g = [re.fullmatch(NUM, s) for s in r[:3]]
        ev['obs'] = dict(err=not all(g), n=[num(x.groups()) if x else BAD for x in g], x=int(r[3]) if sci else 0, t=[str(x) for x in r])
    except Exception as ex:
        ev['obs'] = err(ex)
    return ev


def tex_event(rng, d):
    n = rng.randint(1, 3)
    q = rand_q(rng, rng.choice(POOL), n)
    others = [rand_q(rng, k, n) for k in rng.sample([p for p in POOL if p != q['name']], 2)]
    cont = [0.68, 0.95, 0.99][:n]
    esf = rng.choice([2, 2, 1, 3])
    limit = rng.randint(1, n)
    ev = dict(op='tex', q=q, limit=limit, esf=esf, tol=0)
    try:
        m = mk_marge(rng.sample([q] + others, 3), cont, False, rng, d)
        p = rng.choice([q['name'], m.parWithName(q['name']), ParamInfo(name=q['name'])])
        f = formatter(rng, esf)
        r = m.texValues(f, p, limit=limit) if limit != 2 or rng.random() < 0.5 else m.texValues(f, p)
        ev['obs'] = dict(err=len(r) != 1, c=cell(r[0]), label=m.parWithName(q['name']).getLabel(), t=r[0])
    except Exception as ex:
        ev['obs'] = err(ex)
    out = [ev]
    if rng.random() < 0.1:
        out.append(dict(op='missing', obs=dict(err=False, none=m.texValues(f, 'nosuch', limit=limit) is None)))
    return out


def samples_event(rng):
    """results of samples, through getLatex and getInlineLatex; statistics rounded to eight digits"""
    k = rng.choice([1, 3, 0])
    n = 400
    x = np.random.RandomState(rng.randrange(10 ** 9)).normal(size=n)
    sc, off = 10. ** rng.randint(-7, 5) * rng.uniform(1, 9), rng.choice([0, 1, 5, 40, 1000])
    ranges = {}
    if k == 1:
        x = abs(x)
        ranges = {'x': [0, None]}
        off = 0
    elif k == 3:
        x = -abs(x)
        ranges = {'x': [None, 0]}
        off = 0
    s = MCSamples(samples=np.array([x + off, x ** 2]).T * sc, names=['x', 'y'], labels=[LABELS['x'], LABELS['y']], ranges=ranges, ignore_rows=0)
    limit = rng.choice([1, 2])
    esf = rng.choice([None, None, 1, 3])
    m = s.getMargeStats().parWithName('x')
    big = max(abs(v) for v in [m.mean, m.err] + [l for t in m.limits for l in (t.lower, t.upper)])
    e = int(np.floor(np.log10(big))) - 7

    def i(v):
        return int(round(float(v) / 10. ** e))
    q = dict(name='x', label=LABELS['x'], der=False, chi2=False, e=e, mean=i(m.mean), err=i(m.err), best=0,
             lims=[dict(lo=i(t.lower), hi=i(t.upper), tag=t.limitTag()) for t in m.limits])
    ev = dict(op='tex', q=q, limit=limit, esf=esf or 2, tol=2)
    try:
        if rng.random() < 0.5:
            t = s.getInlineLatex('x', limit, esf) if rng.random() < 0.5 else s.getLatex('x', limit, esf)
            lab, t2 = re.fullmatch(r'(\S+) (?:= )?(.*)', t).groups()
            okeq = ('= ' in t) == (t2[0] not in '<>')
            ev['obs'] = dict(err=not okeq, c=cell(t2), label=lab, t=t)
        else:
            ps = rng.choice([['x'], ['y', 'x'], None])
            labels, texs = s.getLatex(ps, limit, esf)
            j = (ps or ['x', 'y']).index('x')
            ev['obs'] = dict(err=len(labels) != len(texs), c=cell(texs[j]), label=labels[j], t=texs[j])
    except Exception as ex:
        ev['obs'] = err(ex)
    return ev


def rows_of(lines, ncell):
    out = []
    for l in lines:
        if l.endswith('\\\\'):
            out.append(re.split(r'(?<!\\)&', l[:-2]))
    return out


def table_event(rng, d, n=None, ncol=None, nres=None):
    n = n or rng.randint(1, 9)
    ncol = ncol or rng.randint(1, 4)
    nres = nres or rng.choice([1, 1, 2, 3])
    nc = rng.randint(1, 3)
    cont = [0.68, 0.95, 0.99][:nc]
    sh = rng.choice(['none', 'none', 'none', 'plain', 'subset', 'indep', 'both'])
    pool = POOL if sh == 'none' else [p for p in POOL if not p.startswith('chi2')]
    n = min(n, len(pool))
    names = rng.sample(pool, n)
    kind = 'best' if sh == 'none' and rng.random() < 0.15 else 'marge'
    bf = rng.random() < 0.4
    exps = {}
    esf = rng.choice([2, 2, 1, 3])

    def qs(ns):
        r = []
        for k in ns:
            q = rand_q(rng, k, nc, sh == 'none', 7 - (esf > 2) - bf)
            if sh != 'none':
                q['e'] = exps.setdefault(k, q['e'])
            if kind == 'best':
                q['e'] = min(1, q['e'])
            if k in der:
                q['der'] = der[k]
            else:
                der[k] = q['der']
            r.append(q)
        return r
    der = {}
    results, objs = [], []
    for k in range(nres):
        ns = list(names)
        if k:
            ns = rng.sample(pool, rng.randint(1, len(pool)))
        r = dict(kind=kind, bf=bf and kind == 'marge', pct=['68\\% limits', '95\\% limits', '99\\% limits'][:nc], pars=qs(ns))
        results.append(r)
        objs.append(mk_marge(r['pars'], cont, r['bf'], rng, d) if kind == 'marge' else mk_best(r['pars'], rng))
    limit = rng.randint(1, nc)
    ref, refobj = [], None
    if sh != 'none':
        ref = qs(rng.sample(pool, rng.randint(1, len(pool))))
        for q in ref:
            for r in results:
                for p in r['pars']:
                    if p['name'] == q['name'] and p['err'] == q['err']:
                        q['err'] += 1
        # different errors, for which the subset shift is not regularized
        if any(p['name'] == q['name'] and p['err'] == q['err'] for q in ref for r in results for p in r['pars']):
            return None
        refobj = mk_marge(ref, cont, False, rng, d)
    kw = dict(limit=limit) if limit != 2 or rng.random() < 0.5 else {}
    sf = 4
    f = formatter(rng, 2)
    if rng.random() < 0.5:
        kw['formatter'] = f
    if esf != 2 or kind == 'best' and rng.random() < 0.5:
        sf = rng.choice([4, 5, 3])
        nf = types.NumberFormatter(sig_figs=sf, err_sf=esf)
        if rng.random() < 0.5:
            kw['numFormatter'] = nf
        else:
            f.numberFormatter = nf
            kw['formatter'] = f
    params = [dict(name=q['name'], label=q['label'], der=q['der']) for q in results[0]['pars']]
    u = rng.random()
    if u < 0.2 and n > 1:
        keep = rng.sample(names, rng.randint(1, n))
        kw['paramList'] = keep if rng.random() < 0.6 else ParamNames(names=keep)
        params = [p for p in params if p['name'] in keep]
    elif u < 0.35:
        ns = rng.sample(pool, rng.randint(1, len(pool)))
        pn = ParamNames(names=ns, labels=['t' + k for k in ns])
        params = []
        for p in pn.names:
            p.isDerived = rng.random() < 0.5
            params.append(dict(name=p.name, label=p.label, der=p.isDerived))
        kw['tableParamNames'] = pn
    titles = []
    if rng.random() < 0.3:
        titles = ['A title', 'B', 'C'][:nres]
        kw['titles'] = titles
    if rng.random() < 0.3:
        kw['blockEndParams'] = rng.sample(names, 1)
    if sh != 'none':
        kw['refResults'] = refobj
        if sh in ('subset', 'both'):
            kw['shiftSigma_subset'] = True
        if sh in ('indep', 'both'):
            kw['shiftSigma_indep'] = True
    ev = dict(op='table', ncol=ncol, limit=limit, esf=esf, sf=sf, results=results, params=params, titles=titles, ref=ref, sh=sh)
    try:
        t = types.ResultTable(ncol, objs[0] if nres == 1 and rng.random() < 0.2 else objs, **kw)
        if rng.random() < 0.3:
            fn = os.path.join(d, 't.tex')
            t.write(fn, document=rng.random() < 0.5)
            with open(fn) as h:
                lines = h.read().splitlines()
        else:
            lines = t.tableTex(document=rng.random() < 0.3).splitlines()
        if '\\begin{document}' in lines:
            lines = lines[lines.index('\\begin{document}') + 1:lines.index('\\end{document}')]
        ok = lines[0].startswith('\\begin{tabular}') and lines[-1] == '\\end{tabular}'
        rows = rows_of(lines, None)
        tt = []
        if titles:
            tt = [re.sub(r'^\\multicolumn\{\d+\}\{[^{}]*\}\{(?:\\bf )?(.*)\}$', r'\1', c.strip()) for c in rows[0]]
            rows = rows[1:]
        ev['obs'] = dict(err=not ok, titles=tt, head=[c.strip() for c in rows[0]], rows=[[cell(c) for c in r] for r in rows[1:]], t=lines)
    except Exception as ex:
        ev['obs'] = err(ex)
    return ev


def num_scenario(args):
    b, seed = args
    rng = random.Random(seed)
    if b['kind'] == 'layout':
        d = tmpdir(rng)
        try:
            ev = table_event(rng, d, b['v'], b['u'], b['l'])
            return [dict(op='start')] + ([ev] if ev else [])
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return [dict(op='start'), num_event(rng, b['v'], b['e']), fig_event(rng, b['v'], b['u'], b['l'], b['e'])]


def rand_scenario(seed):
    rng = random.Random(seed)
    d = tmpdir(rng)
    try:
        out = [dict(op='start')]
        for _ in range(4):
            m = rng.choice([1, -1]) * rng.choice([rng.randint(0, 10 ** rng.randint(1, 7)), 10 ** rng.randint(1, 7) - rng.randint(1, 5)])
            out.append(num_event(rng, m, rng.randint(-9, 1)))
            q = rand_q(rng, 'x', 1)
            if -8 <= q['e'] <= 1:
                out.append(fig_event(rng, q['mean'], rng.choice([q['err'], rng.randint(1, 10 ** 5)]), -rng.choice([q['err'], rng.randint(1, 10 ** 5)]), q['e']))
            out += tex_event(rng, d)
        for _ in range(2):
            ev = table_event(rng, d)
            if ev:
                out.append(ev)
        return out
    finally:
        shutil.rmtree(d, ignore_errors=True)


def samples_scenario(seed):
    rng = random.Random(seed)
    return [dict(op='start'), samples_event(rng)]


def key(sc, j):
    return sc[j]['op'] + '/' + sc[j].get('obs', {}).get('msg', '').split(':')[0]


def check_C22():
    c = Check('C22')
    T = c.thorough
    r = c.model('MCFmt')
    beh = behaviours(r.out)
    c.extra['behaviours_in_model'] = len(beh)
    lay = [b for b in beh if b['kind'] == 'layout']
    jobs = [(b, '%s/%d' % (c.seed, k)) for k, b in enumerate((lay * 3 if T else lay) + sample(c.rng, [b for b in beh if b['kind'] == 'num'], 42000 if T else 6000))]
    c.trace('TraceFmt', pmap(num_scenario, jobs), 'model numbers and layouts', key=key)
    c.trace('TraceFmt', pmap(rand_scenario, ['%s/r%d' % (c.seed, k) for k in range(15000 if T else 1500)]), 'random numbers and tables', key=key)
    c.trace('TraceFmt', pmap(samples_scenario, ['%s/s%d' % (c.seed, k) for k in range(600 if T else 60)]), 'results of samples', key=key)
    c.assumptions.append('numbers of up to eight digits; where two roundings are equally near either is allowed')
    return c.finish()
