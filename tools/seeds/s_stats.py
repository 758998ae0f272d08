TY = 'python/getdist/types.py'
MC = 'python/getdist/mcsamples.py'
HEAD = '''
import os, sys, tempfile, shutil
from getdist import types
from getdist.paramnames import ParamInfo
d = tempfile.mkdtemp()
import atexit
atexit.register(shutil.rmtree, d, True)
f = os.path.join(d, 'a')
'''
BEST = HEAD + '''
def best(text, **kw):
    with open(f, 'w') as h:
        h.write(text)
    return types.BestFit(f, **kw)
TEXT = """ -log(Like) =  5.5

    1   1.0E+00   a   A
    2   2.0E+00   b   B

    3   3.0E+00   c   C

    4   4.0E+00   d   D

 -log(Like)     chi-sq   data
   1.0   2.0   CMB: plik = lowl
   2.0   4.0   BAO: x
   3.0   6.0   CMB: z
"""
'''
seed('limit-tag-shared', 'C23', 'marginalized statistics with several limits whose types differ, written and read again',
     'every limit of a parameter read from a file has the type of the first one or of the last when only that is one sided',
     [(TY, "                param.limits.append(ParamLimit([float(s) for s in items[3 + i * 3:5 + i * 3]], items[5 + i * 3]))",
           "                param.limits.append(ParamLimit([float(s) for s in items[3 + i * 3:5 + i * 3]], items[5 + min(i, 1) * 3]))")],
     HEAD + '''
m = types.MargeStats()
m.hasBestFit = False
m.limits = [0.68, 0.95, 0.99]
p = ParamInfo(name='x', label='X')
p.mean, p.err = 1., 0.5
p.limits = [types.ParamLimit([0., 2.], 'two'), types.ParamLimit([0., 3.], 'two'), types.ParamLimit([0., 4.], '>')]
m.names.append(p)
m.saveAsText(f)
r = types.MargeStats(f)
assert [l.limitTag() for l in r.names[0].limits] == ['two', 'two', '>'], [l.limitTag() for l in r.names[0].limits]
assert [l.upper for l in r.names[0].limits] == [2, 3, 4]
''')
seed('best-derived-flag', 'C23', 'a best fit with fixed parameters that are asked for',
     'derived parameters of a best fit are taken for fixed ones when fixed parameters are wanted',
     [(TY, "                isFixed = not isFixed\n", "                isFixed = not isFixed or (want_fixed and chunks == 2)\n")],
     BEST + '''
b = best(TEXT, want_fixed=True)
assert [(p.name, p.isFixed) for p in b.names] == [('a', False), ('b', False), ('c', True), ('d', False)], [(p.name, p.isFixed) for p in b.names]
b = best(TEXT)
assert [p.name for p in b.names] == ['a', 'b', 'd'] and [c.name for k, c in b.chiSquareds] == ['lowl', 'x', 'z']
''')
seed('chi2-any-kind', 'C23', 'two likelihoods with the same name but of different kinds',
     'the chi-squared of a likelihood is that of another kind with the same name',
     [(TY, "            if akind == kind and val.name == name:\n", "            if (akind == kind or not kind) and val.name == name:\n")],
     BEST + '''
b = best(TEXT.replace('BAO: x', 'BAO: z').replace('CMB: z', 'z'))
assert b.chiSquareForKindName('BAO', 'z') == 4
assert b.chiSquareForKindName('SN', 'z') is None
assert b.chiSquareForKindName('', 'lowl') is None, b.chiSquareForKindName('', 'lowl')
''')
seed('addbest-order', 'C23', 'a best fit that lists a derived parameter that was varied in the chain',
     'adding a best fit keeps whether a parameter is derived, and its value only when that agrees',
     [(TY, "            par.best_fit = param.best_fit\n            par.isDerived = param.isDerived\n",
           "            par.isDerived = par.isDerived or param.isDerived\n            par.best_fit = param.best_fit\n")],
     BEST + '''
m = types.MargeStats()
m.hasBestFit = False
m.limits = [0.68]
for n, der in (('a', True), ('d', True), ('q', False)):
    p = ParamInfo(name=n, label=n, derived=der)
    p.mean, p.err, p.limits = 1., 0.5, [types.ParamLimit([0., 2.], 'two')]
    m.names.append(p)
m.addBestFit(best(TEXT))
assert [(p.name, p.isDerived, p.best_fit) for p in m.names] == [('a', False, 1.), ('d', True, 4.)], [(p.name, p.isDerived) for p in m.names]
''')
seed('likestats-key', 'C23', 'likelihood statistics written to a file and read again',
     'the mean log likelihood read from a file is the log of the mean likelihood',
     [(TY, "        self.logMeanLike = results.get('-Ln(mean like)', None)\n", "        self.logMeanLike = results.get('-Ln(mean like)', self.meanLogLike) if self.logMeanInvLike is not None else self.meanLogLike\n")],
     HEAD + '''
for inv in (None, 3.5):
    m = types.LikeStats()
    m.logLike_sample, m.meanLogLike, m.logMeanLike, m.logMeanInvLike = 1., 2., 1.5, inv
    p = ParamInfo(name='x', label='X')
    p.bestfit_sample, p.ND_limit_bot, p.ND_limit_top = 1., [0.], [2.]
    m.names.append(p)
    m.saveAsText(f)
    r = types.LikeStats(f)
    assert (r.logLike_sample, r.meanLogLike, r.logMeanLike, r.logMeanInvLike) == (1., 2., 1.5, inv), (r.logMeanLike, inv)
''')
seed('best-max-like', 'C23', 'samples with both a .minimum and a .bestfit file, the maximum likelihood asked for',
     'the parameters of the maximum likelihood are those of the maximum posterior when that is there',
     [(MC, "        bf_file = self.root + ext\n", "        bf_file = self.root + ext\n        if os.path.exists(self.root + '.minimum'):\n            bf_file = self.root + '.minimum'\n")],
     HEAD + '''
from getdist import loadMCSamples, chains
chains.print_load_details = False
open(f + '.paramnames', 'w').write('a A\\nb B\\n')
open(f + '_1.txt', 'w').write(''.join('1 1.5 %d %d\\n' % (k, k * k) for k in range(20)))
for ext, v in (('.minimum', 1.), ('.bestfit', 2.)):
    open(f + ext, 'w').write(' -log(Like) = %s\\n\\n 1 %s a A\\n 2 %s b B\\n\\n\\n' % (v, v, v))
s = loadMCSamples(f, no_cache=True)
assert s.getParamBestFitDict()['a'] == 1
assert s.getParamBestFitDict(max_posterior=False)['a'] == 2, s.getParamBestFitDict(max_posterior=False)
''')
