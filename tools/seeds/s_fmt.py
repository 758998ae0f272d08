TY = 'python/getdist/types.py'
HEAD = '''
import sys
from getdist import types
from getdist.paramnames import ParamInfo
def marge(pars, best=None):
    m = types.MargeStats()
    m.hasBestFit = False
    m.limits = [0.68, 0.95]
    for name, mean, err, lims in pars:
        p = ParamInfo(name=name, label=name)
        p.mean, p.err = mean, err
        p.limits = [types.ParamLimit(l[:2], l[2]) for l in lims]
        m.names.append(p)
    return m
'''
seed('round-carry', 'C22', 'a number whose rounding carries over to a new digit',
     'the decimal point of numbers like 0.0996 is one place off',
     [(TY, "    shift += len(result) - sigfig\n", "    shift += max(0, len(result) - sigfig) if number and abs(number) >= 1 else min(0, len(result) - sigfig)\n")],
     HEAD + '''
f = types.NumberFormatter()
assert f.formatNumber(0.0996, 2) == '0.10', f.formatNumber(0.0996, 2)
assert f.formatNumber(9.96, 2) == '10'
assert f.formatNumber(0.5, 2) == '0.50'
assert f.namesigFigs(1.2345, 0.0997, -0.0997)[1] == '+0.10'
''')
seed('table-last-column', 'C22', 'a table with more than two columns and a number of parameters that is not a multiple of it',
     'a parameter is missing in tables of several columns',
     [(TY, "        if nparams % ncol != 0:", "        if nparams % ncol > 1 or ncol < 3 and nparams % ncol:")],
     HEAD + '''
names = ['p%d' % k for k in range(7)]
m = marge([(n, 1. + k, 0.1, [[0.9 + k, 1.1 + k, 'two'], [0.8 + k, 1.2 + k, 'two']]) for k, n in enumerate(names)])
for ncol in (1, 2, 3, 4):
    t = types.ResultTable(ncol, [m]).tableTex()
    for n in names:
        assert t.count(n) == 1, (ncol, n)
''')
seed('symmetric-by-second', 'C22', 'the 95% limits of a parameter with nearly symmetric 95% limits',
     'nearly symmetric limits of the second kind are shown as one standard deviation error',
     [(TY, "                if not formatter.numberFormatter.plusMinusLimit(limit, lim.upper - param.mean, lim.lower - param.mean):",
       "                if not formatter.numberFormatter.plusMinusLimit(min(limit, len(param.limits) - limit + 1), lim.upper - param.mean,\n                                                                lim.lower - param.mean):")],
     HEAD + '''
m = marge([('x', 1., 0.1, [[0.9, 1.1, 'two'], [0.8, 1.2, 'two']])])
f = types.NoLineTableFormatter()
assert m.texValues(f, 'x', limit=1)[0] == r'1.00\\pm 0.10', m.texValues(f, 'x', limit=1)
assert m.texValues(f, 'x', limit=2)[0] == '1.00^{+0.20}_{-0.20}', m.texValues(f, 'x', limit=2)
''')
seed('exponent-upper', 'C22', 'a parameter whose mean and upper limit are of different order, in scientific notation',
     'the value in scientific notation is scaled by another power of ten than shown',
     [(TY, "            exponent = self.formatNumber(max(abs(value - limminus), abs(value + limplus)), sci=True)[1]",
       "            exponent = self.formatNumber(max(abs(value - limminus), abs(value + limplus)), sci=True)[1]\n            scale = self.formatNumber(abs(value) or limplus, sci=True)[1] or exponent"),
      (TY, "                        float_to_decimal(x), float_to_decimal(10. ** -exponent)))(lim)",
       "                        float_to_decimal(x), float_to_decimal(10. ** -scale)))(lim)")],
     HEAD + '''
f = types.NumberFormatter()
r = f.namesigFigs(9.5e-6, 2e-6, -2e-6, sci=True)
v = float(r[0]) * 10. ** r[3]
assert abs(v - 9.5e-6) < 1e-6, r
r = f.namesigFigs(2.2e-9, 2e-10, -2e-10, sci=True)
assert abs(float(r[0]) * 10. ** r[3] - 2.2e-9) < 1e-10, r
''')
