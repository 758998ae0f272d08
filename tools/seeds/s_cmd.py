CL = 'python/getdist/command_line.py'
MC = 'python/getdist/mcsamples.py'
CH = 'python/getdist/chains.py'
HEAD = '''
import warnings; warnings.simplefilter('ignore')
import os, shutil, tempfile, atexit
import matplotlib
matplotlib.use('Agg')
import numpy as np
from getdist import chains, covmat, types
from getdist.command_line import getdist_command
chains.print_load_details = False
d = tempfile.mkdtemp(); atexit.register(shutil.rmtree, d, True)
os.chdir(d); os.mkdir('chains')
data = {}
def chain(k, rows=40, fixed=False):
    r = np.random.RandomState(k)
    x = r.normal(size=(rows, 3)).round(4) + [0, 10, 20]
    if fixed: x[:, 1] = 3
    data[k] = x
    with open('chains/t_%d.txt' % k, 'w') as f:
        for v in x:
            f.write('1 2 %s\\n' % ' '.join('%.4f' % z for z in v))
    with open('chains/t.paramnames', 'w') as f:
        f.write('a\\nb\\nab\\n')
def run(*lines, args=()):
    with open('my.ini', 'w') as f:
        f.write('\\n'.join(lines) + '\\n')
    getdist_command(['my.ini', 'chains/t'] + list(args))
def means():
    return {p.name: p.mean for p in types.MargeStats('t.margestats').names}
def ok(x):
    m = means()
    assert np.allclose([m[p] for p in ('a', 'b', 'ab')], x.mean(axis=0), rtol=1e-4, atol=1e-4), (m, x.mean(axis=0))
'''
seed('no-rows-ignored', 'C29', 'a command that asks for no rows to be ignored where the settings file ignores some',
     'rows are ignored all the same',
     [(CL, "    if args.ignore_rows is not None:\n", "    if args.ignore_rows:\n")],
     HEAD + '''
chain(1)
run('ignore_rows = 5', 'no_plots = T', args=['--ignore_rows', '0'])
ok(data[1])
''')
seed('last-exclusive', 'C29', 'a settings file with a number of the last chain and another chain excluded',
     'chains to be excluded are used where a last chain is given',
     [(CH, "                    and (chain_exclude is None or index not in chain_exclude) \\\n", "                    and (chain_exclude is None or index not in chain_exclude or last_chain > index) \\\n")],
     HEAD + '''
for k in (1, 2, 3, 4): chain(k)
run('chain_num = 3', 'exclude_chain = 1', 'no_plots = T')
ok(np.vstack([data[2], data[3]]))
''')
seed('pairs-unordered', 'C29', 'a settings file that asks for a pair of parameters both ways round',
     'the plot of the second is missing',
     [(MC, "                if (par1, par2) not in done2D:\n", "                if (par1, par2) not in done2D and (par2, par1) not in done2D:\n")],
     HEAD + '''
chain(1)
run('plot_2D_num = 2', 'plot1 = a b', 'plot2 = b a')
s = open('t_2D.py').read()
assert "['a','b']" in s and "['b','a']" in s, s
''')
seed('pattern-fixed', 'C29', 'a pattern for the triangle plot that fits a constant parameter',
     'the constant parameter is part of the triangle plot',
     [(CL, "    mc.deleteFixedParams()\n    mc.makeSingle()\n", "    names = mc.paramNames.getMatches('*', strings=True)\n    mc.deleteFixedParams()\n    mc.makeSingle()\n"),
      (CL, "                    _pars += mc.paramNames.getMatches(name, strings=True)\n", "                    import fnmatch\n                    _pars += [x for x in names if fnmatch.fnmatchcase(x, name)]\n")],
     HEAD + '''
chain(1, fixed=True)
run('triangle_plot = T', 'triangle_params = *')
s = open('t_tri.py').read()
assert "'b'" not in s and "'ab'" in s, s
''')
seed('thin-cool-like', 'C29', 'thinned output written with a temperature of its own',
     'the log likelihoods written beside the cooled weights are those before cooling',
     [(MC, '                    f.write("%16.7E" % newL)\n', '                    f.write("%16.7E" % self.loglikes[thin])\n')],
     HEAD + '''
chain(1)
run('thin_factor = 3', 'thin_cool = 2', 'no_plots = T')
t = np.loadtxt('t_thin.txt')
assert np.allclose(t[:, 1], 4), t[:, 1]
''')
seed('derived-covmat', 'C29', 'chains with a derived parameter before another parameter',
     'the covariance matrix written has the names of other parameters',
     [(MC, "                             paramNames=[self.paramNames.names[i].name for i in pars])\n", "                             paramNames=[self.paramNames.names[k].name for k in range(len(pars))])\n")],
     HEAD + '''
chain(1)
with open('chains/t.paramnames', 'w') as f:
    f.write('a\\nb*\\nab\\n')
run('no_plots = T')
assert list(covmat.CovMat('t.covmat').paramNames) == ['a', 'ab']
''')
seed('burned-fraction', 'C29', 'chains with burn-in removed before and a command that ignores a fraction of the rows',
     'the fraction is removed again',
     [(CL, "    if mc.ignore_frac:\n        mc.removeBurnFraction(mc.ignore_frac)\n", "    frac = float(ini.params.get('ignore_rows', 0))\n    if frac < 1 and frac > 0:\n        mc.removeBurnFraction(frac)\n")],
     HEAD + '''
chain(1)
with open('chains/t.properties.ini', 'w') as f: f.write('burn_removed = T\\n')
run('ignore_rows = 0.3', 'no_plots = T')
ok(data[1])
''')
seed('three-count', 'C29', 'two coloured scatter plots asked for, the first of them with a missing parameter',
     'no scatter plots are made',
     [(CL, "            pars = filterParList(line, 3)\n            if pars is not None:\n                plot_3D.append(pars)\n            else:\n                num_3D_plots -= 1\n", "            pars = filterParList(line, 3)\n            if pars is None:\n                num_3D_plots = 0\n                break\n            plot_3D.append(pars)\n")],
     HEAD + '''
chain(1)
run('num_3D_plots = 2', '3D_plot1 = a b nope', '3D_plot2 = a b ab')
assert "['a','b','ab']" in open('t_3D.py').read()
''')
