
CH = 'python/getdist/chains.py'
MC = 'python/getdist/mcsamples.py'
CG = 'python/getdist/chain_grid.py'
FILES = '''
import os, sys, tempfile, time, shutil
import numpy as np
from getdist import loadMCSamples, chains
chains.print_load_details = False
d = tempfile.mkdtemp()
import atexit
atexit.register(shutil.rmtree, d)
def write(path, text, t):
    with open(path, 'w') as f:
        f.write(text)
    os.utime(path, (1.6e9 + t, 1.6e9 + t))
rng = np.random.RandomState(1)
def rows(extra=''):
    return ''.join('1 %s %s %s%s\\n' % (i % 7, rng.rand(), rng.rand(), extra) for i in range(200))
'''
seed('cache-yaml-stale', 'C07', 'a Cobaya chain loaded with caching, its updated.yaml (label, bounds) then changed, and loaded again',
     'the cached samples are returned with the old parameter bounds after the .updated.yaml file has been changed',
     [(MC, "any(f.lower().endswith(end) for end in ['updated.yaml', 'full.yaml']))]",
       "any(f.lower().endswith(end) for end in ['input.yaml', 'full.yaml']))]")],
     FILES + '''
Y = "params:\\n  a:\\n    prior: {min: %s, max: 5}\\n    latex: a\\n  b:\\n    prior: {min: -1, max: 5}\\n    latex: b\\nlikelihood: {one: null}\\nsampler: {mcmc: {}}\\n"
root = os.path.join(d, 'x')
write(root + '.1.txt', rows(' 1 1 2 2'), 0)
write(root + '.updated.yaml', Y % -1, 1)
assert loadMCSamples(root).ranges.getLower('a') == -1
write(root + '.updated.yaml', Y % -2.5, 2)
s = loadMCSamples(root)
loadMCSamples(root, no_cache=True)
assert s.ranges.getLower('a') == -2.5, s.ranges.getLower('a')
''')
seed('ini-shared', 'C07', 'an IniFile object and a settings dictionary passed together, and the IniFile used again afterwards',
     "loading modifies the caller's IniFile, so the next load with it uses settings of the previous load",
     [(MC, '            ini = copy.deepcopy(ini)', '            ini = copy.copy(ini)')],
     FILES + '''
from getdist.inifile import IniFile
root = os.path.join(d, 'x')
write(root + '_1.txt', rows(), 0)
write(root + '.paramnames', 'a a\\nb b\\n', 0)
ini = IniFile()
ini.params['ignore_rows'] = '0.5'
ini.params['contours'] = '0.68 0.95'
s = loadMCSamples(root, ini=ini, settings={'ignore_rows': 0}, no_cache=True)
assert s.numrows == 200
s = loadMCSamples(root, ini=ini, no_cache=True)
assert s.numrows == 100, s.numrows
''')
seed('root-prefix', 'C08', 'a directory where another root name ends with the root name, e.g. x_1.txt and y_x_1.txt',
     'the chain files of another root whose name ends with the root name are used too',
     [(CH, 'match = reg_exp.fullmatch(f)', "match = re.fullmatch('(.*_)?' + reg_exp.pattern, f)")],
     FILES + '''
from getdist.chains import chainFiles
for n in ('x_1.txt', 'y_x_1.txt', 'x_2.txt', 'yx_1.txt'):
    write(os.path.join(d, n), '1 1 1 1\\n', 0)
f = sorted(os.path.basename(x) for x in chainFiles(os.path.join(d, 'x')))
assert f == ['x_1.txt', 'x_2.txt'], f
''')
seed('exclude-chains', 'C08', 'a chain list that both includes and excludes chain numbers',
     'excluded chains are read if they are also named in the list of chains to include',
     [(CH, 'if (chain_indices is None or index in chain_indices) \\', 'if (chain_indices is None or index in chain_indices or not first_chain) \\'),
      (CH, 'and (chain_exclude is None or index not in chain_exclude) \\', 'and (chain_exclude is None or index not in chain_exclude or chain_indices) \\'),],
     FILES + '''
from getdist.chains import chainFiles
for n in ('x_1.txt', 'x_2.txt', 'x_3.txt'):
    write(os.path.join(d, n), '1 1 1 1\\n', 0)
f = sorted(os.path.basename(x) for x in chainFiles(os.path.join(d, 'x'), chain_indices=[1, 2], chain_exclude=[2]))
assert f == ['x_1.txt'], f
''')
seed('ambiguous-first', 'C08', 'two chains in one directory tree whose names have the same parts in a different order, asked for by a third order',
     'an ambiguous name silently resolves to the first of several chains',
     [(CG, 'if len(items) == 1:', 'if len(items) == 1 or items[0].chainPath == items[-1].chainPath:')],
     FILES + '''
from getdist.chain_grid import ChainDirGrid
os.makedirs(os.path.join(d, 's'))
for n in ('b_c_a', 'c_b_a'):
    write(os.path.join(d, 's', n + '.txt'), rows(), 0)
    write(os.path.join(d, 's', n + '.paramnames'), 'a a\\nb b\\n', 0)
g = ChainDirGrid(d)
assert g.resolve_root('b_c_a').chainRoot.endswith('b_c_a')
try:
    r = g.resolve_root('a_b_c')
    sys.exit('resolved to %s' % r.chainRoot)
except ValueError:
    pass
''')
