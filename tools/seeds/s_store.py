CH = 'python/getdist/chains.py'
MC = 'python/getdist/mcsamples.py'
PP = 'python/getdist/parampriors.py'
CL = 'python/getdist/command_line.py'
HEAD = '''
import os, sys, tempfile, time, shutil
import numpy as np
from getdist import loadMCSamples, chains, MCSamples
chains.print_load_details = False
d = tempfile.mkdtemp()
import atexit
atexit.register(shutil.rmtree, d)
rng = np.random.RandomState(1)
'''
seed('label-with-properties', 'C09', 'samples with a label, saved as separate chains with a properties dictionary, then reloaded',
     'the label of the samples is lost when they are saved together with other properties',
     [(MC, "            if self.label:\n                ini.params.update({'label': self.label})",
           "            if self.label and not properties:\n                ini.params.update({'label': self.label})")],
     HEAD + '''
s = MCSamples(samples=[rng.rand(50, 2), rng.rand(60, 2)], names=['a', 'b'], label='LCDM')
s.saveChainsAsText(os.path.join(d, 'x'), properties={'burn_removed': True})
t = loadMCSamples(os.path.join(d, 'x'), no_cache=True)
assert t.label == 'LCDM', t.label
''')
seed('bounds-precision', 'C09', 'a bound with more than five significant digits, samples saved and reloaded',
     'parameter bounds are saved with fewer digits than they have, so reloaded samples can lie outside them',
     [(PP, 'lim2 = "%15.7E" % valMax', 'lim2 = "%15.4E" % valMax')],
     HEAD + '''
x = rng.rand(50, 2)
x[:, 0] *= 1234.567
s = MCSamples(samples=x, names=['a', 'b'], ranges={'a': [None, 1234.567], 'b': [0, 1]})
s.saveAsText(os.path.join(d, 'x'))
t = loadMCSamples(os.path.join(d, 'x'), no_cache=True)
assert t.ranges.getUpper('a') == 1234.567, t.ranges.getUpper('a')
''')
seed('marked-rows-cut', 'C10', 'chains marked burn_removed in their .properties.ini, loaded with a burn-in given as a row count',
     'burn-in is removed a second time from chains already marked as burn-in removed, if given as a number of rows',
     [(MC, """            if self.properties.bool('burn_removed', False):
                self.ignore_frac = 0.
                self.ignore_lines = 0
""", """            if self.properties.bool('burn_removed', False):
                self.ignore_frac = 0.
""")],
     HEAD + '''
s = MCSamples(samples=[rng.rand(50, 2), rng.rand(60, 2)], names=['a', 'b'], settings={'ignore_rows': 0})
s.saveChainsAsText(os.path.join(d, 'x'), properties={'burn_removed': True})
assert loadMCSamples(os.path.join(d, 'x'), no_cache=True, settings={'ignore_rows': 0.3}).numrows == 110
assert loadMCSamples(os.path.join(d, 'x'), no_cache=True, settings={'ignore_rows': 10}).numrows == 110
''')
seed('burn-first-chain', 'C10', 'several chains of different length and a burn-in given as a fraction',
     'the number of rows removed from every chain is that of the first chain, not the fraction of each chain',
     [(CH, "            for chain in self.chains:\n                chain.removeBurn(ignore_frac)",
           "            ignore = ignore_frac if ignore_frac >= 1 else self.chains[0].numrows * ignore_frac\n"
           "            for chain in self.chains:\n                chain.removeBurn(ignore)")],
     HEAD + '''
for i, n in enumerate((100, 60)):
    np.savetxt(os.path.join(d, 'x_%d.txt' % (i + 1)), np.hstack((np.ones((n, 1)), rng.rand(n, 3))))
open(os.path.join(d, 'x.paramnames'), 'w').write('a a\\nb b\\n')
s = loadMCSamples(os.path.join(d, 'x'), no_cache=True, settings={'ignore_rows': 0.5})
n = [c.numrows for c in s.getSeparateChains()]
assert n == [50, 30], n
''')
