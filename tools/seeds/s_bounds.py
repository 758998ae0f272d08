PP = 'python/getdist/parampriors.py'
MC = 'python/getdist/mcsamples.py'
HEAD = '''
import os, sys, tempfile, shutil
import numpy as np
from getdist import MCSamples
from getdist.parampriors import ParamBounds
'''
seed('fixed-if-close', 'C14', 'a parameter whose two bounds differ by very little',
     'a parameter with a very narrow range is taken to be fixed at its lower bound',
     [(PP, "                if higher == lower:", "                if np.isclose(higher, lower):")],
     HEAD + '''
b = ParamBounds()
b.setRange('mnu', (0, 1e-9))
b.setRange('tau', (0.06, 0.06))
b.setRange('A', (1, 2))
assert b.fixedValueDict() == {'tau': 0.06}, b.fixedValueDict()
assert b.fixedValue('mnu') is None
''')
seed('ranges-alias', 'C14', 'the same bounds object given to two sets of samples, one of which then changes a range',
     'samples given a bounds object share it, so changing the range of one changes the other',
     [(MC, "            self.ranges = copy.deepcopy(ranges)", "            self.ranges = ranges")],
     HEAD + '''
x = np.random.default_rng(1).normal(size=(200, 2))
b = ParamBounds()
b.setRange('a', (-9, 9))
s1 = MCSamples(samples=x, names=['a', 'b'], ranges=b)
s2 = MCSamples(samples=x, names=['a', 'b'], ranges=b)
s1.setRanges({'a': (-8, 8)})
assert (s2.ranges.getLower('a'), s2.ranges.getUpper('a')) == (-9, 9)
assert s2.getLower('a') == -9 and s1.getLower('a') == -8
''')
seed('zero-bound-unsaved', 'C14', 'a bound that is exactly zero, saved and read back',
     'an upper bound of exactly zero is saved as no bound',
     [(PP, "            if valMax is not None:", "            if valMax:")],
     HEAD + '''
d = tempfile.mkdtemp()
try:
    b = ParamBounds()
    b.setRange('w', (-3, 0))
    b.setRange('x', (0, 1))
    b.saveToFile(os.path.join(d, 'r.ranges'))
    c = ParamBounds(os.path.join(d, 'r.ranges'))
    assert (c.getLower('x'), c.getUpper('x')) == (0, 1)
    assert (c.getLower('w'), c.getUpper('w')) == (-3, 0), (c.getLower('w'), c.getUpper('w'))
finally:
    shutil.rmtree(d)
''')
