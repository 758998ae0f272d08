PN = 'python/getdist/paramnames.py'
HEAD = '''
import os, sys, tempfile, shutil
from getdist.paramnames import ParamNames, ParamInfo
'''
seed('renames-forgotten', 'C13', 'a parameter that already has aliases, updated with a table giving it others',
     'updating renames forgets the aliases a parameter already has',
     [(PN, "            self.getRenames(keep_empty=True), renames, keep_names_1st=True)",
           "            {param.name: [] for param in self.names}, renames, keep_names_1st=True)")],
     HEAD + '''
p = ParamNames(names=['H0', 'b'])
p.updateRenames({'H0': ['hubble']})
p.updateRenames({'b': ['beta']})
p.updateRenames({'H0': ['h_0']})
assert p.parWithName('beta').name == 'b'
assert p.parWithName('h_0').name == 'H0'
assert p.parWithName('hubble') is p.names[0]
''')
seed('derived-flag-kept', 'C13', 'labels and derived flags taken from a list where a parameter is not derived but was before',
     'a parameter stays derived when flags are taken from a list in which it is not derived',
     [(PN, "                if set_derived:\n                    param.isDerived = par.isDerived",
           "                if set_derived and par.isDerived:\n                    param.isDerived = par.isDerived")],
     HEAD + '''
p = ParamNames(names=['a', 'b*', 'c*'])
p.setLabelsAndDerivedFromParamNames(ParamNames(names=['b', 'a*'], labels=['B', 'A']))
assert p.labels() == ['A', 'B', ''] or p.labels()[:2] == ['A', 'B']
assert p.getDerivedNames() == ['a', 'c'], p.getDerivedNames()
''')
seed('glob-contains', 'C13', 'a wildcard pattern and a parameter whose name continues after the part that matches',
     'wildcard patterns also return parameters of which only the beginning matches',
     [(PN, "            if fnmatch.fnmatchcase(par.name, pattern):", "            if fnmatch.fnmatchcase(par.name, pattern if '*' in pattern else pattern + '*'):")],
     HEAD + '''
p = ParamNames(names=['a1', 'a2', 'a10', 'b1'])
r = [x.name for x in p.parsWithNames(['a?', 'b*'])]
assert r == ['a1', 'a2', 'b1'], r
''')
