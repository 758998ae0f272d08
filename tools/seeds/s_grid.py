BJ = 'python/paramgrid/batchjob.py'
GC = 'python/paramgrid/gridconfig.py'
HEAD = '''
import os, sys
import types
from getdist import IniFile
import getdist
getdist.cache_dir = ''
from paramgrid import batchjob, gridconfig
os.makedirs('ini'); os.makedirs('cov')
open('set.py', 'w').close()
REPO = batchjob.getCodeRootPath()
def group(name, params, datasets, imps=()):
    g = batchjob.jobGroup(name)
    g.params, g.datasets, g.importanceRuns = params, datasets, list(imps)
    return g
def grid(groups, **kw):
    kw = dict(dict(ini_dir=os.path.relpath('ini', REPO) + '/', cov_dir=os.path.abspath('cov'), defaults=[], importanceDefaults=[], params={'p': '1 0 2 1 1', 'q': '2 0 3 1 1'}, param_extra_opts={}), **kw)
    return gridconfig.makeGrid('grid', settings=types.SimpleNamespace(__file__='set.py', groups=groups, **kw))
D = batchjob.dataSet
def names(b, imp=True): return [x.name for x in b.items(wantImportance=imp)]
'''
seed('normed-unsorted-imp', 'C18', 'the same combination reached by importance sampling in two orders',
     'importance runs of the same data in another order are not recognised as the same combination, so it is sampled twice and not found by its tag',
     [(BJ, "        return \"_\".join(sorted(self.namesReplacing(dic)))", "        items = self.namesReplacing(dic)\n        n = len(items) - len(getattr(self, 'importanceNames', []))\n        return \"_\".join(sorted(items[:n]) + sorted(items[n:]))")],
     HEAD + '''
b = grid([group('g', [[]], [D(['b', 'a'], [])])])
assert names(b) == ['base_b_a'] and b.resolveName([], 'a_b') == 'base_b_a'
b = grid([group('g', [[]], [D(['a'], []), D(['b'], [])], [(['a'], []), (['b'], [])])])
assert names(b) == ['base_a', 'base_b', 'base_b_post_a'], names(b)
''')
seed('skip-first-group', 'C18', 'skipped runs in a grid with importance runs of all groups',
     'a skipped importance run of an importance run is still in the grid',
     [(BJ, "                for imp in item.importanceJobsRecursive():\n                    if not imp.name in self.skip: yield (imp)", "                for imp in item.importanceJobsRecursive():\n                    if imp.isImportanceJob and (imp.parent is not item or not imp.name in self.skip): yield (imp)")],
     HEAD + '''
class F(batchjob.importanceFilter): pass
b = grid([group('g', [[]], [D(['a'], [])], [(['b'], [])])], skip=['base_a_post_b'])
assert names(b) == ['base_a']
b = grid([group('g', [[]], [D(['a'], [])], [(['b'], [])])], skip=['base_a_post_b_f'], importance_filters=[F(['f'])])
assert names(b) == ['base_a', 'base_a_post_b', 'base_a_post_f'], names(b)
''')
seed('group-opts-lose', 'C19', 'an option given both for the grid and for one of its groups',
     'options of the grid override those of the group',
     [(GC, "        if hasattr(settings, 'extra_opts'):\n            ini.params.update(settings.extra_opts)\n        if hasattr(jobItem, 'extra_opts'):\n            ini.params.update(jobItem.extra_opts)",
           "        if hasattr(jobItem, 'extra_opts'):\n            ini.params.update(jobItem.extra_opts)\n        if hasattr(settings, 'extra_opts'):\n            ini.params.update(settings.extra_opts)")],
     HEAD + '''
g = group('g', [[]], [D(['a'], [])])
g.extra_opts = {'k': 'group'}
grid([g, group('h', [['p']], [D(['a'], [])])], extra_opts={'k': 'grid', 'j': 'grid'})
i = IniFile('grid/iniFiles/base_a.ini')
assert i.string('j') == 'grid' and IniFile('grid/iniFiles/base_p_a.ini').string('k') == 'grid'
assert i.string('k') == 'group', i.string('k')
''')
seed('importance-minimize-defaults', 'C19', 'a grid with default files for importance runs, and minimization of importance runs',
     'the settings file for minimizing an importance run has the defaults of importance sampling, which override settings of the run',
     [(GC, "                if cosmomcAction == 0 and not minimize:\n                    for deffile in settings.importanceDefaults:\n                        ini.defaults.append(batch.commonPath + deffile)\n",
           "                for deffile in settings.importanceDefaults:\n                    ini.defaults.append(batch.commonPath + deffile)\n                if cosmomcAction == 0 and not minimize:\n")],
     HEAD + '''
open('ini/imp.ini', 'w').write('k = importance\\n')
open('ini/def.ini', 'w').write('k = main\\n')
grid([group('g', [[]], [D(['a'], [])], [(['b'], [])])], defaults=['def.ini'], importanceDefaults=['imp.ini'])
assert IniFile('grid/postIniFiles/base_a_post_b.ini').string('k') == 'importance'
assert IniFile('grid/iniFiles/base_a_minimize.ini').string('k') == 'main'
i = IniFile('grid/postIniFiles/base_a_post_b_minimize.ini')
assert i.string('k') == 'main' and i.int('action') == 2, i.string('k')
''')
