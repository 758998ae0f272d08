PL = 'python/getdist/plots.py'
CG = 'python/getdist/chain_grid.py'
HEAD = '''
import warnings; warnings.simplefilter('ignore')
import os, shutil, tempfile, atexit
import matplotlib
matplotlib.use('Agg')
import numpy as np
from getdist import plots, chains
chains.print_load_details = False
d = tempfile.mkdtemp(); atexit.register(shutil.rmtree, d, True)
def chain(path, k, rows=20):
    root = os.path.join(d, path)
    os.makedirs(os.path.dirname(root), exist_ok=True)
    r = np.random.RandomState(k)
    with open(root + '_1.txt', 'w') as f:
        for i in range(rows):
            f.write('1 2 %g %g\\n' % (100 * k + i, r.normal()))
    with open(root + '.paramnames', 'w') as f:
        f.write('p\\nq\\n')
def first(s):
    return int(s.getParams().p.min())
'''
seed('forget-keeps-grid', 'C28', 'samples removed, changed on disk, loaded again and plotted in two dimensions both before and after',
     'two-dimensional densities of samples that were removed are shown for those loaded under the same name later',
     [(PL, "        self.densities_2D.pop(root, None)\n", "        self.densities_1D.pop(root, None)\n")],
     HEAD + '''
chain('c/test', 1)
an = plots.MCSampleAnalysis(d + '/c', settings={'ignore_rows': 0})
s = an.samples_for_root('test')
p, q = s.paramNames.parWithName('p'), s.paramNames.parWithName('q')
an.get_density_grid('test', p, q)
an.remove_root('test')
chain('c/test', 5)
g = an.get_density_grid('test', p, q)
assert g.x.min() > 400, g.x
''')
seed('analysis-over-request', 'C28', 'samples loaded with settings of their own where settings kept with the chains have no priority',
     'settings of the analysis override those given when the samples are loaded',
     [(PL, "            dist_settings.update(self.ini.params)\n            if settings:\n                dist_settings.update(settings)\n",
       "            if settings:\n                dist_settings.update(settings)\n            dist_settings.update(self.ini.params)\n")],
     HEAD + '''
chain('c/test', 1)
an = plots.MCSampleAnalysis(d + '/c', settings={'ignore_rows': 2})
an.reset(settings={'ignore_rows': 2}, chain_settings_have_priority=False)
assert first(an.samples_for_root('test', settings={'ignore_rows': 3})) == 103
''')
seed('reset-keeps-priority', 'C28', 'an analysis reset without priority of the settings kept with the chains, and reset again later',
     'settings kept with the chains are still overridden after a later reset',
     [(PL, "        self.chain_settings_have_priority = chain_settings_have_priority\n", "        self.chain_settings_have_priority = chain_settings_have_priority and getattr(self, 'chain_settings_have_priority', True)\n")],
     HEAD + '''
chain('c/test', 1)
with open(d + '/c/getdist.ini', 'w') as f: f.write('ignore_rows = 4\\n')
an = plots.MCSampleAnalysis(d + '/c')
an.reset(settings={'ignore_rows': 2}, chain_settings_have_priority=False)
assert first(an.samples_for_root('test')) == 102
an.reset(settings={'ignore_rows': 2})
assert first(an.samples_for_root('test')) == 104
''')
seed('grid-before-run', 'C28', 'a run of a grid with settings of its own for something the grid has a setting for',
     "the grid's settings override those of the run",
     [(PL, "                        if hasattr(chain_dir, 'getdist_options'):\n                            dist_settings.update(chain_dir.getdist_options)\n                        if hasattr(job_item, 'dist_settings'):\n                            dist_settings.update(job_item.dist_settings)\n",
       "                        if hasattr(job_item, 'dist_settings'):\n                            dist_settings.update(job_item.dist_settings)\n                        if hasattr(chain_dir, 'getdist_options'):\n                            dist_settings.update(chain_dir.getdist_options)\n")],
     HEAD + '''
chain('c/test', 1)
class Item:
    dist_settings = {'ignore_rows': 3}; batchPath = d; paramtag = ''; isImportanceJob = False; label = 'l'; chainRoot = d + '/c/test'; name = 'test'
    def isBurnRemoved(self): return False
class Grid:
    getdist_options = {'ignore_rows': 2}
    batchPath = d
    def resolve_root(self, n):
        i = Item()
        return i
an = plots.MCSampleAnalysis([Grid()])
assert first(an.samples_for_root('test')) == 103
''')
seed('last-location', 'C28', 'a chain of the same name in two locations, the first of them a grid or tree',
     'the chain is taken from the last tree that has it',
     [(PL, "                        if hasattr(job_item, 'dist_settings'):\n                            dist_settings.update(job_item.dist_settings)\n                        break\n",
       "                        if hasattr(job_item, 'dist_settings'):\n                            dist_settings.update(job_item.dist_settings)\n                        if chain_dir is not self.chain_dirs[0]:\n                            break\n")],
     HEAD + '''
chain('t1/x/test', 1); chain('t2/x/test', 2)
an = plots.MCSampleAnalysis([d + '/t1', d + '/t2'], settings={'ignore_rows': 0})
assert first(an.samples_for_root('test')) == 100
''')
seed('tree-last-component', 'C28', 'three chains of one name in a tree, two of them in directories of one name below different ones',
     'names that do not tell chains apart are given, and one chain hides another',
     [(CG, "                while len({tuple(s[i:]) for s in paths}) < len(paths):\n                    i -= 1\n", "                if len({tuple(s[i:]) for s in paths}) < min(len(paths), 3):\n                    i -= 1\n")],
     HEAD + '''
chain('t/a/x/test', 1); chain('t/b/x/test', 2); chain('t/b/y/z/test', 3); chain('t/c/y/test', 4)
an = plots.MCSampleAnalysis(d + '/t', settings={'ignore_rows': 0})
assert first(an.samples_for_root('a/x/test')) == 100 and first(an.samples_for_root('b/x/test')) == 200
chain('u/a/x/test', 1); chain('u/b/x/test', 2); chain('u/c/y/test', 3); chain('u/d/e/test', 4)
an = plots.MCSampleAnalysis(d + '/u', settings={'ignore_rows': 0})
assert first(an.samples_for_root('a/x/test')) == 100 and first(an.samples_for_root('b/x/test')) == 200
''')
seed('tree-first-like', 'C28', 'a name with its parts in another order that fits two chains of a tree',
     'one of the chains is taken where the name is ambiguous',
     [(CG, "                if len(items) == 1:\n                    return items[0]\n", "                if len({i.chainPath for i in items}) == 1:\n                    return items[0]\n")],
     HEAD + '''
chain('t/a/base_u_v', 1); chain('t/a/base_v_u', 2)
an = plots.MCSampleAnalysis(d + '/t', settings={'ignore_rows': 0})
try:
    s = an.samples_for_root('u_base_v')
except ValueError:
    s = None
assert s is None
''')
