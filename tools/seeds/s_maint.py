HEAD = '''
import os, sys, time, subprocess
import types
import getdist
getdist.cache_dir = ''
from getdist import IniFile, paramnames
from paramgrid import batchjob, gridconfig
os.makedirs('ini')
open('set.py', 'w').close()
REPO = batchjob.getCodeRootPath()
def grid(imps, data=(['a'],), **kw):
    g = batchjob.jobGroup('g')
    g.params, g.datasets, g.importanceRuns = [[]], [batchjob.dataSet(d, []) for d in data], [(i, []) for i in imps]
    gridconfig.makeGrid('grid', settings=types.SimpleNamespace(__file__='set.py', groups=[g], ini_dir=os.path.relpath('ini', REPO) + '/', defaults=[], importanceDefaults=[], **kw))
def put(f, txt):
    os.makedirs(os.path.dirname(f), exist_ok=True)
    with open(f, 'w') as h: h.write(txt)
def run(script, *args):
    pre = 'import sys, getdist; getdist.cache_dir = ""; import runpy; sys.argv[:] = sys.argv[1:]; runpy.run_path(sys.argv[0], run_name="__main__")'
    return subprocess.check_output([sys.executable, '-c', pre, REPO + 'python/' + script, 'grid'] + list(args)).decode()
def lines(n): return ''.join('%d 1 2\\n' % i for i in range(n))
'''
seed('empty-is-small', 'C21', 'clean-up of empty files with small files that are not empty',
     'clean-up of empty files also deletes files of less than 1 KB',
     [('python/cleanup.py', "if not args.empty or os.path.getsize(fname) == 0:", "if not args.empty or os.path.getsize(fname) // 1024 == 0:")],
     HEAD + '''
grid([])
put('grid/base/a/base_a_1.txt', '')
put('grid/base/a/base_a.minimum', 'x' * 2000)
run('cleanup.py', '--empty', '--confirm')
assert not os.path.exists('grid/base/a/base_a_1.txt') and os.path.exists('grid/base/a/base_a.minimum')
put('grid/base/a/base_a_1.txt', '')
put('grid/base/a/base_a.paramnames', 'x\\n')
run('cleanup.py', '--empty', '--confirm')
assert not os.path.exists('grid/base/a/base_a_1.txt') and os.path.exists('grid/base/a/base_a.paramnames')
''')
seed('properties-overwritten', 'C21', 'copying chains with burn in removed, for a run that already has a properties file',
     'the properties file of the copy is the original one, so that burn in is removed again from chains it was removed from',
     [('python/copyGridFiles.py', "                if doneProperties and '.properties.ini' in f: continue\n", "                if doneProperties and f == '.properties.ini': continue\n")],
     HEAD + '''
grid([])
put('grid/base/a/base_a_1.txt', lines(8))
run('copyGridFiles.py', 'out', '--chains', '--remove_burn_fraction', '0.25')
assert IniFile('out/base/a/base_a.properties.ini').bool('burn_removed') and open('out/base/a/base_a_1.txt').read().split()[0] == '2'
put('grid/base/a/base_a.properties.ini', 'note = x\\n')
run('copyGridFiles.py', 'out2', '--chains', '--remove_burn_fraction', '0.25')
i = IniFile('out2/base/a/base_a.properties.ini')
assert i.string('note') == 'x' and i.bool('burn_removed', False)
''')
seed('burn-importance', 'C21', 'copying importance sampled chains with removal of burn in',
     'rows are removed as burn in from importance sampled chains',
     [('python/copyGridFiles.py', "hasBurn = not jobItem.isImportanceJob and not jobItem.isBurnRemoved()", "hasBurn = not jobItem.isBurnRemoved()")],
     HEAD + '''
grid([['b']])
put('grid/base/a/base_a_1.txt', lines(8))
put('grid/base/a/base_a_post_b_1.txt', lines(8))
run('copyGridFiles.py', 'out', '--chains', '--remove_burn_fraction', '0.5')
assert len(open('out/base/a/base_a_1.txt').readlines()) == 4
assert len(open('out/base/a/base_a_post_b_1.txt').readlines()) == 8
''')
seed('rename-one-by-one', 'C21', 'parameter names exchanged, or one renamed to the old name of another',
     'a parameter that is renamed to the old name of another one is renamed again',
     [('python/renameParam.py', "            for p in names.names:\n                new = mapper.get(p.name, None)\n                if new:\n                    p.name, lab = new\n                    if lab is not None: p.label = lab\n                    has = True",
       "            for old, (new, lab) in mapper.items():\n                for p in names.names:\n                    if p.name != old: continue\n                    p.name = new\n                    if lab is not None: p.label = lab\n                    has = True")],
     HEAD + '''
grid([])
f = 'grid/base/a/base_a.paramnames'
put(f, 'a\\tA\\nb\\tB\\nc*\\tC\\n')
run('renameParam.py', '--confirm', '--old_new', 'c', 'd')
assert paramnames.ParamNames(f).list() == ['a', 'b', 'd']
run('renameParam.py', '--confirm', '--old_new', 'a', 'b', 'b', 'a')
p = paramnames.ParamNames(f)
assert p.list() == ['b', 'a', 'd'] and [x.label for x in p.names] == ['A', 'B', 'C'], p.list()
''')
