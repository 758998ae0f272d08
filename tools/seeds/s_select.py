BJ = 'python/paramgrid/batchjob.py'
BA = 'python/paramgrid/batchjob_args.py'
HEAD = '''
import os, sys, time, subprocess
import types
import getdist
getdist.cache_dir = ''
from paramgrid import batchjob, gridconfig, batchjob_args
os.makedirs('ini')
open('set.py', 'w').close()
REPO = batchjob.getCodeRootPath()
def grid(imps, data=(['a'],), **kw):
    g = batchjob.jobGroup('g')
    g.params, g.datasets, g.importanceRuns = [[]], [batchjob.dataSet(d, []) for d in data], [(i, []) for i in imps]
    b = gridconfig.makeGrid('grid', settings=types.SimpleNamespace(__file__='set.py', groups=[g], ini_dir=os.path.relpath('ini', REPO) + '/', defaults=[], importanceDefaults=[], **kw))
    return {x.name: x for x in b.items(wantImportance=True)}
def put(f, txt, age=0):
    os.makedirs(os.path.dirname(f), exist_ok=True)
    with open(f, 'w') as h: h.write(txt)
    os.utime(f, (time.time() - age,) * 2)
def select(*args):
    o = batchjob_args.batchArgs('x')
    o.parseForBatch(['grid'] + list(args))
    return [x.name for x in o.filteredBatchItems()]
def submits(*args):
    pre = 'import sys, getdist; getdist.cache_dir = ""; import runpy; sys.argv[:] = sys.argv[1:]; runpy.run_path(sys.argv[0], run_name="__main__")'
    out = subprocess.check_output([sys.executable, '-c', pre, REPO + 'python/runbatch.py', 'grid', '--dryrun', '--nodes', '1', '--chainsPerNode', '1', '--coresPerNode', '4'] + list(args)).decode()
    return [os.path.basename(l[4:].strip()) for l in out.split('\\n') if l.startswith('... ')]
open('job_script', 'w').write('##COMMAND##')
os.makedirs('scripts')
'''
seed('importance-by-data', 'C20', 'importance sampled runs of importance sampled runs, selected by the importance data',
     'runs are selected for --importance by any of their data, also that of the run they start from',
     [(BA, "if x in jobItem.data_set.importanceNames]))", "if x in jobItem.data_set.names]))")],
     HEAD + '''
class F(batchjob.importanceFilter): pass
grid([['b'], ['c']], importance_filters=[F(['f'])])
assert select('--importance', 'f') == ['base_a_post_f', 'base_a_post_b_f', 'base_a_post_c_f'] or sorted(select('--importance', 'f')) == ['base_a_post_b_f', 'base_a_post_c_f', 'base_a_post_f']
assert select('--importance', 'b') == ['base_a_post_b'], select('--importance', 'b')
''')
seed('notall-counts-empty', 'C20', 'a run one of whose later chain files was made but has nothing in it',
     '--notall counts chain files without content as chains that exist, so the run is not submitted',
     [(BJ, "        return all([self.chainExists(i + 1) for i in range(num_chains)])", "        return self.chainExists() and all([os.path.exists(self.chainName(i + 1)) for i in range(num_chains)])")],
     HEAD + '''
x = grid([])['base_a']
put(x.chainName(1), '1 2 3\\n')
assert submits('--notall', '2') == ['base_a']
put(x.chainName(2), '1 2 3\\n')
assert submits('--notall', '2') == []
put(x.chainName(2), '')
assert submits('--notall', '2') == ['base_a'], submits('--notall', '2')
''')
seed('second-line-done', 'C20', 'a run whose convergence file has a second line that does not say that it is done',
     'a stopped run is taken as finished if its convergence file has any second line, so it is not continued',
     [(BJ, "len(textFileLines) > 1 and textFileLines[1].strip() == 'Done'", "len(textFileLines) > 1")],
     HEAD + '''
x = grid([])['base_a']
put(x.chainName(1), '1 2 3\\n', 1000)
put(x.chainRoot + '_1.chk', 'x')
put(x.chainRoot + '.converge_stat', '0.03\\n')
assert submits('--checkpoint_run') == ['base_a']
put(x.chainRoot + '.converge_stat', '0.03\\nDone\\n')
assert submits('--checkpoint_run') == []
put(x.chainRoot + '.converge_stat', '0.03\\n\\n')
assert submits('--checkpoint_run') == ['base_a'], submits('--checkpoint_run')
''')
seed('skip-param-all', 'C20', 'more than one parameter to skip',
     'only runs with all of the parameters to skip are skipped',
     [(BJ, "            return any([True for i in name if i in self.param_set])", "            return len(name) == len([True for i in name if i in self.param_set])")],
     HEAD + '''
g = batchjob.jobGroup('g')
g.params, g.datasets = [[], ['p'], ['q'], ['p', 'q']], [batchjob.dataSet(['a'], [])]
gridconfig.makeGrid('grid', settings=types.SimpleNamespace(__file__='set.py', groups=[g], ini_dir=os.path.relpath('ini', REPO) + '/', defaults=[], importanceDefaults=[], params={'p': '1 0 2 1 1', 'q': '2 0 3 1 1'}, param_extra_opts={}))
assert select('--skip_param', 'p') == ['base_a', 'base_q_a']
assert select('--skip_param', 'p', 'q') == ['base_a'], select('--skip_param', 'p', 'q')
''')
