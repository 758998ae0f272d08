JQ = 'python/paramgrid/jobqueue.py'
HEAD = '''
import os, sys, stat
os.makedirs('bin'); os.makedirs('scripts')
def cmd(name, txt):
    with open('bin/' + name, 'w') as f: f.write('#!/bin/sh\\n' + txt)
    os.chmod('bin/' + name, 0o755)
D = os.getcwd()
os.environ['PATH'] = D + '/bin:/usr/bin:/bin'
os.environ['USER'] = 'me'
for k in list(os.environ):
    if k.startswith('COSMOMC_'): del os.environ[k]
cmd('qsub', 'read n < %s/n; echo $((n+1)) > %s/n; echo $n%s\\n' % (D, D, os.environ.get('SUF', '')))
cmd('qstat', 'cat %s/list\\n' % D)
cmd('qdel', 'echo $1 >> %s/deleted\\n' % D)
open('n', 'w').write('101\\n')
open('deleted', 'w').close()
def listing(*jobs):
    with open('list', 'w') as f:
        f.write('srv:\\nJob ID  Username Queue Name NDS S Time\\n-----\\n')
        for i, st in jobs: f.write('%s  me  batch  x 1 %s 00:01\\n' % (i, st))
listing()
open('job_script', 'w').write('RUNS=##NUMRUNS## OMP=##OMP## PPN=##PPN## TASKS=##NUMTASKS##\\n##COMMAND##\\nwait\\n')
from paramgrid import jobqueue
kw = dict(coresPerNode=8, chainsPerNode=2, nodes=2)
'''
seed('seq-resources', 'C16', 'several runs submitted one after another in one job',
     'a job whose runs are to be done one after another is submitted with the resources of simultaneous runs',
     [(JQ, "    j.runsPerJob = (len(paramFiles), 1)[sequential]", "    j.runsPerJob = len(paramFiles)")],
     HEAD + '''
jobqueue.submitJob('two', ['a', 'b'], runsPerJob=2, **kw)
assert open('scripts/two_subscript').read().split('\\n')[0] == 'RUNS=2 OMP=2 PPN=8 TASKS=8'
jobqueue.submitJob('seq', ['a', 'b'], sequential=True, runsPerJob=2, **kw)
assert open('scripts/seq_subscript').read().split('\\n')[0] == 'RUNS=1 OMP=4 PPN=8 TASKS=4', open('scripts/seq_subscript').read()
''')
seed('listed-id-form', 'C16', 'a batch system whose listing gives job ids with the server name while the submission gives the number',
     'queued jobs are not recognised as such if the id is listed with the name of the server',
     [(JQ, "                if len(jobId) == 1 or jobId[0].isdigit():\n                    jobId = jobId[0]\n                else:\n                    jobId = jobId[1]",
           "                if len(jobId) == 1:\n                    jobId = jobId[0]\n                else:\n                    jobId = jobId[1]")],
     HEAD + '''
jobqueue.submitJob('a', 'a', **kw)
listing(('101', 'R'))
assert jobqueue.queue_job_names(running=True) == ['a']
listing(('101.srv', 'Q'))
assert jobqueue.queue_job_names() == ['a'], jobqueue.queue_job_names()
''')
seed('queued-by-case', 'C16', 'asking for only the queued jobs, with running ones that are listed in upper case',
     'running jobs listed with state R are also reported as queued',
     [(JQ, "(queued and not re.search(runningTxt, line, re.IGNORECASE)", "(queued and not re.search(runningTxt, line)")],
     HEAD + '''
jobqueue.submitJob('a', 'a', **kw)
jobqueue.submitJob('b', 'b', **kw)
listing(('101', 'R'), ('102', 'Q'))
assert jobqueue.queue_job_names(running=True, queued=True) == ['a', 'b']
assert jobqueue.queue_job_names(running=True, queued=False) == ['a']
assert jobqueue.queue_job_names(running=False, queued=True) == ['b'], jobqueue.queue_job_names(running=False, queued=True)
''')
seed('name-of-first-job', 'C16', 'a run submitted again, and then deleted by its name',
     'the name of a run leads to the first of its jobs instead of the last',
     [(JQ, "            self.rootNames[name] = j.jobId\n", "            self.rootNames.setdefault(name, j.jobId)\n")],
     HEAD + '''
jobqueue.submitJob('a', 'a', **kw)
jobqueue.submitJob('a', 'a', **kw)
listing(('101', 'R'), ('102', 'Q'))
jobqueue.deleteJobs(None, rootNames=['a'])
assert open('deleted').read().split() == ['102'], open('deleted').read()
''')
CRASH = HEAD + '''
import resource, signal
def job(k):
    j = jobqueue.jobSettings.__new__(jobqueue.jobSettings)
    j.jobId, j.jobName, j.names, j.pad = str(k), 'j%d' % k, ['r%d' % k], 'x' * 50000
    return j
def child(f, lim=None):
    pid = os.fork()
    if not pid:
        try:
            if lim is not None:
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE, (lim, lim))
            f()
        except BaseException:
            os._exit(1)
        os._exit(0)
    return os.waitpid(pid, 0)[1]
def ids():
    return list(jobqueue.loadJobIndex(None).jobSequence)
for k in (1, 2): assert child(lambda: jobqueue.addJobIndex(None, job(k))) == 0
assert ids() == ['1', '2']
'''
seed('tmp-index-used', 'C17', 'an index update that fails while writing, and then a query',
     'after an interrupted update the incomplete temporary file is taken for the index',
     [(JQ, "    fileName = os.path.join(batchPath, 'jobIndex.pyobj')\n    if os.path.exists(fileName):",
           "    fileName = os.path.join(batchPath, 'jobIndex.pyobj')\n    # update that was interrupted before moving into place\n    if os.path.exists(fileName + '_tmp'): fileName += '_tmp'\n    if os.path.exists(fileName):")],
     CRASH + '''
assert child(lambda: jobqueue.addJobIndex(None, job(3)), 70000) != 0
assert ids() == ['1', '2']
''')
seed('tmp-index-appended', 'C17', 'an index update that fails while writing, and then another update',
     'the next update after an interrupted one writes after the remains of the temporary file, so the index is lost',
     [(JQ, "    with open(fname + '_tmp', 'wb') as output:", "    with open(fname + '_tmp', 'ab') as output:")],
     CRASH + '''
assert child(lambda: jobqueue.addJobIndex(None, job(3)), 70000) != 0
assert ids() == ['1', '2']
assert child(lambda: jobqueue.addJobIndex(None, job(3))) == 0
assert ids() == ['1', '2', '3']
''')
