"""C16, C17: job submission and the job index; bound to spec/Jobs.tla, spec/JobCrash.tla"""
import contextlib
import ctypes
import io
import os
import random
import re
import resource
import runpy
import shutil
import sys
import types as pytypes

import numpy as np
from getdist import IniFile
from paramgrid import jobqueue, gridconfig
from harness.core import Check, behaviours, SCRATCH, REPO, BAD
from harness.p_ini import pmap, tmpdir, sample, quiet

RESKEYS = ['NUMNODES', 'NUMRUNS', 'OMP', 'NUMMPI', 'CHAINSPERNODE', 'MPIPERNODE', 'PPN', 'NUMTASKS', 'NUMSLOTS', 'ONERUN', 'MEM']
ITEMS = ['base_d1', 'base_mnu_d1', 'base_d2', 'base_mnu_d2']     # in the order of the grid
ENVKEYS = ['nodes', 'chainsPerNode', 'coresPerNode', 'runsPerJob', 'mem_per_node', 'walltime', 'queue', 'program', 'qsub', 'qdel', 'job_template', 'GridEngine', 'jobclass']
FLAV = ['pbs', 'ogs', 'moab']


def num(s):
    m = re.search(r'\d+', s)
    return int(m.group(0)) if m else BAD


class W:
    """a scratch directory with a stand-in for the batch system"""

    def __init__(self, rng, grid=False):
        self.rng = rng
        self.d = tmpdir(rng)
        self.cwd, self.env = os.getcwd(), dict(os.environ)
        self.fl = rng.choice(FLAV)
        # form of the job ids: as the submission command gives them, and as in listings
        self.idform, self.listform = rng.choice({'pbs': [('%d.srv', '%d.srv'), ('%d', '%d'), ('%d', '%d.srv'), ('%d.srv.host', '%d.srv.host')], 'ogs': [('%d', '%d')],
                                                 'moab': [('%d', '%d'), ('Moab.%d', 'Moab.%d'), ('%d', 'moab.%d')]}[self.fl])
        b = self.path('bin')
        os.makedirs(b)
        sub, stat, dele = ('msub', 'showq', 'canceljob') if self.fl == 'moab' else ('qsub', 'qstat', 'qdel')
        self.script(b, sub, 'read n < %(d)s/n; n=$((n+1)); echo $n > %(d)s/n\nfor a; do s=$a; done\ncat "$s" > %(d)s/call_$n\n'
                            '[ -f %(d)s/reply_$n ] && cat %(d)s/reply_$n\nread rc < %(d)s/rc; exit $rc\n')
        self.script(b, stat, 'if [ "$1" = -help ]; then echo "%s"; exit 0; fi\ncat %%(d)s/listing\n' % ('OGS/GE 2011' if self.fl == 'ogs' else 'usage'))
        self.script(b, dele, 'echo "$@" >> %(d)s/cancelled\n')
        self.put('n', '0\n')
        self.put('rc', '0\n')
        self.calls = 0
        self.queue, self.next = [], rng.choice([101, 998, 1])
        self.ids = {}
        os.environ['PATH'] = b + ':/usr/bin:/bin'
        os.environ['USER'] = 'tester'
        os.environ.pop('SGE_CLUSTER_NAME', None)
        for k in ENVKEYS:
            os.environ.pop('COSMOMC_' + k, None)
        os.makedirs(self.path('work/scripts'))
        os.chdir(self.path('work'))
        self.bp = rng.choice([None, self.path('grid')])
        os.makedirs(self.path('grid'))
        self.grid = grid
        if grid:
            self.make_grid()

    def make_grid(self):
        st = self.path('vset.py')
        self.put('vset.py', '#')
        g = pytypes.SimpleNamespace(params=[[], ['mnu']], groupName='main', importanceRuns=[], datasets=[gridconfig.batchjob.dataSet(d) for d in ('d1', 'd2')])
        with quiet():
            gridconfig.makeGrid(self.path('grid'), settings=pytypes.SimpleNamespace(__file__=st, ini_dir='batch3/', groups=[g], defaults=[], importanceDefaults=[]))
        self.bp = self.path('grid') + self.rng.choice(['', '/'])

    def path(self, f):
        return os.path.join(self.d, f)

    def put(self, f, txt):
        with open(self.path(f), 'w') as h:
            h.write(txt)

    def script(self, b, name, txt):
        with open(os.path.join(b, name), 'w') as h:
            h.write('#!/bin/sh\n' + txt % dict(d=self.d))
        os.chmod(os.path.join(b, name), 0o755)

    def close(self):
        os.chdir(self.cwd)
        os.environ.clear()
        os.environ.update(self.env)
        shutil.rmtree(self.d)

    # --- the batch system
    def listing(self):
        rng, l = self.rng, []
        if self.fl == 'moab':
            l = ['', 'active jobs' + '-' * 24, 'JOBID   USERNAME  STATE PROCS  REMAINING  STARTTIME', '']
        elif self.fl == 'ogs':
            l = ['job-ID  prior   name  user  state submit/start at  queue slots', '-' * 60]
        else:
            l = ['', 'srv: ', "                      Req'd  Req'd   Elap", 'Job ID    Username Queue  Jobname  SessID NDS TSK Memory Time S Time', '-' * 60]
        for q in self.queue:
            i = q['list']
            st = {'moab': {'R': 'Running', 'Q': rng.choice(['Idle', 'Hold'])}, 'ogs': {'R': 'r', 'Q': rng.choice(['qw', 'hqw'])}, 'pbs': {'R': 'R', 'Q': rng.choice(['Q', 'H'])}}[self.fl][q['st']]
            if self.fl == 'moab':
                l.append('%-14s %s  %s   8  1:02:03  Tue Nov 17 01:02:03' % (i, q['user'], st))
            elif self.fl == 'ogs':
                l.append('%7s 0.55 run_x  %s  %s   11/17/2026 01:02:03 all@h 8' % (i, q['user'], st))
            else:
                l.append('%s    %s  batch  run_x  1234 1 8  --  24:00 %s 01:02' % (i, q['user'], st))
        if self.fl == 'moab':
            l += ['', '2 active jobs', 'Total jobs:  %d' % len(self.queue)]
        self.put('listing', '\n'.join(l) + '\n')

    def env_event(self, act):
        """act: function changing self.queue"""
        act()
        return dict(op='env', queue=[dict(id=q['id'], st=q['st'], own=q['user'] == 'tester') for q in self.queue], obs=dict(err=False, index=self.index()))

    def newid(self):
        n = self.next
        self.next += 1
        return n, self.idform % n

    def index(self):
        try:
            r = self.read_index()
            if not all(isinstance(x, str) for x in r['seq'] + r['ids'] + [j['name'] for j in r['jobs']] + [y for j in r['jobs'] for y in j['roots']] +
                       [x[k] for x in r['names'] + r['roots'] for k in ('n', 'id')]):
                raise TypeError('not text')
            return r
        except Exception as ex:
            return dict(seq=['unreadable: %s' % ex], ids=[], names=[], roots=[], jobs=[])

    def read_index(self):
        ix = jobqueue.loadJobIndex(self.bp)
        return dict(seq=list(ix.jobSequence), ids=sorted(ix.jobSettings), names=[dict(n=k, id=v) for k, v in sorted(ix.jobNames.items())],
                    roots=[dict(n=k, id=v) for k, v in sorted(ix.rootNames.items())],
                    jobs=[dict(id=k, name=j.jobName, roots=list(j.names)) for k, j in sorted(ix.jobSettings.items())])

    # --- submission
    def resources(self, n, bad=False):
        """how the resources are given: dict of [argument, template, environment, default]"""
        rng = self.rng
        chains = rng.choice([1, 2, 3, 4])
        per = rng.choice([p for p in (1, 2, 3, 4) if p >= n])
        r = dict(nodes=rng.choice([1, 2, 3]), chains=chains, cores=chains * per * rng.choice([1, 2, 3]), perjob=per, mem=rng.choice([1000, 64000]))
        if bad:
            r['perjob'] = per = max(per, 2)
            r['cores'] = chains * per * rng.choice([1, 2]) + rng.choice([k for k in range(1, chains * per)])
        src = {}
        default = dict(nodes=-1, chains=-1, cores=-1, perjob=1, mem=63900)
        for k, v in r.items():
            l = [-1, -1, -1, default[k]]
            if v == default[k] and rng.random() < 0.5:
                src[k] = l
                continue
            w = rng.randrange(3)
            l[w] = v
            for j in range(w + 1, 3):
                if rng.random() < 0.4:
                    l[j] = rng.choice([1, 2, 7, 512])
            src[k] = l
        txt = {}
        for k, opts, d in (('prog', ['./cosmomc', './other', 'python x.py'], './cosmomc'), ('wall', ['24:00:00', '01:00', '2-12'], '24:00:00'), ('que', ['', 'long', 'short'], '')):
            l = ['', '', '', d]
            for j in range(3):
                if rng.random() < 0.3:
                    l[j] = rng.choice([o for o in opts if o])
            txt[k] = l
        return src, txt

    ARG = dict(nodes='nodes', chains='chainsPerNode', cores='coresPerNode', perjob='runsPerJob', mem='mem_per_node', prog='program', wall='walltime', que='queue')

    def template(self, src, txt):
        """writes the job template, sets the environment; returns the keyword arguments"""
        rng = self.rng
        kw, lines = {}, ['#!/bin/sh']
        for k in ENVKEYS:
            os.environ.pop('COSMOMC_' + k, None)
        for k, l in list(src.items()) + list(txt.items()):
            none = -1 if k in src else ''
            if l[0] != none:
                kw[self.ARG[k]] = l[0]
            elif rng.random() < 0.5:
                kw[self.ARG[k]] = None
            if l[1] != none:
                lines.append('##DEFAULT_%s:%s%s##' % (self.ARG[k], rng.choice(['', ' ']), l[1]))
            if l[2] != none:
                os.environ['COSMOMC_' + self.ARG[k]] = str(l[2])
        if rng.random() < 0.5:
            lines.append('##RUN: time mpirun -np ##NUMMPI## ##PROGRAM## ##INI## > ./scripts/##INIBASE##.ini.log 2>&1##')
        lines += ['%s=##%s##' % (k, {'MEM': 'MEM_MB'}.get(k, k)) for k in RESKEYS] + ['WALL=##WALLTIME##', 'QUEUE=##QUEUE##', 'JOBNAME=##JOBNAME##', 'cd ##ROOTDIR##']
        lines += ['#BEGIN', '##COMMAND##', '#END', 'wait']
        f = rng.choice(['job_script', 'tmpl/my.job'])
        os.makedirs('tmpl', exist_ok=True)
        with open(f, 'w', newline=rng.choice(['\n', '\r\n'])) as h:
            h.write('\n'.join(lines) + '\n')
        if f != 'job_script':
            if rng.random() < 0.5:
                kw['job_template'] = f
            else:
                os.environ['COSMOMC_job_template'] = f
        return kw

    def parse(self, fname):
        lines = open(fname).read().split('\n')
        val = dict(l.split('=', 1) for l in lines if re.match(r'^[A-Z]+=', l))
        a, b = lines.index('#BEGIN'), lines.index('#END')
        cmds = []
        for l in lines[a + 1:b]:
            if not l.strip():
                continue
            m = re.match(r'^time mpirun -np (\d+) (.*) (\S+) > \./scripts/(\S+)\.ini\.log 2>&1\s*(&?)\s*$', l)
            if not m:
                cmds.append(dict(np=BAD, prog='', ini=l, base='', bg=False))
            else:
                cmds.append(dict(np=int(m.group(1)), prog=m.group(2), ini=m.group(3), base=m.group(4), bg=m.group(5) == '&'))
        res = {k: (int(val[k]) if re.match(r'^-?\d+$', val.get(k, '')) else BAD) for k in RESKEYS}
        return dict(cmds=cmds, res=res, wall=val.get('WALL', '?'), queue=val.get('QUEUE', '?'), jobname=val.get('JOBNAME', '?'))

    def reply(self, k, sid):
        self.put('reply_%d' % k, {'ogs': 'Your job %s ("x") has been submitted\n', 'moab': '\n%s\n', 'pbs': '%s\n'}[self.fl] % sid)

    def ncalls(self):
        return int(open(self.path('n')).read())

    def submit(self, name, roots, kind='ok', seq=None):
        rng = self.rng
        if seq is None:
            seq = rng.random() < 0.25
        src, txt = self.resources(1 if seq else len(roots), kind == 'bad')
        kw = self.template(src, txt)
        inis = [rng.choice(['', 'iniFiles/', 'a.ini.d/', self.d + '/ini/']) + r for r in roots]
        files = [x + rng.choice(['', '.ini']) for x in inis]
        n, sid = self.newid()
        e = dict(op='submit', name=name, roots=list(roots), inis=[x + '.ini' for x in inis], seq=seq, kind=kind, id=sid, num=n, res=src, **txt)
        if kind in ('nosub', 'dry'):
            kw[{'nosub': 'no_sub', 'dry': 'dryrun'}[kind]] = True
        if kind == 'ok':
            self.reply(self.calls + 1, sid)
        self.put('rc', '1\n' if kind == 'fail' else '0\n')
        for f in os.listdir('scripts'):
            if f.endswith('_subscript'):
                os.remove('scripts/' + f)
        self.listing()
        o = dict(err=False, subs=[])
        if self.bp is not None or rng.random() < 0.5:
            kw['batchPath'] = self.bp
        given = list(files)
        try:
            with quiet():
                if seq or rng.random() < 0.3:
                    kw['sequential'] = seq
                jobqueue.submitJob(name, files[0] if len(files) == 1 and rng.random() < 0.5 else files, **kw)
        except Exception as ex:
            o['err'] = True
            o['exc'] = '%s: %s' % (type(ex).__name__, ex)
        if files != given:
            o['err'] = True
        o['called'] = self.ncalls() > self.calls
        self.calls = self.ncalls()
        if o['called'] and kind != 'fail':
            o['subs'] = [self.parse(self.path('call_%d' % self.calls))]
        elif kind == 'nosub' and os.path.exists('scripts/%s_subscript' % name):
            o['subs'] = [self.parse('scripts/%s_subscript' % name)]
        o['index'] = self.index()
        e['obs'] = o
        if kind == 'ok' and not o['err']:
            self.queue.append(dict(id=sid, num=n, list=self.listform % n, st='Q', user='tester'))
        return e

    def run_script(self, name, args):
        out = io.StringIO()
        argv, path = sys.argv, list(sys.path)
        sys.argv = [name] + [str(a) for a in args]
        try:
            with contextlib.redirect_stdout(out):
                runpy.run_path(os.path.join(REPO, 'python', name), run_name='__main__')
        finally:
            sys.argv, sys.path[:] = argv, path
        return out.getvalue()

    # --- deleting
    def delete(self, e, how='api'):
        rng = self.rng
        self.listing()
        self.put('cancelled', '')
        o = dict(err=False)
        if how == 'api':
            kw = dict()
            if e['ids']:
                kw['jobIds'] = e['ids'][0] if len(e['ids']) == 1 and rng.random() < 0.3 else list(e['ids'])
            if e['roots']:
                kw['rootNames'] = e['roots'][0] if len(e['roots']) == 1 and rng.random() < 0.3 else rng.choice([list, set])(e['roots'])
            if e['names']:
                kw['jobNames'] = e['names'][0] if len(e['names']) == 1 and rng.random() < 0.3 else list(e['names'])
            if e['byrange']:
                if e['mx'] >= 10 ** 8:
                    kw['jobId_min'] = e['mn']
                else:
                    kw['jobId_minmax'] = [e['mn'], e['mx']]
            for k in ('confirm', 'running', 'queued'):
                if e[k] != (k == 'confirm') or rng.random() < 0.2:
                    kw[k] = e[k]
            given = list(kw.get('jobIds', []))
            try:
                with quiet():
                    if e['roots'] and list(kw) == ['rootNames'] and rng.random() < 0.4:
                        jobqueue.deleteRootNames(self.bp, kw['rootNames'])
                    else:
                        jobqueue.deleteJobs(self.bp, **kw)
            except Exception as ex:
                o['err'] = True
                o['exc'] = '%s: %s' % (type(ex).__name__, ex)
            if list(kw.get('jobIds', [])) != given:
                o['err'] = True
        else:
            args = [self.bp]
            if e['byrange']:
                if e['mx'] >= 10 ** 8:
                    args += ['--delete_id_min', e['mn']]
                elif how == 'ids':
                    args += ['--delete_ids'] + list(range(e['mn'], e['mx'] + 1))
                else:
                    args += ['--delete_id_range', e['mn'], e['mx']]
            else:
                args += ['--name'] + [r for r in e['roots'] if not r.endswith('_minimize')]
            args += ['--' + k for k in ('confirm', 'running', 'queued') if e[k]]
            try:
                self.run_script('deleteJobs.py', args)
            except (Exception, SystemExit) as ex:
                o['err'] = True
                o['exc'] = '%s: %s' % (type(ex).__name__, ex)
        got = [num(l) for l in open(self.path('cancelled')).read().split('\n') if l.strip()]
        o['cancelled'] = sorted(got)
        self.queue = [q for q in self.queue if q['num'] not in got]
        o['index'] = self.index()
        return dict(e, op='delete', obs=o)

    def query(self):
        rng = self.rng
        self.listing()
        e = dict(op=rng.choice(['query', 'query', 'qnames'] + (['running'] if self.grid else [])), running=rng.random() < 0.7, queued=rng.random() < 0.7, all=True, items=[])
        o = dict(err=False, lids=[], lnames=[], lroots=[])
        try:
            with quiet():
                if e['op'] == 'query':
                    if e['running'] and e['queued'] and rng.random() < 0.5:
                        r = jobqueue.queue_job_details(self.bp)
                    else:
                        r = jobqueue.queue_job_details(self.bp, running=e['running'], queued=e['queued'], warnNotBatch=rng.random() < 0.5)
                    o['lids'], o['lnames'], o['lroots'] = list(r[0]), list(r[1]), [list(x) for x in r[2]]
                elif e['op'] == 'qnames':
                    o['lroots'] = list(jobqueue.queue_job_names(self.bp, running=e['running'], queued=e['queued']))
                else:
                    if not e['running'] and not e['queued']:
                        e['running'] = e['queued'] = True
                    args = [] if self.bp is None else [self.bp]
                    if self.bp is not None:
                        e['all'] = False
                        it = ITEMS
                        if rng.random() < 0.5:
                            it = rng.sample(ITEMS, rng.randint(1, 2))
                            args += ['--name'] + it
                        e['items'] = [x + v for x in it for v in ('', '_minimize')]
                    if not (e['running'] and e['queued']):
                        args += ['--running' if e['running'] else '--queued']
                    byl = {q['list']: q['id'] for q in self.queue}
                    out = self.run_script('runningJobs.py', args)
                    o['lids'] = [byl.get(l.split()[0], l.split()[0]) for l in out.split('\n') if ' |' in l]
        except (Exception, SystemExit) as ex:
            o['err'] = True
            o['exc'] = '%s: %s' % (type(ex).__name__, ex)
        o['index'] = self.index()
        e['obs'] = o
        return e

    def runbatch(self):
        rng = self.rng
        items = ITEMS if rng.random() < 0.5 else [x for x in ITEMS if rng.random() < 0.5] or ITEMS[:1]
        mini = rng.random() < 0.3
        per = rng.choice([1, 1, 2, 3])
        src, txt = self.resources(per)
        src['perjob'] = [per, -1, -1, 1]
        ch = src['chains']
        src['cores'] = [next(v for v in ch if v != -1) * per * rng.choice([1, 2]), -1, -1, -1]
        kw = self.template(src, txt)
        comb = rng.choice(['', '', 'combined'])
        new = [self.newid() for _ in range(4)]
        e = dict(op='runbatch', items=[x + ('_minimize' if mini else '') for x in items], per=per, comb=comb, notq=rng.random() < 0.5, mini=mini, ids=[s for _, s in new],
                 nums=[n for n, _ in new], dir=os.path.join(self.bp, '') + 'iniFiles/', res=src, **txt)
        args = [self.bp, '--runsPerJob', per]
        if items != ITEMS or rng.random() < 0.3:
            args += ['--name'] + rng.sample(items, len(items))
        for k, v in kw.items():
            if v is not None and k != 'runsPerJob':
                args += ['--' + k, v]
        args += ['--minimize'] * mini + ['--not_queued'] * e['notq'] + (['--combineOneJobName', comb] if comb else [])
        for k, (_, s) in enumerate(new):
            self.reply(self.calls + 1 + k, s)
        self.put('rc', '0\n')
        self.listing()
        o = dict(err=False, subs=[])
        try:
            self.run_script('runbatch.py', args)
        except (Exception, SystemExit) as ex:
            o['err'] = True
            o['exc'] = '%s: %s' % (type(ex).__name__, ex)
        for k in range(self.calls + 1, self.ncalls() + 1):
            o['subs'].append(self.parse(self.path('call_%d' % k)))
        for (n, s), _ in zip(new, o['subs']):
            self.queue.append(dict(id=s, num=n, list=self.listform % n, st='Q', user='tester'))
        for k in range(4):
            f = self.path('reply_%d' % (self.ncalls() + 1 + k))
            if os.path.exists(f):
                os.remove(f)
        self.calls = self.ncalls()
        o['index'] = self.index()
        e['obs'] = o
        return e




def model_scenario(args):
    b, seed = args
    rng = random.Random(seed)
    w = W(rng)
    try:
        out, ids, k = [dict(op='start')], {}, 0
        base = w.next
        for e in b['ops']:
            if e['op'] == 'submit':
                out.append(w.submit(e['name'], e['roots']))
                ids[['101', '102', '103'][k]] = out[-1]['id']
                k += 1
            elif e['op'] in ('start', 'finish'):
                q = next((q for q in w.queue if q['id'] == ids[e['id']]), None)
                if q is None:
                    break

                def act():
                    if e['op'] == 'start':
                        q['st'] = 'R'
                    else:
                        w.queue.remove(q)
                out.append(w.env_event(act))
            else:
                d = dict(e)
                d['ids'] = [ids.get(x, 'none') for x in e['ids']]
                if e['byrange']:
                    d['mn'] += base - 101
                    d['mx'] = 10 ** 8 if e['mx'] == 999 else e['mx'] + base - 101
                out.append(w.delete(d))
            if rng.random() < 0.4:
                out.append(w.query())
        return out
    finally:
        w.close()


def rand_delete(rng, w, script):
    ids = [q['id'] for q in w.queue if q['user'] == 'tester'] + list(w.known)
    e = dict(ids=[], roots=[], names=[], byrange=False, mn=0, mx=0, confirm=rng.random() < 0.8, running=False, queued=False)
    if rng.random() < 0.35:
        e[rng.choice(['running', 'queued'])] = True
    r = rng.random()
    if script:
        how = rng.choice(['range', 'ids', 'min', 'names'])
        if how == 'names':
            it = rng.sample(ITEMS, rng.randint(1, 3))
            e['roots'] = it + [x + '_minimize' for x in it]
        else:
            e['byrange'] = True
            e['mn'] = w.next - rng.randint(1, 6)
            e['mx'] = 10 ** 8 if how == 'min' else e['mn'] + rng.randint(0, 3)
        return w.delete(e, how)
    if r < 0.5 and ids:
        e['ids'] = rng.sample(ids, rng.randint(1, min(3, len(ids)))) + rng.choice([[], [], ['nosuch']])
    if 0.3 < r < 0.75:
        e['roots'] = rng.sample(ROOTS, rng.randint(1, 3))
    if r > 0.65 and w.knownnames:
        e['names'] = rng.sample(sorted(w.knownnames), 1) + rng.choice([[], ['none']])
    if r > 0.9:
        e['byrange'] = True
        e['mn'] = w.next - rng.randint(1, 6)
        e['mx'] = rng.choice([10 ** 8, e['mn'] + rng.randint(0, 3)])
    return w.delete(e)


ROOTS = ['a', 'b', 'base_x', 'a_post_y'] + ITEMS[:2]


def rand_scenario(seed):
    rng = random.Random(seed)
    w = W(rng, grid=rng.random() < 0.3)
    try:
        out = [dict(op='start')]
        w.known, w.knownnames = [], set()
        for _ in range(rng.randint(4, 11)):
            r = rng.random()
            if w.grid and r < 0.25:
                out.append(w.runbatch())
                w.known += [i for i, _ in zip(out[-1]['ids'], out[-1]['obs']['subs'])]
            elif r < 0.4:
                roots = [rng.choice(ROOTS) + rng.choice(['', '', '_minimize']) for _ in range(rng.choice([1, 1, 2, 3, 4]))]
                roots = list(dict.fromkeys(roots))
                kind = rng.choice(['ok'] * 8 + ['nosub', 'dry', 'empty', 'fail', 'bad'])
                name = rng.choice(['-'.join(roots), 'job', roots[0]])
                out.append(w.submit(name, roots, kind))
                if kind == 'ok':
                    w.known.append(out[-1]['id'])
                    w.knownnames.add(name)
            elif r < 0.6:
                def act():
                    for q in list(w.queue):
                        z = rng.random()
                        if z < 0.3:
                            q['st'] = 'R'
                        elif z < 0.45:
                            w.queue.remove(q)
                    if rng.random() < 0.3:
                        n, s = w.newid()
                        # somebody else's job, or one that was not submitted from here
                        w.queue.insert(rng.randint(0, len(w.queue)), dict(id=s, num=n, list=w.listform % n, st=rng.choice('RQ'), user=rng.choice(['tester', 'other'])))
                    if rng.random() < 0.3:
                        rng.shuffle(w.queue)
                out.append(w.env_event(act))
            elif r < 0.8:
                out.append(rand_delete(rng, w, w.grid and rng.random() < 0.5))
            elif r < 0.85 and w.knownnames:
                n = rng.sample(sorted(w.knownnames), 1)
                o = dict(err=False)
                try:
                    with quiet():
                        jobqueue.deleteJobNames(w.bp, n[0] if rng.random() < 0.5 else n)
                except Exception as ex:
                    o = dict(err=True, exc=str(ex))
                o['index'] = w.index()
                out.append(dict(op='delnames', names=n, obs=o))
            else:
                out.append(w.query())
        return out
    finally:
        w.close()


def events_of(fn, stop=None):
    """run fn, counting what it does (lines, calls into C); the process ends at step number stop"""
    n = [0]

    def step():
        if n[0] == stop:
            os._exit(9)
        n[0] += 1

    def tracer(frame, event, arg):
        if event == 'line':
            step()
        return tracer

    def prof(frame, event, arg):
        if event in ('c_call', 'c_return'):
            step()
    sys.settrace(tracer)
    sys.setprofile(prof)
    try:
        fn()
    except Exception:
        if stop is not None:
            raise
    finally:
        sys.setprofile(None)
        sys.settrace(None)
    return n[0]


class CrashW(W):
    """operations that are interrupted"""

    def __init__(self, rng):
        W.__init__(self, rng)
        self.bp = rng.choice([None, self.path('grid')])
        self.pad = rng.choice([0, 0, 9000, 200000])

    def where(self):
        return 'scripts' if self.bp is None else self.bp

    def child(self, fn):
        """run fn in a child process, which may die"""
        # (what it leaves running is waited for)
        ctypes.CDLL(None).prctl(36, 1, 0, 0, 0)
        pid = os.fork()
        if not pid:
            try:
                with open(os.devnull, 'w') as f:
                    os.dup2(f.fileno(), 1)
                    os.dup2(f.fileno(), 2)
                fn()
                os._exit(0)
            except BaseException:
                os._exit(1)
        rc = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
        try:
            while True:
                os.waitpid(-1, 0)
        except ChildProcessError:
            pass
        return rc

    def length(self, fn):
        """number of steps of fn, from a trial in which nothing is kept"""
        keep = self.path('keep')
        shutil.copytree(self.path('.'), keep, ignore=shutil.ignore_patterns('keep', 'bin', 'len'))
        self.child(lambda: self.put('len', str(events_of(fn))))
        n = int(open(self.path('len')).read())
        for f in os.listdir(self.d):
            if f not in ('keep', 'bin', 'work', 'len'):
                p = self.path(f)
                shutil.rmtree(p) if os.path.isdir(p) else os.remove(p)
        for f in os.listdir('.'):
            shutil.rmtree(f) if os.path.isdir(f) else os.remove(f)
        for base, dirs, files in os.walk(keep):
            to = os.path.normpath(os.path.join(self.d, os.path.relpath(base, keep)))
            os.makedirs(to, exist_ok=True)
            for f in files:
                shutil.copy2(os.path.join(base, f), os.path.join(to, f))
        shutil.rmtree(keep)
        return n

    def crash(self, fn, at, steps=None):
        """interrupt fn: at = (kind, fraction)"""
        kind, x = at
        if kind == 'end':
            return self.child(fn) == 0
        if kind == 'step':
            n = self.length(fn) if steps is None else steps
            self.child(lambda: events_of(fn, int(x * n)))
        else:
            size = [os.path.getsize(os.path.join(self.where(), f)) for f in os.listdir(self.where())] + [100 + self.pad]
            lim = int(x * max(size))

            def go():
                import signal
                if kind == 'writekill':
                    signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
                else:
                    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE, (lim, lim))
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                fn()
            return self.child(go) == 0
        return False

    def job(self, name, roots):
        n, sid = self.newid()
        return pytypes.SimpleNamespace(jobId=sid, jobName=name, names=list(roots), pad='x' * self.pad), n

    def add(self, name, roots, at):
        j, n = self.job(name, roots)
        done = self.crash(lambda: jobqueue.addJobIndex(self.bp, j), at)
        return dict(op='add' if done else 'crashadd', id=j.jobId, num=n, name=name, roots=list(roots), at=list(at), obs=dict(err=at[0] == 'end' and not done, index=self.index()))

    def delname(self, name, at):
        done = self.crash(lambda: jobqueue.deleteJobNames(self.bp, name), at)
        return dict(op='delnames' if done else 'crashdel', names=[name], at=list(at), obs=dict(err=at[0] == 'end' and not done, index=self.index()))

    def delete_crash(self, e, at):
        self.listing()
        self.put('cancelled', '')
        kw = dict(rootNames=e['roots'], jobIds=list(e['ids']), running=e['running'])
        done = self.crash(lambda: jobqueue.deleteJobs(self.bp, **kw), at)
        got = sorted(num(l) for l in open(self.path('cancelled')).read().split('\n') if l.strip())
        ids = [q['id'] for q in self.queue if q['num'] in got]
        self.queue = [q for q in self.queue if q['num'] not in got]
        return dict(e, op='delete' if done else 'crashdelete', at=list(at), obs=dict(err=at[0] == 'end' and not done, cancelled=got, cancelledids=ids, index=self.index()))

    def submit_crash(self, name, roots, at):
        self.template(*self.resources(4))
        with open('job_script', 'w') as h:
            h.write('##COMMAND##\n')
        n, sid = self.newid()
        for f in os.listdir(self.d):
            if f.startswith('reply_'):
                os.remove(self.path(f))
        self.reply(self.ncalls() + 1, sid)
        self.listing()
        was = self.ncalls()
        kw = dict(job_template='job_script', coresPerNode=4, chainsPerNode=1, nodes=1, runsPerJob=1)
        if self.bp is not None:
            kw['batchPath'] = self.bp
        done = self.crash(lambda: jobqueue.submitJob(name, list(roots), **kw), at)
        called = self.ncalls() > was
        if called:
            self.queue.append(dict(id=sid, num=n, list=self.listform % n, st='Q', user='tester'))
        self.calls = self.ncalls()
        return dict(op='add' if done else 'crashadd', id=sid, num=n, name=name, roots=list(roots), at=list(at), obs=dict(err=at[0] == 'end' and not done, index=self.index()))


def envq(w):
    return w.env_event(lambda: None)


def crash_model_scenario(args):
    b, seed = args
    rng = random.Random(seed)
    w = CrashW(rng)
    try:
        out = [dict(op='start')]
        for e in b['ops']:
            at = dict(end=('end', 0), open=('step', rng.uniform(0, 0.4)), write=rng.choice([('writekill', rng.random()), ('writefail', rng.random())]),
                      rename=('step', rng.uniform(0.6, 1)))[e['at']]
            if e['op'] == 'add':
                out.append(w.add('j%d' % e['job'], ['r%d' % e['job'], 'common'], at))
            else:
                out.append(w.delname('j%d' % e['job'], at))
        return out
    finally:
        w.close()


def crash_all_scenario(seed):
    """one operation interrupted at every step, on copies of the same index"""
    rng = random.Random(seed)
    w = CrashW(rng)
    try:
        out = [dict(op='start')]
        for k in range(rng.randint(0, 3)):
            out.append(w.add('j%d' % k, ['r%d' % k], ('end', 0)))
        have = len(out) - 1
        op = rng.choice(['add', 'del']) if have else 'add'

        def fn():
            if op == 'add':
                jobqueue.addJobIndex(w.bp, w.j)
            else:
                jobqueue.deleteJobNames(w.bp, 'j0')
        w.j, n = w.job('new', ['a', 'b'])
        steps = w.length(fn)
        keep = w.path('keep')
        shutil.copytree(w.where(), keep)
        res = []
        head = list(out)
        for k in range(steps):
            w.crash(fn, ('step', (k + 0.5) / steps), steps)
            o = dict(err=False, index=w.index())
            e = dict(op='crashadd', id=w.j.jobId, num=n, name='new', roots=['a', 'b'], obs=o) if op == 'add' else dict(op='crashdel', names=['j0'], obs=o)
            # and the next job can be added
            e['step'] = k
            res.append(head + [e])
            if rng.random() < 0.3:
                with quiet():
                    j2, n2 = w.job('after', ['c'])
                    try:
                        jobqueue.addJobIndex(w.bp, j2)
                        err = False
                    except Exception:
                        err = True
                res[-1].append(dict(op='add', id=j2.jobId, num=n2, name='after', roots=['c'], obs=dict(err=err, index=w.index())))
            shutil.rmtree(w.where())
            shutil.copytree(keep, w.where())
        return res
    finally:
        w.close()


def crash_rand_scenario(seed):
    rng = random.Random(seed)
    w = CrashW(rng)
    try:
        out, names = [dict(op='start')], []
        for _ in range(rng.randint(2, 5)):
            at = rng.choice([('end', 0), ('step', rng.random()), ('step', 1 - rng.random() ** 2 / 4), ('writekill', rng.random()), ('writefail', rng.random())])
            r = rng.random()
            roots = rng.sample(ROOTS, rng.randint(1, 2))
            if r < 0.3 or not names:
                name = rng.choice(['job', roots[0]])
                names.append(name)
                out.append(w.add(name, roots, at))
            elif r < 0.6:
                name = rng.choice(['job', roots[0]])
                names.append(name)
                out.append(w.submit_crash(name, roots, at))
                out.append(envq(w))
            elif r < 0.75:
                out.append(w.delname(rng.choice(names), at))
            else:
                e = dict(ids=rng.sample([q['id'] for q in w.queue], min(1, len(w.queue))), roots=rng.sample(ROOTS, 3), names=[], byrange=False, mn=0, mx=0, confirm=True, running=rng.random() < 0.2, queued=False)
                out.append(w.delete_crash(e, at))
        return out
    finally:
        w.close()


def key(sc, j):
    e = sc[j]
    return e['op'] + '/' + str(e.get('kind', '')) + str(e.get('obs', {}).get('err', ''))


def check_C16():
    c = Check('C16')
    T = c.thorough
    r = c.model('MCJobs', consts=dict(Depth=5 if T else 4))
    beh = behaviours(r.out)
    c.extra['behaviours_in_model'] = len(beh)
    jobs = [(b, '%s/%d' % (c.seed, k)) for k, b in enumerate(sample(c.rng, beh, 12000 if T else 1200))]
    c.trace('TraceJobs', pmap(model_scenario, jobs), 'model histories', key=key)
    c.trace('TraceJobs', pmap(rand_scenario, ['%s/r%d' % (c.seed, k) for k in range(15000 if T else 1200)]), 'random histories', key=key)
    c.assumptions.append('a stand-in for the batch system commands, in the output formats of PBS, OGS and Moab')
    return c.finish()


def check_C17():
    c = Check('C17')
    T = c.thorough
    r = c.model('JobCrash', consts=dict(Depth=5 if T else 4))
    beh = behaviours(r.out)
    c.extra['behaviours_in_model'] = len(beh)
    jobs = [(b, '%s/%d' % (c.seed, k)) for k, b in enumerate(sample(c.rng, beh, 10000 if T else 600))]
    c.trace('TraceJobs', pmap(crash_model_scenario, jobs), 'model histories', key=key)
    every = [s for l in pmap(crash_all_scenario, ['%s/a%d' % (c.seed, k) for k in range(200 if T else 12)], 1) for s in l]
    c.extra['crash_points'] = len(every)
    c.trace('TraceJobs', every, 'every step', key=key)
    c.trace('TraceJobs', pmap(crash_rand_scenario, ['%s/r%d' % (c.seed, k) for k in range(10000 if T else 500)]), 'random histories', key=key)
    c.assumptions.append('the process is ended at the steps visible to the Python interpreter (lines, calls into C and their returns), or by the kernel in the middle of a write; '
                         'power failure (loss of data written to the operating system) is not modelled')
    return c.finish()
