"""Common machinery: running TLC, validating recorded traces, reporting."""
import glob
import json
import os
import random
import re
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
REPO = os.environ.get('VERIF_DEV_REPO') or '/repo'
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
SCRATCH = os.environ.get('VERIF_SCRATCH') or os.environ.get('TMPDIR') or '/tmp'
NCPU = 8
BAD = -999999


class CheckError(Exception):
    """The machinery itself failed (not a verdict)."""


class TLCResult:
    def __init__(self, rc, out):
        self.rc, self.out = rc, out
        self.generated = self.distinct = self.depth = 0
        m = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
        if m:
            self.generated, self.distinct = int(m.group(1)), int(m.group(2))
        m = re.search(r'depth of the complete state graph search is (\d+)', out)
        if m:
            self.depth = int(m.group(1))
        self.ok = rc == 0 and ('No error has been found' in out or 'Finished in' in out) and 'Error:' not in out


_counter = [0]


def scratch(name):
    _counter[0] += 1
    d = os.path.join(SCRATCH, '%s_%d' % (name, _counter[0]))
    os.makedirs(d)
    return d


def tlc(module, cfg=None, env=None, workers=1, heap='2g', timeout=840, extra=(), consts=None):
    """Run TLC on spec/<module>.tla. consts: dict overriding CONSTANT assignments of the cfg file."""
    work = scratch('tlc_' + module)
    cfgpath = os.path.join(SPEC, (cfg or module) + '.cfg')
    if consts:
        txt = open(cfgpath).read()
        for k, v in consts.items():
            txt, n = re.subn(r'(?m)^(\s*)%s\s*=.*$' % re.escape(k), lambda m: '%s%s = %s' % (m.group(1), k, v), txt)
            if not n:
                raise CheckError('no constant %s in %s' % (k, cfgpath))
        cfgpath = os.path.join(work, module + '.cfg')
        open(cfgpath, 'w').write(txt)
    e = dict(os.environ)
    e.pop('JAVA_TOOL_OPTIONS', None)
    if env:
        e.update(env)
    cmd = ['java', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2', '-Xmx' + heap, '-Xss16m', '-Djava.io.tmpdir=' + work,
           '-DTLA-Library=' + SPEC, '-cp', JARS, 'tlc2.TLC', '-noGenerateSpecTE', '-workers', str(workers),
           '-metadir', os.path.join(work, 'states'), '-config', cfgpath] + list(extra) + \
          [os.path.join(SPEC, module + '.tla')]
    p = subprocess.run(cmd, cwd=work, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    out = p.stdout.decode('utf-8', 'replace')
    subprocess.run(['rm', '-rf', work])
    return TLCResult(p.returncode, out)


def _validate_shard(module, events, cfg):
    d = scratch('trace')
    path = os.path.join(d, 'trace.ndjson')
    with open(path, 'w') as f:
        for e in events:
            f.write(json.dumps(e) + '\n')
    r = tlc(module, cfg=cfg, env={'TRACE_FILE': path}, timeout=600 if os.environ.get('VERIF_TIER') != 'thorough' else 7200)
    subprocess.run(['rm', '-rf', d])
    if not r.ok:
        raise CheckError('TLC did not consume the trace of %s:\n%s' % (module, (r.out[r.out.find('Error:'):] if 'Error:' in r.out else r.out)[:3000]))
    mism = []
    for m in re.finditer(r'<<\s*"MISMATCH",\s*(\d+),((?:.|\n)*?)>>\n(?=\S)', r.out + '\nX'):
        mism.append((int(m.group(1)) - 1, m.group(2)))
    if r.out.count('"MISMATCH"') != len(mism):
        found = [int(x) - 1 for x in re.findall(r'"MISMATCH",\s*(\d+)', r.out)]
        mism = [(i, dict(mism).get(i, '')) for i in found]
        if len(mism) != r.out.count('"MISMATCH"'):
            raise CheckError('unparsed MISMATCH output:\n' + r.out[-3000:])
    return r, mism


def validate(module, scenarios, cfg=None, shards=NCPU):
    """scenarios: list of lists of events (first event of each has op 'new' or equivalent).
    Returns (list of (scenario index, event index, spec text) for the first mismatch of each bad scenario, stats)."""
    if not scenarios:
        return [], dict(states=0, transitions=0)
    shards = max(1, min(shards, len(scenarios)))
    parts = [list(range(k, len(scenarios), shards)) for k in range(shards)]

    def run(part):
        ev, where = [], []
        for s in part:
            for j, e in enumerate(scenarios[s]):
                ev.append(e)
                where.append((s, j))
        r, mism = _validate_shard(module, ev, cfg)
        return r, [(where[i][0], where[i][1], t) for i, t in mism]

    with ThreadPoolExecutor(shards) as ex:
        res = list(ex.map(run, parts))
    first = {}
    states = trans = 0
    for r, mm in res:
        states += r.distinct
        trans += max(0, r.generated - 1)
        for s, j, t in mm:
            if s not in first or j < first[s][0]:
                first[s] = (j, t)
    return [(s, j, t) for s, (j, t) in sorted(first.items())], dict(states=states, transitions=trans)


def behaviours(out):
    """JSON behaviours printed by a model (lines of the form "@@{...}")."""
    res = []
    for line in out.splitlines():
        if line.startswith('"@@'):
            res.append(json.loads(json.loads(line)[2:]))
    return res


class Check:
    def __init__(self, prop, level='model_checking'):
        self.prop = prop
        self.level = level
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.thorough = self.tier == 'thorough'
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.rng = random.Random('%s/%s' % (prop, self.seed))
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.violations = []
        self.known_hit = []
        self.assumptions = []
        self.extra = {}
        self.known = self._known()
        self._nrep = 0
        for f in glob.glob(os.path.join(VERIF, 'evidence', 'replay', prop + '-*.json')):
            os.remove(f)

    def _known(self):
        res = {}
        path = os.path.join(VERIF, 'known_findings.txt')
        if os.path.exists(path):
            for line in open(path):
                m = re.match(r'KNOWN-FINDING: property=(\S+) key=(\S+)\s+(.*)', line.strip())
                if m and m.group(1) == self.prop:
                    res[m.group(2)] = m.group(3)
        return res

    def log(self, *a):
        print('[%s %6.1fs]' % (self.prop, time.time() - self.t0), *a, flush=True)

    def model(self, module, cfg=None, consts=None, workers=NCPU, heap='6g', timeout=840, extra=()):
        """model-check; a counterexample at specification level is an error of the machinery"""
        r = tlc(module, cfg=cfg, consts=consts, workers=workers, heap=heap, timeout=timeout, extra=extra)
        if not r.ok:
            raise CheckError('model %s/%s failed:\n%s' % (module, cfg, (r.out[r.out.find('Error:'):] if 'Error:' in r.out else r.out)[:3000]))
        self.states += r.distinct
        self.transitions += r.generated
        self.log('TLC %s: %d states generated, %d distinct' % (cfg or module, r.generated, r.distinct))
        return r

    def violation(self, key, what, replay):
        if key in self.known:
            if key not in self.known_hit:
                self.known_hit.append(key)
            return
        self._nrep += 1
        if self._nrep <= 20:
            d = os.path.join(VERIF, 'evidence', 'replay')
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, '%s-%d.json' % (self.prop, self._nrep))
            with open(path, 'w') as f:
                json.dump(dict(property=self.prop, key=key, what=what, replay=replay), f, indent=1, default=str)
            self.violations.append((key, what, path))

    def trace(self, module, scenarios, label='', describe=None, key=None, cfg=None):
        """validate recorded scenarios against a trace specification"""
        mm, st = validate(module, scenarios, cfg=cfg)
        self.states += st['states']
        self.transitions += st['transitions']
        self.traces += len(scenarios)
        self.log('trace %s %s: %d scenarios, %d events, %d mismatching' % (
            module, label, len(scenarios), sum(len(s) for s in scenarios), len(mm)))
        if scenarios and len(self.samples) < 5:
            self.samples.append(dict(trace=module, label=label, scenario=scenarios[0][:4]))
        for s, j, t in mm:
            ev = scenarios[s][j]
            k = key(scenarios[s], j) if key else '%s/%s' % (label, ev.get('op'))
            self.violation(k, '%s: event %d (%s) of the recorded execution is not allowed by the specification' %
                           (module, j, ev.get('op')), dict(events=scenarios[s][:j + 1], expected=t[:4000]))
        return mm

    def finish(self):
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level,
                  coverage=dict(states=self.states, transitions=self.transitions,
                                traces_validated_against_impl=self.traces, samples=self.samples, **self.extra),
                  wall_s=round(time.time() - self.t0, 2), assumptions=self.assumptions,
                  violations=len(self.violations))
        d = os.path.join(VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        for k in self.known_hit:
            print('KNOWN-FINDING: property=%s %s' % (self.prop, self.known[k]))
        for k, w, p in self.violations:
            print('VIOLATION property=%s replay=%s  # %s' % (self.prop, p, w))
        sys.stdout.flush()
        return 1 if self.violations else 0


def as_int(v, scale=1, tol=1e-7):
    """v*scale as an int if it is one (to rounding error), else BAD"""
    try:
        x = float(v) * scale
    except Exception:
        return BAD
    if x != x or abs(x) > 2e9:
        return BAD
    r = round(x)
    return int(r) if abs(x - r) <= tol * max(1.0, abs(x)) else BAD
