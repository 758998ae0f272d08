"""C11, C12: settings files; bound to spec/Ini.tla"""
import contextlib
import copy
import io
import os
import random
import shutil
from multiprocessing import Pool



os.environ['VERIF_VAR'] = 'env x'
os.environ.pop('VERIF_NONE', None)

from getdist.inifile import IniFile
from harness.core import Check, behaviours, as_int, SCRATCH, BAD

INTS = ['3', '-7', '+12', '0', '007', '250']
FLOATS = ['0.5', '-1.25', '3', '1e2', '2.5E-3', '.5', '5.', '-0.125', '1e-6', '12.000001', '+4.5e+1', '0']
BOOLS = ['T', 'F', 'True', 'False', 'Tx']
WORDS = ['abc', 'T', '1.2.3', '--3', 'true', '1e', 'e5', 'x=1', '#no', '3x', 'INCLUDE(z)', 'a_b(1)', "it's", '0x10', '-', '.']
KEYS = ['a', 'b', 'key(1)', 'limits[x]', 'Some.Key', 'END2', 'x y']


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def tmpdir(rng):
    d = os.path.join(SCRATCH, 'ini_%d_%d' % (os.getpid(), rng.randint(0, 10 ** 9)))
    os.makedirs(d)
    return os.path.realpath(d)


def line_text(x, rng, root):
    pad = rng.choice(['', '', ' ', '\t'])
    if x['t'] == 'key':
        return pad + x['k'] + rng.choice(['=', ' = ', ' =', '=  ']) + x['v'] + rng.choice(['', '', '  ', '\t'])
    if x['t'] in ('inc', 'def'):
        p = x['p']
        if p.startswith('/'):
            p = root + p
        return pad + {'inc': 'INCLUDE', 'def': 'DEFAULT'}[x['t']] + '(' + p + ')' + rng.choice(['', ' '])
    if x['t'] == 'end':
        return pad + 'END' + rng.choice(['', ' '])
    if x['t'] == 'comment':
        return pad + '#' + rng.choice([' a comment', 'a=5', '#', ' INCLUDE(nofile)', 'END'])
    if x['t'] == 'blank':
        return rng.choice(['', '   ', '\t'])
    if x['t'] == 'junk':
        return rng.choice(['no assignment here', 'END of it', 'include(nofile)'])
    raise KeyError(x['t'])


def read_event(files, main, rng, how):
    """files: dict path -> lines"""
    d = tmpdir(rng)
    cwd = os.getcwd()
    try:
        for f, lines in files.items():
            p = os.path.join(d, f)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'w', encoding=rng.choice(['utf-8', 'utf-8', 'utf-8-sig']), newline=rng.choice(['\n', '\n', '\r\n'])) as h:
                h.write('\n'.join(line_text(x, rng, d) for x in lines) + rng.choice(['\n', '']))
        before = {f: open(os.path.join(d, f), 'rb').read() for f in files}
        name = os.path.join(d, main)
        if how == 'relative':
            sub = os.path.join(d, 'elsewhere')
            os.makedirs(sub, exist_ok=True)
            os.chdir(sub)
            name = os.path.relpath(name)
        obs = dict(err=False, params=[], orig='')
        try:
            with quiet():
                if how == 'method':
                    ini = IniFile()
                    ini.readFile(name)
                else:
                    ini = IniFile(name)
            obs['params'] = [dict(k=k, v=ini.string(k)) for k in sorted(ini.params)]
            obs['orig'] = os.path.relpath(os.path.realpath(ini.original_filename or '/none'), d)
            for k in ini.params:
                v = ini.string(k)
                want = v if os.path.isabs(v) else os.path.join(os.path.dirname(name), v)
                if os.path.normpath(ini.relativeFileName(k)) != os.path.normpath(want):
                    obs['orig'] = 'wrong relativeFileName'
        except Exception:
            obs = dict(err=True, params=[], orig='')
        if before != {f: open(os.path.join(d, f), 'rb').read() for f in files}:
            obs['orig'] = 'files changed'
        return dict(op='read', files=[dict(f=f, lines=l) for f, l in sorted(files.items())], main=main, how=how, obs=obs)
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)


def noise(lines, rng):
    """comment, blank and malformed lines, and whatever after END"""
    out = []
    for x in lines:
        while rng.random() < 0.2:
            out.append(dict(t=rng.choice(['comment', 'blank', 'junk'])))
        out.append(x)
    if any(x['t'] == 'end' for x in lines) and rng.random() < 0.5:
        out += [dict(t='key', k='a', v='late'), dict(t='inc', p='nofile')]
    return out


def model_read(args):
    fs, seed = args
    rng = random.Random(seed)
    return [dict(op='start'), read_event({f: noise(l, rng) for f, l in fs.items()}, 'f1', rng, rng.choice(['init', 'init', 'method', 'relative']))]


def rand_value(rng):
    r = rng.random()
    return rng.choice(INTS if r < 0.3 else FLOATS if r < 0.5 else BOOLS if r < 0.6 else WORDS if r < 0.8 else
                      [' '.join(rng.choice(WORDS) for _ in range(3)), '', 'a = b = c', 'dir/file.txt', '$(VERIF_VAR)/a$(VERIF_NONE)b', 'cost $5', '$$(VERIF_VAR)$$5', 'caf\u00e9 \u03a9'])


def rand_read(seed):
    rng = random.Random(seed)
    n = rng.randint(1, 7)
    dirs = ['', 'd/', 'd/e/', 'g/']
    names = ['%sf%d.ini' % (rng.choice(dirs), k) for k in range(n)]
    files = {}
    keys = rng.sample(KEYS, rng.randint(1, 5))
    for k, f in enumerate(names):
        lines = []
        for _ in range(rng.randint(0, 6)):
            if rng.random() < 0.4 and k + 1 < n or rng.random() < 0.03:
                if k + 1 < n:
                    g = names[rng.randint(k + 1, n - 1)]
                    if rng.random() < 0.2:
                        p = '/' + g
                    else:
                        p = os.path.relpath(g, os.path.dirname(f) or '.')
                        if rng.random() < 0.2:
                            p = './' + p
                else:
                    p = 'nofile.ini'
                lines.append(dict(t=rng.choice(['inc', 'def', 'def']), p=p))
            else:
                key = rng.choice(keys) if rng.random() < 0.5 else 'u%d_%d' % (k, len(lines))
                lines.append(dict(t='key', k=key, v=rand_value(rng)))
        if rng.random() < 0.15:
            lines.insert(rng.randint(0, len(lines)), dict(t='end'))
        if rng.random() < 0.6:      # keep most of them free of repeated keys
            seen, l2 = set(), []
            for x in lines:
                if x['t'] != 'key' or x['k'] not in seen:
                    seen.add(x.get('k'))
                    l2.append(x)
            lines = l2
        files[f] = noise(lines, rng)
    return [dict(op='start'), read_event(files, names[0], rng, rng.choice(['init', 'init', 'method', 'relative']))]


KINDS = ['string', 'int', 'float', 'bool', 'list', 'int_list', 'float_list', 'bool_list']


def get_event(rng):
    kind = rng.choice(KINDS)
    present = rng.random() < 0.8
    pool = INTS if 'int' in kind else FLOATS if 'float' in kind else BOOLS if 'bool' in kind else WORDS
    one = lambda: rng.choice(pool) if rng.random() < 0.8 else rand_value(rng)
    if kind.endswith('list'):
        text = rng.choice([' ', '  ']).join(one() for _ in range(rng.randint(0, 4))).strip()
    else:
        text = rng.choice(['', one(), one(), one()]) if rng.random() < 0.3 else one()
    hasdef = rng.random() < 0.5
    scalar = dict(string='dflt', int=17, float=0.75, bool=rng.random() < 0.5, list=['u', 'v'], int_list=[4, 5], float_list=[0.25], bool_list=[True, False])
    d = scalar[kind]
    defv = [as_int(x, 10 ** 6) for x in d] if kind == 'float_list' else as_int(d, 10 ** 6) if kind == 'float' else d
    idx = rng.randint(0, 12)
    arr = kind in ('string', 'int', 'float', 'bool') and rng.random() < 0.3
    ini = IniFile()
    name = 'nm(%d)' % idx if arr else 'nm'
    if present:
        ini.params[name] = text
    ini.params.update({'nm(%d)' % (idx + 1): 'other', 'n': '99', 'nmx': '98'})
    obs = dict(err=False, v='')
    try:
        kw = dict(default=d) if hasdef else dict(default=None) if kind == 'bool' else {}
        if arr:
            f = getattr(ini, 'array_' + kind)
            v = f('nm', idx, **kw)
        else:
            f = getattr(ini, kind)
            v = f('nm', **kw)
        if kind == 'float':
            v = as_int(v, 10 ** 6) if isinstance(v, float) else BAD
        elif kind == 'float_list':
            v = [as_int(x, 10 ** 6) if isinstance(x, float) else BAD for x in v]
        elif kind.startswith('int') and not all(type(x) is int for x in (v if isinstance(v, list) else [v])):
            v = BAD
        elif kind.startswith('bool') and not all(type(x) is bool for x in (v if isinstance(v, list) else [v])):
            obs['err'], v = True, ''
        obs['v'] = v
    except Exception:
        obs['err'] = True
    return dict(op='get', kind=kind, set=present, text=text, hasdef=hasdef, **{'def': defv}, obs=obs)


def rand_get(seed):
    rng = random.Random(seed)
    return [dict(op='start')] + [get_event(rng)]


# ---- objects

class Objs:
    def __init__(self, rng):
        self.rng = rng
        self.dir = tmpdir(rng)
        self.objs = {}

    def pyval(self, v):
        s = v['s']
        if v['t'] == 'l':
            toks = s.split()
            try:
                toks = [int(x) for x in toks]
            except ValueError:
                try:
                    toks = [float(x) for x in toks]
                except ValueError:
                    pass
            return self.rng.choice([list, tuple])(toks)
        return dict(s=str, i=int, f=float, b=lambda x: x == 'T')[v['t']](s)

    def val(self, v):
        if isinstance(v, bool):
            return dict(t='b', s='T' if v else 'F', b=v, l=[])
        if isinstance(v, (list, tuple)):
            return dict(t='l', s='', b=False, l=[str(x) for x in v])
        t = {str: 's', int: 'i', float: 'f'}.get(type(v), '?')
        return dict(t=t, s=str(v), b=str(v)[:1] == 'T', l=str(v).split())

    def observe(self):
        return [dict(o=o, params=[dict(self.val(ini.params[k]), k=k) for k in sorted(ini.params)]) for o, ini in sorted(self.objs.items())]

    def do(self, e):
        obs = dict(err=False, order=[])
        rng = self.rng
        try:
            with quiet():
                op = e['op']
                if op == 'new':
                    d = {x['k']: self.pyval(x) for x in e['params']}
                    self.objs[e['o']] = IniFile(d) if d else IniFile()
                    if d:
                        d[rng.choice(sorted(d))] = 'changed'      # the object is independent of the dictionary
                        d['another'] = '1'
                elif op == 'set':
                    if rng.random() < 0.3:
                        class A: pass
                        a = A()
                        setattr(a, e['k'], self.pyval(e['v']))
                        self.objs[e['o']].getAttr(a, e['k'])
                    else:
                        self.objs[e['o']].params[e['k']] = self.pyval(e['v'])
                elif op == 'del':
                    self.objs[e['o']].delete_keys(e['ks'])
                elif op == 'tags':
                    self.objs[e['o']].replaceTags(e['tag'], e['txt'])
                elif op == 'save':
                    p = os.path.join(self.dir, 'f%d.ini' % e['f'])
                    ini = self.objs[e['o']]
                    if e.get('own'):
                        ini.original_filename = p
                        ini.saveFile()
                    else:
                        ini.saveFile(p)
                    obs['order'] = [l.split('=', 1)[0].strip() for l in open(p, encoding='utf-8') if '=' in l]
                elif op == 'load':
                    self.objs[e['o']] = IniFile(os.path.join(self.dir, 'f%d.ini' % e['f']))
                else:
                    raise KeyError(op)
            obs['objs'] = self.observe()
        except Exception as ex:
            obs.update(err=True, objs=[], what='%s: %s' % (type(ex).__name__, ex))
        return dict(e, obs=obs)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def model_objs(args):
    hist, seed = args
    w = Objs(random.Random(seed))
    try:
        out = [dict(op='start'), w.do(dict(op='new', o=1, params=[dict(k='a', t='i', s='3'), dict(k='b', t='s', s='x %T%')])),
               w.do(dict(op='new', o=2, params=[]))]
        for e in hist:
            out.append(w.do(e))
            if out[-1]['obs']['err']:
                break
        return out
    finally:
        w.close()


def rand_mem(rng):
    r = rng.random()
    if r < 0.35:
        return dict(t='s', s=rng.choice(['', 'x', 'a b  c', '%T%/%T%', 'a=b', 'caf\u00e9', '#x', '$x', "q'\"", 'T', '3', '1 2', 'INCLUDE(x)', 'END', '\\omega']))
    if r < 0.5:
        return dict(t='i', s=str(rng.randint(-99, 10 ** 6)))
    if r < 0.65:
        return dict(t='f', s=str(rng.choice([0.5, 1e-10, -3.25, 1e22, 0.1, 3.0, 123456.789])))
    if r < 0.8:
        return dict(t='b', s=rng.choice('TF'))
    return dict(t='l', s=rng.choice(['1 2 3', '', '0.68 0.95 0.99', 'a b', 'x', '1.5']))


def rand_objs(seed):
    rng = random.Random(seed)
    w = Objs(rng)
    out = [dict(op='start')]
    keys = rng.sample(['a', 'B', 'c_1', 'key(1)', 'limits[x]', 'x y', 'zeta', 'comm', 'END'], 5)
    try:
        for o in (1, 2):
            out.append(w.do(dict(op='new', o=o, params=[dict(rand_mem(rng), k=k) for k in rng.sample(keys, rng.randint(0, 4))])))
        nf = 0
        for _ in range(rng.randint(4, 14)):
            if out[-1]['obs']['err']:
                break
            o = rng.randint(1, 2)
            r = rng.random()
            if r < 0.35:
                e = dict(op='set', o=o, k=rng.choice(keys), v=rand_mem(rng))
            elif r < 0.42:
                e = dict(op='del', o=o, ks=rng.sample(keys, rng.randint(0, 2)))
            elif r < 0.5:
                e = dict(op='tags', o=o, tag=rng.choice(['%T%', 'a', 'x']), txt=rng.choice(['new', 'x', '']))
            elif r < 0.75 or not nf:
                f = rng.randint(1, nf) if nf and rng.random() < 0.4 else nf + 1
                nf = max(nf, f)
                e = dict(op='save', o=o, f=f, own=rng.random() < 0.3)
            else:
                e = dict(op='load', o=o, f=rng.randint(1, nf))
            out.append(w.do(e))
        if nf and not out[-1]['obs']['err']:
            out.append(w.do(dict(op='load', o=1, f=nf)))
        return out
    finally:
        w.close()


def pmap(fn, jobs, chunk=32):
    with Pool(8) as p:
        return p.map(fn, jobs, chunksize=chunk)


def key(sc, j):
    e = sc[j]
    return e['op'] + '/' + str(e.get('kind', e.get('how', e.get('obs', {}).get('what', ''))))


def sample(rng, l, n):
    return l if len(l) <= n else rng.sample(l, n)


def check_C11():
    c = Check('C11')
    T = c.thorough
    r = c.model('MCIni', consts=dict(L1=3, L2=3, L3=2) if T else None, timeout=3000)
    beh = behaviours(r.out)
    c.extra['behaviours_in_model'] = len(beh)
    jobs = [(b, '%s/%d' % (c.seed, k)) for k, b in enumerate(sample(c.rng, beh, 60000 if T else 3000))]
    c.trace('TraceIni', pmap(model_read, jobs), 'model file sets', key=key)
    c.trace('TraceIni', pmap(rand_read, ['%s/r%d' % (c.seed, k) for k in range(20000 if T else 1500)]), 'random file sets', key=key)
    c.trace('TraceIni', pmap(rand_get, ['%s/g%d' % (c.seed, k) for k in range(40000 if T else 5000)]), 'typed look-ups', key=key)
    c.assumptions.append('no cyclic includes; a default inside an included file for a key that a later included file sets may be an error')
    return c.finish()


def check_C12():
    c = Check('C12')
    T = c.thorough
    r = c.model('MCSettings', consts=dict(Depth=4))
    beh = behaviours(r.out)
    c.extra['behaviours_in_model'] = len(beh)
    jobs = [(b, '%s/%d' % (c.seed, k)) for k, b in enumerate(sample(c.rng, beh, 20000 if T else 1500))]
    c.trace('TraceIni', pmap(model_objs, jobs), 'model histories', key=key)
    c.trace('TraceIni', pmap(rand_objs, ['%s/o%d' % (c.seed, k) for k in range(20000 if T else 1500)]), 'random histories', key=key)
    c.assumptions.append('values have no line breaks or $(...) placeholders; keys contain no = and do not start with #')
    return c.finish()
