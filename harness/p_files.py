"""C08: chain roots and files, bound to spec/Files.tla"""
import logging
import os
import shutil

from harness.core import Check, behaviours, SCRATCH
from getdist import chains as gd_chains
from getdist.chains import chainFiles, findChainFileRoot, hasChainFiles
from getdist.chain_grid import ChainDirGrid, get_chain_root_files

gd_chains.print_load_details = False
logging.disable(logging.CRITICAL)


class Tree:
    def __init__(self, dirs, relative=False):
        """dirs: dict directory path (relative, '/' separated) -> file names"""
        Tree.n = getattr(Tree, 'n', 0) + 1
        self.base = os.path.join(SCRATCH, 'tree%d' % Tree.n)
        self.dirs = dirs
        for d, files in dirs.items():
            p = os.path.join(self.base, d) if d else self.base
            os.makedirs(p, exist_ok=True)
            for f in files:
                open(os.path.join(p, f), 'w').close()
        self.relative = relative
        self.cwd = os.getcwd()
        if relative:
            os.chdir(self.base)

    def path(self, p):
        if self.relative:
            return p
        return os.path.join(self.base, p) if p else self.base

    def rel(self, p):
        p = str(p)
        if p.startswith('./'):
            p = p[2:]
        if p.startswith(self.base + '/'):
            p = p[len(self.base) + 1:]
        elif os.path.isabs(p):
            return '!outside ' + p
        return p

    def event(self):
        return dict(op='tree', dirs=[dict(d=d, files=sorted(f)) for d, f in sorted(self.dirs.items())])

    def close(self):
        os.chdir(self.cwd)
        shutil.rmtree(self.base, ignore_errors=True)

    # queries
    def q(self, ev, fn, empty):
        try:
            obs = fn()
            obs['err'] = ''
        except Exception as ex:
            obs = dict(empty, err='%s: %s' % (type(ex).__name__, ex))
        return dict(ev, obs=obs)

    def chainfiles(self, root, sep='_', ext='.txt', first=0, last=-1, incl=None, excl=None):
        kw = {}
        if ext != '.txt':
            kw['ext'] = ext
        if first:
            kw['first_chain'] = first
        if last != -1:
            kw['last_chain'] = last
        if incl is not None:
            kw['chain_indices'] = incl
        if excl is not None:
            kw['chain_exclude'] = excl
        d = os.path.dirname(root)

        def run():
            fs = [self.rel(f) for f in chainFiles(self.path(root), separator=sep, **kw)]
            return dict(files=[f[len(d) + 1:] if d and f.startswith(d + '/') else f for f in fs])
        return self.q(dict(op='chainfiles', root=root, sep=sep, ext=ext, first=first, last=last,
                           incl=dict(any=incl is not None, list=incl or []), excl=excl or []), run, dict(files=[]))

    def has(self, root):
        return self.q(dict(op='has', root=root), lambda: dict(has=bool(hasChainFiles(self.path(root)))), dict(has=False))

    def find(self, root, sub=True):
        def run():
            r = findChainFileRoot(self.path('') or '.', root, search_subdirectories=sub)
            return dict(path='' if r is None else self.rel(r))
        return self.q(dict(op='find', root=root, sub=sub), run, dict(path='!'))

    def roots(self, d):
        def run():
            return dict(roots=[os.path.basename(f) for f in get_chain_root_files(self.path(d) or '.')])
        return self.q(dict(op='roots', d=d), run, dict(roots=[]))

    def naming(self):
        def run():
            g = ChainDirGrid(self.path('') or '.')
            self.grid = g
            naming = []
            for name in list(g.roots):
                it = g.resolve_root(name)
                if it is not g.resolveRoot(name) or it.name != name:
                    naming.append([name, '!bad item'])
                else:
                    naming.append([name, self.rel(os.path.normpath(it.chainRoot))])
            tops = sorted(g.base_dir_names)
            return dict(naming=naming, bydir=[dict(d=t, names=sorted(g.roots_for_dir(t))) for t in tops])
        self.grid = None
        return self.q(dict(op='naming'), run, dict(naming=[], bydir=[]))

    def resolve(self, name):
        def run():
            try:
                r = self.grid.resolve_root(name)
            except ValueError:
                return dict(path='ambiguous')
            return dict(path='' if not r else self.rel(os.path.normpath(r.chainRoot)))
        return self.q(dict(op='resolve', name=name), run, dict(path='!'))


PIECES = ['a', 'b', '_', '.', '1', '2', '10', 'base', 'x', '+', '[1]', 'plik', '(', '-']
TAGS = ['base', 'mnu', 'r', 'plik', 'lowl', 'post', 'BAO', 'w']


def rand_root(rng):
    if rng.random() < 0.6:
        return '_'.join(rng.sample(TAGS, rng.randint(1, 4)))
    return ''.join(rng.choice(PIECES) for _ in range(rng.randint(1, 4))).strip('.') or 'q'


def rand_tree(rng, roots, cobaya=False):
    dirs = {'': []}
    for _ in range(rng.randint(0, 6)):
        parent = rng.choice(sorted(dirs))
        name = rng.choice(['a', 'b', 'c', 'base', 'd.x', 'e_1', 'g[1]'])
        dirs.setdefault(parent + '/' + name if parent else name, [])
    for r in roots:
        for d in rng.sample(sorted(dirs), min(len(dirs), rng.randint(0, 3))):
            sep = rng.choice(['_', '_', '.'])
            k = rng.random()
            if k < 0.25:
                fs = [r + '.txt']
            elif k < 0.85:
                fs = [r + sep + str(i) + '.txt' for i in rng.sample(range(0, 12), rng.randint(1, 4)) + [1]]
            else:
                fs = [r + sep + str(i) + '.txt' for i in (2, 3)]
            if rng.random() < 0.8:
                fs.append(r + '.paramnames')
            if rng.random() < 0.3:
                fs += [r + '.ranges', r + '.txt.bak', r + sep + 'x.txt', 'z' + r + '_1.txt', r + '1.txt', r + '_1.txt2']
            dirs[d] += fs
    return {d: sorted(set(f)) for d, f in dirs.items()}


def check_C08():
    c = Check('C08')
    r = c.model('MCFiles', consts=dict(NameLen=4, RootLen=3) if c.thorough else None)
    b = behaviours(r.out)[0]
    names, roots = b['names'], b['roots']
    scs = []
    for rel in (False, True):
        t = Tree({'': names, 'sub': names[::2], 'empty': []}, relative=rel)
        try:
            for root in roots:
                ev = [t.event()]
                for sep in ('_', '.'):
                    ev.append(t.chainfiles(root, sep))
                    ev.append(t.chainfiles('sub/' + root, sep, last=c.rng.choice([-1, 0, 1, 2]),
                                           first=c.rng.choice([0, 0, 1, 2]), incl=c.rng.choice([None, [1], [0, 2]]),
                                           excl=c.rng.choice([None, [1], [2, 0]])))
                ev.append(t.has(root))
                ev.append(t.has('empty/' + root))
                scs.append(ev)
        finally:
            t.close()
    c.extra['file_names'] = len(names)
    c.trace('TraceFiles', scs, 'all small names', key=key)
    scs = []
    for k in range(3000 if c.thorough else 500):
        roots = [rand_root(c.rng) for _ in range(c.rng.randint(1, 4))]
        if c.rng.random() < 0.5:
            r0 = roots[0]
            roots += ['_'.join(sorted(r0.split('_'))), r0 + '_1', r0 + 'x', 'x' + r0, r0 + '.1', '_'.join(sorted(r0.split('_'), reverse=True))][:c.rng.randint(1, 6)]
        roots = sorted({r for r in roots if r and '/' not in r})
        tree = rand_tree(c.rng, roots)
        t = Tree(tree, relative=c.rng.random() < 0.4)
        try:
            ev = [t.event()]
            for d in c.rng.sample(sorted(tree), min(3, len(tree))):
                ev.append(t.roots(d))
            for r in roots:
                ev.append(t.find(r, c.rng.random() < 0.8))
                if c.rng.random() < 0.5:
                    ev.append(t.find(c.rng.choice(['a', 'b', 'base', 'c/a', 'nosuch']) + '/' + r))
                d = c.rng.choice(sorted(tree))
                ev.append(t.has(d + '/' + r if d else r))
                incl = None if c.rng.random() < 0.6 else c.rng.sample(range(12), 4)
                excl = None if c.rng.random() < 0.6 else c.rng.sample(range(12), 3)
                ev.append(t.chainfiles(d + '/' + r if d else r, c.rng.choice('_.'), first=c.rng.choice([0, 0, 1, 3, 10]),
                                       last=c.rng.choice([-1, -1, 0, 1, 5, 10]), incl=incl, excl=excl,
                                       ext=c.rng.choice(['.txt', '.txt', '.txt.bak', '.paramnames'])))
            c.rng.shuffle(ev[1:])
            ev.append(t.naming())
            if t.grid is not None:
                have = set(t.grid.roots)
                for r in roots:
                    parts = r.split('_')
                    c.rng.shuffle(parts)
                    n = '_'.join(parts)
                    if n not in have:
                        ev.append(t.resolve(n))
                    if r not in have:
                        ev.append(t.resolve(r))
                if 'nosuch_root' not in roots:
                    ev.append(t.resolve('nosuch_root'))
            scs.append(ev)
        finally:
            t.close()
    c.trace('TraceFiles', scs, 'random directory trees', key=key)
    return c.finish()


def key(sc, j):
    e = sc[j]
    return e['op'] + ('/' + e['obs']['err'].split(':')[0] if e['obs']['err'] else '')
