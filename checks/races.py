"""Parallel loops: no two threads touch the same memory without synchronisation."""
from facts import walk, find
from util import *
from effects import *

WORK = {'for', 'parallel for', 'sections', 'parallel sections'}


class Region(FA):
    """walks one function; inside its parallel regions records every access to shared memory"""

    def __init__(self, E, f):
        FA.__init__(self, E, f)
        self.root = True
        self.regions = []
        self.cur = None

    def note(self, kind, path, line, via, prot, one):
        c = self.cur
        if via:
            where, fn, vp = via
            prot = prot or vp
        else:
            where, fn = '%s:%d' % (self.f.file, line), self.f.label()
        if c['single']:
            prot = prot or ('single',)
        k = (kind, path, prot, c['phase'], c['loop'], bool(one))
        if k not in c['ev']:
            c['ev'][k] = (where, fn, line)

    def s_omp(self, s, env):
        kind, cl, body = s[2], s[3], s[4]
        if self.cur is None and not kind.startswith('parallel'):
            return FA.s_omp(self, s, env)
        names = [c[0] for c in cl]
        if kind.startswith('parallel'):
            if self.cur is not None:       # nested regions are looked at on their own
                return FA.s_omp(self, s, env)
            priv = set()
            for c in cl:
                if c[0] in ('private', 'firstprivate', 'lastprivate', 'reduction', 'linear'):
                    for v in c[2]:
                        if v[0] == 'var':
                            priv.add(v[2])
            for d in find(body, 'decl'):
                for vid, _, _ in d[2]:
                    priv.add(vid)
            for d in find(body, 'rfor'):
                priv.add(d[2][0])
            if kind == 'parallel for':
                v = loopvar(body)
                if v is not None:
                    priv.add(v)
            for o in find(body, 'omp'):
                if o[2] == 'for':
                    v = loopvar(o[4])
                    if v is not None:
                        priv.add(v)
                for c in o[3]:
                    if c[0] in ('private', 'firstprivate', 'lastprivate', 'reduction', 'linear'):
                        for v in c[2]:
                            if v[0] == 'var':
                                priv.add(v[2])
            # variables of enclosing declarations the region never names do not matter
            self.shared = set(range(len(self.f.locals))) - {v for v in priv if self.f.locals[v][2] != 's'}
            self.cur = {'line': s[1], 'ev': {}, 'phase': 0, 'loop': 0, 'single': 0, 'kind': kind, 'nloops': 0}
            if self.rec:
                self.regions.append(self.cur)
            for c in cl:
                if c[0] in ('private', 'lastprivate'):
                    for v in c[2]:
                        if v[0] == 'var' and isscalar(self.f.locals[v[2]][1]):
                            env.e[v[2]] = (EMPTY, frozenset(['UNINIT']))
            self.inregion, self.listener = True, self.note
            self.uninit = self.cur['uninit'] = {}
            if kind == 'parallel for':
                self.work(s, body, env)
            else:
                self.st(body, env)
            self.inregion, self.listener, self.cur, self.shared, self.uninit = False, None, None, None, None
            return True
        if kind == 'for':
            self.work(s, body, env)
            if 'nowait' not in names and self.rec:
                self.cur['phase'] += 1
            return True
        if kind == 'barrier':
            if self.rec:
                self.cur['phase'] += 1
            return True
        if kind in ('single', 'master', 'masked', 'section'):
            self.cur['single'] += 1
            self.st(body, env)
            self.cur['single'] -= 1
            if kind == 'single' and 'nowait' not in names and self.rec:
                self.cur['phase'] += 1
            return True
        return FA.s_omp(self, s, env)

    def work(self, s, body, env):
        v = loopvar(body)
        c = self.cur
        if self.rec:
            c['nloops'] += 1
        old = c['loop']
        c['loop'] = s[1]
        if v is None:
            self.st(body, env)
        else:
            self.st(body[2], env)

            def go(x):
                x.e[v] = (EMPTY, frozenset(['W']))
                self.val(body[3], x)
                self.st(body[5], x)
            self.loop(go, env)
            env.e[v] = (EMPTY, EMPTY)
        c['loop'] = old

    # library and project calls that hand over the particles of one cell: see DESIGN.md


def loopvar(b):
    while b is not None and b[0] == 'block' and len(b[2]) == 1:
        b = b[2][0]
    if b is None or b[0] != 'for' or b[2] is None:
        return None
    i = b[2]
    if i[0] == 'decl' and i[2]:
        return i[2][0][0]
    for a in find(i, 'asg'):
        if a[3][0] == 'var':
            return a[3][2]
    return None


def show(f, path):
    r, st = path
    if r[0] == 'v':
        s = f.locals[r[1]][0]
    elif r[0] == 'p':
        s = f.locals[f.params[r[1]]][0] if r[1] < len(f.params) else 'param'
    elif r[0] == 'this':
        s = 'this'
    elif r[0] in ('g', 's'):
        s = r[1]
    else:
        s = 'heap(%s)' % r[1].split('@')[0] if len(r) > 1 else '?'
    for x in st:
        s += '.' + x if isinstance(x, str) else '[]'
    return s


def related(a, b):
    """one of two element-insensitive paths contains the other"""
    if a[0] != b[0]:
        return False
    n = min(len(a[1]), len(b[1]))
    return a[1][:n] == b[1][:n]


def common(p, q):
    return p and q and p[0] == q[0] and p == q or (p and q and p[0] in ('single',) and q[0] == 'single')


def otherbuffer(w, r):
    """r names an element of the per-thread table that need not be the thread's own"""
    for i, x in enumerate(w[1]):
        if not isinstance(x, str) and 'T' in x[1]:
            return len(r[1]) > i and not isinstance(r[1][i], str) and bool(r[1][i][1]) and 'T' not in r[1][i][1]
    return False


def conflicts(f, r):
    """(rule, path text, where, message) of the conflicting accesses of one region"""
    ev = r['ev']
    W = [(k, v) for k, v in ev.items() if k[0] == 'w']
    done = set()
    out = []
    # shared element written by several threads
    for (kind, path, prot, ph, lp, one), (where, fn, line) in W:
        if owned(ptags(path)) or prot or one:
            continue
        out.append(('write', path, where, fn, 'is written by every thread without synchronisation'))
    ww = {(base(x[1])) for x in out}
    R = {}
    for k, v in ev.items():
        R.setdefault((k[3], k[1][0]), []).append((k, v))
    for (kind, path, prot, ph, lp, one), (where, fn, line) in W:
        T = ptags(path)
        b = base(path)
        if b in ww:
            continue
        for (k2, p2, prot2, _, lp2, one2), (w2, fn2, l2) in R.get((ph, path[0]), ()):
            if not related(b, base(p2)) or common(prot, prot2):
                continue
            T2 = ptags(p2)
            simple = not any(not isinstance(x, str) for x in path[1]) and not any(not isinstance(x, str) for x in p2[1])
            if simple and not (one and one2):
                if prot and prot2 and prot[0] == 'atomic' and prot2[0] == 'atomic':
                    continue
                out.append(('order', path, where, fn, 'is read or written at %s by other threads with no barrier or common lock in between' % w2))
                break
            if 'T' in T and otherbuffer(path, p2):
                out.append(('order', path, where, fn, 'the buffer of one thread is used by others at %s before a barrier' % w2))
                break
            if lp and lp2 and lp != lp2 and owned(T) and 'T' not in T and not prot2:
                out.append(('order', path, where, fn, 'a later loop touches it at %s without waiting for this one to end' % w2))
                break
    return out


def run(ctx):
    p = ctx.program('omp')
    if p.bad_units and len(p.bad_units) > 10:
        ctx.broken('the OpenMP configuration does not parse: %s' % p.bad_units[:5])
    ctx.rule('In every OpenMP region each write to memory that threads share goes to an element owned by the iteration or by the '
             'thread, or is protected by critical/atomic/lock/single, or is a reduction; shared data written in one phase are not '
             'touched by other threads before a barrier; private copies are set before they are read.')
    ctx.assumptions += ['the entries of a list indexed by the loop variable (active cells, stars, sinks) are distinct',
                        'the linked list of particles of a tree cell contains no particle of another cell',
                        'distinct names reach distinct objects unless assigned within the functions analysed']
    E = Effects(p)
    n = 0
    for f in src_functions(p):
        if not any(o[2].startswith('parallel') for o in find(f.body, 'omp')):
            continue
        R = Region(E, f)
        R.run()
        for r in R.regions:
            n += 1
            where = f.where(r['line'])
            ctx.count('parallel regions')
            ctx.count('accesses to shared memory', len(r['ev']))
            bad = conflicts(f, r)
            for rule, path, w, fn, msg in bad:
                nm = show(f, path)
                ctx.bad('race-' + rule, w, '%s: %s in %s' % (f.name, nm, fn.split('<')[0]),
                        'in the parallel region of %s (%s), %s (accessed in %s) %s' % (f.label(), where, nm, fn, msg))
            for vid, line in r['uninit'].items():
                nm = f.locals[vid][0]
                ctx.bad('race-private', f.where(line), '%s: %s' % (f.name, nm),
                        'the private copy of %s is read before it is set in the parallel region of %s (%s)' % (nm, f.label(), where))
            if not bad:
                ctx.ok('race', where, '%s: %d shared accesses in %d phases' % (f.label(), len(r['ev']), r['phase'] + 1))
    ctx.count('functions summarised', E.stats['functions'])
    ctx.floor('parallel regions', n, 40)
