"""P12: a walk of a tree visits every cell it may not discard, and lists every particle it must."""
from fractions import Fraction as Fr
from absint import State, V, Giveup
from pathwalk import WalkDom, WalkInterp, LoopRec, Stop, near
from cells import Canon, names, FLAGS
from pairs import P, ZERO, ONE, A, sym, fun, akey, atoms_of, Subst, lf
from terms import TooBig, clear
import terms
from par import pmap
from overflow import run_overflow

K = sym(('kr',))
CFIELDS = ('rcell', 'rmax', 'hmax', 'bb', 'hbox', 'vbox', 'cdistsqd', 'r', 'v', 'm', 'q', 'macfactor', 'amin', 'maxsound', 'worktot', 'N', 'Nactive',
           'level', 'ifirst', 'ilast', 'copen', 'cnext', 'id', 'parent', 'c1', 'c2', 'c2g', 'k_divide', 'hrangesqd')


def kernrange(q):
    def f(k):
        if k[0] == 'v' and isinstance(k[1], tuple) and k[1] and isinstance(k[1][-1], tuple) and k[1][-1][0] == '.' and k[1][-1][1].split('::')[-1] in ('kernrange', '_kernrange'):
            return K
        return None
    return Subst(f)(q)


def leafsyms(q):
    return [akey(a)[1] for a in atoms_of(q) if akey(a)[0] == 'v' and isinstance(akey(a)[1], tuple)]


class Query(object):
    """what the particles are searched for: a cell, a point with a radius, or a star"""

    def __init__(self, f):
        self.kind = None
        self.root = None
        self.h = None
        fl = []
        for i in f.params:
            nm, ty = f.locals[i][0], f.locals[i][1]
            t = ty.replace('const ', '').strip()
            if 'TreeCellBase' in t and self.kind is None:
                self.kind, self.root = 'cell', ('P', nm)
            elif nm == 'p' and 'Particle' in t and self.kind is None:
                self.kind, self.root = 'particle', ('P', nm)
            elif 'NbodyParticle' in t and self.kind is None:
                self.kind, self.root = 'star', ('P', nm)
            elif t in ('double *', 'float *') and self.kind is None:
                self.kind, self.root = 'point', ('P', nm)
            elif t in ('double', 'float'):
                fl.append(('L', 1, i, nm))
        self.fl = fl
        if self.kind == 'cell':
            self.reach = K * sym(fl[0]) if fl else K * sym(('Q', 'hmax'))
            self.given = bool(fl)
        elif self.kind == 'point':
            self.reach = sym(fl[0]) if fl else None
            self.given = True

    def pos(self, k):
        if self.kind == 'cell':
            return sym(('Q', 'rcell', k))
        if self.kind in ('star', 'particle'):
            return sym(('Q', 'r', k))
        return sym(('Q', k))

    def rmax(self):
        return sym(('Q', 'rmax')) if self.kind == 'cell' else ZERO

    def canon(self, objs):
        o = list(objs)
        if self.kind == 'star':
            o.append((self.root + (('[', 0),), 'Q'))
        o.append((self.root, 'Q'))
        return Canon(o)


MODES = {'ComputeGatherNeighbourList': ('gather',), 'ComputeNeighbourList': ('gather', 'scatter'),
         'ComputeNeighbourAndGhostList': ('gather', 'scatter'), 'ComputeGravityInteractionAndGhostList': ('gather', 'scatter'),
         'ComputeStarGravityInteractionList': ('mean',)}
PERIODIC = {'ComputeNeighbourAndGhostList', 'ComputeGravityInteractionAndGhostList'}
GRAVITY = {'ComputeGravityInteractionAndGhostList', 'ComputeStarGravityInteractionList'}


def nonneg(q):
    """a polynomial in non-negative quantities with non-negative coefficients"""
    return all(c >= 0 for c in q.t.values()) and not any(akey(a)[0] in ('f', 'p') for a in atoms_of(q))


class Sep(object):
    """which interactions the facts of a path rule out between the query and a candidate (cell X or particle J)"""

    def __init__(self, nd, query, cand, modes, periodic, canon):
        self.nd, self.q, self.cand, self.modes, self.per, self.canon = nd, query, cand, modes, periodic, canon
        self.centre = [sym((cand, 'rcell' if cand == 'X' else 'r', k)) for k in range(nd)]

    def cn(self, p):
        q = clear(kernrange(self.canon(p)))
        return Subst(lambda k: None, lambda n, a: near(a[0], int(n[4:])) if n.startswith('near') and isinstance(a[0], type(q)) else None)(q)

    def disp(self, k):
        d = self.centre[k] - self.q.pos(k)
        return near(d, k) if self.per else d

    def need2(self, mode):
        if self.q.kind == 'particle':
            return sym(('Q' if mode == 'gather' else 'J', 'hrangesqd'))
        return self.need(mode) ** 2

    def need(self, mode):
        c = sym((self.cand, 'rmax')) if self.cand == 'X' else ZERO
        base = c + self.q.rmax()
        ch = sym((self.cand, 'hmax' if self.cand == 'X' else 'h'))
        if mode == 'gather':
            return base + self.q.reach
        if mode == 'scatter':
            return base + K * ch
        if mode == 'mean':
            return base + K * (sym(('Q', 'h')) + ch) / 2

    def ispos(self, l):
        return l[0] in ('X', 'J', 'Q') and (len(l) > 1 and l[1] in ('rcell', 'r', 'bb', 'hbox', 'min', 'max', 'vbox') or l[0] == 'Q' and self.q.kind == 'point')

    def free(self, q):
        return not any(self.ispos(l) for l in leafsyms(q))

    def known(self, q):
        for a in atoms_of(q):
            k = akey(a)
            if k[0] == 'f' and not k[1].startswith('near') or k[0] == 'p' or k[0] == 'i':
                return False
            if k[0] == 'v':
                l = k[1]
                if l in [x for x in self.q.fl] or l == ('kr',):
                    continue
                if not (isinstance(l, tuple) and l[0] in ('X', 'J', 'Q')):
                    return False
                if l[0] == 'X' and l[1] not in CFIELDS or l[0] == 'J' and l[1] not in ('r', 'h', 'hrangesqd'):
                    return False
                if l[0] == 'Q' and self.q.kind == 'particle' and l[1] not in ('r', 'h', 'hrangesqd'):
                    return False
                if l[0] == 'Q' and self.q.kind == 'cell' and l[1] not in CFIELDS:
                    return False
        return True

    def radial(self, q):
        """q >= 0 as |displacement|^2 >= R: R, or None"""
        try:
            d2 = ZERO
            for k in range(self.nd):
                d2 = d2 + self.disp(k) ** 2
        except TooBig:
            return None
        m = next(iter((self.disp(0) ** 2).t)) if self.per else ((list(atoms_of(self.centre[0]))[0], Fr(2)),)
        l = q.t.get(m, 0)
        if l <= 0:
            return 'inside' if l < 0 else None
        R = d2 - q / l
        return R if self.free(R) and not any(akey(a)[0] == 'f' for a in atoms_of(R)) else None

    def axis(self, q):
        """q >= 0 as +-displacement_k >= L"""
        for k in range(self.nd):
            d = self.disp(k)
            m = next(iter(d.t))
            c = q.t.get(m, 0)
            if c:
                L = d * (1 if c / d.t[m] > 0 else -1) - q / abs(c / d.t[m])
                if self.free(L) and not any(akey(a)[0] == 'f' for a in atoms_of(L)):
                    return L
        return None

    def edges(self, q):
        """q >= 0 as a gap between a face of a box of the candidate and one of the query"""
        if self.cand != 'X' or self.q.kind != 'cell':
            return None
        for k in range(self.nd):
            for cb in ('bb', 'hbox'):
                for qb in ('bb', 'hbox'):
                    for d in (sym(('X', cb, 'min', k)) - sym(('Q', qb, 'max', k)), sym(('Q', qb, 'min', k)) - sym(('X', cb, 'max', k))):
                        m = next(iter(d.t))
                        c = q.t.get(m, 0)
                        if c and c / d.t[m] > 0:
                            e = d - q / (c / d.t[m])
                            if self.free(e):
                                return cb, qb, e
        return None

    def orders(self, facts):
        """quantities that the facts of the path order: (larger, smaller times a factor)"""
        out = []
        for k, b in facts:
            if k[1] != 'pos':
                continue
            q = self.cn(terms._polyobj[k[2]])
            q = q if b else -q
            if len(q.t) != 2:
                continue
            (m1, c1), (m2, c2) = sorted(q.t.items(), key=lambda x: -x[1])
            d1, d2 = dict(m1), dict(m2)
            for a in list(d1):
                if a in d2 and d1[a] == d2[a] and akey(a)[0] == 'v' and A(akey(a)) == K:
                    del d1[a], d2[a]
            if c1 > 0 > c2 and len(d1) == len(d2) == 1 and set(d1.values()) == set(d2.values()) == {1}:
                (u,), (v,) = d1, d2
                if akey(u)[0] == akey(v)[0] == 'v':
                    out.append((akey(u), A(akey(v)) * (-c2 / c1)))
        return out

    def covers(self, R, need):
        if nonneg(R - need):
            return True
        if nonneg(R):
            for u, w in self.order:
                x = Subst(lambda k: w if k == u else None)(R)
                if nonneg(x - need):
                    return True
        return False

    def boxside(self, lo, hi):
        """(whose box, which box, margin) of one side of a box overlap test"""
        for w in ('Q', 'X'):
            for b in ('hbox', 'bb'):
                es = set()
                for k in range(self.nd):
                    e1 = sym((w, b, 'min', k)) - lo[k]
                    e2 = hi[k] - sym((w, b, 'max', k))
                    es.add(e1)
                    es.add(e2)
                if len(es) == 1:
                    e = es.pop()
                    if self.free(e):
                        return w, b, e
        return None

    def boxproves(self, cb, qb, e):
        out = set()
        if 'gather' in self.modes and (qb == 'hbox' and not self.q.given and nonneg(e) or nonneg(e - self.q.reach)):
            out.add('gather')
        if 'scatter' in self.modes and (cb == 'hbox' and nonneg(e) or nonneg(e - K * sym(('X', 'hmax')))):
            out.add('scatter')
        return out

    def run(self, facts):
        """(modes proved, unrecognised geometric facts, recognised geometric facts)"""
        proved, unknown, seen = set(), [], []
        self.order = self.orders(facts)
        for k, b in facts:
            if k[1] in ('boxov', 'pboxov'):
                pa = [[self.cn(terms._polyobj[i]) for i in side] for side in k[3]]
                sides = [self.boxside(x[:self.nd], x[self.nd:]) for x in pa]
                if b:
                    continue
                if None in sides or {s[0] for s in sides} != {'Q', 'X'}:
                    if all(self.known(y) for x in pa for y in x):
                        seen.append((k, b))
                    else:
                        unknown.append((k, b))
                    continue
                if (k[1] == 'pboxov') != self.per and self.per:
                    seen.append((k, b))
                    continue
                q = [s for s in sides if s[0] == 'Q'][0]
                x = [s for s in sides if s[0] == 'X'][0]
                e = q[2] + x[2]
                seen.append((k, b))
                proved |= self.boxproves(x[1], q[1], e)
                continue
            if k[1] not in ('pos', 'ipos'):
                if any(self.ispos(l) for l in leafsyms(self.cn(A(k)))):
                    unknown.append((k, b))
                elif k[1] == 'opaque':
                    unknown.append((k, b))
                continue
            q = self.cn(terms._polyobj[k[2]])
            if not b:
                q = -q
            ls = leafsyms(q)
            if not any(self.ispos(l) and l[0] == self.cand for l in ls):
                continue
            if any(akey(a)[0] == 'i' for a in atoms_of(q)):
                unknown.append((k, b))
                continue
            R = self.radial(q)
            if isinstance(R, str):
                continue
            if R is not None:
                seen.append((k, b))
                for m in self.modes:
                    if self.covers(R, self.need2(m)):
                        proved.add(m)
                continue
            L = self.axis(q)
            if L is not None:
                seen.append((k, b))
                for m in (self.modes if self.q.kind != 'particle' else ()):
                    if self.covers(L, self.need(m)):
                        proved.add(m)
                continue
            ed = self.edges(q)
            if ed is not None:
                seen.append((k, b))
                proved |= self.boxproves(*ed)
                continue
            if self.known(q):
                seen.append((k, b))
            else:
                unknown.append((k, b))
        return proved, unknown, seen


def fieldis(q, obj, f):
    ks = [akey(a) for a in atoms_of(q, deep=False)] if q is not None and len(q.t) == 1 else []
    if len(ks) == 1 and ks[0][0] == 'v' and isinstance(ks[0][1], tuple) and q == sym(ks[0][1]):
        l = ks[0][1]
        return l[:len(obj)] == obj and names(l[len(obj):]) == (f,)
    return False


def symloc(q):
    ks = [akey(a) for a in atoms_of(q, deep=False)] if q is not None and len(q.t) == 1 else []
    if len(ks) == 1 and ks[0][0] == 'v' and isinstance(ks[0][1], tuple) and q == sym(ks[0][1]):
        return ks[0][1]
    return None


def walkvar(L):
    """(location of the cell index, path of the cell) of a tree walk"""
    for k, v in L.start.items():
        if v.d is None:
            continue
        for p in L.paths:
            if p.state is None or p.exit != 'next':
                continue
            l = symloc(L.value(p, k))
            if l and isinstance(l[-1], tuple) and l[-1][0] == '.' and l[-1][1].split('::')[-1] in ('copen', 'cnext'):
                o = l[:-1]
                if isinstance(o[-1], tuple) and o[-1][0] == '[' and isinstance(o[-1][1], tuple) and terms._polyobj[o[-1][1][1]] == v.d:
                    return k, o
    return None


def loops_in(paths, out=None):
    out = [] if out is None else out
    for p in paths:
        for e in p.events:
            if e[0] == 'loop':
                out.append(e[1])
                loops_in(e[1].paths, out)
    return out


def hasfact(facts, q, b):
    """the decision 'q == 0' is b"""
    w = terms.eqz(q)
    for k, v in facts:
        if A(k) == w and v == b:
            return True
        if ONE - A(k) == w and v != b:
            return True
    return False


def listname(loc):
    n = [x for x in names(loc) if isinstance(x, str)]
    return n[-1] if n else '?'


def cls_of(ln):
    if 'grav' in ln and 'cell' in ln:
        return 'multipole'
    if 'direct' in ln:
        return 'direct'
    return 'neib'


def deadfact(facts, canon):
    for k, b in facts:
        if k[1] == 'eq0':
            q = canon(terms._polyobj[k[2]])
            ks = [akey(a) for a in atoms_of(q, deep=False)]
            if len(ks) == 1 and ks[0][0] == 'f' and ks[0][1] == 'bits' and q == A(ks[0]) and int(terms._polyobj[ks[0][3]].const()) == FLAGS['dead']:
                if any(l[0] == 'J' for l in leafsyms(q)):
                    return not b
    return None


def anydead(facts):
    """decision on the dead flag of any one particle"""
    for k, b in facts:
        if k[1] == 'eq0':
            q = terms._polyobj[k[2]]
            ks = [akey(a) for a in atoms_of(q, deep=False)]
            if len(ks) == 1 and ks[0][0] == 'f' and ks[0][1] == 'bits' and q == A(ks[0]) and int(terms._polyobj[ks[0][3]].const()) == FLAGS['dead']:
                return not b
    return None


def enclosing(paths, L):
    """facts of the iterations of outer loops in which the loop L runs"""
    out = []
    for p in paths:
        for e in p.events:
            if e[0] == 'loop' and e[1] is not L:
                for x in e[1].paths:
                    if any(y[0] == 'loop' and y[1] is L for y in x.events):
                        out.append(x.facts)
                out += enclosing(e[1].paths, L)
    return out


def particle_objs(facts, ix):
    """paths of the particle whose index is the value ix"""
    out = set()
    for k, b in facts:
        ps = [A(k)] if k[1] not in ('boxov', 'pboxov', 'open') else []
        for q in ps:
            for l in leafsyms(q):
                for i, x in enumerate(l):
                    if isinstance(x, tuple) and len(x) == 2 and x[0] == '[' and isinstance(x[1], tuple) and x[1] and x[1][0] == 't' and terms._polyobj[x[1][1]] == ix and i + 1 < len(l):
                        out.add(l[:i + 1])
    return out


class WalkCheck(object):
    def __init__(self, ctx, p, f, name):
        self.ctx, self.p, self.f, self.name, self.nd = ctx, p, f, name, f.ndim()
        self.q = Query(f)
        self.modes = MODES[name]
        self.per = name in PERIODIC
        self.gravity = name in GRAVITY
        self.und = 0

    def bad(self, what, msg, L=None):
        self.ctx.bad('walk', self.f.where(), '%s(%s)|%s' % (self.name, self.q.kind, what), msg)

    def ok(self, what):
        self.ctx.ok('walk', self.f.where(), '%s(%s,%dD)|%s' % (self.name, self.q.kind, self.nd, what))

    def undecided(self, why=''):
        self.und += 1
        self.ctx.count('undecided paths')

    def run(self):
        D = WalkDom(self.p)
        I = WalkInterp(self.p, D, self.nd, maxdepth=5)
        try:
            paths = I.paths_of(self.f)
        except (Stop, TooBig, Giveup):
            self.undecided()
            return False
        found = False
        done = set()
        # the list is passed over again (here or by the code that takes it over), where dead particles are dropped
        self.filtered = any('NeighbourManager' in self.f.locals[i][1] for i in self.f.params) or any(self.istrim(L) for L in loops_in(paths))
        for top in paths:
            for ev in top.events:
                if ev[0] != 'loop' or id(ev[1]) in done:
                    continue
                done.add(id(ev[1]))
                L = ev[1]
                w = walkvar(L)
                if w is not None:
                    found = True
                    self.walk(L, *w)
                else:
                    self.trim(L, top)
        if not found:
            self.undecided()
        else:
            self.full(paths)
        return found

    def full(self, paths):
        """a list that is already marked as too small stays marked, and nothing is written to it"""
        if self.f.h['ret'] != 'int':
            return
        for i in self.f.params:
            nm, ty = self.f.locals[i][0], self.f.locals[i][1].replace('const ', '').strip()
            if ty != 'int &':
                continue
            for top in paths:
                walks = [e[1] for e in top.events if e[0] == 'loop' and walkvar(e[1]) is not None]
                if not walks:
                    continue
                reset = used = excluded = False
                for L in walks:
                    for k, v in L.start.items():
                        b = L.before.get(k)
                        if names(k)[-1:] == (nm,) or k == ('P', nm) or (len(k) > 2 and k[2] == i):
                            used = True
                            if b is not None and b.d is not None and b.d.const() is not None:
                                reset = True
                        elif b is not None and b.d is not None and any(l[-1] == nm or len(l) > 2 and l[2] == i for l in leafsyms(b.d)):
                            used = True
                if reset or not used:
                    continue
                for k, b in top.facts:
                    if k[1] not in ('eq0', 'pos', 'ipos'):
                        continue
                    q = terms._polyobj[k[2]]
                    ls = leafsyms(q)
                    if len(ls) != 1 or not (ls[0][-1] == nm or len(ls[0]) > 2 and ls[0][2] == i):
                        continue
                    a = Subst(lambda x: -ONE if x[0] == 'v' and x[1] == ls[0] else None)(q).const()
                    if a is not None and (a == 0 if k[1] == 'eq0' else a > 0) != b:
                        excluded = True
                if excluded:
                    self.ok('a list that is too small is left alone')
                else:
                    self.bad('full', 'a list marked as too small (-1 entries) is searched further, so that the mark is lost')

    # -- one walk ----------------------------------------------------------------------------------
    def walk(self, L, var, X):
        b = L.before[var]
        if b is not None and b.d is not None:
            if b.d.const() is not None and b.d != ZERO:
                self.bad('root', 'the walk does not start at the root cell')
            elif b.d == ZERO:
                self.ok('starts at the root')
        self.X = X
        canon = self.q.canon([(X, 'X')])
        for p in L.paths:
            if p.exit in ('done', 'dead'):
                continue
            self.path(L, p, var, X, canon)

    def adds(self, evs):
        """(list, value, loop) of the entries a path makes; copies of the data of a listed particle are not entries"""
        out = []
        for e in evs:
            if e[0] == 'store':
                out.append((listname(e[1]), e[3], e))
            elif e[0] == 'push':
                out.append((listname(e[1]), e[2], e))
            elif e[0] == 'copy':
                out.append((listname(e[1]), None, e))
        return out

    def path(self, L, p, var, X, canon):
        facts = p.facts
        copen, N = sym(X + (('.', 'x'),)), None
        cf = [l for l in [symloc(terms._polyobj[k[2]]) or None for k, b in facts if k[1] == 'eq0'] if l]
        leaf = empty = inner = None
        nval = None
        for k, b in facts:
            if k[1] != 'eq0':
                continue
            q = canon(terms._polyobj[k[2]])
            if q == sym(('X', 'copen')) + 1:
                leaf = b
            elif q == sym(('X', 'N')):
                empty = b
            elif q == sym(('X', 'N')) - 1 or q == 1 - sym(('X', 'N')):
                if b:
                    nval = 1
            elif q == sym(('X', 'ifirst')) + 1 and b:
                empty = True
        adds = self.adds(p.events)
        walks = [e[1] for e in p.events if e[0] == 'loop']
        if p.exit == 'return':
            r = p.ret.d.const() if p.ret is not None and p.ret.d is not None else None
            if self.f.h['ret'] == 'void' or r is None or r >= 0:
                if p.ret is None or p.ret.d is None or r is not None:
                    self.bad('stops', 'the walk ends before every cell has been examined')
                else:
                    self.undecided()
            return
        if p.exit == 'break':
            self.undecided()
            return
        end = L.value(p, var)
        if end is None or end == L.start[var].d:
            self.bad('no progress', 'on a path of the walk the cell does not change')
            return
        opens, nexts = fieldis(end, X, 'copen'), fieldis(end, X, 'cnext')
        if not opens and not nexts:
            self.undecided()
            return
        if opens:
            if leaf is None:
                self.bad('open leaf', 'a cell is opened without knowing that it has children')
            elif leaf:
                self.bad('open leaf', 'a leaf cell is opened')
            elif adds or walks and any(self.adds(x.events) for w in walks for x in w.paths):
                self.bad('open and add', 'particles of a cell are listed and the cell is opened as well')
            else:
                self.ok('opens an inner cell')
            return
        sep = Sep(self.nd, self.q, 'X', self.modes, self.per, canon)
        proved, unknown, seen = sep.run(facts)
        allsep = set(self.modes) <= proved
        leafs = []
        for w in walks:
            r = self.leafloop(w, X)
            if r is not None:
                leafs.append((w, r))
            elif any(self.adds(x.events) for x in w.paths):
                self.undecided()
                return
        multi = [a for a in adds if cls_of(a[0]) == 'multipole']
        single = [a for a in adds if a not in multi and a[1] is not None and fieldis(a[1], X, 'ifirst')]
        other = [a for a in adds if a not in multi and a not in single]
        if other:
            self.undecided()
            return
        n = len(leafs) + (1 if multi else 0) + len(single)
        if n > 1:
            self.bad('twice', 'the particles of a cell are listed twice')
            return
        if n == 0:
            if empty:
                self.ok('skips an empty cell')
                return
            if self.gravity and self.name != 'x':
                # nothing may be dropped: every cell exerts gravity
                dead = [1 for k, b in facts if k[1] == 'eq0' and 'bits' in str(k)]
                self.skipg(p, facts, canon, X, empty, nval, unknown)
                return
            if allsep:
                self.ok('discards a cell out of range')
            elif unknown:
                self.undecided()
            else:
                miss = [m for m in self.modes if m not in proved]
                self.bad('discard', 'a cell is skipped although its particles may be within range (%s)' % ', '.join(miss))
            return
        # particles or multipole listed
        if single and nval != 1:
            self.bad('single', 'only the first particle of a cell is listed without knowing that it is the only one')
            return
        for w, r in leafs:
            if leaf is False:
                pass
        kinds = [(cls_of(a[0]), facts) for a in multi + single] + [(c, facts + y) for w, r in leafs for c, y in self.kinds(w, r)]
        for kind, kf in kinds:
            if not self.gravity or kind == 'neib':
                continue
            pr, unk = (proved, unknown) if kf is facts else sep.run(kf)[:2]
            if set(self.modes) <= pr:
                self.ok('distant contributions lie outside the kernels')
            elif unk:
                self.undecided()
            else:
                self.bad('unsoftened', 'particles that may overlap the smoothing kernel are treated as distant (%s)' % kind)
            if kind == 'multipole':
                self.mac(facts, sep, X)
                self.moment(multi, X, p)
        for a in single + multi:
            self.counter(L, p, a)
        for a in single:
            self.alive(facts, a[1])
        self.ok('lists the particles of a cell')
        self.room(L, p, leafs, single, multi)

    def skipg(self, p, facts, canon, X, empty, nval, unknown):
        d = [b for k, b in facts if k[1] == 'eq0' and any('_flag' in l or 'flags' in l for l in map(names, leafsyms(A(k))))]
        if nval == 1 and d and not d[-1]:
            self.ok('skips a dead particle')
        elif [1 for k, b in facts if k[1] == 'opaque']:
            self.undecided()
        else:
            self.bad('lost cell', 'a cell that may contain particles contributes nothing to gravity')

    def mac(self, facts, sep, X):
        got = None
        for k, b in facts:
            if k[1] == 'open' and not b:
                xl = k[4]
                args = [sep.cn(terms._polyobj[i]) if i is not None else None for i in k[3]]
                d2 = ZERO
                for j in range(self.nd):
                    d2 = d2 + sep.disp(j) ** 2
                good = xl == X and len(args) == 3 and args[0] == d2 and args[1] == sym(('Q', 'macfactor')) and args[2] == sym(('Q', 'amin'))
                if xl == X and len(args) == 3 and None not in args:
                    got = good if got is not True else True
                else:
                    got = got if got is not None else 'und'
            elif k[1] == 'pos':
                q = sep.cn(terms._polyobj[k[2]])
                if any(l == ('X', 'cdistsqd') for l in leafsyms(q)):
                    R = sep.radial(q if b else -q)
                    if R is not None and not isinstance(R, str):
                        got = nonneg(R - sym(('X', 'cdistsqd'))) or got is True
        if got is None:
            self.bad('mac', 'the multipole moment of a cell is used without the opening criterion')
        elif got is False:
            self.bad('mac', 'the opening criterion is applied to other quantities than the cell, its distance and the parameters of the target cell')
        elif got == 'und':
            self.undecided()
        else:
            self.ok('multipole accepted by the opening criterion')

    def moment(self, multi, X, p):
        """every member of a multipole entry is that member of the cell examined"""
        for ln, v, e in multi:
            if e[0] == 'push' and e[3] is not None:
                st, objs = e[4], [e[3]]
            elif e[0] == 'copy':
                st, objs = p.state, [e[1], e[2]]
            else:
                continue
            if st is None:
                continue
            for l, val in st.m.items():
                for o in objs:
                    if l[:len(o)] != o or val.d is None:
                        continue
                    n = names(l[len(o):])
                    s = symloc(val.d)
                    if s is not None and s[:len(X)] == X:
                        if names(s[len(X):]) != n:
                            self.bad('moment', '%s of the multipole entry is %s of the cell' % (n, names(s[len(X):])))
                        else:
                            self.ok('moment %s' % (n,))
                    elif s is not None and self.q.root and s[:len(self.q.root)] == self.q.root:
                        self.bad('moment', '%s of the multipole entry is taken from the target of the search' % (n,))
                    elif s is not None and len(s) > len(X) and s[:len(X) - 1] == X[:-1]:
                        self.bad('moment', '%s of the multipole entry is taken from another cell' % (n,))

    # -- particles of a leaf -----------------------------------------------------------------------
    def kinds(self, w, r):
        """the lists that the particles of a leaf enter, with the decisions made inside the loop"""
        out = [(cls_of(a[0]), x.facts) for x in w.paths for a in self.adds(x.events)]
        return out or [(cls_of(r), [])]

    def leafloop(self, w, X):
        """checks the traversal of the particles of a leaf; name of the list they enter"""
        iv = None
        for k, v in w.before.items():
            if v is not None and v.d is not None and fieldis(v.d, X, 'ifirst') and k in w.start:
                iv = k
        if iv is None:
            if any(self.adds(x.events) for x in w.paths):
                for k, v in w.before.items():
                    if v is not None and v.d is not None and k in w.start and w.start[k].d is not None:
                        for x in w.paths:
                            if x.exit == 'next' and self.isnext(w.value(x, k), w.start[k].d):
                                if fieldis(v.d, X, 'ilast') or v.d.const() is not None:
                                    self.bad('first', 'the traversal of a leaf does not start at its first particle')
                                    return 'neiblist'
            return None
        i = w.start[iv].d
        ln = None
        for x in w.paths:
            if x.exit in ('done', 'dead'):
                if x.exit == 'done' and not hasfact(x.facts, i + 1, True):
                    if not self.lastfact(x.facts, i, X) is True:
                        self.undecided()
                continue
            last = self.lastfact(x.facts, i, X)
            adds = [a for a in self.adds(x.events) if a[1] is not None and a[1] == i]
            calls = [e for e in x.events if e[0] == 'call' and any(isinstance(a, type(i)) and a == i for a in e[2])]
            wrong = [a for a in self.adds(x.events) if a[1] is not None and a[1] != i]
            if wrong and not adds:
                self.undecided()
                return ln or 'neiblist'
            if len({a[0] for a in adds}) != len(adds) or len(adds) > 1:
                self.bad('particle twice', 'a particle of a leaf is listed twice')
            if not adds and not calls:
                self.skip(x, i)
            for a in adds:
                ln = a[0]
                if not wrong:
                    self.counter(w, x, a)
                    self.alive(x.facts, i)
            if x.exit == 'break':
                if last is True:
                    self.ok('stops at the last particle of a leaf')
                elif not hasfact(x.facts, i + 1, True) and not (self.isnext(w.value(x, iv), i) and hasfact(x.facts, w.value(x, iv) + 1, True)):
                    self.bad('early', 'the traversal of a leaf can stop before its last particle')
            elif x.exit == 'next':
                e = w.value(x, iv)
                if e is not None and e.const() == -1 and last is True:
                    self.ok('stops at the last particle of a leaf')
                elif self.isnext(e, i):
                    if last is False:
                        self.ok('continues with the next particle of the leaf')
                    elif last is True:
                        self.bad('beyond', 'the traversal of a leaf continues after its last particle')
                    else:
                        self.bad('beyond', 'the traversal of a leaf does not end at its last particle')
                elif e == i:
                    self.bad('stuck', 'the traversal of a leaf does not advance')
                else:
                    self.undecided()
            elif x.exit == 'return':
                self.undecided()
        return ln or 'neiblist'

    def lastfact(self, facts, i, X):
        for k, b in facts:
            if k[1] == 'eq0':
                q = terms._polyobj[k[2]]
                for s in (1, -1):
                    if fieldis(i - q * s, X, 'ilast'):
                        return b
        return None

    def isnext(self, e, i):
        l = symloc(e)
        return bool(l) and isinstance(l[-1], tuple) and l[-1][0] == '[' and isinstance(l[-1][1], tuple) and terms._polyobj[l[-1][1][1]] == i and 'inext' in names(l)

    def counter(self, w, x, a):
        """an entry of an array is made at a counter that then moves on by one"""
        e = a[2]
        if e[0] == 'store':
            t = e[2]
        elif e[0] == 'copy' and isinstance(e[1][-1], tuple) and e[1][-1][0] == '[':
            t = e[1][-1][1]
        else:
            return
        if not (isinstance(t, tuple) and t[0] == 't'):
            return
        ix = terms._polyobj[t[1]]
        for k, v in w.start.items():
            if v.d is not None and v.d == ix:
                n = w.value(x, k)
                if n is not None and n != ix + 1:
                    self.bad('counter', 'the counter of the list does not advance by one with the entry')
                elif n is not None:
                    self.ok('entry counted')
                return
        if any(v.d is not None and v.d + 1 == ix and w.value(x, k) == ix for k, v in w.start.items()):
            self.bad('counter', 'an entry of the list is left out')

    def alive(self, facts, ix, late=False):
        """a search that nothing examines afterwards lists no dead particle"""
        if not late and self.filtered:
            return
        objs = particle_objs(facts, ix)
        dead = deadfact(facts, self.q.canon([(o, 'J') for o in objs]))
        if dead is False:
            self.ok('a listed particle is alive')
        elif any(k[1] == 'opaque' for k, b in facts):
            self.undecided()
        else:
            self.bad('dead', 'a dead particle may be listed')

    def skip(self, x, ix):
        objs = particle_objs(x.facts, ix)
        canon = self.q.canon([(o, 'J') for o in objs])
        dead = deadfact(x.facts, canon)
        if dead:
            self.ok('skips a dead particle')
            return
        sep = Sep(self.nd, self.q, 'J', self.modes, self.per, canon)
        proved, unknown, seen = sep.run(x.facts)
        if set(self.modes) <= proved:
            self.ok('skips a particle out of range')
        elif unknown:
            self.undecided()
        else:
            self.bad('particle', 'a particle is left out although it may be within range')

    # -- trimming ----------------------------------------------------------------------------------
    def kept(self, L):
        src = set()
        keeps = []
        for x in L.paths:
            for ln, v, e in self.adds(x.events):
                if e[0] == 'store' and v is not None:
                    l = symloc(v)
                    if l and l[:-1] == e[1] or (l and isinstance(l[-1], tuple) and l[-1][0] == '[' and listname(l[:-1]) == ln):
                        src.add(v)
                        keeps.append((x, e))
        return src, keeps

    def istrim(self, L):
        return walkvar(L) is None and len(self.kept(L)[0]) == 1

    def trim(self, L, top):
        """a pass over the list that keeps the particles within range"""
        src, keeps = self.kept(L)
        if len(src) != 1:
            return
        ix = src.pop()
        j = None
        l = symloc(ix)
        if isinstance(l[-1][1], tuple):
            jv = terms._polyobj[l[-1][1][1]]
            for k, v in L.start.items():
                if v.d is not None and v.d == jv:
                    j = k
        if j is None:
            self.undecided()
            return
        cnt = None
        for x in L.paths:
            if x.exit in ('done', 'dead'):
                continue
            if x.exit != 'next':
                self.undecided()
                continue
            if L.value(x, j) != L.start[j].d + 1:
                self.undecided()
            ks = [e for y, e in keeps if y is x]
            if len(ks) > 1:
                self.bad('trim twice', 'a particle is kept twice')
            if not ks:
                self.skip(x, ix)
            for e in ks:
                self.counter(L, x, (None, ix, e))
                self.alive(x.facts, ix, True)
                for c in x.events:
                    if c[0] == 'copy':
                        if c[1][-1] != ('[', e[2]):
                            self.bad('copy', 'the copy of a listed particle is stored at another place than its index')
                        elif isinstance(c[2][-1], tuple) and c[2][-1][0] == '[' and isinstance(c[2][-1][1], tuple) and terms._polyobj[c[2][-1][1][1]] != ix:
                            self.bad('copy', 'the copy of a listed particle is taken from another particle')
                        else:
                            self.ok('copy of the listed particle')
        # the pass starts where the list of this walk starts
        b = L.before.get(j)
        for k, v in L.start.items():
            if v.d is not None and any(isinstance(e[2], tuple) and e[2][0] == 't' and terms._polyobj[e[2][1]] == v.d for y, e in keeps):
                w = L.before.get(k)
                w0 = w.d if w is not None and w.d is not None else sym(k)
                if b is not None and b.d is not None and w0 is not None:
                    if b.d == w0:
                        self.ok('trims the whole list of the walk')
                    elif (b.d - w0).const() is not None or b.d.const() is not None:
                        self.bad('trim range', 'the pass over the list does not start at its first new entry')

    # -- room --------------------------------------------------------------------------------------
    def room(self, L, p, leafs, single, multi):
        """an entry is stored only after the capacity has been compared with what may be added"""
        def guard(counter, n):
            found = False
            for k, b in p.facts:
                if k[1] != 'ipos':
                    continue
                q = terms._polyobj[k[2]]
                q = q - 1 if b else -q          # q >= 0
                caps = [l for l in leafsyms(q) if l[0] == 'L' and l[1] == 1 and l[2] in self.f.params]
                cs = atoms_of(counter)
                if not caps or not (cs & atoms_of(q)):
                    continue
                found = True
                for c in caps:
                    g = sym(c) - counter - n
                    r = g - q
                    if all(v >= 0 for v in r.t.values()):
                        return True
            return False if found else None
        for w, ln in leafs:
            for x in w.paths:
                for a in self.adds(x.events):
                    if a[2][0] == 'store' and isinstance(a[2][2], tuple) and a[2][2][0] == 't':
                        ix = terms._polyobj[a[2][2][1]]
                        for k, v in w.start.items():
                            if v.d is not None and v.d == ix and w.before.get(k) is not None and w.before[k].d is not None:
                                self.guarded(guard(w.before[k].d, sym(self.nleaf(p))), ln)
        for a in single:
            e = a[2]
            if e[0] == 'store' and isinstance(e[2], tuple):
                self.guarded(guard(terms._polyobj[e[2][1]], ONE), a[0])

    def nleaf(self, p):
        for k, b in p.facts:
            if k[1] == 'ipos':
                for l in leafsyms(terms._polyobj[k[2]]):
                    if names(l)[-1] == 'Nleafmax':
                        return l
        return ('no Nleafmax',)

    def guarded(self, g, ln):
        if g:
            self.ok('room in %s' % ln)
        elif g is False:
            self.bad('room', 'the list %s can be filled beyond its capacity' % ln)
        else:
            self.bad('room', 'the capacity of the list %s is not checked' % ln)


ENTRY = {'neiblist': 'hydro', 'culled_neiblist': 'hydro', 'directlist': 'direct', 'smoothgravlist': 'smooth'}
PFIELDS = {'r', 'h', 'hrangesqd', 'flags', 'ptype', 'level', 'iorig'}


class ListCheck(object):
    """the lists of the neighbour manager: every candidate enters exactly the list its distance and type call for"""

    def __init__(self, ctx, p, f, trim):
        self.ctx, self.p, self.f, self.nd, self.trimming = ctx, p, f, f.ndim(), trim
        self.q = Query(f)
        self.und = 0

    def bad(self, what, msg):
        self.ctx.bad('list', self.f.where(), '%s|%s' % (self.f.name.split('::')[-1], what), msg)

    def ok(self, what):
        self.ctx.ok('list', self.f.where(), '%s(%dD)|%s' % (self.f.name.split('::')[-1], self.nd, what))

    def undecided(self):
        self.und += 1
        self.ctx.count('undecided paths')

    def run(self):
        D = WalkDom(self.p)
        I = WalkInterp(self.p, D, self.nd, maxdepth=5)
        try:
            paths = I.paths_of(self.f)
        except (Stop, TooBig, Giveup):
            self.undecided()
            return
        seen = set()
        n = 0
        for L in loops_in(paths):
            if id(L) in seen:
                continue
            seen.add(id(L))
            es = [e for x in L.paths for e in x.events if self.entry(e)]
            if es:
                n += 1
                self.loop(L, paths)
        self.ctx.count('candidate loops', n)

    def entry(self, e):
        return e[0] in ('push', 'store') and ENTRY.get(listname(e[1]))

    def objs(self, L):
        out = {}
        for x in L.paths:
            for k, b in x.facts:
                if k[1] in ('boxov', 'pboxov', 'open'):
                    continue
                for l in leafsyms(A(k)):
                    # the type of a particle may be the index of a mask
                    todo = [l]
                    while todo:
                        m = todo.pop()
                        for i, y in enumerate(m):
                            if isinstance(y, tuple) and len(y) == 2 and y[0] == '[' and isinstance(y[1], tuple) and y[1] and y[1][0] == 't':
                                if i + 1 < len(m) and names(m[i + 1:i + 2])[0] in PFIELDS:
                                    out.setdefault(m[:i + 1], []).append(names(m[i + 1:i + 2])[0])
                                todo += leafsyms(terms._polyobj[y[1][1]])
        return out

    def mask(self, facts, J, which):
        """decision on which[type of J]: True, False, None; 'other' when the type of something else is looked up"""
        for k, b in facts:
            if k[1] != 'eq0':
                continue
            l = symloc(terms._polyobj[k[2]])
            if l and any(which in str(n) for n in names(l)) and isinstance(l[-1], tuple) and l[-1][0] == '[' and isinstance(l[-1][1], tuple):
                t = symloc(terms._polyobj[l[-1][1][1]])
                if t and t[:len(J)] == J and names(t[len(J):]) == ('ptype',):
                    return not b
                if t and names(t)[-1] == 'ptype':
                    return 'other'
        return None

    def keep(self, facts):
        for k, b in facts:
            if k[1] == 'eq0':
                l = symloc(terms._polyobj[k[2]])
                if l and l[0] == 'L' and l[1] == 1 and l[2] in self.f.params and self.f.locals[l[2]][1].replace('const ', '').strip() == 'bool':
                    return not b
        return None

    def loop(self, L, top):
        objs = self.objs(L)
        objs = {o: v for o, v in objs.items() if o[:len(self.q.root or ('?',))] != self.q.root}
        direct = False
        if not objs:
            self.undecided()
            return
        J = max(sorted(objs, key=repr), key=lambda o: len(set(objs[o]) - {'ptype'}) * 1000 + len(objs[o]))
        src = ''
        for l in [J[-1][1]]:
            if isinstance(l, tuple) and l and l[0] == 't':
                for s in leafsyms(terms._polyobj[l[1]]):
                    src += ' '.join(str(n) for n in names(s))
        distant = 'direct' in src
        keep0 = None
        for t in top:
            if any(e[0] == 'loop' and (e[1] is L or L in loops_in([Wrap(e[1])])) for e in t.events):
                keep0 = self.keep(t.facts)
                outer = t.facts
        for x in L.paths:
            if x.exit in ('done', 'dead'):
                continue
            if x.exit != 'next':
                self.undecided()
                continue
            self.path(L, x, J, distant, keep0, enclosing(top, L))
        if self.trimming and not distant and any('true' in str(a) for a in self.f.h['ft']):
            self.once(L, J)

    def once(self, L, J):
        """where each pair is computed once: of two particles on one timestep level exactly one takes the other, the one on
        the longer timestep leaves it to the other, and images are always taken"""
        canon = self.q.canon([(J, 'J')])
        qf = {n: sym(('Q', n)) for n in ('level', 'iorig')}
        jf = {n: sym(('J', n)) for n in ('level', 'iorig')}
        keeps = set()
        opaque = False
        sc = [(m, l, i) for m in (False, True) for l in (-2, -1, 0, 1, 2) for i in (-2, -1, 0, 1, 2)]
        for x in L.paths:
            if x.exit != 'next' or not any(self.entry(e) for e in x.events):
                continue
            ok = set(sc)
            for k, b in x.facts:
                if k[1] not in ('eq0', 'pos', 'ipos'):
                    if k[1] == 'opaque':
                        opaque = True
                    continue
                q = canon(terms._polyobj[k[2]])
                ks = [akey(a) for a in atoms_of(q, deep=False)]
                if len(ks) == 1 and ks[0][0] == 'f' and ks[0][1] == 'bits' and k[1] == 'eq0' and q == A(ks[0]):
                    m = int(terms._polyobj[ks[0][3]].const())
                    if m != FLAGS['dead'] and any(l[0] == 'J' for l in leafsyms(q)):
                        ok = {s for s in ok if s[0] == (not b)}
                    continue
                used = {l for l in leafsyms(q)}
                if not used or not used <= {('Q', 'level'), ('J', 'level'), ('Q', 'iorig'), ('J', 'iorig')}:
                    continue

                def holds(s):
                    val = {('Q', 'level'): 5 * ONE, ('J', 'level'): (5 - s[1]) * ONE, ('Q', 'iorig'): 7 * ONE, ('J', 'iorig'): (7 - s[2]) * ONE}
                    c = Subst(lambda a: val.get(a[1]) if a[0] == 'v' else None)(q).const()
                    if c is None:
                        return True
                    return ((c == 0) if k[1] == 'eq0' else c > 0) == b
                ok = {s for s in ok if holds(s)}
            keeps |= ok
        if opaque:
            self.undecided()
            return
        for s in sc:
            m, l, i = s
            if m or l > 0:
                if s not in keeps:
                    self.bad('once', 'a pair is computed by neither particle: %s' % ('an image is left out' if m else 'the particle on the shorter timestep leaves it to the other'))
                    return
            elif l < 0:
                if s in keeps:
                    self.bad('once', 'a pair of particles on different timestep levels can be computed twice')
                    return
            elif i == 0:
                if s in keeps:
                    self.bad('once', 'a particle is paired with itself')
                    return
            elif (s in keeps) == ((m, l, -i) in keeps):
                self.bad('once', 'a pair of particles on one timestep level is computed %s' % ('twice' if s in keeps else 'by neither'))
                return
        self.ok('each pair once')

    def path(self, L, x, J, distant, keep0, around=()):
        inner = self.q.canon([(J, 'J')])

        def start(k):
            # a member of the candidate that the loop itself corrects (its position, by a period): its value on entry
            l = k[1] if k[0] == 'v' else None
            while isinstance(l, tuple) and len(l) == 3 and l[0] == 'loop' and isinstance(l[2], tuple):
                l = l[2]
            return sym(l) if l is not None and l is not k[1] and l[:len(J)] == J else None
        first = Subst(start)

        def canon(q):
            return inner(first(q))
        ents = [(ENTRY[listname(e[1])], e) for e in x.events if self.entry(e)]
        if len(ents) > 1:
            self.bad('twice', 'a candidate enters two lists')
            return
        grav, hydro = self.mask(x.facts, J, 'gravmask'), self.mask(x.facts, J, 'hydromask')
        for w, m in (('gravmask', grav), ('hydromask', hydro)):
            if m == 'other':
                self.bad('type', 'the %s entry of another particle than the candidate is tested' % w)
                return
        keep = self.keep(x.facts)
        if keep is None:
            keep = keep0
        sep = far = None
        unknown = []
        if not distant:
            proved = set()
            for per in (False, True):
                s = Sep(self.nd, self.q, 'J', ('gather', 'scatter'), per, canon)
                pr, unknown, seen = s.run([(k, b) for k, b in x.facts if not self.bookkeeping(k)])
                proved |= pr
            far = proved >= {'gather', 'scatter'}
        if not ents:
            dead = deadfact(x.facts, canon)
            once = any(n in ('iorig', 'level') for k, b in x.facts if k[1] not in ('boxov', 'pboxov', 'open') for l in leafsyms(A(k)) for n in names(l)) 
            nograv = keep is False or grav is False
            if dead:
                self.ok('a dead particle is dropped')
            elif once and self.trimming:
                self.ok('a pair computed from the other side is dropped')
            elif far and nograv:
                self.ok('a particle out of range without gravity is dropped')
            elif distant and grav is False:
                self.ok('a particle without gravity is dropped')
            elif self.trimming and hydro is False and nograv:
                self.ok('a particle of a type that does not interact is dropped')
            elif unknown:
                self.undecided()
            elif nograv or distant:
                self.bad('dropped', 'a candidate is dropped although it may be within range')
            else:
                self.bad('dropped', 'a candidate is dropped although it may be within range or exert gravity')
            return
        kind, e = ents[0]
        if not self.trimming:
            dead = deadfact(x.facts, canon)
            if dead is None and around:
                # the images of a particle are those of a live one
                dead = False if all(anydead(y) is False for y in around) else None
            if dead is False:
                self.ok('an entry is alive')
            elif dead or not any(k[1] == 'opaque' for k, b in x.facts):
                self.bad('dead', 'a dead particle may be listed')
        if kind == 'direct' and not distant and not far:
            if unknown:
                self.undecided()
            else:
                self.bad('direct', 'a particle that may overlap the smoothing kernel is treated as a distant one')
        elif kind in ('direct', 'smooth') and grav is not True:
            self.bad('gravity type', 'a particle enters the %s list without a test that its type exerts gravity' % kind)
        elif kind == 'smooth' and hydro is not False:
            self.bad('smooth', 'a hydrodynamical neighbour is listed for gravity only')
        elif kind in ('direct', 'smooth') and keep is False:
            self.bad('keep', 'a candidate becomes a gravity entry where none are wanted')
        elif kind == 'hydro' and self.trimming and hydro is not True:
            self.bad('hydro type', 'a particle enters the neighbour list without a test that its type interacts')
        else:
            self.ok('%s entry' % kind)
        if self.trimming:
            if e[2] is not None and isinstance(J[-1][1], tuple) and terms._polyobj[J[-1][1][1]] != e[2]:
                self.bad('entry', 'the entry of the list is not the index of the candidate')
            return
        # index bookkeeping
        idx = [c for c in x.events if c[0] == 'push' and listname(c[1]) == 'neib_idx']
        data = [c for c in x.events if c[0] == 'push' and listname(c[1]) == 'neibdata']
        if len(idx) != 1:
            self.bad('index', 'an entry without the index of its particle')
        for k, v in L.start.items():
            if v.d is not None and e[2] is not None and v.d == e[2]:
                n = L.value(x, k)
                if n is not None and n != v.d + 1:
                    self.bad('index', 'the position of the next entry does not advance by one')
                elif n is not None:
                    self.ok('position advances')
        for c in data:
            if c[3] is not None and isinstance(c[3][-1], tuple) and c[3][-1][0] == '[' and isinstance(c[3][-1][1], tuple) and c[3][-1][1][0] == 't' and idx and idx[0][2] is not None:
                if terms._polyobj[c[3][-1][1][1]] != idx[0][2]:
                    self.bad('index', 'the index stored for an entry is that of another particle')
                else:
                    self.ok('index of the stored particle')

    def bookkeeping(self, k):
        """a comparison of counters and sizes"""
        return k[1] == 'ipos' or k[1] == 'opaque'


class Wrap(object):
    def __init__(self, L):
        self.events = [('loop', x) for x in [L]]


def walk_functions(p):
    out = {}
    for f in p.fns.values():
        n = f.name.split('::')[-1]
        if n in MODES and f.body is not None and f.cls.split('::')[-1].startswith('Tree') and not f.file.startswith('..'):
            k = (f.file, f.line, f.ndim())
            if k not in out or f.m < out[k].m:
                out[k] = f
    return [out[k] for k in sorted(out)]


def list_functions(p):
    """one instantiation per dimension and choice of pair counting"""
    out = {}
    for f in sorted(p.fns.values(), key=lambda f: f.m):
        n = f.name.split('::')[-1]
        if f.body is not None and f.cls.split('::')[-1].startswith('NeighbourManager') and n in ('_EndSearch', 'TrimNeighbourLists'):
            out.setdefault((n, f.ndim(), tuple(a.split('::')[-1] for a in f.h['ft'] if '_constant' in a)), f)
    return [out[k] for k in sorted(out)]


def run(ctx):
    p = ctx.program('serial')
    items = [('walk', f) for f in walk_functions(p)] + [('list', f) for f in list_functions(p)]

    def job(sub, it):
        kind, f = it
        n = f.name.split('::')[-1]
        if kind == 'walk':
            WalkCheck(sub, p, f, n).run()
        else:
            ListCheck(sub, p, f, n == 'TrimNeighbourLists').run()
        sub.count(kind + ' functions')
    items.sort(key=lambda i: -i[1].ndim())
    pmap(ctx, items, job)
    n = run_overflow(ctx, p)
    n += run_overflow(ctx, ctx.program('mpi'))
    ctx.floor('searches whose result is tested', n, 10)
    ctx.floor('tree walks and list builders', len(items), 9)
