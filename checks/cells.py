"""P11: every cell of a tree describes exactly the particles below it."""
from fractions import Fraction as Fr
from absint import State, V, Interp, Giveup
from pairs import PairDom, Poly, A, P, ZERO, ONE, sym, lf, atoms_of, akey, Subst, Deriv, same, fun, limit
from terms import TooBig, primitive, pos, eqz, isbool
import terms
from util import strip
from par import pmap

ND = (1, 2, 3)
FLAGS = {'dead': 1, 'active': 2}

class CellInterp(Interp):
    """loops whose break states agree with the normal end of an iteration are folds over their elements"""

    def loop(self, s, st, cond, body, inc, out, post):
        D = self.D
        lid = (self.fn.name, s[1])
        g0 = st.g
        st.g = D.gone()
        pre = st.copy()
        pre.g = g0
        self.quiet += 1
        dry = st.copy()
        if inc:
            probe = st.copy()
            inc(probe)
            for k, v in probe.m.items():
                if st.m.get(k) is not v and v.ptr is None and k[0] == 'L':
                    old = pre.m.get(k)
                    dry.m[k] = V(D.havoc(k, lid, old, self), None, ty=(old.ty if old is not None else None))
        if not post and cond:
            cond(dry)
        f = self.ex(body, dry)
        ends = [x for x in [f.n] + f.co + f.br if x is not None]
        for x in ends:
            if inc:
                inc(x)
        self.quiet -= 1
        written = set()
        for x in ends:
            for k, v in x.m.items():
                if pre.m.get(k) is not v:
                    written.add(k)
        for k in written:
            old = pre.m.get(k)
            if old is not None and old.ptr is not None:
                st.m[k] = V(None, None, None, ('arr', ('X', lid, k)), old.ty)
            else:
                st.m[k] = V(D.havoc(k, lid, old, self), None, ty=(old.ty if old is not None else None))
        start = dict((k, st.m[k]) for k in written)
        before = dict((k, pre.m.get(k)) for k in written)
        self.loops.append(lid)
        c = cond(st) if (not post and cond) else None
        f = self.ex(body, st)
        end = self.join_many(f.n, f.co)
        if end is not None and inc:
            inc(end)
        D.fold_exit(lid, before, start, end, f.br, c, self)
        self.loops.pop()
        for rs, rv in f.re:
            rs.g = D.gopaque(lid)
        out.re += f.re
        after = pre
        for k in written:
            after.m[k] = D.fold(k, lid, before[k], start[k], end, f.br, self)
        return after, []


class CellDom(PairDom):
    abbrev = False

    def __init__(self, p, **kw):
        PairDom.__init__(self, p, **kw)
        self.folds = {}
        self.exits = []

    mac = 0

    def which(self, op, node):
        if node and node[0] == 'bin' and op in ('==', '!='):
            a, b = strip(node[3]), strip(node[4])
            if a[0] == 'enum':
                a, b = b, a
            if a[0] == 'mem' and a[3].split('::')[-1] == 'gravity_mac' and b[0] == 'enum':
                return int((b[3] == self.mac) == (op == '=='))
        return None

    def compare(self, op, a, b, node, I):
        w = self.which(op, node)
        if w is not None:
            return ONE if w else ZERO
        return PairDom.compare(self, op, a, b, node, I)

    def fold_exit(self, lid, before, start, end, brs, c, I):
        if not I.quiet:
            self.exits.append((lid, before, start, end, brs, c))

    def fold(self, loc, lid, old, start, end, brs, I):
        if start.ptr is not None:
            return V(None, None, None, ('arr', ('X', 'after', lid, loc)), start.ty)
        ends = [x.m.get(loc) for x in ([end] if end is not None else []) + list(brs)]
        if all(x is not None and x.d is not None and x.d == start.d for x in ends) and old is not None:
            return old
        s = ('fold', lid, loc, len(self.folds) if I.quiet else 0)
        self.folds[s] = (lid, loc, old, start, ends)
        return V(sym(s), None, ty=start.ty)


def names(loc):
    return tuple(x[1].split('::')[-1] if isinstance(x, tuple) and x[0] == '.' else x[1] if isinstance(x, tuple) and x[0] == '[' else x for x in loc)


def prefix_objs(q):
    """index expressions of elements of arrays occurring in q: loc prefix up to the last symbolic index -> True"""
    out = {}
    for a in atoms_of(q):
        k = akey(a)
        if k[0] == 'v' and isinstance(k[1], tuple):
            l = k[1]
            for i, x in enumerate(l):
                if isinstance(x, tuple) and len(x) == 2 and x[0] == '[' and isinstance(x[1], tuple) and x[1] and x[1][0] == 't':
                    out.setdefault(l[:i + 1], []).append(names(l[i + 1:]))
    return out


class Canon(object):
    """names the particle, cell and child objects of a scenario"""

    def __init__(self, objs):
        self.objs = sorted(objs, key=lambda x: -len(x[0]))

        def f(k):
            if k[0] == 'v' and isinstance(k[1], tuple):
                for pre, nm in self.objs:
                    if k[1][:len(pre)] == pre and len(k[1]) > len(pre):
                        return sym((nm,) + names(k[1][len(pre):]))
            return None
        self.s = Subst(f)

    def __call__(self, q):
        return self.s(q)


def leaves(key):
    """symbols inside an atom"""
    out = []
    if key[0] == 'v':
        return [key[1]]
    for a in atoms_of(A(key)):
        k = akey(a)
        if k[0] == 'v':
            out.append(k[1])
    return out


def mx(*a):
    return nary('MAX', a)


def mn(*a):
    return nary('MIN', a)


def nary(op, a):
    xs = []
    for q in a:
        ks = [akey(x) for x in atoms_of(q, deep=False)] if len(q.t) == 1 else []
        if len(ks) == 1 and ks[0][0] == 'f' and ks[0][1] == op and q == A(ks[0]):
            xs += [terms._polyobj[i] for i in ks[0][2:]]
        else:
            xs.append(q)
    u = {}
    for q in xs:
        u[repr(q)] = q
    l = [u[k] for k in sorted(u)]
    cs = [q.const() for q in l if q.const() is not None]
    if len(cs) > 1:
        b = max(cs) if op == 'MAX' else min(cs)
        l = [q for q in l if q.const() is None or q.const() == b]
        seen = False
        r = []
        for q in l:
            if q.const() is not None:
                if seen:
                    continue
                seen = True
            r.append(q)
        l = r
    return l[0] if len(l) == 1 else fun(op, *l)


def setind(q, f):
    """indicator atoms replaced by the values f gives them (None: keep)"""
    return Subst(lambda k: f(k) if k[0] == 'i' else None)(q)


def minmaxform(q, depth=0):
    """comparisons [p>0] with  q|1 - q|0 = +-p  become maxima and minima"""
    if depth > 12:
        return q
    inds = []
    for a in atoms_of(q, deep=False):
        k = akey(a)
        if k[0] == 'i' and k[1] == 'pos':
            inds.append(k)
    for k in inds:
        one = Subst(lambda x: ONE if x == k else None)(q)
        zero = Subst(lambda x: ZERO if x == k else None)(q)
        p = terms._polyobj[k[2]]
        d = one - zero
        for sg, op in ((1, 'MAX'), (-1, 'MIN')):
            # the normal form of a comparison is scaled by a positive number
            r = ratio(d, p)
            if r is not None and r * sg > 0:
                return nary(op, (minmaxform(one, depth + 1), minmaxform(zero, depth + 1)))
    return q


def ratio(d, p):
    if not d.t or not p.t or len(d.t) != len(p.t):
        return None
    m = next(iter(p.t))
    if m not in d.t:
        return None
    r = Fr(d.t[m]) / Fr(p.t[m])
    return r if all(d.t.get(x) == r * v for x, v in p.t.items()) else None


def flag_indicator(p, nd, which):
    """what the flags of a particle are tested for: the value of flags.is_dead() / flags.check(active)"""
    g = [f for f in p.fns.values() if f.name.split('::')[-1] == which and f.body is not None and 'type_flag' in f.cls]
    return g[0] if g else None


class Cell(object):
    """final content of the fields of a cell"""

    def __init__(self, run, state, obj):
        self.run, self.state, self.obj = run, state, obj
        self.f = {}
        for l, v in state.m.items():
            if l[:len(obj)] == obj and len(l) > len(obj) and v.d is not None:
                self.f[names(l[len(obj):])] = v.d


class Run(object):
    """one function interpreted for a leaf or an inner cell"""

    def __init__(self, p, f, leaf, mac=0, stock=1):
        self.p, self.fn, self.nd, self.leaf = p, f, f.ndim(), leaf
        self.mac = mac

        def init(loc):
            it = loc[-1]
            if not (isinstance(it, tuple) and it[0] == '.'):
                return None
            n = it[1].split('::')[-1]
            if n == 'copen':
                return P(-1) if leaf else P(7)
            if n in ('c1', 'c2') and not leaf:
                return P(7) if n == 'c1' else sym(loc[:-1] + (('.', 'TreeCellBase::cnext'),)) if False else None
            if n == 'level':
                return P(5) if leaf else P(4)
            if n == 'ltot':
                return P(5)
            if n == 'gravity_mac':
                return P(mac)
            return None
        D = self.D = CellDom(p, subst_init=init)
        D.mac = mac
        I = CellInterp(p, D, maxdepth=6)
        limit(400)
        args = {}
        for i in f.params:
            nm, ty = f.locals[i][0], f.locals[i][1]
            if ty.replace('const ', '').strip() == 'bool':
                args[nm] = V(P(stock), stock, ty='bool')
        try:
            self.flow = I.run_root(f, args, st=State(g=ONE))
        finally:
            limit(6000)

    def states(self):
        out = []
        e = self.flow.n or (self.flow.re[-1][0] if self.flow.re else None)
        if e is not None:
            out.append(e)
        for lid, before, start, end, brs, c in reversed(self.D.exits):
            if end is not None:
                out.append(end)
        return out

    def cell(self, need):
        """the state in which the fields `need` of one cell have their final values"""
        best = None
        for st in self.states():
            objs = {}
            for l, v in st.m.items():
                o, f, i = lf(l)
                if f in need or f in ('min', 'max') and lf(o)[1] in need:
                    if f in ('min', 'max'):
                        o = lf(o)[0]
                        f = lf(l[:-1] if False else l[:len(l) - 1])[1]
                        f = names(l)[-3] if len(l) >= 3 else f
                    if v.d is not None:
                        objs.setdefault(o, set()).add(names(l[len(o):])[0])
            for o, fs in objs.items():
                if set(need) <= fs:
                    c = Cell(self, st, o)
                    bare = 0
                    for n, q in c.f.items():
                        ks = [akey(a) for a in atoms_of(q, deep=False)]
                        if len(ks) == 1 and ks[0][0] == 'v' and isinstance(ks[0][1], tuple) and ks[0][1][0] == 'fold':
                            lid, loc, old, start, ends = self.D.folds[ks[0][1]]
                            # a loop over cells: not the final value of one cell
                            if all(e is not None and e.d is not None and not any(akey(a) == ('v', start_loc(start)) for a in atoms_of(e.d)) for e in ends):
                                bare += 1
                    if best is None or bare < best[0]:
                        best = (bare, c)
            if best is not None and best[0] == 0:
                break
        return best[1] if best else None


def start_loc(v):
    ks = [akey(a) for a in atoms_of(v.d)] if v.d is not None else []
    return ks[0][1] if len(ks) == 1 and ks[0][0] == 'v' else None


# -- leaf cells ----------------------------------------------------------------------------------------

class Undecided(Exception):
    pass


def elem_of(q, lid):
    """the element object of a fold: an array element indexed by the variable of the loop"""
    out = set()
    for l in prefix_objs(q):
        ix = terms._polyobj[l[-1][1][1]]
        for a in atoms_of(ix, deep=False):
            k = akey(a)
            if k[0] == 'v' and isinstance(k[1], tuple) and k[1][0] == 'loop' and k[1][1] == lid and ix == sym(k[1]):
                out.add((l, k[1]))
    return out


class Fold(object):
    """the change one element makes to an accumulator"""

    def __init__(self, D, s, keep=()):
        lid, loc, old, start, ends = D.folds[s]
        self.lid, self.loc, self.old = lid, loc, old
        if any(e is None or e.d is None for e in ends) or not ends:
            raise Undecided('no value')
        self.start = start_loc(start)
        self.ends = [e.d for e in ends]
        el = set()
        for q in self.ends:
            el |= elem_of(q, lid)
        arr = {}
        for l, v in el:
            for n in prefix_objs(self.ends[0]).get(l, [()]):
                if n:
                    arr[l] = v
        self.elems = arr


def value(q, elem, start, kind):
    """one iteration's value with the element called E and the accumulator ACC"""
    c = Canon([(elem, 'E')])
    q = Subst(lambda k: sym('ACC') if k[0] == 'v' and k[1] == start else None)(q)
    return kernrange(c(q))


def kernrange(q):
    return Subst(lambda k: sym(('kr',)) if k[0] == 'v' and isinstance(k[1], tuple) and k[1] and isinstance(k[1][-1], tuple) and k[1][-1][0] == '.' and k[1][-1][1].split('::')[-1] == 'kernrange' else None)(q)


class Ind(object):
    """values of the tests made on an element"""

    def __init__(self, **v):
        self.v = v
        self.unknown = []

    def __call__(self, k):
        ls = leaves(k)
        if k[1] in ('pos', 'ipos') and any(l == 'ACC' for l in ls):
            return None
        nm = [l for l in ls if isinstance(l, tuple)]
        if k[1] == 'eq0' and any(l[0] == 'E' and '_flag' in l for l in nm):
            q = terms._polyobj[k[2]]
            ks = [akey(a) for a in atoms_of(q, deep=False)]
            if len(ks) == 1 and ks[0][0] == 'f' and ks[0][1] == 'bits' and q == A(ks[0]):
                mask = int(terms._polyobj[ks[0][3]].const())
                if mask == FLAGS['dead'] and 'alive' in self.v:
                    return P(self.v['alive'])
                if mask == FLAGS['active'] and 'active' in self.v:
                    return P(1 - self.v['active'])
        if k[1] == 'eq0' and any('gravmask' in names(l) for l in nm) and 'grav' in self.v:
            return P(1 - self.v['grav'])
        if k[1] in ('pos', 'ipos') and nm and all(l[0] == 'this' and names(l)[-1] == 'Ntot' or l[0] == 'loop' for l in nm):
            return ONE          # index below Ntot
        if k[1] in ('pos', 'ipos') and 'N' in self.v:
            q = terms._polyobj[k[2]]
            for a in atoms_of(q, deep=False):
                x = akey(a)
                if x[0] == 'v' and isinstance(x[1], tuple) and x[1][-1] == 'N' and x[1][0] in ('E', 'C1', 'C2'):
                    nv = self.v['N']
                    n = nv[x[1][0]] if isinstance(nv, dict) else nv
                    return P(n)
        return None


def assign(q, ind):
    for _ in range(6):
        r = setind(q, ind)
        if r == q:
            break
        q = r
    return q



def big():
    return sym(('G', 'big_number'))


def E(*n):
    return sym(('E',) + n)


ACC = sym('ACC')
CASES = [dict(alive=a, grav=g, active=c) for a in (0, 1) for g in (0, 1) for c in (0, 1)]


def case_name(c):
    return ('dead' if not c['alive'] else 'live') + (' massless' if not c['grav'] else '') + (' active' if c['active'] else '')


class Leaf(object):
    def __init__(self, ctx, p, f, cls, mac=0, leaf=True):
        self.ctx, self.p, self.f, self.cls, self.nd = ctx, p, f, cls, f.ndim()
        self.run = Run(p, f, leaf, mac)
        self.D = self.run.D

    def where(self):
        return '%s:%d' % (self.f.file, self.f.line)

    def label(self, fld):
        return '%s %s' % (self.cls, fld)

    def fold_sym(self, q):
        """the accumulator symbol of a value that is (a multiple of nothing but) one fold"""
        ks = [akey(a) for a in atoms_of(q, deep=False)]
        if len(ks) == 1 and ks[0][0] == 'v' and isinstance(ks[0][1], tuple) and ks[0][1][0] == 'fold' and q == sym(ks[0][1]):
            return ks[0][1]
        return None

    def last(self, F, name):
        """all elements are treated alike, the last one too"""
        if any(q != F.ends[0] for q in F.ends):
            self.ctx.bad('leaf', '%s:%d' % (self.f.file, F.lid[1]), '%s|%s|last' % (self.cls, name),
                         '%s of a leaf cell: the last particle of the cell (where the loop ends) is not treated like the others' % name)
            return False
        return True

    def traversal(self, F, name, want=True):
        """the loop runs from ifirst along inext to ilast"""
        D = self.D
        for (l, v) in F.elems.items():
            key = None
            for s, (lid, loc, old, start, ends) in D.folds.items():
                if lid == F.lid and start_loc(start) == v:
                    key = (old, ends)
            if key is None or key[0] is None or key[0].d is None:
                return None
            old, ends = key
            nx = [e.d for e in ends if e is not None and e.d is not None and e.d != sym(v)]
            return old.d, nx, sym(v)
        return None

    def check(self, name, q, spec):
        """spec: case -> expected new value of the accumulator (a list: any of them), and the neutral start values"""
        ctx = self.ctx
        s = self.fold_sym(q)
        if s is None:
            if q.const() is not None or not any(akey(a)[0] == 'v' and isinstance(akey(a)[1], tuple) and akey(a)[1][0] in ('fold', 'fresh', 'loop', 'after', 'top') for a in atoms_of(q)):
                ctx.bad('leaf', self.where(), '%s|%s|none' % (self.cls, name), '%s of a leaf cell does not depend on its particles' % name)
            else:
                ctx.count('undecided')
            return False
        try:
            F = Fold(self.D, s)
        except Undecided:
            ctx.count('undecided')
            return False
        if not self.last(F, name):
            return False
        if len(F.elems) != 1:
            ctx.count('undecided')
            return False
        el = list(F.elems)[0]
        v = value(F.ends[0], el, F.start, None)
        init, rule = spec
        where = '%s:%d' % (self.f.file, F.lid[1])
        for c in CASES:
            try:
                got = minmaxform(assign(v, Ind(**c)))
            except TooBig:
                ctx.count('undecided')
                return False
            exp = rule(c)
            r = anysame(got, exp)
            if not r:
                if r is None or not understood(got):
                    ctx.count('undecided')
                    return False
                ctx.bad('leaf', where, '%s|%s' % (self.cls, name), '%s of a leaf cell becomes %s for a %s particle, it must be %s' % (
                    name, show(got), case_name(c), ' or '.join(show(x) for x in exp)))
                return False
        if F.old is None or F.old.d is None:
            ctx.count('undecided')
            return False
        if not any(F.old.d == x for x in init):
            ctx.bad('leaf', where, '%s|%s|start' % (self.cls, name), '%s of a leaf cell starts from %s instead of %s' % (
                name, show(F.old.d), ' or '.join(show(x) for x in init)))
            return False
        if not self.chain(F, name, where):
            return False
        ctx.ok('leaf', where, '%s<%d>' % (self.label(name), self.nd))
        return True

    def chain(self, F, name, where):
        """the loop starts with ifirst, follows inext and ends with ilast"""
        t = self.traversal(F, name)
        if t is None:
            return True
        old, nx, v = t
        ctx = self.ctx

        def about(q, fld):
            ks = [akey(a) for a in atoms_of(q, deep=False)]
            if len(ks) != 1 or ks[0][0] != 'v' or q != sym(ks[0][1]):
                return None
            l = ks[0][1]
            if isinstance(l, tuple) and l[0] == 'fold':
                loc = self.D.folds[l][1]
                if fld in str(loc[-1:]):
                    return True
                fin = getattr(self, 'final', {}).get((fld,))
                return True if fin is not None and fin == q else None
            return bool(fld in str(l[-1:]))
        if about(old, 'ifirst') is False and understood(old):
            ctx.bad('leaf', where, '%s|%s|first' % (self.cls, name), 'the loop that computes %s of a leaf cell starts from %s' % (name, show(old)))
            return False
        for lid, before, start, end, brs, c in self.D.exits:
            if lid != F.lid or end is None:
                continue
            vl = [l for l, x in start.items() if x.d is not None and x.d == v]
            if len(vl) != 1 or end.m.get(vl[0]) is None or end.m[vl[0]].d is None:
                return True
            n = end.m[vl[0]].d
            tests = set()
            for q in [n, end.g] + [x.g for x in brs]:
                for a in atoms_of(q, deep=False):
                    k = akey(a)
                    if k[0] == 'i' and k[1] == 'eq0' and any(akey(y) == akey(next(iter(atoms_of(v)))) for y in atoms_of(terms._polyobj[k[2]], deep=False)):
                        tests.add(k)
            last = []
            for k in tests:
                d = terms._polyobj[k[2]]
                for x in (v - d, v + d):
                    r = about(x, 'ilast')
                    if r:
                        last.append(k)
                    if r is None and any(akey(y)[0] == 'v' and isinstance(akey(y)[1], tuple) and akey(y)[1][0] == 'fold' for y in atoms_of(x, deep=False)):
                        return True
            unknown = any(not understood(q) for q in [n, end.g])
            if unknown or len(last) > 1:
                return True
            if not last:
                ctx.bad('leaf', where, '%s|%s|end' % (self.cls, name), 'the loop that computes %s of a leaf cell does not end with the last particle of the cell' % name)
                return False
            going = Subst(lambda k: ZERO if k == last[0] else None)
            ends = Subst(lambda k: ONE if k == last[0] else None)
            if about(going(n), 'inext') is None and not any('inext' in str(akey(a)) for a in atoms_of(going(n))):
                ctx.bad('leaf', where, '%s|%s|next' % (self.cls, name), 'the loop that computes %s of a leaf cell goes on with %s' % (name, show(going(n))))
                return False
            if ends(end.g).t and ends(n) != P(-1):
                ctx.bad('leaf', where, '%s|%s|end' % (self.cls, name), 'the loop that computes %s of a leaf cell does not end with the last particle of the cell' % name)
                return False
            g = going(end.g)
            if g.const() is not None and g.const() == 0:
                ctx.bad('leaf', where, '%s|%s|early' % (self.cls, name), 'the loop that computes %s of a leaf cell ends before the last particle' % name)
                return False
            return True
        return True

    def links(self, Fl):
        """after dead particles are dropped the list of the cell holds all live ones"""
        ctx, D = self.ctx, self.D
        if ('ilast',) not in Fl or ('ifirst',) not in Fl:
            return
        s1, s2 = self.fold_sym(Fl[('ilast',)]), self.fold_sym(Fl[('ifirst',)])
        if s1 is None or s2 is None or D.folds[s1][0] != D.folds[s2][0]:
            ctx.count('undecided')
            return
        try:
            A1, A2 = Fold(D, s1), Fold(D, s2)
        except Undecided:
            ctx.count('undecided')
            return
        if len(A1.elems) != 1:
            ctx.count('undecided')
            return
        (el, var), = A1.elems.items()
        where = '%s:%d' % (self.f.file, A1.lid[1])
        aux = A1.start

        def sub(q, alive, first):
            f = Ind(alive=alive)

            def g(k):
                if k[1] == 'eq0' and isinstance(k[2], int) and terms._polyobj[k[2]] in (sym(aux) + ONE, -sym(aux) - ONE):
                    return P(int(first))
                return f(k)
            return assign(Canon([(el, 'E')])(q), g)
        want = {('ilast', 1): lambda fi: [sym(var)], ('ilast', 0): lambda fi: [sym(aux)],
                ('ifirst', 1): lambda fi: [sym(var)] if fi else [sym(A2.start)], ('ifirst', 0): lambda fi: [sym(A2.start)]}
        for fld, FF in (('ilast', A1), ('ifirst', A2)):
            for alive in (0, 1):
                for first in (0, 1):
                    for q in FF.ends:
                        q = sub(q, alive, first)
                        if q in want[fld, alive](first):
                            continue
                        if understood(q):
                            ctx.bad('list', where, '%s|%s' % (self.cls, fld), 'when dead particles are dropped from the list of a leaf cell, %s becomes %s for a %s particle' % (fld, show(q), 'live' if alive else 'dead'))
                        else:
                            ctx.count('undecided')
                        return
            if FF.old is None or FF.old.d is None or FF.old.d != P(-1):
                ctx.count('undecided')
                return
        n = 0
        for lid, before, start, end, brs, c in D.exits:
            if lid != A1.lid:
                continue
            for e in [end] + list(brs):
                for l, v in (e.m.items() if e is not None else ()):
                    nm = names(l)
                    if 'inext' not in nm[:-1] or v.d is None or l[-1][1:] == () or not isinstance(l[-1][1], tuple) or l[-1][1][0] != 't':
                        continue
                    ix = terms._polyobj[l[-1][1][1]]
                    if ix != sym(aux):
                        if understood(v.d) and v.d != sym(l):
                            ctx.bad('list', where, '%s|link' % self.cls, 'when dead particles are dropped from the list of a leaf cell, the link of %s is changed' % show(ix))
                            return
                        continue
                    n += 1
                    for alive, first, w in ((1, 0, [sym(var)]), (0, 0, [sym(l)]), (0, 1, [sym(l)])):
                        q = sub(v.d, alive, first)
                        if q not in w and q not in [Canon([(el, 'E')])(x) for x in w]:
                            if understood(q):
                                ctx.bad('list', where, '%s|link' % self.cls, 'when dead particles are dropped from the list of a leaf cell, the link of the particle before a %s one becomes %s' % ('live' if alive else 'dead', show(q)))
                            else:
                                ctx.count('undecided')
                            return
        if n:
            ctx.ok('list', where, '%s<%d>' % (self.cls, self.nd))
        else:
            ctx.bad('list', where, '%s|link|none' % self.cls, 'when dead particles are dropped from the list of a leaf cell, the particles are not linked')

    def child_check(self, name, q, init, exp):
        L, ctx, cls, nd, f, where = self, self.ctx, self.cls, self.nd, self.f, self.where()
        s = L.fold_sym(q)
        key = '%s|%s' % (cls, name)
        if s is None:
            if understood(q) and not any(akey(a)[0] == 'v' and isinstance(akey(a)[1], tuple) and akey(a)[1][0] in ('fold', 'loop') for a in atoms_of(q)):
                ctx.bad('inner', where, key + '|none', '%s of an inner cell does not depend on its children' % name)
            else:
                ctx.count('undecided')
            return
        try:
            Fd = Fold(L.D, s)
        except Undecided:
            ctx.count('undecided')
            return
        if len(Fd.elems) != 1 or not L.last(Fd, name):
            ctx.count('undecided')
            return
        el = list(Fd.elems)[0]
        w = '%s:%d' % (f.file, Fd.lid[1])
        v = value(Fd.ends[0], el, Fd.start, None)
        for n in (1, 0):
            try:
                i = Ind(N=n)
                got = minmaxform(assign(v, lambda k: i(k) if i(k) is not None else massive(k)))
            except TooBig:
                ctx.count('undecided')
                return
            ex = exp if n else [ACC] + exp
            if n == 0:
                zz = Subst(lambda k: ZERO if k[0] == 'v' and isinstance(k[1], tuple) and k[1] in (('E', 'N'), ('E', 'm')) else None)
                got = zz(got)
                ex = [zz(x) for x in ex]
            r = anysame(got, ex)
            if not r:
                if r is not None and understood(got):
                    ctx.bad('inner', w, key, '%s of an inner cell becomes %s for a child %s' % (name, show(got), 'that holds particles' if n else 'without particles'))
                else:
                    ctx.count('undecided')
                return
        if Fd.old is None or Fd.old.d is None:
            ctx.count('undecided')
            return
        if not any(Fd.old.d == x for x in init):
            ctx.bad('inner', w, key + '|start', '%s of an inner cell starts from %s' % (name, show(Fd.old.d)))
            return
        t = L.traversal(Fd, name)
        if t is not None:
            old, nx, v = t
            if old.const() is not None and old.const() != 7:
                ctx.bad('inner', w, key + '|first', 'the loop over the children of a cell does not start with the first child')
                return
        ctx.ok('inner', w, '%s %s<%d>' % (cls, name, nd))


def anysame(a, l):
    """a equals one of l; None: unknown"""
    r = False
    for b in l:
        try:
            if same2(a, minmaxform(b)):
                return True
        except TooBig:
            r = None
    return r


def massive(k):
    if k[1] in ('pos', 'ipos') and isinstance(k[2], int) and terms._polyobj[k[2]] == E('m'):
        return ONE
    if k[1] == 'streq':
        return P(int(k[2][0] == MULT[0]))
    return None


def same2(a, b):
    if a == b:
        return True
    r = same(a, b)
    if r is None:
        raise TooBig()
    return bool(r)


def understood(q):
    """no unknown tests or values in q"""
    for a in atoms_of(q):
        k = akey(a)
        if k[0] == 'i' and k[1] == 'opaque':
            return False
        if k[0] == 'v' and isinstance(k[1], tuple) and k[1][0] in ('fresh', 'top', 'after', 'undef'):
            return False
        if k[0] == 'i' and k[1] not in ('pos', 'ipos', 'eq0', 'streq'):
            return False
    return True


def show(q):
    return terms.show(q)[:160]


SUMS = ('N', 'Nactive', 'm')


def leaf_specs(nd, run, cell, fields):
    kr = None
    out = {}
    out['N'] = ([ZERO], lambda c: [ACC + P(c['alive'])])
    out['Nactive'] = ([ZERO], lambda c: [ACC + P(c['alive'] * c['active'])] + ([ACC + P(c['active'])] if not c['alive'] else []))
    out['m'] = ([ZERO], lambda c: [ACC + E('m') * P(c['alive'] * c['grav'])])
    neg = [ZERO, -big()]
    for n, e in (('hmax', 'h'), ('maxsound', 'sound')):
        out[n] = (neg, lambda c, e=e: [mx(ACC, E(e))] if c['alive'] else [ACC, mx(ACC, E(e))])
    for k in range(nd):
        h = sym(('kr',)) * E('h')
        for b, lo, hi in (('bb', E('r', k), E('r', k)), ('vbox', E('v', k), E('v', k)), ('hbox', E('r', k) - h, E('r', k) + h)):
            out[(b, 'min', k)] = ([big()], lambda c, x=lo: [mn(ACC, x)] if c['alive'] else [ACC, mn(ACC, x)])
            out[(b, 'max', k)] = ([-big()], lambda c, x=hi: [mx(ACC, x)] if c['alive'] else [ACC, mx(ACC, x)])
        for n in ('r', 'v'):
            out[('sum' + n, k)] = ([ZERO], lambda c, n=n, k=k: [ACC + E('m') * E(n, k) * P(c['alive'] * c['grav'])])
    return out


def positive(syms, zero=()):
    """indicators [s > 0] (and [s == 0]) of the given accumulators"""
    S, Z = set(syms), set(zero)

    def f(k):
        if k[1] in ('pos', 'ipos', 'eq0') and isinstance(k[2], int):
            q = terms._polyobj[k[2]]
            for s in S | Z:
                if q == sym(s):
                    v = s in S
                    return P(int(v if k[1] != 'eq0' else not v))
        if k[1] == 'streq':
            return P(int(k[2][0] == MULT[0]))
        return None
    return f


MULT = ['quadrupole']
QIDX = {3: {0: (0, 0), 1: (0, 1), 2: (1, 1), 3: (2, 0), 4: (2, 1)}, 2: {0: (0, 0), 1: (0, 1), 2: (1, 1)}, 1: {0: (0, 0)}}


def quad(m, d, i, nd):
    a, b = QIDX[nd][i]
    q = 3 * d[a] * d[b]
    if a == b:
        for x in d:
            q = q - x * x
    return m * q


def check_leaf(ctx, p, f, cls, fields):
    nd = f.ndim()
    L = Leaf(ctx, p, f, cls)
    need = [x for x in ('hmax', 'm', 'Nactive') if x in fields]
    c = L.run.cell(tuple(need))
    if c is None:
        ctx.count('undecided')
        return
    sp = leaf_specs(nd, L.run, c, fields)
    F = c.f
    L.final = F
    if 'm' in fields:
        L.links(F)
    for n in ('N', 'Nactive', 'm', 'hmax', 'maxsound'):
        if n in fields:
            if (n,) not in F:
                ctx.bad('leaf', L.where(), '%s|%s|unset' % (cls, n), '%s of a leaf cell is not computed' % n)
                continue
            L.check(n, F[(n,)], sp[n])
    for b in ('bb', 'hbox', 'vbox'):
        if b in fields:
            for k in range(nd):
                for e in ('min', 'max'):
                    if (b, e, k) not in F:
                        ctx.bad('leaf', L.where(), '%s|%s.%s|unset' % (cls, b, e), '%s.%s of a leaf cell is not computed' % (b, e))
                        continue
                    L.check('%s.%s[%d]' % (b, e, k), F[(b, e, k)], sp[(b, e, k)])
    if 'm' not in fields:
        return
    sm, sn = L.fold_sym(F[('m',)]), L.fold_sym(F[('N',)])
    if sm is None or sn is None:
        ctx.count('undecided')
        return
    R = {}
    for n in ('r', 'v'):
        for k in range(nd):
            if (n, k) not in F:
                ctx.bad('leaf', L.where(), '%s|%s|unset' % (cls, n), '%s of a leaf cell is not computed' % n)
                continue
            q = assign(F[(n, k)], positive((sm, sn)))
            R[n, k] = q
            L.check('mass-weighted %s[%d]' % (n, k), q * sym(sm), sp[('sum' + n, k)])
    # geometry follows from the box, whatever the mass
    for ms, zs in (((sm, sn), ()), ((sn,), (sm,))):
        geometry(ctx, L.where(), cls, nd, F, positive(ms, zs), 'leaf', ' (massless)' if zs else '')
    # second moments about the centre of mass
    for i in QIDX[nd]:
        q = F.get(('q', i))
        if q is None:
            ctx.bad('leaf', L.where(), '%s|q|unset' % cls, 'q[%d] of a leaf cell is not computed' % i)
            continue
        q = assign(q, positive((sm, sn)))
        if q.const() is not None:
            ctx.bad('leaf', L.where(), '%s|q|none|%d' % (cls, nd), 'q[%d] of a leaf cell is %s in %d dimensions when quadrupole moments are used' % (i, show(q), nd))
            continue
        try:
            d = [E('r', k) - R['r', k] for k in range(nd)]
            inc = quad(E('m'), d, i, nd)
        except (KeyError, TooBig):
            ctx.count('undecided')
            continue
        s = L.fold_sym(q)
        if s is None:
            ctx.count('undecided')
            continue
        # the positions used are those of the state before the loop: [m > 0]
        lid, loc, old, start, ends = L.D.folds[s]
        pf = positive((sm, sn))
        for e in ends:
            if e is not None and e.d is not None:
                e.d = assign(e.d, pf)
        L.check('q[%d]' % i, q, ([ZERO], lambda c, inc=inc: [ACC + inc * P(c['alive'] * c['grav'])]))


def opening(ctx, where, cls, nd, F, pf, rule, tag, sub, ref):
    q, h = F.get(('cdistsqd',)), F.get(('hmax',))
    if q is None or h is None:
        ctx.count('undecided')
        return
    q, h = sub(assign(q, pf)), sub(assign(h, pf))
    th = [a for a in atoms_of(q) if akey(a)[0] == 'v' and isinstance(akey(a)[1], tuple) and names(akey(a)[1])[-1] == 'thetamaxsqd']
    if len(th) != 1:
        if understood(q):
            ctx.bad(rule, where, '%s|cdistsqd%s' % (cls, tag), 'the opening distance of a cell%s is %s, it does not depend on the opening angle' % (tag, show(q)))
        else:
            ctx.count('undecided')
        return
    t = A(akey(th[0]))
    try:
        got = minmaxform(q * t)
        want = [mx(ref, h * h)]
    except TooBig:
        ctx.count('undecided')
        return
    r = anysame(got, want)
    if r:
        ctx.ok(rule, where, '%s cdistsqd%s<%d>' % (cls, tag, nd))
    elif r is not None and understood(got):
        ctx.bad(rule, where, '%s|cdistsqd%s' % (cls, tag), 'the opening distance squared of a cell%s is %s, not the larger of its size and largest smoothing length over the opening angle squared' % (tag, show(got)))
    else:
        ctx.count('undecided')


def geometry(ctx, where, cls, nd, F, pf, rule, tag, sub=None):
    sub = sub or (lambda q: q)
    try:
        mnx = [sub(assign(F[('bb', 'min', k)], pf)) for k in range(nd)]
        mxx = [sub(assign(F[('bb', 'max', k)], pf)) for k in range(nd)]
    except KeyError:
        ctx.count('undecided')
        return
    for k in range(nd):
        q = F.get(('rcell', k))
        if q is None:
            ctx.count('undecided')
            continue
        q = sub(assign(q, pf))
        r = anysame(q, [(mnx[k] + mxx[k]) / P(2)])
        if r:
            ctx.ok(rule, where, '%s rcell[%d]%s<%d>' % (cls, k, tag, nd))
        elif r is not None and understood(q):
            ctx.bad(rule, where, '%s|rcell%s' % (cls, tag), 'rcell[%d] of a cell%s is %s, which is not the centre of its box' % (k, tag, show(q)))
        else:
            ctx.count('undecided')
    q = F.get(('rmax',))
    if q is None:
        ctx.count('undecided')
        return
    q = sub(assign(q, pf))
    ref = ZERO
    for k in range(nd):
        ref = ref + (mxx[k] - mnx[k]) * (mxx[k] - mnx[k]) / P(4)
    try:
        ok = same2(q * q, ref)
        opening(ctx, where, cls, nd, F, pf, rule, tag, sub, ref)
    except TooBig:
        ok = None
    if ok:
        ctx.ok(rule, where, '%s rmax%s<%d>' % (cls, tag, nd))
    elif ok is None or not understood(q):
        ctx.count('undecided')
    else:
        ctx.bad(rule, where, '%s|rmax%s' % (cls, tag), 'rmax of a cell%s is %s, which is not half the diagonal of its box' % (tag, show(q)))


# -- inner cells ---------------------------------------------------------------------------------------

def children(c):
    """the two children of a cell occurring in its fields"""
    out = {}
    locs = set()
    for q in c.f.values():
        for a in atoms_of(q):
            k = akey(a)
            if k[0] == 'v' and isinstance(k[1], tuple):
                for i, x in enumerate(k[1]):
                    if isinstance(x, tuple) and len(x) == 2 and x[0] == '[' and i + 1 < len(k[1]) and isinstance(k[1][i + 1], tuple) and k[1][i + 1][0] == '.' and k[1][i + 1][1].startswith(('TreeCellBase::', 'KDTreeCell::', 'OctTreeCell::', 'Box::')):
                        locs.add(k[1][:i + 1])
    for l in locs:
        ix = l[-1][1]
        if ix == 7:
            out[l] = 'C1'
        elif isinstance(ix, tuple) and ix[0] == 't':
            t = terms._polyobj[ix[1]]
            ks = [akey(a) for a in atoms_of(t, deep=False)]
            if len(ks) == 1 and ks[0][0] == 'v' and t == sym(ks[0][1]) and isinstance(ks[0][1], tuple):
                k = ks[0][1]
                if k[:len(c.obj)] == c.obj and names(k[len(c.obj):]) in (('c1',), ('c2',)):
                    out[l] = 'C' + names(k[len(c.obj):])[0][1]
                elif names(k)[-1] == 'cnext' and k[:len(c.obj)] != c.obj:
                    out[l] = 'C2'
    return out


def check_inner(ctx, p, f, cls, fields):
    nd = f.ndim()
    where = '%s:%d' % (f.file, f.line)
    run = Run(p, f, False)
    c = run.cell(('hmax', 'm') if 'm' in fields else ('hmax',))
    if c is None:
        ctx.count('undecided')
        return
    D = run.D
    isfold = any(akey(a)[0] == 'v' and isinstance(akey(a)[1], tuple) and akey(a)[1][0] == 'fold' for a in atoms_of(c.f[('hmax',)]))
    if isfold:
        inner_fold(ctx, p, f, cls, fields, run, c)
        return
    ch = children(c)
    can = Canon([(l, n) for l, n in ch.items()] + [(c.obj, 'C')])
    F = {n: kernrange(can(q)) for n, q in c.f.items()}

    def C(j, *n):
        return sym(('C%d' % j,) + n)
    for n1, n2 in ((1, 1), (1, 0), (0, 1)):
        on = [j for j, n in ((1, n1), (2, n2)) if n]
        empty = set('C%d' % j for j in (1, 2) if j not in on)

        def ind(k):
            if k[1] in ('pos', 'ipos', 'eq0') and isinstance(k[2], int):
                q = terms._polyobj[k[2]]
                vs = [akey(a) for a in atoms_of(q, deep=False)]
                if vs and all(v[0] == 'v' and isinstance(v[1], tuple) and v[1][0] in ('C1', 'C2') and v[1][1:] in (('N',), ('m',)) for v in vs) and all(x > 0 for m, x in q.t.items() if m):
                    v = int(any(v[1][0] not in empty for v in vs))
                    return P(v if k[1] != 'eq0' else 1 - v)
            if k[1] == 'streq':
                return P(int(k[2][0] == MULT[0]))
            return None

        zero = Subst(lambda k: ZERO if k[0] == 'v' and isinstance(k[1], tuple) and k[1][0] in empty and k[1][1:] in (('N',), ('m',), ('Nactive',)) else None)

        def val(n):
            q = F.get(n)
            if q is None:
                return None
            return minmaxform(zero(assign(q, ind)))

        def verify(n, exps, text):
            key = '%s|%s' % (cls, text)
            try:
                got = val(n)
            except (TooBig, ZeroDivisionError):
                ctx.count('undecided')
                return
            if got is None:
                ctx.bad('inner', where, key + '|unset', '%s of an inner cell is not computed' % text)
                return
            r = anysame(got, exps)
            if r:
                ctx.ok('inner', where, '%s %s<%d> %d%d' % (cls, text, nd, n1, n2))
            elif r is None or not understood(got):
                ctx.count('undecided')
            else:
                ctx.bad('inner', where, key, '%s of a cell whose children %s is %s' % (
                    text, 'both hold particles' if n1 and n2 else '%s holds particles' % ('1' if n1 else '2') , show(got)))
        z = P(0)
        if 'N' in fields:
            verify(('N',), [sum((C(j, 'N') for j in on), z)], 'N')
        if 'm' in fields:
            M = sum((C(j, 'm') for j in on), z)
            verify(('m',), [M], 'm')
            R = {}
            for n in ('r', 'v'):
                for k in range(nd):
                    R[n, k] = sum((C(j, 'm') * C(j, n, k) for j in on), z) / M
                    verify((n, k), [R[n, k]], '%s[%d]' % (n, k))
        for n in ('hmax', 'maxsound'):
            if n in fields:
                l = [C(j, n) for j in on]
                al = [C(j, n) for j in (1, 2)]
                verify((n,), [mx(*x) for b in (l, al) for x in ([z] + b, [-big()] + b, b)], n)
        for b in ('bb', 'hbox', 'vbox'):
            if b in fields:
                for k in range(nd):
                    for e, op, i0 in (('min', mn, big()), ('max', mx, -big())):
                        l = [C(j, b, e, k) for j in on]
                        al = [C(j, b, e, k) for j in (1, 2)]
                        verify((b, e, k), [op(*x) for bb in (l, al) for x in ([i0] + bb, bb)], '%s.%s[%d]' % (b, e, k))
        if 'm' in fields:
            for a in (1, 3):
                for b in (1, 3):
                    if len(on) == 2 or a == b == 1:
                        geometry(ctx, where, cls, nd, F, ind, 'inner', '', ordering(zero, a, b))
            if n1 and n2:
                for i in QIDX[nd]:
                    q = sum((C(j, 'q', i) for j in on), z)
                    for j in on:
                        q = q + quad(C(j, 'm'), [C(j, 'r', k) - R['r', k] for k in range(nd)], i, nd)
                    verify(('q', i), [q], 'q[%d]' % i)


def ordering(zero, a, b):
    """decides comparisons between the boxes of the children: min of C1 is a, of C2 is 2; max of C1 is 10+b, of C2 12"""
    def num(l):
        if l == 'big_number' or isinstance(l, tuple) and 'big_number' in str(l[-1:]):
            return 1000
        if isinstance(l, tuple) and l[0] in ('C1', 'C2') and l[1:3] in (('bb', 'min'), ('bb', 'max')):
            return {('C1', 'min'): a, ('C2', 'min'): 2, ('C1', 'max'): 10 + b, ('C2', 'max'): 12}[l[0], l[2]]
        if isinstance(l, tuple) and l[0] in ('C1', 'C2') and l[1:] == ('hmax',):
            return {'C1': a, 'C2': 2}[l[0]]
        return None

    def f(k):
        if k[1] == 'pos' and isinstance(k[2], int):
            q = terms._polyobj[k[2]]
            t = 0
            kinds = set()
            for m, c in q.t.items():
                for x, e in m:
                    kk = terms._atomkey[x]
                    n = num(kk[1]) if kk[0] == 'v' else None
                    if n is None or e != 1:
                        return None
                    c = c * n
                    kinds.add(kk[1][1] if len(kk[1]) > 1 and kk[1][0] in ('C1', 'C2') else None)
                t += c
            return P(int(t > 0)) if len(kinds - {None}) == 1 else None
        return None
    return lambda q: assign(zero(q), f)


def inner_fold(ctx, p, f, cls, fields, run, c):
    nd = f.ndim()
    L = Leaf.__new__(Leaf)
    L.ctx, L.p, L.f, L.cls, L.nd, L.run, L.D = ctx, p, f, cls, nd, run, run.D
    where = L.where()
    F = c.f

    check = L.child_check

    def has(n, name):
        if n not in F:
            ctx.bad('inner', where, '%s|%s|unset' % (cls, name), '%s of an inner cell is not computed' % name)
            return False
        return True
    for n in ('N', 'm'):
        if n in fields and has((n,), n):
            check(n, F[(n,)], [ZERO], [ACC + E(n)])
    for n in ('hmax', 'maxsound'):
        if n in fields and has((n,), n):
            check(n, F[(n,)], [ZERO, -big()], [mx(ACC, E(n))])
    for b in ('bb', 'hbox', 'vbox'):
        if b in fields:
            for k in range(nd):
                for e, op, i0 in (('min', mn, big()), ('max', mx, -big())):
                    if has((b, e, k), '%s.%s' % (b, e)):
                        check('%s.%s[%d]' % (b, e, k), F[(b, e, k)], [i0], [op(ACC, E(b, e, k))])
    if 'm' not in fields:
        return
    sm, sn = L.fold_sym(F[('m',)]), L.fold_sym(F[('N',)])
    if sm is None or sn is None:
        ctx.count('undecided')
        return
    pf = positive((sm, sn))
    R = {}
    for n in ('r', 'v'):
        for k in range(nd):
            q = assign(F[(n, k)], pf)
            R[n, k] = q
            check('mass-weighted %s[%d]' % (n, k), q * sym(sm), [ZERO], [ACC + E('m') * E(n, k)])
    geometry(ctx, where, cls, nd, F, pf, 'inner', '')
    for i in QIDX[nd]:
        q = F.get(('q', i))
        if q is None:
            continue
        q = assign(q, pf)
        if q.const() is not None:
            ctx.bad('inner', where, '%s|q|none|%d' % (cls, nd), 'q[%d] of an inner cell is %s in %d dimensions when quadrupole moments are used' % (i, show(q), nd))
            continue
        s = L.fold_sym(q)
        if s is None:
            ctx.count('undecided')
            continue
        for e in L.D.folds[s][4]:
            if e is not None and e.d is not None:
                e.d = assign(e.d, pf)
        try:
            inc = quad(E('m'), [E('r', k) - R['r', k] for k in range(nd)], i, nd)
        except TooBig:
            ctx.count('undecided')
            continue
        check('q[%d]' % i, q, [ZERO], [ACC + E('q', i) + inc])


MACS = ((2, 'amin'), (1, 'macfactor'))


def check_mac(ctx, p, f, cls, leaf):
    """the opening criteria use the extremes over all particles of the cell"""
    nd = f.ndim()
    for mac, fld in MACS:
        L = Leaf(ctx, p, f, cls, mac, leaf)
        rule = 'leaf' if leaf else 'inner'
        c = L.run.cell(('hmax', 'm'))
        if c is None:
            ctx.count('undecided')
            continue
        L.final = c.f
        if (fld,) not in c.f:
            ctx.bad(rule, L.where(), '%s|%s|unset' % (cls, fld), '%s of a %s cell is not computed with the opening criterion that uses it' % (fld, rule))
            continue
        q = c.f[(fld,)]
        if fld == 'amin':
            a = ZERO
            for k in range(nd):
                a = a + E('atree', k) * E('atree', k)
            x, op, init = a ** Fr(1, 2), mn, [big()]
        else:
            x, op, init = E('gpot') ** Fr(-2, 3), mx, [ZERO]
        if leaf:
            L.check(fld, q, (init, lambda c, x=x, op=op: [op(ACC, x)] if c['alive'] else [ACC, op(ACC, x)]))
        elif L.fold_sym(q) is not None:
            L.child_check(fld, q, init, [op(ACC, E(fld))])
        else:
            ch = children(c)
            q = Canon([(l, n) for l, n in ch.items()] + [(c.obj, 'C')])(q)
            l = [sym(('C%d' % j, fld)) for j in (1, 2)]
            both = minmaxform(assign(q, lambda k: ONE if k[1] in ('pos', 'ipos') and isinstance(k[2], int) and all(akey(v)[0] == 'v' and isinstance(akey(v)[1], tuple) and akey(v)[1][1:] in (('N',), ('m',)) for v in atoms_of(terms._polyobj[k[2]], deep=False)) else None))
            r = anysame(both, [op(*(i + l)) for i in ([], init)])
            if r:
                ctx.ok(rule, L.where(), '%s %s<%d>' % (cls, fld, nd))
            elif r is not None and understood(both):
                ctx.bad(rule, L.where(), '%s|%s' % (cls, fld), '%s of an inner cell is %s' % (fld, show(both)))
            else:
                ctx.count('undecided')


def check_kept(ctx, p, f, cls):
    """without restocking of leaves, the content of a leaf (of a pruned tree) stays"""
    if not any(f.locals[i][1].replace('const ', '').strip() == 'bool' for i in f.params):
        return
    run = Run(p, f, True, stock=0)
    L = Leaf.__new__(Leaf)
    L.f = f
    bad = set()
    for st in run.states():
        for l, v in st.m.items():
            o, fld, i = lf(l)
            n = names(l)
            hit = [x for x in n if x in ('N', 'm', 'hmax', 'rmax', 'bb', 'hbox', 'vbox', 'q', 'r', 'v', 'rcell', 'Nactive', 'maxsound', 'cdistsqd')]
            if not hit or v.d is None or not any(isinstance(x, tuple) and x[0] == '.' and x[1].split('::')[0] in ('TreeCellBase', 'KDTreeCell', 'OctTreeCell') for x in l):
                continue
            q = v.d
            if q == sym(l):
                continue
            ks = [akey(a) for a in atoms_of(q, deep=False)]
            if len(ks) == 1 and ks[0][0] == 'v' and isinstance(ks[0][1], tuple) and ks[0][1][0] in ('loop', 'fold') and q == sym(ks[0][1]):
                continue            # value from before the iteration
            if understood(q):
                bad.add(hit[0])
    if bad:
        ctx.bad('leaf', L.where(), '%s|kept' % cls, 'when leaf cells are not to be restocked (pruned trees), %s of a leaf cell change' % ', '.join(sorted(bad)))
    else:
        ctx.ok('leaf', L.where(), '%s kept<%d>' % (cls, f.ndim()))


def check_extrapolate(ctx, p, f, cls):
    nd = f.ndim()
    run = Run(p, f, False)
    where = '%s:%d' % (f.file, f.line)
    dt = [f.locals[i][0] for i in f.params if 'double' in f.locals[i][1] or 'float' in f.locals[i][1]]
    seen = {}
    for lid, before, start, end, brs, c in run.D.exits:
        if end is None:
            continue
        for l, v in end.m.items():
            n = names(l)
            t = [x for x in n if x in ('r', 'rcell', 'bb', 'hbox')]
            if not t or v.d is None or l not in start or start[l].d is None:
                continue
            k = n[-1]
            if isinstance(k, int):
                seen.setdefault((t[-1],) + tuple(x for x in n if x in ('min', 'max')) + (k,), (v.d - start[l].d, l, lid))
    if not seen or len(dt) != 1:
        ctx.count('undecided')
        return
    dts = ('P', dt[0])
    for fld in [('r',), ('rcell',), ('bb', 'min'), ('bb', 'max'), ('hbox', 'min'), ('hbox', 'max')]:
        for k in range(nd):
            if fld + (k,) not in seen:
                ctx.bad('extrapolate', where, '%s|%s|unset' % (cls, '.'.join(fld)), '%s[%d] of a cell is not moved with the cell' % ('.'.join(fld), k))
                continue
            d, l, lid = seen[fld + (k,)]
            vs = [akey(a) for a in atoms_of(d)]
            if not understood(d):
                ctx.count('undecided')
                continue
            v = [x for x in vs if x[0] == 'v' and isinstance(x[1], tuple) and names(x[1])[-2:] == ('v', k)]
            if len(v) == 1 and any(x[0] == 'v' and dt[0] in str(x[1]) for x in vs) and len(vs) == 2 and len(d.t) == 1 and list(d.t.values()) == [1] and all(e == 1 for a, e in list(d.t)[0]):
                ctx.ok('extrapolate', where, '%s %s[%d]<%d>' % (cls, '.'.join(fld), k, nd))
            else:
                ctx.bad('extrapolate', '%s:%d' % (f.file, lid[1]), '%s|%s' % (cls, '.'.join(fld)), '%s[%d] of a cell moves by %s in dt, not by the velocity of the cell times dt' % ('.'.join(fld), k, show(d)))


def check_moment(ctx, p):
    """the multipole handed to the force loops is that of the cell"""
    n = 0
    done = set()
    for f in sorted(p.named('MultipoleMoment::MultipoleMoment'), key=lambda f: f.m):
        nd = f.ndim() or (int(f.h['ct'][0]) if f.h['ct'] else None)
        if f.body is None or len(f.params) != 1 or nd in done:
            continue
        if 'TreeCell' not in f.locals[f.params[0]][1]:
            continue
        done.add(nd)
        D = PairDom(p)
        I = Interp(p, D, maxdepth=5)
        fl = I.run_root(f, st=State(g=ONE), this=('this', 'MM'))
        e = fl.n or (fl.re[-1][0] if fl.re else None)
        if e is None:
            ctx.count('undecided')
            continue
        n += 1
        got = {}
        for l, v in e.m.items():
            if l[:2] == ('this', 'MM') and v.d is not None:
                got[names(l[2:])] = v.d
        exp = [('m',)] + [('r', k) for k in range(nd)] + [('q', i) for i in QIDX[nd]]
        for x in exp:
            q = got.get(x)
            ks = [akey(a) for a in atoms_of(q, deep=False)] if q is not None else []
            if q is None:
                ctx.bad('moment', '%s:%d' % (f.file, f.line), 'MultipoleMoment|%s|unset' % x[0], 'the multipole of a cell does not take over %s' % '.'.join(map(str, x)))
            elif len(ks) == 1 and ks[0][0] == 'v' and isinstance(ks[0][1], tuple) and names(ks[0][1])[-len(x):] == x and q == sym(ks[0][1]):
                ctx.ok('moment', '%s:%d' % (f.file, f.line), 'MultipoleMoment %s<%d>' % (x, nd))
            elif understood(q):
                ctx.bad('moment', '%s:%d' % (f.file, f.line), 'MultipoleMoment|%s' % x[0], '%s of the multipole of a cell is %s' % ('.'.join(map(str, x)), show(q)))
            else:
                ctx.count('undecided')
    return n


def check_potential(ctx, p):
    """with q as stocked, the quadrupole term of the potential is the second order of the field of the particles"""
    from gravity import cell_loop, zero_small, field_syms
    done = set()
    for nd in ND:
        for f in p.named('ComputeCellQuadrupoleForces'):
            if [x for x in f.h['ft'] if x.isdigit()][:1] != [str(nd)] or nd in done:
                continue
            r = cell_loop(p, f, nd)
            if r is None:
                ctx.count('undecided')
                continue
            done.add(nd)
            pot, acc, rp = r
            z = zero_small(pot)
            qs = {}
            R = {}
            for a in atoms_of(z):
                k = akey(a)
                if k[0] == 'v' and isinstance(k[1], tuple):
                    n = names(k[1])
                    if n[-2:-1] == ('q',):
                        qs[n[-1]] = k
                    if n[-2:-1] == ('r',) and k not in rp:
                        R[n[-1]] = k
            if sorted(R) != list(range(nd)):
                ctx.count('undecided')
                continue
            dx = [A(R[k]) - A(rp[k]) for k in range(nd)]
            rr = ZERO
            for x in dx:
                rr = rr + x * x
            for i, (a, b) in sorted(QIDX[nd].items()):
                if i not in qs:
                    ctx.bad('potential', f.where(), 'quadrupole|%d|%d' % (nd, i), 'the quadrupole potential in %d dimensions does not use q[%d]' % (nd, i))
                    continue
                d = Deriv(lambda x: ONE if x == qs[i] else None)(z)
                t = dx[a] * dx[b] * (P(1) if a != b else P(1) / P(2))
                if nd == 3 and a == b:
                    t = t - dx[2] * dx[2] / P(2)
                want = t * rr ** Fr(-5, 2)
                r = same(d, want)
                if r is False and nd == 1:
                    r = same(d * d, want * want)
                if r:
                    ctx.ok('potential', f.where(), 'quadrupole q[%d]<%d>' % (i, nd))
                elif r is None or not understood(d):
                    ctx.count('undecided')
                else:
                    ctx.bad('potential', f.where(), 'quadrupole|%d|%d' % (nd, i), 'the factor of q[%d] in the quadrupole potential (%dD) is %s' % (i, nd, show(d)))


STOCK = ('N', 'Nactive', 'm', 'hmax', 'maxsound', 'bb', 'hbox', 'vbox', 'r', 'v', 'q')
TARGETS = (
    ('KDTree', ('KDTree::StockCellProperties', 'KDTree::StockTree'), STOCK, 'LIlik'),
    ('OctTree', ('OctTree::StockTree',), STOCK, 'LIlik'),
    ('BruteForceTree', ('BruteForceTree::StockTreeProperties', 'BruteForceTree::StockTree'), STOCK, 'Ll'),
    ('KDTree', ('KDTree::UpdateHmaxValues',), ('hmax', 'hbox'), 'LI'),
    ('OctTree', ('OctTree::UpdateHmaxValues',), ('hmax', 'hbox'), 'LI'),
    ('BruteForceTree', ('BruteForceTree::UpdateHmaxValuesCell', 'BruteForceTree::UpdateHmaxValues'), ('hmax', 'hbox'), 'L'),
    ('KDTree', ('KDTree::UpdateActiveParticleCounters',), ('Nactive',), 'L'),
    ('OctTree', ('OctTree::UpdateActiveParticleCounters',), ('Nactive',), 'L'),
    ('BruteForceTree', ('BruteForceTree::UpdateActiveParticleCounters',), ('Nactive',), 'L'),
    ('Tree', ('Tree::ExtrapolateCellProperties',), (), 'x'),
    ('KDTree', ('KDTree::ExtrapolateCellProperties',), (), 'x'),
)


JOBS = {
    'L': lambda ctx, p, f, fields: check_leaf(ctx, p, f, f.name, fields),
    'I': lambda ctx, p, f, fields: check_inner(ctx, p, f, f.name, fields),
    'l': lambda ctx, p, f, fields: check_mac(ctx, p, f, f.name, True),
    'i': lambda ctx, p, f, fields: check_mac(ctx, p, f, f.name, False),
    'k': lambda ctx, p, f, fields: check_kept(ctx, p, f, f.name),
    'x': lambda ctx, p, f, fields: check_extrapolate(ctx, p, f, f.name),
}


def size(f):
    return len(repr(f.body))


def job(ctx, item):
    conf, cls, m, fields, what = item
    p = ctx.program(conf)
    f = p.fns[m]
    for w in what:
        for MULT[0] in ('quadrupole', 'fast_quadrupole'):
            if MULT[0] == 'quadrupole' or 'q' in fields and w in 'LI':
                try:
                    JOBS[w](ctx, p, f, fields)
                except (Giveup, TooBig, Undecided, RecursionError):
                    ctx.count('undecided')
    MULT[0] = 'quadrupole'


def run(ctx):
    items = []
    for conf in ('serial', 'mpi'):
        p = ctx.program(conf)
        for cls, fns, fields, what in TARGETS:
            for nm in fns:
                best = {}
                for f in sorted(p.named(nm), key=lambda f: f.m):
                    if f.body is not None and (f.ndim() not in best or size(f) > size(best[f.ndim()])):
                        best[f.ndim()] = f
                for nd, f in sorted(best.items()):
                    items.append((conf, cls, f.m, fields, what))
                if best:
                    break
    pmap(ctx, items, job)
    p = ctx.program('serial')
    n = check_moment(ctx, p)
    check_potential(ctx, p)
    ctx.floor('cell functions', len(items), 12)
    ctx.floor('multipole constructors', n, 1)
