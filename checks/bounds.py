"""P13: boundary conditions: wrapping, reflection, nearest images, ghost particles."""
from fractions import Fraction as Fr
import itertools
from absint import State, V, Giveup
from terms import TooBig
from pairs import P, ZERO, ONE, A, sym, akey, atoms_of, Subst, lf
from cells import names
from par import pmap
from util import find, strip
import scen
import terms

OPEN, PER, MIR, WALL = 0, 1, 2, 3
BNAME = {OPEN: 'open', PER: 'periodic', MIR: 'mirror', WALL: 'wall'}
ENUMS = {'openBoundary': OPEN, 'periodicBoundary': PER, 'mirrorBoundary': MIR, 'wallBoundary': WALL}


def short(l):
    return [x[1].split('::')[-1] for x in l if isinstance(x, tuple) and len(x) == 2 and x[0] == '.']


def index(l):
    return [x[1] for x in l if isinstance(x, tuple) and len(x) == 2 and x[0] == '[']


def base(l):
    while isinstance(l, tuple) and len(l) == 3 and l[0] in ('loop', 'after') and isinstance(l[2], tuple):
        l = l[2]
    return l


BOX = {'min': lambda k: Fr(k + 1, 7), 'size': lambda k: 1 + Fr(k, 3)}


def boxnum(l):
    """numbers for a simulation box: box[k] = [lo, lo + size]"""
    n = short(l)
    i = index(l)
    if not n or not i or not isinstance(i[-1], int):
        return None
    k = i[-1]
    lo, s = BOX['min'](k), BOX['size'](k)
    return {'min': lo, 'max': lo + s, 'size': s, 'half': s / 2}.get(n[-1])


def unboundary(l, lhs, rhs, en):
    n = short(l)
    i = index(l)
    if n and n[-1] in ('boundary_lhs', 'boundary_rhs') and i and isinstance(i[-1], int):
        w = lhs if n[-1].endswith('lhs') else rhs
        return en[w[i[-1]]] if i[-1] < len(w) else en[OPEN]
    return None


def opaque(q):
    for a in atoms_of(q):
        k = akey(a)
        if k[0] in ('i', 'f') or k[0] == 'v' and isinstance(k[1], tuple) and k[1] and k[1][0] in ('fresh', 'after', 'undef', 'C', 'T'):
            return True
    return False


class Base(object):
    def __init__(self, ctx, p, f, rule):
        self.ctx, self.p, self.f, self.rule, self.nd = ctx, p, f, rule, f.ndim()
        self.en = boundary_enum(p)
        self.seen = set()

    def bad(self, what, msg):
        if what not in self.seen:
            self.seen.add(what)
            self.ctx.bad(self.rule, self.f.where(), '%s|%s' % (self.f.name, what), msg)

    def ok(self, what):
        self.ctx.ok(self.rule, self.f.where(), '%s(%sD)|%s' % (self.f.name, self.nd, what))

    def undecided(self):
        self.ctx.count('undecided cases')


def boundary_enum(p):
    out = {}

    def rec(n):
        if isinstance(n, list):
            if len(n) >= 4 and n[0] == 'enum' and isinstance(n[2], str) and n[2].split('::')[-1] in ENUMS:
                out[ENUMS[n[2].split('::')[-1]]] = n[3]
            for x in n:
                if isinstance(x, list):
                    rec(x)
    for f in p.fns.values():
        if f.body is not None and f.name.split('::')[-1] in ('setBoundaryType', 'CheckBoundaries', 'SetBoundaryFlags'):
            rec(f.body)
    for i, v in ((OPEN, 0), (PER, 1), (MIR, 2), (WALL, 3)):
        out.setdefault(i, v)
    return out


# ---- particles outside the box ---------------------------------------------------------------------
VEC = ('r', 'r0', 'v', 'v0', 'a', 'a0')


class Wrap(Base):
    """a particle beyond an edge is shifted by one period (periodic) or reflected (mirror, wall); all others are left alone"""

    def run(self):
        nd = self.nd
        pairs = [(PER, PER)] + [(a, b) for a in (OPEN, MIR, WALL) for b in (OPEN, MIR, WALL)]
        cases = []
        for k in range(nd):
            for (l, r) in pairs:
                for w in (-1, 0, 1):
                    lhs, rhs, pos = [OPEN] * nd, [OPEN] * nd, [0] * nd
                    lhs[k], rhs[k], pos[k] = l, r, w
                    cases.append((tuple(lhs), tuple(rhs), tuple(pos)))
        if nd > 1:
            for (l, r) in ((PER, PER), (MIR, MIR), (WALL, WALL)):
                for pos in itertools.product((-1, 1), repeat=nd):
                    cases.append(((l,) * nd, (r,) * nd, pos))
            cases.append(((PER, MIR, WALL)[:nd], (PER, WALL, MIR)[:nd], (1, -1, 1)[:nd]))
        for c in cases:
            self.case(*c)

    def case(self, lhs, rhs, pos):
        nd = self.nd

        def env(l):
            l = base(l)
            b = boxnum(l)
            if b is not None and 'simbox' in str(l[:2]):
                return b
            n = short(l)
            i = index(l)
            if n and n[-1] in ('r', 'r0') and i and isinstance(i[-1], int):
                k = i[-1]
                lo, s = BOX['min'](k), BOX['size'](k)
                x = {-1: lo - s / 10, 0: lo + s / 3, 1: lo + s + s / 10}[pos[k]] if k < nd else lo
                return x if n[-1] == 'r' else x + Fr(1, 1000)
            return None

        def fixed(l):
            return unboundary(l, lhs, rhs, self.en)
        try:
            D, fl = scen.run(self.p, self.f, env, fixed)
        except (Giveup, TooBig):
            self.undecided()
            return
        special = any(x != OPEN for x in lhs + rhs)
        objs = {}
        for lid, fn, start, end in D.loopinfo:
            if end is None:
                continue
            for l, v in end.m.items():
                n = short(l)
                if v.d is None or l not in start or not n or l[0] == 'L':
                    continue
                o, fld, ix = lf(l)
                if fld is None:
                    continue
                objs.setdefault(o, {})[(fld.split('::')[-1], ix)] = (l, v.d)
        name = '%s %s' % ('/'.join('%s-%s' % (BNAME[a], BNAME[b]) for a, b in zip(lhs, rhs)), pos)
        want = {}
        for k in range(nd):
            t = lhs[k] if pos[k] < 0 else rhs[k] if pos[k] > 0 else OPEN
            if t != OPEN:
                want[k] = (t, pos[k])
        parts = {o: d for o, d in objs.items() if any(f in VEC for f, ix in d)}
        if not parts:
            if want and special:
                if D.loopinfo or any(short(l) and short(l)[-1] in VEC for rs, rv in fl.re for l in rs.m) or True:
                    self.bad('left outside', 'a particle beyond a boundary is not moved (%s)' % name)
            else:
                self.ok('unmoved %s' % name)
            return
        if len(parts) > 1:
            self.undecided()
            return
        (o, d), = parts.items()
        box = None
        for (f, ix), (l, q) in d.items():
            for a in atoms_of(q):
                k = akey(a)
                if k[0] == 'v' and isinstance(k[1], tuple) and short(base(k[1]))[-1:] and short(base(k[1]))[-1] in ('min', 'max', 'size'):
                    m = base(k[1])
                    box = m[:[i for i, x in enumerate(m) if isinstance(x, tuple) and x[0] == '.'][-1]]
        loc = lambda e, k: sym(self.bloc(d, box, e, k))
        for k in range(nd):
            for f in VEC:
                x = [(l, q) for (g, ix), (l, q) in d.items() if g == f and ix == (k,)]
                if not x:
                    got = None
                else:
                    l, q = x[0]
                    q = Subst(lambda a: sym(base(a[1])) if a[0] == 'v' and isinstance(a[1], tuple) else None)(q)
                    got = q - sym(l)
                    start = sym(l)
                t = want.get(k)
                if t is None:
                    if got is not None and got != ZERO:
                        if opaque(got):
                            self.undecided()
                        else:
                            self.bad('moved %s' % f, '%s of a particle inside the box or at an open boundary changes (%s)' % (f, name))
                    continue
                if t[0] == PER:
                    if f in ('r', 'r0'):
                        if got is None:
                            self.bad('wrap %s' % f, '%s of a particle beyond a periodic boundary is not shifted (%s)' % (f, name))
                            continue
                        n = self.boxval(got)
                        if opaque(got):
                            self.undecided()
                        elif n != -t[1] * BOX['size'](k):
                            self.bad('wrap %s' % f, '%s of a particle beyond a periodic boundary is not shifted by the size of the box (%s)' % (f, name))
                        else:
                            self.ok('wrap %s %s' % (f, name))
                    elif got is not None and got != ZERO:
                        self.bad('wrap %s' % f, '%s of a particle changes at a periodic boundary (%s)' % (f, name))
                    continue
                if got is None:
                    self.bad('reflect %s' % f, '%s of a particle beyond a reflecting boundary is not reflected (%s)' % (f, name))
                    continue
                r = got + 2 * start
                if f in ('r', 'r0'):
                    edge = BOX['min'](k) + (BOX['size'](k) if t[1] > 0 else 0)
                    good = self.boxval(r) == 2 * edge
                else:
                    good = r == ZERO
                if opaque(r):
                    self.undecided()
                elif good:
                    self.ok('reflect %s %s' % (f, name))
                else:
                    self.bad('reflect %s' % f, '%s of a particle beyond a reflecting boundary is not its mirror image (%s)' % (f, name))
        for (f, ix), (l, q) in d.items():
            if f in ('m', 'h', 'rho', 'u', 'ptype', 'iorig') and q != sym(l):
                q = Subst(lambda a: sym(base(a[1])) if a[0] == 'v' and isinstance(a[1], tuple) else None)(q)
                if q != sym(l) and not opaque(q):
                    self.bad('changes %s' % f, '%s of a particle changes at a boundary' % f)

    def bloc(self, d, box, e, k):
        return box + (('.', e), ('[', k))

    def boxval(self, q):
        """value of an expression of the edges of the box, None when it contains anything else"""
        def f(k):
            if k[0] == 'v' and isinstance(k[1], tuple):
                x = boxnum(base(k[1]))
                return P(x) if x is not None else None
            return None
        return Subst(f)(q).const()


# ---- nearest images --------------------------------------------------------------------------------
class Nearest(Base):
    """a separation becomes that of the nearest periodic image"""

    def __init__(self, ctx, p, f, ctor):
        Base.__init__(self, ctx, p, f, 'nearest')
        self.ctor = ctor

    def run(self):
        nd = self.nd
        xs = (Fr(-14, 10), Fr(-6, 10), Fr(-3, 10), Fr(3, 10), Fr(6, 10), Fr(14, 10))
        for k in range(nd):
            for t in (OPEN, PER, MIR):
                for x in xs:
                    lhs, dr = [OPEN] * nd, [Fr(1, 10)] * nd
                    lhs[k], dr[k] = t, x
                    self.case(lhs, dr)
        for x in xs:
            self.case([PER] * nd, [x, -x, x / 2][:nd])
            for k in range(nd):
                # the other directions are periodic
                self.case([OPEN if j == k else PER for j in range(nd)], [x] * nd)

    def case(self, lhs, dr):
        nd = self.nd
        ps = [self.f.locals[i][0] for i in self.f.params]
        ty = {self.f.locals[i][0]: self.f.locals[i][1] for i in self.f.params}
        arrays = [n for n in ps if ty[n].replace('const ', '').strip() in ('double *', 'float *')]
        if not arrays:
            return
        # the displacement is the array that comes in with a value; a second array receives the correction or is the position
        out = None
        if len(arrays) == 1:
            d = arrays[0]
        elif self.f.name.split('::')[-1].startswith('Apply'):
            out, d = arrays[:2]
        else:
            d, out = arrays[:2]

        def env(l):
            l = base(l)
            b = boxnum(l)
            if b is not None:
                return b
            if l[:2] == ('P', d) and isinstance(index(l)[-1], int):
                return dr[index(l)[-1]] * BOX['size'](index(l)[-1])
            return None

        def fixed(l):
            return unboundary(l, lhs, lhs, self.en)
        try:
            D = scen.ScenDom(self.p, env, fixed)
            I = scen.ScenInterp(self.p, D, maxdepth=8)
            st = State(g=ONE)
            this = None
            if self.ctor is not None:
                this = ('K',)
                I.run_root(self.ctor, {}, st=st, this=this)
                st.b[this + (('.', domain_field(self.ctor)),)] = ('P', 'simbox') if False else st.b.get(this + (('.', domain_field(self.ctor)),), ('P', self.ctor.locals[self.ctor.params[0]][0]))
            fl = I.run_root(self.f, {}, st=st, this=this)
        except (Giveup, TooBig):
            self.undecided()
            return
        ends = [s for s in [fl.n] + [x[0] for x in fl.re] if s is not None]
        if len(ends) != 1:
            self.undecided()
            return
        e = ends[0]

        def val(n, k):
            v = e.m.get(('P', n, ('[', k)))
            return v.d if v is not None else None
        for k in range(nd):
            s = BOX['size'](k)
            n = -round(dr[k]) if lhs[k] == PER else 0
            what = '%s %s' % (BNAME[lhs[k]], float(dr[k]))
            q = val(d, k)
            w = Wrap.boxval(self, q - sym(('P', d, ('[', k)))) if q is not None else 0
            corrects = out is not None and not self.f.name.split('::')[-1].startswith('Apply')
            const = 'const' in ty[d]
            if not const:
                if w is None:
                    self.undecided()
                elif w != n * s:
                    self.bad('displacement', 'a displacement of %s box lengths at a %s boundary is changed by %s box lengths instead of %d' % (float(dr[k]), BNAME[lhs[k]], float(w / s), n))
                else:
                    self.ok('displacement ' + what)
            if out is None:
                continue
            q = val(out, k)
            if corrects:
                c = Wrap.boxval(self, q) if q is not None else None
                if q is None:
                    self.bad('correction unset', 'the correction in a direction is left without a value')
                elif c is None:
                    self.undecided()
                elif c != n * s:
                    self.bad('correction', 'the correction of a displacement of %s box lengths at a %s boundary is %s box lengths instead of %d' % (float(dr[k]), BNAME[lhs[k]], float(c / s), n))
                else:
                    self.ok('correction ' + what)
            else:
                w = Wrap.boxval(self, q - sym(('P', out, ('[', k)))) if q is not None else 0
                if w is None:
                    self.undecided()
                elif w != n * s:
                    self.bad('position', 'the position moves by another vector than the displacement')
                else:
                    self.ok('position ' + what)


def domain_field(ctor):
    for x in ctor.inits or []:
        if isinstance(x, list) and isinstance(x[0], str):
            return x[0]
    return 'GhostNeighbourFinder::_domain'


# ---- overlap of boxes ------------------------------------------------------------------------------
REL = {'apart below': (Fr(-30, 10), Fr(-12, 10)), 'below': (Fr(-15, 10), Fr(-2, 10)), 'inside': (Fr(-1, 2), Fr(1, 2)), 'around': (Fr(-2), Fr(2)),
       'above': (Fr(3, 10), Fr(14, 10)), 'apart above': (Fr(11, 10), Fr(25, 10))}


class Overlap(Base):
    """two boxes that have a point in common are found to overlap"""

    def run(self, nd):
        arrays = [self.f.locals[i][0] for i in self.f.params if self.f.locals[i][1].replace('const ', '').strip() in ('double *', 'float *')]
        boxes = [self.f.locals[i][0] for i in self.f.params if 'Box<' in self.f.locals[i][1]]
        ints = [self.f.locals[i][0] for i in self.f.params if self.f.locals[i][1].replace('const ', '').strip() == 'int']
        for rel in itertools.product(sorted(REL), repeat=nd):
            a = [(Fr(-1), Fr(1))] * nd
            b = [REL[r] for r in rel]
            hit = all(x[0] < y[1] and y[0] < x[1] for x, y in zip(a, b))

            def env(l):
                i = index(l)
                if len(arrays) == 4 and l[0] == 'P' and l[1] in arrays and i and isinstance(i[-1], int) and i[-1] < nd:
                    j = arrays.index(l[1])
                    return (a, b)[j // 2][i[-1]][j % 2]
                if len(boxes) == 2 and l[0] == 'P' and l[1] in boxes and i and isinstance(i[-1], int) and short(l)[-1:] and short(l)[-1] in ('min', 'max'):
                    return (a, b)[boxes.index(l[1])][i[-1]][0 if short(l)[-1] == 'min' else 1]
                return None

            def fixed(l):
                return nd if l[0] == 'P' and len(l) == 2 and l[1] in ints else None
            self.one(env, fixed, hit, ' '.join(rel))

    def one(self, env, fixed, hit, name):
        try:
            D, fl = scen.run(self.p, self.f, env, fixed)
        except (Giveup, TooBig):
            self.undecided()
            return
        r = {int(rv.c) if rv.c is not None else (D.env.num(rv.d) if rv is not None and rv.d is not None else None) for rs, rv in fl.re if rv is not None}
        if len(r) != 1 or None in r:
            self.undecided()
        elif hit and not r.pop():
            self.bad('missed', 'boxes that overlap are found apart (%s)' % name)
        else:
            self.ok('overlap %s' % name)


def overlap_functions(p):
    out = {}
    for f in sorted(p.fns.values(), key=lambda f: f.m):
        n = f.name.split('::')[-1]
        if f.body is not None and not f.cls and n in ('BoxOverlap', 'BoxesOverlap') and not f.file.startswith('..'):
            out.setdefault((n, f.ndim()), f)
    return [out[k] for k in sorted(out, key=str)]


# ---- ghost images ----------------------------------------------------------------------------------
def enum_values(p):
    """values of the boundary flags, from the tables that hold them"""
    out = {}
    for t in ('mirror_bound_flags', 'periodic_bound_flags'):
        g = p.globals.get(t)
        if not g:
            return None
        D = scen.ScenDom(p, lambda l: None)
        for k in range(3):
            for s in range(2):
                out[t[0], k, s] = D.table(('G', t, ('[', k), ('[', s)))
    if len(set(out.values())) != 12 or None in out.values():
        return None
    return out


CONFIGS = ((OPEN, OPEN), (PER, PER), (MIR, MIR), (MIR, OPEN), (OPEN, MIR))
VECTOR = ('v', 'a', 'Wprim', 'dQ', 'dQdt')                 # components 0..ndim-1 are those of a vector
SCALAR = ('h', 'm', 'rho', 'u', 'sound', 'hrangesqd', 'hfactor', 'ptype', 'iorig', 'level', 'ndens', 'invomega', 'zeta', 'pressure', 'press', 'div_v', 'alpha', 'pfactor')


def layout(p, cls, nd):
    """paths of the vectors and flags of a particle class"""
    cls = cls.split('<')[0] + ('::' + cls.split('>::')[1] if '>::' in cls else '')
    seen = []

    def rec(c):
        c = c.split('<')[0]
        rs = p.records.get(c, [])
        for r in [r for r in rs if '<%d>' % nd in r['t']] or rs[:1]:
            for fl in r['fields']:
                n, ty = fl[0], fl[1]
                dims = [int(x) for x in ty.replace(']', '').split('[')[1:] if x.isdigit()]
                if n == 'flags':
                    yield (('.', c + '::flags'), ('.', 'type_flag::_flag'))
                elif n == 'r' or n in VECTOR or n in ('grad', 'B'):
                    for ix in itertools.product(*[range(d) for d in dims]):
                        yield (('.', c + '::' + n),) + tuple(('[', i) for i in ix)
            for b in r['bases']:
                for x in rec(b if isinstance(b, str) else b[0]):
                    yield x
            break
    for x in rec(cls):
        if x not in seen:
            if any(y[0] == '[' and y[1] >= nd + 2 for y in x):
                continue
            seen.append(x)
            yield x


class Images(Base):
    """every image of a particle that a cell can see is made, once, and is the exact mirror or periodic image"""
    where = {'l': Fr(1, 10), 'm': Fr(1, 2), 'r': Fr(9, 10)}

    def __init__(self, ctx, p, f, ctor):
        Base.__init__(self, ctx, p, f, 'images')
        self.ctor = ctor
        self.flags = enum_values(p)
        self.vec = 'std::vector' in f.locals[f.params[1]][1]
        self.layout = list(layout(p, f.h['ft'][-1] if f.h['ft'] else '', self.nd))
        self.ghosts = [g for g in p.fns.values() if g.body is not None and g.cls == f.cls and g.name.split('::')[-1] == 'MaxNumGhosts' and g.ndim() == self.nd]

    def run(self):
        nd = self.nd
        places = [(w, c) for w in 'lmr' for c in 'lmr']
        reach = [(Fr(1, 50), Fr(1, 50)), (Fr(1, 50), Fr(1, 3)), (Fr(1, 3), Fr(1, 50)), (Fr(1, 3), Fr(1, 3))]
        for k in range(nd):
            for cf in CONFIGS:
                for w, c in places:
                    for h, g in reach:
                        cfg, pl = [(OPEN, OPEN)] * nd, [('m', 'm')] * nd
                        cfg[k], pl[k] = cf, (w, c)
                        self.case(cfg, pl, h, g)
        if nd > 1:
            for cf in ((MIR, MIR), (PER, PER)):
                for w in itertools.product('lr', repeat=nd):
                    for h, g in reach[1:]:
                        self.case([cf] * nd, [(x, x) for x in w], h, g)
                self.case([cf] * nd, [('l', 'r')] * nd, *reach[3])
            for o in ([(PER, PER), (MIR, MIR), (MIR, OPEN)], [(MIR, OPEN), (PER, PER), (OPEN, MIR)], [(OPEN, OPEN), (MIR, MIR), (PER, PER)]):
                for pl in ([('l', 'l')] * nd, [('r', 'l')] * nd, [('l', 'r')] * nd):
                    for h, g in reach[1:]:
                        self.case(o[:nd], pl, h, g)

    def case(self, cfg, pl, h, g, old=0):
        """h: range of the particle; g: reach of the cell"""
        nd, ctor, f = self.nd, self.ctor, self.f
        part, ngbs = [f.locals[i][0] for i in f.params[:2]]
        box, cell = [ctor.locals[i][0] for i in ctor.params[:2]]
        at = lambda k, w: BOX['min'](k) + self.where[w] * BOX['size'](k)
        x0 = [at(k, pl[k][0]) for k in range(nd)]
        cen = [at(k, pl[k][1]) + Fr(1, 200) for k in range(nd)]
        lo, hi = [c - Fr(1, 20) for c in cen], [c + Fr(1, 20) for c in cen]

        def env(l):
            n, i = short(l), index(l)
            if l[:2] == ('P', box):
                return boxnum(l)
            if l[:2] == ('P', part) and n:
                if n[-1] == 'r' and i and i[-1] in range(nd):
                    return x0[i[-1]]
                if n[-1] == 'hrangesqd':
                    return h * h
            if l[:2] == ('P', cell) and n and i and i[-1] in range(nd):
                k = i[-1]
                if n[-1] == 'rcell':
                    return cen[k]
                if 'bb' in n:
                    return lo[k] if n[-1] == 'min' else hi[k]
                if 'hbox' in n:
                    return lo[k] - g if n[-1] == 'min' else hi[k] + g
                if 'vbox' in n:
                    return lo[k] - h - g if n[-1] == 'min' else hi[k] + h + g
            return None

        def fixed(l):
            if short(l)[-1:] == ['_flag']:
                return 0
            return unboundary(l, [c[0] for c in cfg], [c[1] for c in cfg], self.en)
        try:
            D = scen.ScenDom(self.p, env, fixed)
            I = scen.ScenInterp(self.p, D, maxdepth=9)
            st = State(g=ONE)
            I.run_root(ctor, {}, st=st, this=('K',))
            st.b.setdefault(('K', ('.', domain_field(ctor))), ('P', box))
            top = None
            for m in self.ghosts[:1]:
                r = I.run_root(m, {}, st=st, this=('K',))
                v = [rv.d.const() for rs, rv in r.re if rv is not None and rv.d is not None]
                top = v[0] if len(v) == 1 else None
            if self.vec:
                D.sizes[('P', ngbs)] = old
            fl = I.run_root(f, {}, st=st, this=('K',))
        except (Giveup, TooBig):
            self.undecided()
            return
        if not fl.re and fl.n is None:
            # not allowed for this kind of particle
            self.ctx.count('cases that stop with an error')
            return
        if len(fl.re) != 1 or fl.n is not None:
            self.undecided()
            return
        st, rv = fl.re[0]
        n = rv.c if rv.c is not None else rv.d.const() if rv.d is not None else None
        if n is None or (self.vec and D.sizes.get(('P', ngbs)) is None):
            self.undecided()
            return
        n = int(n)
        name = '%s particle/cell %s reach %s/%s' % (' '.join('%s-%s' % (BNAME[a], BNAME[b]) for a, b in cfg), ' '.join('%s/%s' % x for x in pl), h, g)
        if self.vec and D.sizes[('P', ngbs)] != n + old:
            self.bad('count', '%d images are added to the list but %d are reported' % (D.sizes[('P', ngbs)] - old, n))
            return
        if top is not None and n > top:
            self.bad('capacity', '%d images are made but there is only room for %d' % (n, top))
        made = {}
        for j in range(n):
            loc = ('P', ngbs, ('[', j + old))
            fields = {l[3:]: v for l, v in st.m.items() if l[:3] == loc}
            for t in self.layout:
                if t not in fields:
                    v = I.load(loc + t, 'int' if short(t)[-1] == '_flag' else 'double', st, None)
                    if not [a for a in atoms_of(v.d) if akey(a)[0] == 'v' and isinstance(akey(a)[1], tuple) and akey(a)[1][:2] == ('P', ngbs)]:
                        fields[t] = v
            sig = []
            for k in range(nd):
                q = [v.d for t, v in fields.items() if short(t) == ['r'] and index(t) == [k]]
                sig.append(self.signature(q[0] if q else None, k, part))
            if None in sig:
                self.undecided()
                return
            for k in range(nd):
                if sig[k] == 'wrong':
                    self.bad('position', 'the position of an image is neither that of the particle nor its mirror or periodic image (%s)' % name)
                    return
                okk = sig[k] == 'same' or sig[k] in ('lhs', 'rhs') and cfg[k][0 if sig[k] == 'lhs' else 1] == MIR or sig[k] in ('up', 'down') and cfg[k][0] == PER
                if not okk:
                    self.bad('spurious', 'an image is made at a boundary that is not of that kind (%s)' % name)
                    return
            sig = tuple(sig)
            if sig in made:
                self.bad('twice', 'the same image is made twice (%s)' % name)
                return
            made[sig] = fields
            self.fields(sig, fields, part, name)
        if old == 0:
            self.needed(made, cfg, x0, cen, lo, hi, h, g, name)

    def signature(self, q, k, part):
        if q is None:
            return None
        if opaque(q):
            return None
        own = [a for a in atoms_of(q) if akey(a)[0] == 'v' and isinstance(akey(a)[1], tuple) and akey(a)[1][:2] == ('P', part)]
        if len(own) != 1 or short(akey(own[0])[1]) != ['r'] or index(akey(own[0])[1]) != [k]:
            return 'wrong'
        x = sym(akey(own[0])[1])
        d = Wrap.boxval(self, q - x)
        s = BOX['size'](k)
        if d is not None:
            return {0: 'same', s: 'up', -s: 'down'}.get(d, 'wrong')
        d = Wrap.boxval(self, q + x)
        if d is not None:
            return {2 * BOX['min'](k): 'lhs', 2 * (BOX['min'](k) + s): 'rhs'}.get(d, 'wrong')
        # the nearest image is formed relative to the centre of the cell
        return 'wrong' if not [a for a in atoms_of(q) if akey(a)[0] == 'v' and not isinstance(akey(a)[1], tuple)] else None

    def fields(self, sig, fields, part, name):
        s = [-1 if x in ('lhs', 'rhs') else 1 for x in sig]
        nd = self.nd
        n = 0
        for t, v in sorted(fields.items(), key=str):
            f, ix = short(t), index(t)
            if not f or v.d is None:
                continue
            f = f[-1]
            q = v.d
            if f == '_flag':
                self.flag(sig, q, name)
                continue
            if f == 'r':
                continue
            if f in VECTOR and len(ix) == 1:
                want = s[ix[0]] if ix[0] < nd else 1
            elif f == 'grad' and len(ix) == 2:
                want = s[ix[1]] * (s[ix[0]] if ix[0] < nd else 1)
            elif f == 'B' and len(ix) == 2:
                want = s[ix[0]] * s[ix[1]]
            elif f in SCALAR:
                want = 1
            else:
                continue
            if q == ZERO and f in ('dQ', 'dQdt', 'a'):
                continue
            own = [a for a in atoms_of(q) if akey(a)[0] == 'v' and isinstance(akey(a)[1], tuple) and akey(a)[1][:2] == ('P', part)]
            if opaque(q) or not own:
                self.undecided()
                continue
            n += 1
            x = sym(akey(own[0])[1])
            same = short(akey(own[0])[1])[-1:] == [f] and index(akey(own[0])[1]) == ix
            if len(own) != 1 or not same:
                self.ctx.count('fields computed from others')
            elif q != want * x:
                self.bad('image %s' % f, '%s%s of an image (%s) is not that of a %s copy of the particle' % (f, ''.join('[%d]' % i for i in ix), ', '.join(sig), 'mirrored' if -1 in s else 'shifted'))

        self.ctx.count('fields of images compared', n)
        self.ok('image %s %s' % (' '.join(sig), name))

    def flag(self, sig, q, name):
        if self.flags is None or q.const() is None:
            self.undecided()
            return
        c = int(q.const())
        want = 0
        for k in range(self.nd):
            if sig[k] in ('lhs', 'rhs'):
                want |= self.flags['m', k, 0 if sig[k] == 'lhs' else 1]
        mir = sum(v for (t, k, s), v in self.flags.items() if t == 'm')
        per = sum(v for (t, k, s), v in self.flags.items() if t == 'p')
        if c & mir != want:
            self.bad('mirror flag', 'the flags of an image (%s) do not name the edges at which it is reflected' % ', '.join(sig))
        elif bool(c & per) != any(x in ('up', 'down') for x in sig):
            self.bad('periodic flag', 'the flags of an image (%s) do not tell whether it is a periodic one' % ', '.join(sig))

    def needed(self, made, cfg, x0, cen, lo, hi, h, g, name):
        nd = self.nd
        cand = []
        for k in range(nd):
            s = BOX['size'](k)
            if cfg[k][0] == PER:
                d = x0[k] - cen[k]
                cand.append([('same', x0[k])] if abs(d) <= s / 2 else [('down', x0[k] - s)] if d > 0 else [('up', x0[k] + s)])
            else:
                c = [('same', x0[k])]
                if cfg[k][0] == MIR:
                    c.append(('lhs', 2 * BOX['min'](k) - x0[k]))
                if cfg[k][1] == MIR:
                    c.append(('rhs', 2 * (BOX['min'](k) + s) - x0[k]))
                cand.append(c)
        for c in itertools.product(*cand):
            sig = tuple(x[0] for x in c)
            x = [y[1] for y in c]
            d2 = sum(max(lo[k] - x[k], x[k] - hi[k], 0) ** 2 for k in range(nd))
            gather = all(lo[k] - g < x[k] < hi[k] + g for k in range(nd))
            if not (gather or d2 < h * h):
                continue
            if not self.vec and not gather and any(t in ('lhs', 'rhs') for t in sig):
                continue
            if sig in made:
                self.ok('needed %s %s' % (' '.join(sig), name))
            else:
                self.bad('missing %s' % ('mirror' if any(t in ('lhs', 'rhs') for t in sig) else 'nearest'),
                         'the image %s of a particle that reaches the cell, or lies within its reach, is not made (%s)' % (', '.join(sig), name))


# ---- stored ghost particles ------------------------------------------------------------------------
ACTIVE = 2
NREAL, ORIG = 100, 7


def hydro_counts(l, extra={}):
    n = short(l)
    return dict({'Nhydro': NREAL, 'Nghost': 0, 'Nhydromax': 1000, 'Ntotmax': 1000, 'NPeriodicGhost': 1, 'Ntot': NREAL + 1}, **extra).get(n[-1]) if n and l[-1][0] == '.' else None


def ghost_hook(name, args, obj, node, I, st):
    n = name.split('::')[-1]
    if n == 'GetParticlePointer' and args:
        return V(None, None, ('PARTS', ('[', I.idxkey(args[0]))), None, (node[7] or '').rstrip('&').strip())
    if n in ('GetParticleArray', 'GetParticleArrayUnsafe'):
        return V(None, None, None, ('arr', ('PARTS',)), node[7])
    if n in ('AllocateMemory', 'ReallocateMemory'):
        return V(None)
    return None


class Ghosts(Base):
    def __init__(self, ctx, p, f):
        Base.__init__(self, ctx, p, f, 'ghosts')
        self.flags = enum_values(p)

    def parts(self, st):
        out = {}
        for l, v in st.m.items():
            if l[0] == 'PARTS' and len(l) > 2 and l[1][0] == '[' and isinstance(l[1][1], int):
                out.setdefault(l[1][1], {})[l[2:]] = v
        return out

    def getf(self, I, st, i, cls, name, ix=(), ty='double'):
        return I.load(('PARTS', ('[', i), ('.', cls + '::' + name)) + tuple(('[', x) for x in ix), ty, st, None)

    def image(self, I, st, i, src, cls, sig, fields, name, what):
        """particle i is the image sig of particle src"""
        nd = self.nd
        s = [-1 if x in ('lhs', 'rhs') else 1 for x in sig]
        good = True
        ro = owner(self.p, cls, 'r')
        for k in range(nd):
            q = self.getf(I, st, i, ro, 'r', (k,)).d
            x = sym(('PARTS', ('[', src), ('.', ro + '::r'), ('[', k)))
            edge = 2 * (BOX['min'](k) + (BOX['size'](k) if sig[k] == 'rhs' else 0))
            d = q + x if s[k] < 0 else q - x
            want = edge if s[k] < 0 else {'same': 0, 'up': BOX['size'](k), 'down': -BOX['size'](k)}[sig[k]]
            v = Wrap.boxval(self, d)
            if v is None and opaque(d):
                self.undecided()
            elif v != want:
                self.bad(what + ' position', 'the position of a ghost (%s) is not the image of its particle' % ', '.join(sig))
                good = False
        for f, ty, dims in fields:
            for ix in itertools.product(*[range(d) for d in dims]):
                if f in VECTOR and len(ix) == 1:
                    w = s[ix[0]] if ix[0] < nd else 1
                elif f == 'grad' and len(ix) == 2:
                    w = s[ix[1]] * (s[ix[0]] if ix[0] < nd else 1)
                elif f == 'B' and len(ix) == 2:
                    w = s[ix[0]] * s[ix[1]]
                elif f in SCALAR and not ix:
                    w = 1
                else:
                    continue
                c = owner(self.p, cls, f)
                q = self.getf(I, st, i, c, f, ix, ty).d
                x = sym(('PARTS', ('[', src), ('.', c + '::' + f)) + tuple(('[', y) for y in ix))
                if f in ('iorig', 'level', 'ptype') or q is None:
                    continue
                if opaque(q):
                    self.undecided()
                elif q != w * x and not (f in ('dQ', 'dQdt', 'a', 'Wprim', 'grad', 'B') and what == 'create'):
                    self.bad('%s %s' % (what, f), '%s of a ghost (%s) is not that of a %s copy of its particle' % (f, ', '.join(sig), 'mirrored' if -1 in s else 'shifted'))
                    good = False
        if good:
            self.ok('%s %s' % (what, name))

    def flagged(self, I, st, i, sig, before, name, what):
        v = I.load(('PARTS', ('[', i), ('.', 'Particle::flags'), ('.', 'type_flag::_flag')), 'int', st, None)
        c = v.d.const() if v.d is not None else None
        if c is None or self.flags is None:
            self.undecided()
            return
        c = int(c)
        want = before & ~ACTIVE
        for k in range(self.nd):
            if sig[k] in ('lhs', 'rhs'):
                want |= self.flags['m', k, 0 if sig[k] == 'lhs' else 1]
            elif sig[k] in ('up', 'down'):
                want |= self.flags['p', k, 0 if sig[k] == 'up' else 1]
        if c & ACTIVE:
            self.bad(what + ' active', 'a ghost particle is active')
        elif c != want:
            self.bad(what + ' flags', 'the flags of a ghost (%s) do not tell which image it is' % ', '.join(sig))
        else:
            self.ok('%s flags %s' % (what, name))


def owner(p, cls, f):
    for r in p.records.get(cls, [])[:1]:
        if any(x[0] == f for x in r['fields']):
            return cls
        for b in r['bases']:
            o = owner(p, (b if isinstance(b, str) else b[0]).split('<')[0], f)
            if o:
                return o
    return None


def all_fields(p, cls, nd):
    out = []

    def rec(c):
        rs = p.records.get(c.split('<')[0], [])
        for r in [r for r in rs if '<%d>' % nd in r['t']][:1] or rs[:1]:
            for fl in r['fields']:
                dims = [int(x) for x in fl[1].replace(']', '').split('[')[1:] if x.isdigit()]
                if fl[1].split('[')[0].strip() in ('double', 'float', 'int'):
                    out.append((fl[0], fl[1].split('[')[0].strip(), dims))
            for b in r['bases']:
                rec(b if isinstance(b, str) else b[0])
    rec(cls)
    return out


class MakeGhost(Ghosts):
    """a particle within the range of the kernel of an edge gets a ghost: its exact image"""

    def run(self):
        for k in range(self.nd):
            for l, r in CONFIGS + ((WALL, WALL), (MIR, WALL)):
                for x in (Fr(1, 100), Fr(1, 2), Fr(99, 100)):
                    # 14/5 of h from an edge: within the range of the widest kernel (3 h)
                    for h in (Fr(1, 100), Fr(2), min(x, 1 - x)*BOX['size'](k)/Fr(14, 5)):
                        for v in (Fr(-1, 3), Fr(0), Fr(1, 3)):
                            for t in (Fr(0), Fr(1)):
                                for before in (ACTIVE,) if k == 0 else (ACTIVE, self.flags['m', 0, 1] if self.flags else 0):
                                    self.case(k, l, r, x, h, v, t, before)

    def case(self, k, l, r, x, h, v, t, before):
        nd, f = self.nd, self.f
        lhs, rhs = [OPEN] * nd, [OPEN] * nd
        lhs[k], rhs[k] = l, r
        pos = BOX['min'](k) + x * BOX['size'](k)
        ints = [i for i in f.params if f.locals[i][1].replace('const ', '').strip() == 'int']
        dbl = [i for i in f.params if f.locals[i][1].replace('const ', '').strip() in ('double', 'float')]
        if len(ints) != 2 or len(dbl) != 1:
            self.undecided()
            return
        args = {f.locals[ints[0]][0]: V(P(ORIG), ORIG, ty='int'), f.locals[ints[1]][0]: V(P(k), k, ty='int'), f.locals[dbl[0]][0]: V(P(t), None, ty='double')}

        def env(loc):
            n, i = short(loc), index(loc)
            b = boxnum(loc)
            if b is not None and loc[0] == 'P':
                return b
            if loc[:2] == ('PARTS', ('[', ORIG)) and n:
                if n[-1] == 'r' and i[-1] == k:
                    return pos
                if n[-1] == 'v' and i[-1] == k:
                    return v
                if n[-1] == 'h':
                    return h
            if n and n[-1] == 'kernrange':
                return 3
            return None

        def fixed(loc):
            if short(loc)[-1:] == ['_flag']:
                return before
            c = hydro_counts(loc)
            return c if c is not None else unboundary(loc, lhs, rhs, self.en)
        try:
            D = scen.ScenDom(self.p, env, fixed, ghost_hook)
            I = scen.ScenInterp(self.p, D, maxdepth=8)
            fl = I.run_root(f, args, st=State(g=ONE), this=('this', 'K'))
        except (Giveup, TooBig):
            self.undecided()
            return
        ends = [s for s in [fl.n] + [y[0] for y in fl.re] if s is not None]
        if len(ends) != 1:
            self.undecided()
            return
        st = ends[0]
        name = '%s-%s in direction %d at %s of the box, h = %s, v = %s, lifetime %s' % (BNAME[l], BNAME[r], k, x, h, v, t)
        ng = [w.d.const() for a, w in st.m.items() if short(a)[-1:] == ['Nghost'] and w.d is not None]
        n = int(ng[0]) if ng and ng[0] is not None else None if ng else 0
        if n is None:
            self.undecided()
            return
        parts = self.parts(st)
        sigs = []
        for j in range(n):
            i = NREAL + j
            q = self.getf(I, st, i, 'Particle', 'r', (k,)).d
            s = Images.signature(self, self.local(q), k, 'X')
            if s is None:
                self.undecided()
                return
            if s == 'wrong' or s == 'same':
                self.bad('create position', 'the position of a ghost is not the image of its particle (%s)' % name)
                return
            side = 0 if s in ('lhs', 'up') else 1
            if (l, r)[side] != (MIR if s in ('lhs', 'rhs') else PER):
                self.bad('create kind', 'a ghost is made at an edge whose boundary is not of that kind (%s)' % name)
                return
            if s in sigs:
                self.bad('create twice', 'the same ghost is made twice (%s)' % name)
                return
            sigs.append(s)
            sig = ['same'] * nd
            sig[k] = s
            self.image(I, st, i, ORIG, 'Particle', sig, all_fields(self.p, 'Particle', nd), name, 'create')
            self.flagged(I, st, i, sig, before, name, 'create')
            o = self.getf(I, st, i, 'Particle', 'iorig', (), 'int')
            if o.d is None or o.d.const() != ORIG:
                self.bad('create iorig', 'a ghost does not name the particle it is a copy of')
        lo, s = BOX['min'](k), BOX['size'](k)
        for s2, near, side in (('lhs' if l == MIR else 'up', pos + min(Fr(0), v * t) < lo + 3 * h, l), ('rhs' if r == MIR else 'down', pos + max(Fr(0), v * t) > lo + s - 3 * h, r)):
            if near and side in (PER, MIR):
                if s2 in sigs:
                    self.ok('create %s %s' % (s2, name))
                else:
                    self.bad('create missing', 'a particle within the range of the kernel of a %s edge has no ghost (%s)' % (BNAME[side], name))

    def local(self, q):
        """positions of the source particle under the name Images.signature expects"""
        def f(kk):
            if kk[0] == 'v' and isinstance(kk[1], tuple) and kk[1][:2] == ('PARTS', ('[', ORIG)):
                return sym(('P', 'X') + kk[1][2:])
            return None
        return Subst(f)(q) if q is not None else None


class CopyGhost(Ghosts):
    """a stored ghost is refreshed as the image of its original that its flags name"""

    def run(self):
        if self.flags is None:
            return
        nd = self.nd
        for k in range(nd):
            for t in 'mp':
                for s in range(2):
                    for prev in [()] + [((tt, kk, ss),) for kk in range(k) for tt in 'mp' for ss in range(2)] + ([(('m', 0, 0), ('p', 1, 1)), (('p', 0, 1), ('m', 1, 0))] if k == 2 else []):
                        self.case(k, t, s, prev)

    def case(self, k, t, s, prev):
        nd, f = self.nd, self.f
        cls = f.h['ct'][-1] if f.h['ct'] else 'Particle'
        cls = cls.split('<')[0]
        flag = self.flags[t, k, s] | ACTIVE
        for x in prev:
            flag |= self.flags[x]

        def env(loc):
            b = boxnum(loc)
            return b if loc[0] == 'P' else None

        def fixed(loc):
            if loc[0] == 'PARTS':
                if short(loc)[-1:] == ['_flag']:
                    return flag if loc[1] == ('[', NREAL) else ACTIVE
                if short(loc)[-1:] == ['iorig']:
                    return ORIG if loc[1] == ('[', NREAL) else 3
            return hydro_counts(loc)
        try:
            D = scen.ScenDom(self.p, env, fixed, ghost_hook)
            I = scen.ScenInterp(self.p, D, maxdepth=8)
            fl = I.run_root(f, {}, st=State(g=ONE), this=('this', 'K'))
        except (Giveup, TooBig):
            self.undecided()
            return
        ends = [x for x in [fl.n] + [y[0] for y in fl.re] if x is not None]
        if len(ends) != 1:
            self.undecided()
            return
        st = ends[0]
        sig = ['same'] * nd
        sig[k] = ('lhs', 'rhs')[s] if t == 'm' else ('up', 'down')[s]
        name = '%s after %s' % (' '.join(sig), prev)
        if NREAL not in self.parts(st) and ('PARTS', ('[', NREAL)) not in D.copyof:
            self.undecided()
            return
        o = owner(self.p, cls, 'r')
        self.image(I, st, NREAL, ORIG, cls, sig, all_fields(self.p, cls, nd), name, 'refresh')
        v = I.load(('PARTS', ('[', NREAL), ('.', o + '::flags'), ('.', 'type_flag::_flag')), 'int', st, None)
        c = v.d.const() if v.d is not None else None
        if c is None:
            self.undecided()
        elif int(c) & ACTIVE:
            self.bad('refresh active', 'a ghost particle becomes active when it is refreshed')
        elif int(c) != flag & ~ACTIVE:
            self.bad('refresh flags', 'a ghost loses its flags when it is refreshed')
        else:
            self.ok('refresh flags ' + name)
        v = I.load(('PARTS', ('[', NREAL), ('.', o + '::iorig')), 'int', st, None)
        if v.d is None or v.d.const() != ORIG:
            self.bad('refresh iorig', 'a ghost no longer names its original after it is refreshed')


class AllGhosts(Ghosts):
    """ghosts are made in every direction that has a boundary, from the ghosts of the directions before as well"""

    def run(self):
        nd = self.nd
        for cf in itertools.product((OPEN, PER, MIR), repeat=nd):
            self.case([(c, c) for c in cf])
        for k in range(nd):
            for c in ((OPEN, MIR), (MIR, OPEN)):
                cfg = [(OPEN, OPEN)] * nd
                cfg[k] = c
                self.case(cfg)

    def case(self, cfg):
        nd, f = self.nd, self.f
        lhs, rhs = [c[0] for c in cfg], [c[1] for c in cfg]
        log = []

        def hook(name, args, obj, node, I, st):
            n = name.split('::')[-1]
            if n == 'GenerateBoundaryGhostParticles' or n == 'CheckBoundaryGhostParticle':
                c = [a.c for a in args if a.ty and 'int' in a.ty and a.c is not None]
                ghosts = [l for l in st.m if short(l)[-1:] == ['Nghost']]
                g = [st.m[l].d.const() for l in ghosts if st.m[l].d is not None]
                log.append((n[0], tuple(c), int(g[0]) if g and g[0] is not None else None))
                for l in ghosts:
                    w = st.m[l].d.const()
                    if w is not None:
                        st.m[l] = V(P(w + (2 if n[0] == 'G' else 1)), int(w) + (2 if n[0] == 'G' else 1), ty='int')
                return V(None)
            return ghost_hook(name, args, obj, node, I, st)

        def fixed(loc):
            c = hydro_counts(loc, {'Nghost': 55, 'NPeriodicGhost': 66, 'Ntot': 77})
            return c if c is not None else unboundary(loc, lhs, rhs, self.en)
        try:
            D = scen.ScenDom(self.p, lambda l: None, fixed, hook)
            I = scen.ScenInterp(self.p, D, maxdepth=6)
            fl = I.run_root(f, {}, st=State(g=ONE), this=('this', 'K'))
        except (Giveup, TooBig):
            self.undecided()
            return
        ends = [x for x in [fl.n] + [y[0] for y in fl.re] if x is not None]
        if len(ends) != 1:
            self.undecided()
            return
        st = ends[0]
        name = ' '.join('%s-%s' % (BNAME[a], BNAME[b]) for a, b in cfg)
        have, made = 0, 0
        for k in range(nd):
            if cfg[k] == (OPEN, OPEN):
                continue
            gen = [x for x in log if x[0] == 'G' and x[1][-1:] == (k,)]
            if not gen:
                self.bad('direction', 'no ghosts of the real particles are made in a direction with a boundary (%s)' % name)
                return
            if len(gen) > 1:
                self.bad('direction twice', 'the ghosts of a direction are made more than once (%s)' % name)
                return
            chk = [x[1][0] for x in log if x[0] == 'C' and x[1][-1:] == (k,) and len(x[1]) == 2]
            for i in range(NREAL, NREAL + have):
                if i not in chk:
                    self.bad('ghosts of ghosts', 'a ghost of an earlier direction gets no ghost of its own at the edges of a later one (%s)' % name)
                    return
            if len(set(chk)) != len(chk):
                self.bad('ghosts twice', 'the ghosts of a ghost are made twice (%s)' % name)
            have += 2 + len(chk)
        extra = [x for x in log if x[1] and not (0 <= x[1][-1] < nd)]
        n = {x: [w.d.const() for l, w in st.m.items() if short(l)[-1:] == [x] and w.d is not None] for x in ('Nghost', 'NPeriodicGhost', 'Ntot')}
        if any(len(set(v)) > 1 or v[:1] == [None] for v in n.values()):
            self.undecided()
            return
        for x, w in (('Nghost', have), ('NPeriodicGhost', have), ('Ntot', NREAL + have)):
            if not n[x] or n[x][0] != w:
                self.bad('counter ' + x, '%s does not count the ghosts that were made (%s)' % (x, name))
                return
        self.ok('all ghosts ' + name)


class BoxImages(Base):
    """two boxes of which some periodic image have a point in common are found to overlap"""

    def __init__(self, ctx, p, f, ctor):
        Base.__init__(self, ctx, p, f, 'images overlap')
        self.ctor = ctor

    def run(self):
        nd = self.nd
        ps = [self.f.locals[i][0] for i in self.f.params]
        if len(ps) != 2:
            return
        for k in range(nd):
            for t in (OPEN, PER, MIR):
                for c1 in (Fr(1, 20), Fr(1, 2), Fr(19, 20)):
                    for c2 in (Fr(1, 20), Fr(1, 4), Fr(1, 2), Fr(19, 20)):
                        for w in (Fr(1, 100), Fr(1, 5)):
                            cf, a, b = [OPEN] * nd, [Fr(1, 2)] * nd, [Fr(1, 2)] * nd
                            cf[k], a[k], b[k] = t, c1, c2
                            self.case(ps, cf, a, b, w)
        if nd > 1:
            for a in itertools.product((Fr(1, 20), Fr(19, 20)), repeat=nd):
                for b in itertools.product((Fr(1, 20), Fr(1, 2), Fr(19, 20)), repeat=nd):
                    self.case(ps, [PER] * nd, a, b, Fr(1, 5))

    def case(self, ps, cf, a, b, w):
        nd = self.nd
        ends = {ps[0]: a, ps[1]: b}

        def env(l):
            n, i = short(l), index(l)
            if l[0] == 'P' and l[1] in ends and n and i and i[-1] in range(nd):
                k = i[-1]
                return BOX['min'](k) + BOX['size'](k) * (ends[l[1]][k] + (w if n[-1] == 'max' else -w))
            return boxnum(l)

        def fixed(l):
            return unboundary(l, cf, cf, self.en)
        hit = True
        for k in range(nd):
            shifts = (-1, 0, 1) if cf[k] == PER else (0,)
            hit = hit and any(abs(a[k] - b[k] - s) < 2 * w for s in shifts)
        try:
            D = scen.ScenDom(self.p, env, fixed)
            I = scen.ScenInterp(self.p, D, maxdepth=9)
            st = State(g=ONE)
            I.run_root(self.ctor, {}, st=st, this=('K',))
            st.b.setdefault(('K', ('.', domain_field(self.ctor))), ('P', self.ctor.locals[self.ctor.params[0]][0]))
            fl = I.run_root(self.f, {}, st=st, this=('K',))
        except (Giveup, TooBig):
            self.undecided()
            return
        r = {int(rv.c) if rv.c is not None else (D.env.num(rv.d) if rv.d is not None else None) for rs, rv in fl.re if rv is not None}
        name = '%s %s %s %s' % (' '.join(BNAME[x] for x in cf), a, b, w)
        if len(r) != 1 or None in r:
            self.undecided()
        elif hit and not r.pop():
            self.bad('missed', 'boxes of which images overlap are found apart')
        else:
            self.ok('images overlap ' + name)


class TreeGhosts(Ghosts):
    """the tree offers every particle within the range of an edge for a ghost"""

    def run(self):
        for k in range(self.nd):
            # also cells 3/40 from an edge: within the range of 2*hmax = 1/10, not within hmax
            d = Fr(1, 100) + Fr(3, 40)/BOX['size'](k)
            for x in itertools.product((Fr(2, 100), d, Fr(1, 2), 1 - d, Fr(98, 100)), repeat=2):
                for t in (Fr(0), Fr(1)):
                    for v in (Fr(-1, 3), Fr(0), Fr(1, 3)):
                        if t or not v:
                            self.case(k, x, t, v)

    def case(self, k, x, t, v):
        """two leaf cells of two and three particles at x; an empty leaf cell between them"""
        nd, f = self.nd, self.f
        leaf = {1: (x[0], [3, 5]), 3: (x[1], [6, 8, 4])}
        cells = {0: {'copen': 1, 'cnext': 4, 'N': 5, 'ifirst': 3, 'ilast': 4}, 1: {'copen': -1, 'cnext': 2, 'N': 2, 'ifirst': 3, 'ilast': 5},
                 2: {'copen': -1, 'cnext': 3, 'N': 0, 'ifirst': -1, 'ilast': -1}, 3: {'copen': -1, 'cnext': 4, 'N': 3, 'ifirst': 6, 'ilast': 4}}
        nxt = {3: 5, 5: 6, 6: 8, 8: 4, 4: -1}
        w = Fr(1, 100)
        ext = {0: (min(x) - w, max(x) + w), 1: (x[0] - w, x[0] + w), 2: (Fr(1), Fr(0)), 3: (x[1] - w, x[1] + w)}
        log = []

        def hook(name, args, obj, node, I, st):
            if name.split('::')[-1] == 'CheckBoundaryGhostParticle':
                log.append(tuple(a.c for a in args[:2]))
                return V(None)
            return ghost_hook(name, args, obj, node, I, st)

        def cell(loc):
            i = [j for j, y in enumerate(loc) if isinstance(y, tuple) and y[0] == '.' and y[1].endswith('celldata')]
            if i and len(loc) > i[0] + 1 and loc[i[0] + 1][0] == '[' and loc[i[0] + 1][1] in cells:
                return loc[i[0] + 1][1], loc[i[0] + 2:]
            return None, None

        def env(loc):
            c, r = cell(loc)
            if c is not None and r:
                n, i = short(r), index(r)
                if n[-1] in ('min', 'max') and 'bb' in n and i and i[-1] in range(nd):
                    return BOX['min'](i[-1]) + BOX['size'](i[-1]) * (ext[c][0 if n[-1] == 'min' else 1] if i[-1] == k else Fr(1, 2))
                if n[-1] == 'hmax':
                    return Fr(1, 20)
                if n[-1] == 'v':
                    return v
                return None
            return boxnum(loc)

        def fixed(loc):
            c, r = cell(loc)
            if c is not None and r and short(r)[-1:] and short(r)[-1] in cells[c]:
                return cells[c][short(r)[-1]]
            n = short(loc)
            if n and n[-1] == 'Ncell':
                return 4
            if n and n[-1] == 'inext' and index(loc) and index(loc)[-1] in nxt:
                return nxt[index(loc)[-1]]
            return unboundary(loc, [PER] * nd, [PER] * nd, self.en)
        ints = [f.locals[i][0] for i in f.params if f.locals[i][1].replace('const ', '').strip() == 'int']
        dbl = [f.locals[i][0] for i in f.params if f.locals[i][1].replace('const ', '').strip() in ('double', 'float')]
        if len(ints) != 1 or len(dbl) != 2:
            self.undecided()
            return
        args = {ints[0]: V(P(k), k, ty='int'), dbl[0]: V(P(t), None, ty='double'), dbl[1]: V(P(2), None, ty='double')}
        try:
            D = scen.ScenDom(self.p, env, fixed, hook)
            I = scen.ScenInterp(self.p, D, maxdepth=5)
            fl = I.run_root(f, args, st=State(g=ONE), this=('this', 'K'))
        except (Giveup, TooBig):
            self.undecided()
            return
        if any(None in y for y in log):
            self.undecided()
            return
        name = 'direction %d leaves at %s lifetime %s velocity %s' % (k, x, t, v)
        got = [y[0] for y in log if y[1] == k]
        lo, s = BOX['min'](k), BOX['size'](k)
        for c in (1, 3):
            a, b = lo + s * ext[c][0] + min(Fr(0), v * t), lo + s * ext[c][1] + max(Fr(0), v * t)
            if a < lo + Fr(1, 10) or b > lo + s - Fr(1, 10):
                for i in leaf[c][1]:
                    if i not in got:
                        self.bad('tree ghosts', 'a particle of a cell within the range of an edge is not considered for a ghost (%s)' % name)
                        return
        if len(set(got)) != len(got):
            self.bad('tree ghosts twice', 'a particle is considered for a ghost twice (%s)' % name)
            return
        self.ok('tree ghosts ' + name)


# ---- the box of the simulation ---------------------------------------------------------------------
class BoxSetup(object):
    """the edges and kinds of boundary of the box are the parameters of that name, and its size their distance"""
    FIELDS = {'min': 'boxmin', 'max': 'boxmax', 'boundary_lhs': 'boundary_lhs', 'boundary_rhs': 'boundary_rhs'}

    def __init__(self, ctx, p, f):
        self.ctx, self.p, self.f = ctx, p, f

    def run(self):
        for n in find(self.f.body, 'asg'):
            if n[2] != '=':
                continue
            l = strip(n[3])
            if l[0] != 'idx' or strip(l[2])[0] != 'mem':
                continue
            m = strip(l[2])
            fld = m[3].split('::')[-1]
            if m[3].split('::')[0] not in ('Box', 'DomainBox'):
                continue
            k = strip(l[3])
            names = [x[2] for x in find(n[4], 'str') if isinstance(x[2], str)]
            names = [x for x in names if x.split('[')[0] in ('boxmin', 'boxmax', 'boundary_lhs', 'boundary_rhs')]
            if fld in self.FIELDS and names and k[0] == 'int':
                want = '%s[%d]' % (self.FIELDS[fld], k[2])
                if names == [want]:
                    self.ctx.ok('box', self.f.where(), '%s %s' % (self.f.name, want))
                else:
                    self.ctx.bad('box', '%s:%s' % (self.f.file, n[1]), '%s|%s[%d]' % (self.f.name, fld, k[2]), '%s of the box in direction %d is set from the parameter %s' % (fld, k[2], names[0]))
            if fld in ('size', 'half'):
                self.extent(n, fld, m)

    def extent(self, n, fld, m):
        D = scen.ScenDom(self.p, lambda l: None)
        I = scen.ScenInterp(self.p, D, maxdepth=3)
        st = State(g=ONE)
        I.frames.append({'id': 1, 'this': ('this', 'K'), 'fn': self.f})
        I.fnstack.append(self.f)
        try:
            for i, v in enumerate(self.f.locals):
                if v[1].replace('const ', '').strip() == 'int':
                    st.m[I.vloc(i)] = V(ONE, 1, ty='int')
            lhs = I.ev(n[3], st)
            rhs = I.ev(n[4], st)
        except Exception:
            self.ctx.count('undecided cases')
            return
        finally:
            I.frames.pop()
            I.fnstack.pop()
        if rhs.d is None or lhs.lv is None:
            self.ctx.count('undecided cases')
            return
        loc = lhs.lv
        ix = [x for x in loc if isinstance(x, tuple) and x[0] == '['][-1][1]

        def num(k):
            if k[0] == 'v' and isinstance(k[1], tuple):
                s, i = short(k[1]), index(k[1])
                if k[1][:len(loc) - 2] == loc[:-2] and i and i[-1] == ix and s[-1] in ('min', 'max', 'size'):
                    return P({'min': 3, 'max': 10, 'size': 7}[s[-1]])
            return None
        c = Subst(num)(rhs.d).const()
        if c is None:
            self.ctx.count('undecided cases')
        elif c != (7 if fld == 'size' else Fr(7, 2)):
            self.ctx.bad('box', '%s:%s' % (self.f.file, n[1]), '%s|%s' % (self.f.name, fld), '%s of the box is not %s' % (fld, 'the distance of its edges' if fld == 'size' else 'half of the distance of its edges'))
        else:
            self.ctx.ok('box', self.f.where(), '%s %s' % (self.f.name, fld))


# ---- run -------------------------------------------------------------------------------------------
RULES = {
    'Wrap': 'for every combination of boundary kinds and every position below, inside or above each edge, the code that moves a particle back into the box shifts position by exactly one box size (periodic) or reflects position about the edge and reverses velocity and acceleration (mirror, wall), in that direction only',
    'Nearest': 'a separation that exceeds half of the box in a periodic direction is corrected by one box size towards the nearest image, and in no other direction; a position or correction vector changes by the same amount',
    'Overlap': 'two boxes with a common point are reported to overlap, for every order of their edges',
    'BoxImages': 'two boxes of which a periodic image has a common point with the other are reported to overlap',
    'Images': 'the images made of a particle for a cell are exact mirror or periodic copies (position, velocity, gradients with the right sign; flags that name the edges), each made once, and include every one that lies within the reach of the cell or reaches it',
    'MakeGhost': 'a particle within the range of the kernel of a periodic or mirror edge, now or at the end of the life of the ghost, gets a ghost that is its exact image, is inactive, and names its original',
    'CopyGhost': 'a refreshed ghost is the image of its original in the last direction its flags name, and keeps flags and original',
    'AllGhosts': 'ghosts are made in every direction with a boundary, also of the ghosts of earlier directions, and the counters count them',
    'TreeGhosts': 'the walk that makes ghosts offers every particle of every cell within the range of an edge, once',
    'BoxSetup': 'each edge and boundary kind of the box comes from the parameter of that name and direction; size and half size follow from the edges',
}
GHOSTS = {'CheckBoundaryGhostParticle': MakeGhost, 'SearchBoundaryGhostParticles': AllGhosts, 'GenerateBoundaryGhostParticles': TreeGhosts}


def tasks(p):
    out = []
    ctors = {}
    for f in p.fns.values():
        if f.body is not None and f.h['kind'] == 'ctor' and f.cls.split('::')[-1].split('<')[0] == 'GhostNeighbourFinder':
            ctors.setdefault((f.ndim(), len(f.params)), f)
    for f in sorted(p.fns.values(), key=lambda f: f.m):
        if f.body is None or not f.file.startswith('src/'):
            continue
        n, nd = f.name.split('::')[-1], f.ndim()
        if nd is not None:
            if n == 'CheckBoundaries':
                out.append((Wrap, (f, 'wrap'), ()))
            elif n in ('NearestPeriodicVector', 'PeriodicDistanceCorrection', 'ApplyPeriodicDistanceCorrection') and (not f.cls or (nd, 1) in ctors):
                out.append((Nearest, (f, ctors[nd, 1] if f.cls else None), ()))
            elif n == 'PeriodicBoxOverlap' and f.cls and (nd, 1) in ctors:
                out.append((BoxImages, (f, ctors[nd, 1]), ()))
            elif n in ('ConstructGhostsScatterGather', 'ConstructAllGhosts', 'ConstructGhostsGather') and (nd, 2) in ctors:
                out.append((Images, (f, ctors[nd, 2]), ()))
            elif n == 'CopyHydroDataToGhosts' and len(f.h['ct']) > 1 and 'Mpi' not in f.name:
                out.append((CopyGhost, (f,), ()))
            elif n in GHOSTS:
                out.append((GHOSTS[n], (f,), ()))
    for f in p.one_per_pattern([f for f in p.fns.values() if f.body is not None and f.file.startswith('src/')]):
        if any(x[0] in ('boxmin[0]', 'boundary_lhs[0]') for x in strings(f)):
            out.append((BoxSetup, (f,), ()))
    for f in overlap_functions(p):
        for nd in ((1, 2, 3) if f.ndim() is None else (f.ndim(),)):
            out.append((Overlap, (f, 'overlap'), (nd,)))
    return out


def strings(f):
    return [(x[2],) for x in find(f.body, 'str')]


def run(ctx):
    p = ctx.program('serial')
    ts = tasks(p)
    order = sorted(range(len(ts)), key=lambda i: (-(ts[i][1][0].ndim() or 0) if ts[i][0] is Images else 9, i))
    for k in sorted(RULES):
        ctx.rule(RULES[k])

    def one(sub, i):
        cls, a, r = ts[i]
        n = len(sub.obl)
        x = cls(sub, p, *a)
        x.run(*r)
        return (cls.__name__, a[0].name, len(sub.obl) - n)
    got = {}
    for r in pmap(ctx, order, one):
        if r:
            got[r[0]] = got.get(r[0], 0) + r[2]
            ctx.count('functions analysed')
            ctx.count('cases decided by ' + r[0], r[2])
    m = ctx.program('mpi')
    for f in overlap_functions(m):
        if not any(f.name == t[1][0].name and f.file == t[1][0].file for t in ts):
            for nd in ((1, 2, 3) if f.ndim() is None else (f.ndim(),)):
                Overlap(ctx, m, f, 'overlap').run(nd)
    for k, n in FLOORS.items():
        ctx.floor(k, len([t for t in ts if t[0].__name__ == k]), n)


FLOORS = {'Wrap': 3, 'Nearest': 3, 'Overlap': 3, 'BoxImages': 3, 'Images': 9, 'MakeGhost': 3, 'CopyGhost': 3, 'AllGhosts': 3, 'TreeGhosts': 3, 'BoxSetup': 1}
