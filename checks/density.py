"""P14: density and smoothing lengths, decided on the formula of one iteration and of what follows it.

Each ComputeH is value-numbered once.  Its iteration loop is entered with everything it writes unknown, so
that the formulas of its exits describe the last iteration after any history.  Inner sums over neighbours
stay (initial value, update) pairs.  The formulas are compared with the reference ones as functions, at
sets of values that stand for: converged or not, inside or outside of a sink, every phase of the iteration.
"""
import math
import random
import terms
from fractions import Fraction as Fr
from facts import find
from termdom import *
from terms import TooBig, limit
from absint import State, Giveup, Interp, Flow, V, NoReturn
from pairs import PairDom
from util import *
from par import pmap

KERN = ('w0', 'womega', 'wzeta', 'w1', 'wgrav', 'wpot')


class HDom(PairDom):
    abbrev = True

    def __init__(self, p):
        PairDom.__init__(self, p)
        self.sums = {}
        self.nsum = 0
        self.depth = 0
        self.nested = False
        self.calls = []

    def gopaque(self, lid):
        return self.fresh('loopexit', True)

    def loop_enter(self, lid, c, start, I):
        self.cur['cond'] = c.d if c is not None and c.d is not None else ONE if c is not None and c.c else None

    def after_loop(self, loc, lid, old, start, end, I):
        if start.ptr is not None or end is None or end.d is None:
            return Terms.after_loop(self, loc, lid, old, start, end, I)
        self.nsum += 1
        self.cur[loc] = (old.d if old is not None else None, end.d, self.nsum)
        return V(sym(('sum', self.nsum, loc)), None, ty=start.ty)

    def intrinsic(self, name, args, obj, node, I, st):
        n = name.split('::')[-1]
        if n in ('ComputeThermalProperties', 'UpdatePrimitiveVector', 'ComputeCullenAndDehnenViscosity'):
            if not I.quiet:
                self.calls.append((n, args[0].lv and I.deref(args[0].lv, st), st.copy(), node))
            return V(None)
        if n in ('w0_s2', 'womega_s2', 'wzeta_s2') and I.loops:
            self.nested = True
        return PairDom.intrinsic(self, name, args, obj, node, I, st)


class HInterp(Interp):
    """the iteration loop (the outermost loop that evaluates the kernel for neighbours in an inner loop)"""
    iteration = None

    def ex(self, s, st):
        try:
            return Interp.ex(self, s, st)
        except NoReturn:
            return Flow(None)

    def loop(self, s, st, cond, body, inc, out, post):
        D = self.D
        if self.iteration is None and not self.loops and not self.quiet and self.is_iteration(s, st, cond, body):
            return self.iterate(s, st, cond, body, inc, out, post)
        lid = (self.fn.name, s[1])
        save = getattr(D, 'cur', None)
        D.cur = {}
        try:
            r = Interp.loop(self, s, st, cond, body, inc, out, post)
            for loc, x in D.cur.items():
                if loc != 'cond':
                    D.sums[x[2]] = (lid, loc, D.cur)
        finally:
            D.cur = save
        return r

    def is_iteration(self, s, st, cond, body):
        D = self.D
        self.quiet += 1
        D.nested = False
        n = len(D.loopinfo)
        try:
            self.ex(body, st.copy())
        finally:
            self.quiet -= 1
        return D.nested

    def iterate(self, s, st, cond, body, inc, out, post):
        D = self.D
        lid = ('iteration', s[1])
        pre = st.copy()
        while True:
            # until nothing more is found to be written
            self.quiet += 1
            dry = st.copy()
            if not post and cond:
                cond(dry)
            f = self.ex(body, dry)
            ends = [x for x in [f.n] + f.co + f.br if x is not None]
            for x in ends:
                if inc:
                    inc(x)
            self.quiet -= 1
            more = {}
            for x in ends:
                for k, v in x.m.items():
                    old = st.m.get(k)
                    if old is not v and v.ptr is None and not (k[0] == 'L' and old is None) and not (old is not None and old.d == sym(('it', k))):
                        more[k] = V(sym(('it', k)), None, ty=(old.ty if old is not None else v.ty))
            if not more:
                break
            st.m.update(more)
        start = {k: v for k, v in st.m.items() if v.d is not None and v.d == sym(('it', k))}
        c0 = cond(st) if not post and cond else None
        if c0 is not None and c0.c is None:
            st.g = D.gand(st.g, c0.d, True)
        f = self.ex(body, st)
        end = self.join_many(f.n, f.co)
        if end is not None and inc:
            inc(end)
        out.re += f.re
        self.iteration = dict(start=start, end=end, brk=f.br, pre=pre, re=list(f.re), cond=None, post=post, where=self.fn.where(s[1]))
        exits = list(f.br)
        if end is not None and post and cond:
            c = cond(end)
            d = c.d if c.d is not None else (ONE if c.c else ZERO) if c.c is not None else None
            self.iteration['cond'] = d
            x = end.copy()
            x.g = D.gand(x.g, d, False)
            exits.append(x)
        return None if not exits else exits[0], exits[1:]


def analyse(p, f):
    D = HDom(p)
    I = HInterp(p, D, maxdepth=6)
    limit(3000)
    args = {}
    for i in f.params:
        n, t = f.locals[i][0], f.locals[i][1]
        if t.replace('const', '').strip() in ('int', 'double', 'float', 'bool'):
            args[n] = V(sym(('P', n)), ty=t.replace('const', '').strip())
    try:
        fl = I.run_root(f, args, st=State(g=ONE), this=('this', f.cls))
    finally:
        limit(6000)
    return D, I, fl


# ---- formulas as functions ---------------------------------------------------------------------------
class Unknown(Exception):
    pass


def hashed(x, lo=0.5, hi=1.5):
    return lo + (hi - lo) * random.Random(repr(x)).random()


class Case(object):
    """values for the inputs of one function"""

    def __init__(self, D, vals, seed=0, it=None):
        self.D, self.vals, self.seed, self.it = D, vals, seed, it or {}
        self.loops = {}
        self.ver = 0
        self.memo = {}
        self.done = {}

    def canon(self, loc):
        out = []
        for x in loc:
            if isinstance(x, tuple) and len(x) == 2 and x[0] == '[':
                i = x[1]
                if isinstance(i, tuple) and i[0] == 't':
                    i = self(terms._polyobj[i[1]])
                    if abs(i - round(i)) > 1e-9:
                        raise Unknown('index')
                    i = int(round(i))
                out.append(('[', i))
            elif isinstance(x, tuple) and len(x) == 2 and x[0] == '.':
                out.append(('.', x[1].split('::')[-1]))
            else:
                out.append(x)
        return tuple(out)

    def symbol(self, n):
        if isinstance(n, tuple) and n:
            if n[0] == 'loop':
                if n[1] not in self.loops or n[2] not in self.loops[n[1]]:
                    raise Unknown(str(n))
                return self.got(self.loops[n[1]][n[2]])
            if n[0] == 'sum':
                return self.got(self.sum(n[1]))
            if n[0] == 'it':
                if n[1] in self.it:
                    return self.it[n[1]]
                return hashed((self.seed, 'it', self.canon(n[1])))
            if n[0] in ('after', 'fresh'):
                raise Unknown(str(n))
            if n[0] == 'undef':
                return hashed((self.seed, n), 3, 4)
            loc = self.canon(n)
        else:
            loc = n
        for f in self.vals:
            r = f(loc)
            if r is not None:
                return r
        return hashed((self.seed, loc))

    def got(self, x):
        if isinstance(x, Unknown):
            raise x
        return x

    def tryev(self, q):
        try:
            return self(q) if q is not None else hashed((self.seed, 'none'), 3, 4)
        except Unknown as e:
            return e

    def sum(self, n):
        lid, loc, cur = self.D.sums[n]
        if id(cur) not in self.done:
            if cur.get('cond') is None:
                raise Unknown('trip count')
            keep = self.loops, self.memo
            locs = [l for l in cur if l != 'cond']
            vals = {l: self.tryev(cur[l][0]) for l in locs}
            for k in range(300):
                self.loops = dict(keep[0])
                self.loops[lid] = vals
                self.memo = {}
                if not self(cur['cond']):
                    break
                vals = {l: self.tryev(cur[l][1]) for l in locs}
            else:
                raise Unknown('trip count')
            self.loops, self.memo = keep
            self.done[id(cur)] = vals
        return self.done[id(cur)][loc]

    def __call__(self, q):
        r = self.memo.get(q.id)
        if r is None:
            r = self.eval(q)
            self.memo[q.id] = r
        return r

    def eval(self, q):
        r = 0.0
        for m, c in q.t.items():
            x = float(c)
            for a, e in m:
                if akey(a)[0] == 'i':
                    x *= self.atom(akey(a))
                    if x == 0:
                        break
            if x == 0:
                continue
            for a, e in m:
                k = akey(a)
                if k[0] != 'i':
                    y = self.atom(k)
                    if y == 0 and e < 0:
                        # excluded by a condition, with which it cancels
                        y = 0.37
                    try:
                        x *= y if e == 1 else y ** float(e)
                    except (ZeroDivisionError, OverflowError):
                        raise Unknown('arithmetic')
                    if isinstance(x, complex) or x != x:
                        raise Unknown('arithmetic')
            r += x
        return r

    def atom(self, k):
        if k[0] == 'v':
            return self.symbol(k[1])
        if k[0] == 'c':
            return math.pi
        if k[0] == 'n':
            return float(k[1])
        if k[0] == 'p':
            return self(terms._polyobj[k[1]])
        if k[0] == 'i':
            if k[1] in ('pos', 'ipos'):
                return 1.0 if self(terms._polyobj[k[2]]) > 0 else 0.0
            if k[1] == 'eq0':
                return 1.0 if abs(self(terms._polyobj[k[2]])) < 1e-12 else 0.0
            raise Unknown(showatom(A(k)) if False else str(k[:2]))
        if k[0] == 'f':
            return self.function(k[1], k[2:])
        raise Unknown(str(k[:2]))

    def function(self, n, args):
        a = [self(terms._polyobj[x]) if isinstance(x, int) else x for x in args]
        if n in KERN:
            return kernel(n, a[0])
        if n.endswith('::size'):
            for f in self.vals:
                r = f(('size', a[0]))
                if r is not None:
                    return r
        if n == 'bits':
            return float(int(a[0]) & int(a[1]) | int(a[2]))
        if n == 'idiv' and a[1]:
            return float(int(a[0] / a[1]))
        if n == 'int':
            return float(int(a[0]))
        try:
            if n == 'pow':
                r = a[0] ** a[1]
                if isinstance(r, complex):
                    raise Unknown('arithmetic')
                return r
            if n in ('exp', 'log', 'log10', 'sin', 'cos', 'tan', 'erf', 'floor', 'ceil', 'tanh', 'atan'):
                return float(getattr(math, n)(a[0]))
        except (ZeroDivisionError, OverflowError, ValueError):
            raise Unknown('arithmetic')
        raise Unknown(n)


RANGE = 2.0


def kernel(n, s):
    """any functions with the support of the kernel"""
    s = abs(s)
    if s >= RANGE:
        return 0.0
    k = KERN.index(n)
    return (1.1 + 0.3 * k) * (1 - (s / RANGE) ** 2) ** (3 + 0.1 * k) * (1 if n not in ('womega', 'wzeta', 'w1') else -1 if n != 'wzeta' else 1)


# ---- P14 -----------------------------------------------------------------------------------------
TOL = 0.01
POTMIN = 3


class Setup(object):
    """one particle and its neighbours"""

    def __init__(self, f, nd, seed, scale, delta, **kw):
        R = random.Random('%s|%s|%s' % (nd, seed, scale))
        self.nd = nd
        self.h = scale * R.uniform(0.8, 1.2)
        self.ri = [scale * R.uniform(-3, 3) for k in range(nd)]
        self.N = 6
        self.rj = [list(self.ri)]
        self.m = [R.uniform(0.5, 1.5) for j in range(self.N)]
        self.mi = self.m[0]
        for j in range(1, self.N):
            self.rj.append([x + self.h * R.uniform(-1.2, 1.2) for x in self.ri])
        # one beyond the kernel
        self.rj[-1] = [x + self.h * 2.5 for x in self.ri]
        self.d = [math.sqrt(sum((a - b) ** 2 for a, b in zip(r, self.ri))) for r in self.rj]
        self.u = [R.uniform(0.5, 1.5) for j in range(self.N)]
        self.gj = [1.0 + 0.3 * R.uniform(-1, 1) for j in range(self.N)]
        self.gi = kw.get('gi', 1.0)
        self.gj[0] = self.gi * (1 - 1e-6)     # its own: not deeper
        self.delta = delta
        s = [x / self.h for x in self.d]
        W = [kernel('w0', x) for x in s]
        self.ndens = sum(W) / self.h ** nd
        self.rho = sum(a * b for a, b in zip(self.m, W)) / self.h ** nd
        self.q = sum(a * b * c for a, b, c in zip(self.m, self.u, W)) / self.h ** nd
        self.mfv = f.cls.startswith('Mfv')
        if self.mfv:
            self.rho = self.mi * self.ndens
        # h_fac (m/rho)^(1/nd) is h (1 + delta)
        self.hn = self.h * (1 + delta)
        self.h_fac = self.hn / (self.mi / self.rho) ** (1.0 / nd)
        om = [kernel('womega', x) for x in s]
        ze = sum(a * kernel('wzeta', x) for a, x in zip(self.m, s)) / self.h ** 2
        if self.mfv:
            om = sum(om) / self.h ** (nd + 1)
            self.invomega = 1 / (1 + self.h / (nd * self.ndens) * om)
            self.zeta = -self.mi * self.h / (nd * self.ndens) * ze * self.invomega
        else:
            om = sum(a * b for a, b in zip(self.m, om)) / self.h ** (nd + 1)
            self.invomega = 1 / (1 + self.h / (nd * self.rho) * om)
            self.zeta = -self.h / (nd * self.rho) * ze * self.invomega
        self.hmax = kw.get('hmax', 3.0) * self.h
        self.sink = kw.get('sink', None)           # floor on h, in units of h
        self.create = kw.get('create', 0)
        self.sinkid = kw.get('sinkid', -1)
        self.flags = kw.get('flags', 0)
        self.kw = kw
        # roles of the parameters
        self.part = self.ngb = self.nbody = None
        self.arr = []
        for i in f.params:
            n, t = f.locals[i][0], f.locals[i][1]
            if 'vector<' in t or 'NeighbourList<' in t:
                self.ngb = ('P', n)
            elif 'Particle<' in t and t.rstrip().endswith('&'):
                self.part = ('P', n)
            elif 'Nbody<' in t:
                self.nbody = ('P', n)
            elif t.replace('const', '').strip() in ('double *', 'float *'):
                self.arr.append(('P', n))
        self.arrays = dict(zip(self.arr, ('m', 'mu', 'd2', 'gpot')))
        self.hloc = [('P', f.locals[i][0]) for i in f.params if f.locals[i][1].replace('const', '').strip() in ('double', 'float')]
        self.nloc = [('P', f.locals[i][0]) for i in f.params if f.locals[i][1].replace('const', '').strip() == 'int']

    def __call__(self, loc):
        if loc[0] == 'size':
            return self.N
        if loc in self.hloc:
            return self.hmax
        if loc in self.nloc:
            return self.N if loc == self.nloc[-1] else 0
        if loc[0] == 'G':
            n = loc[1].split('::')[-1]
            if n == 'invndim':
                return 1.0 / self.nd
            if n.startswith('small'):
                return 1e-20
            if n.startswith('big'):
                return 1e20
            return None
        o, fl, ix = lf(loc)
        if loc[:2] in self.arrays and len(loc) == 3 and 0 <= ix_of(loc[2]) < self.N:
            j = ix_of(loc[2])
            a = self.arrays[loc[:2]]
            return {'m': self.m[j], 'mu': self.m[j] * self.u[j], 'd2': self.d[j] ** 2, 'gpot': self.gj[j]}[a]
        if self.part and loc[:2] == self.part:
            if fl == 'r' and len(ix) == 1:
                return self.ri[ix[0]]
            if fl == '_flag':
                return self.flags
            return {'m': self.mi, 'gpot': self.gi, 'sinkid': self.sinkid}.get(fl) if not ix else None
        if self.ngb and loc[:2] == self.ngb and len(loc) > 3:
            j = ix_of(loc[2])
            if not 0 <= j < self.N:
                raise Unknown('neighbour %s' % j)
            if fl == 'r' and len(ix) == 1:
                return self.rj[j][ix[0]]
            return {'m': self.m[j], 'gpot': self.gj[j], 'u': self.u[j]}.get(fl) if not ix else None
        if self.nbody and loc[:2] == self.nbody:
            return 0 if fl in ('Nstar', 'nbody_softening') else None
        if loc[0] == 'this':
            if fl == 'rho_sink':
                # the density at which h is the floor
                return self.mi / ((self.sink or 1.0) * self.h / self.h_fac) ** self.nd
            if fl == 'hmin_sink':
                return (self.sink or 1.0) * self.h
            return {'h_fac': self.h_fac, 'h_converge': TOL, 'kernrange': RANGE, 'kernrangesqd': RANGE ** 2, 'sink_particles': 0 if self.sink is None else 1, 'create_sinks': self.create, 'conservative_sph_star_gravity': 0, 'tdavisc': 0}.get(fl)
        return None


def ix_of(x):
    return x[1] if isinstance(x, tuple) and x[0] == '[' and isinstance(x[1], int) else -1


def close(a, b, tol=1e-7):
    return abs(a - b) <= tol * max(abs(a), abs(b))


class Judge(object):
    def __init__(self, ctx, p, f):
        self.ctx, self.p, self.f, self.nd = ctx, p, f, f.ndim()
        self.D, self.I, self.fl = analyse(p, f)
        self.it = self.I.iteration
        self.unknown = 0
        self.decided = {}

    def ready(self):
        if not self.it:
            return False
        it = self.it
        self.brackets = {}
        self.part = Setup(self.f, self.nd, 0, 1, 0).part
        # the bounds: local numbers that the loop may set to h
        loc_h = [l for l in it['start'] if l[:2] == self.part and lf(l)[1] == 'h'] + [l for l in it['start'] if l[0] == 'L']
        self.hvar = None
        for l in loc_h:
            ty = it['start'][l].ty or ''
            if l[:2] == self.part or ('double' in ty or 'float' in ty):
                c = self.case(Setup(self.f, self.nd, 1, 1.0, 0.5), l, 3)
                try:
                    if l[:2] == self.part or self.uses(c, l):
                        self.hvar = l
                        break
                except Unknown:
                    pass
        return self.hvar is not None

    def uses(self, c, l):
        """l is the trial value: the end value of the sums depends on it"""
        e = self.it['end'].m.get(l)
        return e is not None and e.d is not None and close(c(e.d), c.s.hn)

    def case(self, s, h=None, k=3, lo=0.0, up=None):
        h = h or self.hvar
        it = {h: s.h}
        for l, v in self.it['start'].items():
            o, fl, ix = lf(l)
            if l in self.brackets:
                it[l] = up if self.brackets[l] == 'up' else lo
            elif self.it['pre'].m.get(l) is not None and self.it['pre'].m[l].c == 0 and 'int' in (v.ty or ''):
                it[l] = k
        c = Case(self.D, [s], seed=repr((s.nd, s.h)), it=it)
        c.s = s
        return c

    def verdict(self, rule, r, text, detail=''):
        where = self.it['where'] if self.it else self.f.where()
        if r:
            self.decided[rule] = self.decided.get(rule, 0) + 1
            self.ctx.ok(rule, where, '%s in %dD: %s' % (self.f.name, self.nd, text))
        else:
            self.ctx.bad(rule, where, self.f.name, '%s in %dD: %s' % (self.f.name, self.nd, detail or text))

    def find_brackets(self):
        for l, v in sorted(self.it['start'].items(), key=str):
            e = self.it['end'].m.get(l)
            pre = self.it['pre'].m.get(l)
            if l == self.hvar or l[0] != 'L' or e is None or e.d is None or pre is None or pre.d is None or 'int' in (v.ty or ''):
                continue
            hit = 0
            try:
                for d in (0.5, -0.4):
                    s = Setup(self.f, self.nd, 1, 1.0, d)
                    c = self.case(s, k=100, lo=0.1 * s.h, up=2.9 * s.h)
                    c.it[l] = own = (0.5 if d < 0 else 2.0) * s.h
                    x = c(e.d)
                    if close(x, s.h):
                        hit += 1
                    elif not close(x, own):
                        hit = -9
                if hit > 0:
                    s = Setup(self.f, self.nd, 1, 1.0, 0.5)
                    self.brackets[l] = 'up' if close(self.case(s)(pre.d), s.hmax) else 'lo'
            except Unknown:
                continue

    def end(self, c, l):
        """value of a location at the end of the pass"""
        return c(self.it['end'].m[l].d)

    def accepted(self, c):
        """the pass ends the iteration as converged"""
        return any(c(b.g) for b in self.it['brk'])

    def leaves(self, c):
        if self.accepted(c):
            return True
        e = self.it['end']
        if e is None or not c(e.g):
            return None
        return self.it['cond'] is not None and not c(self.it['cond'])

    def result(self, c):
        """value returned, or None when the iteration goes on"""
        for st, v in self.fl.re:
            if v is not None and v.d is not None and c(st.g):
                return c(v.d)
        return None

    def final(self, c, name):
        # the state with which the successful call ends
        r = None
        for st, v in self.fl.re:
            for l, x in st.m.items():
                if l[:2] == self.part and lf(l)[1] == name and len(lf(l)[0]) <= 3 and x.d is not None and c(st.g):
                    r = c(x.d)
        return r

    def final_or_none(self, c, name):
        try:
            return self.final(c, name)
        except Unknown:
            self.unknown += 1
            return None

    def go(self):
        if not self.ready():
            self.ctx.count('density routines without a recognised iteration')
            return
        self.find_brackets()
        for rule in (self.convergence, self.steps, self.values, self.results, self.minimum, self.thermal):
            try:
                rule()
            except Unknown as e:
                self.unknown += 1
                self.ctx.count('undecided')
                if DEBUG:
                    print('   undecided', self.f.name, self.nd, rule.__name__, e)

    def convergence(self):
        """an iteration that stops has converged, relative to h; one that has converged stops"""
        bad = late = None
        n = 0
        for scale in (1e-6, 1e-3, 1.0, 1e3):
            for seed in range(3):
                for delta in (0.0, 0.3 * TOL, -0.3 * TOL, 1.5 * TOL, -1.5 * TOL, 5 * TOL, -5 * TOL, 0.4, -0.4, 1.2, -0.7):
                    for k in (0, 3, 27, 35, 70):
                        for h0 in (1.0, 1.0 + 0.2 * TOL, 0.5, 3.0):
                            s = Setup(self.f, self.nd, seed, scale, delta, hmax=5.0)
                            c = self.case(s, k=k, lo=0.01 * s.h, up=4.9 * s.h)
                            # what the particle carried before this call is another value
                            self.before(c, h0)
                            r = self.leaves(c)
                            n += 1
                            if r and abs(delta) > 1.05 * TOL and k < 40:
                                bad = bad or 'the iteration ends as converged although the density at this h asks for one that differs by %.1f%% (h of order %g, tolerance 1%%)' % (100 * abs(delta), scale)
                            if delta == 0 and r is False:
                                late = late or 'the iteration goes on although h is exactly the value its density asks for (h of order %g)' % scale
        self.verdict('a smoothing length is accepted only when it agrees with its own density to the relative tolerance', bad is None, '%d cases of the exit of the iteration' % n, bad)
        self.verdict('a smoothing length that agrees with its own density is accepted', late is None, '%d cases' % n, late)

    def before(self, c, h0):
        """members of the particle that the iteration does not write keep the values of an earlier call"""
        s = c.s
        old = {'h': h0 * s.h, 'rho': s.rho * 0.9, 'ndens': s.ndens * 0.9}

        def f(loc):
            if loc[:2] == self.part and len(loc) == 3:
                return old.get(lf(loc)[1])
            return None
        c.vals = [f] + c.vals

    def steps(self):
        """the next trial value"""
        if not self.brackets:
            self.ctx.count('undecided')
            return
        side = mid = trap = None
        n = 0
        for seed in range(3):
            for delta in (0.3, -0.3, 0.8, -0.6):
                for k in (0, 10, 28, 29, 30, 31, 60, 120, 148):
                    s = Setup(self.f, self.nd, seed, 1.0, delta, hmax=5.0)
                    lo, up = 0.02 * s.h, 4.0 * s.h
                    c = self.case(s, k=k, lo=lo, up=up)
                    self.before(c, 0.7)
                    e = self.it['end']
                    if e is None or self.accepted(c) or not c(e.g):
                        continue
                    n += 1
                    x = self.end(c, self.hvar)
                    nl, nu = lo, up
                    for l, t in self.brackets.items():
                        y = self.end(c, l)
                        if t == 'lo':
                            nl = y
                        else:
                            nu = y
                    if not close(nl, lo) and not (close(nl, s.h) and delta > 0) or not close(nu, up) and not (close(nu, s.h) and delta < 0):
                        side = side or 'in pass %d of the iteration, h = %.3g with a density that asks for %.3g, the bounds %.3g and %.3g become %.3g and %.3g and no longer hold the solution' % (k + 1, s.h, s.hn, lo, up, nl, nu)
                    if not close(x, s.hn) and not (nl < x < nu):
                        mid = mid or 'in pass %d the next trial value %.3g is neither the one the density asks for (%.3g) nor between the bounds %.3g and %.3g' % (k + 1, x, s.hn, nl, nu)
                    if k >= 35 and not close(x, s.hn) and close(nl, lo) and close(nu, up):
                        trap = trap or 'in pass %d the bounds are not narrowed, so that the bisection never ends' % (k + 1)
        self.verdict('the bounds of the bisection always hold the solution', side is None, '%d cases' % n, side)
        self.verdict('the next trial value is the one the density asks for or lies between the bounds', mid is None, '%d cases' % n, mid)
        self.verdict('every pass of the bisection narrows the bounds', trap is None, '%d cases' % n, trap)

    def values(self):
        """what a converged particle is left with"""
        bad = {}
        n = {}
        for scale in (0.01, 1.0, 50.0):
            for seed in range(3):
                for sinkid in (-1, 2):
                    s = Setup(self.f, self.nd, seed, scale, 0.0, sinkid=sinkid, sink=0.3 if self.f.cls.startswith('Mfv') and sinkid != -1 else None, hmax=5.0)
                    c = self.case(s, k=3, lo=0.01 * s.h, up=4.9 * s.h)
                    self.before(c, 0.8)
                    if self.result(c) is None:
                        continue
                    want = {'rho': s.rho, 'h': s.h, 'hfactor': s.h ** -(s.nd + 1), 'hrangesqd': (RANGE * s.h) ** 2}
                    if s.mfv:
                        want['ndens'] = s.ndens
                    if s.mfv or sinkid == -1:
                        want['invomega'] = s.invomega
                        want['zeta'] = s.zeta
                    want['q'] = s.q
                    for k, w in sorted(want.items()):
                        x = self.final_or_none(c, k)
                        if x is None:
                            continue
                        n[k] = n.get(k, 0) + 1
                        if not close(x, w, 1e-6):
                            bad.setdefault(k, '%s is %.6g after a converged iteration, not %.6g (h = %.3g, %d neighbours)' % (k, x, w, s.h, s.N))
        for k in sorted(n):
            self.verdict(VALUES[k], k not in bad, '%d cases' % n[k], bad.get(k))

    def results(self):
        """success is reported only for a smoothing length the neighbour list covers"""
        bad = fail = floor = None
        n = 0
        sph = not self.f.cls.startswith('Mfv')
        for seed in range(3):
            for delta in (0.0, 0.5 * TOL, -0.5 * TOL, 0.3, -0.3, 1.0):
                for k in (0, 5, 27):
                    for hmax in (0.5, 0.9, 1.001, 1.2, 1.6, 4.0):
                        for sink in (None, 0.5, 1.4):
                            s = Setup(self.f, self.nd, seed, 1.0, delta, hmax=hmax, sink=sink, sinkid=-1 if sink is None else 1)
                            c = self.case(s, k=k, lo=0.0 if sink is None else sink * s.h, up=s.hmax)
                            self.before(c, 0.8)
                            r = self.result(c)
                            if r is None:
                                continue
                            n += 1
                            h = None
                            if r > 0:
                                h = self.final(c, 'h')
                                if h is not None and h > s.hmax * (1 + 1e-9):
                                    bad = bad or 'success is reported for h = %.3g although the neighbours were gathered for h up to %.3g only' % (h, s.hmax)
                            elif delta == 0 and (sink is None or sink < 1) and hmax > 1.1:
                                fail = fail or 'a converged h = %.3g is rejected although the neighbours were gathered for h up to %.3g' % (s.h, s.hmax)
        self.verdict('success is reported only for a smoothing length that the neighbour list covers', bad is None, '%d cases' % n, bad)
        self.verdict('a converged smoothing length that the neighbour list covers is not rejected', fail is None, '%d cases' % n, fail)

    def minimum(self):
        """potential minimum"""
        n = 0
        bad = None
        for seed in range(6):
            for gi in (0.8, 0.95, 1.05, 1.2, 1.5):
                for flags in (0, 8, 5, 13):
                    s = Setup(self.f, self.nd, seed, 1.0, 0.0, gi=gi, create=1, flags=flags, hmax=5.0)
                    c = self.case(s, k=3, lo=0.01 * s.h, up=4.9 * s.h)
                    self.before(c, 0.8)
                    if self.result(c) is None:
                        continue
                    x = self.final_or_none(c, '_flag')
                    if x is None:
                        continue
                    x = int(x)
                    want = not any(g > gi * 1.0001 and d < RANGE * s.h for g, d in zip(s.gj, s.d))
                    n += 1
                    if bool(x >> POTMIN & 1) != want:
                        bad = bad or 'a particle with%s a neighbour of deeper potential within its kernel is%s marked as a potential minimum' % ('out' if want else '', '' if x >> POTMIN & 1 else ' not')
                    if (x ^ flags) & ~(1 << POTMIN):
                        bad = bad or 'marking a potential minimum changes another flag'
        if n:
            self.verdict('a particle is marked as a potential minimum exactly when no neighbour within its kernel lies deeper', bad is None, '%d cases' % n, bad)

    def thermal(self):
        """the equation of state sees the new density"""
        cs = [x for x in self.D.calls if x[0] == 'ComputeThermalProperties' and x[1] is not None and x[1][:2] == self.part]
        if not cs:
            return
        s = Setup(self.f, self.nd, 1, 1.0, 0.0, hmax=5.0)
        c = self.case(s, k=3, lo=0.01 * s.h, up=4.9 * s.h)
        self.before(c, 0.8)
        bad = None
        if self.result(c) is None:
            return
        for n, loc, st, node in cs:
            for l, x in st.m.items():
                if l[:2] == self.part and lf(l)[1] in ('rho', 'h') and len(lf(l)[0]) <= 3 and x.d is not None:
                    want = s.rho if lf(l)[1] == 'rho' else s.h
                    if not close(c(x.d), want, 1e-6):
                        bad = 'the equation of state is evaluated with %s = %.4g, not the %.4g of the converged iteration' % (lf(l)[1], c(x.d), want)
            got = {lf(l)[1] for l in st.m if l[:2] == self.part}
            if 'rho' not in got:
                bad = 'the equation of state is evaluated before the new density is stored'
        self.verdict('the equation of state is evaluated with the new density', bad is None, '%d calls' % len(cs), bad)


class Gradients(Judge):
    """the gradient matrix of the meshless schemes"""

    def go(self):
        s = Setup(self.f, self.nd, 0, 1.0, 0.0)
        self.part = s.part
        self.where = self.f.where()
        if not s.part or not s.ngb:
            return
        self.D.calls = []
        ends = [self.fl.n] if self.fl.n is not None else [st for st, v in self.fl.re]
        self.ends = ends
        for rule in (self.linear, self.signal, self.levels, self.minimum):
            try:
                rule()
            except Unknown as e:
                self.ctx.count('undecided')
                if DEBUG:
                    print('   undecided', self.f.name, self.nd, rule.__name__, e)

    def verdict(self, rule, r, text, detail=''):
        if r:
            self.ctx.ok(rule, self.where, '%s in %dD: %s' % (self.f.name, self.nd, text))
        else:
            self.ctx.bad(rule, self.where, self.f.name, '%s in %dD: %s' % (self.f.name, self.nd, detail or text))

    def make(self, seed, scale=1.0, extra=None, **kw):
        s = Setup(self.f, self.nd, seed, scale, 0.0, **kw)
        R = random.Random(repr(('g', self.nd, seed)))
        s.g = [[R.uniform(-2, 2) for k in range(self.nd)] for v in range(12)]
        s.w0 = [R.uniform(1, 2) for v in range(12)]
        s.vi = [R.uniform(-1, 1) for k in range(self.nd)]
        s.vj = [[R.uniform(-1, 1) for k in range(self.nd)] for j in range(s.N)]
        s.vj[0] = list(s.vi)
        s.ci = R.uniform(0.2, 1)
        s.cj = [R.uniform(0.2, 1) for j in range(s.N)]
        s.cj[0] = s.ci
        s.li = R.randrange(2, 6)
        s.lj = [R.randrange(1, 9) for j in range(s.N)]
        s.ln = R.randrange(0, 9)

        def f(loc):
            o, fl, ix = lf(loc)
            if not all(isinstance(i, int) for i in ix):
                return None
            if loc[:2] == s.part:
                if fl == 'Wprim' and len(ix) == 1:
                    return s.w0[ix[0]]
                if fl == 'v' and len(ix) == 1:
                    return s.vi[ix[0]]
                return {'h': s.h, 'ndens': s.ndens, 'rho': s.rho, 'sound': s.ci, 'hfactor': s.h ** -s.nd, 'level': s.li, 'levelneib': s.ln}.get(fl) if not ix else None
            if loc[:2] == s.ngb and len(loc) > 3:
                j = ix_of(loc[2])
                if not 0 <= j < s.N:
                    raise Unknown('neighbour')
                if fl == 'Wprim' and len(ix) == 1:
                    return s.w0[ix[0]] + sum(s.g[ix[0]][k] * (s.rj[j][k] - s.ri[k]) for k in range(s.nd))
                if fl == 'v' and len(ix) == 1:
                    return s.vj[j][ix[0]]
                return {'sound': s.cj[j], 'level': s.lj[j], 'levelneib': 0}.get(fl) if not ix else None
            return None
        c = Case(self.D, [f, s], seed=repr((s.nd, s.h)))
        c.s = s
        return c

    def at_end(self, c, name, ix=()):
        for st in self.ends:
            if not c(st.g):
                continue
            for l, x in st.m.items():
                o, fl, i = lf(l)
                if l[:2] == self.part and fl == name and i == ix and x.d is not None and len(o) <= 3:
                    return c(x.d)
        return None

    def linear(self):
        bad = None
        n = 0
        for seed in range(8):
            for scale in (0.01, 1.0, 100.0):
                c = self.make(seed, scale)
                for v in range(self.nd + 2):
                    for k in range(self.nd):
                        x = self.at_end(c, 'grad', (v, k))
                        if x is None:
                            continue
                        n += 1
                        if not close(x, c.s.g[v][k], 1e-5):
                            bad = bad or 'the %s component of the gradient of a quantity that varies linearly in space is %.4g, not %.4g' % ('xyz'[k], x, c.s.g[v][k])
        if n:
            self.verdict('the gradient of a quantity that varies linearly in space is exact', bad is None, '%d components' % n, bad)

    def signal(self):
        if self.nd == 1:
            return        # the root of a square keeps its sign in the formulas
        bad = None
        n = 0
        for seed in range(8):
            c = self.make(seed)
            s = c.s
            x = self.at_end(c, 'vsig_max')
            if x is None:
                continue
            n += 1
            for j in range(1, s.N):
                vr = sum((a - b) * (p - q) for a, b, p, q in zip(s.vj[j], s.vi, s.rj[j], s.ri)) / s.d[j]
                if x < s.ci + s.cj[j] - min(0.0, vr) - 1e-6:
                    bad = bad or 'the largest signal velocity is %.4g although one neighbour has %.4g' % (x, s.ci + s.cj[j] - min(0.0, vr))
        if n:
            self.verdict('the largest signal velocity covers every neighbour, approaching ones included', bad is None, '%d cases' % n, bad)

    def levels(self):
        bad = None
        n = 0
        for seed in range(8):
            c = self.make(seed)
            x = self.at_end(c, 'levelneib')
            if x is None:
                continue
            n += 1
            if x < max(c.s.lj) - 1e-6 or x < c.s.ln - 1e-6:
                bad = bad or 'the neighbour timestep level is %d although a neighbour is at level %d' % (x, max(c.s.lj + [c.s.ln]))
        if n:
            self.verdict('the recorded neighbour level is not below the level of any neighbour', bad is None, '%d cases' % n, bad)

    def minimum(self):
        bad = None
        n = 0
        for seed in range(6):
            for gi in (0.8, 0.95, 1.05, 1.2, 1.5):
                for flags in (0, 8, 5, 13):
                    c = self.make(seed, gi=gi, create=1, flags=flags)
                    s = c.s
                    x = self.at_end(c, '_flag')
                    if x is None:
                        continue
                    want = not any(g > gi * 1.0001 and d < RANGE * s.h for g, d in zip(s.gj, s.d))
                    n += 1
                    if bool(int(x) >> POTMIN & 1) != want:
                        bad = bad or 'a particle with%s a neighbour of deeper potential within its kernel is%s marked as a potential minimum' % ('out' if want else '', '' if int(x) >> POTMIN & 1 else ' not')
        if n:
            self.verdict('a particle is marked as a potential minimum exactly when no neighbour within its kernel lies deeper', bad is None, '%d cases' % n, bad)


DEBUG = False
VALUES = {
    'rho': 'the density is the kernel-weighted mass within reach, the particle itself included',
    'ndens': 'the number density is the sum of the kernel over the neighbours, the particle itself included',
    'q': 'the energy density is the kernel-weighted internal energy',
    'h': 'the smoothing length is the one its density asks for',
    'hfactor': 'the stored power of the smoothing length belongs to it',
    'hrangesqd': 'the stored kernel range belongs to the smoothing length',
    'invomega': 'the grad-h factor is the one of a smoothing length that follows the density',
    'zeta': 'the grad-h correction of gravity is the one of a smoothing length that follows the density',
}


def run(ctx):
    p = ctx.program()
    ctx.rule('Every routine that finds a smoothing length (ComputeH) is value-numbered once, its iteration loop entered with everything it writes unknown: the formulas of its exits describe the last pass after any history. They are compared with the reference formulas as functions of the particle, its neighbours, the bounds and the number of the pass (identity testing at fixed sets of values, the kernel an arbitrary function of its support). The gradient routine of the meshless schemes is treated alike.')
    todo = {}
    for f in sorted(p.fns.values(), key=lambda f: (f.name, f.ndim() or 0, f.m)):
        n = f.name.split('::')[-1]
        if f.body is None or not f.ndim() or n not in ('ComputeH', 'ComputeGradients') or not list(find(f.body, 'do', 'while', 'for', 'call')):
            continue
        todo.setdefault((f.name, f.ndim()), f)

    def one(sub, f):
        try:
            j = (Judge if f.name.endswith('::ComputeH') else Gradients)(sub, p, f)
            j.go()
        except (TooBig, Giveup, RecursionError):
            sub.count('undecided')
    pmap(ctx, list(todo.values()), one)
    ctx.count('density and gradient routines', len(todo))
    ctx.floor('routines that find a smoothing length', len([k for k in todo if k[0].endswith('::ComputeH')]), 6)
