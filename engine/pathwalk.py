"""Paths through a region of code.

The region (a function body, or the body of a loop) is interpreted once per combination of outcomes of the
conditions it tests; a condition is an atom of the value numbering, so a test kept in a local variable, made
by a helper function or written the other way round is the same decision.  A path is the list of decisions,
the effects in order (elements appended to lists, calls without a body, inner loops with their own paths)
and the state at its end.
"""
from absint import State, V, Flow, int_type, scalar_type, is_ref, is_ptr
from cells import CellInterp, CellDom, names
from pairs import P, ZERO, ONE, A, sym, fun, akey, atoms_of, Subst, lf
from termdom import Terms
from terms import TooBig, eqz, pos, isbool, truth
import terms


class Stop(Exception):
    pass


class Path(object):
    def __init__(self, facts, events, exit, state, ret=None):
        self.facts, self.events, self.exit, self.state, self.ret = facts, events, exit, state, ret


class LoopRec(object):
    """a loop of unknown trip count met on a path"""

    def __init__(self, lid, fn, before, start, paths, node):
        self.lid, self.fn, self.before, self.start, self.paths, self.node = lid, fn, before, start, paths, node

    def value(self, path, loc):
        v = path.state.m.get(loc)
        return v.d if v is not None else None


class WalkDom(CellDom):
    abbrev = False
    nonneg = ('N', 'Ncell', 'Nactive')

    def __init__(self, p, **kw):
        CellDom.__init__(self, p, **kw)
        self.walk = None

    def compare(self, op, a, b, node, I):
        w = self.which(op, node)
        if w is not None:
            return ONE if w else ZERO
        if a.d is not None and b.d is not None and self.asint(a) and self.asint(b) and op in ('<', '>', '<=', '>='):
            q = {'>': lambda: a.d - b.d, '<': lambda: b.d - a.d, '>=': lambda: a.d - b.d + 1, '<=': lambda: b.d - a.d + 1}[op]()
            r = self.sign(q)
            if r is not None:
                return r
        return Terms.compare(self, op, a, b, node, I)

    def sign(self, q):
        """[q>0] of a count n, and of n+1 where n is an index or -1, is a test against 0 and -1"""
        for s in (1, -1):
            x = q if s > 0 else ONE - q
            c = x.t.get((), 0)
            y = x - c
            if len(y.t) == 1:
                (m, k), = y.t.items()
                if k == 1 and len(m) == 1 and m[0][1] == 1:
                    key = akey(m[0][0])
                    n = names(key[1])[-1] if key[0] == 'v' and isinstance(key[1], tuple) else None
                    if c == 0 and n in self.nonneg:
                        r = ONE - eqz(y)
                        return r if s > 0 else ONE - r
                    if c == 1 and n in ('copen', 'ifirst', 'ilast'):
                        r = ONE - eqz(y + 1)
                        return r if s > 0 else ONE - r
        return None

    def write(self, loc, v, node, I, st):
        d = CellDom.write(self, loc, v, node, I, st)
        if I.pm and loc and isinstance(loc[-1], tuple) and loc[-1][0] == '[' and not isinstance(loc[-1][1], int) and d is not None:
            I.event(('store', loc[:-1], loc[-1][1], d, st))
        return d

    def copied(self, dst, src, I):
        if I.pm and dst and isinstance(dst[-1], tuple) and dst[-1][0] == '[' and not isinstance(dst[-1][1], int):
            I.event(('copy', dst, src))

    def load4(self, I, args, st, node, nd):
        out = []
        for a in args:
            b = a.ptr[1] if a.ptr is not None else None
            if b is None:
                return None
            for k in range(nd):
                v = I.load(I.at(a.ptr, k), 'double', st, node)
                if v.d is None:
                    return None
                out.append(v.d)
        return out

    def box(self, I, b, st, node, nd):
        if b.lv is None:
            return None
        out = []
        for e in ('min', 'max'):
            for k in range(nd):
                v = I.load(I.deref(b.lv, st) + (('.', 'Box::' + e), ('[', k)), 'double', st, node)
                if v.d is None:
                    return None
                out.append(v.d)
        return out

    def intrinsic(self, name, args, obj, node, I, st):
        n = name.split('::')[-1]
        nd = I.nd
        if n == 'BoxOverlap' and len(args) == 5:
            q = self.load4(I, args[1:], st, node, nd)
            if q is not None:
                return V(self.boxov('boxov', q, nd), ty='bool')
        if n == 'PeriodicBoxOverlap' and len(args) == 2:
            a, b = self.box(I, args[0], st, node, nd), self.box(I, args[1], st, node, nd)
            if a and b:
                return V(self.boxov('pboxov', a + b, nd), ty='bool')
        if n == 'NearestPeriodicVector' and args:
            w = [a for a in args if a.ptr is not None]
            if w:
                a = w[0]
                for k in range(nd):
                    v = I.load(I.at(a.ptr, k), 'double', st, node)
                    if v.d is None:
                        return V(None)
                    l = I.at(a.ptr, k)
                    pm, I.pm = I.pm, False
                    I.store(l, V(near(v.d, k), ty='double'), st, node)
                    I.pm = pm
            return V(None)
        if n.startswith('ConstructGhosts') and len(args) == 2:
            if I.pm:
                I.event(('ghosts', args[0].lv, args[1].lv))
            return V(sym(('C', 'Nghosts')), ty='int')
        if n == 'ApplyPeriodicDistanceCorrection' and len(args) == 2:
            # the displacement becomes that of the nearest image, the position moves with it
            r, a = args
            for k in range(nd):
                if a.ptr is None or r.ptr is None:
                    break
                v, w = I.load(I.at(a.ptr, k), 'double', st, node), I.load(I.at(r.ptr, k), 'double', st, node)
                if v.d is None or w.d is None:
                    break
                x = near(v.d, k)
                pm, I.pm = I.pm, False
                I.store(I.at(r.ptr, k), V(w.d + x - v.d, ty='double'), st, node)
                I.store(I.at(a.ptr, k), V(x, ty='double'), st, node)
                I.pm = pm
            return V(None)
        if n == 'open_cell_for_gravity':
            x = args[0]
            key = ('i', 'open', repr((x.lv,)), tuple(a.d.id if a.d is not None else None for a in args[1:]), x.lv)
            return V(A(key), ty='bool')
        if n == 'push_back' and obj is not None and args and I.pm:
            a = args[0]
            I.event(('push', obj.lv, a.d, a.lv, st.copy() if a.d is None else st))
            return V(None)
        if n in ('debug1', 'debug2'):
            return V(None)
        if n == 'DotProduct' or n == 'pow':
            pass
        return CellDom.intrinsic(self, name, args, obj, node, I, st)

    def boxov(self, kind, q, nd):
        a, b = tuple(x.id for x in q[:2 * nd]), tuple(x.id for x in q[2 * nd:])
        return A(('i', kind, 'box', tuple(sorted((a, b)))))

    def opaque_effects(self, name, args, obj, node, I, st):
        if I.pm:
            I.event(('call', name, [a.d if a.d is not None else (a.lv or a.ptr) for a in args], obj.lv if obj is not None else None))


def near(q, k):
    """nearest image of a displacement: odd"""
    if q.const() is not None:
        return q
    lead = q.t[min(q.t)]
    return A(('f', 'near%d' % k, q.id)) if lead > 0 else -A(('f', 'near%d' % k, (-q).id))


class WalkInterp(CellInterp):
    maxpaths = 600

    def __init__(self, p, D, nd, **kw):
        CellInterp.__init__(self, p, D, **kw)
        self.nd = nd
        self.pm = False
        self.ctx = None

    def event(self, e):
        if self.pm and self.ctx is not None:
            self.ctx['events'].append(e)

    # -- decisions ---------------------------------------------------------------------------------
    def decide(self, q):
        c = self.ctx
        if q is None:
            q = self.D.fresh('cond', True)
        q = truth(q)
        for _ in range(400):
            while True:
                # a decision may turn another test into one already decided
                x = Subst(lambda k: c['dec'].get(k) if k[0] == 'i' else None)(q)
                if x.id == q.id:
                    break
                q = x
            v = q.const()
            if v is not None:
                return v != 0
            ids = sorted(a for a in atoms_of(q, deep=False) if akey(a)[0] == 'i')
            if not ids:
                raise Stop('condition')
            # a test on which the quantities of another test depend (a maximum) comes first
            inner = sorted({a for x in ids for y in terms.subpolys(akey(x)) for a in atoms_of(y) if akey(a)[0] == 'i' and akey(a) not in c['dec']})
            a = akey((inner or ids)[0])
            i = c['pos']
            if i < len(c['script']):
                b = c['script'][i]
            else:
                b = True
                c['script'].append(True)
            c['pos'] += 1
            c['dec'][a] = ONE if b else ZERO
            c['facts'].append((a, b))
        raise Stop('condition')

    def x_if(self, s, st):
        if not self.pm:
            return CellInterp.x_if(self, s, st)
        v = self.ev(s[2], st)
        t = bool(v.c) if v.c is not None else self.decide(v.d)
        return self.ex(s[3] if t else s[4], st)

    def e_cond(self, e, st):
        if not self.pm:
            return CellInterp.e_cond(self, e, st)
        v = self.ev(e[2], st)
        t = bool(v.c) if v.c is not None else self.decide(v.d)
        return self.ev(e[3] if t else e[4], st)

    def e_bin(self, e, st):
        if self.pm and e[2] in ('&&', '||'):
            from facts import walk
            # both operands are values: evaluated as an expression unless the right one has effects
            if any(x[0] == 'asg' or x[0] == 'un' and x[2] in ('++', '--', '++p', '--p') for x in walk(e[4]) if isinstance(x, list) and x):
                a = self.ev(e[3], st)
                t = bool(a.c) if a.c is not None else self.decide(a.d)
                if t == (e[2] == '||'):
                    return V(ONE if t else ZERO, int(t), ty='bool')
                return self.ev(e[4], st)
        return CellInterp.e_bin(self, e, st)

    # -- paths -------------------------------------------------------------------------------------
    def enum(self, run, st):
        """paths of run(state) -> (exit, state, return value)"""
        saved, pm = self.ctx, self.pm
        out = []
        script = []
        base = st
        outer = dict(saved['dec']) if saved is not None else {}
        n = 0
        try:
            while True:
                n += 1
                if n > self.maxpaths:
                    raise Stop('paths')
                self.ctx = {'script': script, 'pos': 0, 'dec': dict(outer), 'facts': [], 'events': []}
                self.pm = True
                s = base.copy()
                ex, s2, rv = run(s)
                out.append(Path(self.ctx['facts'], self.ctx['events'], ex, s2, rv))
                del script[self.ctx['pos']:]
                while script and not script[-1]:
                    script.pop()
                if not script:
                    break
                script[-1] = False
        finally:
            self.ctx, self.pm = saved, pm
        return out

    def one(self, f):
        if f.re:
            return 'return', f.re[-1][0], f.re[-1][1]
        if f.br:
            return 'break', f.br[-1], None
        if f.co:
            return 'next', f.co[-1], None
        if f.n is not None:
            return 'next', f.n, None
        return 'dead', None, None

    def loop(self, s, st, cond, body, inc, out, post):
        if not self.pm:
            return CellInterp.loop(self, s, st, cond, body, inc, out, post)
        D = self.D
        lid = (self.fn.name, s[1])
        pre = st.copy()
        self.pm = False
        self.quiet += 1
        dry = st.copy()
        for rnd in range(2):
            if not post and cond:
                cond(dry)
            f = self.ex(body, dry.copy())
            ends = [x for x in [f.n] + f.co + f.br if x is not None]
            for x in ends:
                if inc:
                    inc(x)
            written = set()
            for x in ends:
                for k, v in x.m.items():
                    if pre.m.get(k) is not v:
                        written.add(k)
            # what the first pass reached at one element is reached at any element
            for k in written:
                old = pre.m.get(k)
                if k[0] == 'L' and (old is None or old.ptr is None):
                    dry.m[k] = V(D.havoc(k, lid, old, self), None, ty=(old.ty if old is not None else None))
        self.quiet -= 1
        for k in written:
            old = pre.m.get(k)
            if old is not None and old.ptr is not None:
                st.m[k] = V(None, None, None, ('arr', ('X', lid, k)), old.ty)
            else:
                st.m[k] = V(D.havoc(k, lid, old, self), None, ty=(old.ty if old is not None else None))
        start = dict((k, st.m[k]) for k in written)
        before = dict((k, pre.m.get(k)) for k in written)
        self.loops.append(lid)
        self.pm = True

        def run(x):
            if not post and cond:
                v = cond(x)
                if v is not None:
                    t = bool(v.c) if v.c is not None else self.decide(v.d)
                    if not t:
                        return 'done', x, None
            ex, y, rv = self.one(self.ex(body, x))
            if ex == 'next' and inc:
                inc(y)
            if ex == 'next' and post and cond:
                v = cond(y)
                if v is not None:
                    t = bool(v.c) if v.c is not None else self.decide(v.d)
                    if not t:
                        return 'break', y, None
            return ex, y, rv
        paths = self.enum(run, st)
        self.loops.pop()
        L = LoopRec(lid, self.fn, before, start, paths, s)
        self.event(('loop', L))
        after = pre
        for k in written:
            if start[k].ptr is not None:
                after.m[k] = V(None, None, None, ('arr', ('X', 'after', lid, k)), start[k].ty)
            else:
                ends = [p.state.m.get(k) for p in paths if p.state is not None]
                if before[k] is not None and all(e is not None and e.d is not None and e.d == start[k].d for e in ends):
                    after.m[k] = before[k]
                else:
                    after.m[k] = V(sym(('after', lid, k)), None, ty=start[k].ty)
        self.pm = True
        return after, []

    def paths_of(self, f, args=None, st=None, this=None):
        st = st or State(g=ONE)
        self.nfr += 1
        fr = {'id': self.nfr, 'this': this or ('this', f.cls), 'fn': f}
        self.frames.append(fr)
        self.fnstack.append(f)
        try:
            for pid in f.params:
                nm, ty = f.locals[pid][0], f.locals[pid][1]
                loc = self.vloc(pid)
                a = (args or {}).get(nm)
                if isinstance(a, tuple):
                    st.b[loc] = a
                elif a is not None:
                    st.m[loc] = a
                elif is_ref(ty):
                    st.b[loc] = ('P', nm)
                elif is_ptr(ty):
                    st.m[loc] = V(ptr=('arr', ('P', nm)), ty=ty)
            return self.enum(lambda x: self.one(self.ex(f.body, x)), st)
        finally:
            self.frames.pop()
            self.fnstack.pop()
