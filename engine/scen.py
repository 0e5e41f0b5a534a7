"""Case analysis: a function is interpreted under a finite set of assumptions on the order of its inputs.

The values it computes stay formulas of its inputs (value numbering); only the outcome of a comparison is
decided, from an assignment of exact rational numbers to the inputs that stands for one ordering of them
(a particle below, inside or above an edge; a separation below or above half of the box).  Inputs without
a number stay open, and a comparison of them is undecided.
"""
from fractions import Fraction as Fr
from absint import Interp, NoReturn, Flow, V, State, int_type, scalar_type, Giveup
from termdom import Terms, bitop
from terms import *
import terms


def folded(name, args):
    ps = [isinstance(x, Poly) for x in args]
    if not all(ps) or any(x.const() is None for x in args):
        return None
    v = [x.const() for x in args]
    if name == 'bits':
        return P(int(v[0]) & int(v[1]) | int(v[2]))
    if name in ('idiv', 'mod') and v[1]:
        a, b = int(v[0]), int(v[1])
        q = int(Fr(a, b))
        return P(q if name == 'idiv' else a - b * q)
    if name in ('op&', 'op|', 'op^', 'op<<', 'op>>'):
        a, b = int(v[0]), int(v[1])
        return P({'op&': a & b, 'op|': a | b, 'op^': a ^ b, 'op<<': a << b if 0 <= b < 64 else 0, 'op>>': a >> b if 0 <= b < 64 else 0}[name])
    return None


class Env(object):
    """numbers for symbols"""

    def __init__(self, f):
        self.f = f
        self.s = Subst(self.key, folded)

    def key(self, k):
        if k[0] == 'v':
            x = self.f(k[1])
            return None if x is None else P(Fr(x))
        return None

    def num(self, q):
        if q is None:
            return None
        c = q.const()
        if c is not None:
            return c
        try:
            return self.s(q).const()
        except TooBig:
            return None


class ScenDom(Terms):
    """comparisons are decided by an Env; members listed as fixed have their number as content"""

    def __init__(self, p, env, fixed=lambda loc: None, hook=None):
        Terms.__init__(self, p, opaque_gvars={'small_number', 'small_number_dp', 'big_number', 'big_number_dp'})
        self.env = Env(env)
        self.fixed = fixed
        self.hook = hook
        self.sizes = {}
        self.copyof = {}

    def init(self, loc, ty, I):
        for i in range(len(loc) - 1, 1, -1):
            if loc[:i] in self.copyof:
                src = self.copyof[loc[:i]] + loc[i:]
                if src != loc:
                    return self.init(src, ty, I)
        x = self.fixed(loc)
        if x is None:
            x = self.table(loc)
        if x is not None:
            return P(Fr(x))
        return sym(loc)

    def table(self, loc):
        """entry of a constant table"""
        if not (loc[0] == 'G' and len(loc) > 2 and all(isinstance(x, tuple) and x[0] == '[' and isinstance(x[1], int) for x in loc[2:])):
            return None
        g = self.p.globals.get(loc[1])
        if not g or not g.get('const') or not isinstance(g.get('init'), list):
            return None
        n = g['init']
        for x in loc[2:]:
            while n[0] == 'cast':
                n = n[4]
            if n[0] != 'init' or not 0 <= x[1] < len(n[2]):
                return None
            n = n[2][x[1]]
        while n[0] == 'cast':
            n = n[4]
        if n[0] in ('int', 'enum'):
            return n[3] if n[0] == 'enum' else n[2]
        return None

    def decide(self, op, a, b, I):
        x, y = a.d, b.d
        if x is None or y is None:
            return None
        try:
            k = self.env.num(x - y)
        except TooBig:
            return None
        if k is None:
            return None
        return int({'<': k < 0, '>': k > 0, '<=': k <= 0, '>=': k >= 0, '==': k == 0, '!=': k != 0}[op])

    def minmax(self, k, a, b, node, I):
        r = self.decide('<', a, b, I)
        if r is None:
            return Terms.minmax(self, k, a, b, node, I)
        return a.d if bool(r) == (k == 'min') else b.d

    def intrinsic(self, name, args, obj, node, I, st):
        n = name.split('::')[-1]
        if n in ('debug1', 'debug2') or n == 'StartNewTimer':
            return V(None)
        if self.hook is not None:
            r = self.hook(name, args, obj, node, I, st)
            if r is not None:
                return r
        if name.startswith('std::') and obj is not None and obj.lv is not None:
            loc = I.deref(obj.lv, st)
            if loc in self.sizes:
                if n == 'push_back' and args:
                    k = self.sizes[loc]
                    self.sizes[loc] = k + 1
                    d = loc + (('[', k),)
                    a = args[0]
                    if a.d is not None:
                        I.store(d, a, st, node)
                    elif a.lv is not None:
                        I.copy_object(d, a.lv, st)
                    return V(None)
                if n == 'size':
                    k = self.sizes[loc]
                    return V(P(k), k, ty='int')
                if n in ('back', 'front'):
                    k = self.sizes[loc] - 1 if n == 'back' else 0
                    return I.obj_or_load(loc + (('[', k),), (node[7] or '').rstrip('&').strip(), st, node)
        return Terms.intrinsic(self, name, args, obj, node, I, st)


class ScenInterp(Interp):
    keep_returned = True

    def ex(self, s, st):
        try:
            return Interp.ex(self, s, st)
        except NoReturn:
            return Flow(None)

    def x_while(self, s, st):
        return self.known_trips(s, st, s[2], s[3], False) or Interp.x_while(self, s, st)

    def known_trips(self, s, st, cond, body, post):
        """a loop whose condition is decided each time; None when it is not at the start"""
        c = self.ev(cond, st.copy())
        if c.c is None:
            return None
        out = Flow()
        brk = []
        n = 0
        while st is not None:
            c = self.ev(cond, st)
            if c.c is None or n > 60:
                raise Giveup('loop')
            if not c.c:
                break
            f = self.ex(body, st)
            out.re += f.re
            brk += f.br
            st = self.join_many(f.n, f.co)
            n += 1
        out.n = self.join_many(st, brk)
        return out

    def copy_object(self, dst, src, st):
        Interp.copy_object(self, dst, src, st)
        dst, src = self.deref(dst, st), self.deref(src, st)
        # what the source holds unchanged since the start is the same in the copy
        seen = set()
        while src in self.D.copyof and src not in seen:
            seen.add(src)
            src = self.D.copyof[src]
        if dst[:len(src)] != src and src[:len(dst)] != dst:
            self.D.copyof[dst] = src

    def obj_or_load(self, loc, ty, st, e):
        if ty is not None and self.D.isenum(ty):
            return self.load(loc, 'int', st, e)
        return Interp.obj_or_load(self, loc, ty, st, e)

    def call_body(self, g, args, this, st, node):
        if g.h['kind'] == 'ctor' and g.cls == 'type_flag' and not args and len(g.params) == 1:
            # no flags: the default of the constructor
            args = [V(ZERO, 0, ty='unsigned int')]
        return Interp.call_body(self, g, args, this, st, node)

    def ev(self, e, st):
        v = Interp.ev(self, e, st)
        if v is not None and v.c is None and v.d is not None and v.ty is not None and (v.ty in ('bool', 'const bool') or int_type(v.ty) or self.D.isenum(v.ty)):
            k = v.d.const()
            if k is None and v.ty in ('bool', 'const bool'):
                k = self.D.env.num(v.d)
            if k is not None and k.denominator == 1:
                return V(v.d, int(k), v.lv, v.ptr, v.ty, v.lit)
        return v


def isenum(self, ty):
    t = ty.replace('const ', '').strip()
    return t.split('::')[-1].endswith('Enum') or t in ('boundaryEnum', 'flags')


ScenDom.isenum = isenum


def run(p, f, env, fixed=lambda loc: None, args=None, this=None, maxdepth=8, hook=None, maxsteps=200000, pre=None):
    """(domain, flow) of f in one case"""
    D = ScenDom(p, env, fixed, hook)
    I = ScenInterp(p, D, maxdepth=maxdepth)
    I.maxsteps = maxsteps
    st = State(g=ONE)
    if pre:
        pre(D, I, st)
    a = {}
    for i in f.params:
        n, t = f.locals[i][0], f.locals[i][1]
        if args and n in args:
            a[n] = args[n]
        elif t.replace('const', '').strip() in ('int', 'double', 'float', 'bool'):
            l = ('P', n)
            x = fixed(l)
            a[n] = V(P(Fr(x)) if x is not None else sym(l), int(x) if x is not None and 'int' in t else None, ty=t.replace('const', '').strip())
    fl = I.run_root(f, a, st=st, this=this)
    return D, fl
