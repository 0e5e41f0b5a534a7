"""The value-numbering domain (terms.py) over the structured interpreter."""
from fractions import Fraction as Fr
import facts
from absint import Domain, V, Interp, scalar_type, int_type, State, is_ref, is_ptr
from terms import *
import terms
from util import strip, strval


def bitop(op, x, y):
    """bit set and bit clear by a constant, in the normal form (x & A) | B"""
    c, d = x.const(), y.const()
    if c is not None and d is not None:
        return P(int(c) & int(d) if op == '&' else int(c) | int(d))
    if c is not None:
        x, c, d = y, d, c
    if d is None or d.denominator != 1:
        return fun('op' + op, x, y)
    d = int(d)
    b, A_, B = x, -1, 0
    if len(x.t) == 1:
        (m, k), = x.t.items()
        if k == 1 and len(m) == 1 and m[0][1] == 1:
            key = akey(m[0][0])
            if key[0] == 'f' and key[1] == 'bits':
                b, A_, B = terms._polyobj[key[2]], int(terms._polyobj[key[3]].const()), int(terms._polyobj[key[4]].const())
    if op == '&':
        A_, B = A_ & d, B & d
    else:
        A_, B = A_ & ~d, B | d
    if A_ == -1 and B == 0:
        return b
    if A_ == 0:
        return P(B)
    return fun('bits', b, P(A_), P(B))


class Terms(Domain):
    loop_mode = 'havoc'
    guarded = True
    alias_copies = True

    def __init__(self, prog, subst_init=None, const_atoms=True, opaque_gvars=(), intrinsics=None, exact_index=True):
        self.p = prog
        self.si = subst_init          # loc -> Poly for the initial content, or None
        self.n = 0
        self.opaque_gvars = set(opaque_gvars)
        self.intr = intrinsics or {}
        self.loopinfo = []
        self.strlits = set()
        self.writes = None
        self.const_atoms = const_atoms
        self.exact_index = exact_index
        self.boolvars = {}
        self.opq = {}

    # guards
    def gone(self): return ONE

    def gand(self, g, c, t):
        if g is None:
            g = ONE
        if c is None:
            c = self.fresh('cond', True)
        c = truth(c)
        try:
            return g * (c if t else ONE - c)
        except TooBig:
            return self.fresh('guard', True)

    def gor(self, a, b):
        if a is None or b is None:
            return a or b
        try:
            return a + b
        except TooBig:
            return self.fresh('guard', True)

    def gopaque(self, lid): return self.fresh('loopexit', True)

    def fresh(self, h, ind=False):
        self.n += 1
        if ind:
            return A(('i', 'opaque', '%s~%d' % (h, self.n)))
        return sym(('fresh', h, self.n))

    def top(self): return self.fresh('top')

    def lit(self, x, isint):
        if isinstance(x, bool):
            return ONE if x else ZERO
        return number(x)

    def init(self, loc, ty, I):
        if self.si:
            r = self.si(loc)
            if r is not None:
                return r
        return sym(loc)

    def uninit(self, loc, I):
        return sym(('undef',) + loc)

    def havoc(self, loc, lid, old, I):
        return sym(('loop', lid, loc))

    def after_loop(self, loc, lid, old, start, end, I):
        if start.ptr is not None:
            return V(None, None, None, ('arr', ('X', 'after', lid, loc)), start.ty)
        if end is not None and end.d is not None and old is not None and old.d is not None and end.d == start.d:
            return old
        return V(sym(('after', lid, loc)), None, ty=start.ty)

    def loop_exit(self, lid, start, end, I):
        if not I.quiet:
            self.loopinfo.append((lid, I.fn, start, end))

    def safe(self, f, *a):
        try:
            return f(*a)
        except TooBig:
            return self.fresh('big')

    def asint(self, v):
        return v.ty is not None and int_type(v.ty)

    def arith(self, op, a, b, node, I):
        x, y = a.d, b.d
        if x is None or y is None:
            return self.top()
        if op == '+':
            return self.safe(lambda: x + y)
        if op == '-':
            return self.safe(lambda: x - y)
        if op == '*':
            return self.safe(lambda: x * y)
        if op == '/':
            if self.asint(a) and self.asint(b) and not (a.c is not None and b.c is not None and False):
                if x.const() is not None and y.const():
                    return P(int(x.const() / y.const()))
                return fun('idiv', x, y)
            if y.const() == 0:
                return self.fresh('div0')
            return self.safe(lambda: x / y)
        if op == '%':
            return fun('mod', x, y)
        if op in ('&', '|', '^') and isbool(x) and isbool(y):
            if op == '&':
                return self.safe(lambda: x * y)
            if op == '|':
                return self.safe(lambda: x + y - x * y)
        if op in ('&', '|'):
            return bitop(op, x, y)
        return fun('op' + op, x, y)

    def compare(self, op, a, b, node, I):
        x, y = a.d, b.d
        if x is None or y is None:
            return self.fresh('cmp', True)
        integer = self.asint(a) and self.asint(b)
        try:
            if op == '>':
                return pos(x - y, integer)
            if op == '<':
                return pos(y - x, integer)
            if op == '>=':
                return ONE - pos(y - x, integer)
            if op == '<=':
                return ONE - pos(x - y, integer)
            e = eqz(x - y) if not (isbool(x) and y.const() is not None) else (ONE - x if y.const() == 0 else x)
            return e if op == '==' else ONE - e
        except TooBig:
            return self.fresh('cmp', True)

    def decide(self, op, a, b, I):
        if a.d is not None and b.d is not None:
            k = (a.d - b.d).const() if len(a.d.t) < 50 and len(b.d.t) < 50 else None
            if k is not None:
                return int({'<': k < 0, '>': k > 0, '<=': k <= 0, '>=': k >= 0, '==': k == 0, '!=': k != 0}[op])
        return None

    def boolean(self, t):
        try:
            if t[0] == 'c':
                return ONE if t[1] else ZERO
            if t[0] == '!':
                return ONE - truth(t[1]) if t[1] is not None else self.fresh('not', True)
            if t[0] in ('&&', '||'):
                if t[1] is None or t[2] is None:
                    return self.fresh('bool', True)
                x, y = truth(t[1]), truth(t[2])
                return x * y if t[0] == '&&' else x + y - x * y
            if t[0] in ('==', '!='):
                r = A(('i', 'ptreq', str(sorted([str(t[1]), str(t[2])]))))
                return r if t[0] == '==' else ONE - r
        except TooBig:
            pass
        return self.fresh('bool', True)

    def neg(self, d, I):
        return -d if d is not None else self.top()

    def cast(self, kind, d, node, I):
        if d is None:
            return self.top()
        if kind == 'f2i':
            if d.const() is not None:
                return P(int(d.const()))
            return fun('int', d)
        return d

    def minmax(self, k, a, b, node, I):
        if a.d is None or b.d is None:
            return self.top()
        return self.safe(pmin if k == 'min' else pmax, a.d, b.d)

    def join(self, c, a, b, I):
        if a is None or b is None:
            return self.top()
        if a == b:
            return a
        if c is None:
            return self.fresh('join')
        return self.safe(lambda: b + truth(c) * (a - b))

    def idxkey(self, iv, I):
        if iv.d is None:
            return None
        c = iv.d.const()
        if c is not None and c.denominator == 1:
            return int(c)
        return ('t', iv.d.id) if self.exact_index else None

    def gconst(self, name, I):
        n = name.split('::')[-1]
        if n in self.opaque_gvars:
            return sym(('G', n))
        return None

    def argkey(self, args, obj, I):
        r = []
        if obj is not None:
            r.append(obj.lv or obj.ptr or (obj.d.id if obj.d is not None else None))
        for a in args:
            r.append(a.d.id if a.d is not None else (a.lv or a.ptr))
        return tuple(r)

    def opaque(self, name, args, obj, node, I):
        nm = name.split('::')[-1]
        if nm.startswith('operator==') or nm.startswith('operator!='):
            xs = ([obj] if obj is not None and '::operator' in name else []) + list(args)
            lits = [x for x in xs if x.lv is not None and x.lv[0] == 'S']
            rest = [x for x in xs if not (x.lv is not None and x.lv[0] == 'S')]
            if len(lits) == 1:
                self.strlits.add(lits[0].lv[1])
            if len(lits) == 1 and len(rest) == 1 and rest[0].lv is not None:
                r = A(('i', 'streq', (lits[0].lv[1], I.deref(rest[0].lv, self.cur_st(I)))))
                return r if '==' in nm else ONE - r
            if len(lits) == 2:
                eq = lits[0].lv[1] == lits[1].lv[1]
                return ONE if eq == ('==' in nm) else ZERO
            r = A(('i', 'call', name[:10].replace('!=', '==') + repr(self.argkey(args, obj, I))))
            return r if '==' in name else ONE - r
        return fun(name, *self.argkey2(args, obj))

    def cur_st(self, I):
        return State()

    def argkey2(self, args, obj):
        r = []
        if obj is not None and obj.ptr is not None:
            r.append(('o',) + tuple(obj.ptr))
        elif obj is not None and obj.lv is not None:
            r.append(('o', obj.lv))
        for a in args:
            r.append(a.d if a.d is not None else ('a', a.lv or a.ptr))
        return r

    F1 = {'exp', 'log', 'log10', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'erf', 'erfc', 'sinh', 'cosh', 'tanh', 'floor', 'ceil'}

    def intrinsic(self, name, args, obj, node, I, st):
        n = name[5:] if name.startswith('std::') else name
        if name in self.intr:
            return self.intr[name](self, args, obj, node, I, st)
        if not args or args[0].d is None:
            return None
        x = args[0].d
        if n in ('sqrt', 'sqrtf'):
            return V(self.safe(lambda: x ** Fr(1, 2)), ty='double')
        if n == 'cbrt':
            return V(self.safe(lambda: x ** Fr(1, 3)), ty='double')
        if n in ('pow', 'powf') and len(args) == 2 and args[1].d is not None:
            e = args[1].d.const()
            if e is not None:
                return V(self.safe(lambda: x ** e), ty='double')
            return V(fun('exp', self.safe(lambda: args[1].d * fun('log', x))) if False else fun('pow', x, args[1].d), ty='double')
        if n in ('fabs', 'abs', 'fabsf'):
            return V(self.safe(pabs, x), ty=args[0].ty)
        if n in self.F1:
            if n == 'exp' and not x.t:
                return V(ONE, ty='double')
            return V(fun(n, x), ty='double')
        return None


def lf(loc):
    """(object path, field name, index...) of a location"""
    for n in range(len(loc) - 1, -1, -1):
        it = loc[n]
        if isinstance(it, tuple) and len(it) == 2 and it[0] == '.':
            return loc[:n], it[1].split('::')[-1], tuple(x[1] for x in loc[n + 1:])
    return loc, None, ()
