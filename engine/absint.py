"""A structured abstract interpreter over the extracted syntax trees.

It walks a function once, in program order, with an abstract value per memory location.  Loops whose
trip count is a compile-time constant of the instantiation (k<ndim, var<nvar) are unrolled; other loops
are iterated to a join ("join" domains) or entered once with every location they write havocked
("havoc" domains).  Branches are joined, never enumerated as paths.  Calls are inlined up to a depth.
"""
import facts
from util import strip, targets, is_exit_call

MAXUNROLL = 12


class V(object):
    """abstract value: domain value d, known integer c, location lv (lvalues), pointer target ptr"""
    __slots__ = ('d', 'c', 'lv', 'ptr', 'ty', 'lit')

    def __init__(self, d=None, c=None, lv=None, ptr=None, ty=None, lit=False):
        self.d = d
        self.c = c
        self.lv = lv
        self.ptr = ptr      # ('arr', loc) or ('addr', loc)
        self.ty = ty
        self.lit = lit


class State(object):
    __slots__ = ('m', 'b', 'g')

    def __init__(self, m=None, b=None, g=None):
        self.m = m if m is not None else {}     # loc -> V
        self.b = b if b is not None else {}     # var loc -> loc (references)
        self.g = g                              # guard: condition under which this flow is taken (domains with guards)

    def copy(self):
        return State(dict(self.m), dict(self.b), self.g)


class Flow(object):
    __slots__ = ('n', 'br', 'co', 're')

    def __init__(self, n=None):
        self.n = n
        self.br = []
        self.co = []
        self.re = []


class Giveup(Exception):
    pass


def is_ref(t):
    return t.endswith('&')


def is_ptr(t):
    return t.endswith('*') or t.endswith('*const') or t.endswith('*restrict') or t.endswith('*__restrict')


def is_arr(t):
    return t.endswith(']')


def scalar_type(t):
    t = t.replace('const ', '').replace(' &', '').strip()
    return t in ('double', 'float', 'int', 'bool', 'long', 'unsigned int', 'unsigned long', 'long long', 'unsigned long long', 'char', 'long double', 'short')


def int_type(t):
    t = t.replace('const ', '').replace(' &', '').strip()
    return t in ('int', 'bool', 'long', 'unsigned int', 'unsigned long', 'long long', 'unsigned long long', 'char', 'short', 'unsigned char', 'unsigned short')


def elem_type(t):
    t = t.strip()
    if t.endswith('&'):
        t = t[:-1].strip()
    if '(**' in t:
        return t.replace('(**', '(*', 1)
    if '(*' in t:
        i, j = t.index('(*'), t.index(')')
        return (t[:i].strip() + t[j + 1:]).strip()
    if t.endswith(']'):
        i = t.index('[')
        j = t.index(']')
        return (t[:i].strip() + t[j + 1:]).strip()
    for s in ('*const', '*__restrict', '*'):
        if t.endswith(s):
            return t[:-len(s)].strip()
    return t


class NoReturn(Exception):
    """a call that does not return on any path"""


class Interp(object):
    def __init__(self, prog, dom, maxdepth=6, prefer_targ=None, inline=None, sym_index=True):
        self.p = prog
        self.D = dom
        self.maxdepth = maxdepth
        self.prefer = prefer_targ
        self.inline = inline or (lambda g, n: True)
        self.frames = []
        self.nfr = 0
        self.loops = []
        self.steps = 0
        self.maxsteps = 3000000
        self.fnstack = []
        self.nsym = 0
        self.temps = {}
        self.sym_index = sym_index
        self.quiet = 0

    # -------------------------------------------------------------------------------------------
    @property
    def fn(self):
        return self.fnstack[-1]

    def frame(self):
        return self.frames[-1]

    def fresh(self, hint='s'):
        self.nsym += 1
        return '%s~%d' % (hint, self.nsym)

    def vloc(self, vid):
        return ('L', self.frame()['id'], vid, self.fn.locals[vid][0])

    def run_root(self, f, args=None, st=None, this=None):
        """interpret f with symbolic parameters"""
        st = st or State()
        self.nfr += 1
        fr = {'id': self.nfr, 'this': this or ('this', f.cls), 'fn': f}
        self.frames.append(fr)
        self.fnstack.append(f)
        try:
            for pid in f.params:
                nm, ty = f.locals[pid][0], f.locals[pid][1]
                loc = self.vloc(pid)
                if args and nm in args:
                    a = args[nm]
                    if isinstance(a, tuple):
                        st.b[loc] = a
                    else:
                        st.m[loc] = a
                    continue
                if is_ref(ty):
                    st.b[loc] = ('P', nm)
                elif is_ptr(ty):
                    st.m[loc] = V(ptr=('arr', ('P', nm)), ty=ty)
            if f.h['kind'] == 'ctor':
                self.ctor_inits(f, fr['this'], st)
            fl = self.ex(f.body, st)
            return fl
        finally:
            self.frames.pop()
            self.fnstack.pop()

    def ctor_inits(self, g, this, st):
        for what, init, written in g.inits:
            if not what or init is None:
                continue
            if what.startswith('base:'):
                if init[0] == 'ctor':
                    b = self.p.fns.get(init[3])
                    if b is not None and b.body is not None and self.inline(b, init) and len(self.fnstack) <= self.maxdepth:
                        self.call_body(b, [self.ev(a, st) for a in init[4]], this, st, init)
            elif '::' in what:
                self.init_field(st, (this,), what, init)

    def init_field(self, st, base, what, init):
        loc = base[0] + (('.', what),)
        v = self.ev(init, st)
        t = self.p.field_type(what) or ''
        if scalar_type(t):
            self.store(loc, v, st, init)
        elif is_ref(t):
            if v.lv is not None:
                st.b[loc] = v.lv
        elif is_ptr(t):
            st.m[loc] = v

    # ---- states --------------------------------------------------------------------------------
    def join(self, a, b, cond=None):
        if a is None:
            return b
        if b is None:
            return a
        m = {}
        g = None
        if self.D.guarded:
            if cond is None:
                cond = a.g
            g = self.D.gor(a.g, b.g)
        for k in set(a.m) | set(b.m):
            x, y = a.m.get(k), b.m.get(k)
            if x is None or y is None:
                # written on one side only: the other side has the initial value
                if k[0] == 'L' and len(k) == 4:
                    m[k] = x or y          # declared on one side
                    continue
                if x is None:
                    x = self.initial(k, y)
                else:
                    y = self.initial(k, x)
            if x is y:
                m[k] = x
                continue
            if x.ptr is not None or y.ptr is not None:
                if x.ptr == y.ptr:
                    m[k] = x
                else:
                    m[k] = V(ptr=('arr', ('X',) + (k,)), ty=x.ty)
                continue
            c = x.c if x.c == y.c else None
            m[k] = V(self.D.join(cond, x.d, y.d, self), c, ty=x.ty)
        bb = {}
        for k in set(a.b) | set(b.b):
            x, y = a.b.get(k), b.b.get(k)
            if x == y or y is None:
                bb[k] = x
            elif x is None:
                bb[k] = y
            else:
                bb[k] = ('X',) + (k,)
        return State(m, bb, g)

    def joinall(self, sts):
        r = None
        for s in (reversed(sts) if self.D.guarded else sts):
            r = self.join(s, r, None)
        return r

    def initial(self, loc, like=None):
        ty = (like.ty if like is not None else None) or self.loctype(loc)
        return V(self.D.init(loc, ty, self), None, ty=ty)

    def loctype(self, loc):
        for it in reversed(loc):
            if isinstance(it, tuple) and len(it) == 2 and it[0] == '.':
                t = self.p.field_type(it[1]) or '?'
                # indices applied after the field
                return t
        return '?'

    # ---- memory --------------------------------------------------------------------------------
    def deref(self, loc, st):
        """follow reference bindings"""
        n = 0
        while loc in st.b and n < 30:
            loc = st.b[loc]
            n += 1
        return loc

    keep_returned = False

    def load(self, loc, ty, st, node):
        loc = self.deref(loc, st)
        v = st.m.get(loc)
        if v is not None:
            return V(v.d, v.c, loc, v.ptr, v.ty or ty, v.lit)
        if ty and is_arr(ty):
            return V(None, None, loc, ('arr', loc), ty)
        if ty and (is_ptr(ty)):
            return V(None, None, loc, ('arr', loc), ty)
        if ty and is_ref(ty) and not scalar_type(ty):
            return V(None, None, loc, None, ty)
        # smashed element?
        if loc and isinstance(loc[-1], tuple) and loc[-1][0] == '[':
            w = st.m.get(loc[:-1] + (('[', '*'),))
            if w is not None and loc[-1][1] != '*':
                return V(w.d, None, loc, w.ptr, ty)
        d = self.D.init(loc, ty, self)
        return V(d, None, loc, None, ty)

    def store(self, loc, v, st, node, ty=None):
        loc = self.deref(loc, st)
        if v.ptr is not None and v.d is None:
            st.m[loc] = V(None, None, None, v.ptr, v.ty)
            return
        d = self.D.write(loc, v, node, self, st)
        st.m[loc] = V(d, v.c, None, None, ty or v.ty, v.lit)

    def idxkey(self, iv):
        if iv.c is not None:
            return iv.c
        k = self.D.idxkey(iv, self) if self.sym_index else None
        return '*' if k is None else k

    # ---- expressions ---------------------------------------------------------------------------
    def lval(self, e, st):
        v = self.ev(e, st)
        if v.lv is not None:
            return v.lv, v
        return ('T', id(e)), v

    def ev(self, e, st):
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Giveup('too many steps')
        return getattr(self, 'e_' + e[0], self.e_default)(e, st)

    def e_default(self, e, st):
        return V(self.D.top(), None)

    def e_int(self, e, st):
        return V(self.D.lit(e[2], True), e[2], ty='int', lit=True)

    def e_flt(self, e, st):
        return V(self.D.lit(e[2], False), None, ty='double', lit=True)

    def e_bool(self, e, st):
        return V(self.D.lit(e[2], True), e[2], ty='bool', lit=True)

    def e_chr(self, e, st):
        return V(self.D.lit(e[2], True), e[2], ty='char', lit=True)

    def e_enum(self, e, st):
        return V(self.D.lit(e[3], True), e[3], ty='int', lit=True)

    def e_null(self, e, st):
        return V(None, None, None, ('arr', ('null',)))

    def e_zero(self, e, st):
        return V(self.D.lit(0, True), 0, lit=True)

    def e_str(self, e, st):
        return V(None, None, ('S', e[2]), None, 'string')

    def e_sizeof(self, e, st):
        return V(self.D.top(), None, ty='unsigned long')

    def e_this(self, e, st):
        return V(None, None, None, ('addr', self.frame()['this']))

    def e_var(self, e, st):
        vid = e[2]
        loc = self.vloc(vid)
        ty = self.fn.locals[vid][1]
        if is_ref(ty):
            tgt = self.deref(loc, st)
            inner = ty[:-1].strip()
            if scalar_type(inner) or is_ptr(inner) or is_arr(inner):
                return self.load(tgt, inner, st, e)
            return V(None, None, tgt, None, inner)
        if scalar_type(ty) or is_ptr(ty) or is_arr(ty):
            return self.load(loc, ty, st, e)
        if '(' in ty and loc in st.m:
            return st.m[loc]
        return V(None, None, loc, None, ty)

    def e_gvar(self, e, st):
        name, ty = e[2], e[3]
        if scalar_type(ty):
            r = self.global_const(name, st)
            if r is not None:
                return r
        loc = ('G', name)
        if is_ref(ty) and not scalar_type(ty):
            return V(None, None, loc, None, ty)
        if scalar_type(ty) or is_ptr(ty) or is_arr(ty):
            return self.load(loc, ty, st, e)
        return V(None, None, loc, None, ty)

    def global_const(self, name, st):
        g = self.D.gconst(name, self)
        if g is not None:
            return V(g, None, ('G', name))
        init = None
        gv = self.p.globals.get(name)
        if gv and gv['const']:
            init = gv['init']
            tys = gv['t']
        elif '::' in name:
            cls, f = name.rsplit('::', 1)
            nd = self.ndim()
            for r in self.p.records.get(cls, []):
                if nd is not None and r['targs'] and r['targs'][0].isdigit() and int(r['targs'][0]) != nd:
                    continue
                for n, t, i in r['statics']:
                    if n == f and t.startswith('const') and i is not None:
                        init = i
                        break
                if init:
                    break
        if init is None:
            return None
        v = self.ev(init, State())
        return V(v.d, v.c, None, None, v.ty, v.lit)

    def ndim(self):
        for f in reversed(self.fnstack):
            n = f.ndim()
            if n is not None:
                return n
        return None

    def e_mem(self, e, st):
        base = self.ev(e[2], st)
        ty = e[5]
        if base.ptr is not None and (e[4] or base.lv is None):
            bl = self.at(base.ptr, 0)
        elif base.lv is not None:
            bl = base.lv
        else:
            bl = ('T', facts.json.dumps(e[2]) if False else self.tmpname(e[2]))
        loc = bl + (('.', e[3]),)
        if is_ref(ty):
            loc = self.deref(loc, st)
            inner = ty[:-1].strip()
            if scalar_type(inner) or is_ptr(inner) or is_arr(inner):
                return self.load(loc, inner, st, e)
            return V(None, None, loc, None, inner)
        if scalar_type(ty) or is_ptr(ty) or is_arr(ty):
            return self.load(loc, ty, st, e)
        return V(None, None, self.deref(loc, st), None, ty)

    def tmpname(self, e):
        return repr(e[0]) + str(e[1])

    def at(self, ptr, idx):
        kind, loc = ptr
        if kind == 'arr':
            return loc + (('[', idx),)
        if idx == 0:
            return loc
        if isinstance(loc[-1], tuple) and loc[-1][0] == '[' and isinstance(loc[-1][1], int) and isinstance(idx, int):
            return loc[:-1] + (('[', loc[-1][1] + idx),)
        if isinstance(loc[-1], tuple) and loc[-1][0] == '[':
            return loc[:-1] + (('[', '*' if not self.sym_index else ('+', loc[-1][1], idx)),)
        return loc + (('[', idx),)

    def e_idx(self, e, st):
        b = self.ev(e[2], st)
        i = self.ev(e[3], st)
        k = self.idxkey(i)
        self.D.index(b, i, e, self)
        if b.ptr is not None:
            loc = self.at(b.ptr, k)
        elif b.lv is not None:
            loc = b.lv + (('[', k),)
        else:
            loc = ('T', self.tmpname(e[2]), ('[', k))
        ty = elem_type(b.ty) if b.ty else None
        return self.obj_or_load(loc, ty, st, e)

    def obj_or_load(self, loc, ty, st, e):
        if ty is None or scalar_type(ty) or is_ptr(ty) or is_arr(ty):
            return self.load(loc, ty, st, e)
        loc = self.deref(loc, st)
        v = st.m.get(loc)
        if v is not None:
            return V(v.d, v.c, loc, v.ptr, ty)
        return V(None, None, loc, None, ty)

    def e_cast(self, e, st):
        v = self.ev(e[4], st)
        if e[2] in ('i2f', 'f2i', 'f2f'):
            return V(self.D.cast(e[2], v.d, e, self), v.c if e[2] != 'f2i' else None, v.lv if e[2] == 'f2f' else None, None, e[3], v.lit)
        t = e[3]
        return V(v.d, v.c, v.lv, v.ptr, t if not scalar_type(t) else v.ty, v.lit)

    def e_un(self, e, st):
        op = e[2]
        if op in ('++', '--', '++p', '--p'):
            loc, v = self.lval(e[3], st)
            one = V(self.D.lit(1, True), 1, lit=True)
            if v.ptr is not None and v.d is None:
                nv = V(None, None, None, ('addr', self.at(v.ptr, '*')), v.ty)
                st.m[self.deref(loc, st)] = nv
                return nv
            d = self.D.arith('+' if op[0] == '+' else '-', v, one, e, self)
            c = None if v.c is None else v.c + (1 if op[0] == '+' else -1)
            self.store(loc, V(d, c, ty=v.ty), st, e)
            return v if op.endswith('p') else V(d, c, loc, None, v.ty)
        if op == '&' and e[3][0] == 'fref':
            return self.ev(e[3], st)
        if op == '&':
            loc, v = self.lval(e[3], st)
            return V(None, None, None, ('addr', self.deref(loc, st)), (v.ty or '?') + ' *')
        if op == '*':
            v = self.ev(e[3], st)
            if v.ptr is not None:
                return self.obj_or_load(self.at(v.ptr, 0), elem_type(v.ty) if v.ty else None, st, e)
            return V(self.D.top(), None, v.lv)
        v = self.ev(e[3], st)
        if op == '-':
            return V(self.D.neg(v.d, self), None if v.c is None else -v.c, None, None, v.ty, v.lit)
        if op == '!':
            return V(self.D.boolean(('!', v.d)), None if v.c is None else int(not v.c), ty='bool')
        if op == '+':
            return v
        if op == '~' and v.d is not None:
            d = self.D.arith('-', V(self.D.neg(v.d, self), ty=v.ty), V(self.D.lit(1, True), 1, lit=True), e, self)
            return V(d, None if v.c is None else -1 - v.c, ty=v.ty)
        return V(self.D.top(), None, ty=v.ty)

    def e_bin(self, e, st):
        op = e[2]
        if op in ('&&', '||'):
            a = self.ev(e[3], st)
            if a.c is not None:
                if op == '&&' and not a.c:
                    return V(self.D.boolean(('c', 0)), 0, ty='bool')
                if op == '||' and a.c:
                    return V(self.D.boolean(('c', 1)), 1, ty='bool')
                b = self.ev(e[4], st)
                return V(b.d, b.c, ty='bool')
            b = self.ev(e[4], st)
            if b.c is not None:
                if op == '&&' and not b.c:
                    return V(self.D.boolean(('c', 0)), 0, ty='bool')
                if op == '||' and b.c:
                    return V(self.D.boolean(('c', 1)), 1, ty='bool')
                return V(a.d, None, ty='bool')
            return V(self.D.boolean((op, a.d, b.d)), None, ty='bool')
        a = self.ev(e[3], st)
        b = self.ev(e[4], st)
        if op == ',':
            return b
        if (a.ptr is not None and a.d is None) or (b.ptr is not None and b.d is None):
            if op in ('+', '-') and a.ptr is not None and b.ptr is None:
                k = self.idxkey(b)
                if op == '-' and isinstance(k, int):
                    k = -k
                return V(None, None, None, ('addr', self.at(a.ptr, k)), a.ty)
            if op in ('==', '!='):
                r = None
                if a.ptr is not None and b.ptr is not None and a.ptr == b.ptr:
                    r = int(op == '==')
                return V(self.D.boolean((op, ('ptr', a.ptr), ('ptr', b.ptr))), r, ty='bool')
            return V(self.D.top(), None, ty='bool')
        c = None
        if a.c is not None and b.c is not None:
            c = self.fold(op, a.c, b.c)
        if op in ('<', '>', '<=', '>=', '==', '!='):
            d = self.D.compare(op, a, b, e, self)
            if c is None:
                c = self.D.decide(op, a, b, self)
            return V(d, c, ty='bool')
        d = self.D.arith(op, a, b, e, self)
        ty = 'double'
        if int_type(a.ty or 'double') and int_type(b.ty or 'double'):
            ty = 'int'
        if ty == 'double' and op == '/':
            c = None
        return V(d, c, None, None, ty, a.lit and b.lit)

    @staticmethod
    def fold(op, a, b):
        try:
            if op == '+': return a + b
            if op == '-': return a - b
            if op == '*': return a * b
            if op == '/': return int(a / b)
            if op == '%': return a - b * int(a / b)
            if op == '<': return int(a < b)
            if op == '>': return int(a > b)
            if op == '<=': return int(a <= b)
            if op == '>=': return int(a >= b)
            if op == '==': return int(a == b)
            if op == '!=': return int(a != b)
            if op == '<<': return a << b
            if op == '>>': return a >> b
            if op == '&': return a & b
            if op == '|': return a | b
            if op == '^': return a ^ b
        except (ZeroDivisionError, ValueError, TypeError):
            return None
        return None

    def e_asg(self, e, st):
        op = e[2]
        r = self.ev(e[4], st)
        loc, l = self.lval(e[3], st)
        if op == '=':
            if r.d is None and r.ptr is None and r.lv is not None:
                self.copy_object(loc, r.lv, st)
                return V(None, None, loc, None, l.ty)
            self.store(loc, r, st, e, l.ty)
            return V(r.d, r.c, loc, r.ptr, l.ty)
        bop = op[:-1]
        if l.ptr is not None and l.d is None:
            st.m[self.deref(loc, st)] = V(None, None, None, ('addr', self.at(l.ptr, '*')), l.ty)
            return V(None, None, loc, l.ptr, l.ty)
        d = self.D.arith(bop, l, r, e, self)
        c = self.fold(bop, l.c, r.c) if (l.c is not None and r.c is not None and int_type(l.ty or 'double')) else None
        self.store(loc, V(d, c, ty=l.ty), st, e, l.ty)
        return V(d, c, loc, None, l.ty)

    def copy_object(self, dst, src, st):
        dst, src = self.deref(dst, st), self.deref(src, st)
        n = len(src)
        upd = {}
        for k in list(st.m):
            if k[:n] == src and len(k) > n:
                upd[dst + k[n:]] = st.m[k]
        nd = len(dst)
        for k in list(st.m):
            if k[:nd] == dst and len(k) > nd:
                del st.m[k]
        st.m.update(upd)
        self.D.copied(dst, src, self)

    def e_cond(self, e, st):
        c = self.ev(e[2], st)
        if c.c is not None:
            return self.ev(e[3] if c.c else e[4], st)
        s1, s2 = st.copy(), st.copy()
        a = self.ev(e[3], s1)
        b = self.ev(e[4], s2)
        j = self.join(s1, s2, c.d)
        st.m, st.b = j.m, j.b
        if a.d is None or b.d is None:
            if a.ptr == b.ptr and a.ptr is not None:
                return a
            return V(self.D.top() if a.ptr is None and a.lv is None else None, None, None if a.lv != b.lv else a.lv, None, a.ty)
        return V(self.D.phi(c.d, a, b, e, self), a.c if a.c == b.c else None, None, None, a.ty or b.ty, a.lit and b.lit)

    def e_new(self, e, st):
        for x in (e[3], e[4]):
            if x is not None and x[0] != 'init':
                self.ev(x, st)
        loc = ('H', self.fn.name, e[1], e[2])
        return V(None, None, None, ('arr', loc) if e[5] else ('addr', loc), e[2] + ' *')

    def e_del(self, e, st):
        self.ev(e[2], st)
        return V(None, None)

    def e_init(self, e, st):
        return V(self.D.top(), None)

    def e_throw(self, e, st):
        return V(None)

    def e_other(self, e, st):
        vs = [self.ev(x, st) for x in e[3]]
        return V(self.D.top())

    def e_fref(self, e, st):
        return V(self.D.fref(e), ty='function')

    def e_lambda(self, e, st):
        return V(None)

    def e_ctor(self, e, st):
        args = [self.ev(a, st) for a in e[4]]
        if args and args[0].lv is not None and args[0].lv[0] == 'S' and ('basic_string' in e[2] or 'string' in e[2]):
            return V(None, None, args[0].lv, None, e[5])
        if len(args) == 1 and args[0].lv is not None and args[0].d is None and (e[2].split('::')[-1] in (args[0].ty or '') or args[0].lv[0] == 'PAR'):
            return V(None, None, args[0].lv, None, e[5])
        # one temporary per construction: two on a line are different objects
        k = (self.frame()['id'], e[1], e[2])
        ids = self.temps.setdefault(k, [])
        if id(e) not in ids:
            ids.append(id(e))
        n = ids.index(id(e))
        loc = ('T', 'ctor') + k + ((n,) if n else ())
        g = self.p.fns.get(e[3])
        if g is not None and self.inline(g, e):
            # constructor: run on the temporary
            self.call_body(g, args, loc, st, e)
        return V(None, None, loc, None, e[5])

    # ---- calls ---------------------------------------------------------------------------------
    def pick(self, n):
        ts = targets(self.p, n)
        if len(ts) > 1:
            ts2 = [t for t in ts if t.body is not None]
            best = {}
            for t in ts2:
                k = (t.file, t.line)
                sc = (0 if (self.prefer and any(self.prefer in a for a in t.h['ct'] + t.h['ft'])) else 1, t.m)
                if k not in best or sc < best[k][0]:
                    best[k] = (sc, t)
            ts = [v[1] for k, v in sorted(best.items())]
        return ts

    def e_call(self, e, st):
        name = e[2]
        obj = None
        if is_exit_call(e):
            return V(None)
        if e[5] is not None:
            obj = self.ev(e[5], st)
        # operator[] of containers is an index
        if name.endswith('::operator[]') or name.endswith('::at') and name.startswith('std::'):
            h = self.D.container(name, obj, e, self)
            if h is not None:
                for a in e[4]:
                    self.ev(a, st)
                return h if isinstance(h, V) else V(h, None, None, None, e[7])
            if e[4]:
                i = self.ev(e[4][0], st)
                k = self.idxkey(i)
                self.D.index(obj, i, e, self)
                base = obj.lv if obj is not None and obj.lv is not None else (self.at(obj.ptr, 0) if obj is not None and obj.ptr is not None else ('T', self.tmpname(e)))
                ty = e[7]
                ty = ty[:-1].strip() if is_ref(ty) else ty
                return self.obj_or_load(base + (('[', k),), ty, st, e)
        args = [self.ev(a, st) for a in e[4]]
        if name in ('std::min', 'std::max', 'fmin', 'fmax', 'std::fmin', 'std::fmax') and len(args) == 2:
            c = None
            if args[0].c is not None and args[1].c is not None:
                c = min(args[0].c, args[1].c) if 'min' in name else max(args[0].c, args[1].c)
            return V(self.D.minmax('min' if 'min' in name else 'max', args[0], args[1], e, self), c, None, None, args[0].ty, args[0].lit and args[1].lit)
        if name.endswith('operator=') and obj is not None and len(args) == 1 and obj.lv is not None and args[0].lv is not None and args[0].d is None:
            self.copy_object(obj.lv, args[0].lv, st)
            return V(None, None, obj.lv, None, obj.ty)
        if name in ('std::swap', 'swap') and len(args) == 2 and args[0].lv and args[1].lv:
            a, b = args
            self.store(a.lv, V(b.d, b.c, None, b.ptr, b.ty), st, e)
            self.store(b.lv, V(a.d, a.c, None, a.ptr, a.ty), st, e)
            return V(None)
        r = self.D.intrinsic(name, args, obj, e, self, st)
        if r is not None:
            return r
        ts = self.pick(e)
        ts = [t for t in ts if self.inline(t, e)]
        if ts and len(self.fnstack) <= self.maxdepth:
            results = []
            outs = []
            many = len(ts) > 1
            for t in ts:
                if any(t.m == f.m for f in self.fnstack):
                    continue
                s2 = st.copy() if many else st
                this = None
                if obj is not None:
                    this = obj.lv if obj.lv is not None and not (obj.ptr is not None) else (self.at(obj.ptr, 0) if obj.ptr is not None else ('T', self.tmpname(e)))
                rv = self.call_body(t, args, this, s2, e)
                results.append(rv)
                outs.append(s2)
            if results:
                if many:
                    j = self.joinall(outs)
                    st.m, st.b = j.m, j.b
                r = results[0]
                for x in results[1:]:
                    if r is None or x is None or r.d is None or x.d is None:
                        r = r or x
                        continue
                    r = V(self.D.join(None, r.d, x.d, self), None, None, None, r.ty)
                if r is not None:
                    return V(r.d, r.c, r.lv, r.ptr, r.ty or e[7], r.lit)
        # opaque
        self.D.opaque_effects(name, args, obj, e, self, st)
        ty = e[7]
        if scalar_type(ty) and not is_ref(ty):
            return V(self.D.opaque(name, args, obj, e, self), None, None, None, ty)
        loc = ('C', name) + self.D.argkey(args, obj, self)
        if is_ref(ty):
            inner = ty[:-1].strip()
            return self.obj_or_load(loc, inner, st, e)
        if is_ptr(ty):
            return V(None, None, None, ('arr', loc), ty)
        return V(None, None, loc, None, ty)

    def call_body(self, g, args, this, st, node):
        self.nfr += 1
        fr = {'id': self.nfr, 'this': this or ('this', g.cls), 'fn': g}
        self.frames.append(fr)
        self.fnstack.append(g)
        try:
            for i, pid in enumerate(g.params):
                nm, ty = g.locals[pid][0], g.locals[pid][1]
                loc = self.vloc(pid)
                a = args[i] if i < len(args) else None
                if a is None:
                    continue
                if is_ref(ty):
                    if a.lv is not None:
                        st.b[loc] = self.deref(a.lv, st)
                        continue
                    if a.ptr is None and a.d is not None:
                        st.m[loc] = V(a.d, a.c, None, None, a.ty, a.lit)
                        continue
                    if a.ptr is not None:
                        st.m[loc] = V(None, None, None, a.ptr, a.ty)
                        continue
                    continue
                if a.d is None and a.ptr is None and a.lv is not None:
                    self.copy_object(loc, a.lv, st)
                    st.b[loc] = a.lv if not any(k[:len(loc)] == loc for k in st.m) else loc
                    if st.b[loc] == loc:
                        del st.b[loc]
                    continue
                st.m[loc] = V(a.d, a.c, None, a.ptr, a.ty if a.ptr is not None else ty, a.lit)
            self.D.enter(g, node, self)
            if g.h['kind'] == 'ctor':
                self.ctor_inits(g, fr['this'], st)
            g0 = st.g
            st1 = st.copy()
            st1.g = self.D.gone()
            fl = self.ex(g.body, st1)
            self.D.leave(g, self)
            outs = [s for s, v in fl.re]
            if fl.n is not None:
                outs.append(fl.n)
            j = self.joinall(outs)
            st.g = g0
            if j is None and self.keep_returned:
                raise NoReturn()
            if j is not None:
                st.m, st.b = j.m, j.b
                # drop the callee's frame
                fid = fr['id']
                if self.keep_returned:
                    # an object returned by value outlives the frame
                    ret = []
                    for s, v in fl.re:
                        if v is not None and v.d is None and v.ptr is None and v.lv is not None and v.lv[:2] == ('L', fid) and not is_ref(g.h['ret']):
                            out = ('T', 'ret', fid) + v.lv[2:]
                            self.copy_object(out, v.lv, st)
                            v = V(None, None, out, None, v.ty)
                        ret.append((s, v))
                    fl.re = ret
                for k in [k for k in st.m if k[0] == 'L' and k[1] == fid]:
                    del st.m[k]
            rv = None
            for s, v in reversed(fl.re):
                if v is None:
                    continue
                if rv is None:
                    rv = v
                elif self.D.guarded and rv.d is not None and v.d is not None:
                    rv = V(self.D.join(s.g, v.d, rv.d, self), rv.c if rv.c == v.c else None, None, None, rv.ty, rv.lit and v.lit)
                elif rv.d is not None and v.d is not None:
                    rv = V(self.D.retjoin(rv, v, self), rv.c if rv.c == v.c else None, None, None, rv.ty, rv.lit and v.lit)
                else:
                    rv = rv if rv.ptr == v.ptr and rv.lv == v.lv else V(None, None, ('X', 'ret', g.name), None, rv.ty)
            return rv
        finally:
            self.frames.pop()
            self.fnstack.pop()

    # ---- statements ----------------------------------------------------------------------------
    def ex(self, s, st):
        if s is None or st is None:
            return Flow(st)
        k = s[0]
        if k == 'block':
            return self.x_seq(s[2], st)
        return getattr(self, 'x_' + k, self.x_default)(s, st)

    def x_default(self, s, st):
        return Flow(st)

    def x_seq(self, ss, st):
        out = Flow(st)
        for s in ss:
            if out.n is None:
                break
            f = self.ex(s, out.n)
            out.n = f.n
            out.br += f.br
            out.co += f.co
            out.re += f.re
        return out

    def x_expr(self, s, st):
        e = s[2]
        if is_exit_call(strip(e)):
            for a in strip(e)[4]:
                pass
            return Flow(None)
        if e[0] == 'throw':
            return Flow(None)
        if e[0] == 'cond' and any(is_exit_call(x) for x in facts.walk(e)) :
            return Flow(st)      # assert()
        self.ev(e, st)
        return Flow(st)

    def x_decl(self, s, st):
        for vid, init, vla in s[2]:
            ty = self.fn.locals[vid][1]
            loc = self.vloc(vid)
            # a new declaration kills what an earlier iteration left
            for k in [k for k in st.m if k[:4] == loc]:
                del st.m[k]
            st.b.pop(loc, None)
            if vla is not None:
                self.ev(vla, st)
            if init is None:
                if scalar_type(ty):
                    st.m[loc] = V(self.D.uninit(loc, self), None, ty=ty)
                continue
            if init[0] == 'init' and is_arr(ty):
                for i, x in enumerate(init[2]):
                    v = self.ev(x, st)
                    self.store(loc + (('[', i),), v, st, x)
                continue
            v = self.ev(init, st)
            if is_ref(ty):
                if v.lv is not None:
                    st.b[loc] = self.deref(v.lv, st)
                elif v.d is not None:
                    st.m[loc] = V(v.d, v.c, None, None, v.ty)
                continue
            if scalar_type(ty):
                if v.d is None:
                    v = V(self.D.top(), None)
                self.store(loc, V(v.d, v.c if int_type(ty) else (v.c), None, None, ty, v.lit), st, s, ty)
            elif is_ptr(ty):
                if v.ptr is not None:
                    st.m[loc] = V(None, None, None, v.ptr, ty)
                else:
                    st.m[loc] = V(None, None, None, ('arr', ('X', 'ptr', loc)), ty)
            elif v.lv is not None:
                self.copy_object(loc, v.lv, st)
                if not any(k[:4] == loc for k in st.m):
                    # untouched copy: reads go to the source
                    st.b[loc] = self.deref(v.lv, st) if self.D.alias_copies else loc
                    if st.b[loc] == loc:
                        del st.b[loc]
        return Flow(st)

    def x_if(self, s, st):
        c = self.ev(s[2], st)
        if c.c is not None:
            return self.ex(s[3] if c.c else s[4], st)
        s2 = st.copy()
        s1 = self.D.assume(c.d, True, st, self)
        s2 = self.D.assume(c.d, False, s2, self)
        if self.D.guarded:
            s1.g, s2.g = self.D.gand(st.g, c.d, True), self.D.gand(s2.g, c.d, False)
        self.D.push(c.d, True, self)
        f1 = self.ex(s[3], s1)
        self.D.pop(self)
        self.D.push(c.d, False, self)
        f2 = self.ex(s[4], s2)
        self.D.pop(self)
        out = Flow()
        out.n = self.join(f1.n, f2.n, c.d)
        out.br = f1.br + f2.br
        out.co = f1.co + f2.co
        out.re = f1.re + f2.re
        return out

    def x_switch(self, s, st):
        v = self.ev(s[2], st)
        body = s[3]
        items = body[2] if body and body[0] == 'block' else [body]
        flat = []

        def add(x):
            if x and x[0] == 'case':
                flat.append(('case', x[2]))
                add(x[3])
            elif x and x[0] == 'default':
                flat.append(('default', None))
                add(x[2])
            else:
                flat.append(('s', x))
        for x in items:
            add(x)
        out = Flow()
        entry = st
        hasdef = False
        cur = None
        taken = False
        gleft = entry.g
        for kind, x in flat:
            if kind == 'case':
                cv = self.ev(x, entry.copy())
                if v.c is not None and cv.c is not None:
                    if v.c == cv.c:
                        cur = self.join(cur, entry.copy())
                        taken = True
                else:
                    ce = entry.copy()
                    if self.D.guarded:
                        cc = self.D.compare('==', v, cv, s, self)
                        ce.g = self.D.gand(entry.g, cc, True)
                        gleft = self.D.gand(gleft, cc, False)
                    cur = self.join(cur, ce)
            elif kind == 'default':
                hasdef = True
                if not taken:
                    ce = entry.copy()
                    if self.D.guarded:
                        ce.g = gleft
                    cur = self.join(cur, ce)
            elif cur is not None:
                f = self.ex(x, cur)
                cur = f.n
                out.br += f.br
                out.co += f.co
                out.re += f.re
        res = cur
        for b in out.br:
            res = self.join(res, b)
        out.br = []
        if not hasdef and not taken:
            if self.D.guarded:
                entry = entry.copy()
                entry.g = gleft
            res = self.join(res, entry)
        out.n = res
        return out

    def x_for(self, s, st):
        out = Flow()
        f0 = self.ex(s[2], st)
        st = f0.n
        n = 0
        brk = []
        while True:
            c = self.ev(s[3], st) if s[3] is not None else V(None, 1)
            if c.c is None or n >= MAXUNROLL:
                st, b2 = self.loop(s, st, lambda x: self.ev(s[3], x) if s[3] is not None else None, s[5], lambda x: self.ev(s[4], x) if s[4] is not None else None, out, False)
                brk += b2
                break
            if not c.c:
                break
            f = self.ex(s[5], st)
            out.re += f.re
            brk += f.br
            st = self.join_many(f.n, f.co)
            if st is None:
                break
            if s[4] is not None:
                self.ev(s[4], st)
            n += 1
        out.n = self.join_many(st, brk)
        return out

    def join_many(self, a, l):
        for x in l:
            a = self.join(a, x)
        return a

    def loop(self, s, st, cond, body, inc, out, post):
        """a loop of unknown trip count; returns (state after, break states)"""
        D = self.D
        if D.loop_mode == 'join':
            cur = st
            brk = []
            for it in range(2):
                c = cond(cur) if not post else None
                f = self.ex(body, cur.copy())
                nxt = self.join_many(f.n, f.co)
                if nxt is not None and inc:
                    inc(nxt)
                brk = f.br
                if it == 0:
                    out.re += f.re
                if nxt is None:
                    break
                cur = self.join(cur, nxt) if not (post and it == 0) else nxt
            if post and cond:
                cond(cur)
            return cur, brk
        # havoc mode
        lid = (self.fn.name, s[1])
        g0 = st.g
        st.g = D.gone()
        pre = st.copy()
        pre.g = g0
        self.quiet += 1
        dry = st.copy()
        if inc:
            probe = st.copy()
            inc(probe)
            for k, v in probe.m.items():
                if st.m.get(k) is not v and v.ptr is None and k[0] == 'L':
                    old = pre.m.get(k)
                    dry.m[k] = V(D.havoc(k, lid, old, self), None, ty=(old.ty if old is not None else None))
        if not post and cond:
            cond(dry)
        f = self.ex(body, dry)
        ends = [x for x in [f.n] + f.co + f.br if x is not None]
        for x in ends:
            if inc:
                inc(x)
        self.quiet -= 1
        written = set()
        fid = self.frame()['id']
        for x in ends:
            for k, v in x.m.items():
                if pre.m.get(k) is not v:
                    written.add(k)
        for k in written:
            old = pre.m.get(k)
            if old is not None and old.ptr is not None:
                st.m[k] = V(None, None, None, ('arr', ('X', lid, k)), old.ty)
            else:
                st.m[k] = V(D.havoc(k, lid, old, self), None, ty=(old.ty if old is not None else None))
        start = dict((k, st.m[k]) for k in written)
        self.loops.append(lid)
        c = cond(st) if (not post and cond) else None
        D.loop_enter(lid, c, start, self)
        f = self.ex(body, st)
        end = self.join_many(f.n, f.co)
        if end is not None and inc:
            inc(end)
        D.loop_exit(lid, start, end, self)
        self.loops.pop()
        for rs, rv in f.re:
            rs.g = D.gopaque(lid)
        out.re += f.re
        for b in f.br:
            b.g = D.gopaque(lid)
        after = pre
        for k in written:
            old = pre.m.get(k)
            ev = end.m.get(k) if end is not None else None
            if k[0] == 'L' and k[1] == fid and old is None:
                pass
            after.m[k] = D.after_loop(k, lid, old, start[k], ev, self)
        return after, f.br

    def x_while(self, s, st):
        out = Flow()
        c = self.ev(s[2], st.copy())
        if c.c is not None and not c.c:
            out.n = st
            return out
        r, brk = self.loop(s, st, lambda x: self.ev(s[2], x), s[3], None, out, False)
        if c.c is not None and c.c:
            r = None if not brk else (r if self.D.loop_mode == 'join' else None)
        out.n = self.join_many(r, brk)
        return out

    def x_do(self, s, st):
        out = Flow()
        r, brk = self.loop(s, st, lambda x: self.ev(s[3], x), s[2], None, out, True)
        out.n = self.join_many(r, brk)
        return out

    def x_rfor(self, s, st):
        out = Flow()
        rng = self.ev(s[3], st)
        vid = s[2][0]
        loc = self.vloc(vid)
        ty = self.fn.locals[vid][1]

        base = rng.lv or (rng.ptr[1] if rng.ptr else ('X', 'range'))
        el = base + (('[', '*'),)
        if is_ref(ty):
            st.b[loc] = el
        elif scalar_type(ty):
            st.m[loc] = self.load(el, ty, st, s)
        else:
            st.b[loc] = el
        r, brk = self.loop(s, st, None if self.D.loop_mode == 'havoc' else (lambda x: None), s[4], None, out, False)
        out.n = self.join_many(r, brk)
        return out

    def x_break(self, s, st):
        f = Flow(None)
        f.br = [st]
        return f

    def x_continue(self, s, st):
        f = Flow(None)
        f.co = [st]
        return f

    def x_return(self, s, st):
        f = Flow(None)
        v = self.ev(s[2], st) if s[2] is not None else None
        if v is not None:
            self.D.returned(v, s, self)
        f.re = [(st, v)]
        return f

    def x_omp(self, s, st):
        return self.ex(s[4], st)

    def x_label(self, s, st):
        return self.ex(s[3], st)

    def x_goto(self, s, st):
        return Flow(None)

    def x_try(self, s, st):
        return self.ex(s[2], st)


class Domain(object):
    """hooks with neutral defaults"""
    loop_mode = 'join'
    alias_copies = True
    guarded = False

    def gone(self): return None
    def gand(self, g, c, t): return None
    def gor(self, a, b): return None
    def gopaque(self, lid): return None
    def top(self): return None
    def lit(self, x, isint): return None
    def init(self, loc, ty, I): return self.top()
    def uninit(self, loc, I): return self.top()
    def write(self, loc, v, node, I, st): return v.d
    def arith(self, op, a, b, node, I): return self.top()
    def compare(self, op, a, b, node, I): return self.top()
    def decide(self, op, a, b, I): return None
    def neg(self, d, I): return d
    def cast(self, kind, d, node, I): return d
    def boolean(self, t): return None
    def minmax(self, k, a, b, node, I): return self.top()
    def phi(self, c, a, b, node, I): return self.join(c, a.d, b.d, I)
    def join(self, c, a, b, I): return a if a == b else self.top()
    def retjoin(self, a, b, I): return self.join(None, a.d, b.d, I)
    def idxkey(self, iv, I): return None
    def fref(self, e): return None
    def index(self, b, i, node, I): pass
    def gconst(self, name, I): return None
    def container(self, name, obj, node, I): return None
    def intrinsic(self, name, args, obj, node, I, st): return None
    def opaque(self, name, args, obj, node, I): return self.top()
    def opaque_effects(self, name, args, obj, node, I, st): pass
    def argkey(self, args, obj, I): return ()
    def enter(self, g, node, I): pass
    def leave(self, g, I): pass
    def returned(self, v, node, I): pass
    def assume(self, c, t, st, I): return st
    def push(self, c, t, I): pass
    def pop(self, I): pass
    def copied(self, dst, src, I): pass
    def havoc(self, loc, lid, old, I): return self.top()
    def loop_enter(self, lid, c, start, I): pass
    def loop_exit(self, lid, start, end, I): pass
    def after_loop(self, loc, lid, old, start, end, I): return V(self.top(), None)
