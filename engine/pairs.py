"""Pairwise contributions: what one iteration of a loop adds to the fields of an object.

A function is interpreted once (value numbering, loops entered with every written location havocked).
For each loop, the difference between a location's value after and before one iteration is the
contribution of that iteration.
"""
from fractions import Fraction as Fr
from termdom import *
from terms import TooBig, limit
from absint import State, Giveup
from facts import find
from util import strip, targets, src_functions

KERN = {'w0', 'w1', 'wgrav', 'wpot', 'womega', 'wzeta'}
FOURPI = 4 * PI


class PairDom(Terms):
    opaque_eos = True
    abbrev = True
    """kernel functions, periodic vectors and Ewald corrections are opaque functions with known derivatives"""

    def __init__(self, p, **kw):
        Terms.__init__(self, p, opaque_gvars={'small_number', 'small_number_dp', 'big_number', 'big_number_dp', 'smallest_number'}, **kw)
        self.eos = {'EOS'} | p.derived('EOS')

    def write(self, loc, v, node, I, st):
        d = Terms.write(self, loc, v, node, I, st)
        if self.abbrev and d is not None and loc[0] == 'L' and len(d.t) > 1 and not self.asint(v) and v.ty != 'bool':
            # a sum kept in a local variable is handled as one factor (multiplied out only when compared)
            c, m, q = primitive(d)
            if len(q.t) > 1:
                return Poly({m: c}) * A(('p', q.id))
        return d

    def original(self, loc, st):
        """a temporary whose density was copied from an object stands for that object"""
        for l, v in st.m.items():
            if l[:len(loc)] == loc and len(l) == len(loc) + 1 and l[-1][0] == '.' and l[-1][1].endswith('::rho') and v.d is not None:
                ks = [akey(a) for a in atoms_of(v.d)]
                if len(ks) == 1 and ks[0][0] == 'v' and isinstance(ks[0][1], tuple) and v.d == sym(ks[0][1]):
                    o = ks[0][1]
                    if o[0] == 'loop':
                        o = o[2]
                    if o[-1][0] == '.' and o[-1][1].endswith('::rho'):
                        return o[:-1]
        return loc

    def intrinsic(self, name, args, obj, node, I, st):
        n = name.split('::')[-1]
        cls = name.split('::')[0]
        if n in ('NearestPeriodicVector', 'debug1', 'debug2'):
            return V(None)
        if cls in self.eos and self.opaque_eos and args and args[0].lv is not None and not n.startswith(('operator', 'EOS')):
            return V(fun('eos.' + n, ('a', self.original(I.deref(args[0].lv, st), st))), ty='double')
        if n == 'CalculatePeriodicCorrection' and len(args) == 4:
            m, dr, acc, pot = args
            base = dr.ptr[1] if dr.ptr else None
            if base is None or acc.ptr is None or pot.lv is None or m.d is None:
                return None
            nd = 3
            x = [I.load(I.at(dr.ptr, k), 'double', st, node).d for k in range(nd)]
            for k in range(nd):
                I.store(I.at(acc.ptr, k), V(m.d * fun('ewald%d' % k, *x), ty='double'), st, node)
            I.store(I.deref(pot.lv, st), V(m.d * fun('ewaldpot', *x), ty='double'), st, node)
            return V(None)
        if ('Kernel' in cls) and args and args[0].d is not None:
            s2 = n.endswith('_s2')
            b = n[:-3] if s2 else n
            if b in KERN:
                x = args[0].d
                return V(fun(b, self.safe(lambda: x ** Fr(1, 2)) if s2 else x), ty='double')
        return Terms.intrinsic(self, name, args, obj, node, I, st)


def kd(name, args, D):
    """derivative rules of the opaque functions (kernel identities: property P02)"""
    x = args[0]
    if name == 'wpot':
        return -fun('wgrav', x) * D(x)
    if name == 'wgrav':
        return (FOURPI * fun('w0', x) - 2 * fun('wgrav', x) / x) * D(x)
    if name == 'w0':
        return fun('w1', x) * D(x)
    if name == 'ewaldpot':
        r = ZERO
        for k, y in enumerate(args):
            r = r - fun('ewald%d' % k, *args) * D(y)
        return r
    return None


def zero_small(q):
    return Subst(lambda k: ZERO if k[0] == 'v' and isinstance(k[1], tuple) and k[1][:1] == ('G',) and k[1][1].startswith('small') else None)(q)


class Contribution(object):
    def __init__(self, lid, fn):
        self.lid, self.fn = lid, fn
        self.inc = {}        # obj -> field -> idx tuple -> Poly (increment)
        self.asg = {}        # same: assigned without reference to its previous value
        self.loc = {}


def involves(q, loc):
    for a in atoms_of(q):
        k = akey(a)
        if k[0] == 'v' and k[1] == loc:
            return True
    return False


def assigned_fields(f):
    """names of the fields f assigns directly"""
    out = set()
    for n in find(f.body, 'asg'):
        l = strip(n[3])
        while l and l[0] == 'idx':
            l = strip(l[2])
        if l and l[0] == 'mem':
            out.add(l[3].split('::')[-1])
    return out


def loop_functions(p, fields):
    """source functions with a loop that writes one of `fields`, itself or through a (non-virtual) helper it calls"""
    fs = [f for f in src_functions(p) if f.body is not None and not f.file.endswith('.hpp~')]
    W = {f.m for f in p.fns.values() if f.body is not None and assigned_fields(f) & set(fields)}
    out = []
    for f in sorted(fs, key=lambda f: (f.name, f.file, f.line)):
        hit = False
        for lp in find(f.body, 'for', 'while', 'do', 'rfor'):
            for n in find(lp, 'asg', 'call'):
                if n[0] == 'asg':
                    l = strip(n[3])
                    while l and l[0] == 'idx':
                        l = strip(l[2])
                    if l and l[0] == 'mem' and l[3].split('::')[-1] in fields:
                        hit = True
                elif not n[6] and n[3] in W:
                    hit = True
            if hit:
                break
        if hit:
            out.append(f)
    return out


def contributions(p, f, D=None, args=None, st=None, this=None, maxdepth=6, maxsteps=None, own=False):
    """own: only the loops written in f itself"""
    D = D or PairDom(p)
    limit(400)
    I = Interp(p, D, maxdepth=maxdepth)
    if maxsteps:
        I.maxsteps = maxsteps
    try:
        fl = I.run_root(f, args, st=st or State(g=ONE), this=this)
    finally:
        limit(6000)
    out = []
    for lid, fn, start, end in D.loopinfo:
        if end is None or own and fn.m != f.m:
            continue
        c = Contribution(lid, fn)
        for l, s in start.items():
            e = end.m.get(l)
            if e is None or e.d is None or s.d is None:
                continue
            if e.d == s.d:
                continue
            obj, fld, idx = lf(l)
            if fld is None:
                obj, fld, idx = l, None, ()
            skey = ('loop', lid, l)
            try:
                d = e.d - s.d
                acc = not involves(d, skey)
            except TooBig:
                continue
            if acc:
                c.inc.setdefault(obj, {}).setdefault(fld, {})[idx] = d
            elif not involves(e.d, skey):
                c.asg.setdefault(obj, {}).setdefault(fld, {})[idx] = e.d
            else:
                # conditional update: old value kept on some iterations
                try:
                    q = Subst(lambda k: ZERO if k[0] == 'v' and k[1] == skey else None)(e.d)
                except TooBig:
                    continue
                c.asg.setdefault(obj, {}).setdefault(fld, {})[idx] = q
        out.append(c)
    return out, D, fl


def field_syms(q, fld):
    """objects whose field `fld` occurs in q: obj -> {idx: atom key}"""
    out = {}
    for a in atoms_of(q):
        k = akey(a)
        if k[0] == 'v' and isinstance(k[1], tuple):
            try:
                o, f, i = lf(k[1])
            except Exception:
                continue
            if f == fld:
                out.setdefault(o, {})[i] = k
    return out


def vec(d, n):
    """components 0..n-1 of a field's contribution"""
    return [d.get((k,), ZERO) for k in range(n)]
