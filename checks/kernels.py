"""P02: the smoothing kernels' mathematical identities, decided on the normal form of each function."""
import math
import facts
from facts import find
from termdom import *
from absint import State
from util import strip

NAMES = ['w0', 'w1', 'womega', 'wzeta', 'wgrav', 'wpot', 'wdrag', 'w0_s2', 'womega_s2', 'wzeta_s2']


def value(p, f, args, st, this=('this', 'K')):
    D = Terms(p)
    I = Interp(p, D, maxdepth=8)
    st = st.copy()
    st.g = ONE
    fl = I.run_root(f, args, st=st, this=this)
    rv = None
    for s, v in reversed(fl.re):
        if v is None or v.d is None:
            continue
        rv = v.d if rv is None else D.join(s.g, v.d, rv, I)
    return rv


class Num(object):
    """numeric content of a normal form: coefficients of s^e * exp(-k s^2)"""
    @staticmethod
    def num(p, s0):
        r = 0.0
        for m, c in p.t.items():
            x = float(c)
            for a, e in m:
                x *= Num.atom(a, s0) ** float(e)
            r += x
        return r

    @staticmethod
    def atom(a, s0):
        k = akey(a)
        if k == ('v', 's'):
            return s0
        if k == ('c', 'pi'):
            return math.pi
        if k[0] == 'n':
            return float(k[1])
        if k[0] == 'p':
            return Num.num(terms._polyobj[k[1]], s0)
        if k[0] == 'f' and k[1] in ('exp', 'sqrt', 'log', 'erf', 'sin', 'cos'):
            return getattr(math, k[1])(Num.num(terms._polyobj[k[2]], s0))
        raise Unknown(showatom(a))


class Unknown(Exception):
    pass


def breakpoints(p):
    """values of s at which a condition in p changes (conditions linear in s)"""
    out = set()
    for a in atoms_of(p):
        k = akey(a)
        if k[0] == 'i':
            if k[1] not in ('pos', 'ipos', 'eq0') or not isinstance(k[2], int):
                raise Unknown(showatom(a))
            q = terms._polyobj[k[2]]
            c0 = c1 = Fr(0)
            for m, c in q.t.items():
                if m == ():
                    c0 = c
                elif len(m) == 1 and akey(m[0][0]) == ('v', 's') and m[0][1] == 1:
                    c1 = c
                else:
                    raise Unknown(showatom(a))
            if c1:
                out.add(-c0 / c1)
    return out


def piece(p, mid):
    """p on the interval around mid: every condition replaced by its truth there"""
    def f(k):
        if k[0] == 'i':
            q = terms._polyobj[k[2]]
            v = Fr(0)
            for m, c in q.t.items():
                v += c * (mid if m else 1)
            if k[1] == 'eq0':
                return ZERO
            return ONE if v > 0 else ZERO
        return None
    return Subst(f)(p)


def diff_s(p):
    return Deriv(lambda k: ONE if k == ('v', 's') else None)(p)


def close(a, b, scale, tol, lo, hi):
    """two normal forms agree as functions of s on the interval: equal, or equal to the written precision of their coefficients"""
    d = a - b
    if not d.t:
        return True
    # the difference's coefficients measured against the operands' coefficients, monomial by monomial
    sc = 0.0
    def mag(p):
        r = 0.0
        for m, c in p.t.items():
            x = abs(float(c))
            for at, e in m:
                if akey(at) == ('v', 's'):
                    x *= hi ** float(e) if e > 0 else lo ** float(e) if lo > 0 else 1.0
                else:
                    x *= abs(Num.atom(at, 0.5 * (lo + hi))) ** float(e)
            r = max(r, x)
        return r
    return mag(d) <= tol * max(mag(a), mag(b))


def integral(pieces, nd):
    """\\int C_nd s^(nd-1) f ds, f piecewise sums of c*s^n and c*s^n*exp(-s^2); closed forms"""
    C = {1: 2.0, 2: 2 * math.pi, 3: 4 * math.pi}[nd]
    tot = 0.0
    for (lo, hi, q) in pieces:
        for m, c in q.t.items():
            x = float(c)
            n = nd - 1
            gauss = False
            for a, e in m:
                k = akey(a)
                if k == ('v', 's'):
                    n += e
                elif k[0] == 'f' and k[1] == 'exp':
                    arg = terms._polyobj[k[2]]
                    if len(arg.t) == 1 and list(arg.t.items())[0] == (((atom(('v', 's')), Fr(2)),), Fr(-1)) and e == 1:
                        gauss = True
                    else:
                        raise Unknown(showatom(a))
                else:
                    x *= Num.atom(a, 0) ** float(e)
            n = float(n)
            if not gauss:
                if n <= -1:
                    raise Unknown('singular')
                tot += C * x * (hi ** (n + 1) - lo ** (n + 1)) / (n + 1)
            else:
                tot += C * x * gint(int(n), lo, hi)
    return tot


def gint(n, lo, hi):
    """integral of s^n exp(-s^2)"""
    if n == 0:
        return math.sqrt(math.pi) / 2 * (math.erf(hi) - math.erf(lo))
    if n == 1:
        return (math.exp(-lo * lo) - math.exp(-hi * hi)) / 2
    return ((lo ** (n - 1)) * math.exp(-lo * lo) - hi ** (n - 1) * math.exp(-hi * hi)) / 2 + (n - 1) / 2.0 * gint(n - 2, lo, hi)


def run(ctx):
    p = ctx.program()
    ctx.rule('Each kernel function is value-numbered to a piecewise algebraic normal form in s (constructor constants propagated per dimension); on every interval between its breakpoints the identities w1=dw0/ds, womega=-(D w0+s w1), wgrav=-dwpot/ds, wzeta=wpot-s wgrav, d(s^2 wgrav)/ds=4 pi s^2 w0 (3D), unit integral of w0 and wdrag, continuity, support and the squared-argument variants are compared coefficient by coefficient. A tabulated kernel must fill and look up, under each name, the function of that name.')
    base = 'SmoothingKernel'
    classes = sorted(c for c in p.derived(base) if c != 'TabulatedKernel')
    ctx.floor('kernel classes', len(classes), 3)
    for cls in classes:
        for nd in (1, 2, 3):
            one(ctx, p, cls, nd)
    tabulated(ctx, p)


def method(p, cls, name, nd):
    order = [cls] + sorted(p.bases(cls))
    for c in order:
        for f in p.named(c + '::' + name, nd):
            if f.ndim() == nd and f.body is not None:
                return f
    return None


def one(ctx, p, cls, nd):
    ctors = [f for f in p.named(cls + '::' + cls, nd) if f.ndim() == nd and f.h['kind'] == 'ctor' and f.params and '&' not in f.locals[f.params[0]][1]]
    if not ctors:
        ctx.broken('no constructor of %s<%d>' % (cls, nd))
    D = Terms(p)
    I = Interp(p, D, maxdepth=6)
    fl = I.run_root(ctors[0], st=State(g=ONE), this=('this', 'K'))
    st = I.joinall([s for s, v in fl.re] + ([fl.n] if fl.n else []))
    keep = State({k: v for k, v in st.m.items() if k[0] == 'this'}, {}, ONE)
    s = sym('s')
    W = {}
    for n in NAMES:
        f = method(p, cls, n, nd)
        if f is None:
            if n in ('wdrag',) or n.endswith('_s2'):
                continue
            ctx.broken('%s<%d>::%s not found' % (cls, nd, n))
        an = f.locals[f.params[0]][0]
        arg = s * s if n.endswith('_s2') else s
        # virtual calls inside base-class bodies resolve to this class: bind by inlining its own methods
        W[n] = (value_in(p, cls, nd, f, an, arg, keep), f)

    def fld(name):
        for k, v in keep.m.items():
            if k[-1][0] == '.' and k[-1][1].split('::')[-1] == name:
                return v.d
        return None
    lab = '%s<%d>' % (cls, nd)
    kr = fld('kernrange')
    if kr is None or kr.const() is None:
        ctx.broken('kernrange of %s is not a constant' % lab)
    R = kr.const()
    w0f = W['w0'][1]

    def verdict(ok, rule, f, text):
        if ok is None:
            ctx.count('undecided')
        elif ok:
            ctx.ok(rule, f.where(), lab + ': ' + text)
        else:
            ctx.bad(rule, f.where(), lab + '|' + text, '%s: %s does not hold' % (lab, text))
    for nm, want in (('invkernrange', 1 / R), ('kernrangesqd', R * R)):
        v = fld(nm)
        if v is not None and v.const() is not None:
            verdict(abs(float(v.const() - want)) < 1e-9, 'range-constants', ctors[0], '%s agrees with kernrange' % nm)
    try:
        bps = {Fr(0), R}
        for n, (v, f) in W.items():
            bps |= {b for b in breakpoints(v) if b > 0}
    except Unknown as e:
        ctx.count('undecided functions')
        return
    bps = sorted(bps)
    ivs = [(bps[i], bps[i + 1]) for i in range(len(bps) - 1)] + [(bps[-1], bps[-1] + 1)]
    pcs = {n: [(lo, hi, piece(v, (lo + hi) / 2)) for lo, hi in ivs] for n, (v, f) in W.items()}
    nog = all(not q.t for _, _, q in pcs['wgrav'])

    def ident(rule, text, fn, f, tol=1e-6, ivs_=ivs, only=None):
        for i, (lo, hi) in enumerate(ivs_):
            q = {n: pcs[n][i][2] for n in pcs}
            try:
                a, b = fn(q)
                ok = close(a, b, 1, tol, float(lo), float(hi))
            except Unknown:
                ok = None
            verdict(ok, rule, f, '%s on [%s,%s)' % (text, lo, hi))
    ident('derivative', 'w1 = dw0/ds', lambda q: (q['w1'], diff_s(q['w0'])), W['w1'][1])
    ident('grad-h', 'womega = -(D w0 + s w1)', lambda q: (q['womega'], -(nd * q['w0'] + s * diff_s(q['w0']))), W['womega'][1])
    # the factory does not distinguish dimensions, but self-gravity is three-dimensional
    if not nog:
        ident('potential', 'wgrav = -dwpot/ds', lambda q: (q['wgrav'], -diff_s(q['wpot'])), W['wgrav'][1])
        ident('grad-h-gravity', 'wzeta = wpot - s wgrav', lambda q: (q['wzeta'], q['wpot'] - s * q['wgrav']), W['wzeta'][1])
        if nd == 3:
            ident('poisson', 'd(s^2 wgrav)/ds = 4 pi s^2 w0', lambda q: (diff_s(s * s * q['wgrav']), 4 * PI * s * s * q['w0']), W['wgrav'][1], 2e-6)
    else:
        f = W['wgrav'][1]
        ctx.bad('potential', f.where(), cls + '|no gravity', '%s has no softened gravity: its gravity functions are identically zero' % cls)
    # outside the support
    for n in ('w0', 'w1', 'womega', 'wdrag'):
        if n in pcs:
            verdict(not pcs[n][-1][2].t, 'support', W[n][1], '%s vanishes beyond kernrange' % n)
    if not nog:
        for n, want in (('wgrav', s ** -2), ('wpot', s ** -1)):
            verdict(same(pcs[n][-1][2], want), 'newtonian', W[n][1], '%s is Newtonian beyond kernrange' % n)
    # continuity: polynomial pieces meet; a truncated kernel (exp) may jump at its edge by a small amount
    for n in ('w0',) if nog else ('w0', 'w1', 'womega', 'wgrav', 'wpot', 'wzeta'):
        for i in range(len(ivs) - 1):
            b = float(ivs[i][1])
            try:
                x, y = Num.num(pcs[n][i][2], b), Num.num(pcs[n][i + 1][2], b)
                sc = max(abs(Num.num(q, 0.5 * float(lo + hi))) for lo, hi, q in pcs[n]) or 1.0
                verdict(abs(x - y) <= 2e-3 * sc if nog else abs(x - y) <= 2e-6 * max(sc, abs(x)), 'continuity', W[n][1], '%s is continuous at s=%s' % (n, ivs[i][1]))
            except Unknown:
                verdict(None, '', W[n][1], '')
    for n in ('w0', 'wdrag'):
        if n in pcs:
            try:
                t = integral([(float(lo), float(hi), q) for lo, hi, q in pcs[n][:-1]], nd)
                verdict(abs(t - 1) < (8e-3 if nog else 1e-6), 'normalisation', W[n][1], '%s integrates to one' % n)
            except Unknown:
                verdict(None, '', W[n][1], '')
    for n in ('w0', 'womega', 'wzeta'):
        if n + '_s2' in W:
            verdict(same(W[n][0], W[n + '_s2'][0]), 'squared-argument', W[n + '_s2'][1], '%s_s2(s^2) = %s(s)' % (n, n))
    if 'wdrag' in pcs:
        kd = fld('kernnormdrag')
        for i, (lo, hi) in enumerate(ivs[:-1]):
            try:
                r = pcs['wdrag'][i][2]
                x = Num.num(r, float(lo + hi) / 2) / (Num.num(pcs['w0'][i][2], float(lo + hi) / 2) * float((lo + hi) / 2) ** 2)
                x0 = Num.num(r, float(lo * 3 + hi) / 4) / (Num.num(pcs['w0'][i][2], float(lo * 3 + hi) / 4) * float((lo * 3 + hi) / 4) ** 2)
                verdict(abs(x - x0) < 1e-6 * abs(x), 'drag', W['wdrag'][1], 'wdrag is proportional to s^2 w0 on [%s,%s)' % (lo, hi))
            except (Unknown, ZeroDivisionError):
                pass


def value_in(p, cls, nd, f, an, arg, keep):
    def pick(D, args, obj, node, I, st):
        return None

    class K(Interp):
        def pick(self, n):
            short = n[2].split('::')[-1]
            g = method(p, cls, short, nd)
            if g is not None and n[2].split('::')[0] in ('SmoothingKernel', cls):
                return [g]
            return Interp.pick(self, n)
    D = Terms(p)
    I = K(p, D, maxdepth=8)
    st = State(dict(keep.m), {}, ONE)
    fl = I.run_root(f, {an: V(arg, ty='double')}, st=st, this=('this', 'K'))
    rv = None
    for s, v in reversed(fl.re):
        if v is None or v.d is None:
            continue
        rv = v.d if rv is None else D.join(s.g, v.d, rv, I)
    return rv


def tabulated(ctx, p):
    """every look-up method reads the table that holds the function of the same name"""
    cls = 'TabulatedKernel'
    fns = [f for f in p.fns.values() if f.cls == cls and f.ndim() == 3]
    if not fns:
        ctx.broken('TabulatedKernel not found')
    fill = {}
    for f in fns:
        for c in find(f.body, 'call'):
            tab = [x for x in map(lambda a: strip(a), c[4]) if x and x[0] == 'mem' and x[3].startswith(cls + '::')]
            names = set()
            for a in c[4]:
                for r in find(a, 'fref'):
                    names.add(r[2].split('::')[-1])
            if len(tab) == 1 and len(names) == 1:
                sq = any(x for g in [p.fns.get(c[3])] if g for y in find(g.body, 'call') if y[2].split('::')[-1] == 'sqrt' for x in [1])
                fill.setdefault(tab[0][3], set()).add(names.pop() + ('_s2' if sq else ''))
    ctx.counts['tables filled'] = len(fill)
    look = 0
    for f in fns:
        n = f.name.split('::')[-1]
        if n not in NAMES:
            continue
        read = set()
        for m in find(f.body, 'mem'):
            if m[3] in fill:
                read.add(m[3])
        for t in read:
            look += 1
            if n in fill[t]:
                ctx.ok('table', f.where(), '%s reads the table of %s' % (n, n))
            else:
                ctx.bad('table', f.where(), n, 'TabulatedKernel::%s looks up a table filled with %s' % (n, '/'.join(sorted(fill[t]))))
    # copies: each table from the table of the same name, each constant from the same constant
    for f in fns:
        if f.h['kind'] != 'ctor':
            continue
        for a in find(f.body, 'asg'):
            l = strip(a[3])
            if l[0] == 'mem' and l[2][0] == 'this':
                src = [m for m in find(a[4], 'mem') if m[2][0] != 'this' and m[3].split('::')[0] in (cls, 'SmoothingKernel')]
                if len(src) == 1:
                    x, y = l[3].split('::')[-1], src[0][3].split('::')[-1]
                    if x in fill or x in ('kernrange', 'kernrangesqd', 'invkernrange', 'kernnorm', 'kernnormdrag') or (cls + '::' + x) in fill:
                        if x == y:
                            ctx.ok('copy', f.where(a[1]), x)
                        else:
                            ctx.bad('copy', f.where(a[1]), x, 'TabulatedKernel copies %s from %s' % (x, y))
    geometry(ctx, p, cls)


class Geo(Terms):
    """records what is stored where, and which kernel function a call through a member pointer names"""
    def fref(self, e):
        return sym(('fref', e[2]))

    def intrinsic(self, name, args, obj, node, I, st):
        if name == '?' and node[5] is not None and node[5][0] == 'bin' and len(args) == 1 and args[0].d is not None:
            r = I.ev(node[5][4], st)
            if r.d is not None:
                return V(fun('kernelfn', r.d, args[0].d), ty='double')
        if name == 'SmoothingKernel::KernelFactory':
            return V(None, None, None, ('addr', ('KER',)), 'SmoothingKernel *')
        return Terms.intrinsic(self, name, args, obj, node, I, st)

    def write(self, loc, v, node, I, st):
        if not I.quiet and v.d is not None:
            self.log.append((loc, v.d, I.fn, node[1]))
        return v.d


def geometry(ctx, p, cls):
    """entry i of a table holds the function at the argument whose look-up index is i"""
    nd = 3
    ctors = [f for f in p.named(cls + '::' + cls, nd) if f.ndim() == nd and len(f.params) == 2]
    if not ctors:
        ctx.broken('TabulatedKernel constructor not found')
    D = Geo(p)
    D.log = []
    I = Interp(p, D, maxdepth=6, inline=lambda g, n: g.cls in (cls, 'SmoothingKernel'))
    fl = I.run_root(ctors[0], st=State(g=ONE), this=('this', 'K'))
    st = I.joinall([s for s, v in fl.re] + ([fl.n] if fl.n else []))
    fields = {k[-1][1].split('::')[-1]: v for k, v in st.m.items() if k[0] == 'this' and len(k) == 3 and k[-1][0] == '.'}
    tabs = {v.ptr: n for n, v in fields.items() if v.ptr is not None}
    byloc = {}
    for ptr, n in tabs.items():
        byloc[ptr[1]] = n
    R, res = sym(('KER', ('.', 'SmoothingKernel::kernrange'))), None
    entries = {}
    for loc, d, fn, line in D.log:
        if len(loc) > 1 and loc[:-1] in byloc and isinstance(loc[-1], tuple) and loc[-1][0] == '[' and isinstance(loc[-1][1], tuple) and len(d.t) == 1:
            (m, c), = d.t.items()
            if len(m) == 1 and c == 1 and m[0][1] == 1 and akey(m[0][0])[0] == 'f' and akey(m[0][0])[1] == 'kernelfn':
                k = akey(m[0][0])
                entries[byloc[loc[:-1]]] = (terms._polyobj[k[2]], terms._polyobj[k[3]], terms._polyobj[loc[-1][1][1]], fn, line)
    keep = State({k: v for k, v in st.m.items() if k[0] in ('this', 'KER')}, {}, ONE)
    known = {('KER', ('.', 'SmoothingKernel::kernrangesqd')): R * R, ('KER', ('.', 'SmoothingKernel::invkernrange')): 1 / R}
    sub = Subst(lambda k: known.get(k[1]) if k[0] == 'v' else None)
    done = 0
    for n in NAMES:
        fs = [f for f in p.named(cls + '::' + n, nd) if f.ndim() == nd]
        if not fs:
            continue
        f = fs[0]
        D2 = Geo(p)
        D2.log = []
        I2 = Interp(p, D2, maxdepth=6, inline=lambda g, x: g.cls in (cls, 'SmoothingKernel'))
        s = sym('s')
        fl = I2.run_root(f, {f.locals[f.params[0]][0]: V(s, ty='double')}, st=keep.copy(), this=('this', 'K'))
        rv = None
        for st2, v in reversed(fl.re):
            rv = v.d if rv is None else D2.join(st2.g, v.d, rv, I2)
        # table reads in the value
        for a in atoms_of(rv):
            k = akey(a)
            if k[0] == 'v' and isinstance(k[1], tuple) and k[1][:-1] in byloc and isinstance(k[1][-1][1], tuple):
                tab = byloc[k[1][:-1]]
                idx = terms._polyobj[k[1][-1][1][1]]
                if tab not in entries:
                    continue
                fname, arg, i, ff, line = entries[tab]
                # s for entry i:  s = arg (or arg^2 for the squared tables)
                q = None
                if len(idx.t) == 1:
                    (m, c), = idx.t.items()
                    if len(m) == 1 and akey(m[0][0])[0] == 'f' and akey(m[0][0])[1] == 'int':
                        q = terms._polyobj[akey(m[0][0])[2]]
                if q is None:
                    ctx.count('undecided')
                    continue
                sval = arg * arg if n.endswith('_s2') else arg
                got = sub(Subst(lambda kk: sval if kk == ('v', 's') else None)(q))
                done += 1
                if same(got, sub(i)) is False:
                    ctx.bad('table-geometry', ff.where(line), n, '%s: entry i is filled with the function at %s, which is looked up at index %s' % (n, show(arg), show(got)))
                else:
                    ctx.ok('table-geometry', f.where(), '%s: look-up index of entry i is i' % n)
                want = {'fref': None}
                nm = [akey(x)[1][1].split('::')[-1] for x in atoms_of(fname) if akey(x)[0] == 'v' and isinstance(akey(x)[1], tuple) and akey(x)[1][0] == 'fref']
                if nm and nm[0] != n.replace('_s2', ''):
                    ctx.bad('table', ff.where(line), n, 'TabulatedKernel::%s looks up a table filled with %s' % (n, nm[0]))
                rest = piece_out(rv, R, n)
                if rest is not None:
                    want = {'wgrav': s ** -2, 'wpot': s ** -1}.get(n, ZERO)
                    if same(rest, want) is False:
                        ctx.bad('table-outside', f.where(), n, 'TabulatedKernel::%s returns %s beyond the kernel range (%s expected)' % (n, show(rest), show(want)))
                    else:
                        ctx.ok('table-outside', f.where(), n)
    ctx.floor('tables whose geometry was decided', done, 6)


def piece_out(rv, R, n):
    """the value beyond the range: the single range condition set accordingly"""
    inds = [a for a in atoms_of(rv) if akey(a)[0] == 'i']
    if len(inds) != 1 or akey(inds[0])[1] != 'pos':
        return None
    q = terms._polyobj[akey(inds[0])[2]]
    cs = [c for m, c in q.t.items() if m == ((atom(('v', 's')), Fr(1)),)]
    if len(cs) != 1:
        return None
    return Subst(lambda k: (ONE if cs[0] > 0 else ZERO) if k == akey(inds[0]) else None)(rv)
