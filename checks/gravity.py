"""P04: gravitational force is the gradient of the reported potential; jerks are time derivatives."""
from fractions import Fraction as Fr
import facts
from facts import find
from pairs import *
from util import *

ND = 3


FIELDS = {'gpot', 'a2dot', 'a3dot', 'atree'}


def run(ctx):
    p = ctx.program()
    ctx.rule('Every loop that adds gravity to an object is value-numbered once with a symbolic neighbour: the acceleration it adds must be the gradient of the potential it adds with respect to the object\'s own position (kernel factors differentiated by the kernel identities of P02, conditions and grad-h terms held fixed), the jerk the time derivative of that acceleration, the second and third derivatives those of m d/|d|^3; contributions must be accumulated, not overwritten; cell multipole fields must be harmonic and their Taylor expansions consistent.')
    n = 0
    seen = set()
    for f in loop_functions(p, FIELDS):
        try:
            cs, D, fl = contributions(p, f, maxdepth=3, maxsteps=6000, own=True)
        except (TooBig, Giveup, RecursionError):
            ctx.count('functions too large to value-number')
            continue
        for c in cs:
            n += pair(ctx, p, f, c, seen)
    ctx.floor('loops adding a gravitational force', n, 10)
    cells(ctx, p)
    external(ctx, p)


def obj_name(o):
    return show(sym(o + (('.', 'x'),)))[:-2]


def partner(q, obj):
    """the other object of the pair: has a mass or position in q, is not obj"""
    c = {}
    for fld in ('m', 'r'):
        for o in field_syms(q, fld):
            if o != obj:
                c[o] = c.get(o, 0) + 1
    return sorted(c, key=lambda o: -c[o])


def shift(obj, j, n=ND, vel=True):
    """substitution writing obj's position as r_j - d, velocity as v_j - w, acceleration as a_j - e, jerk as a'_j - g"""
    names = {'r': 'd', 'v': 'w', 'a': 'e', 'adot': 'g'}

    def f(k):
        if k[0] != 'v' or not isinstance(k[1], tuple):
            return None
        l = k[1]
        if l[0] == 'loop':
            l = l[2]
        o, fl, ix = lf(l)
        if o == obj and fl in names and len(ix) == 1 and isinstance(ix[0], int):
            return sym(('rel', names[fl], ix[0])) * -1 + sym(('other', names[fl], ix[0]))
        if o == j and fl in names and len(ix) == 1 and isinstance(ix[0], int):
            return sym(('other', names[fl], ix[0]))
        return None
    return Subst(f)


def rel(n, k):
    return sym(('rel', n, k))


def ddk(k):
    return Deriv(lambda a: ONE if a == ('v', ('rel', 'd', k)) else None, kd)


NEXT = {'d': 'w', 'w': 'e', 'e': 'g'}


def ddt(a):
    if a[0] == 'v' and isinstance(a[1], tuple) and a[1][0] == 'rel' and a[1][1] in NEXT:
        return rel(NEXT[a[1][1]], a[1][2])
    if a[0] == 'v' and isinstance(a[1], tuple) and a[1][0] == 'other' and a[1][1] in NEXT:
        return sym(('other', NEXT[a[1][1]], a[1][2]))
    return None


DDT = Deriv(ddt, kd)


def drop_zeta(q):
    return Subst(lambda k: ZERO if k[0] == 'v' and isinstance(k[1], tuple) and len(k[1]) > 1 and lf(k[1])[1] == 'zeta' else None)(q)


def generic(q):
    """conditions are held fixed: a comparison of indices or flags contributes a constant factor"""
    return q


def pair(ctx, p, f, c, seen):
    n = 0
    where = c.fn.where(c.lid[1])
    for obj, flds in sorted(c.inc.items(), key=str):
        acc = [x for x in ('atree', 'a') if x in flds]
        key = c.fn.name
        try:
            if 'gpot' in flds and acc:
                # the field that follows the potential: atree when both exist
                af = 'atree' if 'atree' in flds else 'a'
                pot = flds['gpot'].get((), ZERO)
                js = partner(pot, obj)
                if len(js) < 1:
                    continue
                S = shift(obj, js[0])
                pot = S(pot)
                av = [drop_zeta(S(x)) for x in vec(flds[af], ND)]
                if any(isinstance(k, tuple) and not isinstance(k[0], int) for k in flds[af]):
                    ctx.count('undecided')
                    continue
                n += 1
                for k in range(ND):
                    r = same2(av[k], -ddk(k)(pot))
                    verdict(ctx, r, 'gradient', where, key, '%s adds an acceleration %s that is the gradient of the potential it adds' % (key, 'xyz'[k]))
                if 'adot' in flds:
                    for k in range(ND):
                        if any(akey(a)[0] == 'f' and str(akey(a)[1]).startswith('ewald') for a in atoms_of(av[k])):
                            pass
                        want = DDT(noewald(av[k]))
                        r = same2(S(flds['adot'].get((k,), ZERO)), want)
                        verdict(ctx, r, 'jerk', where, key, '%s adds a jerk %s that is the time derivative of the acceleration it adds' % (key, 'xyz'[k]))
        except TooBig:
            ctx.count('undecided')
    # higher derivatives of the Newtonian pair force
    for store, accum in ((c.inc, True), (c.asg, False)):
        for obj, flds in sorted(store.items(), key=str):
            for fld, order in (('a2dot', 2), ('a3dot', 3)):
                if fld not in flds:
                    continue
                vals = [flds[fld].get((k,)) for k in range(ND)]
                if any(v is None for v in vals):
                    continue
                js = [o for o in partner(vals[0], obj)]
                if not js or not field_syms(vals[0], 'm'):
                    continue
                if not higher(ctx, where, c.fn.name, obj, js[0], vals, fld, order, accum):
                    continue
                n += 1
    return n


def noewald(q):
    def ff(name, args):
        return ZERO if str(name).startswith('ewald') else None
    return Subst(lambda k: None, ff)(q)


def higher(ctx, where, key, obj, j, vals, fld, order, accum):
    try:
        S = shift(obj, j)
        q = [S(v) for v in vals]
        m = list(field_syms(q[0], 'm').items())
        if len(m) != 1:
            ctx.count('undecided')
            return False
        M = A(list(m[0][1].values())[0])
        q = [zero_small(x) for x in q]
        dd = ZERO
        for k in range(ND):
            dd = dd + rel('d', k) * rel('d', k)
        ok = False
        g = guard_factor(q[0])
        for k in range(ND):
            ref = M * rel('d', k) * dd ** Fr(-3, 2)
            for _ in range(order):
                ref = DDT(ref)
            r = same(q[k], ref) if g is None else same(q[k], ref * g)
            ok = True
            verdict(ctx, r, 'jerk', where, key + '|' + fld, '%s: %s component %s is time derivative %d of the Newtonian pair acceleration' % (key, fld, 'xyz'[k], order))
        if not accum:
            ctx.bad('accumulate', where, key + '|' + fld, '%s overwrites %s with the contribution of one partner instead of summing over all partners' % (key, fld))
        else:
            ctx.ok('accumulate', where, fld)
        return ok
    except TooBig:
        ctx.count('undecided')
        return False


def guard_factor(q):
    """the condition (e.g. i != j) every term carries, when there is one"""
    ind = [a for a in atoms_of(q, deep=False) if akey(a)[0] == 'i']
    if not ind:
        return None
    if len(ind) == 1:
        a = ind[0]
        with_ = sum(1 for m in q.t if any(x == a for x, e in m))
        g = A(akey(a))
        return g if with_ == len(q.t) else ONE - g
    return None


def same2(a, b):
    """equal, up to the tiny constants that only guard against division by zero"""
    r = same(a, b)
    return same(zero_small(a), zero_small(b)) if r is False else r


def verdict(ctx, r, rule, where, key, text):
    if r is None:
        ctx.count('undecided')
    elif r:
        ctx.ok(rule, where, text)
    else:
        ctx.bad(rule, where, key, text + ': does not hold')


# ---- tree cells ------------------------------------------------------------------------------------
def cells(ctx, p):
    n = 0
    for name, quad in (('ComputeCellMonopoleForces', False), ('ComputeCellQuadrupoleForces', True)):
        for nd in (1, 2, 3):
            for f in p.named(name):
                if [x for x in f.h['ft'] if x.isdigit()][:1] != [str(nd)]:
                    continue
                r = cell_loop(p, f, nd)
                if r is None:
                    ctx.count('undecided')
                    continue
                pot, acc, rp = r
                n += 1
                for k in range(nd):
                    d = Deriv(lambda a: ONE if a == rp[k] else None)
                    verdict(ctx, same(acc[k], d(pot)), 'gradient', f.where(), '%s|%d' % (name, nd), '%s (%dD): acceleration %s is the gradient of the potential' % (name, nd, 'xyz'[k]))
                if nd == 3:
                    lap = ZERO
                    z = zero_small(pot)
                    for k in range(nd):
                        d = Deriv(lambda a: ONE if a == rp[k] else None)
                        lap = lap + d(d(z))
                    verdict(ctx, same(lap, ZERO), 'harmonic', f.where(), '%s|%d' % (name, nd), '%s: the potential is harmonic away from the cell' % name)
                shape(ctx, f, name, nd, pot, rp, quad)
                break
    # fast multipoles: field of the cells at rc, expanded to r
    for c in ('AddMonopoleContribution', 'AddQuadrupoleContribution'):
        for nd in (1, 2, 3):
            fs = [f for f in p.named('FastMultipoleForces::' + c) if f.h['ct'] == [str(nd)]]
            gs = [f for f in p.named('FastMultipoleForces::ApplyForcesTaylor') if f.h['ct'] == [str(nd)]]
            if fs and gs:
                n += fast(ctx, p, fs[0], gs[0], nd, c)
    ctx.floor('cell force functions', n, 4)


def cell_loop(p, f, nd):
    cs, D, fl = contributions(p, f)
    names = [f.locals[i] for i in f.params]
    refs = [x[0] for x in names if x[1].endswith('&') and 'double' in x[1]]
    ptrs = [x[0] for x in names if x[1].replace('const ', '').strip() in ('double *',)]
    for c in cs:
        pots = [o for o in c.inc if o[0] == 'P' and o[1] in refs and () in c.inc[o].get(None, {})]
        accs = {}
        for o, d in c.inc.items():
            if o[0] == 'P' and len(o) == 3 and o[1] in ptrs and o[2][0] == '[':
                accs.setdefault(o[1], {})[o[2][1]] = d[None][()]
        if len(pots) == 1 and len(accs) == 1:
            a, comp = list(accs.items())[0]
            pot = c.inc[pots[0]][None][()]
            rp = None
            for q in ptrs:
                if q != a and any(akey(x) == ('v', ('P', q, ('[', 0))) for x in atoms_of(pot)):
                    rp = [('v', ('P', q, ('[', k))) for k in range(nd)]
            if rp:
                return pot, [comp.get(k, ZERO) for k in range(nd)], rp
    return None


def shape(ctx, f, name, nd, pot, rp, quad):
    """monopole part m/|rp - R|, quadrupole part linear in q"""
    z = zero_small(pot)
    q0 = Subst(lambda k: ZERO if k[0] == 'v' and isinstance(k[1], tuple) and len(k[1]) > 1 and lf(k[1])[1] == 'q' else None)(z)
    ms = field_syms(z, 'm')
    rs = {o: d for o, d in field_syms(z, 'r').items()}
    if len(ms) != 1 or not rs:
        ctx.count('undecided')
        return
    o = list(ms)[0]
    R = rs.get(o)
    if R is None or len(R) < nd:
        ctx.count('undecided')
        return
    dd = ZERO
    for k in range(nd):
        dd = dd + (A(R[(k,)]) - A(rp[k])) ** 2
    r = same(q0, A(list(ms[o].values())[0]) * dd ** Fr(-1, 2))
    if r is False and nd == 1:      # |x| and x have the same normal form
        r = same(q0 * q0, A(list(ms[o].values())[0]) ** 2 * dd ** -1)
    verdict(ctx, r, 'monopole', f.where(), '%s|%d' % (name, nd), '%s (%dD): the monopole potential is m/|r-R|' % (name, nd))


def fast(ctx, p, f, g, nd, c):
    D = PairDom(p)
    I = Interp(p, D, maxdepth=6)
    this = ('this', 'FM')
    fl = I.run_root(f, st=State(g=ONE), this=this)
    end = fl.n or (fl.re[-1][0] if fl.re else None)
    if end is None:
        return 0
    F = {}
    for l, v in end.m.items():
        if l[:2] == this and v.d is not None:
            F[l] = v.d - sym(l)
    D2 = PairDom(p)
    I2 = Interp(p, D2, maxdepth=6)
    fl2 = I2.run_root(g, st=State(g=ONE), this=this)
    e2 = fl2.n or (fl2.re[-1][0] if fl2.re else None)
    if e2 is None:
        return 0
    names = [g.locals[i] for i in g.params]
    outs = {}
    for l, v in e2.m.items():
        if l[0] == 'P' and v.d is not None:
            outs[l] = v.d - sym(l)
    pl = [l for l in outs if len(l) == 2]
    al = {l[2][1]: l for l in outs if len(l) == 3 and l[2][0] == '['}
    if len(pl) != 1 or len(al) != nd:
        ctx.count('undecided')
        return 0
    a0 = al[0][1]
    rname = [x[0] for x in names if x[0] != a0 and '*' in x[1] or x[0] != a0 and ']' in x[1]]
    rk = [('v', ('P', rname[0], ('[', k))) for k in range(nd)] if rname else None
    # expansion centre: the field of this whose difference with r enters
    S = Subst(lambda k: F.get(k[1]) if k[0] == 'v' and isinstance(k[1], tuple) and k[1] in F else None)
    pot = S(outs[pl[0]])
    acc = [S(outs[al[k]]) for k in range(nd)]
    cen = field_syms(pot, 'rc').get(this) or {}
    if len(cen) != nd or rk is None:
        # centre under another name: the object's own vector that is not changed by the contribution
        cand = {}
        for a in atoms_of(pot):
            k = akey(a)
            if k[0] == 'v' and isinstance(k[1], tuple) and k[1][:2] == this and k[1] not in F:
                cand.setdefault(k[1][2], {})[(k[1][3][1],) if len(k[1]) > 3 else ()] = k
        cand = [d for d in cand.values() if len(d) == nd]
        if len(cand) != 1 or rk is None:
            ctx.count('undecided')
            return 0
        cen = cand[0]
    rc = [cen[(k,)] for k in range(nd)]
    at = Subst(lambda k: A(rc[rk.index(k)]) if k in rk else None)
    phi = at(pot)
    key = '%s|%d' % (c, nd)
    for k in range(nd):
        dk = Deriv(lambda a: ONE if a == rc[k] else None)
        gk = dk(phi)
        verdict(ctx, same(zero_small(at(acc[k])), zero_small(gk)), 'taylor', f.where(), key, 'FastMultipoleForces::%s (%dD): force %s at the centre is the gradient of the potential' % (c, nd, 'xyz'[k]))
        dr = Deriv(lambda a: ONE if a == rk[k] else None)
        verdict(ctx, same(zero_small(at(dr(pot))), zero_small(gk)), 'taylor', f.where(), key, 'FastMultipoleForces::%s (%dD): potential slope %s' % (c, nd, 'xyz'[k]))
        for l in range(nd):
            dl = Deriv(lambda a: ONE if a == rk[l] else None)
            dlc = Deriv(lambda a: ONE if a == rc[l] else None)
            verdict(ctx, same(zero_small(at(dl(acc[k]))), zero_small(dlc(gk))), 'taylor', f.where(), key, 'FastMultipoleForces::%s (%dD): tidal term %s%s' % (c, nd, 'xyz'[k], 'xyz'[l]))
    if nd == 3:
        z = zero_small(phi)
        lap = ZERO
        for k in range(nd):
            dk = Deriv(lambda a: ONE if a == rc[k] else None)
            lap = lap + dk(dk(z))
        verdict(ctx, same(lap, ZERO), 'harmonic', f.where(), key, 'FastMultipoleForces::%s: the potential is harmonic' % c)
    shape(ctx, f, 'FastMultipoleForces::' + c, nd, phi, rc, 'Quad' in c)
    return 1


# ---- external potentials ---------------------------------------------------------------------------
def external(ctx, p):
    n = 0
    for f in sorted(p.fns.values(), key=lambda f: f.name):
        if not f.name.endswith('::AddExternalPotential') or f.h['ct'][:1] != ['3'] or f.body is None:
            continue
        D = PairDom(p)
        I = Interp(p, D, maxdepth=6)
        this = ('this', 'X')
        fl = I.run_root(f, st=State(g=ONE), this=this)
        end = fl.n or (fl.re[-1][0] if fl.re else None)
        if end is None:
            continue
        nm = [f.locals[i][0] for i in f.params]
        if len(nm) != 5:
            continue
        rp, vp, ap, jp, pp = nm
        inc = {}
        sidx = None
        for l, v in end.m.items():
            if l[0] == 'P' and l[1] in nm and v.d is not None:
                inc[l] = v.d - sym(l)
        if not inc:
            continue
        n += 1
        pot = inc.get(('P', pp), ZERO)
        idx = sorted({l[2] for l in inc if len(l) == 3}, key=str)
        comps = [('[', k) for k in range(3)]
        if any(i not in comps for i in idx):
            comps = idx
        cls = f.cls.split('::')[-1]
        for ck in comps:
            d = Deriv(lambda a: ONE if a == ('v', ('P', rp, ck)) else None)
            a = inc.get(('P', ap, ck), ZERO)
            g = d(pot)
            r = same(a, g)
            if r is False:
                r = same(2 * a, g)
            verdict(ctx, r, 'external', f.where(), cls + '|acc', '%s: acceleration is the gradient of the potential (or half of it)' % cls)
            dt = Deriv(lambda a: sym(('P', vp, a[1][2])) if a[0] == 'v' and isinstance(a[1], tuple) and a[1][:2] == ('P', rp) else None)
            verdict(ctx, same(inc.get(('P', jp, ck), ZERO), dt(a)), 'external', f.where(), cls + '|jerk', '%s: jerk is the time derivative of the acceleration' % cls)
    ctx.floor('external potentials', n, 1)


# ---- kinds of objects ------------------------------------------------------------------------------
KINDS = (('star', ('Nbody', 'Star', 'System')),)


def obj_root_kind(p, f, obj):
    """'star' or 'gas': from the declared type of what the location is rooted in"""
    ty = ''
    if obj[0] in ('P', 'L'):
        nm = obj[1] if obj[0] == 'P' else None
        for l in f.locals:
            if l[0] == nm:
                ty = l[1]
    for x in obj:
        if isinstance(x, tuple) and x and x[0] == '.':
            ty = (p.field_type(x[1]) or x[1]) + ' ' + x[1]
    for k, keys in KINDS:
        if any(s in ty for s in keys):
            return k
    return 'gas'
