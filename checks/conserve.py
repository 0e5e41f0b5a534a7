"""P05: pair exchanges conserve momentum, mass and energy."""
from fractions import Fraction as Fr
from facts import find
from pairs import *
from util import *
from gravity import verdict, same2, obj_root_kind, KINDS

import terms
from par import pmap

ND = 3
FIELDS = {'a', 'atree', 'dQ', 'dQdt', 'dudt'}
EOSMAP = {'Pressure': 'pressure', 'SoundSpeed': 'sound'}


def short(p):
    return ('.', p[1].split('::')[-1]) if p[0] == '.' else p


class Rename(object):
    """objects of a pair renamed to 'i' and 'j'; positions and velocities written with the separation d and the relative velocity w"""

    def __init__(self, oi, oj, swap=False):
        self.m = {oi: 'j' if swap else 'i', oj: 'i' if swap else 'j'}
        self.s = Subst(self.f, self.ff)

    def tag(self, loc):
        for o, t in self.m.items():
            if loc[:len(o)] == o:
                return t, tuple(short(x) for x in loc[len(o):])
        return None, None

    def f(self, k):
        if k[0] != 'v' or not isinstance(k[1], tuple):
            return None
        l = k[1]
        if l[0] == 'loop':
            l = l[2]
            if not isinstance(l, tuple):
                return None
        t, rest = self.tag(l)
        if t is None:
            return None
        if len(rest) == 2 and rest[0][0] == '.' and rest[0][1] in ('r', 'v') and rest[1][0] == '[' and isinstance(rest[1][1], int):
            n = 'd' if rest[0][1] == 'r' else 'w'
            o = sym(('org', n, rest[1][1]))
            return o if t == 'j' else o - sym(('rel', n, rest[1][1]))
        return sym(('pr', t) + rest)

    def ff(self, name, args):
        if isinstance(name, str) and name.startswith('eos.') and len(args) == 1 and isinstance(args[0], tuple):
            t, rest = self.tag(args[0][1])
            if t is not None and not rest:
                n = name[4:]
                return sym(('pr', t, ('.', EOSMAP.get(n, n))))
        return None

    def __call__(self, q):
        return self.s(q)


def ideal(k):
    """P = (gamma - 1) rho u (the base class of the equations of state)"""
    if k[0] != 'v' or not isinstance(k[1], tuple):
        return None
    l = k[1]
    g = sym('gamma-1')
    if l[0] == 'pr' and len(l) == 3 and l[2] == ('.', 'pressure'):
        return g * sym(l[:2] + (('.', 'rho'),)) * sym(l[:2] + (('.', 'u'),))
    if l[-1] == ('.', 'EOS::gamma'):
        return ONE + g
    if l[-1] == ('.', 'EOS::gammam1'):
        return g
    return None


IDEAL = Subst(ideal)

SW = {'i': 'j', 'j': 'i'}


def swapf(k):
    if k[0] == 'v' and isinstance(k[1], tuple):
        l = k[1]
        if l[0] == 'pr':
            return sym(('pr', SW[l[1]]) + l[2:])
        if l[0] == 'rel':
            return -sym(l)
        if l[0] == 'org':
            return sym(l) - sym(('rel',) + l[1:])
    return None


def oddeven(name, args):
    """Ewald forces are odd and the Ewald potential even in the separation"""
    if isinstance(name, str) and name.startswith('ewald') and args and isinstance(args[0], Poly) and args[0].t:
        if args[0].t[min(args[0].t)] < 0:
            r = fun(name, *[-x for x in args])
            return r if name == 'ewaldpot' else -r
    return None


SWAP = Subst(swapf, oddeven)


def mass(t):
    return sym(('pr', t, ('.', 'm')))


def run(ctx):
    p = ctx.program()
    ctx.rule('The per-iteration increments of every loop over pairs are put in a normal form in which the two partners are named i and j: what the loop adds to both, or adds to one and (by exchanging i and j) will add to the other when it is visited from the other side, must cancel: mass times acceleration, conserved fluxes, and the work of the pair force against the internal energies.')
    fs = [f for f in loop_functions(p, FIELDS) if not f.name.split('::')[0].endswith('Ic')]
    fs.sort(key=lambda f: -len(str(f.body)))
    n = sum(x or 0 for x in pmap(ctx, fs, lambda c, f: one(c, p, f)))
    ctx.floor('pair exchanges decided', n, 8)


def polyof(i):
    return terms._polyobj[i]


def K(n):
    return ONE * n


def accumulates(f):
    for n in find(f.body, 'asg'):
        l = strip(n[3])
        while l and l[0] == 'idx':
            l = strip(l[2])
        if not l or l[0] != 'mem' or l[3].split('::')[-1] not in FIELDS:
            continue
        if n[2] in ('+=', '-=') or any(m[3] == l[3] for m in find(n[4], 'mem')):
            return True
    return False


def one(ctx, p, f):
    n = 0
    for depth, steps in ((4, 8000), (1, 60000)):
        if depth == 1 and not accumulates(f):
            continue
        try:
            cs, D, fl = contributions(p, f, maxdepth=depth, maxsteps=steps, own=True)
        except (TooBig, Giveup, RecursionError):
            continue
        for c in cs:
            n += exchange(ctx, p, f, c, fl)
        return n
    ctx.count('functions too large to value-number')
    return 0


def same_kind(p, f, a, b):
    return obj_root_kind(p, f, a) == obj_root_kind(p, f, b)


def partners(q, obj):
    return [o for o in field_syms(q, 'm') if o != obj and o[:len(obj)] != obj]


def exchange(ctx, p, f, c, fl):
    n = 0
    where = c.fn.where(c.lid[1])
    key = f.name
    for obj, flds in sorted(c.inc.items(), key=str):
        # fluxes: what one gains the other loses
        for fld in ('dQ', 'dQdt'):
            if fld not in flds:
                continue
            oth = [o for o in c.inc if o != obj and fld in c.inc[o]]
            if len(oth) != 1 or str(oth[0]) < str(obj):
                continue
            for ix in sorted(set(flds[fld]) | set(c.inc[oth[0]][fld]), key=str):
                n += 1
                verdict(ctx, same2(flds[fld].get(ix, ZERO), -c.inc[oth[0]][fld].get(ix, ZERO)), 'flux', where, '%s|%s' % (key, fld),
                        '%s: %s%s taken from one particle is given to the other' % (key, fld, list(ix)))
        for fld in ('a', 'atree', 'adot'):
            if fld not in flds:
                continue
            js = partners(flds[fld].get((0,), ZERO), obj)
            if len(js) != 1:
                continue
            j = js[0]
            try:
                n += momentum(ctx, p, f, c, fl, obj, j, fld, where)
            except TooBig:
                ctx.count('undecided')
    return n


def momentum(ctx, p, f, c, fl, obj, j, fld, where):
    key = f.name
    R = Rename(obj, j)
    inc = [R(x) for x in vec(c.inc[obj][fld], ND)]
    two = fld in c.inc.get(j, {})
    if two:
        react = [R(x) for x in vec(c.inc[j][fld], ND)]
    elif reactions(c, obj, fld == 'adot'):
        for name, rv in reactions(c, obj, fld == 'adot'):
            for k in range(ND):
                verdict(ctx, same2(mass('i') * inc[k], -mass('j') * R(rv[k])), 'reaction', where, '%s|%s' % (key, name),
                        '%s: what a star receives from a partner (%s), the partner receives from the star (array %s)' % (key, 'xyz'[k], name))
        return 1
    elif fld != 'adot' and same_kind(p, f, obj, j):
        react = [SWAP(x) for x in inc]
    else:
        return 0
    mi, mj = mass('i'), mass('j')
    for k in range(ND):
        verdict(ctx, same2(mi * inc[k], -mj * react[k]), 'momentum', where, '%s|%s' % (key, fld),
                '%s: the %s forces (%s) of a pair are equal and opposite' % (key, 'xyz'[k], fld))
    if fld == 'a' and 'dudt' in c.inc[obj]:
        du = R(total(c, fl, obj, 'dudt'))
        if two:
            dr = R(total(c, fl, j, 'dudt')) if 'dudt' in c.inc[j] else None
        else:
            dr = SWAP(du)
        if dr is not None:
            work = ZERO
            for k in range(ND):
                work = work + mi * inc[k] * sym(('rel', 'w', k))
            e = same2(mi * du + mj * dr, work)
            if e is False:
                e = same2(IDEAL(mi * du + mj * dr), IDEAL(work))
            verdict(ctx, e, 'energy', where, key,
                    '%s: the internal energy of a pair gains the work its forces take from the motion' % key)
    return 1


def reactions(c, obj, vel=False):
    """flat arrays a[3*j+k] that the same iteration increments in proportion to the mass of `obj`"""
    g = {}
    for l, d in c.inc.items():
        if None not in d or l[-1][0] != '[' or len(d[None]) != 1 or () not in d[None]:
            continue
        ix = l[-1][1]
        q = K(ix) if isinstance(ix, int) else polyof(ix[1])
        k0 = q.t.get((), 0)
        g.setdefault((l[:-1], (q - K(k0)).id), {})[k0] = d[None][()]
    out = []
    for (base, _), v in sorted(g.items(), key=str):
        ks = sorted(v)
        if len(ks) != ND or ks[-1] - ks[0] != ND - 1:
            continue
        if all(obj in field_syms(v[k], 'm') and bool(field_syms(v[k], 'v')) == vel for k in ks):
            out.append((str(base[1]) if base[0] == 'P' else str(base[-1]), [v[k] for k in ks]))
    return out


def total(c, fl, obj, fld):
    """what one iteration adds to the field at the end of the function: through every sum of the loop it depends on"""
    q = c.inc[obj][fld].get((), ZERO)
    st = fl.n or (fl.re[-1][0] if fl.re else None)
    if st is None:
        return q
    fin = None
    for l, v in st.m.items():
        o, f2, ix = lf(l)
        if o == obj and f2 == fld and not ix and v.d is not None:
            fin = v.d
    if fin is None:
        return q
    keys = [k for k in (akey(a) for a in atoms_of(fin)) if k[0] == 'v' and isinstance(k[1], tuple) and k[1][:2] == ('after', c.lid)]
    r = ZERO
    for k in keys:
        o, f2, ix = lf(k[1][2])
        d = Deriv(lambda a, k=k: ONE if a == k else None)(fin)
        if o in c.inc and f2 in c.inc[o] and ix in c.inc[o][f2]:
            r = r + d * c.inc[o][f2][ix]
    return r
