"""P06: time integration schemes are consistent within a step, exact to their order, and save what the next step starts from."""
from fractions import Fraction as Fr
from facts import find
from pairs import *
from util import *
from termdom import bitop
from terms import subpolys
from gravity import verdict, same2

ND = 3
MAXCASE = 400


class Update(object):
    """what one iteration of a loop does to one object: field -> new value in terms of the object's fields at the start of the iteration"""

    def __init__(self, lid, fn, obj, new):
        self.lid, self.fn, self.obj, self.new = lid, fn, obj, new

    def cases(self):
        """(conditions with their truth, field -> new value) for every outcome of the branches of the iteration"""
        return split([], self.new, [MAXCASE])


def conds(q):
    return [a for a in atoms_of(q) if akey(a)[0] in ('i', 'c')]


def inner(a):
    k = akey(a)
    return [b for q in subpolys(k) for b in conds(q)]


def atcase(a, v):
    def f(k):
        return P(v) if k == key else None
    key = akey(a)
    return Subst(f, refun)


def refun(name, args):
    if name == 'bits':
        q = args[0]
        q = bitop('&', q, args[1])
        return bitop('|', q, args[2])
    if name in ('idiv', 'mod') and all(isinstance(x, Poly) and x.const() is not None for x in args) and args[1].const() > 0:
        a, b = int(args[0].const()), int(args[1].const())
        return P(abs(a) // b * (1 if a >= 0 else -1)) if name == 'idiv' else P(abs(a) % b * (1 if a >= 0 else -1))
    if name in ('op&', 'op|'):
        return bitop(name[2], args[0], args[1])
    return None


def split(case, new, left):
    todo = None
    for q in new.values():
        for a in conds(q):
            if not inner(a):
                todo = a if todo is None or a < todo else todo
    if todo is None:
        left[0] -= 1
        if left[0] < 0:
            raise TooBig()
        return [(case, new)]
    out = []
    d = dict(case)
    for v in (1, 0) if todo not in d else (d[todo],):
        S = atcase(todo, v)
        n2 = {k: S(q) for k, q in new.items()}
        out += split(case + [(todo, v)] if todo not in d else case, n2, left)
    return out


def local(obj):
    """fields of obj become plain symbols (field, index...)"""
    def f(k):
        if k[0] != 'v' or not isinstance(k[1], tuple):
            return None
        l = k[1]
        if l[0] == 'loop':
            l = l[2]
        if not isinstance(l, tuple):
            return None
        o, fl, ix = lf(l)
        if o[:len(obj)] == obj and fl is not None and all(isinstance(i, int) for i in ix):
            return sym(('F', fl) + ix)
        return None
    return Subst(f)


def updates(p, f, D=None, maxdepth=4, maxsteps=20000, this=None):
    D = D or Terms(p)
    I = Interp(p, D, maxdepth=maxdepth)
    I.maxsteps = maxsteps
    limit(1500)
    try:
        args = {}
        for i in f.params:
            n, t = f.locals[i][0], f.locals[i][1]
            if t.replace('const', '').strip() in ('int', 'double', 'float'):
                args[n] = V(sym(('P', n)), ty=t)
        I.run_root(f, args, st=State(g=ONE), this=this)
    finally:
        limit(6000)
    for lid, fn, start, end in D.loopinfo:
        if end is None:
            continue
        objs = {}
        for l, e in end.m.items():
            s = start.get(l)
            if s is None or e.d is None or s.d is None or e.d == s.d or not isinstance(e.d, Poly):
                continue
            o, fl, ix = lf(l)
            if fl is None:
                continue
            while len(o) > 2 and isinstance(o[-1], tuple) and o[-1][0] == '.' and o[-1][1].split('::')[-1] == 'flags':
                o = o[:-1]
            objs.setdefault(o, {})[(fl, ix)] = e.d
        for o, new in sorted(objs.items(), key=str):
            S = local(o)
            try:
                new = {k: S(q) for k, q in new.items()}
            except TooBig:
                continue
            yield Update(lid, fn, o, new)


# ---- domain ----------------------------------------------------------------------------------------
class IntDom(PairDom):
    """the equation of state of a time-integrated specific internal energy: the EOS returns the stored value"""
    abbrev = False

    def intrinsic(self, name, args, obj, node, I, st):
        n = name.split('::')[-1]
        if n == 'SpecificInternalEnergy' and name.split('::')[0] in self.eos and args and args[0].lv is not None:
            o = I.deref(args[0].lv, st)
            for l, v in st.m.items():
                if l[:len(o)] == o and len(l) == len(o) + 1 and l[-1][0] == '.' and l[-1][1].endswith('::u'):
                    return V(v.d, ty='double')
        return PairDom.intrinsic(self, name, args, obj, node, I, st)


NTH = {'a': 0, 'adot': 1, 'a2dot': 2, 'a3dot': 3}
SAVED = {x + '0': x for x in ('r', 'v', 'a', 'adot', 'a2dot', 'u', 'dudt')}
T = sym('T')


def order(fl):
    """derivative order of an acceleration field, saved or current"""
    return NTH.get(fl[:-1] if fl.endswith('0') else fl)


def F(*a):
    return sym(('F',) + a)


def isF(a):
    k = akey(a)
    return k[1][1:] if k[0] == 'v' and isinstance(k[1], tuple) and k[1][0] == 'F' else None


def fields_of(q):
    return {x for x in (isF(a) for a in atoms_of(q)) if x}


def params(f):
    """symbols of the integer time, the time and the base step, by type and position"""
    ints = [x for x, t in zip(*pnames(f)) if t.replace('const', '').strip() == 'int']
    flts = [x for x, t in zip(*pnames(f)) if t.replace('const', '').strip() in ('double', 'float')]
    return ints, flts


def pnames(f):
    ps = f.params
    return [f.locals[i][0] for i in ps], [f.locals[i][1] for i in ps]


def elapsed(f):
    """every expression of the time since the start of the step becomes T"""
    ints, flts = params(f)
    n = ints[0] if ints else None
    t = flts[0] if flts else None
    dt = flts[1] if len(flts) > 1 else None

    def s(k):
        if k[0] != 'v':
            return None
        x = k[1]
        if x == ('P', t):
            return F('tlast') + T
        if x == ('P', n):
            return F('nlast') + sym('N')
        if x == ('P', dt):
            return T / sym('N')
        if x == ('F', 'dt'):
            return T
        return None
    return Subst(s)


WHOLE = 8        # integer size of the step at which conditions are evaluated


def at_count(f, K):
    """conditions of a step of WHOLE units evaluated when K integer steps have elapsed"""
    ints, flts = params(f)
    n = ints[0] if ints else None
    return Subst(lambda k: None if k[0] != 'v' else F('nlast') + K if k[1] == ('P', n) else P(WHOLE) if k[1] == ('F', 'nstep') else None, refun)


def consistent(case, S):
    """None: not determined"""
    r = None
    for a, v in case:
        q = A(akey(a))
        if not (isinstance(akey(a), tuple) and akey(a)[0] == 'i'):
            continue
        c = S(q)
        if c == q:
            continue
        if c.const() is None:
            continue
        if bool(c.const()) != bool(v):
            return False
        r = True
    return r


def coeffs(q, name='T'):
    """coefficients of q as a polynomial in a symbol, or None"""
    out = {}
    for m, c in q.t.items():
        e, r = 0, []
        for a, x in m:
            k = akey(a)
            if k == ('v', name):
                e = x
            else:
                if involves(A(k), name):
                    return None
                r.append((a, x))
        if e != int(e):
            return None
        out[int(e)] = out.get(int(e), ZERO) + Poly({tuple(r): c})
    return {k: v for k, v in out.items() if v.t}


def merged(p, f, D=None):
    """the updates of f, those of consecutive loops over the same kind of object composed"""
    out = {}
    for u in updates(p, f, D=D, maxdepth=5):
        key = kind(u.obj)
        if key in out:
            old = out[key]
            S = Subst(lambda k: old.new.get((k[1][1], tuple(k[1][2:]))) if k[0] == 'v' and isinstance(k[1], tuple) and k[1][0] == 'F' else None)
            new = dict(old.new)
            try:
                new.update({k: S(q) for k, q in u.new.items()})
            except TooBig:
                pass
            old.new = new
        else:
            out[key] = u
    return list(out.values())


def kind(o):
    return tuple(x if not (isinstance(x, tuple) and len(x) == 2 and x[0] == '[') else ('[', '*') for x in o)


def methods(p):
    """class -> method -> function, for every time integration class"""
    out = {}
    for f in src_functions(p):
        if f.body is None or not f.cls:
            continue
        m = f.name.split('::')[-1]
        if m in ('AdvanceParticles', 'CorrectionTerms', 'EndTimestep', 'SetActiveParticles', 'CheckTimesteps'):
            out.setdefault(f.cls, {})[m] = f
    return out


def inherited(p, M, cls, m):
    if m in M.get(cls, {}):
        return M[cls][m]
    for b in sorted(p.bases(cls)):
        if m in M.get(b, {}):
            return M[b][m]
    return None


def run(ctx):
    p = ctx.program()
    ctx.rule('One iteration of the particle loop of every integration method is value-numbered; each outcome of its branches gives the new value of every field as a polynomial in the saved state and the elapsed time. Predictors must be Taylor expansions of the saved state, corrected values exact for polynomial accelerations up to the order of the scheme, the end of the step must save what the predictor starts from, the force must be requested when the scheme needs it, and a meshless particle without fluxes must keep its thermal energy while it is accelerated.')
    M = methods(p)
    C = {}
    nA = 0

    def cases(f):
        if f.m not in C:
            D = IntDom(p)
            l = []
            for u in merged(p, f, D):
                try:
                    l += [(u, c, new) for c, new in u.cases()]
                except TooBig:
                    ctx.count('undecided')
            C[f.m] = l
        return C[f.m]
    for cls in sorted(M):
        m = M[cls]
        if 'AdvanceParticles' in m:
            f = m['AdvanceParticles']
            cs = cases(f)
            if any(('Qcons0', (0,)) == x or x[0] == 'Wprim' for u, c, new in cs for x in new):
                nA += meshless(ctx, p, cls, m, cases)
            else:
                nA += predictor(ctx, p, f, cs)
        for name in ('CorrectionTerms', 'EndTimestep'):
            if name in m and not any(k[0] == 'Qcons0' for u, c, new in cases(m[name]) for k in new):
                adv = inherited(p, M, cls, 'AdvanceParticles')
                if adv is not None:
                    nA += corrector(ctx, p, m[name], cases(m[name]), adv, cases(adv))
        if 'EndTimestep' in m:
            adv = inherited(p, M, cls, 'AdvanceParticles')
            cor = inherited(p, M, cls, 'CorrectionTerms')
            nA += saved(ctx, p, m['EndTimestep'], cases(m['EndTimestep']), cases(adv) if adv else [], cases(cor) if cor else [])
        if 'SetActiveParticles' in m:
            adv = inherited(p, M, cls, 'AdvanceParticles')
            if adv is not None:
                nA += active(ctx, p, m['SetActiveParticles'], cases(m['SetActiveParticles']), midstep(cases(adv)), 'the force is requested')
        if 'CheckTimesteps' in m:
            nA += limiter(ctx, p, m['CheckTimesteps'], cases(m['CheckTimesteps']))
    ctx.floor('integration method obligations', nA, 40)


def changed(new, fl, k=0):
    q = new.get((fl, (k,)), new.get((fl, ())))
    return q is not None and q != F(fl, k) and q != F(fl)


def name(case):
    return ', '.join('%s%s' % ('' if v else 'not ', show(A(akey(a)))) for a, v in case)[:160]


def midstep(cs):
    """the scheme predicts velocities with the current acceleration: forces are evaluated half way"""
    for u, c, new in cs:
        q = new.get(('v', (0,)))
        if q is not None and changed(new, 'v'):
            return ('a', 0) in fields_of(q)
    return None


def predictor(ctx, p, f, cs):
    S = elapsed(f)
    n = 0
    where = f.where()
    mid = midstep(cs)
    full = at_count(f, P(WHOLE))
    for u, case, new in cs:
        if not (changed(new, 'r') or changed(new, 'v')):
            continue
        for k in range(ND):
            r, v = new.get(('r', (k,))), new.get(('v', (k,)))
            if r is None or v is None:
                ctx.bad('predictor', where, f.name + '|both', '%s advances only one of position and velocity (%s)' % (f.name, name(case)))
                continue
            try:
                r, v = S(r), S(v)
            except TooBig:
                continue
            cr, cv = coeffs(r), coeffs(v)
            if cr is None or cv is None:
                ctx.count('undecided')
                continue
            n += 1
            bad = []
            if cv.get(0) != F('v0', k):
                bad.append('velocity at the start of the step is not the saved one')
            if cr.get(0) != F('r0', k):
                bad.append('position at the start of the step is not the saved one')
            want = ZERO
            fact = 1
            for e in range(1, max(list(cv) + [1]) + 1):
                fact *= e
                c = cv.get(e, ZERO)
                fs = [x for x in fields_of(c)]
                if len(fs) != 1 or order(fs[0][0]) != e - 1 or fs[0][1:] != (k,) or c != F(*fs[0]) * Fr(1, fact):
                    bad.append('coefficient of dt^%d in the velocity is not the derivative of order %d over %d!' % (e, e, e))
            for e, c in cv.items():
                want = want + c * T ** (e + 1) * Fr(1, e + 1)
            want = want + F('r0', k)
            if r == want or r == F('r0', k) + (F('v0', k) + v) * T * Fr(1, 2) and max(cv) <= 1:
                pass
            elif mid and r == F('r0', k) + F('v0', k) * T and consistent(case, full) is False:
                pass
            else:
                bad.append('position is not the integral of the velocity')
            if bad:
                ctx.bad('predictor', where, f.name, '%s: %s (component %d; %s)' % (f.name, '; '.join(bad), k, name(case)))
            else:
                ctx.ok('predictor', where, '%s: Taylor expansion of the saved state' % f.name)
        q = new.get(('u', ()))
        if q is not None and q != F('u'):
            c = coeffs(S(q))
            if c is not None:
                n += 1
                ok = c.get(0) == F('u0') and set(c) <= {0, 1} and c.get(1) in (F('dudt0'), F('dudt'))
                verdict(ctx, ok, 'predictor', where, f.name + '|u', '%s: internal energy starts from the saved value and follows its saved rate' % f.name)
    n += active(ctx, p, f, cs, mid, 'the force is requested')
    return n


def enums(p, names):
    out = {}
    for f in p.fns.values():
        if f.body is None:
            continue
        for e in find(f.body, 'enum'):
            if e[2].split('::')[-1] in names:
                out[e[2].split('::')[-1]] = e[3]
        if len(out) == len(names):
            break
    return out


def bitval(q, bit):
    """True/False: bit set/cleared in q; None: kept or unknown"""
    c = q.const()
    if c is not None:
        return bool(int(c) & bit)
    if len(q.t) == 1:
        (m, k), = q.t.items()
        if k == 1 and len(m) == 1 and m[0][1] == 1:
            key = akey(m[0][0])
            if key[0] == 'f' and key[1] == 'bits':
                A_, B = int(polyof(key[3]).const()), int(polyof(key[4]).const())
                if B & bit:
                    return True
                if not A_ & bit:
                    return False
    return None


def polyof(i):
    import terms
    return terms._polyobj[i]


def active(ctx, p, f, cs, mid, text):
    E = enums(p, ('active', 'end_timestep'))
    if 'active' not in E or mid is None:
        return 0
    K = WHOLE // 2 if mid else WHOLE
    n = 0
    for u, case, new in cs:
        q = new.get(('_flag', ()))
        if q is None:
            continue
        b = bitval(q, E['active'])
        if b is None:
            continue
        if any(E.get('end_timestep') and v == 0 and akey(a)[0] == 'i' and is_flag_test(a, E['end_timestep']) for a, v in case):
            continue
        # at the start of a step the force may be wanted as well
        at = [k for k in range(1, WHOLE + 1) if consistent(case, at_count(f, P(k)))]
        if not at:
            continue
        n += 1
        verdict(ctx, all(b == (k == K) for k in at), 'active', f.where(), f.name, '%s: %s when %s of the step has elapsed and only then (%s)' % (f.name, text, 'half' if mid else 'all', name(case)))
    return n


def is_flag_test(a, bit):
    k = akey(a)
    if k[0] != 'i' or not isinstance(k[2], int):
        return False
    for b in atoms_of(polyof(k[2])):
        x = akey(b)
        if x[0] == 'f' and x[1] == 'bits' and polyof(x[3]).const() == bit:
            return True
    return False


def poly_acc(nd, t, k):
    """derivative of order nd of the test acceleration sum c_j t^j at time t"""
    q = ZERO
    for j in range(nd, 7):
        c = 1
        for i in range(nd):
            c *= j - i
        q = q + sym(('c', j, k)) * t ** (j - nd) * c
    return q


def testsub(adv):
    """current derivatives: test acceleration at the end of the step; saved ones: at its start; predicted r and v from the predictor"""
    def s(k):
        if k[0] != 'v' or not isinstance(k[1], tuple) or k[1][0] != 'F':
            return None
        fl, ix = k[1][1], k[1][2:]
        if len(ix) == 1 and order(fl) is not None:
            return poly_acc(order(fl), ZERO if fl.endswith('0') else T, ix[0])
        if fl in ('dudt', 'dudt0') and not ix:
            return poly_acc(0, ZERO if fl.endswith('0') else T, 'u')
        if fl in ('r', 'v') and len(ix) == 1 and adv:
            q = adv.get((fl, ix))
            return S0(q) if q is not None else None
        if fl == 'u' and adv:
            q = adv.get((fl, ix))
            return S0(q) if q is not None else None
        return None

    def s0(k):
        if k[0] != 'v' or not isinstance(k[1], tuple) or k[1][0] != 'F':
            return None
        fl, ix = k[1][1], k[1][2:]
        if order(fl) is not None and len(ix) == 1 or fl in ('dudt', 'dudt0'):
            return s(k)
        return None
    S0 = Subst(s0)
    return Subst(s)


def upto(q, n):
    """terms of q in test coefficients of degree <= n, and those free of them"""
    out = ZERO
    for m, c in q.t.items():
        d = [akey(a)[1][1] for a, e in m if akey(a)[0] == 'v' and isinstance(akey(a)[1], tuple) and akey(a)[1][0] == 'c']
        if all(x <= n for x in d):
            out = out + Poly({m: c})
    return out


def corrector(ctx, p, f, cs, fadv, advcs):
    S, SA = elapsed(f), elapsed(fadv)
    full = at_count(fadv, P(WHOLE))
    adv = None
    best = -1
    for u, case, new in advcs:
        if changed(new, 'r') and consistent(case, full) is not False:
            sc = len([1 for x in new if changed(new, x[0])])
            if sc > best:
                best, adv = sc, {k: SA(q) for k, q in new.items() if k[0] in ('r', 'v', 'u')}
    n = 0
    G = testsub(adv)
    udone = []
    for u, case, new in cs:
        for k in range(ND):
            v = new.get(('v', (k,)))
            if v is None or v == F('v', k):
                continue
            if not any(order(x[0]) is not None and not x[0].endswith('0') for x in fields_of(v)):
                continue
            pd = len({order(x[0]) for x in fields_of(v) if order(x[0]) is not None and not x[0].endswith('0') and x[0] not in assigned(new)})
            pd = pd or 1
            try:
                got = G(S(v))
                exact = F('v0', k) + sum((sym(('c', j, k)) * T ** (j + 1) * Fr(1, j + 1) for j in range(7)), ZERO)
                n += 1
                verdict(ctx, upto(got, 2 * pd - 1) == upto(exact, 2 * pd - 1), 'corrector', f.where(), f.name, '%s: corrected velocity exact for accelerations of degree %d' % (f.name, 2 * pd - 1))
                r = new.get(('r', (k,)))
                if r is not None and r != F('r', k):
                    got = G(S(r))
                    exact = F('r0', k) + F('v0', k) * T + sum((sym(('c', j, k)) * T ** (j + 2) * Fr(1, (j + 1) * (j + 2)) for j in range(7)), ZERO)
                    n += 1
                    verdict(ctx, upto(got, 2 * pd - 2) == upto(exact, 2 * pd - 2), 'corrector', f.where(), f.name + '|r', '%s: corrected position exact for accelerations of degree %d' % (f.name, 2 * pd - 2))
                for fl, d in (('a2dot', 2), ('a3dot', 3)):
                    q = new.get((fl, (k,)))
                    if q is not None and q != F(fl, k):
                        got = upto(clear0(G(S(q))), 3)
                        n += 1
                        ok = any(got == upto(poly_acc(d, t, k), 3) for t in (ZERO, T))
                        verdict(ctx, ok, 'corrector', f.where(), f.name + '|' + fl, '%s: %s is the derivative of order %d of a cubic acceleration through the values at both ends' % (f.name, fl, d))
            except TooBig:
                ctx.count('undecided')
        q = new.get(('u', ()))
        if q is not None and q != F('u'):
            got = G(S(q))
            lin = upto(got, 1) == F('u0') + sym(('c', 0, 'u')) * T + sym(('c', 1, 'u')) * T ** 2 * Fr(1, 2)
            udone.append(lin)
            if not lin and upto(got, 0) != F('u0') + sym(('c', 0, 'u')) * T:
                verdict(ctx, False, 'corrector', f.where(), f.name + '|u', '%s: corrected internal energy follows its rate (%s)' % (f.name, name(case)))
    if udone and not any(fields_of(q) & {('Qcons0', 0)} for u, c, new in cs for q in new.values()):
        n += 1
        verdict(ctx, any(udone), 'corrector', f.where(), f.name + '|u2', '%s: corrected internal energy exact for a rate linear in time' % f.name)
    return n


def clear0(q):
    return q


def assigned(new):
    return {k[0] for k, q in new.items() if changed(new, k[0])}


def saved(ctx, p, f, cs, *readers):
    """the end of the step refreshes every saved quantity the scheme starts from"""
    E = enums(p, ('active', 'end_timestep'))
    ints, flts = params(f)
    used = set()
    for l in readers + (cs,):
        for u, c, new in l:
            for q in new.values():
                used |= {x[0] for x in fields_of(q) if x[0] in SAVED}
    n = 0
    trig = [(u, c, new) for u, c, new in cs if changed(new, 'r0') or changed(new, 'v0')]
    if not trig:
        return 0

    def put(ok, what, text):
        verdict(ctx, ok, 'saved', f.where(), f.name + '|' + what, '%s: %s' % (f.name, text))
        return 1
    for u, case, new in trig:
        for x0 in sorted(used):
            x = SAVED[x0]
            idx = [()] if x in ('u', 'dudt') else [(k,) for k in range(ND)]
            for ix in idx:
                old, cur = F(*((x0,) + ix)), F(*((x,) + ix))
                got = new.get((x0, ix), old)
                want = new.get((x, ix), cur)
                if x in ('u', 'dudt') and got == old:
                    continue
                n += put(got == want, x0, 'the next step starts from the current %s' % x)
        n += put(new.get(('nlast', ())) == sym(('P', ints[0])), 'nlast', 'the next step starts at the current integer time')
        n += put(new.get(('tlast', ())) == sym(('P', flts[0])), 'tlast', 'the next step starts at the current time')
        n += put(new.get(('dt', ())) == F('dt_next'), 'dt', 'the next step has the size chosen for it')
        q = new.get(('_flag', ()))
        if q is not None and 'end_timestep' in E:
            n += put(bitval(q, E['end_timestep']) is False, 'flag', 'the end-of-step mark is cleared')
    for x0 in sorted(used & {'u0', 'dudt0'}):
        n += put(any(changed(new, x0) for u, c, new in trig), x0, 'the next step starts from the current %s' % SAVED[x0])
    return n


def limiter(ctx, p, f, cs):
    """a step shortened by the limiter keeps integer and physical size in step, and ends now"""
    ints, flts = params(f)
    n = 0
    for u, case, new in cs:
        q = new.get(('nstep', ()))
        if q is None or q == F('nstep'):
            continue
        nint, tstep = sym(('P', ints[2])) if len(ints) > 2 else None, sym(('P', flts[0])) if flts else None
        if nint is None or tstep is None:
            continue
        n += 1
        verdict(ctx, new.get(('dt', ())) == q * tstep, 'limiter', f.where(), f.name + '|dt', '%s: size of a shortened step agrees with its integer size' % f.name)
        verdict(ctx, q == nint - F('nlast'), 'limiter', f.where(), f.name + '|nstep', '%s: a shortened step ends at the current time' % f.name)
        if changed(new, 'dQ'):
            for k in range(ND + 2):
                d = new.get(('dQ', (k,)))
                if d is not None:
                    verdict(ctx, d == q * tstep * F('dQdt', k), 'limiter', f.where(), f.name + '|dQ', '%s: the change over a shortened step is its rate times its size' % f.name)
    return n


# ---- meshless --------------------------------------------------------------------------------------
def meshless(ctx, p, cls, m, cases):
    n = 0
    mass, V, u = F('Qm'), [sym(('V', k)) for k in range(ND)], sym('u')
    acc = [sym(('acc', k)) for k in range(ND)]

    def base(fluxes, accel):
        def s(k):
            if k[0] != 'v' or not isinstance(k[1], tuple) or k[1][0] != 'F':
                return None
            fl, ix = k[1][1], k[1][2:]
            if fl == 'Qcons0' and len(ix) == 1:
                if ix[0] < ND:
                    return mass * V[ix[0]]
                return mass if ix[0] == ND else mass * (u + Fr(1, 2) * sum((x * x for x in V), ZERO))
            if fl in ('dQ', 'dQdt', 'rdmdt', 'cooling') and not fluxes:
                return ZERO
            if fl in ('a', 'a0') and len(ix) == 1:
                if accel == 'linear' and fl == 'a':
                    return acc[ix[0]] + T * sym(('jerk', ix[0]))
                return acc[ix[0]] if accel else ZERO
            if fl == 'v0' and len(ix) == 1:
                return V[ix[0]]
            if fl in ('rdmdt', 'cooling'):
                return ZERO
            return None
        return Subst(s)
    for meth in ('AdvanceParticles', 'EndTimestep'):
        f = m.get(meth)
        if f is None:
            continue
        S = elapsed(f)
        for up, case, new in cases(f):
            if not changed(new, 'v'):
                continue

            def put(ok, what, text):
                verdict(ctx, ok, 'meshless', f.where(), '%s|%s' % (f.name, what), '%s: %s (%s)' % (f.name, text, name(case)))
                return 1

            def val(fl, ix, B):
                q = new.get((fl, ix))
                try:
                    return None if q is None else B(S(q))
                except TooBig:
                    return None
            B = base(False, True)
            for k in range(ND):
                q = val('v', (k,), B)
                if q is not None:
                    n += put(same(q, V[k] + acc[k] * T), 'v', 'without fluxes the velocity changes by the acceleration times the elapsed time')
                q = val('v', (k,), base(False, 'linear')) if ('a', k) in fields_of(new['v', (k,)]) else None
                if q is not None:
                    n += put(same(q, V[k] + acc[k] * T + sym(('jerk', k)) * T ** 2 * Fr(1, 2)), 'v', 'without fluxes the velocity is exact for an acceleration linear in time')
                q = val('r', (k,), B)
                if q is not None and changed(new, 'r'):
                    n += put(same(q, F('r0', k) + V[k] * T + acc[k] * T ** 2 * Fr(1, 2)), 'r', 'without fluxes the position follows the saved position, velocity and acceleration')
                q = val('Qcons0', (k,), B)
                if q is not None and changed(new, 'Qcons0'):
                    n += put(same(q, mass * (V[k] + acc[k] * T)), 'Q', 'without fluxes the conserved momentum changes by the impulse of the acceleration')
            q = val('m', (), B)
            if q is not None:
                n += put(same(q, mass), 'm', 'without fluxes the mass stays')
            q = val('u', (), B)
            if q is not None and q != F('u'):
                if any(str(akey(a)).find('fresh') >= 0 for a in atoms_of(q)):
                    ctx.count('undecided')
                else:
                    n += put(same(q, u), 'u', 'without fluxes the thermal energy stays while the particle is accelerated')
            if changed(new, 'Qcons0'):
                B = base(True, False)
                for k in range(ND + 2):
                    q = val('Qcons0', (k,), B)
                    if q is not None:
                        n += put(same(q, B(F('Qcons0', k)) + F('dQ', k)), 'dQ', 'the accumulated exchange is added to the conserved quantities')
                    for fl in ('dQ', 'dQdt'):
                        n += put(new.get((fl, (k,))) == ZERO, fl, 'the accumulator %s is reset' % fl)
                q = val('v', (0,), B)
                if q is not None:
                    n += put(same(q * new_m(new, B, S), B(F('Qcons0', 0)) + F('dQ', 0)), 'prim', 'velocity is the conserved momentum over the mass')
    return n


def new_m(new, B, S):
    q = new.get(('m', ()))
    return B(S(q)) if q is not None else F('m')
