"""P07: equations of state: pressure, internal energy, sound speed, temperature and entropy describe one gas."""
import facts
from facts import find
from termdom import *
from absint import State, V, Interp
from units import UDom
from util import *
from gravity import verdict

# the parameters the classes are built from, at values with no accidental relation between them
PTS = [{'gamma_eos': Fr(7, 5), 'eta_eos': Fr(9, 5), 'templaw': Fr(3, 4), 'DiscIcQ': Fr(1, 4)},
       {'gamma_eos': Fr(5, 3), 'eta_eos': Fr(6, 5), 'templaw': Fr(1, 2), 'DiscIcQ': Fr(2, 3)},
       {'gamma_eos': Fr(8, 5), 'eta_eos': Fr(4, 3), 'templaw': Fr(5, 4), 'DiscIcQ': Fr(1, 3)}]
QUANT = ('Pressure', 'EntropicFunction', 'SoundSpeed', 'Temperature', 'SpecificInternalEnergy', 'InternalEnergyFromPressure')
INNER = ('EntropicFunction', 'SoundSpeed', 'Temperature', 'SpecificInternalEnergy', 'Pressure')


class EDom(UDom):
    def __init__(self, p):
        UDom.__init__(self, p)
        self.known = {}

    def init(self, loc, ty, I):
        if loc[0] == 'this' and loc[2:] in self.known:
            return self.known[loc[2:]]
        return UDom.init(self, loc, ty, I)

    def intrinsic(self, name, args, obj, node, I, st):
        c, m = ('::' + name).rsplit('::', 2)[-2:]
        # a call on another equation of state or on the tables
        if m in INNER + ('GetGamma', 'GetGamma1', 'GetMuBar', 'GetEnergyFromPressure') and obj is not None:
            o = obj.lv if obj.ptr is None else obj.ptr[1] if isinstance(obj.ptr, tuple) and len(obj.ptr) > 1 else None
            if o is not None and not (o[0] == 'this' and len(o) == 2):
                if m == 'GetEnergyFromPressure':
                    return V(fun(m, *[a.d for a in args if a.d is not None]), ty='double')
                return V(sym(('X', m)), ty='double')
        return UDom.intrinsic(self, name, args, obj, node, I, st)


def part(fld):
    return sym(('P', 'part', ('.', 'EosParticleProxy::' + fld)))


class Eos(object):
    """one concrete class: the fields its constructor sets and its methods as functions of the particle"""

    def __init__(self, p, cls, M, ctor):
        self.cls, self.p, self.M, self.ctor = cls, p, M, ctor
        self.D = EDom(p)
        self.this = ('this', cls)
        I = Interp(p, self.D, maxdepth=6)
        fl = I.run_root(ctor, st=State(g=ONE), this=self.this)
        end = fl.n or (fl.re[-1][0] if fl.re else None)
        for k, v in (end.m.items() if end is not None else ()):
            if k[0] == 'this' and k[1] == cls and v.d is not None:
                self.D.known[k[2:]] = v.d

    def fieldval(self, name):
        for k, v in self.D.known.items():
            if k and k[-1] == ('.', name):
                return v
        return None

    def q(self, m):
        f = self.M.get(m)
        if f is None:
            return None
        pn = f.locals[f.params[0]][0] if f.params else 'part'
        I = Interp(self.p, self.D, maxdepth=6)
        I.prefer = None
        fl = I.run_root(f, {pn: ('P', 'part')}, st=State(g=ONE), this=self.this)
        rv = None
        for s, v in reversed(fl.re):
            if v is None or v.d is None:
                return None
            rv = v.d if rv is None else self.D.join(s.g, v.d, rv, I)
        return canon(rv)


def canon(q):
    """what a loop leaves behind, by the variable rather than by the call"""
    def s(k):
        if k[0] == 'v' and isinstance(k[1], tuple) and k[1][0] in ('after', 'loop'):
            loc = k[1][2]
            return sym((k[1][0], 'loop', loc[3] if loc[0] == 'L' and len(loc) == 4 else loc))
        return None
    return Subst(s)(q) if q is not None else None


def at(pt):
    """evaluate the exponent parameters and turn powers into exact ones"""
    def s(k):
        if k[0] == 'v' and isinstance(k[1], tuple) and k[1][0] == 'par' and k[1][1] in pt:
            return P(pt[k[1][1]])
        return None

    def ff(name, args):
        if name == 'pow' and len(args) == 2 and args[1].const() is not None:
            return power(args[0], args[1].const())
        return None
    return Subst(s, ff)


def put_u(u):
    return Subst(lambda k: u if k == akey(next(iter(atoms_of(part('u')))))  else None)


def branches(q, *more):
    """the sign conditions that occur, as case splits"""
    c = set()
    for x in (q,) + more:
        if x is None:
            continue
        for a in atoms_of(x):
            k = akey(a)
            if k[0] == 'i':
                c.add(a)
    return sorted(c, key=str)


def split(q, case):
    def s(k):
        for a, v in case:
            if akey(a) == k:
                return ONE if v else ZERO
        return None
    return Subst(s)(q)


def cases(*qs):
    import itertools
    c = branches(*qs)
    if len(c) > 4:
        return [()]
    return [tuple(zip(c, vs)) for vs in itertools.product((0, 1), repeat=len(c))]


def equal(a, b, exact=('gamma_eos',)):
    """a == b for every input, at each choice of the exponents, in each branch; None: not decided"""
    if a is None or b is None:
        return None
    for pt in PTS:
        S = at(pt)
        try:
            x, y = S(a), S(b)
            for cs in cases(x, y):
                u, v = split(x, cs), split(y, cs)
                if same(u, v):
                    continue
                if any(akey(t)[0] in ('f', 'i') and akey(t)[1] not in () and opaque(akey(t)) for t in atoms_of(u - v)):
                    return None
                return False
        except TooBig:
            return None
    return True


def opaque(k):
    return k[0] == 'i' or (k[0] == 'f' and k[1] in ('pow', 'max', 'min', 'top'))


def methods(p):
    """concrete equation-of-state classes: name -> {method: function}, one instantiation"""
    fam = {}
    for f in src_functions(p):
        if f.cls and f.body is not None and (f.cls == 'EOS' or 'EOS' in p.bases(f.cls)):
            fam.setdefault(f.cls, {}).setdefault(f.name.split('::')[-1], f)
    return fam


def resolve(p, fam, cls, m):
    if m in fam.get(cls, {}):
        return fam[cls][m]
    for b in p.bases(cls):
        if m in fam.get(b, {}) and b != 'EOS':
            return fam[b][m]
    return fam.get('EOS', {}).get(m)


def run(ctx):
    p = ctx.program()
    ctx.rule('Every class derived from EOS is value-numbered: its constructor gives the fields as functions of the parameters, its methods the pressure, internal energy, sound speed, temperature and entropic function of a particle. These are compared as algebraic normal forms, after substituting the internal energy the class itself prescribes, branch by branch.')
    fam = methods(p)
    n = 0
    for cls in sorted(fam):
        if cls == 'EOS':
            continue
        ctor = next((f for f in fam[cls].values() if f.h['kind'] == 'ctor'), None)
        if ctor is None:
            continue
        M = {m: resolve(p, fam, cls, m) for m in QUANT}
        if M['SpecificInternalEnergy'] is None:
            continue
        n += one(ctx, p, cls, M, ctor)
    ctx.floor('equation of state identities', n, 20)
    proxy(ctx, p)
    thermal(ctx, p)
    selector(ctx, p, fam)


def one(ctx, p, cls, M, ctor):
    E = Eos(p, cls, M, ctor)
    q = {m: E.q(m) for m in QUANT}
    n = [0]

    def put(ok, what, text):
        f = M.get(what.split('|')[0]) or ctor
        n[0] += ok is not None
        verdict(ctx, ok, 'eos', f.where(), '%s|%s' % (cls, what), '%s: %s' % (cls, text))
    rho, u = part('rho'), part('u')
    U = q['SpecificInternalEnergy']
    g, g1 = E.fieldval('EOS::gamma'), E.fieldval('EOS::gammam1')
    if g is not None and g1 is not None:
        put(same(g1, g - 1), 'ctor', 'gammam1 is gamma - 1')
    if U is None:
        ctx.count('undecided')
        return n[0]
    inner = [k for k in atoms_of(U) if akey(k)[0] == 'v' and isinstance(akey(k)[1], tuple) and akey(k)[1][0] == 'X']
    isoth = sym(('X', 'SpecificInternalEnergy'))
    if inner:
        delegate(ctx, put, q, isoth)
        return n[0]
    own = U == u                      # evolves its own internal energy
    S = (lambda a: a) if own else put_u(U)
    Pr, cs, T, ent, ufp = (S(q[m]) if q[m] is not None else None for m in ('Pressure', 'SoundSpeed', 'Temperature', 'EntropicFunction', 'InternalEnergyFromPressure'))
    G, G1, MU = sym(('X', 'GetGamma')), sym(('X', 'GetGamma1')), sym(('X', 'GetMuBar'))
    table = cls == 'Radws' or any(G == sym(akey(a)[1]) for a in atoms_of(Pr) if akey(a)[0] == 'v')
    if table:
        gam, ad, mu = G, G1, MU
    else:
        gam, ad, mu = g, g, E.fieldval('EOS::mu_bar')
        mu = sym(('par', 'mu_bar'))
    if gam is None or Pr is None:
        ctx.count('undecided')
        return n[0]
    put(equal(Pr, (gam - 1) * rho * (u if own else U)), 'Pressure', 'the pressure is (gamma-1) rho u')
    put(equal(cs * cs * rho, Pr * ad if own else Pr) if cs is not None else None, 'SoundSpeed', 'the sound speed squared is %sP/rho' % ('gamma ' if own else ''))
    put(equal(T, (gam - 1) * mu * (u if own else U)), 'Temperature', 'the temperature is (gamma-1) mu u')
    put(equal(ent, fun('pow', rho, -gam) * Pr) if not table else equal(ent, Pr * fun('pow', rho, -gam)) or eqpow(ent, Pr, rho, gam), 'EntropicFunction', 'the entropic function is P/rho^gamma')
    if ufp is not None and not table:
        ps = part('p')
        inv = Subst(lambda k: q['Pressure'] if k == akey(next(iter(atoms_of(ps)))) else None)(q['InternalEnergyFromPressure'])
        put(equal(S(inv), u if own else U), 'InternalEnergyFromPressure', 'the internal energy for a pressure is the one that gives that pressure')
    elif ufp is not None:
        put(equal(q['InternalEnergyFromPressure'], fun('GetEnergyFromPressure', rho, part('p'))), 'InternalEnergyFromPressure', 'the internal energy for a pressure is looked up for this density and pressure')
    form(put, E, cls, q, rho)
    return n[0]


def eqpow(a, b, rho, g):
    """a == b rho^-g with g symbolic: at some values of g"""
    k0 = akey(next(iter(atoms_of(g))))
    for v in (Fr(7, 5), Fr(5, 3)):
        S = Subst(lambda k: P(v) if k == k0 else None, lambda name, args: power(args[0], args[1].const()) if name == 'pow' and args[1].const() is not None else None)
        if not same(S(a), S(b) * power(rho, -v)):
            return False
    return True


def par(n):
    return sym(('par', n))


def form(put, E, cls, q, rho):
    """the relation the class is named after"""
    T = q['Temperature']

    def scale(name):
        # a parameter over its unit scale: whatever the constructor stored
        return E.fieldval(cls + '::' + name) or E.fieldval('Isothermal::' + name)
    T0, rb = scale('temp0'), scale('rho_bary')
    gm = E.fieldval('EOS::gammam1')
    if cls == 'Isothermal' and T0 is not None:
        put(equal(T, T0), 'Temperature|law', 'the temperature is temp0 everywhere')
    if cls == 'Barotropic' and T0 is not None and rb is not None:
        put(equal(T, T0 * (1 + fun('pow', rho / rb, gm))), 'Temperature|law', 'the temperature is temp0 (1 + (rho/rho_bary)^(gamma-1))')
    if cls == 'Barotropic2' and T0 is not None and rb is not None:
        for pt in PTS:
            S = at(pt)
            t = S(T)
            bs = branches(t)
            if len(bs) != 1:
                break
            hi, lo = split(t, ((bs[0], 0),)), split(t, ((bs[0], 1),))
            want = {S(T0).id, S(T0 * fun('pow', rho / rb, gm)).id}
            a = Subst(lambda k: S(rb) if k == akey(next(iter(atoms_of(rho)))) else None)
            put({x.id for x in (hi, lo)} == want or (same(hi, S(T0 * fun('pow', rho / rb, gm))) and same(lo, S(T0))) or (same(lo, S(T0 * fun('pow', rho / rb, gm))) and same(hi, S(T0))), 'Temperature|law', 'the temperature is temp0 below rho_bary and temp0 (rho/rho_bary)^(gamma-1) above')
            put(same(a(hi), a(lo)) and switch(bs[0], hi, lo, S(T0), rho, S(rb)), 'Temperature|switch', 'the two laws meet where they are switched, at rho_bary')
            break
    if cls == 'Polytropic':
        put(equal(q['Pressure'], par('Kpoly') * fun('pow', rho, par('eta_eos'))), 'Pressure|law', 'the pressure is Kpoly rho^eta_eos')


def switch(a, hi, lo, T0, rho, rb):
    """the condition separates rho below rho_bary from rho above, and T0 is used below"""
    for x in (Fr(1, 2), Fr(3)):
        S = Subst(lambda k: rb * x if k == akey(next(iter(atoms_of(rho)))) else None)
        v = positive_of(S(A(akey(a))))
        if v is None:
            return None
        t = lo if v else hi
        if same(t, T0) != (x < 1):
            return False
    return True


def positive_of(q):
    """value of an indicator whose argument is a number times positive quantities"""
    c = q.const()
    if c is not None:
        return c == 1
    ks = [akey(a) for a in q.t for a in [x[0] for x in a]] if hasattr(q, 't') else []
    if len(q.t) == 1:
        (m, co), = q.t.items()
        if len(m) == 1 and co == 1:
            k = akey(m[0][0])
            if k[0] == 'i':
                for pid in [x for x in k[2] if isinstance(x, int)] or list(k[2]):
                    from terms import _polyobj
                    pp = _polyobj.get(pid if isinstance(pid, int) else (pid[1] if isinstance(pid, tuple) else None))
                    if pp is not None and len(pp.t) == 1:
                        (mm, cc), = pp.t.items()
                        return (cc > 0) if k[1] in ('pos', '>') else None
    return None


def delegate(ctx, put, q, Ui):
    """an equation of state wrapped around another one: without ionisation it is the other one"""
    neutral = Subst(lambda k: ZERO if k[0] == 'v' and isinstance(k[1], tuple) and k[1][-1] in (('.', 'EosParticleProxy::ionfrac'), ('.', 'EosParticleProxy::ionstate')) else None)
    full = Subst(lambda k: ONE if k[0] == 'v' and isinstance(k[1], tuple) and k[1][-1] == ('.', 'EosParticleProxy::ionfrac') else None)
    for m in ('EntropicFunction', 'SoundSpeed', 'Temperature', 'SpecificInternalEnergy'):
        if q[m] is not None:
            x = neutral(q[m])
            put(same(x, sym(('X', m))), m, '%s of gas that is not ionised is that of the wrapped equation of state' % m)
    T, U = q['Temperature'], q['SpecificInternalEnergy']
    if T is not None and U is not None and any(akey(a)[0] == 'v' and akey(a)[1] == ('par', 'temp_ion') for a in atoms_of(T)):
        # fully ionised gas: T = (gamma-1) mu_ion u, c^2 = (gamma-1) u
        t, u_, c = full(T), full(U), full(q['SoundSpeed'])
        put(equal(t, (par('gamma_eos') - 1) * par('mu_ion') * u_), 'Temperature|ionised', 'the temperature of ionised gas is (gamma-1) mu_ion u')
        put(equal(c * c, (par('gamma_eos') - 1) * u_), 'SoundSpeed|ionised', 'the sound speed squared of ionised gas is (gamma-1) u')


# ---- particles -------------------------------------------------------------------------------------
def proxy(ctx, p):
    """what the equation of state sees of a particle is the particle; state vectors are built from it"""
    for f in src_functions(p):
        if f.h['kind'] == 'ctor' and f.cls == 'EosParticleProxy' and f.params:
            D = EDom(p)
            pn = f.locals[f.params[0]][0]
            fl = Interp(p, D, maxdepth=4).run_root(f, {pn: ('P', 'src')}, st=State(g=ONE), this=('this', 'X'))
            end = fl.n
            if end is None:
                continue
            for x, y in (('rho', 'rho'), ('u', 'u'), ('p', 'pressure'), ('ionfrac', 'ionfrac'), ('ionstate', 'ionstate'), ('r', 'r'), ('v', 'v')):
                ix = [(('[', k),) for k in range(D_ndim(f))] if x in 'rv' else [()]
                for i in ix:
                    got = end.m.get(('this', 'X', ('.', 'EosParticleProxy::' + x)) + i)
                    if got is None:
                        if any(k[:3] == ('this', 'X', ('.', 'EosParticleProxy::' + x)) for k in end.m) or got is None and x in 'rv':
                            ctx.count('undecided')
                            continue
                        continue
                    ok = got.d == sym(('P', 'src', ('.', 'Particle::' + y)) + i) if got.d is not None else None
                    verdict(ctx, ok, 'proxy', f.where(), 'EosParticleProxy|' + x, 'EosParticleProxy: %s is the %s of the particle' % (x, y))
    for f in src_functions(p):
        if f.name == 'EOS::ConstructStateVector' and f.body is not None and len(f.params) == 2:
            D = EDom(p)
            a, b = (f.locals[i][0] for i in f.params)
            fl = Interp(p, D, maxdepth=4, inline=lambda g, n: False).run_root(f, {a: ('P', 'part'), b: ('P', 'st')}, st=State(g=ONE), this=('this', 'EOS'))
            end = fl.n
            if end is None:
                continue
            nd = D_ndim(f)
            v = [sym(('P', 'part', ('.', 'EosParticleProxy::v'), ('[', k))) for k in range(nd)]
            rho, u, pr = part('rho'), part('u'), part('p')
            want = {('Wprim', 'density', ()): rho, ('Ucons', 'density', ()): rho, ('Wprim', 'pressure', ()): pr,
                    ('Ucons', 'energy', ()): rho * u + sum((x * x for x in v), ZERO) * rho * P(Fr(1, 2))}
            for k in range(nd):
                want[('Wprim', 'velocity', (('[', k),))] = v[k]
                want[('Ucons', 'momentum', (('[', k),))] = rho * v[k]
            for (w, x, i), val in want.items():
                cl = 'PrimitiveVariables' if w == 'Wprim' else 'ConservedVariables'
                got = end.m.get(('P', 'st', ('.', 'StateVector::' + w), ('.', cl + '::' + x)) + i)
                verdict(ctx, same(got.d, val) if got is not None and got.d is not None else None, 'state', f.where(), 'ConstructStateVector|%s.%s' % (w, x), 'ConstructStateVector: %s.%s describes the same gas' % (w, x))


def D_ndim(f):
    for a in list(f.h['ct']) + list(f.h['ft']):
        if a.isdigit():
            return int(a)
    return 3


class TDom(Terms):
    def intrinsic(self, name, args, obj, node, I, st):
        m = name.split('::')[-1]
        if m in INNER and args and args[0].lv is not None:
            l = args[0].lv
            def rd(f):
                for c in ('EosParticleProxy', 'Particle'):
                    v = st.m.get(l + (('.', '%s::%s' % (c, f)),))
                    if v is not None:
                        return v.d
                l2 = I.deref(l, st)
                for c in ('EosParticleProxy', 'Particle'):
                    v = st.m.get(l2 + (('.', '%s::%s' % (c, f)),))
                    if v is not None:
                        return v.d
                return sym(l2 + (('.', 'Particle::' + f),))
            return V(fun('eos_' + m, rd('rho'), rd('u')), ty='double')
        return Terms.intrinsic(self, name, args, obj, node, I, st)


def thermal(ctx, p):
    """a particle's internal energy, sound speed and pressure are refreshed together, in that order"""
    n = 0
    for f in src_functions(p):
        if f.body is None or f.name.split('::')[-1] != 'ComputeThermalProperties' or not f.params:
            continue
        D = TDom(p)
        pn = f.locals[f.params[0]][0]
        fl = Interp(p, D, maxdepth=4).run_root(f, {pn: ('P', 'part')}, st=State(g=ONE), this=('this', f.cls))
        loc = ('P', 'part')
        outs = [s for s, v in fl.re] + ([fl.n] if fl.n is not None else [])
        rho, u = sym(loc + (('.', 'Particle::rho'),)), sym(loc + (('.', 'Particle::u'),))
        u1 = fun('eos_SpecificInternalEnergy', rho, u)
        for x, want in (('u', u1), ('sound', fun('eos_SoundSpeed', rho, u1)), ('pressure', fun('eos_Pressure', rho, u1))):
            got = None
            for s in outs:
                v = s.m.get(loc + (('.', 'Particle::' + x),))
                if v is not None and v.d is not None:
                    got = v.d if got is None else got
            if got is None:
                verdict(ctx, False if outs and any(s.m.get(loc + (('.', 'Particle::u'),)) is not None for s in outs) else None, 'thermal', f.where(), f.name + '|' + x, '%s: %s is refreshed' % (f.name, x))
                continue
            n += 1
            cs = cases(got)
            ok = any(same(split(got, c), want) for c in cs) and all(same(split(got, c), want) or split(got, c) == sym(loc + (('.', 'Particle::' + x),)) for c in cs)
            verdict(ctx, ok, 'thermal', f.where(), f.name + '|' + x, '%s: %s is that of the current density and of the internal energy just set' % (f.name, x))
    ctx.floor('refreshed thermal quantities', n, 3)


# ---- selection -------------------------------------------------------------------------------------
NAMES = {'energy_eqn': 'Adiabatic', 'constant_temp': 'Adiabatic', 'isothermal': 'Isothermal', 'locally_isothermal': 'LocallyIsothermal', 'disc_locally_isothermal': 'DiscLocallyIsothermal',
         'polytropic': 'Polytropic', 'barotropic': 'Barotropic', 'barotropic2': 'Barotropic2', 'radws': 'Radws'}


def selector(ctx, p, fam):
    """the gas_eos name and the class built for it"""
    n = 0
    for f in src_functions(p):
        if f.body is None:
            continue
        for s in find(f.body, 'if'):
            lits = eq_literals(s[2])
            if lits is None or not lits <= set(NAMES):
                continue
            for new in news(s[3], fam):
                n += 1
                for l in sorted(lits):
                    ok = NAMES[l] == new
                    verdict(ctx, ok, 'select', f.where(s[1]), '%s|%s' % (f.name, l), '%s: gas_eos "%s" builds %s' % (f.name, l, new))
    ctx.floor('selections of an equation of state', n, 3)


def eq_literals(e):
    """the literals of a condition that is a disjunction of equalities with strings"""
    e = strip(e)
    if e is None:
        return None
    if e[0] == 'bin' and e[2] == '||':
        a, b = eq_literals(e[3]), eq_literals(e[4])
        return a | b if a is not None and b is not None else None
    if e[0] == 'call' and e[2].endswith('operator==') and len(e[4]) + (e[5] is not None) == 2:
        for x in list(e[4]) + [e[5]]:
            v = strval(x) if x is not None else None
            if v is not None:
                return {v}
    return None


def news(s, fam):
    for n in find(s, 'new'):
        t = str(n)
        for c in fam:
            if c != 'EOS' and ("'%s::%s'" % (c, c)) in t or ("'%s'" % c) in t and c != 'EOS':
                yield c
                break
