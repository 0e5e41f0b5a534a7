"""P03: unit names, physical constants and unit scales."""
import math
import facts
from facts import find
from termdom import *
from absint import State
from util import *
from kernels import Num, Unknown

# independent reference values, SI
KPC = 3.0857e19
REF = {
 'LengthUnit': {'mpc': 3.0857e22, 'kpc': 3.0857e19, 'pc': 3.0857e16, 'au': 1.495979e11, 'r_sun': 6.957e8, 'r_earth': 6.371e6, 'km': 1e3, 'm': 1, 'cm': 1e-2},
 'MassUnit': {'m_sun': 1.9885e30, 'm_jup': 1.8985e27, 'm_earth': 5.9722e24, 'kg': 1, 'g': 1e-3},
 'TimeUnit': {'gyr': 3.1557e16, 'myr': 3.1557e13, 'yr': 3.1557e7, 'day': 86400, 'sec': 1, 's': 1},
 'VelocityUnit': {'km_s': 1e3, 'au_yr': 1.495979e11 / 3.1557e7, 'm_s': 1, 'cm_s': 1e-2},
 'AccelerationUnit': {'km_s2': 1e3, 'au_yr2': 1.495979e11 / 3.1557e7 ** 2, 'm_s2': 1, 'cm_s2': 1e-2},
 'DensityUnit': {'m_sun_pc3': 1.9885e30 / 3.0857e16 ** 3, 'kg_m3': 1, 'g_cm3': 1e3},
 'ColumnDensityUnit': {'m_sun_pc2': 1.9885e30 / 3.0857e16 ** 2, 'kg_m2': 1, 'g_cm2': 10},
 'PressureUnit': {'Pa': 1, 'bar': 1e5},
 'ForceUnit': {'N': 1, 'dyn': 1e-5},
 'EnergyUnit': {'J': 1, 'erg': 1e-7, 'GJ': 1e9, '10^40erg': 1e33},
 'MomentumUnit': {'m_sunkm_s': 1.9885e33, 'm_sunau_yr': 1.9885e30 * 1.495979e11 / 3.1557e7, 'kgm_s': 1, 'gcm_s': 1e-5},
 'AngularMomentumUnit': {'m_sunkm2_s': 1.9885e36, 'm_sunau2_yr': 1.9885e30 * 1.495979e11 ** 2 / 3.1557e7, 'kgm2_s': 1, 'gcm2_s': 1e-7},
 'AngularVelocityUnit': {'rad_s': 1},
 'MassRateUnit': {'m_sun_myr': 1.9885e30 / 3.1557e13, 'm_sun_yr': 1.9885e30 / 3.1557e7, 'kg_s': 1, 'g_s': 1e-3},
 'LuminosityUnit': {'L_sun': 3.828e26, 'W': 1, 'erg_s': 1e-7},
 'OpacityUnit': {'m2_kg': 1, 'cm2_g': 0.1},
 'MagneticFieldUnit': {'tesla': 1, 'gauss': 1e-4},
 'ChargeUnit': {'C': 1, 'e': 1.602177e-19},
 'CurrentDensityUnit': {'C_s_m2': 1},
 'SpecificEnergyUnit': {'J_kg': 1, 'erg_g': 1e-4},
 'SpecificEnergyRateUnit': {'J_kg_s': 1, 'erg_g_s': 1e-4},
 'TemperatureUnit': {'K': 1},
}
TOL = 4e-3
CREF = {'r_pc': 3.0857e16, 'r_au': 1.495979e11, 'r_sun': 6.957e8, 'r_earth': 6.371e6, 'pc_au': 206264.806, 'km_cm': 1e5, 'm_sun': 1.9885e30, 'm_jup': 1.8985e27, 'm_earth': 5.9722e24,
        'myr': 3.1557e13, 'yr': 3.1557e7, 'day': 86400., 'amu': 1.660539e-27, 'm_hydrogen': 1.6605e-27, 'invm_hydrogen': 6.0222e26, 'c_light': 2.99792458e8, 'G_const': 6.6743e-11,
        'k_boltzmann': 1.38065e-23, 'stefboltz': 5.670374e-8, 'e_charge': 1.602177e-19, 'mu_0': 1.256637e-6, 'L_sun': 3.828e26,
        'pi': math.pi, 'twopi': 2 * math.pi, 'invpi': 1 / math.pi, 'invlogetwo': 1 / math.log(2), 'invlog10two': 1 / math.log10(2), 'invsqrttwo': 2 ** -.5, 'sqrttwo': 2 ** .5, 'onethird': 1 / 3., 'onesixth': 1 / 6.,
        'twothirds': 2 / 3., 'onetwelfth': 1 / 12.}
MATH = {'pi', 'twopi', 'invpi', 'invlogetwo', 'invlog10two', 'invsqrttwo', 'sqrttwo', 'onethird', 'onesixth', 'twothirds', 'onetwelfth', 'km_cm', 'c_light', 'day'}
# measured constants change in the last digits with each adjustment; solar values by convention
CTOL = {'G_const': 2e-4, 'm_hydrogen': 1e-4, 'invm_hydrogen': 1e-4, 'm_sun': 4e-4, 'm_earth': 4e-4, 'm_jup': 2e-4, 'L_sun': 4e-3, 'r_sun': 4e-4, 'yr': 3e-5, 'myr': 3e-5, 'pc_au': 1e-6 * 2, 'r_pc': 2e-5, 'amu': 1e-5}
# physical dimension (mass, length, time) of each quantity and its cgs factor
Q = {'v': (0, 1, -1), 'a': (0, 1, -2), 'rho': (1, -3, 0), 'sigma': (1, -2, 0), 'press': (1, -1, -2), 'f': (1, 1, -2), 'E': (1, 2, -2), 'mom': (1, 1, -1), 'angmom': (1, 2, -1),
     'angvel': (0, 0, -1), 'dmdt': (1, 0, -1), 'L': (1, 2, -3), 'kappa': (-1, 2, 0), 'u': (0, 2, -2), 'dudt': (0, 2, -3)}
BASEQ = {'r': (0, 1, 0), 'm': (1, 0, 0), 't': (0, 0, 1)}
CLASSQ = {'LengthUnit': 'r', 'MassUnit': 'm', 'TimeUnit': 't', 'VelocityUnit': 'v', 'AccelerationUnit': 'a', 'DensityUnit': 'rho', 'ColumnDensityUnit': 'sigma', 'PressureUnit': 'press', 'ForceUnit': 'f', 'EnergyUnit': 'E',
          'MomentumUnit': 'mom', 'AngularMomentumUnit': 'angmom', 'AngularVelocityUnit': 'angvel', 'MassRateUnit': 'dmdt', 'LuminosityUnit': 'L', 'OpacityUnit': 'kappa', 'SpecificEnergyUnit': 'u', 'SpecificEnergyRateUnit': 'dudt', 'TemperatureUnit': 'temp',
          'MagneticFieldUnit': 'B', 'ChargeUnit': 'Q', 'CurrentDensityUnit': 'Jcur'}


class UDom(Terms):
    def __init__(self, p):
        Terms.__init__(self, p, opaque_gvars={'G_const', 'k_boltzmann', 'm_hydrogen'})
        self.copies = []

    def container(self, name, obj, node, I):
        if not node[4]:
            return None
        key = strval(node[4][0])
        f = None
        if obj is not None and obj.lv:
            for it in reversed(obj.lv):
                if isinstance(it, tuple) and len(it) == 2 and it[0] == '.':
                    f = it[1]
                    break
        if key and f == 'Parameters::stringparams':
            return V(None, None, ('PAR', key), None, 'string')
        if key and f in ('Parameters::intparams', 'Parameters::floatparams'):
            return V(sym(('par', key)), None, ('PAR', key), None, 'int')
        return None

    def copied(self, dst, src, I):
        if not I.quiet:
            self.copies.append((dst, src, I.fn))

    def intrinsic(self, name, args, obj, node, I, st):
        if name.split('::')[-1] == 'SIUnit' and obj is not None and obj.lv and args:
            return V(fun('SI', ('o', obj.lv[-1][1].split('::')[-1] if isinstance(obj.lv[-1], tuple) else str(obj.lv)), ('a', I.deref(args[0].lv, st) if args[0].lv else None)), ty='double')
        return Terms.intrinsic(self, name, args, obj, node, I, st)


def ret(p, f, D=None, st=None, args=None, this=None):
    D = D or UDom(p)
    I = Interp(p, D, maxdepth=6)
    fl = I.run_root(f, args, st=st or State(g=ONE), this=this)
    rv = None
    for s, v in reversed(fl.re):
        if v is None:
            continue
        if v.d is None and v.lv is not None and v.lv[0] == 'S':
            v = V(fun('string', ('s', v.lv[1])))
        if v.d is None:
            return None
        rv = v.d if rv is None else D.join(s.g, v.d, rv, I)
    return rv


def by_name(p, f):
    """unit name -> normal form of the result, from the string comparisons of f"""
    D = UDom(p)
    v = ret(p, f, D)
    if v is None or not D.strlits:
        return None
    lits = set(D.strlits)
    for a in atoms_of(v):
        k = akey(a)
        if k[0] == 'i':
            if k[1] != 'streq':
                return None
    out = {}
    for l in lits | {'\0other'}:
        out[l] = Subst(lambda k: (ONE if k[2][0] == l else ZERO) if k[0] == 'i' and k[1] == 'streq' else None)(v)
    return out


def run(ctx):
    p = ctx.program()
    ctx.rule('For each unit class the result of SIUnit is value-numbered per unit name and compared with an independent table of SI values; LatexLabel must cover exactly the same names. SetupUnits is value-numbered: every quantity must take its own input/output unit parameters, its scale times its SI value must equal the product of mass, length and time scales given by its dimension, input and output must describe the same code unit, and cgs factors must be exact. Helper conversions must be mutually inverse. Constants are compared with reference values.')
    constants(ctx, p)
    names(ctx, p)
    setup(ctx, p)
    helpers(ctx, p)


def constants(ctx, p):
    n = 0
    for g, d in sorted(p.globals.items()):
        b = g.split('::')[-1]
        m = b[:-3] if b.endswith('_dp') else b
        if m not in CREF or not d.get('const'):
            continue
        v = cval(p, d['init'])
        if v is None:
            ctx.count('undecided')
            continue
        n += 1
        tol = CTOL.get(m, 2e-9 if m in MATH else 2e-5)
        if abs(v / CREF[m] - 1) > tol:
            ctx.bad('constant', 'src/Headers/Constants.h', b, 'constant %s = %r, reference value %r' % (b, v, CREF[m]))
        else:
            ctx.ok('constant', 'src/Headers/Constants.h', '%s=%g' % (b, v))
    ctx.floor('constants with a reference value', n, 15)


def cval(p, e):
    e = strip(e)
    if e is None:
        return None
    if e[0] in ('flt', 'int'):
        return float(e[2])
    if e[0] == 'un' and e[2] == '-':
        x = cval(p, e[3])
        return None if x is None else -x
    if e[0] == 'bin' and e[2] in '+-*/':
        a, b = cval(p, e[3]), cval(p, e[4])
        if a is None or b is None:
            return None
        return a + b if e[2] == '+' else a - b if e[2] == '-' else a * b if e[2] == '*' else a / b
    if e[0] == 'gvar':
        g = p.globals.get(e[2])
        return cval(p, g['init']) if g and g['const'] else None
    if e[0] == 'call' and e[2] in ('sqrt', 'std::sqrt') and e[4]:
        x = cval(p, e[4][0])
        return None if x is None else math.sqrt(x)
    return None


def names(ctx, p):
    classes = sorted(p.derived('SimUnit'))
    ctx.floor('unit classes', len(classes), 10)
    total = 0
    for c in classes:
        fs = p.named(c + '::SIUnit')
        if not fs:
            continue
        f = fs[0]
        vals = by_name_num(p, f)
        if vals is None:
            ctx.count('undecided unit classes')
            continue
        ref = REF.get(c)
        for u, v in sorted(vals.items()):
            if u in ('', '\0other'):
                continue
            total += 1
            if ref is None or u not in ref:
                ctx.count('names without reference')
                continue
            if v is None:
                ctx.count('undecided')
            elif abs(v / ref[u] - 1) > TOL:
                ctx.bad('unit-value', f.where(), '%s|%s' % (c, u), '%s: 1 %s is taken as %g SI (%g expected)' % (c, u, v, ref[u]))
            else:
                ctx.ok('unit-value', f.where(), '%s %s = %g' % (c, u, v))
        for u in (ref or {}):
            if u not in vals and u not in ('s', 'sec'):
                ctx.bad('unit-value', f.where(), '%s|%s' % (c, u), '%s no longer accepts the unit "%s"' % (c, u))
        un = unknown_guard(p, f)
        if un is not None and un.const() not in (None, 0):
            ctx.bad('unknown-unit', f.where(), c, '%s: SIUnit returns a value for a name it does not know instead of raising an error' % c)
        elif un is not None:
            ctx.ok('unknown-unit', f.where(), c)
        if vals.get('', 1.0) not in (None, 1.0):
            ctx.bad('unit-value', f.where(), c + '|empty', '%s: an empty unit name must mean SI (1), gives %g' % (c, vals['']))
        g = p.named(c + '::LatexLabel')
        if g:
            lv = by_name(p, g[0])
            if lv is None:
                ctx.count('undecided labels')
                continue
            ln = {u for u in lv if u not in ('', '\0other')}
            sn = {u for u in vals if u not in ('', '\0other')}
            for u in sorted(ln ^ sn):
                ctx.bad('label', g[0].where(), '%s|%s' % (c, u), '%s: unit "%s" is known to %s only' % (c, u, 'the label' if u in ln else 'the conversion'))
            seen = {}
            for u in ln & sn:
                ctx.ok('label', g[0].where(), u)
                t = lv[u]
                if t in seen.values():
                    o = [x for x in seen if seen[x] == t][0]
                    ctx.bad('label', g[0].where(), '%s|%s' % (c, min(u, o)), '%s: units "%s" and "%s" carry the same label' % (c, u, o))
                seen[u] = t
    ctx.floor('unit names', total, 25)


def unknown_guard(p, f):
    """the condition, for a name equal to none of the literals, of returning normally"""
    D = UDom(p)
    fl = Interp(p, D, maxdepth=6).run_root(f, st=State(g=ONE))
    g = ZERO
    for s, v in fl.re:
        if s.g is None:
            return None
        g = g + s.g
    return Subst(lambda k: ZERO if k[0] == 'i' and k[1] == 'streq' else None)(g)


def by_name_num(p, f):
    v = by_name(p, f)
    if v is None:
        return None
    out = {}
    for k, q in v.items():
        try:
            out[k] = Num.num(Subst(lambda kk: gval(p, kk))(q), 0.0)
        except Unknown:
            out[k] = None
    return out


def gval(p, k):
    if k[0] == 'v' and isinstance(k[1], tuple) and k[1][0] == 'G':
        for g, d in p.globals.items():
            if g.split('::')[-1] == k[1][1]:
                x = cval(p, d['init'])
                if x is not None:
                    return P(Fr(x))
    return None


def setup(ctx, p):
    fs = p.named('SimUnits::SetupUnits')
    if not fs:
        ctx.broken('SimUnits::SetupUnits not found')
    f = fs[0]
    D = UDom(p)
    I = Interp(p, D, maxdepth=6)
    st = State(g=ONE)
    fl = I.run_root(f, st=st, this=('this', 'U'))
    outs = [(s, v) for s, v in fl.re] + ([(fl.n, None)] if fl.n else [])
    # the flow that is not the early return for dimensionless runs
    end = outs[-1][0]
    for s, v in outs:
        if len(s.m) > len(end.m):
            end = s

    def fld(q, what):
        for k, v in end.m.items():
            if k[0] == 'this' and len(k) == 4 and k[2] == ('.', 'SimUnits::' + q) and k[3] == ('.', 'SimUnit::' + what):
                return v.d
        return None

    def SI(q, key):
        return fun('SI', ('o', q), ('a', ('PAR', key)))

    def verdict(ok, rule, key, text):
        if ok is None:
            ctx.count('undecided')
        elif ok:
            ctx.ok(rule, f.where(), text)
        else:
            ctx.bad(rule, f.where(), key, 'SimUnits::SetupUnits: ' + text + ' does not hold')
    S = {}
    nset = 0
    for q in list(BASEQ) + list(Q) + ['temp']:
        oS, iS, osc, isc = fld(q, 'outSI'), fld(q, 'inSI'), fld(q, 'outscale'), fld(q, 'inscale')
        if None in (oS, iS, osc, isc):
            if any(k[0] == 'this' and len(k) > 2 and k[2] == ('.', 'SimUnits::' + q) and k[-1] == ('.', 'SimUnit::outscale') for k in end.m):
                ctx.count('undecided')
                continue
            ctx.bad('scale', f.where(), q + '|unset', 'SimUnits::SetupUnits leaves a scale of quantity %s unset' % q)
            continue
        nset += 1
        verdict(same(oS, SI(q, q + 'outunit')), 'own-unit', q + '|out', 'the output unit of %s is read from its own parameter' % q)
        verdict(same(iS, SI(q, q + 'inunit')), 'own-unit', q + '|in', 'the input unit of %s is read from its own parameter' % q)
        S[q] = osc * oS
        S[q + '_in'] = isc * iS
    if not all(b in S for b in BASEQ):
        return
    ctx.floor('quantities scaled', nset, 8)
    G, kB, mH = (sym(('G', x)) for x in ('G_const', 'k_boltzmann', 'm_hydrogen'))
    # the input side may describe the code units differently only for r and m; everything else follows
    for side in ('', '_in'):
        r, m, t = S['r' + side], S['m' + side], S['t' + side]
        verdict(same(t * t * G * m, r ** 3), 'scale', 't' + side, 'the time unit makes G=1 (%s)' % (side or 'out'))
        for q, (a, b, c) in Q.items():
            if q + side in S:
                verdict(same(S[q + side], m ** a * r ** b * t ** c), 'scale', q + side, 'scale of %s%s is m^%d r^%d t^%d' % (q, side, a, b, c))
        if 'temp' + side in S and 'u' + side in S:
            verdict(same(S['temp' + side] * kB, mH * S['u' + side]), 'scale', 'temp' + side, 'temperature scale is m_H u/k_B')
    for b in ('r', 'm'):
        verdict(same(S[b], S[b + '_in']), 'scale', b + '|in=out', 'input and output describe the same code unit of %s' % b)
        v = fld(b, 'outscale')
        verdict(v.const() == 1, 'scale', b + '|one', 'the code unit of %s is one output unit' % b)
    cg = {'r': 100, 'm': 1000, 't': 1, 'v': 100, 'a': 100, 'rho': Fr(1, 1000), 'sigma': Fr(1, 10), 'press': 10, 'f': 10 ** 5, 'E': 10 ** 7, 'mom': 10 ** 5, 'angmom': 10 ** 7, 'angvel': 1, 'dmdt': 1000, 'L': 10 ** 7,
          'kappa': 10, 'u': 10 ** 4, 'dudt': 10 ** 4, 'temp': 1}
    for q, k in cg.items():
        v = fld(q, 'outcgs')
        if v is not None and q in S:
            verdict(same(v, P(k) * fld(q, 'outSI')), 'cgs', q, 'cgs factor of %s is %s' % (q, k))
    # copies of unit names
    ncopy = 0
    for dst, src, fn in D.copies:
        if src[0] == 'PAR' and dst[0] == 'PAR':
            ncopy += 1
            ok = dst[1].replace('inunit', '') == src[1].replace('outunit', '') and dst[1].endswith('inunit') and src[1].endswith('outunit')
            verdict(ok, 'own-unit', 'default|' + dst[1], 'parameter %s defaults to %s' % (dst[1], dst[1].replace('inunit', 'outunit')))
        elif src[0] == 'PAR' and dst[0] == 'this' and len(dst) == 4:
            q, w = dst[2][1].split('::')[-1], dst[3][1].split('::')[-1]
            if w in ('inunit', 'outunit'):
                ncopy += 1
                verdict(src[1] == q + w, 'own-unit', 'name|%s%s' % (q, w), 'unit name %s.%s is parameter %s%s' % (q, w, q, w))
    ctx.count('unit names passed on', ncopy)
    # unit names set by default are accepted
    acc = {}
    for c, q in CLASSQ.items():
        g = p.named(c + '::SIUnit')
        if g:
            v = by_name(p, g[0])
            if v is not None:
                acc[q] = {x for x in v if x != '\0other'}
    for g in p.named('Parameters::SetDefaultValues'):
        for n in find(g.body, 'call', 'asg'):
            if n[0] == 'call' and n[2].endswith('operator=') and len(n[4]) >= 1:
                l, r = strip(n[5]) if n[5] else strip(n[4][0]), n[4][-1]
            elif n[0] == 'asg':
                l, r = strip(n[3]), n[4]
            else:
                continue
            if l and l[0] == 'call' and l[4] and strval(l[4][0]):
                key, val = strval(l[4][0]), strval(r)
                for q in acc:
                    if val is not None and key in (q + 'inunit', q + 'outunit'):
                        if val in acc[q]:
                            ctx.ok('default-unit', g.where(n[1]), key)
                        else:
                            ctx.bad('default-unit', g.where(n[1]), key, 'default unit "%s" of parameter %s is not a unit of that quantity' % (val, key))


def helpers(ctx, p):
    v = sym('x')
    def val(name, arg, nm=None):
        fs = p.named('SimUnit::' + name)
        if not fs:
            return None, None
        f = fs[0]
        return ret(p, f, Terms(p), args={f.locals[f.params[0]][0]: V(arg, ty='double')}, this=('this', 'X')), f
    F = lambda n: sym(('this', 'X', ('.', 'SimUnit::' + n)))
    want = {'Input_to_CodeUnits': v / F('inscale'), 'Output_to_CodeUnits': v / F('outscale'), 'Code_to_InputUnits': v * F('inscale'), 'Code_to_OutputUnits': v * F('outscale'),
            'SI_to_CodeUnits': v / (F('outscale') * F('outSI')), 'CGS_to_CodeUnits': v / (F('outscale') * F('outcgs')), 'Code_to_SIUnits': v * F('outscale') * F('outSI'), 'Code_to_CGSUnits': v * F('outscale') * F('outcgs')}
    n = 0
    for k, w in want.items():
        r, f = val(k, v)
        if r is None:
            continue
        n += 1
        if same(r, w) is False:
            ctx.bad('helper', f.where(), k, 'SimUnit::%s(x) is %s, must be %s' % (k, show(r), show(w)))
        else:
            ctx.ok('helper', f.where(), k)
    ctx.floor('conversion helpers', n, 3)
    fs = p.named('SimUnit::OutputScale')
    if fs:
        r = ret(p, fs[0], UDom(p), this=('this', 'X'))
        if r is not None:
            a = [x for x in atoms_of(r) if akey(x)[0] == 'f' and akey(x)[1] == 'SI']
            if len(a) == 1:
                w = F('inscale') * F('inSI') / A(akey(a[0]))
                if same(r, w) is False:
                    ctx.bad('helper', fs[0].where(), 'OutputScale', 'SimUnit::OutputScale is %s' % show(r))
                else:
                    ctx.ok('helper', fs[0].where(), 'OutputScale')
