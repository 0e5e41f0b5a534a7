"""P08: Riemann solvers and the meshless reconstruction around them."""
import itertools, math, zlib
import facts
from facts import find
from termdom import *
import terms
from absint import State, V, Interp
from eos import EDom, split, canon, D_ndim
from util import *
from gravity import verdict
from pairs import PairDom, zero_small

GAM = Fr(7, 5)


def S_(*n):
    return sym(n if len(n) > 1 else n[0])


def params(f):
    return [(f.locals[i][0], f.locals[i][1]) for i in f.params]


def variants(p, name, npar=None):
    """all instantiations of a method in the three dimensions"""
    return sorted((g for g in p.fns.values() if g.name == name and g.body is not None and (npar is None or len(g.params) == npar)), key=lambda g: (g.file, g.line, g.h['ct'], g.m))


def conds(q):
    out = []
    for a in sorted(atoms_of(q), key=str):
        k = akey(a)
        if k[0] == 'i' and a not in out:
            out.append(a)
    return out


def unit(q, nd, name='n'):
    """use n.n = 1 in a polynomial of the components of a unit vector"""
    n0 = next(iter(atoms_of(sym(('P', name, ('[', 0))))))
    rest = ONE - sum((sym(('P', name, ('[', k))) ** 2 for k in range(1, nd)), ZERO)
    for _ in range(12):
        hit = False
        r = ZERO
        for m, c in q.t.items():
            e = next((x for a, x in m if a == n0), 0)
            if e >= 2 and e == int(e):
                hit = True
                mm = tuple((a, x - 2) if a == n0 else (a, x) for a, x in m)
                mm = tuple((a, x) for a, x in mm if x)
                r = r + Poly({mm: c}) * rest
            else:
                r = r + Poly({m: c})
        q = r
        if not hit:
            break
    return q


def zero(q, nd):
    """q == 0 for a unit vector n"""
    try:
        for _ in range(4):
            q2 = unit(clear(q), nd)
            if q2 == q:
                break
            q = q2
        return not q.t
    except TooBig:
        return None


class RDom(EDom):
    """names the wave speeds / star state instead of computing them"""
    opaque_out = {}
    unit_nd = 0

    quot = None
    rule = staticmethod(lambda q: q)

    def arith(self, op, a, b, node, I):
        # the states are given through the speed of the contact: recognise it
        if op == '/' and self.quot is not None and isinstance(a.d, Poly) and isinstance(b.d, Poly) and len(b.d.t) > 1:
            for q in self.quot if isinstance(self.quot, tuple) else (self.quot,):
                try:
                    if self.unit_nd and unit(a.d, self.unit_nd) == unit(q * b.d, self.unit_nd) or not self.unit_nd and same(self.rule(a.d), self.rule(q * b.d)):
                        return q
                except TooBig:
                    pass
        r = EDom.arith(self, op, a, b, node, I)
        if self.unit_nd > 1 and isinstance(r, Poly) and op in ('*', '+', '-'):
            r = unit(r, self.unit_nd)
        return r

    def intrinsic(self, name, args, obj, node, I, st):
        m = name.split('::')[-1]
        if m in self.opaque_out:
            outs = self.opaque_out[m]
            rs = [a for a in args if a.lv is not None and a.d is not None or a.lv is not None]
            rs = rs[-len(outs):]
            if len(rs) == len(outs):
                for a, s in zip(rs, outs):
                    I.store(a.lv, V(sym(s), ty='double'), st, node, 'double')
                return V(None)
        return EDom.intrinsic(self, name, args, obj, node, I, st)


def run(ctx):
    p = ctx.program()
    ctx.rule('The Riemann solvers are value-numbered in 1, 2 and 3 dimensions with symbolic states, face normal (of unit length) and face velocity. Fluxes of equal states must be the physical flux; the star-region fluxes must satisfy the jump conditions with one pressure across the contact; the sampled exact solution must be an exact weak solution (jump conditions across every wave, simple-wave relations inside fans); the pressure iteration must be Newton\'s method for the exact pressure function. Rotation and small-matrix inverses are multiplied out. Face states of the meshless schemes must be the same function of the particle on either side.')
    hllc(ctx, p)
    speeds(ctx, p)
    rotation(ctx, p)
    exact_flux(ctx, p)
    sample(ctx, p)
    newton(ctx, p)
    primitive(ctx, p)
    inverse(ctx, p)
    faces(ctx, p)
    convert(ctx, p)


# ---- HLLC ------------------------------------------------------------------------------------------
def flags(p, cls, D, this, gamma, zmf, iso):
    """the fields a constructor (gamma, zero_mass_flux, isothermal) sets"""
    out = {}
    for g in p.fns.values():
        if g.h['kind'] == 'ctor' and g.cls == cls and len(g.params) >= 2 and g.body is not None and any('bool' in t for n, t in params(g)):
            ps = params(g)
            a = {}
            bools = [n for n, t in ps if t == 'bool']
            vals = [zmf, iso]
            for n, t in ps:
                a[n] = V(P(1 if vals[bools.index(n)] else 0), 1 if vals[bools.index(n)] else 0, ty='bool') if n in bools and bools.index(n) < 2 else V(gamma, ty='double')
            fl = Interp(p, D, maxdepth=4).run_root(g, a, st=State(g=ONE), this=this)
            if fl.n is not None:
                for k, v in fl.n.m.items():
                    if k[:2] == this:
                        out[k] = v
            break
    return out


def state_syms(tag, nd):
    return {'rho': sym((tag, 'rho')), 'p': sym((tag, 'p')), 'v': [sym((tag, 'v', k)) for k in range(nd)], 'e': sym((tag, 'e')), 'c': sym((tag, 'c'))}


def put_state(st, base, s, nd):
    """a StateVector object"""
    w, u = (('.', 'StateVector::Wprim'),), (('.', 'StateVector::Ucons'),)
    st.m[base + w + (('.', 'PrimitiveVariables::density'),)] = V(s['rho'], ty='double')
    st.m[base + w + (('.', 'PrimitiveVariables::pressure'),)] = V(s['p'], ty='double')
    st.m[base + u + (('.', 'ConservedVariables::density'),)] = V(s['rho'], ty='double')
    st.m[base + u + (('.', 'ConservedVariables::energy'),)] = V(s['e'], ty='double')
    st.m[base + (('.', 'StateVector::sound_speed'),)] = V(s['c'], ty='double')
    for k in range(nd):
        st.m[base + w + (('.', 'PrimitiveVariables::velocity'), ('[', k))] = V(s['v'][k], ty='double')
        st.m[base + u + (('.', 'ConservedVariables::momentum'), ('[', k))] = V(s['rho'] * s['v'][k], ty='double')


def put_W(st, base, s, nd):
    for k in range(nd):
        st.m[base + (('[', k),)] = V(s['v'][k], ty='double')
    st.m[base + (('[', nd),)] = V(s['rho'], ty='double')
    st.m[base + (('[', nd + 1),)] = V(s['p'], ty='double')


def solve(p, f, nd, L, R, flg, opaque, D=None):
    """flux tensor and face velocity returned by ComputeFluxes(L, R, n, vface, flux)"""
    D = D or RDom(p)
    D.opaque_out = opaque
    I = Interp(p, D, maxdepth=7)
    st = State(g=ONE)
    for k, v in flg.items():
        st.m[k] = v
    ps = params(f)
    a = {}
    for (n, t), tag, s in zip(ps[:2], ('WL', 'WR'), (L, R)):
        if 'StateVector' in t:
            put_state(st, ('P', tag), s, nd)
            a[n] = ('P', tag)
        else:
            put_W(st, ('P', tag), s, nd)
            a[n] = V(ptr=('arr', ('P', tag)), ty=t)
    for (n, t), tag in zip(ps[2:5], ('n', 'w', 'F')):
        a[n] = V(ptr=('arr', ('P', tag)), ty=t)
    fl = I.run_root(f, a, st=st, this=('this', f.cls))
    end = fl.n
    if end is None:
        end = fl.re[-1][0]

    def get(l):
        v = end.m.get(l)
        return v.d if v is not None else None
    flux = [[get(('P', 'F', ('[', i), ('[', k))) for k in range(nd)] for i in range(nd + 2)]
    w = [get(('P', 'w', ('[', k))) or sym(('P', 'w', ('[', k))) for k in range(nd)]
    return flux, w


def N(nd):
    return [sym(('P', 'n', ('[', k))) for k in range(nd)]


def W0(nd):
    return [sym(('P', 'w', ('[', k))) for k in range(nd)]


def dot(a, b):
    return sum((x * y for x, y in zip(a, b)), ZERO)


def lab(nd, rho, v, pr, E, w):
    """flux along n, in the lab frame, through a face moving with w, of gas with velocity v and energy E in the frame of the face"""
    n = N(nd)
    vn = dot(v, n)
    fm = rho * vn
    mom = [rho * vn * v[k] + pr * n[k] + fm * w[k] for k in range(nd)]
    e = (E + pr) * vn + dot([rho * vn * v[k] + pr * n[k] for k in range(nd)], w) + P(Fr(1, 2)) * fm * dot(w, w)
    return mom + [fm, e]


def compare(flux, want, nd, comps=None):
    """the normal component of a flux tensor against the wanted one"""
    n = N(nd)
    res = True
    for i in range(nd + 2):
        if comps is not None and i not in comps:
            continue
        if any(flux[i][k] is None for k in range(nd)):
            return None
        r = zero(dot(flux[i], n) - want[i], nd)
        if r is None:
            return None
        if r is False:
            if any(akey(a)[0] == 'f' and akey(a)[1] in ('top', 'pow') for k in range(nd) for a in atoms_of(flux[i][k])):
                return None
            return False
    return res


def allconds(flux, w):
    out = []
    for q in [x for r in flux for x in r] + list(w):
        if q is not None:
            for a in conds(q):
                if a not in out:
                    out.append(a)
    return out


def pick(flux, w, case):
    return [[split(x, case) if x is not None else None for x in r] for r in flux], [split(x, case) for x in w]


def hllc(ctx, p):
    n = 0
    cls = 'HllcRiemannSolver'
    for f in variants(p, cls + '::ComputeFluxes', 5):
        nd = D_ndim(f)
        g = P(GAM)
        isW = 'StateVector' not in params(f)[0][1]
        key = '%s|%d|%s' % (cls, nd, 'W' if isW else 'S')
        form = 'primitive' if isW else 'state'
        for zmf, iso in ((False, False), (True, False), (False, True)):
            D = RDom(p)
            flg = flags(p, cls, D, ('this', f.cls), g, zmf, iso)
            if not flg:
                ctx.count('undecided')
                continue
            s = state_syms('S', nd)
            v2 = dot(s['v'], s['v'])
            e = s['p'] / (GAM - 1) + P(Fr(1, 2)) * s['rho'] * v2
            s['e'] = e
            if not isW:
                s['c'] = sym(('S', 'c'))
            flux, w = solve(p, f, nd, s, s, flg, {}, D)
            n += 1
            tag = '%s%s' % ('zero mass flux' if zmf else 'isothermal' if iso else 'adiabatic', '')
            if zmf:
                vn = dot(s['v'], N(nd))
                want = lab(nd, ZERO, [ZERO] * nd, s['p'], ZERO, [W0(nd)[k] + vn * N(nd)[k] for k in range(nd)])
            else:
                want = lab(nd, s['rho'], s['v'], s['p'], e, W0(nd))
            comps = range(nd + 1) if iso else None      # the energy is not evolved with an isothermal gas
            cs = allconds(flux, w)
            ok = True
            if len(cs) > 6:
                ok = None
            else:
                for vs in itertools.product((0, 1), repeat=len(cs)):
                    fx, ww = pick(flux, w, list(zip(cs, vs)))
                    r = compare(fx, want, nd, comps)
                    if r is not True:
                        ok = r if ok is not None else None
            verdict(ctx, ok, 'consistent', f.where(), key + '|consistent|' + tag, '%s in %d dimensions (%s form, %s): the flux between equal states is the physical flux through the moving face' % (cls, nd, form, tag))
            if zmf:
                ok = all(zero(w[k] - W0(nd)[k] - vn * N(nd)[k], nd) for k in range(nd)) if not allconds([[]], w) else None
                verdict(ctx, ok, 'consistent', f.where(), key + '|face', '%s in %d dimensions: with zero mass flux the face moves with the contact discontinuity' % (cls, nd))
        if nd <= 2:
            n += star(ctx, p, f, cls, nd, isW, key)
    ctx.floor('HLLC flux cases', n, 6)


def star(ctx, p, f, cls, nd, isW, key):
    """two different states: each region of the fan, selected by the wave speeds"""
    n = 0
    g = P(GAM)
    Sm, Sx = sym(('O', 'Smin')), sym(('O', 'Smax'))
    L, R = state_syms('L', nd), state_syms('R', nd)
    nn = N(nd)
    for s, tag in ((L, 'L'), (R, 'R')):
        if nd == 2:
            # any velocity, by its components along the normal and across it
            s['v'] = [sym((tag, 'vn')) * nn[0] - sym((tag, 'vt')) * nn[1], sym((tag, 'vn')) * nn[1] + sym((tag, 'vt')) * nn[0]]
        if isW:
            s['e'] = unit(s['p'] / (GAM - 1) + P(Fr(1, 2)) * s['rho'] * dot(s['v'], s['v']), nd)
        s['vn'] = unit(dot(s['v'], nn), nd)
    ml, mr = L['rho'] * (Sm - L['vn']), R['rho'] * (Sx - R['vn'])
    # the pressure on the right is given through the speed of the contact
    vm = sym('vm')
    pR = R['p']
    for zmf, iso in ((False, False), (True, False), (False, True), (True, True)):
        D = RDom(p)
        D.unit_nd = nd
        D.quot = None if iso else vm
        R['p'] = pR if iso else L['p'] + mr * R['vn'] - ml * L['vn'] + vm * (ml - mr)
        if isW:
            R['e'] = unit(R['p'] / (GAM - 1) + P(Fr(1, 2)) * R['rho'] * dot(R['v'], R['v']), nd)
        flg = flags(p, cls, D, ('this', f.cls), g, zmf, iso)
        try:
            flux, w = solve(p, f, nd, L, R, flg, {'HLL_Speeds': (('O', 'Smin'), ('O', 'Smax'))}, D)
        except TooBig:
            ctx.count('undecided')
            continue
        if not any(akey(a) == akey(next(iter(atoms_of(Sm)))) for r in flux for x in r if x is not None for a in atoms_of(x)):
            ctx.count('undecided')
            continue

        if zmf:
            # the face follows the contact: with one sound speed, the average velocity of the fan
            vc = vm
            if iso:
                vc = (Sx * L['rho'] * (L['vn'] - Sm) - Sm * R['rho'] * (R['vn'] - Sx)) / (L['rho'] * (L['vn'] - Sm) - R['rho'] * (R['vn'] - Sx))
            try:
                ok = tri(None if allconds([[]], [w[k]]) else zero(w[k] - W0(nd)[k] - vc * nn[k], nd) for k in range(nd))
            except TooBig:
                ok = None
            n += 1
            verdict(ctx, ok, 'star', f.where(), key + '|contact|' + ('iso' if iso else ''), '%s in %d dimensions%s: with zero mass flux the face moves with the contact' % (cls, nd, ' (isothermal)' if iso else ''))
        if zmf and iso:
            continue

        def state_flux(s):
            return lab(nd, s['rho'], s['v'], s['p'], s['e'], W0(nd))

        def star_flux(s, S):
            ps = L['p'] + L['rho'] * (Sm - L['vn']) * (vm - L['vn'])
            if zmf:
                return lab(nd, ZERO, [ZERO] * nd, ps, ZERO, [W0(nd)[k] + vm * nn[k] for k in range(nd)])
            r = s['rho'] * (S - s['vn']) / (S - vm)
            v = [s['v'][k] + (vm - s['vn']) * nn[k] for k in range(nd)]
            E = r * (s['e'] / s['rho'] + (vm - s['vn']) * (vm + s['p'] / (s['rho'] * (S - s['vn']))))
            return lab(nd, r, v, ps, E, W0(nd))
        cs = allconds(flux, w)
        # regions: numbers for the wave speeds decide their conditions; what is left is the sign of vm
        regions = [('left', 1, 2, None), ('right', -2, -1, None), ('fan', -1, 1, 1), ('fan', -1, 1, 0)]
        for region, a, b, side in regions:
            if zmf and region != 'fan':
                continue
            Sub = Subst(lambda k: P(a) if k == ('v', ('O', 'Smin')) else P(b) if k == ('v', ('O', 'Smax')) else None)
            case, left = [], []
            for x in cs:
                v = Sub(A(akey(x))).const()
                if v is not None:
                    case.append((x, int(v)))
                else:
                    left.append(x)
            if zmf:
                # in the frame of the contact the wave speeds straddle it
                for x in list(left):
                    Sub2 = Subst(lambda k: P(1) if k == ('v', ('O', 'Smax')) else P(-1) if k == ('v', ('O', 'Smin')) else ZERO if k[0] == 'v' and k[1][:1] in (('L',), ('R',)) and k[1][1] in ('v', 'p', 'vn', 'vt') else ONE if k[0] == 'v' and k[1][:1] in (('L',), ('R',)) else ZERO if k == ('v', 'vm') else None)
                    v = Sub2(A(akey(x))).const()
                    if v is not None:
                        case.append((x, int(v)))
                        left.remove(x)
            if region != 'fan':
                want = state_flux(L if region == 'left' else R)
                cand = [want]
            elif iso:
                want = None
                fl_, fr_ = state_flux(L), state_flux(R)
                W0_ = W0(nd)
                # HLL average, component by component, in the frame of the face
                def cons(s):
                    return [s['rho'] * (s['v'][k] + W0_[k]) for k in range(nd)] + [s['rho']]
                ql, qr = cons(L), cons(R)
                want = [(Sx * fl_[i] - Sm * fr_[i] + Sm * Sx * (qr[i] - ql[i])) / (Sx - Sm) for i in range(nd + 1)] + [None]
            elif side is not None:
                want = star_flux(L, Sm) if side else star_flux(R, Sx)
            if len(left) > 2:
                ctx.count('undecided')
                continue
            res = []
            for vs in itertools.product((0, 1), repeat=len(left)):
                # the sign of the speed of the contact
                if region == 'fan' and not iso and not zmf:
                    sg = [contact_sign(x, v, vm) for x, v in zip(left, vs)]
                    if None in sg:
                        res.append(None)
                        continue
                    if any(z != side for z in sg):
                        continue
                fx, ww = pick(flux, w, case + list(zip(left, vs)))
                res.append(compare(fx, want, nd, range(nd + 1) if iso else None))
            if not res:
                ctx.count('undecided')
                continue
            ok = False if False in res else None if None in res else True
            n += 1
            what = {'left': 'left state', 'right': 'right state', 'fan': 'average' if iso else ('left' if side else 'right') + ' star state'}[region]
            verdict(ctx, ok, 'star', f.where(), '%s|%s|%s|%s' % (key, what, 'zmf' if zmf else '', 'iso' if iso else ''), '%s in %d dimensions%s: the flux in the region of the %s is the one the jump conditions require' % (cls, nd, ' with zero mass flux' if zmf else ' (isothermal)' if iso else '', what))
    return n


def contact_sign(a, v, vm):
    """1 if the condition a (with value v) means vm > 0, 0 if vm <= 0"""
    pv = pos(vm)
    if pv == A(akey(a)):
        return v
    if pv == ONE - A(akey(a)):
        return 1 - v
    # the same up to a factor whose sign is fixed by the ordering of the waves: evaluate at a sample
    k = akey(a)
    if k[0] != 'i' or k[1] != 'pos':
        return None
    q = terms._polyobj[k[2]]
    out = set()
    for s in (1, -1):
        def f(kk, s=s):
            if kk[0] != 'v':
                return None
            n = kk[1]
            if n == 'vm':
                return P(s)
            if n == ('O', 'Smin'):
                return P(-3)
            if n == ('O', 'Smax'):
                return P(3)
            if n[0] in ('L', 'R'):
                return P(1) if n[1] in ('rho', 'p', 'e', 'c') else P(s) if n[1] == 'vn' or n[1:] == ('v', 0) else ZERO
            if n[:2] == ('P', 'n'):
                return ONE if n[2][1] == 0 else ZERO
            return None
        c = Subst(f)(q).const()
        if c is None or c == 0:
            return None
        out.add((s > 0, c > 0))
    if out == {(True, True), (False, False)}:
        return v
    if out == {(True, False), (False, True)}:
        return 1 - v
    return None


def speeds(ctx, p):
    """the outermost wave speeds: those of the states themselves bound them, and left and right are mirror images"""
    for f in variants(p, 'HllcRiemannSolver::HLL_Speeds', 4):
        nd = D_ndim(f)
        if nd > 2:
            continue
        D = RDom(p)
        I = Interp(p, D, maxdepth=5)
        ps = params(f)
        st = State(g=ONE)
        # the roots of the densities are in the ratio x : y with x + y = 1
        x, y = sym('x'), sym('y')
        rule = Subst(lambda k: 1 - x if k == ('v', 'y') else None)
        out = {}
        for rev in (0, 1):
            st = State(g=ONE)
            for (n, t), tag in zip(ps[:2], ('RL' if rev else 'LR')):
                b = ('P', 'st' + n)
                rho = x ** 2 if tag == 'L' else y ** 2
                for fld, val in (('rho', rho), ('press', sym((tag, 'p'))), ('cs', sym((tag, 'c'))), ('vline', (-1 if rev else 1) * sym((tag, 'vn')))):
                    for fn in p.fields_named(fld) if hasattr(p, 'fields_named') else ('HllcRiemannSolver::HLLC_State::' + fld,):
                        st.m[b + (('.', fn),)] = V(val, ty='double')
                for k in range(nd):
                    st.m[b + (('.', 'HllcRiemannSolver::HLLC_State::v'), ('[', k))] = V((-1 if rev else 1) * sym((tag, 'v', k)), ty='double')
            a = {ps[0][0]: ('P', 'st' + ps[0][0]), ps[1][0]: ('P', 'st' + ps[1][0]), ps[2][0]: ('P', 'Smin'), ps[3][0]: ('P', 'Smax')}
            D = RDom(p)
            D.quot, D.rule = (x, y), rule
            fl = Interp(p, D, maxdepth=5).run_root(f, a, st=st, this=('this', f.cls))
            if fl.n is None:
                return
            out[rev] = [rule(fl.n.m[('P', n)].d) if ('P', n) in fl.n.m and fl.n.m[('P', n)].d is not None else None for n in ('Smin', 'Smax')]
        if None in out[0] or None in out[1]:
            ctx.count('undecided')
            continue
        known = all(any(akey(a) == ('v', (t, 'vn')) for a in atoms_of(out[0][0])) for t in 'LR')
        ok = ok2 = None
        if known:
            ok = poseq(out[1][0], -out[0][1]) and poseq(out[1][1], -out[0][0])
        verdict(ctx, ok, 'speeds', f.where(), 'HLL_Speeds|mirror|%d' % nd, 'HLL_Speeds: reflecting the problem exchanges the two wave speeds and reverses their sign')
        if known:
            # with one condition the speed is that of the left (right) state, with the other the average's
            for i, (tag, sg) in enumerate((('L', -1), ('R', 1))):
                q = out[0][i]
                cs = [c for c in conds(q)]
                own = sym((tag, 'vn')) + sg * sym((tag, 'c'))
                alt = set()
                for vs in itertools.product((0, 1), repeat=len(cs)) if len(cs) <= 4 else ():
                    alt.add(split(q, list(zip(cs, vs))).id)
                # the other one: the average velocity is weighted with the roots of the densities
                oth = [terms._polyobj[z] for z in alt if z != own.id]
                for tg, wt in (('L', x), ('R', 1 - x)):
                    dv = Deriv(lambda k: ONE if k == ('v', (tg, 'vn')) else None)
                    okr = tri(same(dv(z), wt) for z in oth) if oth else None
                    verdict(ctx, okr, 'speeds', f.where(), 'HLL_Speeds|Roe|%d|%d%s' % (nd, i, tg), 'HLL_Speeds: the velocity of the average state is weighted with the roots of the densities')
                verdict(ctx, own.id in alt if alt else None, 'speeds', f.where(), 'HLL_Speeds|bound|%d|%d' % (nd, i), 'HLL_Speeds: the %s wave speed is at least as far out as that of the %s state' % (('left', 'right')[i],) * 2 if False else 'HLL_Speeds: the outer wave speed %s takes the acoustic speed of its own state into account' % ('Smin', 'Smax')[i])


def poseq(a, b):
    """equality of expressions with conditions: as they are, or case by case"""
    if same(a, b):
        return True
    cs = []
    for q in (a, b):
        for c in conds(q):
            if c not in cs:
                cs.append(c)
    # conditions that are each other's negation are one condition
    if len(cs) > 6:
        return None
    basis, ren = [], {}
    for c in cs:
        k = akey(c)
        hit = None
        if k[1] == 'pos':
            q = terms._polyobj[k[2]]
            for b_, qb in basis:
                if qb is None:
                    continue
                if same(q, qb):
                    hit = (b_, 1)
                elif same(q, -qb):
                    hit = (b_, 0)
                elif ratio_sign(q, qb) is not None:
                    hit = (b_, ratio_sign(q, qb))
                if hit:
                    break
            if hit is None:
                basis.append((c, q))
                hit = (c, 1)
        else:
            basis.append((c, None))
            hit = (c, 1)
        ren[c] = hit
    bs = [x for x, q in basis]
    for vs in itertools.product((0, 1), repeat=len(bs)):
        val = dict(zip(bs, vs))
        case = [(c, val[ren[c][0]] if ren[c][1] else 1 - val[ren[c][0]]) for c in cs]
        if not same(split(a, case), split(b, case)):
            return False
    return True


def ratio_sign(a, b):
    return None


# ---- rotation ----------------------------------------------------------------------------------------
def trig(name, args):
    """cos and sin of the angle atan2(y, x)"""
    if name in ('cos', 'sin') and len(args) == 1 and len(args[0].t) == 1:
        (m, c), = args[0].t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            k = akey(m[0][0])
            if k[0] == 'f' and k[1] == 'atan2':
                y, x = terms._polyobj[k[2]], terms._polyobj[k[3]]
                return (x if name == 'cos' else y) * (x * x + y * y) ** Fr(-1, 2)
    return None


def rot_simplify(q, nd):
    q = Subst(lambda k: None, trig)(q)
    # |n| = 1 inside the roots: n0^2+n1^2 = 1-n2^2 is kept, n.n is one
    n = N(nd)
    nn = dot(n, n)

    def ones(k):
        if k[0] == 'p' and same(terms._polyobj[k[1]], nn):
            return ONE
        return None
    return Subst(ones)(q)


def rotation(ctx, p):
    cnt = 0
    for f in variants(p, 'RiemannSolver::ComputeRotationMatrices', 3):
        nd = D_ndim(f)
        D = EDom(p)
        ps = params(f)
        a = {n: V(ptr=('arr', ('P', tag)), ty=t) for (n, t), tag in zip(ps, ('n', 'M', 'I'))}
        fl = Interp(p, D, maxdepth=4).run_root(f, a, st=State(g=ONE), this=('this', f.cls))
        outs = [s for s, v in fl.re] + ([fl.n] if fl.n is not None else [])
        if not outs:
            continue

        def el(tag, i, j):
            for s in outs:
                v = s.m.get(('P', tag, ('[', i), ('[', j)))
                if v is not None and v.d is not None:
                    return rot_simplify(v.d, nd)
            return None
        M = [[el('M', i, j) for j in range(nd)] for i in range(nd)]
        Iv = [[el('I', i, j) for j in range(nd)] for i in range(nd)]
        if any(x is None for r in M + Iv for x in r):
            ctx.count('undecided')
            continue
        n = N(nd)
        key = 'ComputeRotationMatrices|%d' % nd
        cnt += 1

        def z(q):
            return zero(rot_simplify(q, nd), nd)
        ok = tri(z(dot(Iv[i], [M[k][j] for k in range(nd)]) - (1 if i == j else 0)) for i in range(nd) for j in range(nd))
        verdict(ctx, ok, 'rotation', f.where(), key + '|inverse', 'the two rotation matrices are each other\'s inverse in %d dimensions' % nd)
        ok = tri(z(M[k][0] - n[k]) for k in range(nd))
        verdict(ctx, ok, 'rotation', f.where(), key + '|axis', 'the rotation takes the x-axis to the face normal in %d dimensions' % nd)
        ok = tri(z(Iv[i][j] - M[j][i]) for i in range(nd) for j in range(nd))
        verdict(ctx, ok, 'rotation', f.where(), key + '|orthogonal', 'the rotation preserves lengths in %d dimensions' % nd)
    for f in variants(p, 'RiemannSolver::RotateVector', 2):
        nd = D_ndim(f)
        D = EDom(p)
        ps = params(f)
        a = {n: V(ptr=('arr', ('P', tag)), ty=t) for (n, t), tag in zip(ps, ('M', 'v'))}
        fl = Interp(p, D, maxdepth=4).run_root(f, a, st=State(g=ONE), this=('this', f.cls))
        outs = [s for s, v in fl.re] + ([fl.n] if fl.n is not None else [])
        ok = True
        for i in range(nd):
            got = next((s.m[('P', 'v', ('[', i))].d for s in outs if ('P', 'v', ('[', i)) in s.m), None)
            want = sum((sym(('P', 'M', ('[', i), ('[', j))) * sym(('P', 'v', ('[', j))) for j in range(nd)), ZERO)
            ok = None if got is None or ok is None else ok and bool(same(got, want))
        cnt += 1
        verdict(ctx, ok, 'rotation', f.where(), 'RotateVector|%d' % nd, 'RotateVector multiplies the vector by the matrix in %d dimensions' % nd)
    ctx.floor('rotations', cnt, 2)


def tri(xs):
    r = True
    for x in xs:
        if x is False:
            return False
        if x is None:
            r = None
    return r


# ---- exact solver ------------------------------------------------------------------------------------
def exact_fields(p, this, gamma, zmf):
    D = EDom(p)
    out = {}
    for g in variants(p, 'RiemannSolver::RiemannSolver'):
        ps = params(g)
        if g.h['kind'] != 'ctor' or len(ps) < 2:
            continue
        a = {n: (V(P(zmf), zmf, ty='bool') if 'bool' in t else V(gamma, ty='double')) for n, t in ps}
        fl = Interp(p, D, maxdepth=4).run_root(g, a, st=State(g=ONE), this=this)
        if fl.n is not None:
            return {k: v for k, v in fl.n.m.items() if k[:2] == this}
    return out


def exact_flux(ctx, p):
    n = 0
    cls = 'ExactRiemannSolver'
    for f in variants(p, cls + '::ComputeFluxes', 5):
        nd = D_ndim(f)
        if nd > 2:
            # the rotation in three dimensions is decided on its own; the rest does not depend on the dimension
            pass
        for zmf in (0, 1):
            D = RotDom(p)
            this = ('this', f.cls)
            flg = exact_fields(p, this, P(GAM), zmf)
            if not flg:
                ctx.count('undecided')
                continue
            D.nd = nd
            L, R = state_syms('L', nd), state_syms('R', nd)
            try:
                flux, w = solve(p, f, nd, L, R, flg, {'ComputeStarRegion': (('O', 'ps'), ('O', 'us')), 'SampleExactSolution': (('O', 'p'), ('O', 'd'), ('O', 'u'))}, D)
            except TooBig:
                ctx.count('undecided')
                continue
            d, u, pr = sym(('O', 'd')), sym(('O', 'u')), sym(('O', 'p'))
            if not any(akey(a) == ('v', ('O', 'd')) for r in flux for x in r if x is not None for a in atoms_of(x)) and not zmf:
                ctx.count('undecided')
                continue
            cs = allconds(flux, w)
            nn = N(nd)
            for side in (0, 1):
                def f1(k):
                    return None
                case = []
                bad = False
                for x in cs:
                    k = akey(x)
                    q = Subst(lambda kk: P(1) if kk == ('v', ('O', 'ps')) else P(1 if side else -1) if kk == ('v', ('O', 'u')) else None)(A(k))
                    c = q.const()
                    if c is None:
                        bad = True
                        break
                    case.append((x, int(c)))
                if bad:
                    ctx.count('undecided')
                    continue
                fx, ww = pick(flux, w, case)
                s = L if side else R
                # velocity: u along n, the tangential part of the upwind side
                vt = [s['v'][k] - dot(s['v'], nn) * nn[k] for k in range(nd)]
                if zmf:
                    want = lab(nd, ZERO, [ZERO] * nd, pr, ZERO, [W0(nd)[k] + u * nn[k] for k in range(nd)])
                else:
                    v = [u * nn[k] + vt[k] for k in range(nd)]
                    want = lab(nd, d, v, pr, pr / (GAM - 1) + P(Fr(1, 2)) * d * dot(v, v), W0(nd))
                fx = [[rot_simplify(x, nd) if x is not None else None for x in r] for r in fx]
                ok = compare(fx, want, nd)
                n += 1
                verdict(ctx, ok, 'flux', f.where(), '%s|%d|%d|%d' % (cls, nd, zmf, side), '%s in %d dimensions%s: the flux is the physical flux of the sampled state, tangential velocity taken upwind, through the moving face' % (cls, nd, ' with zero mass flux' if zmf else ''))
    ctx.floor('exact solver flux cases', n, 3)


class RotDom(RDom):
    """rotation matrices of the face normal, in closed form"""
    def intrinsic(self, name, args, obj, node, I, st):
        r = RDom.intrinsic(self, name, args, obj, node, I, st)
        if r is not None and r.d is not None and name.split('::')[-1] in ('cos', 'sin'):
            return V(rot_simplify(r.d, self.nd), ty='double')
        return r


class Leaf(object):
    pass


def num(q, env):
    r = 0.0
    for m, c in q.t.items():
        x = float(c)
        for a, e in m:
            k = akey(a)
            if k[0] == 'v':
                y = env[k[1]]
            elif k[0] == 'c':
                y = math.pi
            elif k[0] == 'n':
                y = float(k[1])
            elif k[0] == 'p':
                y = num(terms._polyobj[k[1]], env)
            elif k[0] == 'i' and k[1] == 'pos':
                y = 1.0 if num(terms._polyobj[k[2]], env) > 0 else 0.0
            elif k[0] == 'i' and k[1] == 'eq0':
                y = 1.0 if num(terms._polyobj[k[2]], env) == 0 else 0.0
            else:
                raise KeyError(showatom(a))
            x *= y ** float(e)
        r += x
    return r


ORDER = ('ps', 'us', 's', 'pl', 'pr', 'dl', 'dr', 'cl', 'cr', 'ul', 'ur')


def sample(ctx, p):
    """the sampled solution is an exact weak solution of the Euler equations"""
    total = 0
    for f in variants(p, 'ExactRiemannSolver::SampleExactSolution', 14):
        if D_ndim(f) != 1 and any(D_ndim(g) == 1 for g in variants(p, f.name, 14)):
            continue
        this = ('this', f.cls)
        flg = exact_fields(p, this, P(GAM), 0)
        if not flg:
            ctx.count('undecided')
            continue
        g = GAM
        Y = {n: sym(n) for n in ORDER}
        pl, pr, dl, dr, ul, ur, ps, s = (Y[x] for x in ('pl', 'pr', 'dl', 'dr', 'ul', 'ur', 'ps', 's'))
        cl, cr = (g * pl / dl) ** Fr(1, 2), (g * pr / dr) ** Fr(1, 2)
        base = {'pl': pl, 'pr': pr, 'dl': dl, 'dr': dr, 'ul': ul, 'ur': ur, 's': s, 'ps': ps, 'cl': cl, 'cr': cr, 'us': Y['us']}

        def shockf(d0, p0):
            return (ps - p0) * (P(2 / (g + 1)) / d0 / (ps + p0 * P((g - 1) / (g + 1)))) ** Fr(1, 2)

        def raref(c0, p0):
            return P(2 / (g - 1)) * c0 * ((ps / p0) ** ((g - 1) / (2 * g)) - 1)
        for lw in ('shock', 'rarefaction'):
            for rw in ('shock', 'rarefaction'):
                # numbers consistent with this pattern of waves
                vals = {'pl': 1.0, 'dl': 1.3, 'dr': 0.7, 'ul': 0.2}
                vals['ps'] = 2.3 if lw == 'shock' else 0.6
                vals['pr'] = vals['ps'] * (0.5 if rw == 'shock' else 1.7)
                fl_ = shockf(dl, pl) if lw == 'shock' else raref(cl, pl)
                fr_ = shockf(dr, pr) if rw == 'shock' else raref(cr, pr)
                vals['us'] = vals['ul'] - num(fl_, vals)
                vals['ur'] = vals['us'] - num(fr_, vals)
                D = EDom(p)
                st = State(g=ONE)
                for k, v in flg.items():
                    st.m[k] = v
                a = {}
                us_l = ul - fl_
                names = params(f)
                for (n, t), o in zip(names, ORDER):
                    a[n] = V(base[o], ty='double')
                for (n, t), o in zip(names[11:], ('op', 'od', 'ou')):
                    a[n] = ('P', o)
                fl = Interp(p, D, maxdepth=4).run_root(f, a, st=st, this=this)
                outs = [x for x, v in fl.re] + ([fl.n] if fl.n is not None else [])
                q = {}
                for o in ('op', 'od', 'ou'):
                    for x in outs:
                        if ('P', o) in x.m and x.m[('P', o)].d is not None:
                            q[o] = x.m[('P', o)].d
                if len(q) < 3:
                    ctx.count('undecided')
                    continue
                # conditions on s: thresholds; the others are decided by the numbers
                fixed, thr = [], []
                ok = True
                try:
                    for c in sorted({c for x in q.values() for c in conds(x)}, key=str):
                        k = akey(c)
                        z = terms._polyobj[k[2]]
                        if not any(akey(t) == ('v', 's') for t in atoms_of(z)):
                            fixed.append((c, 1 if (num(z, vals) > 0 if k[1] == 'pos' else num(z, vals) == 0) else 0))
                            continue
                        t0 = Subst(lambda kk: ZERO if kk == ('v', 's') else None)(z)
                        t1 = Subst(lambda kk: ONE if kk == ('v', 's') else None)(z) - t0
                        if any(akey(t) == ('v', 's') for t in atoms_of(t1)) or t1.const() is None:
                            # conditions inside a fan (sign of the sampled pressure): not a wave
                            continue
                        thr.append((-t0 / t1, c, 1 if t1.const() > 0 else 0))
                    ts = sorted(((num(T, vals), T.id) for T, c, sg in thr))
                except (KeyError, ZeroDivisionError):
                    ctx.count('undecided')
                    continue
                # distinct positions
                posn = []
                for x, tid in ts:
                    if not posn or abs(x - posn[-1][0]) > 1e-9:
                        posn.append((x, tid))
                mids = [posn[0][0] - 1] + [(a_[0] + b_[0]) / 2 for a_, b_ in zip(posn, posn[1:])] + [posn[-1][0] + 1]

                def at(x):
                    case = list(fixed)
                    for T, c, sg in thr:
                        up = x > num(T, vals)
                        case.append((c, sg if up else 1 - sg))
                    r = {o: split(v, case) for o, v in q.items()}
                    # leftover conditions by number
                    left = {c for v in r.values() for c in conds(v)}
                    env = dict(vals, s=x)
                    if left:
                        case += [(c, int(num(A(akey(c)), env))) for c in left]
                        r = {o: split(v, case) for o, v in q.items()}
                    return r
                try:
                    regions = [at(x) for x in mids]
                except (KeyError, ZeroDivisionError, ValueError):
                    ctx.count('undecided')
                    continue
                # drop waves across which nothing changes
                keep, waves = [regions[0]], []
                for (x, tid), r in zip(posn, regions[1:]):
                    if all(same(r[o], keep[-1][o]) for o in r):
                        continue
                    keep.append(r)
                    waves.append(terms._polyobj[tid])
                key = 'SampleExactSolution|%s|%s|' % (lw, rw)
                text = 'SampleExactSolution, %s on the left and %s on the right: ' % (lw, rw)

                def put(ok, what, t):
                    verdict(ctx, ok, 'sample', f.where(), key + what, text + t)
                total += 1
                nw = (2 if lw == 'rarefaction' else 1) + 1 + (2 if rw == 'rarefaction' else 1)
                put(len(waves) == nw, 'waves', 'there are %d waves' % nw)
                put(bool(same(keep[0]['op'], pl) and same(keep[0]['od'], dl) and same(keep[0]['ou'], ul)), 'left', 'far left is the left state')
                put(bool(same(keep[-1]['op'], pr) and same(keep[-1]['od'], dr) and same(keep[-1]['ou'], ur)), 'right', 'far right is the right state')
                if len(waves) != nw:
                    continue
                # the speed of the contact, written from the left or from the right
                half = (2 if lw == 'rarefaction' else 1)
                Lsub = Subst(lambda k: us_l if k == ('v', 'us') else None)
                Rsub = Subst(lambda k: ur + fr_ if k == ('v', 'us') else None)
                for i, w in enumerate(waves):
                    sub = (lambda z: z) if i == half else (Lsub if i < half else Rsub)
                    W = sub(w)
                    Sat = Subst(lambda k: W if k == ('v', 's') else None)
                    a_, b_ = ({o: Sat(sub(v)) for o, v in r.items()} for r in (keep[i], keep[i + 1]))
                    put(jump(a_, b_, W, g), 'jump%d' % i, 'the jump conditions hold across wave %d' % (i + 1))
                for i, r in enumerate(keep):
                    if any(akey(t) == ('v', 's') for o in r for t in atoms_of(r[o])):
                        left = i <= half
                        p0, d0, u0, c0, sg = (pl, dl, ul, cl, 1) if left else (pr, dr, ur, cr, -1)
                        put(fan(r, p0, d0, u0, c0, sg, s, g), 'fan' + ('L' if left else 'R'), 'inside the %s fan the flow is a simple wave' % ('left' if left else 'right'))
    ctx.floor('wave patterns', total, 2)


def jump(a, b, w, g):
    """mass, momentum and energy conservation across a discontinuity moving with w"""
    def F(x):
        d, u, pr = x['od'], x['ou'], x['op']
        E = pr / P(g - 1) + P(Fr(1, 2)) * d * u * u
        return d * (u - w), d * u * (u - w) + pr, E * (u - w) + pr * u
    r = True
    try:
        for x, y in zip(F(a), F(b)):
            z = same(x, y)
            if not z:
                z2 = clearpow(x - y)
                if z2 is None:
                    r = None
                elif z2:
                    return False
    except TooBig:
        return None
    return r


def clearpow(q):
    """0 when q vanishes; polynomials under roots are compared after clearing denominators inside them"""
    q = clear(normroots(q))
    return len(q.t)


def normroots(q):
    """bring sums under roots to one denominator: (a + b/c)^e -> (a c + b)^e c^-e"""
    def s(k):
        if k[0] == 'p':
            x = normroots(terms._polyobj[k[1]])
            return clear2(x)
        return None
    r = ZERO
    for m, c in q.t.items():
        t = Poly({(): c})
        for a, e in m:
            k = akey(a)
            if k[0] == 'p':
                t = t * power(normroots(terms._polyobj[k[1]]), e)
            else:
                t = t * (A(k, e) if False else power(A(k), e))
        r = r + t
    return r


def clear2(x):
    return x


def fan(r, p0, d0, u0, c0, sg, s, g):
    d, u, pr = r['od'], r['ou'], r['op']
    # the sound speed follows from the Riemann invariant; entropy and the characteristic speed must agree with it
    try:
        c = c0 + sg * P((g - 1) / 2) * (u0 - u)
        return bool(same(c, sg * (u - s)) and same(d, d0 * (c / c0) ** (2 / (g - 1))) and same(pr, p0 * (c / c0) ** (2 * g / (g - 1))))
    except TooBig:
        return None


def newton(ctx, p):
    """the iteration for the pressure in the star region"""
    n = 0
    for f in variants(p, 'ExactRiemannSolver::ComputeStarRegion', 10):
        if D_ndim(f) != 1 and any(D_ndim(g) == 1 for g in variants(p, f.name, 10)):
            continue
        this = ('this', f.cls)
        flg = exact_fields(p, this, P(GAM), 0)
        if not flg:
            continue
        D = EDom(p)
        g = GAM
        names = params(f)
        st = State(g=ONE)
        for k, v in flg.items():
            st.m[k] = v
        Y = {x: sym(x) for x in ('pl', 'pr', 'dl', 'dr', 'ul', 'ur')}
        cl, cr = (g * Y['pl'] / Y['dl']) ** Fr(1, 2), (g * Y['pr'] / Y['dr']) ** Fr(1, 2)
        vals = [Y['pl'], Y['pr'], Y['dl'], Y['dr'], cl, cr, Y['ul'], Y['ur']]
        a = {nm: V(v, ty='double') for (nm, t), v in zip(names, vals)}
        a[names[8][0]] = ('P', 'ps')
        a[names[9][0]] = ('P', 'us')
        fl = Interp(p, D, maxdepth=4).run_root(f, a, st=st, this=this)
        for lid, fn, start, end in D.loopinfo:
            if end is None or ('P', 'ps') not in end.m or ('P', 'ps') not in start:
                continue
            x0 = start[('P', 'ps')].d
            x1 = end.m[('P', 'ps')].d
            if x0 is None or x1 is None:
                continue
            x = sym('X')
            k0 = akey(next(iter(atoms_of(x0))))
            x1 = Subst(lambda k: x if k == k0 else None)(x1)

            def spec(side, wave):
                p0, d0, c0 = (Y['pl'], Y['dl'], cl) if side == 'l' else (Y['pr'], Y['dr'], cr)
                if wave == 's':
                    return (x - p0) * (P(2 / (g + 1)) / d0 / (x + p0 * P((g - 1) / (g + 1)))) ** Fr(1, 2)
                return P(2 / (g - 1)) * c0 * ((x / p0) ** ((g - 1) / (2 * g)) - 1)
            DX = Deriv(lambda k: ONE if k == ('v', 'X') else None)
            for lw in 'sr':
                for rw in 'sr':
                    vals = {'X': 1.0, 'pl': 0.5 if lw == 's' else 1.5, 'pr': 0.6 if rw == 's' else 1.7, 'dl': 1.2, 'dr': .8, 'ul': .3, 'ur': .4}
                    case = []
                    y = x1
                    try:
                        for _ in range(6):
                            cs = conds(y)
                            if not cs:
                                break
                            y = split(y, [(c, int(num(A(akey(c)), vals))) for c in cs])
                    except (KeyError, ValueError, TypeError):
                        y = None
                    F_ = spec('l', lw) + spec('r', rw) + Y['ur'] - Y['ul']
                    ok = None
                    if y is not None and not conds(y):
                        try:
                            dF = DX(F_)
                            ok = num_same((x - y) * dF, F_)
                        except TooBig:
                            ok = None
                    n += 1
                    verdict(ctx, ok, 'newton', f.where(), 'ComputeStarRegion|%s%s' % (lw, rw), 'ComputeStarRegion (%s left, %s right): the iteration is Newton\'s method for the pressure at which both waves give the same velocity' % tuple({'s': 'shock', 'r': 'rarefaction'}[z] for z in (lw, rw)))
    ctx.floor('pressure iterations', n, 2)


def num_same(a, b):
    r = same(a, b)
    if r:
        return True
    q = clear(normroots(a - b))
    return not q.t


# ---- primitive equations -----------------------------------------------------------------------------
def primitive(ctx, p):
    for f in variants(p, 'FV::CalculatePrimitiveTimeDerivative', 4):
        nd = D_ndim(f)
        ps = params(f)
        a = {}
        for (n, t), tag in zip(ps, ('W', 'G', 'c', 'D')):
            a[n] = V(ptr=('arr', ('P', tag)), ty=t) if '*' in t or '[' in t else V(sym('c'), ty='double')
        fl = Interp(p, EDom(p), maxdepth=4).run_root(f, a, st=State(g=ONE), this=('this', f.cls))
        outs = [s for s, v in fl.re] + ([fl.n] if fl.n is not None else [])
        W = [sym(('P', 'W', ('[', i))) for i in range(nd + 2)]
        G = [[sym(('P', 'G', ('[', i), ('[', k))) for k in range(nd)] for i in range(nd + 2)]
        div = sum((G[k][k] for k in range(nd)), ZERO)
        adv = [-sum((W[k] * G[i][k] for k in range(nd)), ZERO) for i in range(nd + 2)]
        want = [adv[i] - G[nd + 1][i] / W[nd] for i in range(nd)] + [adv[nd] - W[nd] * div, adv[nd + 1] - W[nd] * sym('c') ** 2 * div]
        for i in range(nd + 2):
            got = next((s.m[('P', 'D', ('[', i))].d for s in outs if ('P', 'D', ('[', i)) in s.m), None)
            verdict(ctx, same(got, want[i]) if got is not None else None, 'primitive', f.where(), 'CalculatePrimitiveTimeDerivative|%d|%d' % (nd, i), 'the time derivative of primitive variable %d in %d dimensions is that of the Euler equations' % (i, nd))


def inverse(ctx, p):
    """small matrices: matrix times inverse is one"""
    n = 0
    for f in sorted(p.fns.values(), key=lambda g: g.m):
        if f.body is None or len(f.params) != 2 or not (f.name.split('::')[-1] == 'invert' or f.name.split('::')[-1] == 'InvertMatrix'):
            continue
        (an, at), (bn, bt) = params(f)
        if '(*)' not in at:
            continue
        nd = int(at.split('(*)[')[1].split(']')[0])
        fl = Interp(p, EDom(p), maxdepth=5).run_root(f, {an: V(ptr=('arr', ('P', 'A')), ty=at), bn: V(ptr=('arr', ('P', 'B')), ty=bt)}, st=State(g=ONE))
        outs = [s for s, v in fl.re] + ([fl.n] if fl.n is not None else [])
        B = [[next((s.m[('P', 'B', ('[', i), ('[', j))].d for s in outs if ('P', 'B', ('[', i), ('[', j)) in s.m), None) for j in range(nd)] for i in range(nd)]
        if any(x is None for r in B for x in r):
            ctx.count('undecided')
            continue
        A_ = [[sym(('P', 'A', ('[', i), ('[', j))) for j in range(nd)] for i in range(nd)]
        ok = tri(same(sum((A_[i][k] * B[k][j] for k in range(nd)), ZERO), P(1 if i == j else 0)) for i in range(nd) for j in range(nd))
        n += 1
        verdict(ctx, ok, 'inverse', f.where(), '%s|%d' % (f.name, nd), '%s: the %dx%d matrix times its inverse is one' % (f.name, nd, nd))
    ctx.floor('matrix inverses', n, 2)


# ---- faces -------------------------------------------------------------------------------------------
def fname(l):
    """('i'|'j', field, index) of a location inside the particle or its neighbour"""
    if isinstance(l, tuple) and l[:1] == ('loop',):
        l = l[2]
    if not isinstance(l, tuple) or l[:1] != ('P',) or len(l) < 3:
        return None
    r = l[2:]
    side = 'i'
    if r[0][0] == '[':
        side, r = 'j', r[1:]
    if not r or r[0][0] != '.':
        return None
    return (side, r[0][1].split('::')[-1], tuple(x[1].split('::')[-1] if x[0] == '.' else x[1] for x in r[1:]))


class FaceDom(PairDom):
    """remembers what is handed to the limiter and to the Riemann solvers"""
    nd = 2
    abbrev = False
    expand_guards = False

    def __init__(self, p):
        PairDom.__init__(self, p)
        self.calls, self.proxy = {}, {}

    def vals(self, a, n, I, st, node):
        if a.ptr is None:
            return None
        r = [I.load(I.at(a.ptr, k), 'double', st, node).d for k in range(n)]
        return None if any(x is None for x in r) else r

    def fields(self, l, I, st):
        out = {}
        for k, v in st.m.items():
            if k[:len(l)] == l and len(k) > len(l) and isinstance(k[len(l)], tuple) and k[len(l)][0] == '.' and v.d is not None:
                out[(k[len(l)][1].split('::')[-1],) + tuple(x[1] for x in k[len(l) + 1:])] = v.d
        return out

    def intrinsic(self, name, args, obj, node, I, st):
        m = name.split('::')[-1]
        nd = self.nd
        if m == 'ComputeLimitedSlopes' and len(args) == 5:
            l = I.deref(args[0].lv, st) if args[0].lv is not None else None
            side = None if l is None else 'j' if len(l) > 2 and l[2][0] == '[' else 'i'
            dr = self.vals(args[2], nd, I, st, node)
            if side is None or dr is None or args[3].ptr is None or args[4].ptr is None:
                return None
            for v in range(nd + 2):
                g = [sym((side, 'slope', (v, k))) for k in range(nd)]
                for k in range(nd):
                    I.store(I.at(args[3].ptr, v) + (('[', k),), V(g[k], ty='double'), st, node)
                I.store(I.at(args[4].ptr, v), V(dot(g, dr), ty='double'), st, node)
            return V(None)
        if m == 'ComputeViscousFlux':
            return V(None)
        if m == 'ConstructStateVector' and len(args) == 2 and args[0].lv is not None and args[1].lv is not None:
            self.proxy[I.deref(args[1].lv, st)] = self.fields(I.deref(args[0].lv, st), I, st)
            return V(None)
        if m == 'ComputeFluxes' and len(args) == 5:
            n, w = self.vals(args[2], nd, I, st, node), self.vals(args[3], nd, I, st, node)
            rec = {'n': n, 'w': w, 'line': node[1]}
            if args[0].ptr is not None and args[1].ptr is not None:
                rec['S'] = [self.vals(a, nd + 2, I, st, node) for a in args[:2]]
            elif args[0].lv is not None and args[1].lv is not None:
                S = []
                for a in args[:2]:
                    q = self.proxy.get(I.deref(a.lv, st))
                    q = q and [q.get(('v', k)) for k in range(nd)] + [q.get(('rho',)), q.get(('p',))]
                    S.append(q if q and None not in q else None)
                rec['S'] = S
                rec['proxy'] = True
            key = id(node)
            self.calls[key] = rec
            if args[4].ptr is not None:
                for v in range(nd + 2):
                    for k in range(nd):
                        I.store(I.at(args[4].ptr, v) + (('[', k),), V(sym(('F', len(self.calls) if key not in self.ids else self.ids[key], v, k)), ty='double'), st, node)
                rec['F'] = self.ids.setdefault(key, len(self.calls))
            return V(None)
        return PairDom.intrinsic(self, name, args, obj, node, I, st)


def canonical(q):
    def f(k):
        if k[0] == 'v':
            c = fname(k[1])
            if c is not None:
                return sym(c)
        return None
    return zero_small(Subst(f)(q))


def swapped(q):
    def f(k):
        if k[0] == 'v' and isinstance(k[1], tuple) and k[1][:1] in (('i',), ('j',)) and k[1][1] != 'nstep':
            return sym(({'i': 'j', 'j': 'i'}[k[1][0]],) + k[1][1:])
        return None
    return Subst(f)(q)


def value(q, env):
    """number of an expression; functions by `env`"""
    r = 0.0
    for m, c in q.t.items():
        x = float(c)
        for a, e in m:
            k = akey(a)
            if k[0] == 'v':
                y = env(k)
            elif k[0] == 'c':
                y = math.pi
            elif k[0] == 'n':
                y = float(k[1])
            elif k[0] == 'p':
                y = value(terms._polyobj[k[1]], env)
            elif k[0] == 'i' and k[1] == 'pos':
                y = 1.0 if value(terms._polyobj[k[2]], env) > 0 else 0.0
            elif k[0] == 'i' and k[1] == 'eq0':
                y = 1.0 if value(terms._polyobj[k[2]], env) == 0 else 0.0
            elif k[0] == 'f' and k[1] in ('w0', 'w1'):
                y = 1.0 if k[1] == 'w0' else -1.0
            else:
                y = env(k)
            x *= y ** float(e)
        r += x
    return r


def anycase(q, test):
    """test holds for some assignment of the conditions in the list of expressions q"""
    cs = []
    for x in q:
        for c in conds(x):
            if c not in cs:
                cs.append(c)
    if len(cs) > 5:
        return None
    r = False
    for vs in itertools.product((1, 0), repeat=len(cs)):
        try:
            z = test([split(x, list(zip(cs, vs))) for x in q])
        except TooBig:
            z = None
        if z:
            return True
        if z is None:
            r = None
    return r


def faces(ctx, p):
    n = 0
    nd = 2
    seen = set()
    for f in sorted((g for g in p.fns.values() if g.name.split('::')[-1] == 'ComputeGodunovFlux' and g.body is not None), key=lambda g: (g.name, g.h['ct'])):
        if str(nd) not in f.h['ct'] or 'NullLimiter<%d>' % nd not in f.h['ct'] or f.name in seen:
            continue
        seen.add(f.name)
        D = FaceDom(p)
        D.ids = {}
        terms.limit(4000)
        I = Interp(p, D, maxdepth=6)
        try:
            fl = I.run_root(f, {n_: V(sym(('P', 'timestep')), ty='double') for n_, t_ in params(f) if t_ == 'double'}, st=State(g=ONE))
        finally:
            terms.limit(6000)
        calls = sorted(D.calls.values(), key=lambda r: r['line'])
        F = f.name.split('::')[0]
        # increments of the conserved quantities of the particle
        inc = None
        for lid, fn, start, end in D.loopinfo:
            if end is None:
                continue
            for l, s in start.items():
                if fname(l) and fname(l)[:2] == ('i', 'dQ') and len(fname(l)[2]) == 1 and end.m.get(l) is not None and s.d is not None and end.m[l].d is not None:
                    d = end.m[l].d - s.d
                    if d.t:
                        inc = inc or {}
                        inc[fname(l)[2][0]] = canonical(d)
        good = 0
        lam, wgt, dts = [], [], []
        for i, c in enumerate(calls):
            if c['n'] is None or c['w'] is None or None in c['S']:
                ctx.count('undecided')
                continue
            good += 1
            kind = 'state' if c.get('proxy') else 'primitive'
            nth = sum(1 for x in calls[:i] if bool(x.get('proxy')) == bool(c.get('proxy')))
            key = '%s|%s|%d|' % (F, kind, nth)
            text = '%s::ComputeGodunovFlux: ' % F
            S1, S2 = ([canonical(x) for x in s] for s in c['S'])
            nn, w = [canonical(x) for x in c['n']], [canonical(x) for x in c['w']]
            try:
                ok = tri(poseq(swapped(a), b) for a, b in zip(S1, S2))
            except TooBig:
                ok = None
            verdict(ctx, ok, 'faces', f.where(c['line']), key + 'states', text + 'the two states at the face are the same function of the two particles')
            try:
                ok = tri(poseq(swapped(x), x) for x in w)
            except TooBig:
                ok = None
            verdict(ctx, ok, 'faces', f.where(c['line']), key + 'velocity', text + 'the velocity of the face is the same seen from either particle')
            try:
                ok = tri(poseq(swapped(x), -x) for x in nn)
            except TooBig:
                ok = None
            verdict(ctx, ok, 'faces', f.where(c['line']), key + 'antisymmetric', text + 'the normal of the face is the opposite one seen from the other particle')
            # the normal points from the particle of the first state to that of the second
            first = None
            for side in 'ij':
                if any(has(x, (side, 'Wprim')) for x in S1) and not any(has(x, ({'i': 'j', 'j': 'i'}[side], 'Wprim')) for x in S1):
                    first = side
            o = orient(nn, nd)
            verdict(ctx, None if first is None or o is None else o > 0 if first == 'i' else o < 0, 'faces', f.where(c['line']), key + 'normal', text + 'the normal handed to the Riemann solver points from the particle of the first state to the other')
            n += 1
            if inc:
                dq = {}
                for v, q in inc.items():
                    dq[v] = [Deriv(lambda k, v=v, j=j: ONE if k == ('v', ('F', c['F'], v, j)) else None)(q) for j in range(nd)]
                o = orient(dq[nd], nd) if nd in dq else None
                if o is not None:
                    verdict(ctx, o < 0, 'faces', f.where(c['line']), key + 'outflow', text + 'a flux towards the neighbour takes from the particle')
                if nd in dq and any(x.t for x in dq[nd]):
                    try:
                        ok = tri(poseq(swapped(x), -x) for x in dq[nd])
                    except TooBig:
                        ok = None
                    verdict(ctx, ok, 'faces', f.where(c['line']), key + 'area', text + 'the area of the face is the opposite one seen from the other particle')
                # time level of the state
                l = level(S1, w, nd, first)
                if first is not None and nd in dq:
                    if l is not None:
                        dts.append((kind, l, dq[nd]))
        for kind in ('primitive', 'state'):
            ks = [(l, q) for k, l, q in dts if k == kind]
            if not ks or len(ks) != sum(1 for c in calls if bool(c.get('proxy')) == (kind == 'state')):
                continue
            try:
                ok = tri(same(sum((2 * l * q[j] for l, q in ks), ZERO), sum((q[j] for l, q in ks), ZERO)) for j in range(nd)) if all(l is not False for l, q in ks) else False
            except TooBig:
                ok = None
            verdict(ctx, ok, 'faces', f.where(), '%s|%s|centred' % (F, kind), '%s::ComputeGodunovFlux: the fluxes over a step are those of face states extrapolated by the Euler equations, centred in time' % F)
    ctx.floor('face Riemann problems', n, 2)


def fname_atom(a):
    k = akey(a)
    return k[0] == 'v' and isinstance(k[1], tuple) and k[1][:1] in (('i',), ('j',))


def has(q, pre):
    return any(akey(a)[0] == 'v' and isinstance(akey(a)[1], tuple) and akey(a)[1][:len(pre)] == pre for a in atoms_of(q))


def orient(vec, nd):
    """sign of the vector along the line from the particle to the neighbour"""
    cs = []
    for x in vec:
        for c in conds(x):
            if c not in cs:
                cs.append(c)
    signs = set()
    for vs in itertools.product((0, 1), repeat=len(cs)) if len(cs) <= 5 else [()]:
        signs.add(orient1([split(x, list(zip(cs, vs))) for x in vec], nd))
    signs -= {0}
    return signs.pop() if len(signs) == 1 else None


def orient1(vec, nd):
    signs = set()
    for case in range(3):
        def env(k):
            n = k[1]
            if k[0] == 'v' and isinstance(n, tuple) and n[:1] in (('i',), ('j',)):
                if n[1] == 'r':
                    return {'i': (0.3, 0.2, 0.1), 'j': (0.9, 0.5, 0.4)}[n[0]][n[2][0]]
                if n[1] == 'B':
                    return 1.0 + 0.1 * n[2][0] if n[2][0] == n[2][1] else 0.05
                return 1.0 + (zlib.crc32(repr((n, case)).encode()) % 97) / 300.0
            return 1.0 + (zlib.crc32(repr((k, case)).encode()) % 97) / 300.0
        try:
            x = [value(q, env) for q in vec]
        except (KeyError, ZeroDivisionError, ValueError, TypeError, OverflowError):
            return None
        if any(isinstance(y, complex) for y in x):
            return None
        y = x[0] * 0.6 + x[1] * 0.3
        if abs(y) < 1e-12:
            return 0
        signs.add(y > 0)
    return None if len(signs) > 1 else 1 if True in signs else -1


def level(S, w, nd, side):
    """the fraction of the step by which the state has been extrapolated; False when it is not the Euler equations that did it"""
    if side is None:
        return None
    T = [a for x in S for a in atoms_of(x) if akey(a)[0] == 'v' and akey(a)[1] == ('i', 'nstep', ())]
    if not T:
        return Fr(0)
    off = Subst(lambda k: ZERO if k == ('v', ('i', 'nstep', ())) else None)
    res = None
    for lam in (Fr(1, 2), Fr(1), Fr(0)):
        def test(xs, lam=lam):
            Sx = xs
            S0 = [off(x) for x in Sx]
            g = [[sym((side, 'slope', (v, k))) for k in range(nd)] for v in range(nd + 2)]
            a = [sym((side, 'a', (k,))) for k in range(nd)]
            c = sym((side, 'sound', ()))
            div = sum((g[k][k] for k in range(nd)), ZERO)
            adv = [-sum((S0[k] * g[i][k] for k in range(nd)), ZERO) for i in range(nd + 2)]
            dot_ = [adv[k] - g[nd + 1][k] / S0[nd] + a[k] for k in range(nd)] + [adv[nd] - S0[nd] * div, adv[nd + 1] - S0[nd] * c * c * div]
            dt = DT * sym(('i', 'nstep', ()))
            return all(same(Sx[i] - S0[i], lam * dt * dot_[i]) for i in range(nd + 2))
        DT = None
        for x in S:
            for at_ in atoms_of(x):
                k = akey(at_)
                if k[0] == 'v' and k[1] == ('P', 'timestep'):
                    DT = A(k)
        if DT is None:
            return None
        z = False
        cs = []
        for x in S[:nd]:
            cs += [c for c in conds(x) if c not in cs]
        if len(cs) > 3:
            return None
        for vs in itertools.product((1, 0), repeat=len(cs)):
            X = [split(x, list(zip(cs, vs))) for x in S]
            # floors of density and pressure: the branch that is not the floor
            for i in (nd, nd + 1):
                for c in conds(X[i]):
                    for v in (0, 1):
                        y = split(X[i], [(c, v)])
                        if any(akey(a) == ('v', ('i', 'nstep', ())) for a in atoms_of(y)):
                            X[i] = y
                            break
            if any(conds(x) for x in X):
                return None
            try:
                z = z or test(X)
            except TooBig:
                return None
        if z:
            return lam
    return False


def convert(ctx, p):
    """conserved to primitive variables"""
    for f in variants(p, 'MeshlessFV::UpdateArrayVariables', 2):
        nd = D_ndim(f)
        ps = params(f)
        D = EDom(p)
        m, v, u, nden = sym('m'), [sym(('v', k)) for k in range(nd)], sym('u'), sym('ndens')
        st = State(g=ONE)
        for k in range(nd):
            st.m[('P', 'Q', ('[', k))] = V(m * v[k], ty='double')
        st.m[('P', 'Q', ('[', nd))] = V(m, ty='double')
        st.m[('P', 'Q', ('[', nd + 1))] = V(m * u + P(Fr(1, 2)) * m * dot(v, v), ty='double')
        fl = Interp(p, D, maxdepth=4).run_root(f, {ps[0][0]: ('P', 'part'), ps[1][0]: V(ptr=('arr', ('P', 'Q')), ty=ps[1][1])}, st=st, this=('this', f.cls))
        outs = [s for s, x in fl.re] + ([fl.n] if fl.n is not None else [])

        def get(fld, ix=()):
            for s in outs:
                for k, x in s.m.items():
                    if k[:2] == ('P', 'part') and len(k) > 2 and k[2][1].split('::')[-1] == fld and tuple(k[3:]) == ix:
                        return x.d
            return None
        nd_ = next((k for s in outs for k in ()), None)
        want = [('m', (), m), ('u', (), u)] + [('v', (('[', k),), v[k]) for k in range(nd)]
        for fld, ix, val in want:
            got = get(fld, ix)
            ok = None
            if got is not None:
                cs = conds(got)
                ok = any(same(split(got, list(zip(cs, vs))), val) for vs in itertools.product((0, 1), repeat=len(cs))) if len(cs) <= 3 else None
            verdict(ctx, ok, 'convert', f.where(), 'UpdateArrayVariables|%d|%s%s' % (nd, fld, ix), 'UpdateArrayVariables in %d dimensions: %s is recovered from the conserved quantities' % (nd, fld))
