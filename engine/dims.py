"""Dimension inference: the abstract domain of physical dimensions over the structured interpreter.

A dimension is an element of a free abelian group with rational exponents.  Atoms:
  L, T            code length and time.  In three dimensions G=1 makes mass L^3 T^-2 and temperature
                  (scaled with k_B/m_H) L^2 T^-2; in one and two dimensions mass is the atom M.
  o:X i:X s:X g:X a quantity X expressed in the output unit, input unit, SI, cgs
  par:KEY         the unit of the user parameter KEY, where the table does not fix one
Values: 'T' unknown (never reported), 'P' polymorphic (0, +-big/small numbers), 'C' a plain number held in
a variable, or a tuple of (atom, exponent) pairs; () is dimensionless.
"""
from fractions import Fraction as Fr
import json, os, re
import facts
from absint import Domain, V, Interp, scalar_type
from util import strip, strval, root_field

TOP, POLY, CONST = 'T', 'P', 'C'


def mk(d):
    return tuple(sorted((k, v) for k, v in d.items() if v != 0))


def mul(a, b, s=1):
    d = dict(a)
    for k, v in b:
        d[k] = d.get(k, 0) + s * v
    return mk(d)


def pw(a, e):
    return mk({k: v * e for k, v in a})


def show(d):
    if not isinstance(d, tuple):
        return {'T': 'unknown', 'P': 'any', 'C': 'number'}[d]
    if not d:
        return 'dimensionless'
    return ' '.join(k if v == 1 else '%s^%s' % (k, v) for k, v in d)


def parse(s, nd):
    """'M L^-nd T' -> dimension"""
    out = {}
    s = s.strip()
    if s in ('?', 'T!'):
        return TOP
    if s in ('1', ''):
        return ()
    for tok in s.split():
        m = re.match(r'^([A-Za-z:_0-9.]+?)(?:\^(-?[0-9nd/+*-]+))?$', tok)
        at, ex = m.group(1), m.group(2)
        e = Fr(1)
        if ex:
            ex = ex.replace('nd', str(nd))
            if '/' in ex and re.match(r'^-?\d+/\d+$', ex):
                e = Fr(ex)
            else:
                e = Fr(eval(ex))
        sub = BASE(nd).get(at)
        for k, v in (sub if sub is not None else ((at, Fr(1)),)):
            out[k] = out.get(k, 0) + v * e
    return mk(out)


def BASE(nd):
    L, T = ('L', Fr(1)), ('T', Fr(1))
    b = {'L': (L,), 'T': (T,)}
    if nd == 3:
        b['M'] = (('L', Fr(3)), ('T', Fr(-2)))
    else:
        b['M'] = (('M', Fr(1)),)
    b['Th'] = (('L', Fr(2)), ('T', Fr(-2)))
    def d(m, l, t):
        return mul(mul(pw(b['M'], Fr(m)), pw((L,), Fr(l))), pw((T,), Fr(t)))
    b['V'] = d(0, 1, -1)
    b['A'] = d(0, 1, -2)
    b['RHO'] = d(1, -nd, 0)
    b['PRESS'] = d(1, 2 - nd, -2)
    b['U'] = d(0, 2, -2)
    b['E'] = d(1, 2, -2)
    b['MOM'] = d(1, 1, -1)
    b['ANGMOM'] = d(1, 2, -1)
    b['LUM'] = d(1, 2, -3)
    return b


# quantity of each member of SimUnits in code units (m, l, t exponents) and cgs/SI base units
UNITQ = {
    'r': 'L', 'm': 'M', 't': 'T', 'v': 'V', 'a': 'A', 'rho': 'M L^-3', 'sigma': 'M L^-2', 'press': 'M L^-1 T^-2', 'f': 'M L T^-2',
    'E': 'E', 'mom': 'MOM', 'angmom': 'ANGMOM', 'angvel': 'T^-1', 'dmdt': 'M T^-1', 'L': 'LUM', 'kappa': 'L^2 M^-1',
    'u': 'U', 'dudt': 'U T^-1', 'temp': 'Th',
}
PHYS = {  # the same, in an absolute system (mass and temperature independent)
    'r': 'l', 'm': 'm', 't': 't', 'v': 'l t^-1', 'a': 'l t^-2', 'rho': 'm l^-3', 'sigma': 'm l^-2', 'press': 'm l^-1 t^-2', 'f': 'm l t^-2',
    'E': 'm l^2 t^-2', 'mom': 'm l t^-1', 'angmom': 'm l^2 t^-1', 'angvel': 't^-1', 'dmdt': 'm t^-1', 'L': 'm l^2 t^-3', 'kappa': 'l^2 m^-1',
    'u': 'l^2 t^-2', 'dudt': 'l^2 t^-3', 'temp': 'K',
}


def absdim(s, sysn):
    out = {}
    for tok in s.split():
        a, _, e = tok.partition('^')
        out[sysn + ':' + a] = Fr(e or 1)
    return mk(out)


# physical constants of Constants.h: SI dimension
CONSTS = {
    'G_const': 'l^3 m^-1 t^-2', 'k_boltzmann': 'm l^2 t^-2 K^-1', 'stefboltz': 'm t^-3 K^-4', 'm_hydrogen': 'm', 'm_sun': 'm', 'm_jup': 'm', 'm_earth': 'm',
    'r_sun': 'l', 'r_earth': 'l', 'r_au': 'l', 'r_pc': 'l', 'yr': 't', 'myr': 't', 'day': 't', 'L_sun': 'm l^2 t^-3', 'h_planck': 'm l^2 t^-1', 'c_light': 'l t^-1',
    'm_proton': 'm', 'm_electron': 'm',
}
POLYNAMES = {'big_number', 'big_number_dp', 'small_number', 'small_number_dp', 'BIG_NUMBER', 'SMALL_NUMBER'}


def load_table():
    t = {}
    fn = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'dims.table')
    for ln in open(fn):
        ln = ln.split('#')[0].rstrip()
        if not ln.strip():
            continue
        k, _, v = ln.strip().partition(' ')
        t[k] = v.strip()
    return t


class Dims(Domain):
    loop_mode = 'join'
    alias_copies = True

    def __init__(self, prog, nd, report, table):
        self.p = prog
        self.nd = nd
        self.report = report            # report(rule, fn, line, msg)
        self.table = table
        self.cache = {}
        self.nchecks = 0
        self.nunknown = 0
        self.fielddef = {}
        self.param_uses = {}

    def top(self):
        return TOP

    def lit(self, x, isint):
        if x == 0:
            return POLY
        if not isint and (abs(x) >= 1e12 or abs(x) <= 1e-12):
            return POLY
        if isint and abs(x) >= 999999999:
            return POLY
        return ()

    def tab(self, key, idx=None):
        k = (key, idx)
        if k in self.cache:
            return self.cache[k]
        v = self.table.get(key)
        r = TOP
        if v is not None:
            if '|' in v:
                # per-index: "RHO ; V*nd ; PRESS" expanded by index
                r = self.by_index(v, idx)
            else:
                r = parse(v, self.nd)
        self.cache[k] = r
        return r

    def by_index(self, v, idx):
        parts = []
        for s in v.split('|'):
            s = s.strip()
            m = re.match(r'^(.*)\*(\S+)$', s)
            if m:
                n = int(eval(m.group(2).replace('nd', str(self.nd))))
                parts += [m.group(1)] * n
            else:
                parts.append(s)
        if isinstance(idx, int) and 0 <= idx < len(parts):
            return parse(parts[idx], self.nd)
        ds = {parse(x, self.nd) for x in parts}
        return ds.pop() if len(ds) == 1 else TOP

    def field_key(self, loc):
        """(qualified field, first index after it)"""
        for n in range(len(loc) - 1, -1, -1):
            it = loc[n]
            if isinstance(it, tuple) and len(it) == 2 and it[0] == '.':
                idx = None
                if n + 1 < len(loc):
                    idx = loc[n + 1][1]
                return it[1], idx, n
        return None, None, None

    def locdim(self, loc, I):
        f, idx, n = self.field_key(loc)
        if f is None:
            if loc[0] == 'G':
                return self.tab('::' + loc[1])
            return TOP
        if f.startswith('SimUnit::'):
            # object: SimUnits::X
            q = None
            for it in loc[:n]:
                if isinstance(it, tuple) and it[0] == '.' and it[1].startswith('SimUnits::'):
                    q = it[1].split('::')[1]
            if q is None:
                return TOP
            return self.unitdim(q, f.split('::')[1])
        return self.tab(f, idx)

    def unitdim(self, q, what):
        if q not in UNITQ:
            return TOP
        code = parse(UNITQ[q], 3)
        if self.nd != 3:
            code = parse(UNITQ[q].replace('RHO', 'M L^-3'), self.nd)
        o, i = (('o:' + q, Fr(1)),), (('i:' + q, Fr(1)),)
        if what == 'outscale':
            return mul(o, code, -1)
        if what == 'inscale':
            return mul(i, code, -1)
        if what == 'outSI':
            return mul(absdim(PHYS[q], 's'), o, -1)
        if what == 'inSI':
            return mul(absdim(PHYS[q], 's'), i, -1)
        if what == 'outcgs':
            return mul(absdim(PHYS[q], 'g'), o, -1)
        return TOP

    def init(self, loc, ty, I):
        if ty and scalar_type(ty) and ty.replace('const ', '').strip() in ('int', 'bool', 'long', 'unsigned int', 'unsigned long', 'long long', 'char'):
            return ()
        return self.locdim(loc, I)

    # ---- checks --------------------------------------------------------------------------------
    def chk(self, rule, a, b, node, I, msg):
        if I.quiet:
            return
        if isinstance(a, tuple) and isinstance(b, tuple):
            self.nchecks += 1
            if a != b:
                self.report(rule, I.fn, node[1], msg % (show(a), show(b)), I)
        else:
            self.nunknown += 1

    @staticmethod
    def isflex(v):
        return v.d in (POLY, CONST)

    def combine(self, a, b):
        """dimension of a sum/min/phi of compatible operands"""
        if a == b:
            return a
        if a == POLY:
            return b
        if b == POLY:
            return a
        if a == CONST:
            return b if isinstance(b, tuple) else b
        if b == CONST:
            return a
        return TOP

    def norm(self, v):
        """dimension as an operand of * and /"""
        if v.d == CONST:
            return ()
        return v.d

    def arith(self, op, a, b, node, I):
        x, y = a.d, b.d
        if x is None or y is None:
            return TOP
        if op in ('+', '-'):
            if isinstance(x, tuple) and isinstance(y, tuple):
                self.chk('homogeneous-sum', x, y, node, I, 'adds/subtracts quantities of different dimension (%s and %s)')
                return x if x == y else TOP
            return self.combine(x, y)
        if op == '*':
            x, y = self.norm(a), self.norm(b)
            if x == TOP or y == TOP:
                return TOP
            if x == POLY or y == POLY:
                return POLY
            r = mul(x, y)
            if r == () and (a.d == CONST or b.d == CONST) :
                return CONST
            return r
        if op == '/':
            x, y = self.norm(a), self.norm(b)
            if x == TOP or y == TOP:
                return TOP
            if x == POLY or y == POLY:
                return POLY
            r = mul(x, y, -1)
            if r == () and (a.d == CONST or b.d == CONST):
                return CONST
            return r
        if op == '%':
            return x
        return ()

    def compare(self, op, a, b, node, I):
        if a.d is None or b.d is None:
            return None
        if isinstance(a.d, tuple) and isinstance(b.d, tuple) and not a.lit and not b.lit:
            self.chk('homogeneous-comparison', a.d, b.d, node, I, 'compares quantities of different dimension (%s and %s)')
        return None

    def minmax(self, k, a, b, node, I):
        if isinstance(a.d, tuple) and isinstance(b.d, tuple) and not a.lit and not b.lit:
            self.chk('homogeneous-' + k, a.d, b.d, node, I, 'takes the ' + k + ' of quantities of different dimension (%s and %s)')
        if a.lit:
            return b.d
        if b.lit:
            return a.d
        return self.combine(a.d, b.d)

    def phi(self, c, a, b, node, I):
        if a.lit:
            return b.d
        if b.lit:
            return a.d
        return self.combine(a.d, b.d) if not (isinstance(a.d, tuple) and isinstance(b.d, tuple) and a.d != b.d) else TOP

    def join(self, c, a, b, I):
        if a is None or b is None:
            return TOP
        return self.combine(a, b)

    def retjoin(self, a, b, I):
        if a.lit and not b.lit:
            return b.d
        if b.lit and not a.lit:
            return a.d
        return self.combine(a.d, b.d)

    def uninit(self, loc, I):
        return POLY

    def neg(self, d, I):
        return d if d is not None else TOP

    def cast(self, kind, d, node, I):
        return d if d is not None else TOP

    def write(self, loc, v, node, I, st):
        d = v.d
        if d is None:
            return TOP
        f, idx, n = self.field_key(loc)
        want = TOP
        if f is not None or loc[0] == 'G':
            want = self.locdim(loc, I)
            if want == () and self.init(loc, None, I) == TOP:
                want = TOP
        if isinstance(want, tuple):
            if isinstance(d, tuple) and not v.lit:
                name = f or loc[1]
                self.chk('homogeneous-assignment', want, d, node, I, 'assigns to ' + name + ' (%s) a value of dimension %s')
            return want
        if v.lit:
            return CONST if d != POLY else POLY
        if f is not None and not I.quiet and isinstance(d, tuple):
            self.fielddef.setdefault(f, {}).setdefault(d, set()).add((I.fn.name, node[1]))
        if f is None and loc[0] == 'L' and isinstance(d, tuple):
            # arrays of local storage: an element write at an unknown index keeps earlier contents
            if isinstance(loc[-1], tuple) and loc[-1][0] == '[' and not isinstance(loc[-1][1], int):
                old = st.m.get(loc)
                if old is not None and isinstance(old.d, tuple) and old.d != d:
                    return TOP
        return d

    def gconst(self, name, I):
        n = name.split('::')[-1]
        if n in POLYNAMES:
            return POLY
        if n in CONSTS:
            return absdim(CONSTS[n], 's')
        return None

    def container(self, name, obj, node, I):
        if name.startswith('std::map') and node[4]:
            key = strval(node[4][0])
            f, _, _ = self.field_key(obj.lv) if obj is not None and obj.lv else (None, None, None)
            if f == 'Parameters::floatparams' and key:
                k = 'param:' + key
                if k in self.table:
                    return parse(self.table[k], self.nd)
                return (('par:' + key, Fr(1)),)
            if f == 'Parameters::intparams':
                return ()
        return None

    DIMLESS = {'exp', 'log', 'log10', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'erf', 'erfc', 'sinh', 'cosh', 'tanh', 'erff', 'expf', 'logf', 'log2'}
    SAME = {'fabs', 'abs', 'floor', 'ceil', 'fabsf', 'std::fabs', 'std::abs', 'round', 'rint', 'fmod'}

    def intrinsic(self, name, args, obj, node, I, st):
        n = name[5:] if name.startswith('std::') else name
        if n in ('sqrt', 'sqrtf'):
            d = args[0].d
            return V(pw(d, Fr(1, 2)) if isinstance(d, tuple) else d, ty='double')
        if n == 'cbrt':
            d = args[0].d
            return V(pw(d, Fr(1, 3)) if isinstance(d, tuple) else d, ty='double')
        if n in ('pow', 'powf') and len(args) == 2:
            b, e = args
            ev = self.const_value(node[4][1], e, I)
            if isinstance(e.d, tuple) and e.d != () and not I.quiet:
                self.report('dimensionless-argument', I.fn, node[1], 'raises to a power of dimension %s' % show(e.d), I)
            if not isinstance(b.d, tuple):
                return V(b.d if b.d in (POLY, CONST) else TOP, ty='double')
            if b.d == ():
                return V((), ty='double')
            if ev is None:
                return V(TOP, ty='double')
            return V(pw(b.d, ev), ty='double')
        if n in self.DIMLESS:
            d = args[0].d
            if isinstance(d, tuple):
                self.chk('dimensionless-argument', (), d, node, I, n + '() of a quantity that is not a pure number (%s expected, %s found)')
            return V((), ty='double')
        if n == 'atan2' and len(args) == 2:
            if isinstance(args[0].d, tuple) and isinstance(args[1].d, tuple):
                self.chk('homogeneous-comparison', args[0].d, args[1].d, node, I, 'atan2() of quantities of different dimension (%s and %s)')
            return V((), ty='double')
        if n in self.SAME and args:
            return V(args[0].d, None, None, None, args[0].ty, args[0].lit)
        if n in ('isnan', 'isinf', 'isnormal', 'isfinite'):
            return V((), ty='bool')
        k = 'fn:' + name
        if k in self.table:
            v = self.table[k]
            want, _, ret = v.rpartition('->')
            if want.strip():
                for a, w in zip(args, want.split(',')):
                    w = w.strip()
                    if w == '?':
                        continue
                    wd = parse(w, self.nd)
                    if isinstance(a.d, tuple) and not a.lit:
                        self.chk('argument-dimension', wd, a.d, node, I, 'passes to ' + name + ' a value of dimension %%s'.replace('%%s', '%s') + ' expected, %s found' if False else 'argument of ' + name + ' must be %s, is %s')
            ret = ret.strip()
            if ret == 'arg0':
                return V(args[0].d, ty='double')
            if ret != 'inline':
                return V(parse(ret, self.nd), ty=node[7])
        return None

    def const_value(self, e, v, I):
        """rational value of a constant exponent"""
        if v.c is not None:
            return Fr(v.c)
        e = strip(e)
        if e is None:
            return None
        if e[0] == 'flt':
            return Fr(e[2]).limit_denominator(1000)
        if e[0] == 'int':
            return Fr(e[2])
        if e[0] == 'un' and e[2] == '-':
            x = self.const_value(e[3], V(None), I)
            return None if x is None else -x
        if e[0] == 'bin' and e[2] in '+-*/':
            a = self.const_value(e[3], V(None), I)
            b = self.const_value(e[4], V(None), I)
            if a is None or b is None:
                return None
            if e[2] == '/':
                return None if b == 0 else a / b
            return a + b if e[2] == '+' else a - b if e[2] == '-' else a * b
        if e[0] == 'gvar':
            g = self.p.globals.get(e[2])
            if g and g['const']:
                return self.const_value(g['init'], V(None), I)
        if e[0] in ('mem', 'gvar'):
            nm = e[3] if e[0] == 'mem' else e[2]
            if nm.split('::')[-1] == 'invndim':
                return Fr(1, self.nd)
        if e[0] == 'var':
            # a local that holds a constant expression
            nm = I.fn.locals[e[2]][0]
            for d in facts.find(I.fn.body, 'decl'):
                for vid, init, _ in d[2]:
                    if vid == e[2] and init is not None and not self.reassigned(I.fn, vid):
                        return self.const_value(init, V(None), I)
        return None

    def reassigned(self, fn, vid):
        for a in facts.find(fn.body, 'asg'):
            l = strip(a[3])
            if l[0] == 'var' and l[2] == vid:
                return True
        return False

    def opaque(self, name, args, obj, node, I):
        return TOP if node[7] not in ('int', 'bool', 'unsigned long') else ()

    def idxkey(self, iv, I):
        return None

    def argkey(self, args, obj, I):
        return ()

    def returned(self, v, node, I):
        f = I.fn
        k = 'fn:' + f.name
        if k in self.table and isinstance(v.d, tuple) and not v.lit:
            ret = self.table[k].rpartition('->')[2].strip()
            if ret not in ('inline', 'arg0', '?'):
                self.chk('return-dimension', parse(ret, self.nd), v.d, node, I, f.name + ' must return %s, returns %s')

    def opaque_effects(self, name, args, obj, node, I, st):
        # an unknown callee may write through its reference and pointer arguments
        pass
