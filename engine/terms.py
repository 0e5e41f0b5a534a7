"""Value numbering with an algebraic normal form.

Every value is a polynomial, with rational coefficients, in atoms raised to rational powers.  Atoms are
symbols (the initial content of a memory location), pi, applications of opaque functions, non-monomial
polynomials raised to a power, and indicators of conditions (0 or 1).  A join over a branch condition c
of the values a and b is [c]*a + (1-[c])*b, so a selection written with if, ?:, min/max, fabs or with two
returns has the same normal form.  Equality is decided by the normal form alone; what has no normal form
is an opaque atom, and two values that cannot be shown different are never reported.
"""
from fractions import Fraction as Fr
import math

_atoms = {}
_atomkey = []
_polys = {}
_polyobj = []


def atom(key):
    i = _atoms.get(key)
    if i is None:
        i = len(_atomkey)
        _atoms[key] = i
        _atomkey.append(key)
    return i


class TooBig(Exception):
    pass


MAXT = 6000


def limit(n):
    """largest number of terms of a value; larger values become unknown"""
    global MAXT
    MAXT = n


class Poly(object):
    __slots__ = ('t', '_id')

    def __init__(self, t):
        self.t = t
        self._id = None
        if len(t) > MAXT:
            raise TooBig()

    @property
    def id(self):
        if self._id is None:
            k = frozenset(self.t.items())
            i = _polys.get(k)
            if i is None:
                i = len(_polyobj)
                _polys[k] = i
                _polyobj.append(self)
            self._id = i
        return self._id

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return self.id

    def __add__(self, o):
        o = P(o)
        if len(self.t) < len(o.t):
            self, o = o, self
        t = dict(self.t)
        for m, c in o.t.items():
            n = t.get(m, 0) + c
            if n:
                t[m] = n
            else:
                t.pop(m, None)
        return Poly(t)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-P(o))

    def __rsub__(self, o):
        return P(o) - self

    def __mul__(self, o):
        o = P(o)
        t = {}
        if len(self.t) * len(o.t) > 10 * MAXT:
            raise TooBig()
        for m, c in self.t.items():
            for n, d in o.t.items():
                k = mmul(m, n)
                if k is None:
                    continue
                if k in _nn:
                    k, f = _nn[k]
                    v = t.get(k, 0) + c * d * f
                else:
                    v = t.get(k, 0) + c * d
                if v:
                    t[k] = v
                else:
                    t.pop(k, None)
        return Poly(t)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self * P(o) ** -1

    def __rtruediv__(self, o):
        return P(o) * self ** -1

    def __pow__(self, e):
        return power(self, Fr(e))

    def const(self):
        if not self.t:
            return Fr(0)
        if len(self.t) == 1:
            (m, c), = self.t.items()
            if m == ():
                return c
        return None

    def __repr__(self):
        return show(self)


_mm = {}
_nn = {}        # monomial with a prime power outside [0,1) -> (normal monomial, rational factor)


def nnorm(m):
    """fold the integer part of the exponents of prime-number atoms into a rational factor"""
    for a, e in m:
        if _atomkey[a][0] == 'n' and not 0 < e < 1:
            break
    else:
        return m, None
    f = Fr(1)
    out = []
    for a, e in m:
        if _atomkey[a][0] == 'n':
            k = math.floor(e)
            f *= _atomkey[a][1] ** int(k)
            e = e - k
            if e == 0:
                continue
        out.append((a, e))
    return tuple(out), f


def factor(n):
    out = {}
    d = 2
    while d * d <= n:
        while n % d == 0:
            out[d] = out.get(d, 0) + 1
            n //= d
        d += 1
        if d > 20000:
            break
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out


def npower(c, e):
    """c**e of a positive rational, as a polynomial in prime powers with exponent in (0,1)"""
    m = []
    for x, s in ((c.numerator, 1), (c.denominator, -1)):
        for q, k in factor(x).items():
            m.append((atom(('n', Fr(q))), s * k * e))
    k, f = nnorm(tuple(sorted(m)))
    return Poly({k: f if f is not None else Fr(1)})


def mmul(m, n):
    if not m:
        return n
    if not n:
        return m
    k = (m, n)
    r = _mm.get(k, 0)
    if r != 0:
        return r
    d = dict(m)
    for a, e in n:
        d[a] = d.get(a, 0) + e
    out = []
    for a, e in d.items():
        if e == 0:
            continue
        if _atomkey[a][0] == 'i' and e != 1:
            e = Fr(1)
        out.append((a, e))
    r = tuple(sorted(out))
    q = [_atomkey[a][2] for a, e in r if _atomkey[a][0] == 'i' and _atomkey[a][1] == 'streq']
    if len(q) > 1 and len({x[1] for x in q}) < len(q):
        r = None            # the same string equals two different literals
    if len(_mm) > 2000000:
        _mm.clear()
    _mm[k] = r
    if r is not None:
        w, f = nnorm(r)
        if f is not None:
            _nn[r] = (w, f)
    return r


def P(x):
    if isinstance(x, Poly):
        return x
    x = Fr(x)
    return Poly({(): x} if x else {})


ZERO = P(0)
ONE = P(1)


def A(key, e=1):
    return Poly({((atom(key), Fr(e)),): Fr(1)})


def sym(name):
    return A(('v', name))


PI = A(('c', 'pi'))


def rootfr(c, e):
    """c**e as (rational, leftover-exponent base) ; c > 0"""
    n, d = e.numerator, e.denominator

    def iroot(x):
        r = int(round(x ** (1.0 / d))) if x < 10 ** 15 else int(round(math.exp(math.log(x) / d)))
        for y in (r - 1, r, r + 1):
            if y >= 0 and y ** d == x:
                return y
        return None
    a, b = iroot(c.numerator), iroot(c.denominator)
    if a is None or b is None:
        return None
    return Fr(a, b) ** n


def power(p, e):
    if e == 0:
        return ONE
    if e == 1:
        return p
    if not p.t:
        if e < 0:
            return A(('v', '1/0'))
        return ZERO
    if len(p.t) == 1:
        (m, c), = p.t.items()
        res = None
        if e.denominator == 1:
            res = P(c ** int(e))
        elif c > 0:
            r = rootfr(c, e)
            res = P(r) if r is not None else npower(c, e)
        else:
            for a, x in m:
                if _atomkey[a][0] == 'p' and x.denominator == 1 and x % 2:
                    # -Q under the root: the sign belongs to Q
                    neg = -_polyobj[_atomkey[a][1]]
                    rest = Poly({tuple(t for t in m if t[0] != a): -c})
                    return power(rest, e) * A(('p', neg.id), x * e)
            return A(('p', p.id), e)
        mm = []
        for a, x in m:
            y = x * e
            if _atomkey[a][0] == 'i':
                y = Fr(1)
            mm.append((a, y))
        k, f = nnorm(tuple(mm))
        return res * Poly({k: f if f is not None else Fr(1)})
    if e.denominator == 1 and e > 0 and len(p.t) ** int(e) <= 4000:
        r = ONE
        for _ in range(int(e)):
            r = r * p
        return r
    c, m, q = primitive(p, e.denominator == 1 or True)
    if q.const() is not None:
        return power(Poly({m: c}), e)
    # p = c * m * q with q's leading coefficient 1 in absolute value
    if c < 0 and e.denominator != 1:
        c, q = -c, -q
    if e.denominator == 1 and e > 0:
        return P(c ** int(e)) * power(Poly({m: Fr(1)}), e) * A(('p', q.id), e)
    return power(Poly({m: c}), e) * A(('p', q.id), e)


def akey(a):
    return _atomkey[a]


def primitive(p, flip=True):
    """p = c * m * q, q primitive with leading coefficient +1 (when flip) and no common monomial"""
    ms = list(p.t)
    common = dict(ms[0])
    for m in ms[1:]:
        d = dict(m)
        for a in list(common):
            if a not in d:
                common[a] = min(common[a], Fr(0))
                if common[a] == 0:
                    del common[a]
            else:
                common[a] = min(common[a], d[a])
        for a, x in d.items():
            if a not in common and x < 0:
                if not any(a not in dict(k) for k in ms) or True:
                    # negative power present somewhere
                    common[a] = min(Fr(0), min(dict(k).get(a, Fr(0)) for k in ms))
    common = {a: x for a, x in common.items() if x != 0 and _atomkey[a][0] != 'i'}
    cm = tuple(sorted(common.items()))
    inv = tuple((a, -x) for a, x in cm)
    q = {mmul(m, inv): c for m, c in p.t.items()}
    lead = min(q)
    c = q[lead]
    q = Poly({m: v / c for m, v in q.items()})
    return c, cm, q


_clear = {}


def clear(p):
    """multiply out polynomial atoms (denominators and integer powers); zero iff p is zero"""
    for _ in range(40):
        neg, pos = {}, set()
        for m in p.t:
            for a, e in m:
                if _atomkey[a][0] == 'p':
                    if e < 0:
                        neg[a] = min(neg.get(a, 0), e)
                    elif e >= 1:
                        pos.add(a)
        if neg:
            f = tuple(sorted((a, Fr(math.ceil(-e))) for a, e in neg.items()))
            p = Poly({mmul(m, f): c for m, c in p.t.items()})
            continue
        if not pos:
            return p
        r = ZERO
        for m, c in p.t.items():
            keep, mult = [], ONE
            for a, e in m:
                if _atomkey[a][0] == 'p' and e >= 1:
                    n = int(e)
                    b = _polyobj[_atomkey[a][1]]
                    for _k in range(n):
                        mult = mult * b
                    if e != n:
                        keep.append((a, e - n))
                else:
                    keep.append((a, e))
            r = r + Poly({tuple(keep): c}) * mult
        p = r
    return p


def same(a, b):
    if a is b or a == b:
        return True
    try:
        d = a - b
        if not d.t:
            return True
        return not clear(d).t
    except TooBig:
        return None


def fun(name, *args):
    return A(('f', name) + tuple(x.id if isinstance(x, Poly) else x for x in args))


# ---- conditions ----------------------------------------------------------------------------------
def pos(p, integer=False):
    """[p > 0]"""
    k = p.const()
    if k is not None:
        return ONE if k > 0 else ZERO
    c, m, q = primitive(p)
    # positive atoms cannot be assumed: the common monomial is kept
    q = Poly({mmul(x, m): v for x, v in q.t.items()})
    if integer:
        s = abs(c)
        lead = min(q.t)
        if c > 0:
            return A(('i', 'ipos', p.id))
        # [p>0] = 1 - [-p > -1] = 1 - [1-p > 0]
        return ONE - A(('i', 'ipos', (ONE - p).id))
    if c > 0:
        return A(('i', 'pos', q.id))
    return ONE - A(('i', 'pos', q.id))


def eqz(p):
    k = p.const()
    if k is not None:
        return ONE if k == 0 else ZERO
    if isbool(p):
        return ONE - p
    c, m, q = primitive(p)
    q = Poly({mmul(x, m): v for x, v in q.t.items()})
    return A(('i', 'eq0', q.id))


def isbool(p):
    return p.const() in (0, 1) or (p.const() is None and all(_atomkey[a][0] == 'i' for m in p.t for a, e in m))


def truth(p):
    return p if isbool(p) else ONE - eqz(p)


def pmax(a, b):
    return b + pos(a - b) * (a - b)


def pmin(a, b):
    return a - pos(a - b) * (a - b)


def pabs(a):
    if len(a.t) == 1:
        (m, c), = a.t.items()
        if all(positive(x) for x, e in m):
            return Poly({m: abs(c)})
    return a * (2 * pos(a) - 1)


def positive(a):
    k = _atomkey[a]
    return k[0] in ('c', 'n')


# ---- structure -----------------------------------------------------------------------------------
def show(p, depth=3):
    if not isinstance(p, Poly):
        return repr(p)
    if not p.t:
        return '0'
    out = []
    for m, c in sorted(p.t.items(), key=lambda x: str(x[0]))[:12]:
        s = '*'.join((showatom(a, depth) if e == 1 else '%s^%s' % (showatom(a, depth), e)) for a, e in m)
        if c == 1 and s:
            out.append(s)
        elif c == -1 and s:
            out.append('-' + s)
        else:
            out.append(str(c) + ('*' + s if s else ''))
    if len(p.t) > 12:
        out.append('...(%d terms)' % len(p.t))
    return ' + '.join(out)


def showloc(n):
    if isinstance(n, tuple):
        if n and n[0] in ('L', 'P', 'this', 'G') and len(n) >= 2:
            head = n[3] if n[0] == 'L' and len(n) > 3 else str(n[1]).split('::')[-1] if n[0] != 'this' else 'this'
            return head + ''.join(showloc(x) for x in n[(4 if n[0] == 'L' else 2):])
        if len(n) == 2 and n[0] == '.':
            return '.' + str(n[1]).split('::')[-1]
        if len(n) == 2 and n[0] == '[':
            return '[%s]' % showloc(n[1])
        if len(n) == 2 and n[0] == 't':
            return show(_polyobj[n[1]], 1)
        return '(' + ','.join(showloc(x) for x in n) + ')'
    return str(n)


def showatom(a, depth=3):
    k = _atomkey[a]
    if k[0] == 'v':
        return showloc(k[1])
    if k[0] in ('c', 'n'):
        return str(k[1])
    if depth <= 0:
        return k[0] + '#%d' % a
    if k[0] == 'p':
        return '(' + show(_polyobj[k[1]], depth - 1) + ')'
    if k[0] == 'i':
        return '[%s %s]' % (show(_polyobj[k[2]], depth - 1) if isinstance(k[2], int) else k[2], {'pos': '>0', 'ipos': '>0', 'eq0': '==0'}.get(k[1], k[1]))
    if k[0] == 'f':
        return k[1] + '(' + ', '.join(show(_polyobj[x], depth - 1) if isinstance(x, int) else showloc(x) for x in k[2:]) + ')'
    return str(k)


def atoms_of(p, acc=None, deep=True):
    """all atom keys below p"""
    acc = acc if acc is not None else set()
    for m in p.t:
        for a, e in m:
            if a in acc:
                continue
            acc.add(a)
            if deep:
                for q in subpolys(_atomkey[a]):
                    atoms_of(q, acc)
    return acc


def subpolys(k):
    if k[0] == 'p':
        return [_polyobj[k[1]]]
    if k[0] == 'i':
        return [_polyobj[k[2]]] if isinstance(k[2], int) else []
    if k[0] == 'f':
        return [_polyobj[x] for x in k[2:] if isinstance(x, int)]
    return []


class Subst(object):
    """simultaneous replacement of symbols: map(key of a 'v' atom) -> Poly or None to keep"""

    def __init__(self, f, ffun=None):
        self.f = f
        self.ffun = ffun
        self.memo = {}

    def atom(self, a):
        r = self.memo.get(a)
        if r is not None:
            return r
        k = _atomkey[a]
        r = self.f(k)
        if r is None:
            if k[0] == 'i' and isinstance(k[2], int):
                q = self(_polyobj[k[2]])
                r = pos(q) if k[1] == 'pos' else pos(q, True) if k[1] == 'ipos' else eqz(q) if k[1] == 'eq0' else A(('i', k[1], q.id))
            elif k[0] == 'p':
                r = self(_polyobj[k[1]])
            elif k[0] == 'f':
                args = [self(_polyobj[x]) if isinstance(x, int) else x for x in k[2:]]
                r = self.ffun(k[1], args) if self.ffun else None
                if r is None:
                    r = fun(k[1], *args)
            else:
                r = A(k)
        self.memo[a] = r
        return r

    def __call__(self, p):
        hit = False
        r = {}
        for m, c in p.t.items():
            pr = Poly({(): c})
            for a, e in m:
                x = self.atom(a)
                pr = pr * (power(x, e) if e != 1 else x)
            for k, v in pr.t.items():
                n = r.get(k, 0) + v
                if n:
                    r[k] = n
                else:
                    r.pop(k, None)
        return Poly(r)


class Deriv(object):
    """derivative along: d(atom key) -> Poly (None: use the structural rule / zero)"""

    def __init__(self, f, ffun=None):
        self.f = f
        self.ffun = ffun
        self.memo = {}

    def atom(self, a):
        r = self.memo.get(a)
        if r is not None:
            return r
        k = _atomkey[a]
        r = self.f(k)
        if r is None:
            r = ZERO
            if k[0] == 'p':
                r = self(_polyobj[k[1]])
            elif k[0] == 'f':
                args = [_polyobj[x] if isinstance(x, int) else x for x in k[2:]]
                if self.ffun:
                    rr = self.ffun(k[1], args, self)
                    if rr is not None:
                        self.memo[a] = rr
                        return rr
                for i, x in enumerate(args):
                    if not isinstance(x, Poly):
                        continue
                    dx = self(x)
                    if dx.t:
                        r = r + dfun(k[1], args, i) * dx
        self.memo[a] = r
        return r

    def __call__(self, p):
        r = ZERO
        for m, c in p.t.items():
            for i, (a, e) in enumerate(m):
                d = self.atom(a)
                if not d.t:
                    continue
                rest = m[:i] + (((a, e - 1),) if e != 1 else ()) + m[i + 1:]
                r = r + Poly({rest: c * e}) * d
        return r


def dfun(name, args, i):
    x = args[0]
    if name == 'exp':
        return fun('exp', x)
    if name == 'log':
        return x ** -1
    if name == 'sin':
        return fun('cos', x)
    if name == 'cos':
        return -fun('sin', x)
    if name == 'tan':
        return ONE + fun('tan', x) ** 2
    if name == 'erf':
        return 2 * PI ** Fr(-1, 2) * fun('exp', -(x ** 2))
    if name == 'atan':
        return (ONE + x ** 2) ** -1
    return fun('D%d:%s' % (i, name), *args)


# ---- numeric literals ----------------------------------------------------------------------------
def number(x):
    """the exact value a literal stands for: a short decimal, or a rational or simple multiple of pi"""
    if isinstance(x, int) or float(x) == int(float(x)) and abs(float(x)) < 1e15:
        return P(int(x))
    s = repr(float(x))
    mant = s.split('e')[0].replace('.', '').replace('-', '').lstrip('0')
    if len(mant) >= 10:
        for d in (True,):
            f = Fr(float(x)).limit_denominator(5000)
            if f and abs(float(f) - x) <= 2e-14 * abs(x) + 0:
                return P(f)
            for k, sy in ((1, math.pi), (-1, 1 / math.pi), (Fr(1, 2), math.sqrt(math.pi)), (Fr(-1, 2), 1 / math.sqrt(math.pi))):
                f = Fr(float(x) / sy).limit_denominator(5000)
                if f and abs(float(f) * sy - x) <= 3e-13 * abs(x):
                    return P(f) * PI ** k
            f = Fr(float(x) ** 2).limit_denominator(500)
            if f and abs(float(f) ** 0.5 - abs(x)) <= 2e-9 * abs(x):
                return (P(f) ** Fr(1, 2)) * (1 if x > 0 else -1)
    return P(Fr(s))


def evalf(p, env):
    """numeric value (used only to print examples)"""
    return None
