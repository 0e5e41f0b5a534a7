"""Format analysis of file writers and readers.

A writer is summarised by the sequence of tokens it puts into its file, each token carrying the term of
the value written (which member of which object, times which scale); loops over particles or stars become
repetitions.  A reader is then summarised over that token sequence: which lvalue receives which token.
Constant loop bounds, array slots and string tags are propagated; nothing is executed, and conditions that
constant propagation does not decide are settled by a fixed scenario (the header counts are positive,
files open, tags match), apart from conditions on the loop element, which become filters of the repetition.
"""
import re
from facts import find, walk
from util import strip

SIZES = {'int': 4, 'unsigned int': 4, 'long': 8, 'unsigned long': 8, 'double': 8, 'float': 4, 'char': 1, 'bool': 1,
         'long long': 8, 'short': 2}


class FormatError(Exception):
    """the reader does not consume what the writer produced"""
    def __init__(self, line, msg):
        self.line, self.msg = line, msg


class Unsupported(Exception):
    pass


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


def sizeof(t):
    t = t.replace('const ', '').replace('&', '').strip()
    return SIZES.get(t)


def isconst(v):
    return isinstance(v, (int, float, str, bool))


def add(a, b):
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a + b
    items = []
    for x in (a, b):
        items += list(x[1:]) if isinstance(x, tuple) and x[0] == '+' else [x]
    k = sum(x for x in items if isinstance(x, (int, float)))
    rest = sorted([x for x in items if not isinstance(x, (int, float))], key=repr)
    if k:
        rest.append(k)
    return ('+',) + tuple(rest) if len(rest) > 1 else (rest[0] if rest else 0)


def mul(fs, ds=()):
    """product of factors over divisors, cancelling"""
    num, den, k = [], [], 1
    for src, dst, o in ((fs, 0, 0), (ds, 1, 1)):
        for f in src:
            if isinstance(f, tuple) and f[0] == '*':
                n, d = f[1], f[2]
                (den if o else num).extend(n)
                (num if o else den).extend(d)
            else:
                (den if o else num).append(f)
    for x in list(num):
        if x in den:
            num.remove(x)
            den.remove(x)
    c = 1
    n2 = []
    for x in num:
        if isinstance(x, (int, float)):
            c = c * x
        elif isinstance(x, tuple) and x[0] == 'dflt':
            pass
        else:
            n2.append(x)
    d2 = []
    for x in den:
        if isinstance(x, (int, float)) and x:
            c = c / x
        else:
            d2.append(x)
    if c == 0:
        return 0
    if not d2 and not n2:
        return c
    if c != 1:
        n2.append(c)
    if len(n2) == 1 and not d2:
        return n2[0]
    return ('*', tuple(sorted(n2, key=repr)), tuple(sorted(d2, key=repr)))


def subterms(t):
    st = [t]
    while st:
        x = st.pop()
        yield x
        if isinstance(x, (tuple, list)):
            st.extend(x)


def has_it(t):
    return any(isinstance(x, tuple) and x and x[0] == 'it' for x in subterms(t))


OPAQUE = {'GetParticlePointer', 'GetParticleArray', 'is_dead', 'AllocateParticleMemory', 'AllocateMemory', 'RunningTime',
          'StartNewTimer', 'ReadParamsFile'}


class Walker(object):
    def __init__(self, p, reader=None, raise_const=(), widths=True, calls=(), scenario=None):
        self.p = p
        self.heap = {}
        self.alias = {}            # location of a stream (wrapper) -> stream
        self.out = [[]]            # writer: stack of token lists
        self.strs = {}             # string streams
        self.src = reader          # reader: token list
        self.pos = [0]             # stack of positions
        self.lists = [list(reader)] if reader is not None else None
        self.filters = []
        self.its = []              # enclosing symbolic loops
        self.fid = 0
        self.guards = []
        self.width = {}
        self.widths = widths
        self.events = []           # order of interesting calls: (name, args)
        self.watch = set(calls)
        self.scenario = scenario or {}
        self.apps = {}
        self.depth = 0
        self.stores = {}           # path -> (line, value)
        self.log = []
        self.line = 0
        self.strict = False

    # -- locations ---------------------------------------------------------------------------------
    def load(self, loc):
        if loc in self.heap:
            return self.heap[loc]
        if isinstance(loc, tuple) and loc[0] == 'g':
            g = self.p.globals.get(loc[1])
            if g and g.get('const') and g.get('init') is not None:
                e = strip(g['init'])
                while e[0] == 'ctor' and e[4]:
                    e = strip(e[4][0])
                if e[0] in ('int', 'flt', 'str'):
                    return e[2]
        return loc

    def store(self, loc, v):
        self.heap[loc] = v
        for it in self.its:
            it['set'].add(loc)
        self.stores[loc] = (self.line, v)
        self.log.append((self.line, loc, v, tuple(it['bound'] for it in self.its)))

    def append(self, buf, v):
        toks = [('t', 'bin', self.elsize(buf), v)]
        for k, it in enumerate(reversed(self.its)):
            fl = self.filters[len(self.filters) - 1 - 0] if False else []
        lits = frozenset(x for fl in self.filters for x in fl)
        if lits:
            toks = [('flt', lits, tuple(toks))]
        cur = self.apps.setdefault(buf, [])
        bound = self.its[-1]['bound']
        if cur and cur[-1][0] == 'rep' and cur[-1][4] is self.its[-1]:
            cur[-1] = cur[-1][:3] + (cur[-1][3] + tuple(toks),) + cur[-1][4:]
        else:
            cur.append(('rep', bound, frozenset(), tuple(toks), self.its[-1]))

    def elsize(self, buf):
        return None

    def call_fn(self, g, args, this, line, argn=None):
        if self.depth > 8:
            return ('c', g.name, this, tuple(map(repr, args)))
        self.depth += 1
        fr = Frame(self, g, this)
        for k, pi in enumerate(g.params):
            if k < len(args):
                fr.bind(pi, args[k])
            else:
                fr.bindval(pi, ('dflt', g.name, k))
        try:
            for what, init, _ in g.inits:
                pass
            fr.stmt(g.body)
            r = None
        except Ret as e:
            r = e.v
        self.depth -= 1
        return r

    # -- writing -----------------------------------------------------------------------------------
    def emit(self, tok):
        self.out[-1].append(tok)

    def wrap(self, toks, lits):
        if not toks:
            return
        if lits:
            self.out[-1].append(('flt', frozenset(lits), tuple(toks)))
        else:
            self.out[-1].extend(toks)

    # -- reading -----------------------------------------------------------------------------------
    def peek(self):
        if self.lists is None:
            raise Unsupported('reader without input')
        l = self.lists[-1]
        return l[self.pos[-1]] if self.pos[-1] < len(l) else None

    def enter_reps(self):
        """the innermost symbolic loop wants a token: step into the repetition that is next in the file"""
        todo = [i for i in self.its if not i['in']]
        for it in todo:
            t = self.peek()
            if t is None:
                raise FormatError(self.line, 'reads past the end of the file')
            if t[0] != 'rep':
                raise FormatError(self.line, 'reads one value per element where the file holds a single value %s' % show(t))
            if not samecount(t, it['bound']):
                raise FormatError(self.line, 'reads %s elements where the file holds %s' % (showv(it['bound']), showv(t[1])))
            it['in'] = True
            self.lists.append(list(t[3]))
            self.pos.append(0)

    def pop(self, how, size=None):
        self.enter_reps()
        t = self.peek()
        if t is None:
            raise FormatError(self.line, 'reads past the end of the file' if len(self.lists) == 1 else
                              'reads more values per element than were written')
        if t[0] == 'rep':
            raise FormatError(self.line, 'reads a single value where the file holds an array of %s' % show(t[3][0] if t[3] else t))
        self.pos[-1] += 1
        _, kind, sz, v = t
        if kind == 'txt' and how == 'bin' or kind != 'txt' and how == 'txt':
            raise FormatError(self.line, 'reads %s data where %s data was written' % (how, kind))
        if how == 'bin' and self.widths and size is not None and sz is not None and size != sz:
            raise FormatError(self.line, 'reads %s bytes where %s bytes were written (%s)' % (size, sz, show(t)))
        return v

    def skip(self, nbytes):
        while nbytes > 0:
            t = self.peek()
            if t is None or t[0] == 'rep' or t[2] is None:
                raise FormatError(self.line, 'skips over data of unknown size')
            nbytes -= t[2]
            self.pos[-1] += 1
        if nbytes < 0:
            raise FormatError(self.line, 'skips to the middle of a value')


def iscounter(v):
    return isinstance(v, tuple) and any(isinstance(x, tuple) and x and x[0] == 'count' for x in subterms(v))


def litfilter(lits):
    return frozenset(canon(x) for x in lits)


def canon(t):
    """drop the identity of loop elements"""
    if isinstance(t, tuple):
        if t and t[0] == 'it':
            return ('it',)
        return tuple(canon(x) for x in t)
    if isinstance(t, frozenset):
        return frozenset(canon(x) for x in t)
    return t


def showv(v):
    if isinstance(v, frozenset):
        return '{' + ', '.join(sorted(showv(x) for x in v)) + '}'
    if not isinstance(v, tuple):
        return str(v)
    if not v:
        return '()'
    k = v[0]
    if k == 'f':
        b = showv(v[1])
        return (b + '.' if b != 'this' else '') + v[2].split('::')[-1]
    if k == 'i':
        return '%s[%s]' % (showv(v[1]), showv(v[2]))
    if k == 'it':
        return 'i'
    if k in ('this', 'wthis'):
        return 'this'
    if k == 'v':
        return v[3] if len(v) > 3 else 'local'
    if k == '*':
        s = '*'.join(showv(x) for x in v[1]) or '1'
        return s + ''.join('/' + showv(x) for x in v[2])
    if k == '+':
        return '+'.join(showv(x) for x in v[1:])
    if k == 'c':
        return 'part' if v[1].endswith('GetParticlePointer') else v[1].split('::')[-1] + '()'
    if k == 'count':
        return 'number of %s elements' % ', '.join(sorted(showlit(x) for x in v[2])) if v[2] else 'number of elements'
    if k == 'g':
        return v[1]
    return '%s(%s)' % (k, ','.join(showv(x) for x in v[1:]))


def showlit(l):
    pos, t = l
    s = showv(t)
    s = s.replace('is_dead()', 'dead')
    return s if pos else 'not ' + s


def show(t):
    if t[0] == 'rep':
        return '[%s]*' % ' '.join(show(x) for x in t[3])
    return showv(t[3])


def norm_tokens(toks):
    """flatten conditionals covering a whole repetition, merge repetitions that differ in the type only"""
    out = []
    for t in toks:
        if t[0] == 'rep':
            _, bound, lits, body = t
            body = norm_tokens(body)
            lits = frozenset(lits)
            while len(body) == 1 and body[0][0] == 'flt':
                lits = lits | body[0][1]
                body = norm_tokens(body[0][2])
            if len(body) == 1 and body[0][0] == 'rep' and False:
                pass
            t = ('rep', bound, lits, tuple(body))
            if out and out[-1][0] == 'rep' and canon(out[-1][1]) == canon(bound) and canon(tuple(body)) == canon(out[-1][3]):
                a, b = out[-1][2], lits
                ta, tb = types_of(a), types_of(b)
                if ta and tb and strip_types(a) == strip_types(b):
                    out[-1] = ('rep', bound, strip_types(a) | frozenset([('types', ta + tb)]), tuple(body))
                    continue
            out.append(t)
        elif t[0] == 'flt':
            if out and out[-1][0] == 'flt' and out[-1][1] == t[1]:
                out[-1] = ('flt', t[1], out[-1][2] + tuple(norm_tokens(t[2])))
            else:
                out.append(('flt', t[1], tuple(norm_tokens(t[2]))))
        else:
            out.append(t)
    return out


def is_type_lit(l):
    return l[0] is True and isinstance(l[1], tuple) and l[1] and l[1][0] == '==' and \
        any(isinstance(x, tuple) and x[:1] == ('f',) and x[2].endswith('::ptype') for x in l[1][1:])


def types_of(lits):
    for l in lits:
        if l[0] == 'types':
            return l[1]
        if is_type_lit(l):
            return tuple(x for x in l[1][1:] if isinstance(x, tuple) and x[0] == 'enum')
    return ()


def strip_types(lits):
    return frozenset(canon(l) for l in lits if l[0] != 'types' and not is_type_lit(l))


def samecount(rep, bound):
    """does a loop of `bound` iterations take exactly the elements of the repetition?"""
    _, b, lits, body = rep
    lits0 = strip_types(lits)
    ty = types_of(lits)
    if canon(bound) == canon(b) and not lits0 and not ty:
        return True
    if isinstance(bound, tuple) and bound[0] == 'count':
        return canon(bound[1]) == canon(b) and frozenset(canon(x) for x in bound[2]) == lits0
    return False


class Frame(object):
    def __init__(self, w, f, this):
        self.w, self.f, self.this = w, f, this
        w.fid += 1
        self.id = w.fid
        self.refs = {}
        self.p = w.p

    def var(self, vid):
        if vid in self.refs:
            return self.refs[vid]
        return ('v', self.id, vid, self.f.locals[vid][0])

    def bind(self, vid, arg):
        """arg is (loc or None, value)"""
        loc, v = arg
        t = self.f.locals[vid][1]
        if (t.endswith('&') or t.endswith('&&')) and loc is not None:
            self.refs[vid] = loc
            return
        if loc is not None and loc in self.w.alias:
            self.w.alias[self.var(vid)] = self.w.alias[loc]
        self.w.heap[self.var(vid)] = v

    def bindval(self, vid, v):
        self.w.heap[self.var(vid)] = v

    # -- statements --------------------------------------------------------------------------------
    def stmt(self, s):
        if s is None:
            return
        k = s[0]
        self.w.line = s[1] if len(s) > 1 and isinstance(s[1], int) else self.w.line
        if k == 'block':
            self.block(s[2])
        elif k == 'decl':
            self.decl(s)
        elif k == 'expr':
            self.ev(s[2])
        elif k == 'if':
            self.iff(s, [])
        elif k in ('for', 'while'):
            self.loop(s)
        elif k == 'do':
            self.stmt(s[2] if isinstance(s[2], list) and s[2] and s[2][0] in ('block', 'expr') else s[-1])
        elif k == 'switch':
            self.switch(s)
        elif k == 'return':
            raise Ret(self.ev(s[2]) if len(s) > 2 and s[2] is not None else None)
        elif k == 'break':
            raise Brk()
        elif k == 'continue':
            raise Cont()
        elif k == 'omp':
            self.stmt(s[4])
        elif k in ('null', 'label', 'goto'):
            pass
        else:
            if len(s) > 2 and isinstance(s[2], list) and s[2] and isinstance(s[2][0], str):
                self.ev(s)

    def block(self, ss):
        for n, s in enumerate(ss):
            # `if (c(element)) continue;` filters the rest of the loop body
            if s[0] == 'if' and self.w.its:
                c = self.cond(s[2])
                if c is None and jumps(s[3], 'continue') and s[4] is None:
                    lits = self.lits(s[2])
                    if any(has_it(l[1]) for l in lits):
                        neg = negate(lits)
                        self.under(neg, lambda: self.block(ss[n + 1:]))
                        return
            self.stmt(s)

    def under(self, lits, thunk):
        w = self.w
        w.filters.append(lits)
        w.out.append([])
        try:
            thunk()
        finally:
            toks = w.out.pop()
            w.filters.pop()
            w.wrap(toks, lits)

    def decl(self, s):
        for vid, init, vla in s[2]:
            t = self.f.locals[vid][1]
            loc = ('v', self.id, vid, self.f.locals[vid][0])
            if init is None:
                self.w.heap.pop(loc, None)
                continue
            if t.endswith('&') or t.endswith('&&'):
                l = self.lv(init)
                self.refs[vid] = l
                continue
            e = init
            while e[0] == 'cast' or e[0] == 'ctor' and len(e[4]) == 1 and not e[2].startswith('std::') and e[2] not in (
                    'BinaryReader', 'BinaryWriter', 'formatted_output'):
                e = e[4] if e[0] == 'cast' else e[4][0]
            if e[0] == 'ctor' and is_stream(t):
                self.newstream(loc, t)
                continue
            if e[0] == 'ctor' and not e[2].startswith('std::'):
                al = None
                for a in e[4]:
                    st = self.stream(a)
                    if st is not None:
                        al = st
                        break
                if al is not None:
                    self.w.alias[loc] = al
                continue
            if e[0] == 'ctor' and e[2] == 'std::vector':
                if e[4]:
                    self.w.heap[('size', loc)] = self.ev(e[4][0])
                m = re.match(r'(?:const )?std::vector<([\w:]+)', t)
                if m:
                    self.w.heap[('elem', loc)] = m.group(1)
                continue
            if e[0] in ('initlist', 'list') or (t.endswith(']') and e[0] not in ('ctor', 'call')):
                items = e[2] if e[0] in ('initlist', 'list') and isinstance(e[2], list) else e[-1]
                if isinstance(items, list):
                    for k, it in enumerate(items):
                        if isinstance(it, list):
                            self.w.heap[('i', loc, k)] = self.ev(it)
                continue
            if e[0] == 'ctor' and not e[4]:
                if 'string' in e[2]:
                    self.w.heap[loc] = '' if '[' not in t else None
                    if '[' in t:
                        self.w.heap.pop(loc)
                continue
            self.w.store(loc, self.ev(init))
            self.w.line = s[1]

    def newstream(self, loc, t):
        w = self.w
        if 'stringstream' in t:
            w.alias[loc] = ('ss', loc)
            w.strs[('ss', loc)] = []
        else:
            w.alias[loc] = ('file',)

    def iff(self, s, pre):
        c = self.cond(s[2])
        w = self.w
        if c is True:
            self.stmt(s[3])
            return
        if c is False:
            self.stmt(s[4])
            return
        lits = self.lits(s[2])
        if w.its and any(has_it(l[1]) for l in lits):
            self.under(lits, lambda: self.stmt(s[3]))
            if s[4] is not None:
                self.under(negate(lits), lambda: self.stmt(s[4]))
            return
        if raises(s[3]):
            self.stmt(s[4])
            return
        w.guards.append((s[1], lits))
        ch = w.scenario.get('if', lambda l: True)(lits)
        self.stmt(s[3] if ch else s[4])

    def switch(self, s):
        v = self.ev(s[2])
        body = s[3][2] if s[3][0] == 'block' else [s[3]]
        # flatten cases: [(labels, stmts)]
        groups = []
        for st in body:
            labs = []
            x = st
            while x is not None and x[0] in ('case', 'default'):
                labs.append(self.ev(x[2]) if x[0] == 'case' else None)
                x = x[3] if x[0] == 'case' else x[2]
            if labs:
                groups.append((labs, [x] if x is not None else []))
            elif groups:
                groups[-1][1].append(st)

        def run(k):
            try:
                for labs, ss in groups[k:]:
                    self.block(ss)
            except Brk:
                pass
        cv = v[2] if isinstance(v, tuple) and v[0] == 'enum' else v
        if isinstance(cv, int):
            for k, (labs, ss) in enumerate(groups):
                if any((l[2] if isinstance(l, tuple) and l[0] == 'enum' else l) == cv for l in labs):
                    return run(k)
            for k, (labs, ss) in enumerate(groups):
                if None in labs:
                    return run(k)
            return
        for k, (labs, ss) in enumerate(groups):
            if None in labs and any(raises(x) for x in ss):
                continue
            for l in labs:
                self.under([(True, ('==', v, l) if l is not None else ('default', v))], lambda: run(k))

    def loop(self, s):
        w = self.w
        if s[0] == 'for':
            init, cond, inc, body = s[2], s[3], s[4], s[5]
        else:
            init, cond, inc, body = None, s[2], None, s[3]
        if init is not None:
            self.stmt(init if init[0] in ('decl', 'expr', 'block') else ['expr', s[1], init])
        # constant bounds: propagate
        n = 0
        while True:
            w.strict = True
            c = self.cond(cond) if cond is not None else None
            w.strict = False
            if c is None:
                break
            if c is False:
                return
            n += 1
            if n > 400:
                raise Unsupported('loop bound')
            try:
                self.stmt(body)
            except Cont:
                pass
            except Brk:
                return
            if inc is not None:
                self.ev(inc)
        if n:
            raise Unsupported('loop becomes symbolic at line %d' % s[1])
        # symbolic bound: find  i < N
        bound = ivar = None
        for c in conjuncts(cond):
            if c[0] == 'bin' and c[2] in ('<', '!='):
                l = strip(c[3])
                if l[0] == 'var' and self.w.load(self.var(l[2])) == 0:
                    ivar, bound = self.var(l[2]), self.ev(c[4])
        if ivar is None:
            raise Unsupported('loop form at line %d' % s[1])
        it = {'bound': bound, 'in': False, 'set': set()}
        w.its.append(it)
        w.heap[ivar] = ('it', bound, len(w.its))
        w.out.append([])
        nf = w.filters
        w.filters = list(nf)
        w.filters.append([])
        try:
            try:
                self.stmt(body)
            except Cont:
                pass
            except Brk:
                raise Unsupported('break out of a loop over elements at line %d' % s[1])
        finally:
            toks = w.out.pop()
            w.filters = nf
            w.its.pop()
            if it['in']:
                l = w.lists.pop()
                k = w.pos.pop()
                w.pos[-1] += 1
                if k < len(l):
                    raise FormatError(s[1], 'reads fewer values per element than were written (%s is left)' % show(l[k]))
        w.heap[ivar] = bound
        if toks:
            w.out[-1].append(('rep', bound, frozenset(), tuple(toks)))

    # -- conditions --------------------------------------------------------------------------------
    def cond(self, e):
        """True / False / None"""
        e = strip(e)
        if e[0] == 'bin' and e[2] in ('&&', '||'):
            a, b = self.cond(e[3]), self.cond(e[4])
            if e[2] == '&&':
                if a is False or b is False:
                    return False
                return True if a and b else None
            if a is True or b is True:
                return True
            return False if a is False and b is False else None
        if e[0] == 'un' and e[2] == '!':
            a = self.cond(e[3])
            return None if a is None else not a
        if e[0] == 'bin' and e[2] in ('==', '!=', '<', '>', '<=', '>='):
            return self.compare(e[2], self.ev(e[3]), self.ev(e[4]))
        if e[0] == 'call' and e[2] in ('std::operator==', 'std::operator!=', 'operator==', 'operator!='):
            return self.compare(e[2][-2:], self.ev(e[4][0]), self.ev(e[4][1]))
        if e[0] == 'call' and e[2].split('::')[-1] in ('good', 'is_open', 'operator bool'):
            return True
        if e[0] == 'call' and e[2].split('::')[-1] in ('fail', 'bad', 'eof'):
            return False
        v = self.ev(e)
        if isinstance(v, bool) or isinstance(v, int):
            return bool(v)
        if isinstance(v, tuple) and v[0] == 'enum':
            return bool(v[2])
        t = self.w.scenario.get('truth')
        if t:
            r = t(v)
            if r is not None:
                return r
        return None

    def compare(self, op, a, b):
        a0 = a[2] if isinstance(a, tuple) and a[0] == 'enum' else a
        b0 = b[2] if isinstance(b, tuple) and b[0] == 'enum' else b
        if isconst(a0) and isconst(b0) and isinstance(a0, str) == isinstance(b0, str):
            return {'==': a0 == b0, '!=': a0 != b0, '<': a0 < b0, '>': a0 > b0, '<=': a0 <= b0, '>=': a0 >= b0}[op]
        if a == b and not has_it(a):
            return {'==': True, '!=': False, '<': False, '>': False, '<=': True, '>=': True}[op]
        if self.w.strict:
            return None
        # counts are positive
        pos = lambda x: isinstance(x, tuple) and not has_it(x)
        if op in ('>', '!=') and pos(a) and b0 == 0 or op in ('<', '!=') and a0 == 0 and pos(b):
            return True
        if op in ('==', '<=') and pos(a) and b0 == 0 or op in ('==', '>=') and a0 == 0 and pos(b):
            x = a if pos(a) else b
            if x[0] == 'f' and x[2].split('::')[-1] == 'rank':
                return True
            return False
        if op in ('>=',) and pos(a) and b0 in (0, 1):
            return True
        return None

    def lits(self, e):
        out = []
        for c in conjuncts(e):
            pol = True
            c = strip(c)
            while c[0] == 'un' and c[2] == '!':
                pol = not pol
                c = strip(c[3])
            if c[0] == 'bin' and c[2] in ('==', '!='):
                t = ('==', self.ev(c[3]), self.ev(c[4]))
                pol = pol if c[2] == '==' else not pol
            elif c[0] == 'bin':
                t = (c[2], self.cterm(c[3]), self.cterm(c[4]))
            else:
                t = self.ev(c)
            out.append((pol, t))
        return out

    def cterm(self, e):
        e = strip(e)
        if e[0] == 'bin' and e[2] in ('&&', '||', '<', '>', '<=', '>=', '==', '!='):
            return (e[2], self.cterm(e[3]), self.cterm(e[4]))
        return self.ev(e)

    # -- expressions -------------------------------------------------------------------------------
    def stream(self, e):
        """the stream an expression denotes, if any"""
        e = strip(e)
        w = self.w
        if e is None:
            return None
        if e[0] == 'call' and e[2].split('::')[-1] in ('operator<<', 'operator>>', 'setf', 'str', 'read', 'write', 'seekg'):
            return None
        if e[0] in ('var', 'mem', 'un', 'idx', 'this'):
            if e[0] == 'un' and e[2] not in ('*', '&'):
                return None
            try:
                loc = self.lv(e)
            except Unsupported:
                return None
            return self.stream_of(loc)
        return None

    def stream_of(self, loc):
        w = self.w
        for _ in range(6):
            if loc in w.alias:
                return w.alias[loc]
            if isinstance(loc, tuple) and loc[0] == 'v':
                f = self
            if isinstance(loc, tuple) and loc[0] == 'f':
                loc = loc[1]
                continue
            v = w.heap.get(loc)
            if isinstance(v, tuple) and v != loc:
                loc = v
                continue
            break
        if isinstance(loc, tuple) and loc[0] == 'v' and loc[1] == self.id:
            t = self.f.locals[loc[2]][1]
            if is_stream(t):
                self.newstream(loc, t)
                return w.alias[loc]
        return None

    def lv(self, e):
        """location of an lvalue (or the object a pointer expression points to)"""
        k = e[0]
        if k == 'var':
            return self.var(e[2])
        if k == 'this':
            return self.this
        if k == 'gvar':
            return ('g', e[2])
        if k == 'mem':
            b = e[2]
            if e[4]:
                base = self.ev(b)
            else:
                base = self.lv(b)
            return ('f', base, e[3])
        if k == 'idx':
            base = self.base(e[2])
            return ('i', base, self.ev(e[3]))
        if k == 'un' and e[2] == '*':
            return self.ev(e[3])
        if k == 'un' and e[2] in ('++', '--', '++p', '--p'):
            self.ev(e)
            return self.lv(e[3])
        if k == 'bin' and e[2] in ('.*', '->*'):
            o = self.lv(e[3]) if e[2] == '.*' else self.ev(e[3])
            m = self.ev(e[4])
            if isinstance(m, tuple) and m[0] == 'g':
                return ('f', o, m[1])
            return ('f', o, repr(m))
        if k in ('cast',):
            return self.lv(e[4])
        if k == 'ctor' and len(e[4]) == 1:
            return self.lv(e[4][0])
        if k == 'call':
            nm = e[2].split('::')[-1]
            if nm in ('operator[]', 'at') and e[5] is not None:
                return ('i', self.lv(e[5]), self.ev(e[4][0]))
            if nm == 'operator=' and e[5] is not None:
                self.ev(e)
                return self.lv(e[5])
            v = self.ev(e)
            return v
        if k == 'asg':
            self.ev(e)
            return self.lv(e[3])
        if k == 'cond':
            raise Unsupported('conditional lvalue')
        return self.ev(e)

    def base(self, e):
        """what an array or pointer expression designates"""
        e0 = strip(e)
        if e0[0] in ('var', 'mem', 'idx', 'gvar') or e0[0] == 'bin' and e0[2] in ('.*', '->*'):
            loc = self.lv(e0)
            v = self.w.heap.get(loc)
            return v if isinstance(v, tuple) else loc
        return self.ev(e0)

    def ev(self, e):
        w = self.w
        if e is None:
            return None
        k = e[0]
        if k in ('int', 'flt', 'str'):
            return e[2]
        if k == 'bool':
            return bool(e[2])
        if k == 'enum':
            return ('enum', e[2], e[3])
        if k in ('var', 'mem', 'idx', 'gvar') or k == 'bin' and e[2] in ('.*', '->*'):
            loc = self.lv(e)
            v = w.load(loc)
            if v == loc and loc[0] == 'f' and isinstance(loc[1], tuple) and loc[1][0] == 'i':
                d = self.default(loc)
                if d is not None:
                    return d
            return v
        if k == 'this':
            return self.this
        if k == 'cast':
            return self.ev(e[4])
        if k == 'sizeof':
            n = sizeof(e[2]) if isinstance(e[2], str) else None
            return n if n is not None else ('sizeof', str(e[2]))
        if k == 'un':
            op = e[2]
            if op in ('++', '++p', '--', '--p'):
                loc = self.lv(e[3])
                old = w.load(loc)
                if old == loc:
                    d = self.default(loc) if loc[0] == 'f' else None
                    old = d if d is not None else old
                d = 1 if op[0] == '+' else -1
                if w.its and loc not in w.its[-1]['set']:
                    f = frozenset(x for fl in w.filters for x in fl)
                    d = ('count', w.its[-1]['bound'], frozenset(canon(x) for x in f))
                if isinstance(d, int):
                    w.store(loc, add(old, d))
                else:
                    w.heap[loc] = add(old, d)
                    w.stores[loc] = (w.line, w.heap[loc])
                return old
            if op == '&':
                return self.lv(e[3])
            if op == '*':
                return w.load(self.ev(e[3]))
            if op == '-':
                v = self.ev(e[3])
                return -v if isinstance(v, (int, float)) else mul([v, -1])
            if op == '!':
                c = self.cond(e)
                return c if c is not None else ('not', self.ev(e[3]))
            return ('un', op, self.ev(e[3]))
        if k == 'bin':
            op = e[2]
            if op == ',':
                self.ev(e[3])
                return self.ev(e[4])
            if op in ('&&', '||', '==', '!=', '<', '>', '<=', '>='):
                c = self.cond(e)
                return c if c is not None else (op, self.ev(e[3]), self.ev(e[4]))
            a, b = self.ev(e[3]), self.ev(e[4])
            if op == '+':
                return add(a, b) if not (isinstance(a, str) or isinstance(b, str)) else ('cat', a, b)
            if op == '-':
                return add(a, -b if isinstance(b, (int, float)) else mul([b, -1]))
            if op == '*':
                return mul([a, b])
            if op == '/':
                if isinstance(a, int) and isinstance(b, int) and b:
                    return a // b
                return mul([a], [b])
            return (op, a, b)
        if k == 'asg':
            v = self.ev(e[4])
            l = strip(e[3])
            if l[0] == 'idx' and w.its and e[2] == '=':
                ix = strip(l[3])
                if ix[0] == 'un' and ix[2] == '++p' and self.lv(ix[3]) not in w.its[-1]['set']:
                    w.append(self.base(l[2]), v)
                    self.ev(ix)
                    return v
            loc = self.lv(e[3])
            self.assign(loc, e[2], v, e[3])
            return w.load(loc)
        if k == 'cond':
            c = self.cond(e[2])
            if c is None:
                if any(n[0] == 'call' and n[2] == '__assert_fail' for n in find(e, 'call')):
                    return None
                return ('cond', self.ev(e[3]), self.ev(e[4]))
            if any(n[0] == 'call' and n[2] == '__assert_fail' for n in find(e, 'call')):
                return None
            return self.ev(e[3] if c else e[4])
        if k == 'ctor':
            return self.ctor(e)
        if k == 'call':
            return self.call(e)
        if k == 'fref':
            return ('fref', e[2])
        return (k,) + tuple(map(str, e[2:4]))

    def assign(self, loc, op, v, lhs=None):
        w = self.w
        if op == '=':
            w.store(loc, v)
            if loc[0] == 'i' and any(isinstance(x, tuple) and x and x[0] == 'count' for x in subterms(loc[2])):
                pass
        else:
            old = w.load(loc)
            if op == '+=':
                w.store(loc, add(old, v) if not isinstance(old, str) and not isinstance(v, str) else ('cat', old, v))
            elif op == '-=':
                w.store(loc, add(old, mul([v, -1])))
            elif op == '*=':
                w.store(loc, mul([old, v]))
            elif op == '/=':
                w.store(loc, mul([old], [v]))
            else:
                w.store(loc, (op, old, v))

    def default(self, loc):
        """value a field of a local class element has from its default constructor"""
        b = loc[1]
        if not (isinstance(b, tuple) and b[0] == 'i'):
            return None
        cls = self.w.heap.get(('elem', b[1]))
        if cls is None:
            return None
        for f in self.p.fns.values():
            if f.cls == cls and f.h['kind'] == 'ctor' and not f.params:
                for what, init, wr in f.inits:
                    if what and loc[2].split('::')[-1] == str(what).split('::')[-1]:
                        v = strip(init)
                        while v and v[0] in ('initlist', 'list') and v[-1]:
                            v = v[-1][0]
                        if v[0] == 'int':
                            return v[2]
                        if v[0] == 'un' and v[2] == '-':
                            return -v[3][2]
        return None

    def ctor(self, e):
        args = e[4]
        if 'string' in e[2]:
            if not args:
                return ''
            a = strip(args[0])
            if a[0] == 'un' and a[2] == '&' and strip(a[3])[0] == 'call':
                loc = self.lv(strip(a[3]))
                if loc[0] == 'i' and loc[2] == 0:
                    v = self.w.heap.get(('buf', loc[1]))
                    if v is not None:
                        return v
            if a[0] in ('var', 'mem'):
                loc = self.lv(a)
                v = self.w.heap.get(('buf', loc))
                if v is not None:
                    return v
            return self.ev(args[0])
        if len(args) == 1:
            return self.ev(args[0])
        return ('obj', e[2]) + tuple(self.ev(a) for a in args)

    def arg(self, a):
        """(location, value) of an argument"""
        x = a
        while x[0] == 'cast' or x[0] == 'ctor' and len(x[4]) == 1:
            x = x[4] if x[0] == 'cast' else x[4][0]
        loc = None
        if x[0] in ('var', 'mem', 'idx') or x[0] == 'call' and x[2].split('::')[-1] in ('operator[]', 'GetParticlePointer'):
            loc = self.lv(x)
            st = self.stream_of(loc)
            if st is not None:
                return loc, loc
        elif x[0] == 'un' and x[2] == '*':
            loc = self.ev(x[3])
        return loc, self.ev(a)

    def call(self, e):
        w = self.w
        _, line, name, mang, args, obj = e[:6]
        nm = name.split('::')[-1]
        w.line = line
        if name == '__assert_fail':
            return None
        if nm == 'operator<<':
            return self.write(e)
        if nm == 'operator>>':
            return self.read(e)
        st = self.stream(obj) if obj is not None else None
        if st is not None and name.startswith('std::'):
            return self.streamop(e, st, nm)
        if nm == 'MPI_Allreduce':
            a, b = strip(args[0]), strip(args[1])
            if a[0] == 'un' and a[2] == '&' and b[0] == 'un' and b[2] == '&':
                w.store(self.lv(b[3]), self.ev(a[3]))
            return 0
        if nm == 'MPI_Exscan':
            return 0
        if nm in ('MPI_File_write_all', 'MPI_File_write'):
            buf = self.base(args[1])
            toks = w.apps.pop(buf, None)
            if toks is None:
                w.emit(('t', 'bin', None, ('buffer', buf)))
            else:
                w.out[-1].extend(t[:4] for t in toks)
            return 0
        if name.startswith('std::') or obj is not None and 'basic_string' in name:
            if nm in ('c_str', 'data', 'move', 'forward', 'min', 'max') and obj is not None:
                return self.ev(obj)
            if nm == 'operator=' and obj is not None:
                v = self.ev(args[0])
                w.store(self.lv(obj), v)
                return v
            if nm == 'operator+=' and obj is not None:
                v = ('cat', w.load(self.lv(obj)), self.ev(args[0]))
                w.store(self.lv(obj), v)
                return v
            if nm == 'operator+':
                vs = [self.ev(a) for a in args]
                if all(isinstance(v, str) for v in vs):
                    return ''.join(vs)
                return ('cat',) + tuple(vs)
            if nm in ('operator[]', 'at'):
                loc = self.lv(e)
                return w.load(loc)
            if nm == 'size' and obj is not None:
                return w.heap.get(('size', self.lv(obj)), ('size', self.lv(obj)))
            if nm == 'push_back':
                loc = self.lv(obj)
                n = w.heap.get(('size', loc), 0)
                if isinstance(n, int):
                    w.store(('i', loc, n), self.ev(args[0]))
                    w.heap[('size', loc)] = n + 1
                return None
            vs = tuple(self.ev(a) for a in args if a is not None)
            return ('c', name, self.ev(obj) if obj is not None else None) + vs
        if nm == 'TrimWhiteSpace':
            return self.ev(args[0])
        if nm in w.watch:
            w.events.append((nm, [self.ev(a) for a in args], len(w.out[0]), line, mang))
            return None
        g = self.p.fns.get(mang)
        if g is not None and nm not in OPAQUE and g.file.startswith('src/') and \
                g.cls in ('', None, 'Simulation', 'SimulationBase', 'BinaryReader', 'BinaryWriter', 'GradhSphSimulation',
                          'SphSimulation', 'MeshlessFVSimulation'):
            a = [self.arg(x) for x in args]
            this = self.this
            if obj is not None:
                this = self.lv(obj) if obj[0] in ('var', 'mem') and not ptr(obj, self) else self.ev(obj)
                if st is not None:
                    this = self.lv(obj)
            return w.call_fn(g, a, this, line)
        vs = tuple(self.ev(a) for a in args)
        return ('c', name, self.ev(obj) if obj is not None else None) + vs

    # -- stream operations ---------------------------------------------------------------------------
    def chain(self, e, op):
        """operands of a chain  s << a << b  and the stream expression"""
        ops = []
        while True:
            e = strip(e)
            if e[0] == 'call' and e[2].split('::')[-1] == op:
                if e[5] is not None:
                    ops.append((e[4][0], e))
                    e = e[5]
                else:
                    ops.append((e[4][1], e))
                    e = e[4][0]
                continue
            break
        return e, ops[::-1]

    def write(self, e):
        w = self.w
        s, ops = self.chain(e, 'operator<<')
        st = self.stream(s)
        if st is None:
            return ('c', 'operator<<')
        for a, node in ops:
            x = strip(a)
            if x[0] == 'fref':
                continue
            if x[0] == 'call' and x[2].startswith('std::') and x[2].split('::')[-1] in ('setw',):
                w.width[st] = self.ev(x[4][0])
                continue
            if x[0] == 'call' and x[2].startswith('std::') and x[2].split('::')[-1] in ('setfill', 'setprecision', 'setiosflags'):
                continue
            if x[0] == 'str' and not x[2].strip():
                continue
            w.line = node[1]
            v = self.ev(a)
            if isinstance(v, str) and not v.strip():
                continue
            wd = w.width.pop(st, None)
            if isinstance(v, tuple) and v and v[0] == 'strm':
                toks = list(v[1])
            else:
                toks = [('t', 'fix' if wd is not None else 'txt', wd, v)]
            if st[0] == 'ss':
                w.strs[st] += toks
            else:
                for t in toks:
                    w.emit(t)
        return ('c', 'operator<<')

    def read(self, e):
        w = self.w
        s, ops = self.chain(e, 'operator>>')
        st = self.stream(s)
        if st is None:
            return ('c', 'operator>>')
        for a, node in ops:
            w.line = node[1]
            loc = self.lv(a)
            if st[0] == 'ss':
                w.store(loc, ('parse',))
                continue
            v = w.pop('txt')
            w.store(loc, v)
        return ('c', 'operator>>')

    def streamop(self, e, st, nm):
        w = self.w
        args = e[4]
        if nm in ('open', 'close', 'setf', 'clear', 'flush', 'precision', 'width', 'good', 'fail'):
            return None
        if nm == 'str':
            if args:
                w.strs[st] = []
                return None
            toks = w.strs.get(st, [])
            if len(toks) == 1 and toks[0][1] == 'txt':
                return toks[0][3]
            return ('strm', tuple(toks))
        if nm == 'write' and st[0] == 'file':
            a = strip(args[0])
            while a[0] == 'cast' or a[0] == 'un' and a[2] == '&':
                a = strip(a[4] if a[0] == 'cast' else a[3])
            w.emit(('t', 'bin', self.ev(args[1]), self.ev(a)))
            return None
        if nm == 'read' and st[0] == 'file':
            a = strip(args[0])
            while a[0] == 'cast' or a[0] == 'un' and a[2] == '&':
                a = strip(a[4] if a[0] == 'cast' else a[3])
            n = self.ev(args[1])
            loc = self.lv(a)
            v = w.pop('bin', n)
            if loc[0] == 'i' and loc[2] == 0:
                w.heap[('buf', loc[1])] = v
            elif isinstance(v, str) or a[0] == 'var' and self.f.locals[a[2]][1].startswith('char'):
                w.heap[('buf', loc)] = v
            w.store(loc, v)
            return None
        if nm == 'seekg' and st[0] == 'file':
            n = self.ev(args[0])
            rel = len(args) > 1
            if not isinstance(n, int):
                raise Unsupported('seek by %s' % showv(n))
            if not rel:
                w.pos[-1] = 0
            w.skip(n)
            return None
        return None


def ptr(e, fr):
    if e[0] == 'mem':
        return e[5].rstrip().endswith('*')
    if e[0] == 'var':
        return fr.f.locals[e[2]][1].rstrip().endswith('*')
    return False


def is_stream(t):
    return bool(re.search(r'basic_(o|i|)(f|string)stream|basic_[io]stream', t)) and '*' not in t


def conjuncts(e):
    e = strip(e)
    if e is None:
        return []
    if e[0] == 'bin' and e[2] == '&&':
        return conjuncts(e[3]) + conjuncts(e[4])
    return [e]


def negate(lits):
    if len(lits) == 1:
        return [(not lits[0][0], lits[0][1])]
    return [(False, ('and', tuple(lits)))]


def jumps(s, kind):
    if s is None:
        return False
    if s[0] == kind:
        return True
    return s[0] == 'block' and len(s[2]) == 1 and s[2][0][0] == kind


def raises(s):
    """does the statement always end the program?"""
    if s is None:
        return False
    if s[0] == 'block':
        return any(raises(x) for x in s[2])
    if s[0] in ('if', 'for', 'while', 'do', 'switch', 'rfor', 'case', 'default'):
        return s[0] == 'default' and raises(s[2]) or s[0] == 'case' and raises(s[3])
    for n in find(s, 'call'):
        if n[2] in ('ExceptionHandler::raise', 'exit', 'abort', '__assert_fail'):
            return True
    for n in find(s, 'throw'):
        return True
    return False
