"""Memory effects of functions as access paths with classified indices: who writes what, and which element.

A path is (root, steps). Roots: ('v', id) a local of the function, ('p', k) what parameter k refers to, ('this',),
('g', name) a global, ('s', name) a static local, ('new', where, shared) heap memory, ('tmp',) a temporary.
Steps: 'field' or ('[', tags). Tags classify an index value:
  W  the variable of the work-shared loop (or an affine function of it)
  C  owned by the iteration: read from memory that belongs to the iteration's element
  T  the number of the thread
  F  a variable stepped by a private loop
  ('U', line)  a value of unknown origin, read from a list
  ('p', k), ('pl', k)  the value of parameter k, a value stored in the object parameter k refers to ('this' for *this)
No tag at all: the same value in every thread.
"""
import re
from facts import walk, find
import util

MAXSTEPS = 7
NOSTATE = re.compile(r'^(std::(abs|fabs|sqrt|pow|exp|log|log10|sin|cos|tan|atan2?|acos|asin|cbrt|floor|ceil|min|max|isnan|isinf|isfinite)|'
                     r'__builtin_.*|omp_.*)$')
CONST_METHODS = {'operator[]', 'at', 'begin', 'end', 'rbegin', 'rend', 'cbegin', 'cend', 'size', 'empty', 'back', 'front', 'c_str',
                 'find', 'count', 'capacity', 'data', 'operator*', 'operator->', 'length', 'substr', 'compare', 'lower_bound',
                 'upper_bound', 'equal_range', 'top', 'str', 'max_size', 'good', 'is_open', 'base', 'get', 'test', 'any', 'none', 'all',
                 'operator!', 'operator bool', 'operator==', 'operator!=', 'operator<', 'operator-', 'operator+', 'rdbuf', 'precision', 'width',
                 'find_first_of', 'find_last_of', 'eof', 'fail', 'tellg'}
REFMETHODS = {'operator[]', 'at', 'begin', 'end', 'rbegin', 'rend', 'cbegin', 'cend', 'back', 'front', 'data', 'operator*', 'operator->',
              'find', 'lower_bound', 'upper_bound', 'top', 'base', 'get'}
UNSAFE_LIBC = {'strtok', 'localtime', 'gmtime', 'asctime', 'ctime', 'lgamma'}      # (rand() of glibc takes a lock)


def isptr(t):
    return t.rstrip().endswith(('*', '&', '*const')) or '*' in t.split('<')[-1] or t.rstrip().endswith(']')


def isref(t):
    return t.rstrip().endswith('&')


def isint(t):
    t = t.replace('const ', '').replace('&', '').strip()
    return t in ('int', 'long', 'unsigned int', 'unsigned long', 'size_t', 'short', 'unsigned', 'long long', 'char', 'bool', 'unsigned long long', 'unsigned char')


def isscalar(t):
    t = t.replace('const ', '').replace('&', '').strip()
    return isint(t) or t in ('double', 'float', 'long double')


class Sum(object):
    __slots__ = ('eff', 'rp', 'rt', 'cont')

    def __init__(self):
        self.eff = {}      # (kind, path, prot) -> (where, fn name)
        self.rp = frozenset()
        self.rt = frozenset()
        self.cont = {}     # base path -> tags


EMPTY = frozenset()


def base(path):
    return (path[0], tuple(s for s in path[1] if isinstance(s, str)))


def ptags(path):
    out = set()
    for s in path[1]:
        if not isinstance(s, str):
            out |= s[1]
    return out


def owned(tags):
    return bool(tags & {'W', 'C', 'T'})


class Effects(object):
    def __init__(self, p):
        self.p = p
        self.memo = {}
        self.busy = {}
        self.rec = set()
        self.stats = {'functions': 0, 'calls': 0}
        self._virt = {}

    def targets(self, n):
        k = (n[3], n[6] if n[0] == 'call' else 0)
        r = self._virt.get(k)
        if r is None:
            r = self._virt[k] = util.targets(self.p, n)
        return r

    def summary(self, f):
        s = self.memo.get(f.m)
        if s is not None:
            return s
        if f.m in self.busy:
            self.rec.add(f.m)
            return self.busy[f.m]
        self.busy[f.m] = Sum()
        self.stats['functions'] += 1
        s = FA(self, f).run()
        if f.m in self.rec:
            self.busy[f.m] = s
            s = FA(self, f).run()
        del self.busy[f.m]
        self.memo[f.m] = s
        return s


class Ext(object):
    """state of a walk: env var -> (paths, tags)"""
    __slots__ = ('e',)

    def __init__(self, e=None):
        self.e = e if e is not None else {}

    def copy(self):
        return Ext(dict(self.e))

    def join(self, o):
        for k, (a, b) in o.e.items():
            x = self.e.get(k)
            self.e[k] = (a, b) if x is None else (x[0] | a, x[1] | b)
        return self


class FA(object):
    def __init__(self, E, f):
        self.E, self.p, self.f = E, E.p, f
        self.s = Sum()
        self.cont = {}
        self.rec = True
        self.prot = None
        self.one = 0
        self.line = f.line
        self.inregion = False
        self.listener = None
        self.root = False       # analysed as an entry point: its parameters are the same in every thread

    def run(self):
        f = self.f
        env = Ext()
        for k, vid in enumerate(f.params):
            t = f.locals[vid][1]
            if isptr(t):
                env.e[vid] = (frozenset([(('p', k), ())]), frozenset([('pl', k)]) if isref(t) and not self.root else EMPTY)
            elif isscalar(t):
                env.e[vid] = (EMPTY, frozenset([('p', k)]) if not self.root else EMPTY)
        for what, init, _ in f.inits:
            if init is not None:
                if what and not what.startswith('base:') and what != 'delegate' and what != 'null':
                    v = self.val(init, env)
                    pth = (('this',), (what.split('::')[-1],))
                    self.put(pth, v, f.line)
                else:
                    self.call(init, env, this=frozenset([(('this',), ())])) if init[0] == 'ctor' else self.val(init, env)
        self.st(f.body, env)
        self.s.cont = {b: t for b, t in self.cont.items() if b[0][0] in ('p', 'this', 'g', 's')}
        return self.s

    # ---- recording -------------------------------------------------------------------------------
    def private(self, path):
        """memory no other thread can name"""
        r = path[0]
        if r[0] in ('tmp', '?'):
            return True
        if r[0] == 'new':
            return not r[2]
        if r[0] == 'v':
            return self.shared is None or r[1] not in self.shared
        return False
    shared = None
    uninit = None

    def eff(self, kind, path, line, via=None):
        if self.private(path) or not self.rec:
            return
        if self.listener is not None:
            self.listener(kind, path, line, via, self.prot, self.one)
            return
        if self.one:
            return
        k = (kind, path, self.prot if via is None else (self.prot or via[2]))
        if k not in self.s.eff:
            self.s.eff[k] = (via[0], via[1]) if via else ('%s:%d' % (self.f.file, line), self.f.label())

    def put(self, path, v, line):
        """store value v at path"""
        self.eff('w', path, line)
        b = base(path)
        t = v[1]
        if t or b in self.cont:
            self.cont[b] = self.cont.get(b, EMPTY) | t
        else:
            self.cont[b] = t

    def loadtags(self, path, line):
        r = path[0]
        T = ptags(path)
        if r[0] == 's' or r[0] == 'g':
            return EMPTY
        if 'T' in T or self.private(path) and r[0] != '?':
            b = base(path)
            if b in self.cont:
                return self.cont[b]
            # contents of an enclosing object
            for n in range(len(b[1]) - 1, -1, -1):
                if (b[0], b[1][:n]) in self.cont:
                    return self.cont[(b[0], b[1][:n])]
            return frozenset([('U', line)]) if path[1] else EMPTY
        if r[0] == '?':
            return frozenset([('U', line)])
        if T & {'W', 'C'}:
            return frozenset(['C'])
        out = {t for t in T if isinstance(t, tuple) and t[0] in ('p', 'pl')}
        if self.root:
            pass
        elif r[0] == 'p':
            out.add(('pl', r[1]))
        elif r[0] == 'this':
            out.add(('pl', 'this'))
        if any(t == 'F' or (isinstance(t, tuple) and t[0] == 'U') for t in T):
            out.add(('U', line))
        return frozenset(out)

    # ---- values ----------------------------------------------------------------------------------
    def val(self, e, env):
        """(paths the value refers to, index tags of the value); records reads and nested effects"""
        if e is None or not isinstance(e, list) or not e:
            return (EMPTY, EMPTY)
        if not isinstance(e[0], str):
            for x in e:
                self.val(x, env)
            return (EMPTY, EMPTY)
        k = e[0]
        m = getattr(self, 'v_' + k, None)
        if m:
            return m(e, env)
        for x in e[2:]:
            if isinstance(x, list):
                self.val(x, env)
        return (EMPTY, EMPTY)

    def lv(self, e, env):
        """paths of an lvalue"""
        k = e[0]
        if k == 'var':
            vid = e[2]
            t = self.f.locals[vid][1]
            if self.f.locals[vid][2] == 's':
                return frozenset([(('s', self.f.name + '::' + self.f.locals[vid][0]), ())])
            if isref(t):
                x = env.e.get(vid)
                return x[0] if x and x[0] else frozenset([(('?',), ())])
            return frozenset([(('v', vid), ())])
        if k == 'gvar':
            return frozenset([(('g', e[2]), ())])
        if k == 'this':
            return frozenset([(('this',), ())])
        if k == 'mem':
            b = self.val(e[2], env)[0] if e[4] else self.lvobj(e[2], env)
            f = e[3].split('::')[-1]
            return self.step(b, f)
        if k == 'idx':
            b = self.val(e[2], env)[0]
            i = self.val(e[3], env)[1]
            return self.step(b, ('[', i))
        if k == 'un' and e[2] == '*':
            b = self.val(e[3], env)
            return self.step(b[0], ('[', b[1]))
        if k == 'un' and e[2] in ('++', '--'):
            self.val(e, env)
            return self.lv(e[3], env)
        if k == 'cast':
            return self.lv(e[4], env)
        if k == 'cond':
            self.val(e[2], env)
            return self.lv(e[3], env) | self.lv(e[4], env)
        if k == 'asg':
            self.val(e, env)
            return self.lv(e[3], env)
        if k in ('call', 'ctor', 'new'):
            return self.val(e, env)[0]
        if k == 'bin' and e[2] == ',':
            self.val(e[3], env)
            return self.lv(e[4], env)
        self.val(e, env)
        return frozenset([(('?',), ())])

    def lvobj(self, e, env):
        if e[0] in ('var', 'gvar', 'this', 'mem', 'idx', 'un', 'cast', 'cond', 'asg'):
            return self.lv(e, env)
        return self.val(e, env)[0]

    @staticmethod
    def step(paths, s):
        out = set()
        for r, st in paths:
            if len(st) < MAXSTEPS:
                out.add((r, st + (s,)))
            elif not isinstance(s, str) and s[1]:
                out.add((r, st[:-1] + (('[', s[1] | (st[-1][1] if not isinstance(st[-1], str) else EMPTY)),)))
            else:
                out.add((r, st))
        return frozenset(out) if out else frozenset([(('?',), ())])

    def rd(self, paths, line):
        t = EMPTY
        for q in paths:
            self.eff('r', q, line)
            t |= self.loadtags(q, line)
        return t

    def v_var(self, e, env):
        vid = e[2]
        t = self.f.locals[vid][1]
        x = env.e.get(vid, (EMPTY, EMPTY))
        if self.f.locals[vid][2] == 's':
            ps = self.lv(e, env)
            self.rd(ps, e[1])
            return (ps, EMPTY)
        if isref(t):
            if isscalar(t):
                tg = self.rd(x[0], e[1])
                return (x[0], tg | x[1])
            return x
        if isscalar(t):
            if 'UNINIT' in x[1]:
                if len(x[1]) == 1 and self.uninit is not None:
                    self.uninit.setdefault(vid, e[1])
                return (EMPTY, x[1] - {'UNINIT'})
            self.eff('r', (('v', vid), ()), e[1])
            return (EMPTY, x[1])
        if isptr(t) and not t.rstrip().endswith(']'):
            self.eff('r', (('v', vid), ()), e[1])
            return x if x[0] else (frozenset([(('?',), ())]), x[1])
        # array or class object: itself
        return (frozenset([(('v', vid), ())]), x[1])

    def v_gvar(self, e, env):
        ps = self.lv(e, env)
        self.rd(ps, e[1])
        return (ps, EMPTY)

    def v_this(self, e, env):
        return (frozenset([(('this',), ())]), EMPTY)

    def v_mem(self, e, env):
        ps = self.lv(e, env)
        t = EMPTY
        if isscalar(e[5]) or (isptr(e[5]) and not e[5].rstrip().endswith(']')):
            t = self.rd(ps, e[1])
        return (ps, t)

    def v_idx(self, e, env):
        ps = self.lv(e, env)
        return (ps, self.rd(ps, e[1]))

    def v_cast(self, e, env):
        return self.val(e[4], env)

    def v_cond(self, e, env):
        self.val(e[2], env)
        a, b = self.val(e[3], env), self.val(e[4], env)
        return (a[0] | b[0], a[1] | b[1])

    def v_un(self, e, env):
        op = e[2]
        if op == '&':
            return (self.lvobj(e[3], env), EMPTY)
        if op == '*':
            ps = self.lv(e, env)
            return (ps, self.rd(ps, e[1]))
        if op.startswith(('++', '--')):
            v = self.val(e[3], env)
            self.assign(e[3], (v[0], v[1] | {'F'}), env, e[1])
            return v
        v = self.val(e[3], env)
        return (EMPTY, v[1]) if op in ('-', '+', '~') else (EMPTY, EMPTY)

    def v_bin(self, e, env):
        a = self.val(e[3], env)
        b = self.val(e[4], env)
        op = e[2]
        if op == ',':
            return b
        if op in ('==', '!=', '<', '>', '<=', '>=', '&&', '||'):
            return (EMPTY, EMPTY)
        t = a[1] | b[1]
        if op in ('/', '%', '>>') and 'W' in t:
            t = (t - {'W'}) | {('U', e[1])}      # several iterations share the value
        if op in ('+', '-') and (a[0] or b[0]):  # pointer arithmetic
            ps = a[0] or b[0]
            tg = b[1] if a[0] else a[1]
            return (self.step(ps, ('[', tg)), EMPTY)
        return (EMPTY, t)

    def v_asg(self, e, env):
        op = e[2]
        if op == '=':
            v = self.val(e[4], env)
        else:
            a, b = self.val(e[3], env), self.val(e[4], env)
            v = (a[0], a[1] | b[1] | {'F'})
        self.assign(e[3], v, env, e[1])
        return v

    def assign(self, target, v, env, line):
        while target[0] == 'cast':
            target = target[4]
        if target[0] == 'var':
            vid = target[2]
            t = self.f.locals[vid][1]
            if not isref(t) and self.f.locals[vid][2] != 's':
                self.eff('w', (('v', vid), ()), line)
                if isscalar(t) or isptr(t):
                    env.e[vid] = (v[0], v[1])
                return
        for q in self.lv(target, env):
            self.put(q, v, line)

    def v_new(self, e, env):
        self.val(e[3], env)
        q = (('new', '%s@%d' % (self.f.name, e[1]), not self.inregion), ())
        if e[4] is not None:
            if e[4][0] == 'ctor':
                self.call(e[4], env, this=frozenset([q]))
            else:
                self.val(e[4], env)
        return (frozenset([q]), EMPTY)

    def v_ctor(self, e, env):
        # a copy or conversion of one value keeps its tags
        q = frozenset([(('tmp',), ())])
        return self.call(e, env, this=q)

    def v_lambda(self, e, env):
        self.st(e[2], env)
        return (EMPTY, EMPTY)

    def v_call(self, e, env):
        return self.call(e, env)

    def call(self, e, env, this=None):
        self.E.stats['calls'] += 1
        line = e[1]
        name = e[2]
        if e[0] == 'ctor':
            args, obj = e[4], None
        else:
            args, obj = e[4], e[5]
        short = name.split('::')[-1]
        if name == 'omp_get_thread_num':
            return (EMPTY, frozenset(['T']))
        if name in ('omp_set_lock', 'omp_test_lock'):
            self.prot = ('lock',)
            return (EMPTY, EMPTY)
        if name == 'omp_unset_lock':
            self.prot = None
            return (EMPTY, EMPTY)
        gs = self.E.targets(e) if name != '?' else []
        av, outs = [], []
        for i, a in enumerate(args):
            if a and a[0] == 'un' and a[2] == '&' and a[3][0] == 'var':
                x = a[3]
            else:
                x = a
            if x and x[0] == 'var' and isscalar(self.f.locals[x[2]][1]) and not isref(self.f.locals[x[2]][1]) and self.f.locals[x[2]][2] != 's' \
                    and (x is not a or not gs or any(i < len(g.params) and isref(g.locals[g.params[i]][1]) for g in gs)):
                # handed over by reference
                v = env.e.get(x[2], (EMPTY, EMPTY))
                v = (v[0], v[1] - {'UNINIT'})
                env.e[x[2]] = v
                if not gs:
                    self.eff('r', (('v', x[2]), ()), line)
                av.append((frozenset([(('v', x[2]), ())]), v[1]))
                self.cont.pop((('v', x[2]), ()), None)
                outs.append(x[2])
            else:
                av.append(self.val(a, env))
        if this is not None:
            ov = (this, EMPTY)
        elif obj is not None and isinstance(obj, list) and obj:
            ov = self.val(obj, env) if obj[0] not in ('var', 'gvar', 'mem', 'idx') else (self.objpaths(obj, env), EMPTY)
        else:
            ov = (EMPTY, EMPTY)
        if gs:
            rp, rt = EMPTY, EMPTY
            for g in gs:
                a, b = self.apply(g, av, ov, line)
                rp, rt = rp | a, rt | b
            for vid in outs:
                b = (('v', vid), ())
                if b in self.cont:
                    env.e[vid] = (EMPTY, env.e[vid][1] | self.cont[b])
            return (rp, rt)
        if util.is_exit_call(e):
            return (EMPTY, EMPTY)
        if e[0] == 'ctor':
            # library or implicit constructor: copies
            t = EMPTY
            ps = EMPTY
            for a in av:
                t |= a[1]
                if 'iterator' in name or 'pair' in name:
                    ps |= a[0]
            if this is not None:
                for q in this:
                    if t:
                        b = base(q)
                        self.cont[b] = self.cont.get(b, EMPTY) | t
            return (ps or (this or EMPTY), t)
        if name in UNSAFE_LIBC:
            self.eff('w', (('g', 'hidden state of ' + name + '()'), ()), line)
            return (EMPTY, EMPTY)
        if NOSTATE.match(name):
            t = EMPTY
            ps = EMPTY
            for a in av:
                t |= a[1]
                ps |= a[0]
            return (ps if short in ('min', 'max') else EMPTY, t)
        if name in ('std::swap', 'std::sort', 'std::stable_sort', 'std::fill', 'std::copy', 'std::nth_element', 'std::reverse', 'std::random_shuffle', 'std::partition', 'memset', 'memcpy', 'std::iter_swap'):
            for a in av[:2] if short not in ('memset', 'memcpy') else av[:1]:
                for q in a[0]:
                    self.eff('w', q, line)
            return (EMPTY, EMPTY)
        if ov[0] and (name.startswith('std::') or name.startswith('__gnu')):
            if short in REFMETHODS:
                t = EMPTY
                for a in av:
                    t |= a[1]
                if short in ('operator[]', 'at'):
                    ps = self.step(ov[0], ('[', t))
                else:
                    ps = ov[0]
                lt = EMPTY
                if isint(e[7]):
                    lt = self.rd(ps, line)
                return (ps, lt)
            if short in CONST_METHODS:
                for q in ov[0]:
                    self.eff('r', q, line)
                return (EMPTY, EMPTY)
            if short in ('operator<<', 'operator>>', 'write', 'put', 'flush', 'setf', 'unsetf', 'open', 'close', 'seekg', 'read', 'getline', 'clear') and 'stream' in name + e[7] + name:
                return (ov[0], EMPTY)
            if short in ('operator++', 'operator--', 'operator+=') and 'iterator' in name:
                return ov
            if short.startswith('~'):
                return (EMPTY, EMPTY)
            t = EMPTY
            for a in av:
                t |= a[1]
            for q in ov[0]:
                self.eff('w', q, line)
                if t:
                    b = base(q)
                    self.cont[b] = self.cont.get(b, EMPTY) | t
            return (ov[0] if short in ('insert', 'operator=', 'operator+=') else EMPTY, EMPTY)
        if ov[0] and short == 'operator=':
            # implicit copy assignment of a class of the project
            for q in ov[0]:
                self.put(q, (EMPTY, EMPTY), line)
            for a in av:
                for q in a[0]:
                    self.eff('r', q, line)
            return (ov[0], EMPTY)
        # operators as free functions, unknown library functions: values only
        return (EMPTY, EMPTY)

    def objpaths(self, o, env):
        """object a method is called on: pointers and references are followed"""
        k = o[0]
        if k == 'var':
            t = self.f.locals[o[2]][1]
            if isptr(t) and not t.rstrip().endswith(']'):
                x = env.e.get(o[2], (EMPTY, EMPTY))
                return x[0] if x[0] else frozenset([(('?',), ())])
        return self.lv(o, env)

    def apply(self, g, av, ov, line):
        s = self.E.summary(g)
        npar = len(g.params)

        def stags(tags):
            out = set()
            for t in tags:
                if isinstance(t, tuple) and t[0] == 'p':
                    if t[1] < len(av):
                        out |= av[t[1]][1]
                elif isinstance(t, tuple) and t[0] == 'pl':
                    src = ov[0] if t[1] == 'this' else (av[t[1]][0] if t[1] < len(av) else EMPTY)
                    if t[1] != 'this' and t[1] < len(av):
                        out |= {x for x in av[t[1]][1]}
                    for q in src:
                        T = ptags(q)
                        if T & {'W', 'C'}:
                            out.add('C')
                        elif 'T' in T or self.private(q):
                            if q[0][0] == 'tmp':
                                continue
                            b = base(q)
                            hit = [v for kk, v in self.cont.items() if kk[0] == b[0] and kk[1][:len(b[1])] == b[1]]
                            for v in hit:
                                out |= v
                            if not hit and (q[1] or 'T' in T):
                                out.add(('U', line))
                        elif q[0][0] == 'p' and not self.root:
                            out.add(('pl', q[0][1]))
                        elif q[0][0] == 'this' and not self.root:
                            out.add(('pl', 'this'))
                        elif any(x == 'F' or isinstance(x, tuple) for x in T):
                            out.add(('U', line))
                else:
                    out.add(t)
            return frozenset(out)
        cache = {}

        def st(tags):
            r = cache.get(tags)
            if r is None:
                r = cache[tags] = stags(tags)
            return r

        def spath(path):
            r = path[0]
            if r[0] == 'p':
                roots = av[r[1]][0] if r[1] < len(av) else EMPTY
            elif r[0] == 'this':
                roots = ov[0]
            else:
                roots = [(r, ())] if r[0] != 'v' else []
                if r[0] == 'new':
                    roots = [(('new', r[1], not self.inregion), ())]
            steps = tuple(x if isinstance(x, str) else ('[', st(x[1])) for x in path[1])
            return [(q[0], (q[1] + steps)[:MAXSTEPS]) for q in roots]
        for (kind, path, prot), (where, fn) in s.eff.items():
            for q in spath(path):
                self.eff(kind, q, line, via=(where, fn, prot))
        for b, t in s.cont.items():
            for q in spath(b):
                bb = base(q)
                self.cont[bb] = self.cont.get(bb, EMPTY) | st(t)
        rp = set()
        for q in s.rp:
            rp |= set(spath(q))
        return frozenset(rp), st(s.rt)

    # ---- statements -------------------------------------------------------------------------------
    def st(self, s, env):
        if s is None or not s:
            return True
        k = s[0]
        m = getattr(self, 's_' + k, None)
        if m:
            r = m(s, env)
            return True if r is None else r
        if k in ('sother', 'try'):
            for x in walk(s):
                pass
            for x in s[2:]:
                if isinstance(x, list):
                    if x and isinstance(x[0], str):
                        self.st(x, env)
                    else:
                        for y in x:
                            if isinstance(y, list):
                                self.st(y, env)
        return True

    def s_block(self, s, env):
        for x in s[2]:
            if not self.st(x, env):
                return False

    def s_expr(self, s, env):
        self.val(s[2], env)
        if s[2] and s[2][0] == 'call' and util.is_exit_call(s[2]):
            return False

    def s_decl(self, s, env):
        for vid, init, vla in s[2]:
            name, t, kind, line = self.f.locals[vid]
            if vla:
                self.val(vla, env)
            if kind == 's':
                if init is not None:
                    self.val(init, env)
                continue
            if init is None:
                env.e[vid] = (EMPTY, EMPTY)
                continue
            if isref(t):
                ps = self.lvobj(init, env) if init[0] not in ('call', 'ctor') else self.val(init, env)[0]
                tg = EMPTY
                env.e[vid] = (ps, tg)
            elif isscalar(t) or (isptr(t) and not t.rstrip().endswith(']')):
                env.e[vid] = self.val(init, env)
            elif init[0] == 'ctor':
                r = self.call(init, env, this=frozenset([(('v', vid), ())]))
                if r[1]:
                    self.cont[(('v', vid), ())] = self.cont.get((('v', vid), ()), EMPTY) | r[1]
            else:
                v = self.val(init, env)
                if v[1]:
                    self.cont[(('v', vid), ())] = self.cont.get((('v', vid), ()), EMPTY) | v[1]

    def s_return(self, s, env):
        if s[2] is not None:
            rt = self.f.h.get('ret', '')
            if isref(rt):
                v = (self.lvobj(s[2], env), EMPTY)
            else:
                v = self.val(s[2], env)
            if isptr(rt):
                self.s.rp = self.s.rp | v[0]
            if isscalar(rt):
                self.s.rt = self.s.rt | v[1]
                if isref(rt):
                    self.s.rt = self.s.rt | self.rd(v[0], s[1])
        return False

    def s_break(self, s, env):
        return False

    def s_continue(self, s, env):
        return False

    def retag(self, env, old):
        """a guard shows that the values with these tags belong to this iteration"""
        us = {t for t in old if isinstance(t, tuple) and t[0] == 'U'}
        if not us:
            return

        def r(ts):
            return (ts - us) | {'C'} if ts & us else ts
        for v, (ps, ts) in list(env.e.items()):
            env.e[v] = (frozenset((q[0], tuple(x if isinstance(x, str) else ('[', frozenset(r(x[1]))) for x in q[1])) for q in ps), frozenset(r(ts)))

    def refine(self, c, truth, env):
        """owner marks: the guard `element.field == W` makes the element belong to the iteration"""
        if c is None:
            return
        if c[0] == 'un' and c[2] == '!':
            return self.refine(c[3], not truth, env)
        if c[0] == 'bin' and c[2] == ('&&' if truth else '||'):
            self.refine(c[3], truth, env)
            self.refine(c[4], truth, env)
            return
        if c[0] == 'bin' and c[2] == ('==' if truth else '!='):
            rec, self.rec = self.rec, False
            for a, b in ((c[3], c[4]), (c[4], c[3])):
                if 'W' in self.val(b, env)[1]:
                    e = util.strip(a)
                    if e[0] in ('mem', 'idx'):
                        for q in self.lv(e, env):
                            self.retag(env, ptags(q))
            self.rec = rec

    def onbranch(self, c, env):
        """the condition picks one iteration: W == constant"""
        if c and c[0] == 'bin' and c[2] == '==':
            rec, self.rec = self.rec, False
            a, b = self.val(c[3], env)[1], self.val(c[4], env)[1]
            pa, pb = util.strip(c[3]), util.strip(c[4])
            self.rec = rec
            return (pa[0] == 'var' and a == {'W'} and not b) or (pb[0] == 'var' and b == {'W'} and not a)
        return False

    def s_if(self, s, env):
        self.val(s[2], env)
        one = self.onbranch(s[2], env)
        a, b = env.copy(), env.copy()
        self.refine(s[2], True, a)
        self.refine(s[2], False, b)
        self.one += one
        la = self.st(s[3], a)
        self.one -= one
        lb = self.st(s[4], b) if s[4] else True
        live = []
        if la:
            live.append(a)
        if lb:
            live.append(b)
        if not live:
            return False
        env.e = live[0].e
        for x in live[1:]:
            env.join(x)

    def loop(self, body, env, node=None):
        # what a loop steps differs from thread to thread
        for a in find(node, 'asg') if node else ():
            t = a[3]
            if t[0] == 'var' and t[2] in env.e and isint(self.f.locals[t[2]][1]):
                x = env.e[t[2]]
                if 'UNINIT' not in x[1]:
                    env.e[t[2]] = (x[0], x[1] | {'F'})
        rec, self.rec = self.rec, False
        for _ in range(2):
            x = env.copy()
            body(x)
            env.join(x)
        self.rec = rec
        x = env.copy()
        body(x)
        env.join(x)

    def s_for(self, s, env):
        self.st(s[2], env)

        def body(x):
            self.val(s[3], x)
            y = x.copy()
            self.st(s[5], y)
            x.join(y)
            self.val(s[4], x)
        self.loop(body, env, s)

    def s_while(self, s, env):
        def body(x):
            self.val(s[2], x)
            self.st(s[3], x)
        self.loop(body, env, s)

    def s_do(self, s, env):
        def body(x):
            self.st(s[2], x)
            self.val(s[3], x)
        self.loop(body, env, s)

    def s_rfor(self, s, env):
        v = self.val(s[3], env)
        vid = s[2][0]
        t = self.f.locals[vid][1]
        ps = self.step(v[0], ('[', frozenset(['F']))) if v[0] else EMPTY
        tg = EMPTY
        for q in ps:
            tg |= self.loadtags(q, s[1])
        if isptr(t) or isscalar(t):
            env.e[vid] = (ps, tg if isscalar(t) else EMPTY)
        self.loop(lambda x: self.st(s[4], x), env, s)

    def s_switch(self, s, env):
        self.val(s[2], env)
        x = env.copy()
        b = s[3]
        for y in (b[2] if b and b[0] == 'block' else [b]):
            if not self.st(y, x):
                x.join(env)
        env.join(x)

    def s_case(self, s, env):
        return self.st(s[3], env)

    def s_default(self, s, env):
        return self.st(s[2], env)

    def s_label(self, s, env):
        return self.st(s[3], env)

    def s_omp(self, s, env):
        kind = s[2]
        if kind in ('critical', 'atomic', 'ordered'):
            old = self.prot
            nm = ''
            for c in s[3]:
                if c[0] == 'name':
                    nm = c[1]
            self.prot = (kind, nm)
            r = self.st(s[4], env)
            self.prot = old
            return r
        if s[4]:
            return self.st(s[4], env)
