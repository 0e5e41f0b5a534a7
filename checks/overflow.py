"""P12, part 2: a list that is too small is reported, and whoever asked for it enlarges everything and asks again."""
from facts import walk, find
from util import strip, targets, src_functions

OK, PENDING, OVER = 0, 1, 2
WALKS = {'ComputeGatherNeighbourList', 'ComputeNeighbourList', 'ComputeStarGravityInteractionList', 'GetGatherNeighbourList'}


def num(e):
    e = strip(e)
    if e is None:
        return None
    if e[0] == 'int':
        return e[2]
    if e[0] == 'un' and e[2] == '-':
        v = num(e[3])
        return -v if v is not None else None
    return None


def base(e):
    """the variable an argument names: a list &(v[0]), v, v.data(), v.size()"""
    e = strip(e)
    while e is not None:
        if e[0] == 'var':
            return e[2]
        if e[0] in ('un',):
            e = strip(e[3])
        elif e[0] in ('idx',):
            e = strip(e[2])
        elif e[0] == 'call' and e[5] is not None:
            e = strip(e[5])
        elif e[0] == 'call' and e[4] and 'operator' in str(e[2]):
            e = strip(e[4][0])
        elif e[0] == 'bin':
            e = strip(e[3])
        else:
            return None
    return None


def variables(e):
    return {n[2] for n in walk(e) if n[0] == 'var'} if e is not None else set()


class Caller(object):
    def __init__(self, ctx, p, f, sources):
        self.ctx, self.p, self.f, self.sources = ctx, p, f, sources
        self.st = {}
        self.propagates = False
        self.calls = 0
        self.where = {}
        self.reported = set()
        self.grown = {}
        self.flags = {}
        self.users = self.bufs()

    def bufs(self):
        """arrays of this function by the variables of their size"""
        out = {}
        used = set()
        alloc = []
        for n in walk(self.f.body):
            if n[0] == 'asg' and n[2] == '=' and strip(n[4]) and strip(n[4])[0] == 'new':
                alloc.append((base(n[3]), n[4]))
            elif n[0] == 'decl':
                for vid, init, _ in n[2]:
                    i = strip(init)
                    if i is None:
                        i = init
                    if init is not None and (i and i[0] == 'new' or init[0] == 'ctor' and 'vector' in str(init[2])):
                        alloc.append((vid, init))
            elif n[0] == 'call' and str(n[2]).split('::')[-1] in ('resize',) and n[5] is not None:
                alloc.append((base(n[5]), n[4][0] if n[4] else None))
            if n[0] == 'idx' and base(n[2]) is not None:
                used.add(base(n[2]))
            if n[0] == 'call':
                if 'operator[]' in str(n[2]) and base(n) is not None:
                    used.add(base(n))
                for a in n[4]:
                    if strip(a) is not None and strip(a)[0] in ('var', 'un'):
                        used.add(base(a))
        for v, size in alloc:
            if v is None or size is None or v not in used:
                continue
            for s in variables(size) - {v}:
                t = self.f.locals[s][1]
                if t.replace('const ', '').strip() in ('int', 'long', 'unsigned int', 'unsigned long', 'size_t'):
                    out.setdefault(s, set()).add(v)
        return out

    def nm(self, v):
        return self.f.locals[v][0]

    def bad(self, v, what, msg):
        k = (v, what)
        if k in self.reported:
            return
        self.reported.add(k)
        self.ctx.bad('overflow', self.f.where(), '%s|%s' % (self.f.name, what), msg)

    # ------------------------------------------------------------------ expressions
    def source(self, n):
        if n[0] != 'call':
            return False
        if str(n[2]).split('::')[-1] in WALKS and n[7] == 'int':
            return True
        return any(g.m in self.sources for g in targets(self.p, n))

    def compare(self, e):
        """(variable, value of the comparison when the list overflowed)"""
        e = strip(e)
        if e is not None and e[0] == 'var' and e[2] in self.flags:
            return self.flags[e[2]]
        if e is None or e[0] != 'bin' or e[2] not in ('==', '!=', '<', '<=', '>', '>='):
            return None
        a, b, op = strip(e[3]), strip(e[4]), e[2]
        if num(a) is not None and b is not None:
            a, b = b, a
            op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
        c = num(b)
        if a is None or a[0] not in ('var', 'asg') or c is None:
            return None
        v = a[2] if a[0] == 'var' else (strip(a[3])[2] if strip(a[3])[0] == 'var' else None)
        if v is None or v not in self.st:
            return None
        val = {'==': -1 == c, '!=': -1 != c, '<': -1 < c, '<=': -1 <= c, '>': -1 > c, '>=': -1 >= c}[op]
        # the answer has to tell -1 from every valid number
        other = {'==': 0 == c, '!=': 0 != c, '<': 0 < c, '<=': 0 <= c, '>': 0 > c, '>=': 0 >= c}[op]
        big = {'==': 5 == c, '!=': 5 != c, '<': 5 < c, '<=': 5 <= c, '>': 5 > c, '>=': 5 >= c}[op]
        if val == other or val == big:
            return None
        return v, val

    def expr(self, e, target=None):
        """effects of an expression, in evaluation order (calls before their assignment)"""
        if e is None:
            return
        k = e[0]
        if k == 'asg':
            l = strip(e[3])
            r = strip(e[4])
            if r is not None and self.source(r) and l is not None and l[0] == 'var':
                self.call(r, l[2])
                return
            c = self.compare(r) if r is not None else None
            self.expr(e[4])
            if l is not None and l[0] == 'var':
                v = l[2]
                self.flags.pop(v, None)
                if c is not None and e[2] == '=':
                    self.flags[v] = c
                self.assigned(v, e)
                if e[2] == '=' and v in self.st:
                    del self.st[v]
                elif v in self.st:
                    self.use(v)
            else:
                self.expr(e[3])
            return
        if k == 'var':
            self.use(e[2])
            return
        if self.source(e):
            self.call(e, None)
            return
        if self.compare(e) is not None:
            return
        if k == 'call':
            n = str(e[2]).split('::')[-1]
            if n in ('resize', 'assign') and e[5] is not None:
                self.assigned(base(e[5]), e)
            elif any(g.body is not None for g in targets(self.p, e)):
                # a helper may enlarge what it is given
                for a in e[4]:
                    if base(a) is not None:
                        self.assigned(base(a), e)
        for x in e[2:]:
            if isinstance(x, list):
                if x and isinstance(x[0], str):
                    self.expr(x)
                else:
                    for y in x:
                        if isinstance(y, list) and y and isinstance(y[0], str):
                            self.expr(y)

    def assigned(self, v, e):
        for g in self.grown.values():
            if not any(b == v and x is e for b, x in g):
                g.append((v, e))

    def use(self, v):
        s = self.st.get(v)
        if s in (PENDING, OVER):
            self.bad(v, 'unchecked', 'the number of list entries is used without a test that the list did not overflow')

    def call(self, n, v):
        self.calls += 1
        args = n[4]
        caps, lists = [], []
        for a in args:
            b = base(a)
            s = strip(a)
            if b is None:
                continue
            t = self.f.locals[b][1].replace('const ', '').strip()
            if s[0] == 'var' and t == 'int' and b != v and b not in self.st:
                caps.append(b)
            if (t == 'int *' or 'vector<int' in t) and 'size' not in str(s[2]):
                lists.append(b)
        for a in args:
            # a count passed on to the next tree is tested there first
            s = strip(a)
            if s is not None and s[0] == 'var' and s[2] in self.st:
                continue
            self.expr(a)
        if v is None:
            self.bad(n[2], 'unchecked', 'the result of %s is thrown away' % n[2])
            return
        prev = self.st.get(v)
        g = self.grown.get(v)
        if prev == OVER or g is not None and not any(b == v for b, x in g if x[0] == 'mark'):
            if g is not None:
                self.regrow(v, g, lists, caps)
            self.grown.pop(v, None)
        self.st[v] = PENDING

    def regrow(self, v, g, lists, caps):
        """between an overflow and the next search: the lists and everything sized with them is enlarged"""
        done = {b for b, x in g}
        sizes = {b for b in done if b in self.users}
        for l in lists:
            if self.f.locals[l][2] == 'p':
                continue
            if l not in done:
                self.bad(v, 'not enlarged|' + self.nm(l), 'after an overflow the search is repeated with the list %s as small as it was' % self.nm(l))
            else:
                self.ctx.ok('overflow', self.f.where(), '%s is enlarged' % self.nm(l))
            for b, x in g:
                if b == l and x[0] == 'asg' and not any(s in done for s in variables(x[4]) - {l}) and not any(num(y) not in (None, 0, 1) for y in walk(x[4])):
                    self.bad(v, 'not enlarged|' + self.nm(l), 'after an overflow the list %s is allocated again with its old size' % self.nm(l))
        for s in sizes:
            for b in self.users[s]:
                if b not in done:
                    self.bad(v, 'left behind|' + self.nm(b), 'the size %s is enlarged but the array %s that has this size is not' % (self.nm(s), self.nm(b)))
                else:
                    self.ctx.ok('overflow', self.f.where(), '%s grows with %s' % (self.nm(b), self.nm(s)))
        for c in caps:
            if c not in done and c in self.users:
                self.bad(v, 'not enlarged|' + self.nm(c), 'after an overflow the search is repeated with the same limit %s' % self.nm(c))

    # ------------------------------------------------------------------ statements
    def branch(self, cond, val):
        """state after the condition had this value"""
        c = strip(cond)
        r = self.compare(c) if c is not None else None
        if r:
            v, over = r
            if over == val:
                self.st[v] = OVER
                self.grown.setdefault(v, [])
            else:
                self.st[v] = OK
                self.grown.pop(v, None)
            return
        if c is not None and c[0] == 'un' and c[2] == '!':
            self.branch(c[3], not val)
        elif c is not None and c[0] == 'bin' and c[2] in ('&&', '||'):
            if (c[2] == '&&') == val:
                self.branch(c[3], val)
                self.branch(c[4], val)

    def snap(self):
        return dict(self.st), {k: list(v) for k, v in self.grown.items()}

    def restore(self, s):
        self.st, self.grown = dict(s[0]), {k: list(v) for k, v in s[1].items()}

    def join(self, ss):
        ss = [s for s in ss if s is not None]
        if not ss:
            return None
        st, gr = dict(ss[0][0]), dict(ss[0][1])
        for s in ss[1:]:
            for k, v in s[0].items():
                st[k] = max(st.get(k, OK), v)
            for k, v in s[1].items():
                if k in gr:
                    have = {(b, id(e)) for b, e in gr[k]}
                    gr[k] = gr[k] + [y for y in v if (y[0], id(y[1])) not in have]
                else:
                    gr[k] = list(v)
        return st, gr

    def stmt(self, s):
        """runs a statement; False when control does not go on after it"""
        if s is None:
            return True
        k = s[0]
        if k == 'block':
            for x in s[2]:
                if not self.stmt(x):
                    return False
            return True
        if k == 'decl':
            for vid, init, _ in s[2]:
                i = strip(init) if init is not None else None
                if i is not None and self.source(i):
                    self.call(i, vid)
                elif init is not None:
                    c = self.compare(i) if i is not None else None
                    self.expr(init)
                    if c is not None:
                        self.flags[vid] = c
            return True
        if k == 'expr':
            self.expr(s[2])
            return True
        if k == 'return':
            e = strip(s[2]) if len(s) > 2 and s[2] is not None else None
            if e is not None and e[0] == 'var' and self.st.get(e[2]) is not None:
                if self.st[e[2]] in (PENDING, OVER):
                    self.propagates = True
            elif e is not None and self.source(e):
                self.calls += 1
                self.propagates = True
            elif e is not None:
                self.expr(e)
            return False
        if k in ('break', 'continue', 'goto'):
            for l in reversed(self.loops):
                if k in l:
                    l[k].append(self.snap())
                    break
            return False
        if k == 'if':
            self.expr(s[2])
            a = self.snap()
            self.branch(s[2], True)
            r1 = self.snap() if self.stmt(s[3]) else None
            self.restore(a)
            self.branch(s[2], False)
            r2 = self.snap() if (len(s) < 5 or self.stmt(s[4])) else None
            j = self.join([r1, r2])
            if j is None:
                return False
            self.restore(j)
            return True
        if k in ('while', 'for', 'rfor', 'do'):
            return self.loop(s)
        if k == 'switch':
            self.expr(s[2])
            a = self.snap()
            self.loops.append({'break': []})
            r = self.snap() if self.stmt(s[3]) else None
            out = self.loops.pop()['break']
            self.restore(self.join([a, r] + out))
            return True
        if k in ('case', 'default', 'omp', 'label', 'try'):
            for x in s[2:]:
                if isinstance(x, list) and x and isinstance(x[0], str) and x[0] in ('block', 'decl', 'expr', 'if', 'for', 'rfor', 'while', 'do', 'return', 'omp', 'switch', 'break', 'continue'):
                    if not self.stmt(x):
                        return False
            return True
        return True

    def loop(self, s):
        k = s[0]
        if k == 'for':
            init, cond, inc, body = s[2], s[3], s[4], s[5]
            if init is not None:
                self.stmt(init) if init[0] in ('decl', 'block', 'expr') else self.expr(init)
        elif k == 'rfor':
            init, cond, inc, body = None, None, None, s[-1]
        elif k == 'while':
            cond, inc, body = s[2], None, s[3]
        else:
            body, cond, inc = (s[2], s[3], None) if isinstance(s[2], list) and s[2] and s[2][0] in ('block', 'expr') else (s[3], s[2], None)
        # the condition of an endless loop never ends it
        c = strip(cond) if cond is not None else None
        endless = cond is None and k != 'rfor' or c is not None and (c[0] == 'bool' and c[2] or num(c) not in (None, 0))
        exits, last = [], None
        first = True
        alive = True
        for _ in range(2):
            if not (k == 'do' and first):
                if cond is not None:
                    self.expr(cond)
                if not endless:
                    a = self.snap()
                    if cond is not None:
                        self.branch(cond, False)
                    exits.append(self.snap())
                    self.restore(a)
                    if cond is not None:
                        self.branch(cond, True)
            first = False
            self.loops.append({'break': [], 'continue': []})
            r = self.snap() if self.stmt(body) else None
            out = self.loops.pop()
            exits += out['break']
            last = (last or []) + out['break']
            j = self.join([r] + out['continue'])
            if j is None:
                alive = False
                break
            self.restore(j)
            if inc is not None:
                self.expr(inc)
        if alive and not endless:
            if cond is not None:
                self.expr(cond)
                self.branch(cond, False)
            exits.append(self.snap())
            last.append(self.snap())
        j = self.join(last if k == 'do' else exits)
        if j is None:
            return False
        self.restore(j)
        return True

    def run(self):
        self.loops = []
        self.stmt(self.f.body)
        return self


def run_overflow(ctx, p):
    """every caller of a search that can overflow"""
    fs = [f for f in src_functions(p) if f.body is not None and 'UnitTesting' not in f.file]
    own = {f.m for f in fs if f.name.split('::')[-1] in WALKS and f.cls.split('::')[-1].startswith('Tree')}
    sources = set()
    cand = [f for f in fs if f.m not in own and any(str(n[2]).split('::')[-1] in WALKS for n in find(f.body, 'call'))]
    n = 0
    done = set()
    while cand:
        more = set()
        for f in cand:
            done.add(f.m)
            c = Caller(ctx, p, f, sources).run()
            n += c.calls
            if not c.reported:
                ctx.ok('overflow', f.where(), f.name)
            if c.propagates and f.name.split('::')[-1] not in WALKS:
                more.add(f.m)
        # functions that hand the answer on to their own callers
        sources |= more
        cand = [f for f in fs if f.m not in done and f.m not in own and any(g.m in more for c in find(f.body, 'call') for g in targets(p, c))] if more else []
    ctx.count('searches that can overflow', n)
    return n
