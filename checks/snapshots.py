"""P10: snapshot and restart files: what is written is what is read back."""
import re
from facts import find, walk
from util import *
import stream
from stream import Walker, FormatError, Unsupported, norm_tokens, showv, show, subterms, canon, types_of, strip_types

FORMATS = [('column', 'WriteColumnSnapshotFile', 'ReadColumnSnapshotFile', 'ReadColumnHeaderFile', ('column',)),
           ('seren_form', 'WriteSerenFormSnapshotFile', 'ReadSerenFormSnapshotFile', 'ReadSerenFormHeaderFile', ('sf', 'seren_form')),
           ('seren_unform', 'WriteSerenUnformSnapshotFile', 'ReadSerenUnformSnapshotFile', 'ReadSerenUnformHeaderFile',
            ('su', 'seren_unform')),
           ('seren_lite', 'WriteSerenLiteSnapshotFile', None, None, ('slite', 'seren_lite'))]

UNIT = {'r': 'r', 'v': 'v', 'm': 'm', 'h': 'r', 'rho': 'rho', 'u': 'u', 'radius': 'r', 't': 't', 'tsnaplast': 't',
        'tlitesnaplast': 't', 'mmean': 'm'}
PART = ['r', 'v', 'm', 'h', 'rho', 'u']
STAR = ['r', 'v', 'm', 'h']


def impl(p, name, nd):
    for f in p.named('Simulation::' + name):
        if f.ndim() == nd:
            return f
    return None


def mark(t):
    """the state that wrote the file, as opposed to the one that reads it"""
    if isinstance(t, tuple):
        if t == ('this',):
            return ('wthis',)
        return tuple(mark(x) for x in t)
    if isinstance(t, frozenset):
        return frozenset(mark(x) for x in t)
    return t


def unmark(t):
    if isinstance(t, tuple):
        if t == ('wthis',):
            return ('this',)
        return tuple(unmark(x) for x in t)
    if isinstance(t, frozenset):
        return frozenset(unmark(x) for x in t)
    return t


def written(t):
    return any(x == ('wthis',) for x in subterms(canon(t)) if isinstance(x, tuple))


def key(loc):
    """(class, member, component) of an object location"""
    k = None
    if loc and loc[0] == 'i' and isinstance(loc[2], int) and isinstance(loc[1], tuple) and loc[1][0] == 'f':
        k = loc[2]
        loc = loc[1]
    if not (isinstance(loc, tuple) and loc[0] == 'f'):
        return None
    c, m = loc[2].split('::')[-2:]
    return c, m, k


def shifted(loc):
    """is the element index something else than the loop variable itself?"""
    for x in subterms(loc):
        if isinstance(x, tuple) and x and x[0] in ('+', '*') and any(isinstance(y, tuple) and y[:1] == ('it',) for y in subterms(x)):
            return True
    return False


def scales(v):
    """split a product into data factors, output scales and input scales"""
    num, den = ((v,), ()) if not (isinstance(v, tuple) and v and v[0] == '*') else (v[1], v[2])
    data, out, inn, rest = [], [], [], []
    for x, o in [(x, 1) for x in num] + [(x, -1) for x in den]:
        s = unitscale(x)
        if s:
            (out if s[1] == 'outscale' else inn).append((s[0], o, written(x)))
        elif isinstance(x, (int, float)):
            rest.append(x if o == 1 else 1. / x)
        else:
            data.append((x, o))
    return data, out, inn, rest


def unitscale(x):
    if isinstance(x, tuple) and x and x[0] == 'f' and x[2].split('::')[-1] in ('outscale', 'inscale') and \
            isinstance(x[1], tuple) and x[1][0] == 'f':
        return x[1][2].split('::')[-1], x[2].split('::')[-1]
    return None


def name_of(k):
    c, m, n = k
    return {'SimulationBase': '', 'Simulation': ''}.get(c, c + '::') + m + ('' if n is None else '[%d]' % n)


class Fmt(object):
    def __init__(self, ctx, p, cfg, nd, fmt):
        self.ctx, self.p, self.cfg, self.nd = ctx, p, cfg, nd
        self.fmt, self.wn, self.rn, self.hn, self.names = fmt
        self.w = impl(p, self.wn, nd)
        self.tag = self.fmt + (' (MPI)' if cfg == 'mpi' else '')
        self.toks = None
        if self.w is None:
            return
        w = Walker(p)
        try:
            w.call_fn(self.w, [(None, ('fname',))], ('this',), 0)
            self.toks = norm_tokens(w.out[0])
        except (Unsupported, ZeroDivisionError, RecursionError) as e:
            ctx.count('undecided writers')

    def bad(self, rule, f, line, construct, msg):
        self.ctx.bad(rule, '%s:%d' % (f.file, line), '%s|%s' % (self.tag, construct), '%s format: %s' % (self.tag, msg))

    # -- what the writer puts into the file ---------------------------------------------------------
    def check_writer(self):
        ctx, w = self.ctx, self.w
        if self.toks is None:
            return
        ctx.count('tokens written', len(self.toks))
        flat = []

        def go(ts, rep):
            for t in ts:
                if t[0] == 'rep':
                    go(t[3], t)
                elif t[0] == 'flt':
                    go(t[2], rep)
                else:
                    flat.append((t, rep))
        go(self.toks, None)
        seen = {}
        for t, rep in flat:
            v = t[3]
            data, out, inn, rest = scales(v)
            ks = [key(x) for x, o in data if isinstance(x, tuple)]
            ks = [k for k in ks if k and k[1] in UNIT and k[0] not in ('SimUnits', 'UnitInfo')]
            if len(data) == 1 and len(ks) == 1 and data[0][1] == 1:
                k = ks[0]
                seen.setdefault(k, t)
                U = UNIT[k[1]]
                if k[0] in ('Hydrodynamics',) and k[1] not in ('mmean',):
                    continue
                if [x[:2] for x in out] != [(U, 1)] or inn or rest:
                    self.bad('units', w, w.line, 'write %s' % name_of(k), '%s is written as %s, not in units of simunits.%s' % (
                        name_of(k), showv(v), U))
                else:
                    ctx.ok('units', '%s:%d' % (w.file, w.line), '%s %s' % (self.tag, name_of(k)))
        self.seen = seen
        # repetitions: which elements
        preps = []
        for t in self.toks:
            if t[0] != 'rep':
                continue
            cl = {k[0] for k in (key(x) for b in subterms(t[3]) if isinstance(b, tuple) for x in [b] if b and b[0] in ('f', 'i')) if k}
            if 'Particle' not in cl:
                continue
            preps.append(t)
            lits = strip_types(t[2])
            dead = [l for l in lits if l[0] is False and isinstance(l[1], tuple) and l[1][0] == 'c' and l[1][1].endswith('is_dead')]
            if not dead:
                self.bad('elements', w, w.line, 'dead particles', 'particles that have been accreted or removed (dead) are written as if they existed')
            elif len(lits) > 1:
                self.bad('elements', w, w.line, 'filter', 'only particles satisfying %s are written' % ', '.join(sorted(showlit(x) for x in lits)))
            else:
                ctx.ok('elements', '%s:%d' % (w.file, w.line), '%s: %s of live particles' % (self.tag, show(t)))
            ty = types_of(t[2])
            if ty:
                have = {x[1] for x in ty}
                for T in ('gas_type', 'cdm_type', 'dust_type'):
                    if T not in have:
                        self.bad('elements', w, w.line, 'type ' + T, 'particles of type %s are left out of %s' % (T, show(t)))
        if len({tuple(types_of(t[2])) for t in preps}) > 1:
            self.bad('elements', w, w.line, 'order', 'arrays are not written in the same order of particles')
        return

    def check_table(self):
        """the table of contents of the Seren formats describes the arrays that follow"""
        ctx, w, toks = self.ctx, self.w, self.toks
        if toks is None or self.fmt == 'column':
            return
        reps = [t for t in toks if t[0] == 'rep']
        first = next((n for n, t in enumerate(toks) if t[0] == 'rep'), None)
        if first is None:
            return
        n = len(reps)
        head = toks[:first]
        last = max([k for k, t in enumerate(head) if isinstance(t[3], str)] or [-1])
        # ids directly before the rows
        if last < 0 or last - n + 1 < 0 or not all(isinstance(t[3], str) for t in head[last - n + 1:last + 1]):
            ctx.count('undecided tables')
            return
        ids = [t[3] for t in head[last - n + 1:last + 1]]
        rows = head[last + 1:last + 1 + 5 * n]
        if len(rows) < 5 * n:
            self.bad('table', w, w.line, 'rows', 'the file holds %d arrays but its table describes fewer' % n)
            return
        units = []
        for t in head[:last - n + 1][::-1]:
            v = t[3]
            if isinstance(v, tuple) and v[0] == 'f' and v[2].endswith('::outunit'):
                units.append(v[1][2].split('::')[-1])
            elif units:
                break
        units = units[::-1]
        if len(set(ids)) != len(ids):
            self.bad('table', w, w.line, 'names', 'two arrays have the same name in %s' % ' '.join(ids))
        for k, (name, rep) in enumerate(zip(ids, reps)):
            row = [t[3] for t in rows[5 * k:5 * k + 5]]
            where = '%s:%d' % (w.file, w.line)
            star = any(isinstance(x, tuple) and x and x[0] == 'f' and x[2].endswith('::stardata') for x in subterms(rep[3]))
            cnt = rep[1] if not strip_types(rep[2]) else ('count', rep[1], strip_types(rep[2]))
            if canon(row[2]) != canon(cnt):
                self.bad('table', w, w.line, 'count ' + name, 'the table says that "%s" has %s entries, %s are written' % (name, showv(row[2]), showv(cnt)))
            elif not star and row[0] != len(rep[3]):
                self.bad('table', w, w.line, 'width ' + name, 'the table says that "%s" has %s components, %d are written' % (name, showv(row[0]), len(rep[3])))
            else:
                ctx.ok('table', where, '%s %s' % (self.tag, name))
            sc = {unitscale(x)[0] for t in rep[3] if t[0] == 't' for x in subterms(t[3]) if unitscale(x)}
            if star or not units or not isinstance(row[4], int):
                continue
            if len(sc) == 1 and (row[4] < 1 or row[4] > len(units) or units[row[4] - 1] not in sc):
                self.bad('table', w, w.line, 'unit ' + name, 'the table gives "%s" unit number %d (%s) but it is written in units of simunits.%s' % (
                    name, row[4], units[row[4] - 1] if 0 < row[4] <= len(units) else 'none', ''.join(sc)))
            elif len(sc) == 1:
                ctx.ok('table', where, '%s unit of %s' % (self.tag, name))

    # -- reading back --------------------------------------------------------------------------------
    def read(self, fn, toks, convert, header=False, widths=True):
        ctx, p = self.ctx, self.p
        f = impl(p, fn, self.nd)
        conv = impl(p, 'ConvertToCodeUnits', self.nd)
        if f is None:
            return None
        marked = [mark(t) for t in toks]
        r = Walker(p, reader=marked, widths=widths)
        try:
            if header:
                info = ('v', 0, 0, 'info')
                st = ('v', 0, 1, 'infile')
                r.alias[st] = ('file',)
                r.call_fn(f, [(st, st), (info, info)], ('this',), 0)
            else:
                r.call_fn(f, [(None, ('fname',))], ('this',), 0)
            if not header and len(marked) != r.pos[0]:
                t = marked[r.pos[0]]
                self.bad('format', f, f.line, 'left over|' + fn, '%s stops before %s, %d entries are left in the file' % (
                    f.label(), show(t), len(marked) - r.pos[0]))
                return None
            if convert:
                r.call_fn(conv, [], ('this',), 0)
        except FormatError as e:
            self.bad('format', f, e.line, fn, '%s does not read what %s writes: it %s' % (f.label(), self.w.label(), e.msg))
            return None
        except (Unsupported, ZeroDivisionError, RecursionError) as e:
            ctx.count('undecided readers')
            return None
        if not header:
            ctx.ok('format', '%s:%d' % (f.file, f.line), '%s: %d entries consumed' % (self.tag, len(marked)))
        return f, r

    def check_roundtrip(self, widths=True):
        ctx = self.ctx
        if self.toks is None:
            return
        rn = self.rn or 'ReadSerenUnformSnapshotFile'
        got = self.read(rn, self.toks, True, widths=widths)
        if got is None:
            return
        f, r = got
        final = {}
        for loc, (line, v) in r.stores.items():
            k = key(loc)
            if k is None or not any(x == ('this',) for x in subterms(loc) if isinstance(x, tuple)):
                continue
            final[k] = (loc, line, v)
        have = set()
        for k, (loc, line, v) in final.items():
            if not written(v):
                continue
            have.add(k)
            self.one(f, k, loc, line, v)
        # counts
        for k, (loc, line, v) in final.items():
            if k[1] == 'Nhydro' and written(v):
                c = canon(unmark(v))
                ok = isinstance(c, tuple) and c[0] == 'count' and len(c[2]) == 1 and all(
                    l[0] is False and l[1][0] == 'c' and l[1][1].endswith('is_dead') for l in c[2])
                if not ok:
                    self.bad('elements', self.w, self.w.line, 'Nhydro', 'the number of particles in the header is %s, which counts dead ones too' % showv(v)
                             if not (isinstance(c, tuple) and c[0] == 'count') else 'the number of particles in the header is the %s' % showv(v))
                else:
                    ctx.ok('elements', '%s:%d' % (f.file, line), '%s Nhydro' % self.tag)
        # everything that has to come back
        need = [('Particle', m, k) for m in PART for k in (range(self.nd) if m in 'rv' else [None])
                if not (self.fmt == 'seren_lite' and m == 'v')]
        star = next((k[0] for k in final if k[1] == 'r' and k[0] != 'Particle'), 'NbodyParticle')
        need += [(star, m, k) for m in STAR for k in (range(self.nd) if m in 'rv' else [None])]
        if self.fmt != 'column':
            need += [(star, 'radius', None)]
        if self.fmt in ('seren_form', 'seren_unform'):
            need += [('Particle', 'iorig', None)]
            need += [('*', m, None) for m in ('Noutsnap', 'Nsteps', 'Noutlitesnap', 'tsnaplast', 'mmean', 'tlitesnaplast')]
        need += [('*', m, None) for m in ('Nhydro', 'Nstar', 't')]
        for k in need:
            h = k in have or k[0] == '*' and any(x[1:] == k[1:] for x in have)
            if not h:
                self.bad('restored', f, f.line, name_of(k).replace('*::', ''), '%s is not restored by %s' % (name_of(k).replace('*::', ''), f.label()))
            else:
                ctx.ok('restored', '%s:%d' % (f.file, f.line), '%s %s' % (self.tag, name_of(k)))
        # time of the next snapshot follows from that of the last
        for nx, la, dt in (('tsnapnext', 'tsnaplast', 'dt_snap'), ('tlitesnapnext', 'tlitesnaplast', 'dt_litesnap')):
            a = [x for x in final if x[1] == nx]
            b = [x for x in final if x[1] == la]
            if not a or not b:
                self.bad('next', f, f.line, nx, '%s is not set on a restart' % nx)
                continue
            d = stream.add(final[a[0]][2], stream.mul([final[b[0]][2], -1]))
            if not is_member(d, dt):
                d = [x for x in plus(final[a[0]][2])]
                for x in plus(final[b[0]][2]):
                    if x in d:
                        d.remove(x)
                d = d[0] if len(d) == 1 else None
            if not is_member(d, dt):
                self.bad('next', f, final[a[0]][1], nx, '%s is %s after a restart, which is not %s + %s' % (nx, showv(final[a[0]][2]), la, dt))
            else:
                ctx.ok('next', '%s:%d' % (f.file, final[a[0]][1]), '%s %s' % (self.tag, nx))
        # types
        if self.fmt in ('seren_form', 'seren_unform'):
            self.check_types(f, r)

    def one(self, f, k, loc, line, v):
        ctx = self.ctx
        c, m, n = k
        where = '%s:%d' % (f.file, line)
        if m in ('tsnapnext', 'tlitesnapnext', 'Nhydro') or m == 'ptype':
            return
        if m in ('inunit',):
            U = loc[1][2].split('::')[-1]
            x = unmark(v)
            if isinstance(x, tuple) and x[0] == 'f' and x[2].endswith('::outunit') and x[1][2].split('::')[-1] == U:
                ctx.ok('units', where, 'unit of ' + U)
            else:
                self.bad('units', f, line, 'unit ' + U, 'the input unit of %s is taken from %s' % (U, showv(v)))
            return
        data, out, inn, rest = scales(v)
        wd = [(x, o) for x, o in data if written(x)]
        if m == 'invh':
            kk = [key(x) for x, o in wd]
            if len(wd) != 1 or wd[0][1] != -1 or not kk[0] or kk[0][:2] != (c, 'h'):
                self.bad('restored', f, line, 'value invh', 'invh becomes %s, which is not 1/h' % showv(v))
            return
        if len(wd) != 1 or wd[0][1] != 1:
            self.bad('restored', f, line, 'value ' + name_of(k), '%s becomes %s' % (name_of(k), showv(v)))
            return
        src = wd[0][0]
        ks = key(src)
        ok = ks == k and not shifted(src)
        if m == 'Nsink':
            ok = ks and ks[1] in ('Nstar', 'Nsink')
        if m == 'Nstar':
            ok = ks and ks[1] == 'Nstar'
        if m in ('nbodydata', 'star', 'stardata'):
            return
        if c not in ('Particle', 'SimulationBase', 'Simulation', 'Hydrodynamics') and m == 'radius':
            if ks and ks[1] in (('radius', 'h') if self.fmt == 'column' else ('radius',)):
                ok = not shifted(src)
        elif len(data) > 1:
            ok = False
        if m not in UNIT and ks is None and not isinstance(src, tuple):
            return
        if self.fmt == 'column' and m == 'tsnaplast' and ks and ks[1] == 't':
            ok = True
        if not ok:
            self.bad('restored', f, line, 'value ' + name_of(k), '%s is restored from what was written as %s' % (
                name_of(k), showv(src)))
            return
        if m in UNIT and c != 'UnitInfo':
            U = UNIT[m]
            if [x[:2] for x in out] != [(U, 1)] or [x[:2] for x in inn] != [(U, -1)] or rest:
                self.bad('units', f, line, 'scale ' + name_of(k), '%s becomes %s after reading and conversion to code units: it must be multiplied by the output scale and divided by the input scale of simunits.%s exactly once' % (
                    name_of(k), showv(v), U))
            else:
                ctx.ok('units', where, '%s %s' % (self.tag, name_of(k)))
        elif out or inn or rest:
            self.bad('units', f, line, 'scale ' + name_of(k), '%s becomes %s' % (name_of(k), showv(v)))
        else:
            ctx.ok('restored', where, '%s %s' % (self.tag, name_of(k)))

    def check_types(self, f, r):
        """every type is given back to the block of particles that was written with it"""
        ctx = self.ctx
        reps = [t for t in self.toks if t[0] == 'rep' and types_of(t[2])]
        if not reps:
            return
        order = [x[1] for x in types_of(reps[0][2])]
        got = []
        for line, loc, v, bounds in r.log:
            k = key(loc)
            if not k or k[1] != 'ptype' or not bounds or not (isinstance(v, tuple) and v[0] == 'enum'):
                continue
            b = bounds[-1]
            if not (isinstance(b, tuple) and b[0] == 'count'):
                continue
            ty = [l[1][2][1] if isinstance(l[1][2], tuple) and l[1][2][0] == 'enum' else l[1][1][1] for l in b[2]
                  if l[0] is True and isinstance(l[1], tuple) and l[1][0] == '==']
            if len(ty) != 1:
                continue
            got.append((ty[0], v[1], line))
        if not got:
            if not any(key(loc) and key(loc)[1] == 'ptype' for _, loc, _, _ in r.log):
                self.bad('types', f, f.line, 'none', 'the type of particles is not restored')
            else:
                ctx.count('undecided types')
            return
        if [g[0] for g in got] != order:
            self.bad('types', f, got[0][2], 'order', 'types are given to blocks of particles in the order %s, but they were written in the order %s' % (
                ' '.join(g[0] for g in got), ' '.join(order)))
        for a, b, line in got:
            if a != b and a != 'icm_type':
                self.bad('types', f, line, a, 'particles written as %s are read as %s' % (a, b))
            else:
                ctx.ok('types', '%s:%d' % (f.file, line), '%s %s' % (self.tag, a))

    def check_header(self):
        if self.toks is None or self.hn is None:
            return
        got = self.read(self.hn, self.toks, False, header=True)
        if got is None:
            return
        f, r = got
        ctx = self.ctx
        final = {}
        for loc, (line, v) in r.stores.items():
            k = key(loc)
            if k and k[0] == 'HeaderInfo':
                final[k[1]] = (line, v)
        for m in ('Nhydro', 'Nstar', 'ndim', 't'):
            if m not in final:
                self.bad('header', f, f.line, m, '%s does not give %s' % (f.label(), m))
                continue
            line, v = final[m]
            data, out, inn, rest = scales(v)
            if m == 'ndim':
                ok = v == self.nd
            elif m == 't':
                ok = len(data) == 1 and key(data[0][0]) and key(data[0][0])[1] == 't' and [x[:2] for x in out] == [('t', 1)] and \
                    [x[:2] for x in inn] == [('t', -1)] and not rest
            elif m == 'Nstar':
                ok = key(v) and key(v)[1] == 'Nstar'
            else:
                ok = isinstance(v, tuple) and (v[0] == 'count' and not any(x[:1] == ('enum',) for x in subterms(v) if isinstance(x, tuple)) or key(v) and key(v)[1] == 'Nhydro')
            if not ok:
                self.bad('header', f, line, m, '%s of the header is %s' % (m, showv(v)))
            else:
                ctx.ok('header', '%s:%d' % (f.file, line), '%s %s' % (self.tag, m))


def plus(v):
    return list(v[1:]) if isinstance(v, tuple) and v and v[0] == '+' else [v]


def is_member(v, m):
    return isinstance(v, tuple) and v and v[0] == 'f' and v[2].split('::')[-1] == m


def showlit(l):
    return stream.showlit(l)


# -- dispatch and restart ------------------------------------------------------------------------------
def dispatch(ctx, p):
    for fn, col in (('WriteSnapshotFile', 1), ('ReadSnapshotFile', 2), ('ReadHeaderSnapshotFile', 3)):
        g = p.named('SimulationBase::' + fn)
        if not g:
            ctx.count('undecided dispatch')
            continue
        g = g[0]
        watch = {x[col] for x in FORMATS if x[col]}
        for fm in FORMATS:
            for name in fm[4]:
                if fm[col] is None:
                    continue
                w = Walker(p, calls=watch)
                try:
                    w.call_fn(g, [(None, ('fname',)), (None, name)], ('this',), 0)
                except (Unsupported, FormatError, RecursionError):
                    ctx.count('undecided dispatch')
                    continue
                got = [e[0] for e in w.events]
                if got != [fm[col]]:
                    ctx.bad('dispatch', '%s:%d' % (g.file, g.line), '%s|%s' % (fn, name), '%s of format "%s" calls %s instead of %s' % (
                        fn, name, ', '.join(got) or 'nothing', fm[col]))
                else:
                    ctx.ok('dispatch', '%s:%d' % (g.file, g.line), '%s %s' % (fn, name))


class EvWalker(Walker):
    """remembers the state at every interesting call"""

    def __init__(self, *a, **k):
        Walker.__init__(self, *a, **k)
        ev = self

        class L(list):
            def append(self, x):
                list.append(self, x + (dict(ev.heap),))
        self.events = L()


def restart_file(ctx, p):
    for fn in ('RestartSnapshot', 'Output'):
        g = p.named('SimulationBase::' + fn)
        if not g:
            continue
        g = g[0]
        where = '%s:%d' % (g.file, g.line)
        w = EvWalker(p, calls={'WriteSnapshotFile', 'CalculateDiagnostics', 'OutputDiagnostics', 'UpdateDiagnostics'} | ({'RestartSnapshot'} if fn == 'Output' else set()))
        try:
            w.call_fn(g, [], ('this',), 0)
        except (Unsupported, FormatError, RecursionError):
            ctx.count('undecided restart files')
            continue
        evs = [e for e in w.events if e[0] == 'WriteSnapshotFile']
        toks = [t for t in w.out[0] if t[0] == 't']
        if not evs or len(toks) != 2 or len(toks) != len(w.out[0]):
            if evs and not toks:
                ctx.bad('restart', where, fn, '%s does not record the snapshot for a restart' % fn)
            elif evs:
                ctx.bad('restart', where, fn, '%s writes %s to the restart file instead of the format and the name of the snapshot' % (fn, ', '.join(show(t) for t in toks)))
            continue
        form, name = toks[0][3], toks[1][3]
        before = [e for e in evs if e[2] == 0]
        e = before[-1] if before else None
        if e is None or [e[1][1], e[1][0]] != [form, name]:
            ctx.bad('restart', where, fn + '|names', 'the restart file written by %s holds %s and %s, but the snapshot written before it is %s in format %s' % (
                fn, showv(form), showv(name), showv(e[1][0]) if e else 'none', showv(e[1][1]) if e else '-'))
        else:
            ctx.ok('restart', where, fn)
        if fn != 'Output':
            continue
        for e in evs:
            lite = e[1][1] == 'slite'
            cnt, la, nx, dt = ('Noutlitesnap', 'tlitesnaplast', 'tlitesnapnext', 'dt_litesnap') if lite else ('Noutsnap', 'tsnaplast', 'tsnapnext', 'dt_snap')
            heap = e[-1]
            st = {key(l)[1]: v for l, v in heap.items() if isinstance(l, tuple) and key(l)}
            a, b = st.get(nx), st.get(la)
            d = plus(a) if a is not None else []
            for x in plus(b if b is not None else ('f', ('this',), 'SimulationBase::' + la)):
                if x in d:
                    d.remove(x)
            if len(d) != 1 or not is_member(d[0], dt):
                ctx.bad('next', '%s:%d' % (g.file, e[3]), 'Output|' + nx, 'when a snapshot is written, %s is %s and %s is %s: a restart from it would continue with another snapshot time' % (
                    la, showv(b), nx, showv(a)))
            else:
                ctx.ok('next', '%s:%d' % (g.file, e[3]), 'Output ' + nx)
            c = st.get(cnt)
            if c is None or 1 not in plus(c) or len(plus(c)) != 2:
                ctx.bad('next', '%s:%d' % (g.file, e[3]), 'Output|' + cnt, 'the snapshot counter %s is not advanced before the snapshot is written' % cnt)
            elif not any(x == c for x in subterms(e[1][0])):
                ctx.bad('next', '%s:%d' % (g.file, e[3]), 'Output|name ' + cnt, 'the name of the snapshot, %s, does not contain its number' % showv(e[1][0]))
            else:
                ctx.ok('next', '%s:%d' % (g.file, e[3]), 'Output ' + cnt)
    for nd in (1, 2, 3):
        g = impl(p, 'GenerateIC', nd)
        if g is None:
            continue
        where = '%s:%d' % (g.file, g.line)
        toks = [('t', 'txt', None, ('FORM',)), ('t', 'txt', None, ('NAME',))]
        w = EvWalker(p, reader=toks, calls={'ReadSnapshotFile', 'ConvertToCodeUnits'})
        w.heap[('f', ('this',), 'SimulationBase::restart')] = True
        try:
            w.call_fn(g, [], ('this',), 0)
        except FormatError as e:
            ctx.bad('restart', where, 'GenerateIC', 'the restart file is read past its end')
            continue
        except (Unsupported, RecursionError):
            ctx.count('undecided restart files')
            continue
        ev = [(e[0], e[1]) for e in w.events]
        if ev[:1] != [('ReadSnapshotFile', [('NAME',), ('FORM',)])]:
            ctx.bad('restart', where, 'GenerateIC', 'on a restart %s is called, instead of reading the snapshot named in the restart file in its format' % (
                ', '.join('%s(%s)' % (a, ', '.join(showv(x) for x in b)) for a, b in ev) or 'nothing'))
        elif len([e for e in ev if e[0] == 'ConvertToCodeUnits']) != 1:
            ctx.bad('restart', where, 'GenerateIC|units', 'the snapshot read on a restart is converted to code units %d times' % (len(ev) - 1))
        else:
            ctx.ok('restart', where, 'GenerateIC<%d>' % nd)


def run(ctx):
    ctx.rule('Each snapshot writer is summarised, by propagation of constants (array slots, loop bounds, string tags) through its body, as the sequence of values it puts into the file, with the object member and scale factor each value carries; loops over particles and stars become repetitions with a count and a filter. The reader of the same format, run over that sequence in the same way, must consume it exactly (kind, width, order, count) and leave in every object member what was written from that member.')
    ctx.rule('After the reader and ConvertToCodeUnits every dimensional quantity has been multiplied by the output scale and divided by the input scale of its own unit exactly once; every quantity a restart needs is restored; dead particles are neither written nor counted; types return to the block they were written from; the table of contents of Seren files describes the arrays that follow; header readers agree; format names select the matching writer and reader; the restart file names the snapshot written just before, and snapshot counter and times continue.')
    n = 0
    for cfg in ('serial', 'mpi'):
        p = ctx.program(cfg)
        for nd in (1, 2, 3):
            for fm in FORMATS:
                if cfg == 'mpi' and fm[0] != 'seren_unform':
                    continue
                F = Fmt(ctx, p, cfg, nd, fm)
                if F.toks is None:
                    continue
                n += 1
                F.check_writer()
                F.check_table()
                F.check_roundtrip(widths=fm[0] != 'seren_lite')
                F.check_header()
        if cfg == 'serial':
            dispatch(ctx, p)
            restart_file(ctx, p)
    ctx.floor('snapshot writers analysed', n, 6)
