"""Parameter registry: consulted keys are registered, with the type they are consulted as."""
import facts
from facts import find, walk
from util import *

MAPS = {'Parameters::intparams': 'int', 'Parameters::floatparams': 'float', 'Parameters::stringparams': 'string'}
VT = {', int,': 'int', ', double,': 'float', ', float,': 'float'}


def kind(fn, obj):
    rf = root_field(fn, obj)
    if rf in MAPS:
        return MAPS[rf]
    if rf is not None:
        return None
    o = strip(obj)
    # a map handed in as a parameter, or kept elsewhere: by its value type
    t = None
    if o and o[0] == 'var':
        t = fn.locals[o[2]][1]
    elif o and o[0] == 'call':
        t = o[7]
    if t and t.startswith(('std::map<std::basic_string', 'const std::map<std::basic_string')):
        s = shorttype(t)
        for pre in ('std::map<string, ', 'const std::map<string, '):
            if s.startswith(pre):
                v = s[len(pre):].split(',')[0]
                return {'int': 'int', 'double': 'float', 'float': 'float', 'string': 'string'}.get(v)
    return None


def key_calls(fn):
    for n in find([fn.body, [i[1] for i in fn.inits]], 'call'):
        if n[2] in ('std::map::operator[]', 'std::map::at', 'std::map::find', 'std::map::count') and n[4]:
            k = kind(fn, n[5])
            if k:
                yield n, k, strval(n[4][0])


def registry(p, ctx):
    sd = p.named('Parameters::SetDefaultValues')
    if not sd:
        ctx.broken('Parameters::SetDefaultValues not found')
    reg, soft = {}, set()
    # everything SetDefaultValues executes within the class (helpers included)
    fs = [f for f in reachable(p, sd) if f.file.startswith('src/')]
    for f in fs:
        dyn = False
        for n, k, key in key_calls(f):
            if key is None:
                dyn = True
            else:
                reg.setdefault(key, set()).add(k)
        # table-driven registration: literals of the function and of the constants it uses count
        if dyn and f not in ():
            for s in find(f.body, 'str'):
                soft.add(s[2])
            for g in find(f.body, 'gvar'):
                gv = p.globals.get(g[2])
                if gv:
                    soft.update(s[2] for s in find(gv['init'], 'str'))
    return reg, soft


def run(ctx):
    p = ctx.program()
    ctx.rule('Rule: every string literal used to index one of the three parameter maps (directly, through a local reference, or through a map handed to a function) outside the registry must be a key that Parameters::SetDefaultValues registers in the map of the same type; a registered key belongs to one map only; a value taken from parameter A is not stored into a field, or passed to a function parameter, that carries the name of a different registered parameter; a real-valued parameter is not truncated to an integer.')
    reg, soft = registry(p, ctx)
    nreg = len(reg)
    ctx.floor('registered parameters', nreg + len(soft), 250)
    for k, ts in sorted(reg.items()):
        if len(ts) > 1:
            ctx.bad('one-type', 'src/Common/Parameters.cpp', k, 'parameter "%s" is registered in more than one map (%s): a value in the parameters file reaches only the first' % (k, ', '.join(sorted(ts))))
        else:
            ctx.ok('one-type', 'Parameters::SetDefaultValues', k)
    names = set(reg) | soft
    nsites = 0
    for f in src_functions(p):
        if f.cls == 'Parameters':
            continue
        for n, k, key in key_calls(f):
            if key is None:
                ctx.count('non-literal keys')
                continue
            nsites += 1
            w = f.where(n[1])
            if key in soft or k in reg.get(key, ()):
                ctx.ok('registered', w, '%s["%s"] in %s' % (k, key, f.name))
            elif key in reg:
                ctx.bad('registered', w, '%s|%s|%s' % (f.name, k, key), '%s consults "%s" as a %s parameter but it is registered as %s: the value given by the user is never seen' % (f.name, key, k, '/'.join(sorted(reg[key]))))
            else:
                ctx.bad('registered', w, '%s|%s|%s' % (f.name, k, key), '%s consults %s parameter "%s", which is not registered: it silently reads as zero/empty and cannot be set from a parameters file' % (f.name, k, key))
        flows(ctx, p, f, names)
    ctx.floor('parameter consultations', nsites, 900)


def pkey(fn, e, depth=0):
    """the parameter an expression is a plain copy of: (kind, key) or None"""
    e = strip(e)
    if e is None:
        return None
    if e[0] == 'call' and e[2] in ('std::map::operator[]', 'std::map::at') and e[4]:
        k = kind(fn, e[5])
        key = strval(e[4][0])
        if k and key:
            return k, key
    return None


def truncs(fn):
    for c in find(fn.body, 'cast'):
        if c[2] == 'f2i':
            k = pkey(fn, c[4])
            if k:
                yield c, k


def flows(ctx, p, f, names):
    for c, k in truncs(f):
        ctx.bad('no-truncation', f.where(c[1]), '%s|%s' % (f.name, k[1]), '%s truncates the real-valued parameter "%s" to an integer' % (f.name, k[1]))

    def one(dst, e, line, what):
        k = pkey(f, e)
        if not k:
            return
        if dst in names and dst != k[1]:
            ctx.bad('right-name', f.where(line), '%s|%s|%s' % (f.name, dst, k[1]), '%s stores parameter "%s" in %s "%s", which is the name of a different parameter' % (f.name, k[1], what, dst))
        elif dst == k[1]:
            ctx.ok('right-name', f.where(line), '%s <- "%s"' % (dst, k[1]))
    for a in find(f.body, 'asg'):
        if a[2] != '=':
            continue
        l = strip(a[3])
        if l[0] == 'mem':
            one(l[3].split('::')[-1], a[4], a[1], 'field')
        elif l[0] == 'var':
            one(f.locals[l[2]][0], a[4], a[1], 'variable')
    for d in find(f.body, 'decl'):
        for vid, init, _ in d[2]:
            if init is not None:
                one(f.locals[vid][0], init, d[1], 'variable')
    for n in find(f.body, 'call', 'ctor'):
        g = p.fns.get(n[3])
        if not g:
            continue
        for pid, a in zip(g.params, n[4]):
            one(g.locals[pid][0], a, n[1], 'argument of %s' % g.name)
    for what, e, _ in f.inits:
        if what:
            one(what.split('::')[-1], e, f.line, 'field')
