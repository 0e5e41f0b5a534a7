"""Small queries shared by the checks."""
from facts import walk, find


def strip(e):
    """drop conversions: explicit/implicit casts and one-argument constructions"""
    while e:
        if e[0] == 'ctor' and len(e[4]) == 1:
            e = e[4][0]
        elif e[0] == 'cast':
            e = e[4]
        else:
            break
    return e


def strval(e):
    e = strip(e)
    return e[2] if e and e[0] == 'str' else None


def shorttype(t):
    return t.replace('std::basic_string<char, std::char_traits<char>, std::allocator<char>>', 'string')


_alias = {}


def aliases(fn):
    """local reference variables bound once, at their declaration: id -> bound expression"""
    a = _alias.get(fn.m)
    if a is None:
        a = {}
        for d in find(fn.body, 'decl'):
            for vid, init, _ in d[2]:
                t = fn.locals[vid][1]
                if init is not None and (t.endswith('&') or t.endswith('*const')):
                    a[vid] = init
        _alias[fn.m] = a
    return a


def root_field(fn, e, depth=0):
    """the field an lvalue chain resolves to, through local references: 'Parameters::intparams'"""
    e = strip(e)
    while e is not None and depth < 20:
        depth += 1
        if e[0] == 'mem':
            return e[3]
        if e[0] == 'un' and e[2] in ('*', '&'):
            e = strip(e[3])
            continue
        if e[0] == 'var':
            a = aliases(fn)
            if e[2] in a:
                e = strip(a[e[2]])
                continue
            return None
        return None
    return None


def is_exit_call(n):
    """calls that do not return"""
    return n[0] == 'call' and (n[2] in ('ExceptionHandler::raise', 'exit', 'abort', '_exit', '__assert_fail', 'std::terminate', 'std::abort', 'std::exit'))


def src_functions(p, one=True):
    fs = [f for f in p.fns.values() if f.file.startswith('src/')]
    return p.one_per_pattern(fs) if one else fs


def callees(p, f):
    """functions with a body here that f may call: direct callees, virtual calls resolved to every override"""
    out = {}
    for n in find(f.body, 'call', 'ctor'):
        m = n[3]
        for g in targets(p, n):
            out[g.m] = g
    for what, init, _ in f.inits:
        for n in find(init, 'call', 'ctor'):
            for g in targets(p, n):
                out[g.m] = g
    return list(out.values())


def targets(p, n):
    """bodies a call/ctor node may enter"""
    if n[0] == 'ctor':
        g = p.fns.get(n[3])
        return [g] if g else []
    m = n[3]
    res = []
    g = p.fns.get(m)
    if g:
        res.append(g)
    if n[6]:
        res += overriders(p, m)
    return res


_over = {}


def overriders(p, m):
    key = id(p)
    if key not in _over:
        d = {}
        for f in p.fns.values():
            for o in f.h['over']:
                d.setdefault(o, []).append(f)
        _over[key] = d
    out, todo, seen = [], [m], set()
    while todo:
        x = todo.pop()
        for f in _over[key].get(x, []):
            if f.m not in seen:
                seen.add(f.m)
                out.append(f)
                todo.append(f.m)
    return out


def reachable(p, roots):
    seen = {f.m: f for f in roots}
    todo = list(roots)
    while todo:
        f = todo.pop()
        for g in callees(p, f):
            if g.m not in seen:
                seen[g.m] = g
                todo.append(g)
    return list(seen.values())
