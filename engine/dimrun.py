"""Run the dimension inference over the program."""
import time
import facts
from dims import Dims, load_table, show, TOP
from absint import Interp, Giveup
from util import src_functions


def analyse(p, nd, files=None, maxdepth=3, table=None, progress=None, classes=None):
    """interpret every function pattern as a root; returns (reports, stats, fielddefs)"""
    table = table or load_table()
    reports = {}
    stats = {'functions': 0, 'gaveup': 0, 'checks': 0, 'unknown': 0}

    def report(rule, fn, line, msg, I):
        k = (rule, fn.name, fn.file, line, msg)
        if k not in reports:
            reports[k] = ' <- '.join(f.name for f in reversed(I.fnstack[:-1]))
    defs = {}
    D = Dims(p, nd, report, table)
    fs = [f for f in p.fns.values() if f.file.startswith('src/') and f.ndim() in (None, nd)]
    fs = p.one_per_pattern(fs, prefer=(nd,))
    seen_sites = set()
    for f in fs:
        if files and not files(f):
            continue
        I = Interp(p, D, maxdepth=maxdepth, prefer_targ='M4Kernel')
        t = time.time()
        try:
            I.run_root(f)
        except Giveup:
            stats['gaveup'] += 1
        stats['functions'] += 1
        if progress:
            progress(f, time.time() - t, I.steps)
    stats['checks'] = D.nchecks
    stats['unknown'] = D.nunknown
    return reports, stats, D


if __name__ == '__main__':
    import sys, re
    p = facts.Program()
    nd = int(sys.argv[2]) if len(sys.argv) > 2 else 3
    pat = re.compile(sys.argv[1] if len(sys.argv) > 1 else '.')
    slow = []
    t0 = time.time()
    depth = int(sys.argv[3]) if len(sys.argv) > 3 else 3
    r, s, D = analyse(p, nd, lambda f: pat.search(f.file + ' ' + f.name), maxdepth=depth, progress=lambda f, t, n: slow.append((t, n, f.name)))
    for k, v in sorted(r.items(), key=lambda x: (x[0][2], x[0][3])):
        print('%s:%d %s: %s [%s]%s' % (k[2], k[3], k[1], k[4], k[0], '   via ' + v if v else ''))
    print(s, round(time.time() - t0, 1))
    for x in sorted(slow, reverse=True)[:5]:
        print(x)
    if len(sys.argv) > 4:
        for f, d in sorted(D.fielddef.items()):
            print(f, {show(k): len(v) for k, v in d.items()})
