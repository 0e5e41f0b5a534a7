"""Run one function per item in forked workers (terms live in per-process tables; only strings come back)."""
import os
import sys
from concurrent.futures import ProcessPoolExecutor
import multiprocessing as mp

_ctx = _items = _fn = None


class Sub(object):
    """collects what one worker finds"""

    def __init__(self, parent):
        self.obl, self.viol, self.counts, self.notes = [], [], {}, []
        self._p = parent._p
        self.tier, self.seed, self.thorough = parent.tier, parent.seed, parent.thorough
        self._parent = parent

    def program(self, config='serial'):
        return self._parent.program(config)

    def ok(self, rule, where, text=''):
        self.obl.append((rule, where, text))

    def bad(self, rule, where, construct, message):
        self.viol.append((rule, where, construct, message))

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def rule(self, text):
        pass


def _work(i):
    sys.setrecursionlimit(20000)
    s = Sub(_ctx)
    r, err = None, None
    try:
        r = _fn(s, _items[i])
    except Exception as e:
        err = repr(e)[:300]
        if os.environ.get('VDBG'):
            import traceback
            traceback.print_exc()
    return s.obl, s.viol, s.counts, s.notes, r, err


def pmap(ctx, items, fn, procs=None):
    """fn(subctx, item) -> plain value; results in the order of items; an item whose analysis fails is counted, not reported"""
    global _ctx, _items, _fn
    _ctx, _items, _fn = ctx, list(items), fn
    if not _items:
        return []
    n = procs or min(8, os.cpu_count() or 2, len(_items))
    if os.environ.get('VSERIAL'):
        out = [_work(i) for i in range(len(_items))]
    else:
        with ProcessPoolExecutor(n, mp_context=mp.get_context('fork')) as ex:
            out = list(ex.map(_work, range(len(_items))))
    rs = []
    for obl, viol, counts, notes, r, err in out:
        ctx.obl += obl
        for v in viol:
            ctx.bad(*v)
        for k, v in counts.items():
            ctx.count(k, v)
        ctx.notes += notes
        if err:
            ctx.count('items whose analysis failed')
            ctx.notes.append(err)
        rs.append(r)
    return rs
