#!/usr/bin/env python3
"""check.py <property-id>: decide one property on /repo's current sources.

exit 0: held (prints KNOWN-FINDING lines for the listed, unrepaired findings)
exit 1: VIOLATION property=<id> replay=<path>   (the report names file, function and construct)
exit 2: the analysis could not be carried out (sources do not parse, an anchor vanished)
"""
import importlib, json, os, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'engine'))
sys.path.insert(0, os.path.join(HERE, 'checks'))
sys.setrecursionlimit(20000)
import facts


class Ctx(object):
    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.obl = []          # (rule, where, text)
        self.viol = []         # (key, where, message)
        self.seen = set()
        self.notes = []
        self.counts = {}
        self.assumptions = []
        self.rules = []
        self._p = {}

    def program(self, config='serial'):
        if config not in self._p:
            self._p[config] = facts.Program(config)
        return self._p[config]

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def rule(self, text):
        self.rules.append(text)

    def ok(self, rule, where, text=''):
        """one discharged obligation"""
        self.obl.append((rule, where, text))

    def bad(self, rule, where, construct, message):
        """one violated obligation; `construct` identifies it independently of line numbers"""
        key = '%s|%s' % (rule, construct)
        if key in self.seen:
            return
        self.seen.add(key)
        self.viol.append((key, where, message))

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def broken(self, msg):
        raise facts.AnalysisError(msg)

    def floor(self, name, got, need):
        """fewer instances than confirmed by hand: the analysis has lost its subject"""
        self.counts['instances: ' + name] = got
        if got < need:
            raise facts.AnalysisError('only %d instances of "%s" found (at least %d expected): analysis has lost its anchors' % (got, name, need))


def known():
    try:
        return json.load(open(os.path.join(HERE, 'known_findings.json')))
    except IOError:
        return []


def main():
    pid = sys.argv[1]
    ctx = Ctx(pid)
    t0 = time.time()
    table = json.load(open(os.path.join(HERE, 'checks', 'table.json')))
    mod = table[pid]
    try:
        m = importlib.import_module(mod.split(':')[0])
        fn = getattr(m, mod.split(':')[1] if ':' in mod else 'run')
        fn(ctx)
    except facts.AnalysisError as e:
        if not ctx.viol:
            print('ANALYSIS-ERROR property=%s %s' % (pid, e))
            return 2
        ctx.notes.append('analysis error after violations: %s' % e)
    except Exception:
        if not ctx.viol:
            traceback.print_exc()
            print('ANALYSIS-ERROR property=%s internal error' % pid)
            return 2
        ctx.notes.append('internal error after violations: ' + traceback.format_exc()[-500:])
    kf = [k for k in known() if k.get('property') == pid and k.get('status') == 'known']
    kmap = {k['key']: k for k in kf}
    fresh = [v for v in ctx.viol if v[0] not in kmap]
    old = [v for v in ctx.viol if v[0] in kmap]
    for key, where, msg in old:
        print('KNOWN-FINDING: property=%s %s: %s' % (pid, where, msg))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    cov = {
        'explanation': ' '.join(ctx.rules) or 'see DESIGN.md',
        'obligations': len(ctx.obl) + len(ctx.viol),
        'discharged': len(ctx.obl),
        'known_findings': len(old),
        'counts': ctx.counts,
        'samples': ['%s [%s] %s' % (w, r, t) for r, w, t in ctx.obl[:: max(1, len(ctx.obl) // 12)]][:14],
        'notes': ctx.notes[:40],
    }
    units = sorted({os.path.relpath(u, facts.REPO) for p in ctx._p.values() for u in p.units})
    cov['translation_units'] = len(units)
    cov['functions_loaded'] = sum(len(p.fns) for p in ctx._p.values())
    ev = {'property': pid, 'tier': ctx.tier if ctx.tier in ('quick', 'thorough') else 'quick', 'seed': ctx.seed, 'level': 'other', 'coverage': cov,
          'assumptions': ctx.assumptions, 'wall_s': round(time.time() - t0, 2), 'violations': len(fresh)}
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
    if fresh:
        os.makedirs(os.path.join(HERE, 'replay'), exist_ok=True)
        rp = os.path.join(HERE, 'replay', pid + '.txt')
        with open(rp, 'w') as f:
            for key, where, msg in fresh:
                f.write('%s\n  %s\n  key: %s\n' % (where, msg, key))
        for key, where, msg in fresh[:40]:
            print('  %s: %s' % (where, msg))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    print('OK property=%s obligations=%d known=%d wall=%.1fs' % (pid, len(ctx.obl), len(old), time.time() - t0))
    return 0


if __name__ == '__main__':
    sys.exit(main())
