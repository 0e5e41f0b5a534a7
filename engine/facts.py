"""Runs the extractor over /repo's current sources and loads the resulting facts.

Every run hashes all of /repo/src (and the extractor); the extraction is redone whenever that hash is
not the one of an extraction made earlier in this same sandbox.  Nothing but the sources is read.
"""
import glob, hashlib, json, os, re, subprocess, sys, time, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('GANDALF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
GX = os.path.join(BUILD, 'gx')
BASEFLAGS = ['-std=c++14', '-w', '-ferror-limit=0', '-DGANDALF_DOUBLE_PRECISION', '-DGANDALF_GSL', '-DDEBUG1']
MPI_INC = ['/usr/lib/x86_64-linux-gnu/openmpi/include', '/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi']


class AnalysisError(Exception):
    """The analysis cannot run: anchors vanished, the sources do not parse, the tool does not build."""


def build_extractor():
    src = os.path.join(VERIF, 'extract', 'gx.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()
    stamp = GX + '.stamp'
    if os.path.exists(GX) and os.path.exists(stamp) and open(stamp).read() == h:
        return
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(GX) and os.path.exists(stamp) and open(stamp).read() == h:
            return
        tmp = GX + '.%d.tmp' % os.getpid()
        L = '/usr/lib/llvm-18'
        cmd = ['clang++', '-O1', '-std=c++17', '-fno-rtti', '-I%s/include' % L, '-D_GNU_SOURCE',
               '-D__STDC_CONSTANT_MACROS', '-D__STDC_FORMAT_MACROS', '-D__STDC_LIMIT_MACROS', src, '-o', tmp,
               '-Wl,-rpath,%s/lib' % L, '-L%s/lib' % L, '-l:libclang-cpp.so.18.1', '-lLLVM-18']
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise AnalysisError('extractor does not build:\n' + r.stderr[-3000:])
        os.rename(tmp, GX)
        open(stamp, 'w').write(h)


def source_files():
    fs = []
    for pat in ('*.cpp', '*.h', '*.hpp', '*.cxx'):
        fs += glob.glob(os.path.join(REPO, 'src', '*', pat))
    return sorted(fs)


def source_hash(extra=()):
    H = hashlib.sha256()
    for f in source_files() + [os.path.join(REPO, 'src', 'Makefile'), os.path.join(REPO, 'Makefile'), os.path.join(VERIF, 'extract', 'gx.cpp')]:
        H.update(f.encode())
        try:
            H.update(open(f, 'rb').read())
        except OSError:
            pass
    for e in extra:
        H.update(str(e).encode())
    return H.hexdigest()[:24]


def units(config):
    """The translation units of the build: what the Makefile would compile, else every .cpp below src/."""
    env = dict(os.environ, PWD=REPO, PATH='/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin')
    out = ''
    try:
        args = ['make', '-n', '-B', 'all', 'OPENMP=0', 'GSL=1', 'COMPILER_MODE=STANDARD', 'CPP=g++', 'PYTHON=']
        r = subprocess.run(args, cwd=REPO, env=env, capture_output=True, text=True, timeout=120)
        out = r.stdout
    except Exception:
        pass
    got = set()
    for m in re.finditer(r'(?:^|\s)(\S+\.cpp)(?=\s|$)', out):
        p = m.group(1)
        if not p.startswith('/'):
            p = os.path.join(REPO, 'src', p)
        if os.path.exists(p):
            got.add(os.path.realpath(p))
    every = set(os.path.realpath(f) for f in glob.glob(os.path.join(REPO, 'src', '*', '*.cpp')))
    if len(got) < 60:
        got = every - {os.path.join(REPO, 'src', 'Ic', 'KhiIc.cpp')}
    got = {g for g in got if '/UnitTesting/' not in g and 'SphSim_wrap' not in g}
    if config == 'mpi':
        got |= {f for f in every if '/Mpi/' in f}
    else:
        got = {f for f in got if '/Mpi/' not in f}
    return sorted(got)


def extract(config='serial'):
    build_extractor()
    h = source_hash((config,))
    cache = os.path.join(BUILD, 'facts', config + '-' + h)
    done = os.path.join(cache, 'done')
    if os.path.exists(done):
        return cache
    os.makedirs(os.path.join(BUILD, 'facts'), exist_ok=True)
    with open(os.path.join(BUILD, 'facts', 'lock-' + config), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(done):
            return cache
        # keep only the current facts of this configuration
        for old in glob.glob(os.path.join(BUILD, 'facts', config + '-*')):
            if old != cache:
                for f in glob.glob(os.path.join(old, '*')):
                    os.unlink(f)
                os.rmdir(old)
        os.makedirs(cache, exist_ok=True)
        us = units(config)
        flags = list(BASEFLAGS)
        if config == 'mpi':
            flags += ['-DMPI_PARALLEL'] + ['-I' + d for d in MPI_INC]
        if config == 'omp':
            flags += ['-fopenmp', '-Dnone=shared', '-I' + os.path.join(VERIF, 'extract', 'ompstub')]
        flags += ['-I' + os.path.join(REPO, 'src', 'Headers'), '-I' + os.path.join(REPO, 'src')]
        n = min(12, max(4, (os.cpu_count() or 4) * 3 // 2))
        us.sort(key=lambda f: -os.path.getsize(f) - (10**7 if f.endswith('/Simulation.cpp') else 0))
        chunks = [us[i::n] for i in range(n)]
        log = []

        def run(i):
            out = os.path.join(cache, 'part%d' % i)
            r = subprocess.run([GX, out, REPO] + chunks[i] + ['--'] + flags, cwd=REPO, capture_output=True, text=True)
            return r.returncode, r.stderr
        with ThreadPoolExecutor(n) as ex:
            res = list(ex.map(run, range(n)))
        bad = [e for rc, e in res if rc]
        open(os.path.join(cache, 'errors.log'), 'w').write('\n'.join(bad))
        open(os.path.join(cache, 'units'), 'w').write('\n'.join(us))
        open(done, 'w').write('%d %d' % (len(us), len(bad)))
    return cache


class Fn(object):
    __slots__ = ('h', 'raw', '_b', 'name', 'm', 'cls', 'file', 'line')

    def __init__(self, h, raw):
        self.h = h
        self.raw = raw
        self._b = None
        self.name = h['n']
        self.m = h['m']
        self.cls = h['cls']
        self.file = h['file']
        self.line = h['line']

    def _load(self):
        if self._b is None:
            self._b = json.loads(self.raw)
        return self._b

    body = property(lambda s: s._load()['body'])
    locals = property(lambda s: s._load()['locals'])
    inits = property(lambda s: s._load()['inits'])
    params = property(lambda s: s.h['params'])

    def where(self, line=None):
        return '%s:%d' % (self.file, line or self.line)

    def label(self):
        t = self.h['ct'] + self.h['ft']
        return self.name + ('<' + ','.join(t) + '>' if t else '')

    def ndim(self):
        for t in self.h['ct'] + self.h['ft']:
            if t.isdigit():
                return int(t)
        return None


class Program(object):
    def __init__(self, config='serial'):
        t0 = time.time()
        self.config = config
        self.cache = extract(config)
        self.fns = {}
        self.records = {}
        self.rectypes = {}
        self.globals = {}
        self.units = []
        self.bad_units = []
        for p in sorted(glob.glob(os.path.join(self.cache, 'part*'))):
            with open(p, encoding='utf-8') as f:
                for ln in f:
                    k = ln[0]
                    if k == 'F':
                        _, m, h, b = ln.split('\t', 3)
                        if m not in self.fns:
                            self.fns[m] = Fn(json.loads(h), b)
                    elif k == 'R':
                        _, t, j = ln.split('\t', 2)
                        if t not in self.rectypes:
                            r = json.loads(j)
                            self.rectypes[t] = r
                            self.records.setdefault(r['n'], []).append(r)
                    elif k == 'G':
                        _, t, j = ln.split('\t', 2)
                        self.globals.setdefault(t, json.loads(j))
                    elif k == 'U':
                        self.units.append(ln[2:].strip())
                    elif k == 'E':
                        self.bad_units.append(ln[2:].strip())
        self.byname = {}
        for f in self.fns.values():
            self.byname.setdefault(f.name, []).append(f)
        self.load_s = time.time() - t0
        if not self.units or (self.bad_units and config == 'serial'):
            raise AnalysisError('sources do not parse: %s' % (self.bad_units or 'no unit'))

    # ---- queries -------------------------------------------------------------------------------
    def named(self, qn, ndim=None):
        fs = self.byname.get(qn, [])
        if ndim is not None:
            g = [f for f in fs if f.ndim() in (None, ndim)]
            return g
        return fs

    def one_per_pattern(self, fs, prefer=(3,)):
        """one instantiation per source pattern (file,line,name)"""
        best = {}
        for f in fs:
            k = (f.file, f.line, f.name)
            sc = (0 if f.ndim() in prefer else 1, ','.join(f.h['ct'] + f.h['ft']))
            if k not in best or sc < best[k][0]:
                best[k] = (sc, f)
        return [v[1] for k, v in sorted(best.items())]

    def bases(self, cls):
        """transitive base class names of a class (by template name)"""
        out, todo = set(), [cls]
        while todo:
            c = todo.pop()
            for r in self.records.get(c, []):
                for b, _ in r['bases']:
                    if b not in out:
                        out.add(b)
                        todo.append(b)
        return out

    def derived(self, cls):
        return {c for c in self.records if cls in self.bases(c)}

    def field_type(self, qual):
        cls, f = qual.rsplit('::', 1)
        for r in self.records.get(cls, []):
            for n, t, *_ in r['fields']:
                if n == f:
                    return t
        return None


# ---- tree helpers ----------------------------------------------------------------------------------
def walk(n):
    """all nodes (lists whose first item is a str kind) below n, preorder"""
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, list):
            if x and isinstance(x[0], str) and len(x) > 1 and isinstance(x[1], int) and not isinstance(x[1], bool):
                yield x
            for c in reversed(x):
                if isinstance(c, list):
                    st.append(c)


def find(n, *kinds):
    for x in walk(n):
        if x[0] in kinds:
            yield x


if __name__ == '__main__':
    t = time.time()
    c = sys.argv[1] if len(sys.argv) > 1 else 'serial'
    p = Program(c)
    print(p.cache, len(p.units), 'units', p.bad_units, len(p.fns), 'functions', len(p.rectypes), 'records', round(time.time() - t, 1), 's')
