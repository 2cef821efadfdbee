"""Program database: extraction of /repo's translation units into merged facts."""
import json, os, subprocess, sys, glob, fcntl, hashlib, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('EXS_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
TOOL = os.path.join(BUILD, 'exs-extract')


class Broken(Exception):
    """analysis-broken: an anchor vanished or the sources cannot be analysed (exit 2)."""


def build_tool():
    src = os.path.join(VERIF, 'tool', 'extract.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()
    stamp = TOOL + '.sha'
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(TOOL) and os.path.exists(stamp) and open(stamp).read() == h:
            return
        r = subprocess.run(['clang++', '-O1', '-std=c++17', '-fno-rtti', '-I/usr/lib/llvm-18/include', src, '-o', TOOL,
                            '-L/usr/lib/llvm-18/lib', '-l:libclang-cpp.so.18.1', '-lLLVM-18'], capture_output=True, text=True)
        if r.returncode:
            raise Broken('cannot build the extractor:\n' + r.stderr[-3000:])
        open(stamp, 'w').write(h)


def flags(lang):
    mpi = subprocess.run(['mpicc', '--showme:compile'], capture_output=True, text=True).stdout.split()
    res = subprocess.run(['clang', '-print-resource-dir'], capture_output=True, text=True).stdout.strip()
    f = ['-resource-dir', res, '-I' + REPO + '/include', '-I' + REPO + '/src', '-I' + REPO + '/util', '-DEXSEISDAT_MPIIO_COLLECTIVES', '-w'] + mpi
    if lang == 'c':
        return ['-x', 'c', '-std=gnu11'] + f
    inc = []
    for i in ('cassert', 'cmath', 'cstddef', 'cstring', 'limits'):
        inc += ['-include', i]
    return ['-x', 'c++', '-std=gnu++14'] + inc + f


GROUPS = {
    'lib': ['src/**/*.cc', 'src/*.cc', 'src/**/*.c'],
    'util': ['util/*.cc', 'util/*.c'],
    'examples': ['examples/*.cc', 'examples/*.c'],
}


def units(groups):
    out = []
    for g in groups:
        for p in GROUPS[g]:
            out += glob.glob(os.path.join(REPO, p), recursive=True)
    if 'lib' in groups:
        out.append(os.path.join(VERIF, 'an', 'instantiate.cc'))
    return sorted(set(out))


class DB:
    def __init__(self, groups=('lib',), ndebug=True):
        build_tool()
        self.groups = groups
        us = units(groups)
        if not us:
            raise Broken('no sources under ' + REPO)
        tmp = tempfile.mkdtemp(prefix='exsan.')
        fl = {'c': flags('c'), 'cc': flags('cc')}

        def one(iu):
            i, u = iu
            out = os.path.join(tmp, '%d.json' % i)
            f = fl['c' if u.endswith('.c') else 'cc']
            r = subprocess.run([TOOL, out, REPO + ':' + os.path.join(VERIF, 'an', 'instantiate.cc'), u, '--'] + f + (['-DNDEBUG'] if ndebug else []),
                               capture_output=True, text=True)
            if r.returncode or not os.path.exists(out):
                return u, None, r.stderr
            return u, json.load(open(out)), r.stderr
        try:
            with ThreadPoolExecutor(8) as ex:
                res = list(ex.map(one, enumerate(us)))
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        bad = [(u, e) for u, d, e in res if d is None or d['errors']]
        if bad:
            raise Broken('cannot parse ' + ', '.join(u for u, _ in bad) + '\n' + bad[0][1][-2000:])
        self.units = [u for u, _, _ in res]
        self.fns, self.byusr, self.recs, self.enums, self.globals, self.protos = [], {}, {}, {}, {}, {}
        self.byq = {}
        self.lam, self.lamu = {}, {}
        seen = {}
        for ui, (u, d, _) in enumerate(res):
            base = (ui + 1) * 1000000
            remap_ids(d, base)
            for f in d['fns']:
                f['unit'] = u
                key = f['usr']
                if f.get('lambda'):
                    f['fkey'] = ('lam', f['lambda'], f['usr'])
                    self.lam[f['lambda']] = self.lamu[(f['lambda'], f['usr'])] = f
                    k2 = (f['file'], f['line'], f['fn'], json.dumps(f['pt']), f['usr'])
                    if k2 in seen and seen[k2] != u:
                        continue        # the same lambda seen from another unit: callable, not listed twice
                    seen[k2] = u
                else:
                    k = key
                    if k in self.byusr:
                        if self.byusr[k]['file'] == f['file'] and self.byusr[k]['line'] == f['line']:
                            continue
                        k = key + '@' + u
                        if k in self.byusr:
                            continue
                    f['fkey'] = k
                    self.byusr[k] = f
                self.fns.append(f)
                self.byq.setdefault(f['fn'], []).append(f)
            for r in d['recs']:
                self.recs.setdefault(r['n'], r)
            for r in d['enums']:
                self.enums.setdefault(r['n'], r)
            for r in d['globals']:
                self.globals.setdefault(r['n'], r)
            for r in d['protos']:
                self.protos.setdefault(r['usr'], r)
        self._ov()

    def _ov(self):
        # class hierarchy
        self.derived = {}
        for r in self.recs.values():
            for b in r['bases']:
                self.derived.setdefault(b, set()).add(r['n'])

    def bases(self, c):
        out, st = [], [c]
        while st:
            x = st.pop()
            for b in self.recs.get(x, {}).get('bases', []):
                if b not in out:
                    out.append(b)
                    st.append(b)
        return out

    def rel(self, path):
        return os.path.relpath(path, REPO) if path.startswith(REPO) else path

    def loc(self, f, line=None):
        return '%s:%d' % (self.rel(f['file']), line or f['line'])

    def find(self, q, npar=None, pt=None, need=True):
        c = [f for f in self.byq.get(q, []) if (npar is None or len(f['ps']) == npar) and (pt is None or f['pt'] == pt)]
        if need and not c:
            raise Broken('anchor vanished: no definition of %s%s' % (q, '' if pt is None else str(pt)))
        return c

    def loose(self, usr):
        """a definition whose parameters differ from the declaration in their own constness only"""
        import re
        n = lambda u: re.sub(r'#1(?=.)', '#', u)
        if not hasattr(self, '_loose'):
            self._loose = {}
            for u, f in self.byusr.items():
                self._loose.setdefault(n(u), f)
        return self._loose.get(n(usr))

    def callee(self, call, unit=None):
        """function record with a body for a direct (non virtual-dispatch) callee, or None"""
        u = call.get('usr')
        if not u:
            return None
        if unit and (u + '@' + unit) in self.byusr:
            return self.byusr[u + '@' + unit]
        return self.byusr.get(u)

    def override(self, cls, call):
        """the method that a virtual call resolves to when the dynamic class is cls"""
        c = [cls] + self.bases(cls)
        for k in c:
            for f in self.byq.get(k + '::' + call['nm'], []):
                if [plain(t) for t in f['pt']] == [plain(t) for t in call['pt']]:
                    return f
        return None


def plain(t):
    """parameter type without a const of the parameter itself"""
    if t.endswith('*const'):
        return t[:-5]
    if t.startswith('const ') and not t.endswith(('*', '&')):
        return t[6:]
    return t


def remap_ids(d, base):
    st = [d['fns'], d['recs'], d['globals'], d['protos']]
    while st:
        x = st.pop()
        if isinstance(x, list):
            st.extend(v for v in x if isinstance(v, (dict, list)))
        else:
            for k, v in x.items():
                if k in ('id', 'lambdaop', 'lambda') and isinstance(v, int) and not isinstance(v, bool):
                    x[k] = v + base
                elif isinstance(v, (dict, list)):
                    st.append(v)


def walk(x):
    """all dict nodes below x (pre-order)"""
    st = [x]
    while st:
        y = st.pop()
        if isinstance(y, dict):
            yield y
            st.extend(v for v in reversed(list(y.values())) if isinstance(v, (dict, list)))
        elif isinstance(y, list):
            st.extend(v for v in reversed(y) if isinstance(v, (dict, list)))
