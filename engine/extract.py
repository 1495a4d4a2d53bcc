"""Mechanical extraction of the real code: compiles /repo's current sources to LLVM IR and loads the IR dump."""
import os, subprocess, json, hashlib, sys, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LLVM = '/usr/lib/llvm-18/bin'
INCDIRS = ['utility', 'Geometry', 'Data', 'Circuit/data', 'Circuit/models/ideal', 'Circuit/models/sources', 'Equation', 'math',
           'errorSystem', 'MathEval', 'common_api', 'models', 'GeomModels', 'meshing', 'AutoEquation', 'adiff', 'commands', 'pythonapi']
DEFS = ['-DNDEBUG', '-DDEVSIM_COPYRIGHT_YEAR="2009-2026"', '-DDEVSIM_EXTENDED_PRECISION', '-DDEVSIM_VERSION_STRING="2.10.1"',
        '-DLOAD_MATHLIBS', '-DUSE_BLAS', '-DUSE_ITERATIVE_SOLVER', '-DUSE_LAPACK', '-DUSE_MKL_PARDISO']


class ExtractError(Exception):
    pass


def tool():
    """irdump binary (built by setup; rebuilt here when missing)"""
    exe = os.path.join(VERIF, 'build', 'irdump')
    src = os.path.join(VERIF, 'tool', 'irdump.cpp')
    if not os.path.exists(exe) or os.path.getmtime(exe) < os.path.getmtime(src):
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        fl = subprocess.run([LLVM + '/llvm-config', '--cxxflags'], capture_output=True, text=True, check=True).stdout.split()
        ld = subprocess.run([LLVM + '/llvm-config', '--ldflags', '--libs'], capture_output=True, text=True, check=True).stdout.split()
        tmp = exe + '.%d' % os.getpid()
        r = subprocess.run(['clang++-18', '-O1', '-w'] + fl + [src, '-o', tmp] + ld, capture_output=True, text=True)
        if r.returncode:
            raise ExtractError('irdump build failed: ' + r.stderr[-2000:])
        os.replace(tmp, exe)
    return exe


def includes():
    return ['-I%s/src/%s' % (REPO, d) for d in INCDIRS]


def compile_one(rel, workdir, extra=()):
    src = rel if rel.startswith('/') else os.path.join(REPO, 'src', rel)
    tag = rel.replace('/', '_').strip('_')
    cache = os.path.join(VERIF, 'build', 'cache', treehash() + '_' + tag + hashlib.sha1(' '.join(extra).encode()).hexdigest()[:6] + '.json')
    if os.path.exists(cache):
        with open(cache) as f:
            return rel, json.load(f)
    bc, bc2, js = [os.path.join(workdir, tag + e) for e in ('.bc', '.opt.bc', '.json')]
    cmd = ['clang++-18', '-std=gnu++17', '-O0', '-Xclang', '-disable-O0-optnone', '-g', '-fstandalone-debug', '-fno-discard-value-names',
           '-w', '-fPIC'] + DEFS + includes() + ['-I/usr/include/python3.12', '-idirafter', '/usr/lib/gcc/x86_64-linux-gnu/13/include'] + \
          list(extra) + ['-emit-llvm', '-c', src, '-o', bc]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise ExtractError('clang failed on %s:\n%s' % (rel, r.stderr[-3000:]))
    r = subprocess.run(['opt-18', '-passes=function(sroa,simplifycfg,loop-simplify)', bc, '-o', bc2], capture_output=True, text=True)
    if r.returncode:
        raise ExtractError('opt failed on %s: %s' % (rel, r.stderr[-2000:]))
    pre = VERIF + '/' if rel.startswith(VERIF) else REPO + '/src'
    r = subprocess.run([tool(), bc2, js, pre], capture_output=True, text=True)
    if r.returncode:
        raise ExtractError('irdump failed on %s: %s' % (rel, r.stderr[-2000:]))
    with open(js) as f:
        d = json.load(f)
    for p in (bc, bc2):
        os.unlink(p)
    os.makedirs(os.path.dirname(cache), exist_ok=True)
    shutil.copy(js, cache + '.%d' % os.getpid())
    os.replace(cache + '.%d' % os.getpid(), cache)
    os.unlink(js)
    return rel, d


_th = []


def treehash():
    """content hash of everything an extraction depends on"""
    if not _th:
        h = hashlib.sha256()
        for root in (os.path.join(REPO, 'src'), os.path.join(VERIF, 'tool')):
            for d, ds, fs in sorted(os.walk(root)):
                ds.sort()
                for f in sorted(fs):
                    if f.endswith(('.cc', '.hh', '.h', '.cpp', '.c', '.inc', '.hpp')):
                        h.update(os.path.join(d, f).encode())
                        with open(os.path.join(d, f), 'rb') as g:
                            h.update(g.read())
        h.update(' '.join(DEFS + includes()).encode())
        with open(os.path.abspath(__file__), 'rb') as g:
            h.update(g.read())
        _th.append(h.hexdigest()[:20])
        # keep the cache small
        cd = os.path.join(VERIF, 'build', 'cache')
        if os.path.isdir(cd):
            old = sorted((os.path.join(cd, f) for f in os.listdir(cd) if not f.startswith(_th[0])), key=os.path.getmtime)
            for f in old[:-150]:
                try:
                    os.unlink(f)
                except OSError:
                    pass
    return _th[0]


def precompile(files):
    """compile all files in parallel into the cache; failures surface when the program using the file is loaded"""
    tool()
    work = tempfile.mkdtemp(prefix='vcx_')

    def go(r):
        try:
            compile_one(r, work)
        except (ExtractError, OSError, ValueError):
            pass
    try:
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(go, sorted(set(files))))
    finally:
        shutil.rmtree(work, ignore_errors=True)


_srcs = []


def sources():
    if not _srcs:
        for d, ds, fs in sorted(os.walk(os.path.join(REPO, 'src'))):
            for f in sorted(fs):
                if f.endswith('.cc') and 'test' not in f.lower() and '/test' not in d:
                    _srcs.append(os.path.relpath(os.path.join(d, f), os.path.join(REPO, 'src')))
    return _srcs


def defining(sn):
    """source files that may define the function with stripped name sn"""
    import re
    parts = sn.split('::')
    out = []
    if len(parts) > 1:
        out = [f for f in sources() if os.path.basename(f)[:-3] == parts[-2]]
    pat = re.compile((r'\b%s\s*(<[^<>()]*>)?\s*::\s*' % re.escape(parts[-2]) if len(parts) > 1 else r'\b') + re.escape(parts[-1]) + r'\s*\(')
    for f in sources():
        if f not in out:
            try:
                if pat.search(open(os.path.join(REPO, 'src', f), errors='replace').read()):
                    out.append(f)
            except OSError:
                pass
    return out[:4]


class Program:
    """all extracted modules"""

    def __init__(self, files, extra=()):
        self.files = list(files)
        self.work = tempfile.mkdtemp(prefix='vcx_')
        try:
            tool()
            with ThreadPoolExecutor(8) as ex:
                res = list(ex.map(lambda r: compile_one(r, self.work, extra), self.files))
        finally:
            shutil.rmtree(self.work, ignore_errors=True)
        self.modules = {}
        self.funcs = {}
        self.classes = {}
        self.globals = {}
        self.tried = set(self.files)
        self.add(dict(res))

    def autoload(self, sn):
        """load the source file that defines a function which is called but not extracted yet"""
        done = False
        for f in defining(sn):
            if f in self.tried:
                continue
            self.tried.add(f)
            work = tempfile.mkdtemp(prefix='vcx_')
            try:
                r = compile_one(f, work)
            except ExtractError:
                continue
            finally:
                shutil.rmtree(work, ignore_errors=True)
            self.add({f: r[1]})
            done = True
            break
        return done

    def add(self, mods):
        self.modules.update(mods)
        for rel, m in mods.items():
            for n, f in m['functions'].items():
                f['mod'] = rel
                f['name'] = n
                if n not in self.funcs:
                    self.funcs[n] = f
            for n, c in m['classes'].items():
                if n not in self.classes:
                    self.classes[n] = c
            for n, g in m['globals'].items():
                if n not in self.globals or 'init' not in self.globals[n]:
                    self.globals[n] = g

    def find(self, sub, exact=False):
        r = [f for f in self.funcs.values() if (f['dn'] == sub if exact else sub in f['dn'])]
        return r
