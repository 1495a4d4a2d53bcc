"""Builds the real code of /repo natively and runs the concrete search/replay harnesses against it."""
import os, subprocess, hashlib, fcntl, shutil, json, glob, time
from extract import REPO, VERIF, DEFS, includes, treehash

DIRS = ['utility', 'Geometry', 'Data', 'Circuit/data', 'Circuit/models/ideal', 'Circuit/models/sources', 'Equation', 'math', 'errorSystem',
        'MathEval', 'models', 'GeomModels', 'adiff']


class NativeError(Exception):
    pass


def flags():
    return ['-std=gnu++17', '-w', '-fPIC'] + DEFS + includes() + ['-I/usr/include/python3.12']


def root():
    return os.path.join(VERIF, 'build', 'native', treehash())


def build_lib():
    """static archive of the real sources (content addressed by the tree)"""
    d = root()
    lib = os.path.join(d, 'libreal.a')
    if os.path.exists(lib):
        return lib
    os.makedirs(d, exist_ok=True)
    with open(d + '.lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(lib):
            return lib
        base = os.path.dirname(d)
        for o in sorted((x for x in glob.glob(base + '/*') if os.path.isdir(x) and x != d), key=os.path.getmtime)[:-2]:
            shutil.rmtree(o, ignore_errors=True)
        srcs = []
        for q in DIRS:
            for f in sorted(glob.glob('%s/src/%s/*.cc' % (REPO, q))):
                if 'test' in os.path.basename(f).lower():
                    continue
                srcs.append(f)
        extra = ['%s/src/meshing/%s' % (REPO, f) for f in os.listdir('%s/src/meshing' % REPO) if f.endswith('.cc')]
        srcs += sorted(extra)
        srcs += ['%s/src/pythonapi/%s.cc' % (REPO, x) for x in ('ObjectHolder', 'ControlGIL', 'Interpreter', 'ZlibCompress')]
        srcs += ['%s/src/AutoEquation/%s.cc' % (REPO, x) for x in ('ExprEquation', 'ExprContactEquation', 'InterfaceExprEquation')]
        srcs = [x for x in srcs if os.path.exists(x)]
        mk = os.path.join(d, 'build.ninja')
        with open(mk, 'w') as f:
            f.write('rule cc\n  command = g++ -O1 %s -c $in -o $out\n' % ' '.join("'%s'" % x if '"' in x else x for x in flags()))
            f.write('rule fc\n  command = gfortran -O1 -freal-8-real-16 -ffixed-line-length-0 -std=legacy -w -fPIC -c $in -o $out\n')
            f.write('rule ar\n  command = rm -f $out && ar rcs $out $in\n')
            objs = []
            for s in srcs:
                o = s[len(REPO) + 5:].replace('/', '_') + '.o'
                objs.append(o)
                f.write('build %s: cc %s\n' % (o, s))
            for s in sorted(glob.glob(REPO + '/external/getrf/*.[fF]')):
                o = 'getrf_' + os.path.basename(s) + '.o'
                objs.append(o)
                f.write('build %s: fc %s\n' % (o, s))
            f.write('build libreal.tmp.a: ar %s\n' % ' '.join(objs))
        r = subprocess.run(['ninja', '-C', d, '-k', '0', '-j', '8'], capture_output=True, text=True)
        if r.returncode:
            # keep whatever compiled
            have = [o for o in objs if os.path.exists(os.path.join(d, o))]
            if not have:
                raise NativeError('native build failed:\n' + r.stdout[-3000:])
            subprocess.run(['ar', 'rcs', 'libreal.tmp.a'] + have, cwd=d)
        os.rename(os.path.join(d, 'libreal.tmp.a'), lib)
        for o in objs:
            try:
                os.unlink(os.path.join(d, o))
            except OSError:
                pass
    return lib


def build_harness(name, san=False):
    src = os.path.join(VERIF, 'replay', name + '.cc')
    lib = build_lib()
    h = hashlib.sha1()
    for f in [src] + sorted(glob.glob(os.path.join(VERIF, 'replay', '*.hh')) + glob.glob(os.path.join(VERIF, 'replay', 'stubs.cc'))):
        h.update(open(f, 'rb').read())
    exe = os.path.join(root(), name + '_' + h.hexdigest()[:10])
    if os.path.exists(exe):
        return exe
    stubs = os.path.join(VERIF, 'replay', 'stubs.cc')
    cmd = ['g++', '-O1'] + flags() + ['-I' + os.path.join(VERIF, 'replay'), src] + ([stubs] if os.path.exists(stubs) else []) + \
        ['-o', exe + '.tmp', '-Wl,--start-group', lib, '-Wl,--end-group', '-lgfortran', '-lquadmath', '-lz', '-lpthread', '-ldl', '-lpython3.12']
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        cmd = [c for c in cmd if c != '-lpython3.12']
        r2 = subprocess.run(cmd, capture_output=True, text=True)
        if r2.returncode:
            raise NativeError('harness %s does not link against the current tree:\n%s' % (name, r.stderr[-3000:]))
    if 'lapack.hh' in open(src).read():
        so = os.path.join(root(), 'lapack.so')
        r = subprocess.run(['g++', '-O1', '-shared', '-fPIC', os.path.join(VERIF, 'replay', 'lapack.cc'), '-o', so + '.tmp'], capture_output=True, text=True)
        if r.returncode:
            raise NativeError(r.stderr[-2000:])
        os.rename(so + '.tmp', so)
    os.rename(exe + '.tmp', exe)
    return exe


def run(name, args, timeout):
    """returns dict: found (list of failing inputs), tried, error"""
    t0 = time.time()
    try:
        exe = build_harness(name)
    except NativeError as e:
        return dict(found=[], tried=0, error=str(e), wall=time.time() - t0, tests={})
    scratch = os.path.join(root(), 'run.%d' % os.getpid())
    os.makedirs(scratch, exist_ok=True)
    t1 = time.time()
    out, err, rc = '', '', None
    try:
        with open(scratch + '/out', 'w') as fo, open(scratch + '/err', 'w') as fe:
            try:
                rc = subprocess.run([exe] + list(args), stdout=fo, stderr=fe, timeout=timeout, cwd=scratch).returncode
            except subprocess.TimeoutExpired:
                rc = 'timeout'
        out = open(scratch + '/out', errors='replace').read()
        err = open(scratch + '/err', errors='replace').read()[-2000:]
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    found, tests, last = [], {}, None
    for l in out.split('\n'):
        if l.startswith('FAIL '):
            try:
                found.append(json.loads(l[5:]))
            except ValueError:
                found.append(dict(test='?', raw=l[:2000]))
        elif l.startswith('DONE '):
            p = l.split()
            tests[p[1]] = int(p[2])
        elif l.startswith('BEGIN '):
            last = l[6:]
    if rc not in (0, 1):
        # the real code crashed or hung on the input announced last
        found.append(dict(test=(last or '?').split()[0], input=(last or '?')[:3000], got='process ended with %s' % rc, expected='normal completion', stderr=err[-800:]))
    return dict(found=found, tried=sum(tests.values()), tests=tests, error=None, wall=time.time() - t0, build=t1 - t0, rc=rc, exe=exe)
