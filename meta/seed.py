#!/usr/bin/env python3
"""Author and evaluate planted bugs: seed.py mk FILE.py | seed.py run ID... | seed.py all
Everything happens in a scratch copy of /repo and /verif bind-mounted in a private mount namespace."""
import os, sys, json, subprocess, shutil, tempfile, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# builds demo.cc against the libraries that build.sh made and runs it in a scratch folder
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
R=$PWD
I=$(find $R/src -type d | sed 's/^/-I/')
L=$(find $R/_build/devsim/src -name '*.a' | tr '\\n' ' ')
O=$(for x in ObjectHolder ControlGIL Interpreter ZlibCompress; do find $R/_build/devsim/src/pythonapi -name $x.cc.o; done)
X=
grep -Eq 'eqn.hh|solve.hh' "$D"/demo.cc && X=$(ls $R/src/AutoEquation/{ExprEquation,ExprContactEquation,InterfaceExprEquation}.cc)
g++ -std=gnu++17 -w -O1 -DDEVSIM_COPYRIGHT_YEAR='"x"' -DDEVSIM_VERSION_STRING='"x"' -DDEVSIM_EXTENDED_PRECISION -DLOAD_MATHLIBS -DUSE_BLAS -DUSE_ITERATIVE_SOLVER -DUSE_LAPACK -DUSE_MKL_PARDISO $I -I/usr/include/python3.12 -I"$D" \\
  "$D"/demo.cc "$D"/stubs.cc $X -o $T/demo -Wl,--start-group $L $O $R/_build/getrf/libgetrf.a -Wl,--end-group -lgfortran -lquadmath -lz -lpthread -ldl -lpython3.12 || exit 2
[ -e "$D"/lapack.cc ] && { g++ -O1 -shared -fPIC "$D"/lapack.cc -o $T/lapack.so || exit 2; }
cd $T
timeout 200 ./demo 1 1
'''


def sh(c, **k):
    return subprocess.run(['bash', '-c', c], capture_output=True, text=True, **k)


def scratch():
    d = tempfile.mkdtemp(prefix='seed', dir='/tmp')
    sh('cp -a /repo %s/repo; mkdir %s/verif; cd %s && tar c --exclude=./seeded --exclude=./build/native --exclude=./build/cache --exclude=./.git . | tar x -C %s/verif; mkdir -p %s/verif/build/cache' % (d, d, V, d, d))
    return d


def inside(d, cmd, timeout=3600):
    return sh("unshare -Urm bash -c 'mount --bind %s/repo /repo && mount --bind %s/verif /verif && cd /repo && %s'" % (d, d, cmd), timeout=timeout)


def mk(id, prop, edits, demo, needs, breaks):
    s = os.path.join(V, 'seeded', id)
    os.makedirs(s, exist_ok=True)
    d = tempfile.mkdtemp(prefix='mk', dir='/tmp')
    sh('git -C /repo archive HEAD src | tar x -C %s; cd %s; git init -q; git add -A; git -c user.name=x -c user.email=x commit -qm x' % (d, d))
    for f, old, new in edits:
        p = d + '/src/' + f
        t = open(p).read()
        assert t.count(old) == 1, (f, t.count(old), old)
        open(p, 'w').write(t.replace(old, new))
    df = sh('cd %s; git diff' % d).stdout
    shutil.rmtree(d)
    open(s + '/patch.diff', 'w').write(df)
    open(s + '/demo.cc', 'w').write(demo)
    open(s + '/demo.sh', 'w').write(DEMO)
    os.chmod(s + '/demo.sh', 0o755)
    for f in ("mesh.hh", "eqn.hh", "solve.hh", "lapack.hh", "lapack.cc", "h.hh", 'hmain.hh', 'stubs.cc'):
        shutil.copy(V + '/replay/' + f, s)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(s + '/meta.json', 'w'), indent=1)


def run(id, tests=True):
    s = os.path.join(V, 'seeded', id)
    m = json.load(open(s + '/meta.json'))
    d = scratch()
    out = dict(id=id, property=m['property'])
    try:
        shutil.copytree(s, d + '/seed')
        shutil.copytree(s, d + '/repo/.seed')
        r = inside(d, 'bash /opt/vp/build.sh >/dev/null 2>&1; bash /repo/.seed/demo.sh')
        out['demo_clean'] = r.returncode
        if r.returncode:
            out['log'] = (r.stdout + r.stderr)[-1500:]
            return out
        r = inside(d, 'git apply /repo/.seed/patch.diff')
        out['apply'] = r.returncode
        r = inside(d, 'B=/opt/vp; bash /opt/vp/test.sh /repo/.seed/out.json')
        try:
            ps = json.load(open(d + '/repo/.seed/out.json'))
            out['tests'] = len(ps['passed'])
        except Exception:
            out['tests'] = 'build/test failed ' + r.stdout[-800:] + r.stderr[-500:]
        r = inside(d, 'bash /repo/.seed/demo.sh')
        out['demo_patched'] = r.returncode
        shutil.rmtree(d + '/repo/.seed')
        r = inside(d, 'cd /verif; VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3-vt check.py %s --tier quick' % m['property'])
        out['check'] = r.returncode
        out['lines'] = [l[:400] for l in r.stdout.split('\n') if l.startswith(('VIOLATION', 'UNDISCH', 'failing', m['property'] + ' '))][-8:]
        out['ok'] = out['demo_patched'] != 0 and out['tests'] == 5
        v = [l for l in out['lines'] if l.startswith('VIOLATION')]
        out['caught'] = bool(v) and r.returncode == 1
        out['input'] = bool(v) and 'no-failing-input-found' not in v[0]
    except Exception as e:
        out['exc'] = repr(e)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return out


if __name__ == '__main__':
    if sys.argv[1] == 'mk':
        g = dict(mk=mk)
        exec(open(sys.argv[2]).read(), g)
        sys.exit()
    ids = sys.argv[2:] if sys.argv[1] == 'run' else sorted(os.listdir(V + '/seeded'))
    with cf.ThreadPoolExecutor(2) as ex:
        for o in ex.map(run, ids):
            print(json.dumps({k: v for k, v in o.items() if k != 'lines'}))
            for l in o.get('lines', []):
                print('    ', l[:300])
            sys.stdout.flush()
            p = V + '/meta/seed_results.json'
            q = json.load(open(p)) if os.path.exists(p) else {}
            q[o['id']] = dict(caught=bool(o.get('caught')), input=bool(o.get('input')), ok=bool(o.get('ok')))
            json.dump(q, open(p, 'w'), indent=1, sort_keys=True)
