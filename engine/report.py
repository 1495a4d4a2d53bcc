"""Decision, replay, evidence."""
import os, sys, json, time, importlib.util, resource, hashlib, re
from extract import VERIF, REPO
import native


def load_spec(pid):
    p = os.path.join(VERIF, 'specs', pid + '.py')
    sp = importlib.util.spec_from_file_location('specs_' + pid, p)
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    return m


def known(pid):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [e for e in json.load(open(p)) if e.get('property') == pid and e.get('status') == 'known']


def decide(a, run_units):
    t0 = time.time()
    pid, tier = a.pid, a.tier
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    import spec
    m = load_spec(pid)
    units = [u for u in spec.UNITS.get(pid, []) if tier == 'thorough' or u.tier == 'quick']
    if a.unit:
        units = [u for u in units if a.unit in u.name]
    limit = 400 if tier == 'quick' else 1500
    harness = getattr(m, 'NATIVE', None)
    bounded = getattr(m, 'BOUNDED', [])          # [(test name, functions, why)]
    kn = known(pid)
    nats = []

    def run_native(full):
        scale = 1 if tier == 'quick' else 20
        args = [str(seed), str(scale)]
        if not full and tier == 'quick':
            args += [b[0] for b in bounded]
        nat = native.run(harness, args, 240 if tier == 'quick' else 2400)
        for k in kn:
            nat['found'] = [f for f in nat['found'] if f.get('key', f.get('test')) != k.get('key', '\0')]
        return nat

    def settled(res):
        """a search for a failing input in the real code comes before retries of the proof"""
        if not harness or a.no_native or a.unit:
            return False
        nats.append(run_native(True))
        return bool(nats[0]['found'])
    res = run_units(units, tier, limit, settled=settled)
    nob = sum(len(r['obligations']) for r in res)
    done = sum(1 for r in res for o in r['obligations'] if o['status'] == 'proved')
    failed = []
    for r in res:
        for o in r['obligations']:
            if o['status'] != 'proved':
                failed.append(dict(unit=r['unit'], obligation=o['name'], status=o['status'], backend=o['backend'], detail=o['detail'], where=o['where']))
        if r['err']:
            failed.append(dict(unit=r['unit'], obligation='verification conditions of unit', status='undischarged', backend='engine', detail=r['err'], where=r['unit']))
    for k in kn:
        failed = [f for f in failed if not (k.get('unit') == f['unit'] and k.get('obligation') == f['obligation'])]
    if a.v or failed:
        for r in res:
            print('unit %-46s %3d obligations %6.1fs %s' % (r['unit'], len(r['obligations']), r['wall'], r['err'] or ''))
    for f in failed:
        print('UNDISCHARGED %s / %s [%s]: %s' % (f['unit'], f['obligation'], f['status'], f['detail'][:600].replace('\n', ' ')))
    nat = nats[0] if nats else None
    if nat is None and harness and not a.no_native and (failed or bounded or tier == 'thorough') and not a.unit:
        nat = run_native(bool(failed))
    if a.v and nat:
        print('native', {k: v for k, v in nat.items() if k != 'found'})
    for k in kn:
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    viol = None
    if nat and nat['found']:
        viol = ('input', nat['found'][:5])
    elif nat and nat['error'] and (bounded or failed):
        failed.append(dict(unit='native', obligation='bounded stand-in builds', status='undischarged', backend='g++', detail=nat['error'], where=harness))
    if failed and viol is None:
        viol = ('proof', None)
    rc = 0
    # ------------------------------------------------------------ evidence
    under, inl, trusted, assumed, stats = [], {}, {}, {}, {}
    for r in res:
        under += r['under']
        inl.update(r['inlined'])
        for x, y in ((r['trusted'], trusted), (r['assumed'], assumed), (r['stats'], stats)):
            for k, v in x.items():
                y[k] = y.get(k, 0) + v
    under = sorted(set(under))
    level = getattr(m, 'LEVEL', 'proof')
    ev = dict(property=pid, tier=tier, seed=seed, level=level, wall_s=round(time.time() - t0, 2), violations=1 if viol else 0)
    tb = ['clang 18 front end and its sroa/simplifycfg/loop-simplify passes: the verified LLVM IR is generated from /repo/src on this run',
          'VC generator in /verif/engine (symbolic execution of the IR, loop closed forms checked by induction queries)', 'z3 5.3.2 / cvc5 1.1.2',
          'IEEE-754 double arithmetic treated as exact real arithmetic; int/size_t treated as mathematical integers',
          'float128 instantiations are the same template text; the double instantiation is the one verified']
    tb += ['library contract assumed: ' + k for k in sorted(trusted)]
    tb += list(getattr(m, 'TRUSTED', []))
    asm = list(getattr(m, 'ASSUMPTIONS', []))
    asm += ['callee contract used at call sites (proved in its own unit or listed in DESIGN.md): ' + k for k in sorted(assumed)]
    cov = dict(obligations=nob, discharged=done,
               checker_cmd='python3-vt /verif/check.py %s --tier %s' % (pid, tier),
               trusted_base=tb,
               functions_under_contract=under,
               functions_verified_inline=sorted(k for k in inl if k not in under)[:400],
               backends=stats, solver_s=round(sum(r['solver_s'] for r in res), 2), solver_queries=sum(r['queries'] for r in res),
               units=[dict(name=r['unit'], what=r['title'], obligations=[dict(name=o['name'], status=o['status'], backend=o['backend'], s=o['t']) for o in r['obligations']], wall_s=round(r['wall'], 2), error=r['err']) for r in res],
               undischarged=failed)
    if nat:
        cov['bounded_native'] = dict(harness=harness, cases=nat['tests'], note='concrete executions of the real code; bounded, not counted as proved', functions=[dict(test=b[0], functions=b[1], why=b[2]) for b in bounded], error=nat['error'], wall_s=round(nat['wall'], 1))
    ev['coverage'] = cov
    ev['assumptions'] = asm
    if viol:
        rp = os.path.join(VERIF, 'evidence', 'replay_%s.json' % pid)
        os.makedirs(os.path.dirname(rp), exist_ok=True)
        with open(rp, 'w') as f:
            json.dump(dict(property=pid, failed_obligations=failed, failing_inputs=viol[1] or [], seed=seed,
                           replay_cmd=('python3-vt /verif/check.py %s' % pid), native=None if not nat else {k: v for k, v in nat.items() if k != 'found'}), f, indent=1)
        if viol[0] == 'input':
            f0 = viol[1][0]
            print('failing input: %s' % json.dumps(f0)[:1500])
            print('VIOLATION property=%s replay=%s' % (pid, rp))
        else:
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rp))
        rc = 1
    if not a.unit:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    print('%s %s: %d/%d obligations discharged in %d units, %.1fs%s' % (pid, tier, done, nob, len(res), time.time() - t0, '' if rc == 0 else ' -- VIOLATION'))
    return rc
