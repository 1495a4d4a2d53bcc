#!/opt/veriftools/pyvenv/bin/python3
"""check.py <property> [--tier quick|thorough] [--unit NAME] [--no-native]: decide one property on /repo's current tree."""
import sys, os, json, time, argparse, importlib, glob, multiprocessing as mp, signal, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'engine'))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)


def worker(conn, prog, un, tier, factor=1):
    import spec, threading, terms
    terms.FACTOR[0] *= factor
    sys.setrecursionlimit(20000)
    threading.stack_size(512 * 1024 * 1024)
    out = []

    def go():
        try:
            out.append(spec.run_unit(prog, un, tier))
        except BaseException as e:
            out.append(dict(unit=un.name, title=un.title, err='verifier failure %s: %s' % (type(e).__name__, e), obligations=[], inlined={}, trusted={}, assumed={}, stats={}, solver_s=0, queries=0, under=[], notes=[], wall=0))
    t = threading.Thread(target=go)
    t.start()
    t.join()
    conn.send(out[0])
    conn.close()
    os._exit(0)


def bad(r):
    return bool(r['err']) or any(o['status'] != 'proved' for o in r['obligations'])


def run_units(units, tier, limit, ncpu=8, settled=None):
    """every unit once; a unit with an undischarged obligation again with larger solver limits, unless a failing input of
    the real code already settles the matter"""
    t0 = time.time()
    progs = {}
    res = run_pass(units, tier, limit, ncpu, 1, progs)
    again = [u for u, r in zip(units, res) if bad(r) and not (r['err'] or '').startswith('extraction failed')]
    budget = (480 if tier == 'quick' else 3000) - (time.time() - t0)
    if again and settled and settled(res):
        return res
    budget = (480 if tier == 'quick' else 3000) - (time.time() - t0)
    if again and budget > 30 and len(again) <= 16:
        res2 = run_pass(again, tier, min(limit, budget), ncpu, 3, progs)
        upd = {u.name: r for u, r in zip(again, res2) if not bad(r)}
        res = [upd.get(u.name, r) for u, r in zip(units, res)]
    return res


def run_pass(units, tier, limit, ncpu, factor, progs):
    import extract
    import spec
    try:
        extract.precompile([f for un in units for f in un.files])
    except extract.ExtractError:
        pass
    for un in units:
        k = tuple(un.files)
        if k not in progs:
            try:
                progs[k] = extract.Program(k)
            except extract.ExtractError as e:
                progs[k] = e
    results, running, queue = {}, [], list(units)
    while queue or running:
        while queue and len(running) < ncpu:
            un = queue.pop(0)
            pg = progs[tuple(un.files)]
            if isinstance(pg, Exception):
                results[un.name] = dict(unit=un.name, title=un.title, err='extraction failed: %s' % pg, obligations=[], inlined={}, trusted={}, assumed={}, stats={}, solver_s=0, queries=0, under=[], notes=[], wall=0)
                continue
            a, b = mp.Pipe(False)
            p = mp.get_context('fork').Process(target=worker, args=(b, pg, un, tier, factor))
            p.start()
            b.close()
            running.append((un, p, a, time.time()))
        still = []
        for un, p, a, t0 in running:
            if a.poll(0.02):
                try:
                    results[un.name] = a.recv()
                except EOFError:
                    results[un.name] = dict(unit=un.name, title=un.title, err='verifier process died', obligations=[], inlined={}, trusted={}, assumed={}, stats={}, solver_s=0, queries=0, under=[], notes=[], wall=time.time() - t0)
                p.join(5)
                if p.is_alive():
                    p.kill()
            elif not p.is_alive():
                results[un.name] = dict(unit=un.name, title=un.title, err='verifier process died (exit %s)' % p.exitcode, obligations=[], inlined={}, trusted={}, assumed={}, stats={}, solver_s=0, queries=0, under=[], notes=[], wall=time.time() - t0)
            elif time.time() - t0 > limit:
                p.kill()
                results[un.name] = dict(unit=un.name, title=un.title, err='time limit %d s' % limit, obligations=[], inlined={}, trusted={}, assumed={}, stats={}, solver_s=0, queries=0, under=[], notes=[], wall=time.time() - t0)
            else:
                still.append((un, p, a, t0))
        running = still
    return [results[u.name] for u in units]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--unit')
    ap.add_argument('--no-native', action='store_true')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    import report
    sys.exit(report.decide(a, run_units))


if __name__ == '__main__':
    main()
