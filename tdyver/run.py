"""check of one property:  python3-vt -m tdyver.run C01

exit 0  every obligation discharged (known findings reported)
exit 1  VIOLATION line
exit 2  the check could not run (the tree does not compile, internal error)
"""
import sys, os, json, time, random, tempfile, shutil, signal, traceback, importlib, multiprocessing, re
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)
sys.setrecursionlimit(20000)

KNOWN = os.path.join(ROOT, 'known-findings.txt')


def load_known(pid):
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r'finding: property=(\S+) unit="([^"]*)" obligation="([^"]*)" (.*)', l)
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3), m.group(4)))
    return out


PROG = None
TIER = 'quick'
SEED = 1


class UnitTimeout(Exception):
    pass


def _alarm(*a):
    raise UnitTimeout()


def run_unit(job):
    modname, idx, limit = job
    import threading
    threading.stack_size(512 * 1024 * 1024)
    box = {}
    t = threading.Thread(target=lambda: box.update(r=_run_unit(modname, idx)))
    t0 = time.time()
    t.daemon = True
    t.start()
    t.join(limit)
    if t.is_alive():
        return {'unit': idx, 'name': unit_list(modname)[idx][0], 'stuck': 'time limit of %d s' % limit, 'obligs': [], 'fns': {}, 'models': {}, 'contracts': {}, 'loops': 0, 'unrolled': 0, 'havocs': [], 'assumed': [], 'stats': {}, 'wall': limit}
    return box.get('r') or {'unit': idx, 'name': unit_list(modname)[idx][0], 'crash': 'no result', 'obligs': []}


def unit_list(modname):
    return importlib.import_module(modname).units(TIER)


def _run_unit(modname, idx):
    from . import harness, solve
    from .exec import Unsupported, Budget
    from .normal import NFError
    sys.setrecursionlimit(200000)
    t0 = time.time()
    name, fn = unit_list(modname)[idx][:2]
    res = {'unit': idx, 'name': name, 'obligs': [], 'fns': {}, 'models': {}, 'contracts': {}, 'loops': 0, 'unrolled': 0,
           'havocs': [], 'assumed': [], 'targets': []}
    vs = []

    def newv(unit=name, **kw):
        v = harness.V(PROG, unit, **kw)
        vs.append(v)
        return v
    try:
        fn(newv)
    except Unsupported as e:
        res['stuck'] = 'outside the verifier\'s reach: %s' % e
    except Budget as e:
        res['stuck'] = 'budget: %s' % e
    except NFError as e:
        res['stuck'] = 'normal form: %s' % e
    except Exception as e:
        res['crash'] = traceback.format_exc()
    if 'crash' not in res:
        found, spent = 0, 0
        listed = {k[1] for k in load_known(modname.split('.')[-1]) if k[0] == name}
        try:
            for v in vs:
                v.listed = listed
                rng = random.Random(SEED)
                for o in v.discharge():
                    d = {'kind': o.kind, 'where': o.where, 'status': o.res.status, 'backend': o.res.backend,
                         'detail': (o.res.detail or '')[:300]}
                    if not o.res:
                        d['goal'] = harness.show(o.goal, 8)[:3000]
                        leaf = getattr(o.res, 'leaf', None)
                        if leaf is not None:
                            d['leaf'] = '%s  =?=  %s' % (harness.show(leaf[1], 8)[:2500], harness.show(leaf[2], 8)[:2500])
                        d['pc'] = [harness.show(x, 5)[:400] for x in o.pc[:60]]
                        ce = None
                        try:
                            # a few inputs that fail are enough
                            if found < 4 and spent < 100 and '[%s] %s' % (o.kind, o.where) not in listed:
                                t1 = time.time()
                                ce = harness.refute(o, rng)
                                spent += time.time() - t1
                                found += bool(ce)
                        except Exception as e:
                            d['refute_error'] = repr(e)
                        if ce:
                            tab = ce.pop('tab')
                            hav = sorted({k[0] for k in tab if k[0].startswith(('lv ', 'lvp ', 'cnt ', 'w '))})
                            ce['depends_on_unknown'] = hav
                            d['ce'] = ce
                            try:
                                from . import replay
                                d['replay'] = replay.replay(v, o, tab)
                            except Exception as e:
                                d['replay'] = {'status': 'not available', 'why': '%s: %s' % (type(e).__name__, str(e)[:300])}
                    res['obligs'].append(d)
        except Exception:
            res['crash'] = traceback.format_exc()
    for v in vs:
        ex = v.ex
        for k, n in ex.used.items():
            res['fns'][k] = res['fns'].get(k, 0) + n
        for k, n in ex.used_models.items():
            res['models'][k] = res['models'].get(k, 0) + n
        for k, n in ex.used_contracts.items():
            res['contracts'][k] = res['contracts'].get(k, 0) + n
        res['loops'] += ex.loops_summarised
        res['unrolled'] += ex.loops_unrolled
        res['havocs'] += ex.havocs
        res['assumed'] += v.assumed
        res['bounded'] = res.get('bounded') or v.bounded
        res['targets'] += sorted(v.targets)
    res['stats'] = dict(solve.STATS)
    res['wall'] = time.time() - t0
    return res


def main():
    global PROG, TIER, SEED
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--only')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('-j', type=int, default=8)
    ap.add_argument('--limit', type=int, default=0)
    a = ap.parse_args()
    pid = a.property
    TIER = os.environ.get('VERIF_TIER', 'quick')
    if TIER not in ('quick', 'thorough'):
        TIER = 'quick'
    try:
        SEED = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        SEED = 1
    t0 = time.time()
    modname = 'props.' + pid
    try:
        spec = importlib.import_module(modname)
        from . import build, exec as ex_, harness, petsc
        d = tempfile.mkdtemp(prefix='tdyver-')
        try:
            srcs = getattr(spec, 'SRCS', None) or build.all_sources()
            PROG = ex_.Program(build.build(srcs, d))
        finally:
            shutil.rmtree(d, ignore_errors=True)
    except RuntimeError as e:
        print('check error: %s' % e)
        return 2
    units = unit_list(modname)
    limit = a.limit or (380 if TIER == 'quick' else 700)
    jobs = [(modname, i, (u[2] if len(u) > 2 and not a.limit else limit)) for i, u in enumerate(units) if not a.only or re.search(a.only, u[0])]
    results = []
    with multiprocessing.get_context('fork').Pool(min(a.j, max(1, len(jobs))), maxtasksperchild=1) as pool:
        for r in pool.imap_unordered(run_unit, jobs, chunksize=1):
            results.append(r)
            if a.v:
                bad = [o for o in r['obligs'] if o['status'] != 'proved']
                print('%-60s %3d obligations %2d open  %5.1fs %s' % (r['name'], len(r['obligs']), len(bad), r.get('wall', 0), r.get('stuck', '') or r.get('crash', '')), flush=True)
                for o in bad:
                    print('    OPEN [%s] %s  (%s) ce=%s replay=%s' % (o['kind'], o['where'], o['status'], {k: v for k, v in (o.get('ce') or {}).items()} if o.get('ce') else None, o.get('replay')))
                    if not o.get('ce'):
                        print('       ', (o.get('leaf') or o['goal'])[:1500])
    results.sort(key=lambda r: r['unit'])
    crashed = [r for r in results if 'crash' in r]
    if crashed:
        print('check error in unit %s:\n%s' % (crashed[0]['name'], crashed[0]['crash']))
        return 2
    known = load_known(pid)
    viol, kf = [], []
    for r in results:
        if 'stuck' in r:
            viol.append((r, None))
        if not r['obligs'] and 'stuck' not in r:
            r['stuck'] = 'no obligations generated'
            viol.append((r, None))
        for o in r['obligs']:
            if o['status'] == 'proved':
                continue
            hit = [k for k in known if k[0] == r['name'] and k[1] == '[%s] %s' % (o['kind'], o['where'])]
            if hit:
                kf.append(hit[0])
            else:
                viol.append((r, o))
    unbounded = [r for r in results if not r.get('bounded')]
    n = sum(len(r['obligs']) for r in unbounded)
    nd = sum(1 for r in unbounded for o in r['obligs'] if o['status'] == 'proved')
    nb = sum(len(r['obligs']) for r in results) - n
    nbd = sum(1 for r in results for o in r['obligs'] if o['status'] == 'proved') - nd
    rc = 0
    rdir = os.path.join(ROOT, 'evidence', 'replay')
    lines = []
    if viol:
        os.makedirs(rdir, exist_ok=True)
        # the most conclusive first
        def rank(x):
            r, o = x
            if o is None:
                return 3
            if (o.get('replay') or {}).get('status') == 'confirmed':
                return 0
            if o.get('ce') and not o['ce'].get('depends_on_unknown'):
                return 1
            return 2
        viol.sort(key=rank)
        definite = rank(viol[0]) <= 1
        path = os.path.join(rdir, '%s.txt' % pid)
        with open(path, 'w') as f:
            for r, o in viol[:40]:
                f.write('unit: %s\n' % r['name'])
                if o is None:
                    f.write('the proof could not be carried out: %s\n\n' % r['stuck'])
                    continue
                f.write('failed obligation: [%s] %s\nverifier: %s %s\n' % (o['kind'], o['where'], o['status'], o['detail']))
                f.write('goal: %s\n' % o['goal'])
                if o.get('leaf'):
                    f.write('open leaf: %s\n' % o['leaf'])
                f.write('path condition:\n' + ''.join('  %s\n' % x for x in o['pc']))
                if o.get('ce'):
                    f.write('counterexample: %s\n' % json.dumps(o['ce'], default=str, indent=1))
                    f.write('replay on the compiled sources: %s\n' % json.dumps(o.get('replay'), default=str))
                else:
                    f.write('no counterexample found\n')
                f.write('\n')
        for r, o in viol[:6]:
            print('failed: %s: %s' % (r['name'], r['stuck'] if o is None else '[%s] %s' % (o['kind'], o['where'])))
        lines.append('VIOLATION property=%s replay=%s%s' % (pid, path, '' if definite else ' no-failing-input-found'))
        rc = 1
    for k in sorted(set(kf)):
        print('KNOWN-FINDING: property=%s %s' % (pid, k[2]))
    agg = lambda key: {k: sum(r[key].get(k, 0) for r in results) for k in sorted({k for r in results for k in r[key]})}
    back = {}
    for r in unbounded:
        for o in r['obligs']:
            if o['status'] == 'proved':
                back[o['backend']] = back.get(o['backend'], 0) + 1
    kinds = {}
    for r in results:
        for o in r['obligs']:
            kinds[o['kind']] = kinds.get(o['kind'], 0) + 1
    st = {}
    for r in results:
        for k, v in r.get('stats', {}).items():
            st[k] = round(st.get(k, 0) + v, 3)
    models = agg('models')
    from . import petsc
    trusted = [
        'clang 18 translates the C sources to the LLVM IR the verifier reads (-O0, PETSC_USE_DEBUG and PETSC_USE_LOG off: PETSc\'s own stack tracing, argument checking and event logging are compiled out)',
        'the verification-condition generator of /verif/tdyver (symbolic execution, loop summaries, normal forms) and the back ends z3, cvc5',
        'machine arithmetic is treated as mathematical: double as real, int as unbounded integer; results of exp, log, pow, sqrt are the real functions',
    ] + ['assumed contract: %s - %s' % (m, petsc.DOC.get(m, 'see tdyver/petsc.py')) for m in models] + list(getattr(spec, 'TRUSTED', []))
    assumed = sorted({x for r in results for x in r['assumed']})
    cov = {
        'obligations': n, 'discharged': nd, 'checker_cmd': 'python3-vt -m tdyver.run %s' % pid,
        'trusted_base': trusted,
        'functions_under_contract': sorted({x for r in results for x in r.get('targets', [])}),
        'functions_executed': sorted(agg('fns')),
        'callee_contracts_used': agg('contracts'),
        'external_contracts_used': models,
        'loops_with_inductive_summary': sum(r['loops'] for r in results),
        'loops_fully_unrolled': sum(r['unrolled'] for r in results),
        'forgotten_values': sorted({x for r in results for x in r['havocs']})[:60],
        'obligations_by_kind': kinds, 'discharged_by_backend': back, 'solver': st,
        'bounded_obligations': nb, 'bounded_obligations_discharged': nbd,
        'bounds': sorted({r['bounded'] for r in results if r.get('bounded')}),
        'units': [{'name': r['name'], 'bounded': r.get('bounded'), 'obligations': len(r['obligs']), 'open': sum(1 for o in r['obligs'] if o['status'] != 'proved'), 'wall_s': round(r.get('wall', 0), 2)} for r in results],
        'known_findings': [k[2] for k in sorted(set(kf))],
    }
    ev = {'property': pid, 'tier': TIER, 'seed': SEED, 'level': 'proof', 'coverage': cov,
          'assumptions': ['preconditions: ' + x for x in assumed] + list(getattr(spec, 'ASSUMPTIONS', [])),
          'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    if not a.only:
        with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
    print('%s: %d obligations in %d units, %d discharged (and %d of %d bounded), %d known findings, %.1f s' % (pid, n, len(results), nd, nbd, nb, len(set(kf)), time.time() - t0))
    for l in lines:
        print(l)
    return rc


if __name__ == '__main__':
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
