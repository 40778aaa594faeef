#!/usr/bin/env python3-vt
"""check.py PROPERTY [--tier quick|thorough]: decide one property on /repo's current tree."""
import sys, os, json, time, subprocess, tempfile, shutil, signal, select, pickle, importlib, argparse, hashlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
os.chdir(HERE)
sys.setrecursionlimit(20000)
from irv import front, solver
from irv.mem import Unsupported
import props


def run_units(units, jobs, tlimit, total):
    """each unit in its own process; -> {name: result}"""
    res = {}
    queue = list(units)
    running = {}
    t0 = time.time()
    while queue or running:
        while queue and len(running) < jobs:
            name, fn = queue.pop(0)
            if time.time() - t0 > total:
                res[name] = {'error': 'not started: time budget used up', 'kind': 'timeout'}
                continue
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                try:
                    out = one(fn)
                except BaseException as e:
                    out = {'error': '%s: %s' % (type(e).__name__, str(e)[:400]), 'kind': 'internal'}
                try:
                    with os.fdopen(w, 'wb') as f:
                        pickle.dump(out, f)
                finally:
                    os._exit(0)
            os.close(w)
            running[r] = [name, pid, time.time(), b'', fn]
        rd, _, _ = select.select(list(running), [], [], 0.5)
        for r in rd:
            d = os.read(r, 1 << 20)
            if d:
                running[r][3] += d
                continue
            name, pid, ts, data, fn = running.pop(r)
            os.close(r)
            os.waitpid(pid, 0)
            try:
                res[name] = pickle.loads(data)
            except Exception:
                res[name] = {'error': 'worker died', 'kind': 'internal'}
            res[name]['wall'] = round(time.time() - ts, 2)
        for r in list(running):
            name, pid, ts, data, fn = running[r]
            if time.time() - ts > tlimit or time.time() - t0 > total + 30:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(r)
                running.pop(r)
                res[name] = {'error': 'time limit', 'kind': 'timeout', 'wall': round(time.time() - ts, 2)}
    return res


def one(fn):
    from irv import unit
    from irv.exec import PathLimit
    out = None
    try:
        v = fn()
        out = v.result()
        out['queries'] = solver.STATS['queries']
        out['solver_time'] = solver.STATS['time']
    except (Unsupported, PathLimit, front.CompileError) as e:
        out = {'error': '%s: %s' % (type(e).__name__, str(e)[:400]), 'kind': 'unsupported'}
    except (KeyError, IndexError, AttributeError, TypeError, AssertionError, ValueError, RecursionError) as e:
        import traceback
        out = {'error': '%s: %s' % (type(e).__name__, str(e)[:300]), 'kind': 'unsupported', 'tb': traceback.format_exc()[-1500:]}
    if 'error' in out:
        # bounded symbolic stand-in: loops executed at most N times
        try:
            unit.UNROLL = 5
            v = fn()
            r = v.result()
            out['bmc'] = [o for o in r['obligs'] if o[2] == 'cex' and not o[0].startswith('termination')]
            out['bmc_obligs'] = len(r['obligs'])
        except BaseException as e:
            out['bmc_error'] = '%s: %s' % (type(e).__name__, str(e)[:200])
    return out


CXX = ['clang++-18', '-std=c++14', '-w', '-g0', '-fsanitize=address', '-fno-omit-frame-pointer', '-ffp-contract=off']


def build_driver(d, tmp):
    """compile the driver against /repo's current sources"""
    from concurrent.futures import ThreadPoolExecutor
    inc = [x for x in front.BASE if x.startswith(('-I', '-D'))] + ['-I' + os.path.join(HERE, 'drivers')]
    jobs = []
    srcs = [(os.path.join(HERE, 'drivers', d['src']), ['-O1'])] + [
        (os.path.join(front.SRC, s if isinstance(s, str) else s[0]), ['-O1'] + ([] if isinstance(s, str) else list(s[1]))) for s in d['sources']]
    objs = []

    def comp(a):
        i, (s, fl) = a
        o = os.path.join(tmp, '%d.o' % i)
        r = subprocess.run(CXX + inc + fl + list(d.get('flags', [])) + ['-c', s, '-o', o], capture_output=True, text=True)
        if r.returncode:
            raise RuntimeError('%s: %s' % (s, r.stderr[-1500:]))
        return o
    with ThreadPoolExecutor(8) as p:
        objs = list(p.map(comp, enumerate(srcs)))
    exe = os.path.join(tmp, 'driver')
    r = subprocess.run(CXX + objs + ['-o', exe, '-lpthread'] + list(d.get('libs', [])), capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError('link: ' + r.stderr[-1500:])
    return exe


def run_driver(exe, seed, secs, hint=''):
    """eight processes with different seeds; the first one that fails decides"""
    env = dict(os.environ)
    env['HINT'] = hint
    env['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=1:allocator_may_return_null=1'
    tmp = os.path.dirname(exe)
    ps = []
    for k in range(8):
        sd = seed if k == 0 else seed * 1000 + k
        o, e = open(os.path.join(tmp, 'out%d' % k), 'w+', errors='replace'), open(os.path.join(tmp, 'err%d' % k), 'w+', errors='replace')
        ps.append((sd, subprocess.Popen([exe, str(sd), str(secs)], stdout=o, stderr=e, env=env), o, e))
    end = time.time() + secs * 4 + 120
    cases, res = 0, None
    todo = list(ps)
    while todo and res is None:
        time.sleep(0.1)
        for x in list(todo):
            sd, p, o, e = x
            if p.poll() is None:
                continue
            todo.remove(x)
            o.seek(0)
            e.seek(0)
            out = o.read()
            fails = [l for l in out.split('\n') if l.startswith('FAIL')]
            for l in out.split('\n'):
                if l.startswith('OK cases='):
                    cases += int(l.split('=')[1])
            if fails or p.returncode != 0:
                res = {'status': 'fail', 'out': (fails[0] if fails else 'FAIL exit status %d' % p.returncode), 'err': e.read()[-3000:], 'cases': cases, 'seed': sd}
                break
        if time.time() > end and todo and res is None:
            o = todo[0][2]
            o.seek(0)
            res = {'status': 'fail', 'out': 'FAIL the real code does not terminate (driver process still running after %d s) %s' % (secs * 4 + 120, o.read()[-300:]), 'err': '', 'cases': cases, 'seed': todo[0][0]}
    for sd, p, o, e in ps:
        if p.poll() is None:
            p.kill()
            p.wait()
        o.close()
        e.close()
    return res or {'status': 'ok', 'cases': cases, 'out': 'OK cases=%d' % cases}


def known(prop):
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('KNOWN-FINDING: property=%s ' % prop):
                body = l[len('KNOWN-FINDING: '):]
                key = body.split('match=', 1)[1].split(' ')[0] if 'match=' in body else None
                out.append((key, body))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--units')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    P = props.PROPS[a.prop]
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='vchk-')
    try:
        rc = decide(a, P, seed, t0, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def decide(a, P, seed, t0, tmp):
    prop = a.prop
    thorough = a.tier == 'thorough'
    units = []
    compile_err = None
    for m in P['units']:
        mod = importlib.import_module('units.' + m[0])
        units += [(n, f) for n, f in mod.units(m[1] if len(m) > 1 else None)]
    if a.units:
        units = [u for u in units if a.units in u[0]]
    # translation units compiled once, inherited by the workers
    tus = P.get('tus', [])
    try:
        front.load_many(tus)
    except front.CompileError as e:
        compile_err = str(e)
    drv = P.get('driver')
    drvexe, drverr = None, None
    from concurrent.futures import ThreadPoolExecutor
    pool = ThreadPoolExecutor(1)
    tlimit = 700 if thorough else P.get('tlimit', 240)
    res = run_units(units, 8, tlimit, 1500 if thorough else P.get('total', 420))
    if drv:
        try:
            drvexe = build_driver(drv, tmp)
        except Exception as e:
            drverr = str(e)[:1500]
    nob = ndis = 0
    byback = {}
    stime = 0.0
    failed, undecided, proved = [], [], []
    functions, inlined, applied, assumed, opaque = set(), set(), set(), set(), set()
    for n, r in res.items():
        if 'error' in r:
            undecided.append((n, r['error'], r))
            if r.get('bmc'):
                failed.append((n, r['bmc'], 'bounded(loops<=5)'))
            continue
        bad = [o for o in r['obligs'] if o[2] != 'proved']
        nob += len(r['obligs'])
        ndis += len(r['obligs']) - len(bad)
        for o in r['obligs']:
            if o[2] == 'proved':
                byback[o[4]] = byback.get(o[4], 0) + 1
            stime += o[5]
        functions |= set(r['functions'])
        inlined |= set(r['inlined'])
        applied |= set(r['applied'])
        assumed |= set(r['assumed'])
        opaque |= set(r['opaque'])
        cex = [o for o in bad if o[2] == 'cex']
        if cex:
            failed.append((n, cex, 'all inputs'))
        elif bad:
            undecided.append((n, 'obligation not decided: %s' % bad[0][0], r))
        elif r['vacuous']:
            undecided.append((n, 'vacuous: ' + '; '.join(r['vacuous']), r))
        elif not r['obligs']:
            undecided.append((n, 'no obligations generated', r))
        else:
            proved.append(n)
    # concrete stand-in / replay
    drvres = None
    hint = ''
    if failed:
        m = failed[0][1][0][3]
        if isinstance(m, dict):
            hint = ' '.join('%s=%s' % (k.split('!')[0], v) for k, v in m.items() if isinstance(v, str) and v.lstrip('-').isdigit())
    if drvexe:
        secs = (20 if not failed and not undecided else 60) if not thorough else 180
        secs = P.get('drvsecs', secs) if not failed and not undecided and not thorough else secs
        drvres = run_driver(drvexe, seed, secs, hint)
    viol = []
    kn = known(prop)
    knhit = set()
    edir = os.path.join(HERE, 'evidence')
    os.makedirs(edir, exist_ok=True)

    def is_known(text):
        for key, body in kn:
            if key and key in text:
                knhit.add(body)
                return True
        return False
    failed2 = [f for f in failed if not all(is_known('%s::%s' % (f[0].replace(' ', '_'), o[0].replace(' ', '_'))) for o in f[1])]
    if drvres and drvres['status'] == 'fail' and not is_known(drvres['out'].replace(' ', '_')):
        rp = os.path.join(edir, prop + '.replay.txt')
        with open(rp, 'w') as f:
            f.write('property %s: failing input found on the real code\n%s\n\n' % (prop, drvres['out']))
            f.write('replay: driver drivers/%s (built against the tree under test), seed %d, HINT="%s"\n\n' % (drv['src'], drvres.get('seed', seed), hint))
            f.write(drvres.get('err', ''))
            write_failed(f, failed, undecided)
        viol.append('VIOLATION property=%s replay=%s' % (prop, rp))
    elif failed2:
        rp = os.path.join(edir, prop + '.replay.txt')
        with open(rp, 'w') as f:
            f.write('property %s: obligations that fail on the current source\n' % prop)
            if drvres:
                f.write('concrete replay found no failing input: %s\n' % drvres.get('out', ''))
            if drverr:
                f.write('driver not built: %s\n' % drverr)
            write_failed(f, failed2, undecided)
        viol.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rp))
    wall = time.time() - t0
    allproved = not failed and not undecided and not compile_err
    cov = {
        'obligations': nob, 'discharged': ndis,
        'checker_cmd': 'python3-vt check.py %s --tier %s' % (prop, a.tier),
        'trusted_base': ['clang 18 front end and the IR passes sroa, early-cse, simplifycfg, instcombine, loop-simplify',
                         'irv: the verification condition generator in /verif/irv', 'z3 and cvc5'] + ['opaque: ' + o for o in sorted(opaque)][:40],
        'functions_under_contract': sorted(short(f) for f in functions), 'functions_inlined': len(inlined),
        'contracts_applied_at_calls': sorted(applied), 'by_back_end': byback, 'solver_time_s': round(stime, 2),
        'units_proved': len(proved), 'units': len(units), 'units_undecided': [(n, e) for n, e, _ in undecided],
        'units_failed': [(n, o[0][0]) for n, o, _ in failed],
        'translation_units': sorted(set(front.COMPILED)),
        'unit_names': proved,
    }
    if drvres:
        cov['bounded_stand_in'] = {'driver': drv['src'], 'status': drvres['status'], 'cases': drvres.get('cases', 0), 'what': drv.get('what', ''),
                                   'note': 'executions of the real code, never counted as proved'}
    if drverr:
        cov['bounded_stand_in'] = {'driver': drv['src'], 'status': 'not built', 'error': drverr[:300]}
    ev = {'property': prop, 'tier': a.tier if a.tier in ('quick', 'thorough') else 'quick', 'seed': seed,
          'level': 'proof' if allproved else 'other', 'coverage': cov,
          'assumptions': sorted(set(P.get('assumptions', [])) | assumed), 'wall_s': round(wall, 2), 'violations': len(viol)}
    if not allproved:
        cov['explanation'] = '%d of %d units proved; undecided units are covered only by the bounded stand-in' % (len(proved), len(units))
    with open(os.path.join(edir, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d/%d units proved, %d/%d obligations discharged %s, driver %s, %.1f s' % (
        prop, len(proved), len(units), ndis, nob, byback, (drvres or {}).get('status', drverr or 'none'), wall))
    for n, e, r in undecided:
        print('  undecided %s: %s' % (n, e))
        if a.v and r.get('tb'):
            print(r['tb'])
        if a.v:
            for o in r.get('obligs', []):
                if o[2] != 'proved':
                    print('      ', o[0], o[2], o[7])
    for n, o, w in failed:
        print('  failed %s (%s): %s' % (n, w, o[0][0]))
        if a.v:
            for x in o[:8]:
                print('      ', x[0], x[2], x[7], x[3])
    if a.v:
        for n, r in sorted(res.items(), key=lambda x: -x[1].get('wall', 0))[:12]:
            print('   %6.1fs %s' % (r.get('wall', 0), n))
        if drvres:
            print(drvres.get('out', ''), drvres.get('err', '')[:1500])
    for b in sorted(knhit):
        print('KNOWN-FINDING: ' + b)
    for v in viol:
        print(v)
    return 1 if viol else 0


def short(f):
    return f if len(f) < 160 else f[:157] + '...'


def write_failed(f, failed, undecided):
    for n, obs, what in failed:
        f.write('\nunit %s (%s)\n' % (n, what))
        for o in obs[:20]:
            f.write('  obligation: %s\n    function: %s\n    solver: %s says %s (%s)\n    goal: %s\n    counterexample: %s\n' % (o[0], o[1], o[4], o[2], o[6], o[7], o[3]))
    for n, e, r in undecided:
        f.write('\nundecided unit %s: %s\n' % (n, e))


if __name__ == '__main__':
    main()
