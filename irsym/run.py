"""Check runner:  run.py <property> [--task SUBSTR] [-v]     or     run.py --replay FILE"""
import argparse, resource
import sys, os
sys.path[:0] = [os.path.dirname(os.path.abspath(__file__))]
from vf import *

KNOWN = os.path.join(ROOT, 'known-findings.json')
EVID = os.path.join(ROOT, 'evidence')


def load_check(pid):
    return importlib.import_module(pid.lower())


def levels():
    try:
        return {c['property']: c for c in json.load(open(os.path.join(ROOT, 'MANIFEST.json')))['checks']}
    except Exception:
        return {}


# ------------------------------------------------------------------------------------- native replay (child)
def native_child(path):
    job = json.load(open(path))
    mod = load_check(job['property'])
    os.environ['VERIF_TIER'] = job['tier']
    task = [t for t in mod.tasks(job['tier']) if t.name == job['task']][0]
    x = NativeX(job['lib'], job['witness']) if job['lib'] else None
    out = {'failed': [], 'reached': 0, 'note': ''}
    try:
        if task.replay_fn and job.get('mode') != 'auto':
            out['failed'] = list(task.replay_fn(x, job['witness'], job.get('msg', '')) or [])
        elif task.candidates and job.get('mode') == 'cand':
            # the witness may rest on an uninterpreted product: try inputs that give the same shape for real
            for w in [job['witness']] + list(task.candidates(job['witness'])):
                x.wit, x.failed = w, []
                try:
                    task.fn(x)
                except PathEnd:
                    continue
                if x.failed:
                    out['failed'] = x.failed + ['input ' + str({k: hex(v) for k, v in w.items() if isinstance(v, int)})[:600]]
                    break
        else:
            ws = [job['witness']] + (list(task.candidates(job['witness']))[:20] if task.candidates and job.get('mode') == 'val' else [])
            for k, w in enumerate(ws):
                x.wit, x.failed = w, []
                try:
                    task.fn(x)
                    break
                except PathEnd:
                    if k == len(ws) - 1:
                        raise
            out['failed'] = x.failed
            out['reached'] = x.reached
            out['trace'] = [str(t) for t in getattr(x, 'log', [])]
    except PathEnd as e:
        out['note'] = 'path end: %s' % e
        out['failed'] = x.failed if x else []
    except Inconclusive as e:
        out['note'] = str(e)
    except Fault as e:
        out['failed'] = ['%s: %s' % (e.kind, e.msg)]
    with open(path + '.out', 'w') as f:
        json.dump(out, f)
    sys.stdout.flush()
    os._exit(0)


def libasan():
    return subprocess.run(['gcc', '-print-file-name=libasan.so'], stdout=subprocess.PIPE, text=True).stdout.strip()


def native_run(pid, tier, task, wit, msg, variant, mode=None, perturb=None, timeout=240, kind=''):
    """(reproduced?, description, out)"""
    lib = None
    if task.native_lib != 'none':
        lib = (task.native_lib or build_native)(variant) if not isinstance(task.native_lib, str) else task.native_lib
    fd, path = tempfile.mkstemp(suffix='.json', dir=scratch())
    os.close(fd)
    json.dump({'property': pid, 'tier': tier, 'task': task.name, 'witness': wit, 'msg': msg, 'lib': lib, 'mode': mode}, open(path, 'w'))
    env = dict(os.environ, VF_TMP=scratch())
    if variant == 'asan':
        env.update(LD_PRELOAD=libasan(), PYTHONMALLOC='malloc', ASAN_OPTIONS='detect_leaks=0:abort_on_error=1:allocator_may_return_null=1', UBSAN_OPTIONS='print_stacktrace=0:abort_on_error=1')
    if perturb:
        env['MALLOC_PERTURB_'] = perturb
    try:
        r = subprocess.run([sys.executable, os.path.abspath(__file__), '--native', path], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        if kind == 'hang':
            return True, 'the real library does not return (killed after %d s)' % timeout, {}
        return False, 'native run timed out', {}
    out = {}
    if os.path.exists(path + '.out'):
        out = json.load(open(path + '.out'))
    if r.returncode < 0 or (r.returncode != 0 and 'ERROR: AddressSanitizer' in r.stdout):
        tail = [l for l in r.stdout.splitlines() if 'ERROR' in l or 'Assert' in l or 'runtime error' in l or 'assert' in l]
        return True, 'the real library died (%s) %s' % (signal.Signals(-r.returncode).name if r.returncode < 0 else r.returncode, ' | '.join(tail[:2])[:300]), out
    if r.returncode:
        return False, 'native run failed: ' + r.stdout[-600:], out
    if out.get('failed'):
        return True, 'the real library: ' + '; '.join(out['failed'][:3])[:400], out
    return False, out.get('note', ''), out


def reproduce(pid, tier, task, kind, msg, wit):
    modes = ['auto', 'cand'] if task.candidates else ['auto'] if not task.replay_fn else (['fn'] if task.replay != 'both' else ['auto', 'fn'])
    last = ''
    for mode in modes:
        for variant in task.variants:
            if variant == 'uninit':
                if kind != 'uninit' or mode != 'auto':
                    continue
                a = native_run(pid, tier, task, wit, msg, 'zero', mode, perturb='0')
                b = native_run(pid, tier, task, wit, msg, 'pattern', mode, perturb='165')
                if a[2].get('trace') != b[2].get('trace'):
                    return True, 'the real library: result depends on uninitialised memory'
                continue
            ok, d, _ = native_run(pid, tier, task, wit, msg, variant, mode, timeout=30 if kind == 'hang' else 240, kind=kind)
            if ok:
                return True, d
            last = d
    return False, last


# ------------------------------------------------------------------------------------- workers
def worker(args):
    pid, tier, name, deadline = args
    resource.setrlimit(resource.RLIMIT_AS, (14 << 30, 14 << 30))
    mod = load_check(pid)
    task = [t for t in mod.tasks(tier) if t.name == name][0]
    try:
        r = run_task(task, min(deadline, time.time() + task.budget))
        st = r.stats
        d = dict(name=name, violations=r.violations, inconclusive=r.inconclusive, notes=sorted(r.notes), wall=r.wall,
                 stats={k: getattr(st, k) for k in ('paths', 'steps', 'queries', 'solver_s', 'checks', 'discharged', 'reached', 'forks', 'infeasible')},
                 functions=sorted(st.functions), stubbed=sorted(st.stubbed), sample=r.sample, stuck=[jsonable(w) for w in r.stuck])
    except MemoryError:
        d = dict(name=name, violations=[], inconclusive=['out of memory'], notes=[], wall=0, stats={}, functions=[], stubbed=[], sample=None)
    except BuildError:
        raise
    except Exception:
        d = dict(name=name, violations=[], inconclusive=['engine error: ' + traceback.format_exc()[-1500:]], notes=[], wall=0, stats={}, functions=[],
                 stubbed=[], sample=None)
    return d


def jsonable(w):
    return {k: (v if isinstance(v, (int, str, bool, list)) else str(v)) for k, v in (w or {}).items()}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid', nargs='?')
    ap.add_argument('--native')
    ap.add_argument('--replay')
    ap.add_argument('--task')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('-j', type=int, default=8)
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a = ap.parse_args()
    if a.native:
        return native_child(a.native)
    t0 = time.time()
    if a.replay:
        job = json.load(open(a.replay))
        mod = load_check(job['property'])
        task = [t for t in mod.tasks(job['tier']) if t.name == job['task']][0]
        ok, d = reproduce(job['property'], job['tier'], task, job['kind'], job['msg'], job['witness'])
        print('REPRODUCED' if ok else 'not reproduced', d)
        return 1 if ok else 0
    pid, tier = a.pid, a.tier
    os.environ['VERIF_TIER'] = tier
    mod = load_check(pid)
    total = float(os.environ.get('VF_BUDGET', 0)) or (getattr(mod, 'BUDGET', 600) if tier == 'quick' else 5400)
    deadline = t0 + total
    try:
        tasks = [t for t in mod.tasks(tier) if not a.task or a.task in t.name]
        for p in {id(t.prog): t.prog for t in tasks}.values():
            if callable(p):
                p()
        if any(t.prog is None for t in tasks):
            program()
    except BuildError as e:
        print('BUILD ERROR', e)
        return 2
    order = sorted(tasks, key=lambda t: -t.weight)
    ctx = mp.get_context('fork')
    results = []
    with ctx.Pool(a.j, maxtasksperchild=1) as pool:
        for d in pool.imap_unordered(worker, [(pid, tier, t.name, deadline) for t in order]):
            results.append(d)
            if a.v:
                print('%-44s %6.1fs paths=%-4s q=%-5s solver=%.1f checks=%s/%s reached=%s %s %s' % (
                    d['name'], d['wall'], d['stats'].get('paths'), d['stats'].get('queries'), d['stats'].get('solver_s', 0), d['stats'].get('discharged'),
                    d['stats'].get('checks'), d['stats'].get('reached'), [v[:2] + (v[2],) for v in d['violations']][:2], d['inconclusive'][:2]), flush=True)
    byname = {t.name: t for t in tasks}
    known = json.load(open(KNOWN)) if os.path.exists(KNOWN) else []
    known = {k['signature']: k for k in known if k.get('property') == pid and k.get('status') == 'known'}
    nviol, validated, unconfirmed, hits, vac = 0, 0, [], set(), []
    # native validation of one completed path per task, and replay of every counterexample
    jobs = []
    for d in results:
        t = byname[d['name']]
        seen = set()
        for kind, msg, wit in d['violations']:
            if (kind, msg) in seen and len(seen) > 3:
                continue
            seen.add((kind, msg))
            jobs.append(('viol', t, kind, msg, jsonable(wit)))
        if d['sample'] is not None and t.replay == 'auto' and not d['violations'] and not t.replay_fn and t.validate:
            jobs.append(('val', t, '', '', jsonable(d['sample'])))
        for w in d.get('stuck', ()):
            if t.replay == 'auto' and not t.replay_fn and len([j for j in jobs if j[0] == 'stuck']) < 40:
                jobs.append(('stuck', t, '', '', w))
        if d['stats'].get('reached', 0) == 0 and not d['violations'] and t.must_reach:
            vac.append(d['name'])
    variants = set(v for j in jobs if j[0] == 'viol' for v in j[1].variants if v in ('plain', 'asan')) | ({'plain'} if jobs else set())
    from concurrent.futures import ThreadPoolExecutor
    for v in variants:
        if any(j[1].native_lib is None for j in jobs):
            build_native(v)

    def do(j):
        if j[0] in ('val', 'stuck'):
            return native_run(pid, tier, j[1], j[4], '', 'plain', 'val')
        return reproduce(pid, tier, j[1], j[2], j[3], j[4])
    seenmsg = {}
    with ThreadPoolExecutor(8) as tp:
        outs = list(tp.map(do, jobs))
    os.makedirs(os.path.join(EVID, 'replay'), exist_ok=True)
    sampled = []
    for j, o in zip(jobs, outs):
        t, kind, msg, wit = j[1:]
        if j[0] == 'val':
            if o[0]:
                kind, msg = 'native', 'concrete run of a path the solver passed fails: ' + o[1]
            elif o[2].get('reached'):
                validated += 1
                if len(sampled) < 4:
                    sampled.append({'task': t.name, 'input': {k: (hex(v) if isinstance(v, int) else v) for k, v in list(wit.items())[:12]}})
                continue
            else:
                if a.v:
                    print('validation of', t.name, 'did not complete:', o[1])
                continue
        if j[0] == 'stuck':
            if not o[0]:
                continue
            kind, msg = 'native', 'concrete run of a path that could not be followed to its end fails: ' + o[1]
            o = reproduce(pid, tier, t, kind, msg, wit)
            if not o[0]:
                continue
        if not o[0]:
            unconfirmed.append('%s: %s (%s)' % (t.name, msg, o[1]))
            continue
        sig = '%s|%s|%s' % (t.sig or t.name, kind, msg)
        if sig in known:
            hits.add(sig)
            continue
        nviol += 1
        path = os.path.join(EVID, 'replay', '%s-%d.json' % (pid, nviol))
        json.dump({'property': pid, 'tier': tier, 'task': t.name, 'kind': kind, 'msg': msg, 'witness': wit, 'observed': o[1], 'signature': sig},
                  open(path, 'w'), indent=1)
        if nviol <= 8:
            print('  [%s] %s: %s\n      input %s\n      %s' % (t.name, kind, msg, {k: hex(v) if isinstance(v, int) else v for k, v in list(wit.items())[:10]}, o[1]))
            print('VIOLATION property=%s replay=%s' % (pid, path))
    for sig in sorted(hits):
        print('KNOWN-FINDING: property=%s %s' % (pid, known[sig]['what']))
    inc = [(d['name'], i) for d in results for i in d['inconclusive']]
    tot = {}
    for d in results:
        for k, v in d['stats'].items():
            tot[k] = tot.get(k, 0) + v
    for n, i in inc[:20]:
        print('INCONCLUSIVE %s: %s' % (n, i[:300]))
    for u in unconfirmed[:20]:
        print('UNCONFIRMED (not reproduced on the real library, not reported): %s' % u[:400])
    for v in vac:
        print('VACUOUS %s: the final assertion was never reached' % v)
    wall = time.time() - t0
    print('%s %s: %d tasks, %d paths, %d obligations (%d discharged), %d queries, solver %.1fs, wall %.1fs, %d counterexamples confirmed, %d inputs validated natively'
          % (pid, tier, len(results), tot.get('paths', 0), tot.get('checks', 0), tot.get('discharged', 0), tot.get('queries', 0), tot.get('solver_s', 0), wall,
             nviol, validated))
    lev = levels().get(pid, {}).get('level', 'model_checking')
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': lev,
          'coverage': {
              'states': tot.get('paths', 0), 'transitions': tot.get('steps', 0), 'traces_validated_against_impl': validated,
              'samples': sampled or [{'task': d['name'], 'paths': d['stats'].get('paths'), 'obligations': d['stats'].get('checks')} for d in results[:4]],
              'tasks': len(results), 'obligations': tot.get('checks', 0), 'discharged': tot.get('discharged', 0), 'queries': tot.get('queries', 0),
              'solver_s': round(tot.get('solver_s', 0), 2),
              'functions_encoded': sorted({f.split(':')[-1] for d in results for f in d['functions']}),
              'functions_replaced_by_contract': sorted({f for d in results for f in d['stubbed']}),
              'bounds': getattr(mod, 'BOUNDS', ''), 'outside_bounds': getattr(mod, 'OUTSIDE', ''),
              'explanation': 'states = symbolic paths executed to their end, transitions = IR instructions executed symbolically, obligations = assertions '
                             'put to the solver, traces_validated_against_impl = model inputs re-run on the compiled library with the same assertions.',
              'inconclusive': ['%s: %s' % (n, i[:200]) for n, i in inc[:40]], 'unconfirmed': unconfirmed[:20], 'vacuous': vac,
              'per_task': [{'task': d['name'], 'paths': d['stats'].get('paths'), 'obligations': d['stats'].get('checks'),
                            'discharged': d['stats'].get('discharged'), 'wall_s': round(d['wall'], 1)} for d in sorted(results, key=lambda d: d['name'])],
          },
          'assumptions': getattr(mod, 'ASSUMES', []), 'wall_s': round(wall, 2), 'violations': nviol}
    os.makedirs(EVID, exist_ok=True)
    tmp = os.path.join(EVID, '.%s.%d' % (pid, os.getpid()))
    json.dump(ev, open(tmp, 'w'), indent=1)
    os.replace(tmp, os.path.join(EVID, pid + '.json'))
    return 1 if nviol else 0


if __name__ == '__main__':
    sys.exit(main())
