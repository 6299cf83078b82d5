#!/usr/bin/env python3
"""check.py PROP [--tier quick|thorough] [--replay FILE]

Decides one property: discharges the contract obligations generated from the current source of /repo
(contracts/*.py over pyvc), replays counter-models on the real code, and runs the contracts as oracles on the
real code for what the verifier does not reach (labelled bounded)."""
import argparse, glob, hashlib, importlib, json, multiprocessing as mp, os, shutil, signal, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
VENV = '/opt/venv/bin/python'
T0 = time.time()
REPO = os.environ.get('VERIF_REPO', '/repo')

def load_items(prop):
    from pyvc import vc
    for f in sorted(glob.glob(os.path.join(HERE, 'contracts', '*.py'))):
        n = os.path.basename(f)[:-3]
        if n not in ('specs', '__init__'): importlib.import_module('contracts.' + n)
    return [it for it in vc.ITEMS if it.prop == prop]

def worker(i, q):
    sys.setrecursionlimit(30000)
    import threading
    threading.stack_size(512 * 1024 * 1024)
    def go():
        from pyvc import vc
        try: r = vc.run_item(ITEMS[i])
        except BaseException as ex: r = dict(item=ITEMS[i].name, prop=ITEMS[i].prop, status='unsupported', detail='crash: ' + repr(ex)[:300], obligations=[], functions=[], inlined=[], assumed=[], paths=0, wall=0, stats={})
        q.put((i, r))
    th = threading.Thread(target=go); th.start(); th.join()
    q.close(); q.join_thread()

def run_items(items, jobs, limit):
    global ITEMS
    ITEMS = items
    ctx = mp.get_context('fork')
    q = ctx.Queue()
    todo = sorted(range(len(items)), key=lambda i: -items[i].budget)
    run = {}; res = {}
    t_end = time.time() + limit
    def lost(i, why):
        res[i] = dict(item=items[i].name, prop=items[i].prop, status='unsupported', detail=why, obligations=[], functions=[], inlined=[], assumed=[], paths=0, wall=0, stats={})
    while len(res) < len(items):
        while todo and len(run) < jobs and time.time() < t_end:
            i = todo.pop(0)
            p = ctx.Process(target=worker, args=(i, q), daemon=True); p.start()
            run[i] = (p, time.time() + items[i].budget * 1.6 + 20)
        try:
            while True:
                i, r = q.get(timeout=0.2)
                res[i] = r
                if i in run: run.pop(i)[0].join(3)
        except Exception: pass
        for i in list(run):
            p, dl = run[i]
            if i in res: continue
            if time.time() > min(dl, t_end):
                p.kill(); p.join(); run.pop(i); lost(i, 'time budget')
            elif not p.is_alive():
                time.sleep(0.3)
                try:
                    while True:
                        j, r = q.get(timeout=0.3); res[j] = r
                except Exception: pass
                if i not in res: lost(i, 'process died')
                run.pop(i, None)
        if time.time() > t_end and not run:
            for i in todo: lost(i, 'time budget of the check')
            todo = []
    return [res[i] for i in range(len(items))]

def env_for(scratch):
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE='1', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', MPLBACKEND='Agg', NUMBA_CACHE_DIR=os.path.join(scratch, 'numba'),
             NUMBA_NUM_THREADS='2', VERIF_REPO=REPO, HOME=scratch, PYTHONPATH=REPO)
    return e

def prepare(scratch):
    os.makedirs(os.path.join(scratch, 'work'), exist_ok=True)
    src = '/opt/vp/numba-cache'
    try: shutil.copytree(src, os.path.join(scratch, 'numba'))
    except Exception: os.makedirs(os.path.join(scratch, 'numba'), exist_ok=True)

def start_oracles(prop, scratch, tier, seed, case=None, jobs=5, tag='o'):
    out = os.path.join(scratch, tag + '.json')
    w = os.path.join(scratch, 'work', tag); os.makedirs(w, exist_ok=True)
    cmd = [VENV, os.path.join(HERE, 'oracles', 'run.py'), prop, out, '--seed', str(seed), '--tier', tier, '--jobs', str(jobs)]
    if case: cmd += ['--case', case]
    p = subprocess.Popen(cmd, cwd=w, env=env_for(scratch), stdout=open(os.path.join(scratch, tag + '.log'), 'w'), stderr=subprocess.STDOUT, start_new_session=True)
    return p, out

def wait_oracles(p, out, limit):
    try: p.wait(timeout=max(5, limit))
    except subprocess.TimeoutExpired:
        pass
    if p.poll() is None:
        p.terminate()
        try: p.wait(5)
        except subprocess.TimeoutExpired: pass
    try: os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError): pass
    p.wait()
    try: return json.load(open(out))
    except Exception: return dict(cases=[dict(case='(all)', status='died', trials=0, failures=[], notes=['the oracle process gave no result: ' + open(out[:-5] + '.log').read()[-800:]])], import_error=None)

def replay_call(rep, scratch, n):
    f = os.path.join(scratch, f'rep{n}.json')
    json.dump(rep, open(f, 'w'))
    try:
        r = subprocess.run([VENV, os.path.join(HERE, 'oracles', 'replay_call.py'), f], cwd=os.path.join(scratch, 'work'), env=env_for(scratch), capture_output=True, text=True, timeout=200)
        for l in r.stdout.splitlines():
            if l.startswith('REPLAY'): return ('violates' if r.returncode == 1 else 'holds'), l[7:]
        return 'failed', (r.stderr or '')[-400:]
    except subprocess.TimeoutExpired: return 'failed', 'timeout'

def known(prop):
    try: k = json.load(open(os.path.join(HERE, 'known_findings.json')))
    except FileNotFoundError: return []
    return [x for x in k.get('findings', []) if x['property'] == prop]

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay'); ap.add_argument('--no-vc', action='store_true'); ap.add_argument('--no-oracle', action='store_true')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    scratch = tempfile.mkdtemp(prefix='verif_')
    try: sys.exit(decide(a, a.prop, a.tier, seed, scratch))
    finally: shutil.rmtree(scratch, ignore_errors=True)

def decide(a, prop, tier, seed, scratch):
    prepare(scratch)
    if a.replay:
        d = json.load(open(a.replay))
        if d.get('kind') == 'counter-model':
            st, msg = replay_call(d['call'], scratch, 0)
            print(st, msg); return 1 if st == 'violates' else 0
        if d.get('kind') == 'oracle':
            p, out = start_oracles(prop, scratch, d['tier'], d['seed'], d['case'])
            r = wait_oracles(p, out, 800)
            for c in r['cases']:
                for f in c['failures']:
                    print(c['case'], f['key'], f['msg'])
                    if f['key'] == d['key']: return 1
            return 0
        print(json.dumps(d, indent=1)); return 0
    budget = 780 if tier == 'quick' else 5400
    evdir = os.path.join(HERE, 'evidence'); os.makedirs(os.path.join(evdir, 'replay'), exist_ok=True)
    for f in glob.glob(os.path.join(evdir, 'replay', prop + '-*')): os.remove(f)
    orc = start_oracles(prop, scratch, tier, seed) if not a.no_oracle else None
    items = [] if a.no_vc else load_items(prop)
    if tier == 'thorough':
        for it in items: it.budget *= 4
    res = run_items(items, 6, budget * 0.75)
    oracle = wait_oracles(*orc, budget - (time.time() - T0)) if orc else dict(cases=[], import_error=None)
    violations = []      # (key, message, replay-file, suffix)
    kn = known(prop); seen_known = set(); nrep = 0
    # --- the code under test does not even import
    if oracle.get('import_error'):
        violations.append(('import', oracle['import_error'], dict(kind='import', error=oracle['import_error']), ''))
    for c in oracle['cases']:
        for f in c['failures']:
            key = c['case'] + '/' + f['key']
            k = [x for x in kn if x['key'] == key]
            if k: seen_known.add(key); continue
            violations.append((key, f['msg'], dict(kind='oracle', property=prop, case=c['case'], key=f['key'], seed=c.get('seed', seed), tier=c.get('tier', tier), message=f['msg'], inputs=f['inputs']), ''))
    oracle_failed = bool(violations)
    spurious = []
    for r in res:
        for o in r['obligations']:
            if o['status'] != 'refuted': continue
            key = 'obligation/' + r['item'] + '/' + o['name']
            if [x for x in kn if x['key'] == key]: seen_known.add(key); continue
            st, msg = ('none', '')
            if o.get('replay'):
                st, msg = replay_call(o['replay'], scratch, nrep); nrep += 1
            if st == 'violates':
                violations.append((key, msg, dict(kind='counter-model', property=prop, item=r['item'], obligation=o['name'], call=o['replay'], model=o.get('model'), message=msg, residual=o['detail']), ''))
            elif st == 'holds': spurious.append((r['item'], o['name'], 'counter-model does not reproduce on the real code'))
            elif not oracle_failed:
                violations.append((key, 'obligation refuted: ' + o['detail'][:300], dict(kind='obligation', property=prop, item=r['item'], obligation=o['name'], solver_output=o['detail'], model=o.get('model'), note=msg), ' no-failing-input-found'))
    # an obligation that could not be replayed is only reported alone
    if any(not s for _, _, _, s in violations): violations = [v for v in violations if not v[3]]
    write_evidence(prop, tier, seed, items, res, oracle, violations, kn, seen_known, spurious, evdir)
    for k in kn:
        if k['key'] in seen_known: print(f"KNOWN-FINDING: property={prop} {k['what']}")
    for n, (key, msg, rep, suffix) in enumerate(violations[:20]):
        path = os.path.join(evdir, 'replay', f'{prop}-{n}.json')
        json.dump(rep, open(path, 'w'), indent=1, default=str)
        print(f'# {key}: {msg[:400]}')
        print(f'VIOLATION property={prop} replay={path}{suffix}')
    nob = sum(len(r['obligations']) for r in res); nd = sum(1 for r in res for o in r['obligations'] if o['status'] == 'proved')
    print(f'{prop}: {nd}/{nob} obligations discharged in {len(res)} contracts ({sum(r["status"] == "proved" for r in res)} fully); '
          f'{len(oracle["cases"])} oracle cases, {sum(c["trials"] for c in oracle["cases"])} checks; {time.time() - T0:.0f} s')
    for r in res:
        if r['status'] != 'proved': print('  not discharged:', r['item'], '-', r.get('detail') or [(o['name'], o['status'], o['detail'][:120]) for o in r['obligations'] if o['status'] != 'proved'][:3])
    for c in oracle['cases']:
        if c['status'] not in ('ok', 'fail') or c['notes']: print('  oracle', c['case'], c['status'], c['notes'][:2])
    return 1 if violations else 0

ASSUME = ['machine arithmetic is treated as mathematical: float32/float64 rounding, overflow, NaN and infinity are outside the proofs (the oracles on the real code run with tolerances)',
          'divisors met on the paths under contract are non-zero and extents of index ranges are non-negative (distances, sizes: preconditions)',
          'numba compiles the decorated Python source faithfully; prange iterations are independent when the loop invariants are discharged in sequential order',
          'numpy/scipy primitives behave as their models in pyvc/npmodel.py (cross-checked against numpy by tools/crosscheck.py)',
          'the verifier itself: pyvc (symbolic execution, ring normaliser, invariant inference), z3 and cvc5']

def write_evidence(prop, tier, seed, items, res, oracle, violations, kn, seen_known, spurious, evdir):
    obs = [o for r in res for o in r['obligations']]
    nd = sum(o['status'] == 'proved' for o in obs)
    back = {}
    for o in obs:
        if o['status'] == 'proved': back[o['backend'] or 'ring'] = back.get(o['backend'] or 'ring', 0) + 1
    man = {}
    try: man = {c['property']: c for c in json.load(open(os.path.join(HERE, 'MANIFEST.json')))['checks']}
    except Exception: pass
    level = man.get(prop, {}).get('level', 'other')
    cov = dict(obligations=len(obs), discharged=nd, checker_cmd=f'python3-vt /verif/check.py {prop} --tier {tier}',
               trusted_base=['pyvc verifier', 'z3 4.8 (python bindings)', 'cvc5 1.1.2', 'numpy/scipy models', 'numba'],
               explanation=f'{len(items)} contracts on {len({f for r in res for f in r["functions"]})} functions of /repo (plus {len({f for r in res for f in r["inlined"]})} functions executed by inlining); '
                           f'{nd} of {len(obs)} obligations discharged by {back}; the remaining ones and the functions outside the verifier\'s subset are covered only by bounded oracle runs on the real code ({len(oracle["cases"])} cases)',
               functions_under_contract=sorted({f for r in res for f in r['functions']}),
               functions_inlined=sorted({f for r in res for f in r['inlined']}),
               backends=back,
               solver=dict(z3_calls=sum(r['stats'].get('z3_calls', 0) for r in res), z3_seconds=round(sum(r['stats'].get('z3_time', 0) for r in res), 1), cvc5_discharged=sum(r['stats'].get('cvc5', 0) for r in res)),
               contracts=[dict(contract=r['item'], status=r['status'], obligations=len(r['obligations']), discharged=sum(o['status'] == 'proved' for o in r['obligations']), seconds=r['wall'], detail=r.get('detail')) for r in res],
               undischarged=[dict(contract=r['item'], obligation=o['name'], status=o['status'], detail=o['detail'][:300]) for r in res for o in r['obligations'] if o['status'] != 'proved'][:40],
               refuted_but_not_reproduced=spurious,
               bounded=[dict(case=c['case'], checks=c['trials'], status=c['status'], seconds=c.get('wall'), notes=c['notes']) for c in oracle['cases']],
               known_findings=[k['key'] for k in kn if k['key'] in seen_known])
    if level not in ('proof',): cov.pop('trusted_base') if False else None
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=ASSUME + sorted({x for r in res for x in r['assumed']}),
              wall_s=round(time.time() - T0, 1), violations=len(violations))
    p = os.path.join(evdir, prop + '.json')
    json.dump(ev, open(p + '.tmp', 'w'), indent=1, default=str); os.replace(p + '.tmp', p)

if __name__ == '__main__': main()
