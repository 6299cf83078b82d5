"""run.py PROP OUT [--case NAME] [--seed S] [--tier quick|thorough]: contract oracles on the real code."""
import argparse, glob, importlib, json, os, signal, sys, time, traceback, warnings
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
ap = argparse.ArgumentParser()
ap.add_argument('prop'); ap.add_argument('out')
ap.add_argument('--case'); ap.add_argument('--seed', type=int, default=1); ap.add_argument('--tier', default='quick')
ap.add_argument('--jobs', type=int, default=6); ap.add_argument('--budget', type=float, default=0)
a = ap.parse_args()
repo = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, repo)
warnings.simplefilter('ignore')
out = dict(prop=a.prop, cases=[], import_error=None)

def finish():
    tmp = a.out + '.tmp'
    with open(tmp, 'w') as f: json.dump(out, f)
    os.replace(tmp, a.out)
t0 = time.time()
try:
    import acoular
    assert os.path.realpath(acoular.__file__).startswith(os.path.realpath(repo)), acoular.__file__
except Exception:
    out['import_error'] = traceback.format_exc()[-1500:]
    finish(); sys.exit(0)
out['import_s'] = round(time.time() - t0, 1)
from oracles import lib
for f in sorted(glob.glob(os.path.join(HERE, 'c_*.py'))):
    importlib.import_module('oracles.' + os.path.basename(f)[:-3])
cases = lib.CASES.get(a.prop, [])
if a.case: cases = [c for c in cases if c[0] == a.case]
scale = 1 if a.tier == 'quick' else 6
todo = sorted(cases, key=lambda c: -c[2])
running = {}
def on_term(*_):
    for q in running:
        try: os.killpg(q, signal.SIGKILL)
        except OSError: pass
    finish(); os._exit(3)
signal.signal(signal.SIGTERM, on_term)
base = os.getcwd()
while todo or running:
    while todo and len(running) < a.jobs:
        name, fn, secs = todo.pop(0)
        b = (a.budget or secs) * scale
        d = os.path.join(base, 'c_' + ''.join(ch if ch.isalnum() else '_' for ch in name)); os.makedirs(d, exist_ok=True)
        rf = os.path.join(d, 'result.json')
        pid = os.fork()
        if pid == 0:
            try:
                os.setpgid(0, 0); signal.signal(signal.SIGTERM, signal.SIG_DFL)
                os.chdir(d)
                sys.stdout = sys.stderr = open(os.path.join(d, 'log'), 'w')
                os.dup2(sys.stdout.fileno(), 1); os.dup2(sys.stdout.fileno(), 2)
                acoular.config.cache_dir = os.path.join(d, 'cache'); os.makedirs(os.path.join(d, 'cache'), exist_ok=True)
                acoular.config.td_dir = d
                r = lib.run_case(a.prop, name, fn, a.seed, a.tier, b)
                with open(rf, 'w') as f: json.dump(r, f, default=str)
            except BaseException:
                with open(rf, 'w') as f: json.dump(dict(case=name, status='harness-error', trials=0, failures=[], notes=[traceback.format_exc()[-800:]]), f)
            os._exit(0)
        running[pid] = (name, rf, time.time() + b * 2 + 30, time.time())
    time.sleep(0.05)
    for pid in list(running):
        name, rf, dl, st = running[pid]
        try: p, _ = os.waitpid(pid, os.WNOHANG)
        except ChildProcessError: p = pid
        if p == 0:
            if time.time() > dl:
                try: os.killpg(pid, signal.SIGKILL)
                except ProcessLookupError: pass
                os.waitpid(pid, 0)
                out['cases'].append(dict(case=name, status='timeout', trials=0, failures=[], notes=[f'killed after {time.time() - st:.0f} s']))
                del running[pid]
            continue
        try: out['cases'].append(json.load(open(rf)))
        except Exception: out['cases'].append(dict(case=name, status='died', trials=0, failures=[], notes=['the process of this case died']))
        del running[pid]
        finish()
out['wall'] = round(time.time() - t0, 1)
finish()
