"""replays a counter-model of the verifier on the real function: exit 1 if the contract is violated, 0 if it holds"""
import importlib, json, sys
import numpy as np
def dec(a):
    if isinstance(a, dict):
        if 'shape' in a:
            k = a['kind']
            if k == 'c': v = np.array([complex(*x) if isinstance(x, list) else x for x in a['vals']], dtype=complex)
            else: v = np.array(a['vals'], dtype={'i': np.int64, 'b': bool}.get(k, float))
            return np.ascontiguousarray(v.reshape(a['shape']))
        if 'tuple' in a: return tuple(dec(x) for x in a['tuple'])
        if 'dtype' in a: return {'f': np.float64, 'c': np.complex128, 'i': np.int64, 'b': bool, 'int': int}[a['dtype']]
        if 'complex' in a: return complex(*a['complex'])
    return a
def run(d):
    mod, fn = d['function'].split(':')
    f = getattr(importlib.import_module(mod), fn)
    args = [dec(a) for a in d['args']]
    r = f(*args)
    loc = d['where']
    got = args[loc[1]] if loc[0] == 'arg' else (r if len(loc) == 1 else r[loc[1]])
    want = dec(d['expected'])
    got = np.asarray(got)
    if got.shape != want.shape: return f'shape {got.shape} instead of {want.shape}'
    sc = max(np.max(np.abs(want), initial=0), np.max(np.abs(got), initial=0), 1e-12)
    if not np.allclose(got, want, rtol=2e-5, atol=2e-5 * sc):
        return f'real function returns {got.ravel()[:6].tolist()} where the contract requires {want.ravel()[:6].tolist()}'
    return None
if __name__ == '__main__':
    d = json.load(open(sys.argv[1]))
    m = run(d)
    print('REPLAY', 'violates: ' + m if m else 'holds')
    sys.exit(1 if m else 0)
