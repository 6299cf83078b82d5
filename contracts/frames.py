"""C03 and C04 as reads-clauses: what a derived quantity reads is declared, and what an output reads is in the digest.

The reads of every getter and method are computed from the code (pyvc/frames.py) on every run; a read setting that no
entry of depends_on covers leaves the obligation of that quantity undischarged.  EXEMPT lists the state that is read
but does not select the value (each with the argument why)."""
import ast
from pyvc.vc import *
from pyvc import frames as F, source as S

STORE = 'store of the cached quantity itself: its content is decided by the contracts of C16'
EXEMPT = {
    # (class, path prefix): reason.  The class counts with its subclasses.
    ('*', 'h5f'): STORE, ('*', 'cached'): 'selects where the quantity is kept, not its value (C16)', ('*', 'workers'): 'number of threads of the FFT', ('*', '_lock'): 'lock',
    ('*', 'show'): 'output of the solver', ('*', 'writable'): STORE,
    ('BeamformerBase', '_ac'): 'the result under construction; an entry is used only after it is computed (LazyBfResult, C04 oracle)', ('BeamformerBase', '_fr'): 'flags of _ac',
    ('BeamformerBase', '_f'): 'copy of freq_data.fftfreq() taken when result is built', ('BeamformerBase', '_numfreq'): 'copy of len(_f)',
    ('BeamformerAdaptiveGrid', '_gpos'): 'part of the result, built with it',
    ('BeamformerBase', 'size'): 'size of the points of steer.grid (grid digest)',
    ('BeamformerDamas', 'calcmode'): 'order of evaluation of the point spread function (C08)', ('BeamformerClean', 'calcmode'): 'order of evaluation of the point spread function (C08)',
    ('PointSpreadFunction', 'calcmode'): 'order of evaluation (C08)', ('PointSpreadFunction', 'freq'): 'argument of the query, part of the node name in the store (C16)', ('PointSpreadFunction', 'grid_indices'): 'argument of the query',
    ('PointSpreadFunction', '_ac'): STORE, ('PointSpreadFunction', '_gp'): STORE,
    ('PowerSpectra', '_index_set_last'): 'selects frequency lines for display; csm and its eigenvalues hold all lines', ('PowerSpectra', '_ind_low'): 'as _index_set_last', ('PowerSpectra', '_ind_high'): 'as _index_set_last',
    ('PowerSpectra', '_freqlc'): 'as _index_set_last', ('PowerSpectra', '_freqhc'): 'as _index_set_last',
    ('C04 size LineGrid', 'length'): 'does not change the number of points', ('C04 shape LineGrid', 'length'): 'does not change the number of points', ('C04 size LineGrid', 'loc'): 'does not change the number of points', ('C04 shape LineGrid', 'loc'): 'does not change the number of points', ('C04 size LineGrid', 'direction'): 'does not change the number of points', ('C04 shape LineGrid', 'direction'): 'does not change the number of points',
    ('GeneralFlowEnvironment', 'idict'): 'memo by the digest', ('SteeringVector', '_steer_funcs_freq'): 'table of functions, never assigned',
    ('Cache', 'source'): 'source.digest', ('SamplesBuffer', ''): 'buffer, not a processing object: its contents are under contract in C15', ('SampleSplitter', ''): 'hands on the blocks of its source (C15)',
    ('SoundDeviceSamplesGenerator', ''): 'hardware input',
    ('AngleTracker', '_rpm'): 'result of the last calculation, renewed when the digest changes', ('AngleTracker', '_angle'): 'as _rpm', ('AngleTracker', '_calc_flag'): 'reset when the digest changes',
    ('WriteH5', 'file'): 'where the copy goes', ('WriteH5', 'precision'): 'precision of the copy', ('WriteH5', 'metadata'): 'stored with the copy', ('WriteH5', 'write_flag'): 'interrupts writing',
    ('WriteWAV', ''): 'writes a copy of its source; has no output',
    ('TimeConvolve', '_block_size'): 'block size of the caller; the output does not depend on it (C21)',
    ('C03 MaskedTimeSamples', 'num_channels_total'): 'extent of data', ('C03 MaskedTimeSamples', 'num_samples_total'): 'extent of data',
    ('PointSourceConvolve', 'env'): 'locations are validated, the value does not depend on it',
    ('SteeringVector', '_steer_funcs_time'): 'table of functions, never assigned', ('BeamformerGIB', 'r_diag'): 'the inverse method uses the full matrix and never reads it', ('MetricEvaluator', ''): 'no digest and no cached quantities', ('Config', ''): 'global configuration',
    ('=BaseSpectra', 'source'): 'abstract: the digests of the subclasses contain source.digest',
}
# state that stands for another one: it is set together with it (checksum, length)
SAME = {('PowerSpectraImport', '_csm'): '_csmsum', ('TimeSamples', 'data'): '_datachecksum', ('Calib', 'num_mics'): 'data'}
ESCAPES = {'digest', 'TraitError', 'LazyBfResult', 'SamplesBuffer', 'get_cache_file', '__init__', 'weights_', 'ldigest'}
SKIP = {'export_mpos', 'export_gpos', 'import_data', 'save',       # write or read files named by the caller
        'sig_loss_norm', '_beamformer_params'}       # factor of the maps: counted where a map uses it

def exempt(ci, leaf, prop=''):
    mro = {c.name for c in S.mro(ci)} | {'*', '=' + ci.name, prop, prop + ' ' + ci.name}
    for (c, p) in EXEMPT:
        if c in mro and (p == '' or leaf[0] == p): return True
    # not an attribute of the class at all: reading it would raise
    return F.kind(ci, leaf[0]) is None and not leaf[0].startswith('_') and not any(isinstance(x, ast.Attribute) and x.attr == leaf[0] and isinstance(x.ctx, ast.Store) for c in S.mro(ci) for m in c.methods.values() for x in ast.walk(m))

def classes():
    for mn in S.all_modules():
        if '.deprecated' in mn or '.tests' in mn or '.demo' in mn: continue
        for cn in S.module(mn).classes: yield S.find_class(cn, mn)

def uncovered(ci, R, deps, prop=''):
    cov = F.covers(ci, deps, values=prop == 'C03')
    same = {l: (r,) for c in S.mro(ci) for (n, l), r in SAME.items() if c.name == n}
    bad = {'.'.join(l): w for l, w in R.leaves.items() if not F.covered(l, cov, ci) and not (l[0] in same and F.covered(same[l[0]], cov, ci)) and not exempt(ci, l, prop)}
    for c, w in R.escapes:
        if c not in ESCAPES: bad['self'] = f'handed to {c} in {w}'
    return bad

def certain(ci, R, bad):
    """only settings that the class declares, and nothing escapes: the reads-clause itself is broken"""
    if any(c not in ESCAPES for c, w in R.escapes): return False
    for l in bad:
        p = tuple(l.split('.')); k = F.kind(ci, p[0])
        if k is None or k.kind not in ('plain', 'inst', 'list'): return False
        if len(p) > 1 and (p[1].startswith('_') or p[1].endswith('*')): return False
    return True

def stop(dg): return {e.split('.')[0].rstrip('[]') for e in dg.deps if '.' not in e}

def c04(ci):
    def f(t):
        for n in sorted({n for c in S.mro(ci) for n in c.traits}):
            k = F.kind(ci, n)
            if k.kind != 'prop' or not k.getter or n == 'digest' or (k.deps is None and not k.cached): continue
            R = F.Reads(ci); R.method(*k.getter)
            t.functions.add(f'{k.getter[0].mod.name}.{k.getter[0].name}._get_{n}')
            bad = uncovered(ci, R, k.deps, 'C04 ' + n)
            t.decided(f'{n}: every setting read is declared in depends_on', not bad, str(bad), certain(ci, R, bad))
        dg = F.kind(ci, 'digest')
        if dg is not None and dg.kind == 'prop' and dg.deps:
            cov = F.covers(ci, dg.deps)
            for e in dg.deps:
                k = F.kind(ci, e) if '.' not in e else None
                if k is not None and k.kind == 'list': t.decided(f'digest: a change of the items of {e} reaches it', (e, '[]') in cov, e, True)
        t.decided('derived quantities enumerated', True)
    return f

def c03(ci):
    def f(t):
        dg = F.kind(ci, 'digest'); ms = {}
        for c in S.mro(ci):
            for n, nd in c.methods.items(): ms.setdefault(n, (c, nd))
        for n, (c, nd) in ms.items():
            if n.startswith('_set_') or n in SKIP or n in ('_get_digest', '_get_inv_digest', '_get_basename', 'configure_traits') or F.deco(nd, 'on_trait_change') or F.deco(nd, 'observe'): continue
            if any(F.fname(d.func if isinstance(d, F.ast.Call) else d) == 'setter' for d in nd.decorator_list): continue
            if n[:5] == '_get_' and n[5:] in stop(dg): continue      # its value is in the identifier
            R = F.Reads(ci, stop(dg)); R.method(c, nd)
            t.functions.add(f'{c.mod.name}.{c.name}.{n}')
            bad = uncovered(ci, R, dg.deps, 'C03')
            t.decided(f'{n}: every setting read is in the digest', not bad, str(bad), certain(ci, R, bad))
    return f

for _c in classes():
    _n = sorted({n for c in S.mro(_c) for n in c.traits})
    if any(F.kind(_c, n).kind == 'prop' for n in _n): item('C04', f'{_c.name}: derived quantities declare what they read')(c04(_c))
    _d = F.kind(_c, 'digest')
    if _d is not None and _d.kind == 'prop' and _d.deps is not None: item('C03', f'{_c.name}: the digest contains what the outputs read')(c03(_c))

def interface():
    """(class of the part, attribute) read of a part somewhere in the package"""
    out = {}
    for ci in classes():
        R = F.Reads(ci)
        for c in S.mro(ci):
            for n, nd in c.methods.items(): R.method(c, nd)
        for l in R.leaves:
            k = F.kind(ci, l[0])
            if k is not None and k.kind == 'inst' and k.cls is not None and len(l) == 2 and l[1] not in ('*', '[]'): out.setdefault(k.cls, set()).add(l[1].rstrip('()'))
    return out

def c03_parts(ci):
    def f(t):
        for a in sorted(interface().get(ci, ())):
            for c in F.subclasses(ci):
                d = F.kind(c, 'digest')
                if d is None or d.kind != 'prop' or d.deps is None or a.endswith('digest'): continue
                k = F.kind(c, a)
                if k is None: continue
                R = F.Reads(c, stop(d)); R.resolve((a,), f'{ci.name}.{a}')
                bad = uncovered(c, R, d.deps, 'C03')
                t.decided(f'{c.name}.{a} is in its digest', not bad, str(bad), certain(c, R, bad))
        t.decided('parts enumerated', True)
    return f

try:
    for _c in interface():
        _d = F.kind(_c, 'digest')
        if _d is not None and _d.kind == 'prop': item('C03', f'parts of kind {_c.name}: what others read of them is in their digest')(c03_parts(_c))
except (KeyError, AttributeError, TypeError, IndexError, RecursionError, ValueError): pass
