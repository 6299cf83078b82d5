"""Contracts on the data streams of Cache (C16).

The cache file is a ghost object: `rows` counts the rows appended to the node, `complete` is its attribute.  append_data
obliges that the block appended consists of the next rows of the data stream of the source; the attribute `complete` may
only be set when all rows have been appended; a node is only removed or rewritten, never changed in place.  With it, each
generator satisfies the block-stream contract with the stream of the source as its value."""
from pyvc.vc import *
PR = 'acoular.process:'
NUM, NS, NC, T0 = IV('num'), IV('ns'), IV('nc'), IV('stored')
PRE = [Le(ONE, NUM), Le(ONE, NS), Le(ONE, NC)]
X = lambda i, c: UF('src.x', [i, c])

class File:
    """ghost state of the cache file: one node, its number of rows and its attribute `complete` (None: not set)"""
    def __init__(self, t, e, stored=None, complete=False, readonly=False):
        self.t = t; self.e = e; self.there = stored is not None; self.complete = complete; self.readonly = readonly
        self.rows = e.new(lambda ix: ZERO if stored is None else stored, (), 'i')
        self.exists = e.new(lambda ix: ONE if self.there else ZERO, (), 'i')
        self.rows.st.owner = self.exists.st.owner = 'ghost'
        # invariant of the file: a node holds the first rows of the source (kept by append_data below)
        self.data = e.new(lambda ix: X(ix[0], ix[1]), (ZERO if stored is None else stored, NC), owner='file')
    def put(self, v, exists=None):
        self.rows.st.elem = memo(lambda ix, v=P(v): v); self.rows.st.writes += 1
        if exists is not None: self.exists.st.elem = memo(lambda ix: P(exists)); self.exists.st.writes += 1
    @property
    def n(self): return num(self.rows.get(()))
    def write(self, en):
        if self.readonly and not en.quiet: en.oblige('nothing is written in this mode', FALSE)
    def obj(self):
        e = self.e
        def create(en, name, shape, dtype):
            self.write(en)
            if not en.quiet: en.oblige('there is no node of this name', Eq(num(self.exists.get(())), 0)); en.oblige('the new node has one column per channel', Eq(num(shape[1]), NC)); en.oblige('the new node is empty', Eq(num(shape[0]), 0))
            self.data = None; self.put(ZERO, 1)
        def append(en, node, block):
            self.write(en)
            if not en.quiet:
                i, c = IV('ai'), IV('acol'); h = list(en.hyps) + [Le(ZERO, i), Lt(i, block.shape[0]), Le(ZERO, c), Lt(c, NC)]
                en.obls.append(Oblig('the rows appended are the next rows of the source', h, sub(num(block.get((i, c))), X(self.n + i, c)), 'zero'))
            self.put(self.n + block.shape[0])
        def attr(en, node, name, v):
            self.write(en)
            if name == 'complete' and v is True and not en.quiet: en.oblige('complete only when every row of the source is in the file', Eq(self.n, NS))
        def remove(en, name):
            self.write(en)
            if not en.quiet: en.oblige('there is a node of this name', Eq(num(self.exists.get(())), 1))
            self.data = None; self.put(ZERO, 0)
        def read(en, k):
            if self.data is None: raise Unsupported('reads a node that is being written')
            return en.index(self.data, k)
        attrs = SymObj(None, {'__contains__': PyFn(lambda en, n: n == 'sample_freq' or n == 'complete' and self.complete is not None), '__getitem__': PyFn(lambda en, n: self.complete)}, 'attrs')
        node = SymObj(None, {'attrs': attrs, '__getitem__': PyFn(read), 'shape': self.data.shape, '__len__': PyFn(lambda en: self.data.shape[0])}, 'node')
        return SymObj(None, dict(create_extendable_array=PyFn(create), append_data=PyFn(append), set_node_attribute=PyFn(attr), flush=PyFn(lambda en: None),
                                 get_data_by_reference=PyFn(lambda en, name: node), is_cached=PyFn(lambda en, name: Not(Eq(num(self.exists.get(())), 0))), remove_data=PyFn(remove)), 'h5f')

def cache(name, method, stored=None, hyps=(), mode=None, complete=False, file=True):
    @item('C16', f'Cache.{method}: {name}', budget=200)
    def _(t):
        def f(e):
            s = t.source(e, 'src', NS, NC)
            F = File(t, e, stored, complete, mode == 'readonly'); e.file = F; e.hints = [lambda ix, k: None if ix else P(k) * NUM, lambda ix, k: None if ix else ite(Lt(ZERO, P(k)), ONE, ZERO)]
            o = t.obj(PR + 'Cache', source=s, h5f=F.obj() if file else None, digest='_d', basename='b', sample_freq=V('fs'), num_samples=NS, num_channels=NC)
            if mode:
                e.overrides['acoular.process', 'config'] = SymObj(None, dict(global_caching=mode), 'config')
                e.overrides['acoular.process', 'H5cache'] = SymObj(None, dict(get_cache_file=PyFn(lambda en, *a: None)), 'H5cache')
                t.assumed.add('H5cache.get_cache_file opens the cache file of the given name as h5f, or sets it to None')
            t.method(e, o, method, [NUM])
        for p in t.run(f, PRE + list(hyps)):
            t.stream(p, 'stream', NUM, NS, (NC,), X)
            if method in ('_write_data_to_cache', '_get_data_from_incomplete_cache') or file and mode in ('all', 'individual', 'overwrite'):
                t.goal(p, 'the file holds every row in the end', Eq(p.eng.file.n, NS))
cache('passes the blocks of the source on', '_pass_data')
cache('passes the blocks of the source on and stores them in order', '_write_data_to_cache')
cache('delivers the rows of the complete node', '_get_data_from_cache', NS)
PART = [Le(ZERO, T0), Le(T0, NS)]
cache('delivers the stored blocks, then the others, and stores all', '_get_data_from_incomplete_cache', T0, PART)
for mode in ('none', 'readonly', 'all', 'individual', 'overwrite'):
    cache(f'mode {mode}, not in the file: the stream of the source', 'result', mode=mode, file=mode != 'none')
    cache(f'mode {mode}, in the file: the stream of the source', 'result', NS, mode=mode, complete=True, file=mode != 'none')
    cache(f'mode {mode}, incomplete: the stream of the source', 'result', T0, PART, mode=mode, file=mode != 'none')
    cache(f'mode {mode}, never completed: the stream of the source', 'result', T0, PART, mode=mode, complete=None, file=mode != 'none')
    cache(f'mode {mode}, no cache file: the stream of the source', 'result', mode=mode, file=False)

# ---------------------------------------------------------------- arrays in cache files (cross-spectral matrix, maps, point spread functions)
class Store:
    """ghost cache file: name -> array.  `create_compressible_array` makes an array of zeros, reading never changes one."""
    def __init__(self, e, arrays, readonly): self.e = e; self.a = dict(arrays); self.new = []; self.groups = set(); self.writes = 0; self.readonly = readonly
    def name(self, n, loc='/'): return (loc.rstrip('/') + '/' + n) if isinstance(loc, str) else loc.attrs['path'] + '/' + n
    def obj(self):
        def w(en):
            if self.readonly and not en.quiet: en.oblige('nothing is written in this mode', FALSE)
        def there(en, n, *a): return any(k == '/' + n or k.startswith('/' + n + '/') for k in self.a)
        def create(en, n, shape, dtype, group='/'):
            w(en); k = self.name(n, group)
            if k in self.a: en.oblige('there is no array of this name', FALSE)
            self.a[k] = en.new(lambda ix: ZERO, tuple(P(num(s)) for s in shape), 'c' if str(dtype).startswith('complex') else 'i' if dtype == 'int8' else 'f', owner='file'); self.new.append(k)
        def group(en, n, *a): w(en); return SymObj(None, {'path': '/' + n}, 'group')
        def get(en, n, loc='/'):
            k = self.name(n, loc)
            if k not in self.a: raise Unsupported('no array ' + k)
            return self.a[k]
        def remove(en, n, *a):
            w(en)
            for k in [k for k in self.a if k == '/' + n or k.startswith('/' + n + '/')]: del self.a[k]
        return SymObj(None, dict(create_compressible_array=PyFn(create), create_new_group=PyFn(group), get_data_by_reference=PyFn(get), is_cached=PyFn(there), remove_data=PyFn(remove), flush=PyFn(lambda en: None)), 'h5f')

SP = 'acoular.spectra:'
BS = IV('block_size'); NF = IV('nfreq'); MODES = ('none', 'readonly', 'all', 'individual', 'overwrite')
def W(tr):
    def g(ix): return UF(tr, list(ix)) if tr == 'eva' else Cx(UF(tr + '.re', list(ix)), UF(tr + '.im', list(ix)))
    return g
SHAPE = lambda tr: (NF, NC) if tr == 'eva' else (NF, NC, NC)
def spectral(tr, mode, state, cached, file):
    @item('C16', f'PowerSpectra.{tr}: mode {mode}, {state}' + ('' if file else ', no file') + ('' if cached else ', caching off') + ': the value that is computed')
    def _(t):
        kd = 'f' if tr == 'eva' else 'c'
        def f(e):
            st = {} if state == 'absent' else {f'/{tr}_d': e.new((lambda ix: ZERO) if state == 'initialised' else W(tr), SHAPE(tr), kd, owner='file')}
            S = e.store = Store(e, st, mode == 'readonly' or not file)
            e.overrides['acoular.spectra', 'config'] = SymObj(None, dict(global_caching=mode), 'config')
            e.overrides['acoular.spectra', 'H5cache'] = SymObj(None, dict(get_cache_file=PyFn(lambda en, *a: None)), 'H5cache')
            t.assumed.add('H5cache.get_cache_file opens the cache file of the given name as h5f, or sets it to None')
            kw = {} if tr == 'csm' else {'csm': e.new(W('csm'), SHAPE('csm'), 'c', owner='input')}
            o = t.obj(SP + 'PowerSpectra', source=SymObj(None, dict(num_channels=NC), 'src'), block_size=BS, precision='complex128', digest='d', basename='b', cached=cached, h5f=S.obj() if file else None, **kw)
            return t.get(e, o, tr)
        calc = {('acoular.spectra', f'PowerSpectra.calc_{x}'): (lambda e, *a, x=x: e.new(W(x), SHAPE(x), 'f' if x == 'eva' else 'c')) for x in ('csm', 'eva', 'eve')}
        for p in t.run(f, [Le(ONE, NC), Le(ONE, NF), Eq(BS, 2 * NF - 2), Le(P(2), NF)], contracts=calc):
            r = p.val; ix = tuple(IV(c) for c in 'ijk'[:len(SHAPE(tr))])
            t.equal(p, 'shape', tuple(r.shape), SHAPE(tr))
            rg = [c for i, s in zip(ix, SHAPE(tr)) for c in (Le(ZERO, i), Lt(i, s))]
            t.equal(p, 'value', r.get(ix), W(tr)(ix), rg)
            if state == 'value' and file and mode in ('all', 'individual') and cached: t.goal(p, 'the stored array is used', TRUE if not p.eng.store.new else FALSE)
            k = f'/{tr}_d'
            if file and mode in ('all', 'overwrite') : t.equal(p, 'what is in the file in the end', p.eng.store.a[k].get(ix), W(tr)(ix), rg)
for tr in ('csm', 'eva', 'eve'):
    for mode in MODES:
        for state in ('absent', 'initialised', 'value') if mode != 'none' else ('value',): spectral(tr, mode, state, True, mode != 'none')
    spectral(tr, 'individual', 'value', False, False); spectral(tr, 'all', 'absent', True, False); spectral(tr, 'readonly', 'absent', True, False)

FB = 'acoular.fbeamform:'
G, NF2 = IV('gs'), IV('numfreq')
def bfresult(cls, mode, state, file=True):
    @item('C16', f'{cls}.result: mode {mode}, {state}' + ('' if file else ', no file') + ': the rows that are flagged hold the map, in a place of their own when nothing may be written')
    def _(t):
        sodix, adapt = cls == 'BeamformerSODIX', cls == 'BeamformerCMF_adaptive'
        cols = G * NC if sodix else G
        def f(e):
            st = {} if state == 'absent' else {f'/{cls}d/result': e.new(lambda ix: ite(Eq(UF('flag', [ix[0]], True), 0), UF('junk', list(ix)), UF('map', list(ix))), (NF2, cols), owner='file'),
                                               f'/{cls}d/freqs': e.new(lambda ix: UF('flag', [ix[0]], True), (NF2,), 'i', owner='file')}
            S = e.store = Store(e, st, mode == 'readonly' or not file)
            e.overrides['acoular.fbeamform', 'config'] = SymObj(None, dict(global_caching=mode), 'config')
            e.overrides['acoular.fbeamform', 'H5cache'] = SymObj(None, dict(get_cache_file=PyFn(lambda en, *a: None)), 'H5cache')
            t.assumed.add('H5cache.get_cache_file opens the cache file of the given name as h5f, or sets it to None')
            o = t.obj(FB + cls, freq_data=SymObj(None, dict(num_channels=NC, basename='b', fftfreq=PyFn(lambda en: t.inp(en, 'f', (NF2,)))), 'freq_data'), precision='float64', digest='d', cached=True, h5f=S.obj() if file else None,
                      steer=SymObj(None, dict(grid=SymObj(None, dict(size=G), 'grid'), mics=SymObj(None, dict(num_mics=NC), 'mics')), 'steer'))
            return o, t.get(e, o, 'result')
        for p in t.run(f, [Le(ONE, G), Le(ONE, NF2), Le(ONE, NC)], contracts={('acoular.fbeamform', 'LazyBfResult'): lambda e, bf: SymObj(None, dict(of=bf), 'lazy')}):
            o, lazy = p.val; t.goal(p, 'the result refers to this object', TRUE if lazy.attrs['of'] is o else FALSE); ac, fr = o.attrs['_ac'], o.attrs['_fr']; i, j = IV('i'), IV('j')
            t.equal(p, 'rows and columns', tuple(ac.shape), (NF2, cols)); t.equal(p, 'flags', tuple(fr.shape), (NF2,))
            rg = [Le(ZERO, i), Lt(i, NF2), Le(ZERO, j), Lt(j, cols)]
            stored = state != 'absent' and file and mode not in ('none', 'overwrite')
            t.equal(p, 'flag of a row', num(fr.get((i,))), UF('flag', [i], True) if stored else ZERO, rg)
            t.equal(p, 'row that is flagged', ite(Eq(num(fr.get((i,))), 0), ZERO, num(ac.get((i, j)))), ite(Eq(num(fr.get((i,))), 0), ZERO, UF('map', [i, j])), rg)
            own = [ac.st.owner, fr.st.owner]
            if mode in ('none', 'readonly') or not file: t.goal(p, 'later rows are not written to the file', FALSE if 'file' in own else TRUE)
            elif mode in ('all', 'overwrite'): t.goal(p, 'later rows are written to the file', TRUE if own == ['file', 'file'] else FALSE)
for cls in ('BeamformerBase', 'BeamformerSODIX'):
    for mode in MODES:
        for state in ('absent', 'rows and flags stored') if mode != 'none' else ('absent',): bfresult(cls, mode, state, mode != 'none')
    bfresult(cls, 'all', 'absent', False); bfresult(cls, 'readonly', 'absent', False)
