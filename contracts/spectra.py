"""Contracts on the spectral classes (C05, C17, C18, C20): block windows, cross-spectral matrix, transforms, frequency selection."""
from pyvc.vc import *
SP = 'acoular.spectra:'
NS, NC, H, B = (IV(x) for x in ('ns', 'nc', 'H', 'b'))
FS = V('fs')

# ---------------------------------------------------------------- overlapping blocks
def windows(t, p, ov, x):
    """the yielded blocks are the windows x[b*inc : b*inc+bs], b = 0 .. NB-1, NB = max(ns div inc - ov + 1, 0), inc = bs/ov"""
    e = p.eng; bs = H * ov; hy = list(e.hyps)
    nb = ZERO
    def content(ev, b):
        v = ev.value; h = hy + [c for c in ev.hyps if c not in hy]
        if not isinstance(v, NDArr) or v.ndim != 2: raise Unsupported('block rank')
        for a, w in ((0, bs), (1, NC)):
            if v.shape[a] != P(w): t.obls.append(('extent', Oblig(f'extent of axis {a} of the block', h, Eq(v.shape[a], P(w)))))
        i, c = IV(fresh_name('i')), IV(fresh_name('c'))
        t.obls.append(('window', Oblig('values of the block', h + [Le(ZERO, i), Lt(i, bs), Le(ZERO, c), Lt(c, NC)], num(v.get((i, c))) - x((b * H + i, c)), 'zero')))
    evs = list(e.events)
    if any(x.guards for x in evs): raise Unsupported('block delivered under a condition inside a loop')
    while evs:
        grp = [evs.pop(0)]
        if grp[0].loops:
            if len(grp[0].loops) != 1: raise Unsupported('blocks in nested symbolic loops')
            while evs and evs[0].loops and evs[0].loops[0][0] == grp[0].loops[0][0]: grp.append(evs.pop(0))
            k, lo, hi = grp[0].loops[0]
            for j, ev in enumerate(grp): content(ev, nb + (k - lo) * len(grp) + j)
            nb = nb + (hi - lo) * len(grp)
        else:
            content(grp[0], nb); nb = nb + 1
    want = mkapp('floor', [NS * inverse(H)]) - ov + 1
    n = IV('nblk')
    # number of blocks: the largest n with (n - 1) * inc + bs <= ns, zero if there is none
    t.obls.append(('count', Oblig('every block that is delivered lies inside the signal', hy, Or(Eq(nb, 0), Le((nb - 1) * H + bs, NS)))))
    t.obls.append(('count', Oblig('no further block fits', hy, Lt(NS, nb * H + bs))))
    t.frame(p, 'no write to the samples of the source')

for ov in (1, 2, 4, 8):
    def _(ov=ov):
        @item(['C05', 'C17', 'C02'], f'BaseSpectra._get_source_data, {ov}-fold overlap: exactly the windows that fit, in order')
        def _(t):
            def f(e):
                e.unroll = True
                s = t.source(e, 'src', NS, NC)
                e.base_x = s.x
                t.method(e, t.obj(SP + 'PowerSpectra', source=s, block_size=H * ov, overlap_=ov, num_channels=NC), '_get_source_data')
            for p in t.run(f, [Le(ONE, NS), Le(ONE, NC), Le(ONE, H)], max_paths=200): windows(t, p, ov, p.eng.base_x)
    _()

# ---------------------------------------------------------------- cross-spectral matrix
NB, F, M = IV('nb'), IV('nf'), IV('m')
HOP = IV('hop')       # block_size / overlap, any value
def window_contract(t, name='x'):
    """contract proved above: block b is x[b*inc : b*inc + bs]"""
    def blocks(e, o):
        bs = P(num(o.attrs['block_size'])); inc = HOP
        t.assumed.add('acoular.spectra.BaseSpectra._get_source_data: contract proved in contracts/spectra.py')
        return SymIter(NB, lambda en, b: en.new(lambda ix: UF(name, [P(b) * inc + ix[0], ix[1]]), (bs, NC)))
    return blocks
def win(e, n): return e.new(lambda ix: UF('win', [ix[0]]), (num(n),))
def rline(e, bs, b, f, c, x='x'):
    """spectral line f of channel c in the windowed block b"""
    return npmodel.rfft_column(e, 'rfft', e.new(lambda q: UF(x, [b * HOP + q[0], c]) * UF('win', [q[0]]), (bs,), 'f'), f)
def csm_kernel(t):
    def k(e, csm, X):
        t.assumed.add('acoular.fastFuncs.calcCSM: contract proved in contracts/kernels.py')
        old = e.new(csm.snap(), csm.shape, 'c'); s = old.snap(); x = e.asarray(X).snap()
        e.write_view(csm, e.new(lambda ix: C(num(s(ix))) + ite(Le(ix[1], ix[2]), C(num(x((ix[0], ix[1])))) * C(num(x((ix[0], ix[2])))).conj(), C(0)), csm.shape, 'c'))
        return csm
    return k
for ov in ('any',):
    def _(ov=ov):
        @item(['C05'], f'PowerSpectra.calc_csm: 2/(bs |w|^2 num_blocks) times the sum of the outer products of the windowed block spectra')
        def _(t):
            bs = H * 2
            def f(e):
                s = t.source(e, 'src', NS, NC)
                o = t.obj(SP + 'PowerSpectra', source=s, block_size=bs, overlap_=IV('ov'), num_channels=NC, window_=PyFn(win), precision='complex128', num_blocks=V('nblocks'))
                return t.method(e, o, 'calc_csm')
            con = {('acoular.spectra', 'BaseSpectra._get_source_data'): window_contract(t), ('acoular.fastFuncs', 'calcCSM'): csm_kernel(t)}
            for p in t.run(f, [Le(ONE, NS), Le(ONE, NC), Le(ONE, H), Le(ZERO, NB), Lt(ZERO, V('nblocks'))], contracts=con):
                e = p.eng; b = Var('b', True); q = Var('q', True)
                W = make_sum([(q, ZERO, bs)], UF('win', [P(q)]) * UF('win', [P(q)]))
                def want(ix):
                    z = rline(e, bs, P(b), ix[0], ix[1]) * rline(e, bs, P(b), ix[0], ix[2]).conj()
                    s = inverse(bs) * inverse(W) * inverse(V('nblocks')) * 2
                    return Cx(make_sum([(b, ZERO, NB)], z.re) * s, make_sum([(b, ZERO, NB)], z.im) * s)
                t.equal(p, 'csm', p.val, e.new(want, (H + 1, NC, NC), 'c'))
                f, i, j = IV('fi'), IV('ci'), IV('cj')
                hy = list(e.hyps) + [Le(ZERO, f), Lt(f, H + 1)] + [c for v in (i, j) for c in (Le(ZERO, v), Lt(v, NC))]
                g = lambda *ix: C(num(p.val.get(tuple(P(x) for x in ix))))
                t.obls.append(('Hermitian', Oblig('Hermitian', hy, g(f, i, j) - g(f, j, i).conj(), 'zero')))
                t.obls.append(('real diagonal', Oblig('real diagonal', hy, g(f, i, i).im, 'zero')))
                t.obls.append(('non-negative diagonal', Oblig('non-negative diagonal', hy + [Lt(ZERO, W)], Le(ZERO, g(f, i, i).re))))
                t.frame(p, 'no write to the samples of the source')
    _()

@item(['C05', 'C17'], 'PowerSpectra.num_blocks: the number of windows of a signal of complete blocks')
def _(t):
    n = IV('n')
    for ov in (1, 2, 4, 8):
        def f(e):
            s = t.source(e, 'src', n * H, NC)
            return t.get(e, t.obj(SP + 'PowerSpectra', source=s, block_size=H * ov, overlap_=ov), 'num_blocks')
        for p in t.run(f, [Le(ONE, H), Le(P(ov), n)]): t.equal(p, f'overlap {ov}', p.val, n - ov + 1)      # the count proved of _get_source_data

# ---------------------------------------------------------------- eigendecomposition
@item(['C05'], 'PowerSpectra.calc_ev: eigenvalues and eigenvectors of the CSM of every line')
def _(t):
    def f(e):
        csm = t.inp(e, 'csm', (F, M, M), 'c')
        o = t.obj(SP + 'PowerSpectra', csm=csm, precision='complex128')
        return t.method(e, o, 'calc_ev'), t.method(e, o, 'calc_eva'), t.method(e, o, 'calc_eve'), csm
    for p in t.run(f, [Le(ONE, F), Le(ONE, M)]):
        e = p.eng; (w, v), w2, v2, csm = p.val
        at = lambda i: npmodel.eigh(e, e.index(csm, (i,)))
        ww = e.new(lambda ix: num(at(ix[0])[0].get((ix[1],))), (F, M)); vv = e.new(lambda ix: C(num(at(ix[0])[1].get(tuple(ix[1:])))), (F, M, M), 'c')
        for nm, g, x in (('eigenvalues', w, ww), ('eigenvectors', v, vv), ('calc_eva', w2, ww), ('calc_eve', v2, vv)): t.equal(p, nm, g, x)
        t.frame(p, 'the CSM is not written')

# ---------------------------------------------------------------- frequency axis and selection
FQ = lambda k, bs: P(k) * FS * inverse(P(bs))
for cls, attr in (('acoular.spectra:PowerSpectra', 'fftfreq'), ('acoular.fprocess:RFFT', 'fftfreq'), ('acoular.fprocess:RFFT', 'freqs')):
    def _(cls=cls, attr=attr):
        @item(['C20', 'C17'] + (['C05'] if 'Power' in cls else []), f'{cls.split(":")[1]}.{attr}: line k is k fs / bs, k = 0 .. bs/2')
        def _(t):
            bs = H * 2
            def f(e):
                o = t.obj(cls, source=SymObj(None, dict(sample_freq=FS), 'src'), block_size=bs)
                return t.method(e, o, 'fftfreq') if attr == 'fftfreq' else t.get(e, o, attr)
            for p in t.run(f, [Le(ONE, H), Lt(ZERO, FS)]): t.equal(p, 'frequencies', p.val, p.eng.new(lambda ix: FQ(ix[0], bs), (H + 1,)))
    _()

def freq_obj(t, **kw):
    return t.obj(SP + 'PowerSpectra', source=SymObj(None, dict(sample_freq=FS), 'src'), block_size=H * 2, **kw)
LC, HC, IL, IH = V('lc'), V('hc'), IV('il'), IV('ih')
def on(ix): return FQ(ix, H * 2)
@item('C20', 'PowerSpectra.indices, given index limits: exactly the lines ind_low <= i < ind_high')
def _(t):
    for nm, high, hy in (('both', IH, [Le(ZERO, IH)]), ('to the end', None, [])):
        def f(e): return t.get(e, freq_obj(t, _index_set_last=True, _ind_low=IL, _ind_high=high), 'indices')
        for p in t.run(f, [Le(ONE, H), Lt(ZERO, FS), Le(ZERO, IL)] + hy):
            e = p.eng; v = p.val; i, k = IV('i'), IV('k'); n = v.shape[0]
            x = num(v.get((k,)))
            top = H + 1 if high is None else IH
            t.goal(p, f'{nm}: consecutive', Eq(x, num(v.get((ZERO,))) + k), [Le(ZERO, k), Lt(k, n)])
            # indices beyond the axis are clipped to its last line
            inside = [Le(IL, H)] + ([Le(IH, H)] if high is not None else [])
            t.goal(p, f'{nm}: only lines in the range', And(Le(IL, x), Lt(x, top), Le(ZERO, x), Le(x, H)), inside + [Le(ZERO, k), Lt(k, n)])
            t.goal(p, f'{nm}: every line in the range', And(Le(ZERO, i - IL), Lt(i - IL, n), Eq(num(v.get((i - IL,))), i)), inside + [Le(IL, i), Lt(i, top), Le(i, H)])
@item('C20', 'PowerSpectra.indices, given frequency range: exactly the lines lc <= f < hc below the last')
def _(t):
    for nm, high in (('both', HC), ('to the end', None)):
        def f(e):
            o = freq_obj(t, _index_set_last=True)
            t.method(e, o, '_set_freq_range', [(LC, high)])
            r = t.get(e, o, 'indices')
            lo, hi = t.get(e, o, 'ind_low'), t.get(e, o, 'ind_high')
            return r, lo, hi
        for p in t.run(f, [Le(ONE, H), Lt(ZERO, FS)] + ([Le(LC, HC)] if high is not None else [])):
            e = p.eng; v, lo, hi = p.val; i, k = IV('i'), IV('k'); n = v.shape[0]; x = num(v.get((k,)))
            inr = lambda q: And(Le(LC, on(q)), *([Lt(on(q), HC)] if high is not None else []))
            t.goal(p, f'{nm}: consecutive', Eq(x, num(v.get((ZERO,))) + k), [Le(ZERO, k), Lt(k, n)])
            t.goal(p, f'{nm}: only lines in the range', inr(x), [Le(ZERO, k), Lt(k, n), Lt(x, H)] + t.inst(e, (x,)))
            t.goal(p, f'{nm}: every line in the range', And(Le(ZERO, i - num(lo)), Lt(i - num(lo), n), Eq(num(v.get((i - num(lo),))), i)), [Le(ZERO, i), Lt(i, H), inr(i)] + t.inst(e, (i,)))
@item('C20', 'PowerSpectra.freq_range: the frequencies at ind_low and ind_high')
def _(t):
    for nm, high, hy in (('both', IH, [Le(ZERO, IH), Le(IH, H)]), ('to the end', None, [])):
        def f(e): return t.get(e, freq_obj(t, _index_set_last=True, _ind_low=IL, _ind_high=high), 'freq_range')
        for p in t.run(f, [Le(ONE, H), Lt(ZERO, FS), Le(ZERO, IL), Le(IL, H)] + hy):
            if high is None: t.equal(p, 'low', p.val[0] if isinstance(p.val, (list, tuple)) else p.eng.index(p.val, (0,)), on(IL))
            else: t.equal(p, nm, p.val, p.eng.new(lambda ix: ite(Eq(ix[0], 0), on(IL), on(IH)), (P(2),)))

@item('C20', 'PowerSpectra.synthetic_ev: eigenvalues of the line, or their sum over the lines f1 <= f < f2')
def _(t):
    X, N = V('fq'), V('num')
    def mk(e):
        eva = t.inp(e, 'eva', (F, M)); fr = t.inp(e, 'freq', (F,))
        return t.obj(SP + 'PowerSpectra', eva=eva, fftfreq=PyFn(lambda en: fr)), fr
    EV = lambda i, m: UF('eva', [P(i), m])
    m = IV('mm')
    def f(e):
        o, fr = mk(e)
        return t.method(e, o, 'synthetic_ev', [X, 0]), npmodel.searchsorted(e, fr, X), fr
    for p in t.run(f, [Le(ONE, F), Le(ONE, M), Le(X, UF('freq', [F - 1]))]):
        v, k, fr = p.val
        t.obls.append(('line', Oblig('line', list(p.eng.hyps) + [Le(ZERO, m), Lt(m, M), Lt(k, F)], num(v.get((m,))) - EV(k, m), 'zero')))
    def f(e):
        o, fr = mk(e)
        pw = lambda s: X * mkapp('pow', [P(2), s * Fraction(1, 2) * inverse(N)])
        return t.method(e, o, 'synthetic_ev', [X, N]), npmodel.searchsorted(e, fr, pw(P(-1))), npmodel.searchsorted(e, fr, pw(ONE)), pw(P(-1)), pw(ONE)
    for p in t.run(f, [Le(ONE, F), Le(ONE, M), Lt(ZERO, N), Lt(ZERO, X), Le(X * mkapp('pow', [P(2), inverse(N) * Fraction(-1, 2)]), UF('freq', [F - 1]))]):
        e = p.eng; v, k1, k2, f1, f2 = p.val; j = IV('j'); jj = Var('jj', True)
        if pv.entails(e.hyps, Eq(k1, k2)): continue
        t.obls.append(('band', Oblig('band', list(e.hyps) + [Le(ZERO, m), Lt(m, M), Lt(k1, k2)], num(v.get((m,))) - make_sum([(jj, k1, k2)], EV(P(jj), m)), 'zero')))
        c1, c2 = And(Le(k1, j), Lt(j, k2)), And(Le(f1, UF('freq', [j])), Lt(UF('freq', [j]), f2))
        t.goal(p, 'exactly the lines inside the band', Or(And(c1, c2), And(Not(c1), Not(c2))), [Le(ZERO, j), Lt(j, F)] + t.inst(e, (j,)))

# ---------------------------------------------------------------- streamed spectra (C17, C18)
FP = 'acoular.fprocess:'
NUM = IV('num')
def scale_of(t, o, e): return t.method(e, o, '_get_scaling_value')
@item('C18', 'AutoPowerSpectra._get_scaling_value: (2) / bs^2, times bs/fs for densities')
def _(t):
    BS = IV('bs')
    for ss in (True, False):
        for sc in ('power', 'psd'):
            def f(e): return t.method(e, t.obj(FP + 'AutoPowerSpectra', source=SymObj(None, dict(sample_freq=FS), 'src'), block_size=BS, single_sided=ss, scaling=sc), '_get_scaling_value')
            for p in t.run(f, [Le(ONE, BS), Lt(ZERO, FS)]): t.equal(p, f'{sc} {ss}', num(p.val), inverse(BS) * inverse(BS) * (2 if ss else 1) * (BS * inverse(FS) if sc == 'psd' else 1))
@item(['C18', 'C02', 'C01'], 'AutoPowerSpectra.result: squared magnitude of every line, scaled')
def _(t):
    def f(e):
        s = t.source(e, 'src', NS, NC * F, kind='c')
        e.base_x = s.x
        t.method(e, t.obj(FP + 'AutoPowerSpectra', source=s, precision='float64', _get_scaling_value=PyFn(lambda en: V('scale'))), 'result', [NUM])
    for p in t.run(f, [Le(ONE, NUM), Le(ONE, NS), Le(ONE, NC), Le(ONE, F)]):
        x = p.eng.base_x
        t.stream(p, 'stream', NUM, NS, (NC * F,), lambda i, c: C(x((i, c))).abs2() * V('scale'))
        t.frame(p, 'no write to the spectra of the source')
for mode in ('full', 'upper', 'lower'):
    def _(mode=mode):
        @item(['C18', 'C02', 'C01'], f'CrossPowerSpectra.result, {mode}: products of one channel with the conjugate of the other, in documented order')
        def _(t):
            def f(e):
                s = t.source(e, 'src', NS, NC, kind='c', elem=lambda ix: Cx(UF('sp.re', ix), UF('sp.im', ix)))
                s.attrs['result'] = PyFn(lambda en, num=None: StreamIter(en, st(en, num)))
                def st(en, n):
                    z = Stream(en, 'src', NS, P(n), (NC * F,), lambda ix: Cx(UF('sp.re', ix), UF('sp.im', ix)), 'c')
                    en.hyps += [h for h in z.facts() if h not in en.hyps]
                    return z
                n = {'full': NC * NC}.get(mode, (NC * NC + NC).scale(Fraction(1, 2)))
                t.method(e, t.obj(FP + 'CrossPowerSpectra', source=s, precision='complex128', calc_mode=mode, num_freqs=F, num_channels=n, _get_scaling_value=PyFn(lambda en: V('scale'))), 'result', [NUM])
            for p in t.run(f, [Le(ONE, NUM), Le(ONE, NS), Le(ONE, NC), Le(ONE, F)], contracts={('acoular.fastFuncs', 'calcCSM'): csm_kernel(t)}):
                X = lambda i, q, c: Cx(UF('sp.re', [i, q * NC + c]), UF('sp.im', [i, q * NC + c]))
                q, a, b, k = IV('q'), IV('a'), IV('bb'), IV('kk')
                rng = [Le(ZERO, q), Lt(q, F)]
                if mode == 'full':
                    rng += [c for v in (a, b) for c in (Le(ZERO, v), Lt(v, NC))]
                    t.stream(p, 'stream', NUM, NS, (NC * NC * F,), lambda i, q, a, b: X(i, q, a) * X(i, q, b).conj() * V('scale'), kind='c', coords=lambda: ((q * NC * NC + a * NC + b,), rng, (q, a, b)))
                else:
                    K = (NC * NC + NC).scale(Fraction(1, 2)); nm = 'int:triu' if mode == 'upper' else 'int:tril'
                    r, c = UF(nm + '.r', [NC, k], True), UF(nm + '.c', [NC, k], True)
                    rng += [Le(ZERO, k), Lt(k, K)]
                    t.stream(p, 'stream', NUM, NS, (K * F,), lambda i, q, r, c: X(i, q, r) * X(i, q, c).conj() * V('scale'), kind='c', coords=lambda: ((q * K + k,), rng, (q, r, c)))
                t.frame(p, 'no write to the spectra of the source')
    _()
@item('C18', 'CrossPowerSpectra.num_channels: number of delivered channel pairs')
def _(t):
    for mode, w in (('full', NC * NC), ('upper', (NC * NC + NC).scale(Fraction(1, 2))), ('lower', (NC * NC + NC).scale(Fraction(1, 2)))):
        def f(e): return t.get(e, t.obj(FP + 'CrossPowerSpectra', source=SymObj(None, dict(num_channels=NC), 'src'), calc_mode=mode), 'num_channels')
        for p in t.run(f, [Le(ONE, NC)]): t.equal(p, mode, num(p.val), w)
for scaling in ('none', 'energy', 'amplitude'):
    for n in (NUM,):
        def _(scaling=scaling, n=n):
            @item(['C17', 'C02', 'C01'], f'RFFT.result, scaling {scaling}: scaled transforms of the windowed blocks, in order')
            def _(t):
                bs = H * 2
                def f(e):
                    e.chunk = NUM
                    s = t.source(e, 'src', NS, NC)
                    t.method(e, t.obj(FP + 'RFFT', source=s, block_size=bs, overlap_=IV('ov'), num_channels=NC, num_freqs=H + 1, window_=PyFn(win), precision='complex128', scaling=scaling, workers=None), 'result', [n])
                for p in t.run(f, [Le(ONE, NS), Le(ONE, NC), Le(ONE, H), Le(ONE, NB), Le(ONE, NUM)], contracts={('acoular.spectra', 'BaseSpectra._get_source_data'): window_contract(t)}):
                    e = p.eng; v = Var('v', True)
                    W2 = make_sum([(v, ZERO, bs)], UF('win', [P(v)]) * UF('win', [P(v)])); W1 = make_sum([(v, ZERO, bs)], UF('win', [P(v)]))
                    sc = inverse(W1) if scaling == 'amplitude' else inverse(mkapp('sqrt', [W2 * inverse(bs)]))
                    k, c = IV('k'), IV('c')
                    rng = [Le(ZERO, k), Lt(k, H + 1), Le(ZERO, c), Lt(c, NC)]
                    def spec(i, k, c):
                        one = ite(And(Le(ONE, k), Lt(k, H)), P(2), ONE) if scaling != 'none' else ONE
                        return rline(e, bs, i, k, c) * sc * one
                    t.stream(p, 'stream', P(n), NB, ((H + 1) * NC,), spec, kind='c', coords=lambda: ((k * NC + c,), rng, (k, c)))
                    t.frame(p, 'no write to the samples of the source')
        _()
@item(['C17', 'C01'], 'RFFT.num_samples: the number of windows that fit into the signal')
def _(t):
    for ov in (1, 2, 4, 8):
        def f(e): return t.get(e, t.obj(FP + 'RFFT', source=SymObj(None, dict(num_samples=NS), 'src'), block_size=H * ov, overlap_=ov), 'num_samples')
        for p in t.run(f, [Le(ONE, H), Le(ZERO, NS)]):
            n = num(p.val)
            t.goal(p, f'overlap {ov}: not negative', Le(ZERO, n))
            t.goal(p, f'overlap {ov}: every window fits', Or(Eq(n, 0), Le((n - 1) * H + H * ov, NS)))
            t.goal(p, f'overlap {ov}: no further window fits', Lt(NS, n * H + H * ov))
@item(['C17', 'C02', 'C01'], 'IRFFT.result, one spectrum per block: the inverse transform of every spectrum, in order')
def _(t):
    bs = H * 2; X = lambda ix: Cx(UF('sp.re', ix), UF('sp.im', ix))
    def f(e):
        s = t.source(e, 'src', NS, NC * (H + 1), kind='c', elem=X, block_size=bs, num_freqs=H + 1)
        t.method(e, t.obj(FP + 'IRFFT', source=s, num_channels=NC, workers=None, precision='float64'), 'result', [bs])
    for p in t.run(f, [Le(ONE, NS), Le(ONE, NC), Le(ONE, H)]):
        e = p.eng
        def spec(i, c):
            k = mkapp('idiv', [i, bs], True); r = mkapp('mod', [i, bs], True)
            key = npmodel.akey(e.new(lambda q: X((k, q[0] * NC + c)), (H + 1,), 'c'), bs)
            return UF('fn:irfft', key + [r])
        t.stream(p, 'stream', bs, NS * bs, (NC,), spec)
        t.frame(p, 'no write to the spectra of the source')
