"""Contracts on the beamformer classes (C06, C08, C09): the glue between settings, kernels and the result arrays.
The compiled kernels enter through their own contracts (contracts/kernels.py)."""
from pyvc.vc import *
FB = 'acoular.fbeamform:'
F, M, G, S, E = (IV(x) for x in 'FMGSE')
CS, PI, NF = V('c'), V('pi'), V('nf')
SZ = [Le(ONE, F), Le(P(2), M), Le(ONE, G), Lt(ZERO, CS)]
def pos(e, name, shape):
    pv.POSITIVE.add(name); pv.NONNEG.add(name)
    return Task.inp(e, name, shape)

def quad(e, kind, rdiag, st, csm):
    """(h^H C h (without the diagonal terms), |h|^2) of beamformerFreq as opaque functions of its arguments; their meaning
    is the contract proved of the kernel in contracts/kernels.py"""
    k = npmodel.akey(st, csm); n = (st if kind == 'custom' else st[0]).shape[0]
    nm = f'bf:{kind}:{bool(rdiag)}:{"eig" if isinstance(csm, tuple) else "full"}'
    pl.OPAQUE[nm] = pl.OPAQUE['n' + nm] = len(k)
    return e.new(lambda ix: UF(nm, k + [ix[0]]), (n,)), e.new(lambda ix: UF('n' + nm, k + [ix[0]]), (n,))
def kernel_contracts(t):
    def bff(e, kind, rdiag, nf, st, csm):
        q, n = quad(e, kind, rdiag, st, csm)
        t.assumed.add('acoular.fastFuncs.beamformerFreq: contract proved in contracts/kernels.py')
        return e.binop('Mult', q, nf), n
    return {('acoular.fastFuncs', 'beamformerFreq'): bff, ('acoular.fbeamform', 'BeamformerBase.sig_loss_norm'): lambda e, o: NF}

def steering(t, e, kind):
    r0 = pos(e, 'r0', (G,)); rm = pos(e, 'rm', (G, M))
    o = t.obj(FB + 'SteeringVector', steer_type=kind, r0=r0, rm=rm, env=SymObj(None, dict(c=CS), 'env'), grid=SymObj(None, dict(size=G), 'grid'), mics=SymObj(None, dict(num_mics=M), 'mics'))
    return o, r0, rm

@item('C06', 'BeamformerBase.sig_loss_norm: 1, M/(M-1) or the given factor')
def _(t):
    R = V('rn')
    for nm, rd, rn, hy, want in (('with diagonal', False, R, [], ONE), ('default', True, R, [Eq(R, 0)], M * inverse(M - 1)), ('given', True, R, [Not(Eq(R, 0))], R)):
        def f(e): return t.method(e, t.obj(FB + 'BeamformerBase', r_diag=rd, r_diag_norm=rn, freq_data=SymObj(None, dict(num_channels=M), 'fd')), 'sig_loss_norm')
        for p in t.run(f, SZ + hy): t.equal(p, nm, num(p.val), want)

KINDS = ('classic', 'inverse', 'true level', 'true location')
def run_calc(t, cls, kind, rdiag, extra=lambda t, e: {}, fd=lambda t, e: {}, contracts={}, hyps=(), cons=None):
    """runs cls._calc on an arbitrary list of frequency indices; yields (path, step of the result, step of the flags, row index, data)"""
    def f(e):
        if kind == 'custom':
            tf = PyFn(lambda en, fq, ind=None: en.new(lambda ix: Cx(UF('sv.re', [num(fq), ix[0] if ind is None else num(ind)] + [ix[1]]), UF('sv.im', [num(fq), ix[0] if ind is None else num(ind)] + [ix[1]])), (G if ind is None else ONE, M), 'c'))
            st = SymObj(None, dict(steer_vector=tf, grid=SymObj(None, dict(size=G), 'grid'), mics=SymObj(None, dict(num_mics=M), 'mics')), 'steer'); st.custom = True
            r0 = rm = None
        else: st, r0, rm = steering(t, e, kind)
        pv.int_range('ind', ZERO, F)
        ind = t.inp(e, 'ind', (S,), 'i')
        csm = t.inp(e, 'csm', (F, M, M), 'c'); eva = t.inp(e, 'eva', (F, M)); eve = t.inp(e, 'eve', (F, M, M), 'c'); fr = t.inp(e, 'f', (F,))
        ac = t.inp(e, 'ac', (F, G), owner='out'); fl = t.inp(e, 'fl', (F,), 'i', owner='out')
        o = t.obj(FB + cls, steer=st, r_diag=rdiag, r_diag_norm=0.0, freq_data=SymObj(None, dict(csm=csm, eva=eva, eve=eve, num_channels=M, fftfreq=PyFn(lambda en: fr)), 'fd'), _ac=ac, _fr=fl, _f=fr, **extra(t, e))
        t.method(e, o, '_calc', [ind])
        d = Obj('data', ac=ac, fl=fl, csm=csm, eva=eva, eve=eve, fr=fr, r0=r0, rm=rm, ind=ind, o=o)
        return d
    for p in t.run(f, SZ + [Le(ONE, S)] + list(hyps), contracts={**kernel_contracts(t), **contracts}):
        e = p.eng; d = p.val
        if p.kind == 'raise': raise Unsupported('raises ' + p.val.etype)
        steps = {id(s['state'].ref): s for s in e.loop_steps if s['loop'].e is e}
        sa, sf = steps.get(id(d.ac.st)), steps.get(id(d.fl.st))
        if sa is None or sf is None: raise Unsupported('loop over the requested frequencies not recognised')
        for s in (sa, sf): t.obls.append(('every requested index is visited', Oblig('range', s['hyps'], And(Eq(s['lo'], ZERO), Eq(s['hi'], S)))))
        j = P(num(d.ind.get((sa['k'],))))
        fq = num(d.fr.get((j,)))
        d.at = lambda a: e.index(a, (j,) + (slice(None),) * (a.ndim - 1))
        if kind == 'custom': d.st = e.new(lambda ix: Cx(UF('sv.re', [fq, ix[0], ix[1]]), UF('sv.im', [fq, ix[0], ix[1]])), (G, M), 'c')
        else: d.st = (d.r0, d.rm, PI * fq * 2 * inverse(CS))
        yield p, sa, sf, j, d
        q = IV('q'); g = IV('g')
        hy = sa['hyps'] + [Le(ZERO, q), Lt(q, F), Le(ZERO, g), Lt(g, G)]
        t.obls.append(('other rows', Oblig('rows', hy + [Not(Eq(q, j))], sa['post']((q, g)) - sa['pre']((q, g)), 'zero')))
        j2 = P(num(d.ind.get((sf['k'],))))
        t.obls.append(('flag of the row', Oblig('flag', sf['hyps'] + [Le(ZERO, q), Lt(q, F)], sf['post']((q,)) - ite(Eq(q, j2), ONE, sf['pre']((q,))), 'zero')))
        t.frame(p)

def calc(prop, cls, kind, rdiag, what, want, **kw):
    """want(e, d, g) -> value of entry g of the requested row"""
    @item(prop, f'{cls}._calc {kind}{" without diagonal" if rdiag else ""}: {what}; other rows untouched')
    def _(t):
        for p, sa, sf, j, d in run_calc(t, cls, kind, rdiag, **kw):
            g = IV('g')
            t.obls.append(('requested row', Oblig('row', sa['hyps'] + [Le(ZERO, g), Lt(g, G)], sa['post']((j, g)) - want(p.eng, d, g), 'zero')))

def clip(w, rdiag): return ite(Lt(w, ZERO), ZERO, w) if rdiag else w
for kind in KINDS + ('custom',):
    for rd in (False, True):
        calc('C06', 'BeamformerBase', kind, rd, 'each requested row is the (clipped) normalised quadratic form of that CSM', lambda e, d, g, kind=kind, rd=rd: clip(num(quad(e, kind, rd, d.st, d.at(d.csm))[0].get((g,))) * NF, rd))
for kind in ('classic', 'custom'):
    for rd in (False, True):
        NA = IV('na')
        def want(e, d, g, kind=kind, rd=rd):
            tc = (e.index(d.at(d.eva), (slice(NA, NA + 1),)), e.index(d.at(d.eve), (slice(None), slice(NA, NA + 1))))
            return clip(num(quad(e, kind, rd, d.st, tc)[0].get((g,))) * NF, rd)
        calc('C06', 'BeamformerEig', kind, rd, 'the quadratic form of the selected eigenvalue', want, extra=lambda t, e: dict(na=IV('na')), hyps=[Le(ZERO, NA), Lt(NA, M)])
    def want(e, d, g, kind=kind):
        c = npmodel.linv(e, d.at(d.csm))
        return inverse(num(quad(e, kind, False, d.st, c)[0].get((g,))) * NF * M * M)
    calc('C06', 'BeamformerCapon', kind, False, 'inverse of the quadratic form of the inverse CSM', want, contracts={})
    def want(e, d, g, kind=kind):
        n = M - NA
        tc = (e.index(d.at(d.eva), (slice(None, n),)), e.index(d.at(d.eve), (slice(None), slice(None, n))))
        return num(e.binop('Mult', quad(e, kind, False, d.st, tc)[0], NF * M * M).get((g,)))
    def music(kind=kind, want=want):
        @item('C06', f'BeamformerMusic._calc {kind}: 4e-10 times the smallest noise subspace value over the value; other rows untouched')
        def _(t):
            for p, sa, sf, j, d in run_calc(t, 'BeamformerMusic', kind, False, extra=lambda t, e: dict(na=NA), hyps=[Le(ONE, NA), Lt(NA, M)]):
                e = p.eng; g = IV('g')
                q = e.binop('Mult', quad(e, kind, False, d.st, (e.index(d.at(d.eva), (slice(None, M - NA),)), e.index(d.at(d.eve), (slice(None), slice(None, M - NA)))))[0], NF * M * M)
                mn = npmodel.npmin(e, q)
                t.obls.append(('requested row', Oblig('row', sa['hyps'] + [Le(ZERO, g), Lt(g, G)], sa['post']((j, g)) - num(mn) * inverse(num(q.get((g,)))) * Fraction(4, 10**10), 'zero')))
    music()
    GA = V('gamma')
    def want(e, d, g, kind=kind):
        ev = d.at(d.eva); x = e.new(lambda ix: mkapp('pow', [num(ev.get(ix)), inverse(GA)]), (M,))
        q, n = quad(e, kind, False, d.st, (x, d.at(d.eve)))
        q, n = num(q.get((g,))), num(n.get((g,)))
        return mkapp('pow', [q * inverse(n), GA]) * n * NF
    calc('C06', 'BeamformerFunctional', kind, False, 'the gamma-th power of the normalised quadratic form of the gamma-th root of the CSM', want, extra=lambda t, e: dict(gamma=GA), hyps=[Lt(ZERO, GA)])

# ---------------------------------------------------------------- DAMAS / CLEAN: deconvolution of the conventional map
def psf_class(e, steer=None, calcmode=None, precision=None):
    """PointSpreadFunction under its contract: psf column for every selected grid point, a function of the frequency"""
    o = SymObj(None, {}, 'psf'); o.volatile = {'freq', 'grid_indices'}
    def val(en):
        fq = num(o.attrs['freq'])
        pv.NONNEG.add('psf')
        if 'grid_indices' in o.attrs:
            gi = o.attrs['grid_indices']
            return en.new(lambda ix: UF('psf', [fq, ix[0], num(gi.get((ix[1],)))]), (G, gi.shape[0]))
        return en.new(lambda ix: UF('psf', [fq, ix[0], ix[1]]), (G, G))
    o.attrs['psf'] = Lazy(val)
    return o
def damas_kernel(e, A, y, n, damp, x):
    k = npmodel.akey(A, y, num(n), num(damp), e.new(x.snap(), x.shape))
    pl.OPAQUE['damas'] = len(k)
    e.write_view(x, e.new(lambda ix: UF('damas', k + [ix[0]]), x.shape))
for rd in (False, True):
    def want(e, d, g, rd=rd):
        q = quad(e, 'classic', rd, d.st, d.at(d.csm))[0]
        y = e.new(lambda ix: clip(num(q.get(ix)) * NF, rd), (G,))
        fq = num(d.fr.get((P(num(d.ind.get((e.loop_steps[0]['k'],)))),)))
        k = npmodel.akey(e.new(lambda ix: UF('psf', [fq, ix[0], ix[1]]), (G, G)), y, IV('nit'), V('damp'), y)
        return UF('damas', k + [g])
    calc('C09', 'BeamformerDamas', 'classic', rd, 'the Gauss-Seidel solver applied to the PSF of that frequency, started from the (clipped) dirty map', want,
         extra=lambda t, e: dict(n_iter=IV('nit'), damp=V('damp'), calcmode='full', psf_precision='float64'), contracts={('acoular.fbeamform', 'PointSpreadFunction'): psf_class, ('acoular.fastFuncs', 'damasSolverGaussSeidel'): damas_kernel})

# ---------------------------------------------------------------- lazy evaluation, synthesis and integration (C20, C12, C04)
FR = lambda i: UF('freq', [i])
R_ = lambda i, g: UF('res', [i, g])
def bf_object(t, e, cls='BeamformerBase', shape=None, **kw):
    res = t.inp(e, 'res', (F, G)); fr = t.inp(e, 'freq', (F,))
    grid = SymObj(None, dict(size=G, shape=shape or (G,), **kw.pop('grid', {})), 'grid')
    fd = SymObj(None, dict(fftfreq=PyFn(lambda en: fr), **kw.pop('fd', {})), 'fd')
    return t.obj(FB + cls, result=res, freq_data=fd, steer=SymObj(None, dict(grid=grid), 'steer'), _f=fr, _numfreq=F, **kw), fr, res

NX, NY = IV('nx'), IV('ny')
SYN = [Le(ONE, F), Le(ONE, NX), Le(ONE, NY)]
def syn_items(nm, shape, gsub):
    GG = shape[0] * shape[1] if len(shape) == 2 else shape[0]
    flat = (lambda ix: ix[0] * shape[1] + ix[1]) if len(shape) == 2 else (lambda ix: ix[0])
    def mk(t, e):
        res = t.inp(e, 'res', (F, GG)); fr = t.inp(e, 'freq', (F,))
        grid = SymObj(None, dict(size=GG, shape=tuple(shape)), 'grid')
        return t.obj(FB + 'BeamformerBase', result=res, freq_data=SymObj(None, dict(fftfreq=PyFn(lambda en: fr)), 'fd'), steer=SymObj(None, dict(grid=grid), 'steer'), _f=fr, _numfreq=F), fr
    pos_ = [Le(ONE, x) for x in shape]
    @item(['C20'], f'synthetic, single line ({nm}): the map of the first frequency line not below the requested one, zeros beyond the last')
    def _(t):
        X = V('fq')
        def f(e):
            o, fr = mk(t, e)
            h = t.method(e, o, 'synthetic', [X])
            return h, npmodel.searchsorted(e, fr, X)
        for p in t.run(f, [Le(ONE, F)] + pos_):
            e = p.eng; h, k = p.val
            j = IV('j')
            t.equal(p, 'shape', tuple(h.shape), tuple(shape))
            ix = tuple(IV(f'q{i}') for i in range(len(shape)))
            hy = [c for i, s in zip(ix, shape) for c in (Le(ZERO, i), Lt(i, s))]
            if pv.entails(e.hyps, Lt(k, F)):
                t.obls.append(('map of the line', Oblig('map', list(e.hyps) + hy, num(h.get(ix)) - R_(k, flat(ix)), 'zero')))
                t.goal(p, 'the line is not below the request', Le(X, FR(k)))
                t.goal(p, 'lines before are below the request', Lt(FR(j), X), [Le(ZERO, j), Lt(j, k)] + t.inst(e, (j,)))
                t.goal(p, 'a request on a line selects that line', Eq(k, j), [Le(ZERO, j), Lt(j, F), Eq(FR(j), X), Or(Le(j, k), Lt(FR(k), FR(j)))] + t.inst(e, (j,)))
            else:
                t.obls.append(('zeros', Oblig('zeros', list(e.hyps) + hy, num(h.get(ix)), 'zero')))
                t.goal(p, 'only if every line is below the request', Lt(FR(j), X), [Le(ZERO, j), Lt(j, F)] + t.inst(e, (j,)))
    def band(what, arg, lims, hyps):
        @item(['C20'], f'synthetic, {what} ({nm}): the sum of the maps of the lines f1 <= f < f2')
        def _(t):
            X = V('fq')
            def f(e):
                o, fr = mk(t, e)
                h = t.method(e, o, 'synthetic', [X, arg])
                f1, f2 = lims(X)
                return h, npmodel.searchsorted(e, fr, f1), npmodel.searchsorted(e, fr, f2), f1, f2
            for p in t.run(f, [Le(ONE, F), Lt(ZERO, X)] + pos_ + hyps):
                e = p.eng; h, k1, k2, f1, f2 = p.val
                j = IV('j'); v = Var('jj', True)
                t.equal(p, 'shape', tuple(h.shape), tuple(shape))
                ix = tuple(IV(f'q{i}') for i in range(len(shape)))
                hy = [c for i, s in zip(ix, shape) for c in (Le(ZERO, i), Lt(i, s))] + [Le(k1, k2)]
                t.obls.append(('sum of the maps', Oblig('sum', list(e.hyps) + hy, num(h.get(ix)) - make_sum([(v, k1, k2)], R_(P(v), flat(ix))), 'zero')))
                c1, c2 = And(Le(k1, j), Lt(j, k2)), And(Le(f1, FR(j)), Lt(FR(j), f2))
                t.goal(p, 'exactly the lines inside the band', Or(And(c1, c2), And(Not(c1), Not(c2))), [Le(ZERO, j), Lt(j, F)] + t.inst(e, (j,)))
    NB = V('num')
    pw = lambda s: mkapp('pow', [P(2), s * Fraction(1, 2) * inverse(NB)])
    band('fractional octave band', NB, lambda X: (X * pw(P(-1)), X * pw(P(1))), [Lt(ZERO, NB)])
    band('given limits', [V('fa'), V('fb')], lambda X: (V('fa'), V('fb')), [Le(V('fa'), V('fb'))])
syn_items('one-dimensional grid', (G,), None)
syn_items('two-dimensional grid', (NX, NY), None)

def lazy(what, keyf, hyps, sel):
    """sel(r): condition that row r is asked for"""
    @item(['C04', 'C06'], f'LazyBfResult.__getitem__ [{what}]: every row asked for is computed before it is handed out, no other is')
    def _(t):
        def f(e):
            ac = t.inp(e, 'ac', (F, G), owner='out'); fr = t.inp(e, 'fl', (F,), 'i', owner='out')
            calls = []
            def calc_(en, ind):
                calls.append(ind)
                return None
            bf = SymObj(None, dict(_numfreq=F, _fr=fr, _ac=ac, h5f=None, _calc=PyFn(calc_)), 'bf')
            r = t.method(e, t.obj(FB + 'LazyBfResult', bf=bf), '__getitem__', [keyf()])
            return r, calls
        r_ = IV('r'); k = IV('kk')
        for p in t.run(f, [Le(ONE, F), Le(ONE, G)] + hyps):
            e = p.eng; r, calls = p.val
            if p.kind == 'raise': raise Unsupported('raises')
            hy = [Le(ZERO, r_), Lt(r_, F), sel(r_)]
            if len(calls) > 1: raise Unsupported('several calculations')
            if not calls:
                fl = list(e.filters.values())
                t.goal(p, 'nothing to calculate: every row asked for is there', Not(Eq(UF('fl', [r_], True), 0)), hy + rows(e, r_))
            else:
                ind = calls[0]
                n = ind.shape[0]
                # every missing row has a position in the list handed to _calc
                c = Or(Not(Eq(UF('fl', [r_], True), 0)), *[And(Le(ZERO, q), Lt(q, n), Eq(num(ind.get((q,))), r_)) for q in positions(e, r_)])
                t.goal(p, 'every missing row asked for is calculated', c, hy)
                x = num(ind.get((k,)))
                t.goal(p, 'only missing rows that are asked for are calculated', And(Le(ZERO, x), Lt(x, F), sel(x), Eq(UF('fl', [x], True), 0)), [Le(ZERO, k), Lt(k, n)])
            t.equal(p, 'the stored result is handed out', r, e.index(e.new(lambda ix: UF('ac', ix), (F, G)), keyf()))
            t.frame(p)
def positions(e, r):
    out = []
    for f in e.filters.values(): out += [f.rank(x) for x in (r, r - START, r - KI, r - F + 1)]
    return out
def rows(e, r):
    """facts of the selections instantiated at a row"""
    out = []
    for f in e.filters.values():
        for q in (r, r - START, r - KI, r - F + 1):
            out.append(Or(Lt(q, f.lo), Le(f.hi, q), Not(f.cond(q)), And(Le(ZERO, f.rank(q)), Lt(f.rank(q), f.n), Eq(f.idx(f.rank(q)), q))))
    return out
START, STOP, KI = IV('start'), IV('stop'), IV('ki')
lazy('one row', lambda: KI, [Le(ZERO, KI), Lt(KI, F)], lambda r: Eq(r, KI))
lazy('last row', lambda: -1, [], lambda r: Eq(r, F - 1))
lazy('start:stop', lambda: slice(START, STOP, None), [Le(ZERO, START), Le(START, STOP), Le(STOP, F)], lambda r: And(Le(START, r), Lt(r, STOP)))
lazy(':', lambda: slice(None, None, None), [], lambda r: TRUE)

# ---------------------------------------------------------------- point spread function (C08)
def psf_kernel(t, kind_of=None):
    """contract of calcPointSpreadFunction (proved in contracts/kernels.py): column s belongs to source ind[s]"""
    def k(e, kind, r0, rm, kk, ind, dt):
        t.assumed.add('acoular.fastFuncs.calcPointSpreadFunction: contract proved in contracts/kernels.py')
        ind = e.asarray(ind)
        return psf_cols(e, kind, r0, rm, kk, ind)
    return {('acoular.fastFuncs', 'calcPointSpreadFunction'): k}
def psf_cols(e, kind, r0, rm, kk, ind):
    key = npmodel.akey(r0, rm, num(kk)); nm = 'psf:' + kind
    pl.OPAQUE[nm] = len(key); pv.NONNEG.add(nm)
    return e.new(lambda ix: UF(nm, key + [ix[0], num(ind.get((ix[1],)))]), (G, ind.shape[0]))
FQ = V('freq')
def psf_obj(t, e, kind='classic', **kw):
    st, r0, rm = steering(t, e, kind)
    o = t.obj(FB + 'PointSpreadFunction', steer=st, freq=FQ, precision='float64', **kw)
    return o, r0, rm
def gind(t, e):
    pv.int_range('gi', ZERO, G)
    return t.inp(e, 'gi', (S,), 'i')
for kind in KINDS:
    def _(kind):
        @item('C08', f'PointSpreadFunction._psf_call {kind}: the kernel at the wave number of the frequency, one column per grid index')
        def _(t):
            def f(e):
                o, r0, rm = psf_obj(t, e, kind); gi = gind(t, e)
                return t.method(e, o, '_psf_call', [gi]), psf_cols(e, kind, r0, rm, PI * FQ * 2 * inverse(CS), gi)
            for p in t.run(f, SZ + [Le(ONE, S)], contracts=psf_kernel(t)): t.equal(p, 'columns', *p.val); t.frame(p)
    _(kind)
@item('C08', 'PointSpreadFunction._psf_call custom steering: squared magnitude of the steered transfer of the unit source')
def _(t):
    def f(e):
        gi = gind(t, e)
        sv = t.inp(e, 'h', (G, M), 'c'); tr = t.inp(e, 'a', (G, M), 'c')
        def transfer(en, fq, ind=None): return tr if ind is None else en.index(tr, (en.asarray(ind), slice(None)))
        o = t.obj(FB + 'PointSpreadFunction', freq=FQ, precision='float64', steer=SymObj(None, dict(steer_vector=PyFn(lambda en, fq, ind=None: sv if num(fq) == FQ and ind is None else en.new(lambda ix: Cx(UF('other', ix), ZERO), (G, M), 'c')), transfer=PyFn(transfer), grid=SymObj(None, dict(size=G), 'grid')), 'steer'))
        return t.method(e, o, '_psf_call', [gi]), sv, tr, gi
    for p in t.run(f, SZ + [Le(ONE, S)]):
        e = p.eng; r, sv, tr, gi = p.val
        g, s = IV('g'), IV('s'); v = Var('mm', True)
        a = C(num(sv.get((g, P(v))))).conj() * C(num(tr.get((num(gi.get((s,))), P(v)))))
        re, im = make_sum([(v, ZERO, M)], a.re), make_sum([(v, ZERO, M)], a.im)
        t.obls.append(('value', Oblig('value', list(e.hyps) + [Le(ZERO, g), Lt(g, G), Le(ZERO, s), Lt(s, S)], sub(num(r.get((g, s))), re * re + im * im), 'zero')))
        t.equal(p, 'shape', tuple(r.shape), (G, S))
        t.frame(p)
def psf_calls():
    def call(e, o, ind):
        ind = e.asarray(ind)
        return e.new(lambda ix: UF('psfcol', [ix[0], num(ind.get((ix[1],)))]), (G, ind.shape[0]))
    return {('acoular.fbeamform', 'PointSpreadFunction._psf_call'): call}
def calc_psf(mode):
    @item('C08', f'PointSpreadFunction.calc_psf [{mode}]: column i of the store is the PSF of grid point i, flagged, for every missing grid point asked for; nothing else changes')
    def _(t):
        def f(e):
            gi = gind(t, e)
            ac = t.inp(e, 'ac', (G, G), owner='out'); gp = t.inp(e, 'gp', (G,), 'i', owner='out')
            o = t.obj(FB + 'PointSpreadFunction', calcmode=mode, grid_indices=gi, precision='float64', steer=SymObj(None, dict(grid=SymObj(None, dict(size=G), 'grid')), 'steer'))
            t.method(e, o, 'calc_psf', [ac, gp])
            return ac, gp, gi
        for p in t.run(f, SZ + [Le(P(2), S)], contracts=psf_calls()):
            e = p.eng; ac, gp, gi = p.val
            g, q = IV('g'), IV('q')
            hr = [Le(ZERO, g), Lt(g, G), Le(ZERO, q), Lt(q, G)]
            if mode == 'full':
                t.obls.append(('all columns', Oblig('columns', list(e.hyps) + hr, sub(num(ac.get((g, q))), UF('psfcol', [g, q])), 'zero')))
                t.obls.append(('all flags', Oblig('flags', list(e.hyps) + hr, sub(num(gp.get((q,))), ONE), 'zero')))
                t.frame(p); continue
            steps = {id(s['state'].ref): s for s in e.loop_steps}
            sa, sg = steps.get(id(ac.st)), steps.get(id(gp.st))
            if sa is None or sg is None or len(e.filters) != 1: raise Unsupported('loop over the missing grid points not recognised')
            fl = next(iter(e.filters.values()))
            for s in (sa, sg):
                t.goal(p, 'all missing grid points are visited', And(Eq(s['lo'], ZERO), Eq(s['hi'], fl.n)), s['hyps'])
                j = UF('gi', [fl.idx(s['k'])], True)
                post, pre = s['post'], s['pre']
                if s is sa:
                    t.obls.append(('column', Oblig('column', s['hyps'] + hr, post((g, q)) - ite(Eq(q, j), UF('psfcol', [g, j]), pre((g, q))), 'zero')))
                else: t.obls.append(('flag', Oblig('flag', s['hyps'] + hr, post((q,)) - ite(Eq(q, j), ONE, pre((q,))), 'zero')))
            m = IV('m')
            t.goal(p, 'a grid point asked for whose flag is not set is visited', Or(Not(Eq(UF('gp', [UF('gi', [m], True)], True), 0)), And(Le(ZERO, fl.rank(m)), Lt(fl.rank(m), fl.n), Eq(fl.idx(fl.rank(m)), m))), [Le(ZERO, m), Lt(m, S)])
            t.frame(p)
for mode in ('single', 'block', 'full'): calc_psf(mode)
@item('C08', 'PointSpreadFunction.psf without cache: column j belongs to grid_indices[j]; without grid_indices to grid point j')
def _(t):
    def cp(e, o, ac, gp):
        # contract of calc_psf: the columns of all grid points asked for
        e.write_view(ac, e.new(lambda ix: UF('psfcol', ix), (G, G))); return None
    for given in (True, False):
        def f(e):
            e.overrides['acoular.fbeamform', 'config'] = SymObj(None, dict(global_caching='none'), 'config')
            gi = gind(t, e) if given else e.new(lambda ix: ZERO, (ZERO,), 'i')
            o = t.obj(FB + 'PointSpreadFunction', grid_indices=gi, precision='float64', steer=SymObj(None, dict(grid=SymObj(None, dict(size=G), 'grid')), 'steer'))
            return t.get(e, o, 'psf')
        for p in t.run(f, SZ + [Le(ONE, S)], contracts={('acoular.fbeamform', 'PointSpreadFunction.calc_psf'): cp}):
            e = p.eng; r = p.val; g, j = IV('g'), IV('j')
            n = S if given else G
            t.equal(p, 'shape', tuple(r.shape), (G, n))
            t.obls.append(('columns', Oblig('columns', list(e.hyps) + [Le(ZERO, g), Lt(g, G), Le(ZERO, j), Lt(j, n)], sub(num(r.get((g, j))), UF('psfcol', [g, UF('gi', [j], True) if given else j])), 'zero')))
            t.frame(p)

# ---------------------------------------------------------------- integration over sectors (C12, C20)
def region(t, e, how, shape):
    """(argument 'sector', traits of the grid, indicator of grid element ix)"""
    ind_ = lambda ix: Not(Eq(UF('in', list(ix), True), 0))
    if how == 'sector':
        sec = t.obj('acoular.grids:Sector', name='sector')
        m = e.new(ind_, shape, 'b')
        return sec, dict(subdomain=PyFn(lambda en, s: npmodel.WhereTuple(m) if s is sec else None)), ind_
    a, b, c, d = (IV(x) for x in ('xa', 'xb', 'ya', 'yb'))
    sl = (slice(a, b), slice(c, d))[:len(shape)]
    lim = [(a, b), (c, d)]
    return tuple(V(f's{i}') for i in range(4)), dict(indices=PyFn(lambda en, *s: sl if len(sl) > 1 else sl[0])), lambda ix: And(*[x for i, (l, h) in zip(ix, lim) for x in (Le(l, i), Lt(i, h))])
RNG = [Le(ZERO, IV('xa')), Le(IV('xa'), IV('xb')), Le(ZERO, IV('ya')), Le(IV('ya'), IV('yb'))]
def rngh(how, shape): return [] if how == 'sector' else RNG + [Le(b, s) for b, s in zip((IV('xb'), IV('yb')), shape)]
def total(shape, val, inside, how):
    """sum of val over the grid elements inside"""
    vs = [Var(f'e{i}', True) for i in range(len(shape))]
    ix = [P(v) for v in vs]
    if how == 'sector': return make_sum([(v, ZERO, P(s)) for v, s in zip(vs, shape)], ite(inside(ix), val(ix), ZERO))
    lim = [(IV('xa'), IV('xb')), (IV('ya'), IV('yb'))]
    return make_sum([(v, ZERO, h - l) for v, (l, h) in zip(vs, lim)], val([i + l for i, (l, h) in zip(ix, lim)]))
for shape in ((G,), (NX, NY)):
    for how in ('sector', 'indices'):
        def _(shape=shape, how=how):
            GG = shape[0] * shape[1] if len(shape) == 2 else shape[0]
            flat = (lambda ix: ix[0] * shape[1] + ix[1]) if len(shape) == 2 else (lambda ix: ix[0])
            HY = [Le(ONE, F)] + [Le(ONE, x) for x in shape] + rngh(how, shape)
            lab = f'{"selection by sector" if how == "sector" else "selection by index ranges"}, {len(shape)}-dimensional grid'
            @item('C12', f'integrate: sum of the map over the selected grid points ({lab})')
            def _i(t):
                for d in (1, 2):
                    def f(e):
                        sec, tr, ins = region(t, e, how, shape)
                        data = t.inp(e, 'res', (F, GG)) if d == 2 else t.inp(e, 'map', (GG,))
                        return t.call(e, FB + 'integrate', [data, SymObj(None, dict(shape=tuple(shape), size=GG, **tr), 'grid'), sec]), ins
                    for p in t.run(f, HY + ([] if d == 1 else [Le(P(2), F)])):
                        e = p.eng; r, ins = p.val; i = IV('i')
                        if p.kind == 'raise': raise Unsupported('raises')
                        if d == 2:
                            t.equal(p, 'one value per row', tuple(r.shape), (F,))
                            t.obls.append(('sum per row', Oblig('sum', list(e.hyps) + [Le(ZERO, i), Lt(i, F)], num(r.get((i,))) - total(shape, lambda ix: R_(i, flat(ix)), ins, how), 'zero')))
                        else: t.obls.append(('sum', Oblig('sum', list(e.hyps), num(r) - total(shape, lambda ix: UF('map', [flat(ix)]), ins, how), 'zero')))
                        t.frame(p)
            def mk(t, e, **fd):
                sec, tr, ins = region(t, e, how, shape)
                res = t.inp(e, 'res', (F, GG)); fr = t.inp(e, 'freq', (F,))
                o = t.obj(FB + 'BeamformerBase', result=res, freq_data=SymObj(None, dict(fftfreq=PyFn(lambda en: fr), **fd), 'fd'), _f=fr, _numfreq=F,
                          steer=SymObj(None, dict(grid=SymObj(None, dict(shape=tuple(shape), size=GG, **tr), 'grid')), 'steer'))
                return o, sec, ins, fr
            LO, HI = IV('lo'), IV('hi')
            @item(['C12', 'C20'], f'BeamformerBase.integrate without frequency range: the lines ind_low..ind_high, zeros elsewhere ({lab})')
            def _j(t):
                for nm, lo, hi, hy, a, b in (('both', LO, HI, [Le(ZERO, LO), Le(LO, HI), Le(HI, F)], LO, HI), ('all', 0, None, [], ZERO, F), ('negative', LO, HI, [Lt(LO, ZERO), Le(-F, LO), Le(LO, HI), Lt(HI, ZERO)], F + LO, F + HI)):
                    def f(e):
                        o, sec, ins, fr = mk(t, e, ind_low=lo, ind_high=hi)
                        return t.method(e, o, 'integrate', [sec]), ins
                    for p in t.run(f, HY + hy):
                        e = p.eng; r, ins = p.val; i = IV('i')
                        if p.kind == 'raise': raise Unsupported('raises')
                        t.equal(p, nm + ': one value per line', tuple(r.shape), (F,))
                        t.obls.append((nm, Oblig(nm, list(e.hyps) + [Le(ZERO, i), Lt(i, F)], num(r.get((i,))) - ite(And(Le(a, i), Lt(i, b)), total(shape, lambda ix: R_(i, flat(ix)), ins, how), ZERO), 'zero')))
                        t.frame(p)
            @item(['C12', 'C20'], f'BeamformerBase.integrate over a frequency range: lines and values of f1 <= f < f2 ({lab})')
            def _k(t):
                f1, f2 = V('fa'), V('fb')
                def f(e):
                    o, sec, ins, fr = mk(t, e)
                    r = t.method(e, o, 'integrate', [sec, (f1, f2)])
                    return r, ins, npmodel.searchsorted(e, fr, f1), npmodel.searchsorted(e, fr, f2)
                for p in t.run(f, HY + [Le(f1, f2)]):
                    e = p.eng; r, ins, k1, k2 = p.val; i = IV('i'); j = IV('j')
                    if p.kind == 'raise': raise Unsupported('raises')
                    hy = list(e.hyps) + [Le(k1, k2)]
                    t.obls.append(('number of lines', Oblig('n', hy, And(Eq(r[0].shape[0], k2 - k1), Eq(r[1].shape[0], k2 - k1)))))
                    t.obls.append(('lines', Oblig('lines', hy + [Le(ZERO, i), Lt(i, k2 - k1)], num(r[0].get((i,))) - FR(k1 + i), 'zero')))
                    t.obls.append(('values', Oblig('values', hy + [Le(ZERO, i), Lt(i, k2 - k1)], num(r[1].get((i,))) - total(shape, lambda ix: R_(k1 + i, flat(ix)), ins, how), 'zero')))
                    c1, c2 = And(Le(k1, j), Lt(j, k2)), And(Le(f1, FR(j)), Lt(FR(j), f2))
                    t.goal(p, 'exactly the lines inside the range', Or(And(c1, c2), And(Not(c1), Not(c2))), [Le(ZERO, j), Lt(j, F)] + t.inst(e, (j,)))
                    t.frame(p)
            @item(['C12', 'C20'], f'BeamformerBase.integrate for a list of centre frequencies: the synthesised map of each, summed ({lab})')
            def _l(t):
                NB = V('num'); B = IV('nb')
                def syn(e, o, fq, n=0):
                    return e.new(lambda ix: UF('syn', [num(fq), num(n)] + list(ix)), shape)
                def f(e):
                    o, sec, ins, fr = mk(t, e)
                    return t.method(e, o, 'integrate', [sec, t.inp(e, 'fc', (B,)), NB]), ins
                for p in t.run(f, HY + [Le(P(2), B), Lt(ZERO, NB)], contracts={('acoular.fbeamform', 'BeamformerBase.synthetic'): syn}):
                    e = p.eng; r, ins = p.val; i = IV('i')
                    if p.kind == 'raise': raise Unsupported('raises')
                    t.equal(p, 'one value per frequency', tuple(r.shape), (B,))
                    t.obls.append(('values', Oblig('values', list(e.hyps) + [Le(ZERO, i), Lt(i, B)], num(r.get((i,))) - total(shape, lambda ix: UF('syn', [UF('fc', [i]), NB] + list(ix)), ins, how), 'zero')))
                    t.frame(p)
        _()
