"""Contracts on the compiled kernels of acoular.fastFuncs / acoular.tfastfuncs (properties C05-C10)."""
from pyvc.vc import *
FF = 'acoular.fastFuncs:'
TF = 'acoular.tfastfuncs:'
F, M, G, S, E, N, L = (IV(x) for x in 'FMGSENL')
KINDS = ['classic', 'inverse', 'true level', 'true location']
K = V('k')


def offsets(e, name, shape):
    """sample offsets that stay inside the buffered samples: 0 <= off and off + N < L  (precondition of the kernels;
    established by the callers, see the buffer contracts)"""
    pv.int_range(name, ZERO, L - N)
    return Task.inp(e, name, shape, 'i')


def pos(e, name, shape):
    """array of strictly positive entries (distances)"""
    pv.POSITIVE.add(name); pv.NONNEG.add(name)
    return Task.inp(e, name, shape)

SZ = [Le(ONE, M), Le(ONE, G)]

@item('C05', 'calcCSM accumulates the outer product into the upper triangle')
def _(t):
    def f(e):
        csm = t.inp(e, 'csm', (F, M, M), 'c', 'out'); X = t.inp(e, 'X', (F, M), 'c')
        old = e.new(csm.snap(), csm.shape, 'c')
        r = t.call(e, FF + 'calcCSM', [csm, X])
        return r, csm, t.spec(e, 'csm_upper_update', old, X)
    for p in t.run(f, [Le(ONE, F), Le(ONE, M)]):
        r, csm, w = p.val
        t.equal(p, 'returned array', r, w)
        t.equal(p, 'argument array', csm, w)
        t.frame(p)

def _bf(kind, rdiag, eig):
    @item('C06', f'beamformerFreq {kind} {"without" if rdiag else "with"} diagonal, {"eigen" if eig else "full"} CSM')
    def _(t):
        def f(e):
            r0 = pos(e, 'r0', (G,)); rm = pos(e, 'rm', (G, M))
            nf = V('nf')
            if eig:
                ew = t.inp(e, 'eva', (E,)); ev = t.inp(e, 'eve', (M, E), 'c')
                tc = (ew, ev); csm = t.spec(e, 'csm_of_eig', ew, ev)
            else: tc = csm = t.herm(e, 'csm', (M, M))
            r = t.call(e, FF + 'beamformerFreq', [kind, rdiag, nf, (r0, rm, K), tc])
            h = t.spec(e, 'steer', kind, r0, rm, K)
            q = t.spec(e, 'quadform', h, csm, rdiag)
            return r, e.binop('Mult', q, nf), t.spec(e, 'steernorm', h)
        for p in t.run(f, SZ + ([Le(ONE, E)] if eig else [])):
            r, q, n = p.val
            t.equal(p, 'power', r[0], q)
            t.equal(p, 'steering norm', r[1], n)
            t.frame(p)
    @item('C06', f'beamformerFreq custom {"without" if rdiag else "with"} diagonal, {"eigen" if eig else "full"} CSM' ) if kind == 'classic' else (lambda f: f)
    def _c(t):
        def f(e):
            h = t.inp(e, 'h', (G, M), 'c'); nf = V('nf')
            if eig:
                ew = t.inp(e, 'eva', (E,)); ev = t.inp(e, 'eve', (M, E), 'c')
                tc = (ew, ev); csm = t.spec(e, 'csm_of_eig', ew, ev)
            else: tc = csm = t.herm(e, 'csm', (M, M))
            r = t.call(e, FF + 'beamformerFreq', ['custom', rdiag, nf, h, tc])
            return r, e.binop('Mult', t.spec(e, 'quadform', h, csm, rdiag), nf), t.spec(e, 'steernorm', h)
        for p in t.run(f, SZ + ([Le(ONE, E)] if eig else [])):
            r, q, n = p.val
            t.equal(p, 'power', r[0], q)
            t.equal(p, 'steering norm', r[1], n)
            t.frame(p)
for kind in KINDS:
    for rdiag in (False, True):
        for eig in (False, True): _bf(kind, rdiag, eig)

@item('C07', 'calcTransfer equals r0/rm exp(-jk(rm-r0))')
def _(t):
    def f(e):
        r0 = pos(e, 'r0', (G,)); rm = pos(e, 'rm', (G, M))
        return t.call(e, FF + 'calcTransfer', [r0, rm, K]), t.spec(e, 'transfer', r0, rm, K)
    for p in t.run(f, SZ):
        t.equal(p, 'transfer', *p.val); t.frame(p)

def _steer(i):
    @item(['C07', 'C10'], f'_steer_{"I" * i if i < 4 else "IV"} amplitude of formulation {i}')
    def _(t):
        def f(e):
            r0 = pos(e, 'r0t', (N, G)); rm = pos(e, 'rmt', (N, G, M))
            amp = t.inp(e, 'amp', (N, G, M), owner='out')
            t.call(e, TF + '_steer_' + ('I' * i if i < 4 else 'IV'), [rm, r0, amp])
            return amp, t.spec(e, 'steer_amp', i, r0, rm)
        for p in t.run(f, SZ + [Le(ONE, N)]):
            t.equal(p, 'amplitude', *p.val); t.frame(p)
for i in (1, 2, 3, 4): _steer(i)

def _psf(kind):
    @item('C08', f'calcPointSpreadFunction {kind}')
    def _(t):
        def f(e):
            r0 = pos(e, 'r0', (G,)); rm = pos(e, 'rm', (G, M))
            pv.int_range('ind', ZERO, G); ind = t.inp(e, 'ind', (S,), 'i')
            r = t.call(e, FF + 'calcPointSpreadFunction', [kind, r0, rm, K, ind, DType('f')])
            return r, t.spec(e, 'psf', kind, r0, rm, K, ind)
        i = IV('i')
        for p in t.run(f, SZ + [Le(ONE, S)]):
            t.equal(p, 'psf', *p.val); t.frame(p)
for kind in KINDS: _psf(kind)

@item('C10', '_delayandsum4 linear-interpolation delay and sum')
def _(t):
    def f(e):
        d = t.inp(e, 'data', (L, M)); o = offsets(e, 'off4', (G, M)); fr = t.inp(e, 'frac', (G, M)); a = t.inp(e, 'amp', (G, M))
        out = t.inp(e, 'out', (N, G), owner='out'); ap = t.inp(e, 'ap', (N, G), owner='out')
        t.call(e, TF + '_delayandsum4', [d, o, fr, a, out, ap])
        return (out, ap), t.spec(e, 'delay_and_sum', d, o, fr, a, N)
    for p in t.run(f, SZ + [Le(ONE, N), Lt(N, L)]):
        t.equal(p, 'sum', p.val[0][0], p.val[1][0]); t.equal(p, 'autopower', p.val[0][1], p.val[1][1]); t.frame(p)

@item('C10', '_delayandsum5 linear-interpolation delay and sum, moving')
def _(t):
    def f(e):
        d = t.inp(e, 'data', (L, M)); o = offsets(e, 'off5', (N, G, M)); fr = t.inp(e, 'frac', (N, G, M)); a = t.inp(e, 'amp', (N, G, M))
        out = t.inp(e, 'out', (N, G), owner='out'); ap = t.inp(e, 'ap', (N, G), owner='out')
        t.call(e, TF + '_delayandsum5', [d, o, fr, a, out, ap])
        return (out, ap), t.spec(e, 'delay_and_sum_moving', d, o, fr, a, N)
    for p in t.run(f, SZ + [Le(ONE, N), Lt(N, L)]):
        t.equal(p, 'sum', p.val[0][0], p.val[1][0]); t.equal(p, 'autopower', p.val[0][1], p.val[1][1]); t.frame(p)

def _damas(e, t, nit=None):
    A = t.inp(e, 'A', (G, G)); y = t.inp(e, 'y', (G,))
    pv.NONNEG.add('x0')
    x = t.inp(e, 'x0', (G,), owner='out')
    n = t.inp(e, 'nit', (1,), 'i'); r = t.inp(e, 'relax', (1,))
    t.call(e, FF + 'damasSolverGaussSeidel', [A, y, n, r, x])
    return A, y, x, r

@item('C09', 'damasSolverGaussSeidel keeps the solution non-negative')
def _(t):
    for p in t.run(lambda e: _damas(e, t), SZ + [Le(ONE, UF('nit', [ZERO], True))]):
        t.forall(p, 'non-negative', p.val[2], lambda v, idx: Le(ZERO, v)); t.frame(p)

@item('C09', 'damasSolverGaussSeidel: every step is the documented relaxed projected update of one entry')
def _(t):
    for p in t.run(lambda e: _damas(e, t), SZ + [Le(ONE, UF('nit', [ZERO], True))]):
        e = p.eng; A, y, x, r = p.val
        steps = [s for s in e.loop_steps if s['state'].ref is x.st]
        inner = [s for s in steps if s['hi'] == G]
        outer = [s for s in steps if s['hi'] != G]
        if len(inner) != 1 or len(outer) != 1: raise Unsupported('sweep loop not recognised')
        s = inner[0]; g = s['k']; q = IV('q')
        w = r.get((ZERO,))
        pre = s['pre']
        def upd(xf):
            j = Var(fresh_name('j'), True)
            rest = make_sum([(j, ZERO, G)], A.get((g, P(j))) * xf((P(j),))) - A.get((g, g)) * xf((g,))
            v = (ONE - w) * xf((g,)) + w * (y.get((g,)) - rest)
            return ite(Lt(ZERO, v), v, ZERO)
        h = s['hyps'] + [Le(ZERO, q), Lt(q, G)]
        t.obls.append(('one entry updated, all others kept', Oblig('step', h, s['post']((q,)) - ite(Eq(q, g), upd(pre), pre((q,))), 'zero')))
        # the sweep covers every grid point once, in order, starting from the state left by the previous sweep
        t.obls.append(('sweep covers all grid points', Oblig('range', h, And(Eq(s['lo'], ZERO), Eq(s['hi'], G)))))
        o = outer[0]
        t.obls.append(('number of sweeps', Oblig('range', o['hyps'], And(Eq(o['lo'], ZERO), Eq(o['hi'], UF('nit', [ZERO], True))))))
        t.obls.append(('sweep starts from the previous state', Oblig('chain', h, s['init']((q,)) - o['pre']((q,)), 'zero')))
        t.obls.append(('first sweep starts from the given solution', Oblig('chain', h, o['init']((q,)) - UF('x0', (q,)), 'zero')))
        # lemma: a fixed point of the update is left unchanged by the step
        fx = lambda ix: UF('xfix', ix)
        t.obls.append(('fixed point unchanged', Oblig('lemma', h + [Eq(upd(fx), fx((g,)))], ite(Eq(q, g), upd(fx), fx((q,))) - fx((q,)), 'zero')))
