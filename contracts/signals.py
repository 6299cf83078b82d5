"""Contracts on the signal generators (C19)."""
from pyvc.vc import *
from pyvc.npmodel import randn, sos_row, HQ
SG = 'acoular.signals:'
N, RMS, SEED, FS = IV('n'), V('rms'), IV('seed'), V('fs')
PI = V('pi')
def gen(t, cls, **kw): return t.obj(SG + cls, num_samples=N, sample_freq=FS, **kw)

@item('C19', 'WNoiseGenerator.signal: n normal numbers of the seed, times rms')
def _(t):
    for p in t.run(lambda e: t.method(e, gen(t, 'WNoiseGenerator', rms=RMS, seed=SEED), 'signal'), [Le(ONE, N)]):
        t.equal(p, 'signal', p.val, p.eng.new(lambda ix: RMS * randn(p.eng, SEED, [N], ix[0]), (N,)))
for depth in (1, 2, 3, 5, 16):
    def _(depth=depth):
        @item('C19', f'PNoiseGenerator.signal, depth {depth}: sum of the normal numbers held for 1, 2, 4, .. samples, scaled to rms')
        def _(t):
            for p in t.run(lambda e: t.method(e, gen(t, 'PNoiseGenerator', rms=RMS, seed=SEED, depth=depth), 'signal'), [Le(P(2 ** (depth + 3)), N), Le(P(depth), mkapp('floor', [mkapp('log', [N]) * inverse(mkapp('log', [P(2)]))]))]):
                def want(ix):
                    r = randn(p.eng, SEED, [N], ix[0]); lens = [N]
                    for k in range(depth):
                        d = 2 ** (k + 1); ln = mkapp('idiv', [N, P(d)], True) + 1; lens.append(ln); o = 2 ** k - 1
                        r = r + ite(Le(P(o), ix[0]), randn(p.eng, SEED, list(lens), mkapp('idiv', [ix[0] - o, P(d)], True)), ZERO)
                    return RMS * inverse(mkapp('sqrt', [P(Fraction(2 * depth + 3, 2))])) * r
                t.equal(p, 'signal', p.val, p.eng.new(want, (N,)))
    _()
NB_, NA_ = IV('nma'), IV('nar')
for odd in (True, False):
    def _(odd=odd):
        @item('C19', f'FiltWNoiseGenerator.signal, {"odd" if odd else "even"} number of taps: filtered noise without the group delay')
        def _(t):
            k = IV('k'); taps = 2 * k + 1 if odd else 2 * k
            def f(e):
                ma, ar = t.inp(e, 'ma', (taps,)), t.inp(e, 'ar', (NA_,))
                e.base = npmodel.tf2sos(e, ma, ar)
                return t.method(e, gen(t, 'FiltWNoiseGenerator', rms=RMS, seed=SEED, ma=ma, ar=ar), 'signal')
            for p in t.run(f, [Le(ONE, N), Le(ONE, k), Le(ONE, NA_)]):
                e = p.eng; v = p.val
                t.equal(p, 'number of samples', v.shape[0], N)
                sh = k if odd else mkapp('rint', [k - Fraction(1, 2)], True)
                K = npmodel.sos_key(e, e.base)
                if odd: t.equal(p, 'signal', v, e.new(lambda ix: sos_row(K, RMS * randn(e, SEED, [N + k], P(HQ)), ix[0] + k), (N,)))
    _()
A, F, PH = V('amp'), V('freq'), V('phase')
@item('C19', 'SineGenerator.signal: A sin(2 pi f i / fs + phase)')
def _(t):
    for p in t.run(lambda e: t.method(e, gen(t, 'SineGenerator', amplitude=A, freq=F, phase=PH), 'signal'), [Le(ONE, N), Lt(ZERO, FS)]):
        e = p.eng
        t.equal(p, 'signal', p.val, t.spec(e, 'sine', A, F, PH, FS, N))
UP = IV('up')
@item('C19', 'SignalGenerator.usignal: the signal resampled to up * n samples')
def _(t):
    def f(e):
        o = gen(t, 'SineGenerator', signal=PyFn(lambda en: en.new(lambda ix: UF('sig', [ix[0]]), (N,))))
        return t.method(e, o, 'usignal', [UP])
    for p in t.run(f, [Le(ONE, N), Le(ONE, UP)]):
        e = p.eng
        t.equal(p, 'signal', p.val, npmodel.TAB['scipy.signal.resample'](e, e.new(lambda ix: UF('sig', [ix[0]]), (N,)), N * UP))
