"""Contracts on the processors with a state: recursive filters and block averages (C01, C02, C21).

The filters rest on an assumed contract of scipy.signal.sosfilt (pyvc/npmodel.py): causal, column by column, and the state
it returns continues the filter.  What is proved of the code here: the state is carried from block to block (and from no
other place), every sample of every channel passes through exactly once and in order, so the output does not depend on num."""
from pyvc.vc import *
from contracts.streams import *
from pyvc.npmodel import sos_state, sos_row, sosfiltfilt_row, HQ
SEC = IV('nsec')
SPRE = [Le(ONE, SEC)]
def sos_keys(name='sos'): return [SEC, P(6), UF(name, [IV('%a0'), IV('%a1')])]
def filt(s, i, c, K): return sos_row(K, s.x((P(HQ), c)), i)
def state_hint(s, K):
    return lambda ix, k: sos_state(K, ix[0], ix[1], P(k) * NUM, s.x((P(HQ), ix[2]))) if len(ix) == 3 else None

for cls in ('Filter', 'FiltOctave', 'TimeExpAverage', 'FiltFreqWeight'):
    def _(t, e, cls=cls):
        s = src_of(t, e); K = sos_keys()
        o = t.obj(TP + cls, source=s, sos=t.inp(e, 'sos', (SEC, 6)))
        return o, NS, (NC,), lambda i, c: filt(s, i, c, K), state_hint(s, K)
    stream_item(['C02', 'C01', 'C21'], 'row i is the filter run over samples 0..i', TP + cls, _, SPRE)

def _(t, e):
    s = src_of(t, e); K = sos_keys()
    o = t.obj(TP + 'FiltFiltOctave', source=s, sos=t.inp(e, 'sos', (SEC, 6)))
    return o, NS, (NC,), lambda i, c: sosfiltfilt_row(K, NS, s.x((P(HQ), c)), i)
stream_item(['C02', 'C01', 'C21'], 'forward-backward filter of the whole signal', TP + 'FiltFiltOctave', _, SPRE)

for nb in (1, 2, 3):
    for b in range(nb):
        def _(nb=nb, b=b):
            @item(['C02', 'C01', 'C21'], f'OctaveFilterBank.result: {nb} bands, the channels of band {b} hold the filter of that band')
            def _(t):
                def f(e):
                    s = src_of(t, e)
                    Ks = [sos_keys(f'sos{q}') for q in range(nb)]
                    o = t.obj(TP + 'OctaveFilterBank', source=s, sos=[t.inp(e, f'sos{q}', (SEC, 6)) for q in range(nb)], num_bands=nb)
                    e.hints = [state_hint(s, K) for K in Ks]
                    e.base = s, Ks
                    t.method(e, o, 'result', [NUM])
                for p in t.run(f, PRE + SPRE):
                    s, Ks = p.eng.base
                    def coords():
                        c = IV(fresh_name('c'))
                        return (c + NC * b,), [Le(ZERO, c), Lt(c, NC)], (c,)
                    t.stream(p, 'stream', NUM, NS, (NC * nb,), lambda i, c: filt(s, i, c, Ks[b]), coords=coords)
                    t.frame(p, 'no write to the samples of the source')
        _()

NAV = IV('nav')
def _(t, e):
    s = src_of(t, e); j = Var('j', True)
    o = t.obj(PR + 'Average', source=s, num_per_average=NAV)
    return o, mkapp('idiv', [NS, NAV], True), (NC,), lambda i, c: make_sum([(j, ZERO, NAV)], s.x((i * NAV + P(j), c))) * inverse(NAV)
stream_item(['C02', 'C01', 'C21'], 'row i is the mean of the nav samples i*nav ..', PR + 'Average', _, [Le(ONE, NAV)])
