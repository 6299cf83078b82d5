"""Contracts on the result() generators of the elementary processors and sources.

Every contract is the same block-stream contract (C02/C01): the generator, run for an arbitrary block size num >= 1 on an
upstream object that satisfies the contract, yields blocks of exactly num rows (the last one 1..num rows) whose
concatenation is a sequence of num_samples rows that is a function of the settings and the upstream samples alone (num
does not occur in it), and writes to no array it did not create (C02)."""
from pyvc.vc import *
NUM, NS, NC = IV('num'), IV('ns'), IV('nc')
PRE = [Le(ONE, NUM), Le(ONE, NS), Le(ONE, NC)]
TP, PR, SO = 'acoular.tprocess:', 'acoular.process:', 'acoular.sources:'

def stream_item(props, name, cls, setup, hyps=(), budget=150):
    """setup(t, e) -> (object, N, channel extents, spec)"""
    @item(props, f'{cls.split(":")[1]}.result: {name}', budget=budget)
    def _(t):
        def f(e):
            o, N, ch, spec, *hints = setup(t, e)
            e.hints = hints
            t.method(e, o, 'result', [NUM])
            e.base_spec = (N, ch, spec)
            return None
        for p in t.run(f, PRE + list(hyps)):
            N, ch, spec = p.eng.base_spec
            t.stream(p, 'stream', NUM, N, ch, spec)
            t.frame(p, 'no write to the samples of the source')

def src_of(t, e, **kw): return t.source(e, 'src', NS, NC, **kw)

def _(t, e):
    s = src_of(t, e)
    return t.obj(TP + 'TimePower', source=s), NS, (NC,), lambda i, c: s.x((i, c)) * s.x((i, c))
stream_item(['C02', 'C01', 'C21'], 'squares every sample', TP + 'TimePower', _)

def _(t, e):
    s = src_of(t, e)
    w = t.inp(e, 'w', (NC,))
    j = Var('j', True)
    return t.obj(TP + 'ChannelMixer', source=s, weights=w), NS, (ONE,), lambda i, c: make_sum([(j, ZERO, NC)], UF('w', [P(j)]) * s.x((i, P(j))))
stream_item(['C02', 'C01', 'C21'], 'weighted sum over the channels', TP + 'ChannelMixer', _)

def _(t, e):
    s = src_of(t, e)
    w = t.inp(e, 'w', (ZERO,))
    j = Var('j', True)
    return t.obj(TP + 'ChannelMixer', source=s, weights=w), NS, (ONE,), lambda i, c: make_sum([(j, ZERO, NC)], s.x((i, P(j))))
stream_item(['C02', 'C01', 'C21'], 'sum over the channels without weights', TP + 'ChannelMixer', _)

def _mixer(n):
    def _(t, e):
        fs = V('fs')
        ss = [t.source(e, f'src{k}', NS, NC, fs=fs) for k in range(n + 1)]
        def spec(i, c):
            r = ZERO
            for s in ss: r = r + s.x((i, c))
            return r
        return t.obj(TP + 'Mixer', source=ss[0], sources=ss[1:]), NS, (NC,), spec
    stream_item(['C02', 'C01', 'C21'], f'sum of the sources ({n} additional)', TP + 'Mixer', _)
    def _(t, e):
        fs = V('fs')
        ss = [t.source(e, f'src{k}', NS, NC, fs=fs) for k in range(n + 1)]
        w = t.inp(e, 'w', (n + 1,))
        def spec(i, c):
            r = ZERO
            for k, s in enumerate(ss): r = r + UF('w', [P(k)]) * s.x((i, c))
            return r
        return t.obj(SO + 'SourceMixer', sources=ss, weights=w), NS, (NC,), spec
    stream_item(['C02', 'C01', 'C19'], f'weighted sum of {n + 1} sources', SO + 'SourceMixer', _)
for n in (0, 1, 2): _mixer(n)

def _(t, e):
    s = src_of(t, e)
    j = Var('j', True)
    return t.obj(TP + 'TimeCumAverage', source=s), NS, (NC,), lambda i, c: make_sum([(j, ZERO, i + 1)], s.x((P(j), c))) * inverse(i + 1), \
        lambda ix, k: make_sum([(j, ZERO, P(k) * NUM)], s.x((P(j), ix[-1]))) * inverse(P(k) * NUM) if ix else None   # accu: mean of the k*num samples before
stream_item(['C02', 'C01', 'C21'], 'mean over all samples so far', TP + 'TimeCumAverage', _)

def _(t, e):
    s = src_of(t, e)
    return t.obj(TP + 'TimeReverse', source=s), NS, (NC,), lambda i, c: s.x((NS - 1 - i, c))
stream_item(['C02', 'C01', 'C21'], 'samples in reversed order', TP + 'TimeReverse', _)

def _(t, e):
    s = src_of(t, e)
    return t.obj(TP + 'MaskedTimeOut', source=s, start=0, stop=None, invalid_channels=[]), NS, (NC,), lambda i, c: s.x((i, c))
stream_item(['C02', 'C01', 'C13'], 'nothing masked', TP + 'MaskedTimeOut', _)

def _(t, e):
    d = t.inp(e, 'x', (NS, NC), owner='upstream')
    o = t.obj(SO + 'TimeSamples', data=d, num_samples=NS, num_channels=NC, calib=None)
    return o, NS, (NC,), lambda i, c: UF('x', [i, c])
stream_item(['C02', 'C01', 'C23'], 'delivers the data array', SO + 'TimeSamples', _)

def _(t, e):
    d = t.inp(e, 'x', (NS, NC), owner='upstream'); cal = t.inp(e, 'cal', (NC,), owner='upstream')
    o = t.obj(SO + 'TimeSamples', data=d, num_samples=NS, num_channels=NC, calib=SymObj(None, dict(num_mics=NC, data=cal), 'calib'))
    return o, NS, (NC,), lambda i, c: UF('x', [i, c]) * UF('cal', [c])
stream_item(['C02', 'C01'], 'calibrated data', SO + 'TimeSamples', _)

START, STOP = IV('start'), IV('stop')
def _(t, e):
    d = t.inp(e, 'x', (NS, NC), owner='upstream')
    o = t.obj(SO + 'MaskedTimeSamples', data=d, num_samples_total=NS, num_channels_total=NC, calib=None, start=START, stop=STOP, invalid_channels=[])
    return o, STOP - START, (NC,), lambda i, c: UF('x', [START + i, c])
stream_item(['C02', 'C01', 'C13'], 'samples start..stop of the data', SO + 'MaskedTimeSamples', _, [Le(ZERO, START), Lt(START, STOP), Le(STOP, NS)])

# ---------------------------------------------------------------- excluded channels: column j is the kept channel number j (contract C13 of .channels)
CNT = IV('cnt')
def chan_idx(t, e):
    """value of .channels under its own contract (contracts/masks.py): strictly increasing valid channel numbers"""
    pv.int_range('ch', ZERO, NC)
    return t.inp(e, 'ch', (CNT,), 'i')
CH = lambda c: UF('ch', [c], True)

def _(t, e):
    d = t.inp(e, 'x', (NS, NC), owner='upstream')
    o = t.obj(SO + 'MaskedTimeSamples', data=d, num_samples_total=NS, num_channels_total=NC, calib=None, start=START, stop=STOP, channels=chan_idx(t, e), num_channels=CNT)
    return o, STOP - START, (CNT,), lambda i, c: UF('x', [START + i, CH(c)])
stream_item(['C02', 'C01', 'C13'], 'samples start..stop of the channels that are not excluded', SO + 'MaskedTimeSamples', _, [Le(ZERO, START), Lt(START, STOP), Le(STOP, NS), Le(ONE, CNT)])

def _cal(total):
    def _(t, e):
        d = t.inp(e, 'x', (NS, NC), owner='upstream'); cal = t.inp(e, 'cal', (NC if total else CNT,), owner='upstream')
        o = t.obj(SO + 'MaskedTimeSamples', data=d, num_samples_total=NS, num_channels_total=NC, calib=SymObj(None, dict(num_mics=NC if total else CNT, data=cal), 'calib'), start=START, stop=STOP,
                  channels=chan_idx(t, e), num_channels=CNT)
        return o, STOP - START, (CNT,), lambda i, c: UF('x', [START + i, CH(c)]) * UF('cal', [CH(c) if total else c])
    stream_item(['C02', 'C01', 'C13'], f'calibration factors of {"all" if total else "the remaining"} channels stay aligned', SO + 'MaskedTimeSamples', _,
                [Le(ZERO, START), Lt(START, STOP), Le(STOP, NS), Le(ONE, CNT), Lt(CNT, NC)])
_cal(True); _cal(False)

def _(t, e):
    s = src_of(t, e)
    return t.obj(TP + 'MaskedTimeOut', source=s, start=0, stop=None, channels=chan_idx(t, e), num_channels=CNT), NS, (CNT,), lambda i, c: s.x((i, CH(c)))
stream_item(['C02', 'C01', 'C13'], 'channels that are not excluded, all samples', TP + 'MaskedTimeOut', _, [Le(ONE, CNT)])

def _(t, e):
    s = t.source(e, 'src', NS, CNT, cls='acoular.base:SamplesGenerator')
    return t.obj('acoular.calib:Calib', source=s, data=t.inp(e, 'cal', (NC,), owner='upstream'), channels=chan_idx(t, e), num_mics=NC), NS, (CNT,), lambda i, c: s.x((i, c)) * UF('cal', [CH(c)])
stream_item(['C02', 'C01', 'C13'], 'factors of the channels that are not excluded', 'acoular.calib:Calib', _, [Le(ONE, CNT)])
def _(t, e):
    s = t.source(e, 'src', NS, NC, cls='acoular.base:SamplesGenerator')
    return t.obj('acoular.calib:Calib', source=s, data=t.inp(e, 'cal', (NC,), owner='upstream'), channels=slice(0, None, None), num_mics=NC), NS, (NC,), lambda i, c: s.x((i, c)) * UF('cal', [c])
stream_item(['C02', 'C01', 'C13'], 'factors of all channels', 'acoular.calib:Calib', _)
