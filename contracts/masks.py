"""Contracts on channel and sample exclusion (C13)."""
from pyvc.vc import *
SO, TP, CA, MI = 'acoular.sources:', 'acoular.tprocess:', 'acoular.calib:', 'acoular.microphones:'
NC, NS = IV('nc'), IV('ns')
i_, k_, l_ = IV('i'), IV('k'), IV('l')

def bijection(t, p, nm, count, column):
    """the kept channels in increasing order: column(k) is the total channel of kept channel k"""
    e = p.eng
    if len(e.filters) != 1: raise Unsupported('selection is not a filtered range')
    f = next(iter(e.filters.values()))
    kept = Eq(UF('inv.has', [i_], True), 0)
    rk = [Le(ZERO, k_), Lt(k_, count)]
    c = column(k_)
    t.goal(p, nm + 'every entry is a kept channel', And(Le(ZERO, c), Lt(c, NC), subst_cond(kept, {'i': c})), rk)
    t.goal(p, nm + 'every kept channel has an entry', Or(Not(kept), And(Le(ZERO, f.rank(i_)), Lt(f.rank(i_), count), Eq(column(f.rank(i_)), i_))), [Le(ZERO, i_), Lt(i_, NC)])
    t.goal(p, nm + 'in the original order', Lt(c, column(l_)), rk + [Lt(k_, l_), Lt(l_, count), f.mono(k_, l_)])

def channels(cls, attrs, count=True):
    @item('C13', f'{cls.split(":")[1]}.channels: exactly the channels that are not excluded, in order')
    def _(t):
        def f(e):
            o = t.obj(cls, invalid_channels=t.abslist('inv'), **attrs(t, e))
            ch = t.get(e, o, 'channels')
            return ch, (t.get(e, o, 'num_channels') if count else None)
        for p in t.run(f, [Le(ONE, NC), Le(ZERO, IV('inv.len'))]):
            ch, n = p.val
            empty = pv.entails(p.eng.hyps, Eq(IV('inv.len'), 0))
            if isinstance(ch, slice):
                t.goal(p, 'all channels only if none is excluded', TRUE if empty and ch == slice(0, None, None) or ch == slice(None) else FALSE)
                if count: t.equal(p, 'announced count', n, NC)
            else:
                if count: t.equal(p, 'announced count is the number of selected channels', n, ch.shape[0])
                bijection(t, p, '', ch.shape[0], lambda k: num(ch.get((k,))))
channels(SO + 'MaskedTimeSamples', lambda t, e: dict(num_channels_total=NC))
channels(TP + 'MaskedTimeOut', lambda t, e: dict(source=t.source(e, 'src', NS, NC)))
channels(CA + 'Calib', lambda t, e: dict(num_mics=NC), False)

@item('C13', 'MicGeom.pos / num_mics: the columns of the microphones that are not excluded, in order')
def _(t):
    def f(e):
        o = t.obj(MI + 'MicGeom', invalid_channels=t.abslist('inv'), pos_total=t.inp(e, 'pt', (3, NC)))
        return t.get(e, o, 'pos'), t.get(e, o, 'num_mics')
    for p in t.run(f, [Le(ONE, NC), Le(ZERO, IV('inv.len'))]):
        pos, n = p.val
        t.equal(p, 'num_mics is the number of positions', n, pos.shape[1]); t.equal(p, 'three rows', pos.shape[0], 3)
        if pv.entails(p.eng.hyps, Eq(IV('inv.len'), 0)):
            t.equal(p, 'nothing excluded', pos, p.eng.new(lambda ix: UF('pt', ix), (P(3), NC)))
        else:
            fl = next(iter(p.eng.filters.values()))
            bijection(t, p, '', n, fl.idx)
            for r in range(3):
                t.obls.append((f'coordinate {r}', Oblig('coordinate', list(p.eng.hyps) + [Le(ZERO, k_), Lt(k_, n)], sub(num(pos.get((P(r), k_))), UF('pt', [P(r), fl.idx(k_)])), 'zero')))
        t.frame(p)

START, STOP = IV('start'), IV('stop')
def samples(cls, attrs):
    @item('C13', f'{cls.split(":")[1]}.num_samples: as many as start..stop selects')
    def _(t):
        cases = [('0 <= start <= stop <= total', START, STOP, [Le(ZERO, START), Le(START, STOP), Le(STOP, NS)], STOP - START),
                 ('no stop', START, None, [Le(ZERO, START), Le(START, NS)], NS - START),
                 ('stop beyond the end', START, STOP, [Le(ZERO, START), Le(START, NS), Le(NS, STOP)], NS - START),
                 ('negative start, no stop', START, None, [Lt(START, ZERO), Le(-NS, START)], -START),
                 ('negative stop', START, STOP, [Le(ZERO, START), Lt(STOP, ZERO), Le(START, NS + STOP)], NS + STOP - START)]
        for nm, a, b, hy, w in cases:
            def f(e): return t.get(e, t.obj(cls, start=a, stop=b, **attrs(t, e)), 'num_samples')
            for p in t.run(f, [Le(ONE, NS)] + hy): t.goal(p, nm, Eq(num(p.val), w))
samples(SO + 'MaskedTimeSamples', lambda t, e: dict(num_samples_total=NS))
samples(TP + 'MaskedTimeOut', lambda t, e: dict(source=t.source(e, 'src', NS, NC)))
