"""Contracts on the simulated sources (C19, C01, C02)."""
from pyvc.vc import *
from contracts.streams import stream_item, NUM, NC, SO
UP, LS = IV('up'), IV('usig.len')
FS, CC, T0, T1 = V('fs'), V('c'), V('start_t'), V('start')
RM = lambda m: UF('r', [m])
def point(t, e, NS, cls='PointSource', **kw):
    """a point source: distances r[m] > 0 of its environment (contracts/env.py), upsampled signal usig of length up * ns"""
    pv.FACTS['r'] = lambda a: [Lt(ZERO, UF('r', list(a)))]
    def dist(en, gp, mp=None): return en.new(lambda ix: RM(ix[-1]), (ONE, NC))
    env = SymObj(None, dict(c=CC, _r=PyFn(dist)), 'env')
    mics = SymObj(None, dict(num_mics=NC, pos=t.inp(e, 'mpos', (3, NC), owner='upstream')), 'mics')
    def us(en, factor):
        return en.new(lambda ix: UF('usig', [ix[0]]), (NS * num(factor),), 'f', owner='upstream')
    sig = SymObj(None, dict(usignal=PyFn(us), num_samples=NS, sample_freq=FS), 'signal')
    return t.obj(SO + cls, signal=sig, loc=(V('lx'), V('ly'), V('lz')), mics=mics, env=env, start_t=T0, start=T1, up=UP, num_samples=NS, sample_freq=FS, num_channels=NC, **kw)
HY = [Le(ONE, UP), Lt(ZERO, FS), Lt(ZERO, CC)]
def pos(i, m): return (T1 - T0 - RM(m) * inverse(CC)) * FS * UP + i * UP       # upsampled sample position at row i
def amp(NS, i, m):
    x = pos(i, m)
    return UF('usig', [mkapp('mod', [mkapp('floor', [x + Fraction(1, 2)]), NS * UP], True)]) * inverse(RM(m))
# ---------------------------------------------------------------- the block kernel
def cell(sig, n, x, r, pad):
    """sample of the upsampled periodic signal nearest to position x, over the distance; zero before the signal starts if padded"""
    i = mkapp('mod', [mkapp('trunc', [x + Fraction(1, 2)]), n], True)
    v = sig(i) * inverse(r)
    return ite(Lt(x, ZERO), ZERO, v) if pad else v
BS, SL = IV('bs'), IV('sl')
for pad in (False, True):
    def _(pad=pad):
        @item(['C19'], f'_fill_mic_signal_block, {"zeros" if pad else "loop"}: fills the first blocksize rows and advances the positions')
        def _(t):
            def f(e):
                pv.FACTS['rm'] = lambda a: [Lt(ZERO, UF('rm', list(a)))]
                out = t.inp(e, 'out', (NUM, NC), owner=None); ind = t.inp(e, 'ind', (1, NC), owner=None)
                out = e.new(out.snap(), out.shape, 'f'); ind = e.new(ind.snap(), ind.shape, 'f')
                sig = t.inp(e, 'sig', (SL,)); rm = t.inp(e, 'rm', (1, NC))
                r = e.call_func(t.fval(SO + '_fill_mic_signal_block'), [out, sig, rm, ind, BS, NC, UP, pad], {})
                t.functions.add('acoular.sources._fill_mic_signal_block')
                return r, out, ind
            for p in t.run(f, [Le(ONE, NUM), Le(ONE, NC), Le(ONE, SL), Le(ONE, BS), Le(BS, NUM), Le(ONE, UP)]):
                e = p.eng; r, out, ind = p.val
                w = lambda ix: ite(Lt(ix[0], BS), cell(lambda i: UF('sig', [i]), SL, UF('ind', [ZERO, ix[1]]) + ix[0] * UP, UF('rm', [ZERO, ix[1]]), pad), UF('out', list(ix)))
                t.equal(p, 'block', out, e.new(w, (NUM, NC))); t.equal(p, 'returned block', r, e.new(w, (NUM, NC)))
                t.equal(p, 'positions', ind, e.new(lambda ix: UF('ind', [ZERO, ix[1]]) + BS * UP, (ONE, NC)))
                t.frame(p, 'the signal and the distances are not written')
    _()
def fill_block(t):
    """the contract above, for the callers"""
    def k(e, out, signal, rm, ind, bs, nc, up, pad):
        t.assumed.add('acoular.sources._fill_mic_signal_block: contract proved in contracts/sources.py')
        bs, up = num(bs), num(up); e.oblige('block size within the buffer', And(Le(ONE, bs), Le(bs, out.shape[0])))
        o, s, r, x = out.snap(), signal.snap(), rm.snap(), ind.snap(); n = signal.shape[0]
        pad = e.truth(pad) == TRUE
        e.write_view(out, e.new(lambda ix: ite(Lt(ix[0], bs), cell(lambda i: num(s((i,))), n, num(x((ZERO, ix[1]))) + ix[0] * up, num(r((ZERO, ix[1]))), pad), num(o(ix))), out.shape, 'f'))
        e.write_view(ind, e.new(lambda ix: num(x(ix)) + bs * up, ind.shape, 'f'))
        return out
    return {('acoular.sources', '_fill_mic_signal_block'): k}
# every length is q complete blocks and a rest of 1..num rows
Q, REST = IV('q'), IV('rest')
def lemmas(t, e):
    """floor(y / (num up)) num up <= y for the quotients of the path condition; proved, then used"""
    out = {}
    for c in [c for ev in e.events for c in ev.hyps] + list(e.hyps):
        for a in pv.cond_atoms(c):
            if type(a) is App and a.f == 'floor':
                y = a.args[0] * NUM * UP
                if any(ex < 0 for m in y.t for x, ex in m if P(x) in (NUM, UP)): continue
                g = Le(P(a) * NUM * UP, y)
                if g.skey not in out:
                    out[g.skey] = g
                    t.obls.append(('lemma on the quotient', Oblig('lemma on the quotient', [Le(ONE, NUM), Le(ONE, UP)], g)))
    return list(out.values())
def source_item(name, mk, spec, hyps=(), budget=150):
    for nm, rest, h in (('shorter last block', REST, [Le(ONE, REST), Lt(REST, NUM)]), ('full last block', NUM, [])):
        def _(rest=rest, h=h):
            n = Q * NUM + rest
            @item(['C19', 'C01', 'C02'], f'{name}, {nm}', budget=budget)
            def _(t):
                def f(e): t.method(e, mk(t, e, n), 'result', [NUM])
                for p in t.run(f, [Le(ONE, NUM), Le(ONE, NC), Le(ZERO, Q)] + h + list(hyps), contracts=fill_block(t)):
                    e = p.eng
                    lem = lemmas(t, e)
                    def sp(i, m):
                        w = spec(n, i, m)
                        w, extra = w if isinstance(w, tuple) else (w, [])
                        return w, list(extra) + lem + t.inst(e, (m,))
                    t.stream(p, 'stream', NUM, n, (NC,), sp)
                    t.frame(p, 'no write to the samples of the signal')
        _()
source_item('PointSource.result: delayed by r/c, divided by r, loop', lambda t, e, n: point(t, e, n, prepadding='loop'), lambda n, i, m: (amp(n, i, m), [Le(ZERO, pos(i, m))]), HY)
source_item('PointSource.result: delayed by r/c, divided by r, zeros before the signal arrives', lambda t, e, n: point(t, e, n, prepadding='zeros'), lambda n, i, m: ite(Lt(pos(i, m), ZERO), ZERO, amp(n, i, m)), HY)
