"""Contracts on SamplesBuffer (C15).

Buffer invariant, with r = samples read and shifted out so far and x the samples of the source:
    0 <= _index <= length,   _buffer has `length` rows,   row _index + i (0 <= i < level) holds x[r + i].
Every method that changes the buffer keeps it: _write_to_buffer appends the next samples (r unchanged), read_from_buffer
returns x[r : r + n] and moves r, increase_buffer changes nothing but the free space."""
from pyvc.vc import *
PR = 'acoular.process:'
L, IDX, NC, R, K, NR = (IV(x) for x in ('length', 'index', 'nc', 'r', 'k', 'num'))
PRE = [Le(ONE, L), Le(ZERO, IDX), Le(IDX, L), Le(ONE, NC), Le(ZERO, R)]
X = lambda i, c: UF('x', [i, c])
def buf(t, e, **kw):
    """a buffer in a state that satisfies the invariant; rows before _index hold anything"""
    g = lambda ix: ite(Le(IDX, ix[0]), X(R + ix[0] - IDX, ix[1]), UF('free', [ix[0], ix[1]]))
    b = e.new(g, (L, NC))
    return t.obj(PR + 'SamplesBuffer', length=L, _buffer=b, _index=IDX, num_channels=NC, dtype=kw.pop('dtype', DType('f')), **kw)
def invariant(t, p, o, length, index, r):
    e = p.eng; b = o.attrs['_buffer']; i, c = IV('i'), IV('c')
    t.equal(p, 'length', o.attrs['length'], length); t.equal(p, 'index', o.attrs['_index'], index)
    t.equal(p, 'rows of the buffer', b.shape[0], length); t.equal(p, 'columns of the buffer', b.shape[1], NC)
    t.goal(p, 'index stays inside the buffer', And(Le(ZERO, P(index)), Le(P(index), P(length))))
    t.obls.append(('content', Oblig('content', list(e.hyps) + [Le(ZERO, i), Lt(i, P(length) - index), Le(ZERO, c), Lt(c, NC)], num(b.get((P(index) + i, c))) - X(P(r) + i, c), 'zero')))

@item('C15', 'SamplesBuffer._write_to_buffer: appends the block behind the unread samples')
def _(t):
    def f(e):
        o = buf(t, e)
        d = e.new(lambda ix: X(R + L - IDX + ix[0], ix[1]), (K, NC))        # the next K samples of the source
        t.method(e, o, '_write_to_buffer', [d]); return o
    for p in t.run(f, PRE + [Le(ONE, K), Le(K, IDX)]): invariant(t, p, p.val, L, IDX - K, R)
@item('C15', 'SamplesBuffer.increase_buffer: adds free space in front, keeps the unread samples')
def _(t):
    def f(e):
        o = buf(t, e); t.method(e, o, 'increase_buffer', [K]); return o
    for p in t.run(f, PRE + [Le(ONE, K)]): invariant(t, p, p.val, L + K, IDX + K, R)
for nm, rn, how, shift in (('default', None, 'result_num', None), ('result_num', IV('rn'), 'result_num', None), ('overlapping', IV('rn'), 'num', NR)):
    def _(nm=nm, rn=rn, how=how):
        @item('C15', f'SamplesBuffer.read_from_buffer, {nm}: the oldest unread samples, in order, then moves on')
        def _(t):
            def f(e):
                o = buf(t, e, result_num=rn, shift_index_by=how)
                return o, t.method(e, o, 'read_from_buffer', [NR])
            want = NR if rn is None else rn
            # shifting by num never moves past the unread samples (precondition of that mode)
            for p in t.run(f, PRE + [Le(ONE, NR), Le(ONE, want), Lt(IDX, L)] + ([Le(NR, L - IDX)] if how == 'num' else [])):
                o, d = p.val; e = p.eng
                n = ite(Le(want, L - IDX), want, L - IDX)
                t.equal(p, 'rows', d.shape[0], n); t.equal(p, 'columns', d.shape[1], NC)
                i, c = IV('i'), IV('c')
                t.obls.append(('samples', Oblig('samples', list(e.hyps) + [Le(ZERO, i), Lt(i, n), Le(ZERO, c), Lt(c, NC)], num(d.get((i, c))) - X(R + i, c), 'zero')))
                s = NR if how == 'num' else n
                invariant(t, p, o, L, IDX + s, R + s)
                # the block is a copy: later writes to the buffer do not change what was delivered
                t.goal(p, 'the delivered block is not the buffer', FALSE if d.st is o.attrs['_buffer'].st else TRUE)
    _()
@item('C15', 'SamplesBuffer._create_new_buffer: an empty buffer, ready to be filled')
def _(t):
    def f(e):
        o = buf(t, e, _empty_source=True); t.method(e, o, '_create_new_buffer'); return o
    for p in t.run(f, PRE):
        invariant(t, p, p.val, L, L, R)
        t.goal(p, 'the source is not exhausted', TRUE if p.val.attrs['_empty_source'] is False else FALSE)
@item('C15', 'SamplesBuffer.level: number of unread samples')
def _(t):
    for p in t.run(lambda e: t.get(e, buf(t, e), 'level'), PRE): t.equal(p, 'level', p.val, L - IDX)

# ---------------------------------------------------------------- averages
NS, NAV = IV('ns'), IV('nav')
@item(['C01', 'C21'], 'Average.num_samples and sample_freq: one row per nav complete samples')
def _(t):
    def f(e):
        o = t.obj(PR + 'Average', source=SymObj(None, dict(num_samples=NS, sample_freq=V('fs')), 'src'), num_per_average=NAV)
        return t.get(e, o, 'num_samples'), t.get(e, o, 'sample_freq')
    for p in t.run(f, [Le(ZERO, NS), Le(ONE, NAV)]):
        t.equal(p, 'num_samples', p.val[0], mkapp('idiv', [NS, NAV], True)); t.equal(p, 'sample_freq', p.val[1], V('fs') * inverse(NAV))
