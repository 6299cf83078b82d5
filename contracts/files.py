"""Contracts on files that are written and read back (C23).

The file is a ghost object: every block appended must consist of the next rows of the source (`rows` counts them), it is
created empty with one column per channel, carries the sample rate of the object, and is closed in the end, when it holds
every row that was asked for."""
from pyvc.vc import *
TP = 'acoular.tprocess:'
NUM, NS, NC, LIM = IV('num'), IV('ns'), IV('nc'), IV('limit')
FS = V('fs')
PRE = [Le(ONE, NUM), Le(ONE, NS), Le(ONE, NC)]
X = lambda i, c: UF('src.x', [i, c])

class File:
    def __init__(self, e, dtype='float32'):
        self.e = e; self.rows = e.new(lambda ix: ZERO, (), 'i'); self.rows.st.owner = 'ghost'
        self.created = []; self.attrs = []; self.closed = 0; self.opened = []
    @property
    def n(self): return num(self.rows.get(()))
    def cls(self):
        def open_(en, name, mode='r', **kw): self.opened.append((name, mode)); return self.obj()
        return PyFn(open_)
    def obj(self):
        node = Obj('node')
        def create(en, name, shape, dtype, *a): self.created.append((name, shape, dtype)); return node
        def append(en, nd, block):
            if not en.quiet:
                i, c = IV('ai'), IV('acol'); h = list(en.hyps) + [Le(ZERO, i), Lt(i, block.shape[0]), Le(ZERO, c), Lt(c, NC)]
                en.obls.append(Oblig('the rows appended are the next rows of the source', h, sub(num(block.get((i, c))), X(self.n + i, c)), 'zero'))
                en.oblige('blocks go to the time data', TRUE if nd is node else FALSE)
                if block.kind != 'f': en.oblige('blocks keep their type', FALSE)
            v = self.n + block.shape[0]
            self.rows.st.elem = memo(lambda ix: v); self.rows.st.writes += 1
        def close(en): self.closed += 1
        return SymObj(None, dict(create_extendable_array=PyFn(create), append_data=PyFn(append), set_node_attribute=PyFn(lambda en, nd, n, v: self.attrs.append((nd is node, n, v))),
                                 get_data_by_reference=PyFn(lambda en, n, *a: node), flush=PyFn(lambda en: None), close=PyFn(close)), 'f5h')

def written(t, p, F, total):
    ok = lambda nm, c: t.goal(p, nm, TRUE if c else FALSE)
    ok('one array of time data is created, empty, with one column per channel and the precision asked for',
       len(F.created) == 1 and F.created[0][0] == 'time_data' and num(F.created[0][1][0]) == ZERO and num(F.created[0][1][1]) == NC and F.created[0][2] == 'prec')
    ok('the file is written from the start, under the name given', F.opened == [('out.h5', 'w')])
    ok('the sample rate is stored with the data', len(F.attrs) == 1 and F.attrs[0][:2] == (True, 'sample_freq') and F.attrs[0][2] == FS)
    ok('the file is closed', F.closed == 1)
    t.goal(p, 'the file holds the rows of the source', Eq(F.n, total))
def writer(t, e, **kw):
    s = t.source(e, 'src', NS, NC, fs=FS)
    F = e.file = File(e)
    e.overrides['acoular.tprocess', '_get_h5file_class'] = PyFn(lambda en: F.cls())
    t.assumed.add('a file object keeps the rows appended to an extendable array in order, and its attributes (pytables, h5py)')
    return t.obj(TP + 'WriteH5', source=s, file='out.h5', precision='prec', metadata={}, sample_freq=FS, num_channels=NC, write_flag=False, **kw)

@item('C23', 'WriteH5.save: the file holds every row of the source, in order', budget=200)
def _(t):
    def f(e):
        o = writer(t, e, num_samples_write=P(-1))
        e.hints = [lambda ix, k: None if ix else P(k) * 4096]
        t.method(e, o, 'save')
    for p in t.run(f, PRE): written(t, p, p.eng.file, NS)
for nm, lim, hyp, tot in (('without limit', P(-1), [], NS), ('limited to fewer samples than there are', LIM, [Le(ONE, LIM), Le(LIM, NS)], LIM), ('limit beyond the end', LIM, [Lt(NS, LIM)], NS)):
    def _(nm=nm, lim=lim, hyp=hyp, tot=tot):
        @item(['C23', 'C01'], f'WriteH5.result, {nm}: the blocks of the source, and the file holds the same rows', budget=200)
        def _(t):
            def f(e):
                o = writer(t, e, num_samples_write=lim)
                low = lambda a, b: ite(Le(a, b), a, b)
                e.hints = [lambda ix, k: None if ix else P(k) * NUM, lambda ix, k: None if ix else low(P(k) * NUM, NS)] + ([] if lim is not LIM else [lambda ix, k: None if ix else low(P(k) * NUM, LIM), lambda ix, k: None if ix else low(low(P(k) * NUM, LIM), NS)])
                t.method(e, o, 'result', [NUM])
            for p in t.run(f, PRE + hyp):
                t.stream(p, 'stream', NUM, tot, (NC,), X)
                written(t, p, p.eng.file, tot)
    _()
