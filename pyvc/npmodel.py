"""Contracts assumed for numpy / Python builtins (trusted base): pull-array models."""
import ast
from fractions import Fraction
from .poly import *
from .poly import P, C, Cx
from .interp import *
from .interp import NDArr, Storage, DType, Obj, RangeVal, SymIter, WhereTuple, Stream, StreamIter, BlockList, ListOfBlocks, ShapeTuple, SymList, Engine, PyRaise, Builtin, ModVal, conc, num, lift, isnum
import math

TAB = {}
BUILTINS = {}
MODULES = {'numpy', 'numba', 'numpy.linalg', 'numpy.fft', 'numpy.random', 'scipy', 'scipy.linalg', 'scipy.signal', 'scipy.fft', 'scipy.special', 'scipy.spatial', 'scipy.spatial.distance', 'scipy.optimize', 'scipy.interpolate', 'warnings', 'math', 'itertools', 'functools'}
PI = V('pi')
CONSTS = {'numpy.pi': PI, 'math.pi': PI, 'numpy.newaxis': None, 'numpy.nan': Obj('nan'), 'numpy.inf': Obj('inf', sign=1), 'math.inf': Obj('inf', sign=1),
          'numpy.float64': DType('f'), 'numpy.float32': DType('f'), 'numpy.complex128': DType('c'), 'numpy.complex64': DType('c'), 'numpy.int64': DType('i'), 'numpy.int32': DType('i'),
          'numpy.int16': DType('i'), 'numpy.int8': DType('i'), 'numpy.bool_': DType('b'), 'numba.float64': DType('f'), 'numba.float32': DType('f'), 'numba.int64': DType('i'), 'numba.int32': DType('i'),
          'numba.complex128': DType('c'), 'numpy.ndarray': Obj('ndarraytype')}
BUILTIN_CONSTS = {'float': DType('f'), 'int': DType('int'), 'complex': DType('c'), 'bool': DType('b'), 'str': Obj('strtype'), 'tuple': Obj('tupletype'), 'list': Obj('listtype'), 'dict': Obj('dicttype'), 'object': Obj('objecttype'),
                  'set': Obj('settype')}

def reg(*names):
    def d(f):
        for n in names: TAB[n] = f
        return f
    return d
def lookup(name):
    return TAB.get(name)

def dtype_kind(d, default='f'):
    if d is None: return default
    if isinstance(d, DType): return {'int': 'i'}.get(d.kind, d.kind)
    if isinstance(d, str):
        if d.startswith('complex'): return 'c'
        if d.startswith('int') or d.startswith('uint'): return 'i'
        if d.startswith('bool'): return 'b'
        return 'f'
    if isinstance(d, Obj): return default
    return default
def zero_of(kind):
    return {'c': C(0), 'b': FALSE}.get(kind, ZERO)
def cast(e, v, d):
    k = d.kind
    if isinstance(v, NDArr) and v.ndim == 0: v = v.get(())
    if isinstance(v, NDArr): return astype(e, v, d)
    v = lift(v)
    if isinstance(v, Cond): v = ind(v)
    if k in ('i', 'int'):
        if isinstance(v, Poly):
            if v.is_int: return v
            if e.decide(Le(ZERO, v)): return mkapp('floor', [v])
            return mkapp('trunc', [v])
        raise Unsupported('int()')
    if k == 'f':
        if isinstance(v, Cx): raise PyRaise('TypeError')
        if isinstance(v, (Poly,)): return v
        raise Unsupported('float()')
    if k == 'c': return C(v)
    if k == 'b': return e.truth(v)
    raise Unsupported('cast')
def shape_of(s):
    if isinstance(s, (tuple, list)): return tuple(P(num(x)) for x in s)
    if isinstance(s, NDArr):
        n = conc(s.shape[0])
        return tuple(num(s.get((P(i),))) for i in range(n))
    return (P(num(s)),)

@reg('numpy.zeros')
def zeros(e, shape, dtype=None, order=None):
    k = dtype_kind(dtype); z = zero_of(k)
    return e.new(lambda idx: z, shape_of(shape), k)
@reg('numpy.ones')
def ones(e, shape, dtype=None):
    k = dtype_kind(dtype); o = C(1) if k == 'c' else (TRUE if k == 'b' else ONE)
    return e.new(lambda idx: o, shape_of(shape), k)
@reg('numpy.empty')
def empty(e, shape, dtype=None):
    k = dtype_kind(dtype); nm = fresh_name('uninit')
    if k == 'c': f = lambda idx: Cx(UF(nm + '.re', idx), UF(nm + '.im', idx))
    elif k == 'b': f = lambda idx: Not(Eq(UF(nm, idx, True), 0))
    else: f = lambda idx: UF(nm, idx, k == 'i')
    return e.new(f, shape_of(shape), k)
@reg('numpy.full')
def full(e, shape, v, dtype=None):
    v = lift(v); k = dtype_kind(dtype, e.kindof(v))
    return e.new(lambda idx: v, shape_of(shape), k)
@reg('numpy.zeros_like')
def zeros_like(e, a, dtype=None):
    a = e.asarray(a); return zeros(e, a.shape, dtype if dtype is not None else DType(a.kind))
@reg('numpy.ones_like')
def ones_like(e, a, dtype=None):
    a = e.asarray(a); return ones(e, a.shape, dtype if dtype is not None else DType(a.kind))
@reg('numpy.empty_like')
def empty_like(e, a, dtype=None):
    a = e.asarray(a); return empty(e, a.shape, dtype if dtype is not None else DType(a.kind))
@reg('numpy.array', 'numpy.asarray', 'numpy.ascontiguousarray', 'numpy.copy', 'numpy.asfarray')
def array(e, a, dtype=None, copy=None, order=None):
    if isinstance(a, SymList): a = a.arr
    a = e.asarray(a)
    k = dtype_kind(dtype, a.kind) if dtype is not None else a.kind
    s = a.snap()
    if k == 'i' and a.kind == 'f': return e.new(lambda idx: mkapp('trunc', [num(s(idx))]), a.shape, 'i')
    if k == 'c' and a.kind != 'c': return e.new(lambda idx: C(num(s(idx))), a.shape, 'c')
    return e.new(s, a.shape, k)
@reg('numpy.atleast_1d')
def atleast_1d(e, a):
    a = e.asarray(a)
    return a if a.ndim else reshape(e, a, (1,))
def unsup(m): raise Unsupported(m)
@reg('numpy.eye', 'numpy.identity')
def eye(e, n, dtype=None):
    n = P(num(n)); k = dtype_kind(dtype)
    return e.new(lambda idx: ind(Eq(idx[0], idx[1])), (n, n), k)
@reg('numpy.arange')
def arange(e, *a, dtype=None):
    if len(a) == 1: lo, hi, st = ZERO, num(a[0]), 1
    elif len(a) == 2: lo, hi, st = num(a[0]), num(a[1]), 1
    else: lo, hi, st = num(a[0]), num(a[1]), num(a[2])
    st = P(st)
    if not (lo.is_int and hi.is_int and st.is_int): 
        n = -mkapp('floor', [-(hi - lo) / st])
    elif conc(st) == 1: n = hi - lo
    else: n = mkapp('idiv', [hi - lo + st - 1, st], True)
    if not e.decide(Le(ZERO, n)): n = ite(Lt(n, ZERO), ZERO, n)
    k = dtype_kind(dtype, 'i' if lo.is_int and st.is_int else 'f')
    return e.new(lambda idx: lo + idx[0] * st, (n,), k)
@reg('numpy.linspace')
def linspace(e, a, b, n, endpoint=True):
    a, b, n = num(a), num(b), num(n)
    d = (n - 1) if e.decide(e.truth(endpoint)) else n
    return e.new(lambda idx: a + (b - a) * idx[0] / d, (n,), 'f')

def ufunc(name, f, kind=None):
    def g(e, x, out=None, where=None):
        if isinstance(x, (list, tuple)): x = e.asarray(x)
        if isinstance(x, NDArr):
            k = kind(x.kind) if callable(kind) else (kind or x.kind)
            r = e.elementwise(lambda v: f(e, num(lift(v))), x, kind=k)
        else: r = f(e, num(lift(x)))
        if out is not None:
            e.write_view(out, r); return out
        return r
    TAB['numpy.' + name] = g
    return g
def _abs(e, v):
    if isinstance(v, Cx):
        if not v.im.t: return mkapp('abs', [v.re])
        return sqrt(v.abs2())
    if e.decide(Le(ZERO, v)): return v
    return mkapp('abs', [v])
def _exp(e, v):
    if isinstance(v, Cx):
        if not v.re.t: return Cx(mkapp('cos', [v.im]), mkapp('sin', [v.im]))
        m = mkapp('exp', [v.re])
        return Cx(m * mkapp('cos', [v.im]), m * mkapp('sin', [v.im]))
    return mkapp('exp', [v])
def _sqrt(e, v):
    if isinstance(v, Cx):
        if not v.im.t: v = v.re
        else: raise Unsupported('complex sqrt')
    return sqrt(v)
fl = lambda k: 'f'
fc = lambda k: 'c' if k == 'c' else 'f'
ufunc('abs', _abs, fl); ufunc('absolute', _abs, fl); ufunc('exp', _exp, fc); ufunc('sqrt', _sqrt, fl)
def real1(fn): return lambda e, v: mkapp(fn, [v]) if isinstance(v, Poly) else (_ for _ in ()).throw(Unsupported(fn + ' of complex'))
for n_ in ('cos', 'sin', 'tan', 'tanh', 'cosh', 'sinh', 'log', 'log10', 'arctan', 'arccos', 'arcsin', 'log2'): ufunc(n_, real1(n_), fl)
ufunc('square', lambda e, v: v * v)
ufunc('conj', lambda e, v: v.conj() if isinstance(v, Cx) else v); ufunc('conjugate', lambda e, v: v.conj() if isinstance(v, Cx) else v)
ufunc('real', lambda e, v: v.re if isinstance(v, Cx) else v, fl); ufunc('imag', lambda e, v: v.im if isinstance(v, Cx) else ZERO, fl)
ufunc('floor', lambda e, v: mkapp('floor', [v]), fl)
def floor_of(e, v):
    """floor, resolved when the precondition confines its fractional part to one unit interval"""
    p = mkapp('floor', [num(v)]); out = p
    for m, c in p.t.items():
        if len(m) == 1 and m[0][1] == 1 and type(m[0][0]) is App and m[0][0].f == 'floor':
            x = m[0][0].args[0]
            if all(ex > 0 for mm in x.t for _, ex in mm) and not any(type(a) is Inv for a in atoms_of(x)): continue
            for n in (0, -1):
                if pv.entails(e.hyps, Le(P(n), x)) and pv.entails(e.hyps, Lt(x, P(n + 1))): out = out - Poly({m: c}) + P(n * c); break
    return out
ufunc('ceil', lambda e, v: -floor_of(e, -v), fl)
ufunc('int_', lambda e, v: mkapp('trunc', [v]), lambda k: 'i')
ufunc('negative', lambda e, v: -v)
def _sign(e, v): return ite(Lt(v, ZERO), P(-1), ite(Eq(v, ZERO), ZERO, ONE))
ufunc('sign', _sign)
ufunc('fabs', _abs, fl)
TAB['math.sqrt'] = TAB['numpy.sqrt']; TAB['math.floor'] = lambda e, v: floor_of(e, v); TAB['math.ceil'] = lambda e, v: -floor_of(e, -num(v))
ufunc('rint', lambda e, v: UF('rint', [v], True), fl)
TAB['numpy.round'] = TAB['numpy.rint']
for n_, op in (('add', 'Add'), ('subtract', 'Sub'), ('multiply', 'Mult'), ('divide', 'Div'), ('true_divide', 'Div'), ('power', 'Pow'), ('mod', 'Mod'), ('floor_divide', 'FloorDiv')):
    def mk(op):
        def g(e, a, b, out=None):
            r = e.binop(op, e.asarray(a) if isinstance(a, (list, tuple)) else a, e.asarray(b) if isinstance(b, (list, tuple)) else b)
            if out is not None: e.write_view(out, r); return out
            return r
        return g
    TAB['numpy.' + n_] = mk(op)
@reg('numpy.maximum')
def maximum(e, a, b): return e.elementwise(lambda x, y: ite(Lt(num(x), num(y)), num(y), num(x)), a, b) if isinstance(a, NDArr) or isinstance(b, NDArr) else ite(Lt(num(a), num(b)), num(b), num(a))
@reg('numpy.minimum')
def minimum(e, a, b): return e.elementwise(lambda x, y: ite(Lt(num(x), num(y)), num(x), num(y)), a, b) if isinstance(a, NDArr) or isinstance(b, NDArr) else ite(Lt(num(a), num(b)), num(a), num(b))
@reg('numpy.clip')
def clip(e, a, lo, hi):
    if lo is not None: a = maximum(e, a, lo)
    if hi is not None: a = minimum(e, a, hi)
    return a
@reg('numpy.arctan2')
def arctan2(e, a, b): return e.elementwise(lambda x, y: UF('atan2', [num(x), num(y)]), a, b) if isinstance(a, NDArr) or isinstance(b, NDArr) else UF('atan2', [num(a), num(b)])
@reg('numpy.where')
def where(e, c, a=None, b=None):
    if a is None:
        c = e.asarray(c)
        if c.kind != 'b': c = e.elementwise(lambda x: e.truth(x), c, kind='b')
        return WhereTuple(c)
    ka, kb = e.kindof(a), e.kindof(b)
    k = 'c' if 'c' in (ka, kb) else ('f' if 'f' in (ka, kb) else ka)
    return e.elementwise(lambda x, y, z: ite(e.truth(x), num(y), num(z)), c, a, b, kind=k)
@reg('numpy.logical_and')
def logical_and(e, a, b): return e.elementwise(lambda x, y: And(e.truth(x), e.truth(y)), a, b, kind='b') if isinstance(a, NDArr) or isinstance(b, NDArr) else And(e.truth(a), e.truth(b))
@reg('numpy.logical_or')
def logical_or(e, a, b): return e.elementwise(lambda x, y: Or(e.truth(x), e.truth(y)), a, b, kind='b') if isinstance(a, NDArr) or isinstance(b, NDArr) else Or(e.truth(a), e.truth(b))
@reg('numpy.logical_not', 'numpy.invert')
def logical_not(e, a): return e.elementwise(lambda x: Not(e.truth(x)), a, kind='b')
@reg('numpy.isscalar')
def isscalar(e, a): return isnum(a) or isinstance(a, str)
@reg('numpy.shape')
def npshape(e, a): return ShapeTuple(e.asarray(a).shape)

def norm_axis(e, ax, nd):
    a = conc(ax)
    if a is None: raise Unsupported('axis')
    return a + nd if a < 0 else a
def reduce_sum(e, a, axes, keepdims=False):
    a = e.asarray(a)
    s = a.snap()
    nd = a.ndim
    keep = [i for i in range(nd) if i not in axes]
    shape = tuple(ONE if (i in axes) else a.shape[i] for i in range(nd)) if keepdims else tuple(a.shape[i] for i in keep)
    def elem(idx):
        bs = {}
        full = [None] * nd
        j = 0
        for i in range(nd):
            if i in axes:
                bs[i] = Var(fresh_name('b'), True); full[i] = P(bs[i])
                if keepdims: j += 1
            else:
                full[i] = idx[j]; j += 1
        v = num(s(tuple(full)))
        bl = [(bs[i], ZERO, a.shape[i]) for i in axes]
        if isinstance(v, Cx): return Cx(make_sum(bl, v.re), make_sum(bl, v.im))
        return make_sum(bl, v)
    if not shape: return elem(())
    return e.new(elem, shape, 'i' if a.kind == 'b' else a.kind)
@reg('numpy.sum')
def npsum(e, a, axis=None, keepdims=False, dtype=None):
    a = a.arr if isinstance(a, SymList) else a
    a = e.asarray(a)
    if getattr(a, 'masked', None) is not None:       # sum over the selected elements
        if axis is not None and a.ndim != 1: raise Unsupported('sum of a selection along an axis')
        b, m = a.masked
        z = C(0) if b.kind == 'c' else ZERO
        return npsum(e, e.elementwise(lambda x, y: ite(e.truth(y), num(x), z), b, m, kind=b.kind), None, keepdims)
    if axis is None: axes = list(range(a.ndim))
    elif isinstance(axis, tuple): axes = [norm_axis(e, x, a.ndim) for x in axis]
    else: axes = [norm_axis(e, axis, a.ndim)]
    return reduce_sum(e, a, axes, keepdims is True)
@reg('numpy.mean')
def mean(e, a, axis=None, keepdims=False):
    a = e.asarray(a)
    s = npsum(e, a, axis, keepdims)
    axes = range(a.ndim) if axis is None else [norm_axis(e, axis, a.ndim)]
    n = ONE
    for i in axes: n = n * a.shape[i]
    return e.binop('Div', s, n)
@reg('numpy.cumsum')
def cumsum(e, a, axis=None):
    a = e.asarray(a)
    if axis is None:
        if a.ndim != 1: raise Unsupported('cumsum')
        axis = 0
    ax = norm_axis(e, axis, a.ndim)
    s = a.snap()
    def elem(idx):
        t = Var(fresh_name('b'), True)
        full = list(idx); full[ax] = P(t)
        v = num(s(tuple(full)))
        bl = [(t, ZERO, idx[ax] + 1)]
        if isinstance(v, Cx): return Cx(make_sum(bl, v.re), make_sum(bl, v.im))
        return make_sum(bl, v)
    return e.new(elem, a.shape, a.kind)
@reg('numpy.prod')
def prod(e, a, axis=None):
    if isinstance(a, (tuple, list)):
        r = ONE
        for x in a: r = r * num(x)
        return r
    n = conc(a.shape[0]) if a.ndim == 1 else None
    if n is None: raise Unsupported('prod')
    r = ONE
    for i in range(n): r = r * num(a.get((P(i),)))
    return r
@reg('numpy.dot', 'numpy.matmul')
def dot(e, a, b):
    a, b = e.asarray(a), e.asarray(b)
    if a.ndim == 0 or b.ndim == 0: return e.binop('Mult', a, b)
    sa, sb = a.snap(), b.snap()
    n = a.shape[-1]
    m = b.shape[0] if b.ndim == 1 else b.shape[-2]
    if n != m:
        d = e.decide(Eq(n, m))
        if d is False: raise PyRaise('ValueError', 'shapes')
        if d is None: e.oblige('shapes agree', Eq(n, m))
    na, nb = a.ndim - 1, b.ndim - 1
    shape = tuple(a.shape[:-1]) + tuple(b.shape[:-2] + b.shape[-1:] if b.ndim > 1 else ())
    def elem(idx):
        t = Var(fresh_name('b'), True)
        ia = tuple(idx[:na]) + (P(t),)
        rb = idx[na:]
        ib = (P(t),) if b.ndim == 1 else tuple(rb[:-1]) + (P(t), rb[-1])
        v = num(sa(ia)) * num(sb(ib)) if not (isinstance(num(sa(ia)), Poly) and isinstance(num(sb(ib)), Cx)) else num(sb(ib)) * num(sa(ia))
        bl = [(t, ZERO, n)]
        if isinstance(v, Cx): return Cx(make_sum(bl, v.re), make_sum(bl, v.im))
        return make_sum(bl, v)
    k = 'c' if 'c' in (a.kind, b.kind) else ('f' if 'f' in (a.kind, b.kind) else 'i')
    if not shape: return elem(())
    return e.new(elem, shape, k)
@reg('numpy.vdot')
def vdot(e, a, b): return dot(e, TAB['numpy.conj'](e, a), b)
@reg('numpy.outer')
def outer(e, a, b):
    a, b = e.asarray(a), e.asarray(b)
    return e.binop('Mult', e.index(a, (slice(None), None)), e.index(b, (None, slice(None))))
@reg('numpy.einsum')
def einsum(e, spec, *ops, **kw):
    ins, out = spec.replace(' ', '').split('->')
    ins = ins.split(',')
    arrs = [e.asarray(o) for o in ops]
    dims = {}
    for s, a in zip(ins, arrs):
        if len(s) != a.ndim: raise PyRaise('ValueError')
        for ch, n in zip(s, a.shape):
            if ch in dims and dims[ch] != n and dims[ch] != ONE:
                if e.decide(Eq(dims[ch], n)) is not True: e.oblige('einsum dims', Eq(dims[ch], n))
            else: dims[ch] = n
    summed = [c for c in dims if c not in out]
    snaps = [a.snap() for a in arrs]
    def elem(idx):
        m = dict(zip(out, idx)); bl = []
        for c in summed:
            t = Var(fresh_name('b'), True); m[c] = P(t); bl.append((t, ZERO, dims[c]))
        v = None
        for s, sn in zip(ins, snaps):
            x = num(sn(tuple(m[c] for c in s)))
            v = x if v is None else (C(v) * x if isinstance(x, Cx) else v * x)
        if not bl: return v
        if isinstance(v, Cx): return Cx(make_sum(bl, v.re), make_sum(bl, v.im))
        return make_sum(bl, v)
    k = 'c' if any(a.kind == 'c' for a in arrs) else 'f'
    if not out: return elem(())
    return e.new(elem, tuple(dims[c] for c in out), k)
@reg('numpy.transpose')
def transpose(e, a, axes=None):
    a = e.asarray(a)
    p = list(range(a.ndim))[::-1] if axes is None else [conc(x) for x in axes]
    inv = {old: new for new, old in enumerate(p)}
    dims = [d if d[0] == 'fix' else ('ax', inv[d[1]], d[2], d[3]) for d in a.dims]
    return NDArr(a.st, [a.shape[i] for i in p], dims)
def swapaxes(e, a, i, j):
    p = list(range(a.ndim)); i, j = norm_axis(e, i, a.ndim), norm_axis(e, j, a.ndim)
    p[i], p[j] = p[j], p[i]
    return transpose(e, a, p)
TAB['numpy.swapaxes'] = swapaxes
@reg('numpy.diag')
def diag(e, a):
    a = e.asarray(a); s = a.snap()
    if a.ndim == 2: return e.new(lambda idx: s((idx[0], idx[0])), (a.shape[0],), a.kind)
    z = C(0) if a.kind == 'c' else ZERO
    return e.new(lambda idx: ite(Eq(idx[0], idx[1]), s((idx[0],)), z), (a.shape[0], a.shape[0]), a.kind)
TAB['numpy.diagonal'] = diag
@reg('numpy.trace')
def trace(e, a): return npsum(e, diag(e, a))
@reg('numpy.fill_diagonal')
def fill_diagonal(e, a, v):
    if a.ndim != 2: raise Unsupported('fill_diagonal')
    s = a.snap(); v = lift(v)
    if isinstance(v, NDArr):
        vs = v.snap()
        e.write_view(a, e.new(lambda idx: ite(Eq(idx[0], idx[1]), num(vs((idx[0],))), num(s(idx))), a.shape, a.kind))
    else: e.write_view(a, e.new(lambda idx: ite(Eq(idx[0], idx[1]), num(v), num(s(idx))), a.shape, a.kind))
@reg('numpy.triu')
def triu(e, a, k=0):
    s = a.snap(); z = C(0) if a.kind == 'c' else ZERO
    kk = P(k)
    return e.new(lambda idx: ite(Le(idx[-2] + kk, idx[-1]), num(s(idx)), z), a.shape, a.kind)
def _tri_indices(e, n, up):
    n = num(n); nm = 'triu' if up else 'tril'
    r = lambda p: UF('int:' + nm + '.r', [n, P(p)], True); c = lambda p: UF('int:' + nm + '.c', [n, P(p)], True)
    K = (n * n + n).scale(Fraction(1, 2))
    if up: fact = lambda A: [Or(Lt(A[1], ZERO), Le(A[0] * A[0] + A[0], A[1] * 2), And(Le(ZERO, _r(A)), Le(_r(A), _c(A)), Lt(_c(A), A[0]), Eq(A[1] * 2, _r(A) * A[0] * 2 - _r(A) * (_r(A) - 1) + (_c(A) - _r(A)) * 2)))]
    else: fact = lambda A: [Or(Lt(A[1], ZERO), Le(A[0] * A[0] + A[0], A[1] * 2), And(Le(ZERO, _c(A)), Le(_c(A), _r(A)), Lt(_r(A), A[0]), Eq(A[1] * 2, _r(A) * (_r(A) + 1) + _c(A) * 2)))]
    _r = lambda A: UF('int:' + nm + '.r', A, True); _c = lambda A: UF('int:' + nm + '.c', A, True)
    pv.FACTS['int:' + nm + '.r'] = pv.FACTS['int:' + nm + '.c'] = fact
    e.assume(f'numpy.{nm}_indices: row-major enumeration of the triangle')
    return e.new(lambda ix: r(ix[0]), (K,), 'i'), e.new(lambda ix: c(ix[0]), (K,), 'i')
@reg('numpy.triu_indices')
def triu_indices(e, n, k=0, m=None):
    if conc(num(k)) != 0 or m is not None: raise Unsupported('triu_indices')
    return _tri_indices(e, n, True)
@reg('numpy.tril_indices')
def tril_indices(e, n, k=0, m=None):
    if conc(num(k)) != 0 or m is not None: raise Unsupported('tril_indices')
    return _tri_indices(e, n, False)
@reg('numpy.tril')
def tril(e, a, k=0):
    s = a.snap(); z = C(0) if a.kind == 'c' else ZERO
    kk = P(k)
    return e.new(lambda idx: ite(Le(idx[-1], idx[-2] + kk), num(s(idx)), z), a.shape, a.kind)
def exact_quotient(p, r):
    """monomial q with q * r == p, or None"""
    if not p.t or len(p.t) != len(r.t): return None
    m0, c0 = next(iter(r.t.items()))
    for m, c in p.t.items():
        d = dict(m)
        for x, k in m0: d[x] = d.get(x, 0) - k
        if any(k < 0 for k in d.values()): continue
        q = Poly({tuple(sorted(((x, k) for x, k in d.items() if k), key=lambda ae: ae[0].skey)): c / c0})
        if q * r == p: return q
    return None
def reshape(e, a, *shape, order=None):
    if order not in (None, 'C'): raise Unsupported('reshape order')
    a = e.asarray(a)
    if len(shape) == 1 and isinstance(shape[0], (tuple, list)): shape = tuple(shape[0])
    shape = list(shape)
    tot = ONE
    for s in a.shape: tot = tot * s
    for i, s in enumerate(shape):
        if conc(s) == -1:
            r = ONE
            for j, t in enumerate(shape):
                if j != i: r = r * P(num(t))
            if r == ONE: shape[i] = tot
            else:
                q = tot / r
                if not q.is_int: q = exact_quotient(tot, r) or q
                if not q.is_int: q = mkapp('idiv', [tot, r], True)
                shape[i] = q
    shape = tuple(P(num(s)) for s in shape)
    old = [s for s in a.shape if s != ONE]; new = [s for s in shape if s != ONE]
    sn = a.snap()
    if old == new:
        pos_old = [i for i, s in enumerate(a.shape) if s != ONE]
        pos_new = [i for i, s in enumerate(shape) if s != ONE]
        mp = dict(zip(pos_old, pos_new))
        dims = []
        ok = True
        for d in a.dims:
            if d[0] == 'fix': dims.append(d)
            elif d[1] in mp: dims.append(('ax', mp[d[1]], d[2], d[3]))
            else: dims.append(('fix', d[2]))
        return NDArr(a.st, shape, dims)
    # axes common to both shapes (leading, trailing) are kept; the rest goes through the flat index
    ao = list(a.shape); no = list(shape)
    lead = 0
    while lead < len(ao) and lead < len(no) and ao[lead] == no[lead]: lead += 1
    tail = 0
    while tail < len(ao) - lead and tail < len(no) - lead and ao[len(ao) - 1 - tail] == no[len(no) - 1 - tail]: tail += 1
    midn = range(lead, len(no) - tail); mido = range(lead, len(ao) - tail)
    def elem(idx):
        flat = ZERO
        for i in midn: flat = flat * no[i] + idx[i]
        out = []
        rem = flat; first = True
        for j in mido:
            r = ONE
            for k in mido:
                if k > j: r = r * ao[k]
            if ao[j] == ONE: out.append(ZERO)
            elif r == ONE: out.append(rem)
            else:
                out.append(mkapp('idiv', [rem, r], True)); rem = mkapp('mod', [rem, r], True)
        return sn(tuple(idx[:lead]) + tuple(out) + tuple(idx[len(no) - tail:]))
    return e.new(elem, shape, a.kind)
TAB['numpy.reshape'] = reshape
@reg('numpy.concatenate', 'numpy.hstack', 'numpy.vstack', 'numpy.append')
def _nope(e, *a, **k): raise Unsupported('concatenate')
@reg('numpy.concatenate')
def concatenate(e, seq, axis=0):
    arrs = [e.asarray(x) for x in seq]
    ax = norm_axis(e, axis, arrs[0].ndim)
    snaps = [a.snap() for a in arrs]
    offs = [ZERO]
    for a in arrs: offs.append(offs[-1] + a.shape[ax])
    shape = list(arrs[0].shape); shape[ax] = offs[-1]
    for a in arrs[1:]:
        for i in range(a.ndim):
            if i != ax and a.shape[i] != arrs[0].shape[i]:
                d = e.decide(Eq(a.shape[i], arrs[0].shape[i]))
                if d is False: raise PyRaise('ValueError', 'concatenate')
                if d is None: e.oblige('concatenate shapes', Eq(a.shape[i], arrs[0].shape[i]))
    def elem(idx):
        def at(j):
            f = list(idx); f[ax] = idx[ax] - offs[j]
            return snaps[j](tuple(f))
        r = at(len(arrs) - 1)
        for j in range(len(arrs) - 2, -1, -1): r = ite(Lt(idx[ax], offs[j + 1]), at(j), r)
        return r
    ks = [a.kind for a in arrs]
    return e.new(elem, shape, 'c' if 'c' in ks else ('f' if 'f' in ks else ks[0]))
@reg('numpy.append')
def append(e, a, b, axis=None):
    a, b = e.asarray(a), e.asarray(b)
    if axis is None:
        def flat(x):
            if x.ndim <= 1: return x
            ax = [j for j, n in enumerate(x.shape) if P(n) != ONE]
            if len(ax) > 1: raise Unsupported('append flatten')
            j = ax[0] if ax else 0; g = x.snap()
            return e.new(lambda ix: g(tuple(ix[0] if q == j else ZERO for q in range(x.ndim))), (x.shape[j],), x.kind)
        a, b = flat(a), flat(b)
        if b.ndim == 0: b = reshape(e, b, (1,))
        if a.ndim == 0: a = reshape(e, a, (1,))
        axis = 0
    return concatenate(e, [a, b], axis)
@reg('numpy.vstack')
def vstack(e, seq):
    arrs = [e.asarray(x) for x in seq]
    arrs = [reshape(e, a, (1, a.shape[0])) if a.ndim == 1 else a for a in arrs]
    return concatenate(e, arrs, 0)
@reg('numpy.hstack')
def hstack(e, seq):
    arrs = [e.asarray(x) for x in seq]
    return concatenate(e, arrs, 0 if arrs[0].ndim == 1 else 1)
@reg('numpy.stack')
def stack(e, seq, axis=0):
    if conc(axis) == 0: return e.asarray(list(seq))
    arrs = [e.asarray(x) for x in seq]
    if conc(axis) in (-1, arrs[0].ndim):
        return concatenate(e, [e.index(a, (Ellipsis, None)) for a in arrs], arrs[0].ndim)
    raise Unsupported('stack')
@reg('numpy.tile')
def tile(e, a, reps):
    a = e.asarray(a); s = a.snap()
    if not isinstance(reps, (tuple, list, NDArr)) and a.ndim == 1:
        n = a.shape[0]
        return e.new(lambda idx: s((mkapp('mod', [idx[0], n], True),)), (n * num(reps),), a.kind)
    if isinstance(reps, (tuple, list)) and len(reps) == 2 and a.ndim == 1 and conc(reps[1]) == 1:
        return e.new(lambda idx: s((idx[1],)), (P(num(reps[0])), a.shape[0]), a.kind)
    if isinstance(reps, (tuple, list)) and len(reps) == 2 and a.ndim == 2 and conc(reps[0]) == 1 and a.shape[1] == ONE:
        return e.new(lambda idx: s((idx[0], ZERO)), (a.shape[0], P(num(reps[1]))), a.kind)
    raise Unsupported('tile')
@reg('numpy.repeat')
def repeat(e, a, n, axis=None):
    a = e.asarray(a); s = a.snap()
    if axis is not None or a.ndim != 1 or isinstance(n, (NDArr, list, tuple)): raise Unsupported('repeat')
    n = num(n); e.oblige('repeat count', Le(ONE, n))
    return e.new(lambda idx: s((mkapp('idiv', [idx[0], n], True),)), (a.shape[0] * n,), a.kind)
@reg('numpy.random.RandomState')
def random_state(e, seed=None):
    """a generator of pseudo-random numbers: draw number k of length n is a function of the seed, the draws before it and k"""
    seed = num(seed); hist = []
    e.assume('numpy RandomState: every draw is a function of the seed and the lengths of the draws so far (uninterpreted)')
    def draw(en, n=None):
        if n is None or isinstance(n, (tuple, list)): raise Unsupported('shape of a random draw')
        if en.loopdepth: raise Unsupported('random draw in a symbolic loop')
        hist.append(num(n)); k = [seed] + list(hist)
        f = f'fn:randn{len(hist)}'; pl.OPAQUE[f] = len(k)
        return en.new(lambda ix: UF(f, k + [ix[0]]), (num(n),), 'f')
    return SymObj(None, dict(standard_normal=PyFn(draw)), 'rng')
def randn(e, seed, lens, i):
    f = f'fn:randn{len(lens)}'; k = [P(seed)] + [P(x) for x in lens]; pl.OPAQUE[f] = len(k)
    return UF(f, k + [P(i)])
@reg('scipy.signal.tf2sos')
def tf2sos(e, b_, a, pairing=None, analog=False):
    b_, a = e.asarray(b_), e.asarray(a)
    n = UF('tf2sos.n', akey(b_.shape[0], a.shape[0]), True)
    return opaque(e, 'tf2sos', [b_, a], (n, P(6)))
@reg('scipy.signal.resample')
def resample(e, x, n, t=None, axis=0, window=None, domain='time'):
    x = e.asarray(x)
    if x.ndim != 1 or t is not None or window is not None: raise Unsupported('resample')
    return opaque(e, 'resample', [x, num(n)], (num(n),))
@reg('numpy.size')
def npsize(e, a, axis=None):
    a = e.asarray(a)
    if axis is not None: return a.shape[norm_axis(e, axis, a.ndim)]
    r = ONE
    for x in a.shape: r = r * x
    return r
@reg('numpy.array_equal')
def array_equal(e, a, b): raise Unsupported('array_equal')
@reg('numpy.max', 'numpy.amax', 'numpy.min', 'numpy.nonzero', 'numpy.flatnonzero', 'numpy.argsort', 'numpy.delete', 'numpy.split', 'numpy.interp')
def _uns(e, *a, **k): raise Unsupported('numpy order/selection primitive')
@reg('numpy.sort')
def np_sort(e, a, axis=-1):
    """of numbers that are known"""
    a = e.asarray(a); n = conc(a.shape[0]) if a.ndim == 1 else None
    if n is None or n > 64: raise Unsupported('numpy order/selection primitive')
    v = [num(a.get((P(j),))) for j in range(n)]
    if not all(isinstance(x, Poly) and x.is_const() for x in v): raise Unsupported('numpy order/selection primitive')
    return e.asarray([P(x) for x in sorted(x.const() for x in v)])
# ------------------------------------------------------------------ order / selection
def _noloop(e, what):
    if e.loopdepth: raise Unsupported(what + ' in a symbolic loop')
def _elems(a):
    s = a.snap()
    return s
def npany(e, a, axis=None, **k):
    a = e.asarray(a)
    if a.ndim == 0: return e.truth(a.get(()))
    n = conc(a.shape[0])
    if axis is not None: raise Unsupported('any axis')
    ns = [conc(x) for x in a.shape]
    if all(x is not None for x in ns) and math.prod(ns) <= 16:
        import itertools
        return Or(*[e.truth(a.get(tuple(P(i) for i in ix))) for ix in itertools.product(*[range(x) for x in ns])])
    _noloop(e, 'any')
    s = a.snap()
    if e.fork(BV(fresh_name('any'))):
        w = tuple(IV(fresh_name('w')) for _ in a.shape)
        for i, n in zip(w, a.shape): e.hyps += [Le(ZERO, i), Lt(i, n)]
        e.hyps.append(e.truth(s(w))); e.witnesses.append(w)
        return TRUE
    e.foralls.append((tuple(a.shape), lambda idx: Not(e.truth(s(idx)))))
    return FALSE
TAB['numpy.any'] = npany
def npall(e, a, axis=None, **k):
    a = e.asarray(a)
    r = npany(e, e.elementwise(lambda v: Not(e.truth(v)), a, kind='b'), axis)
    return Not(e.truth(r))
TAB['numpy.all'] = npall
def _argext(sign):
    def f(e, a, axis=None, **k):
        a = e.asarray(a)
        if axis is not None or a.ndim != 1: raise Unsupported('argmin axis')
        _noloop(e, 'argmin')
        s = a.snap(); m = IV(fresh_name('am'))
        e.oblige('argmin/argmax of a non-empty array', Lt(ZERO, a.shape[0]))
        e.hyps += [Le(ZERO, m), Lt(m, a.shape[0])]
        def fact(idx):
            x, y = num(s((m,))), num(s(idx))
            if isinstance(x, Cx): raise Unsupported('argmin of complex')
            return Le(x, y) if sign > 0 else Le(y, x)
        e.foralls.append((tuple(a.shape), fact)); e.witnesses.append((m,))
        return m
    return f
TAB['numpy.argmin'] = _argext(1); TAB['numpy.argmax'] = _argext(-1)
def _ext(name, sign):
    def f(e, a, axis=None, **k):
        a = e.asarray(a)
        if axis is not None or k: raise Unsupported(name + ' along an axis')
        k = akey(a); pl.OPAQUE['fn:' + name] = len(k); v = UF('fn:' + name, k, False)
        s = a.snap()
        if not e.loopdepth: e.foralls.append((tuple(a.shape), lambda idx: Le(v, num(s(idx))) if sign > 0 else Le(num(s(idx)), v)))
        return v
    return f
npmin = TAB['numpy.min'] = TAB['numpy.amin'] = _ext('min', 1); npmax = TAB['numpy.max'] = TAB['numpy.amax'] = _ext('max', -1)
_ss = {}
@reg('numpy.searchsorted')
def searchsorted(e, a, v, side='left', sorter=None):
    """position in a sorted array: everything before is smaller, everything from it on is not"""
    a = e.asarray(a)
    if a.ndim != 1 or sorter is not None or side not in ('left', 'right'): raise Unsupported('searchsorted')
    k = tuple(x.skey for x in akey(a)) + (side,)
    if k not in _ss: _ss[k] = fresh_name('ss')
    nm = 'ss:' + _ss[k]
    s = a.snap(); n = a.shape[0]
    below = (lambda x, y: Lt(x, y)) if side == 'left' else (lambda x, y: Le(x, y))
    def one(x):
        x = num(x)
        r = UF(nm, [x], True)
        pv.FACTS[nm] = lambda A: [Le(ZERO, UF(nm, A, True)), Le(UF(nm, A, True), n),
                                  Or(Le(UF(nm, A, True), ZERO), below(num(s((UF(nm, A, True) - 1,))), A[0])), Or(Le(n, UF(nm, A, True)), Not(below(num(s((UF(nm, A, True),))), A[0])))]
        e.assume('numpy.searchsorted: the array searched is sorted')
        if not e.loopdepth: e.foralls.append(((n,), lambda idx: Or(And(Lt(idx[0], r), below(num(s(idx)), x)), And(Le(r, idx[0]), Not(below(num(s(idx)), x))))))
        return r
    if isinstance(v, (NDArr, list, tuple)): return e.elementwise(one, e.asarray(v), kind='i')
    return one(v)
@reg('numpy.unique')
def unique(e, a, return_index=False, return_inverse=False, return_counts=False, axis=None):
    a = e.asarray(a)
    if a.ndim != 1 or return_index or return_counts or axis is not None or a.kind != 'i': raise Unsupported('unique')
    _noloop(e, 'unique')
    nm = fresh_name('unq'); n = a.shape[0]; s = a.snap(); c = IV('flt:' + nm + ':n')
    e.hyps += [Le(ZERO, c), Le(c, n), Or(Lt(ZERO, c), Le(n, ZERO))]
    sel = lambda j: UF('flt:' + nm + ':sel', [P(j)], True); inv = lambda j: UF('flt:' + nm + ':inv', [P(j)], True); first = lambda j: UF('flt:' + nm + ':first', [P(j)], True)
    pv.FACTS['flt:' + nm + ':inv'] = lambda A: [Or(Lt(A[0], ZERO), Le(n, A[0]), And(Le(ZERO, inv(A[0])), Lt(inv(A[0]), c), Eq(sel(inv(A[0])), num(s((A[0],))))))]
    pv.FACTS['flt:' + nm + ':sel'] = lambda A: [Or(Lt(A[0], ZERO), Le(c, A[0]), And(Le(ZERO, first(A[0])), Lt(first(A[0]), n), Eq(num(s((first(A[0]),))), sel(A[0]))))]
    u = e.new(lambda ix: sel(ix[0]), (c,), 'i')
    return (u, e.new(lambda ix: inv(ix[0]), (n,), 'i')) if return_inverse else u
@reg('numpy.cross')
def cross(e, a, b):
    a, b = e.asarray(a), e.asarray(b)
    if a.ndim != 1 or b.ndim != 1 or conc(a.shape[0]) != 3 or conc(b.shape[0]) != 3: raise Unsupported('cross')
    x = [num(a.get((P(i),))) for i in range(3)]; y = [num(b.get((P(i),))) for i in range(3)]
    return e.asarray([x[1] * y[2] - x[2] * y[1], x[2] * y[0] - x[0] * y[2], x[0] * y[1] - x[1] * y[0]])
def _grid(e, keys, sparse, single):
    axes = []
    for k in keys:
        if not isinstance(k, slice): raise Unsupported('mgrid key')
        a = ZERO if k.start is None else num(k.start); b = num(k.stop); st = 1 if k.step is None else k.step
        stn = num(st)
        if isinstance(stn, Cx):
            if stn.re != ZERO: raise Unsupported('mgrid step')
            n = stn.im            # |step| points, both ends included
            if not n.is_int: n = mkapp('trunc', [n])
            if e.decide(Le(ZERO, n)) is not True: n = ite(Lt(n, ZERO), -n, n)
            d = (b - a) * inverse(n - 1)
            axes.append((n, lambda i, a=a, d=d: a + d * i, 'f'))
        else:
            n = -mkapp('floor', [-(b - a) / stn])
            if e.decide(Le(ZERO, n)) is not True: n = ite(Lt(n, ZERO), ZERO, n)
            axes.append((n, lambda i, a=a, st=stn: a + st * i, 'i' if a.is_int and stn.is_int else 'f'))
    kind = 'f' if any(x[2] == 'f' for x in axes) else 'i'
    shape = tuple(x[0] for x in axes)
    if sparse:
        return [e.new(lambda idx, j=j, f=axes[j][1]: f(idx[j]), tuple(s if i == j else ONE for i, s in enumerate(shape)), kind) for j in range(len(axes))]
    if single: return e.new(lambda idx: axes[0][1](idx[0]), shape, kind)
    def elem(idx):
        c = conc(idx[0])
        if c is not None: return axes[c][1](idx[1 + c])
        r = axes[-1][1](idx[len(axes)])
        for j in range(len(axes) - 2, -1, -1): r = ite(Eq(idx[0], P(j)), axes[j][1](idx[1 + j]), r)
        return r
    return e.new(elem, (P(len(axes)),) + shape, kind)
CONSTS['numpy.mgrid'] = Obj('mgrid', getitem=lambda e, k: _grid(e, k if isinstance(k, tuple) else (k,), False, not isinstance(k, tuple)))
CONSTS['numpy.ogrid'] = Obj('mgrid', getitem=lambda e, k: _grid(e, k if isinstance(k, tuple) else (k,), True, False))
CONSTS['numpy.s_'] = Obj('s_', getitem=lambda e, k: k)
for _n in ('integer', 'floating', 'number', 'complexfloating'): CONSTS['numpy.' + _n] = Obj('npscalartype', name=_n)
CONSTS['numpy.r_'] = Obj('s_', getitem=lambda e, k: e.asarray([P(num(x)) for x in k]) if isinstance(k, tuple) and all(isinstance(x, (int, float, Fraction, Poly)) for x in k) else unsup('r_'))
CONSTS['numpy.index_exp'] = Obj('s_', getitem=lambda e, k: k if isinstance(k, tuple) else (k,))
def resize(e, a, *shape):
    if len(shape) == 1 and isinstance(shape[0], (tuple, list)): shape = tuple(shape[0])
    shape = tuple(P(num(x)) for x in shape)
    o = t = ONE
    for s in a.shape: o = o * s
    for s in shape: t = t * s
    if o != t and e.decide(Eq(o, t)) is not True: raise Unsupported('resize to another size')
    r = array(e, reshape(e, NDArr(a.st, a.shape, a.dims), *shape))
    a.st, a.shape, a.dims = r.st, r.shape, r.dims
    return None
@reg('numpy.linalg.norm', 'scipy.linalg.norm')
def norm(e, a, ord=None, axis=None):
    a = e.asarray(a)
    q = e.elementwise(lambda v: (v.abs2() if isinstance(v, Cx) else num(v) * num(v)), a, kind='f')
    return TAB['numpy.sqrt'](e, npsum(e, q, axis))
def akey(*arrs):
    """arguments of an opaque function: extents and the element at symbolic positions (equal terms -> equal arrays)"""
    out = []
    for a in arrs:
        if isinstance(a, NDArr):
            x = num(a.get(tuple(IV(f'%a{i}') for i in range(a.ndim))))
            out += list(a.shape) + ([x.re, x.im] if isinstance(x, Cx) else [x])
        elif isinstance(a, (tuple, list)): out += akey(*a)
        else:
            x = num(lift(a)); out += [x.re, x.im] if isinstance(x, Cx) else [x]
    return out
def opaque(e, name, args, shape, kind='f', axes=None):
    """library function about which only determinism is assumed: a function of its arguments"""
    e.assume(f'{name}: a deterministic function of its arguments (uninterpreted)')
    k = akey(*args)
    for sfx in ('', '.re', '.im'): pl.OPAQUE['fn:' + name + sfx] = len(k)
    if kind == 'c': f = lambda ix: Cx(UF('fn:' + name + '.re', k + list(ix)), UF('fn:' + name + '.im', k + list(ix)))
    else: f = lambda ix: UF('fn:' + name, k + list(ix))
    return e.new(f, shape, kind)
@reg('scipy.fft.fftfreq', 'numpy.fft.fftfreq')
def fftfreq(e, n, d=1.0):
    n = num(n); q = inverse(n * num(d))
    return e.new(lambda ix: ite(Lt(ix[0] * 2, n), ix[0], ix[0] - n) * q, (n,), 'f')
@reg('scipy.fft.rfftfreq', 'numpy.fft.rfftfreq')
def rfftfreq(e, n, d=1.0):
    n = num(n); q = inverse(n * num(d))
    return e.new(lambda ix: ix[0] * q, (half(e, n) + 1,), 'f')
def half(e, n):
    h = n.scale(Fraction(1, 2))
    return h if h.is_int else mkapp('floor', [h])
def rfft_column(e, name, col, i):
    """line i of the real transform of the 1-d array col: an uninterpreted function of the samples"""
    k = akey(col)
    for sfx in ('.re', '.im'): pl.OPAQUE['fn:' + name + sfx] = len(k)
    return Cx(UF('fn:' + name + '.re', k + [i]), UF('fn:' + name + '.im', k + [i]))
@reg('scipy.fft.rfft', 'numpy.fft.rfft')
def rfft(e, a, n=None, axis=-1, norm=None, overwrite_x=False, workers=None, plan=None):
    a = e.asarray(a); axis = conc(num(axis)) % a.ndim
    if norm is not None: raise Unsupported('rfft norm')
    if n is not None and num(n) != a.shape[axis] and e.decide(Eq(num(n), a.shape[axis])) is not True: raise Unsupported('rfft with padding')
    e.assume('rfft: the discrete Fourier transform of its input column (uninterpreted)')
    s = a.snap(); m = a.shape[axis]
    sh = list(a.shape); sh[axis] = half(e, m) + 1
    def f(ix):
        return rfft_column(e, 'rfft', e.new(lambda q: s(tuple(ix[:axis]) + (q[0],) + tuple(ix[axis + 1:])), (m,), 'f'), ix[axis])
    return e.new(f, tuple(sh), 'c')
@reg('scipy.fft.irfft', 'numpy.fft.irfft')
def irfft(e, a, n=None, axis=-1, norm=None, overwrite_x=False, workers=None, plan=None):
    a = e.asarray(a); axis = conc(num(axis)) % a.ndim
    if norm is not None: raise Unsupported('irfft norm')
    e.assume('irfft: the inverse real discrete Fourier transform of its input column (uninterpreted)')
    s = a.snap(); m = a.shape[axis]; n = (m - 1) * 2 if n is None else num(n)
    sh = list(a.shape); sh[axis] = n
    def f(ix):
        k = akey(e.new(lambda q: C(num(s(tuple(ix[:axis]) + (q[0],) + tuple(ix[axis + 1:])))), (m,), 'c'), n)
        pl.OPAQUE['fn:irfft'] = len(k)
        return UF('fn:irfft', k + [ix[axis]])
    return e.new(f, tuple(sh), 'f')
# recursive filters in second-order sections.  Assumed contract of scipy.signal.sosfilt: output row n of a column is a function
# of the coefficients and rows 0..n of that column alone (fn:sosfilt), and the state returned after n rows is the same state
# whether the rows came in one call or in several (sosst = state after n rows of the history H; zero before the first row)
HQ = Var('%a0', True)
def sos_history(n, H, B): return B if not P(n).t else ite(Lt(P(HQ), n), H, subst(B, {'%a0': P(HQ) - n}))
def sos_state(K, s, m, n, H): return mkapp('sosst', list(K) + [s, m, n, H])
def sos_z(K, Z):
    if not Z.t: return ZERO, ZERO
    if len(Z.t) == 1:
        (mm, c), = Z.t.items()
        if c == 1 and len(mm) == 1 and mm[0][1] == 1 and type(mm[0][0]) is App and mm[0][0].f == 'sosst':
            a = mm[0][0].args
            if list(a[:3]) == list(K) and a[3] == IV('%s') and a[4] == IV('%m'): return a[5], a[6]
    return None
def _sosst(a): return ZERO if not a[5].t else None
def _sosstep(a):
    K, (s, m, Z, r, B) = a[:3], a[3:]
    z = sos_z(K, Z)
    return None if z is None else sos_state(K, s, m, z[0] + r, sos_history(z[0], z[1], B))
def _sosout(a):
    K, (i, Z, B) = a[:3], a[3:]
    z = sos_z(K, Z)
    return None if z is None else UF('fn:sosfilt', list(K) + [sos_history(z[0], z[1], B), z[0] + i])
pl.REWRITE.update(sosst=_sosst, sosstep=_sosstep, sosout=_sosout)
pl.OPAQUE['fn:sosfilt'] = 4
def sos_key(e, sos): return tuple(akey(e.asarray(sos)))
def sos_row(K, H, i): return UF('fn:sosfilt', list(K) + [P(H), P(i)])
@reg('scipy.signal.sosfilt')
def sosfilt(e, sos, x, axis=-1, zi=None):
    sos = e.asarray(sos); x = e.asarray(x)
    if sos.ndim != 2 or x.kind == 'c': raise Unsupported('sosfilt')
    ax = conc(num(axis)) % x.ndim
    e.assume('scipy.signal.sosfilt: causal, its output row a function of the coefficients and the rows of the column so far; the state it returns continues the filter (uninterpreted)')
    K = sos_key(e, sos); xs = x.snap()
    col = lambda ix: num(xs(tuple(ix[:ax]) + (P(HQ),) + tuple(ix[ax + 1:])))
    if zi is None: return e.new(lambda ix: mkapp('sosout', list(K) + [ix[ax], ZERO, col(ix)]), x.shape, 'f')
    zi = e.asarray(zi); zs = zi.snap()
    want = [sos.shape[0]] + list(x.shape); want[ax + 1] = P(2)
    if zi.ndim != len(want): raise Unsupported('shape of the filter state')
    for a, b_ in zip(zi.shape, want):
        if P(a) != P(b_) and e.decide(Eq(a, b_)) is not True: raise Unsupported('shape of the filter state')
    zat = lambda ix, s, m: num(zs((s,) + tuple(ix[:ax]) + (m,) + tuple(ix[ax + 1:])))
    y = e.new(lambda ix: mkapp('sosout', list(K) + [ix[ax], zat(ix, IV('%s'), IV('%m')), col(ix)]), x.shape, 'f')
    zf = e.new(lambda ix: mkapp('sosstep', list(K) + [ix[0], ix[ax + 1], zat(ix[1:], IV('%s'), IV('%m')), x.shape[ax], col(ix[1:])]), tuple(zi.shape), 'f')
    return y, zf
@reg('scipy.signal.sosfiltfilt')
def sosfiltfilt(e, sos, x, axis=-1):
    sos = e.asarray(sos); x = e.asarray(x); ax = conc(num(axis)) % x.ndim
    if sos.ndim != 2 or x.kind == 'c': raise Unsupported('sosfiltfilt')
    e.assume('scipy.signal.sosfiltfilt: a deterministic function of the coefficients and the column (uninterpreted)')
    K = sos_key(e, sos); xs = x.snap(); n = x.shape[ax]
    return e.new(lambda ix: sosfiltfilt_row(K, n, num(xs(tuple(ix[:ax]) + (P(HQ),) + tuple(ix[ax + 1:]))), ix[ax]), x.shape, 'f')
def sosfiltfilt_row(K, n, H, i):
    pl.OPAQUE['fn:sosfiltfilt'] = len(K) + 2
    return UF('fn:sosfiltfilt', list(K) + [n, ite(And(Le(ZERO, P(HQ)), Lt(P(HQ), P(n))), H, ZERO), i])
@reg('scipy.linalg.eigh', 'numpy.linalg.eigh')
def eigh(e, a):
    a = e.asarray(a)
    if a.ndim != 2: raise Unsupported('eigh')
    k = akey(a); n = a.shape[0]
    for nm in ('fn:eigh.w', 'fn:eigh.v.re', 'fn:eigh.v.im'): pl.OPAQUE[nm] = len(k)
    e.assume('scipy.linalg.eigh: eigenvalues and eigenvectors of a Hermitian matrix (uninterpreted)')
    return e.new(lambda ix: UF('fn:eigh.w', k + [ix[0]]), (n,)), e.new(lambda ix: Cx(UF('fn:eigh.v.re', k + list(ix)), UF('fn:eigh.v.im', k + list(ix))), (n, n), 'c')
@reg('numpy.linalg.inv', 'scipy.linalg.inv')
def linv(e, a):
    a = e.asarray(a)
    if a.ndim != 2: raise Unsupported('inv')
    return opaque(e, 'inv', [a], a.shape, a.kind)
@reg('numpy.sum.reduce')
def _x(e, *a): raise Unsupported('reduce')

# ------------------------------------------------------------------ builtins
def b(name):
    def d(f): BUILTINS[name] = f; return f
    return d
@b('len')
def blen(e, a):
    if isinstance(a, NDArr): return a.shape[0]
    if isinstance(a, SymList): return a.arr.shape[0]
    if isinstance(a, (list, tuple, dict, str)): return len(a)
    if isinstance(a, Obj) and hasattr(a, 'length'): return a.length
    raise Unsupported('len')
@b('range')
def brange(e, *a):
    if len(a) == 1: return RangeVal(ZERO, num(a[0]))
    if len(a) == 2: return RangeVal(num(a[0]), num(a[1]))
    return RangeVal(num(a[0]), num(a[1]), num(a[2]))
@reg('numba.prange')
def prange(e, *a):
    r = brange(e, *a); r.par = True
    return r
@b('enumerate')
def benum(e, a, start=0):
    if isinstance(a, (list, tuple)): return [(i + conc(start), x) for i, x in enumerate(a)]
    if isinstance(a, StreamIter): a = a.symiter()
    if isinstance(a, SymIter):
        return SymIter(a.length, lambda en, k: (k + P(start), a.item(en, k)), a.facts, a.pre, a.done, a.split)
    if isinstance(a, NDArr):
        return SymIter(a.shape[0], lambda en, k: (k + P(start), en.index(a, k)))
    raise Unsupported('enumerate')
@b('zip')
def bzip(e, *a, strict=False):
    if all(isinstance(x, (list, tuple)) and not isinstance(x, SymList) for x in a): return list(zip(*a))
    ns = []; items = []
    for x in a:
        if isinstance(x, SymList): x = x.arr
        if isinstance(x, NDArr): ns.append(x.shape[0]); items.append(lambda en, k, x=x: en.index(x, k))
        elif isinstance(x, SymIter): ns.append(x.length); items.append(x.item)
        elif isinstance(x, RangeVal): ns.append(x.hi - x.lo); items.append(lambda en, k, x=x: x.lo + k)
        else: raise Unsupported('zip')
    for n in ns[1:]:
        if n != ns[0] and not e.decide(Eq(n, ns[0])): raise Unsupported('zip of different lengths')
    return SymIter(ns[0], lambda en, k: tuple(it(en, k) for it in items))
@b('isinstance')
def bisinstance(e, a, t):
    ts = t if isinstance(t, tuple) else (t,)
    for x in ts:
        if isinstance(x, Obj) and x.kind == 'ndarraytype' and isinstance(a, NDArr): return True
        if isinstance(x, Obj) and x.kind == 'tupletype' and isinstance(a, tuple): return True
        if isinstance(x, Obj) and x.kind == 'listtype' and isinstance(a, list): return True
        if isinstance(x, Builtin) and x.name in ('list', 'tuple', 'dict', 'str', 'set') and isinstance(a, {'list': list, 'tuple': tuple, 'dict': dict, 'str': str, 'set': (set, frozenset)}[x.name]): return True
        if isinstance(x, Obj) and x.kind == 'npscalartype':
            if isnum(a) or isinstance(a, Cond): raise Unsupported('isinstance of a numpy scalar type')
            continue
        if isinstance(x, Obj) and x.kind == 'strtype' and isinstance(a, str): return True
        if isinstance(x, Obj) and x.kind == 'dicttype' and isinstance(a, dict): return True
        if isinstance(x, DType) and isinstance(a, (int, float, Poly)) and not isinstance(a, bool):
            if x.kind == 'f' and e.kindof(a) == 'f': return True
            if x.kind in ('i', 'int') and e.kindof(a) == 'i': return True
        if isinstance(x, ClassVal) and isinstance(a, SymObj) and a.cls is not None and any(c.name == x.ci.name for c in src.mro(a.cls)): return True
        if isinstance(x, Obj) and x.kind == 'extern': raise Unsupported('isinstance ' + x.name)
    return False
@b('abs')
def babs(e, a): return TAB['numpy.abs'](e, a)
def _smaller(e, x, y):
    if not e.loopdepth:
        if e.decide(Le(x, y)): return x
        if e.decide(Le(y, x)): return y
    return ite(Lt(x, y), x, y)
def _larger(e, x, y):
    if not e.loopdepth:
        if e.decide(Le(y, x)): return x
        if e.decide(Le(x, y)): return y
    return ite(Lt(y, x), x, y)
@b('min')
def bmin(e, *a, **k):
    if len(a) == 1 and isinstance(a[0], (list, tuple)): a = a[0]
    if k or any(not isnum(x) for x in a): raise Unsupported('min')
    r = num(a[0])
    for x in a[1:]: r = _smaller(e, num(x), r)
    return r
@b('max')
def bmax(e, *a, **k):
    if len(a) == 1 and isinstance(a[0], (list, tuple)): a = a[0]
    if k or any(not isnum(x) for x in a): raise Unsupported('max')
    r = num(a[0])
    for x in a[1:]: r = _larger(e, num(x), r)
    return r
@b('sum')
def bsum(e, a, start=0):
    if isinstance(a, SymList): return npsum(e, a.arr)
    if isinstance(a, NDArr): return npsum(e, a, 0)
    r = start
    for x in a: r = e.binop('Add', r, x)
    return r
@b('reversed')
def brev(e, a):
    if isinstance(a, (list, tuple)): return list(a)[::-1]
    if isinstance(a, RangeVal): return SymIter(a.hi - a.lo, lambda en, k: a.hi - 1 - k)
    raise Unsupported('reversed')
@b('print')
def bprint(e, *a, **k): return None
@b('round')
def bround(e, a, nd=None):
    v = num(a)
    if nd is not None or not isinstance(v, Poly): raise Unsupported('round')
    if v.is_int: return v
    r = UF('rint', [v], True)
    if not e.loopdepth: e.hyps += [Le(r - HALF, v), Le(v, r + HALF)]      # a nearest integer
    return r
HALF = P(Fraction(1, 2))
@b('divmod')
def bdivmod(e, a, c): return (e.binop('FloorDiv', a, c), e.binop('Mod', a, c))
@b('slice')
def bslice(e, *a):
    return slice(*a)
@b('any')
def bany(e, a):
    return Or(*[e.truth(x) for x in a]) if isinstance(a, (list, tuple)) else (_ for _ in ()).throw(Unsupported('any'))
@b('all')
def ball(e, a):
    return And(*[e.truth(x) for x in a]) if isinstance(a, (list, tuple)) else (_ for _ in ()).throw(Unsupported('all'))
@b('pow')
def bpow(e, a, c): return e.binop('Pow', a, c)
@b('map')
def bmap(e, f, a):
    if isinstance(a, (list, tuple)): return [e.call(f, [x], {}) for x in a]
    raise Unsupported('map')
@b('getattr')
def bgetattr(e, o, n, *d): return e.getattr(o, n)
@b('hasattr')
def bhasattr(e, o, n):
    if isinstance(o, SymObj):
        if n in o.attrs: return True
        if o.cls is None: return False        # object described by the contract: exactly the attributes given
        if src.find_method(o.cls, n) or src.find_method(o.cls, '_get_' + n) or src.find_trait(o.cls, n): return True
        raise Unsupported('hasattr of an inherited attribute')
    raise Unsupported('hasattr')
@b('list')
def blist(e, *a):
    if not a: return []
    a = a[0]
    if isinstance(a, (list, tuple, dict)): return list(a)
    if isinstance(a, StreamIter):
        bl = BlockList(a.stream, a.pos, a.stream.K); a.setpos(a.stream.K); e.hyps += a.stream.facts(); return bl
    raise Unsupported('list')
@b('next')
def bnext(e, it):
    if isinstance(it, StreamIter): return it.next(e)
    raise Unsupported('next')
@reg('warnings.warn')
def warn(e, *a, **k): return None
BUILTINS['repr'] = lambda e, x: Obj('str')
BUILTINS['id'] = lambda e, x: (_ for _ in ()).throw(Unsupported('id'))
BUILTINS['type'] = lambda e, x: (ClassVal(x.cls) if x.cls is not None else Obj('othertype')) if isinstance(x, SymObj) else Obj('type', name=str(type(x).__name__))

# ------------------------------------------------------------------ attributes / methods
def astype(e, a, d):
    k = dtype_kind(d)
    s = a.snap()
    if k == 'i' and a.kind == 'f': return e.new(lambda idx: mkapp('trunc', [num(s(idx))]), a.shape, 'i')
    if k == 'c': return e.new(lambda idx: C(num(s(idx))), a.shape, 'c')
    if k == 'b': return e.elementwise(lambda v: e.truth(v), a, kind='b')
    if k in ('f', 'i') and a.kind == 'b': return e.new(lambda idx: ind(lift(s(idx))), a.shape, k)
    return e.new(s, a.shape, k)
def attribute(e, o, name):
    if isinstance(o, NDArr):
        if name == 'shape': return ShapeTuple(o.shape)
        if name == 'size':
            r = ONE
            for s in o.shape: r = r * s
            return r
        if name == 'ndim': return o.ndim
        if name == 'T': return transpose(e, o)
        if name == 'dtype': return Obj('dtype', type=DType(o.kind), kindchar=o.kind, name={'f': 'float64', 'c': 'complex128', 'i': 'int64', 'b': 'bool'}[o.kind])
        if name in ('real', 'imag'): return TAB['numpy.' + name](e, o)
        m = {'conj': TAB['numpy.conj'], 'conjugate': TAB['numpy.conj'], 'sum': npsum, 'mean': mean, 'dot': dot, 'cumsum': cumsum, 'swapaxes': swapaxes,
             'copy': lambda e, a, *x: array(e, a), 'astype': lambda e, a, d, copy=True, **k: astype(e, a, d), 'reshape': reshape,
             'flatten': lambda e, a: array(e, reshape(e, a, -1)), 'ravel': lambda e, a: reshape(e, a, -1), 'transpose': lambda e, a, *ax: transpose(e, a, ax[0] if len(ax) == 1 and isinstance(ax[0], tuple) else (ax or None)),
             'any': npany, 'all': npall, 'argmin': TAB['numpy.argmin'], '__getitem__': lambda e, a, k: e.index(a, k), '__setitem__': lambda e, a, k, v: e.write(a, k, v), 'min': npmin, 'max': npmax, 'argmax': TAB['numpy.argmax'], 'resize': resize,
             'fill': lambda e, a, v: e.write_view(a, v), 'trace': trace, 'diagonal': diag, 'clip': clip,
             'squeeze': lambda e, a: reshape(e, a, tuple(s for s in a.shape if s != ONE))}.get(name)
        if m: return Builtin('ndarray.' + name, lambda en, *a, **k: m(en, o, *a, **k))
        raise Unsupported('ndarray.' + name)
    if isinstance(o, (Poly, Cx, int, float, complex)) :
        if name == 'real': return o.re if isinstance(o, Cx) else (o.real if isinstance(o, (int, float, complex)) else o)
        if name == 'imag': return o.im if isinstance(o, Cx) else (o.imag if isinstance(o, (int, float, complex)) else ZERO)
        if name in ('conj', 'conjugate'): return Builtin('conj', lambda en: (num(o).conj() if isinstance(num(o), Cx) else num(o)))
        if name == 'dtype': return Obj('dtype', type=DType(e.kindof(o)), kindchar=e.kindof(o))
        if name == 'shape': return ()
        if name == 'ndim': return 0
        if name == 'size': return 1
        if name == 'sum': return Builtin('sum', lambda en: o)
    if isinstance(o, str):
        if name in ('lower', 'upper', 'strip', 'startswith', 'endswith', 'split', 'replace'):
            return Builtin('str.' + name, lambda en, *a: getattr(o, name)(*a))
    if isinstance(o, dict):
        if name == 'get': return Builtin('dict.get', lambda en, k, d=None: o.get(k, d))
        if name == 'items': return Builtin('dict.items', lambda en: [(k, v) for k, v in o.items()])
        if name == 'keys': return Builtin('dict.keys', lambda en: list(o))
        if name == 'values': return Builtin('dict.values', lambda en: list(o.values()))
    if isinstance(o, list) and not isinstance(o, SymList):
        if name == 'append':
            def ap(en, v):
                if en.loopdepth: raise Unsupported('list append in a symbolic loop')
                o.append(v)
            return Builtin('list.append', ap)
        if name == 'pop':
            def pp(en, *a):
                if en.loopdepth: raise Unsupported('list pop in a symbolic loop')
                return o.pop(*[conc(x) for x in a])
            return Builtin('list.pop', pp)
        if name == 'extend':
            def ex(en, v):
                if isinstance(v, StreamIter) and not o and not en.loopdepth: raise ListOfBlocks(v)
                if en.loopdepth or not isinstance(v, (list, tuple)): raise Unsupported('list extend')
                o.extend(v)
            return Builtin('list.extend', ex)
    if isinstance(o, BlockList):
        if name == 'pop':
            def bp(en, *a):
                if en.loopdepth or a or o.rev: raise Unsupported('pop from a block list')
                b = o.item(en, -1); o.hi = o.hi - 1; return b
            return Builtin('list.pop', bp)
    if isinstance(o, slice):
        if name in ('start', 'stop', 'step'): return getattr(o, name)
        if name == 'indices':
            def ind_(en, n):
                lo, ln, st = en.slice_bounds(o, P(n))
                if st != 1: raise Unsupported('slice.indices step')
                # start/stop as python computes them: stop may be < start
                def cl(v, d):
                    if v is None: return d
                    c = conc(v); p = P(v)
                    if c is not None and c < 0: p = P(n) + c
                    elif c is None: p = ite(Lt(p, ZERO), P(n) + p, p)
                    p = ite(Lt(p, ZERO), ZERO, p)
                    return ite(Lt(P(n), p), P(n), p)
                return (cl(o.start, ZERO), cl(o.stop, P(n)), 1)
            return Builtin('slice.indices', ind_)
    if isinstance(o, Obj) and o.kind == 'super':
        fr = o.frame
        selfv = fr.env.get('self')
        m = src.mro(selfv.cls)
        i = [c.name for c in m].index(fr.cls.name)
        for c in m[i + 1:]:
            if name in c.methods: return BoundMethod(selfv, c, c.methods[name])
        raise Unsupported('super().' + name)
    if isinstance(o, DType):
        if name == 'type': return o
    if isinstance(o, SymObj): return e.obj_getattr(o, name)
    if isinstance(o, Builtin) and o.name == 'numpy.sum' : raise Unsupported('ufunc attribute')
    raise Unsupported(f'attribute {name} of {o!r}')
from .interp import memo, BoundMethod, SymObj, ClassVal
from . import source as src
