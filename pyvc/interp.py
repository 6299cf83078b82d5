"""Verification-condition generator: symbolic execution of the real Python source (AST of /repo, parsed on
every run).  Arrays are total functions from indices to terms over a storage (views share storage, so
aliasing and in-place writes are tracked).  Loops with symbolic trip counts are handled by inductive
closed-form invariants: a candidate is inferred for every piece of loop state and then *checked*
(initiation and consecution are recorded as obligations like any other)."""
import re, ast, time
from fractions import Fraction
from . import poly as pl
from .poly import *
from .poly import P, C, Cx
from . import prove as pv
from . import source as src

class PyRaise(Exception):
    def __init__(self, etype, msg=''): self.etype = etype; self.msg = msg; super().__init__(etype)
class ReturnEx(Exception):
    def __init__(self, v): self.v = v
class BreakEx(Exception): pass
class ContinueEx(Exception): pass
class Infeasible(Exception): pass
class PoisonUse(Unsupported): pass
class ListOfBlocks(Exception):
    def __init__(self, it): self.it = it

class Obj:          # generic immutable marker value
    def __init__(self, kind, **kw): self.kind = kind; self.__dict__.update(kw)
    def __repr__(self): return f'<{self.kind}>'
class Poison:
    def __init__(self, why): self.why = why
class FuncVal:
    def __init__(self, mod, node, closure=None, cls=None):
        self.mod = mod; self.node = node; self.closure = closure; self.cls = cls
    def __repr__(self): return f'<function {getattr(self.node, "name", "lambda")}>'
class BoundMethod:
    def __init__(self, obj, cls, node): self.obj = obj; self.cls = cls; self.node = node
class Builtin:
    def __init__(self, name, fn): self.name = name; self.fn = fn
    def __repr__(self): return f'<builtin {self.name}>'
class ModVal:
    def __init__(self, name): self.name = name
class ClassVal:
    def __init__(self, ci): self.ci = ci
class DType:
    def __init__(self, kind): self.kind = kind
    def __repr__(self): return f'dtype({self.kind})'
    def __eq__(self, o): return isinstance(o, DType) and self.kind == o.kind
    def __hash__(self): return hash(self.kind)

class Storage:
    n = 0
    def __init__(self, eng, elem, shape, kind, owner='local'):
        Storage.n += 1
        self.id = Storage.n
        self.elem = memo(elem); self.shape = tuple(P(s) for s in shape); self.kind = kind; self.owner = owner
        self.writes = 0
        eng.live.append(self)
def memo(f):
    d = {}
    def g(idx):
        k = tuple(i.skey for i in idx)
        if k not in d: d[k] = f(idx)
        return d[k]
    return g

class NDArr:
    def __init__(self, st, shape=None, dims=None):
        self.st = st
        self.shape = tuple(P(s) for s in (st.shape if shape is None else shape))
        self.dims = dims if dims is not None else [('ax', i, ZERO, 1) for i in range(len(st.shape))]
    @property
    def kind(self): return self.st.kind
    @property
    def ndim(self): return len(self.shape)
    def sidx(self, idx):
        return tuple(d[1] if d[0] == 'fix' else d[2] + P(idx[d[1]]).scale(d[3]) for d in self.dims)
    def get(self, idx): return self.st.elem(self.sidx(tuple(P(i) for i in idx)))
    def snap(self):
        e = self.st.elem
        return lambda idx: e(self.sidx(tuple(P(i) for i in idx)))
    def inverse(self, sidx):
        conds = []
        own = [ZERO] * len(self.shape)
        for d, s in zip(self.dims, sidx):
            if d[0] == 'fix': conds.append(Eq(s, d[1]))
            else:
                o = (s - d[2])
                if d[3] == -1: o = -o
                elif d[3] != 1:
                    conds.append(Eq(mkapp('mod', [o, P(d[3])], True), ZERO)); o = mkapp('idiv', [o, P(d[3])], True)
                full = self.st.shape[self.dims.index(d)] == self.shape[d[1]] and d[2] == ZERO
                if not full:
                    conds.append(Le(ZERO, o)); conds.append(Lt(o, self.shape[d[1]]))
                own[d[1]] = o
        return And(*conds), tuple(own)
    def __repr__(self): return f'<NDArr {self.kind} {[s.skey for s in self.shape]}>'

class SymObj:
    def __init__(self, cls, attrs, name='self', frozen=True):
        self.cls = cls; self.attrs = dict(attrs); self.name = name; self.written = {}
    def __repr__(self): return f'<SymObj {self.name}:{self.cls.name if self.cls else "?"}>'

class Stream:
    """contract of a block source (the guarantee every generator under contract is proved to give, assumed of the
    one it reads from): blocks 0..K-1, block k holds rows k*num .. k*num+n_k of one fixed sample sequence of N rows;
    n_k = num except possibly for the last block, n_k >= 1, the blocks cover all N rows"""
    def __init__(self, eng, name, N, num, chans, elem, kind='f', owner='upstream'):
        self.name = name; self.N = P(N); self.num = P(num); self.ch = tuple(chans); self.elemf = elem; self.kind = kind
        self.owner = owner
        self.K = UF('blocks', [self.N, self.num], True) if self.num != ONE else self.N      # blocks of one row: as many as rows
    def facts(self):
        K, num, N = self.K, self.num, self.N
        return [Le(ONE, num), Le(ONE, N), Le(ONE, K), Lt((K - 1) * num, N), Le(N, K * num)]
    def rows(self, k): return ONE if self.num == ONE else UF('blockrows', [self.N, self.num, P(k)], True)
    def block(self, eng, k):
        k = P(k)
        n = self.rows(k)
        full = eng.decide(Lt(k, self.K - 1))
        if full is None and not eng.loopdepth: full = eng.fork(Lt(k, self.K - 1))
        if full: n = self.num
        elif full is False and eng.decide(Le(k, self.K - 1)): n = self.N - (self.K - 1) * self.num if self.num != ONE else ONE; k = self.K - 1
        for h in self.block_facts(k):
            if h not in eng.hyps: eng.hyps.append(h)
        f = self.elemf
        num = self.num
        shape = (n,) + self.ch
        st = Storage(eng, lambda idx: f((k * num + idx[0],) + tuple(idx[1:])), shape, self.kind, owner=self.owner)
        return NDArr(st)
    def block_facts(self, k):
        n = self.rows(k)
        return [Le(ONE, n), Le(n, self.num), Le(k * self.num + n, self.N),
                Or(Not(Lt(k, self.K - 1)), Eq(n, self.num)),
                Or(Not(Eq(k, self.K - 1)), Eq(k * self.num + n, self.N))]
class StreamIter:
    """the generator object returned by source.result(num): position = number of blocks taken"""
    def __init__(self, eng, stream):
        self.stream = stream
        self.posst = Storage(eng, lambda idx: ZERO, (), 'i', owner='iter')
    @property
    def pos(self): return num(self.posst.elem(()))
    def setpos(self, p):
        self.posst.elem = memo(lambda idx: P(p)); self.posst.writes += 1
    def symiter(self):
        """all remaining blocks"""
        p = self.pos
        return SymIter(self.stream.K - p, lambda en, k: self.stream.block(en, p + P(k)), self.stream.facts(), done=lambda: self.setpos(self.stream.K), split=True)
    def next(self, e):
        p = self.pos; K = self.stream.K
        d = e.decide(Lt(p, K))
        if d is None and not e.loopdepth: d = e.fork(Lt(p, K))
        if d is False: raise PyRaise('StopIteration')
        if d is None and e.loopdepth and e.nobreak is not None and e.stopbreak:
            e.hyps.append(Lt(p, K)); d = True
            if not e.guards: e.nobreak.append(Lt(p, K))
        if d is None and not e.quiet: raise Unsupported('cannot decide whether the iterator is exhausted')
        blk = self.stream.block(e, p)
        self.setpos(p + 1)
        return blk

class BlockList:
    """list of all blocks of a stream: blocks lo..hi-1"""
    def __init__(self, stream, lo, hi): self.stream = stream; self.lo = P(lo); self.hi = P(hi); self.rev = False
    def item(self, e, i):
        c = conc(i)
        if c is not None and c < 0: i = self.hi - self.lo + c
        return self.stream.block(e, self.lo + P(i) if not self.rev else self.hi - 1 - P(i))
    def symiter(self): return SymIter(self.hi - self.lo, lambda en, k: self.item(en, k), self.stream.facts())
    def reversed(self):
        r = BlockList(self.stream, self.lo, self.hi); r.rev = not self.rev; return r

class Event:
    def __init__(self, value, hyps, loops, guards=()): self.value = value; self.hyps = hyps; self.loops = loops; self.guards = list(guards)
class Oblig:
    def __init__(self, name, hyps, goal, kind='cond'): self.name = name; self.hyps = list(hyps); self.goal = goal; self.kind = kind

def lift(v):
    if isinstance(v, bool): return TRUE if v else FALSE
    if isinstance(v, (int, float, Fraction)): return P(v)
    if isinstance(v, complex): return C(v)
    return v
def isnum(v): return isinstance(v, (int, float, complex, Fraction, Poly, Cx)) and not isinstance(v, bool) or isinstance(v, bool)
def num(v):
    """to Poly/Cx (booleans become 0/1)"""
    if isinstance(v, Cond): return ind(v)
    if isinstance(v, (Poly, Cx)): return v
    if isinstance(v, complex): return C(v)
    if isinstance(v, (bool, int, float, Fraction)): return P(v)
    raise Unsupported(f'not a number: {v!r}')
def conc(v):
    """concrete python int if known"""
    if isinstance(v, bool): return int(v)
    if isinstance(v, int): return v
    if isinstance(v, Poly) and v.is_const() and v.const().denominator == 1: return int(v.const())
    return None

class Engine:
    MAXSTEPS = 400000
    def __init__(self, hyps=(), contracts=None, decisions=(), deadline=None):
        self.hyps = list(hyps)
        self.base = len(self.hyps)
        self.obls = []
        self.events = []
        self.live = []
        self.decisions = list(decisions); self.dpos = 0; self.pending = []
        self.loopdepth = 0
        self.loops = []
        self.quiet = 0           # >0 : inference pass, obligations and events are dropped
        self.inlined = {}
        self.contracts = contracts or {}
        self.steps = 0
        self.deadline = deadline
        self.raises = []
        self.calldepth = 0
        self.havoc_nonneg = []
        self.curyield = [self.events]
        self.frame_writes = []
        self.overrides = {}; self.hints = []; self.unroll = False; self.chunk = None; self.guards = []; self.delegate = None; self.nobreak = None; self.stopbreak = False
        self.filters = {}; self.foralls = []; self.witnesses = []     # facts forall idx in range: fn(idx), introduced by any / argmin / argmax
        self.loop_steps = []; self.hvnames = set(); self.assumed = set(); self.volatile = set()
    # ---------------------------------------------------------------- helpers
    def new(self, elem, shape, kind='f', owner='local'):
        return NDArr(Storage(self, elem, shape, kind, owner))
    def oblige(self, name, goal, hyps=None):
        if self.quiet: return
        if isinstance(goal, Cond) and goal.op == 'true': return
        self.obls.append(Oblig(name, self.hyps if hyps is None else hyps, goal, 'cond' if isinstance(goal, Cond) else 'zero'))
    def decide(self, c):
        if c.op == 'true': return True
        if c.op == 'false': return False
        if pv.entails(self.hyps, c): return True
        if pv.entails(self.hyps, Not(c)): return False
        return None
    def fork(self, c):
        d = self.decide(c)
        if d is not None: return d
        if self.loopdepth: raise Unsupported('undecided condition inside a symbolic loop: ' + c.skey[:200])
        if self.dpos < len(self.decisions):
            r = self.decisions[self.dpos]
        else:
            r = True
            self.decisions.append(True)
            self.pending.append(self.decisions[:self.dpos] + [False])
        self.dpos += 1
        self.hyps.append(c if r else Not(c))
        return r
    def truth(self, v):
        if isinstance(v, Cond): return v
        if isinstance(v, bool): return TRUE if v else FALSE
        if v is None: return FALSE
        if isinstance(v, (int, float, complex)): return TRUE if v else FALSE
        if isinstance(v, Poly): return Not(Eq(v, 0))
        if isinstance(v, (str, tuple, list, dict, set)): return TRUE if v else FALSE
        if isinstance(v, NDArr):
            if v.ndim == 0: return self.truth(v.get(()))
            if v.st.owner == 'file': return TRUE         # ghost of an open dataset
            raise Unsupported('truth of array')
        if isinstance(v, Obj) and hasattr(v, 'length'): return Not(Eq(v.length, 0))
        if isinstance(v, (SymObj, FuncVal, Builtin, BoundMethod, Obj, ClassVal, ModVal, DType)): return TRUE
        raise Unsupported(f'truth of {v!r}')
    # ---------------------------------------------------------------- arithmetic
    def binop(self, op, a, b):
        if isinstance(a, SymObj) or isinstance(b, SymObj): raise Unsupported('operator on object')
        if isinstance(a, NDArr) or isinstance(b, NDArr):
            if op == 'MatMult': return self.np('dot')(a, b)
            if op in ('Mult', 'Add', 'BitAnd', 'BitOr', 'BitXor') and self.kindof(a) == 'b' and self.kindof(b) == 'b':      # numpy booleans: * and & are and, + and | are or
                fb = {'Mult': And, 'BitAnd': And, 'Add': Or, 'BitOr': Or, 'BitXor': lambda x, y: Or(And(x, Not(y)), And(Not(x), y))}[op]
                return self.elementwise(lambda x, y: fb(self.truth(x), self.truth(y)), a, b, kind='b')
            return self.elementwise(lambda x, y: self.binop(op, x, y), a, b, kind=self.reskind(op, a, b))
        if isinstance(a, (list, tuple)) and op in ('Add', 'Mult') or isinstance(b, (list, tuple)) and op == 'Mult':
            if op == 'Add' and isinstance(b, type(a)): return a + b
            if op == 'Mult':
                k = conc(b) if isinstance(a, (list, tuple)) else conc(a)
                if k is not None: return (a if isinstance(a, (list, tuple)) else b) * k
            raise Unsupported('sequence arithmetic')
        if isinstance(a, str) or isinstance(b, str):
            if op == 'Add' and isinstance(a, str) and isinstance(b, str): return a + b
            return Obj('str')
        if isinstance(a, Cond) and isinstance(b, (Cond, bool)) or isinstance(b, Cond) and isinstance(a, bool):
            if op == 'BitAnd': return And(lift(a), lift(b))
            if op == 'BitOr': return Or(lift(a), lift(b))
        if isinstance(a, (int, bool)) and isinstance(b, (int, bool)) and op in ('FloorDiv', 'Mod', 'Add', 'Sub', 'Mult', 'BitAnd', 'BitOr', 'LShift', 'RShift'):
            if op in ('FloorDiv', 'Mod') and b == 0: raise PyRaise('ZeroDivisionError')
            return {'FloorDiv': lambda: a // b, 'Mod': lambda: a % b, 'Add': lambda: a + b, 'Sub': lambda: a - b, 'Mult': lambda: a * b,
                    'BitAnd': lambda: a & b, 'BitOr': lambda: a | b, 'LShift': lambda: a << b, 'RShift': lambda: a >> b}[op]()
        if not (isnum(a) or isinstance(a, Cond)) or not (isnum(b) or isinstance(b, Cond)): raise Unsupported(f'{op} on {a!r}, {b!r}')
        x, y = num(a), num(b)
        if op == 'Add': return x + y
        if op == 'Sub': return x - y
        if op == 'Mult': return x * y
        if op == 'Div':
            if isinstance(x, Cx) or isinstance(y, Cx): return C(x) / y
            return x * inverse(y)
        if op == 'FloorDiv':
            if x.is_int and y.is_int: return mkapp('idiv', [x, y], True)
            return mkapp('floor', [x / y])
        if op == 'Mod':
            if x.is_int and y.is_int:
                r = mkapp('mod', [x, y], True)
                at = list(r.t.items())
                if (self.loopdepth or self.chunk is not None) and len(at) == 1 and at[0][1] == 1 and len(at[0][0]) == 1 and type(at[0][0][0][0]) is App and at[0][0][0][0].f == 'mod':
                    z = at[0][0][0][0].args[0]
                    if self.decide(Le(ZERO, z)) is True and self.decide(Lt(z, y)) is True: return z
                return r
            return x - y * mkapp('floor', [x / y])
        if op == 'Pow':
            k = conc(y) if not isinstance(y, Cx) else None
            if k is not None:
                if isinstance(x, Cx):
                    if k < 0: raise Unsupported('complex power')
                    r = C(1)
                    for _ in range(k): r = r * x
                    return r
                return x.pow(k)
            if isinstance(y, Poly) and y.is_const() and isinstance(x, Poly):
                c = y.const()
                if c.denominator == 2:
                    s = sqrt(x)
                    return s.pow(int(c * 2))
            if isinstance(x, Cx) or isinstance(y, Cx): raise Unsupported('complex power')
            return mkapp('pow', [x, y])
        raise Unsupported('operator ' + op)
    def reskind(self, op, a, b):
        ks = [self.kindof(a), self.kindof(b)]
        if 'c' in ks: return 'c'
        if op in ('BitAnd', 'BitOr') and ks == ['b', 'b']: return 'b'
        if op in ('Div',): return 'f'
        if 'f' in ks: return 'f'
        return 'i'
    def kindof(self, v):
        if isinstance(v, NDArr): return v.kind
        if isinstance(v, (Cx, complex)): return 'c'
        if isinstance(v, (bool, Cond)): return 'b'
        if isinstance(v, int): return 'i'
        if isinstance(v, Poly): return 'i' if v.is_int else 'f'
        return 'f'
    def asarray(self, v):
        if isinstance(v, NDArr): return v
        if isinstance(v, (list, tuple)):
            items = [self.asarray(x) if isinstance(x, (list, tuple)) else x for x in v]
            if not items: return self.new(lambda idx: ZERO, (ZERO,), 'f')
            if isinstance(items[0], NDArr):
                sh = items[0].shape
                snaps = [x.snap() for x in items]
                ks = [x.kind for x in items]
                kind = 'c' if 'c' in ks else ('f' if 'f' in ks else ks[0])
                def elem(idx):
                    k = conc(idx[0])
                    if k is not None and 0 <= k < len(snaps): return snaps[k](idx[1:])
                    r = snaps[-1](idx[1:])
                    for j in range(len(snaps) - 2, -1, -1): r = ite(Eq(idx[0], j), snaps[j](idx[1:]), r)
                    return r
                return self.new(elem, (P(len(items)),) + sh, kind)
            vals = [lift(x) for x in items]
            ks = [self.kindof(x) for x in vals]
            kind = 'c' if 'c' in ks else ('f' if 'f' in ks else ks[0])
            def elem(idx):
                k = conc(idx[0])
                if k is not None and 0 <= k < len(vals): return vals[k]
                r = vals[-1]
                for j in range(len(vals) - 2, -1, -1): r = ite(Eq(idx[0], j), vals[j], r)
                return r
            return self.new(elem, (P(len(vals)),), kind)
        v = lift(v)
        if isinstance(v, (Poly, Cx, Cond)):
            return self.new(lambda idx: v, (), self.kindof(v))
        raise Unsupported(f'array from {v!r}')
    def broadcast(self, *arrs):
        nd = max(a.ndim for a in arrs)
        shape = []
        for ax in range(nd):
            cands = []
            for a in arrs:
                j = ax - (nd - a.ndim)
                if j >= 0: cands.append(a.shape[j])
            s = None
            for c in cands:
                if c == ONE: continue
                if s is None: s = c
                elif s != c:
                    d = self.decide(Eq(s, c))
                    if d is False:
                        if self.decide(Eq(s, ONE)): s = c; continue
                        if self.decide(Eq(c, ONE)): continue
                        raise PyRaise('ValueError', 'broadcast')
                    if d is None: self.oblige('shapes broadcast', Eq(s, c))
            shape.append(ONE if s is None else s)
        return tuple(shape)
    def bidx(self, a, idx, nd):
        off = nd - a.ndim
        return tuple(ZERO if a.shape[j] == ONE else idx[j + off] for j in range(a.ndim))
    def elementwise(self, fn, *args, kind='f'):
        arrs = [self.asarray(a) for a in args]
        shape = self.broadcast(*arrs)
        nd = len(shape)
        snaps = [a.snap() for a in arrs]
        return self.new(lambda idx: lift(fn(*[s(self.bidx(a, idx, nd)) for s, a in zip(snaps, arrs)])), shape, kind)
    def assume(self, what): self.assumed.add(what)
    def compare(self, op, a, b):
        if op in ('Is', 'IsNot'):
            r = a is b or (a is None and b is None)
            if isinstance(a, ClassVal) and isinstance(b, ClassVal): r = a.ci.name == b.ci.name and a.ci.mod.name == b.ci.mod.name
            elif any(isinstance(x, Obj) and x.kind == 'type' for x in (a, b)): raise Unsupported('identity of a type')
            if isinstance(a, bool) and isinstance(b, bool): r = a == b
            if isinstance(a, (Cond,)) or isinstance(b, (Cond,)):
                e = self.compare('Eq', a, b)
                return e if op == 'Is' else Not(e)
            return r if op == 'Is' else not r
        if op in ('In', 'NotIn'):
            if isinstance(b, (tuple, list, set, frozenset, dict)):
                conds = [lift(self.compare('Eq', a, x)) for x in b]
                c = Or(*conds)
                c = Not(c) if op == 'NotIn' else c
                return True if c.op == 'true' else (False if c.op == 'false' else c)
            if isinstance(b, str) and isinstance(a, str): return (a in b) == (op == 'In')
            if isinstance(b, Obj) and hasattr(b, 'contains'):
                c = b.contains(self, a)
                return c if op == 'In' else Not(c)
            raise Unsupported('in')
        if isinstance(a, NDArr) or isinstance(b, NDArr):
            return self.elementwise(lambda x, y: lift(self.compare(op, x, y)), a, b, kind='b')
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
            if op not in ('Eq', 'NotEq'): raise Unsupported('sequence order')
            if len(a) != len(b): c = FALSE
            else: c = And(*[lift(self.compare('Eq', x, y)) for x, y in zip(a, b)])
            c = c if op == 'Eq' else Not(c)
            return True if c.op == 'true' else (False if c.op == 'false' else c)
        if isinstance(a, Obj) and a.kind == 'inf' or isinstance(b, Obj) and b.kind == 'inf':
            raise Unsupported('inf')
        if (isnum(a) or isinstance(a, Cond)) and (isnum(b) or isinstance(b, Cond)):
            if isinstance(a, Cond) and isinstance(b, (Cond, bool)) or isinstance(b, Cond) and isinstance(a, bool):
                x, y = lift(a), lift(b)
                e = Or(And(x, y), And(Not(x), Not(y)))
                return e if op == 'Eq' else Not(e)
            x, y = num(a), num(b)
            if isinstance(x, Cx) or isinstance(y, Cx):
                x, y = C(x), C(y)
                e = And(Eq(x.re, y.re), Eq(x.im, y.im))
                c = e if op == 'Eq' else Not(e)
            else:
                c = {'Eq': Eq, 'Lt': Lt, 'LtE': Le, 'Gt': Gt, 'GtE': Ge, 'NotEq': lambda p, q: Not(Eq(p, q))}[op](x, y)
            return True if c.op == 'true' else (False if c.op == 'false' else c)
        if op in ('Eq', 'NotEq'):
            try: r = bool(a == b)
            except Exception: raise Unsupported('comparison')
            return r if op == 'Eq' else not r
        raise Unsupported(f'compare {op} {a!r} {b!r}')
    # ---------------------------------------------------------------- indexing
    def norm_index(self, k, n):
        """python index -> non-negative index (negative constants wrap)"""
        c = conc(k)
        if c is not None and c < 0: return n + c
        return P(k)
    def slice_bounds(self, s, n):
        """(lo, length, step) of a slice on an axis of length n"""
        step = s.step
        st = 1 if step is None else conc(step)
        if st is None: raise Unsupported('symbolic step')
        def clamp(v):
            """clamp to [0,n]"""
            c = conc(v)
            v = P(v)
            if c is not None and c < 0:
                v = n + c
            elif c is None:
                if not self.decide(Le(ZERO, v)):
                    if self.decide(Lt(v, ZERO)): v = n + v
                    else: v = ite(Lt(v, ZERO), n + v, v)
            if not self.decide(Le(ZERO, v)): v = ite(Lt(v, ZERO), ZERO, v)
            if self.decide(Le(v, n)): return v
            if self.decide(Lt(n, v)): return n
            return ite(Lt(n, v), n, v)
        if st > 0:
            lo = ZERO if s.start is None else clamp(s.start)
            hi = n if s.stop is None else clamp(s.stop)
            ln = hi - lo
            if not (ln.is_const() and ln.const() >= 0) and not self.decide(Le(ZERO, ln)):
                ln = ite(Lt(ln, ZERO), ZERO, ln)
            if st != 1: ln = mkapp('idiv', [ln + st - 1, P(st)], True)
            return lo, ln, st
        if st == -1:
            if s.start is None: lo = n - 1
            else:
                lo = P(s.start)
                c = conc(s.start)
                if c is not None and c < 0: lo = n + c
                elif not self.decide(Le(ZERO, lo)): lo = ite(Lt(lo, ZERO), n + lo, lo)
                if not self.decide(Lt(lo, n)): lo = ite(Lt(lo, n), lo, n - 1)
            if s.stop is None: stop = P(-1)
            else:
                stop = P(s.stop)
                c = conc(s.stop)
                if c is not None and c < 0: stop = n + c
                elif not self.decide(Le(ZERO, stop)):
                    stop = ite(Lt(stop, ZERO), n + stop, stop)
            ln = lo - stop
            if not self.decide(Le(ZERO, ln)): ln = ite(Lt(ln, ZERO), ZERO, ln)
            return lo, ln, -1
        raise Unsupported('slice step')
    def index(self, a, key):
        """numpy indexing: returns scalar or NDArr (view for basic indexing)"""
        if isinstance(key, WhereTuple): return self.mask_select(a, key.mask)
        keys = key if isinstance(key, tuple) else (key,)
        if any(k is Ellipsis for k in keys):
            i = [j for j, k in enumerate(keys) if k is Ellipsis][0]
            nreal = sum(1 for k in keys if k is not None and k is not Ellipsis)
            keys = keys[:i] + (slice(None),) * (a.ndim - nreal) + keys[i + 1:]
        if any(isinstance(k, (NDArr, list)) for k in keys):
            return self.fancy(a, keys)
        newshape = []; axmap = {}; fixes = {}
        ax = 0
        for k in keys:
            if k is None: newshape.append(ONE); continue
            if ax >= a.ndim: raise PyRaise('IndexError')
            n = a.shape[ax]
            if isinstance(k, slice):
                lo, ln, st = self.slice_bounds(k, n)
                axmap[ax] = (len(newshape), lo, st); newshape.append(ln)
            elif isinstance(k, (int, Poly)) and not isinstance(k, bool):
                i = self.norm_index(k, n)
                c = conc(i)
                ok = And(Le(ZERO, i), Lt(i, n))
                # bounds: a[i] with 0<=i<n (negative symbolic indices are outside the contracts)
                if ok.op != 'true':
                    if not self.quiet: self.oblige('index in bounds', ok)
                fixes[ax] = i
            else: raise Unsupported(f'index {k!r}')
            ax += 1
        for j in range(ax, a.ndim):
            axmap[j] = (len(newshape), ZERO, 1); newshape.append(a.shape[j])
        dims = []
        for d in a.dims:
            if d[0] == 'fix': dims.append(d); continue
            _, axis, start, step = d
            if axis in fixes: dims.append(('fix', start + fixes[axis].scale(step)))
            else:
                na, lo, st = axmap[axis]
                dims.append(('ax', na, start + lo.scale(step), step * st))
        v = NDArr(a.st, newshape, dims)
        if not newshape: return a.st.elem(v.sidx(()))
        return v
    def filtered(self, lo, hi, cond):
        """the integers lo <= i < hi that satisfy cond, in order: idx(k) is the k-th one, rank(i) its position"""
        e = self; lo, hi = P(lo), P(hi)
        x = cond(IV('%fi'))
        key = (lo.skey, hi.skey, x.skey)
        if key not in e.filters:
            nm = fresh_name('flt'); cnt = IV('flt:' + nm + ':n')
            idx = lambda k: UF('flt:' + nm + ':idx', [P(k)], True)
            rank = lambda i: UF('flt:' + nm + ':rank', [P(i)], True)
            e.hyps += [Le(ZERO, cnt), Or(Le(cnt, hi - lo), Lt(hi, lo))]
            def f_idx(a):
                k = a[0]; i = idx(k)
                return [Or(Lt(k, ZERO), Le(cnt, k), And(Le(lo, i), Lt(i, hi), cond(i), Eq(rank(i), k)))]
            def f_rank(a):
                i = a[0]; k = rank(i)
                return [Or(Lt(i, lo), Le(hi, i), Not(cond(i)), And(Le(ZERO, k), Lt(k, cnt), Eq(idx(k), i)))]
            pv.FACTS['flt:' + nm + ':idx'] = f_idx; pv.FACTS['flt:' + nm + ':rank'] = f_rank
            mono = lambda k, l: Or(Lt(k, ZERO), Le(cnt, l), Le(l, k), Lt(idx(k), idx(l)))
            e.filters[key] = Obj('filter', n=cnt, idx=idx, rank=rank, cond=cond, lo=lo, hi=hi, mono=mono)
        return e.filters[key]
    def mask_select(self, a, m):
        """elements of a where the mask of the same shape is true (only their sum and number are known)"""
        if a.ndim != m.ndim: raise Unsupported('mask of another rank')
        for x, y in zip(a.shape, m.shape): self.oblige('extent of the mask', Eq(x, y))
        if a.ndim == 1 and not self.loopdepth:
            ms = m.snap(); f = self.filtered(ZERO, a.shape[0], lambda i: self.truth(ms((i,)))); s = a.snap()
            r = self.new(lambda ix: s((f.idx(ix[0]),)), (f.n,), a.kind)
        else:
            def el(ix): raise Unsupported('element of a masked selection')
            r = self.new(el, (IV(fresh_name('flt:sel')),), a.kind)
        r.masked = (self.new(a.snap(), a.shape, a.kind), self.new(m.snap(), m.shape, 'b'))
        return r
    def fancy(self, a, keys):
        if len(keys) == 1 and isinstance(keys[0], NDArr) and keys[0].kind == 'b' and keys[0].ndim == a.ndim: return self.mask_select(a, keys[0])
        keys = tuple(self.asarray(k) if isinstance(k, list) else k for k in keys)
        if keys[0] is not None and isinstance(keys[0], NDArr) and keys[0].kind == 'b' and keys[0].ndim == 1 and all(isinstance(k, slice) for k in keys[1:]):
            # rows selected by a mask
            if self.loopdepth: raise Unsupported('boolean mask read in a symbolic loop')
            m = keys[0].snap()
            self.oblige('length of the mask', Eq(keys[0].shape[0], a.shape[0]))
            f = self.filtered(ZERO, a.shape[0], lambda i: self.truth(m((i,))))
            return self.fancy(a, (self.new(lambda ix: f.idx(ix[0]), (f.n,), 'i'),) + tuple(keys[1:]))
        if len(keys) == 1 and keys[0].kind == 'b': raise Unsupported('boolean mask read')
        arrs = [k for k in keys if isinstance(k, NDArr)]
        if any(k.kind == 'b' for k in arrs): raise Unsupported('boolean mask')
        snap = a.snap()
        if len(arrs) == 1:
            # one integer array, other axes basic (full slices / newaxis not supported)
            plan = []; shape = []
            ax = 0
            for k in keys:
                if isinstance(k, NDArr):
                    plan.append(('arr', k.snap(), k.ndim, len(shape))); shape += list(k.shape); ax += 1
                elif isinstance(k, slice):
                    lo, ln, st = self.slice_bounds(k, a.shape[ax])
                    plan.append(('sl', lo, st, len(shape))); shape.append(ln); ax += 1
                elif isinstance(k, (int, Poly)):
                    plan.append(('fix', self.norm_index(k, a.shape[ax]))); ax += 1
                else: raise Unsupported('mixed fancy index')
            while ax < a.ndim:
                plan.append(('sl', ZERO, 1, len(shape))); shape.append(a.shape[ax]); ax += 1
            def elem(idx):
                full = []
                for p in plan:
                    if p[0] == 'arr': full.append(num(p[1](idx[p[3]:p[3] + p[2]])))
                    elif p[0] == 'sl': full.append(p[1] + idx[p[3]].scale(p[2]))
                    else: full.append(p[1])
                return snap(full)
            return self.new(elem, shape, a.kind)
        if len(arrs) == len(keys) and len(keys) <= a.ndim:
            shape = self.broadcast(*arrs)
            nd = len(shape)
            snaps = [k.snap() for k in arrs]
            rest = a.shape[len(keys):]
            def elem(idx):
                full = [num(s(self.bidx(k, idx[:nd], nd))) for s, k in zip(snaps, arrs)]
                return snap(tuple(full) + tuple(idx[nd:]))
            return self.new(elem, tuple(shape) + tuple(rest), a.kind)
        at = [i for i, k in enumerate(keys) if isinstance(k, NDArr)]
        if at == list(range(at[0], at[-1] + 1)) and all(isinstance(k, (NDArr, slice)) for k in keys) and len(keys) <= a.ndim:
            # consecutive index arrays between slices: their common axes take the place of the indexed ones
            shape = self.broadcast(*arrs); nd = len(shape); snaps = [k.snap() for k in arrs]
            pre, post = [], []
            for ax, k in enumerate(keys):
                if isinstance(k, slice): (pre if ax < at[0] else post).append(self.slice_bounds(k, a.shape[ax]))
            for ax in range(len(keys), a.ndim): post.append((ZERO, a.shape[ax], 1))
            def elem(idx):
                full = [b[0] + i.scale(b[2]) for i, b in zip(idx[:len(pre)], pre)]
                full += [num(s(self.bidx(k, idx[len(pre):len(pre) + nd], nd))) for s, k in zip(snaps, arrs)]
                full += [b[0] + i.scale(b[2]) for i, b in zip(idx[len(pre) + nd:], post)]
                return snap(tuple(full))
            return self.new(elem, tuple(b[1] for b in pre) + tuple(shape) + tuple(b[1] for b in post), a.kind)
        raise Unsupported('fancy index')
    def write(self, a, key, value, aug=None):
        """a[key] = value"""
        keys = key if isinstance(key, tuple) else (key,)
        if any(isinstance(k, (NDArr, list)) for k in keys):
            if len(keys) == 1 and isinstance(keys[0], NDArr) and keys[0].kind == 'b' and keys[0].ndim == a.ndim:
                m = keys[0].snap(); old = a.snap()
                v = self.asarray(value)
                if v.ndim != 0: raise Unsupported('mask write of array')
                vs = v.snap()
                return self.write_view(a, self.new(lambda idx: ite(m(idx), vs(()), old(idx)), a.shape, a.kind))
            raise Unsupported('fancy write')
        v = self.index_view(a, key)
        self.write_view(v, value)
    def index_view(self, a, key):
        keys = key if isinstance(key, tuple) else (key,)
        keys = tuple(slice(k, self.binop('Add', k, 1)) if False else k for k in keys)
        r = self.index(a, key)
        if isinstance(r, NDArr) and r.st is a.st: return r
        # scalar position: rebuild as 0-d view
        ax = 0; fixes = {}
        n = 0
        for k in keys:
            if k is None: continue
            if k is Ellipsis: raise Unsupported('ellipsis write')
            fixes[ax] = self.norm_index(k, a.shape[ax]); ax += 1
        dims = []
        for d in a.dims:
            dims.append(d if d[0] == 'fix' else ('fix', d[2] + fixes[d[1]].scale(d[3])))
        return NDArr(a.st, (), dims)
    def write_view(self, v, value):
        st = v.st
        if st.owner in ('upstream', 'input', 'const') and not self.quiet:
            self.frame_writes.append((st.owner, list(self.hyps)))
        val = self.asarray(value)
        # broadcast value to v.shape
        if val.ndim > v.ndim:
            if all(s == ONE for s in val.shape[:val.ndim - v.ndim]): pass
            else: raise PyRaise('ValueError', 'could not broadcast')
        off = v.ndim - val.ndim
        for j in range(val.ndim):
            if j + off < 0: continue
            s = val.shape[j]
            if s != ONE and s != v.shape[j + off]:
                d = self.decide(Eq(s, v.shape[j + off]))
                if d is False and self.decide(Eq(s, ONE)) is not True: raise PyRaise('ValueError', 'could not broadcast')
                if d is None: self.oblige('shapes broadcast', Eq(s, v.shape[j + off]))
        vs = val.snap()
        old = st.elem
        kind = st.kind; vkind = val.kind
        nd = v.ndim; eng = self
        def elem(sidx):
            c, own = v.inverse(sidx)
            if c.op == 'false': return old(sidx)
            idx = own if off >= 0 else (ZERO,) * (-off) + own
            x = vs(self.bidx(val, idx, max(nd, val.ndim)))
            if kind == 'i' and vkind == 'f' and isinstance(x, Poly) and not x.is_int: x = mkapp('trunc', [x])
            if kind in 'fi' and isinstance(x, Cx): x = x.re
            if kind in 'fi' and isinstance(x, Cond): x = ind(x)
            if kind == 'c': x = C(num(x))
            if kind == 'b' and not isinstance(x, Cond): x = eng.truth(x)
            if c.op == 'true': return x
            return ite(c, x, old(sidx))
        st.elem = memo(elem)
        st.writes += 1
    # ---------------------------------------------------------------- names / attributes
    def np(self, name):
        from . import npmodel
        fn = npmodel.lookup('numpy.' + name)
        return lambda *a, **k: fn(self, *a, **k)
    def ext(self, dotted):
        from . import npmodel
        if dotted in npmodel.CONSTS: return npmodel.CONSTS[dotted]
        fn = npmodel.lookup(dotted)
        if fn is None:
            if dotted in npmodel.MODULES: return ModVal(dotted)
            return Obj('extern', name=dotted)
        return Builtin(dotted, fn)
    def global_name(self, modname, name):
        if (modname, name) in self.overrides: return self.overrides[(modname, name)]
        r = src.resolve(modname, name)
        if r is None:
            from . import npmodel
            if name in npmodel.BUILTINS: return Builtin(name, npmodel.BUILTINS[name])
            if name in npmodel.BUILTIN_CONSTS: return npmodel.BUILTIN_CONSTS[name]
            if name.endswith('Error') or name in ('Exception', 'StopIteration', 'Warning', 'UserWarning', 'DeprecationWarning'): return Obj('exc', name=name)
            raise Unsupported(f'unknown name {name}')
        if r[0] == 'func': return FuncVal(r[1], r[2])
        if r[0] == 'class': return ClassVal(src._class(r[1].name, r[2].name))
        if r[0] == 'ext': return self.ext(r[1])
        if r[0] == 'mod': return ModVal(r[1])
        if r[0] == 'assign':
            fr = Frame(self, r[1].name, {})
            return fr.eval(r[2])
        raise Unsupported(name)
    def getattr(self, o, name):
        if isinstance(o, SymObj): return self.obj_getattr(o, name)
        if isinstance(o, ModVal):
            if o.name.startswith('acoular'): return self.global_name(o.name, name)
            return self.ext(o.name + '.' + name)
        if isinstance(o, Obj) and o.kind == 'extern':
            return self.ext(o.name + '.' + name)
        if isinstance(o, ClassVal) and name == '__name__': return o.ci.name
        if isinstance(o, Obj) and hasattr(o, name): return getattr(o, name)
        if isinstance(o, Obj) and o.kind == 'inf': raise Unsupported('attribute of inf')
        from . import npmodel
        return npmodel.attribute(self, o, name)
    def obj_getattr(self, o, name):
        if name in o.attrs:
            v = o.attrs[name]
            if isinstance(v, Lazy):
                v = v.fn(self)
            return v
        if o.cls is None: raise Unsupported(f'attribute {name} of abstract object {o.name}')
        m = src.find_method(o.cls, '_get_' + name)
        t = src.find_trait(o.cls, name)
        if m and t and is_property_trait(t[1]):
            return self.call_func(FuncVal(m[0].mod, m[1], cls=m[0]), [o], {})
        mm = src.find_method(o.cls, name)
        if mm:
            decs = [d.id if isinstance(d, ast.Name) else '' for d in mm[1].decorator_list]
            if 'property' in decs: return self.call_func(FuncVal(mm[0].mod, mm[1], cls=mm[0]), [o], {})
            return BoundMethod(o, mm[0], mm[1])
        if t:
            return self.trait_value(o, name, t)
        if name == '__class__': return ClassVal(o.cls)
        raise Unsupported(f'attribute {name} of {o.name}')
    def trait_value(self, o, name, t):
        ci, node = t
        if isinstance(node, ast.Call):
            fn = node.func.id if isinstance(node.func, ast.Name) else (node.func.attr if isinstance(node.func, ast.Attribute) else '')
            if fn == 'Delegate':
                tgt = node.args[0].value
                an = node.args[1].value if len(node.args) > 1 else name
                return self.getattr(self.getattr(o, tgt), an)
            if fn == 'Constant':
                return Frame(self, ci.mod.name, {}).eval(node.args[0])
            if fn in ('Float', 'CFloat'): v = V(f'{o.name}.{name}')
            elif fn in ('Int', 'CInt', 'Long', 'CLong'): v = IV(f'{o.name}.{name}')
            elif fn == 'Bool': v = BV(f'{o.name}.{name}')
            elif fn == 'Property':
                raise Unsupported(f'property {name} without getter')
            else: raise Unsupported(f'trait {name}:{fn} not given by the contract')
            o.attrs[name] = v
            return v
        return Frame(self, ci.mod.name, {}).eval(node)
    def setattr(self, o, name, v):
        if isinstance(o, SymObj):
            if self.loopdepth:
                # an attribute of a loop-local helper object: must be set again in every iteration before it is read
                if not getattr(o, 'volatile', None) or name not in o.volatile: raise Unsupported('attribute write in loop')
                self.volatile.add((o, name))
            o.attrs[name] = v; o.written[name] = v
            return
        raise Unsupported(f'set attribute {name} of {o!r}')
    # ---------------------------------------------------------------- calls
    def call(self, f, args, kw):
        if isinstance(f, Builtin): return f.fn(self, *args, **kw)
        if isinstance(f, BoundMethod):
            return self.call_func(FuncVal(f.cls.mod, f.node, cls=f.cls), [f.obj] + args, kw)
        if isinstance(f, FuncVal): return self.call_func(f, args, kw)
        if isinstance(f, DType):
            from . import npmodel
            return npmodel.cast(self, args[0], f)
        if isinstance(f, PyFn): return f.fn(self, *args, **kw)
        if isinstance(f, ClassVal) and (f.ci.mod.name, f.ci.name) in self.contracts: return self.contracts[f.ci.mod.name, f.ci.name](self, *args, **kw)
        if isinstance(f, Obj) and f.kind == 'exc': return Obj('excval', name=f.name)
        raise Unsupported(f'call of {f!r}')
    def call_func(self, f, args, kw):
        node = f.node
        name = getattr(node, 'name', 'lambda')
        key = (f.mod.name if hasattr(f.mod, 'name') else f.mod, (f.cls.name + '.' if f.cls else '') + name)
        if key in self.contracts: return self.contracts[key](self, *args, **kw)
        gu = guvec_layout(node)
        if gu and not getattr(self, '_in_gu', False): return self.call_guvec(f, gu, args)
        self.inlined[key] = self.inlined.get(key, 0) + 1
        if self.calldepth > 25: raise Unsupported('recursion')
        fr = Frame(self, f.mod.name if hasattr(f.mod, 'name') else f.mod, self.bind(f, node, args, kw), cls=f.cls, closure=f.closure)
        if isinstance(node, ast.Lambda): return fr.eval(node.body)
        isgen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_scope(node))
        self.calldepth += 1
        try:
            if isgen:
                if self.calldepth > 1:
                    if self.delegate != self.calldepth - 1: raise Unsupported(f'nested generator {name}')
                    self.delegate = None           # `yield from` of another generator: its blocks are delivered in its place
                try: fr.exec_block(node.body)
                except ReturnEx: pass
                return None
            try:
                fr.exec_block(node.body)
            except ReturnEx as r: return r.v
            return None
        finally: self.calldepth -= 1
    def bind(self, f, node, args, kw):
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        if len(args) > len(names):
            if a.vararg is None: raise PyRaise('TypeError', 'too many arguments')
            env[a.vararg.arg] = tuple(args[len(names):]); args = args[:len(names)]
        elif a.vararg is not None: env[a.vararg.arg] = ()
        for n, v in zip(names, args): env[n] = v
        dfl = a.defaults
        fr = Frame(self, f.mod.name if hasattr(f.mod, 'name') else f.mod, {}, closure=f.closure)
        for n, d in zip(names[len(names) - len(dfl):], dfl):
            if n not in env and n not in kw: env[n] = fr.eval(d)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg in kw: continue
            if d is not None: env[x.arg] = fr.eval(d)
        extra = {}
        for k, v in kw.items():
            if k in names or k in [x.arg for x in a.kwonlyargs]: env[k] = v
            else: extra[k] = v
        if a.kwarg is not None: env[a.kwarg.arg] = extra
        elif extra: raise PyRaise('TypeError', f'unexpected {extra}')
        for n in names:
            if n not in env: raise PyRaise('TypeError', 'missing ' + n)
        return env
    def call_guvec(self, f, layout, args):
        """numba.guvectorize semantics: loop over broadcast (non-core) dimensions"""
        ins, outs = layout
        cores = ins + outs
        arrs = [self.asarray(a) for a in args]
        if len(arrs) != len(cores): raise Unsupported('guvectorize call without explicit outputs')
        loopshapes = []
        for a, c in zip(arrs, cores):
            if a.ndim < len(c): raise PyRaise('ValueError', 'core dimension')
            loopshapes.append(a.shape[:a.ndim - len(c)])
        # core dimension consistency
        seen = {}
        for a, c in zip(arrs, cores):
            for d, s in zip(c, a.shape[a.ndim - len(c):]):
                if d in seen:
                    if seen[d] != s:
                        dd = self.decide(Eq(seen[d], s))
                        if dd is False: raise PyRaise('ValueError', 'core dimension mismatch')
                        if dd is None: self.oblige('core dimensions agree', Eq(seen[d], s))
                else: seen[d] = s
        nd = max(len(s) for s in loopshapes)
        def norm(ls): return (ONE,) * (nd - len(ls)) + tuple(ls)
        shape = []
        for ax in range(nd):
            s = ONE
            for ls in loopshapes:
                x = norm(ls)[ax]
                if x != ONE: s = x
            shape.append(s)
        node = f.node
        pn = [x.arg for x in node.args.args]
        eng = self
        def body(idxs):
            env = {}
            for n, a, c, ls in zip(pn, arrs, cores, loopshapes):
                off = nd - len(ls)
                key = tuple((0 if ls[j] == ONE else idxs[j + off]) for j in range(len(ls)))
                if len(c) == 0:
                    # () arguments arrive as 1-element arrays
                    v = eng.index_view(a, key) if key else a
                    v = NDArr(v.st, (ONE,), list(v.dims))
                elif key: v = eng.index(a, key)
                else: v = a
                env[n] = v
            fr = Frame(eng, f.mod.name, env)
            try: fr.exec_block(node.body)
            except ReturnEx: pass
        self.inlined[(f.mod.name, node.name)] = self.inlined.get((f.mod.name, node.name), 0) + 1
        def rec(ax, idxs):
            if ax == nd: body(idxs); return
            if shape[ax] == ONE: rec(ax + 1, idxs + [ZERO]); return
            Loop(eng, None, ZERO, shape[ax], lambda k: rec(ax + 1, idxs + [k]), [], 'guvectorize', parallel=True).run()
        rec(0, [])
        return None

class Lazy:
    def __init__(self, fn): self.fn = fn
class PyFn:
    def __init__(self, fn): self.fn = fn

def is_property_trait(node):
    while isinstance(node, ast.Call):
        f = node.func
        if isinstance(f, ast.Name) and f.id in ('Property',): return True
        if isinstance(f, ast.Attribute): return False
        if isinstance(f, ast.Name): return f.id == 'Property'
        return False
    return False

def walk_scope(node):
    """nodes of a function body without nested function scopes"""
    out = []
    stack = list(node.body) if not isinstance(node, ast.Lambda) else [node.body]
    while stack:
        n = stack.pop()
        out.append(n)
        if isinstance(n, (ast.FunctionDef, ast.Lambda)): continue
        stack.extend(ast.iter_child_nodes(n))
    return out

def guvec_layout(node):
    for d in getattr(node, 'decorator_list', []):
        if isinstance(d, ast.Call) and (getattr(d.func, 'attr', None) == 'guvectorize' or getattr(d.func, 'id', None) == 'guvectorize'):
            for a in d.args:
                if isinstance(a, ast.Constant) and isinstance(a.value, str):
                    l, r = a.value.split('->')
                    def pr(s): return [tuple(x for x in part.split(',') if x) for part in re.findall(r'\(([^)]*)\)', s.replace(' ', ''))]
                    return pr(l), pr(r)
    return None

class Frame:
    def __init__(self, eng, modname, env, cls=None, closure=None):
        self.eng = eng; self.mod = modname; self.env = env; self.cls = cls; self.closure = closure
    # ------------------------------------------------------------ statements
    def exec_block(self, stmts):
        i = 0
        while i < len(stmts):
            s = stmts[i]
            if isinstance(s, ast.If) and self.eng.loopdepth and has_escape(s):
                # if c: A(continue) [else B]; rest   ==>   if c: A else: B; rest
                self.exec_if(s, stmts[i + 1:])
                return
            self.exec(s)
            i += 1
    def exec(self, s):
        e = self.eng
        e.steps += 1
        if e.deadline and time.time() > e.deadline: raise Unsupported('time budget')
        t = type(s).__name__
        m = getattr(self, 'x_' + t, None)
        if m is None: raise Unsupported('statement ' + t)
        return m(s)
    def x_Expr(self, s):
        if isinstance(s.value, ast.Constant): return
        if isinstance(s.value, ast.ListComp) and len(s.value.generators) == 1 and not s.value.generators[0].ifs:
            # comprehension evaluated for its effects only
            g = s.value.generators[0]
            if isinstance(self.eval(g.iter), RangeVal):
                b = ast.Expr(value=s.value.elt); ast.copy_location(b, s)
                n = g.target.id if isinstance(g.target, ast.Name) else None
                had = n in self.env; old = self.env.get(n)
                self.for_iter(self.eval(g.iter), g.target, [b])
                if n is not None:
                    if had: self.env[n] = old
                    else: self.env.pop(n, None)
                return
        try: self.eval(s.value)
        except ListOfBlocks as ex:
            # empty list extended by a generator: every name of that list now holds the list of all its blocks
            o = self.eval(s.value.func.value)
            bl = BlockList(ex.it.stream, ex.it.pos, ex.it.stream.K); ex.it.setpos(ex.it.stream.K)
            self.eng.hyps += [h for h in ex.it.stream.facts() if h not in self.eng.hyps]
            for n in [n for n, v in self.env.items() if v is o]: self.env[n] = bl
    def x_Pass(self, s): pass
    def x_Import(self, s):
        for a in s.names: self.env[a.asname or a.name.split('.')[0]] = ModVal(a.name if a.asname else a.name.split('.')[0])
    def x_ImportFrom(self, s):
        for a in s.names:
            if s.level == 0 and not (s.module or '').startswith('acoular'): self.env[a.asname or a.name] = self.eng.ext((s.module or '') + '.' + a.name)
            else: raise Unsupported('local import')
    def x_Global(self, s): pass
    def x_FunctionDef(self, s):
        self.env[s.name] = FuncVal(Mod(self.mod), s, closure=self)
    def x_Return(self, s):
        raise ReturnEx(None if s.value is None else self.eval(s.value))
    def x_Break(self, s): raise BreakEx()
    def x_Continue(self, s): raise ContinueEx()
    def x_Raise(self, s):
        n = 'Exception'
        if s.exc is not None:
            x = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            n = x.id if isinstance(x, ast.Name) else getattr(x, 'attr', 'Exception')
        raise PyRaise(n)
    def x_Assert(self, s):
        c = self.eng.truth(self.eval(s.test))
        if self.eng.decide(c) is False: raise PyRaise('AssertionError')
        self.eng.hyps.append(c)
    def x_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name): self.env.pop(t.id, None)
            else: raise Unsupported('del')
    def x_Assign(self, s):
        v = self.eval(s.value)
        for t in s.targets: self.assign(t, v)
    def x_AnnAssign(self, s):
        if s.value is not None: self.assign(s.target, self.eval(s.value))
    def assign(self, t, v):
        e = self.eng
        if isinstance(t, ast.Name):
            self.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.iter_concrete(v, len(t.elts))
            if any(isinstance(x, ast.Starred) for x in t.elts): raise Unsupported('starred')
            if len(vs) != len(t.elts): raise PyRaise('ValueError', 'unpack')
            for x, y in zip(t.elts, vs): self.assign(x, y)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value)
            k = self.key(t.slice)
            if isinstance(o, NDArr): e.write(o, k, v)
            elif isinstance(o, dict):
                if e.loopdepth: raise Unsupported('dict write in loop')
                o[k] = v
            elif isinstance(o, list):
                kk = conc(k)
                if kk is None: raise Unsupported('list write')
                if e.loopdepth: self.list_write(o, kk, v)
                else: o[kk] = v
            else: raise Unsupported(f'item assignment on {o!r}')
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value)
            if isinstance(o, NDArr) and t.attr in ('real', 'imag'):
                a = o.snap(); b = e.asarray(v); bs = b.snap()
                nd = o.ndim
                re = t.attr == 'real'
                e.write_view(o, e.new(lambda idx: Cx(num(bs(e.bidx(b, idx, nd))), C(a(idx)).im) if re else Cx(C(a(idx)).re, num(bs(e.bidx(b, idx, nd)))), o.shape, 'c'))
                return
            e.setattr(o, t.attr, v)
        else: raise Unsupported('assign target')
    def list_write(self, o, kk, v):
        """o[kk] = v inside a symbolic loop: an in-place update of the array held there, provided nothing else refers to it"""
        old = o[kk]
        if not (isinstance(old, NDArr) and isinstance(v, NDArr) and len(old.shape) == len(v.shape) and all(P(a) == P(b) for a, b in zip(old.shape, v.shape))): raise Unsupported('list write')
        n = 0
        for f in getattr(self.eng, 'frames', [self]):
            for x in f.env.values():
                for y in (x if isinstance(x, (list, tuple)) and x is not o else [x]):
                    if isinstance(y, NDArr) and y.st in (old.st, v.st): raise Unsupported('list write of a shared array')
        if sum(1 for y in o if isinstance(y, NDArr) and y.st is old.st) != 1 or any(isinstance(y, NDArr) and y.st is v.st for y in o): raise Unsupported('list write of a shared array')
        self.eng.write_view(old, self.eng.new(v.snap(), v.shape, v.kind))
    def iter_concrete(self, v, n=None):
        if isinstance(v, (tuple, list)): return list(v)
        if isinstance(v, NDArr):
            k = conc(v.shape[0])
            if k is None: k = n
            if k is None: raise Unsupported('unpack symbolic array')
            if conc(v.shape[0]) is None: self.eng.oblige('unpack length', Eq(v.shape[0], n))
            return [self.eng.index(v, i) for i in range(k)]
        if isinstance(v, ShapeTuple): return list(v)
        raise Unsupported(f'iterate {v!r}')
    def x_AugAssign(self, s):
        e = self.eng
        op = type(s.op).__name__
        t = s.target
        if isinstance(t, ast.Name):
            old = self.load(t.id)
            v = self.eval(s.value)
            if isinstance(old, NDArr):
                r = e.binop(op, old, v)
                e.write_view(old, r)      # in place on the array object
            elif isinstance(old, list) and op == 'Add':
                if e.loopdepth: raise Unsupported('list append in loop')
                old.extend(v)
            else: self.env[t.id] = e.binop(op, old, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value)
            k = self.key(t.slice)
            v = self.eval(s.value)
            if isinstance(o, NDArr):
                cur = e.index(o, k)
                e.write(o, k, e.binop(op, cur, v))
            elif isinstance(o, (dict, list)):
                if e.loopdepth: raise Unsupported('container write in loop')
                kk = conc(k) if isinstance(o, list) else k
                o[kk] = e.binop(op, o[kk], v)
            else: raise Unsupported('augassign')
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value)
            cur = e.getattr(o, t.attr)
            v = self.eval(s.value)
            if isinstance(cur, NDArr): e.write_view(cur, e.binop(op, cur, v))
            else: e.setattr(o, t.attr, e.binop(op, cur, v))
        else: raise Unsupported('augassign target')
    def x_With(self, s):
        raise Unsupported('with')
    def x_Try(self, s):
        e = self.eng
        if s.finalbody: raise Unsupported('finally')
        sb = any(isinstance(h.type, ast.Name) and h.type.id == 'StopIteration' and len(h.body) == 1 and isinstance(h.body[0], ast.Break) for h in s.handlers)
        sb0 = e.stopbreak; e.stopbreak = sb
        try:
            try: self.exec_block(s.body)
            finally: e.stopbreak = sb0
        except PyRaise as ex:
            for h in s.handlers:
                names = []
                if h.type is None: names = None
                elif isinstance(h.type, ast.Tuple): names = [getattr(x, 'id', getattr(x, 'attr', '')) for x in h.type.elts]
                else: names = [getattr(h.type, 'id', getattr(h.type, 'attr', ''))]
                if names is None or ex.etype in names or 'Exception' in names or ('OSError' in names and ex.etype in ('IOError', 'FileNotFoundError')):
                    if h.name: self.env[h.name] = Obj('excval', name=ex.etype)
                    self.exec_block(h.body)
                    return
            raise
        else:
            self.exec_block(s.orelse)
    def x_If(self, s): self.exec_if(s, [])
    def exec_if(self, s, rest):
        e = self.eng
        c = e.truth(self.eval(s.test))
        d = e.decide(c)
        if d is None and not e.loopdepth: d = e.fork(c)
        if d is True:
            self.exec_block(s.body); self.exec_block(rest); return
        if d is False:
            self.exec_block(s.orelse); self.exec_block(rest); return
        # merge
        base = dict(self.env)
        snap = [(x, x.elem, x.writes) for x in e.live]
        nh = len(e.hyps)
        def run(cond, stmts):
            self.env.clear(); self.env.update(base)
            for x, el, w in snap: x.elem = el; x.writes = w
            del e.hyps[nh:]
            e.hyps.append(cond); e.guards.append(cond)
            r = 'ok'
            try: self.exec_block(stmts)
            except ContinueEx: r = 'continue'
            except BreakEx: r = 'break'
            except PyRaise as ex: r = 'raise:' + ex.etype
            except ReturnEx as ex: raise Unsupported('return under symbolic condition in a loop')
            finally: e.guards.pop()
            st = [(x, x.elem, x.writes) for x in e.live]
            env = dict(self.env)
            del e.hyps[nh:]
            return r, env, st
        def safe(cond, stmts):
            return run(cond, stmts)
        r1, env1, st1 = safe(c, list(s.body) + list(rest))
        r2, env2, st2 = safe(Not(c), list(s.orelse) + list(rest))
        if r1.startswith('raise') or r2.startswith('raise'):
            # executions that raise are outside the postcondition; the guard becomes an assumption
            if r1.startswith('raise') and r2.startswith('raise'): raise PyRaise(r1[6:])
            keep = (env2, st2) if r1.startswith('raise') else (env1, st1)
            g = Not(c) if r1.startswith('raise') else c
            e.raises.append((r1 if r1.startswith('raise') else r2, list(e.hyps) + [Not(g)]))
            self.env.clear(); self.env.update(keep[0])
            for x, el, w in keep[1]: x.elem = el; x.writes = w
            e.hyps.append(g)
            if 'break' in (r1, r2): raise BreakEx()
            return
        if 'break' in (r1, r2):
            if e.nobreak is None or r1 == r2: raise BreakEx() if r1 == r2 else Unsupported('break under symbolic condition')
            # the iterations considered are those that are completed: the condition does not hold in them
            keep = (env2, st2) if r1 == 'break' else (env1, st1)
            g = Not(c) if r1 == 'break' else c
            self.env.clear(); self.env.update(keep[0])
            for x, el, w in keep[1]: x.elem = el; x.writes = w
            e.hyps.append(g)
            if not e.guards: e.nobreak.append(g)
            if 'continue' in (r1, r2): raise ContinueEx()
            return
        d2 = {x: (el, w) for x, el, w in st2}
        for x, el, w in st1:
            el2, w2 = d2.get(x, (x.elem, x.writes))
            if el is el2: x.elem = el; continue
            def mk(a, b): return memo(lambda idx: ite(c, a(idx), b(idx)))
            x.elem = mk(el, el2); x.writes = max(w, w2)
        self.env.clear()
        for k in list(dict.fromkeys(list(env1) + list(env2))):
            if k in env1 and k in env2: self.env[k] = self.merge(c, env1[k], env2[k])
            else: self.env[k] = Poison('defined in one branch only')
        if 'continue' in (r1, r2): raise ContinueEx()
    def merge(self, c, a, b):
        if a is b: return a
        if isinstance(a, (Poison,)) or isinstance(b, Poison): return Poison('merge')
        try:
            if isinstance(a, NDArr) or isinstance(b, NDArr):
                if isinstance(a, NDArr) and isinstance(b, NDArr) and a.st is b.st and a.shape == b.shape and a.dims == b.dims: return a
                x, y = self.eng.asarray(a), self.eng.asarray(b)
                if x.shape != y.shape: return Poison('merge of arrays with different shapes')
                xs, ys = x.snap(), y.snap()
                kind = 'c' if 'c' in (x.kind, y.kind) else ('f' if 'f' in (x.kind, y.kind) else x.kind)
                return self.eng.new(lambda idx: ite(c, xs(idx), ys(idx)), x.shape, kind, owner='merged')
            if isinstance(a, (tuple,)) and isinstance(b, tuple) and len(a) == len(b):
                return tuple(self.merge(c, x, y) for x, y in zip(a, b))
            if a == b and type(a) is type(b): return a
            return ite(c, lift(a), lift(b))
        except Exception:
            return Poison('merge')
    # ------------------------------------------------------------ loops
    def x_For(self, s):
        e = self.eng
        it = self.eval(s.iter)
        if s.orelse: raise Unsupported('for-else')
        self.for_iter(it, s.target, s.body)
    def for_iter(self, it, target, body):
        e = self.eng
        seq = None
        if isinstance(it, (StreamIter, BlockList)): it = it.symiter()
        if isinstance(it, RangeVal):
            lo, hi, st = it.lo, it.hi, it.step
            a, b = conc(lo), conc(hi)
            if a is not None and b is not None and conc(st) is not None and (b - a) // abs(conc(st)) <= 20:
                seq = list(range(a, b, conc(st)))
            elif conc(st) == 1:
                d = hi - lo
                if d.is_const() and 0 <= d.const() <= 4: seq = [lo + j for j in range(int(d.const()))]
            if seq is None:
                if conc(st) != 1:
                    stc = conc(st)
                    if stc == -1:
                        # reversed(range(..))
                        Loop(e, self, ZERO, lo - hi, lambda k: (self.assign(target, lo - k), self.body(body)), assigned(body, target), 'for', parallel=it.par).run()
                        return
                    raise Unsupported('range step')
                Loop(e, self, lo, hi, lambda k: (self.assign(target, k), self.body(body)), assigned(body, target), 'for', parallel=it.par).run()
                return
        elif isinstance(it, (list, tuple)): seq = list(it)
        elif isinstance(it, dict): seq = list(it)
        elif isinstance(it, NDArr):
            n = conc(it.shape[0])
            if n is not None and n <= 12: seq = [e.index(it, i) for i in range(n)]
            else:
                Loop(e, self, ZERO, it.shape[0], lambda k: (self.assign(target, e.index(it, k)), self.body(body)), assigned(body, target), 'for').run()
                return
        elif isinstance(it, SymIter):
            n = conc(it.length)
            if n is not None and n <= 12 and not it.pre: seq = [it.item(e, i) for i in range(n)]
            else:
                e.hyps += it.facts
                def bodyf(k):
                    self.assign(target, it.item(e, P(k))); self.body(body)
                if it.split:
                    # all blocks but the last (full), then the last one
                    ne = e.decide(Le(ONE, it.length))
                    if ne is None and not e.loopdepth: ne = e.fork(Le(ONE, it.length))
                    if ne is None: raise Unsupported('iteration over a stream that may be exhausted')
                    if ne:
                        l = Loop(e, self, ZERO, it.length - 1, bodyf, assigned(body, target), 'for')
                        l.sample = e.unroll and any(isinstance(n, ast.While) for b in body for n in ast.walk(b))
                        l.run()
                        try: bodyf(it.length - 1)
                        except BreakEx: pass
                elif e.chunk is not None and not e.loopdepth: self.chunked(it.length, P(e.chunk), bodyf, assigned(body, target))
                else: Loop(e, self, ZERO, it.length, bodyf, assigned(body, target), 'for').run()
                if it.done: it.done()
                return
        if seq is None: raise Unsupported(f'iteration over {it!r}')
        if len(seq) > 64: raise Unsupported('long concrete loop')
        for v in seq:
            self.assign(target, v)
            try: self.exec_block(body)
            except BreakEx: break
            except ContinueEx: continue
    def chunked(self, L, n, bodyf, names):
        """the iterations 0..L-1 in order, grouped by n: Q full groups (first n-1 iterations, then the last one), then the rest"""
        e = self.eng
        Q = IV(fresh_name('Q')); R = IV(fresh_name('R')); e.hyps += [Le(ONE, n), Le(ZERO, Q), Eq(L, Q * n + R), Le(ZERO, R), Lt(R, n)]
        def group(q):
            Loop(e, self, ZERO, n - 1, lambda j: bodyf(q * n + j), names, 'for').run()
            bodyf(q * n + n - 1)
        if e.fork(Le(ONE, Q)): Loop(e, self, ZERO, Q, group, names, 'for').run()
        else: e.hyps.append(Eq(Q, ZERO)); Q = ZERO
        if e.fork(Le(ONE, R)):
            # the last iteration separately: the counters end on it
            if e.fork(Lt(ONE, R)): Loop(e, self, ZERO, R - 1, lambda j: bodyf(Q * n + j), names, 'for').run()
            else: e.hyps.append(Eq(R, ONE)); R = ONE
            bodyf(Q * n + R - 1)
        else: e.hyps.append(Eq(R, ZERO))
    def body(self, stmts):
        try: self.exec_block(stmts)
        except ContinueEx: pass
    def x_While(self, s):
        e = self.eng
        # concrete?
        for _ in range(12):
            c = e.truth(self.eval(s.test))
            if c.op not in ('true', 'false') and e.unroll:
                d = e.decide(c)
                if d is None and not e.loopdepth: d = e.fork(c)
                if d is not None: c = TRUE if d else FALSE
            if c.op == 'false':
                self.exec_block(s.orelse); return
            if c.op != 'true': break
            if not e.loopdepth and breaks(s.body) and fixed_test(s):
                K = IV(fresh_name('K'))
                BreakLoop(e, self, ZERO, K, lambda k: self.body(s.body), assigned(s.body, None), 'while', test=s.test).run()
                return
            if isinstance(s.test, ast.Constant): break
            try: self.exec_block(s.body)
            except BreakEx: return
            except ContinueEx: pass
        else: raise Unsupported('concrete while loop too long')
        K = IV(fresh_name('K'))
        WhileLoop(e, self, ZERO, K, lambda k: self.body(s.body), assigned(s.body, None), 'while', test=s.test).run()
        self.exec_block(s.orelse)
    # ------------------------------------------------------------ expressions
    def load(self, n):
        f = self
        while f is not None:
            if n in f.env:
                v = f.env[n]
                if isinstance(v, Poison): raise PoisonUse(f'{n}: {v.why}')
                return v
            f = f.closure
        return self.eng.global_name(self.mod, n)
    def key(self, s):
        if isinstance(s, ast.Tuple): return tuple(self.key(x) for x in s.elts)
        if isinstance(s, ast.Slice):
            return slice(*[None if x is None else self.eval(x) for x in (s.lower, s.upper, s.step)])
        return self.eval(s)
    def eval(self, n):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None: raise Unsupported('expression ' + type(n).__name__)
        return m(n)
    def e_Constant(self, n): return n.value
    def e_Name(self, n): return self.load(n.id)
    def e_Tuple(self, n):
        out = []
        for x in n.elts:
            if isinstance(x, ast.Starred): out += self.iter_concrete(self.eval(x.value))
            else: out.append(self.eval(x))
        return tuple(out)
    def e_List(self, n): return list(self.e_Tuple(n))
    def e_Set(self, n): return list(self.e_Tuple(n))
    def e_Dict(self, n):
        return {self.hashable(self.eval(k)): self.eval(v) for k, v in zip(n.keys, n.values)}
    def hashable(self, k):
        if isinstance(k, tuple): return tuple(self.hashable(x) for x in k)
        if isinstance(k, Poly) and k.is_const(): return int(k.const()) if k.const().denominator == 1 else k.const()
        return k
    def e_UnaryOp(self, n):
        v = self.eval(n.operand)
        op = type(n.op).__name__
        if op == 'Not':
            c = Not(self.eng.truth(v))
            return True if c.op == 'true' else (False if c.op == 'false' else c)
        if op == 'USub':
            if isinstance(v, (int, float, complex)) and not isinstance(v, bool): return -v
            if isinstance(v, Obj) and v.kind == 'inf': return Obj('inf', sign=-v.sign)
            return self.eng.binop('Mult', v, -1)
        if op == 'UAdd': return v
        if op == 'Invert':
            if isinstance(v, NDArr) and v.kind == 'b': return self.eng.elementwise(lambda x: Not(x), v, kind='b')
            if isinstance(v, (Cond, )): return Not(v)
            raise Unsupported('invert')
        raise Unsupported(op)
    def e_BinOp(self, n):
        return self.eng.binop(type(n.op).__name__, self.eval(n.left), self.eval(n.right))
    def e_BoolOp(self, n):
        e = self.eng
        isand = isinstance(n.op, ast.And)
        acc = []
        for x in n.values:
            v = self.eval(x)
            c = e.truth(v)
            d = e.decide(c)
            if d is (not isand):
                if acc: return (And if isand else Or)(*acc, lift(not isand))
                return v
            if d is isand:
                if x is n.values[-1] and not acc: return v
                continue
            acc.append(c)
            e_h = len(e.hyps)
            # later operands are evaluated under the assumption that the earlier ones did not decide
            if x is not n.values[-1]: e.hyps.append(c if isand else Not(c)); self._pop = getattr(self, '_pop', 0)
            if x is not n.values[-1]:
                rest = ast.BoolOp(n.op, n.values[n.values.index(x) + 1:]) if len(n.values) - n.values.index(x) > 2 else n.values[-1]
                try: v2 = self.eval(rest)
                finally: del e.hyps[e_h:]
                num_ = lambda z: isinstance(z, (int, float, Fraction, Poly)) and not isinstance(z, bool)
                if num_(v) and num_(v2): return ite(c, P(v2), P(v)) if isand else ite(c, P(v), P(v2))
                r = (And if isand else Or)(c, e.truth(v2))
                return True if r.op == 'true' else (False if r.op == 'false' else r)
        if not acc: return isand
        r = (And if isand else Or)(*acc)
        return r
    def e_Compare(self, n):
        l = self.eval(n.left)
        conds = []
        for op, r in zip(n.ops, n.comparators):
            rv = self.eval(r)
            conds.append(self.eng.compare(type(op).__name__, l, rv))
            l = rv
        if len(conds) == 1: return conds[0]
        c = And(*[lift(x) for x in conds])
        return True if c.op == 'true' else (False if c.op == 'false' else c)
    def e_IfExp(self, n):
        e = self.eng
        c = e.truth(self.eval(n.test))
        d = e.decide(c)
        if d is None and not e.loopdepth: d = e.fork(c)
        if d is True: return self.eval(n.body)
        if d is False: return self.eval(n.orelse)
        nh = len(e.hyps)
        e.hyps.append(c); a = self.eval(n.body); del e.hyps[nh:]
        e.hyps.append(Not(c)); b = self.eval(n.orelse); del e.hyps[nh:]
        r = self.merge(c, a, b)
        if isinstance(r, Poison): raise Unsupported('conditional expression')
        return r
    def e_Attribute(self, n): return self.eng.getattr(self.eval(n.value), n.attr)
    def e_Subscript(self, n):
        o = self.eval(n.value)
        k = self.key(n.slice)
        e = self.eng
        if isinstance(o, NDArr):
            if isinstance(k, Obj) and k.kind == 'ix': raise Unsupported('ix_')
            r = e.index(o, k)
            if o.st.owner == 'file' and isinstance(r, NDArr) and r.st is o.st: return e.new(r.snap(), r.shape, r.kind)      # a dataset: reading makes a copy
            return r
        if isinstance(o, (list, tuple)):
            if isinstance(k, slice):
                ks = slice(*[None if x is None else conc(x) for x in (k.start, k.stop, k.step)])
                return o[ks]
            kk = conc(k)
            if kk is None:
                if isinstance(k, Poly) and o and all(isnum(x) for x in o):
                    return e.index(e.asarray(list(o)), k)
                raise Unsupported('symbolic list index')
            try: return o[kk]
            except IndexError: raise PyRaise('IndexError')
        if isinstance(o, dict):
            k = self.hashable(k)
            if isinstance(k, tuple) and any(isinstance(x, Cond) for x in k):
                # forks over symbolic booleans in the key
                k = tuple(e.fork(x) if isinstance(x, Cond) else x for x in k)
            elif isinstance(k, Cond): k = e.fork(k)
            try: return o[k]
            except KeyError: raise PyRaise('KeyError')
            except TypeError: raise Unsupported('dict key')
        if isinstance(o, str):
            if isinstance(k, slice): return o[slice(*[None if x is None else conc(x) for x in (k.start, k.stop, k.step)])]
            return o[conc(k)]
        if isinstance(o, BlockList):
            if isinstance(k, slice):
                if k == slice(None, None, -1): return o.reversed()
                raise Unsupported('slice of a block list')
            return o.item(e, k)
        if isinstance(o, Obj) and hasattr(o, 'getitem'): return o.getitem(e, k)
        if isinstance(o, SymObj) and isinstance(o.attrs.get('__getitem__'), PyFn): return o.attrs['__getitem__'].fn(e, k)      # ghost object of a contract
        raise Unsupported(f'subscript of {o!r}')
    def e_Call(self, n):
        e = self.eng
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args:
            return Obj('super', frame=self)
        f = self.eval(n.func)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred): args += self.iter_concrete(self.eval(a.value))
            else: args.append(self.eval(a))
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                d = self.eval(k.value)
                if not isinstance(d, dict): raise Unsupported('**kwargs')
                kw.update(d)
            else: kw[k.arg] = self.eval(k.value)
        if isinstance(f, Builtin) and f.name in ('locals', 'globals', 'eval', 'exec'): raise Unsupported(f.name)
        return e.call(f, args, kw)
    def e_Lambda(self, n): return FuncVal(Mod(self.mod), n, closure=self)
    def e_JoinedStr(self, n):
        out = []
        for v in n.values:
            if isinstance(v, ast.Constant): out.append(str(v.value))
            else: return Obj('str')
        return ''.join(out)
    def e_ListComp(self, n): return self.comp_list(n)
    def comp_list(self, n):
        r = self.comp(n.generators, lambda fr: fr.eval(n.elt))
        return r if isinstance(r, SymList) else list(r)
    def e_GeneratorExp(self, n): return self.e_ListComp(n)
    def e_SetComp(self, n): return self.e_ListComp(n)
    def e_DictComp(self, n):
        return dict(self.comp(n.generators, lambda fr: (fr.hashable(fr.eval(n.key)), fr.eval(n.value))))
    def comp(self, gens, fn):
        e = self.eng
        g = gens[0]
        it = self.eval(g.iter)
        if isinstance(it, RangeVal) and (conc(it.lo) is None or conc(it.hi) is None) and len(gens) == 1 and not g.ifs and isinstance(g.target, ast.Name):
            # symbolic comprehension: a pull array
            fr = Frame(e, self.mod, {}, closure=self)
            def elem(idx):
                f2 = Frame(e, self.mod, {g.target.id: it.lo + idx[0]}, closure=self)
                return lift(fn(f2))
            w0 = [(x, x.writes) for x in e.live]
            elem((IV(fresh_name('pc')),))
            if any(x.writes != w for x, w in w0): raise Unsupported('comprehension with side effects')
            return SymList(e.new(elem, (it.hi - it.lo,), 'f'))
        if isinstance(it, RangeVal) and (conc(it.lo) is None or conc(it.hi) is None) and len(gens) == 1 and g.ifs and isinstance(g.target, ast.Name) and it.step == ONE:
            return self.filtered(it, g, fn)
        seq = self.iter_concrete(list(range(conc(it.lo), conc(it.hi), conc(it.step))) if isinstance(it, RangeVal) else (list(it) if isinstance(it, dict) else it))
        out = []
        for v in seq:
            fr = Frame(e, self.mod, {}, closure=self)
            fr.assign(g.target, v)
            ok = True
            for c in g.ifs:
                d = e.fork(e.truth(fr.eval(c)))
                if not d: ok = False; break
            if not ok: continue
            if len(gens) > 1: out += fr.comp(gens[1:], fn)
            else: out.append(fn(fr))
        return out
    def filtered(self, it, g, fn):
        """[f(i) for i in range(lo, hi) if c(i)]: idx enumerates the i with c(i) in increasing order, rank is its inverse"""
        e = self.eng
        if e.loopdepth: raise Unsupported('filtered comprehension in a symbolic loop')
        def cond(i):
            f2 = Frame(e, self.mod, {g.target.id: i}, closure=self)
            return And(*[e.truth(f2.eval(c)) for c in g.ifs])
        x = cond(IV('%fi'))
        f = e.filtered(it.lo, it.hi, cond)
        def elem(ix):
            f2 = Frame(e, self.mod, {g.target.id: f.idx(ix[0])}, closure=self)
            return lift(fn(f2))
        t = elem((IV('%fk'),))
        return SymList(e.new(elem, (f.n,), e.kindof(t)))
    def e_Yield(self, n):
        e = self.eng
        v = None if n.value is None else self.eval(n.value)
        if not e.quiet:
            if isinstance(v, NDArr):
                cp = e.new(v.snap(), v.shape, v.kind, owner=v.st.owner)
                cp.origin = v.st
                v = cp
            elif isinstance(v, tuple):
                pass
            e.events.append(Event(v, list(e.hyps), list(e.loops), e.guards))
        return None
    def e_YieldFrom(self, n):
        e = self.eng
        nested = isinstance(n.value, ast.Call) and not any(isinstance(x, ast.Call) for a in n.value.args + [k.value for k in n.value.keywords] for x in ast.walk(a)) and not any(isinstance(x, ast.Call) for x in ast.walk(n.value.func))
        e.delegate = e.calldepth if nested else None
        try: it = self.eval(n.value)
        finally: done, e.delegate = nested and e.delegate is None, None
        if done and it is None: return None
        if isinstance(it, (StreamIter, BlockList)): it = it.symiter()
        if isinstance(it, SymIter):
            e.hyps += it.facts
            def bodyf(k):
                v = it.item(e, P(k))
                if not e.quiet: e.events.append(Event(v, list(e.hyps), list(e.loops), e.guards))
            Loop(e, self, ZERO, it.length, bodyf, [], 'yield from').run()
            if it.done: it.done()
            return None
        raise Unsupported('yield from')
    def e_NamedExpr(self, n):
        v = self.eval(n.value); self.assign(n.target, v); return v
    def e_Starred(self, n): raise Unsupported('starred')

class Mod:
    def __init__(self, name): self.name = name if isinstance(name, str) else name.name
class ShapeTuple(tuple): pass
class SymList(list):
    """list built by a comprehension of symbolic length"""
    def __init__(self, arr): self.arr = arr; super().__init__()
class WhereTuple(tuple):
    """numpy.where(mask): index arrays of the true elements"""
    def __new__(cls, mask): t = super().__new__(cls, (Poison('index array of where()'),) * mask.ndim); t.mask = mask; return t
class RangeVal:
    def __init__(self, lo, hi, step=1, par=False): self.lo = P(lo); self.hi = P(hi); self.step = P(step); self.par = par
class SymIter:
    """iterator of symbolic length: item(eng, k)"""
    def __init__(self, length, item, facts=(), pre=False, done=None, split=False):
        self.length = P(length); self.item = item; self.facts = list(facts); self.pre = pre; self.done = done; self.split = split

def has_escape(s):
    for n in ast.walk(s):
        if isinstance(n, (ast.Continue,)): return True
    return False
def assigned(body, target):
    out = []
    for s in body + ([target] if target is not None else []):
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)): out.append(n.id)
    return list(dict.fromkeys(out))

_ph = [0]
class State:
    """one piece of loop state: a variable (scalar or freshly bound array) or a storage written in place"""
    def __init__(self, kind, ref, name, shape, init, comp):
        self.kind = kind; self.ref = ref; self.name = name; self.shape = shape
        self.init = init            # idx -> Poly
        self.comp = comp            # 'int','real','bool'
        _ph[0] += 1
        self.ph = f'st{_ph[0]}:{name}'
        self.closed = None          # (idx, k) -> Poly, value at the start of iteration k
        self.how = None
    def cur(self, idx, k):
        if self.closed is not None: return self.closed(idx, k)
        return P(App(self.ph, idx, self.comp == 'int'))

def propagate_eq(p, names):
    """inside a monomial guarded by [x == t] replace x by t"""
    out = ZERO
    for m, c in p.t.items():
        env = {}
        for a, e in m:
            if type(a) is Ind and a.kind == 'eq':
                q = subst(a.p, env) if env else a.p
                for x in names:
                    if x in env or x not in q.fv: continue
                    mx = ((Var(x, True), 1),)
                    cx = q.t.get(mx)
                    if cx is None or abs(cx) != 1: continue
                    t = (q - Poly({mx: cx})).scale(-1 / cx)
                    if x in t.fv: continue
                    env = {k: subst(v, {x: t}) for k, v in env.items()}
                    env[x] = t
                    break
        if env:
            guards = ONE; rest = Poly({(): c})
            for a, e in m:
                if type(a) is Ind: guards = guards * P(a)
                else: rest = rest * pl._pw(P(a), e)
            out = out + guards * subst(rest, env)
        else: out = out + Poly({m: c})
    return out

def coef_of(N, A):
    """coefficient of the atom A in N if N is linear in it"""
    aat = next(iter(A.t))[0][0]
    out = {}
    for m, c in N.t.items():
        for a, e in m:
            if a == aat:
                if e != 1: return None
                out[tuple(z for z in m if z[0] != aat)] = c
    return Poly(out)
class Loop:
    def __init__(self, eng, frame, lo, hi, body, names, what, parallel=False):
        self.e = eng; self.f = frame; self.lo = P(lo); self.hi = P(hi); self.bodyf = body; self.names = names
        self.what = what; self.par = parallel; self.sample = False; self.guess = {}
    def kname(self): return IV(fresh_name('k'))
    def range_hyps(self, k): return [Le(self.lo, k), Lt(k, self.hi)]
    # -- state tables
    def run(self):
        e = self.e
        env0 = dict(self.f.env) if self.f else {}
        live0 = list(e.live); snap0 = [(s, s.elem, s.writes) for s in live0]; nh = len(e.hyps)
        if self.sample and not e.quiet and not e.loopdepth and self.f:
            # a loop in the body: its bounds are only known with the values of the variables at hand. Peel the first
            # iteration and guess from one further (quiet) iteration which scalars keep their value or advance by a constant; the guesses become checked invariants
            if not e.fork(Lt(self.lo, self.hi)): return
            self.bodyf(self.lo); self.lo = self.lo + 1
            if not e.fork(Lt(self.lo, self.hi)): return
            env1 = dict(self.f.env); snap1 = [(s, s.elem, s.writes) for s in e.live]; nh = len(e.hyps); no = len(e.obls)
            e.quiet += 1
            try: self.bodyf(self.lo)
            finally:
                e.quiet -= 1
                env2 = dict(self.f.env)
                self.f.env.clear(); self.f.env.update(env1)
                for s, el, w in snap1: s.elem = el; s.writes = w
                del e.hyps[nh:]; del e.obls[no:]
            for n in self.names:
                a, b = env1.get(n), env2.get(n)
                if all(isinstance(x, (int, float, Fraction, Poly)) and not isinstance(x, bool) for x in (a, b)): self.guess[n] = (P(a), P(b) - P(a))
            return self.run_()
        try: return self.run_()
        except PoisonUse as ex:
            # a variable bound on the first iteration only: peel that iteration off
            if type(self) is not Loop or e.quiet or self.e.loopdepth: raise
            if self.f: self.f.env.clear(); self.f.env.update(env0)
            for s, el, w in snap0: s.elem = el; s.writes = w
            del e.hyps[nh:]
            if not e.fork(Lt(self.lo, self.hi)): return
            self.bodyf(self.lo)
            self.lo = self.lo + 1
            return self.run_()
    def run_(self):
        e = self.e
        lo, hi = self.lo, self.hi
        d = e.decide(Le(hi, lo))
        if d is True: return
        env0 = dict(self.f.env) if self.f else {}
        live0 = list(e.live)
        self.hv0 = set(e.hvnames)
        snap0 = {s: s.elem for s in live0}
        writes0 = {s: s.writes for s in live0}
        states = {}            # key -> list of State components
        ctypes = {}
        arrs_env = {}
        for n in self.names:
            if n in env0: self.add_env(states, n, env0[n], ctypes, arrs_env)
            if n in self.guess and len(states.get(('env', n), ())) == 1:
                st = states['env', n][0]; d = self.guess[n][1]
                st.closed = lambda ix, kk, st=st, d=d: st.init(ix) + (P(kk) - lo) * d
                st.how = 'linear'
                if st.comp == 'int' and not d.is_int: st.comp = 'real'
        stor = []
        k = self.kname()
        self.k = k
        for rnd in range(14):
            try: res = self.one_pass(env0, snap0, live0, states, stor, arrs_env, k, final=False)
            except Unsupported:
                # a pass cannot be completed without knowing where the upstream iterators are: assume one block per
                # iteration (checked like every other invariant)
                its = [s for s in live0 if s.owner == 'iter' and s.writes != writes0[s] and (('st', s) not in states or states['st', s][0].closed is None)]
                if not its: raise
                for s in its:
                    st = State('storage', s, f'iterator{s.id}', (), lambda idx, f=snap0[s]: num(f(idx)), 'int')
                    st.closed = lambda ix, kk, st=st: st.init(ix) + P(kk) - lo; st.how = 'linear'
                    states[('st', s)] = [st]
                for s in live0: s.writes = writes0[s]
                continue
            if res == 'again': continue
            newvals = res
            if not self.solve(states, newvals, k):
                # all solved, or no more progress
                uns = [s for l in states.values() for s in l if s.closed is None]
                if not uns or not e.hints or not self.try_hints(uns, newvals, k): break
        unsolved = [s for l in states.values() for s in l if s.closed is None]
        if unsolved:
            self.havoc(unsolved, states, newvals, k, (env0, snap0, live0, states, stor, arrs_env))
        # checking pass: initiation and consecution of the invariants, recording of events
        nq = e.quiet
        newvals = self.one_pass(env0, snap0, live0, states, stor, arrs_env, k, final=True)
        if newvals == 'again': raise Unsupported('loop state not stable')
        hyps_end = self.endhyps
        for l in states.values():
            for s in l:
                if s.how == 'havoc':
                    if e.quiet: continue
                    idx = tuple(IV(fresh_name('x')) for _ in s.shape)
                    rng = [c for i, n in zip(idx, s.shape) for c in (Le(ZERO, i), Lt(i, n))]
                    e.loop_steps.append(dict(loop=self, state=s, k=k, lo=lo, hi=hi, hyps=list(hyps_end), post=newvals[s], pre=lambda ix, s=s: s.closed(ix, k), init=s.init, shape=s.shape))
                    if s.inv:
                        e.obls.append(Oblig(f'loop invariant {s.name} >= 0 holds initially', list(e.hyps) + rng, Ge(s.init(idx), ZERO)))
                        e.obls.append(Oblig(f'loop invariant {s.name} >= 0 is preserved', list(hyps_end) + rng, Ge(newvals[s](idx), ZERO)))
                    continue
                idx = tuple(IV(fresh_name('x')) for _ in s.shape)
                rng = [c for i, n in zip(idx, s.shape) for c in (Le(ZERO, i), Lt(i, n))]
                init = s.closed(idx, lo) - s.init(idx)
                if init.t and not e.quiet: e.obls.append(Oblig(f'loop invariant of {s.name} holds initially', list(e.hyps) + rng + [Lt(lo, hi)], init, 'zero'))
                nv = newvals[s](idx)
                step = peel(s.closed(idx, k + 1), k) - nv
                if step.t and not e.quiet: e.obls.append(Oblig(f'loop invariant of {s.name} is preserved', list(hyps_end) + rng, step, 'zero'))
                elif not e.quiet: e.obls.append(Oblig(f'loop invariant of {s.name} is preserved', list(hyps_end) + rng, ZERO, 'zero'))
        # exit values
        self.exit(env0, snap0, live0, states, stor, arrs_env, k)
    def add_env(self, states, n, v, ctypes, arrs_env):
        key = ('env', n)
        if isinstance(v, bool) or isinstance(v, Cond):
            states[key] = [State('bool', n, n, (), lambda idx, v=v: ind(lift(v)), 'int')]
        elif isinstance(v, (int, float, Fraction, Poly)):
            c = 'int' if self.e.kindof(v) == 'i' else 'real'
            states[key] = [State('scalar', n, n, (), lambda idx, v=v: P(v), ctypes.get(n, c))]
        elif isinstance(v, (complex, Cx)):
            states[key] = [State('scalar', n, n + '.re', (), lambda idx, v=v: C(v).re, 'real'),
                           State('scalar', n, n + '.im', (), lambda idx, v=v: C(v).im, 'real')]
        elif isinstance(v, NDArr):
            arrs_env[n] = v        # decided after the first pass: rebound or only mutated
        else: pass
    def set_state(self, states, stor, env0, snap0, arrs_env, k, f_env, e):
        """install the values at the start of iteration k"""
        for s, el in snap0.items(): s.elem = el
        for key, l in states.items():
            if key[0] == 'env':
                n = key[1]
                if l[0].kind == 'bool':
                    p = l[0].cur((), k)
                    f_env[n] = cond_of(p)
                elif l[0].kind == 'array':
                    f_env[n] = self.mk_array(l, k)
                elif len(l) == 2: f_env[n] = Cx(l[0].cur((), k), l[1].cur((), k))
                else: f_env[n] = l[0].cur((), k)
            else:
                st = key[1]
                st.elem = self.elem_of(l, k)
    def elem_of(self, l, k):
        if len(l) == 2: return memo(lambda idx: Cx(l[0].cur(idx, k), l[1].cur(idx, k)))
        if l[0].kind == 'barr': return memo(lambda idx: cond_of(l[0].cur(idx, k)))
        return memo(lambda idx: l[0].cur(idx, k))
    def mk_array(self, l, k):
        kind = 'c' if len(l) == 2 else ('i' if l[0].comp == 'int' else 'f')
        return self.e.new(self.elem_of(l, k), l[0].shape, kind)
    def one_pass(self, env0, snap0, live0, states, stor, arrs_env, k, final):
        e = self.e
        fenv = self.f.env if self.f else {}
        if self.f:
            fenv.clear(); fenv.update(env0)
        nlive = len(e.live)
        self.set_state(states, stor, env0, snap0, arrs_env, k, fenv, e)
        e.hyps_saved = None
        nh = len(e.hyps)
        wr0 = {s: s.writes for s in live0}
        e.hyps += self.range_hyps(k)
        if not final: e.quiet += 1
        e.loopdepth += 1
        e.loops.append((k, self.lo, self.hi))
        before = dict(fenv)
        nb0 = e.nobreak; e.nobreak = getattr(self, 'kept', None)
        try:
            for o, n in e.volatile: o.attrs.pop(n, None)
            self.pre_body(k, final)
            self.bodyf(k)
            for o, n in e.volatile: o.attrs.pop(n, None)
        except BreakEx:
            raise Unsupported('break')
        except ReturnEx:
            raise Unsupported('return inside a symbolic loop')
        finally:
            e.nobreak = nb0
            e.loops.pop()
            e.loopdepth -= 1
            if not final: e.quiet -= 1
        self.endhyps = list(e.hyps)
        del e.hyps[nh:]
        again = False
        # storages written in place
        for s in live0:
            if s.writes != wr0[s] and ('st', s) not in states:
                nm = f'array{s.id}'
                for n, v in env0.items():
                    if isinstance(v, NDArr) and v.st is s: nm = n
                init = snap0[s]
                if s.kind == 'c':
                    states[('st', s)] = [State('storage', s, nm + '.re', s.shape, lambda idx, f=init: C(f(idx)).re, 'real'),
                                         State('storage', s, nm + '.im', s.shape, lambda idx, f=init: C(f(idx)).im, 'real')]
                elif s.kind == 'b':
                    states[('st', s)] = [State('barr', s, nm, s.shape, lambda idx, f=init: ind(lift(f(idx))), 'int')]
                else:
                    states[('st', s)] = [State('storage', s, nm, s.shape, lambda idx, f=init: num(f(idx)), 'int' if s.kind == 'i' else 'real')]
                again = True
        # variables rebound to arrays
        if self.f:
            for n, v0 in list(arrs_env.items()):
                v1 = fenv.get(n)
                if v1 is v0: continue
                if ('env', n) in states: continue
                if isinstance(v1, NDArr) and v1.st is v0.st and v1.shape == v0.shape and v1.dims == v0.dims: continue
                sh1 = v1.shape if isinstance(v1, NDArr) else None
                if not isinstance(v1, NDArr) or not self.same_shape(sh1, v0.shape):
                    # may be dead at loop entry: poison it
                    states[('env', n)] = [State('array', n, n, v0.shape, None, 'real')]
                    del states[('env', n)]
                    env0[n] = Poison('array of changing shape carried around a loop')
                    del arrs_env[n]
                    again = True
                    continue
                f0 = v0.snap()
                if v0.kind == 'c' or v1.kind == 'c':
                    states[('env', n)] = [State('array', n, n + '.re', v0.shape, lambda idx, f=f0: C(num(f(idx))).re, 'real'),
                                          State('array', n, n + '.im', v0.shape, lambda idx, f=f0: C(num(f(idx))).im, 'real')]
                else:
                    states[('env', n)] = [State('array', n, n, v0.shape, lambda idx, f=f0: num(f(idx)), 'int' if v0.kind == 'i' and v1.kind == 'i' else 'real')]
                again = True
            # type promotion of scalars
            for key, l in list(states.items()):
                if key[0] != 'env' or l[0].kind != 'scalar': continue
                v = fenv.get(key[1])
                if isinstance(v, (Cx, complex)) and len(l) == 1:
                    f = l[0].init
                    states[key] = [State('scalar', key[1], key[1] + '.re', (), f, 'real'), State('scalar', key[1], key[1] + '.im', (), lambda idx: ZERO, 'real')]
                    again = True
                elif isinstance(v, (Poly, float, Fraction)) and len(l) == 1 and l[0].comp == 'int' and not P(v).is_int:
                    l[0] = State('scalar', key[1], key[1], (), l[0].init, 'real')
                    again = True
        if again: return 'again'
        new = {}
        for key, l in states.items():
            if key[0] == 'env':
                v = fenv.get(key[1])
                if l[0].kind == 'array':
                    if not isinstance(v, NDArr): raise Unsupported('array variable rebound to non-array')
                    g = v.snap()
                    self.put(new, l, g)
                else:
                    if isinstance(v, Poison): raise Unsupported(f'{key[1]}: {v.why}')
                    if isinstance(v, (NDArr, list, tuple, str, SymObj)) or v is None:
                        # rebound to another type: usable only if dead at loop entry
                        env0[key[1]] = Poison('type changes in loop'); del states[key]
                        return 'again'
                    self.put(new, l, lambda idx, v=v: v)
            else:
                el = key[1].elem
                self.put(new, l, el)
        self.lastenv = dict(fenv)
        self.lastlive = [s for s in e.live[nlive:]]
        return new
    def same_shape(self, a, b):
        return len(a) == len(b) and all(x == y or self.e.decide(Eq(x, y)) for x, y in zip(a, b))
    def put(self, new, l, g):
        if len(l) == 2:
            new[l[0]] = lambda idx: C(num(lift(g(idx)))).re
            new[l[1]] = lambda idx: C(num(lift(g(idx)))).im
        else:
            def h(idx):
                x = lift(g(idx))
                if isinstance(x, Cx):
                    raise Unsupported('complex value in real state')
                return num(x)
            new[l[0]] = h
    def pre_body(self, k, final): pass
    # -- inference of closed forms
    def solve(self, states, new, k):
        """returns True if progress was made and unsolved states remain"""
        e = self.e
        lo = self.lo
        allst = [s for l in states.values() for s in l]
        phs = {s.ph: s for s in allst if s.closed is None}
        if not phs: return False
        progress = False
        hv0 = self.hv0
        kn = next(iter(k.fv))
        for s in list(phs.values()):
            idx = tuple(IV(f'x%i{j}') for j in range(len(s.shape)))
            try: N = new[s](idx)
            except Unsupported: continue
            rng = [c for i, n in zip(idx, s.shape) for c in (Le(ZERO, i), Lt(i, n))]
            A = P(App(s.ph, idx, s.comp == 'int'))
            N = propagate_eq(N, [next(iter(v.fv)) for v in idx])
            unit = [j for j, n in enumerate(s.shape) if P(n) == ONE]
            if unit:        # an axis of extent one has the index 0 only
                def back(a, s=s, idx=idx, unit=unit):
                    if type(a) is App and a.f == s.ph and any(not a.args[j].t for j in unit):
                        return P(App(a.f, [idx[j] if j in unit and not x.t else x for j, x in enumerate(a.args)], a.is_int))
                N = map_atoms(N, back)
            if any(type(a) is App and a.f.startswith('hv:') and a.f not in hv0 for a in atoms_of(N)): continue
            co = coef_of(N, A)
            if co is not None and co.t and not co.is_const():
                # overwritten everywhere?
                try: dead = pv.prove_zero(co, list(self.endhyps) + rng, time.time() + 5).status == 'proved'
                except (Unsupported, pv.Budget): dead = False
                if dead: N = N - co * A
            used = {a.f for a in atoms_of(N) if type(a) is App and a.f in phs}
            def sub(p, kk, ix):
                env = {kn: P(kk)}
                for v, w in zip(idx, ix): env[next(iter(v.fv))] = P(w)
                return subst(p, env)
            D = N - A
            dused = {a.f for a in atoms_of(D) if type(a) is App and a.f in phs}
            if N == A:
                s.closed = lambda ix, kk, s=s: s.init(ix); s.how = 'unchanged'
            elif not used:
                if s.shape and self.point_write(s, N, A, idx, k, kn, sub, phs): pass
                else:
                    s.closed = (lambda ix, kk, s=s, N=N, sub=sub: ite(Eq(kk, lo), s.init(ix), sub(N, P(kk) - 1, ix))); s.how = 'last'
            elif not dused:
                if self.point_write(s, N, A, idx, k, kn, sub, phs): pass
                elif kn not in D.fv:
                    s.closed = (lambda ix, kk, s=s, D=D, sub=sub: s.init(ix) + (P(kk) - lo) * sub(D, kk, ix)); s.how = 'linear'
                elif e.hints and self.try_hints([s], new, k): pass
                else:
                    def cf(ix, kk, s=s, D=D, sub=sub):
                        t = Var(fresh_name('b'), True)
                        return s.init(ix) + make_sum([(t, lo, P(kk))], sub(D, P(t), ix))
                    s.closed = cf; s.how = 'sum'
            else:
                if not self.point_write(s, N, A, idx, k, kn, sub, phs): continue
            progress = True
            del phs[s.ph]
        return progress and bool(phs)
    def try_hints(self, unsolved, new, k):
        """closed forms proposed by the contract (loop invariants); checked here and again as obligations"""
        e = self.e; done = False
        for s in unsolved:
            idx = tuple(IV(fresh_name('x')) for _ in s.shape)
            rng = [c for i, n in zip(idx, s.shape) for c in (Le(ZERO, i), Lt(i, n))]
            for h in e.hints:
                try:
                    w = h(idx, self.lo)
                    if w is None: continue
                    if pv.prove_zero(P(w) - s.init(idx), list(e.hyps) + rng + [Lt(self.lo, self.hi)], time.time() + 5).status != 'proved': continue
                    at = lambda a: P(h(a.args, k)) if type(a) is App and a.f == s.ph else None
                    N = map_atoms(new[s](idx), at)
                    if pv.prove_zero(P(h(idx, k + 1)) - N, [map_atoms(c, at) for c in self.endhyps] + rng, time.time() + 10).status != 'proved': continue
                except (Unsupported, pv.Budget): continue
                s.closed = lambda ix, kk, h=h: P(h(ix, P(kk))); s.how = 'hint'; done = True
                break
        return done
    def point_write(self, s, N, A, idx, k, kn, sub, phs):
        """N = A except where idx_a == k + c : the iteration writes its own slot(s)"""
        e = self.e
        lo = self.lo
        for a, x in enumerate(idx):
            xn = next(iter(x.fv))
            eqs = [at for at in atoms_of(N) if type(at) is Ind and at.kind == 'eq' and xn in at.fv and kn in at.fv]
            for at in eqs:
                # solve for k
                m = ((Var(kn, True), 1),)
                c = at.p.t.get(m)
                if c is None or abs(c) != 1: continue
                kx = (at.p - Poly({m: c})).scale(-1 / c)        # k = kx(x)
                if kn in kx.fv or xn not in kx.fv: continue
                N0 = map_atoms(N, lambda q: ZERO if q == at else None)
                if N0 != A: continue
                N1 = map_atoms(N, lambda q: ONE if q == at else None)
                # own slot before the iteration == initial value (each slot is written by one iteration only)
                mx = ((Var(xn, True), 1),)
                cx = at.p.t.get(mx)
                if cx is None or abs(cx) != 1: continue
                xk = (at.p - Poly({mx: cx})).scale(-1 / cx)     # x_a = xk(k)
                bad = []
                def own(q, a=a, xk=xk):
                    if type(q) is App and q.f == s.ph:
                        arg = q.args[a]
                        if arg == xk or arg == x: return s.init(tuple(map_atoms(z, own) for z in q.args))
                        bad.append(q)
                    return None
                N1 = map_atoms(N1, own)
                if bad: continue
                if any(type(q) is App and q.f in phs for q in atoms_of(N1)): continue
                def cf(ix, kk, N1=N1, kx=kx, s=s):
                    env = {next(iter(v.fv)): P(w) for v, w in zip(idx, ix)}
                    kxx = subst(kx, env)
                    val = subst(subst(N1, {kn: kx}), env)
                    return ite(And(Le(lo, kxx), Lt(kxx, P(kk))), val, s.init(ix))
                s.closed = cf; s.how = 'map'
                if self.par: pass
                return True
        # block writes: rows k*m+c0 .. k*m+c0+n  (row index / m gives the iteration)
        return self.block_write(s, N, A, idx, k, kn, sub, phs)
    def block_write(self, s, N, A, idx, k, kn, sub, phs):
        e = self.e
        lo = self.lo
        for a, x in enumerate(idx):
            xn = next(iter(x.fv))
            inds = [at for at in atoms_of(N) if type(at) is Ind and at.kind == 'lt' and xn in at.fv and kn in at.fv]
            if not inds: continue
            for at in inds:
                # x - (k*m + c) : extract m
                m = None
                for mono, c in at.p.t.items():
                    d = dict(mono)
                    if d.get(Var(kn, True)) == 1 and len(d) == 2 and abs(c) == 1:
                        m = [q for q in d if q != Var(kn, True)][0]
                if m is None or kn in m.fv or xn in m.fv: continue
                # coefficient of A
                apart = ZERO; rest = ZERO
                aat = App(s.ph, idx, s.comp == 'int')
                for mono, c in N.t.items():
                    if any(q == aat for q, _ in mono): apart = apart + Poly({tuple(z for z in mono if z[0] != aat): c})
                    else: rest = rest + Poly({mono: c})
                W = ONE - apart
                if any(type(q) is App and q.f in phs for q in atoms_of(rest)): continue
                if any(type(q) is App and q.f in phs for q in atoms_of(W)): continue
                def cf(ix, kk, W=W, rest=rest, m=m, s=s, a=a):
                    t = lo + mkapp('idiv', [P(ix[a]), P(m)], True)
                    w = sub(W, t, ix) * ind(And(Le(lo, t), Lt(t, P(kk))))
                    return sub(rest, t, ix) * ind(And(Le(lo, t), Lt(t, P(kk)))) + (ONE - w) * s.init(ix)
                s.closed = cf; s.how = 'blocks'
                return True
        return False
    def havoc(self, unsolved, states, new, k, ctx):
        """no closed form: keep only invariants of the form  'all elements >= 0' that are inductive"""
        e = self.e
        cand = [s for s in unsolved if s.kind != 'bool']
        added = set()
        while cand:
            for s in cand:
                if s.ph not in pv.NONNEG: pv.NONNEG.add(s.ph); added.add(s.ph)
            new = self.one_pass(*ctx, k, final=False)       # new values under the induction hypothesis
            if new == 'again': raise Unsupported('loop state not stable')
            bad = []
            for s in cand:
                idx = tuple(IV(fresh_name('x')) for _ in s.shape)
                rng = [c for i, n in zip(idx, s.shape) for c in (Le(ZERO, i), Lt(i, n))]
                ok = pv.prove(Ge(s.init(idx), ZERO), list(e.hyps) + rng) and pv.prove(Ge(new[s](idx), ZERO), list(self.endhyps) + rng)
                if not ok: bad.append(s)
            for p in added: pv.NONNEG.discard(p)
            pv._dec_cache.clear()
            added = set()
            if not bad: break
            cand = [s for s in cand if s not in bad]
        outer = tuple(q for q, _, _ in e.loops)
        for s in unsolved:
            f = fresh_name('hv:' + s.name)
            s.hv = f; e.hvnames.add(f)
            if s in cand: pv.NONNEG.add(f)
            def cf(ix, kk, f=f, s=s):
                return P(App(f, tuple(ix) + (P(kk),) + outer, s.comp == 'int'))
            s.closed = cf; s.how = 'havoc'; s.inv = s in cand
    def exit(self, env0, snap0, live0, states, stor, arrs_env, k):
        e = self.e
        lo, hi = self.lo, self.hi
        nonempty = e.decide(Lt(lo, hi))
        kn = next(iter(k.fv))
        fenv = self.f.env if self.f else {}
        lastenv = getattr(self, 'lastenv', {})
        if self.f:
            fenv.clear(); fenv.update(env0)
        # count of iterations may be negative for hi<lo: use max(lo,hi)
        top = hi
        if nonempty is None and e.decide(Le(lo, hi)) is not True: top = ite(Lt(hi, lo), lo, hi)
        self.exit_hyps(k)
        for s, el in snap0.items(): s.elem = el
        for key, l in states.items():
            if key[0] == 'env':
                n = key[1]
                if l[0].kind == 'bool': fenv[n] = cond_of(l[0].cur((), top))
                elif l[0].kind == 'array': fenv[n] = self.mk_array(l, top)
                elif len(l) == 2: fenv[n] = Cx(l[0].cur((), top), l[1].cur((), top))
                else: fenv[n] = l[0].cur((), top)
            else:
                key[1].elem = self.elem_of(l, top)
                key[1].writes += 1
        # variables first bound inside the loop keep the value of the last iteration
        if self.f:
            for n, v in lastenv.items():
                if n in env0 and not isinstance(env0[n], Poison): continue
                if ('env', n) in states: continue
                if nonempty is not True: fenv[n] = Poison('bound in a loop that may not execute'); continue
                fenv[n] = self.last_value(v, kn, hi)
    def exit_hyps(self, k): pass
    def last_value(self, v, kn, hi):
        env = {kn: hi - 1}
        try:
            if isinstance(v, (Poly, Cx, Cond)): return subst(v, env)
            if isinstance(v, NDArr):
                g = v.snap()
                return self.e.new(lambda idx: subst(lift(g(idx)), env), tuple(subst(s, env) for s in v.shape), v.kind, owner=v.st.owner)
            if isinstance(v, tuple): return tuple(self.last_value(x, kn, hi) for x in v)
        except Unsupported: pass
        if isinstance(v, (int, float, str, bool, complex)) or v is None: return v
        if isinstance(v, (FuncVal, SymObj, Builtin)): return v
        return Poison('last loop value')

class WhileLoop(Loop):
    def __init__(self, *a, test=None, **kw):
        super().__init__(*a, **kw)
        self.test = test
    def run(self):
        self.e.hyps.append(Le(ZERO, self.hi))
        super().run()
    def pre_body(self, k, final):
        # executing iteration k implies the loop condition on the state at k
        c = self.e.truth(self.f.eval(self.test))
        self.e.hyps.append(c)
    def exit_hyps(self, k):
        pass
    def exit(self, env0, snap0, live0, states, stor, arrs_env, k):
        super().exit(env0, snap0, live0, states, stor, arrs_env, k)
        e = self.e
        c = e.truth(self.f.eval(self.test))
        e.hyps.append(Not(c))
        # the condition held at the start of the last iteration
        K = self.hi
        save = dict(self.f.env)
        for key, l in states.items():
            if key[0] == 'env':
                n = key[1]
                if l[0].kind == 'bool': self.f.env[n] = cond_of(l[0].cur((), K - 1))
                elif l[0].kind == 'array': self.f.env[n] = self.mk_array(l, K - 1)
                elif len(l) == 2: self.f.env[n] = Cx(l[0].cur((), K - 1), l[1].cur((), K - 1))
                else: self.f.env[n] = l[0].cur((), K - 1)
        try:
            c1 = e.truth(self.f.eval(self.test))
            e.hyps.append(Or(Eq(K, ZERO), c1))
        finally:
            self.f.env.clear(); self.f.env.update(save)

def breaks(body):
    """is there a `break` of the loop with this body?"""
    for b in body:
        if isinstance(b, ast.Break): return True
        if isinstance(b, (ast.For, ast.While)):
            if breaks(b.orelse): return True
            continue
        if isinstance(b, (ast.FunctionDef, ast.ClassDef)): continue
        if any(breaks(x) for x in (getattr(b, 'body', []), getattr(b, 'orelse', []), *[h.body for h in getattr(b, 'handlers', [])])): return True
    return False
def fixed_test(s):
    """`while True`, or a name or an attribute that the body does not assign"""
    if isinstance(s.test, ast.Constant): return bool(s.test.value)
    if not isinstance(s.test, (ast.Name, ast.Attribute)): return False
    nm = s.test.id if isinstance(s.test, ast.Name) else s.test.attr
    for b in s.body:
        for n in ast.walk(b):
            if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, (ast.Store, ast.Del)) and (n.id if isinstance(n, ast.Name) else n.attr) == nm: return False
    return True

class BreakLoop(Loop):
    """a loop that is left by `break`: K completed iterations, in which no break is reached, and one more, in which one is"""
    def __init__(self, *a, test=None, **kw):
        super().__init__(*a, **kw)
        self.test = test
    def run(self):
        self.e.hyps.append(Le(ZERO, self.hi))
        super().run()
    def one_pass(self, *a, **kw):
        e = self.e
        self.kept = []
        return super().one_pass(*a, **kw)
    def exit(self, env0, snap0, live0, states, stor, arrs_env, k):
        super().exit(env0, snap0, live0, states, stor, arrs_env, k)
        e = self.e; K = self.hi; kn = next(iter(k.fv))
        for c in self.kept: e.hyps.append(Or(Eq(K, ZERO), subst(c, {kn: K - 1})))
        try: self.bodyf(K)
        except BreakEx: return
        raise Infeasible()

def cond_of(p):
    """0/1 polynomial -> condition"""
    if p.is_const(): return TRUE if p.const() != 0 else FALSE
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if c == 1 and all(type(a) is Ind for a, e in m):
            return And(*[Cond(a.kind, a.p) for a, e in m])
    q = ONE - p
    if len(q.t) == 1:
        (m, c), = q.t.items()
        if c == 1 and all(type(a) is Ind for a, e in m):
            return Not(And(*[Cond(a.kind, a.p) for a, e in m]))
    return Not(Eq0(p))

def peel(p, k):
    """Sum_{t<k+1} f(t) = Sum_{t<k} f(t) + f(k)   (k >= lower bound inside the loop)"""
    kp = k + 1
    def fn(a):
        if type(a) is Sum:
            for i, (v, lo, hi) in enumerate(a.binders):
                if hi == kp:
                    bs, body = open_sum(a)
                    v, lo, hi = bs[i]
                    others = bs[:i] + bs[i + 1:]
                    one = subst(body, {v.name: k})
                    one = make_sum(others, one) if others else one
                    nb = list(bs); nb[i] = (v, lo, k)
                    return peel(make_sum(nb, body), k) + peel(one, k)
        return None
    return map_atoms(p, fn)

def explore(run, hyps=(), contracts=None, max_paths=64, deadline=None, setup=None):
    """run(engine) on every feasible path; returns list of (engine, result | exception)"""
    todo = [[]]
    out = []
    while todo:
        d = todo.pop()
        e = Engine(hyps, contracts, d, deadline)
        try: r = ('ok', run(e))
        except PyRaise as ex: r = ('raise', ex)
        except Infeasible:
            todo += e.pending; continue
        todo += e.pending
        out.append((e, r))
        if len(out) > max_paths: raise Unsupported('too many paths')
    return out
