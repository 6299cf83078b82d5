"""Canonical terms: (Laurent) polynomials over atoms, with finite sums and 0/1 indicators.

Numbers are mathematical (integers / reals); complex values are pairs (class Cx).
A polynomial is a mapping  monomial -> Fraction ; a monomial is a sorted tuple of
(atom, exponent).  Products of finite sums are kept in prenex form, i.e. a monomial
carries at most one Sum atom, whose (several) binders commute; binders are ordered
canonically.  Conditions enter as idempotent 0/1 indicator atoms, so that
if-then-else becomes ring arithmetic.
"""
from fractions import Fraction
from itertools import permutations, count
import math

class Unsupported(Exception):
    """the construct is outside the verifier's subset"""

_fresh = count()
def fresh_name(p='t'):
    return f'{p}%{next(_fresh)}'

# ---------------------------------------------------------------- atoms
class Atom:
    __slots__ = ('skey', '_h', 'fv', 'maxb', 'is_int')
    def __hash__(self): return self._h
    def __eq__(self, o): return self is o or (isinstance(o, Atom) and self.skey == o.skey)
    def __lt__(self, o): return self.skey < o.skey
    def __repr__(self): return self.skey

class Var(Atom):
    __slots__ = ('name',)
    def __init__(self, name, is_int=False):
        self.name = name; self.is_int = is_int
        self.skey = name; self._h = hash(self.skey)
        self.fv = frozenset((name,))
        self.maxb = int(name[1:]) if name[0] == '$' else 0

class App(Atom):
    __slots__ = ('f', 'args')
    def __init__(self, f, args, is_int=False):
        self.f = f; self.args = tuple(args); self.is_int = is_int
        self.skey = f + '(' + ','.join(a.skey for a in self.args) + ')'
        self._h = hash(self.skey)
        fv = frozenset()
        mb = 0
        for a in self.args:
            fv |= a.fv; mb = max(mb, a.maxb)
        self.fv = fv; self.maxb = mb

class Ind(Atom):
    """0/1 indicator of a basic condition ('lt', p): p<0, ('eq', p): p==0, ('b', name)"""
    __slots__ = ('kind', 'p')
    def __init__(self, kind, p):
        self.kind = kind; self.p = p; self.is_int = True
        if kind == 'b':
            self.skey = '[' + p + ']'; self.fv = frozenset((p,)); self.maxb = 0
        else:
            self.skey = '[' + p.skey + ('<0]' if kind == 'lt' else '==0]')
            self.fv = p.fv; self.maxb = p.maxb
        self._h = hash(self.skey)

class Inv(Atom):
    """reciprocal of a polynomial that is not a monomial"""
    __slots__ = ('p',)
    def __init__(self, p):
        self.p = p; self.is_int = False
        self.skey = 'inv(' + p.skey + ')'; self._h = hash(self.skey)
        self.fv = p.fv; self.maxb = p.maxb

class Sum(Atom):
    """Sum over binders (tuple of (Var, lo, hi)) of a monomial body (coefficient 1)"""
    __slots__ = ('binders', 'body')
    def __init__(self, binders, body):
        self.binders = binders; self.body = body
        bs = ','.join(f'{v.name}:{lo.skey}..{hi.skey}' for v, lo, hi in binders)
        self.skey = 'SUM{' + bs + '}(' + mono_key(body) + ')'
        self._h = hash(self.skey)
        fv = frozenset(); mb = 0
        for a, e in body:
            fv |= a.fv; mb = max(mb, a.maxb)
        names = frozenset(v.name for v, _, _ in binders)
        for v, lo, hi in binders:
            fv |= lo.fv | hi.fv; mb = max(mb, v.maxb, lo.maxb, hi.maxb)
        self.fv = fv - names; self.maxb = mb
        self.is_int = all(a.is_int for a, e in body)

def mono_key(m):
    return '*'.join(a.skey if e == 1 else f'{a.skey}^{e}' for a, e in m)

# ---------------------------------------------------------------- polynomials
class Poly:
    __slots__ = ('t', '_skey', '_fv', '_maxb')
    def __init__(self, t):
        self.t = t; self._skey = None; self._fv = None; self._maxb = None
    @property
    def skey(self):
        if self._skey is None:
            if not self.t: self._skey = '0'
            else:
                self._skey = '+'.join(
                    (f'{c}*{mono_key(m)}' if c != 1 else mono_key(m)) if m else str(c)
                    for m, c in sorted(self.t.items(), key=lambda mc: mono_key(mc[0])))
        return self._skey
    @property
    def fv(self):
        if self._fv is None:
            s = frozenset()
            for m in self.t:
                for a, e in m: s |= a.fv
            self._fv = s
        return self._fv
    @property
    def maxb(self):
        if self._maxb is None:
            self._maxb = max((a.maxb for m in self.t for a, e in m), default=0)
        return self._maxb
    def __hash__(self): return hash(self.skey)
    def __eq__(self, o): return isinstance(o, Poly) and (self is o or self.t == o.t)
    def __repr__(self): return self.skey
    def is_const(self): return not self.t or (len(self.t) == 1 and () in self.t)
    def const(self):
        return self.t.get((), Fraction(0))
    @property
    def is_int(self):
        if all(c.denominator == 1 and all(a.is_int and e >= 0 for a, e in m) for m, c in self.t.items()): return True
        if len(self.t) < 2 or not all(c.denominator <= 2 and all(a.is_int and e >= 0 for a, e in m) for m, c in self.t.items()): return False
        # half-integer coefficients: n^k and n have the same parity
        par = {}
        for m, c in self.t.items():
            if c.denominator == 2:
                k = frozenset(a for a, e in m)
                par[k] = par.get(k, 0) + 1
        return all(v % 2 == 0 for v in par.values())
    def __add__(self, o):
        if type(o) is Cx: return C(self) + o
        o = P(o)
        if not self.t: return o
        if not o.t: return self
        r = dict(self.t)
        for m, c in o.t.items():
            n = r.get(m, 0) + c
            if n: r[m] = n
            else: r.pop(m, None)
        return Poly(r)
    __radd__ = __add__
    def __neg__(self): return Poly({m: -c for m, c in self.t.items()})
    def __sub__(self, o):
        if type(o) is Cx: return C(self) - o
        return self + (-P(o))
    def __rsub__(self, o): return P(o) + (-self)
    def scale(self, k):
        if k == 0: return ZERO
        if k == 1: return self
        return Poly({m: c * k for m, c in self.t.items()})
    def __mul__(self, o):
        if type(o) is Cx: return C(self) * o
        o = P(o)
        if self.is_const(): return o.scale(self.const())
        if o.is_const(): return self.scale(o.const())
        if len(self.t) * len(o.t) > 60000: raise Unsupported('polynomial too large')
        r = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                for m, c in mono_mul(m1, m2):
                    n = r.get(m, 0) + c * c1 * c2
                    if n: r[m] = n
                    else: r.pop(m, None)
        return Poly(r)
    __rmul__ = __mul__
    def __truediv__(self, o):
        if type(o) is Cx: return C(self) / o
        return self * inverse(P(o))
    def __rtruediv__(self, o): return P(o) * inverse(self)
    def pow(self, n):
        if n < 0: return inverse(self).pow(-n)
        r = ONE
        b = self
        while n:
            if n & 1: r = r * b
            b = b * b if n > 1 else b
            n >>= 1
        return r

def P(x):
    if isinstance(x, Poly): return x
    if isinstance(x, bool): return ONE if x else ZERO
    if isinstance(x, int): return Poly({(): Fraction(x)}) if x else ZERO
    if isinstance(x, Fraction): return Poly({(): x}) if x else ZERO
    if isinstance(x, float):
        if math.isnan(x) or math.isinf(x): raise Unsupported(f'non-finite constant {x}')
        return P(Fraction(repr(x)))
    if isinstance(x, Atom): return Poly({((x, 1),): Fraction(1)})
    raise Unsupported(f'cannot convert {type(x).__name__} to a term')
ZERO = Poly({})
ONE = Poly({(): Fraction(1)})

def V(name, is_int=False): return P(Var(name, is_int))
def IV(name): return P(Var(name, True))
def UF(f, args, is_int=False): return P(App(f, [P(a) for a in args], is_int))

_ip = {}
def ind_pair(a, b):
    """0: contradictory, 1: a implies b, 2: b implies a, None: unrelated"""
    k = (a.skey, b.skey)
    if k in _ip: return _ip[k]
    r = None
    if not (a.p.fv & b.p.fv): pass
    else:
        for sg in (1, -1):
            df = a.p - b.p if sg == 1 else a.p + b.p
            if not df.is_const(): continue
            c = df.const()
            both = a.p.is_int and b.p.is_int
            if a.kind == 'lt' and b.kind == 'lt':
                if sg == 1: r = 1 if c >= 0 else 2
                elif c > (-2 if both else 0) or c == 0: r = 0     # a<0, b<0, a+b=c
            elif a.kind == 'eq' and b.kind == 'eq':
                if c != 0: r = 0
                else: r = 1
            else:
                e, l = (a, b) if a.kind == 'eq' else (b, a)
                # e.p == 0 ; l.p = +-(e.p) + const
                v = -c if (sg == 1 and e is a) else c
                if v < 0: r = 1 if e is a else 2
                else: r = 0
            break
    _ip[k] = r
    return r

def mono_mul(m1, m2):
    """product of two monomials, as list of (monomial, coeff)"""
    s1 = [a for a, e in m1 if type(a) is Sum]
    s2 = [a for a, e in m2 if type(a) is Sum]
    if s1 and s2:
        r1 = tuple((a, e) for a, e in m1 if type(a) is not Sum)
        r2 = tuple((a, e) for a, e in m2 if type(a) is not Sum)
        sp = merge_sums(s1 + s2)
        base = ZERO
        for m, c in mono_mul(r1, r2): base = base + Poly({m: c})
        out = {}
        for m, c in base.t.items():
            for m3, c3 in sp.t.items():
                for mm, cc in mono_mul(m, m3):
                    out[mm] = out.get(mm, 0) + cc * c * c3
        return [(m, c) for m, c in out.items() if c]
    d = dict(m1)
    extra = None
    for a, e in m2:
        n = d.get(a, 0) + e
        if n == 0: d.pop(a, None); continue
        if type(a) is Ind: n = 1
        d[a] = n
    # sqrt(x)^2 = x   (x >= 0 is a side condition, collected by the caller's precondition)
    for a in list(d):
        e = d[a]
        if type(a) is App and a.f == 'sqrt' and abs(e) >= 2:
            q, rem = divmod(abs(e), 2)
            d.pop(a)
            if rem: d[a] = 1 if e > 0 else -1
            f = a.args[0].pow(q if e > 0 else -q)
            extra = f if extra is None else extra * f
        elif type(a) is App and a.f == 'sin' and e >= 2:
            # sin^2 = 1 - cos^2
            d.pop(a)
            q, rem = divmod(e, 2)
            if rem: d[a] = 1
            c = P(App('cos', a.args))
            f = (ONE - c * c).pow(q)
            extra = f if extra is None else extra * f
    inds = [a for a in d if type(a) is Ind and a.kind in ('lt', 'eq')]
    if len(inds) >= 2:
        for i, a in enumerate(inds):
            if a not in d: continue
            for b in inds[i + 1:]:
                if b not in d or a not in d: continue
                r = ind_pair(a, b)
                if r == 0: return []
                if r == 1: d.pop(b)
                elif r == 2: d.pop(a)
    m = tuple(sorted(d.items(), key=lambda ae: ae[0].skey))
    if extra is None: return [(m, Fraction(1))]
    r = Poly({m: Fraction(1)}) * extra
    return list(r.t.items())

def open_sum(s):
    """Sum atom -> (fresh binders, body monomial as Poly)"""
    ren = {}
    bs = []
    for v, lo, hi in s.binders:
        n = Var(fresh_name('b'), True)
        ren[v.name] = P(n)
        bs.append((n, lo, hi))
    body = ONE
    for a, e in s.body:
        body = body * subst_atom(a, ren).pow(e)
    return bs, body

def merge_sums(sums):
    bs = []; body = ONE
    for s in sums:
        b, p = open_sum(s)
        bs += b
        # avoid re-merging inside: bodies contain no Sum atoms at top level
        body = body * p
    return make_sum(bs, body)

def sum_components(s):
    """a sum whose body factorises into independent parts is a product of sums"""
    names = {v.name: i for i, (v, _, _) in enumerate(s.binders)}
    par = list(range(len(s.binders)))
    def find(i):
        while par[i] != i: i = par[i]
        return i
    for v, lo, hi in s.binders:
        for n in (lo.fv | hi.fv) & names.keys(): par[find(names[n])] = find(names[v.name])
    for a, e in s.body:
        ns = [names[n] for n in a.fv if n in names]
        for x in ns[1:]: par[find(x)] = find(ns[0])
    roots = sorted({find(i) for i in range(len(par))})
    if len(roots) < 2: return [P(s)]
    bs, body = open_sum(s)
    (m, c), = body.t.items()
    nm = {v.name: i for i, (v, _, _) in enumerate(bs)}
    out = []
    for r in roots:
        b = [x for i, x in enumerate(bs) if find(i) == r]
        bn = {v.name for v, _, _ in b}
        out.append(make_sum(b, Poly({tuple((a, e) for a, e in m if a.fv & bn): Fraction(1)})))
    return out

def inverse(p):
    if p.is_const():
        c = p.const()
        if c == 0: raise Unsupported('division by literal zero')
        return P(1 / c)
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if not any(type(a) in (Sum, Ind) for a, e in m):
            return Poly({tuple((a, -e) for a, e in m): 1 / c})
        # split off invertible part
        free = tuple((a, -e) for a, e in m if type(a) not in (Sum, Ind))
        hard = tuple((a, e) for a, e in m if type(a) in (Sum, Ind))
        if all(type(a) is Sum for a, e in hard):
            comps = []
            for a, e in hard:
                cs = sum_components(a)
                if len(cs) > 1: comps.append((cs, e))
            if comps:
                r = Poly({tuple(sorted(free, key=lambda ae: ae[0].skey)): 1 / c})
                for a, e in hard:
                    for q in sum_components(a): r = r * inverse(q).pow(e)
                return r
            return Poly({tuple(sorted(free + tuple((Inv(P(a)), e) for a, e in hard), key=lambda ae: ae[0].skey)): 1 / c})
    # common monomial factor / leading coefficient
    ms = sorted(p.t.items(), key=lambda mc: mono_key(mc[0]))
    lead = ms[0][1]
    common = None
    for m, c in ms:
        dd = {a: e for a, e in m if type(a) not in (Sum, Ind)}
        if common is None: common = dd
        else: common = {a: min(e, dd[a]) for a, e in common.items() if a in dd and (e > 0) == (dd[a] > 0)} if common else common
    # include negative exponents so that fractions are cleared
    negs = {}
    for m, c in ms:
        for a, e in m:
            if e < 0 and type(a) not in (Sum, Ind): negs[a] = min(negs.get(a, 0), e)
    f = {}
    for a, e in (common or {}).items():
        if e > 0: f[a] = e
    for a, e in negs.items(): f[a] = e
    q = p.scale(1 / lead)
    if f:
        mf = tuple(sorted(((a, -e) for a, e in f.items()), key=lambda ae: ae[0].skey))
        q = q * Poly({mf: Fraction(1)})
    if q.is_const(): iq = P(1 / q.const())
    elif f and len(q.t) == 1: iq = inverse(q)
    else: iq = P(Inv(q))
    r = iq.scale(1 / lead)
    if f: r = r * Poly({mf: Fraction(1)})
    return r

# ---------------------------------------------------------------- conditions
class Cond:
    """boolean formula; op in true,false,lt,eq,b,not,and,or"""
    __slots__ = ('op', 'a', 'skey', 'fv')
    def __init__(self, op, a=()):
        self.op = op; self.a = a
        if op in ('lt', 'eq'):
            self.skey = a.skey + ('<0' if op == 'lt' else '==0'); self.fv = a.fv
        elif op == 'b': self.skey = a; self.fv = frozenset((a,))
        elif op in ('true', 'false'): self.skey = op; self.fv = frozenset()
        else:
            self.skey = op + '(' + ','.join(x.skey for x in a) + ')'
            self.fv = frozenset().union(*[x.fv for x in a])
    def __hash__(self): return hash(self.skey)
    def __eq__(self, o): return isinstance(o, Cond) and self.skey == o.skey
    def __repr__(self): return self.skey
TRUE = Cond('true'); FALSE = Cond('false')

def Not(c):
    if c.op == 'true': return FALSE
    if c.op == 'false': return TRUE
    if c.op == 'not': return c.a[0]
    return Cond('not', (c,))
def And(*cs):
    out = []
    for c in cs:
        if c.op == 'false': return FALSE
        if c.op == 'true': continue
        if c.op == 'and': out.extend(x for x in c.a if x not in out)
        elif c not in out: out.append(c)
    if not out: return TRUE
    if len(out) == 1: return out[0]
    return Cond('and', tuple(out))
def Or(*cs):
    out = []
    for c in cs:
        if c.op == 'true': return TRUE
        if c.op == 'false': continue
        if c.op == 'or': out.extend(x for x in c.a if x not in out)
        elif c not in out: out.append(c)
    if not out: return FALSE
    if len(out) == 1: return out[0]
    return Cond('or', tuple(out))

def _lead0(p):
    (m, c), = p.t.items()
    return c
def _lead(p):
    ms = [m for m in p.t if m]
    m = max(ms, key=mono_key)
    return p.t[m]

def Lt0(p):
    p = P(p)
    if p.is_const(): return TRUE if p.const() < 0 else FALSE
    if p.is_int:
        g = 0
        for m, c in p.t.items():
            if m: g = math.gcd(g, abs(int(c)))
        if g > 1:
            k = p.const()
            # g*q + k < 0  <=> q <= floor((-k-1)/g)  <=> q - floor((-k-1)/g) - 1 < 0
            q = Poly({m: c / g for m, c in p.t.items() if m})
            p = q - P(Fraction(math.floor((-k - 1) / g))) - 1
        if _lead(p) < 0:
            return Not(Cond('lt', -p - 1))   # -p > 0 <=> not(-p <= 0) <=> not(-p-1 < 0)
        return Cond('lt', p)
    l = _lead(p)
    p = p.scale(1 / abs(l))
    if l < 0:
        q = -p
        return Not(Or(Cond('lt', q), Cond('eq', q)))
    return Cond('lt', p)
def Eq0(p):
    p = P(p)
    if p.is_const(): return TRUE if p.const() == 0 else FALSE
    if p.is_int:
        g = 0
        for m, c in p.t.items():
            if m: g = math.gcd(g, abs(int(c)))
        if p.const() % g: return FALSE
        p = p.scale(Fraction(1, g))
        if _lead(p) < 0: p = -p
        return Cond('eq', p)
    return Cond('eq', p.scale(1 / _lead(p)))
def Lt(a, b): return Lt0(P(a) - P(b))
def Le(a, b):
    d = P(a) - P(b)
    if d.is_int: return Lt0(d - 1)
    return Or(Lt0(d), Eq0(d))
def Ge(a, b): return Le(b, a)
def Gt(a, b): return Lt(b, a)
def Eq(a, b): return Eq0(P(a) - P(b))
def BV(name): return Cond('b', name)

def ind(c):
    if c.op == 'true': return ONE
    if c.op == 'false': return ZERO
    if c.op == 'lt': return P(Ind('lt', c.a))
    if c.op == 'eq': return P(Ind('eq', c.a))
    if c.op == 'b': return P(Ind('b', c.a))
    if c.op == 'not': return ONE - ind(c.a[0])
    if c.op == 'and':
        r = ONE
        for x in c.a: r = r * ind(x)
        return r
    r = ONE
    for x in c.a: r = r * (ONE - ind(x))
    return ONE - r

def ite(c, a, b):
    if c.op == 'true': return a
    if c.op == 'false': return b
    if isinstance(a, Cx) or isinstance(b, Cx):
        a = C(a); b = C(b)
        return Cx(ite(c, a.re, b.re), ite(c, a.im, b.im))
    if isinstance(a, Cond) or isinstance(b, Cond):
        return Or(And(c, a), And(Not(c), b))
    a = P(a); b = P(b)
    if a == b: return a
    if c.op == 'eq':
        # use the equation inside the then-branch when it defines a variable
        sv = solve_var(c.a)
        if sv is not None:
            a2 = subst(a, {sv[0]: sv[1]}); b2 = subst(b, {sv[0]: sv[1]})
            if a2 == b2: return b
    return b + ind(c) * (a - b)

def solve_var(p, avoid=()):
    """p == 0  ->  (name, poly) for a variable occurring linearly with coeff +-1"""
    best = None
    for m, c in p.t.items():
        if len(m) == 1 and m[0][1] == 1 and type(m[0][0]) is Var and (abs(c) == 1 or not m[0][0].is_int):
            v = m[0][0]
            rest = (p - Poly({m: c})).scale(-1 / c)
            if v.name in rest.fv or v.name in avoid: continue
            if v.is_int and not rest.is_int: continue
            k = v.name
            if best is None or k > best[0]: best = (k, rest)
    return best

# ---------------------------------------------------------------- substitution
def subst(p, env):
    """substitute variables (name -> Poly) in a Poly / Cx / Cond"""
    if isinstance(p, Cx): return Cx(subst(p.re, env), subst(p.im, env))
    if isinstance(p, Cond): return subst_cond(p, env)
    if not (p.fv & env.keys()): return p
    r = ZERO
    for m, c in p.t.items():
        q = P(c)
        keep = []
        for a, e in m:
            if a.fv & env.keys():
                q = q * _pw(subst_atom(a, env), e)
            else: keep.append((a, e))
        if keep: q = Poly({tuple(keep): Fraction(1)}) * q
        r = r + q
    return r
def _pw(p, e):
    return p.pow(e) if e >= 0 else inverse(p).pow(-e)

def subst_atom(a, env):
    if not (a.fv & env.keys()): return P(a)
    t = type(a)
    if t is Var: return env.get(a.name, None) if a.name in env else P(a)
    if t is App: return mkapp(a.f, [subst(x, env) for x in a.args], a.is_int)
    if t is Inv: return inverse(subst(a.p, env))
    if t is Ind:
        if a.kind == 'b':
            v = env[a.p]
            return ind(v) if isinstance(v, Cond) else v
        q = subst(a.p, env)
        return ind(Lt0(q) if a.kind == 'lt' else Eq0(q))
    if t is Sum:
        bs, body = open_sum(a)
        bs = [(v, subst(lo, env), subst(hi, env)) for v, lo, hi in bs]
        return make_sum(bs, subst(body, env))
    raise AssertionError

def subst_cond(c, env):
    if not (c.fv & env.keys()): return c
    if c.op == 'lt': return Lt0(subst(c.a, env))
    if c.op == 'eq': return Eq0(subst(c.a, env))
    if c.op == 'b':
        v = env[c.a]
        return v
    xs = [subst_cond(x, env) for x in c.a]
    return Not(xs[0]) if c.op == 'not' else (And(*xs) if c.op == 'and' else Or(*xs))

def map_atoms(p, fn):
    """rebuild p bottom-up; fn(atom) -> Poly or None (None: rebuild children)"""
    if isinstance(p, Cx): return Cx(map_atoms(p.re, fn), map_atoms(p.im, fn))
    if isinstance(p, Cond):
        if p.op == 'lt': return Lt0(map_atoms(p.a, fn))
        if p.op == 'eq': return Eq0(map_atoms(p.a, fn))
        if p.op == 'b':
            r = fn(Ind('b', p.a))
            if r is None: return p
            if r == ONE: return TRUE
            if r == ZERO: return FALSE
            return p
        if p.op in ('true', 'false'): return p
        xs = [map_atoms(x, fn) for x in p.a]
        return Not(xs[0]) if p.op == 'not' else (And(*xs) if p.op == 'and' else Or(*xs))
    r = ZERO
    for m, c in p.t.items():
        q = P(c)
        for a, e in m: q = q * _pw(map_atom(a, fn), e)
        r = r + q
    return r
def map_atom(a, fn):
    r = fn(a)
    if r is not None: return r
    t = type(a)
    if t is Var: return P(a)
    if t is App: return mkapp(a.f, [map_atoms(x, fn) for x in a.args], a.is_int)
    if t is Inv: return inverse(map_atoms(a.p, fn))
    if t is Ind:
        if a.kind == 'b': return P(a)
        q = map_atoms(a.p, fn)
        return ind(Lt0(q) if a.kind == 'lt' else Eq0(q))
    bs, body = open_sum(a)
    bs = [(v, map_atoms(lo, fn), map_atoms(hi, fn)) for v, lo, hi in bs]
    return make_sum(bs, map_atoms(body, fn))

OPAQUE = {}        # function name -> number of leading arguments that identify the call (the rest are indices of its result)
def opaque_calls(p, out=None):
    """outermost applications of opaque library/callee functions in a term: set of their argument tuples"""
    if out is None: out = set()
    if isinstance(p, Cx): opaque_calls(p.re, out); opaque_calls(p.im, out); return out
    if isinstance(p, Cond):
        if p.op in ('lt', 'eq'): opaque_calls(p.a, out)
        elif p.op in ('not', 'and', 'or'):
            for x in p.a: opaque_calls(x, out)
        return out
    for m in p.t:
        for a, e in m: _oc(a, out)
    return out
def _oc(a, out):
    if type(a) is App:
        if a.f in OPAQUE: out.add(tuple(x.skey for x in a.args[:OPAQUE[a.f]]))
        else:
            for x in a.args: opaque_calls(x, out)
    elif type(a) is Inv: opaque_calls(a.p, out)
    elif type(a) is Ind and a.kind != 'b': opaque_calls(a.p, out)
    elif type(a) is Sum:
        for v, lo, hi in a.binders: opaque_calls(lo, out); opaque_calls(hi, out)
        for b, e2 in a.body: _oc(b, out)
def atoms_of(p, deep=True, out=None):
    if out is None: out = {}
    if isinstance(p, Cx):
        atoms_of(p.re, deep, out); atoms_of(p.im, deep, out); return out
    if isinstance(p, Cond):
        if p.op in ('lt', 'eq'): atoms_of(p.a, deep, out)
        elif p.op in ('not', 'and', 'or'):
            for x in p.a: atoms_of(x, deep, out)
        elif p.op == 'b': out[Ind('b', p.a)] = 1
        return out
    for m in p.t:
        for a, e in m:
            if a in out: continue
            out[a] = 1
            if deep:
                if type(a) is App:
                    for x in a.args: atoms_of(x, deep, out)
                elif type(a) is Inv: atoms_of(a.p, deep, out)
                elif type(a) is Ind and a.kind != 'b': atoms_of(a.p, deep, out)
                elif type(a) is Sum:
                    for v, lo, hi in a.binders:
                        atoms_of(lo, deep, out); atoms_of(hi, deep, out)
                    for b, e2 in a.body:
                        atoms_of(P(b), deep, out)
    return out

# ---------------------------------------------------------------- applications with simplification
REWRITE = {}       # function name -> rule(args) -> Poly or None (laws of an assumed library contract)
def mkapp(f, args, is_int=False):
    args = [P(a) for a in args]
    if f in REWRITE:
        r = REWRITE[f](args)
        if r is not None: return r
    if all(a.is_const() for a in args):
        cs = [a.const() for a in args]
        if f == 'floor': return P(Fraction(math.floor(cs[0])))
        if f == 'trunc': return P(Fraction(math.trunc(cs[0])))
        if f == 'idiv' and cs[1] != 0: return P(Fraction(math.floor(cs[0] / cs[1])))
        if f == 'mod' and cs[1] != 0: return P(cs[0] - cs[1] * math.floor(cs[0] / cs[1]))
        if f in ('cos', 'exp') and cs[0] == 0: return ONE
        if f == 'sin' and cs[0] == 0: return ZERO
        if f == 'abs': return P(abs(cs[0]))
        if f == 'sqrt' and cs[0] >= 0:
            n, d = math.isqrt(cs[0].numerator), math.isqrt(cs[0].denominator)
            if n * n == cs[0].numerator and d * d == cs[0].denominator: return P(Fraction(n, d))
    if f in ('cos', 'sin') and 1 < len(args[0].t) <= 4:
        ts = sorted(args[0].t.items(), key=lambda mc: mono_key(mc[0]))
        re, im = ONE, ZERO
        for m, c in ts:
            q = Poly({m: c})
            cr, ci = mkapp('cos', [q]), mkapp('sin', [q])
            re, im = re * cr - im * ci, re * ci + im * cr
        return re if f == 'cos' else im
    if f == 'exp' and 1 < len(args[0].t) <= 4:
        r = ONE
        for m, c in args[0].t.items(): r = r * mkapp('exp', [Poly({m: c})])
        return r
    if f == 'exp' and len(args[0].t) == 1 and _lead0(args[0]) < 0:
        return inverse(mkapp('exp', [-args[0]]))
    if f in ('cos', 'sin', 'abs', 'tanh_', 'sign_'):
        a = args[0]
        if not a.is_const() and _lead(a) < 0 or (a.is_const() and a.const() < 0):
            if f == 'sin': return -P(App(f, [-a]))
            return P(App(f, [-a]))
    if f == 'sqrt':
        # pull out numeric square factors and reciprocals of single atoms
        a = args[0]
        if len(a.t) == 1:
            (m, c), = a.t.items()
            if all(e % 2 == 0 and type(x) is App and x.f == 'sqrt' for x, e in m): pass
    if f in ('floor', 'trunc'):
        a = args[0]
        if a.is_int: return a
        if f == 'floor':
            ip = Poly({m: c for m, c in a.t.items() if c.denominator == 1 and all(x.is_int and e >= 0 for x, e in m)})
            if ip.t and ip != a:
                return ip + P(App('floor', [a - ip], True))
        return P(App(f, args, True))
    if f in ('idiv', 'mod') and len(args[1].t) == 1:
        a, b = args
        (bm, bc), = b.t.items()
        if bm and bc >= 1 and bc.denominator == 1 and all(ex >= 1 and type(x) is Var and x.is_int for x, ex in bm):
            q = ZERO; r = ZERO
            for m, c in a.t.items():
                d = dict(m)
                if (c / bc).denominator == 1 and all(x.is_int for x in d) and all(d.get(x, 0) >= ex for x, ex in bm):
                    for x, ex in bm:
                        d[x] -= ex
                        if not d[x]: del d[x]
                    q = q + Poly({tuple(sorted(d.items(), key=lambda ae: ae[0].skey)): c / bc})
                else: r = r + Poly({m: c})
            if q.t:
                return mkapp('mod', [r, b], is_int) if f == 'mod' else q + mkapp('idiv', [r, b], is_int)
            if not a.t: return ZERO
            if f == 'mod' and len(a.t) == 1:            # (x mod b*c) mod b = x mod b
                (am, ac), = a.t.items()
                if ac == 1 and len(am) == 1 and am[0][1] == 1 and type(am[0][0]) is App and am[0][0].f == 'mod':
                    ib = am[0][0].args[1]
                    if len(ib.t) == 1:
                        (im, ic), = ib.t.items(); dd = dict(im)
                        if (ic / bc).denominator == 1 and all(x.is_int and k >= 1 for x, k in im) and all(dd.get(x, 0) >= ex for x, ex in bm): return mkapp('mod', [am[0][0].args[0], b], is_int)
    if f == 'mod':
        a, b = args
        if b.is_const() and a.is_int and b.const() == 1: return ZERO
    if f == 'idiv':
        a, b = args
        if b.is_const() and b.const() == 1: return mkapp('floor', [a])
    return P(App(f, args, is_int))

def sqrt(p): return mkapp('sqrt', [P(p)])

# ---------------------------------------------------------------- sums
ORDER_SPLIT = [False]    # split pairs of same-range binders into <,==,> (set by the prover)

def make_sum(binders, body):
    """Sum over binders [(Var, lo, hi)] (rectangular or dependent on earlier binders) of Poly body."""
    bs = list(binders)
    body = P(body)
    # dependent bounds -> indicators
    names = {v.name for v, _, _ in bs}
    changed = True
    guard = 0
    while changed:
        changed = False
        guard += 1
        if guard > 20: raise Unsupported('cyclic sum bounds')
        for k, (v, lo, hi) in enumerate(bs):
            dep = (lo.fv | hi.fv) & names
            if dep:
                nlo, nhi, cnd = widen(v, lo, hi, bs)
                body = body * ind(cnd)
                bs[k] = (v, nlo, nhi)
                changed = True
                break
    r = ZERO
    for m, c in body.t.items():
        r = r + _sum_mono(bs, m).scale(c)
    return r

def widen(v, lo, hi, bs):
    """replace bounds depending on other binders by the extreme of that binder's range"""
    by = {w.name: (l, h) for w, l, h in bs if w.name != v.name}
    def ext(b, upper):
        for n in list(b.fv & by.keys()):
            # b must be affine in n with coefficient +-1
            m = ((Var(n, True), 1),)
            c = b.t.get(m)
            rest = b - Poly({m: c}) if c is not None else None
            if c is None or n in rest.fv or c != 1: raise Unsupported('sum bound not affine')
            l, h = by[n]
            # n ranges over l..h-1 ; widen so that it contains all values for hi; note the indicator keeps exactness
            b = rest + ((h - 1) if upper else l)
        return b
    conds = []
    nlo, nhi = lo, hi
    if lo.fv & by.keys():
        nlo = ext(lo, False); conds.append(Le(lo, P(v)))
    if hi.fv & by.keys():
        # use the same range as the partner where hi == partner (+0/1): widen to partner's hi
        nhi = ext(hi, True)
        conds.append(Lt(P(v), hi))
        # prefer exactly the partner's upper bound (adds only indices excluded by the indicator)
        for n in hi.fv & by.keys():
            l, h = by[n]
            d = h - nhi
            if d.is_const() and d.const() >= 0: nhi = h
    return nlo, nhi, And(*conds)

def _sum_mono(bs, m):
    """sum of one monomial"""
    # flatten inner Sum atoms that depend on binders (prenex)
    names = {v.name for v, _, _ in bs}
    for a, e in m:
        if type(a) is Sum:
            if not (a.fv & names):
                rest = tuple((x, y) for x, y in m if x is not a)
                return _sum_mono(bs, rest) * P(a).pow(e)
            ib, ibody = open_sum(a)
            rest = tuple((x, y) for x, y in m if x is not a)
            if e != 1: raise Unsupported('power of sum')
            return make_sum(bs + ib, Poly({rest: Fraction(1)}) * ibody)
    # eq-indicators that fix a binder
    for a, e in m:
        if type(a) is Ind and a.kind == 'eq' and (a.fv & names):
            for v, lo, hi in bs:
                if v.name in a.p.fv:
                    mm = ((v, 1),)
                    c = a.p.t.get(mm)
                    if c is None or abs(c) != 1: continue
                    rest = (a.p - Poly({mm: c})).scale(-1 / c)
                    if v.name in rest.fv or not rest.is_int: continue
                    nb = [(w, subst(l, {v.name: rest}), subst(h, {v.name: rest})) for w, l, h in bs if w is not v]
                    body = ONE
                    for x, y in m:
                        if x is a: continue
                        body = body * _pw(subst_atom(x, {v.name: rest}), y)
                    body = body * ind(And(Le(lo, rest), Lt(rest, hi)))
                    return make_sum(nb, body) if nb else body
    # lt-indicators on a single binder with unit coefficient and bounds free of binders: when they are
    # decidable relative to the range (constant difference) simplify or tighten
    for a, e in m:
        if type(a) is Ind and a.kind == 'lt' and len(a.fv & names) == 1:
            nm = next(iter(a.fv & names))
            for k, (v, lo, hi) in enumerate(bs):
                if v.name != nm: continue
                c = a.p.t.get(((v, 1),))
                if c is None or abs(c) != 1: break
                rest = a.p - Poly({((v, 1),): c})
                if nm in rest.fv: break
                if not rest.is_int: break
                mm = tuple((x, y) for x, y in m if x is not a)
                if c == 1:
                    # v < -rest
                    ub = -rest
                    d = hi - ub
                    if d.is_const():
                        if d.const() <= 0: return _sum_mono(bs, mm)
                        nb = list(bs); nb[k] = (v, lo, ub); return _sum_mono(nb, mm)
                    d = ub - lo
                    if d.is_const() and d.const() <= 0: return ZERO
                break
    used = set()
    for a, e in m: used |= a.fv
    free = [(a, e) for a, e in m if not (a.fv & names)]
    bound = [(a, e) for a, e in m if a.fv & names]
    factor = Poly({tuple(free): Fraction(1)})
    nb = []
    for v, lo, hi in bs:
        if v.name not in used:
            d = hi - lo
            if d.is_const(): factor = factor * P(max(d.const(), 0))
            else: factor = factor * count_range(lo, hi)
        else: nb.append((v, lo, hi))
    if not nb: return factor
    for v, lo, hi in nb:
        d = hi - lo
        if d.is_const() and d.const() <= 4:
            # unroll short constant ranges
            n = int(d.const())
            others = [b for b in nb if b[0] is not v]
            tot = ZERO
            for j in range(max(n, 0)):
                env = {v.name: lo + j}
                body = ONE
                for a, e in bound: body = body * _pw(subst_atom(a, env), e)
                tot = tot + (make_sum([(w, l, h) for w, l, h in others], body) if others else body)
            return factor * tot
    # independent factors split?  (Sum_i f(i) * Sum_j g(j) stays prenex: unique form)
    if ORDER_SPLIT[0] and len(nb) >= 2:
        for i in range(len(nb)):
            for j in range(i + 1, len(nb)):
                if nb[i][1] != nb[j][1] or nb[i][2] != nb[j][2]: continue
                x, y = nb[i][0], nb[j][0]
                d = P(x) - P(y)
                rel = [a for a, e in bound if type(a) is Ind and x.name in a.fv and y.name in a.fv]
                if not rel and len(nb) > 2: continue
                if len(rel) == 1 and rel[0].kind == 'lt' and rel[0].p in (d, -d): continue
                if rel and not any((a.p - d).is_const() or (a.p + d).is_const() for a in rel): continue
                return factor * _order_split([nb[i], nb[j]], bound, [b for k, b in enumerate(nb) if k not in (i, j)])
    return factor * canon_sum(nb, bound)

def count_range(lo, hi):
    d = hi - lo
    # number of elements of an empty-or-not range; sizes are non-negative by convention (lo<=hi is a
    # standing precondition of every range used in the contracts)
    return d

def _order_split(nb, bound, others=()):
    others = list(others)
    (x, lo, hi), (y, _, _) = nb
    body = ONE
    for a, e in bound: body = body * Poly({((a, e),): Fraction(1)})
    bd = subst(body, {y.name: P(x)})
    r = make_sum([(x, lo, hi)] + others, bd)
    for (u, w) in ((x, y), (y, x)):
        # under the assumption u < w
        def fn(a, u=u, w=w):
            if type(a) is Ind and a.kind in ('lt', 'eq'):
                for s in (1, -1):
                    k = a.p - (P(u) - P(w)).scale(s)
                    if k.is_const():
                        k = k.const()
                        if s == 1:
                            if k <= 0: return ONE if a.kind == 'lt' else ZERO
                        else:
                            if a.kind == 'lt' and 1 + k >= 0: return ZERO
                            if a.kind == 'eq' and 1 + k > 0: return ZERO
            return None
        b2 = map_atoms(body, fn)
        n1, n2 = sorted((fresh_name('b'), fresh_name('b')))
        t1, t2 = Var(n1, True), Var(n2, True)
        b2 = subst(b2, {u.name: P(t2), w.name: P(t1)})
        tag = Ind('lt', P(t2) - P(t1))          # t2 < t1, the canonical (atomic) orientation
        r = r + make_sum([(t1, lo, hi), (t2, lo, hi)] + others, b2 * P(tag))
    return r

def canon_sum(nb, bound):
    """canonical naming / ordering of commuting binders; returns a Poly"""
    base = 0
    for a, e in bound: base = max(base, a.maxb)
    for v, lo, hi in nb: base = max(base, lo.maxb, hi.maxb)
    n = len(nb)
    if n > 5: raise Unsupported('too many nested sums')
    best = None; multi = None
    newv = [Var(f'${base + 1 + i}', True) for i in range(n)]
    for perm in permutations(range(n)):
        ren = {}
        bl = [None] * n
        for i, k in enumerate(perm):
            v, lo, hi = nb[k]
            ren[v.name] = P(newv[i])
            bl[i] = (newv[i], lo, hi)
        body = ONE
        for a, e in bound: body = body * _pw(subst_atom(a, ren), e)
        if len(body.t) != 1 or next(iter(body.t.values())) != 1:
            if multi is None: multi = (bl, body)
            continue
        (mm, _), = body.t.items()
        bkey = ';'.join(lo.skey + '..' + hi.skey for _, lo, hi in bl) + '|' + mono_key(mm)
        if best is None or bkey < best[0]: best = (bkey, tuple(bl), mm)
    if best is not None: return P(Sum(best[1], best[2]))
    bl, body = multi
    r = ZERO
    for m, c in body.t.items():
        r = r + P(Sum(tuple(bl), m)).scale(c)
    return r

# ---------------------------------------------------------------- complex
class Cx:
    __slots__ = ('re', 'im')
    def __init__(self, re, im): self.re = P(re); self.im = P(im)
    def __add__(self, o): o = C(o); return Cx(self.re + o.re, self.im + o.im)
    __radd__ = __add__
    def __neg__(self): return Cx(-self.re, -self.im)
    def __sub__(self, o): o = C(o); return Cx(self.re - o.re, self.im - o.im)
    def __rsub__(self, o): return C(o) - self
    def __mul__(self, o):
        if isinstance(o, Poly): return Cx(self.re * o, self.im * o)
        o = C(o)
        return Cx(self.re * o.re - self.im * o.im, self.re * o.im + self.im * o.re)
    __rmul__ = __mul__
    def conj(self): return Cx(self.re, -self.im)
    def abs2(self): return self.re * self.re + self.im * self.im
    def inv(self):
        if not self.im.t: return Cx(inverse(self.re), ZERO)
        if not self.re.t: return Cx(ZERO, -inverse(self.im))
        n = inverse(self.abs2())
        return Cx(self.re * n, -self.im * n)
    def __truediv__(self, o):
        if isinstance(o, Poly): return Cx(self.re * inverse(o), self.im * inverse(o))
        return self * C(o).inv()
    def __rtruediv__(self, o): return C(o) * self.inv()
    def __eq__(self, o): return isinstance(o, Cx) and self.re == o.re and self.im == o.im
    def __hash__(self): return hash((self.re, self.im))
    def __repr__(self): return f'({self.re.skey} + i*({self.im.skey}))'
    @property
    def fv(self): return self.re.fv | self.im.fv
def C(x):
    if isinstance(x, Cx): return x
    if isinstance(x, complex): return Cx(P(x.real), P(x.imag))
    return Cx(P(x), ZERO)
