"""Discharging obligations: ring normalisation + case analysis + z3, with a numeric evaluator
used (a) to cross-check every discharged equality on random instances (engine soundness guard) and
(b) to turn an undischarged equality into a concrete counter-model."""
from fractions import Fraction
import math, time, random, hashlib
import z3
from . import poly as pl
from .poly import *
from .poly import P, C

STATS = {'z3_calls': 0, 'z3_time': 0.0, 'ring': 0, 'unknown': 0, 'cvc5': 0}
Z3_TIMEOUT = 4000

class Ctx:
    """translation to z3"""
    def __init__(self, linear=False):
        self.linear = linear; self.nonlinear = False
        self.cache = {}
        self.axioms = []
        self.fns = {}
    def var(self, name, is_int):
        return z3.Int(name) if is_int else z3.Real(name)
    def poly(self, p, want=None):
        """z3 arithmetic term; Int sort when p is integer-valued, else Real"""
        r = None
        isint = p.is_int
        for m, c in p.t.items():
            t = None
            if sum(abs(e) for _, e in m) > 1 or any(e < 0 for _, e in m):
                self.nonlinear = True
                if self.linear:          # every non-linear monomial as an opaque number (sound for unsat)
                    k = ('mono', m)
                    if k not in self.cache:
                        mi = all(a.is_int and e > 0 for a, e in m)
                        self.cache[k] = z3.FreshInt('m') if mi else z3.FreshReal('m')
                        if all(e % 2 == 0 for _, e in m): self.axioms.append(self.cache[k] >= 0)
                    x = self.cache[k]
                    if not isint and x.sort() == z3.IntSort(): x = z3.ToReal(x)
                    cc = (z3.IntVal(int(c)) if isint else z3.RealVal(str(c)))
                    t = cc * x
                    r = t if r is None else r + t
                    continue
            for a, e in m:
                x = self.atom(a)
                if not isint and x.sort() == z3.IntSort(): x = z3.ToReal(x)
                if e < 0:
                    x = self.recip(a, x)
                    e = -e
                for _ in range(e): t = x if t is None else t * x
            cc = (z3.IntVal(int(c)) if isint else z3.RealVal(str(c)))
            t = cc if t is None else (t if c == 1 else cc * t)
            r = t if r is None else r + t
        if r is None: r = z3.IntVal(0) if isint else z3.RealVal(0)
        return r
    def real(self, p):
        x = self.poly(p)
        return z3.ToReal(x) if x.sort() == z3.IntSort() else x
    def recip(self, a, x):
        k = ('recip', a.skey)
        if k not in self.cache:
            v = z3.FreshReal('r')
            self.cache[k] = v
            xr = z3.ToReal(x) if x.sort() == z3.IntSort() else x
            self.axioms.append(z3.Implies(xr != 0, xr * v == 1))
        return self.cache[k]
    def atom(self, a):
        k = a.skey
        if k in self.cache: return self.cache[k]
        t = type(a)
        if t is Var:
            r = self.var(a.name, a.is_int)
        elif t is Ind:
            r = z3.If(self.basic(a.kind, a.p), z3.IntVal(1), z3.IntVal(0))
        elif t is Inv:
            r = z3.FreshReal('inv')
            self.cache[k] = r
            q = self.real(a.p)
            self.axioms.append(z3.Implies(q != 0, q * r == 1))
        elif t is Sum:
            r = z3.FreshInt('sum') if a.is_int else z3.FreshReal('sum')
            self.cache[k] = r
            s = sum_sign(a)
            if s: self.axioms.append(r >= 0)
        elif t is App:
            r = self.app(a)
        else: raise AssertionError(t)
        self.cache[k] = r
        return r
    def app(self, a):
        f = a.f
        if f == 'floor':
            return z3.ToInt(self.real(a.args[0]))
        if f == 'trunc':
            x = self.real(a.args[0])
            return z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))
        if f == 'idiv' and all(x.is_int for x in a.args):
            return self.poly(a.args[0]) / self.poly(a.args[1])
        if f == 'mod' and all(x.is_int for x in a.args):
            return self.poly(a.args[0]) % self.poly(a.args[1])
        if f == 'abs':
            x = self.real(a.args[0])
            return z3.If(x >= 0, x, -x)
        args = [self.poly(x) for x in a.args]
        args = [z3.ToReal(x) if False else x for x in args]
        key = (f, tuple(str(x.sort()) for x in args), a.is_int)
        if key not in self.fns:
            self.fns[key] = z3.Function(f'{f}_{len(self.fns)}', *[x.sort() for x in args], z3.IntSort() if a.is_int else z3.RealSort()) if args else None
        fn = self.fns[key]
        r = fn(*args) if args else (z3.Int(f) if a.is_int else z3.Real(f))
        if f == 'sqrt':
            x = self.real(a.args[0])
            self.axioms.append(z3.Implies(x >= 0, z3.And(r >= 0, r * r == x)))
        elif f in ('cos', 'sin'):
            self.axioms.append(z3.And(r <= 1, r >= -1))
        elif f == 'exp': self.axioms.append(r > 0)
        elif f in NONNEG: self.axioms.append(r >= 0)
        elif f in POSITIVE: self.axioms.append(r > 0)
        return r
    def basic(self, kind, p):
        if kind == 'b': return z3.Bool(p)
        x = self.poly(p)
        return (x < 0) if kind == 'lt' else (x == 0)
    def cond(self, c):
        if c.op == 'true': return z3.BoolVal(True)
        if c.op == 'false': return z3.BoolVal(False)
        if c.op in ('lt', 'eq', 'b'): return self.basic(c.op, c.a)
        xs = [self.cond(x) for x in c.a]
        return z3.Not(xs[0]) if c.op == 'not' else (z3.And(*xs) if c.op == 'and' else z3.Or(*xs))

FACTS = {}           # uninterpreted function -> (args -> list of Cond) : preconditions that hold for every index
INT_RANGE = {}       # integer function -> (lo, hi): lo <= f(..) < hi for every index
def int_range(name, lo, hi):
    INT_RANGE[name] = (lo, hi)
    FACTS[name] = lambda a: [Le(lo, UF(name, a, True)), Lt(UF(name, a, True), hi)]
NONNEG = set()       # uninterpreted functions known to be >= 0 everywhere
POSITIVE = set()     # ... > 0 everywhere

def nonneg_atom(a):
    if type(a) is App and (a.f in NONNEG or a.f in POSITIVE or a.f in ('sqrt', 'exp', 'abs')): return True
    if type(a) is Ind: return True
    if type(a) is Sum: return sum_sign(a)
    return False
def sum_sign(s):
    return all(e % 2 == 0 or nonneg_atom(a) for a, e in s.body)

_busy = set()
def facts_of(conds, depth=3):
    out = []; seen = set()
    todo = [(c, 0) for c in conds]
    while todo:
        c, d = todo.pop()
        if d >= depth: continue
        for a in cond_atoms(c):
            if type(a) is App and a.f in FACTS and a.skey not in seen and a.skey not in _busy:
                seen.add(a.skey)
                _busy.add(a.skey)        # building the fact may ask the prover again
                try: fs = FACTS[a.f](a.args)
                finally: _busy.discard(a.skey)
                out += fs; todo += [(f, d + 1) for f in fs]
    return out
def cond_atoms(c):
    if c.op in ('lt', 'eq'): return atoms_of(c.a)
    if c.op in ('and', 'or', 'not'):
        r = []
        for x in c.a: r += list(cond_atoms(x))
        return r
    return ()

def z3_check(conds, extra=None, timeout=None):
    """satisfiability of the conjunction of Cond's"""
    t0 = time.time()
    if FACTS: conds = list(conds) + facts_of(conds)
    if extra is None:
        ctx = Ctx(linear=True)
        fs = [ctx.cond(c) for c in conds]
        if ctx.nonlinear:
            s = z3.Solver(); s.set('timeout', min(1500, timeout or Z3_TIMEOUT))
            for f in fs + ctx.axioms: s.add(f)
            r = s.check()
            STATS['z3_calls'] += 1; STATS['z3_time'] += time.time() - t0
            if r == z3.unsat: return 'unsat', s
            t0 = time.time()
    ctx = Ctx()
    s = z3.Solver()
    s.set('timeout', timeout or Z3_TIMEOUT)
    fs = [ctx.cond(c) for c in conds]
    if extra is not None: fs += extra(ctx)
    for f in fs: s.add(f)
    for a in ctx.axioms: s.add(a)
    r = s.check()
    STATS['z3_calls'] += 1; STATS['z3_time'] += time.time() - t0
    if r == z3.unknown: STATS['unknown'] += 1
    return str(r), s

_dec_cache = {}
def entails(hyps, c, timeout=1500):
    """True if hyps |- c is established"""
    if c.op == 'true': return True
    if any(h == c for h in hyps): return True
    if c.op == 'and': return all(entails(hyps, x, timeout) for x in c.a)
    rel = relevant(hyps, c)
    key = (c.skey, tuple(sorted(h.skey for h in rel)))
    if key in _dec_cache: return _dec_cache[key]
    r, _ = z3_check(list(rel) + [Not(c)], timeout=timeout)
    if r == 'unknown' and len(rel) < len(hyps):
        r, _ = z3_check(list(hyps) + [Not(c)], timeout=timeout)
    _dec_cache[key] = (r == 'unsat')
    return r == 'unsat'
def relevant(hyps, c):
    fv = set(c.fv)
    rest = list(hyps); out = []
    ch = True
    while ch:
        ch = False
        for h in list(rest):
            if h.fv & fv or not h.fv:
                out.append(h); rest.remove(h); fv |= h.fv; ch = True
    return out
def consistent(hyps):
    r, _ = z3_check(list(hyps), timeout=1500)
    return r != 'unsat'

class Result:
    def __init__(self, status, detail='', model=None, backend=''):
        self.status = status; self.detail = detail; self.model = model; self.backend = backend
    def __bool__(self): return self.status == 'proved'
    def __repr__(self): return f'<{self.status} {self.detail[:300]}>'

def clear_inv(p, hyps):
    """multiply by the polynomials whose reciprocals occur (they are non-zero by precondition)"""
    for _ in range(6):
        invs = {}
        for m in p.t:
            for a, e in m:
                if type(a) is Inv and e > 0: invs[a] = max(invs.get(a, 0), e)
        if not invs: return p
        a = max(invs, key=lambda x: (len(x.skey), x.skey)); k = invs[a]
        r = ZERO
        for m, c in p.t.items():
            e = dict(m).get(a, 0)
            mm = tuple((x, y) for x, y in m if x != a)
            r = r + Poly({mm: c}) * a.p.pow(k - e)
        p = r
    return p

def simplify(p, hyps, timeout=800):
    """decide indicator atoms under hyps, also below sums (with the binder ranges as hypotheses)"""
    if isinstance(p, Cx): return Cx(simplify(p.re, hyps), simplify(p.im, hyps))
    memo = {}
    def fn(a):
        if a.skey in memo: return memo[a.skey]
        r = None
        if type(a) is Ind:
            c = Cond(a.kind, a.p)
            if entails(hyps, c, timeout): r = ONE
            elif entails(hyps, Not(c), timeout): r = ZERO
        elif type(a) is App and a.f in ('idiv', 'mod') and a.is_int:
            x, y = [map_atoms(q, fn) for q in a.args]
            if all(q.is_int for q in (x, y)) and entails(hyps, Le(ZERO, x), timeout) and entails(hyps, Lt(x, y), timeout): r = ZERO if a.f == 'idiv' else x
            else: r = mkapp(a.f, [x, y], True)
        elif type(a) is App and a.f == 'sqrt' and len(a.args[0].t) == 1:
            (m, c), = a.args[0].t.items()
            if c > 0 and (len(m) > 1 or m and (m[0][1] != 1 or c != 1)) and all(entails(hyps, Ge(P(x), ZERO), timeout) for x, _ in m):
                r = mkapp('sqrt', [P(c)])
                for x, e in m:
                    sx = mkapp('sqrt', [P(x)])
                    r = r * (sx.pow(e) if e > 0 else inverse(sx).pow(-e))
        elif type(a) is Sum:
            bs, body = open_sum(a)
            hb = list(hyps)
            for v, lo, hi in bs: hb += [Le(lo, P(v)), Lt(P(v), hi)]
            b2 = simplify(body, hb, timeout)
            bs2 = [(v, simplify(lo, hyps), simplify(hi, hyps)) for v, lo, hi in bs]
            r = make_sum(bs2, b2)
        memo[a.skey] = r
        return r
    if not any(type(a) is Ind or type(a) is App and a.f in ('sqrt', 'idiv', 'mod') for a in atoms_of(p)): return p
    return map_atoms(p, fn)

def eq_substs(hyps):
    """use equations among the hypotheses to eliminate variables"""
    hyps = list(hyps)
    env = {}
    for _ in range(8):
        done = True
        for h in hyps:
            if h.op == 'eq':
                sv = solve_var(h.a)
                if sv:
                    e1 = {sv[0]: sv[1]}
                    env = {k: subst(v, e1) for k, v in env.items()}
                    env[sv[0]] = sv[1]
                    hyps = [subst_cond(x, e1) for x in hyps if x is not h]
                    hyps = [x for x in hyps if x.op != 'true']
                    done = False
                    break
        if done: break
    return env, hyps

class Budget(Exception): pass

def prove_zero(p, hyps, deadline=None, depth=0, split=True):
    if isinstance(p, Cx):
        a = prove_zero(p.re, hyps, deadline)
        if not a: return a
        return prove_zero(p.im, hyps, deadline)
    if deadline is None: deadline = time.time() + 60
    if not p.t:
        STATS['ring'] += 1
        return Result('proved', backend='ring')
    if time.time() > deadline: return Result('unknown', 'time budget')
    env, hyps = eq_substs(hyps)
    if env: p = subst(p, env)
    if any(h.op == 'false' for h in hyps): return Result('proved', backend='z3')
    if not p.t:
        STATS['ring'] += 1
        return Result('proved', backend='ring')
    p = simplify(p, hyps)
    if not p.t: return Result('proved', backend='z3')
    if any(type(a) is Sum and len(a.binders) > 1 for a in atoms_of(p, False)):
        pl.ORDER_SPLIT[0] = True
        try:
            p = map_atoms(p, lambda a: pl.make_sum(*open_sum(a)) if type(a) is Sum and len(a.binders) > 1 else None)
        finally: pl.ORDER_SPLIT[0] = False
        if not p.t: return Result('proved', backend='ring')
    import os
    if os.environ.get('DBG'): print('PRE', len(p.t), p.skey[:1500])
    q = clear_inv(p, hyps)
    if not q.t: return Result('proved', backend='ring')
    q2 = simplify(q, hyps)
    if not q2.t: return Result('proved', backend='z3')
    q3 = prefix_sums(q2, hyps)
    if q3 is not None:
        if not q3.t: return Result('proved', backend='z3')
        q2 = q3
    # case split
    inds = [a for a in atoms_of(q2) if type(a) is Ind and not any(n[0] in '$' or n.startswith('b%') for n in a.fv)]
    if inds and depth < 14 and split:
        inds.sort(key=lambda a: (a.kind != 'eq', len(a.skey), a.skey))
        a = inds[0]
        c = Cond(a.kind, a.p)
        for cc, val in ((c, ONE), (Not(c), ZERO)):
            h2 = hyps + [cc]
            if not consistent(h2): continue
            pp = map_atoms(q2, lambda x: val if x == a else None)
            r = prove_zero(pp, h2, deadline, depth + 1)
            if not r: return r
        return Result('proved', backend='z3')
    # equal arguments make equal values
    q4 = congruence(q2, hyps)
    if q4 is not q2:
        if not q4.t: return Result('proved', backend='z3')
        q2 = q4
    # final solver call
    fx = [f for f in facts_of([Eq0(q2)]) if f.op != 'true'] if FACTS else []
    r, s = z3_check(list(hyps) + fx, extra=lambda ctx: [ctx.poly(q2) != 0], timeout=Z3_TIMEOUT)
    if r == 'unsat': return Result('proved', backend='z3')
    # extensionality of sums
    if sum_ext(q2, hyps, deadline, depth): return Result('proved', backend='z3')
    w = refute(q2, hyps)
    if w is not None:
        return Result('refuted', 'residual ' + q2.skey[:600], model=w, backend='eval')
    return Result('unknown', ('sat ' if r == 'sat' else r + ' ') + q2.skey[:600])

def outer_apps(p):
    out = []
    for m in p.t:
        for a, e in m:
            if type(a) is App and a.args and not any(a == x for x in out): out.append(a)
    return out
def congruence(p, hyps, depth=0):
    """replace f(a') by f(a) where a' = a follows from the hypotheses"""
    for _ in range(8):
        apps = outer_apps(p)
        hit = None
        for i, a in enumerate(apps):
            for b in apps[:i]:
                if a.f == b.f and len(a.args) == len(b.args) and all(cong_zero(x - y, hyps, depth) for x, y in zip(a.args, b.args)): hit = (a, b); break
            if hit: break
        if not hit: return p
        p = map_atoms(p, lambda x: P(hit[1]) if x == hit[0] else None)
        if not p.t: return p
    return p
def cong_zero(d, hyps, depth):
    if not d.t: return True
    if depth > 3: return False
    # common factors do not matter
    common = None
    for m in d.t:
        s = dict(m)
        common = s if common is None else {a: min(k, s[a]) for a, k in common.items() if a in s and k > 0 and s[a] > 0}
    if common:
        d = Poly({tuple((a, k - common.get(a, 0)) for a, k in m if k != common.get(a, 0)): c for m, c in d.t.items()})
    if d.is_const(): return not d.t
    if not any(type(a) is App and not a.is_int for m in d.t for a, _ in m): return entails(hyps, Eq0(d), 500)
    q = congruence(d, hyps, depth + 1)
    return not q.t
def prefix_sums(p, hyps):
    """sums of the same terms over adjoining ranges: Sum_{lo..hi} f(v + c) = F(hi + c) - F(lo + c) with F the sum from 0"""
    sums = [a for a in atoms_of(p) if type(a) is Sum and len(a.binders) == 1]
    if len(sums) < 2: return None
    tr = {}
    for s in sums:
        (v, lo, hi), = s.binders
        offs = set()
        def visit(poly):
            for q in atoms_of(poly):
                if type(q) is App:
                    for x in q.args:
                        c = x.t.get(((v, 1),))
                        if c == 1 and x.is_int and v.name not in (x - P(v)).fv: offs.add(x - P(v))
        visit(Poly({s.body: Fraction(1)}))
        if len(offs) != 1: continue
        c = offs.pop()
        if c == ZERO and lo == ZERO: continue
        l2, h2 = lo + c, hi + c
        if not (entails(hyps, Le(ZERO, l2)) and entails(hyps, Le(l2, h2))): continue
        tr[s] = (c, l2, h2)
    if not tr: return None
    def fn(a):
        if a in tr:
            c, l2, h2 = tr[a]
            bs, body = open_sum(a)
            v = bs[0][0]
            t = Var(fresh_name('b'), True)
            b = subst(body, {v.name: P(t) - c})
            r = pl.make_sum([(t, ZERO, h2)], b)
            return r - pl.make_sum([(t, ZERO, l2)], b) if l2 != ZERO else r
        return None
    return map_atoms(p, fn)

def sum_ext(p, hyps, deadline, depth):
    """p = c*(m1*S1 - m1*S2) ... : pair up sum monomials with provably equal ranges and bodies"""
    if depth > 3: return False
    items = []
    rest = ZERO
    for m, c in p.t.items():
        s = [a for a, e in m if type(a) is Sum]
        if len(s) == 1:
            items.append((tuple(x for x in m if x[0] is not s[0]), s[0], c))
        else: rest = rest + Poly({m: c})
    used = set()
    if rest.t:
        return False
    # merge all single-binder sums over equal ranges into one and prove the body zero
    groups = []
    for fm, s, c in items:
        for g in groups:
            if len(g[0]) == len(s.binders) and all(
                    (l1 == l2 or entails(hyps, Eq(l1, l2))) and (h1 == h2 or entails(hyps, Eq(h1, h2)))
                    for (v1, l1, h1), (v2, l2, h2) in zip(g[0], s.binders)):
                g[1].append((fm, s, c)); break
        else: groups.append((s.binders, [(fm, s, c)]))
    for bs, ms in groups:
        ren0 = [Var(fresh_name('x'), True) for _ in bs]
        tot = ZERO
        for fm, s, c in ms:
            env = {v.name: P(n) for (v, _, _), n in zip(s.binders, ren0)}
            body = ONE
            for a, e in s.body: body = body * pl._pw(subst_atom(a, env), e)
            tot = tot + body.scale(c) * Poly({fm: Fraction(1)})
        h2 = list(hyps)
        for (v, lo, hi), n in zip(bs, ren0): h2 += [Le(lo, P(n)), Lt(P(n), hi)]
        r = prove_zero(tot, h2, deadline, depth + 1)
        if not r: return False
    return True

def prove(c, hyps, deadline=None):
    """prove a Cond"""
    if deadline is None: deadline = time.time() + 60
    env, h2 = eq_substs(hyps)
    c2 = subst_cond(c, env) if env else c
    if c2.op == 'true': return Result('proved', backend='ring')
    if c2.op == 'and':
        for x in c2.a:
            r = prove(x, h2, deadline)
            if not r: return r
        return Result('proved', backend='z3')
    if c2.op == 'eq': return prove_zero(c2.a, h2, deadline)
    # simplify the polynomials inside
    c3 = simp_cond(c2, h2)
    if c3.op == 'true': return Result('proved', backend='z3')
    r, s = z3_check(list(h2) + [Not(c3)], timeout=Z3_TIMEOUT * 2)
    if r == 'unsat': return Result('proved', backend='z3')
    if r == 'unknown' or True:
        r2 = cvc5_check(list(h2) + [Not(c3)])
        if r2 == 'unsat':
            STATS['cvc5'] += 1
            return Result('proved', backend='cvc5')
    w = refute_cond(c3, h2)
    if w is not None: return Result('refuted', 'not ' + c3.skey[:600], model=w, backend='eval')
    return Result('unknown', r + ' ' + c3.skey[:600])

def simp_cond(c, hyps):
    if c.op in ('lt', 'eq'):
        q = simplify(c.a, hyps)
        return Lt0(q) if c.op == 'lt' else Eq0(q)
    if c.op in ('not', 'and', 'or'):
        xs = [simp_cond(x, hyps) for x in c.a]
        return Not(xs[0]) if c.op == 'not' else (And(*xs) if c.op == 'and' else Or(*xs))
    return c

def cvc5_check(conds, tlim=4):
    """second back end: the same query printed as SMT-LIB and sent to the cvc5 binary"""
    import subprocess, tempfile, os
    ctx = Ctx()
    s = z3.Solver()
    for c in conds: s.add(ctx.cond(c))
    for a in ctx.axioms: s.add(a)
    txt = '(set-logic ALL)\n' + s.to_smt2()
    try:
        r = subprocess.run(['cvc5', '--lang=smt2', f'--tlimit={tlim * 1000}', '-'], input=txt, capture_output=True, text=True, timeout=tlim + 5)
        return r.stdout.strip().splitlines()[0] if r.stdout.strip() else 'unknown'
    except Exception:
        return 'unknown'

# ---------------------------------------------------------------- numeric evaluation
class EvalError(Exception): pass
def _h(seed, *a):
    d = hashlib.md5(repr((seed,) + a).encode()).digest()
    return int.from_bytes(d[:6], 'big') / 2.0 ** 48
class Env:
    def __init__(self, seed):
        self.seed = seed; self.vars = {}; self.reads = {}
    def uf(self, f, args, is_int):
        x = _h(self.seed, f, *args)
        if is_int: v = int(x * 4)
        else:
            v = x * 2 - 1
            if f in NONNEG: v = abs(v)
            elif f in POSITIVE: v = abs(v) + 0.3
        self.reads[(f,) + tuple(args)] = v
        return v
def ev(p, env):
    if isinstance(p, Cx): return complex(ev(p.re, env), ev(p.im, env))
    tot = 0.0
    exact = p.is_int
    if exact: tot = 0
    for m, c in p.t.items():
        v = int(c) if c.denominator == 1 else float(c)
        for a, e in m:
            x = ev_atom(a, env)
            if e < 0 and x == 0: raise EvalError('div0')
            v = v * (x ** e if e != 1 else x)
        tot = tot + v
    return tot
def ev_atom(a, env):
    t = type(a)
    if t is Var:
        if a.name not in env.vars:
            if a.name == 'pi': return math.pi
            x = _h(env.seed, 'var', a.name)
            env.vars[a.name] = int(x * 5) if a.is_int else round(x * 4 - 2, 3)
        return env.vars[a.name]
    if t is Ind:
        if a.kind == 'b':
            if a.p not in env.vars: env.vars[a.p] = _h(env.seed, 'b', a.p) < 0.5
            return 1 if env.vars[a.p] else 0
        x = ev(a.p, env)
        if a.kind == 'lt': return 1 if x < 0 else 0
        return 1 if abs(x) < 1e-12 else 0
    if t is Inv:
        x = ev(a.p, env)
        if x == 0: raise EvalError('div0')
        return 1 / x
    if t is Sum:
        def rec(i):
            if i == len(a.binders):
                v = 1
                for b, e in a.body:
                    x = ev_atom(b, env)
                    if e < 0 and x == 0: raise EvalError('div0')
                    v = v * (x ** e)
                return v
            v, lo, hi = a.binders[i]
            l, h = int(ev(lo, env)), int(ev(hi, env))
            if h - l > 60: raise EvalError('range')
            s = 0
            old = env.vars.get(v.name)
            for k in range(l, h):
                env.vars[v.name] = k
                s = s + rec(i + 1)
            if old is None: env.vars.pop(v.name, None)
            else: env.vars[v.name] = old
            return s
        return rec(0)
    args = [ev(x, env) for x in a.args]
    f = a.f
    try:
        if f == 'rint': return round(args[0])
        if f == 'floor': return math.floor(args[0])
        if f == 'trunc': return math.trunc(args[0])
        if f == 'idiv': return math.floor(args[0] / args[1]) if not all(isinstance(x, int) for x in args) else args[0] // args[1]
        if f == 'mod': return args[0] - args[1] * math.floor(args[0] / args[1]) if not all(isinstance(x, int) for x in args) else args[0] % args[1]
        if f == 'sqrt':
            if args[0] < 0: raise EvalError('sqrt')
            return math.sqrt(args[0])
        if f == 'abs': return abs(args[0])
        if f in ('cos', 'sin', 'exp', 'tan', 'atan', 'tanh', 'cosh'): return getattr(math, f)(args[0])
        if f == 'log': return math.log(args[0]) if args[0] > 0 else (_ for _ in ()).throw(EvalError('log'))
        if f == 'atan2': return math.atan2(*args)
        if f == 'pow': 
            if args[0] <= 0: raise EvalError('pow')
            return args[0] ** args[1]
    except (ZeroDivisionError, OverflowError, ValueError):
        raise EvalError('num')
    args = [round(x, 9) if isinstance(x, float) else x for x in args]
    args = [int(x) if isinstance(x, float) and x == int(x) else x for x in args]
    if f in INT_RANGE:
        lo, hi = (ev(P(q), env) for q in INT_RANGE[f])
        if hi <= lo: raise EvalError('empty range')
        return int(lo + math.floor(_h(env.seed, f, *args) * (hi - lo)))
    return env.uf(f, args, a.is_int)
def ev_cond(c, env):
    if c.op == 'true': return True
    if c.op == 'false': return False
    if c.op == 'b': return ev_atom(Ind('b', c.a), env) == 1
    if c.op == 'lt': return ev(c.a, env) < 0
    if c.op == 'eq': return abs(ev(c.a, env)) < 1e-12
    if c.op == 'not': return not ev_cond(c.a[0], env)
    if c.op == 'and': return all(ev_cond(x, env) for x in c.a)
    return any(ev_cond(x, env) for x in c.a)

def model_env(hyps, seed, sizes=True):
    """random instance satisfying hyps: integers from a z3 model of the integer part, perturbed by seed"""
    env = Env(seed)
    fv = set()
    for h in hyps: fv |= h.fv
    ints = {}
    def walk(c):
        if c.op in ('lt', 'eq'):
            for a in atoms_of(c.a):
                if type(a) is Var: ints[a.name] = a.is_int
        elif c.op in ('not', 'and', 'or'):
            for x in c.a: walk(x)
    for h in hyps: walk(h)
    if any(ints.values()) or ints:
        ctx = Ctx(); s = z3.Solver(); s.set('timeout', 1500); s.set('random_seed', seed)
        for h in hyps: s.add(ctx.cond(h))
        for a in ctx.axioms: s.add(a)
        for n, isint in sorted(ints.items()):
            if n == 'pi': continue
            s.push()
            if isint:
                tgt = 1 + int(_h(seed, 'sz', n) * 5)
                s.add(z3.Int(n) == tgt)
            else:
                tgt = round(_h(seed, 'sr', n) * 3 + 0.1, 2)
                s.add(z3.Real(n) == z3.RealVal(str(tgt)))
            if s.check() != z3.sat:
                s.pop()
                if isint:
                    s.push(); s.add(z3.Int(n) <= 12, z3.Int(n) >= -12)
                    if s.check() != z3.sat: s.pop()
            # keep the pushed constraint otherwise
        if s.check() != z3.sat: return None
        m = s.model()
        for n, isint in ints.items():
            if n == 'pi': continue
            v = m.eval(z3.Int(n) if isint else z3.Real(n), model_completion=True)
            try: env.vars[n] = v.as_long() if isint else float(v.as_fraction())
            except Exception: env.vars[n] = 1
    try:
        if not all(ev_cond(h, env) for h in hyps): return None
    except EvalError: return None
    return env

def refute(p, hyps, tries=6):
    for seed in range(1, tries + 1):
        env = model_env(hyps, seed)
        if env is None: continue
        try: v = ev(p, env)
        except EvalError: continue
        except Exception: continue
        if abs(v) > 1e-7: return {'vars': {k: env.vars[k] for k in sorted(env.vars)}, 'value': abs(v), 'seed': seed}
    return None
def refute_cond(c, hyps, tries=8):
    for seed in range(1, tries + 1):
        env = model_env(list(hyps), seed)
        if env is None: continue
        try:
            if not ev_cond(c, env): return {'vars': {k: env.vars[k] for k in sorted(env.vars)}, 'seed': seed}
        except EvalError: continue
        except Exception: continue
    return None
