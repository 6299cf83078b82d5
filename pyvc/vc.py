"""Contract items: a sidecar contract on a function of /repo, turned into named obligations and discharged."""
import ast, os, sys, time, traceback
from . import poly as pl, prove as pv, source as src
from .poly import *
from .interp import *
from . import npmodel

HERE = os.path.dirname(os.path.abspath(__file__))
ITEMS = []

class Item:
    def __init__(self, prop, name, fn, budget, replay=None):
        self.prop = prop; self.name = name; self.fn = fn; self.budget = budget; self.replay = replay

def item(prop, name, budget=150, replay=None):
    props = prop if isinstance(prop, (list, tuple)) else [prop]
    def d(f):
        for p in props: ITEMS.append(Item(p, name, f, budget, replay))
        return f
    return d

_specmods = {}
def specmod():
    if 'm' not in _specmods:
        path = os.path.join(HERE, '..', 'contracts', 'specs.py')
        m = src.Module('contracts.specs', path)
        src._mods['contracts.specs'] = m
        _specmods['m'] = m
    return _specmods['m']

class Path:
    def __init__(self, eng, kind, val): self.eng = eng; self.kind = kind; self.val = val
    def arr(self, name): return self.eng.vargs[name]

class Task:
    """collects obligations of one item"""
    def __init__(self, item):
        self.item = item; self.obls = []; self.functions = set(); self.inlined = set(); self.assumed = set()
        self.paths = 0; self.vac = []
        self.deadline = time.time() + item.budget
    # ---- inputs
    @staticmethod
    def inp(e, name, shape, kind='f', owner='input'):
        shape = tuple(P(s) for s in shape)
        if kind == 'c': f = lambda idx: Cx(UF(name + '.re', idx), UF(name + '.im', idx))
        elif kind == 'b': f = lambda idx: Cond('lt', -UF(name, idx))
        else: f = lambda idx: UF(name, idx, kind == 'i')
        return e.new(f, shape, kind, owner)
    @staticmethod
    def herm(e, name, shape, owner='input'):
        """array of Hermitian matrices (last two axes)"""
        def f(idx):
            *b, i, j = idx
            i, j = P(i), P(j)
            lo, up, dg = Lt(j, i), Lt(i, j), Eq(i, j)
            re = ite(up, UF(name + '.re', list(b) + [i, j]), ite(lo, UF(name + '.re', list(b) + [j, i]), UF(name + '.d', list(b) + [i])))
            im = ite(up, UF(name + '.im', list(b) + [i, j]), ite(lo, -UF(name + '.im', list(b) + [j, i]), ZERO))
            return Cx(re, im)
        return e.new(f, tuple(P(s) for s in shape), 'c', owner)
    # ---- objects and block streams
    @staticmethod
    def source(e, name='src', N=None, C=None, kind='f', fs=None, elem=None, pure=True, cls=None, **attrs):
        """a generator object that satisfies the block-stream contract (assumed for the upstream object; the same
        contract is what `stream` proves of every generator under contract)"""
        N = IV(name + '.num_samples') if N is None else P(N)
        C = IV(name + '.num_channels') if C is None else P(C)
        if elem is None:
            if kind == 'c': elem = lambda idx: Cx(UF(name + '.x.re', idx), UF(name + '.x.im', idx))
            else: elem = lambda idx: UF(name + '.x', idx)
        def result(en, num=None):
            num = P(num)
            en.oblige('the block size passed upstream is at least one', Le(ONE, num))
            s = Stream(en, name, N, num, (C,), elem, kind)
            for h in s.facts():
                if h not in en.hyps: en.hyps.append(h)
            return StreamIter(en, s)
        if cls is not None: cls = src.find_class(cls.split(':')[1], cls.split(':')[0])
        o = SymObj(cls, dict(num_samples=N, num_channels=C, sample_freq=V(name + '.sample_freq') if fs is None else fs, result=PyFn(result), digest=Obj('str')), name)
        o.attrs.update(attrs)
        o.x = elem; o.N = N; o.C = C
        return o
    @staticmethod
    def obj(cls, name='self', **attrs):
        """object of a class of /repo whose listed traits are given; other traits are resolved from the class body"""
        mod, cn = cls.split(':')
        ci = src.find_class(cn, mod)
        if ci is None: raise Unsupported('no class ' + cls)
        return SymObj(ci, attrs, name)
    @staticmethod
    def abslist(name):
        """list of integers of unknown length and content"""
        n = IV(name + '.len')
        pv.FACTS[name + '.has'] = lambda a: [Or(Lt(ZERO, n), Eq(UF(name + '.has', a, True), 0))]
        return Obj('abslist', length=n, contains=lambda e, i: Not(Eq(UF(name + '.has', [P(num(i))], True), 0)))
    def default(self, e, cls, name):
        """value of the default of a trait declared as Kind(default)"""
        mod, cn = cls.split(':')
        ci, node = src.find_trait(src.find_class(cn, mod), name)
        return Frame(e, ci.mod.name, {}).eval(node.args[0])
    def method(self, e, o, name, args=(), kw=None):
        c, node = src.find_method(o.cls, name)
        self.functions.add(f'{c.mod.name}.{c.name}.{name}')
        return e.call_func(FuncVal(c.mod, node, cls=c), [o] + list(args), kw or {})
    def get(self, e, o, name):
        """read a property of an object of a class of /repo through its getter"""
        m = src.find_method(o.cls, '_get_' + name) or src.find_method(o.cls, name)
        if m is None: raise Unsupported(f'no getter of {name}')
        self.functions.add(f'{m[0].mod.name}.{m[0].name}.{m[1].name}')
        return e.getattr(o, name)
    @staticmethod
    def unguard(e, ev):
        """a block delivered in the iterations lo <= k < hi of a loop under the condition k >= c (or k <= c) is delivered in
        the iterations max(lo, c) <= k < hi (lo <= k < min(hi, c + 1))"""
        for g in ev.guards:
            neg = g.op == 'not'; a = g.a[0] if neg else g
            if len(ev.loops) != 1 or a.op != 'lt': raise Unsupported('block delivered under a condition inside a loop')
            k, lo, hi = ev.loops[0]
            q = a.a if neg else -a.a - 1               # the condition is q >= 0
            kn = next(iter(k.fv))
            if not q.is_int: raise Unsupported('block delivered under a condition inside a loop')
            if kn not in (q - k).fv:
                c = k - q; d = e.decide(Le(lo, c))
                new = (k, c if d is True else lo if d is False else ite(Le(lo, c), c, lo), hi)
            elif kn not in (q + k).fv:
                c = q + k + 1; d = e.decide(Le(c, hi))
                new = (k, lo, c if d is True else hi if d is False else ite(Le(c, hi), c, hi))
            else: raise Unsupported('block delivered under a condition inside a loop')
            n = type(ev)(ev.value, list(ev.hyps) + [Le(new[1], k), Lt(k, new[2])], [new]); ev = n
        return ev
    def stream(self, p, nm, num, N, chans, spec, hyps=(), kind='f', coords=None):
        """the generator run on path p yields blocks of exactly num rows (the last one 1..num rows) whose
        concatenation is the N-row sequence spec(row, channels...)"""
        e = p.eng; num = P(num); N = P(N)
        if p.kind == 'raise': raise Unsupported('generator raises ' + p.val.etype + ' under the precondition')
        evs = e.events
        hy = list(e.hyps) + list(hyps)
        evs = [self.unguard(e, x) for x in evs]
        def g(name, c, h=()): self.obls.append((f'{nm}: {name}', Oblig(name, hy + list(h), c)))
        def content(ev, off, h):
            v = ev.value
            if v.ndim != 1 + len(chans): self.goal(p, f'{nm}: block rank', FALSE); return
            for a, c in enumerate(chans):
                if v.shape[a + 1] != P(c): g(f'extent of block axis {a + 1}', Eq(v.shape[a + 1], P(c)), h)
            idx = tuple(IV(fresh_name('q')) for _ in v.shape)
            hh = [c for i, s in zip(idx, v.shape) for c in (Le(ZERO, i), Lt(i, s))]
            if coords is not None:
                # entries addressed by coordinates: coords() -> (indices of the entry, range of the coordinates, coordinates)
                ci, ch, cc = coords()
                idx = (idx[0],) + tuple(ci); hh = [Le(ZERO, idx[0]), Lt(idx[0], v.shape[0])] + list(ch)
                e.hyps += ch
                w = spec(off + idx[0], *cc)
            else: w = spec(off + idx[0], *idx[1:])
            if isinstance(w, tuple): w, extra = w; hh = hh + list(extra)       # (value, conditions under which it is specified)
            got = v.get(idx)
            self.obls.append((f'{nm}: values', Oblig('values', hy + list(h) + hh, sub(globals()['num'](lift(got)), globals()['num'](lift(w))), 'zero')))
        off = ZERO           # rows delivered so far
        last = None
        for n, ev in enumerate(evs):
            if not isinstance(ev.value, NDArr): raise Unsupported('yields something that is not an array')
            r = ev.value.shape[0]
            h = [c for c in ev.hyps if c not in hy]
            if len(ev.loops) == 0:
                content(ev, off, h)
                g('block size', And(Le(ONE, r), Le(r, num)), h)
                rest = [Or(Le(x.loops[0][2], x.loops[0][1])) if len(x.loops) == 1 else FALSE for x in evs[n + 1:]]
                if rest: g('every block but the last is full', Or(Eq(r, num), And(*rest)), h)
                off = off + r
            elif len(ev.loops) == 1:
                k, lo, hi = ev.loops[0]
                content(ev, off + (k - lo) * num, h)
                g('block size', And(Le(ONE, r), Le(r, num)), h)
                if n < len(evs) - 1:
                    rest = [Le(x.loops[0][2], x.loops[0][1]) if len(x.loops) == 1 else FALSE for x in evs[n + 1:]]
                    g('every block but the last is full', Or(Eq(r, num), And(Eq(k, hi - 1), *rest)), h)
                    if any(x.loops and x.loops[0][0] == k for x in evs[n + 1:]): raise Unsupported('several blocks per iteration')
                    cnt = hi - lo if e.decide(Le(lo, hi)) is True else ite(Le(lo, hi), hi - lo, ZERO)
                    off = off + cnt * num
                else:
                    g('every block but the last is full', Or(Eq(k, hi - 1), Eq(r, num)), h)
                    # total = rows before the loop + (trip count - 1) * num + rows of the last block
                    kn = next(iter(k.fv))
                    rl = subst(r, {kn: hi - 1})
                    hl = [subst_cond(c, {kn: hi - 1}) for c in h] + [Lt(lo, hi)]
                    g('all samples are delivered', Eq(off + (hi - 1 - lo) * num + rl, N), hl)
                    g('at least one block', Or(Lt(lo, hi), Eq(off, N)))
                    return
            else: raise Unsupported('yield in nested symbolic loops')
        g('all samples are delivered', Eq(off, N))
    # ---- running
    def fval(self, spec):
        modname, qual = spec.split(':')
        m = src.module(modname)
        if '.' in qual:
            cn, fn = qual.split('.')
            ci = src.find_class(cn, modname)
            c2, node = src.find_method(ci, fn)
            return FuncVal(c2.mod, node, cls=c2)
        return FuncVal(m, m.functions[qual])
    def run(self, fn, hyps=(), contracts=None, max_paths=64):
        """fn(engine) -> value ; returns Paths"""
        hyps = list(hyps)
        if not pv.consistent(hyps): raise VacuityError('precondition is unsatisfiable')
        res = []
        for e, (k, v) in explore(fn, hyps, contracts, max_paths=max_paths, deadline=self.deadline):
            self.paths += 1
            self.inlined |= set(e.inlined)
            self.assumed |= set(getattr(e, 'assumed', ()))
            for o in e.obls: self.obls.append((f'{o.name}', o))
            e.base_obls = len(e.obls)
            res.append(Path(e, k, v))
        if not res: raise VacuityError('no feasible path')
        return res
    def call(self, e, spec, args, kw=None):
        self.functions.add(spec.replace(':', '.'))
        pre = [(a, e.new(a.snap(), a.shape, a.kind) if isinstance(a, NDArr) else tuple(e.new(b.snap(), b.shape, b.kind) if isinstance(b, NDArr) else b for b in a) if isinstance(a, tuple) else a) for a in args]
        r = e.call_func(self.fval(spec), list(args), kw or {})
        if not kw and '.' not in spec.split(':')[1]: e.callrec = (spec, pre, r)
        return r
    def locate(self, e, got):
        rec = getattr(e, 'callrec', None)
        if rec is None: return None
        spec, pre, r = rec
        if got is r and r is not None: return ('ret',)
        if isinstance(r, tuple):
            for i, x in enumerate(r):
                if got is x: return ('ret', i)
        for i, (a, _) in enumerate(pre):
            if got is a: return ('arg', i)
        return None
    def spec(self, e, name, *args, **kw):
        m = specmod()
        q = e.quiet; n = len(e.obls)
        r = e.call_func(FuncVal(m, m.functions[name]), list(args), kw)
        e.inlined = {k: v for k, v in e.inlined.items() if k[0] != 'contracts.specs'}
        del e.obls[n:]       # obligations of the specification itself (index ranges) are not code obligations
        return r
    # ---- goals
    def equal(self, path, name, got, want, hyps=(), kind=None):
        e = path.eng
        if isinstance(want, (tuple, list)) and not isinstance(want, SymList):
            if not isinstance(got, (tuple, list)) or len(got) != len(want):
                self.goal(path, name + ' (arity)', FALSE); return
            for i, (g, w) in enumerate(zip(got, want)): self.equal(path, f'{name}[{i}]', g, w, hyps)
            return
        if isinstance(want, NDArr) or isinstance(got, NDArr):
            rep = (e.callrec, self.locate(e, got), want) if self.locate(e, got) else None
            got = e.asarray(got); want = e.asarray(want)
            if got.ndim != want.ndim: self.goal(path, name + ' (rank)', FALSE); return
            for a, (g, w) in enumerate(zip(got.shape, want.shape)):
                if g != w: self.goal(path, f'{name} (extent of axis {a})', Eq(g, w))
            idx = tuple(IV(fresh_name('q')) for _ in got.shape)
            h = [c for i, s in zip(idx, want.shape) for c in (Le(ZERO, i), Lt(i, s))]
            n0 = len(e.hyps)
            g, w = num(got.get(idx)), num(want.get(idx))
            extra = e.hyps[n0:]
            o = Oblig(name, list(e.hyps) + h + list(hyps), sub(g, w), 'zero')
            o.replay = rep; o.idx = idx
            self.obls.append((name, o))
            return
        if isinstance(got, Cond) or isinstance(want, Cond) or isinstance(got, bool) and isinstance(want, bool):
            a, b = e.truth(got), e.truth(want)
            self.goal(path, name, Or(And(a, b), And(Not(a), Not(b))), hyps); return
        if isinstance(want, str) or want is None:
            self.goal(path, name, TRUE if got == want else FALSE, hyps); return
        self.obls.append((name, Oblig(name, list(e.hyps) + list(hyps), sub(num(got), num(want)), 'zero')))
    def forall(self, path, name, arr, fn, hyps=()):
        """fn(element, idx) -> Cond for every element"""
        e = path.eng
        idx = tuple(IV(fresh_name('q')) for _ in arr.shape)
        h = [c for i, s in zip(idx, arr.shape) for c in (Le(ZERO, i), Lt(i, s))]
        c = fn(arr.get(idx), idx)
        self.obls.append((name, Oblig(name, list(e.hyps) + h + list(hyps), c)))
    @staticmethod
    def inst(e, *idxs):
        """facts about all elements (any() false, argmin, ...) instantiated at the given indices"""
        out = []
        for idx in idxs:
            for shape, fn in e.foralls:
                if len(shape) == len(idx):
                    rng = And(*[c for i, s in zip(idx, shape) for c in (Le(ZERO, i), Lt(i, s))])
                    out.append(Or(Not(rng), fn(tuple(idx))))
        return out
    def goal(self, path, name, cond, hyps=()):
        o = Oblig(name, list(path.eng.hyps) + list(hyps), cond)
        o.weak = bool(path.eng.foralls) or bool(path.eng.filters)        # facts about all elements enter only as instances: not refutable
        self.obls.append((name, o))
    def decided(self, name, ok, detail='', certain=False):
        """an obligation decided on the syntax tree: proved, open, or (when nothing had to be over-approximated) refuted"""
        o = Oblig(name, [], TRUE); o.decided = (bool(ok), detail, certain)
        self.obls.append((name, o))
    def frame(self, path, name='frame'):
        """no write to an array owned by the caller / upstream"""
        e = path.eng
        for d in e.frame_writes:
            self.goal(path, f'{name}: {d}', FALSE)
        self.goal(path, name, TRUE)
    # ---- discharge
    def discharge(self):
        out = []
        for name, o in self.obls:
            t = time.time()
            if t > self.deadline:
                out.append(dict(name=name, status='unknown', detail='time budget', backend='', t=0)); continue
            dl = min(self.deadline, t + 60)
            if getattr(o, 'decided', None):
                ok, d, cert = o.decided
                out.append(dict(name=name, status='proved' if ok else 'refuted' if cert else 'unknown', detail=d[:1500], backend='reads-clause' if ok else '', t=0)); continue
            try:
                if isinstance(o.goal, Cond) and o.goal.op == 'true': r = Result('proved', backend='ring')
                else: r = pv.prove_zero(o.goal, o.hyps, dl) if o.kind == 'zero' else pv.prove(o.goal, o.hyps, dl)
                if r.status == 'refuted' and (o.name.startswith('loop invariant') or getattr(o, 'weak', False) or overapprox(o)):
                    r = Result('unknown', 'counter-model uses an over-approximated loop state: ' + r.detail)
            except pv.Budget: r = Result('unknown', 'time budget')
            except Unsupported as ex: r = Result('unknown', 'unsupported: ' + str(ex))
            rj = None
            if r.status == 'refuted' and getattr(o, 'replay', None):
                try: rj = concretise(o, r.model)
                except Exception as ex: rj = None
            out.append(dict(name=name, replay=rj, status=r.status, detail=r.detail[:1500], backend=r.backend, t=round(time.time() - t, 3), model=str(r.model)[:1500] if r.model else None))
        if any(o['name'].startswith('loop invariant') and o['status'] != 'proved' for o in out):
            # every goal behind a loop rests on its invariant: without it nothing is shown, and nothing is refuted either
            for o in out:
                if o['status'] == 'refuted': o.update(status='unknown', detail='a loop invariant is not established: ' + o['detail'], replay=None)
        return out

def concretise(o, model):
    """counter-model -> concrete call of the real function and the value the contract requires"""
    (spec, pre, r), loc, want = o.replay
    env = pv.Env(model['seed']); env.vars = dict(model['vars'])
    def enc(a):
        if isinstance(a, NDArr):
            sh = [int(pv.ev(s, env)) for s in a.shape]
            import itertools
            vals = []
            for ix in itertools.product(*[range(s) for s in sh]):
                x = lift(a.get(ix))
                if isinstance(x, Cond): x = ind(x)
                x = pv.ev(x, env)
                vals.append([x.real, x.imag] if isinstance(x, complex) else x)
            return {'shape': sh, 'kind': a.kind, 'vals': vals}
        if isinstance(a, (tuple, list)): return {'tuple': [enc(x) for x in a]}
        if isinstance(a, DType): return {'dtype': a.kind}
        if isinstance(a, (str, bool)) or a is None: return a
        x = num(a)
        if isinstance(x, Cx): v = pv.ev(x, env); return {'complex': [v.real, v.imag]}
        return pv.ev(x, env)
    return dict(function=spec, args=[enc(p) for _, p in pre], where=list(loc), expected=enc(o_asarray(want)), obligation=o.name)
def o_asarray(w): return w

def overapprox(o):
    if len(pl.opaque_calls(o.goal)) > 1: return True     # equal results of different calls cannot be excluded
    a = set()
    if isinstance(o.goal, Cond): a |= set(pv.cond_atoms(o.goal))
    elif isinstance(o.goal, Cx): a |= set(atoms_of(o.goal.re)) | set(atoms_of(o.goal.im))
    else: a |= set(atoms_of(o.goal))
    return any(type(x) is App and (x.f.startswith(('hv:', 'flt:', 'ss:')) or x.f.startswith('st') and ':' in x.f) or type(x) is Var and x.name.startswith(('flt:', 'ss:')) for x in a)

class VacuityError(Exception): pass
Result = pv.Result

def sub(a, b):
    if isinstance(a, Cx) or isinstance(b, Cx): return C(a) - C(b)
    return P(a) - P(b)

def run_item(it):
    """-> dict(name, status, obligations, ...). status: ok / undecided / refuted / unsupported / error"""
    t0 = time.time()
    task = Task(it)
    res = dict(item=it.name, prop=it.prop)
    for k in pv.STATS: pv.STATS[k] = 0
    try:
        it.fn(task)
        if not task.obls: raise VacuityError('zero obligations generated')
        res['obligations'] = task.discharge()
        bad = [o for o in res['obligations'] if o['status'] != 'proved']
        ref = [o for o in bad if o['status'] == 'refuted']
        res['status'] = 'proved' if not bad else ('refuted' if ref else 'undecided')
    except Unsupported as ex:
        res.update(status='unsupported', detail=str(ex)[:600], obligations=[])
        if os.environ.get('VC_TRACE'): traceback.print_exc()
    except VacuityError as ex:
        res.update(status='unsupported', detail='vacuity: ' + str(ex), obligations=[])
    except (KeyError, AttributeError, TypeError, IndexError, RecursionError, ValueError, AssertionError, NotImplementedError, ZeroDivisionError, PyRaise) as ex:
        res.update(status='unsupported', detail='engine: ' + ''.join(traceback.format_exception_only(ex))[:400], obligations=[])
        if os.environ.get('VC_TRACE'): traceback.print_exc()
    except Exception as ex:
        res.update(status='unsupported', detail='engine: ' + ''.join(traceback.format_exception_only(ex))[:400], obligations=[])
        if os.environ.get('VC_TRACE'): traceback.print_exc()
    res['functions'] = sorted(task.functions)
    res['inlined'] = sorted('.'.join(k) for k in task.inlined)
    res['assumed'] = sorted(task.assumed)
    res['paths'] = task.paths
    res['wall'] = round(time.time() - t0, 2)
    res['stats'] = {k: (round(v, 2) if isinstance(v, float) else v) for k, v in pv.STATS.items()}
    return res

def diff(p, v, defs={}):
    """derivative of a scalar term with respect to a variable (away from the kinks of abs, sign and indicators)"""
    x = next(iter(P(v).t))[0][0]
    def da(a):
        t = type(a)
        if a == x: return ONE
        if t is Var and a.name not in defs: return ZERO
        if t is Var and a.name in defs: return diff(defs[a.name], v, defs)       # abbreviation of a term
        if not ({x.name} | set(defs)) & set(a.fv): return ZERO
        if t is pl.Inv: return -(inverse(a.p) * inverse(a.p) * dp(a.p))
        if t is Ind: return ZERO
        if t is App:
            if a.f == 'sqrt': return dp(a.args[0]) * inverse(P(a)) * Fraction(1, 2)
            if a.f == 'exp': return dp(a.args[0]) * P(a)
            if a.f == 'sin': return dp(a.args[0]) * mkapp('cos', [a.args[0]])
            if a.f == 'cos': return -(dp(a.args[0]) * mkapp('sin', [a.args[0]]))
            if a.f == 'abs': return dp(a.args[0]) * a.args[0] * inverse(P(a))
        raise Unsupported(f'derivative of {a!r}')
    def dp(p):
        r = ZERO
        for m, c in p.t.items():
            for i, (a, k) in enumerate(m):
                rest = m[:i] + (((a, k - 1),) if k != 1 else ()) + m[i + 1:]
                r = r + Poly({rest: c * k}) * da(a)
        return r
    return dp(P(p))
