"""Contracts on grids (C11) and sectors (C12)."""
from pyvc.vc import *
GR = 'acoular.grids:'
from fractions import Fraction
HALF = P(Fraction(1, 2))
inc, NX, NY, NZ = V('inc'), IV('nx'), IV('ny'), IV('nz')
B = {k: V(k) for k in ('x_min', 'x_max', 'y_min', 'y_max', 'z_min', 'z_max', 'z')}
AX = {'x': 'nxsteps', 'y': 'nysteps', 'z': 'nzsteps'}

def absd(p): return mkapp('abs', [p])

# ---------------------------------------------------------------- numbers of points
def _steps(cls, ax, vec):
    @item('C11', f'{cls}.{AX[ax]}: nearest number of steps of the increment{" (vector)" if vec else ""}')
    def _(t):
        for nm, hy in (('increment > 0', Lt(ZERO, inc)), ('increment < 0', Lt(inc, ZERO)), ('increment = 0', Eq(inc, 0))):
            def f(e):
                a = dict(B)
                if cls == 'RectGrid': a['increment'] = inc
                elif not vec: a['_increment'] = inc
                else: a['_increment'] = e.asarray([inc if c == ax else V('other' + c) for c in 'xyz'])
                return t.get(e, t.obj(GR + cls, **a), AX[ax])
            for p in t.run(f, [hy]):
                n = P(num(p.val)); L = B[ax + '_max'] - B[ax + '_min']; h = [h for h in p.eng.hyps]
                if nm == 'increment = 0': t.goal(p, nm + ': one point', Eq(n, 1)); continue
                i = inc if nm == 'increment > 0' else -inc
                for s, ln in ((Le(ZERO, L), L), (Lt(L, ZERO), -L)):
                    t.goal(p, f'{nm}: at least one point', Le(ONE, n), [s])
                    t.goal(p, f'{nm}: last lattice point within half a step of the bound (below)', Le((n - 1) * i, ln + i * HALF), [s])
                    t.goal(p, f'{nm}: last lattice point within half a step of the bound (above)', Le(ln - i * HALF, (n - 1) * i), [s])
for c in 'xy': _steps('RectGrid', c, False)
for c in 'xyz':
    for v in (False, True): _steps('RectGrid3D', c, v)

# ---------------------------------------------------------------- size, shape, positions
def grid(t, cls, **kw):
    a = dict(B); a.update(nxsteps=NX, nysteps=NY, nzsteps=NZ); a.update(kw)
    return t.obj(GR + cls, **a)
PN = [Le(ONE, NX), Le(ONE, NY), Le(ONE, NZ)]

def _lattice(cls):
    ax = 'xy' if cls == 'RectGrid' else 'xyz'
    ns = [NX, NY, NZ][:len(ax)]
    @item('C11', f'{cls}: size, shape and positions agree; positions are the documented lattice')
    def _(t):
        def f(e):
            o = grid(t, cls)
            tot = ONE
            for n in ns: tot = tot * n
            return t.get(e, o, 'size'), t.get(e, o, 'shape'), t.get(e, o, 'pos'), tot
        for p in t.run(f, PN):
            size, shape, pos, tot = p.val
            t.equal(p, 'size is the product of the numbers of points', size, tot)
            t.equal(p, 'shape', tuple(shape), tuple(ns))
            t.equal(p, 'positions have three rows', pos.shape[0], 3)
            t.equal(p, 'as many positions as announced', pos.shape[1], tot)
            ix = [IV('i' + c) for c in ax]
            h = [c for i, n in zip(ix, ns) for c in (Le(ZERO, i), Lt(i, n))]
            fl = ZERO
            for i, n in zip(ix, ns): fl = fl * n + i
            for r, c in enumerate('xyz'):
                if c in ax: w = B[c + '_min'] + (B[c + '_max'] - B[c + '_min']) * ix[ax.index(c)] * inverse(ns[ax.index(c)] - 1)
                else: w = B['z']
                t.obls.append((f'{c} coordinate of lattice point', Oblig(f'{c} coordinate', list(p.eng.hyps) + h, sub(num(pos.get((P(r), fl))), w), 'zero')))
_lattice('RectGrid'); _lattice('RectGrid3D')

# ---------------------------------------------------------------- coordinate -> index
def _index(cls):
    ax = 'xy' if cls == 'RectGrid' else 'xyz'
    ns = [NX, NY, NZ][:len(ax)]
    q = [V('q' + c) for c in ax]
    inb = [c for v, a in zip(q, ax) for c in (Le(B[a + '_min'], v), Le(v, B[a + '_max']))]
    # what nxsteps guarantees (its own contract above)
    st = [c for n, a in zip(ns, ax) for c in (Le((n - 1) * inc, B[a + '_max'] - B[a + '_min'] + inc * HALF), Le(B[a + '_max'] - B[a + '_min'] - inc * HALF, (n - 1) * inc))]
    @item('C11', f'{cls}.index: the nearest lattice point of a point inside the bounds')
    def _(t):
        def f(e):
            o = grid(t, cls, increment=inc)
            return t.method(e, o, 'index', q)
        for p in t.run(f, PN + [Lt(ZERO, inc)] + inb + st):
            if p.kind == 'raise': t.goal(p, 'a point inside the bounds is accepted', FALSE); continue
            for v, a, n, k in zip(q, ax, ns, p.val):
                k = P(num(k))
                t.goal(p, f'{a} index is valid', And(Le(ZERO, k), Lt(k, n)))
                t.goal(p, f'{a}: within half a step of the lattice point (below)', Le(v - B[a + '_min'] - k * inc, inc * HALF))
                t.goal(p, f'{a}: within half a step of the lattice point (above)', Le(k * inc - (v - B[a + '_min']), inc * HALF))
    @item('C11', f'{cls}.index: a point outside the bounds is rejected')
    def _(t):
        for v, a in zip(q, ax):
            for c in (Lt(v, B[a + '_min']), Lt(B[a + '_max'], v)):
                def f(e): return t.method(e, grid(t, cls, increment=inc), 'index', q)
                for p in t.run(f, PN + [Lt(ZERO, inc), c]):
                    t.goal(p, f'{a} out of range raises ValueError', TRUE if p.kind == 'raise' and p.val.etype == 'ValueError' else FALSE)
_index('RectGrid'); _index('RectGrid3D')

@item('C11', 'LineGrid: as many positions as announced, equally spaced on the documented line')
def _(t):
    n = IV('n'); loc = [V(f'l{c}') for c in 'xyz']; d = [V(f'd{c}') for c in 'xyz']; ln = V('length')
    def f(e):
        o = t.obj(GR + 'LineGrid', loc=tuple(loc), direction=tuple(d), length=ln, num_points=n)
        return t.get(e, o, 'size'), t.get(e, o, 'shape'), t.get(e, o, 'pos')
    nd = sqrt(d[0] * d[0] + d[1] * d[1] + d[2] * d[2])
    for p in t.run(f, [Le(ONE, n), Lt(ZERO, nd)]):
        size, shape, pos = p.val
        t.equal(p, 'size', size, n); t.equal(p, 'shape', tuple(shape), (n,))
        t.equal(p, 'positions have three rows', pos.shape[0], 3); t.equal(p, 'as many positions as announced', pos.shape[1], n)
        k = IV('k')
        for r in range(3):
            v = num(pos.get((P(r), k)))
            hy = list(p.eng.hyps) + [Le(ZERO, k), Lt(k, n)]
            t.obls.append((f'coordinate {r}', Oblig('coordinate', hy + [Le(P(2), n)], sub(v, loc[r] + d[r] * inverse(nd) * ln * k * inverse(n - 1)), 'zero')))
            t.obls.append((f'coordinate {r} of a single point', Oblig('coordinate', hy + [Eq(n, 1), Eq(k, 0)], sub(v, loc[r]), 'zero')))

# ---------------------------------------------------------------- sectors
NP = IV('np'); TOL = V('abs_tol')
def sector(cls, attrs, mkspec, orders=()):
    """inside(x, border) -> condition; dist(x) -> squared distance to the centre"""
    for border in (True, False):
        for near in (True, False): _sector(cls, attrs, mkspec, orders, border, near)
def _sector(cls, attrs, mkspec, orders, border, near):
    @item('C12', f'{cls}.contains: exactly the points that satisfy the condition{" or, if there is none, the nearest point" if near else ""}, border {"included" if border else "excluded"}')
    def _(t):
        import itertools
        def f(e):
            pos = t.inp(e, 'pos', (3, NP))
            o = t.obj(GR + cls, abs_tol=TOL, include_border=border, default_nearest=near, **attrs)
            return t.method(e, o, 'contains', [pos])
        for cs in itertools.product(*[[('ordered', c), ('reversed', Not(c))] for c in orders]):
            for p in t.run(f, [Le(ONE, NP), Le(ZERO, TOL)] + [c for _, c in cs]):
                e = p.eng; r = p.val
                nm = ('bounds ' + '/'.join(n for n, _ in cs) + ': ') if cs else ''
                inside, dist = mkspec(*[n == 'ordered' for n, _ in cs])
                t.equal(p, nm + 'one entry per point', r.shape[0], NP)
                i, j = IV('i'), IV('j')
                x = lambda i: [UF('pos', [P(c), i]) for c in range(3)]
                rng = [Le(ZERO, i), Lt(i, NP), Le(ZERO, j), Lt(j, NP)]
                got = e.truth(r.get((i,))); ins = inside(x(i), border)
                h = rng + t.inst(e, (i,), (j,))
                t.goal(p, nm + 'a point inside is contained', Or(Not(ins), got), h)
                if not near: t.goal(p, nm + 'a contained point is inside', Or(Not(got), ins), h)
                else:
                    t.goal(p, nm + 'a contained point is inside or no point is', Or(Not(got), ins, Not(inside(x(j), border))), h)
                    for w in e.witnesses:        # the point chosen by the code ...
                        t.goal(p, nm + 'the chosen point is inside or nearest to the centre', Or(inside(x(w[0]), border), Le(dist(x(w[0])), dist(x(j)))), rng + t.inst(e, w, (j,)))
                    t.goal(p, nm + 'no other point that is not inside', Or(Not(got), ins), h + [Not(Eq(i, w[0])) for w in e.witnesses])
                    t.goal(p, nm + 'never empty', Or(*[e.truth(r.get(w)) for w in e.witnesses]), t.inst(e, *e.witnesses))
                t.frame(p)

def rect(axes): return lambda *ordered: rect_(axes, ordered)
def rect_(axes, ordered):
    def inside(x, border):
        tol = TOL if border else -TOL
        cs = []
        for c in axes:
            v = x['xyz'.index(c)]; lo, hi = (B[c + '_min'], B[c + '_max']) if ordered[axes.index(c)] else (B[c + '_max'], B[c + '_min'])
            cs += [Lt(lo - tol, v), Lt(v, hi + tol)]
        return And(*cs)
    def dist(x):
        s = ZERO
        for c in axes:
            d = x['xyz'.index(c)] - (B[c + '_min'] + B[c + '_max']) * HALF
            s = s + d * d
        return s
    return inside, dist
sector('RectSector', {k: B[k] for k in ('x_min', 'x_max', 'y_min', 'y_max')}, rect('xy'), [Le(B[c + '_min'], B[c + '_max']) for c in 'xy'])
sector('RectSector3D', {k: B[k] for k in ('x_min', 'x_max', 'y_min', 'y_max', 'z_min', 'z_max')}, rect('xyz'), [Le(B[c + '_min'], B[c + '_max']) for c in 'xyz'])
CX, CY, RR = V('cx'), V('cy'), V('cr')
def cdist(x): return (x[0] - CX) * (x[0] - CX) + (x[1] - CY) * (x[1] - CY)
sector('CircSector', dict(x=CX, y=CY, r=RR), lambda: (lambda x, b: Lt(cdist(x), RR * RR + (TOL if b else -TOL)), cdist))

@item('C12', 'MultiSector.contains: the union of the members')
def _(t):
    for n in (0, 1, 2, 3):
        def f(e):
            pos = t.inp(e, 'pos', (3, NP))
            ms = [t.inp(e, f'm{k}', (NP,), 'b', owner='input') for k in range(n)]
            secs = [SymObj(None, dict(contains=PyFn(lambda en, p, m=m: m)), f's{k}') for k, m in enumerate(ms)]
            return t.method(e, t.obj(GR + 'MultiSector', sectors=secs), 'contains', [pos])
        for p in t.run(f, [Le(ONE, NP)]):
            e = p.eng; i = IV('i')
            t.equal(p, f'{n} members: one entry per point', p.val.shape[0], NP)
            got = e.truth(p.val.get((i,))); w = Or(*[Cond('lt', -UF(f'm{k}', [i])) for k in range(n)])
            t.goal(p, f'{n} members: union', Or(And(got, w), And(Not(got), Not(w))), [Le(ZERO, i), Lt(i, NP)])
            t.frame(p)

@item('C12', 'Grid.subdomain / Sector.contains: the whole plane')
def _(t):
    def f(e): return t.method(e, t.obj(GR + 'Sector'), 'contains', [t.inp(e, 'pos', (3, NP))])
    for p in t.run(f, [Le(ONE, NP)]):
        t.equal(p, 'one entry per point', p.val.shape[0], NP)
        t.forall(p, 'every point is contained', p.val, lambda v, ix: p.eng.truth(v))
