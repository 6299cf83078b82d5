"""Contracts on SteeringVector (C07)."""
from pyvc.vc import *
FB = 'acoular.fbeamform:'
G, M = IV('G'), IV('M')
F, CS = V('f'), V('c')
PI = V('pi')
SZ = [Le(ONE, G), Le(ONE, M)]
def pos(e, name, shape):
    pv.POSITIVE.add(name); pv.NONNEG.add(name)
    return Task.inp(e, name, shape)
KEYS = {'classic': 'amplitude 1/N, phase of the transfer function', 'inverse': 'transfers the source to unit amplitude', 'true level': 'transfers the source to unit amplitude', 'true location': 'sum of squared amplitudes 1/N'}
IND = IV('ind'); SEL = IV('S')

def sv(t, e, kind):
    r0 = pos(e, 'r0', (G,)); rm = pos(e, 'rm', (G, M))
    o = t.obj(FB + 'SteeringVector', steer_type=kind, r0=r0, rm=rm, env=SymObj(None, dict(c=CS), 'env'), _steer_funcs_freq=Lazy(lambda en: t.default(en, FB + 'SteeringVector', '_steer_funcs_freq')))
    return o, r0, rm

def _sel(e, t, which):
    """(argument, selected r0, selected rm, number of rows)"""
    if which == 'all': return [], G
    if which == 'one': return [IND], ONE
    pv.int_range('sel', ZERO, G)
    return [t.inp(e, 'sel', (SEL,), 'i')], SEL
def _rows(e, r0, rm, which, arg):
    if which == 'all': return r0, rm
    if which == 'one': return e.new(lambda ix: UF('r0', [IND]), (ONE,)), e.new(lambda ix: UF('rm', [IND, ix[1]]), (ONE, M))
    return e.index(r0, arg[0]), e.index(rm, (arg[0], slice(None)))

for which in ('all', 'one', 'several'):
    def _(which):
        @item('C07', f'SteeringVector.transfer: reference distance over distance times the phase of the path difference ({which} grid point{"s" if which != "one" else ""})')
        def _(t):
            def f(e):
                o, r0, rm = sv(t, e, 'classic')
                arg, n = _sel(e, t, which)
                a0, am = _rows(e, r0, rm, which, arg)
                return t.method(e, o, 'transfer', [F] + arg), t.spec(e, 'transfer', a0, am, PI * F * 2 * inverse(CS))
            for p in t.run(f, SZ + [Le(ZERO, IND), Lt(IND, G), Le(ONE, SEL), Lt(ZERO, CS)]):
                t.equal(p, 'transfer', p.val[0], p.val[1]); t.frame(p)
        for kind in KEYS:
            def _k(kind):
                @item('C07', f'SteeringVector.steer_vector {kind} ({which} grid point{"s" if which != "one" else ""}): closed form; {KEYS[kind]}')
                def _(t):
                    def f(e):
                        o, r0, rm = sv(t, e, kind)
                        arg, n = _sel(e, t, which)
                        a0, am = _rows(e, r0, rm, which, arg)
                        k = PI * F * 2 * inverse(CS)
                        return t.method(e, o, 'steer_vector', [F] + arg), t.spec(e, 'steer', kind, a0, am, k), t.spec(e, 'transfer', a0, am, k)
                    for p in t.run(f, SZ + [Le(ZERO, IND), Lt(IND, G), Le(ONE, SEL), Lt(ZERO, CS)]):
                        e = p.eng; h, w, a = p.val
                        t.equal(p, 'closed form', h, w); t.frame(p)
                        g, m = IV('g'), IV('m'); v = Var('mm', True)
                        hy = list(e.hyps) + [Le(ZERO, g), Lt(g, h.shape[0]), Le(ZERO, m), Lt(m, M)]
                        def C_(a, ix): return C(num(a.get(ix)))
                        if kind == 'classic':
                            x = C_(h, (g, m)); t.obls.append(('amplitude 1/N', Oblig('amplitude', hy, sub(x.abs2(), inverse(M * M)), 'zero')))
                        elif kind == 'true location':
                            s = make_sum([(v, ZERO, M)], C_(h, (g, P(v))).abs2()); t.obls.append(('sum of squares 1/N', Oblig('sum of squares', hy, sub(s, inverse(M)), 'zero')))
                        else:
                            x = C_(h, (g, P(v))).conj() * C_(a, (g, P(v)))
                            t.obls.append(('unit transfer', Oblig('unit transfer', hy, sub(Cx(make_sum([(v, ZERO, M)], x.re), make_sum([(v, ZERO, M)], x.im)), C(1)), 'zero')))
            _k(kind)
    _(which)

@item(['C07', 'C14'], 'SteeringVector.r0: the reference distance, or the distance to the reference point')
def _(t):
    D = lambda g, x: UF('dist', [g, x])
    def env(e):
        def r(en, g, m=None):
            if m is None: return en.new(lambda ix: UF('dist0', ix), (G,))
            if not isinstance(m, NDArr) or m.ndim != 2: raise Unsupported('reference point')
            return en.new(lambda ix: UF('distp', [ix[0], num(m.get((ZERO, ZERO))), num(m.get((P(1), ZERO))), num(m.get((P(2), ZERO)))]), (G,))
        return SymObj(None, dict(_r=PyFn(r), c=CS), 'env')
    grid = SymObj(None, dict(size=G, pos=Obj('pos')), 'grid')
    R = V('ref')
    g = IV('g')
    for nm, ref, hy, want in (('positive distance', R, [Lt(ZERO, R)], R), ('zero: distance to the origin', R, [Eq(R, 0)], UF('dist0', [g])),
                              ('point', [V('rx'), V('ry'), V('rz')], [], UF('distp', [g, V('rx'), V('ry'), V('rz')]))):
        def f(e): return t.get(e, t.obj(FB + 'SteeringVector', _ref=e.asarray(ref) if isinstance(ref, list) else ref, env=env(e), grid=grid), 'r0')
        for p in t.run(f, SZ + hy):
            t.equal(p, nm + ': one entry per grid point', p.val.shape[0], G)
            t.obls.append((nm, Oblig(nm, list(p.eng.hyps) + [Le(ZERO, g), Lt(g, G)], sub(num(p.val.get((g,))), want), 'zero')))

@item(['C07', 'C14'], 'SteeringVector.rm: one row per grid point, one column per microphone')
def _(t):
    for one in (True, False):
        mm = ONE if one else M
        def f(e):
            r = PyFn(lambda en, g, m: en.new((lambda ix: UF('d', [ix[0], ZERO])) if one else (lambda ix: UF('d', ix)), (G,) if one else (G, M)))
            o = t.obj(FB + 'SteeringVector', env=SymObj(None, dict(_r=r), 'env'), grid=SymObj(None, dict(pos=Obj('pos')), 'grid'), mics=SymObj(None, dict(num_mics=mm, pos=Obj('pos')), 'mics'))
            return t.get(e, o, 'rm')
        for p in t.run(f, SZ + ([] if one else [Le(P(2), M)])):
            t.equal(p, 'shape', tuple(p.val.shape), (G, mm))
            t.equal(p, 'entries', p.val, p.eng.new(lambda ix: UF('d', [ix[0], ZERO] if one else ix), (G, mm)))
