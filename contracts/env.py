"""Contracts on propagation distances and flow fields (C14)."""
from pyvc.vc import *
from fractions import Fraction
EN = 'acoular.environments:'
N, M = IV('N'), IV('M')
SZ = [Le(ONE, N), Le(ONE, M)]
n_, m_ = IV('n'), IV('m')
def d_(m=m_, mp=True): return [UF('g', [P(c), n_]) - (UF('x', [P(c), m]) if mp else ZERO) for c in range(3)]
def sq(v): return v[0] * v[0] + v[1] * v[1] + v[2] * v[2]
IN = [Le(ZERO, n_), Lt(n_, N), Le(ZERO, m_), Lt(m_, M)]

def dist(t, p, got, nm, m=m_, mp=True):
    h = list(p.eng.hyps) + IN
    t.obls.append((nm + ': squared distance', Oblig('distance', h, sub(got * got, sq(d_(m, mp))), 'zero')))
    t.obls.append((nm + ': not negative', Oblig('not negative', h, Le(ZERO, got))))

@item(['C14', 'C07'], 'dist_mat: Euclidean distances, one row per point, one column per microphone')
def _(t):
    for p in t.run(lambda e: t.call(e, EN + 'dist_mat', [t.inp(e, 'g', (3, N)), t.inp(e, 'x', (3, M))]), SZ):
        t.equal(p, 'rows', p.val.shape[0], N); t.equal(p, 'columns', p.val.shape[1], M)
        dist(t, p, num(p.val.get((n_, m_))), 'element'); t.frame(p)

@item('C14', 'Environment._r: Euclidean distances (also for one microphone and for the origin)')
def _(t):
    for p in t.run(lambda e: t.method(e, t.obj(EN + 'Environment'), '_r', [t.inp(e, 'g', (3, N)), t.inp(e, 'x', (3, M))]), SZ + [Le(P(2), M)]):
        t.equal(p, 'shape', tuple(p.val.shape), (N, M)); dist(t, p, num(p.val.get((n_, m_))), 'element'); t.frame(p)
    for p in t.run(lambda e: t.method(e, t.obj(EN + 'Environment'), '_r', [t.inp(e, 'g', (3, N)), t.inp(e, 'x', (3, ONE))]), SZ):
        t.equal(p, 'one microphone: shape', tuple(p.val.shape), (N,)); dist(t, p, num(p.val.get((n_,))), 'one microphone', ZERO); t.frame(p)
    for p in t.run(lambda e: t.method(e, t.obj(EN + 'Environment'), '_r', [t.inp(e, 'g', (3, N))]), SZ):
        t.equal(p, 'origin: shape', tuple(p.val.shape), (N,)); dist(t, p, num(p.val.get((n_,))), 'origin', ZERO, False)

MA = V('ma'); FD = [V('f' + c) for c in 'xyz']
def flow_item(one):
    @item('C14', f'UniformFlowEnvironment._r: convected path length ({"one microphone" if one else "several microphones"})')
    def _(t):
        mm = ONE if one else M; ix = (n_,) if one else (n_, m_); mi = ZERO if one else m_
        nf = sqrt(sq(FD))
        for p in t.run(lambda e: t.method(e, t.obj(EN + 'UniformFlowEnvironment', ma=MA, fdv=e.asarray(FD)), '_r', [t.inp(e, 'g', (3, N)), t.inp(e, 'x', (3, mm))]),
                       SZ + ([] if one else [Le(P(2), M)]) + [Lt(ZERO, nf), Lt(MA, ONE), Lt(P(-1), MA)]):
            t.equal(p, 'shape', tuple(p.val.shape), (N,) if one else (N, M))
            R = num(p.val.get(ix)); d = d_(mi); r = sqrt(sq(d))
            proj = (d[0] * FD[0] + d[1] * FD[1] + d[2] * FD[2]) * inverse(nf)
            h = list(p.eng.hyps) + IN + [Lt(ZERO, r)]
            # |mic - point - ma*R*flow direction| = R : the wave front of radius R carried along by the flow for the travel time R/c
            t.obls.append(('the convected wave front reaches the microphone', Oblig('wave front', h, sub(sq(d) + MA * R * proj * 2 + MA * MA * R * R, R * R), 'zero')))
            t.frame(p)
        for p in t.run(lambda e: t.method(e, t.obj(EN + 'UniformFlowEnvironment', ma=ZERO, fdv=e.asarray(FD)), '_r', [t.inp(e, 'g', (3, N)), t.inp(e, 'x', (3, mm))]), SZ + ([] if one else [Le(P(2), M)])):
            dist(t, p, num(p.val.get(ix)), 'zero speed', mi)
flow_item(True); flow_item(False)

X = [V('px'), V('py'), V('pz')]; OG = [V('ox'), V('oy'), V('oz')]
def field(cls, hyps=(), kinks=(), **attrs):
    @item('C14', f'{cls}.v: the second value is the Jacobian of the first')
    def _(t):
        def f(e):
            e.defs = {}
            if cls == 'SlotJet':       # sub-terms abbreviated by variables (their defining terms are used by the derivative)
                t.assumed.add('numpy.linalg.norm returns a positive number for the direction vectors of SlotJet')
                nn = iter([V('norm_flow'), V('norm_plane'), V('norm3')])
                e.overrides[('acoular.environments', 'norm')] = PyFn(lambda en, v: next(nn))
                def abbrev(en, x):
                    v = fresh_name('ab'); e.defs[v] = num(x); return V(v)
                def mydot(en, a, b):
                    r = en.np('dot')(a, b)
                    return abbrev(en, r) if not isinstance(r, NDArr) else r
                def mycross(en, a, b):
                    r = en.np('cross')(a, b)
                    return en.asarray([abbrev(en, r.get((P(i),))) for i in range(3)])
                e.overrides[('acoular.environments', 'dot')] = PyFn(mydot); e.overrides[('acoular.environments', 'cross')] = PyFn(mycross)
            o = t.obj(EN + cls, origin=e.asarray(OG), **{k: (e.asarray(v) if isinstance(v, list) else v) for k, v in attrs.items()})
            return t.method(e, o, 'v', [e.asarray(X)])
        for p in t.run(f, list(hyps)):
            v, dv = p.val
            t.equal(p, 'shape of the velocity', tuple(v.shape), (3,)); t.equal(p, 'shape of the Jacobian', tuple(dv.shape), (3, 3))
            for i in range(3):
                vi = num(v.get((P(i),)))
                for j in range(3):
                    t.obls.append((f'd v[{i}] / d x[{j}]', Oblig('Jacobian', list(p.eng.hyps) + list(kinks) + [Not(Eq(V(n), 0)) for n in p.eng.defs], sub(num(dv.get((P(i), P(j)))), diff(vi, X[j], p.eng.defs)), 'zero')))
xx = [X[i] - OG[i] for i in range(3)]
rad = sqrt(xx[1] * xx[1] + xx[2] * xx[2])
field('OpenJet', [Lt(ZERO, xx[0]), Lt(ZERO, V('l'))], [Lt(ZERO, rad)], v0=V('v0'), D=V('D'), l=V('l'))
field('RotatingFlow', v0=V('v0'), rps=V('rps'))
fl, pl_ = [V('flx'), V('fly'), V('flz')], [V('plx'), V('ply'), V('plz')]
field('SlotJet', [Lt(ZERO, V('norm_flow')), Lt(ZERO, V('norm_plane')), Lt(ZERO, V('l'))], v0=V('v0'), flow=fl, plane=pl_, B=V('B'), l=V('l'))

def velocity(cls, hyps, profile, direction, **attrs):
    """the velocity is the published profile times the flow direction"""
    @item('C14', f'{cls}.v: the velocity is the documented profile')
    def _(t):
        def f(e):
            if cls == 'SlotJet':
                t.assumed.add('numpy.linalg.norm returns a positive number for the direction vectors of SlotJet')
                nn = iter([V('norm_flow'), V('norm_plane'), V('norm3')])
                e.overrides[('acoular.environments', 'norm')] = PyFn(lambda en, v: next(nn))
            return t.method(e, t.obj(EN + cls, origin=e.asarray(OG), **{k: (e.asarray(v) if isinstance(v, list) else v) for k, v in attrs.items()}), 'v', [e.asarray(X)])
        for p in t.run(f, list(hyps)):
            for nm, c, U in profile:
                for i in range(3):
                    t.equal(p, f'{nm}: component {i}', num(p.val[0].get((P(i),))), direction[i](U), hyps=c)
exp_ = lambda x: mkapp('exp', [P(x)])
oj1 = P(Fraction('0.5022')) * inverse(V('l')) * xx[0]; ojh = rad + oj1 - P(Fraction(1, 2)) * V('D')
velocity('OpenJet', [Lt(ZERO, xx[0]), Lt(ZERO, V('l'))], [('core', [Lt(ojh, ZERO)], V('v0')), ('shear layer', [Le(ZERO, ojh)], V('v0') * exp_(-ojh * ojh * inverse(2 * oj1 * oj1)))],
         [lambda U: U, lambda U: ZERO, lambda U: ZERO], v0=V('v0'), D=V('D'), l=V('l'))
om = P(2) * V('pi') * V('rps')
velocity('RotatingFlow', [], [('rigid rotation', [], None)], [lambda U: -om * xx[1], lambda U: om * xx[0], lambda U: V('v0')], v0=V('v0'), rps=V('rps'))

fu = [c * inverse(V('norm_flow')) for c in fl]; pu = [c * inverse(V('norm_plane')) for c in pl_]
sx = fu[0] * xx[0] + fu[1] * xx[1] + fu[2] * xx[2]
sn = [fu[1] * pu[2] - fu[2] * pu[1], fu[2] * pu[0] - fu[0] * pu[2], fu[0] * pu[1] - fu[1] * pu[0]]          # normal of the slot's centre plane
sy = sn[0] * xx[0] + sn[1] * xx[1] + sn[2] * xx[2]
sj1 = P(Fraction('0.5668')) * inverse(V('l')) * sx; sjh = mkapp('abs', [sy]) + sqrt(V('pi')) * Fraction(1, 2) * sj1 - P(Fraction(1, 2)) * V('B')
velocity('SlotJet', [Lt(ZERO, V('norm_flow')), Lt(ZERO, V('norm_plane')), Lt(ZERO, V('l'))],
         [('core', [Lt(sjh, ZERO)], V('v0')), ('shear layer', [Le(ZERO, sjh)], V('v0') * exp_(-sjh * sjh * inverse(2 * sj1 * sj1)))],
         [lambda U, i=i: fu[i] * U for i in range(3)], v0=V('v0'), flow=fl, plane=pl_, B=V('B'), l=V('l'))
