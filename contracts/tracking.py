"""Contracts on trajectories, angle tracking and virtual rotation (C22).

The spline routines of scipy are external (assumed): a spline is known by the support points it is built from.  What is
proved of the code is what it hands to them and what it makes of their values: support points in the order of time, one
consistent set of times, the window of trigger peaks around a sample, the angle as a function of the spline, and the angle
that belongs to each sample of a block."""
from pyvc.vc import *
from contracts.streams import src_of, PRE, NUM, NS, NC, TP
TJ = 'acoular.trajectory:'
PI = V('pi')

# ---- trajectories
def path(t, e, times, cached=False):
    """a trajectory with support points at the given times, in the order in which they were entered"""
    pts = {x: tuple(UF('pt', [P(x), P(c)]) for c in range(3)) for x in times}
    o = t.obj(TJ + 'Trajectory', points=pts)
    rec = e.rec = []
    def splprep(en, xp, u=None, s=None, k=3, **kw):
        rec.append((xp, u, s, k, kw)); return (Obj('tck', id=len(rec)), u)
    def splev(en, x, tck, der=0, **kw):
        if getattr(tck, 'kind', None) != 'tck' and not isinstance(tck, Obj): raise Unsupported('spline')
        x = en.asarray(x); g = x.snap()
        return [en.new(lambda ix, c=c: UF('curve', [P(c), P(num(der)), num(g(ix))]), x.shape) for c in range(3)]
    m = src.module('acoular.trajectory')
    e.overrides['acoular.trajectory', 'splprep'] = PyFn(splprep)
    e.overrides['acoular.trajectory', 'splev'] = PyFn(splev)
    t.assumed.add('scipy.interpolate.splprep with s=0 returns the curve through the given points at the given parameters; splev evaluates it and its derivatives')
    return o
for times in ((0.0,  1.0), (0.0, 0.5, 2.0), (2.0, -1.0, 0.25), (3.0, 0.5, 1.0, 2.0), (0.0, 4.0, 1.0, 3.0, 2.5), (1.0, 2.0, 7.0, 3.0, 5.0, 4.0, 6.0)):
    def _(times=times):
        n = len(times); st = sorted(times)
        @item('C22', f'Trajectory: curve through the support points in order of time, entered as {", ".join(map(str, times))}')
        def _(t):
            T = V('t')
            def f(e):
                o = path(t, e, times)
                iv = t.get(e, o, 'interval')
                der = IV('der')
                e.base = iv, t.method(e, o, 'location', [T, der]), o
                return None
            for p in t.run(f, []):
                e = p.eng; iv, loc, o = e.base
                ok = lambda nm, c: t.goal(p, nm, TRUE if c else FALSE)
                t.equal(p, 'interval: first and last time', e.asarray(iv), e.new(lambda ix: ite(Eq(ix[0], ZERO), P(st[0]), P(st[-1])), (P(2),)))
                ok('splines are made without smoothing, of the degree the points allow', len(e.rec) >= 1 and all(num(r[2]) == ZERO and num(r[3]) == P(min(3, n - 1)) and not r[4] for r in e.rec))
                for xp, u, s, k, kw in e.rec:
                    t.equal(p, 'parameters of the support points: their times, in order', e.asarray(u), e.new(lambda ix: sum((ite(Eq(ix[0], P(j)), P(st[j]), ZERO) for j in range(n)), ZERO), (P(n),)))
                    t.equal(p, 'coordinates of the support points, in the same order', e.asarray(xp), e.new(lambda ix: sum((ite(Eq(ix[1], P(j)), sum((ite(Eq(ix[0], P(c)), UF('pt', [P(st[j]), P(c)]), ZERO) for c in range(3)), ZERO), ZERO) for j in range(n)), ZERO), (P(3), P(n))))
                ok('three coordinates', isinstance(loc, (list, tuple)) and len(loc) == 3)
                for c in range(3): t.equal(p, f'location: coordinate {c} of the curve or its derivative', num(e.asarray(loc[c]).get(())), UF('curve', [P(c), IV('der'), V('t')]))
    _()
T0, T1, DT, D = V('t_start'), V('t_end'), V('delta_t'), IV('der')
for nm, args, lo, hi, dt in (('all arguments', (T0, T1, DT, D), T0, T1, DT), ('without end', (T0, None, DT, D), T0, P(2.0), DT), ('one argument', (T0,), P(0.0), P(2.0), T0)):
    def _(nm=nm, args=args, lo=lo, hi=hi, dt=dt):
        @item('C22', f'Trajectory.traj, {nm}: item j is the location at start + j * step')
        def _(t):
            def f(e):
                o = path(t, e, (0.0, 0.5, 2.0))
                t.method(e, o, 'traj', list(args))
            for p in t.run(f, [Lt(ZERO, dt), Lt(lo, hi), Not(Eq(dt, ZERO))]):
                e = p.eng
                n = -mkapp('floor', [-(hi - lo) * inverse(dt)])
                der = D if len(args) > 3 else ZERO
                if len(e.events) != 1 or len(e.events[0].loops) != 1: raise Unsupported(f'traversal of another form {e.events} {p.kind} {p.val}')
                ev = e.events[0]; k, a, b = ev.loops[0]
                t.goal(p, 'number of items', Eq(b - a, n))
                t.goal(p, 'three coordinates', TRUE if isinstance(ev.value, tuple) and len(ev.value) == 3 else FALSE)
                for c in range(3):
                    v = ev.value[c]
                    v = v.get(()) if isinstance(v, NDArr) else v
                    t.obls.append((f'coordinate {c}', Oblig(f'coordinate {c}', list(ev.hyps), sub(num(v), UF('curve', [P(c), P(der), lo + (k - a) * dt])), 'zero')))
    _()

# ---- virtual rotation: the angle that belongs to each sample
def rotor(t, e, cls, **kw):
    s = t.source(e, 'src', NS, NC, fs=FS_)
    def core(en, p, phi_delay=None, period=None, Q=None, interp_at_zero=False):
        a = None if phi_delay is None else en.asarray(phi_delay)
        if a is not None and not en.quiet: en.oblige('one angle per sample', Eq(a.shape[0], p.shape[0]))
        px, ax = p.snap(), a.snap() if a is not None else None
        i0 = IV('anychannel')
        return en.new(lambda ix: UF('core', [num(px((ix[0], i0))), num(ax((ix[0],))) if a is not None else ZERO, ONE if a is None else ZERO, P(num(period)) if period is not None else ZERO, ix[1]]), (p.shape[0], IV('nv')))
    t.assumed.add('SpatialInterpolator._result_core_func interpolates sample by sample: a row of its result depends on that row and its angle (bounded oracle)')
    o = t.obj(TP + cls, source=s, _result_core_func=PyFn(core), sample_freq=FS_, Q=V('Q'), **kw)
    return o
FS_, SP = V('fs'), V('speed')
NV = IV('nv')
RPRE = PRE + [Le(ONE, NV), Lt(ZERO, FS_), Le(ZERO, IV('anychannel')), Lt(IV('anychannel'), NC)]
def core_(x, ang, none=False, period=2 * PI): return lambda i, m: UF('core', [UF('src.x', [i, IV('anychannel')]), ZERO if none else ang(i), ONE if none else ZERO, ZERO if none else period, m])
@item(['C22', 'C01'], 'SpatialInterpolator.result: the samples of the source')
def _(t):
    def f(e): t.method(e, rotor(t, e, 'SpatialInterpolator'), 'result', [NUM])
    for p in t.run(f, RPRE): t.stream(p, 'stream', NUM, NS, (NC,), lambda i, c: UF('src.x', [i, c]))
@item(['C22', 'C01'], 'SpatialInterpolatorRotation.result: sample i is rotated by the tracked angle of sample i')
def _(t):
    def f(e):
        o = rotor(t, e, 'SpatialInterpolatorRotation', angle_source=SymObj(None, dict(angle=t.inp(e, 'angle', (NS,))), 'tracker'))
        t.method(e, o, 'result', [NUM])
    for p in t.run(f, RPRE): t.stream(p, 'stream', NUM, NS, (NV,), core_(None, lambda i: UF('angle', [i])))
@item(['C22', 'C01'], 'SpatialInterpolatorConstantRotation.result: sample i is rotated by 2 pi i speed / fs')
def _(t):
    def f(e):
        o = rotor(t, e, 'SpatialInterpolatorConstantRotation', rotational_speed=SP)
        e.hints = [lambda ix, k: None if ix else P(k) * NUM * 2 * PI * SP * inverse(FS_)]
        t.method(e, o, 'result', [NUM])
    for p in t.run(f, RPRE): t.stream(p, 'stream', NUM, NS, (NV,), core_(None, lambda i: 2 * PI * SP * i * inverse(FS_)))

# ---- angle tracking
NP, TPR, DIR, A0 = IV('npeaks'), V('tpr'), V('dir'), V('a0')
for ip in (4, 5, 6):
    def _(ip=ip):
        @item('C22', f'AngleTracker._to_rpm_and_angle, {ip} support points: spline through (peak, number of the peak) around each sample')
        def _(t):
            FIRST = None
            def f(e):
                pk = t.inp(e, 'peak', (NP,), 'i')
                rec = e.rec = []
                def splrep(en, x, y, k=3, **kw):
                    x, y = en.asarray(x), en.asarray(y)
                    if not en.quiet:
                        j = IV(fresh_name('j')); h = list(en.hyps) + [Le(ZERO, j), Lt(j, ip)]
                        yj = num(y.get((j,)))
                        en.obls.append(Oblig('support points: the peak whose number it is', h, sub(num(x.get((j,))), UF('peak', [yj], True)), 'zero'))
                        en.obls.append(Oblig('support points: consecutive peaks', h, sub(yj, num(y.get((ZERO,))) + j), 'zero'))
                        en.oblige('number of support points', And(Eq(x.shape[0], ip), Eq(y.shape[0], ip)))
                        en.oblige('the window of peaks exists', And(Le(ZERO, num(y.get((ZERO,)))), Le(num(y.get((ZERO,))) + ip, NP)))
                    if k != 3 or kw: raise Unsupported('spline')
                    return Obj('tck', first=num(y.get((ZERO,))))
                def splev(en, x, tck, der=0, ext=0): 
                    return UF('spl', [P(der), tck.first, P(num(x))])
                e.overrides['acoular.tprocess', 'splrep'] = PyFn(splrep)
                e.overrides['acoular.tprocess', 'splev'] = PyFn(splev)
                t.assumed.add('scipy.interpolate.splrep/splev: interpolating cubic spline and its derivative')
                s = t.source(e, 'src', NS, NC, fs=FS_)
                o = t.obj(TP + 'AngleTracker', source=s, trigger=SymObj(None, dict(trigger_data=(pk, V('maxdist'), V('mindist'))), 'trigger'),
                          trigger_per_revo=TPR, rot_direction=DIR, start_angle=A0, interp_points=ip)
                t.method(e, o, '_to_rpm_and_angle'); e.base = o
            for p in t.run(f, [Le(ONE, NS), Le(P(ip), NP), Not(Eq(TPR, ZERO))]):
                e = p.eng; o = e.base
                def first(i):
                    q = IV(fresh_name('q'), True) if False else Var(fresh_name('q'), True)
                    c = make_sum([(q, ZERO, NP)], ind(Le(UF('peak', [P(q)], True), i))) - ip // 2
                    m = ite(Le(c, NP - ip), c, NP - ip)
                    return ite(Le(m, ZERO), ZERO, m)
                i, q = IV('i'), IV('q')
                c = make_sum([(Var('w', True), ZERO, NP)], ind(Le(UF('peak', [P(Var('w', True))], True), i)))
                t.goal(p, 'a sample between two peaks lies in the window of its spline', And(Le(first(i), q), Lt(q, first(i) + ip)), [Eq(c, q + 1), Le(ZERO, q), Lt(q, NP)])
                t.goal(p, 'and so does the end of the interval', Lt(q + 1, first(i) + ip), [Eq(c, q + 1), Le(ZERO, q), Lt(q + 1, NP)])
                t.equal(p, 'speed of rotation', o.attrs['_rpm'], e.new(lambda ix: UF('spl', [ONE, first(ix[0]), ix[0]]) * 60 * FS_, (NS,)))
                ang = lambda ix: UF('spl', [ZERO, first(ix[0]), ix[0]]) * 2 * PI * DIR * inverse(TPR) + A0
                t.equal(p, 'angle', o.attrs['_angle'], e.new(lambda ix: num(e.binop('Mod', ang(ix), 2 * PI)), (NS,)))
    _()

# ---- trigger: which samples are beyond the threshold
TH = V('threshold')
BN = IV('bn')
for neg in (False, True):
    def beyond(v, neg=neg): return Lt(v, TH) if neg else Lt(TH, v)
    sg = [Le(TH, ZERO)] if neg else [Lt(ZERO, TH)]
    def _(neg=neg, beyond=beyond, sg=sg):
        nm = 'below a negative' if neg else 'above a positive'
        @item('C22', f'Trigger._trigger_dirac: samples {nm} threshold')
        def _(t):
            def f(e):
                o = t.obj(TP + 'Trigger'); x = t.inp(e, 'x', (BN, 1))
                return t.method(e, o, '_trigger_dirac', [[], x, TH])
            for p in t.run(f, [Le(ONE, BN)] + sg):
                e = p.eng
                t.goal(p, 'one flag per sample', Eq(p.val.shape[0], BN))
                t.forall(p, 'flag', p.val, lambda v, ix: (lambda c: Or(And(e.truth(v), c), And(Not(e.truth(v)), Not(c))))(beyond(UF('x', [ix[0], ZERO]))))
        for first in (True, False):
            def _(first=first):
                @item('C22', f'Trigger._trigger_rect: steps {nm} threshold, {"first block" if first else "later block"}')
                def _(t):
                    def f(e):
                        o = t.obj(TP + 'Trigger'); x = t.inp(e, 'x', (BN, 1))
                        return t.method(e, o, '_trigger_rect', [[] if first else t.inp(e, 'prev', (1,)), x, TH])
                    for p in t.run(f, [Le(ONE, BN)] + sg):
                        e = p.eng
                        t.goal(p, 'one flag per sample', Eq(p.val.shape[0], BN))
                        step = lambda i: ite(Eq(i, ZERO), ZERO if first else UF('x', [ZERO, ZERO]) - UF('prev', [ZERO]), UF('x', [i, ZERO]) - UF('x', [i - 1, ZERO]))
                        t.forall(p, 'flag', p.val, lambda v, ix: (lambda c: Or(And(e.truth(v), c), And(Not(e.truth(v)), Not(c))))(beyond(step(ix[0]))))
            _()
    _()

@item('C22', 'AngleTracker.average_rpm: turns between the first and the last peak over their distance')
def _(t):
    def f(e):
        pk = t.inp(e, 'peak', (NP,), 'i'); s = t.source(e, 'src', NS, NC, fs=FS_)
        o = t.obj(TP + 'AngleTracker', source=s, trigger=SymObj(None, dict(trigger_data=(pk, V('maxdist'), V('mindist'))), 'trigger'), trigger_per_revo=TPR)
        return t.get(e, o, 'average_rpm')
    PK = lambda i: UF('peak', [i], True)
    for p in t.run(f, [Le(P(2), NP), Not(Eq(TPR, ZERO)), Lt(PK(ZERO), PK(NP - 1))]):
        t.equal(p, 'speed', num(p.val), (NP - 1) * inverse(TPR) * inverse(PK(NP - 1) - PK(ZERO)) * FS_ * 60)
