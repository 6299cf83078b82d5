"""C19 simulated sources and signal generators."""
import warnings
import numpy as np
import acoular as ac
from oracles.lib import case
from oracles.h import *


def sine(rng, n=None, fs=None):
    """a sine with a whole number of periods, so that its periodic continuation and its interpolation are known"""
    n = n or int(rng.integers(40, 400)); fs = fs or float(rng.choice([1000., 8000., 51200.]))
    k = int(rng.integers(1, max(2, n // 8)))
    a, ph = float(rng.uniform(.3, 3)), float(rng.uniform(0, 6))
    g = ac.SineGenerator(num_samples=n, sample_freq=fs, freq=k * fs / n, amplitude=a, phase=ph)
    w = 2 * np.pi * k * fs / n
    return g, (lambda t: a * np.sin(w * t + ph)), a * w / fs


def geom(rng, m=None):
    m = m or int(rng.integers(1, 5))
    mg = mics(rng, m, .6)
    loc = tuple(float(x) for x in np.r_[rng.uniform(-.5, .5, 2), rng.uniform(.2, 1.5)])
    env = ac.Environment(c=float(rng.uniform(300, 360)))
    r = np.sqrt(((np.array(loc)[:, None] - mg.pos) ** 2).sum(0))
    return mg, loc, env, r


def stream(t, gen, num, key, n, nc, /, **inp):
    bl = [np.array(b, copy=True) for b in gen.result(num)]
    sizes = [b.shape[0] for b in bl]
    t.check(all(s == num for s in sizes[:-1]) and (not sizes or 0 < sizes[-1] <= num), key + '-blocks', f'{sizes} num={num}', **inp)
    r = np.concatenate(bl) if bl else np.empty((0, nc))
    t.check(r.shape[1] == nc, key + '-columns', f'{r.shape}', **inp)
    if n is not None:
        t.check(r.shape[0] == n, key + '-rows', f'{r.shape[0]} rows instead of {n}', **inp)
    return r


def nearest(us, pos):
    """values of the upsampled signal at the index next to pos, and where this index is not ambiguous"""
    i = np.floor(pos + .5).astype(int)
    sure = (abs(pos - np.floor(pos) - .5) > 1e-3) & (pos >= 0) & (i < len(us))
    return us[i % len(us)], sure


@case('C19', 'point source', 50)
def point(t):
    for r in t.rounds(40, 400):
        g, s, slope = sine(t.rng)
        mg, loc, env, rm = geom(t.rng)
        n, fs = g.num_samples, g.sample_freq
        up = int(t.rng.choice([1, 2, 16]))
        T = n / fs
        st, s0 = (float(t.rng.choice([0., 1., 1.])) * float(t.rng.uniform(0, .7)) * T for _ in range(2))
        pad = 'zeros' if r % 2 else 'loop'
        inp = dict(n=n, fs=fs, up=up, start_t=st, start=s0, prepadding=pad, r=rm)
        tt = s0 - st + np.arange(n)[:, None] / fs - rm / env.c
        want = s(tt) / rm
        if pad == 'zeros':
            want[tt < 0] = 0
        edge = abs(tt * fs * up) < 1e-6
        for num in (7, 64, n, n + 3):
            with t.guard('point-raises', num=num, **inp):
                p = ac.PointSource(signal=g, mics=mg, loc=loc, env=env, start_t=st, start=s0, up=up, prepadding=pad)
                y = stream(t, p, num, 'point', n, mg.num_mics, num=num, **inp)
                if y.shape == want.shape:
                    d = abs(y - want) * rm
                    d[edge] = 0
                    lim = slope * np.where(tt < 0, 1.51, .51) / up * 1.001 + 1e-9 * abs(want).max()
                    t.check((d <= lim).all(), 'point-signal', f'largest deviation {d.max()}, {slope / up}', num=num, **inp)
        # any signal: the value at the nearest position of the upsampled signal
        w = ac.WNoiseGenerator(num_samples=n, sample_freq=fs, seed=r)
        us = w.usignal(up)
        v, sure = nearest(us, tt * fs * up)
        with t.guard('point-raises', **inp):
            y = stream(t, ac.PointSource(signal=w, mics=mg, loc=loc, env=env, start_t=st, start=s0, up=up, prepadding=pad), 32, 'point', n, mg.num_mics)
            t.close((y * rm)[sure], v[sure], 'point-noise', rtol=1e-9, **inp)


@case('C19', 'spherical harmonic source', 20)
def sph(t):
    for r in t.rounds(12, 100):
        g, s, slope = sine(t.rng)
        mg, loc, env, rm = geom(t.rng)
        n, fs = g.num_samples, g.sample_freq
        lo = int(r % 3)
        if rm.max() / env.c * fs > n - 2:      # a signal shorter than the travel time ends the stream (known finding of C01)
            continue
        al = np.zeros((lo + 1) ** 2); al[int(t.rng.integers(0, len(al)))] = float(t.rng.uniform(.5, 2))
        d = tuple(float(x) for x in t.rng.standard_normal(3))
        Y = (ac.sources.get_modes(lOrder=lo, direction=d, mpos=mg.pos.copy(), sourceposition=np.array(loc)) @ al).real
        if lo == 0:
            t.close(Y, np.full(mg.num_mics, al[0] / np.sqrt(4 * np.pi)), 'sh-order-zero', rtol=1e-9)
        for num in (5, n):
            with t.guard('sh-raises'):
                y = stream(t, ac.SphericalHarmonicSource(signal=g, mics=mg, loc=loc, env=env, lOrder=lo, alpha=al, direction=d, up=16), num, 'sh', n, mg.num_mics)
                if len(y) != n: continue
                tt = np.arange(n)[:, None] / fs - rm / env.c
                want = s(tt) / rm * Y
                # the source adds a constant offset of pi/30 samples
                t.check((abs(y[:n] - want[:len(y)]) * rm <= abs(Y) * slope * (1.52 / 16 + np.pi / 30) * 1.01 + 1e-9).all(), 'sh-signal', f'{abs(y - want[:len(y)]).max()}', order=lo, alpha=al)


def tr_line(rng, T, rest=False):
    v = np.array([rng.uniform(-80, 80), rng.uniform(-40, 40), rng.uniform(-10, 10)]) * (0 if rest else 1)
    p0 = np.array([rng.uniform(-.3, .3), rng.uniform(-.3, .3), rng.uniform(.6, 1.5)])
    tt = np.linspace(-1. * T - .02, 2 * T, 6)
    return ac.Trajectory(points={float(a): tuple(p0 + v * a) for a in tt}), (lambda a: p0[:, None] + v[:, None] * a), v


def emission(pos, mp, c, t0):
    """solution of te + |x(te) - m| / c = t by fixed point iteration (subsonic)"""
    te = np.full(mp.shape[1], t0)
    for _ in range(200):
        te = t0 - np.sqrt(((pos(te) - mp) ** 2).sum(0)) / c
    return te


@case('C19', 'moving source', 50)
def moving(t):
    for r in t.rounds(16, 120):
        g, s, slope = sine(t.rng, n=int(t.rng.integers(60, 200)), fs=8000.)
        mg, _, env, _ = geom(t.rng, 1 if r % 2 else None)
        conv = bool(r % 2)
        if conv:
            mg = ac.MicGeom(pos_total=np.zeros((3, 1)))
        n, fs, up = g.num_samples, g.sample_freq, 16
        T = n / fs
        tr, pos, v = tr_line(t.rng, T, r % 5 == 0)
        st = float(t.rng.choice([0., .1])) * T; s0 = float(t.rng.choice([0., .2])) * T
        te = np.array([emission(pos, mg.pos, env.c, s0 + k / fs) for k in range(n)])
        x = np.array([pos(a) for a in te])                      # (n, 3, m)
        d = x - mg.pos[None]
        rm = np.sqrt((d ** 2).sum(1))
        amp = 1 / rm
        if conv:
            amp = amp / (1 - (v[None, :, None] * d).sum(1) / rm / env.c) ** 2
        want = s(te - st) * amp
        ok = (te - st) * fs * up + .6 < n * up - 1
        L = int(ok.all(1).sum())
        inp = dict(n=n, start_t=st, start=s0, conv_amp=conv, velocity=v)
        for num in (7, n):
            with t.guard('moving-raises', **inp):
                y = stream(t, ac.MovingPointSource(signal=g, mics=mg, trajectory=tr, env=env, start_t=st, start=s0, up=up, conv_amp=conv), num, 'moving', None, mg.num_mics)
                t.check(L <= len(y) <= n, 'moving-rows', f'{len(y)} rows, {L} possible', **inp)
                k = min(L, len(y))
                lim = slope * (1.7 / up) * amp[:k] + 1e-3 * abs(want[:k]).max()
                t.check((abs(y[:k] - want[:k]) <= lim).all(), 'moving-signal', f'{(abs(y[:k] - want[:k]) / lim).max()} times the tolerance', num=num, **inp)


@case('C19', 'line, dipole and moving line sources', 50)
def line(t):
    for r in t.rounds(16, 120):
        g, s, slope = sine(t.rng, n=int(t.rng.integers(60, 300)), fs=8000.)
        mg, loc, env, _ = geom(t.rng)
        n, fs, up = g.num_samples, g.sample_freq, 16
        T = n / fs
        ns = int(t.rng.integers(1, 5)); ln = float(t.rng.uniform(.1, .8))
        d = t.rng.standard_normal(3); st = t.rng.uniform(.2, 2, ns)
        dn = d / np.linalg.norm(d)
        start_t = float(t.rng.choice([0., .1])) * T
        start = float(t.rng.choice([0., .5])) * start_t
        tt = np.arange(n)[:, None] / fs - start_t + start
        w = 0; tol = 0
        for k in range(ns):
            q = np.array(loc) + dn * ln / ns * k
            rk = np.sqrt(((q[:, None] - mg.pos) ** 2).sum(0))
            w = w + st[k] * s(tt - rk / env.c) / rk; tol = tol + st[k] * slope * 1.52 / up / rk
        inp = dict(n=n, ns=ns, length=ln, direction=d, strength=st, start_t=start_t, start=start)
        kw = dict(signal=g, mics=mg, loc=loc, env=env, start_t=start_t, start=start, up=up)
        for num in (7, n):
            with t.guard('line-raises', **inp):
                y = stream(t, ac.LineSource(num_sources=ns, length=ln, direction=tuple(d), source_strength=st, **kw), num, 'line', n, mg.num_mics, **inp)
                if y.shape == w.shape:
                    t.check((abs(y - w) <= tol + 1e-9).all(), 'line-signal', f'{(abs(y - w) / tol).max()} times the tolerance', **inp)
            # a line source that does not move
            with t.guard('movingline-raises', **inp):
                tr = ac.Trajectory(points={float(a): loc for a in np.linspace(-1., 1 + T, 5)})
                y = stream(t, ac.MovingLineSource(num_sources=ns, length=ln, direction=tuple(d), source_strength=st, trajectory=tr, **kw), num, 'movingline', n, mg.num_mics, **inp)
                if y.shape == w.shape:
                    t.check((abs(y - w) <= 1.5 * tol + 1e-3 * abs(w).max()).all(), 'movingline-rest', f'{(abs(y - w) / tol).max()} times the tolerance', **inp)
        # a single part of a moving line radiates like a moving point source
        with t.guard('movingline-raises', **inp):
            tr, pos, v = tr_line(t.rng, T)
            a = collect(ac.MovingPointSource(trajectory=tr, signal=g, mics=mg, env=env, up=up), 16)
            b = collect(ac.MovingLineSource(num_sources=1, length=ln, direction=tuple(d), source_strength=np.ones(1), trajectory=tr, signal=g, mics=mg, env=env, up=up), 16)
            k = min(len(a), len(b))
            t.check(abs(len(a) - len(b)) <= 1, 'movingline-single-rows', f'{len(a)} {len(b)}')
            t.check((abs(a[:k] - b[:k]) <= slope / up * 2 * 1.5 + 1e-3 * abs(a).max()).all(), 'movingline-single', f'{abs(a[:k] - b[:k]).max()} of {abs(a).max()}')
        # a line of one part is a point source
        with t.guard('line-raises', **inp):
            a = collect(ac.PointSource(**kw), 16); b = collect(ac.LineSource(num_sources=1, length=ln, direction=tuple(d), source_strength=st[:1], **kw), 16)
            k = min(len(a), len(b))
            t.check(len(a) == len(b) == n, 'line-single-rows', f'{len(a)} {len(b)}', **inp)
            t.close(b[:k], st[0] * a[:k], 'line-single', rtol=1e-12, atol=1e-12, **inp)
        # sources whose orientation follows the trajectory: turning trajectory, microphones and reference vector together changes nothing
        if r % 4 == 0:
            from scipy.spatial.transform import Rotation
            R = Rotation.random(random_state=int(t.rng.integers(0, 1 << 30))).as_matrix()
            rv = np.array([[0., 0., 1.], [0., 1., 0.], [.3, -.2, .9]][r // 4 % 3])
            e1 = np.cross(rv, [1., .2, .1]); e1 /= np.linalg.norm(e1); e2 = np.cross(rv, e1) / np.linalg.norm(rv)
            om = float(t.rng.uniform(2, 20)); mid = np.array(loc)
            ta = np.linspace(-.2, T + .3, 60)
            P = mid[:, None] + .2 * (e1[:, None] * np.cos(om * ta) + e2[:, None] * np.sin(om * ta))
            for cls, k2 in ((ac.MovingPointSourceDipole, dict(direction=tuple(dn * 1e5))), (ac.MovingLineSource, dict(direction=tuple(d), num_sources=ns, length=ln, source_strength=st))):
                with t.guard('rvec-raises', cls=cls.__name__, **inp):
                    z = []
                    for Q in (np.eye(3), R):
                        tr = ac.Trajectory(points={float(u): tuple(Q @ P[:, i]) for i, u in enumerate(ta)})
                        z.append(collect(cls(trajectory=tr, signal=g, mics=ac.MicGeom(pos_total=Q @ mg.pos), env=env, up=up, rvec=Q @ rv, **k2), 16))
                    k = min(len(z[0]), len(z[1]))
                    bad = abs(z[0][:k] - z[1][:k]) > 1e-6 * abs(z[0]).max()
                    t.check(abs(len(z[0]) - len(z[1])) <= 1 and bad.mean() < .05, 'source-orientation', f'{cls.__name__}: {bad.sum()} of {bad.size} values differ after a common rotation', rvec=rv, cls=cls.__name__, **inp)
        # incoherent parts: different signals, reproducible
        with t.guard('line-raises', **inp):
            wn = ac.WNoiseGenerator(num_samples=n, sample_freq=fs, seed=5)
            mk = lambda co: collect(ac.LineSource(num_sources=2, length=ln, direction=tuple(d), source_strength=np.ones(2), coherence=co, signal=wn, mics=mg, loc=loc, env=env), 16)
            a, b, c = mk('incoherent'), mk('incoherent'), mk('coherent')
            t.same(a, b, 'line-incoherent-reproducible')
            t.check(not np.allclose(a, c), 'line-incoherent-different')
        # dipole: two monopoles of opposite sign, half a sample path apart from the centre for a direction of length 1e5
        with t.guard('dipole-raises', **inp):
            ext = float(t.rng.uniform(.5, 4))
            di = dn * 1e5 * ext
            dist = env.c / fs * ext
            q1, q2 = np.array(loc) + dn * dist / 2, np.array(loc) - dn * dist / 2
            r0, r1, r2 = (np.sqrt(((q[:, None] - mg.pos) ** 2).sum(0)) for q in (np.array(loc), q1, q2))
            w = r0 / dist * (s(tt - r1 / env.c) / r1 - s(tt - r2 / env.c) / r2)
            tol = r0 / dist * slope * 1.52 / up * (1 / r1 + 1 / r2)
            for num in (7, n):
                y = stream(t, ac.PointSourceDipole(direction=tuple(di), **kw), num, 'dipole', n, mg.num_mics, **inp)
                if y.shape == w.shape:
                    t.check((abs(y - w) <= tol + 1e-9).all(), 'dipole-signal', f'{(abs(y - w) / tol).max()} times the tolerance', ext=ext, **inp)


@case('C19', 'uncorrelated noise, convolution, mixing', 30)
def other(t):
    for r in t.rounds(12, 100):
        n = int(t.rng.integers(20, 300)); m = int(t.rng.integers(1, 5))
        mg = mics(t.rng, m)
        sg = [ac.WNoiseGenerator(num_samples=n, sample_freq=1000., seed=int(t.rng.integers(0, 1000)), rms=float(t.rng.uniform(.5, 3))),
              ac.PNoiseGenerator(num_samples=n, sample_freq=1000., seed=3, rms=2., depth=3)][r % 2]
        seeds = [None, t.rng.integers(0, 10000, m)][r // 2 % 2]
        inp = dict(n=n, m=m, seeds=seeds)
        for num in (1, 7, n, n + 2):
            with t.guard('uncorrelated-raises', **inp):
                u = ac.UncorrelatedNoiseSource(signal=sg, mics=mg) if seeds is None else ac.UncorrelatedNoiseSource(signal=sg, mics=mg, seed=seeds)
                y = stream(t, u, num, 'uncorrelated', n, m, **inp)
                want = np.stack([sg.clone_traits().trait_set(seed=int((sg.seed + i) if seeds is None else seeds[i])).signal() for i in range(m)], 1)
                t.close(y, want, 'uncorrelated-signal', rtol=1e-12, num=num, **inp)
        if r == 0:      # many channels: as many different signals
            u = ac.UncorrelatedNoiseSource(signal=ac.WNoiseGenerator(num_samples=4, sample_freq=1000., seed=7), mics=ac.MicGeom(pos_total=np.zeros((3, 700))))
            y = collect(u, 4)
            t.check(len(np.unique(y[0])) == 700, 'uncorrelated-many', f'{len(np.unique(y[0]))} different signals')
        if m > 1:
            t.raises(lambda: list(ac.UncorrelatedNoiseSource(signal=sg, mics=mg, seed=np.arange(m + 1)).result(8)), 'uncorrelated-seeds', exc=ValueError)
        k = int(t.rng.integers(1, 40)); kn = t.rng.standard_normal((k, m))
        for num in (5, n + k):
            with t.guard('convolve-raises', k=k, **inp):
                y = stream(t, ac.PointSourceConvolve(signal=sg, mics=mg, loc=(0, 0, 1.), kernel=kn), num, 'convolve', n + k - 1, m, **inp)
                t.close(y, np.stack([np.convolve(sg.signal(), kn[:, i]) for i in range(m)], 1), 'convolve-signal', rtol=1e-9, k=k, **inp)
        q = int(t.rng.integers(1, 4)); w = t.rng.uniform(-2, 2, q)
        ss = [ac.PointSource(signal=sg, mics=mg, loc=(float(t.rng.uniform(-.5, .5)), 0, 1.)) for _ in range(q)]
        parts = [collect(x, n) for x in ss]
        for num in (3, n + 2):
            with t.guard('mixer-raises', **inp):
                t.close(stream(t, ac.SourceMixer(sources=ss, weights=w), num, 'mixer', n, m), sum(a * b for a, b in zip(w, parts)), 'mixer-signal', rtol=1e-9, **inp)


@case('C19', 'signal generators', 40)
def gens(t):
    from scipy.signal import lfilter
    for r in t.rounds(10, 80):
        n = int(t.rng.integers(2, 3000)); fs = float(t.rng.choice([100., 44100.])); sd = int(t.rng.integers(0, 1000)); a = float(t.rng.uniform(.1, 9))
        ar, ma = np.r_[1., t.rng.uniform(-.3, .3, int(t.rng.integers(0, 3)))], np.r_[1., t.rng.uniform(-1, 1, int(t.rng.integers(0, 5)))]
        mk = [('white', lambda **k: ac.WNoiseGenerator(**k), {}), ('pink', lambda **k: ac.PNoiseGenerator(**k), dict(depth=int(t.rng.integers(1, 20)))),
              ('filtered', lambda **k: ac.FiltWNoiseGenerator(**k), dict(ar=ar, ma=ma))]
        for name, cl, kw in mk:
            with t.guard('generator-raises-' + name, n=n, **kw):
                import contextlib, io
                with contextlib.redirect_stdout(io.StringIO()):
                    f = lambda rms, seed, nn=n: cl(num_samples=nn, sample_freq=fs, seed=seed, rms=rms, **kw).signal()
                    x = f(a, sd)
                    t.check(x.shape == (n,), 'generator-length', f'{name}: {x.shape} instead of {n}', **kw)
                    t.same(x, f(a, sd), 'generator-repeatable', name)
                    t.check(n < 4 or not np.allclose(x, f(a, sd + 1)), 'generator-seed', name)
                    t.close(x, a * f(1., sd), 'generator-level', name, rtol=1e-9)
                    big = f(a, sd, 40000)
                    if name != 'filtered':
                        t.check(abs(big.std() / a - 1) < (.05 if name == 'white' else .35), 'generator-rms', f'{name}: {big.std()} instead of {a}', **kw)
                    if name == 'pink':
                        # one octave more adds numbers that are held for 2^d samples
                        d = kw['depth']
                        if 2 ** d <= 40000:
                            g = lambda d: cl(num_samples=40000, sample_freq=fs, seed=sd, rms=1., depth=d).signal() * np.sqrt(d + 1.5)
                            z = g(d) - (g(d - 1) if d > 1 else ac.WNoiseGenerator(num_samples=40000, sample_freq=fs, seed=sd, rms=1.).signal())
                            o = 2 ** (d - 1) - 1
                            k = np.arange(40000 - o) // 2 ** d
                            t.close(z[:o], np.zeros(o), 'pink-octave', rtol=1e-9, atol=1e-9, depth=d)
                            t.close(z[o:], z[o:][k * 2 ** d], 'pink-octave', rtol=1e-9, atol=1e-9, depth=d)
                            t.check(abs(z[o:]).max() > 1e-3, 'pink-octave', 'no contribution', depth=d)
                    if name == 'filtered':
                        dl = round(.5 * (len(ma) - 1))
                        w = ac.WNoiseGenerator(num_samples=n + dl, sample_freq=fs, seed=sd, rms=a).signal()
                        t.close(x, lfilter(ma, ar, w)[dl:], 'generator-filtered', rtol=1e-7, n=n, **kw)
                    u = cl(num_samples=64, sample_freq=fs, seed=sd, rms=a, **kw)
                    us = u.usignal(4)
                    t.check(us.shape == (256,), 'upsampled-length'); t.close(us[::4], u.signal(), 'upsampled', rtol=1e-8)
        with t.guard('generator-raises-sine'):
            fr, ph = float(t.rng.uniform(0, fs / 2)), float(t.rng.uniform(-4, 4))
            x = ac.SineGenerator(num_samples=n, sample_freq=fs, freq=fr, amplitude=a, phase=ph).signal()
            t.close(x, a * np.sin(2 * np.pi * fr / fs * np.arange(n) + ph), 'sine', rtol=1e-8, atol=1e-6 * a)
        # a generic signal: the samples of its source, cut, repeated or continued by zeros
        L = int(t.rng.choice([1, 7, 1023, 1024, 1025, 2048, 2500]))
        s = src(t.rng, L, 1)
        for nn in (0, 1, L - 1, L, L + 1, 2 * L, 2 * L + 5, 3 * L - 1, 5 * L):
            for loop in (True, False):
                with t.guard('generator-raises-generic', L=L, n=nn, loop=loop):
                    g = ac.GenericSignalGenerator(source=s, loop_signal=loop, amplitude=a)
                    if nn > 0:
                        g.num_samples = nn
                    N = nn if nn > 0 else L
                    want = np.zeros(N)
                    if loop: want = np.resize(s.data[:, 0], N)
                    else: want[:min(N, L)] = s.data[:min(N, L), 0]
                    t.check(g.num_samples == N and g.sample_freq == 1000., 'generic-announced', f'{g.num_samples}')
                    t.close(g.signal(), a * want, 'generic', rtol=1e-12, L=L, n=nn, loop=loop)
