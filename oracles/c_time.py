"""C10 time-domain beamformers, C21 time processors, C13 exclusion, C15 buffers and splitters, C22 trajectories and
rotation tracking."""
import warnings, queue, threading
import numpy as np
import acoular as ac
from scipy.signal import sosfilt, sosfilt_zi, sosfreqz, sosfiltfilt
from oracles.lib import case
from oracles.h import *

NUMS = (1, 3, 7, 16)


def blocks(t, gen, num, key, n, nc, /, **inp):
    """delivered rows as one array; checks the block structure"""
    bl = [np.array(b, copy=True) for b in gen.result(num)]
    sizes = [b.shape[0] for b in bl]
    t.check(all(s == num for s in sizes[:-1]) and (not sizes or 0 < sizes[-1] <= num), key + '-blocks', f'block sizes {sizes} for num={num}', **inp)
    t.check(all(b.ndim == 2 and b.shape[1] == nc for b in bl), key + '-columns', f'{[b.shape for b in bl][:4]} instead of {nc} columns', **inp)
    r = np.concatenate(bl) if bl else np.empty((0, nc))
    if n is not None:
        t.check(r.shape[0] == n, key + '-rows', f'{r.shape[0]} rows instead of {n} for num={num}', **inp)
    return r


# ------------------------------------------------------------------------------------------------ C10
def amp_ref(kind, rm, r0):
    n = rm.shape[-1]
    s = (1 / rm ** 2).sum(-1, keepdims=True)
    r0 = r0[..., None]
    return {'classic': np.full(rm.shape, 1 / n), 'inverse': rm / r0 / n, 'true level': 1 / (rm * r0 * s), 'true location': 1 / (rm * np.sqrt(n * s))}[kind]


def das_ref(x, rm, cs, amp, n):
    """rm, amp: (n or 1, points, mics); delay and sum with linear interpolation, and the sum of the squared terms"""
    out = np.zeros((n, rm.shape[1])); auto = np.zeros_like(out)
    M = np.arange(x.shape[1])
    for k in range(n):
        d = rm[k % rm.shape[0]] / cs
        i = np.floor(d).astype(int); fr = d - i
        v = (x[k + i, M] * (1 - fr) + x[k + i + 1, M] * fr) * amp[k % rm.shape[0]]
        out[k] = v.sum(1); auto[k] = (v ** 2).sum(1)
    return out, auto


def power_weight_ref(mp):
    """area of the ring around the origin that a microphone stands for; rings are formed by distances rounded to a tenth"""
    r = np.sqrt((mp ** 2).sum(0))
    r = np.round(r / r.max(), 1)
    u = np.unique(r)
    if len(u) == 1:
        return np.ones(len(r))
    mid = (u[1:] + u[:-1]) / 2
    edge = np.concatenate([[0], mid, [1.5 * u[-1] - .5 * mid[-1]]])
    a = np.sqrt((edge[1:] ** 2 - edge[:-1] ** 2) / np.array([(r == v).sum() for v in u]))
    a /= a.mean()
    return a[np.searchsorted(u, r)]


def tb_setup(t, kind, n=None, fs=8000.):
    m = int(t.rng.integers(2, 6))
    mg = mics(t.rng, m, .5)
    g = grid(t.rng, 3, 2, z=float(t.rng.uniform(.3, 1.2)))
    st = ac.SteeringVector(grid=g, mics=mg, steer_type=kind, env=ac.Environment(c=float(t.rng.uniform(300, 350))))
    st.ref = float(t.rng.uniform(.3, 2)) if t.rng.random() < .5 else t.rng.uniform(-.5, .5, 3)
    s = src(t.rng, n or int(t.rng.integers(60, 300)), m, fs)
    return m, mg, g, st, s


@case(['C10'], 'stationary grid', 60)
def tb_static(t):
    for r in t.rounds(32, 300):
        m, mg, g, st, s = tb_setup(t, STEERS[r % 4])
        N = s.data.shape[0]
        gp, mp = np.array(g.pos), np.array(mg.pos)
        rm = dist(gp, mp); r0 = ref_dist(gp, mp, st.ref if np.isscalar(st.ref) else np.array(st.ref))
        cs = st.env.c / s.sample_freq
        dmax = rm.max() / cs
        weights = 'power' if r % 3 == 0 else 'none'
        inp = dict(kind=st.steer_type, ref=st.ref, N=N, m=m, weights=weights, dmax=dmax)
        rd = bool(r % 2)
        with t.guard('raises', **inp):
            W = power_weight_ref(mp) if weights == 'power' else np.ones(m)
            first = None
            for num in (16, 1, 7, 64, N, N + 5):
                b = ac.BeamformerTime(source=s, steer=st, weights=weights)
                y = blocks(t, b, num, 'time', None, g.size, num=num, **inp)
                if first is None:
                    first = y
                    t.check(max(N - dmax - 3, 0) <= y.shape[0] <= max(N - dmax, 0), 'time-length', f'{y.shape[0]} rows of {N} samples, largest delay {dmax}', **inp)
                    x = s.data * W
                    if y.shape[0]:
                        want, auto = das_ref(x, rm[None], cs, amp_ref(st.steer_type, rm[None], r0[None]), y.shape[0])
                        t.close(y, want, 'delay-and-sum', rtol=1e-9, **inp)
                    else:
                        want = auto = np.zeros((0, g.size))
                else:
                    t.close(y, first, 'time-blocksize', f'num={num}', rtol=1e-9, num=num, **inp)
                if num in (16, 7):
                    b = ac.BeamformerTimeSq(source=s, steer=st, weights=weights, r_diag=rd)
                    y = blocks(t, b, num, 'timesq', None, g.size, num=num, **inp)
                    w = want ** 2
                    t.close(y, np.maximum(w - auto, 0) if rd else w, 'squared', rtol=1e-8, num=num, r_diag=rd, **inp)
        t.check(s.data.shape[0] == N, 'source')


def traj(rng, T, kind=0):
    tt = np.linspace(-.2 * T, 1.3 * T, 5)
    v = np.array([rng.uniform(-60, 60), rng.uniform(-20, 20), 0])
    p0 = np.array([rng.uniform(-.3, .3), rng.uniform(-.3, .3), rng.uniform(.5, 1.5)])
    pts = {float(a): tuple(p0 + v * a + (np.array([0, 3., 2.]) * a * a * 10 if kind else 0)) for a in tt}
    return ac.Trajectory(points=pts)


def rotated(rvec, d):
    """orientation of the moving grid as documented: x along the direction of motion, y normal to it and to rvec"""
    dx = np.array(d); dy = np.cross(rvec, dx); dz = np.cross(dx, dy)
    R = np.array([dx, dy, dz]).T
    return R / np.sqrt((R ** 2).sum(0))


@case(['C10'], 'moving grid', 80)
def tb_traj(t):
    for r in t.rounds(24, 200):
        m, mg, g, st, s = tb_setup(t, STEERS[r % 4], fs=4000.)
        N = s.data.shape[0]
        tr = traj(t.rng, N / 4000., r % 3 == 0)
        conv = bool(r // 4 % 2)
        rv = np.array([0, 0, 1.]) if r % 5 == 0 else np.zeros(3)
        gp, mp = np.array(g.pos), np.array(mg.pos)
        ref = st.ref if np.isscalar(st.ref) else np.array(st.ref)
        c = st.env.c
        rm, am = np.empty((N, g.size, m)), np.empty((N, g.size, m))
        for k in range(N):
            lo, ve = np.array(tr.location(k / 4000.)), np.array(tr.location(k / 4000., der=1))
            tp = (rotated(rv, ve) @ gp if rv.any() else gp) + lo[:, None]
            rm[k] = dist(tp, mp)
            rr = rm[k]
            if conv:
                cosm = np.einsum('d,dgm->gm', ve, tp[:, :, None] - mp[:, None, :]) / rm[k] / c
                rr = rm[k] * (1 - cosm) ** 2
            am[k] = amp_ref(st.steer_type, rr, ref_dist(tp, mp, ref))
        inp = dict(kind=st.steer_type, ref=st.ref, N=N, conv_amp=conv, rvec=rv)
        need = np.floor(rm.max((1, 2)) / c * 4000).astype(int) + 1 + np.arange(N)
        L = int((need < N).sum())
        rd = bool(r % 2)
        with t.guard('traj-raises', **inp):
            for num in (16, 7, 64, N + 3):
                b = ac.BeamformerTimeTraj(source=s, steer=st, trajectory=tr, conv_amp=conv, rvec=rv)
                y = blocks(t, b, num, 'traj', None, g.size, num=num, **inp)
                t.check(L - 3 <= y.shape[0] <= L, 'traj-length', f'{y.shape[0]} rows, {L} possible, num={num}', num=num, **inp)
                k = min(L, y.shape[0])
                if not k:
                    continue
                want, auto = das_ref(s.data, rm, c / 4000., am, k)
                t.close(y[:k], want, 'traj-delay-and-sum', f'num={num}', rtol=1e-9, num=num, **inp)
                if num == 16:
                    y = blocks(t, ac.BeamformerTimeSqTraj(source=s, steer=st, trajectory=tr, conv_amp=conv, rvec=rv, r_diag=rd), num, 'trajsq', None, g.size)
                    w = want ** 2
                    t.close(y[:k], np.maximum(w - auto, 0) if rd else w, 'traj-squared', rtol=1e-8, r_diag=rd, **inp)
                    y = blocks(t, ac.BeamformerTimeTraj(source=s, steer=st, trajectory=tr, conv_amp=conv, rvec=rv, precision=32), num, 'traj32', None, g.size)
                    t.close(y[:k], want[:y.shape[0]], 'traj-32', rtol=2e-2, **inp)


@case(['C10'], 'trajectory ends before the signal', 20)
def tb_trajend(t):
    for r in t.rounds(4, 20):
        m, mg, g, st, s = tb_setup(t, STEERS[r % 4], n=300, fs=4000.)
        te = float(t.rng.uniform(50, 150)) / 4000.
        tr = ac.Trajectory(points={0.: (0, 0, 1.), te / 2: (.1, 0, 1.), te: (.2, 0, 1.)})
        n = len(np.arange(0, te, 1 / 4000.))
        with t.guard('trajend-raises', te=te):
            for num in (16, 100, 301):
                y = blocks(t, ac.BeamformerTimeTraj(source=s, steer=st, trajectory=tr), num, 'trajend', None, g.size)
                t.check(y.shape[0] == n, 'trajend-length', f'{y.shape[0]} rows instead of {n} for num={num}', te=te)
                for cls in (ac.BeamformerCleantTraj, ac.BeamformerCleantSqTraj):
                    z = collect(cls(source=s, steer=st, trajectory=tr, n_iter=1, damp=.5, precision=64), num)
                    t.check(z.shape == y.shape, 'trajend-cleant-length', f'{cls.__name__}: {z.shape} instead of {y.shape} for num={num}', te=te)
                    if cls is ac.BeamformerCleantTraj and z.shape == y.shape:
                        for i in range(0, n, num):      # block by block: half of the strongest point, if anything
                            u, v = y[i:i + num], z[i:i + num]
                            if v.any():
                                k = int((u ** 2).sum(0).argmax()); w = np.zeros_like(u); w[:, k] = .5 * u[:, k]
                                t.close(v, w, 'trajend-cleant', rtol=1e-8, num=num, te=te)


@case(['C10'], 'CLEAN-T', 40)
def cleant(t):
    """first iteration: damp times the strongest point of the delay-and-sum result; squared variants never removed twice"""
    for r in t.rounds(8, 60):
        m, mg, g, st, s = tb_setup(t, STEERS[r % 4], n=200)
        damp = float(t.rng.uniform(.2, .9))
        inp = dict(kind=st.steer_type, damp=damp)
        with t.guard('cleant-raises', **inp):
            bf = collect(ac.BeamformerTime(source=s, steer=st), 512)
            y = collect(ac.BeamformerCleant(source=s, steer=st, damp=damp, n_iter=1), 512)
            t.check(y.shape == bf.shape, 'cleant-shape', f'{y.shape} {bf.shape}', **inp)
            k = int((bf ** 2).sum(0).argmax())
            if y.any():
                w = np.zeros_like(bf); w[:, k] = damp * bf[:, k]
                t.close(y, w, 'cleant-first', rtol=1e-8, **inp)
            z = collect(ac.BeamformerCleant(source=s, steer=st, damp=damp, n_iter=0), 512)
            t.check(not z.any(), 'cleant-none', **inp)
            tr = traj(t.rng, 200 / 8000.)
            a = collect(ac.BeamformerTimeTraj(source=s, steer=st, trajectory=tr), 512)
            y = collect(ac.BeamformerCleantTraj(source=s, steer=st, damp=damp, n_iter=1, trajectory=tr, precision=64), 512)
            t.check(y.shape == a.shape, 'cleant-traj-shape', f'{y.shape} {a.shape}', **inp)
            k = int((a ** 2).sum(0).argmax())
            if y.any():
                w = np.zeros_like(a); w[:, k] = damp * a[:, k]
                t.close(y, w, 'cleant-traj-first', rtol=1e-8, **inp)


def cleant_ref(x, delay, amp, r0, rm, num, damp, n_iter, rd):
    """CLEAN in the time domain (Cousson 2019): signals taken from the strongest point, mapped back to the channels and
    removed; None when the strongest point or the end of the iteration is not clear"""
    def das(p):
        i = np.arange(num)[:, None, None] + np.floor(delay).astype(int)[None]
        fr = (delay - np.floor(delay))[None]
        c = np.arange(p.shape[1])
        v = (p[i, c] * (1 - fr) + p[i + 1, c] * fr) * amp
        return v.sum(2), (v * v).sum(2)
    power = lambda a, b: (a ** 2 - b).sum(0).clip(min=0) if rd else (a ** 2).sum(0)
    p = x.copy(); phi, auto = das(p); out = np.zeros_like(phi)
    for _ in range(n_iter):
        pw = power(phi, auto); k = pw.argmax()
        if np.sort(pw)[-2] > pw[k] * (1 - 1e-3): return None
        n = np.arange(num + 1)
        for m in range(p.shape[1]):
            tf = delay[k, m] + n; ti = tf.astype(int)
            p[ti, m] -= damp * np.interp(ti, tf[:num], phi[:, k] * r0[k] / rm[k, m])
        phi2, auto2 = das(p)
        a, b = power(phi2, auto2).sum(), pw.sum()
        if abs(a / b - 1) < 1e-3: return None
        if a >= b: break
        out[:, k] += damp * phi[:, k]
        phi, auto = phi2, auto2
    return out


@case('C10', 'CLEAN-T, several iterations', 40)
def cleant_more(t):
    for r in t.rounds(24, 150):
        m, mg, g, st, s = tb_setup(t, STEERS[r % 4], n=150)
        damp = float(t.rng.uniform(.1, .9)); n = int(t.rng.choice([2, 3, 8, 40])); rd = bool(r % 2)
        inp = dict(kind=st.steer_type, damp=damp, n=n, r_diag=rd)
        gp, mp = np.array(g.pos), np.array(mg.pos)
        rm = dist(gp, mp); r0 = ref_dist(gp, mp, st.ref if np.isscalar(st.ref) else np.array(st.ref))
        delay = rm / (st.env.c / s.sample_freq)
        if r % 3:   # a strong source at one of the points
            e = t.rng.standard_normal(400); k = int(t.rng.integers(0, g.size))
            x = s.data * .1 + np.array([np.interp(np.arange(150) - delay[k, c] + 100, np.arange(400), e) / rm[k, c] for c in range(m)]).T
            s = ArraySource(data=x, sample_freq=s.sample_freq)
        with t.guard('cleant-raises', **inp):
            b = ac.BeamformerCleantSq(source=s, steer=st, damp=damp, n_iter=n, r_diag=True) if rd else ac.BeamformerCleant(source=s, steer=st, damp=damp, n_iter=n)
            y = collect(b, 512)
            if not len(y):
                continue
            want = cleant_ref(s.data, delay, amp_ref(st.steer_type, rm[None], r0[None])[0], r0, rm, len(y), damp, n, rd)
            if want is not None and not rd:
                t.close(y, want, 'cleant-map', rtol=1e-6, atol=1e-6 * abs(want).max(), **inp)
            if want is not None and rd:
                t.same(y.any(0), want.any(0), 'cleantsq-points', **inp)


@case(['C10', 'C12'], 'sector integration of time maps', 20)
def sectime(t):
    for r in t.rounds(10, 60):
        g = grid(t.rng, 5, 4)
        s = ArraySource(data=t.rng.standard_normal((50, g.size)) ** 2, sample_freq=100.)
        x0, y0 = g.x_min, g.y_min; x1, y1 = g.x_max, g.y_max
        secs = [[float(x0), float(y0), float(t.rng.uniform(x0, x1)), float(t.rng.uniform(y0, y1))], [float(t.rng.uniform(x0, x1)), float(t.rng.uniform(y0, y1)), .3]]
        with t.guard('sectime-raises', sectors=secs):
            for num in (1, 7, 50, 60):
                it = ac.IntegratorSectorTime(source=s, grid=g, sectors=secs)
                y = blocks(t, it, num, 'sectime', 50, 2)
                for i, sec in enumerate(secs):
                    ind = g.indices(*sec)
                    M = np.zeros(g.shape, bool); M[ind] = True
                    t.close(y[:, i], s.data.reshape((50,) + g.shape)[:, M].sum(1), 'sector-sum', rtol=1e-9, num=num, sector=sec)
            # entries more than clip dB below the maximum count as zero
            clip = float(t.rng.uniform(-30, -3))
            y = blocks(t, ac.IntegratorSectorTime(source=s, grid=g, sectors=secs, clip=clip), 50, 'sectime', 50, 2)
            d = np.where(s.data > s.data.max() * 10 ** (clip / 10), s.data, 0)
            for i, sec in enumerate(secs):
                ind = g.indices(*sec)
                M = np.zeros(g.shape, bool); M[ind] = True
                t.close(y[:, i], d.reshape((50,) + g.shape)[:, M].sum(1), 'sector-clip', rtol=1e-9, clip=clip, sector=sec)


# ------------------------------------------------------------------------------------------------ C21
def each_num(n):
    return (1, 3, 7, 16, n, n + 5)


@case('C21', 'square, average, reverse, mix', 40)
def elem(t):
    for r in t.rounds(24, 200):
        n, nc = int(t.rng.integers(1, 60)), int(t.rng.integers(1, 4))
        s = src(t.rng, n, nc)
        x = s.data.copy()
        inp = dict(n=n, nc=nc)
        w = t.rng.uniform(-2, 2, nc)
        for num in each_num(n):
            with t.guard('elem-raises', num=num, **inp):
                t.close(blocks(t, ac.TimePower(source=s), num, 'power', n, nc), x * x, 'power', rtol=1e-12, num=num, **inp)
                t.close(blocks(t, ac.TimeCumAverage(source=s), num, 'cumavg', n, nc), np.cumsum(x, 0) / np.arange(1, n + 1)[:, None], 'cumulative-average', rtol=1e-9, num=num, **inp)
                t.close(blocks(t, ac.TimeReverse(source=s), num, 'reverse', n, nc), x[::-1], 'reverse', rtol=0, num=num, **inp)
                t.close(blocks(t, ac.TimeReverse(source=ac.TimeReverse(source=s)), num, 'reverse2', n, nc), x, 'reverse-twice', rtol=0, num=num, **inp)
                t.close(blocks(t, ac.ChannelMixer(source=s), num, 'chmix', n, 1), x.sum(1, keepdims=True), 'channel-sum', rtol=1e-12, num=num, **inp)
                t.close(blocks(t, ac.ChannelMixer(source=s, weights=w), num, 'chmix', n, 1), (x * w).sum(1, keepdims=True), 'channel-mix', rtol=1e-12, num=num, **inp)
                t.close(blocks(t, ac.ChannelMixer(source=s, weights=w[:1]), num, 'chmix', n, 1), (x * w[0]).sum(1, keepdims=True), 'channel-mix1', rtol=1e-12, num=num, **inp)
        if nc > 2:
            t.raises(lambda: list(ac.ChannelMixer(source=s, weights=w[:2]).result(4)), 'mixer-weights', exc=ValueError)


@case('C21', 'averages', 40)
def avg(t):
    for r in t.rounds(24, 200):
        n, nc, k = int(t.rng.integers(1, 90)), int(t.rng.integers(1, 4)), int(t.rng.integers(1, 12))
        s = src(t.rng, n, nc)
        m = n // k
        want = s.data[:m * k].reshape(m, k, nc).mean(1) if m else np.empty((0, nc))
        inp = dict(n=n, nc=nc, k=k)
        for num in (1, 2, 5, m or 1, m + 3):
            with t.guard('avg-raises', num=num, **inp):
                a = ac.Average(source=s, num_per_average=k)
                y = blocks(t, a, num, 'avg', a.num_samples, nc, num=num, **inp)
                t.check(y.shape[0] >= m, 'avg-complete', f'{y.shape[0]} averages of {m}', num=num, **inp)
                t.close(y[:m], want, 'average', rtol=1e-10, num=num, **inp)
                t.close(a.sample_freq, s.sample_freq / k, 'avg-rate', rtol=1e-12, **inp)


def ref_mixer(xs):
    n = min(len(x) for x in xs)
    return sum(x[:n] for x in xs)


@case('C21', 'mixers', 30)
def mix(t):
    for r in t.rounds(20, 150):
        k, nc = int(t.rng.integers(1, 4)), int(t.rng.integers(1, 3))
        n = int(t.rng.integers(5, 60))
        ss = [src(t.rng, n, nc) for _ in range(k)]
        w = t.rng.uniform(-2, 2, k)
        for num in each_num(n):
            with t.guard('mix-raises', n=n, k=k):
                t.close(blocks(t, ac.Mixer(source=ss[0], sources=ss[1:]), num, 'mixer', n, nc), sum(s.data for s in ss), 'mixer', rtol=1e-12)
                t.close(blocks(t, ac.SourceMixer(sources=ss, weights=w), num, 'smixer', n, nc), sum(a * s.data for a, s in zip(w, ss)), 'source-mixer', rtol=1e-12)
                t.close(blocks(t, ac.SourceMixer(sources=ss), num, 'smixer', n, nc), sum(s.data for s in ss), 'source-mixer-plain', rtol=1e-12)


@case('C21', 'masking', 40)
def mask(t):
    for r in t.rounds(40, 400):
        n, nc = int(t.rng.integers(2, 70)), int(t.rng.integers(1, 6))
        s = src(t.rng, n, nc)
        a, b = np.sort(t.rng.choice(n + 1, 2, replace=False))
        stop = None if t.rng.random() < .2 else int(b) if t.rng.random() < .8 else int(b) - n - 0 if b < n else None
        if stop is None:
            b = n
        bad = sorted(int(i) for i in t.rng.permutation(nc)[:int(t.rng.integers(0, nc))])
        keep = [i for i in range(nc) if i not in bad]
        inp = dict(n=n, nc=nc, start=int(a), stop=stop, bad=bad)
        for num in each_num(n) + (int(b - a),):
            with t.guard('mask-raises', num=num, **inp):
                m = ac.MaskedTimeOut(source=s, start=int(a), stop=stop, invalid_channels=list(t.rng.permutation(bad).tolist()))
                t.check(m.num_samples == b - a and m.num_channels == len(keep), 'mask-announced', f'{m.num_samples}, {m.num_channels}', **inp)
                t.close(blocks(t, m, num, 'mask', b - a, len(keep), num=num, **inp), s.data[a:b][:, keep], 'masked', rtol=0, num=num, **inp)


@case('C21', 'filters', 60)
def filt(t):
    for r in t.rounds(16, 120):
        n, nc = int(t.rng.integers(40, 300)), int(t.rng.integers(1, 3))
        fs = float(t.rng.choice([8000., 44100., 51200.]))
        s = src(t.rng, n, nc, fs)
        x = s.data
        band = float(t.rng.uniform(.02, .15) * fs)
        fl = [('octave', lambda: ac.FiltOctave(source=s, band=band, fraction='Octave' if r % 2 else 'Third octave')),
              ('exp', lambda: ac.TimeExpAverage(source=s, weight='FSI'[r % 3])), ('weight', lambda: ac.FiltFreqWeight(source=s, weight='ACZ'[r % 3])),
              ]
        for name, mk in fl:
            with t.guard('filter-raises-' + name, n=n, fs=fs, band=band):
                whole = sosfilt(mk().sos, x, axis=0)
                for num in (1, 7, 64, n, n + 5):
                    t.close(blocks(t, mk(), num, name, n, nc), whole, 'filter-whole-' + name, rtol=1e-8, num=num, n=n)
        with t.guard('expavg-raises'):
            tau = {'F': .125, 'S': 1., 'I': .035}['FSI'[r % 3]]
            al = 1 - np.exp(-1 / tau / fs)
            y = np.zeros(nc); w = np.empty_like(x)
            for k in range(n):
                y = y + al * (x[k] - y); w[k] = y
            t.close(collect(fl[1][1](), 16), w, 'exp-average', rtol=1e-9)
        with t.guard('filtfilt-raises'):
            f = ac.FiltFiltOctave(source=s, band=band)
            w = np.stack([sosfiltfilt(f.sos, x[:, i]) for i in range(nc)], 1)
            for num in (1, 7, n, n + 5):
                t.close(blocks(t, f, num, 'filtfilt', n, nc), w, 'filtfilt', rtol=1e-9)
        with t.guard('bank-raises'):
            lo = int(t.rng.integers(22, 26)); hi = lo + int(t.rng.integers(1, 8))
            b = ac.OctaveFilterBank(source=s, lband=lo, hband=hi, fraction='Octave' if r % 2 else 'Third octave')
            fb = ac.FiltOctave(source=s, fraction=b.fraction)
            cols = []
            for i in range(lo, hi, 3 if r % 2 else 1):
                fb.band = 10 ** (i / 10)
                cols.append(sosfilt(fb.sos, x, axis=0))
            t.check(b.num_bands == len(cols) and b.num_channels == nc * len(cols), 'bank-announced', f'{b.num_bands} {b.num_channels}', lo=lo, hi=hi)
            for num in (1, 7, n + 5):
                t.close(blocks(t, b, num, 'bank', n, nc * len(cols)), np.concatenate(cols, 1), 'filter-bank', rtol=1e-9, lo=lo, hi=hi)


@case('C21', 'filter responses', 20)
def resp(t):
    for r in t.rounds(16, 100):
        fs = 51200. * 8
        s = src(t.rng, 8, 1, fs)
        fr = np.array([31.5, 125., 1000., 4000., 8000.])
        f2 = fr ** 2
        RA = 12194 ** 2 * f2 ** 2 / ((f2 + 20.6 ** 2) * np.sqrt((f2 + 107.7 ** 2) * (f2 + 737.9 ** 2)) * (f2 + 12194 ** 2))
        RC = 12194 ** 2 * f2 / ((f2 + 20.6 ** 2) * (f2 + 12194 ** 2))
        for w, ref in (('A', 20 * np.log10(RA) + 2.), ('C', 20 * np.log10(RC) + .06), ('Z', np.zeros(5))):
            h = sosfreqz(ac.FiltFreqWeight(source=s, weight=w).sos, fr, fs=fs)[1]
            t.check(np.allclose(20 * np.log10(abs(h)), ref, atol=.1), 'weighting', f'{w}: {20 * np.log10(abs(h))} instead of {ref}')
        fs = float(t.rng.choice([8000., 44100.]))
        s = src(t.rng, 8, 1, fs)
        fc = float(t.rng.uniform(.01, .2) * fs)
        for frac, k in (('Octave', 1), ('Third octave', 3)):
            for order in (1, 2, 3, 5):
                sos = ac.FiltOctave(source=s, band=fc, fraction=frac, order=order).sos
                h = abs(sosfreqz(sos, np.array([fc, fc * 2 ** (-2 / k), fc * 2 ** (1.1 / k)]), fs=fs)[1])
                t.check(abs(h[0] - 1) < .25 / order, 'octave-center', f'{h[0]}', fc=fc, fs=fs, order=order, frac=frac)
                t.check(h[1] < .75 and h[2] < .85, 'octave-stop', f'{h}', fc=fc, fs=fs, order=order, frac=frac)
            # the noise bandwidth is that of the band
            q = 2 ** (.5 / k)
            ff = np.linspace(0, fs / 2, 40001)
            fl, fh = fc / q, fc * q
            if fh * 6 < fs:
                for order in (1, 2, 3, 4):
                    for cls, e in ((ac.FiltOctave, 2), (ac.FiltFiltOctave, 4)):
                        sos = cls(source=s, band=fc, fraction=frac, order=order).sos
                        bw = (abs(sosfreqz(sos, ff, fs=fs)[1]) ** e).sum() * (ff[1] - ff[0]) / (fh - fl)
                        t.check(abs(bw - 1) < (.15 if order == 1 else .03), 'octave-bandwidth', f'{cls.__name__}: {bw} times the bandwidth', fc=fc, fs=fs, order=order, frac=frac)


@case('C21', 'convolution', 40)
def conv(t):
    for r in t.rounds(24, 200):
        n, nc, k = int(t.rng.integers(1, 60)), int(t.rng.integers(1, 4)), int(t.rng.integers(1, 60))
        s = src(t.rng, n, nc)
        kn = t.rng.standard_normal((k, nc) if r % 2 else (k,))
        K = kn if kn.ndim == 2 else np.repeat(kn[:, None], nc, 1)
        want = np.stack([np.convolve(s.data[:, i], K[:, i]) for i in range(nc)], 1)
        inp = dict(n=n, nc=nc, k=k, kdim=kn.ndim)
        for num in (1, 3, 7, 16, n, k, n + k):
            with t.guard('conv-raises', num=num, **inp):
                c = ac.TimeConvolve(source=s, kernel=kn)
                t.close(blocks(t, c, num, 'conv', n + k - 1, nc, num=num, **inp), want, 'convolution', rtol=1e-9, num=num, **inp)
                t.check(c.num_samples == n + k - 1, 'conv-announced', f'{c.num_samples}', **inp)


def calib_file(t, data):
    import tempfile, os
    p = os.path.join(tempfile.mkdtemp(dir='.'), 'c.xml')
    with open(p, 'w') as f:
        f.write('<?xml version="1.0" encoding="utf-8"?>\n<Calib name="x">\n' + ''.join(f'  <pos Name="P{i}" factor="{v!r}"/>\n' for i, v in enumerate(data.tolist())) + '</Calib>\n')
    return p


@case(['C13', 'C21'], 'calibration', 20)
def calib(t):
    for r in t.rounds(12, 80):
        n, nc = int(t.rng.integers(2, 40)), int(t.rng.integers(2, 6))
        fac = t.rng.uniform(.5, 3, nc)
        x = t.rng.standard_normal((n, nc))
        bad = sorted(int(i) for i in t.rng.permutation(nc)[:int(t.rng.integers(0, nc))])
        keep = [i for i in range(nc) if i not in bad]
        a = int(t.rng.integers(0, n - 1))
        with t.guard('calib-raises', n=n, nc=nc, bad=bad):
            cal = ac.Calib(source=None, file=calib_file(t, fac)) if hasattr(ac.Calib, 'source') else ac.Calib(file=calib_file(t, fac))
            t.check(cal.num_mics == nc, 'calib-count', f'{cal.num_mics}')
            t.close(cal.data, fac, 'calib-data', rtol=1e-12)
            for num in (1, 5, n + 2):
                ts = ac.TimeSamples(data=x.copy(), sample_freq=100., calib=cal)
                t.close(blocks(t, ts, num, 'cal', n, nc), x * fac, 'calibrated', rtol=1e-12, num=num)
                # factors of all channels, or of the valid ones only
                for cc in (cal,) + ((ac.Calib(file=calib_file(t, fac[keep])),) if bad else ()):
                    ms = ac.MaskedTimeSamples(data=x.copy(), sample_freq=100., calib=cc, invalid_channels=list(bad), start=a)
                    t.check(ms.num_channels == len(keep) and ms.num_samples == n - a, 'mts-announced', f'{ms.num_channels} {ms.num_samples}', bad=bad, n=n, a=a)
                    t.close(blocks(t, ms, num, 'mts', n - a, len(keep)), (x * fac)[a:, keep], 'masked-calibrated', rtol=1e-12, bad=bad, num=num)


# ------------------------------------------------------------------------------------------------ C13
@case('C13', 'microphones', 20)
def mg13(t):
    for r in t.rounds(30, 200):
        m = int(t.rng.integers(1, 9))
        p = t.rng.uniform(-1, 1, (3, m))
        g = ac.MicGeom(pos_total=p.copy())
        for k in range(4):
            bad = t.rng.permutation(m)[:int(t.rng.integers(0, m))].tolist()
            if r % 3 == 1:
                # entries named twice, or naming no microphone
                bad = bad + bad[:int(t.rng.integers(0, 3))] + [m + int(t.rng.integers(0, 5))] * int(t.rng.integers(0, 2))
            keep = [i for i in range(m) if i not in bad]
            inp = dict(m=m, bad=bad)
            with t.guard('mics-raises', **inp):
                g.invalid_channels = bad
                t.same(g.pos, p[:, keep], 'mic-positions', **inp)
                t.check(g.num_mics == len(keep), 'mic-count', f'{g.num_mics}', **inp)
                t.same(g.pos_total, p, 'mic-total', **inp)
                if keep:
                    t.close(g.center, p[:, keep].mean(1), 'center', rtol=1e-9, atol=1e-9, **inp)
                    d = dist(p[:, keep], p[:, keep]).max() if len(keep) > 1 else 0.
                    t.close(g.aperture, d, 'aperture', rtol=1e-9, **inp)


@case('C13', 'geometry and data stay aligned', 30)
def align13(t):
    no_cache()
    for r in t.rounds(12, 80):
        m = int(t.rng.integers(3, 7)); n = 256
        p = t.rng.uniform(-1, 1, (3, m)); p[2] = 0
        x = t.rng.standard_normal((n, m))
        bad = sorted(int(i) for i in t.rng.permutation(m)[:int(t.rng.integers(1, m - 1))])
        keep = [i for i in range(m) if i not in bad]
        inp = dict(m=m, bad=bad)
        with t.guard('align-raises', **inp):
            full = ac.PowerSpectra(source=ac.TimeSamples(data=x, sample_freq=2000.), block_size=128).csm
            cut = ac.PowerSpectra(source=ac.MaskedTimeSamples(data=x, sample_freq=2000., invalid_channels=bad), block_size=128).csm
            t.close(cut[:], full[:][:, keep][:, :, keep], 'csm-submatrix', rtol=1e-9, **inp)
            g = grid(t.rng)
            mg = ac.MicGeom(pos_total=p, invalid_channels=bad)
            mk = ac.MicGeom(pos_total=p[:, keep])
            a, b = (ac.SteeringVector(grid=g, mics=q) for q in (mg, mk))
            t.close(a.rm, b.rm, 'rm', rtol=1e-12, **inp)
            t.close(a.steer_vector(800.), b.steer_vector(800.), 'steer', rtol=1e-9, **inp)
            s1 = ac.MaskedTimeOut(source=ac.TimeSamples(data=x, sample_freq=2000.), invalid_channels=bad)
            u = ac.BeamformerTime(source=s1, steer=a); v = ac.BeamformerTime(source=ac.TimeSamples(data=x[:, keep], sample_freq=2000.), steer=b)
            t.close(collect(u, 32), collect(v, 32), 'time-beamformer', rtol=1e-9, **inp)
            sg = ac.WNoiseGenerator(sample_freq=2000., num_samples=100, seed=3)
            t.close(collect(ac.PointSource(signal=sg, mics=mg, loc=(.1, .2, 1.)), 16), collect(ac.PointSource(signal=sg, mics=mk, loc=(.1, .2, 1.)), 16), 'source-mics', rtol=1e-12, **inp)


@case('C13', 'sample ranges', 20)
def range13(t):
    for r in t.rounds(30, 200):
        n, nc = int(t.rng.integers(3, 40)), int(t.rng.integers(2, 5))
        x = t.rng.standard_normal((n, nc))
        st = int(t.rng.integers(-n, n))
        sp = None if r % 4 == 0 else int(t.rng.integers(-n, n + 1))
        idx = list(range(*slice(st, sp).indices(n)))
        if not idx:
            continue
        bad = sorted(int(i) for i in t.rng.permutation(nc)[:int(t.rng.integers(0, nc))])
        keep = [i for i in range(nc) if i not in bad]
        inp = dict(n=n, start=st, stop=sp, bad=bad)
        for num in (1, 4, n + 3):
            with t.guard('range-raises', **inp):
                ts = ac.MaskedTimeSamples(data=x.copy(), sample_freq=10., start=st, stop=sp, invalid_channels=bad)
                t.check((ts.num_samples, ts.num_channels) == (len(idx), len(keep)), 'mts-announced', f'{ts.num_samples}', **inp)
                t.check((ts.num_samples_total, ts.num_channels_total) == (n, nc), 'mts-total', f'{ts.num_samples_total}', **inp)
                t.same(blocks(t, ts, num, 'mts', len(idx), len(keep), **inp), x[idx][:, keep], 'mts-data', num=num, **inp)
                mo = ac.MaskedTimeOut(source=ac.TimeSamples(data=x.copy(), sample_freq=10.), start=st, stop=sp, invalid_channels=bad)
                t.check((mo.num_samples, mo.num_channels) == (len(idx), len(keep)), 'mto-announced', f'{mo.num_samples}', **inp)
                t.same(blocks(t, mo, num, 'mto', len(idx), len(keep), **inp), x[idx][:, keep], 'mto-data', num=num, **inp)


# ------------------------------------------------------------------------------------------------ C15
@case('C15', 'sample buffer', 40)
def buf(t):
    from acoular.process import SamplesBuffer
    for r in t.rounds(60, 600):
        n, nc = int(t.rng.integers(1, 80)), int(t.rng.integers(1, 3))
        s = src(t.rng, n, nc)
        num, snum = int(t.rng.integers(1, 12)), int(t.rng.integers(1, 12))
        use_s = bool(t.rng.integers(0, 2))
        bs = snum if use_s else num
        rnum = None if r % 3 == 0 else int(t.rng.integers(1, 30))
        shift = 'num' if r % 2 else 'result_num'
        eff = rnum or num
        length = int(t.rng.integers(max(eff, bs), max(eff, bs) + 20))
        inp = dict(n=n, num=num, source_num=snum if use_s else None, result_num=rnum, shift=shift, length=length)
        with t.guard('buffer-raises', **inp):
            b = SamplesBuffer(source=s, length=length, source_num=snum if use_s else None, result_num=rnum, shift_index_by=shift, dtype=float)
            got = []
            for blk in b.result(num):
                got.append(blk)
                if len(got) > n + 5:
                    break
            step = num if shift == 'num' else eff
            if len(got) <= n + 5:   # a second reading gives the same
                b.length = length
                again = list(b.result(num))
                t.check(len(again) == len(got) and all(x.shape == y.shape and (x == y).all() for x, y in zip(again, got)), 'buffer-again', f'{len(again)} windows instead of {len(got)}', **inp)
            want = [s.data[i:i + eff] for i in range(0, n, step)]
            t.check(len(got) == len(want), 'buffer-windows', f'{len(got)} windows instead of {len(want)}', **inp)
            for i, (a, w) in enumerate(zip(got, want)):
                t.check(a.shape == w.shape and (a == w).all(), 'buffer-window', f'window {i}: shape {a.shape}, should be rows {i * step}.. ({w.shape})', got=a, want=w, **inp)


@case('C15', 'splitter, interleaved reads', 60)
def split(t):
    for r in t.rounds(40, 400):
        n, nc, k, num = int(t.rng.integers(1, 60)), int(t.rng.integers(1, 3)), int(t.rng.integers(1, 4)), int(t.rng.integers(1, 9))
        s = src(t.rng, n, nc)
        sp = ac.SampleSplitter(source=s, buffer_size=n + 2)
        cons = [ac.TimePower(source=sp) if i % 2 else ac.Average(source=sp, num_per_average=1) for i in range(k)]
        inp = dict(n=n, k=k, num=num)
        with warnings.catch_warnings(), t.guard('splitter-raises', **inp):
            warnings.simplefilter('error', UserWarning)
            sp.register_object(*cons)
            gens = [c.result(num) for c in cons]
            got = [[] for _ in cons]
            live = list(range(k))
            while live:
                i = int(t.rng.choice(live))
                for _ in range(int(t.rng.integers(1, 5))):
                    try:
                        got[i].append(next(gens[i]).copy())
                    except StopIteration:
                        live.remove(i); break
            for i, c in enumerate(cons):
                w = s.data ** 2 if isinstance(c, ac.TimePower) else s.data
                y = np.concatenate(got[i])
                t.check(y.shape == w.shape and np.allclose(y, w, rtol=1e-14), 'splitter-stream', f'consumer {i} of {k}: {y.shape} {w.shape}', **inp)
            sp.remove_object(*cons)


@case('C15', 'splitter, limits of the buffers', 40)
def splitlim(t):
    for r in t.rounds(24, 200):
        num, bufs = 4, int(t.rng.integers(1, 6))
        nb = bufs + 3
        s = src(t.rng, num * nb, 1)
        for mode in ('error', 'warning', 'none'):
            sp = ac.SampleSplitter(source=s, buffer_size=bufs)
            a, b = ac.TimePower(source=sp), ac.TimePower(source=sp)
            with t.guard('limits-raises', mode=mode, bufs=bufs), warnings.catch_warnings(record=True) as wr:
                warnings.simplefilter('always')
                sp.register_object(a, b)
                sp.buffer_overflow_treatment = {a: mode, b: mode}
                ga, gb = a.result(num), b.result(num)
                ok = 0; err = None
                try:
                    for i in range(nb):
                        next(ga); ok += 1
                        if i == 0: next(gb)
                except OSError as e:
                    err = e
                except StopIteration:
                    pass
                # the first consumer may be ahead by at most the configured number of blocks
                t.check(ok >= bufs + 1, 'limit-too-early', f'{ok} blocks with {bufs} buffers, {err!r}', mode=mode, bufs=bufs)
                if mode == 'error':
                    t.check(err is not None, 'limit-no-error', f'{ok} blocks', bufs=bufs)
                else:
                    t.check(err is None, 'limit-error', repr(err), mode=mode)
                    over = [w for w in wr if 'overfilled' in str(w.message) or 'overf' in str(w.message).lower()]
                    t.check(bool(over) == (mode == 'warning'), 'limit-warning', f'{mode}: {[str(w.message) for w in wr]}', bufs=bufs)
                sp.remove_object(a, b)


@case('C15', 'splitter, threads', 30)
def splitthr(t):
    for r in t.rounds(6, 60):
        n, k, num = 400, 3, int(t.rng.integers(1, 8))
        s = src(t.rng, n, 2)
        sp = ac.SampleSplitter(source=s, buffer_size=n + 2)
        cons = [ac.TimePower(source=sp) for _ in range(k)]
        sp.register_object(*cons)
        got = [None] * k; errs = []
        bar = threading.Barrier(k)

        def run(i):
            try:
                bar.wait(20)
                got[i] = np.concatenate([b.copy() for b in cons[i].result(num)])
            except Exception as e:
                errs.append(repr(e))
        th = [threading.Thread(target=run, args=(i,), daemon=True) for i in range(k)]
        [x.start() for x in th]; [x.join(60) for x in th]
        t.check(not errs and not any(x.is_alive() for x in th), 'threads-raises', errs[:2])
        for i in range(k):
            t.check(got[i] is not None and got[i].shape == s.data.shape and np.allclose(got[i], s.data ** 2), 'threads-stream', f'consumer {i}', num=num)


# ------------------------------------------------------------------------------------------------ C22
@case('C22', 'trajectories', 30)
def trj(t):
    for r in t.rounds(40, 300):
        n = int(t.rng.integers(2, 9))
        tt = np.sort(t.rng.uniform(-2, 5, n)); tt += np.arange(n) * .05
        P = t.rng.uniform(-3, 3, (n, 3))
        order = t.rng.permutation(n)
        with t.guard('traj-raises', n=n, times=tt):
            tr = ac.Trajectory(points={float(tt[i]): tuple(P[i]) for i in order})
            t.close(np.array([tr.location(x) for x in tt]), P, 'traj-support', rtol=1e-9, atol=1e-8, n=n)
            t.close(np.array(tr.location(tt)).T, P, 'traj-support-array', rtol=1e-9, atol=1e-8, n=n)
            t.close(tr.interval, [tt[0], tt[-1]], 'traj-interval', rtol=1e-12)
            # points on a polynomial of a degree the spline can represent
            C = t.rng.uniform(-1, 1, (3, min(n - 1, 3) + 1))
            pl = lambda x: np.array([np.polyval(c, x) for c in C])
            tp = ac.Trajectory(points={float(x): tuple(pl(x)) for x in tt})
            x = t.rng.uniform(tt[0], tt[-1], 8)
            t.close(np.array(tp.location(x)), pl(x), 'traj-polynomial', rtol=1e-6, atol=1e-6 * abs(pl(tt)).max(), n=n)
            if n > 2:
                t.close(np.array(tp.location(x, der=1)), np.array([np.polyval(np.polyder(c), x) for c in C]), 'traj-polynomial', rtol=1e-5, atol=1e-5 * abs(pl(tt)).max(), n=n)
            x = np.sort(t.rng.uniform(tt[0], tt[-1], 6)); h = 1e-4 * (tt[-1] - tt[0])
            x = x[(x > tt[0] + 2 * h) & (x < tt[-1] - 2 * h)]
            if len(x):
                d = (np.array(tr.location(x + h)) - np.array(tr.location(x - h))) / 2 / h
                t.close(np.array(tr.location(x, der=1)), d, 'traj-derivative', rtol=1e-3, atol=1e-3 * abs(d).max() + 1e-9, n=n)
            dt = float(t.rng.uniform(.03, .2) * (tt[-1] - tt[0]))
            a, b = float(t.rng.uniform(tt[0], tt[-1])), float(tt[-1]) if r % 3 else 0.
            for der in (0, 1):
                ts = np.arange(tt[0], tt[-1], dt)
                got = np.array(list(tr.traj(dt, der=der)))
                t.close(got, np.array(tr.location(ts, der)).T, 'traj-walk', rtol=1e-9, n=n, dt=dt, der=der)
                for t0, t1 in ((a, b), (float(tt[0]), a)):
                    ts = np.arange(t0, t1, dt)
                    if not len(ts): continue
                    got = np.array(list(tr.traj(t0, t1, dt, der))).reshape(-1, 3)
                    t.close(got, np.array(tr.location(ts, der)).T.reshape(-1, 3), 'traj-range', rtol=1e-9, t0=t0, t1=t1, dt=dt, der=der)
                ts = np.arange(a, tt[-1], dt)
                got = np.array(list(tr.traj(a, delta_t=dt, der=der))).reshape(-1, 3)
                t.close(got, np.array(tr.location(ts, der)).T.reshape(-1, 3), 'traj-from', rtol=1e-9, a=a, dt=dt, der=der)


def trigger_source(peaks, n, fs=1000., amp=1., base=None, rng=None):
    x = np.zeros((n, 1)) if base is None else base.copy()
    x[peaks] = amp
    return ArraySource(data=x, sample_freq=fs)


@case('C22', 'trigger detection', 40)
def trig(t):
    for r in t.rounds(24, 200):
        per = int(t.rng.integers(40, 700)); off = int(t.rng.integers(0, per))
        n = int(per * t.rng.uniform(6, 12)) + off
        p = np.arange(off, n, per)
        if r % 4 == 0:      # a peak on a boundary of the internal blocks
            p = np.arange(2048 % per, n, per)
        sgn = 1. if r % 2 else -1.
        s = trigger_source(p, n, amp=sgn * 2., base=.05 * t.rng.standard_normal((n, 1)))
        inp = dict(period=per, offset=int(p[0]), n=n, sign=sgn)
        with warnings.catch_warnings(), t.guard('trigger-raises', **inp):
            warnings.simplefilter('ignore')
            for th in (sgn * 1., None):
                for ty in ('dirac',):
                    tg = ac.Trigger(source=s, threshold=th, trigger_type=ty) if th is not None else ac.Trigger(source=s, trigger_type=ty)
                    loc, mx, mn = tg.trigger_data
                    t.same(loc, p, 'trigger-positions', threshold=th, **inp)
                    t.check(mx == per and mn == per, 'trigger-distances', f'{mx} {mn}', **inp)
            # square pulses: rising edges
            x = np.zeros((n, 1))
            for q in p:
                x[q:q + per // 3] = sgn
            edge = p[p > 0]
            tg = ac.Trigger(source=ArraySource(data=x, sample_freq=1000.), threshold=sgn * .5, trigger_type='rect')
            t.same(tg.trigger_data[0], edge, 'trigger-edges', **inp)


@case('C22', 'trigger, several peaks', 20)
def trig2(t):
    for r in t.rounds(16, 100):
        per = int(t.rng.integers(100, 400)); k = int(t.rng.integers(6, 12))
        p = np.arange(10, 10 + per * k, per)
        n = p[-1] + 50
        x = np.zeros((n, 1)); x[p] = 2.
        e = int(t.rng.integers(2, max(3, per // 15)))
        j = int(t.rng.integers(0, k))
        hi = 3. if r % 2 else 1.5
        x[p[j] + e] = hi
        sg = -1. if r // 2 % 2 else 1.      # a threshold above or below zero
        x *= sg
        want_first = p
        want_ext = p.copy()
        if hi > 2.:
            want_ext[j] = p[j] + e
        with warnings.catch_warnings(), t.guard('multi-raises', per=per):
            warnings.simplefilter('ignore')
            for mode, want in (('first', want_first), ('extremum', want_ext)):
                tg = ac.Trigger(source=ArraySource(data=x, sample_freq=1000.), threshold=sg, multiple_peaks_in_hunk=mode)
                t.same(tg.trigger_data[0], want, 'trigger-multiple', f'{mode}', sign=sg, per=per, e=e, j=j, hi=hi)


@case('C22', 'inverse distance weighting', 20)
def idw(t):
    for r in t.rounds(12, 80):
        m = int(t.rng.integers(6, 10)); n = 4
        ph = -np.pi + (np.arange(m) + t.rng.uniform(-.2, .2, m) + .5) * 2 * np.pi / m
        rad = t.rng.uniform(.3, 1., m)
        p = np.array([rad * np.sin(ph), rad * np.cos(ph), np.zeros(m)])
        ph2 = ph + t.rng.uniform(-.3, .3, m) * [1., 1e-2, 0.][r % 3]; rad2 = rad * (1 + t.rng.uniform(-.2, .2, m) * [1., .02, 0.][r % 3])
        v = np.array([rad2 * np.sin(ph2), rad2 * np.cos(ph2), np.zeros(m)])
        k = int(t.rng.integers(1, m)); w = float(t.rng.choice([1., 2., 3.5]))
        s = src(t.rng, n, m)
        with warnings.catch_warnings(), t.guard('idw-raises', m=m, num_IDW=k, p=w):
            warnings.simplefilter('ignore')
            y = collect(ac.SpatialInterpolatorConstantRotation(rotational_speed=0., source=s, mics=ac.MicGeom(pos_total=p), mics_virtual=ac.MicGeom(pos_total=v), method='IDW', array_dimension='2D', num_IDW=k, p_weight=w), 3)
            d = dist(v, p)
            want = np.empty((n, m))
            for i in range(m):
                o = np.argsort(d[i])[:k]
                if d[i, o[0]] < 1e-3:
                    want[:, i] = s.data[:, o[0]]
                else:
                    g = 1 / d[i, o] ** w
                    want[:, i] = (s.data[:, o] * g).sum(1) / g.sum()
            t.close(y, want, 'idw', rtol=1e-9, m=m, num_IDW=k, p=w, kind=r % 3)


@case('C22', 'angle', 60)
def angle(t):
    for r in t.rounds(10, 60):
        per = int(t.rng.integers(20, 60)); tpr = int(t.rng.integers(1, 5)); off = int(t.rng.integers(0, per))
        n = per * 12 + off
        p = np.arange(off, n, per)
        s = trigger_source(p, n)
        d = int(t.rng.choice([-1, 1])); st = float(t.rng.uniform(0, 6))
        inp = dict(period=per, per_revo=tpr, offset=off, direction=d, start=st)
        with t.guard('angle-raises', **inp):
            a = ac.AngleTracker(source=s, trigger=ac.Trigger(source=s, threshold=.5), trigger_per_revo=tpr, rot_direction=d, start_angle=st)
            ph = (np.arange(n) - off) / per / tpr * 2 * np.pi * d + st
            t.check(a.angle.min() >= 0 and a.angle.max() <= 2 * np.pi, 'angle-range')
            t.close(np.exp(1j * a.angle), np.exp(1j * ph), 'angle', rtol=1e-6, **inp)
            t.close(a.average_rpm, 60 * s.sample_freq / per / tpr, 'average-rpm', rtol=1e-9, **inp)
            b = ac.AngleTracker(source=s, trigger=ac.Trigger(source=s, threshold=.5), trigger_per_revo=1)
            t.close(b.rpm, np.full(n, 60 * s.sample_freq / per), 'rpm', rtol=1e-6, **inp)
        # slowly varying speed: whole turns at the triggers
        k = np.arange(24)
        q = np.round(30 + 40 * k + 6 * np.sin(k / 5.)).astype(int)
        n = q[-1] + 30
        s = trigger_source(q, n)
        with warnings.catch_warnings(), t.guard('angle-varying-raises'):
            warnings.simplefilter('ignore')
            a = ac.AngleTracker(source=s, trigger=ac.Trigger(source=s, threshold=.5), rot_direction=d, start_angle=st)
            t.close(np.exp(1j * a.angle[q]), np.full(len(q), np.exp(1j * st)), 'angle-at-trigger', rtol=1e-6, positions=q)


@case('C22', 'virtual rotation', 60)
def rot(t):
    for r in t.rounds(8, 60):
        m = int(t.rng.integers(5, 9)); n = 12
        ph = np.sort(t.rng.uniform(-3.1, 3.1, m)) if r % 2 else -np.pi + (np.arange(m) + .37) * 2 * np.pi / m
        while np.min(np.diff(np.sort(ph))) < .2:
            ph = np.sort(t.rng.uniform(-3.1, 3.1, m))
        ph = t.rng.permutation(ph)
        ring = ac.MicGeom(pos_total=np.array([np.sin(ph), np.cos(ph), np.full(m, 0.)]))
        s = src(t.rng, n, m)
        const = ArraySource(data=np.repeat(t.rng.standard_normal((n, 1)), m, 1), sample_freq=1000.)
        for method in ('linear', 'spline', 'rbf-cubic'):
            with warnings.catch_warnings(), t.guard('rotation-raises', method=method, m=m):
                warnings.simplefilter('ignore')
                for num in (1, 5, 20):
                    z = ac.SpatialInterpolatorConstantRotation(source=s, mics=ring, mics_virtual=ring, method=method, array_dimension='ring', rotational_speed=0.)
                    t.close(blocks(t, z, num, 'rot', n, m), s.data, 'rotation-zero', rtol=1e-6, method=method, num=num)
                if method == 'linear':
                    z = ac.SpatialInterpolatorConstantRotation(source=const, mics=ring, mics_virtual=ring, method=method, array_dimension='ring', rotational_speed=7.)
                    t.close(collect(z, 5), const.data, 'rotation-constant-field', rtol=1e-9, method=method)
                    y = [collect(ac.SpatialInterpolatorConstantRotation(source=s, mics=ring, mics_virtual=ring, method=method, array_dimension='ring', rotational_speed=7.), k) for k in (1, 5, 20)]
                    t.close(y[0], y[2], 'rotation-blocksize', rtol=1e-9); t.close(y[1], y[2], 'rotation-blocksize', rtol=1e-9)
                    # the same rotation, given by an angle for every sample
                    x = np.zeros((400, 1)); x[10::40] = 1
                    tk = ac.AngleTracker(source=ArraySource(data=x, sample_freq=1000.), trigger=ac.Trigger(source=ArraySource(data=x, sample_freq=1000.), threshold=.5), rot_direction=1, start_angle=-10 / 40 * 2 * np.pi)
                    s4 = src(t.rng, 400, m)
                    u = collect(ac.SpatialInterpolatorRotation(source=s4, mics=ring, mics_virtual=ring, angle_source=tk, array_dimension='ring'), 64)
                    v = collect(ac.SpatialInterpolatorConstantRotation(source=s4, mics=ring, mics_virtual=ring, array_dimension='ring', rotational_speed=25.), 50)
                    w = .5 * np.pi * 0
                    # angle of the tracker at sample 0 is -2*start: both run at the same speed, compare after removing the offset
                    sh = tk.angle[0]
                    if abs(np.exp(1j * sh) - 1) > 1e-6:
                        t.check(True, 'x')
                    off = (np.exp(1j * tk.angle) / np.exp(1j * 2 * np.pi * 25 * np.arange(400) / 1000)).mean()
                    t.check(abs(abs(off) - 1) < 1e-6, 'rotation-speed', f'{off}')
                    if abs(off - 1) < 1e-6:
                        t.close(u, v, 'rotation-tracked', rtol=1e-6)
