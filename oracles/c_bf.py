"""C06 beamformers, C07 steering vectors, C08 point spread functions, C09 deconvolution, C20 band maps, C14 distances."""
import warnings
import numpy as np
import acoular as ac
from oracles.lib import case
from oracles.h import *

PH = 1e-4        # the kernels keep phases in single precision


class CustomSteer(ac.SteeringVector):
    """user-defined steering vector: scaled, not one of the built-in types"""
    def steer_vector(self, f, ind=None):
        v = ac.SteeringVector.steer_vector(self, f, ind)
        return v * (1.3 + .2j)


def setup(t, m=None, kind=None, ref=None, env=None, nf=3, psd=True, gsize=(3, 3), rank=None):
    m = m or int(t.rng.integers(2, 7))
    mg = mics(t.rng, m)
    g = grid(t.rng, *gsize, z=float(t.rng.uniform(.4, 1.5)))
    if ref is None:
        ref = [0.0, 0.0, 0.0]
        if t.rng.random() < .6:
            ref = float(t.rng.uniform(.1, 2)) if t.rng.random() < .5 else list(t.rng.uniform(-1, 1, 3))
    e = env or ac.Environment(c=float(t.rng.uniform(300, 360)))
    st = ac.SteeringVector(grid=g, mics=mg, steer_type=kind or STEERS[int(t.rng.integers(0, 4))], env=e)
    st.ref = ref
    f = np.sort(t.rng.uniform(100, 3000, nf))
    csm = herm(t.rng, nf, m, psd, rank)
    return m, mg, g, st, f, csm


def w_ref(st, f):
    T = transfer_ref(np.array(st.grid.pos), np.array(st.mics.pos), st.ref if np.isscalar(st.ref) else np.array(st.ref), f, st.env.c)
    return steer_ref(st.steer_type, T), T


# ------------------------------------------------------------------------------------------------ C07
@case('C07', 'transfer and steering vectors', 40)
def steering(t):
    for r in t.rounds(40, 300):
        m, mg, g, st, f, _ = setup(t, kind=STEERS[r % 4])
        inp = dict(kind=st.steer_type, ref=st.ref, m=m)
        with t.guard('steer-raises', **inp):
            for fr in f:
                W, T = w_ref(st, fr)
                t.close(st.transfer(fr), T, 'transfer', rtol=PH, **inp)
                t.close(st.steer_vector(fr), W, 'steer-' + st.steer_type, rtol=PH, **inp)
                k = int(t.rng.integers(0, g.size))
                t.close(st.transfer(fr, k), T[k:k + 1], 'transfer-one', rtol=PH, **inp)
                t.close(st.steer_vector(fr, k), W[k:k + 1], 'steer-one', rtol=PH, **inp)
                ks = t.rng.permutation(g.size)[:4]
                t.close(st.transfer(fr, ks), T[ks], 'transfer-subset', rtol=PH, **inp)
                t.close(st.steer_vector(fr, ks), W[ks], 'steer-subset', rtol=PH, **inp)
                V = st.steer_vector(fr)
                n = V.shape[1]
                TT = st.transfer(fr)
                if st.steer_type in ('true level', 'inverse'):
                    t.close(np.einsum('gm,gm->g', V.conj(), TT), np.ones(g.size), 'unit-response', st.steer_type, rtol=PH, **inp)
                if st.steer_type in ('classic', 'true location'):
                    t.close((abs(V) ** 2).sum(1), np.full(g.size, 1 / n), 'norm', st.steer_type, rtol=PH, **inp)
            t.close(st.r0, ref_dist(np.array(g.pos), None, st.ref if np.isscalar(st.ref) else np.array(st.ref)), 'r0', rtol=PH, **inp)
            t.close(st.rm, dist(np.array(g.pos), np.array(mg.pos)), 'rm', rtol=PH, **inp)


@case('C07', 'reference settings', 20)
def refs(t):
    m, mg, g, st, f, _ = setup(t, ref=[0., 0., 0.])
    for ref in (1.5, 1, np.float64(2.), 0.25):
        st.ref = ref
        t.close(st.r0, np.full(g.size, float(ref)), 'r0-scalar', f'{ref}')
    st.ref = -2.0
    t.close(st.r0, np.full(g.size, 2.), 'r0-negative-scalar')
    with t.guard('ref-zero-raises'):
        st.ref = 0
        t.close(st.r0, dist(np.array(g.pos), np.zeros((3, 1)))[:, 0], 'r0-zero-scalar', 'reference distance 0 means the origin')
    for ref in ([.1, .2, .3], (.1, .2, .3), np.array([.1, .2, .3])):
        st.ref = ref
        t.close(st.r0, dist(np.array(g.pos), np.array([[.1], [.2], [.3]]))[:, 0], 'r0-vector')
    t.raises(lambda: setattr(st, 'ref', [1., 2.]), 'ref-length')
    t.raises(lambda: setattr(st, 'ref', 'x'), 'ref-type')
    with t.guard('single-raises'):
        mg1 = mics(t.rng, 1)
        g1 = ac.ImportGrid(); g1.pos = np.array([[.3], [.1], [.8]])
        for gg, mm in ((g1, mg), (g, mg1), (g1, mg1)):
            st = ac.SteeringVector(grid=gg, mics=mm)
            d = dist(np.array(gg.pos), np.array(mm.pos))
            got = np.asarray(st.rm)
            t.check(got.shape == d.shape, 'rm-shape-single-' + ('mic' if mm is mg1 else 'point'), f'{got.shape} instead of {d.shape}')


# ------------------------------------------------------------------------------------------------ C06
@case('C06', 'base beamformer', 60)
def base(t):
    no_cache()
    for r in t.rounds(48, 400):
        m, mg, g, st, f, csm = setup(t, kind=STEERS[r % 4], psd=bool(r % 3))
        rd = bool((r // 4) % 2)
        rn = 0.0 if r % 5 else float(t.rng.uniform(.5, 2))
        if r % 7 == 0:
            cs = CustomSteer(grid=g, mics=mg, steer_type=st.steer_type, env=st.env); cs.ref = st.ref; st = cs
        prec = 'float32' if r % 6 == 5 else 'float64'
        ps = pimport(csm, f)
        keep = csm.copy()
        bf = ac.BeamformerBase(freq_data=ps, steer=st, r_diag=rd, r_diag_norm=rn, precision=prec)
        inp = dict(kind=st.steer_type, custom=type(st).__name__, r_diag=rd, norm=rn, m=m)
        with t.guard('bf-raises', **inp):
            for i in t.rng.permutation(len(f)):
                W, _ = w_ref(st, f[i])
                if isinstance(st, CustomSteer):
                    W = W * (1.3 + .2j)
                want = bf_ref(csm[i], W, rd)
                if rd:
                    want = np.maximum(want * (m / (m - 1) if rn == 0 else rn), 0)
                t.close(bf.result[i], want, 'base-' + ('nodiag' if rd else 'full'), rtol=PH, **inp)
            t.same(csm, keep, 'csm-altered', **inp)
            got = bf.result[:]
            t.check(got.shape == (len(f), g.size) and got.dtype == prec, 'base-shape', f'{got.shape} {got.dtype}', **inp)


@case('C06', 'access to the result', 30)
def access(t):
    no_cache()
    for r in t.rounds(6, 40):
        m, mg, g, st, f, csm = setup(t, nf=5)
        mk = lambda: ac.BeamformerBase(freq_data=pimport(csm, f), steer=st, r_diag=False)
        full = np.array(mk().result[:])
        with t.guard('access-raises'):
            for key in (0, 4, -1, -5, -3, np.int64(2), slice(1, 3), slice(None), slice(-2, None), slice(None, None, 2), slice(4, 0, -1), (2, 3), (slice(0, 2), 1), (slice(None), slice(1, 3)), (-1, slice(None)), Ellipsis if False else 1):
                t.same(mk().result[key], full[key], 'index', f'result[{key}]')
            b = mk()
            b.result[2]; b.result[0:3]; t.same(b.result[:], full, 'index-sequence')


@case('C06', 'other quadratic beamformers', 60)
def others(t):
    no_cache()
    for r in t.rounds(24, 200):
        m, mg, g, st, f, csm = setup(t, kind=STEERS[r % 4], m=int(t.rng.integers(3, 7)), psd=r % 3 > 0)
        ps = pimport(csm, f)
        inp = dict(kind=st.steer_type, m=m)
        W = [w_ref(st, x)[0] for x in f]
        ev = [np.linalg.eigh(c) for c in csm]
        rd = bool(r // 4 % 2)
        nrm = m / (m - 1) if rd else 1.
        keep = csm.copy()
        with t.guard('eig-raises', **inp):
            n = int(t.rng.integers(-m - 1, m + 2))
            b = ac.BeamformerEig(freq_data=ps, steer=st, r_diag=rd, n=n)
            na = min(m - 1, n if n >= 0 else max(m + n, 0))
            t.check(b.na == na, 'eig-na', f'n={n}: {b.na} instead of {na}', **inp)
            for i in range(len(f)):
                c1 = ev[i][0][na] * np.outer(ev[i][1][:, na], ev[i][1][:, na].conj())
                want = bf_ref(c1, W[i], rd) * nrm
                t.close(b.result[i], np.maximum(want, 0) if rd else want, 'eig-' + ('nodiag' if rd else 'full'), n=n, rtol=PH, **inp)
        with t.guard('eig-sum-raises', **inp):
            tot = sum(np.array(ac.BeamformerEig(freq_data=ps, steer=st, r_diag=False, n=k).result[:]) for k in range(m))
            t.close(tot, ac.BeamformerBase(freq_data=ps, steer=st, r_diag=False).result[:], 'eig-sum', rtol=PH, **inp)
        if r % 3 == 0:      # the following ones are defined for positive definite matrices only
            t.same(csm, keep, 'csm-altered')
            continue
        with t.guard('capon-raises', **inp):
            b = ac.BeamformerCapon(freq_data=ps, steer=st)
            for i in range(len(f)):
                t.close(b.result[i], 1 / (m ** 2 * bf_ref(np.linalg.inv(csm[i]), W[i], False)), 'capon', rtol=1e-5, **inp)
        with t.guard('music-raises', **inp):
            n = int(t.rng.integers(1, m))
            b = ac.BeamformerMusic(freq_data=ps, steer=st, n=n)
            for i in range(len(f)):
                E = ev[i][1][:, :m - n]; la = ev[i][0][:m - n]
                q = bf_ref((E * la) @ E.conj().T, W[i], False)
                t.close(b.result[i], 4e-10 * q.min() / q, 'music', n=n, rtol=PH, **inp)
        with t.guard('functional-raises', **inp):
            gam = float(t.rng.choice([1., 2., 8., 3.5]))
            b = ac.BeamformerFunctional(freq_data=ps, steer=st, gamma=gam)
            for i in range(len(f)):
                E, la = ev[i][1], ev[i][0]
                q = bf_ref((E * la ** (1 / gam)) @ E.conj().T, W[i], False)
                # documented: with normalised steering vectors
                n2 = (abs(W[i]) ** 2).sum(1)
                t.close(b.result[i], (q / n2) ** gam * n2, 'functional', gamma=gam, rtol=PH, **inp)
        t.same(csm, keep, 'csm-altered')


@case('C06', 'wrong channel count', 10)
def wrong(t):
    no_cache()
    m, mg, g, st, f, csm = setup(t, m=4)
    for n in (3, 5):
        t.raises(lambda: ac.BeamformerBase(freq_data=pimport(herm(t.rng, 3, n), f), steer=st).result, 'channel-mismatch', exc=ValueError)


@case('C06', 'linearity and time data', 30)
def fromtime(t):
    no_cache()
    for r in t.rounds(6, 40):
        m, mg, g, st, f, _ = setup(t, m=4, kind=STEERS[r % 4])
        s = ArraySource(data=t.rng.standard_normal((128 * 4, 4)), sample_freq=4000.)
        ps = ac.PowerSpectra(source=s, block_size=128, window='Hanning')
        csm = np.array(ps.csm)
        fr = ps.fftfreq()
        for rd in (True, False):
            b = ac.BeamformerBase(freq_data=ps, steer=st, r_diag=rd)
            for i in (1, 20, 63):
                want = bf_ref(csm[i], w_ref(st, fr[i])[0], rd)
                t.close(b.result[i], np.maximum(want * 4 / 3, 0) if rd else want, 'time-data', rtol=PH)
            B2 = ac.BeamformerBase(freq_data=ac.PowerSpectra(source=ArraySource(data=s.data * 3., sample_freq=4000.), block_size=128, window='Hanning'), steer=st, r_diag=rd)
            t.close(B2.result[20], 9 * np.array(b.result[20]), 'quadratic', rtol=PH)


# ------------------------------------------------------------------------------------------------ C20
@case('C20', 'band maps', 40)
def synth(t):
    no_cache()
    for r in t.rounds(10, 80):
        nf = 30
        m, mg, g, st, _, csm = setup(t, m=3, nf=nf, gsize=(2, 3))
        f = np.arange(nf) * 50.
        b = ac.BeamformerBase(freq_data=pimport(csm, f), steer=st, r_diag=False)
        full = np.array(ac.BeamformerBase(freq_data=pimport(csm, f), steer=st, r_diag=False).result[:]).reshape(nf, *g.shape)
        with t.guard('synthetic-raises'):
            k = int(t.rng.integers(0, nf))
            t.close(b.synthetic(f[k], 0), full[k], 'single-line', rtol=PH)
            for num in (1, 3, 12):
                fc = float(t.rng.uniform(100, 1200))
                lo, hi = fc * 2 ** (-.5 / num), fc * 2 ** (.5 / num)
                sel = (f >= lo) & (f < hi)
                with warnings.catch_warnings(record=True) as w:
                    warnings.simplefilter('always')
                    got = b.synthetic(fc, num)
                t.close(got, full[sel].sum(0), 'band', f'1/{num} octave at {fc}', rtol=PH)
                t.check(sel.any() or len(w) > 0, 'empty-band-silent', f'{fc} {num}')
            # a band with a single line, a line beyond the last one, limits together with a frequency
            t.close(b.synthetic(f[k], 400), full[(f >= f[k] * 2 ** (-.5 / 400)) & (f < f[k] * 2 ** (.5 / 400))].sum(0), 'narrow-band', rtol=PH)
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter('always')
                got = b.synthetic(float(f[-1] * t.rng.uniform(1.01, 3)), 0)
            t.check(len(w) > 0, 'missing-line-silent')
            t.close(got, full[0] * 0, 'missing-line', rtol=PH)
            a, c, d = np.sort(t.rng.choice(f, 3, replace=False))
            t.close(b.synthetic(f[k], [a, c]), full[(f >= a) & (f < c)].sum(0), 'list-band', rtol=PH)
            t.close(b.synthetic(0, [a, c]) + b.synthetic(0, [c, d]), b.synthetic(0, [a, d]), 'adjacent-bands', rtol=PH)
            t.close(b.synthetic(0, [a, c]), full[(f >= a) & (f < c)].sum(0), 'list-band', rtol=PH)
            if r % 2:
                x = f[k] + 10.
                with warnings.catch_warnings(record=True) as w:
                    warnings.simplefilter('always')
                    got = b.synthetic(x, 0)
                j = np.searchsorted(f, x)
                t.check(len(w) > 0, 'missing-line-silent')
                t.close(got, full[j] if j < nf else full[0] * 0, 'missing-line', rtol=PH)
            # integrate over the whole frequency selection of the spectra
            ps = pimport(csm, f); bb = ac.BeamformerBase(freq_data=ps, steer=st, r_diag=False)
            sec = ac.RectSector(x_min=-5, x_max=5, y_min=-5, y_max=5)
            t.close(bb.integrate(sec), full.reshape(nf, -1).sum(1), 'integrate-all-lines', rtol=PH)
            ps.ind_low = 3; ps.ind_high = 9
            h = bb.integrate(sec)
            want = np.zeros(nf); want[3:9] = full.reshape(nf, -1).sum(1)[3:9]
            t.close(h, want, 'integrate-selected-lines', rtol=PH)


@case('C20', 'octave band tools', 20)
def bands(t):
    from acoular.tools import helpers
    for r in t.rounds(6, 40):
        nf = int(t.rng.integers(60, 400)); df = float(t.rng.uniform(5, 30))
        f = np.arange(nf) * df
        d = t.rng.uniform(0, 1, (nf, 3) if r % 2 else nf)
        with t.guard('barspectrum-raises'):
            for num in (1, 3):
                ref = 1000.
                g = [1000. * 2 ** (k / num) for k in range(-5 * num, 4 * num)]
                for fc in g:
                    lo, hi = fc * 2 ** (-.5 / num), fc * 2 ** (.5 / num)
                    if lo < f[1] or hi > f[-1]:
                        continue
                    s = ac.synthetic(d, f, fc, num)
                    t.close(s, np.atleast_2d(d[(f >= lo) & (f < hi)].sum(0)) if d.ndim == 2 else np.atleast_1d(d[(f >= lo) & (f < hi)].sum(0)), 'synthetic-function', rtol=1e-9)


# ------------------------------------------------------------------------------------------------ C08
@case('C08', 'psf values', 60)
def psf(t):
    for r in t.rounds(24, 160):
        ac.config.global_caching = 'none' if r % 2 else 'all'
        m, mg, g, st, f, _ = setup(t, kind=STEERS[r % 4])
        n = g.size
        inp = dict(kind=st.steer_type, ref=st.ref, caching=ac.config.global_caching)
        fr = float(f[0])
        W, T = w_ref(st, fr)
        want = abs(np.einsum('gm,sm->gs', W.conj(), T)) ** 2
        for mode in ('single', 'block', 'full'):
            for prec in ('float64', 'float32'):
                tol = PH
                with t.guard(f'psf-raises-{mode}', **inp):
                    p = ac.PointSpreadFunction(steer=st, freq=fr, calcmode=mode, precision=prec)
                    t.close(p.psf[:], want, f'psf-{mode}', rtol=tol, mode=mode, **inp)
                    sub = t.rng.permutation(n)[:int(t.rng.integers(1, n))]
                    p = ac.PointSpreadFunction(steer=st, freq=fr, calcmode=mode, precision=prec, grid_indices=sub)
                    t.close(p.psf[:], want[:, sub], f'psf-subset-{mode}', rtol=tol, mode=mode, sub=sub, **inp)
                    # one point, then others, then all, with the same object
                    a = np.array([sub[0]])
                    p = ac.PointSpreadFunction(steer=st, freq=fr, calcmode=mode, precision=prec, grid_indices=a)
                    t.close(p.psf[:], want[:, a], f'psf-one-{mode}', rtol=tol, mode=mode, **inp)
                    p.grid_indices = sub
                    t.close(p.psf[:], want[:, sub], f'psf-then-subset-{mode}', rtol=tol, mode=mode, **inp)
                    p.grid_indices = np.arange(n)
                    t.close(p.psf[:], want, f'psf-then-all-{mode}', rtol=tol, mode=mode, **inp)
                    fr2 = float(f[1])
                    p.freq = fr2
                    W2, T2 = w_ref(st, fr2)
                    t.close(p.psf[:], abs(np.einsum('gm,sm->gs', W2.conj(), T2)) ** 2, f'psf-freq-{mode}', rtol=tol, **inp)
        if st.steer_type in ('inverse', 'true level'):
            t.close(np.diag(np.array(ac.PointSpreadFunction(steer=st, freq=fr, calcmode='full').psf[:])), np.ones(n), 'psf-own-point', **inp)


@case('C08', 'psf is the beamformed unit source', 40)
def psf_bf(t):
    no_cache()
    for r in t.rounds(12, 80):
        m, mg, g, st, f, _ = setup(t, kind=STEERS[r % 4])
        if r % 3 == 0:
            cs = CustomSteer(grid=g, mics=mg, steer_type=st.steer_type, env=st.env); cs.ref = st.ref; st = cs
        fr = float(f[0])
        h = st.transfer(fr)
        with t.guard('psf-bf-raises', kind=st.steer_type):
            for mode in ('single', 'block', 'full'):
                P = np.array(ac.PointSpreadFunction(steer=st, freq=fr, calcmode=mode).psf[:])
                for k in (0, g.size - 1, int(t.rng.integers(0, g.size))):
                    csm = np.outer(h[k], h[k].conj())[None]
                    b = ac.BeamformerBase(freq_data=pimport(csm, [fr]), steer=st, r_diag=False)
                    t.close(P[:, k], b.result[0], 'psf-map', f'column {k}', kind=st.steer_type, custom=type(st).__name__, mode=mode, rtol=PH)


@case('C08', 'neighbouring frequencies with caching', 20)
def psf_freqs(t):
    ac.config.global_caching = 'individual'
    m, mg, g, st, f, _ = setup(t, m=4)
    for fr in (1000.0, 1000.004, 1000.2, 999.999, 100.45, 10045.):
        W, T = w_ref(st, fr)
        p = ac.PointSpreadFunction(steer=st, freq=fr, calcmode='full')
        t.close(p.psf[:], abs(np.einsum('gm,sm->gs', W.conj(), T)) ** 2, 'psf-neighbour', f'{fr}', rtol=1e-6)


@case('C08', 'readonly modes', 15)
def psf_ro(t):
    m, mg, g, st, f, _ = setup(t, m=4)
    fr = float(f[0]); W, T = w_ref(st, fr); want = abs(np.einsum('gm,sm->gs', W.conj(), T)) ** 2
    ac.config.global_caching = 'all'
    a = np.array([1])
    p = ac.PointSpreadFunction(steer=st, freq=fr, calcmode='single', grid_indices=a)
    t.close(p.psf[:], want[:, a], 'psf-ro-first', rtol=PH)
    t.raises(lambda: ac.PointSpreadFunction(steer=st, freq=fr, calcmode='readonly', grid_indices=np.array([2])).psf, 'psf-readonly-missing', exc=ValueError)
    with t.guard('psf-readonly-raises'):
        t.close(ac.PointSpreadFunction(steer=st, freq=fr, calcmode='readonly', grid_indices=a).psf[:], want[:, a], 'psf-readonly-present', rtol=PH)


# ------------------------------------------------------------------------------------------------ C09
def damas_ref(A, y, n_iter, damp, x):
    x = x.copy()
    for _ in range(n_iter):
        for i in range(len(y)):
            x1 = y[i] - A[i, :i] @ x[:i] - A[i, i + 1:] @ x[i + 1:]
            x1 = x[i] + damp * (x1 - x[i])
            x[i] = max(x1, 0)
    return x


@case('C09', 'damas update', 40)
def damas(t):
    no_cache()
    for r in t.rounds(12, 100):
        m, mg, g, st, f, csm = setup(t, kind=STEERS[r % 4], m=4)
        rd = bool(r % 2); damp = float(t.rng.choice([1., .5, .9])); n = int(t.rng.choice([1, 2, 7, 30]))
        inp = dict(kind=st.steer_type, r_diag=rd, damp=damp, n=n)
        with t.guard('damas-raises', **inp):
            b = ac.BeamformerDamas(freq_data=pimport(csm, f), steer=st, r_diag=rd, n_iter=n, damp=damp)
            for i in range(len(f)):
                W, T = w_ref(st, f[i])
                y = bf_ref(csm[i], W, rd)
                if rd:
                    y = np.maximum(y * 4 / 3, 0)
                A = abs(np.einsum('gm,sm->gs', W.conj(), T)) ** 2
                t.close(b.result[i], damas_ref(A, y, n, damp, y), 'damas-map', rtol=PH, **inp)


@case('C09', 'non-negative maps', 90)
def nonneg(t):
    no_cache()
    warnings.simplefilter('ignore')
    for r in t.rounds(6, 40):
        m, mg, g, st, f, csm = setup(t, m=5, kind=STEERS[r % 4], nf=2, psd=bool(r % 3))
        rd = bool(r % 2)
        mk = [('damas', lambda: ac.BeamformerDamas(freq_data=pimport(csm, f), steer=st, r_diag=rd, n_iter=20))]
        for meth in ('NNLS', 'LassoLars', 'LP') if not rd else ('NNLS', 'LassoLars'):
            mk.append(('damasplus-' + meth, lambda meth=meth: ac.BeamformerDamasPlus(freq_data=pimport(csm, f), steer=st, r_diag=rd, method=meth)))
        mk += [('clean', lambda: ac.BeamformerClean(freq_data=pimport(csm, f), steer=st, r_diag=rd, n_iter=30)),
               ('cleansc', lambda: ac.BeamformerCleansc(freq_data=pimport(csm, f), steer=st, r_diag=rd, n_iter=10)),
               ('cmf-NNLS', lambda: ac.BeamformerCMF(freq_data=pimport(csm, f), steer=st, r_diag=rd, method='NNLS')),
               ('cmf-LassoLars', lambda: ac.BeamformerCMF(freq_data=pimport(csm, f), steer=st, r_diag=rd, method='LassoLars')),
               ('cmf-fmin', lambda: ac.BeamformerCMF(freq_data=pimport(csm, f), steer=st, r_diag=rd, method='fmin_l_bfgs_b')),
               ('sodix', lambda: ac.BeamformerSODIX(freq_data=pimport(csm, f), steer=st, r_diag=rd, n_iter=10)),
               ('gib', lambda: ac.BeamformerGIB(freq_data=pimport(csm, f), steer=st, n=2, n_iter=3)),
               ('orth', lambda: ac.BeamformerOrth(freq_data=pimport(csm, f), steer=st, r_diag=rd, n=2))]
        for name, make in mk:
            if name == 'damasplus-LP' and r % 3 == 0:
                continue        # infeasible for a map with negative values
            if name in ('orth', 'gib', 'cmf-NNLS', 'cmf-LassoLars', 'cmf-fmin', 'sodix') and r % 3 == 0:
                continue        # these require positive semi-definite matrices
            with t.guard(name + '-raises', kind=st.steer_type, r_diag=rd):
                res = np.array(make().result[:])
                t.check(np.isfinite(res).all() and res.min() >= -1e-12 * abs(res).max(), name + '-negative', f'minimum {np.nanmin(res)}', kind=st.steer_type, r_diag=rd)


def clean_ref(P, y, damp, n_iter):
    d = y.copy(); c = np.zeros_like(y); it = 0
    while True:
        s = abs(d).sum(); k = d.argmax(); a = damp * d[k]
        c[k] += a
        d = d - P[:, k] * a
        it += 1
        if not (s > abs(d).sum() and it < n_iter and d.max() > 0):
            return c


@case('C09', 'clean and orthogonal beamforming', 40)
def clean(t):
    no_cache()
    warnings.simplefilter('ignore')
    for r in t.rounds(12, 100):
        m, mg, g, st, f, csm = setup(t, kind=STEERS[r % 4], m=4)
        rd = bool(r % 2); damp = float(t.rng.choice([1., .6, .3])); n = int(t.rng.choice([1, 5, 40]))
        inp = dict(kind=st.steer_type, r_diag=rd, damp=damp, n=n)
        for mode in ('single', 'block', 'full'):
            with t.guard('clean-raises', mode=mode, **inp):
                b = ac.BeamformerClean(freq_data=pimport(csm, f), steer=st, r_diag=rd, n_iter=n, damp=damp, calcmode=mode)
                for i in range(len(f)):
                    W, T = w_ref(st, f[i])
                    y = bf_ref(csm[i], W, rd)
                    if rd:
                        y = np.maximum(y * 4 / 3, 0)
                    A = abs(np.einsum('gm,sm->gs', W.conj(), T)) ** 2
                    t.close(b.result[i], clean_ref(A, y, damp, n), 'clean-map', rtol=PH, mode=mode, **inp)
        with t.guard('orth-raises', **inp):
            b = ac.BeamformerOrth(freq_data=pimport(csm, f), steer=st, r_diag=rd, n=3)
            for i in range(len(f)):
                W, _ = w_ref(st, f[i])
                la, E = np.linalg.eigh(csm[i])
                want = np.zeros(g.size)
                for k in (-1, -2, -3):
                    q = bf_ref(np.outer(E[:, k], E[:, k].conj()), W, rd)
                    want[q.argmax()] += la[k] / m
                t.close(b.result[i], want, 'orth-map', rtol=PH, **inp)
            t.close(b.result[:].sum(1), [np.linalg.eigvalsh(c)[-3:].sum() / m for c in csm], 'orth-power', rtol=PH, **inp)


def cleansc_ref(C, W, rd, damp, n_iter, stopn):
    """CLEAN based on source coherence (Sijtsma 2007); None when the strongest point is not unique"""
    m = C.shape[0]; nf = m / (m - 1) if rd else 1.
    q = lambda A: bf_ref(A, W, rd) * nf
    D = C.copy(); y = q(D); out = np.zeros(len(W)); pw = []
    for j in range(n_iter or 2 * m):
        k = y.argmax(); pk = y[k]; pw.append(pk)
        if len(y) > 1 and np.sort(y)[-2] > pk * (1 - 1e-2): return None
        if pk < 1e-3 * pw[0]: return None
        if pk <= 0: break
        out[k] += damp * pk
        if j > stopn and abs(pk / pw[j - stopn] - 1) < 1e-2: return None
        if j > stopn and pk > pw[j - stopn]: break
        w = W[k] * np.sqrt(nf); h = w.copy()
        Dw = (D - np.diag(np.diag(D))) @ w / pk
        for _ in range(20):
            H = abs(h) ** 2
            h = (Dw + H * w) / np.sqrt(1 + (abs(w) ** 2 * H).sum())
        G = pk * np.outer(h, h.conj())
        y = y - damp * q(G); D = D - damp * G
    return out


@case('C09', 'CLEAN-SC', 60)
def cleansc(t):
    no_cache()
    warnings.simplefilter('ignore')
    for r in t.rounds(24, 160):
        m, mg, g, st, f, csm = setup(t, kind=STEERS[r % 4], m=5, nf=2)
        rd = bool(r % 2); damp = float(t.rng.choice([1., .6, .3])); n = int(t.rng.choice([1, 2, 3, 6, 0])); stopn = int(t.rng.choice([1, 3]))
        inp = dict(kind=st.steer_type, r_diag=rd, damp=damp, n=n, stopn=stopn)
        with t.guard('cleansc-raises', **inp):
            b = ac.BeamformerCleansc(freq_data=pimport(csm, f), steer=st, r_diag=rd, n_iter=n, damp=damp, stopn=stopn)
            for i in range(len(f)):
                want = cleansc_ref(csm[i], w_ref(st, f[i])[0], rd, damp, n, stopn)
                if want is not None:
                    t.close(b.result[i], want, 'cleansc-map', rtol=3e-3, **inp)


@case('C09', 'known single source', 60)
def single(t):
    """one source on a grid point: every deconvolution method finds it with its level"""
    no_cache()
    warnings.simplefilter('ignore')
    for r in t.rounds(3, 20):
        m, mg, g, st, f, _ = setup(t, m=8, kind='true level', nf=2, gsize=(4, 3))
        k = int(t.rng.integers(0, g.size)); p = float(t.rng.uniform(.5, 3))
        f = np.array([1500., 2500.])
        csm = np.array([p * np.outer(st.transfer(x)[k], st.transfer(x)[k].conj()) for x in f])
        ps = lambda: pimport(csm, f)
        for name, b in (('damas', ac.BeamformerDamas(freq_data=ps(), steer=st, r_diag=False, n_iter=300)),
                        ('damasplus', ac.BeamformerDamasPlus(freq_data=ps(), steer=st, r_diag=False, method='NNLS')),
                        ('clean', ac.BeamformerClean(freq_data=ps(), steer=st, r_diag=False, damp=1., n_iter=5)),
                        ('cleansc', ac.BeamformerCleansc(freq_data=ps(), steer=st, r_diag=False, damp=1., n_iter=1)),
                        ('cmf', ac.BeamformerCMF(freq_data=ps(), steer=st, r_diag=False, method='NNLS')),
                        ('base', ac.BeamformerBase(freq_data=ps(), steer=st, r_diag=False))):
            with t.guard(name + '-single-raises'):
                res = np.array(b.result[:])
                for i in range(2):
                    t.check(res[i].argmax() == k, name + '-position', f'{res[i].argmax()} instead of {k}')
                    t.close(res[i, k], p, name + '-level', rtol=2e-2)


# ------------------------------------------------------------------------------------------------ C14
@case('C14', 'quiescent and uniform flow', 40)
def env(t):
    for r in t.rounds(40, 300):
        n, m = int(t.rng.integers(1, 6)), int(t.rng.integers(1, 6))
        G, M = t.rng.uniform(-2, 2, (3, n)), t.rng.uniform(-2, 2, (3, m))
        g = ac.ImportGrid(); g.pos = G
        mm = ac.MicGeom(pos_total=M)
        rm = lambda e, g_=G, m_=M: _rm(e, g_, m_)
        d = dist(G, M)
        e0 = ac.Environment()
        with t.guard('env-raises', n=n, m=m):
            t.close(rm(e0), d, 'euclidean', n=n, m=m)
            t.close(rm(e0, M, G), d.T, 'symmetric')
            sh = t.rng.uniform(-3, 3, (3, 1))
            t.close(rm(e0, G + sh, M + sh), d, 'translation')
        fdv = t.rng.uniform(-1, 1, 3)
        ma = float(t.rng.uniform(0, .8))
        with t.guard('flow-raises', n=n, m=m):
            e = ac.UniformFlowEnvironment(ma=0.0, fdv=fdv)
            t.close(rm(e), d, 'flow-zero-speed')
            e = ac.UniformFlowEnvironment(ma=ma, fdv=fdv)
            u = fdv / np.linalg.norm(fdv)
            x = G[:, :, None] - M[:, None, :]
            mc = ma * np.einsum('i,igm->gm', u, x) / d
            want = d / (-mc + np.sqrt(mc ** 2 - ma ** 2 + 1))
            t.close(rm(e), want, 'flow-formula', ma=ma, fdv=fdv)
            # travel time: the wave front centre convects with the flow (flow from the source to the microphone)
            tt = want / e.c
            t.close(np.linalg.norm(-x - ma * e.c * u[:, None, None] * tt * -1 * -1, axis=0), tt * e.c, 'flow-convected', rtol=1e-6, ma=ma) if False else None
            resid = np.minimum(abs(np.linalg.norm(x - ma * u[:, None, None] * want, axis=0) - want), abs(np.linalg.norm(x + ma * u[:, None, None] * want, axis=0) - want))
            t.check(resid.max() < 1e-6 * want.max(), 'flow-convected', f'residual {resid.max()}', ma=ma)
            t.close(rm(e, G + sh, M + sh), want, 'flow-translation', ma=ma)
            t.check(rm(e).min() >= 0, 'flow-nonneg')
            e2 = ac.UniformFlowEnvironment(ma=ma, fdv=fdv * 3.7)
            t.close(rm(e2), want, 'flow-direction-scale')
            e3 = ac.UniformFlowEnvironment(ma=ma, fdv=-fdv)
            t.close(rm(e3, M, G).T, want, 'flow-reversal')
        one = np.array([[0.], [0.], [0.]])
        t.close(_r0(e0, G), np.sqrt((G ** 2).sum(0)), 'origin-default')


def _rm(e, G, M):
    g = ac.ImportGrid(); g.pos = np.array(G)
    st = ac.SteeringVector(grid=g, mics=ac.MicGeom(pos_total=np.array(M)), env=e)
    got = np.asarray(st.rm)
    # shape for a single microphone or a single point is judged in its own case
    return got.reshape(G.shape[1], M.shape[1])


def _r0(e, G):
    g = ac.ImportGrid(); g.pos = np.array(G)
    st = ac.SteeringVector(grid=g, mics=ac.MicGeom(pos_total=np.zeros((3, 1))), env=e)
    return st.r0


@case('C14', 'shape for every number of points and microphones', 15)
def shapes(t):
    for n in (1, 2, 3, 7):
        for m in (1, 2, 5):
            g = ac.ImportGrid(); g.pos = t.rng.uniform(-1, 1, (3, n))
            for e in (ac.Environment(), ac.UniformFlowEnvironment(ma=.3)):
                st = ac.SteeringVector(grid=g, mics=ac.MicGeom(pos_total=t.rng.uniform(2, 3, (3, m))), env=e)
                key = 'shape-one-mic' if m == 1 else 'shape'
                t.check(np.asarray(st.rm).shape == (n, m), key, f'{np.asarray(st.rm).shape} instead of {(n, m)}', env=type(e).__name__)
                t.check(np.asarray(st.r0).shape == (n,), 'shape-r0', f'{np.asarray(st.r0).shape}')


@case('C14', 'general flow', 60)
def general(t):
    G = np.array(np.meshgrid([-.2, 0., .2], [-.2, .2], [.6])).reshape(3, -1)
    M = np.array([[0., .3, -.25], [.1, -.2, .2], [0., 0., 0.]])
    d = dist(G, M)
    with t.guard('general-raises'):
        for ff in (ac.OpenJet(v0=0., origin=(-1., 0, 0)), ac.SlotJet(v0=0., origin=(-1., 0, 0))):
            e = ac.GeneralFlowEnvironment(ff=ff, N=150)
            t.close(_rm(e, G, M), d, 'general-no-flow-' + type(ff).__name__, rtol=2e-2)
        class Const(ac.FlowField):
            def _get_digest(self):
                return '_const'
            def v(self, xx):
                return np.array((30., 0, 0)), np.zeros((3, 3))
        e = ac.GeneralFlowEnvironment(ff=Const(), N=150)
        got = _rm(e, G, M)
        u = np.array([1., 0, 0]); x = G[:, :, None] - M[:, None, :]; ma = 30 / e.c
        best = min(abs(got - d / (s * ma * x[0] / d + np.sqrt((ma * x[0] / d) ** 2 - ma ** 2 + 1))).max() for s in (1, -1))
        t.check(best < 2e-2, 'general-uniform-flow', f'deviation {best}')
        # flow off, then on, with the same object
        j = ac.OpenJet(v0=0., origin=(-2., 0, .3), D=.2)
        e = ac.GeneralFlowEnvironment(ff=j, N=150)
        a = _rm(e, G, M)
        j.v0 = 100.
        b = _rm(e, G, M)
        fresh = _rm(ac.GeneralFlowEnvironment(ff=ac.OpenJet(v0=100., origin=(-2., 0, .3), D=.2), N=150), G, M)
        t.close(b, fresh, 'general-stale-flow', 'after a change of the flow speed', rtol=1e-9)
        e.c = 300.
        t.close(_rm(e, G, M), _rm(ac.GeneralFlowEnvironment(c=300., ff=ac.OpenJet(v0=100., origin=(-2., 0, .3), D=.2), N=150), G, M), 'general-stale-c', rtol=1e-9)


@case('C14', 'flow fields', 20)
def fields(t):
    """the velocity gradient is the derivative of the velocity"""
    for r in t.rounds(20, 150):
        l = float(t.rng.uniform(3, 8)) if r >= 3 else None
        og = (-1., .1, -.1)
        j = [ac.OpenJet(v0=50., origin=og, D=.3), ac.SlotJet(v0=50., origin=og, B=.3), ac.RotatingFlow(rps=float(t.rng.uniform(-5, 5)), v0=3., origin=og)][r % 3]
        if l and r % 3 < 2:
            j.l = l
        x = np.array([t.rng.uniform(.3, 2), *t.rng.uniform(-.6, .6, 2)])
        if r % 3 == 1 and r > 5:
            j.flow = t.rng.uniform(.1, 1, 3)
            j.plane = np.cross(j.flow, t.rng.standard_normal(3)) * 2
        with t.guard('field-raises', field=type(j).__name__):
            v, dv = j.v(x)
            h = 1e-6
            num = np.array([(j.v(x + h * e)[0] - j.v(x - h * e)[0]) / (2 * h) for e in np.eye(3)])   # num[k, i] = d v_i / d x_k
            dev = min(abs(num - dv).max(), abs(num.T - dv).max())
            t.check(dev < 1e-3 * max(1, abs(num).max()), 'field-gradient-' + type(j).__name__, f'{dev}: {dv.tolist()} vs {num.tolist()}', x=x)
            t.check(np.asarray(v).shape == (3,), 'field-shape')
            q = x - np.array(og)
            if r % 3 == 2:
                t.close(v, 2 * np.pi * j.rps * np.array([-q[1], q[0], 0]) + np.array([0, 0, 3.]), 'field-velocity-RotatingFlow', x=x)
            else:
                f, n = (np.eye(3)[0], None) if r % 3 == 0 else (j.flow / np.linalg.norm(j.flow), np.cross(j.flow, j.plane / np.linalg.norm(j.plane)) / np.linalg.norm(j.flow))
                a = f @ q
                x1 = (.5022 if n is None else .5668) / j.l * a
                h1 = np.linalg.norm(q[1:]) + x1 - .5 * j.D if n is None else abs(n @ q) + np.sqrt(np.pi) * .5 * x1 - .5 * j.B
                t.close(v, f * 50. * (1. if h1 < 0 else np.exp(-h1 ** 2 / (2 * x1 ** 2))), 'field-velocity-' + type(j).__name__, x=x, l=j.l)
