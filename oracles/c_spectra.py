"""C05, C17, C18, C20 (frequency selection): spectra."""
import numpy as np
import acoular as ac
from oracles.lib import case
from oracles.h import *

WIN = {'Rectangular': np.ones, 'Hanning': np.hanning, 'Hamming': np.hamming, 'Bartlett': np.bartlett, 'Blackman': np.blackman}
OV = {'None': 1, '50%': 2, '75%': 4, '87.5%': 8}


def blocks_ref(x, bs, ov):
    hop = bs // OV[ov]
    return [x[s:s + bs] for s in range(0, x.shape[0] - bs + 1, hop)]


def csm_ref(x, bs, win, ov):
    w = WIN[win](bs)
    acc = 0
    bl = blocks_ref(x, bs, ov)
    for b in bl:
        s = np.fft.rfft(b * w[:, None], axis=0)
        acc = acc + s[:, :, None] * s[:, None, :].conj()
    return acc / len(bl) * 2 / bs / (w @ w)


@case('C05', 'csm is the block mean', 40)
def csm_mean(t):
    no_cache()
    for r in t.rounds(14, 120):
        bs = int(t.rng.choice([128, 256]))
        win = str(t.rng.choice(list(WIN)))
        ov = str(t.rng.choice(list(OV)))
        prec = 'complex128' if r % 4 else 'complex64'
        m = int(t.rng.integers(1, 5))
        n = int(t.rng.integers(bs, 6 * bs)) if r % 2 else bs * int(t.rng.integers(1, 6))
        x = t.rng.standard_normal((n, m)) + t.rng.standard_normal((1, m)) * (r % 3 == 0)
        s = ArraySource(data=x, sample_freq=float(t.rng.uniform(100, 50000)))
        ps = ac.PowerSpectra(source=s, block_size=bs, window=win, overlap=ov, precision=prec)
        inp = dict(n=n, bs=bs, win=win, ov=ov, prec=prec, m=m)
        with t.guard('csm-raises', **inp):
            csm = np.array(ps.csm)
            tol = 1e-9 if prec == 'complex128' else 2e-4
            ref = csm_ref(x, bs, win, ov)
            nt, nr = len(blocks_ref(x, bs, ov)), OV[ov] * n / bs - OV[ov] + 1
            if nr != nt and not np.allclose(csm, ref, rtol=tol, atol=tol * np.abs(ref).max()) and np.allclose(csm, ref * nt / nr, rtol=tol, atol=tol * np.abs(ref).max()):
                # every block is there, but the sum is divided by a number of blocks that is not the one averaged over
                t.check(False, 'csm-normaliser-incomplete-block', f'CSM is the block mean times {nt}/{nr}', **inp)
            else:
                t.close(csm, ref, 'csm-mean', 'CSM', rtol=tol, **inp)
            t.close(csm, csm.conj().transpose(0, 2, 1), 'hermitian', 'CSM hermitian', rtol=tol, **inp)
            d = np.einsum('fii->fi', csm)
            t.check(np.abs(d.imag).max() <= tol * np.abs(d).max() and d.real.min() >= -1e-12, 'diagonal', 'diagonal real non-negative', **inp)
        with t.guard('eig-raises', **inp):
            eva, eve = np.array(ps.eva), np.array(ps.eve)
            t.close(np.einsum('fik,fk,fjk->fij', eve, eva, eve.conj()), csm, 'eig-reproduces', 'eigendecomposition', rtol=1e-8 if prec == 'complex128' else 1e-3, **inp)
            t.close(np.einsum('fki,fkj->fij', eve.conj(), eve), np.broadcast_to(np.eye(m), csm.shape), 'eve-orthonormal', rtol=1e-6 if prec == 'complex128' else 1e-3, **inp)
            t.check((np.diff(eva, axis=1) >= -1e-6 * np.abs(eva).max()).all() and eva.min() >= -1e-6 * np.abs(eva).max(), 'eva-order', 'eigenvalues ascending and non-negative', **inp)
        nb = len(blocks_ref(x, bs, ov))
        with t.guard('num-blocks-raises', **inp):
            t.check(int(ps.num_blocks) == nb, 'num-blocks', f'{ps.num_blocks} blocks announced, {nb} exist', **inp)
        t.close(ps.fftfreq(), np.abs(np.fft.fftfreq(bs, 1 / s.sample_freq)[:bs // 2 + 1]), 'fftfreq', **inp)


@case('C05', 'scaling and structure', 30)
def csm_laws(t):
    no_cache()
    bs = 128
    for r in t.rounds(4, 30):
        x = t.rng.standard_normal((bs * 4, 3))
        win, ov = str(t.rng.choice(list(WIN))), str(t.rng.choice(list(OV)))
        mk = lambda y: np.array(ac.PowerSpectra(source=ArraySource(data=y, sample_freq=1000.), block_size=bs, window=win, overlap=ov).csm)
        c = mk(x)
        a = np.array([2., -.5, 3.])
        t.close(mk(x * a), c * np.outer(a, a), 'scaling', 'channel gains', win=win, ov=ov)
        p = t.rng.permutation(3)
        t.close(mk(x[:, p]), c[:, p][:, :, p], 'permutation', 'channel order', win=win, ov=ov)
        # one-sided amplitude: a bin-centred tone of amplitude A shows A**2/2 with a rectangular window
        A, k = 1.7, 11
        tone = A * np.cos(2 * np.pi * k * np.arange(4 * bs) / bs)[:, None]
        cr = np.array(ac.PowerSpectra(source=ArraySource(data=tone, sample_freq=1000.), block_size=bs, window='Rectangular', overlap=ov).csm)
        t.close(cr[k, 0, 0], A ** 2 / 2, 'tone-level', 'mean square of a tone', rtol=1e-6, ov=ov)


@case('C05', 'signals near the digest limits', 20)
def csm_cached_levels(t):
    """a stored CSM is delivered whatever its sum is (all zero input, sign-cancelling input)"""
    bs = 128
    for mode in ('individual', 'all', 'none'):
        ac.config.global_caching = mode
        for x in (np.zeros((3 * bs, 2)), np.concatenate([t.rng.standard_normal((3 * bs, 1))] * 2, axis=1) * [1, -1]):
            ps = ac.PowerSpectra(source=ArraySource(data=x, sample_freq=1000.), block_size=bs)
            for k in range(2):
                t.close(ps.csm[:], csm_ref(x, bs, 'Rectangular', 'None'), 'cached-csm', mode)


@case('C05', 'imported csm', 20)
def csm_import(t):
    for r in t.rounds(6, 60):
        nf, m = int(t.rng.integers(1, 6)), int(t.rng.integers(1, 6))
        c = herm(t.rng, nf, m)
        f = np.sort(t.rng.uniform(10, 1000, nf))
        ps = ac.PowerSpectraImport(csm=c, frequencies=f)
        t.same(ps.csm, c, 'import-csm'); t.same(ps.fftfreq(), f, 'import-freq')
        t.check(ps.num_channels == m, 'import-channels', f'{ps.num_channels}')
        eva, eve = ps.eva, ps.eve
        t.close(np.einsum('fik,fk,fjk->fij', eve, eva, eve.conj()), c, 'import-eig')
        d0 = ps.digest
        c2 = herm(t.rng, nf, m)
        ps.csm = c2
        t.same(ps.csm, c2, 'import-csm-again')
        t.close(np.einsum('fik,fk,fjk->fij', ps.eve, ps.eva, ps.eve.conj()), c2, 'import-eig-after-change')
        t.check(ps.digest != d0, 'import-digest', 'digest unchanged after a new CSM')
        t.raises(lambda: setattr(ps, 'csm', np.zeros((3, 2, 4), complex)), 'import-shape')
        t.raises(lambda: setattr(ps, 'csm', np.zeros((2, 2), complex)), 'import-ndim')


# ------------------------------------------------------------------------------------------------ C17
@case('C17', 'rfft blocks', 40)
def rfft_blocks(t):
    no_cache()
    for r in t.rounds(20, 150):
        bs = int(t.rng.choice([2, 4, 6, 16, 30, 64, 128, 256])) if r % 2 else int(t.rng.choice([128, 256]))
        win = str(t.rng.choice(list(WIN))) if bs > 6 else 'Rectangular'
        ov = 'None' if bs % 8 else str(t.rng.choice(list(OV)))
        sc = str(t.rng.choice(['none', 'energy', 'amplitude']))
        prec = 'complex128' if r % 3 else 'complex64'
        m = int(t.rng.integers(1, 4))
        n = int(t.rng.integers(bs, 7 * bs))
        num = int(t.rng.integers(1, 6))
        fs = float(t.rng.uniform(100, 50000))
        x = t.rng.standard_normal((n, m))
        inp = dict(n=n, bs=bs, win=win, ov=ov, sc=sc, prec=prec, num=num, m=m)
        with t.guard('rfft-raises', **inp):
            f = ac.RFFT(source=ArraySource(data=x, sample_freq=fs), block_size=bs, window=win, overlap=ov, scaling=sc, precision=prec)
            bl = [np.array(b) for b in f.result(num)]
            got = np.concatenate(bl, axis=0)
            w = WIN[win](bs)
            ref = np.array([np.fft.rfft(b * w[:, None], axis=0) for b in blocks_ref(x, bs, ov)])
            if sc != 'none':
                ref[:, 1:-1] *= 2
            ref = ref / w.sum() if sc == 'amplitude' else ref / np.sqrt(w @ w / bs)
            t.close(got, ref.reshape(len(ref), -1), 'rfft-values', rtol=1e-8 if prec == 'complex128' else 1e-4, **inp)
            t.check(all(b.shape[0] == num for b in bl[:-1]) and 0 < bl[-1].shape[0] <= num, 'rfft-block-rows', str([b.shape for b in bl]), **inp)
            t.check(f.num_freqs == bs // 2 + 1 and len(f.freqs) == f.num_freqs, 'rfft-num-freqs', f'{f.num_freqs}', **inp)
            t.check(got.shape[1] == f.num_freqs * f.num_channels and f.num_channels == m, 'rfft-columns', str(got.shape), **inp)
            t.close(f.freqs, np.arange(bs // 2 + 1) * fs / bs, 'rfft-freqs', **inp)
            t.check(f.num_samples == len(ref), 'rfft-count' if ov == 'None' else 'rfft-count-overlap', f'announces {f.num_samples} spectra, delivers {len(ref)}', **inp)
            t.check(f.block_size == bs, 'rfft-block-size', **inp)
    t.raises(lambda: ac.RFFT(block_size=127), 'odd-block-size')


@case('C17', 'inverse transform', 40)
def rfft_irfft(t):
    no_cache()
    for r in t.rounds(16, 120):
        bs = int(t.rng.choice([4, 16, 30, 64, 128, 256]))
        m = int(t.rng.integers(1, 4))
        nb = int(t.rng.integers(1, 6))
        n = nb * bs + int(t.rng.integers(0, bs))
        x = t.rng.standard_normal((n, m))
        prec = 'float64' if r % 4 else 'float32'
        inp = dict(n=n, bs=bs, m=m, prec=prec)
        with t.guard('irfft-raises', **inp):
            f = ac.RFFT(source=ArraySource(data=x, sample_freq=1000.), block_size=bs)
            i = ac.IRFFT(source=f, precision=prec)
            t.check(i.num_samples == nb * bs and i.num_channels == m, 'irfft-count', f'{i.num_samples}', **inp)
            for num in (bs, 1, int(t.rng.integers(1, 3 * bs)), 4 * bs, bs + 1, bs - 1):
                bl = [np.array(b) for b in i.result(num)]
                got = np.concatenate(bl)
                t.close(got, x[:nb * bs], 'irfft-restores', f'num={num}', rtol=1e-10 if prec == 'float64' else 1e-5, num=num, **inp)
                t.check(all(b.shape[0] == num for b in bl[:-1]) and bl[-1].shape[0] <= num, 'irfft-rows', str([b.shape for b in bl]), num=num, **inp)


@case('C17', 'no complete block', 15)
def rfft_short(t):
    no_cache()
    for n in (1, 100, 127):
        for num in (1, 2, 5):
            f = ac.RFFT(source=src(t.rng, n, 2), block_size=128)
            with t.guard('rfft-short-raises', n=n, num=num):
                got = [np.array(b) for b in f.result(num)]
                t.check(sum(b.shape[0] for b in got) == 0, 'rfft-spurious-row', f'{n} samples give spectra {[b.shape for b in got]}', n=n, num=num)
                t.check(f.num_samples == 0, 'rfft-short-count', n=n)


@case('C17', 'amplitude and energy', 25)
def rfft_scaling(t):
    no_cache()
    for r in t.rounds(8, 60):
        bs = 128
        win = str(t.rng.choice(list(WIN)))
        k = int(t.rng.integers(5, bs // 2 - 5)); A = float(t.rng.uniform(.1, 5)); ph = float(t.rng.uniform(0, 6))
        x = A * np.cos(2 * np.pi * k * np.arange(bs) / bs + ph)[:, None]
        g = collect(ac.RFFT(source=ArraySource(data=x, sample_freq=1000.), block_size=bs, window=win, scaling='amplitude'), 1)[0]
        t.close(abs(g[k]), A, 'amplitude', f'{win} tone amplitude', rtol=1e-2 if win != 'Rectangular' else 1e-9)
        x = t.rng.standard_normal((bs, 1))
        g = collect(ac.RFFT(source=ArraySource(data=x, sample_freq=1000.), block_size=bs, scaling='none'), 1)[0]
        t.close((abs(g[0]) ** 2 + 2 * (abs(g[1:-1]) ** 2).sum() + abs(g[-1]) ** 2) / bs, (x ** 2).sum(), 'parseval', 'energy', rtol=1e-9)


# ------------------------------------------------------------------------------------------------ C18
def pairs(mode, m):
    if mode == 'full':
        return [(i, j) for i in range(m) for j in range(m)]
    if mode == 'upper':
        return [(i, j) for i in range(m) for j in range(i, m)]
    return [(i, j) for i in range(m) for j in range(0, i + 1)]


@case('C18', 'auto power', 25)
def auto_power(t):
    no_cache()
    for r in t.rounds(16, 120):
        bs = int(t.rng.choice([16, 64, 128])); m = int(t.rng.integers(1, 4)); nb = int(t.rng.integers(1, 6))
        fs = float(t.rng.uniform(10, 5000)); num = int(t.rng.integers(1, 5))
        X = t.rng.standard_normal((nb, (bs // 2 + 1) * m)) + 1j * t.rng.standard_normal((nb, (bs // 2 + 1) * m))
        s = ArraySpectra(data=X, sample_freq=fs, num_channels=m, num_freqs=bs // 2 + 1, block_size=bs, freqs=np.arange(bs // 2 + 1) * fs / bs)
        ss, sc = bool(r % 2), ('power', 'psd')[(r // 2) % 2]
        prec = 'float64' if r % 5 else 'float32'
        a = ac.AutoPowerSpectra(source=s, single_sided=ss, scaling=sc, precision=prec)
        inp = dict(bs=bs, m=m, nb=nb, fs=fs, single_sided=ss, scaling=sc)
        with t.guard('auto-raises', **inp):
            got = collect(a, num)
            ref = abs(X) ** 2 / bs ** 2 * (2 if ss else 1)
            if sc == 'psd':
                ref = ref * bs / fs
            t.close(got, ref, f'auto-{sc}', rtol=1e-9 if prec == 'float64' else 1e-5, **inp)
            t.check(got.dtype == prec, 'auto-dtype', **inp)
            t.check(a.num_freqs == bs // 2 + 1 and a.num_channels == m and a.num_samples == nb and a.block_size == bs, 'auto-meta', **inp)


@case('C18', 'cross power', 40)
def cross_power(t):
    no_cache()
    for r in t.rounds(27, 200):
        bs = int(t.rng.choice([16, 64])); m = int(t.rng.integers(1, 5)); nb = int(t.rng.integers(1, 6))
        fs = float(t.rng.uniform(10, 5000)); num = int(t.rng.integers(1, 5)); nf = bs // 2 + 1
        X = t.rng.standard_normal((nb, nf * m)) + 1j * t.rng.standard_normal((nb, nf * m))
        s = ArraySpectra(data=X, sample_freq=fs, num_channels=m, num_freqs=nf, block_size=bs, freqs=np.arange(nf) * fs / bs)
        mode = ('full', 'upper', 'lower')[r % 3]
        sc = ('power', 'psd')[(r // 3) % 2]; ss = bool((r // 6) % 2)
        c = ac.CrossPowerSpectra(source=s, calc_mode=mode, scaling=sc, single_sided=ss)
        inp = dict(bs=bs, m=m, nb=nb, num=num, single_sided=ss, scaling=sc)
        with t.guard(f'cross-raises-{mode}', **inp):
            pr = pairs(mode, m)
            t.check(c.num_channels == len(pr), f'cross-channels-{mode}', f'{c.num_channels}', **inp)
            got = collect(c, num)
            x = X.reshape(nb, nf, m)
            ref = np.stack([x[:, :, i] * x[:, :, j].conj() for i, j in pr], axis=-1) / bs ** 2 * (2 if ss else 1)
            if sc == 'psd':
                ref = ref * bs / fs
            t.close(got, ref.reshape(nb, -1), f'cross-{mode}-{sc}', **inp)


@case('C18', 'average equals csm', 30)
def cross_is_csm(t):
    no_cache()
    for r in t.rounds(6, 40):
        bs = 128; m = int(t.rng.integers(1, 4)); nb = int(t.rng.integers(1, 5))
        win = str(t.rng.choice(list(WIN))); ov = str(t.rng.choice(['None', '50%', '75%']))
        n = nb * bs + (int(t.rng.integers(0, bs)) if r % 2 else 0)
        x = t.rng.standard_normal((n, m))
        s = ArraySource(data=x, sample_freq=1000.)
        f = ac.RFFT(source=s, block_size=bs, window=win, overlap=ov)
        got = collect(ac.CrossPowerSpectra(source=f), 2).mean(0).reshape(bs // 2 + 1, m, m)
        t.close(got, csm_ref(x, bs, win, ov), 'cross-mean', 'mean of cross spectra', n=n, win=win, ov=ov)
        got = collect(ac.AutoPowerSpectra(source=f), 2).mean(0).reshape(bs // 2 + 1, m)
        t.close(got, np.einsum('fii->fi', csm_ref(x, bs, win, ov)).real, 'auto-mean', 'mean of auto spectra', n=n, win=win, ov=ov)


# ------------------------------------------------------------------------------------------------ C20
@case('C20', 'frequency range selection', 30)
def freq_sel(t):
    for r in t.rounds(60, 500):
        bs = int(t.rng.choice([128, 256, 512])); fs = float(t.rng.choice([1000., 51200., 44100., 333.3]))
        ps = ac.PowerSpectra(source=ArraySource(data=np.zeros((bs, 1)), sample_freq=fs), block_size=bs)
        f = ps.fftfreq(); n = len(f)
        inp = dict(bs=bs, fs=fs)
        if r % 2:
            lo, hi = np.sort(t.rng.uniform(0, f[-1], 2))
            if r % 4 == 1:      # exactly on lines
                a, b = np.sort(t.rng.integers(0, n - 1, 2))
                lo, hi = float(f[a]), float(f[b])
            ps.freq_range = (lo, hi)
            want = [i for i in range(n) if lo <= f[i] < hi]
            t.same(ps.indices, np.array(want, int), 'freq-range-indices', 'indices', lo=lo, hi=hi, **inp)
            if want:
                t.check(ps.ind_low == want[0] and ps.ind_high == want[-1] + 1, 'freq-range-limits', f'{ps.ind_low},{ps.ind_high}', lo=lo, hi=hi, **inp)
                with t.guard('freq-range-raises', lo=lo, hi=hi):
                    t.close(np.array(ps.freq_range, float), [f[want[0]], f[want[-1] + 1]], 'freq-range-read', lo=lo, hi=hi, **inp)
            ps.freq_range = (lo, None)
            t.same(ps.indices, np.array([i for i in range(n) if f[i] >= lo and i >= np.searchsorted(f[:-1], lo)], int), 'freq-range-open', lo=lo, **inp)
            with t.guard('freq-range-open-raises', lo=lo):
                t.check(ps.freq_range[1] is None and abs(ps.freq_range[0] - f[ps.ind_low]) < 1e-9, 'freq-range-open-read', str(ps.freq_range), **inp)
        else:
            a, b = np.sort(t.rng.integers(0, n, 2)); a, b = int(a), int(b)
            ps.ind_low = a; ps.ind_high = b
            t.same(ps.indices, np.arange(a, b), 'index-selection', lo=a, hi=b, **inp)
            t.close(np.array(ps.freq_range, float), [f[a], f[b]], 'index-freq-range', lo=a, hi=b, **inp)
            ps.ind_high = None
            t.same(ps.indices, np.arange(a, n), 'index-open', lo=a, **inp)
            ps.ind_high = 10 ** 6; ps.ind_low = 10 ** 6
            t.check(ps.ind_low == n - 1 and ps.ind_high == n - 1, 'index-clipped', f'{ps.ind_low} {ps.ind_high}', **inp)


@case('C20', 'synthetic eigenvalues', 20)
def syn_ev(t):
    no_cache()
    for r in t.rounds(10, 80):
        m, nf = 3, 40
        f = np.arange(nf) * 25.
        c = herm(t.rng, nf, m)
        ps = ac.PowerSpectraImport(csm=c, frequencies=f)
        eva = np.linalg.eigvalsh(c)
        k = int(t.rng.integers(4, nf // 2))
        t.close(ps.synthetic_ev(f[k]), eva[k], 'ev-line')
        for num in (1, 3, 12):
            fc = float(f[k])
            i = [j for j in range(nf) if fc * 2 ** (-.5 / num) <= f[j] < fc * 2 ** (.5 / num)]
            if i:
                t.close(ps.synthetic_ev(fc, num), eva[i].sum(0), 'ev-band', f'1/{num} octave', fc=fc)
