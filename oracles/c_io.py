"""C23 files read back unchanged, C16 caching."""
import os, tempfile, warnings
import numpy as np
import acoular as ac
from oracles.lib import case
from oracles.h import *

LIBS = [l for l, ok in (('pytables', ac.config.have_tables), ('h5py', ac.config.have_h5py)) if ok]


def newdir():
    return tempfile.mkdtemp(dir='.')


def rows(gen, num):
    return [np.array(b, copy=True) for b in gen.result(num)]


@case('C23', 'time data', 60)
def h5(t):
    d = newdir(); k = 0
    for r in t.rounds(16, 120):
        n, nc = int(t.rng.integers(1, 60)), int(t.rng.integers(1, 5))
        fs = float(t.rng.choice([51200., 48000., 1000.5]))
        s = src(t.rng, n, nc, fs)
        prec = 'float64' if r % 2 else 'float32'
        x = s.data.astype(prec)
        inp = dict(n=n, nc=nc, precision=prec)
        meta = {'who': 'somebody', 'values': np.arange(3.), 'answer': 42}
        for wl in LIBS:
            for num in (1, 4, 7, n, n + 5, None):
                ac.config.h5library = wl
                k += 1
                f = os.path.join(d, f'f{k}.h5')
                with t.guard('write-raises', lib=wl, num=num, **inp):
                    w = ac.WriteH5(source=s, file=f, precision=prec, metadata=dict(meta) if k % 3 == 0 else {})
                    if num is None:
                        w.save()
                    else:
                        b = rows(w, num)
                        t.same(np.concatenate(b), s.data, 'write-delivers', num=num, **inp)
                for rl in LIBS:
                    ac.config.h5library = rl
                    with t.guard('read-raises', written=wl, read=rl, **inp):
                        ts = ac.TimeSamples(file=f)
                        t.check((ts.num_samples, ts.num_channels) == (n, nc), 'read-shape', f'{ts.num_samples} {ts.num_channels}', **inp)
                        t.check(ts.sample_freq == fs, 'read-rate', f'{ts.sample_freq} instead of {fs}')
                        for num2 in (3, n + 1):
                            b = rows(ts, num2)
                            t.check([len(q) for q in b] == [min(num2, n - i) for i in range(0, n, num2)], 'read-blocks', **inp)
                            t.same(np.concatenate(b), x, 'read-data', written=wl, read=rl, num=num, **inp)
                        a = int(t.rng.integers(0, n)); e = int(t.rng.integers(a + 1, n + 1))
                        bad = sorted(int(i) for i in t.rng.permutation(nc)[:int(t.rng.integers(0, nc))])
                        ms = ac.MaskedTimeSamples(file=f, start=a, stop=e, invalid_channels=bad)
                        t.same(np.concatenate(rows(ms, 5)), x[a:e][:, [i for i in range(nc) if i not in bad]], 'read-masked', **inp)
                        if k % 3 == 0:
                            md = ts.metadata
                            t.check(set(meta) <= set(md), 'metadata-keys', f'{md}')
                            t.check(np.array_equal(np.asarray(md['values']), meta['values']) and int(np.asarray(md['answer'])) == 42, 'metadata-values', f'{md}')
                            q = np.asarray(md['who'][()] if hasattr(md['who'], 'shape') else md['who']).item()
                            t.check((q.decode() if isinstance(q, bytes) else q) == 'somebody', 'metadata-text', repr(q))
                        for o in (ts, ms):
                            o.h5f.close()
                ac.config.h5library = wl
                with t.guard('limited-raises', **inp):      # only the first samples
                    lim = int(t.rng.integers(1, n + 3)); f2 = os.path.join(d, f'g{k}.h5')
                    w = ac.WriteH5(source=s, file=f2, precision=prec, num_samples_write=lim)
                    got = np.concatenate(rows(w, 4))
                    t.same(got, s.data[:lim], 'limited-delivers', lim=lim, **inp)
                    ts = ac.TimeSamples(file=f2)
                    t.same(np.concatenate(rows(ts, 8)), x[:lim], 'limited-file', lim=lim, **inp)
                    ts.h5f.close()
                for q in (f, f2):
                    if os.path.exists(q): os.remove(q)
    # a long stream
    s = src(t.rng, 10000, 2, 1000.)
    for lib in LIBS:
        ac.config.h5library = lib
        with t.guard('long-raises', lib=lib):
            f = os.path.join(d, f'long{lib}.h5')
            ac.WriteH5(source=s, file=f, precision='float64').save()
            ts = ac.TimeSamples(file=f)
            t.same(np.concatenate(rows(ts, 999)), s.data, 'long'); ts.h5f.close()


@case('C23', 'geometries', 20)
def xml(t):
    d = newdir()
    for r in t.rounds(20, 150):
        m = int(t.rng.integers(1, 9))
        p = t.rng.standard_normal((3, m)) * 10. ** t.rng.integers(-12, 6, (3, m)); p[0, 0] = [0., -0., 1 / 3, 1e-300][r % 4]
        bad = sorted(int(i) for i in t.rng.permutation(m)[:int(t.rng.integers(0, m))])
        keep = [i for i in range(m) if i not in bad]
        f = os.path.join(d, ['mics', 'r&d', 'a b', "x'y", '<z>'][r % 5] + f'{r}.xml')
        with t.guard('export-raises', m=m, bad=bad, file=f):
            g = ac.MicGeom(pos_total=p.copy(), invalid_channels=bad)
            g.export_mpos(f)
            h = ac.MicGeom(file=f)
            t.same(h.pos_total, p[:, keep], 'mics-read-back', bad=bad)
            t.check(h.num_mics == len(keep), 'mics-count', f'{h.num_mics}')
            h2 = ac.MicGeom(pos_total=np.zeros((3, 2))); h2.num_mics; h2.file = f
            t.same(h2.pos, p[:, keep], 'mics-file-changed', bad=bad)
        q = t.rng.standard_normal((3, m)); names = [f'grid {i % 3}' for i in range(m)]
        f = os.path.join(d, f'grid{r}.xml')
        with open(f, 'w') as o:
            o.write('<?xml version="1.0" encoding="utf-8"?>\n<Grid name="x">\n' + ''.join(f'<pos subgrid="{names[i]}" x="{q[0, i]!r}" y="{q[1, i]!r}" z="{q[2, i]!r}"/>\n'.replace('np.float64(', '').replace(')', '') for i in range(m)) + '</Grid>\n')
        with t.guard('grid-import-raises', m=m):
            g = ac.ImportGrid(file=f)
            t.same(g.pos, q, 'grid-read-back'); t.check(list(g.subgrids) == names and g.size == m and g.shape == (m,), 'grid-labels', f'{g.subgrids} {g.size} {g.shape}')


@case('C23', 'benchmark files', 20)
def aiaa23(t):
    import h5py
    d = newdir(); os.mkdir(os.path.join(d, 'b'))
    from acoular.aiaa import CsmAIAABenchmark, MicAIAABenchmark, TimeSamplesAIAABenchmark, TriggerAIAABenchmark
    for r in t.rounds(12, 80):
        ac.config.h5library = LIBS[r % len(LIBS)]
        files = []
        for k in range(2):
            m = int(t.rng.integers(1, 5)); nf = int(t.rng.integers(1, 5)); n = int(t.rng.integers(1, 30)); nt = int(t.rng.integers(1, 3))
            C = herm(t.rng, nf, m); fr = np.sort(t.rng.uniform(10, 5000, nf)); pos = t.rng.standard_normal((3, m))
            x = t.rng.standard_normal((n, m)); tr = t.rng.standard_normal((n, nt)); sf = float(t.rng.integers(100, 9000))
            sign = int(t.rng.choice([-1, 1]))
            f = os.path.join(d, ['', 'b'][k], f'f{r}.h5')
            with h5py.File(f, 'w') as h:
                g = h.create_group('MetaData'); a = g.create_group('ArrayAttributes'); a.attrs['microphoneCount'] = m
                a['microphonePositionsM'] = pos.T
                g = h.create_group('CsmData'); g.attrs['fftSign'] = sign
                g['csmReal'] = C.real.transpose(1, 2, 0); g['csmImaginary'] = C.imag.transpose(1, 2, 0); g['binCenterFrequenciesHz'] = fr[None]
                h['MicrophoneData/microphoneDataPa'] = x; h['MicrophoneData/microphoneDataPa'].attrs['sampleRateHz'] = sf
                h['TachoData/tachoDataV'] = tr; h['TachoData/tachoDataV'].attrs['sampleRateHz'] = sf
            files.append((f, m, nf, n, nt, C.real + sign * 1j * C.imag, fr, pos, x, tr, sf))
        ob = []
        for f, m, nf, n, nt, C, fr, pos, x, tr, sf in files:
            inp = dict(file=f, m=m, nf=nf, lib=ac.config.h5library)
            with t.guard('aiaa-raises', **inp):
                if not ob:
                    ob = [MicAIAABenchmark(file=f), CsmAIAABenchmark(file=f), TimeSamplesAIAABenchmark(file=f), TriggerAIAABenchmark(file=f)]
                else:
                    for o in ob:
                        o.file = f
                mg, ps, ts, tg = ob
                t.same(mg.pos_total, pos, 'aiaa-mics', **inp)
                t.close(ps.csm, C, 'aiaa-csm', rtol=1e-14, **inp)
                t.same(ps.fftfreq(), fr, 'aiaa-freq', **inp)
                t.check(list(ps.indices) == list(range(nf)) and ps.num_channels == m, 'aiaa-sizes', f'{ps.indices} {ps.num_channels}', **inp)
                t.check(ts.num_samples == n and ts.num_channels == m and ts.sample_freq == sf, 'aiaa-time', f'{ts.num_samples} {ts.num_channels} {ts.sample_freq}', **inp)
                t.same(np.concatenate(rows(ts, 7)), x, 'aiaa-samples', **inp)
                t.check(tg.num_samples == n and tg.num_channels == nt and tg.sample_freq == sf, 'aiaa-tacho', f'{tg.num_samples} {tg.num_channels}', **inp)
                t.same(np.concatenate(rows(tg, 7)), tr, 'aiaa-tacho', **inp)
        for o in ob[1:]:
            if o.h5f is not None: o.h5f.close()


# ------------------------------------------------------------------------------------------------ C16
class Failed(Exception):
    pass


def step(fn):
    """runs fn in a process of its own, as a new session of the user; files are closed at its end, also after an interruption"""
    import pickle, traceback
    from oracles.lib import from_code_under_test
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        import sys, gc
        gc.freeze()
        os.close(r)
        try:
            dn = os.open(os.devnull, os.O_WRONLY); os.dup2(dn, 1); os.dup2(dn, 2)
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    out = ('ok', fn())
            except Interrupt as e:
                out = ('interrupted', None)
            except Exception:
                et, ev, tb = sys.exc_info()
                out = ('raised' if from_code_under_test(et, ev, tb) else 'harness', ''.join(traceback.format_exception(et, ev, tb))[-900:])
            try:
                gc.collect()
                if ac.config.have_tables:
                    import tables; tables.file._open_files.close_all()
                if ac.config.have_h5py:
                    import h5py
                    for o in list(gc.get_objects()):
                        if isinstance(o, h5py.File):
                            try: o.close()
                            except Exception: pass
            except Exception:
                pass
            with os.fdopen(w, 'wb') as f:
                pickle.dump(out, f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        b = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(b) if b else ('raised', 'the process died')


class Interrupt(BaseException):
    pass


class Fragile(ac.SteeringVector):
    """a steering vector that interrupts the run at a given call"""
    left = [None]

    def _tick(self):
        if Fragile.left[0] is not None:
            if Fragile.left[0] <= 0:
                raise Interrupt
            Fragile.left[0] -= 1

    def steer_vector(self, f, ind=None):
        self._tick()
        return super().steer_vector(f, ind)

    def transfer(self, f, ind=None):
        self._tick()
        return super().transfer(f, ind)


class FragileSource(ArraySource):
    left = [None]

    def result(self, num):
        for k, b in enumerate(super().result(num)):
            if FragileSource.left[0] is not None and k >= FragileSource.left[0]:
                raise Interrupt
            yield b


def bf_family(x, mp, fs=1000.):
    """name -> (build(), observe(obj)); deterministic in all processes"""
    def freq(block=128, **kw):
        return ac.PowerSpectra(source=FragileSource(data=x, sample_freq=fs), block_size=block, **kw)

    def steer(cls=ac.SteeringVector, z=1., kind='true level', c=343., **kw):
        g = ac.RectGrid(x_min=-.3, x_max=.3, y_min=-.2, y_max=.2, z=z, increment=.2)
        return cls(grid=g, mics=ac.MicGeom(pos_total=mp), steer_type=kind, env=ac.Environment(c=c), **kw)
    allf = lambda b: np.array([np.array(b.result[k]) for k in (7, 1, 40, 0, 23, 5)])
    part = lambda b: np.array(b.result[5])
    F = {}
    for cl, kw in ((ac.BeamformerBase, {}), (ac.BeamformerFunctional, dict(gamma=2)), (ac.BeamformerCapon, {}), (ac.BeamformerEig, dict(n=1)), (ac.BeamformerMusic, dict(n=1)),
                   (ac.BeamformerCleansc, dict(n_iter=5)), (ac.BeamformerClean, dict(n_iter=5)), (ac.BeamformerDamas, dict(n_iter=5)), (ac.BeamformerOrth, dict(n=2))):
        F[cl.__name__] = (lambda cl=cl, kw=kw, **k: cl(freq_data=freq(**k.pop('fkw', {})), steer=steer(**k.pop('skw', {})), r_diag=k.pop('r_diag', cl not in (ac.BeamformerFunctional, ac.BeamformerCapon, ac.BeamformerMusic)), **kw, **k), allf, part)
    F['csm'] = (lambda **k: freq(**k), lambda p: np.array(p.csm[:]), None)
    F['eva'] = (lambda **k: freq(**k), lambda p: np.array(p.eva[:]), None)
    F['eve'] = (lambda **k: freq(**k), lambda p: abs(np.array(p.eve[:])), None)
    for mode in ('single', 'block', 'full'):
        F['psf-' + mode] = (lambda mode=mode, **k: ac.PointSpreadFunction(steer=steer(**k.pop('skw', {})), calcmode=mode, freq=k.pop('freq', 500.), **k), lambda p: np.array(p.psf), None)
    return F, freq, steer


def set_mode(d, lib, mode):
    ac.config.h5library = lib
    ac.config.cache_dir = d
    ac.config.global_caching = mode


def snapshot(d):
    import hashlib
    return sorted((f, hashlib.md5(open(os.path.join(d, f), 'rb').read()).hexdigest()) for f in os.listdir(d))


def tamper(d, lib):
    """doubles everything that is stored, as an outdated file would hold other values"""
    def go():
        import h5py
        for f in os.listdir(d):
            with h5py.File(os.path.join(d, f), 'r+') as h:
                def v(name, o):
                    if isinstance(o, h5py.Dataset) and o.dtype.kind in 'fc':
                        o[...] = o[...] * 2
                h.visititems(v)
    return step(go)


def run_mode(t, d, lib, mode, build, observe, key, /, **inp):
    def go():
        set_mode(d, lib, mode)
        return observe(build())
    st, v = step(go)
    if st == 'harness':
        t.notes.append('harness: ' + v[-250:])
        raise Failed
    t.check(st == 'ok', key + '-raises', v if st != 'ok' else '', **{'mode': mode, 'lib': lib, **inp})
    if st != 'ok':
        raise Failed
    return v


def setup16(t):
    m = 4
    x = t.rng.standard_normal((128 * 5, m)); mp = t.rng.uniform(-.4, .4, (3, m)); mp[2] = 0
    return x, mp


SEQ = [('all', 'all'), ('individual', 'individual'), ('readonly', 'all', 'readonly'), ('overwrite', 'all'), ('all', '!', 'overwrite', 'all', 'readonly'), ('none', 'all', 'none')]


@case('C16', 'results in every mode', 120)
def modes(t):
    import gc
    x, mp = setup16(t)
    F, _, _ = bf_family(x, mp)
    for r in t.rounds(1, 4):
        for lib in LIBS:
            for name, (build, obs, part) in F.items():
                d0 = newdir()
                try:
                    truth = run_mode(t, d0, lib, 'none', build, obs, name)
                    t.check(not os.listdir(d0), 'none-writes', f'{name}: {os.listdir(d0)}')
                    q = SEQ if name in ('BeamformerBase', 'csm', 'psf-single') or t.thorough else [SEQ[int(i)] for i in t.rng.choice(len(SEQ), 2, replace=False)]
                    for seq in q:
                        d = newdir()
                        for i, mode in enumerate(seq):
                            if mode == '!':
                                if ac.config.have_h5py: tamper(d, lib)
                                continue
                            before = snapshot(d)
                            v = run_mode(t, d, lib, mode, build, obs, name, seq=seq)
                            t.close(v, truth, 'value-' + name, f'mode {mode} in {seq}', rtol=1e-6, lib=lib)
                            if mode in ('none', 'readonly'):
                                t.check(snapshot(d) == before, 'forbidden-write', f'{name} {mode} in {seq}: {snapshot(d)} {before}', lib=lib)
                            else:
                                # something is stored in the modes that allow it
                                t.check(len(os.listdir(d)) > 0, 'nothing-stored', f'{name} {mode}', lib=lib)
                    # parts first, everything later
                    if part:
                        d = newdir()
                        run_mode(t, d, lib, 'all', build, part, name)
                        t.close(run_mode(t, d, lib, 'readonly', build, obs, name), truth, 'value-after-part-' + name, rtol=1e-6, lib=lib)
                        t.close(run_mode(t, d, lib, 'all', build, obs, name), truth, 'value-after-part-' + name, rtol=1e-6, lib=lib)
                except Failed:
                    pass


@case('C16', 'switched off', 30)
def off(t):
    x, mp = setup16(t)
    F, freq, steer = bf_family(x, mp)
    for lib in LIBS:
        d = newdir()
        try:
            v = run_mode(t, d, lib, 'individual', lambda: ac.BeamformerBase(freq_data=freq(cached=False), steer=steer(), cached=False), F['BeamformerBase'][1], 'uncached')
            t.check(not os.listdir(d), 'individual-writes', f'{os.listdir(d)}')
            w = run_mode(t, d, lib, 'all', lambda: ac.BeamformerBase(freq_data=freq(cached=False), steer=steer(), cached=False), F['BeamformerBase'][1], 'uncached')
            t.close(v, w, 'individual-value', rtol=1e-6)
            t.check(len(os.listdir(d)) > 0, 'all-overrides', '')
        except Failed:
            pass


@case('C16', 'other settings in the same directory', 90)
def settings16(t):
    x, mp = setup16(t)
    F, freq, steer = bf_family(x, mp)
    x2 = x.copy(); x2[200, 1] += 1e-3
    mp2 = mp.copy(); mp2[1, 2] += 1e-3
    G = bf_family(x2, mp)[0]; H = bf_family(x, mp2)[0]
    B = F['BeamformerBase'][0]
    vs = [('BeamformerBase', B), ('BeamformerBase', lambda: B(r_diag=False)), ('BeamformerBase', lambda: B(skw=dict(z=1.2))), ('BeamformerBase', lambda: B(skw=dict(kind='classic'))),
          ('BeamformerBase', lambda: B(skw=dict(c=340.))), ('BeamformerBase', lambda: B(skw=dict(ref=.5))), ('BeamformerBase', lambda: B(fkw=dict(window='Hanning'))), ('BeamformerBase', lambda: B(fkw=dict(overlap='50%'))),
          ('BeamformerBase', lambda: B(fkw=dict(block=256))), ('BeamformerBase', lambda: B(r_diag_norm=2.)), ('BeamformerBase', G['BeamformerBase'][0]), ('BeamformerBase', H['BeamformerBase'][0]),
          ('BeamformerFunctional', F['BeamformerFunctional'][0]), ('BeamformerCleansc', F['BeamformerCleansc'][0]),
          ('csm', lambda: F['csm'][0](window='Hamming')), ('csm', G['csm'][0]), ('eva', F['eva'][0]), ('eve', F['eve'][0]),
          ('psf-single', lambda: F['psf-single'][0](freq=500.)), ('psf-single', lambda: F['psf-single'][0](freq=500.001)), ('psf-single', lambda: F['psf-single'][0](freq=5000.01)), ('psf-block', lambda: F['psf-block'][0](skw=dict(kind='inverse'))), ('psf-single', lambda: F['psf-single'][0](skw=dict(z=.7))),
          ('psf-single', lambda: F['psf-single'][0](grid_indices=np.array([2, 0]))), ('psf-block', lambda: F['psf-block'][0](grid_indices=np.array([1, 5, 3])))]
    for lib in LIBS:
        d, d0 = newdir(), newdir()
        for rep in range(2):
            for i in t.rng.permutation(len(vs)):
                name, build = vs[int(i)]
                try:
                    truth = run_mode(t, d0, lib, 'none', build, F[name][1], name, variant=int(i))
                    t.close(run_mode(t, d, lib, 'all', build, F[name][1], name, variant=int(i)), truth, 'shared-directory', f'{name} variant {i}', rtol=1e-6, lib=lib)
                except Failed:
                    pass


@case('C16', 'interrupted runs', 90)
def interrupted(t):
    x, mp = setup16(t)
    F, freq, steer = bf_family(x, mp)
    for r in t.rounds(2, 12):
        for lib in LIBS:
            jobs = [(n, (lambda n=n: F[n][0](skw=dict(cls=Fragile))), F[n][1], Fragile) for n in ('BeamformerBase', 'BeamformerFunctional', 'BeamformerCleansc', 'BeamformerDamas', 'psf-single', 'psf-block')]
            jobs += [(n, F[n][0], F[n][1], FragileSource) for n in ('csm', 'eva', 'BeamformerEig')]
            for name, build, obs, cls in jobs:
                try:
                    d, d0 = newdir(), newdir()
                    truth = run_mode(t, d0, lib, 'none', build, obs, name)
                    for again in range(2):
                        k = int(t.rng.integers(0, 12))
                        def go():
                            set_mode(d, lib, 'all'); cls.left[0] = k
                            return obs(build())
                        st, v = step(go)
                        t.check(st in ('ok', 'interrupted'), 'interrupt-raises', f'{name}: {v}', at=k)
                    for mode in ('readonly', 'all', 'readonly'):
                        t.close(run_mode(t, d, lib, mode, build, obs, name), truth, 'value-after-interrupt-' + name, f'mode {mode}, interrupted at {k}', rtol=1e-6, lib=lib)
                except Failed:
                    pass


@case('C16', 'cached streams', 60)
def cache(t):
    for r in t.rounds(10, 80):
        n, nc = int(t.rng.integers(1, 60)), int(t.rng.integers(1, 3))
        x = t.rng.standard_normal((n, nc))
        cplx = r % 3 == 2
        def build():
            s = FragileSource(data=x, sample_freq=100.)
            return ac.Cache(source=ac.RFFT(source=s, block_size=8) if cplx else s)
        obs = lambda num: lambda c: [np.array(b) for b in c.result(num)]
        for lib in LIBS:
            d, d0 = newdir(), newdir()
            inp = dict(n=n, nc=nc, lib=lib, spectra=cplx)
            try:
                for seq in range(2 if t.thorough else 1):
                    truth = {}
                    for num in (1, 4, 7, 64):
                        truth[num] = run_mode(t, d0, lib, 'none', build, obs(num), 'stream', **inp)
                    for i in range(6):
                        num = int(t.rng.choice([1, 4, 7, 64])); k = int(t.rng.integers(0, 10))
                        kind = int(t.rng.integers(0, 5))
                        if kind == 0:        # abandoned by the consumer
                            def go():
                                set_mode(d, lib, 'all')
                                g = build().result(num)
                                for _ in range(k):
                                    next(g, None)
                            st, v = step(go)
                            t.check(st == 'ok', 'abandon-raises', v, num=num, k=k, **inp)
                        elif kind == 1:      # interrupted in the source
                            def go():
                                set_mode(d, lib, 'all'); FragileSource.left[0] = k
                                return obs(num)(build())
                            st, v = step(go)
                            t.check(st in ('ok', 'interrupted'), 'interrupt-raises', v, num=num, k=k, **inp)
                        else:
                            mode = ('all', 'readonly', 'overwrite')[kind - 2]
                            before = snapshot(d)
                            v = run_mode(t, d, lib, mode, build, obs(num), 'stream', **inp)
                            t.check([b.shape for b in v] == [b.shape for b in truth[num]], 'stream-blocks', f'{[b.shape for b in v]} instead of {[b.shape for b in truth[num]]}', mode=mode, num=num, **inp)
                            if v and sum(map(len, v)) == sum(map(len, truth[num])):
                                t.close(np.concatenate(v), np.concatenate(truth[num]), 'stream-data', rtol=1e-6, mode=mode, num=num, **inp)
                            if mode == 'readonly':
                                t.check(snapshot(d) == before, 'stream-forbidden-write', **inp)
            except Failed:
                pass


@case('C16', 'streams left off and taken up again', 60)
def left_off(t):
    for r in t.rounds(12, 60):
        n, nc = int(t.rng.integers(12, 60)), int(t.rng.integers(1, 3))
        x = t.rng.standard_normal((n, nc))
        lib = LIBS[r % len(LIBS)]
        na = int(t.rng.choice([1, 3, 4]))
        k = int(t.rng.integers(1, -(-n // na))) if r % 4 else (n - 1) // na      # blocks that were written
        nb = na if r % 3 == 0 else int(t.rng.choice([1, 2, 5, 64]))
        inp = dict(n=n, first=na, blocks=k, second=nb, lib=lib)
        build = lambda: ac.Cache(source=FragileSource(data=x, sample_freq=100.))
        obs = lambda c: [np.array(b) for b in c.result(nb)]
        d = newdir()
        def go():
            set_mode(d, lib, 'all')
            if r % 2:
                FragileSource.left[0] = k
                return [np.array(b) for b in build().result(na)]
            g = build().result(na)
            for _ in range(k):
                next(g, None)
        st, v = step(go)
        if not t.check(st in ('ok', 'interrupted'), 'interrupt-raises', v, **inp):
            continue
        try:
            for mode in (('readonly',) if r % 4 == 3 else ()) + ('all', 'readonly', 'all'):
                before = snapshot(d)
                v = run_mode(t, d, lib, mode, build, obs, 'stream-left-off', **inp)
                t.check([len(b) for b in v] == [min(nb, n - i) for i in range(0, n, nb)], 'left-off-blocks', f'{[len(b) for b in v]}', mode=mode, **inp)
                if sum(map(len, v)) == n:
                    t.close(np.concatenate(v), x, 'left-off-data', rtol=1e-6, mode=mode, **inp)
                if mode == 'readonly':
                    t.check(snapshot(d) == before, 'left-off-forbidden-write', **inp)
        except Failed:
            pass
