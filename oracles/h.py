"""Objects used by the oracles (public interfaces of acoular only)."""
import numpy as np
import acoular as ac
from traits.api import Array, Property, Int, List, Any, cached_property
from acoular.internal import digest as _digest


class ArraySource(ac.SamplesGenerator):
    """delivers the rows of data in blocks; keeps what it handed out so that alterations are visible"""
    data = Array()
    fresh = Int(1)                 # 1: every block is a copy, 0: views of data
    log = Any()
    digest = Property(depends_on=['data', 'sample_freq'])
    num_samples = Property(depends_on=['data'])
    num_channels = Property(depends_on=['data'])

    def _get_digest(self):
        import hashlib
        return '_as' + hashlib.md5(np.ascontiguousarray(self.data).tobytes() + repr((self.data.shape, self.sample_freq)).encode()).hexdigest()

    def _get_num_samples(self):
        return self.data.shape[0]

    def _get_num_channels(self):
        return self.data.shape[1]

    def result(self, num):
        for i in range(0, self.data.shape[0], num):
            b = self.data[i:i + num]
            yield b.copy() if self.fresh else b


class ArraySpectra(ac.SpectraGenerator):
    data = Array()
    digest = Property(depends_on=['data', 'sample_freq', 'num_freqs', 'block_size'])
    num_samples = Property(depends_on=['data'])

    def _get_digest(self):
        import hashlib
        return '_sp' + hashlib.md5(np.ascontiguousarray(self.data).tobytes() + repr((self.data.shape, self.sample_freq, self.num_freqs, self.block_size)).encode()).hexdigest()

    def _get_num_samples(self):
        return self.data.shape[0]

    def result(self, num=1):
        for i in range(0, self.data.shape[0], num):
            yield self.data[i:i + num].copy()


def src(rng, n, m, fs=1000.0, **kw):
    return ArraySource(data=rng.standard_normal((n, m)), sample_freq=fs, **kw)


def collect(gen, num, keep=None):
    """concatenated blocks (copied at once) of gen.result(num)"""
    bl = [np.array(b, copy=True) for b in gen.result(num)]
    if keep is not None:
        keep.extend(bl)
    return np.concatenate(bl, axis=0) if bl else np.empty((0, 0))


def mics(rng, m, spread=1.0, z=0.0):
    p = rng.uniform(-spread, spread, (3, m))
    p[2] = z + (0.05 * rng.standard_normal(m) if z else 0)
    # sometimes with one more microphone that is marked invalid
    sub = np.random.default_rng(int(abs(p[0, 0]) * 1e9))
    if sub.random() < .25:
        k = int(sub.integers(0, m + 1))
        return ac.MicGeom(pos_total=np.insert(p, k, sub.uniform(-spread, spread, 3), axis=1), invalid_channels=[k])
    return ac.MicGeom(pos_total=p)


def herm(rng, nf, m, psd=True, rank=None):
    if psd:
        a = rng.standard_normal((nf, m, rank or 2 * m)) + 1j * rng.standard_normal((nf, m, rank or 2 * m))
        return a @ a.conj().transpose(0, 2, 1) / (rank or 2 * m)
    a = rng.standard_normal((nf, m, m)) + 1j * rng.standard_normal((nf, m, m))
    return (a + a.conj().transpose(0, 2, 1)) / 2


def pimport(csm, freqs):
    ps = ac.PowerSpectraImport(csm=csm, frequencies=np.asarray(freqs, float))
    return ps


def no_cache():
    ac.config.global_caching = 'none'


def grid(rng, n1=4, n2=3, z=1.0, inc=0.25):
    x0, y0 = rng.uniform(-0.6, -0.3, 2)
    return ac.RectGrid(x_min=x0, x_max=x0 + inc * (n1 - 1) + 1e-9, y_min=y0, y_max=y0 + inc * (n2 - 1) + 1e-9, z=z, increment=inc)


def dist(gpos, mpos):
    return np.sqrt(((gpos[:, :, None] - mpos[:, None, :]) ** 2).sum(0))


def transfer_ref(gpos, mpos, ref, f, c):
    """(points, mics) transfer function of the documentation with reference distance of every point"""
    rm = dist(gpos, mpos)
    r0 = ref_dist(gpos, mpos, ref)
    k = 2 * np.pi * f / c
    return r0[:, None] / rm * np.exp(-1j * k * (rm - r0[:, None]))


def ref_dist(gpos, mpos, ref):
    if np.isscalar(ref):
        return np.full(gpos.shape[1], float(ref))
    return np.sqrt(((gpos - np.asarray(ref, float)[:, None]) ** 2).sum(0))


def steer_ref(kind, T):
    """published closed forms (documentation of SteeringVector)"""
    n = T.shape[1]
    s = (np.abs(T) ** 2).sum(1, keepdims=True)
    if kind == 'classic':
        return T / np.abs(T) / n
    if kind == 'inverse':
        return 1 / T.conj() / n
    if kind == 'true level':
        return T / s
    if kind == 'true location':
        return T / np.sqrt(n * s)
    raise ValueError(kind)


STEERS = ('classic', 'inverse', 'true level', 'true location')


def bf_ref(csm, W, rdiag):
    """quadratic form (points,)"""
    A = csm.copy()
    if rdiag:
        A[np.diag_indices(A.shape[0])] = 0
    return np.einsum('gi,ij,gj->g', W.conj(), A, W).real
