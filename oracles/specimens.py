"""Objects of every kind with their settings; used by the generic contracts C01-C04 (public interfaces only).

A specimen builds an object; settings are (path, sampler) pairs, where a path is an attribute path below the object
(index [i] for an element of a list) and the sampler returns a value or a function that makes the value (for objects,
so that two objects under comparison do not share parts).  derived lists the quantities read besides the output."""
import copy, os
import numpy as np
import acoular as ac
from traits.api import HasTraits, TraitError
from oracles.h import *

SPECS = {}


class Spec:
    def __init__(self, name, build, settings, derived=(), out=None, gen=None, tags=(), known=()):
        self.name, self.build, self.settings, self.derived = name, build, dict(settings), list(derived)
        self.out, self.gen, self.tags, self.known = out, gen, set(tags), set(known)


def add(name, build, settings, derived='', out=None, gen=False, tags=(), known=()):
    SPECS[name] = Spec(name, build, settings, derived.split(), out, gen, tags, known)


def resolve(o, path):
    """object and last part of the path"""
    parts = path.replace('[', '.[').split('.')
    for p in parts[:-1]:
        o = o[int(p[1:-1])] if p[0] == '[' else getattr(o, p)
    return o, parts[-1]


def put(o, path, v):
    o, p = resolve(o, path)
    v = v() if callable(v) else copy.deepcopy(v)
    if p[0] == '[':
        o[int(p[1:-1])] = v
    elif p.endswith('+'):
        getattr(o, p[:-1]).append(v)
    else:
        setattr(o, p, v)


class History(dict):
    """current settings in the order of their last assignment"""
    def set(self, path, v):
        for k in [k for k in self if k == path or k.startswith(path + '.') or k.startswith(path + '[')]:
            del self[k]
        self[path] = v

    def copy(self):
        h = History()
        h.update(self)
        return h


def make(sp, hist):
    o = sp.build()
    for k, v in hist.items():
        try:
            put(o, k, v)
        except (IndexError, TraitError, AttributeError):      # the list has become shorter, the part is of another kind
            pass
    return o


class Raised:
    def __init__(self, e):
        self.e = type(e).__name__

    def __repr__(self):
        return 'raises ' + self.e


def read(o, path):
    try:
        o, p = resolve(o, path)
        return frozen(getattr(o, p))
    except Exception as e:
        return Raised(e)


def output(sp, o, num=16):
    try:
        if sp.gen:
            b = [np.array(x, copy=True) for x in o.result(num)]
            return [np.concatenate(b)] if b else [np.empty((0,))]
        return [frozen(x) for x in (sp.out(o) if sp.out else [])]
    except Exception as e:
        return [Raised(e)]


def frozen(v):
    if isinstance(v, np.ndarray) or hasattr(v, 'shape'):
        return np.array(v, copy=True)
    if isinstance(v, (list, tuple)):
        return [frozen(x) for x in v]
    if isinstance(v, dict):
        return {k: frozen(x) for k, x in v.items()}
    return v


def equal(a, b, rtol=1e-9):
    if isinstance(a, Raised) or isinstance(b, Raised):
        return repr(a) == repr(b)
    if isinstance(a, dict) or isinstance(b, dict):
        return isinstance(a, dict) and isinstance(b, dict) and a.keys() == b.keys() and all(equal(a[k], b[k], rtol) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(equal(x, y, rtol) for x, y in zip(a, b))
    if isinstance(a, (str, bytes, HasTraits)) or a is None or isinstance(b, (str, bytes, HasTraits)) or b is None:
        return a is b or (isinstance(a, (str, bytes)) and a == b)
    try:
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return False
        if a.dtype.kind in 'OUSb' or b.dtype.kind in 'OUSb':
            return bool((a == b).all())
        return bool(np.allclose(a, b, rtol=rtol, atol=rtol * (np.abs(a).max() if a.size else 0) + 1e-300, equal_nan=True))
    except Exception:
        return a == b


# ------------------------------------------------------------------------------------------------ values
FS = 200.
M = 4


def rec(n=50, m=M, seed=0, fs=FS, **kw):
    return ArraySource(data=np.random.default_rng([77, seed, n, m]).standard_normal((n, m)), sample_freq=fs, **kw)


def U(a, b):
    return lambda r: float(r.uniform(a, b))


def I(a, b):
    return lambda r: int(r.integers(a, b))


def C(*v):
    return lambda r: v[int(r.integers(0, len(v)))]


def V(a, b, n=3):
    return lambda r: tuple(float(x) for x in r.uniform(a, b, n))


def A(a, b, *shape):
    return lambda r: r.uniform(a, b, shape)


def data(m=M, lo=1, hi=60):
    return lambda r: r.standard_normal((int(r.integers(lo, hi)), m))


def source(m=M, lo=1, hi=60, fs=FS):
    def s(r):
        k, n = int(r.integers(0, 10**6)), int(r.integers(lo, hi))
        return lambda: rec(n, m, k, fs)
    return s


def micsv(m=M, seed=None):
    def s(r):
        k = int(r.integers(0, 10**6))
        return lambda: mg(m, k)
    return s


def mg(m=M, seed=0):
    p = np.random.default_rng([5, seed, m]).uniform(-.5, .5, (3, m))
    return ac.MicGeom(pos_total=p)


def micring(seed=0, m=8):
    a = np.arange(m) * 2 * np.pi / m
    return ac.MicGeom(pos_total=np.array([np.cos(a), np.sin(a), 0 * a]) * (.5 + .1 * (seed % 5)))


def rg(z=1., inc=.2):
    return ac.RectGrid(x_min=-.3, x_max=.3, y_min=-.2, y_max=.2, z=z, increment=inc)


def sv(cls=ac.SteeringVector, **kw):
    return cls(grid=rg(), mics=mg(), **kw)


def tr():
    return ac.Trajectory(points={0.: (0., 0., 1.), .1: (.05, .02, 1.), .2: (.1, 0., 1.1), .4: (.3, .1, 1.2), .7: (.4, -.1, 1.)})


def trajv(r):
    k = int(r.integers(0, 10**6))

    def mk():
        q = np.random.default_rng([3, k])
        return ac.Trajectory(points={t: tuple(np.array([0, 0, 1.]) + q.uniform(-.1, .1, 3)) for t in (0., .1, .2, .4, .7)})
    return mk


GEO = {'mics.pos_total': A(-.5, .5, 3, M)}
STEER = {'steer.mics.pos_total': A(-.5, .5, 3, M), 'steer.grid.z': U(.5, 2), 'steer.grid.increment': C(.2, .25, .3), 'steer.env.c': U(300, 360), 'steer.ref': C(.7, 1., 2.), 'steer.steer_type': C(*STEERS),
         'steer.grid': lambda r: (lambda z: lambda: rg(z))(float(r.uniform(.5, 2))), 'steer.mics': micsv(), 'steer.env': C(lambda: ac.Environment(c=300.), lambda: ac.UniformFlowEnvironment(ma=.3))}
SRC = {'source.data': data(), 'source.sample_freq': C(100., 200., 250.), 'source': source()}
GENQ = 'digest num_samples num_channels sample_freq'
SPECQ = GENQ + ' num_freqs block_size freqs'


# ------------------------------------------------------------------------------------------------ geometry
add('MicGeom', lambda: mg(6), {'pos_total': lambda r: r.uniform(-1, 1, (3, int(r.integers(4, 8)))), 'invalid_channels': C([], [0], [3, 1]), 'invalid_channels+': C(0, 2, 3)},
    'pos num_mics center aperture digest', lambda o: [o.pos])
add('RectGrid', rg, {'x_min': U(-1, 0), 'x_max': U(0.05, 1), 'y_min': U(-1, 0), 'y_max': U(.05, 1), 'z': U(-1, 2), 'increment': C(.1, .2, .35)}, 'pos size shape nxsteps nysteps digest', lambda o: [o.pos])
add('RectGrid3D', lambda: ac.RectGrid3D(x_min=-.2, x_max=.2, y_min=-.1, y_max=.1, z_min=0, z_max=.2, increment=.1),
    {'x_min': U(-1, 0), 'x_max': U(.05, 1), 'y_min': U(-1, 0), 'y_max': U(.05, 1), 'z_min': U(-1, 0), 'z_max': U(.05, 1), 'increment': lambda r: float(r.choice([.2, .3])) if r.random() < .5 else r.uniform(.2, .4, 3)},
    'pos size shape nxsteps nysteps nzsteps digest', lambda o: [o.pos])
add('LineGrid', lambda: ac.LineGrid(num_points=4), {'loc': V(-1, 1), 'direction': V(.1, 1), 'length': U(.1, 2), 'num_points': I(1, 6)}, 'pos size shape digest', lambda o: [o.pos])
add('MergeGrid', lambda: ac.MergeGrid(grids=[rg(), ac.LineGrid(num_points=3)]),
    {'grids[0].z': U(0, 1), 'grids[0].increment': C(.2, .3), 'grids[1]': lambda r: (lambda n: lambda: ac.LineGrid(num_points=n))(int(r.integers(1, 5))), 'grids+': C(lambda: ac.LineGrid(loc=(0, 3., 0), num_points=2)),
     'grids': C(lambda: [rg(z=2.), ac.LineGrid(num_points=2)])}, 'pos size shape subgrids digest', lambda o: [o.pos])
add('Environment', lambda: ac.Environment(), {'c': U(300, 360)}, 'digest', lambda o: [[o.c], o._r(rg().pos, mg().pos)])
add('UniformFlowEnvironment', lambda: ac.UniformFlowEnvironment(), {'c': U(300, 360), 'ma': U(0, .8), 'fdv': V(.1, 1)}, 'digest', lambda o: [[o.c], o._r(rg().pos, mg().pos)])
FLOWP = np.array([[.1, .2, .9], [.3, -.1, 1.2]])
add('OpenJet', lambda: ac.OpenJet(v0=40.), {'v0': U(0, 80), 'D': U(.1, 1), 'l': U(5, 8), 'origin': V(-.1, .1)}, 'digest', lambda o: [list(o.v(x)) for x in FLOWP])
add('SlotJet', lambda: ac.SlotJet(v0=40.), {'v0': U(0, 80), 'B': U(.1, 1), 'l': U(5, 8), 'origin': V(-.1, .1), 'flow': V(.1, 1), 'plane': V(.2, 1)}, 'digest', lambda o: [list(o.v(x)) for x in FLOWP])
add('RotatingFlow', lambda: ac.RotatingFlow(rpm=60.), {'rpm': U(-90, 90), 'v0': U(0, 20), 'origin': V(-.1, .1)}, 'digest omega', lambda o: [list(o.v(x)) for x in FLOWP])
add('GeneralFlowEnvironment', lambda: ac.GeneralFlowEnvironment(ff=ac.OpenJet(v0=40.), N=60), {'roi': lambda r: None if r.random() < .5 else np.concatenate([r.uniform(-.2, .2, (2, 6)), r.uniform(.9, 1.2, (1, 6))]), 'c': U(300, 360), 'ff.v0': U(0, 80), 'ff.D': U(.2, 1), 'N': C(60, 90), 'Om': C(2.5, 3.1), 'ff': C(lambda: ac.SlotJet(v0=30.), lambda: ac.OpenJet(v0=20.))},
    'digest', lambda o: [o._r(np.array([[0., .1], [0., .05], [1., 1.1]]), np.array([[.2], [0], [0.]]))], tags={'slow'})
add('SteeringVector', sv, {k[6:]: v for k, v in STEER.items()} | {'ref': C(1., .5, [0., 0., .1], [0., 0., 0.]), 'mics.invalid_channels': C([], [1])}, 'rm r0 digest inv_digest', lambda o: [o.transfer(500.), o.steer_vector(500.), o.transfer(500., 2)])
add('Trajectory', tr, {'points': C({0.: (0., 0., 1.), 1.: (1., 0., 1.)}, {0.: (0., 0., 1.), .4: (.5, .1, 1.), 1.: (1., 0., 1.)}, {0.: (0., 0., 1.), .4: (.5, .1, 1.), .7: (.5, .6, 1.), 1.: (1., 0., 1.)})},
    'interval tck digest', lambda o: [np.array(o.location(np.array([.1, .3, .65]))), np.array(o.location(np.array([.1, .3]), der=1)), np.array(list(o.traj(.1, .6, .2)))])
INTERIOR = np.random.default_rng(9).uniform(-.6, .6, (3, 60))
for cl, st in ((ac.RectSector, {'x_min': U(-1, 0), 'x_max': U(0, 1), 'y_min': U(-1, 0), 'y_max': U(0, 1)}), (ac.CircSector, {'x': U(-.2, .2), 'y': U(-.2, .2), 'r': U(.05, .5)}),
               (ac.RectSector3D, {'x_min': U(-1, 0), 'x_max': U(0, 1), 'z_min': U(-1, 0), 'z_max': U(0, 1)}), (ac.PolySector, {'edges': C([0, 0, .3, 0, .3, .3], [-.2, -.2, .4, -.1, .1, .5, -.3, .1])}),
               (ac.ConvexSector, {'edges': C([0, 0, .3, 0, .3, .3], [-.2, -.2, .4, -.1, .1, .5, -.3, .1])})):
    add(cl.__name__, (lambda cl=cl: cl(edges=[0, 0, .2, 0, .2, .2]) if 'edges' in cl.class_trait_names() else cl()), st | {'include_border': C(True, False), 'default_nearest': C(True, False)}, '', lambda o: [o.contains(INTERIOR), o.contains(INTERIOR[:, :2] + 3.)])
add('MultiSector', lambda: ac.MultiSector(sectors=[ac.CircSector(r=.2), ac.RectSector(x_min=.1, x_max=.3, y_min=0, y_max=.2)]), {'sectors[0].r': U(.05, .5), 'sectors[1].x_max': U(.2, .6), 'sectors+': C(lambda: ac.CircSector(x=-.3, r=.3))}, '', lambda o: [o.contains(INTERIOR)])

# ------------------------------------------------------------------------------------------------ spectra and beamformers
PS = lambda n=420, **kw: ac.PowerSpectra(source=rec(n), block_size=128, **kw)
PSS = {'source.data': data(M, 260, 600), 'source.sample_freq': C(100., 200.), 'block_size': C(128, 256), 'window': C('Rectangular', 'Hanning', 'Hamming'), 'overlap': C('None', '50%', '75%'), 'source': source(M, 260, 600),
       'precision': C('complex128', 'complex64')}
rt = lambda o: [np.array(o.csm[:]), np.array(o.eva[:]), abs(np.array(o.eve[:]))]
add('PowerSpectra', PS, PSS | {'ind_low': I(1, 10), 'ind_high': I(20, 40), 'freq_range': C((10., 60.), (20., 80.))}, 'digest csm eva sample_freq num_channels num_blocks indices freq_range', lambda o: [np.array(o.csm[:]), np.array(o.eva[:]), o.fftfreq(), np.array(o.synthetic_ev(30., 1))], tags={'prec'})
add('PowerSpectraImport', lambda: ac.PowerSpectraImport(csm=herm(np.random.default_rng(1), 5, M), frequencies=np.arange(1, 6) * 20.),
    {'csm': lambda r: herm(r, 5, M), 'frequencies': lambda r: np.sort(r.uniform(10, 90, 5)), 'ind_low': I(0, 2), 'ind_high': I(3, 5), 'precision': C('complex128', 'complex64')}, 'digest csm eva num_channels indices', lambda o: [np.array(o.csm[:]), np.array(o.eva[:]), o.fftfreq()])
BFQ = 'digest steer.digest freq_data.digest'


def maps(o):
    return [np.array(o.result[k]) for k in (3, 9)] + [np.array(o.synthetic(o.freq_data.fftfreq()[5], 0)), np.array(o.synthetic(30., 3))]


BFS = STEER | {'freq_data.source.data': data(M, 260, 600), 'freq_data.window': C('Rectangular', 'Hanning'), 'freq_data.overlap': C('None', '50%'), 'freq_data': C(lambda: PS(window='Hanning'), lambda: PS(300)), 'freq_data.block_size': C(128, 256),
               'steer': C(lambda: sv(steer_type='inverse'), lambda: sv(ref=2.)), 'precision': C('float64', 'float32')}
R = {'r_diag': C(True, False), 'r_diag_norm': C(0., 1., 2.)}
for cl, kw, st in ((ac.BeamformerBase, {}, R), (ac.BeamformerFunctional, {}, {'gamma': C(1., 2., 4.)}), (ac.BeamformerCapon, {}, {}), (ac.BeamformerEig, {'n': 2}, R | {'n': C(-1, 0, 1, 2)}), (ac.BeamformerMusic, {'n': 1}, {'n': C(1, 2, 3)}),
                   (ac.BeamformerClean, {'n_iter': 5}, R | {'n_iter': C(3, 8), 'damp': U(.3, 1.), 'psf_precision': C('float64', 'float32')}), (ac.BeamformerDamas, {'n_iter': 5}, R | {'n_iter': C(3, 8), 'damp': U(.3, 1.), 'psf_precision': C('float64', 'float32')}),
                   (ac.BeamformerDamasPlus, {'n_iter': 20}, R | {'method': C('NNLS', 'LassoLars', 'OMPCV'), 'alpha': C(0., .1, .5), 'n_iter': C(20, 50), 'unit_mult': C(1e9, 1e6), 'psf_precision': C('float64', 'float32')}),
                   (ac.BeamformerCleansc, {'n_iter': 5}, R | {'n_iter': C(3, 8), 'damp': U(.3, 1.), 'stopn': C(1, 3)}), (ac.BeamformerOrth, {'n': 2}, R | {'n': C(1, 2, 3)}),
                   (ac.BeamformerCMF, {'n_iter': 20}, {'r_diag': C(True, False), 'method': C('NNLS', 'LassoLars', 'OMPCV'), 'alpha': C(0., .1), 'n_iter': C(20, 40), 'unit_mult': C(1e9, 1e6)}),
                   (ac.BeamformerSODIX, {'n_iter': 3}, {'n_iter': C(2, 4), 'alpha': C(0., .1), 'unit_mult': C(1e9, 1e3)}),
                   (ac.BeamformerGIB, {'n_iter': 3, 'n': 1}, {'n': C(1, 2), 'n_iter': C(2, 4), 'alpha': C(0., .1), 'm': C(1, 2), 'beta': C(.9, .5), 'eps_perc': C(.05, .3), 'pnorm': C(1., 2.), 'method': C('Suzuki', 'InverseIRLS', 'LassoLars'), 'unit_mult': C(10., 1.)}),
                   ):
    slow = cl in (ac.BeamformerSODIX, ac.BeamformerGIB, ac.BeamformerCMF, ac.BeamformerDamasPlus)
    add(cl.__name__, (lambda cl=cl, kw=kw: cl(freq_data=PS(), steer=sv(), **kw)), BFS | st, BFQ, (lambda o: [np.array(o.result[5])]) if slow else maps, tags={'slow', 'bf'} if slow else {'bf'})
for cl in (ac.BeamformerEig, ac.BeamformerMusic, ac.BeamformerGIB):
    add(cl.__name__ + ', components', (lambda cl=cl: cl(freq_data=PS(), steer=sv(), n=-1)), {'n': C(-1, -2, 1, 2, 5), 'steer.mics.invalid_channels': C([], [1], [0, 2]), 'steer.mics': micsv(), 'steer.mics.pos_total': lambda r: r.uniform(-1, 1, (3, int(r.integers(2, 8))))}, 'na')
add('BeamformerGridlessOrth', lambda: ac.BeamformerGridlessOrth(freq_data=PS(), steer=sv(), n=2), {'n': I(1, 3), 'freq_data.block_size': C(128, 256, 512), 'freq_data': C(lambda: PS(300)), 'bounds': C([(-1., 1.)] * 3, [(-2., 1.)] * 3)}, 'size shape digest')
add('BeamformerOrth, eva_list', lambda: ac.BeamformerOrth(freq_data=PS(), steer=sv()), {'eva_list': C([0], [1, 3], [-1]), 'r_diag': C(True, False), 'steer.grid.z': U(.5, 2)}, BFQ, maps, tags={'bf'})
add('PointSpreadFunction', lambda: ac.PointSpreadFunction(steer=sv(), freq=400.), STEER | {'freq': U(100, 900), 'grid_indices': C(np.array([], int), np.array([1, 2]), np.array([5, 0])), 'calcmode': C('single', 'block', 'full'), 'precision': C('float64', 'float32')}, 'psf digest', lambda o: [o.psf])

# ------------------------------------------------------------------------------------------------ time processing


def proc(cl, derived=GENQ, build=None, src=SRC, tags=(), known=(), **st):
    add(cl.__name__, build or (lambda: cl(source=rec())), dict(src) | st, derived, gen=True, tags=set(tags) | {'proc'}, known=known)


add('ArraySource', rec, {'data': data(), 'sample_freq': C(100., 200.)}, GENQ, gen=True)
for cl in (ac.TimeInOut, ac.TimeOut, ac.TimePower, ac.TimeReverse, ac.TimeCumAverage):
    if cl is not ac.TimeOut and not (cl is ac.TimeInOut):
        proc(cl)
proc(ac.Average, num_per_average=C(1, 3, 7), build=lambda: ac.Average(source=rec(), num_per_average=4))
proc(ac.ChannelMixer, weights=C(np.array([1.]), np.arange(4.) + 1, np.array([2., 0, 1, -1])))
MQ = GENQ + ' num_samples_total num_channels_total channels'
proc(ac.MaskedTimeOut, MQ, lambda: ac.MaskedTimeOut(source=rec(), stop=20), dict(SRC, **{'source.data': data(M, 22, 60), 'source': source(M, 22, 60)}), start=C(0, 2, 5), stop=C(20, 13, None, -1), invalid_channels=C([], [1], [3, 0]), **{'invalid_channels+': C(0, 1, 2)})
proc(ac.Mixer, GENQ + ' sdigest', lambda: ac.Mixer(source=rec(), sources=[rec(40, M, 1), rec(45, M, 2)]), **{'sources[0].data': data(), 'sources[0]': source(), 'sources+': source(), 'sources': C(lambda: [rec(30, M, 5)], lambda: [])})
add('SourceMixer', lambda: ac.SourceMixer(sources=[rec(40, M, 1), rec(40, M, 2)]), {'sources[0].data': data(M, 40, 41), 'weights': A(-1, 1, 2), 'sources': C(lambda: [rec(30, M, 5), rec(30, M, 6)]), 'sources[1]': source(M, 40, 41), 'sources[0].sample_freq': C(FS)}, GENQ + ' sdigest', gen=True)
BSRC = dict(SRC, **{'source.data': data(2, 1, 60), 'source': source(2, 1, 60, 8000.), 'source.sample_freq': C(8000., 16000.)})
BR = lambda **kw: rec(50, 2, 0, 8000.)
proc(ac.FiltOctave, GENQ + ' sos', lambda: ac.FiltOctave(source=BR(), band=1000.), BSRC, band=C(500., 1000., 2000.), fraction=C('Octave', 'Third octave'), order=C(2, 3, 5))
proc(ac.FiltFiltOctave, GENQ + ' sos', lambda: ac.FiltFiltOctave(source=BR(), band=1000.), dict(BSRC, **{'source.data': data(2, 40, 60), 'source': source(2, 40, 60, 8000.)}), band=C(500., 1000., 2000.), fraction=C('Octave', 'Third octave'), order=C(2, 3))
proc(ac.TimeExpAverage, GENQ + ' sos', lambda: ac.TimeExpAverage(source=BR()), BSRC, weight=C('F', 'S', 'I'))
proc(ac.FiltFreqWeight, GENQ + ' sos', lambda: ac.FiltFreqWeight(source=BR()), BSRC, weight=C('A', 'C', 'Z'))
proc(ac.OctaveFilterBank, GENQ + ' sos bands num_bands', lambda: ac.OctaveFilterBank(source=BR(), lband=27, hband=29), BSRC, lband=C(26, 27, 28), hband=C(29, 30), fraction=C('Octave', 'Third octave'))
proc(ac.TimeConvolve, GENQ, lambda: ac.TimeConvolve(source=rec(50, 2), kernel=np.ones((3, 2))), dict(SRC, **{'source.data': data(2, 8), 'source': source(2, 8)}), kernel=lambda r: r.standard_normal((int(r.integers(1, 6)), int(r.integers(1, 3)))), **{})
proc(ac.IntegratorSectorTime, GENQ, lambda: ac.IntegratorSectorTime(source=rec(30, rg().size), grid=rg(), sectors=[[-.1, -.1, .1, .1]]), dict(SRC, **{'source.data': data(12, 1, 60), 'source': source(12)}), **{'grid.z': U(0, 1), 'sectors': C([[-.3, -.3, .1, .1]], [[0., 0., .2], [-.1, -.1, .3, .3]]), 'sectors+': C([0., 0., .15])})
proc(ac.Cache, SPECQ.replace(' num_freqs block_size freqs', ''), lambda: ac.Cache(source=rec()))
proc(ac.SpatialInterpolator, GENQ, lambda: ac.SpatialInterpolator(source=rec(30, 8), mics=micring(), mics_virtual=micring(1), method='linear', array_dimension='ring'), dict(SRC, **{'source.data': data(8), 'source': source(8)}),
     method=C('linear', 'IDW', 'rbf-multiquadric'), num_IDW=C(2, 3), p_weight=C(.5, 2.), **{'mics.pos_total': C(micring(0).pos_total * 1., np.roll(micring(0).pos_total, 1, 1)), 'mics_virtual': C(lambda: micring(0, 8), lambda: ac.MicGeom(pos_total=micring(0).pos_total[:, ::-1] @ np.eye(8)))})
proc(ac.SpatialInterpolatorConstantRotation, GENQ, lambda: ac.SpatialInterpolatorConstantRotation(source=rec(30, 8), mics=micring(), rotational_speed=.7, method='linear', array_dimension='ring'), dict(SRC, **{'source.data': data(8), 'source': source(8)}),
     method=C('linear', 'IDW'), rotational_speed=C(0., .3, -2.))


def trig(n=120, step=20, seed=0):
    x = np.zeros((n, 1)); x[3 + seed::step] = 5.
    return x


proc(ac.Trigger, GENQ + ' trigger_data', lambda: ac.Trigger(source=ArraySource(data=trig(), sample_freq=FS), threshold=2.), {'source.data': C(trig(), trig(100, 25), trig(140, 20, 2)), 'source.sample_freq': C(100., FS)}, threshold=C(2., 3.), trigger_type=C('dirac', 'rect'), max_variation_of_duration=C(.02, .5), hunk_length=C(.1, .3), tags={'noresult'})
proc(ac.AngleTracker, GENQ + ' angle rpm average_rpm', lambda: ac.AngleTracker(source=rec(100), trigger=ac.Trigger(source=ArraySource(data=trig(), sample_freq=FS), threshold=2.)), {'source.data': data(M, 90, 100)}, trigger_per_revo=C(1, 2), rot_direction=C(-1, 1), interp_points=C(3, 4), start_angle=U(0, 3), start=C(0, 2, 5), stop=C(None, 13, 40), invalid_channels=C([], [1], [3, 0]), **{'trigger.source.data': C(trig(), trig(100, 25))}, tags={'noresult'})
proc(ac.SpatialInterpolatorRotation, GENQ, lambda: ac.SpatialInterpolatorRotation(source=rec(90, 8), mics=micring(), method='linear', array_dimension='ring', angle_source=ac.AngleTracker(source=rec(90, 8), trigger=ac.Trigger(source=ArraySource(data=trig(), sample_freq=FS), threshold=2.))),
     {'source.data': data(8, 90, 91)}, **{'angle_source.start_angle': U(0, 3), 'angle_source.trigger.source.data': C(trig(), trig(100, 25)), 'method': C('linear', 'IDW')})

# ------------------------------------------------------------------------------------------------ spectra generators
RSRC = {'source.data': data(M, 20, 60), 'source.sample_freq': C(100., 200.), 'source': source(M, 20, 60)}
proc(ac.RFFT, SPECQ, lambda: ac.RFFT(source=rec(), block_size=8), RSRC, block_size=C(8, 16), window=C('Rectangular', 'Hanning'), overlap=C('None', '50%'), scaling=C('none', 'energy', 'amplitude'), precision=C('complex128', 'complex64'), tags={'prec'})
rf = lambda: ac.RFFT(source=rec(), block_size=8)
FS2 = {'source.source.data': data(M, 20, 60), 'source.block_size': C(8, 16), 'source.window': C('Rectangular', 'Hanning'), 'source.overlap': C('None', '50%'), 'source.source.sample_freq': C(100., 200.), 'source': C(rf, lambda: ac.RFFT(source=rec(seed=3), block_size=16))}
proc(ac.IRFFT, GENQ, lambda: ac.IRFFT(source=rf()), {k: v for k, v in FS2.items() if 'overlap' not in k and 'window' not in k}, precision=C('float64', 'float32'), tags={'prec'})
proc(ac.AutoPowerSpectra, SPECQ, lambda: ac.AutoPowerSpectra(source=rf()), FS2, scaling=C('power', 'psd'), single_sided=C(True, False), precision=C('float64', 'float32'), tags={'prec'})
proc(ac.CrossPowerSpectra, SPECQ, lambda: ac.CrossPowerSpectra(source=rf()), FS2, scaling=C('power', 'psd'), single_sided=C(True, False), calc_mode=C('full', 'upper', 'lower'), precision=C('complex128', 'complex64'), tags={'prec'})
add('Average of spectra', lambda: ac.Average(source=ac.AutoPowerSpectra(source=rf()), num_per_average=2), {'source.source.block_size': C(8, 16), 'num_per_average': C(1, 2, 3), 'source.scaling': C('power', 'psd'), 'source.source.source.data': data(M, 20, 60)}, SPECQ, gen=True)

# ------------------------------------------------------------------------------------------------ sources and signals
for cl, kw, st in ((ac.WNoiseGenerator, {}, {}), (ac.PNoiseGenerator, {}, {'depth': C(4, 16)}), (ac.FiltWNoiseGenerator, {}, {'ar': C(np.array([]), np.array([.5]), np.array([.2, .1])), 'ma': C(np.array([]), np.array([.3]))})):
    add(cl.__name__, (lambda cl=cl, kw=kw: cl(num_samples=40, sample_freq=FS, seed=3, **kw)), st | {'rms': C(1., 2., .5), 'seed': C(1, 2, 3), 'num_samples': C(30, 40, 64), 'sample_freq': C(100., 200.)}, 'digest', lambda o: [o.signal()])
add('SineGenerator', lambda: ac.SineGenerator(num_samples=40, sample_freq=FS, freq=10.), {'amplitude': U(.5, 2), 'freq': U(5, 30), 'phase': U(0, 3), 'num_samples': C(30, 40), 'sample_freq': C(100., 200.)}, 'digest amplitude', lambda o: [o.signal()])
add('GenericSignalGenerator', lambda: ac.GenericSignalGenerator(source=rec(30, 1), num_samples=50), {'source.data': data(1, 20, 60), 'amplitude': U(.5, 2), 'num_samples': C(10, 45, 60), 'loop_signal': C(True, False)}, 'digest', lambda o: [o.signal()])
sg = lambda: ac.SineGenerator(num_samples=60, sample_freq=FS, freq=10.)
SIG = {'signal.freq': U(5, 30), 'signal.amplitude': U(.5, 2), 'signal.phase': U(0, 3), 'signal.num_samples': C(50, 60), 'signal': C(lambda: ac.WNoiseGenerator(num_samples=55, sample_freq=FS, seed=2), sg), 'mics.pos_total': A(-.5, .5, 3, M), 'mics': micsv(),
       'loc': V(.3, .8), 'env.c': U(300, 360), 'env': C(lambda: ac.Environment(c=310.), lambda: ac.UniformFlowEnvironment(ma=.2)), 'start': C(0., .02), 'start_t': C(0., .01, .03), 'up': C(2, 16)}
PAD = {'prepadding': C('loop', 'zeros')}
MIC = lambda: mg()
add('PointSource', lambda: ac.PointSource(signal=sg(), mics=MIC(), loc=(.1, .1, .5)), SIG | PAD, GENQ, gen=True)
add('PointSourceDipole', lambda: ac.PointSourceDipole(signal=sg(), mics=MIC(), loc=(.1, .1, .5), direction=(0, 0, .1)), SIG | {'direction': V(.05, .2)}, GENQ, gen=True, known={'early end'})
add('SphericalHarmonicSource', lambda: ac.SphericalHarmonicSource(signal=sg(), mics=MIC(), loc=(.1, .1, .5), lOrder=1, alpha=np.array([1., .5, .2, .1])), SIG | {'alpha': A(-1, 1, 4), 'direction': V(.1, 1)}, GENQ, gen=True, known={'early end'})
add('PointSourceConvolve', lambda: ac.PointSourceConvolve(signal=sg(), mics=MIC(), loc=(.1, .1, .5), kernel=np.array([[1.], [.5]])), {k: v for k, v in SIG.items() if k not in ('up', 'start', 'start_t')} | {'kernel': lambda r: r.standard_normal((int(r.integers(1, 5)), 1))}, GENQ, gen=True)
add('MovingPointSource', lambda: ac.MovingPointSource(signal=sg(), mics=MIC(), trajectory=tr()), {k: v for k, v in SIG.items() if k not in ('loc', 'env')} | {'trajectory': trajv, 'conv_amp': C(True, False)}, GENQ, gen=True, known={'early end'})
add('MovingPointSourceDipole', lambda: ac.MovingPointSourceDipole(signal=sg(), mics=MIC(), trajectory=tr(), direction=(0, 0, .1)), {k: v for k, v in SIG.items() if k not in ('loc', 'env')} | {'trajectory': trajv, 'conv_amp': C(True, False), 'direction': V(.05, .2), 'rvec': C((0., 0., 0.), (0., 1., 0.))}, GENQ, gen=True, known={'early end'})
LS = {'direction': V(.1, 1), 'length': U(.1, .5), 'num_sources': C(1, 2, 3), 'coherence': C('coherent', 'incoherent'), 'source_strength': C(np.ones(3), np.array([1., 2., .5]))}
add('LineSource', lambda: ac.LineSource(signal=sg(), mics=MIC(), loc=(.1, .1, .5), num_sources=2, source_strength=np.ones(3)), SIG | LS, GENQ, gen=True, known={'early end'})
add('MovingLineSource', lambda: ac.MovingLineSource(signal=sg(), mics=MIC(), trajectory=tr(), num_sources=2, source_strength=np.ones(3)), {k: v for k, v in SIG.items() if k not in ('loc', 'env')} | LS | {'trajectory': trajv, 'conv_amp': C(True, False), 'rvec': C((0., 0., 0.), (0., 1., 0.))}, GENQ, gen=True, known={'early end'})
wn = lambda: ac.WNoiseGenerator(num_samples=50, sample_freq=FS, seed=3)
add('UncorrelatedNoiseSource', lambda: ac.UncorrelatedNoiseSource(signal=wn(), mics=MIC()), {'signal.rms': C(1., 2.), 'signal.seed': C(1, 2), 'signal.num_samples': C(30, 50), 'seed': C(np.array([]), np.array([1, 2, 3, 4]), np.array([4, 3, 2, 1])), 'mics': micsv(), 'mics.invalid_channels': C([], [1])}, GENQ, gen=True)

# ------------------------------------------------------------------------------------------------ time domain beamformers
TB = STEER | {'source.data': data(M, 40, 70), 'source': source(M, 40, 70, 8000.), 'source.sample_freq': C(8000., 9000.), 'weights': C('none', 'power'), 'steer': C(lambda: sv(steer_type='inverse'), lambda: sv(ref=2.))}
tb = lambda: rec(60, M, 0, 8000.)
TT = {'trajectory': trajv, 'rvec': C((0., 0., 0.), (0., 1., 0.)), 'conv_amp': C(True, False), 'precision': C(64, 32)}
for cl, st in ((ac.BeamformerTime, {}), (ac.BeamformerTimeSq, {'r_diag': C(True, False)}), (ac.BeamformerTimeTraj, TT), (ac.BeamformerTimeSqTraj, TT | {'r_diag': C(True, False)}), (ac.BeamformerCleant, {'n_iter': C(1, 3), 'damp': U(.3, 1)}),
               (ac.BeamformerCleantSq, {'n_iter': C(1, 3), 'damp': U(.3, 1), 'r_diag': C(True, False)}), (ac.BeamformerCleantTraj, TT | {'n_iter': C(1, 3), 'damp': U(.3, 1)}), (ac.BeamformerCleantSqTraj, TT | {'n_iter': C(1, 3), 'damp': U(.3, 1), 'r_diag': C(True, False)})):
    kw = {'trajectory': tr} if 'Traj' in cl.__name__ else {}
    add(cl.__name__, (lambda cl=cl, kw=kw: cl(source=tb(), steer=sv(), **{k: v() for k, v in kw.items()})), TB | {k: v for k, v in st.items() if k in cl.class_trait_names()}, GENQ, gen=True, tags={'tb'} | ({'cleant'} if 'Cleant' in cl.__name__ else set()), known={'num_samples'})

# ------------------------------------------------------------------------------------------------ data in files
_files = {}


def files():
    """a few files, written once per process into the current (scratch) folder"""
    if _files.get('pid') != os.getpid():
        import h5py, tempfile
        d = tempfile.mkdtemp(dir='.')
        _files.clear()
        _files['pid'] = os.getpid()
        q = np.random.default_rng(12)
        for i, (n, m) in enumerate(((40, M), (40, M), (55, M))):
            f = os.path.join(d, f'td{i}.h5')
            with h5py.File(f, 'w') as h:
                ds = h.create_dataset('time_data', data=q.standard_normal((n, m)))
                ds.attrs['sample_freq'] = [100., 100., 200.][i]
            _files['td%d' % i] = f
        for i in range(3):
            f = os.path.join(d, f'cal{i}.xml')
            with open(f, 'w') as h:
                h.write('<?xml version="1.0" encoding="utf-8"?>\n<Calib name="x">\n' + ''.join(f'  <pos Name="P{k}" factor="{v!r}"/>\n' for k, v in enumerate(q.uniform(.5, 2, M).tolist())) + '</Calib>\n')
            _files['cal%d' % i] = f
            f = os.path.join(d, f'mics{i}.xml')
            mg(M + (i == 2), 40 + i).export_mpos(f)
            _files['mics%d' % i] = f
            f = os.path.join(d, f'grid{i}.xml')
            with open(f, 'w') as h:
                h.write('<?xml version="1.0" encoding="utf-8"?>\n<Grid name="x">\n' + ''.join(f'  <pos subgrid="s{k % 2}" x="{a!r}" y="{b!r}" z="{c!r}"/>\n' for k, (a, b, c) in enumerate(q.uniform(-1, 1, (4 + i, 3)).tolist())) + '</Grid>\n')
            _files['grid%d' % i] = f
    return _files


def F(kind, n=3):
    return lambda r: (lambda k: lambda: files()[kind + str(k)])(int(r.integers(0, n)))


CALS = C(lambda: ac.Calib(file=files()['cal0']), lambda: ac.Calib(file=files()['cal1']))
add('TimeSamples', lambda: ac.TimeSamples(file=files()['td0']), {'file': F('td'), 'calib': CALS}, GENQ + ' basename data', gen=True)
add('MaskedTimeSamples', lambda: ac.MaskedTimeSamples(file=files()['td0'], stop=30), {'file': F('td'), 'calib': CALS, 'start': C(0, 3, 7), 'stop': C(20, 30, None, -2), 'invalid_channels': C([], [1], [3, 0]), 'invalid_channels+': C(0, 1, 2)},
    GENQ + ' num_samples_total num_channels_total channels', gen=True)
add('TimeSamples, array', lambda: ac.TimeSamples(data=np.arange(1., 41.).reshape(10, 4), sample_freq=100.), {'data': data(M, 1, 30), 'sample_freq': C(100., 120.), 'calib': CALS}, GENQ, gen=True)
add('Calib', lambda: ac.Calib(file=files()['cal0'], source=rec()), {'file': F('cal'), 'source.data': data(), 'invalid_channels': C([], [], [])}, 'digest data num_mics channels ' + GENQ, gen=True)
add('MicGeom, file', lambda: ac.MicGeom(file=files()['mics0']), {'file': F('mics'), 'invalid_channels': C([], [0], [2, 1])}, 'pos num_mics center aperture digest', lambda o: [o.pos])
add('ImportGrid', lambda: ac.ImportGrid(file=files()['grid0']), {'file': F('grid')}, 'pos size shape subgrids digest', lambda o: [o.pos])
proc(ac.WriteH5, GENQ, lambda: ac.WriteH5(source=rec(), file='out.h5'), SRC, tags={'single'}, known={'num_samples'}, num_samples_write=C(-1, 7, 20), precision=C('float32', 'float64'))

# quantities that objects behind these derive from them
for nm, mk, st in (('BeamformerTime', lambda: ac.BeamformerTime(source=tb(), steer=sv()), {'steer.grid.increment': C(.2, .25, .3), 'steer.grid': C(lambda: rg(1., .1)), 'source.sample_freq': C(8000., 9000.)}),
                   ('BeamformerTimeSqTraj', lambda: ac.BeamformerTimeSqTraj(source=tb(), steer=sv(), trajectory=tr()), {'steer.grid.increment': C(.2, .25, .3), 'steer': C(lambda: sv(steer_type='inverse'))}),
                   ('OctaveFilterBank', lambda: ac.OctaveFilterBank(source=BR(), lband=27, hband=29), {'lband': C(26, 27, 28), 'hband': C(29, 30), 'fraction': C('Octave', 'Third octave'), 'source.data': data(3, 1, 60), 'source': source(1)}),
                   ('SpatialInterpolator', lambda: ac.SpatialInterpolator(source=rec(30, 8), mics=micring(), mics_virtual=micring(1), method='linear', array_dimension='ring'), {'mics_virtual': C(lambda: micring(0, 6), lambda: micring(0, 9)), 'mics_virtual.invalid_channels': C([], [1, 2])}),
                   ('SpatialInterpolatorConstantRotation', lambda: ac.SpatialInterpolatorConstantRotation(source=rec(30, 8), mics=micring(), rotational_speed=.7, method='linear', array_dimension='ring'), {'mics_virtual': C(lambda: micring(0, 6), lambda: micring(0, 9)), 'mics': C(lambda: micring(2, 8))}),
                   ('ChannelMixer', lambda: ac.ChannelMixer(source=rec()), {'weights': C(np.array([1.])), 'source.sample_freq': C(100.)}),
                   ('Average', lambda: ac.Average(source=rec()), {'num_per_average': C(1, 3, 7), 'source': source()}),
                   ('IntegratorSectorTime', lambda: ac.IntegratorSectorTime(source=rec(30, rg().size), grid=rg(), sectors=[[-.1, -.1, .1, .1]]), {'sectors': C([[-.1, -.1, .1, .1]] * 3), 'sectors+': C([0, 0, .1, .1])}),
                   ('IRFFT', lambda: ac.IRFFT(source=rf()), {'source.block_size': C(8, 16), 'source.source.sample_freq': C(100., 200.), 'source': C(lambda: ac.RFFT(source=rec(30), block_size=4))}),
                   ('Mixer', lambda: ac.Mixer(source=rec(), sources=[rec(40, M, 1)]), {'sources': C(lambda: [rec(30, M, 5)]), 'sources+': C(lambda: rec(20)), 'sources[0].data': data()})):
    add('MaskedTimeOut of ' + nm, (lambda mk=mk: ac.MaskedTimeOut(source=mk(), invalid_channels=[0], start=1)), {'source.' + k: v for k, v in st.items()} | {'start': C(0, 2), 'invalid_channels': C([], [0])}, MQ)
for nm, mk, st in (('RFFT', rf, {'block_size': C(8, 16, 32), 'source.sample_freq': C(100., 200.), 'source': source(), 'overlap': C('None', '50%')}),
                   ('AutoPowerSpectra', lambda: ac.AutoPowerSpectra(source=rf()), {'source.block_size': C(8, 16, 32), 'source.source.sample_freq': C(100., 200.)})):
    add('Average of ' + nm, (lambda mk=mk: ac.Average(source=mk(), num_per_average=2)), {'source.' + k: v for k, v in st.items()} | {'num_per_average': C(1, 3)}, GENQ)
