"""C01-C04: contracts that every object of a kind shares, on the specimens."""
import warnings, zlib
import numpy as np
import acoular as ac
from oracles.lib import case
import copy
from traits.api import TraitListObject
from oracles.specimens import *


def parts(pred, k):
    """specimens that satisfy pred, in k groups"""
    n = sorted(n for n in SPECS if pred(SPECS[n]))
    return [n[i::k] for i in range(k)]


def start(t, sp, changes=0):
    """history with some random settings"""
    h = History()
    ks = [k for k in sp.settings if not k.endswith('+')]
    for k in t.rng.permutation(len(ks))[:changes]:
        step(t, sp, h, ks[int(k)])
    return h


def step(t, sp, h, k):
    v = sp.settings[k](t.rng)
    h.set(k, v)
    return v


def quiet(f):
    def g(t):
        ac.config.global_caching = 'none'
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            f(t)
    return g


def lines(h):
    return {k: ('<object>' if callable(v) else v) for k, v in h.items()}


def usable(o):
    return not any(isinstance(x, Raised) for x in o)


# ------------------------------------------------------------------------------------------------ C01
def nfreq(o):
    while isinstance(o, ac.InOut):
        o = o.source
    return o.num_freqs if isinstance(o, ac.SpectraGenerator) else 1


def stream_contract(t, sp, h, key):
    o = make(sp, h)
    try:
        n, nc = o.num_samples, o.num_channels
    except Exception:
        return
    whole = output(sp, make(sp, h), 10**6 if 'tb' not in sp.tags else 4096)
    if not usable(whole):
        t.check(not usable(output(sp, make(sp, h), 7)), key + '-raises-for-some', f'{whole}', **lines(h))
        return
    w = whole[0]
    if 'num_samples' not in sp.known and n is not None and not ('early end' in sp.known and 'start' in h):     # see 'announced sample counts'
        t.check(len(w) == n, key + '-rows', f'{len(w)} rows, announced {n}', **lines(h))
    if len(w):
        nf = nfreq(o)
        t.check(w.shape[1:] == (nc * nf,), key + '-columns', f'{w.shape} announced {nc} channels, {nf} frequencies', **lines(h))
    for num in (1, 3, 7, 16, max(1, len(w)), len(w) + 5):
        with t.guard(key + '-raises', num=num, **lines(h)):
            o = make(sp, h)
            b = [np.array(x, copy=True) for x in o.result(num)]
            s = [len(x) for x in b]
            t.check(all(q == num for q in s[:-1]) and (not s or 0 < s[-1] <= num), key + '-blocks', f'{s} for num={num}', **lines(h))
            y = np.concatenate(b) if b else np.empty((0,) + w.shape[1:])
            if 'cleant' in sp.tags:
                t.check(len(y) == len(w), key + '-length', f'{len(y)} instead of {len(w)} rows', num=num, **lines(h))
            elif len(y) or len(w):
                t.close(y, w, key + '-values', f'num={num}', rtol=1e-5 if prec32(h) else 1e-9, num=num, **lines(h))


def prec32(h):
    return any('precision' in k for k in h)


def mk01(i, k):
    @case('C01', f'streams {i}', 50)
    @quiet
    def f(t):
        names = parts(lambda s: s.gen and 'noresult' not in s.tags and 'nondeterministic' not in s.known, k)[i]
        for r in t.rounds(9, 60):
            for n in names:
                sp = SPECS[n]
                stream_contract(t, sp, start(t, sp, 0 if r == 0 else int(t.rng.integers(1, 4))), n)


for _i in range(3):
    mk01(_i, 3)


# chains of processors: what one element delivers is what the next one gets
LINKS = [lambda s: ac.TimePower(source=s), lambda s: ac.TimeReverse(source=s), lambda s: ac.TimeCumAverage(source=s), lambda s: ac.Average(source=s, num_per_average=3), lambda s: ac.TimeExpAverage(source=s),
         lambda s: ac.MaskedTimeOut(source=s, start=1, invalid_channels=[0]), lambda s: ac.Mixer(source=s, sources=[s]), lambda s: ac.TimeConvolve(source=s, kernel=np.array([[1.], [.5], [.2]])),
         lambda s: ac.Cache(source=s), lambda s: ac.SourceMixer(sources=[s, s]), lambda s: ac.ChannelMixer(source=s)]


@case('C01', 'chains', 40)
@quiet
def chains(t):
    for r in t.rounds(40, 400):
        n = int(t.rng.integers(30, 120))
        x = t.rng.standard_normal((n, 3))
        ks = [int(k) for k in t.rng.integers(0, len(LINKS), int(t.rng.integers(2, 4)))]

        def mk():
            s = ArraySource(data=x, sample_freq=200., fresh=0)
            for k in ks:
                if k == 5 and s.num_channels < 2:
                    continue
                s = LINKS[k](s)
            return ac.TimePower(source=s)
        names = [type(LINKS[k](ArraySource(data=x, sample_freq=200.))).__name__ for k in ks]
        if ks.count(7) > 1:
            continue
        inp = dict(n=n, chain=names)
        with t.guard('chain-raises', **inp):
            o = mk()
            N, nc = o.num_samples, o.num_channels
            w = collect(o, N + 7) if N else np.empty((0, nc))
            if N:
                t.check(w.shape == (N, nc), 'chain-announced', f'{w.shape} instead of {(N, nc)}', **inp)
            for num in (1, 5, 16, max(N, 1)):
                b = [np.array(q, copy=True) for q in mk().result(num)]
                s = [len(q) for q in b]
                t.check(all(q == num for q in s[:-1]) and (not s or 0 < s[-1] <= num), 'chain-blocks', f'{s} num={num}', **inp)
                if b:
                    t.close(np.concatenate(b), w, 'chain-values', rtol=1e-9, num=num, **inp)
            t.same(collect(mk(), 5), collect(mk(), 5), 'chain-again', **inp)


@case('C01', 'announced sample counts', 20)
@quiet
def announced(t):
    for n in ('BeamformerTime', 'BeamformerTimeSq', 'BeamformerCleant', 'BeamformerTimeTraj'):
        o = SPECS[n].build()
        t.check(len(collect(o, 16)) == o.num_samples, 'time-beamformer-rows', f'{n} delivers {len(collect(o, 16))} samples, announces {o.num_samples}')
    for n in ('MovingPointSource', 'PointSourceDipole', 'SphericalHarmonicSource', 'LineSource', 'MovingPointSourceDipole'):
        o = SPECS[n].build()
        t.check(len(collect(o, 16)) == o.num_samples, n + '-rows', f'delivers {len(collect(o, 16))} samples, announces {o.num_samples}')
        o.start = .1
        t.check(len(collect(o, 16)) == o.num_samples, 'late-start-rows', f'{n} delivers {len(collect(o, 16))} samples, announces {o.num_samples}')
    o = ac.WriteH5(source=rec(), file='x.h5', num_samples_write=20)
    t.check(len(collect(o, 16)) == o.num_samples, 'limited-write-rows', f'{len(collect(o, 16))}, announced {o.num_samples}')


# ------------------------------------------------------------------------------------------------ C02
def arrays_of(o, seen, found, depth=0, path=''):
    """arrays that settings of the object and of its parts refer to"""
    if id(o) in seen or depth > 5:
        return
    seen.add(id(o))
    for n, tr in o.traits(type=lambda x: x not in ('property', 'event', 'constant')).items():
        if n.startswith('_') or n.startswith('trait_') or tr.transient or n == 'idict':
            continue
        try:
            v = getattr(o, n)
        except Exception:
            continue
        keep(v, seen, found, depth, path + '.' + n)


def keep(v, seen, found, depth, path):
    if isinstance(v, np.ndarray):
        found.append((path, v, v.copy()))
    elif isinstance(v, HasTraits):
        arrays_of(v, seen, found, depth + 1, path)
    elif isinstance(v, dict):
        found.append((path, v, dict(v)))
    elif isinstance(v, list):
        found.append((path, v, list(v)))
        for i, x in enumerate(v):
            keep(x, seen, found, depth, f'{path}[{i}]')


def unchanged(t, found, key, **inp):
    for path, v, c in found:
        ok = np.array_equal(v, c, equal_nan=v.dtype.kind in 'fc') if isinstance(v, np.ndarray) else (len(v) == len(c) and all(p is q or equal(p, q) for p, q in zip(v, c))) if isinstance(v, list) else v.keys() == c.keys()
        t.check(ok, key + '-modifies', f'{path} was changed from {show(c)} to {show(v)}', **inp)


def show(v):
    return repr(v)[:200]


def views(o, seen=None):
    """sources hand out views of their data, so that an alteration of a block is an alteration of the data"""
    seen = set() if seen is None else seen
    if id(o) in seen:
        return
    seen.add(id(o))
    if isinstance(o, ArraySource):
        o.fresh = 0
    for n in ('source', 'freq_data', 'sources', 'trigger', 'angle_source', 'signal', 'beamformer'):
        v = o.__dict__.get(n) or getattr(o, n, None) if n in o.trait_names() else None
        for q in (v if isinstance(v, list) else [v]):
            if isinstance(q, HasTraits):
                views(q, seen)


def pure(t, sp, h, key):
    o = make(sp, h)
    views(o)
    found = []
    arrays_of(o, set(), found)
    a = output(sp, o, 7)
    if not usable(a):
        return
    der = {d: read(o, d) for d in sp.derived}
    unchanged(t, found, key, **lines(h))
    b = output(sp, o, 7)
    t.check(equal(a, b, 0 if 'slow' not in sp.tags else 1e-9), key + '-again', f'second reading differs: {show(a)} {show(b)}', **lines(h))
    unchanged(t, found, key, **lines(h))
    for d, v in der.items():
        t.check(equal(v, read(o, d)), key + '-derived', f'{d} was {v}, is {read(o, d)}', **lines(h))
    if not sp.gen or 'single' in sp.tags:
        return
    if 'nondeterministic' in sp.known:
        return
    # two consumers at the same time
    for nums in ((7, 7), (3, 10), (1, 16)):
        with t.guard(key + '-raises', **lines(h)):
            o = make(sp, h); views(o)
            g = [o.result(n) for n in nums]
            got, alive = ([], []), [0, 1]
            while alive:
                i = int(t.rng.choice(alive))
                x = next(g[i], None)
                if x is None:
                    alive.remove(i)
                else:
                    got[i].append((x, x.copy()))
            for i in (0, 1):
                solo = [np.array(x, copy=True) for x in make(sp, h).result(nums[i])]
                t.check(equal([c for _, c in got[i]], solo, 0), key + '-two-consumers', f'consumer {i} of {nums} gets {show([c for _, c in got[i]])} instead of {show(solo)}', nums=nums, **lines(h))
                t.check(all(np.array_equal(x, c, equal_nan=True) for x, c in got[i]), key + '-block-overwritten', 'a delivered block changes later', nums=nums, **lines(h))


def mk02(i, k):
    @case('C02', f'reading {i}', 60)
    @quiet
    def f(t):
        names = parts(lambda s: s.out or s.gen, k)[i]
        for r in t.rounds(8, 50):
            for n in names:
                sp = SPECS[n]
                if 'slow' in sp.tags and r % 4 and not t.thorough:
                    continue
                pure(t, sp, start(t, sp, 0 if r == 0 else int(t.rng.integers(1, 4))), n)


for _i in range(4):
    mk02(_i, 4)


# ------------------------------------------------------------------------------------------------ C03
def ident(t, sp, h, key, rounds):
    with t.guard(key + '-raises', **lines(h)):
        o = make(sp, h)
        d0, o0 = o.digest, output(sp, o)
        if not usable(o0):
            return
        t.check(o.digest == d0, key + '-unstable', 'reading the output changes the identifier', **lines(h))
        t.check(make(sp, h).digest == d0, key + '-not-reproducible', 'equal objects have different identifiers', **lines(h))
        for k in sp.settings:
            if k.endswith('+') or (key == 'PointSpreadFunction' and k in ('freq', 'grid_indices')):
                continue          # frequency and points are kept apart inside the file
            for _ in range(rounds):
                h2 = h.copy()
                step(t, sp, h2, k)
                try:
                    n = make(sp, h2)
                    o1 = output(sp, n)
                except Exception:
                    continue
                if not usable(o1) or equal(o0, o1):
                    continue
                inp = dict(setting=k, before=lines(h), after=lines(h2))
                t.check(n.digest != d0, f'{key}-{k}', f'outputs differ, both have the identifier {d0}', **inp)
                # the same on one object, and back
                try:
                    put(o, k, h2[k])
                except (IndexError, TraitError, AttributeError):
                    continue
                t.check(o.digest == n.digest, f'{key}-{k}-changed', 'identifier after the change differs from that of a new object with the same settings', **inp)
                t.check(o.digest != d0, f'{key}-{k}-stale', 'identifier does not follow the change', **inp)
                o = make(sp, h)
                break
        # an item of a dictionary that is taken out and put back
        for k in sp.settings:
            if '[' in k or k.endswith('+'):
                continue
            o = make(sp, h)
            d = read(o, k)
            if isinstance(d, dict) and len(d) > 1:
                d0 = o.digest
                d = getattr(*resolve(o, k))
                x = next(iter(d))
                v = d.pop(x)
                t.check(o.digest != d0, f'{key}-{k}-item', 'identifier does not follow the change of an item', setting=k, **lines(h))
                d[x] = v
                t.check(o.digest == d0, f'{key}-{k}-item', 'putting the item back does not restore the identifier', setting=k, **lines(h))
        # back to the default
        for k in sp.settings:
            if '[' in k or k.endswith('+') or any(q == k or q.startswith(k + '.') or k.startswith(q + '.') for q in h):
                continue
            o = make(sp, h); d0 = o.digest
            try:
                old = read(o, k)
                if isinstance(old, (Raised, HasTraits, list)) or old is None:
                    continue
                h2 = h.copy(); step(t, sp, h2, k)
                put(o, k, h2[k]); o.digest
                put(o, k, (lambda: old))
            except (TraitError, AttributeError):
                continue
            t.check(o.digest == d0 or not equal(read(o, k), old, 0), f'{key}-{k}-back', 'setting the default value back does not restore the identifier', setting=k, **lines(h))
        # back: only settings with a known previous value
        for k, v in h.items():
            if '[' in k or k.endswith('+') or callable(v):
                continue
            o = make(sp, h); d0 = o.digest
            h2 = h.copy(); step(t, sp, h2, k)
            if any(q.startswith(k + '.') for q in h):
                continue
            try:
                put(o, k, h2[k]); o.digest
                put(o, k, v)
            except (TraitError, AttributeError):
                continue
            t.check(o.digest == d0, f'{key}-{k}-back', 'setting the value back does not restore the identifier', setting=k, **lines(h))


def mk03(i, k):
    @case('C03', f'identifiers {i}', 80)
    @quiet
    def f(t):
        names = parts(lambda s: 'digest' in s.derived, k)[i]
        for r in t.rounds(5, 30):
            for n in names:
                sp = SPECS[n]
                if 'slow' in sp.tags and r % 4 and not t.thorough:
                    continue
                ident(t, sp, start(t, sp, 2 if r == 0 else int(t.rng.integers(1, 5))), n, 3)


for _i in range(5):
    mk03(_i, 5)


@case('C03', 'files', 20)
@quiet
def files03(t):
    import os, h5py, tempfile
    x = t.rng.standard_normal((30, 2))
    y = x.copy(); y[7, 1] += 1
    ids = {}
    for k, (d, sub, name) in enumerate(((x, 'a', 'm.h5'), (x, 'a', 'n.h5'), (y, 'b', 'm.h5'))):
        os.makedirs(sub, exist_ok=True)
        f = os.path.join(sub, name)
        with h5py.File(f, 'w') as h:
            h.create_dataset('time_data', data=d).attrs['sample_freq'] = 100.
        ids[sub + name] = ac.TimeSamples(file=f).digest
    t.check(ids['am.h5'] != ids['an.h5'], 'file-names', f'{ids}')
    t.check(ids['am.h5'] != ids['bm.h5'], 'files-of-one-name', f'files a/m.h5 and b/m.h5 hold different samples: {ids}')


# ------------------------------------------------------------------------------------------------ C04
def fresh_value(t, sp, h, q):
    o = make(sp, h)
    return output(sp, o) if q == '()' else read(o, q)


def in_place(o, k, v):
    """change the items of a list or dictionary instead of replacing it"""
    if callable(v) or k.endswith(']'):
        return False
    o, p = resolve(o, k)
    cur = getattr(o, p)
    if isinstance(cur, dict) and isinstance(v, dict):
        for x in [x for x in cur if x not in v]:
            del cur[x]
        cur.update(copy.deepcopy(v))
    elif isinstance(cur, TraitListObject) and isinstance(v, list):
        cur[:] = copy.deepcopy(v)
    else:
        return False
    return True


def stale(t, sp, key, steps):
    qs = list(sp.derived) + (['()'] if sp.out or sp.gen else [])
    if 'noresult' in sp.tags:
        qs.remove('()')
    ks = list(sp.settings)
    h = History()
    o = make(sp, h)
    for q in qs:
        output(sp, o) if q == '()' else read(o, q)
    trace = []
    for i in range(steps):
        k = ks[int(t.rng.integers(0, len(ks)))]
        if k.endswith('+'):
            base = k[:-1]
            cur = list(getattr(*resolve(o, base)))
            v = sp.settings[k](t.rng)
            if callable(v) or len(cur) > 4 or v in cur:
                continue
            put(o, k, v); h.set(base, cur + [v])
        else:
            v = sp.settings[k](t.rng)
            try:
                if not (i % 2 and in_place(o, k, v)):
                    put(o, k, v)
            except (IndexError, TraitError, AttributeError):
                continue
            h.set(k, v)
        trace.append(k)
        n = int(t.rng.integers(0, 3)) if i < steps - 1 else 2
        for q in [qs[int(j)] for j in t.rng.permutation(len(qs))[:n]]:
            got = output(sp, o) if q == '()' else read(o, q)
            want = fresh_value(t, sp, h, q)
            t.check(equal(got, want, 1e-5 if prec32(h) else 1e-9), f'{key}-{q}', f'{show(got)} instead of {show(want)} after {trace[-6:]}', **lines(h))


def mk04(i, k):
    @case('C04', f'changes {i}', 80)
    @quiet
    def f(t):
        names = parts(lambda s: 'nondeterministic' not in s.known, k)[i]
        for r in t.rounds(24, 150):
            for n in names:
                sp = SPECS[n]
                if 'slow' in sp.tags and r % 8 and not t.thorough:
                    continue
                with t.guard(n + '-raises'):
                    stale(t, sp, n, 6)


for _i in range(6):
    mk04(_i, 6)
