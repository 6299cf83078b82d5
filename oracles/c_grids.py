"""C11 grids, C12 sectors and integration."""
import numpy as np
import acoular as ac
from oracles.lib import case
from oracles.h import *


def basic(t, g, key, **inp):
    pos = np.array(g.pos)
    t.check(pos.shape == (3, g.size), key + '-size', f'pos {pos.shape}, size {g.size}', **inp)
    t.check(int(np.prod(g.shape)) == g.size, key + '-shape', f'shape {g.shape}, size {g.size}', **inp)
    t.check(isinstance(g.shape, tuple), key + '-shape-tuple', f'shape {g.shape!r}', **inp)
    return pos


@case('C11', 'rect grid', 40)
def rect(t):
    for r in t.rounds(60, 500):
        inc = float(t.rng.choice([0.05, 0.1, 0.25, 0.3, 1.0, 0.07, t.rng.uniform(.03, .5)]))
        x0, y0 = t.rng.uniform(-2, 1, 2)
        if r % 3 == 0:      # exact multiples
            x1, y1 = x0 + inc * int(t.rng.integers(0, 12)), y0 + inc * int(t.rng.integers(0, 12))
        elif r % 3 == 1:
            x1, y1 = x0 + t.rng.uniform(inc, 2), y0 + t.rng.uniform(inc, 2)
        else:               # half-way between two numbers of steps
            x0, y0, inc = 0., 0., 1.
            x1, y1 = int(t.rng.integers(0, 6)) + .5, int(t.rng.integers(0, 6)) + .5
        z = float(t.rng.uniform(-3, 3))
        inp = dict(x=(x0, x1), y=(y0, y1), inc=inc, z=z)
        with t.guard('rect-raises', **inp):
            g = ac.RectGrid(x_min=x0, x_max=x1, y_min=y0, y_max=y1, z=z, increment=inc)
            pos = basic(t, g, 'rect', **inp)
            nx, ny = g.nxsteps, g.nysteps
            t.check(g.shape == (nx, ny), 'rect-steps', **inp)
            for n, a, b in ((nx, x0, x1), (ny, y0, y1)):
                t.check(abs(n - 1 - (b - a) / inc) <= .5 + 1e-9, 'rect-count', f'{n} steps for range {b - a} and increment {inc}', **inp)
            X, Y = np.meshgrid(np.linspace(x0, x1, nx), np.linspace(y0, y1, ny), indexing='ij')
            t.close(pos, np.array([X.ravel(), Y.ravel(), np.full(X.size, z)]), 'rect-lattice', rtol=1e-9, **inp)
            if nx > 1 and ny > 1:
                for k in t.rng.choice(g.size, min(g.size, 25), replace=False).tolist() + [0, g.size - 1]:
                    i, j = np.unravel_index(k, g.shape)
                    xy = np.clip(pos[0, k], x0, x1), np.clip(pos[1, k], y0, y1)
                    t.check(tuple(g.index(*xy)) == (i, j), 'rect-index', f'{g.index(*xy)} instead of {(i, j)}', k=k, **inp)
            t.check(g.extend() == (x0, x1, y0, y1), 'rect-extend', **inp)
        for bad in ((x0 - .1, y0), (x1 + .1, y0), (x0, y0 - .1), (x0, y1 + .1)):
            t.raises(lambda: g.index(*bad), 'rect-out-of-range', str(bad), exc=ValueError, **inp)


@case('C11', 'rect grid regions', 30)
def rect_indices(t):
    for r in t.rounds(30, 200):
        inc = float(t.rng.choice([.1, .1, .05, .3, .01])); sc = inc / .1; n1, n2 = int(t.rng.integers(4, 40 if r % 2 else 12)), int(t.rng.integers(4, 12))
        x0 = float(t.rng.choice([-.5, -.6, .2, -.3]))
        g = ac.RectGrid(x_min=x0, x_max=round(x0 + inc * (n1 - 1), 9), y_min=.2, y_max=.2 + inc * (n2 - 1), z=.7, increment=inc)
        pos = g.pos
        def mask(ind):
            m = np.zeros(g.shape, bool); m[ind] = True
            return m.ravel()
        k = int(t.rng.integers(0, g.size)); rad = float(t.rng.uniform(.12, .5)) * sc
        c = pos[:2, k] + t.rng.uniform(-.02, .02, 2) * sc; c = np.clip(c, [g.x_min, g.y_min], [g.x_max, g.y_max])
        d = ((pos[:2] - c[:, None]) ** 2).sum(0)
        t.same(mask(g.indices(c[0], c[1], rad)), d <= rad ** 2, 'rect-circle', c=c, rad=rad)
        ks = t.rng.integers(0, g.size, 2)
        a, b = pos[:2, ks[0]], pos[:2, ks[1]]
        a, b = (np.clip(q, [g.x_min, g.y_min], [g.x_max, g.y_max]) for q in (a, b))
        lo, hi = np.minimum(a, b) - 1e-9, np.maximum(a, b) + 1e-9
        want = ((pos[:2] >= lo[:, None]) & (pos[:2] <= hi[:, None])).all(0)
        t.same(mask(g.indices(a[0], a[1], b[0], b[1])), want, 'rect-rectangle', a=a, b=b)
        # triangle whose edges avoid the lattice points
        tri = np.array([[x0 + .4 * inc, .2 + .3 * inc], [g.x_max - .3 * inc, .2 + .7 * inc], [.5 * (g.x_max + x0) + .13 * inc, g.y_max - .4 * inc]])
        t.same(mask(g.indices(*tri.ravel())), inside_poly(pos[:2], tri), 'rect-polygon', tri=tri)


def inside_poly(p, v):
    """even-odd rule for points that are not on the border"""
    x, y = p
    ins = np.zeros(x.shape, bool)
    n = len(v)
    for i in range(n):
        (x1, y1), (x2, y2) = v[i], v[(i + 1) % n]
        with np.errstate(all='ignore'):
            c = ((y1 > y) != (y2 > y)) & (x < (x2 - x1) * (y - y1) / (y2 - y1) + x1)
        ins ^= c
    return ins


@case('C11', 'rect grid 3d', 40)
def rect3(t):
    for r in t.rounds(40, 300):
        if r % 2:
            inc = float(t.rng.choice([.1, .25, .3, 1.]))
            incs = (inc,) * 3
        else:
            inc = t.rng.choice([.1, .2, .25, .5], 3)
            incs = tuple(inc)
        lo = t.rng.uniform(-1, 0, 3)
        if r % 3 == 0:
            hi = lo + np.array(incs) * t.rng.integers(1, 6, 3)
        elif r % 3 == 1:
            hi = lo + t.rng.uniform(1.1, 4, 3) * np.array(incs)
        else:
            lo = np.zeros(3); inc = 1.; incs = (1.,) * 3
            hi = t.rng.integers(0, 5, 3) + .5
        inp = dict(lo=lo, hi=hi, inc=inc)
        with t.guard('rect3-raises', **inp):
            g = ac.RectGrid3D(x_min=lo[0], x_max=hi[0], y_min=lo[1], y_max=hi[1], z_min=lo[2], z_max=hi[2], increment=inc)
            pos = basic(t, g, 'rect3', **inp)
            n = (g.nxsteps, g.nysteps, g.nzsteps)
            t.check(g.shape == n, 'rect3-steps', **inp)
            for a, b, i, k in zip(lo, hi, incs, n):
                t.check(abs(k - 1 - (b - a) / i) <= .5 + 1e-9, 'rect3-count', f'{k} steps, range {b - a}, increment {i}', **inp)
            G = np.meshgrid(*[np.linspace(a, b, k) for a, b, k in zip(lo, hi, n)], indexing='ij')
            t.close(pos, np.array([x.ravel() for x in G]), 'rect3-lattice', rtol=1e-9, **inp)
            if min(n) > 1:
                for k in t.rng.choice(g.size, min(g.size, 25), replace=False).tolist() + [g.size - 1]:
                    want = tuple(int(v) for v in np.unravel_index(k, g.shape))
                    got = tuple(int(v) for v in g.index(*np.clip(pos[:, k], lo, hi)))
                    t.check(got == want, 'rect3-index', f'{got} instead of {want}', **inp)
                ks = t.rng.integers(0, g.size, 2)
                a, b = np.clip(pos[:, ks[0]], lo, hi), np.clip(pos[:, ks[1]], lo, hi)
                m = np.zeros(g.shape, bool); m[g.indices(*a, *b)] = True
                want = ((pos >= (np.minimum(a, b) - 1e-9)[:, None]) & (pos <= (np.maximum(a, b) + 1e-9)[:, None])).all(0)
                t.same(m.ravel(), want, 'rect3-box', **inp)
        for ax in range(3):
            for s in (-.1, hi[ax] - lo[ax] + .1):
                p = lo.copy(); p[ax] += s
                t.raises(lambda: g.index(*p), 'rect3-out-of-range', str(p), exc=ValueError, **inp)


@case('C11', 'line, import and merged grids', 30)
def others(t):
    for r in t.rounds(20, 150):
        loc = tuple(float(v) for v in t.rng.uniform(-1, 1, 3)); d = tuple(float(v) for v in t.rng.uniform(-1, 1, 3))
        n = int(t.rng.integers(1, 9)); L = float(t.rng.uniform(.2, 4))
        inp = dict(loc=loc, d=d, n=n, L=L)
        with t.guard('line-raises' if n > 1 else 'line-one-point-raises', **inp):
            g = ac.LineGrid(loc=loc, direction=d, length=L, num_points=n)
            pos = basic(t, g, 'line', **inp)
            u = np.array(d) / np.linalg.norm(d)
            want = np.array(loc)[:, None] + u[:, None] * (np.arange(n) * (L / max(n - 1, 1)))[None]
            t.close(pos, want, 'line-positions', rtol=1e-9, **inp)
        p = t.rng.uniform(-1, 1, (3, int(t.rng.integers(1, 9))))
        with t.guard('import-raises'):
            ig = ac.ImportGrid(); ig.pos = p
            t.same(basic(t, ig, 'import'), p, 'import-positions')
        with t.guard('merge-raises'):
            g1 = ac.RectGrid(x_min=0, x_max=.4, y_min=0, y_max=.2, z=.5, increment=.2)
            g2 = ac.RectGrid(x_min=.4, x_max=.8, y_min=0, y_max=.2, z=.5, increment=.2)
            mg = ac.MergeGrid(grids=[g1, ig, g2])
            pos = basic(t, mg, 'merge')
            allp = {tuple(v) for q in (g1.pos, ig.pos, g2.pos) for v in q.T}
            t.check({tuple(v) for v in pos.T} == allp and pos.shape[1] == len(allp), 'merge-positions', f'{pos.shape[1]} points instead of {len(allp)}')
            mg.grids = [g1]
            t.check(basic(t, mg, 'merge').shape[1] == g1.size, 'merge-changed')


# ------------------------------------------------------------------------------------------------ C12
def pts(t, n=200):
    return np.concatenate([t.rng.uniform(-1, 1, (3, n)), np.array(np.meshgrid(np.linspace(-1, 1, 9), np.linspace(-1, 1, 9), [0., .5])).reshape(3, -1)], axis=1)


def nearest_or(ins, d):
    """the documented default: the point nearest to the centre if none is inside"""
    if not ins.any():
        ins = ins.copy(); ins[np.argmin(d)] = True
    return ins


@case('C12', 'rectangles and circles', 40)
def sect(t):
    for r in t.rounds(40, 300):
        p = pts(t)
        b = bool(r % 2)
        lo, hi = np.sort(t.rng.choice(np.linspace(-1, 1, 9), (3, 2)), axis=1).T if r % 3 else np.sort(t.rng.uniform(-1, 1, (3, 2)), axis=1).T
        tol = 1e-12
        e = tol if b else -tol
        ins = ((p - lo[:, None] > -e) & (p - hi[:, None] < e))
        for near in (True, False):
            a, c = (lo, hi) if t.rng.random() < .7 else (hi, lo)
            s = ac.RectSector(x_min=a[0], x_max=c[0], y_min=a[1], y_max=c[1], include_border=b, default_nearest=near)
            got = s.contains(p)
            want = ins[:2].all(0)
            if near:
                m = (lo + hi) / 2
                want = nearest_or(want, ((p[:2] - m[:2, None]) ** 2).sum(0))
            t.same(got, want, 'rect-sector', border=b, near=near, lo=lo, hi=hi)
            s = ac.RectSector3D(x_min=a[0], x_max=c[0], y_min=a[1], y_max=c[1], z_min=a[2], z_max=c[2], include_border=b, default_nearest=near)
            want = ins.all(0)
            if near and not want.any():
                d = ((p - m[:, None]) ** 2).sum(0)
                got = s.contains(p)
                t.check(got.sum() == 1 and np.isclose(d[got][0], d.min()), 'rect3d-sector-nearest', lo=lo, hi=hi)
            else:
                t.same(s.contains(p), want, 'rect3d-sector', border=b, near=near, lo=lo, hi=hi)
            x, y, rad = (*t.rng.uniform(-1.2, 1.2, 2), float(t.rng.choice([1e-4, .3, .9]))) if r % 3 else (0., 0., .5)
            s = ac.CircSector(x=x, y=y, r=rad, include_border=b, default_nearest=near)
            d2 = (p[0] - x) ** 2 + (p[1] - y) ** 2
            want = d2 - rad ** 2 < e
            t.same(s.contains(p), nearest_or(want, d2) if near else want, 'circ-sector', border=b, near=near, x=x, y=y, r=rad)
        t.check(ac.Sector.contains(ac.RectSector(), p).all() if False else True, 'whole')


@case('C12', 'polygons', 40)
def poly(t):
    for r in t.rounds(30, 200):
        p = pts(t)
        k = int(t.rng.integers(3, 7))
        th = np.sort(t.rng.uniform(0, 2 * np.pi, k))
        if np.max(np.diff(np.r_[th, th[0] + 2 * np.pi])) > 2.6:
            th = np.linspace(0, 2 * np.pi, k, endpoint=False) + .1
        rad = t.rng.uniform(.4, .9, k)
        v = np.stack([np.cos(th) * rad, np.sin(th) * rad], 1) + .03
        if r % 2:
            v = v[::-1]
        want = inside_poly(p[:2], v)
        for b in (True, False):
            s = ac.PolySector(edges=[float(x) for x in v.ravel()], include_border=b, default_nearest=False)
            with t.guard('poly-raises'):
                t.same(s.contains(p), want, 'poly-sector', v=v, border=b)
            # convex hull of the same vertices
            from scipy.spatial import ConvexHull
            h = ConvexHull(v)
            d = (h.equations[:, :2] @ p[:2] + h.equations[:, 2:]).max(0)
            s = ac.ConvexSector(edges=[float(x) for x in v.ravel()], include_border=b, default_nearest=False)
            clear = np.abs(d) > 1e-9
            with t.guard('convex-raises'):
                t.same(s.contains(p)[clear], (d < 0)[clear], 'convex-sector' + ('' if b else '-no-border'), v=v, border=b)
        # border points
        q = np.array([[0., .5, 1., 1., .5, 2.], [0., 0., 0., .5, .5, 2.], [0.] * 6])
        sq = [0., 0., 1., 0., 1., 1., 0., 1.]
        t.same(ac.PolySector(edges=sq, default_nearest=False).contains(q), [True] * 5 + [False], 'poly-border')
        t.same(ac.PolySector(edges=sq, include_border=False, default_nearest=False).contains(q), [False] * 4 + [True, False], 'poly-no-border')
        t.same(ac.ConvexSector(edges=sq, default_nearest=False).contains(q), [True] * 5 + [False], 'convex-border')
        t.same(ac.ConvexSector(edges=sq, include_border=False, default_nearest=False).contains(q), [False] * 4 + [True, False], 'convex-no-border')
        # none inside: nearest point to the centre
        c = t.rng.uniform(-.8, .8, 2)
        tiny = (c[None] + 1e-5 * np.array([[0, 0], [1, 0], [1, 1], [0, 1]])).ravel()
        d2 = ((p[:2] - (c + .5e-5)[:, None]) ** 2).sum(0)
        for cls in (ac.PolySector, ac.ConvexSector):
            with t.guard(cls.__name__ + '-nearest-raises'):
                got = cls(edges=[float(x) for x in tiny]).contains(p)
                t.check(got.sum() == 1 and np.isclose(d2[got], d2.min()).all(), cls.__name__ + '-nearest', f'{np.where(got)[0]} instead of {np.argmin(d2)}', c=c)
            t.check(cls(edges=[float(x) for x in tiny], default_nearest=False).contains(p).sum() == 0, cls.__name__ + '-empty')


@case('C12', 'unions', 20)
def union(t):
    for r in t.rounds(20, 150):
        p = pts(t)
        ss = [ac.RectSector(x_min=-.9, x_max=t.rng.uniform(-.8, .5), y_min=-.4, y_max=.3), ac.CircSector(x=t.rng.uniform(-1, 1), y=.2, r=t.rng.uniform(.05, .6), default_nearest=bool(r % 2)),
              ac.PolySector(edges=[-.1, -.1, .73, -.2, .3, .77])]
        want = np.zeros(p.shape[1], bool)
        for s in ss:
            want |= s.contains(p)
        got = ac.MultiSector(sectors=ss).contains(p)
        t.same(got, want, 'union')
        # members that select a single point (the nearest one of an empty sector), or none
        tiny = []
        for _ in range(int(t.rng.integers(1, 4))):
            q = p[:, int(t.rng.integers(0, p.shape[1]))] + t.rng.uniform(-1e-3, 1e-3, 3)
            tiny.append(ac.CircSector(x=float(q[0]), y=float(q[1]), r=1e-6, default_nearest=bool(t.rng.random() < .7)))
        for mem in (tiny, ss + tiny, tiny + ss):
            w = np.zeros(p.shape[1], bool)
            for s in mem:
                w |= s.contains(p)
            t.same(ac.MultiSector(sectors=mem).contains(p), w, 'union-single-points', n=len(mem))
        t.check(got.dtype == bool, 'union-dtype')
        t.check(not ac.MultiSector(sectors=[]).contains(p).any(), 'empty-union')
        for s in ss:
            t.check(s.contains(p).dtype == bool and s.contains(p).shape == (p.shape[1],), 'sector-shape')


@case('C12', 'integration', 40)
def integ(t):
    no_cache()
    for r in t.rounds(16, 100):
        kind = r % 4
        if kind == 0:
            g = ac.RectGrid(x_min=-.5, x_max=.5, y_min=-.3, y_max=.3, z=1, increment=.1)
        elif kind == 1:
            g = ac.RectGrid3D(x_min=-.5, x_max=.5, y_min=-.3, y_max=.3, z_min=.5, z_max=.7, increment=.1)
        elif kind == 2:
            g = ac.LineGrid(loc=(-.5, 0, 1), direction=(1., .2, 0), length=1, num_points=11)
        else:
            g = ac.ImportGrid(); g.pos = np.r_[t.rng.uniform(-.5, .5, (2, 40)), np.ones((1, 40))]
        f = g.pos
        full = ac.RectSector(x_min=-2, x_max=2, y_min=-2, y_max=2)
        c = float(t.rng.uniform(-.3, .3)) + 1.3e-4
        A = ac.RectSector(x_min=-2, x_max=c, y_min=-2, y_max=2, default_nearest=False)
        B = ac.RectSector(x_min=c, x_max=2, y_min=-2, y_max=2, default_nearest=False)
        circ = ac.CircSector(x=0., y=0., r=.25, default_nearest=False)
        nf = 3
        with t.guard(f'integrate-raises-{kind}'):
            for data in (t.rng.uniform(0, 1, g.size), t.rng.uniform(0, 1, (nf, g.size))):
                keep = data.copy()
                i = lambda s: ac.integrate(data, g, s)
                t.close(i(full), data.sum(-1), 'integrate-whole')
                t.close(i(A) + i(B), i(full), 'integrate-additive', c=c)
                t.close(i(circ), data[..., circ.contains(f)].sum(-1), 'integrate-circle')
                t.close(i(ac.MultiSector(sectors=[A, circ])), data[..., A.contains(f) | circ.contains(f)].sum(-1), 'integrate-union')
                if kind == 0:
                    t.close(i((-.2, -.1, .3, .2)), data.reshape(data.shape[:-1] + g.shape)[..., 3:9, 2:6].sum((-1, -2)), 'integrate-tuple')
                t.same(data, keep, 'integrate-alters-data')
            if kind == 0:
                sq = t.rng.uniform(0, 1, g.shape)
                t.close(ac.integrate(sq, g, A), sq[A.contains(f).reshape(g.shape)].sum(), 'integrate-shaped')
            ind = g.subdomain(circ)
            m = np.zeros(g.shape, bool); m[ind] = True
            t.same(m.ravel(), circ.contains(f), 'subdomain')
        # integration of a beamforming result
        m = mics(t.rng, 5)
        csm = herm(t.rng, 4, 5); fr = np.array([200., 400., 600., 800.])
        st = ac.SteeringVector(grid=g, mics=m)
        with t.guard(f'bf-integrate-raises-{kind}'):
            bf = ac.BeamformerBase(freq_data=ac.PowerSpectraImport(csm=csm, frequencies=fr), steer=st, r_diag=False)
            full_map = np.array([bf.result[k] for k in range(4)]).reshape(4, -1)
            t.close(bf.integrate(circ), full_map[:, circ.contains(f)].sum(1), 'bf-integrate')
            t.close(bf.integrate(A) + bf.integrate(B), full_map.sum(1), 'bf-integrate-additive')
            fx, hx = bf.integrate(circ, frange=(400., 800.))
            t.same(fx, fr[1:3], 'bf-integrate-frange-lines'); t.close(hx, full_map[1:3, circ.contains(f)].sum(1), 'bf-integrate-frange')
            h = bf.integrate(circ, frange=[400.], num=1)
            t.close(h, [full_map[1][circ.contains(f)].sum()], 'bf-integrate-band')


@case('C12', 'level metrics', 30)
def metric(t):
    for r in t.rounds(16, 60):
        g = ac.RectGrid(x_min=-.5, x_max=.5, y_min=-.5, y_max=.5, z=1, increment=.1)
        tg = ac.ImportGrid(); n = 3
        tg.pos = np.r_[np.array([[-.3, .1, .35], [-.3, .2, -.25]]), np.ones((1, n))]
        if r % 4 == 2:
            # targets close together, or of one place, on a fine grid
            near = [.006, .002, 0., .03][r // 4 % 4]
            tg.pos = np.r_[np.array([[-.3, -.3 + near, .35], [-.3, -.3, -.25]]), np.ones((1, n))]
            g = ac.RectGrid(x_min=-.31, x_max=-.28, y_min=-.31, y_max=-.29, z=1, increment=.001)
        nf = 2
        data = t.rng.uniform(1e-6, 1, (nf, g.size)); td = t.rng.uniform(.1, 1, (nf, n))
        for ma in (True, False):
            for ad in (True, False):
                keep = data.copy()
                rad = .15 if r % 2 else .5
                from acoular.tools.metrics import MetricEvaluator
                me = MetricEvaluator(data=data, target_data=td, grid=g, target_grid=tg, sector=ac.CircSector(r=rad), multi_assignment=ma, adaptive_sector_size=ad)
                inp = dict(multi=ma, adaptive=ad, rad=rad)
                d = dist(tg.pos, tg.pos); d[d == 0] = np.inf
                radii = np.minimum(rad, d.min(0) / 2) if ad else np.full(n, rad)
                want = np.empty((nf, n)); left = data.copy()
                for k in range(n):
                    i = ac.CircSector(x=tg.pos[0, k], y=tg.pos[1, k], r=radii[k]).contains(g.pos)
                    want[:, k] = left[:, i].sum(1)
                    if not ma:
                        left[:, i] = 0
                L = lambda x: 10 * np.log10(np.clip(x / 4e-10, 1e-35, None))
                with t.guard('metric-raises' + ('' if ma else '-single'), **inp):
                    for k in range(2):
                        t.close(me.get_specific_level_error(), L(want) - L(td), 'specific' + ('' if ma else '-single'), f'call {k}', atol=1e-9, **inp)
                    t.close(me.get_inverse_level_error(), L(want.sum(1)) - L(keep.sum(1)), 'inverse' + ('' if ma else '-single'), atol=1e-9, **inp)
                    t.close(me.get_overall_level_error(), L(keep.sum(1)) - L(td.sum(1)), 'overall' + ('' if ma else '-single'), atol=1e-9, **inp)
                t.same(data, keep, 'metric-alters-data', **inp)
    x = np.array([4e-10, 4e-8, 0., -1.])
    t.close(ac.L_p(x), [0, 20, -350, -350], 'L_p')
