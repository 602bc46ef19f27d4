"""C17: plots of gridded functions show the values where they are."""
import contextlib
import io
import re

import numpy as np

RULE = ('random grids of unequal sizes and ranges, both index orders, given and default levels, overlays, cross hairs and '
        'images, drawn without a display; the curves, images and read-outs in the figure are compared with the function; '
        'non-trivial: a figure with a contour that crosses the grid')
ASSUMPTIONS = ['the figure holds what Matplotlib was asked to draw']
CASE_CPU = 60


def minimums(tier):
    return {'figures': 250, 'contour points': 10000, 'read-outs': 2000, 'images': 60, 'curves': 20, 'grid plots': 50, 'densities plotted': 40}


def run(mon):
    import matplotlib
    matplotlib.use('agg')
    from scipy import stats
    from inference.utils import plot_bivar, pl
    from inference import pie
    from .pie_ref import Linear, quiet

    def levels_of(c):
        return np.asarray(c.levels)

    def contours(ax):
        return [c for c in ax.collections if hasattr(c, 'levels')]

    def place(x, v):
        """v in units of the index of x, which is increasing or decreasing"""
        return float(np.interp(v, x, np.arange(len(x))) if x[-1] > x[0] else np.interp(-v, -x, np.arange(len(x))))

    def edges_ok(x, y, z, p, level):
        """A vertex of a contour is on an edge of a cell, where the function interpolates to the level"""
        u, v = place(x, p[0]), place(y, p[1])
        scale = np.ptp(z) + 1e-300
        best = np.inf
        if abs(v - round(v)) < 1e-6:
            j, i = int(round(v)), min(max(int(np.floor(u)), 0), len(x) - 2)
            best = min(best, abs(z[i, j] + (z[i + 1, j] - z[i, j]) * (u - i) - level))
        if abs(u - round(u)) < 1e-6:
            i, j = int(round(u)), min(max(int(np.floor(v)), 0), len(y) - 2)
            best = min(best, abs(z[i, j] + (z[i, j + 1] - z[i, j]) * (v - j) - level))
        return best <= 1e-5 * scale, best

    def inspect(ax, x, y, z, levels, what, readout=True):
        """z[i,j] at x[i], y[j], less its maximum; levels relative to the maximum"""
        cs = contours(ax)
        mon.require(len(cs) >= 1, what + ': contours are drawn')
        c = cs[-1]
        lv = levels_of(c)
        if levels is not None:
            mon.close(lv, np.sort(levels), what + ': the levels', rtol=1e-9, atol=1e-12)
        n = 0
        paths = c.get_paths()
        for level, path in zip(lv, paths):
            crossed = z.min() < level < z.max()
            verts = path.vertices
            mon.check(bool(len(verts)) == crossed, what + ': a level within the range of the function has a contour', level=level,
                      range=(z.min(), z.max()))
            for p in verts[:200]:
                ok, err = edges_ok(x, y, z, p, level)
                mon.check(ok, what + ': the function has the level on the contour', point=p, level=level, error=err)
                n += 1
        mon.count('contour points', n)
        # the read-out
        if not readout:
            return n
        for _ in range(8):
            i, j = int(rng.integers(len(x))), int(rng.integers(len(y)))
            dx, dy = (x[1] - x[0]) * float(rng.uniform(-.4, .4)), (y[1] - y[0]) * float(rng.uniform(-.4, .4))
            if not (min(x) <= x[i] + dx <= max(x) and min(y) <= y[j] + dy <= max(y)):
                dx = dy = 0.
            s = ax.format_coord(x[i] + dx, y[j] + dy)
            v = [float(t) for t in re.findall(r'=\s*(-?[\d.]+)', s)]
            mon.check(len(v) == 3 and abs(v[2] - z[i, j]) <= 6e-5 and abs(v[0] - x[i] - dx) <= 6e-5 and abs(v[1] - y[j] - dy) <= 6e-5,
                      what + ': the read-out is the value at the nearest point', text=s, want=(x[i], y[j], z[i, j]))
            mon.count('read-outs')
        s = ax.format_coord(x[-1] + 2 * (x[1] - x[0]), y[0])
        mon.check('z' not in s, what + ': no read-out outside the grid', text=s)
        return n

    for i, rng in mon.cases('bivariate', 240, 4000):
        with mon.case('bivariate', i):
            nx, ny = [int(v) for v in rng.integers(4, 16, 2)]
            x = np.linspace(0, 10 ** rng.uniform(-1, 1), nx) + rng.normal() * 3
            y = np.linspace(0, 10 ** rng.uniform(-1, 1), ny) + rng.normal() * 3
            if rng.random() < .2:
                x = x[::-1].copy()
            if rng.random() < .2:
                y = y[::-1].copy()
            a, b = min(x) + rng.random() * np.ptp(x), min(y) + rng.random() * np.ptp(y)
            sx, sy = np.ptp(x) * rng.uniform(.08, .4), np.ptp(y) * rng.uniform(.08, .4)
            z = -.5 * ((x[:, None] - a) / sx) ** 2 - .5 * ((y - b) / sy) ** 2 + .05 * rng.normal(size=(nx, ny))
            z = z + float(rng.normal() * 100)
            given = z.copy()
            kw, levels = {}, -.5 * stats.chi2(2).ppf(stats.chi2(1).cdf(np.arange(1, 7) ** 2))
            r = rng.random()
            if r < .3:
                pl_ = rng.uniform(.05, .999, int(rng.integers(1, 5)))
                kw['plevels'] = pl_ if rng.random() < .5 else pl_.tolist()
                levels = -.5 * stats.chi2(2).ppf(pl_)
            elif r < .6:
                lv = z.max() - rng.uniform(.1, 1, int(rng.integers(1, 5))) * np.ptp(z)
                if len(set(lv)) == len(lv):
                    kw['levels'] = lv if rng.random() < .5 else lv.tolist()
                    levels = lv - z.max()
            arg = z
            if rng.random() < .4:
                kw['iorder'] = 'yx'
                arg = np.ascontiguousarray(z.T)
            elif rng.random() < .3:
                kw['iorder'] = 'xy'
            if rng.random() < .4:
                kw['gscale'] = True if rng.random() < .5 else float(rng.uniform(1.5, 20))
                if rng.random() < .2:
                    kw['gscale_bar'] = True
            if rng.random() < .3:
                kw['cross'] = (float(a), float(b))
            if rng.random() < .3:
                kw.update(xlabel='first', ylabel='second')
            if rng.random() < .2:
                kw['clabel'] = False
            if rng.random() < .3:
                kw['lw'] = 2
            if rng.random() < .2:
                kw['colors'] = 'k'
            mon.note(kw={k: v for k, v in kw.items()}, shape=(nx, ny))
            keep_arg = arg.copy()
            pl.close('all')
            pl.figure()
            wide = rng.random() < .3
            if wide:
                pl.plot([x[0] - 5, x[-1] + 5], [y[0] - 5, y[-1] + 5])
            plot_bivar(x, y, arg, **kw)
            ax = pl.gcf().axes[0]
            n = inspect(ax, x, y, z - z.max(), levels, 'bivariate')
            mon.check(np.array_equal(arg, keep_arg), "the caller's array is unchanged")
            mon.check((ax.get_xlabel(), ax.get_ylabel()) == (kw.get('xlabel', 'X'), kw.get('ylabel', 'Y')), 'labels of the axes')
            mon.check(len(ax.images) == (1 if kw.get('gscale') else 0), 'an image if asked for')
            if kw.get('gscale'):
                im = ax.images[0]
                A = np.asarray(im.get_array())
                mon.close(A, (z - z.max()).T, 'the image has rows of y', rtol=1e-12, atol=1e-12)
                mon.check(im.origin == 'lower', 'the image starts at the bottom')
                mon.close(np.array(im.get_extent(), float), [x[0], x[-1], y[0], y[-1]], 'the extent of the image', rtol=1e-12)
                f = 10. if kw['gscale'] is True else kw['gscale']
                mon.close(np.array(im.get_clim(), float), [f * np.min(levels), 0.], 'black and white levels of the image', rtol=1e-9, atol=1e-12)
                mon.count('images')
            if 'cross' in kw:
                segs = [s for c in ax.collections if not hasattr(c, 'levels') and hasattr(c, 'get_segments') for s in c.get_segments()]
                h = [s for s in segs if s[0][1] == s[1][1] == kw['cross'][1]]
                v = [s for s in segs if s[0][0] == s[1][0] == kw['cross'][0]]
                mon.check(len(h) == 1 and len(v) == 1, 'cross hairs at the point', segments=segs)
            mon.count('figures')
            if n:
                mon.hit('b', i)
            mon.raises(ValueError, lambda: plot_bivar(x, y, z, iorder='zz'), 'an unknown order')
            pl.close('all')
            if i % 60 == 0:
                mon.sample(shape=(nx, ny), kw={k: repr(v)[:60] for k, v in kw.items()}, contour_points=n)

    for i, rng in mon.cases('grid', 80, 1500):
        with mon.case('grid', i):
            L = Linear(rng, pie, k=int(rng.integers(2, 4)), inference='MaxLikeInference')
            with quiet():
                inst = L.cls()
            nd = int(rng.integers(1, 3))
            which = [int(j) for j in rng.permutation(L.k)[:nd]]
            axes = []
            for j in which:
                s = 1. / np.sqrt(L.Q[j, j])
                lo, hi, n = float(L.mode[j] - 4 * s), float(L.mode[j] + 4 * s), int(rng.integers(4, 12))
                if rng.random() < .3:
                    lo, hi = hi, lo
                getattr(inst, L.names[j]).linstep(lo, hi, n)
                axes.append(np.linspace(lo, hi, n))
            with quiet():
                res = inst.fit()
            keep = res.values.copy()
            pl.close('all')
            kw = {}
            nfig = 0
            overlay = rng.random() < .4
            if overlay or rng.random() < .5:
                pl.figure()
                nfig = 1
            if overlay:
                kw['overlay'] = True
            if nd == 1 and rng.random() < .5:
                kw['ylabel'] = 'my label'
            if nd == 2 and rng.random() < .4:
                kw['gscale'] = 5.
            with quiet():
                res.plot(**kw)
            mon.check(len(pl.get_fignums()) == (1 if overlay else nfig + 1), 'overlays use the same figure, others a new one', figures=len(pl.get_fignums()))
            ax = pl.gcf().axes[0]
            if nd == 1:
                x, y = ax.lines[0].get_data()
                mon.close(np.array(x), axes[0], 'abscissas of the curve', rtol=1e-12, atol=1e-12)
                mon.close(np.array(y), keep, 'ordinates of the curve', rtol=1e-12)
                mon.check(ax.get_xlabel() == L.names[which[0]] and ax.get_ylabel() == kw.get('ylabel', 'Log Score'), 'labels of the axes')
                mon.count('curves')
            else:
                inspect(ax, axes[0], axes[1], keep - keep.max(), None, 'grid')
                mon.check((ax.get_xlabel(), ax.get_ylabel()) == (L.names[which[0]], L.names[which[1]]), 'labels of the axes')
                mon.check(len(ax.images) == (1 if kw.get('gscale') else 0), 'an image if asked for')
                mon.hit('g', i)
            mon.check(np.array_equal(res.values, keep), 'plotting leaves the values')
            mon.count('grid plots')
            mon.count('figures')
            # more dimensions, or logarithmic steps, are refused
            if L.k > 2:
                for j, n in enumerate(L.names):
                    getattr(inst, n).linstep(L.mode[j] - 1, L.mode[j] + 1, 2)
                with quiet():
                    r3 = inst.fit()
                    mon.raises(ValueError, lambda: r3.plot(), 'three dimensions')
            # (once plotting them is implemented, what is drawn has to be right)
            with quiet():
                inst = L.cls()
            for q in range(nd):
                j = which[q]
                getattr(inst, L.names[j]).linstep(1., 2., 4)
            j = which[-1]
            getattr(inst, L.names[j]).logstep(1., 100., 3)
            with quiet():
                rl = inst.fit()
                pl.close('all')
                try:
                    rl.plot()
                except NotImplementedError:
                    mon.count('logarithmic steps refused')
                else:
                    ax = pl.gcf().axes[0]
                    if nd == 1:
                        mon.close(np.array(ax.lines[0].get_data()[0], float), [1., 10., 100.], 'abscissas of logarithmic steps', rtol=1e-9)
                    else:
                        inspect(ax, np.linspace(1., 2., 4), np.array([1., 10., 100.]), rl.values - rl.values.max(), None, 'grid with logarithmic steps')
            pl.close('all')

    from inference.grid.hpdgrid import HPDGrid1D, HPDGrid2D
    for i, rng in mon.cases('hpd', 64, 1500):
        with mon.case('hpd', i):
            pl.close('all')
            nx, ny = [int(v) for v in rng.integers(6, 25, 2)]
            log = [bool(rng.random() < .3) for _ in range(2)]
            lo, hi = rng.uniform(.1, 1, 2), rng.uniform(2, 9, 2)
            c, w = rng.uniform(.8, 2.2, 2), rng.uniform(.4, 1.5, 2)
            x, y = [np.geomspace(a, b, n) if g else np.linspace(a, b, n) for a, b, n, g in zip(lo, hi, (nx, ny), log)]
            ps = [float(v) for v in rng.uniform(.1, .95, int(rng.integers(1, 4)))]
            if rng.random() < .3:
                ps.append(ps[0])
            if i % 3 == 0:
                pl.figure()
                h = HPDGrid1D(lambda a: -.5 * ((a - c[0]) / w[0]) ** 2, lo[0], hi[0], nx, 'log' if log[0] else 'lin')
                for q in ps:
                    h.critlevel(q)
                h.plot()
                ax = pl.gcf().axes[0]
                f = np.exp(-.5 * ((x - c[0]) / w[0]) ** 2) * (x if log[0] else 1.)
                X, Y = ax.lines[0].get_data()
                mon.close(np.array(X), x, 'abscissas of a density', rtol=1e-12)
                mon.close(np.array(Y), f, 'ordinates of a density', rtol=1e-12)
                want = [np.exp(l) for l in h.levels]
                mon.check(len(ax.lines) == 1 + len(ps), 'a line for each level')
                for l, v in zip(ax.lines[1:], want):
                    X, Y = l.get_data()
                    mon.check(sorted(X) == sorted([h.xvals[0], h.xvals[-1]]) and np.allclose(Y, v, rtol=1e-12), 'lines at the levels')
                mon.count('curves')
            else:
                h = HPDGrid2D(lambda a, b: -.5 * ((a - c[0]) / w[0]) ** 2 - .5 * ((b - c[1]) / w[1]) ** 2 + .3 * (a - c[0]) * (b - c[1]) / w[0] / w[1],
                              lo[0], hi[0], nx, lo[1], hi[1], ny, *['log' if g else 'lin' for g in log])
                for q in ps:
                    h.critlevel(q)
                h.plot()
                f = np.array([[h.log_pdf(a, b) for b in y] for a in x]) + (np.log(x)[:, None] if log[0] else 0.) + (np.log(y) if log[1] else 0.)
                n = inspect(pl.gcf().axes[0], x, y, f, np.unique(h.levels), 'hpd', readout=False)
                mon.check(len(pl.get_fignums()) == 1, 'a figure of its own')
                if n:
                    mon.hit('h', i)
            mon.count('densities plotted')
            mon.count('figures')
            pl.close('all')
