"""C10: evaluation of an inference on grids of stepping parameters."""
import itertools

import numpy as np

from .pie_ref import Fault, Linear, quiet

RULE = ('random linear models, data, grids of 1 to 4 stepping parameters with or without varying ones, earlier stepping, '
        'injected failures; every evaluation of the model is recorded; non-trivial: a grid of two or more dimensions')
ASSUMPTIONS = ['the model is deterministic']


def minimums(tier):
    return {'grids': 300, 'grid points': 8000, 'profiles': 60, 'profile points': 400, 'failures injected': 40,
            'repeated grids': 60, 'grids after stepping': 60, 'evaluations': 20000,
            'profile failures injected': 10, 'grids side by side': 60, 'grids with new steps': 80, 'profiles with mapped bounds': 12}


def run(mon):
    from inference import pie
    from inference.pie.signalmodel import StopStepping
    from inference.pie.param import lin_steps, log_steps, stepping

    def axis(rng, centre, most=6):
        n = int(rng.integers(2, most + 1))
        if rng.random() < .3:
            s = float(rng.choice([-1, 1]))
            a, b = sorted((10 ** rng.uniform(-2, 1, 2)).tolist())
            b = b * 1.5
            if rng.random() < .2:
                a, b = b, a
            a, b = s * a, s * b
            g = s * np.exp(np.linspace(np.log(abs(a)), np.log(abs(b)), n))
            return 'logstep', a, b, n, g
        a = centre - abs(rng.normal()) - .1
        b = centre + abs(rng.normal()) + .1
        if rng.random() < .2:
            a, b = b, a
        if rng.random() < .15:
            a, b = int(np.floor(min(a, b))), int(np.ceil(max(a, b)))
            if rng.random() < .2:
                a, b = b, a
            return 'linstep', a, b, n, np.linspace(a, b, n)
        return 'linstep', float(a), float(b), n, np.linspace(a, b, n)

    def declare(rng, inst, L, which, most=6):
        axes = []
        for j in which:
            how, a, b, n, g = axis(rng, L.truth[j], most)
            h = getattr(inst, L.names[j])
            if rng.random() < .3:
                h.range(a, b)
                if a < b and rng.random() < .5:
                    getattr(h, how)(n=n)
                else:
                    getattr(h, how)(a, b, n)
            else:
                getattr(h, how)(a, b, n)
            axes.append((L.names[j], a, b, n, {'linstep': lin_steps, 'logstep': log_steps}[how], g))
        return axes

    def check_axes(res, axes, what):
        mon.check(res.ndim == len(axes) and tuple(res.shape[:len(axes)]) == tuple(a[3] for a in axes), what + ': shape')
        mon.check([tuple(a) for a in res.axes] == [tuple(a[:5]) for a in axes], what + ': axes', got=res.axes)
        s = str(res)
        mon.check(all(a[0] in s for a in axes), what + ': description', text=s)
        rows = s.strip().splitlines()[-len(axes):]
        for a, row in zip(axes, rows):
            mon.check(a[0] in row and ('log' if a[4] == log_steps else 'lin') in row and '%d' % a[3] in row and '%g' % a[1] in row and '%g' % a[2] in row,
                      what + ': the description names the steps of each axis', text=s, axis=a[:5])

    def at(axes, ind, L, rest):
        p = np.array(rest, float)
        for (name, *_, g), j in zip(axes, ind):
            p[L.names.index(name)] = g[j]
        return p

    def match(axes, L, p):
        """the index of the grid point, or None"""
        ind = []
        for (name, *_, g) in axes:
            d = np.abs(g - p[L.names.index(name)])
            j = int(np.argmin(d))
            if d[j] > 1e-9 * np.max(np.abs(g)):
                return None
            ind.append(j)
        return tuple(ind)

    def values(inst, L):
        return np.array([float(getattr(inst, n)) for n in L.names])

    def warm(rng, inst, L):
        """earlier use of the inference, which must not matter"""
        r = rng.random()
        if r < .3:
            for _ in range(int(rng.integers(1, 30))):
                try:
                    inst.next_step()
                except StopStepping:
                    pass
            mon.count('grids after stepping')
        elif r < .4:
            for n in inst.stepping_params:
                getattr(inst, n.name).last_step()
            mon.count('grids after stepping')
        elif r < .5:
            with quiet():
                inst.score()
        elif r < .6 and not inst.varying_params:
            L.fail = int(rng.integers(0, 12))
            try:
                with quiet():
                    inst.fit()
            except Fault:
                mon.count('failures injected')
            L.fail = None

    for i, rng in mon.cases('grid', 420, 16000):
        with mon.case('grid', i):
            L = Linear(rng, pie)
            with quiet():
                inst = L.cls()
            rest = np.array(L.defaults, float)
            for j, n in enumerate(L.names):
                if rng.random() < .3:
                    rest[j] = float(rng.normal())
                    setattr(inst, n, rest[j])
            which = [int(j) for j in rng.permutation(L.k)[:int(rng.integers(1, L.k + 1))]]
            axes = declare(rng, inst, L, which, {1: 300, 2: 25, 3: 9}.get(len(which), 6) if rng.random() < .3 else 6)
            shape = tuple(a[3] for a in axes)
            mon.note(axes=[a[:5] for a in axes], kind=L.kind)
            other = None
            if rng.random() < .3:
                # another inference of the same kind, at work on a grid of its own
                with quiet():
                    other = L.cls()
                oaxes = declare(rng, other, L, [int(j) for j in rng.permutation(L.k)[:int(rng.integers(1, L.k + 1))]])
                for _ in range(int(rng.integers(1, 9))):
                    try:
                        other.next_step()
                    except StopStepping:
                        pass
                onums, ovalues = other.step_nums(), values(other, L)
            warm(rng, inst, L)
            L.points, L.stale, L.uses = [], [], 0
            kw = {}
            if rng.random() < .3:
                kw['nlog'] = int(rng.integers(1, 5))
            if rng.random() < .3:
                kw['vargrid'] = True
            with quiet():
                res = inst.fit(**kw) if rng.random() < .7 else inst.do_grid(**kw)
            check_axes(res, axes, 'grid')
            mon.check(res.values.shape == shape, 'shape of the values')
            # the points visited, from the recorded evaluations
            seen = [match(axes, L, p) for p in L.points]
            mon.check(None not in seen, 'only grid points are evaluated', points=[p for p, s in zip(L.points, seen) if s is None][:3])
            mon.check(sorted(s for s in seen if s) == sorted(itertools.product(*map(range, shape))), 'every point is evaluated once',
                      visited=len(seen), of=int(np.prod(shape)))
            for a, b in zip(seen, seen[1:]):
                if a and b:
                    mon.check(sum(abs(u - v) for u, v in zip(a, b)) == 1, 'one step at a time', a=a, b=b)
            mon.check(not L.stale, 'the model is set up for the parameters it is used with', used=L.stale[:2])
            for ind in itertools.product(*map(range, shape)):
                p = at(axes, ind, L, rest)
                want = L.score(p)
                mon.close(res.values[ind], want, 'the value is the score there', rtol=1e-8, atol=1e-8 * (1 + abs(L.score(L.mode))),
                          ind=ind)
            now = values(inst, L)
            mon.close(now, at(axes, [0] * len(axes), L, rest), 'the parameters are at the first point afterwards', rtol=1e-12,
                      atol=1e-12)
            mon.check(tuple(inst.step_nums()) == (0,) * len(axes), 'step numbers afterwards')
            mon.check([p.name for p in inst.stepping_params] == [a[0] for a in axes], 'the parameters still step afterwards')
            with quiet():
                mon.close(inst.score(), res.values[(0,) * len(axes)], 'score at the first point', rtol=1e-8)
            if other is not None:
                mon.check(other.step_nums() == onums and np.array_equal(values(other, L), ovalues), 'another inference stays where it was')
                with quiet():
                    ores = other.fit()
                check_axes(ores, oaxes, 'grid of another inference')
                for ind in itertools.product(*(range(a[3]) for a in oaxes)):
                    mon.close(ores.values[ind], L.score(at(oaxes, ind, L, L.defaults)), 'the value is the score there', rtol=1e-8,
                              atol=1e-8 * (1 + abs(L.score(L.mode))))
                mon.count('grids side by side')
            mon.count('grids')
            mon.count('grid points', int(np.prod(shape)))
            mon.count('evaluations', L.evaluations)
            mon.seen('shapes', shape)
            if len(shape) > 1:
                mon.hit(i, shape)
            if rng.random() < .3:
                keep = res.values.copy()
                with quiet():
                    again = inst.fit()
                mon.check(np.array_equal(res.values, keep), 'a later grid leaves the first alone')
                mon.close(again.values, keep, 'the same grid again', rtol=1e-12)
                mon.count('repeated grids')
            if rng.random() < .3:
                # a failure part of the way, and again
                L.fail = int(rng.integers(0, max(1, np.prod(shape))))
                try:
                    with quiet():
                        inst.fit()
                except Fault:
                    mon.count('failures injected')
                L.fail = None
                now = values(inst, L)
                for j, n in enumerate(L.names):
                    if n not in [a[0] for a in axes]:
                        mon.check(now[j] == rest[j], 'fixed parameters after a failure', param=n, got=now[j], want=rest[j])
                mon.check([p.name for p in inst.stepping_params] == [a[0] for a in axes] and not inst.varying_params,
                          'the parameters still step after a failure')
                with quiet():
                    again = inst.fit()
                mon.close(again.values, res.values, 'the grid after a failure', rtol=1e-12)
            # new steps for one of the parameters, from within the grid: the order of the axes stays
            if rng.random() < .4:
                for _ in range(int(rng.integers(0, 5))):
                    try:
                        inst.next_step()
                    except StopStepping:
                        pass
                j = int(rng.integers(len(axes)))
                name, a, b, n, kind, g = axes[j]
                n2 = int(rng.integers(2, 8))
                c = a + (b - a) * float(rng.uniform(.3, .9))
                if kind == lin_steps:
                    getattr(inst, name).linstep(a, c, n2)
                    g2 = np.linspace(a, c, n2)
                else:
                    getattr(inst, name).logstep(a, c, n2)
                    g2 = np.sign(a) * np.exp(np.linspace(np.log(abs(a)), np.log(abs(c)), n2))
                before = [tuple(x) for x in res.axes]
                axes = axes[:j] + [(name, a, c, n2, kind, g2)] + axes[j + 1:]
                L.points = []
                with quiet():
                    r2 = inst.fit()
                check_axes(r2, axes, 'changed grid')
                shape = tuple(x[3] for x in axes)
                mon.check(sorted(match(axes, L, p) or () for p in L.points) == sorted(itertools.product(*map(range, shape))),
                          'every point of the changed grid is evaluated once')
                for ind in itertools.product(*map(range, shape)):
                    mon.close(r2.values[ind], L.score(at(axes, ind, L, rest)), 'the value is the score there', rtol=1e-8,
                              atol=1e-8 * (1 + abs(L.score(L.mode))))
                mon.check([tuple(x) for x in res.axes] == before, 'an earlier grid keeps its axes')
                mon.count('grids with new steps')
            # fixing a stepping parameter takes away its axis
            if len(axes) > 1 and rng.random() < .4:
                j = int(rng.integers(len(axes)))
                name, *_, g = axes[j]
                v = float(rng.uniform(min(g), max(g)))
                setattr(inst, name, v)
                rest[L.names.index(name)] = v
                sub = [a for a in axes if a[0] != name]
                with quiet():
                    r2 = inst.fit()
                check_axes(r2, sub, 'smaller grid')
                for ind in itertools.product(*(range(a[3]) for a in sub)):
                    mon.close(r2.values[ind], L.score(at(sub, ind, L, rest)), 'the value is the score there', rtol=1e-8, atol=1e-8)
            if i % 60 == 0:
                mon.sample(axes=[a[:5] for a in axes], evaluations=L.evaluations, first=float(res.values.ravel()[0]))

    for i, rng in mon.cases('profile', 120, 3000):
        with mon.case('profile', i):
            L = Linear(rng, pie, k=int(rng.integers(2, 5)))
            with quiet():
                inst = L.cls()
            order = [int(j) for j in rng.permutation(L.k)]
            ns = 1 if L.k == 2 else int(rng.integers(1, L.k if L.k < 4 or rng.random() < .3 else 3))
            nv = int(rng.integers(1, L.k - ns + 1))
            st, vy, fx = order[:ns], order[ns:ns + nv], order[ns + nv:]
            axes = declare(rng, inst, L, st, 40 if ns == 1 and nv == 1 and rng.random() < .4 else 6 if ns < 3 else 3)
            # a wide range, so that the optimum is inside
            for j in vy:
                getattr(inst, L.names[j]).vary(delta=float(rng.uniform(.05, .5)), range=(-1000., 1000.))
            mapped = rng.random() < .25
            if mapped:
                inst.map_bounds()
                mon.count('profiles with mapped bounds')
            rest = np.array(L.defaults, float)
            shape = tuple(a[3] for a in axes)
            mon.note(axes=[a[:5] for a in axes], kind=L.kind, mapped=mapped, varying=[L.names[j] for j in vy])
            warm(rng, inst, L)
            L.stale = []
            vg = bool(rng.random() < .6)
            kw = dict(vargrid=True) if vg else {}
            if rng.random() < .3:
                kw['tol'] = 1e-9
            if rng.random() < .3:
                kw['method'] = 'powell'
            with quiet():
                out = inst.fit(**kw)
            res = out[0] if vg else out
            check_axes(res, axes, 'profile')
            mon.check(not L.stale, 'the model is set up for the parameters it is used with', used=L.stale[:2])
            bad = 0
            for ind in itertools.product(*map(range, shape)):
                p = at(axes, ind, L, rest)
                best = L.conditional({j: p[j] for j in range(L.k) if j not in vy})
                want = L.score(best)
                got = res.values[ind]
                mon.check(L.better(got, want) <= 1e-7 * (1 + abs(want)), 'no better than the best', got=got, want=want, ind=ind)
                if L.better(want, got) > 1e-3 * (1 + abs(want)):
                    bad += 1
                if vg:
                    v = np.atleast_1d(out[1].values[ind])
                    mon.check(v.shape == (len(vy),), 'the fitted parameters at a point')
                    q = p.copy()
                    q[vy] = v
                    mon.close(L.score(q), got, 'the value is the score at the fitted parameters', rtol=1e-8, atol=1e-8, ind=ind)
                mon.count('profile points')
            mon.check(bad <= .02 * np.prod(shape), 'the profile is that of the best fits', bad=bad, of=int(np.prod(shape)))
            ext = np.max(res.values) if L.maximize else np.min(res.values)
            mon.check(res.opt_val == ext and res.values[res.opt_ind] == ext, 'the best point of a profile', got=res.opt_val, want=ext)
            if vg:
                check_axes(out[1], axes, 'parameter grid')
                mon.check(res.values[out[1].opt_ind] == ext, 'the best point of the parameter grid')
            mon.check(tuple(inst.step_nums()) == (0,) * len(axes), 'step numbers afterwards')
            mon.check([p.name for p in inst.varying_params] == [L.names[j] for j in vy] and
                      [p.name for p in inst.stepping_params] == [a[0] for a in axes], 'parameters keep their roles')
            now = values(inst, L)
            for j in fx:
                mon.check(now[j] == rest[j], 'fixed parameters after a profile', param=L.names[j], got=now[j], want=rest[j])
            signs = np.sign(res.values).ravel()
            mon.seen('sense, signs of the scores', (L.maximize, bool((signs > 0).any()), bool((signs < 0).any())))
            mon.count('profiles')
            if rng.random() < .3:
                L.fail = int(rng.integers(0, 60 * max(1, np.prod(shape))))
                try:
                    with quiet():
                        inst.fit()
                except Fault:
                    mon.count('profile failures injected')
                L.fail = None
                now = values(inst, L)
                for j in fx:
                    mon.check(now[j] == rest[j], 'fixed parameters after a failure', param=L.names[j], got=now[j], want=rest[j])
                mon.check([p.name for p in inst.varying_params] == [L.names[j] for j in vy] and
                          [p.name for p in inst.stepping_params] == [a[0] for a in axes], 'parameters keep their roles after a failure')
            mon.count('evaluations', L.evaluations)
            if len(shape) > 1:
                mon.hit('p', i, shape)
