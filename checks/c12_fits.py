"""C12: fits and observed information of inferences."""
import numpy as np

from .pie_ref import Fault, Linear, build, quiet

RULE = ('random linear and non-linear models and data, subsets of varying parameters, ranges that hold the optimum or not, with '
        'mapped bounds or not, injected failures; every evaluation of the model is recorded; non-trivial: a fit that '
        'improved the score')
ASSUMPTIONS = ['the model is deterministic and smooth']


def minimums(tier):
    return {'fits': 300, 'mapped fits': 80, 'optimum outside the range': 10, 'information matrices': 60, 'evaluations': 50000,
            'non-linear fits': 60, 'refusals': 60, 'failures injected': 8, 'tolerances compared': 30,
            'fits in sessions': 100, 'information in sessions': 25, 'with bounds mapped': 8}


def run(mon):
    from inference import pie
    from inference.pie.param import ParamError, ParamRangeError
    from inference.utils.nrmin import IterErr

    def now(inst, names):
        return np.array([float(getattr(inst, n)) for n in names])

    found = []
    for i, rng in mon.cases('linear', 480, 16000):
        with mon.case('linear', i):
            L = Linear(rng, pie)
            with quiet():
                inst = L.cls()
            order = [int(j) for j in rng.permutation(L.k)]
            vy = order[:int(rng.integers(1, L.k + 1))]
            start = np.array(L.defaults, float)
            best = L.conditional({j: start[j] for j in range(L.k) if j not in vy})
            outside = rng.random() < .2
            mapped = rng.random() < .35
            unmap = mapped and rng.random() < .3
            mapped = mapped and not unmap
            lo, hi = {}, {}
            for j in vy:
                w = 1000. if not mapped else float(10 ** rng.uniform(1.5, 2.5))
                lo[j], hi[j] = float(best[j] - w * rng.uniform(.5, 1)), float(best[j] + w * rng.uniform(.5, 1))
                if outside and j == vy[0]:
                    lo[j], hi[j] = float(best[j] + .5), float(best[j] + 2.5)
                s = float(np.clip(start[j], lo[j], hi[j]))
                if rng.random() < .1:
                    s = [lo[j], hi[j]][int(rng.integers(2))] if mapped else s
                start[j] = s
                getattr(inst, L.names[j]).vary(s, float(rng.uniform(.05, .5)), (lo[j], hi[j]))
            if mapped or unmap:
                inst.map_bounds()
            if unmap:
                inst.unmap_bounds()
            mon.note(kind=L.kind, varying=[L.names[j] for j in vy], start=start, mapped=mapped, outside=outside, best=best)
            with quiet():
                s0 = inst.score()
            mon.close(s0, L.score(start), 'score at the start', rtol=1e-9, atol=1e-9)
            L.points, L.stale = [], []
            kw = {}
            if rng.random() < .3:
                kw['tol'] = float(10 ** rng.uniform(-10, -4))
            if rng.random() < .3:
                kw['method'] = str(rng.choice(['powell', 'Powell', 'POWELL']))
            try:
                with quiet():
                    params, score = inst.fit(**kw)
            except (ParamRangeError, IterErr) as e:
                # a search that leaves the range, or does not converge, says so
                failed = True
                mon.count('fits that gave up')
                mon.check(outside and not mapped or isinstance(e, IterErr), 'a fit with its optimum far inside the range, or with '
                          'bounds mapped, does not leave the range', error=repr(e))
                if not outside and not mapped:
                    found.append(False)
            else:
                failed = False
            for p in L.points:
                for j in range(L.k):
                    if j in vy:
                        mon.check(lo[j] <= p[j] <= hi[j], 'the model is evaluated inside the ranges', param=L.names[j], value=p[j],
                                  range=(lo[j], hi[j]))
                    else:
                        mon.check(p[j] == start[j], 'parameters that do not vary stay', param=L.names[j])
            mon.check(not L.stale, 'the model is set up for the parameters it is used with', used=L.stale[:2])
            mon.check([p.name for p in inst.varying_params] == [L.names[j] for j in vy], 'parameters keep their roles')
            mon.count('evaluations', L.evaluations)
            if failed:
                continue
            mon.check(np.shape(params) == (len(vy),), 'one value for each varying parameter')
            q = start.copy()
            q[vy] = params
            mon.check(all(lo[j] <= q[j] <= hi[j] for j in vy), 'the fitted parameters are in their ranges', params=params)
            mon.close(now(inst, L.names), q, 'the parameters are left at the fit', rtol=1e-13, atol=0)
            mon.close(score, L.score(q), 'the score returned is that of the parameters returned', rtol=1e-9, atol=1e-9)
            with quiet():
                mon.close(inst.score(), score, 'the score at the current parameters', rtol=1e-12)
            gain = L.better(score, s0)
            mon.check(gain >= -1e-7 * (1 + abs(s0)), 'a fit does not make things worse', start=s0, got=score)
            mon.check(L.better(score, L.score(best)) <= 1e-8 * (1 + abs(score)), 'no better than the best')
            excess, total = L.better(L.score(best), score), L.better(L.score(best), s0)
            if not outside and not (mapped and any(start[j] in (lo[j], hi[j]) for j in vy)):
                ok = excess <= 1e-3 + 1e-4 * abs(score) + 1e-4 * total
                found.append(ok)
                if len(vy) == 1:
                    mon.check(ok, 'the optimum in one parameter is found', excess=excess, start=total)
            if outside:
                mon.count('optimum outside the range')
            if mapped:
                mon.count('mapped fits')
            mon.count('fits')
            mon.seen('kinds', (L.kind, len(vy), mapped, outside))
            if gain > 1e-6:
                mon.hit(i, len(vy))
            # fitting again from there changes nothing much
            if rng.random() < .3 and not outside and not mapped:
                try:
                    with quiet():
                        p2, s2 = inst.fit()
                    mon.check(L.better(s2, score) >= -1e-7 * (1 + abs(score)), 'a second fit is no worse')
                except (ParamRangeError, IterErr):
                    pass
            if i % 60 == 0:
                mon.sample(kind=L.kind, start=start, best=best, params=params, score=score, evaluations=L.evaluations)
    if len(found) >= 20:
        with mon.case('linear batch', mon.shard):
            mon.check(np.mean(found) > .9, 'most optima are found', fraction=np.mean(found), of=len(found))

    tighter = {True: [], False: []}
    for i, rng in mon.cases('tolerance', 240, 2400):
        with mon.case('tolerance', i):
            L = Linear(rng, pie, k=3, scale=3.)
            n = []
            passed = bool(i // mon.nshards % 2)
            for tol in (.3, 1e-13):
                with quiet():
                    inst = L.cls()
                    for m in L.names:
                        getattr(inst, m).vary(None, .1, (-1e4, 1e4))
                    L.points, L.evaluations = [], 0
                    try:
                        if passed:
                            inst.fit(tol=tol)
                        else:
                            inst.min_tol = tol
                            inst.fit()
                    except IterErr:
                        pass
                n.append(L.evaluations)
            tighter[passed].append(n[1] > n[0])
            mon.count('tolerances compared')
    for passed, more in tighter.items():
        if len(more) >= 10:
            with mon.case('tolerance batch', mon.shard):
                mon.check(np.mean(more) > .1, 'a smaller tolerance takes more work', fraction=np.mean(more), of=len(more), passed=passed)

    for i, rng in mon.cases('information', 120, 6000):
        with mon.case('information', i):
            L = Linear(rng, pie, inference='BayesianInference')
            with quiet():
                inst = L.cls()
            order = [int(j) for j in rng.permutation(L.k)]
            vy = order[:int(rng.integers(1, L.k + 1))]
            start = np.array(L.defaults, float)
            best = L.conditional({j: start[j] for j in range(L.k) if j not in vy})
            for j in vy:
                getattr(inst, L.names[j]).vary(float(best[j]), float(rng.uniform(.01, .5)), (-1e3, 1e3))
            at = best.copy()
            Q = L.Q[np.ix_(vy, vy)]
            kw = {}
            if rng.random() < .3:
                kw['dlogp'] = float(rng.uniform(.3, 3))
            if rng.random() < .3:
                kw['n'] = int(rng.integers(2, 6))
            if rng.random() < .3:
                kw['steps'] = (rng.uniform(.3, 3, len(vy)) / np.sqrt(np.diag(Q)))
                kw['steps'] = kw['steps'].tolist() if rng.random() < .5 else kw['steps']
            keep = np.array(kw.get('steps', []), float)
            err = bool(rng.random() < .5)
            if err:
                kw['err'] = True
            mon.note(varying=[L.names[j] for j in vy], **kw)
            L.stale = []
            if rng.random() < .3:
                L.fail = int(rng.integers(0, 120))
            try:
                with quiet():
                    out = inst.obs_info(**kw)
            except Fault:
                # whatever happens, the parameters return to the mode
                L.fail = None
                mon.count('failures injected')
                mon.check(np.array_equal(now(inst, L.names), at), 'the parameters are back at the mode after a failure',
                          got=now(inst, L.names), want=at)
                continue
            L.fail = None
            info = out[0] if err else out
            tol = 1e-5 * np.sqrt(np.outer(np.diag(Q), np.diag(Q)))
            mon.close(info, Q, 'the observed information of a linear model', rtol=0, atol=tol)
            if err:
                mon.check(np.shape(out[1]) in ((len(vy), len(vy)),) and np.all(np.abs(out[1]) <= 1e-2 * tol * 1e5),
                          'the uncertainties of the matrix', errors=out[1])
            mon.check(np.array_equal(now(inst, L.names), at), 'the parameters are back at the mode', got=now(inst, L.names), want=at)
            mon.check(np.array_equal(np.array(kw.get('steps', []), float), keep), 'the steps passed in are unchanged')
            with quiet():
                mon.close(inst.logp(), L.score(at), 'log posterior at the mode', rtol=1e-10, atol=1e-10)
            mon.check(not L.stale, 'the model is set up for the parameters it is used with', used=L.stale[:2])
            mon.count('information matrices')
            mon.count('evaluations', L.evaluations)
            mon.hit('i', i, len(vy))

    # whole sessions: parameters fixed, varied and mapped in turn, fits and information matrices between, on inferences side by side
    for i, rng in mon.cases('sessions', 240, 6000):
        with mon.case('sessions', i):
            L = Linear(rng, pie, inference='BayesianInference' if rng.random() < .6 else None)
            with quiet():
                insts = [L.cls() for _ in range(int(rng.integers(1, 3)))]
            states = [dict(v=np.array(L.defaults, float), vy=[], lo={}, hi={}, mapped=False) for _ in insts]
            for inst, S in zip(insts, states):
                if rng.random() < .4:
                    S['mapped'] = True
                    inst.map_bounds()
            for step in range(int(rng.integers(3, 9))):
                w = int(rng.integers(len(insts)))
                inst, S = insts[w], states[w]
                act = str(rng.choice(['vary', 'vary', 'fix', 'map', 'fit', 'fit', 'optimize', 'info', 'info', 'score']))
                if not S['vy']:
                    act = 'vary'
                mon.note(**{'step%d' % step: (w, act)})
                L.points, L.stale = [], []
                if act == 'vary':
                    j = int(rng.integers(L.k))
                    span = float(10 ** rng.uniform(2, 3))
                    S['lo'][j], S['hi'][j] = float(S['v'][j] - span), float(S['v'][j] + span * rng.uniform(.5, 1))
                    if rng.random() < .5:
                        S['v'][j] = float(S['v'][j] + rng.normal())
                    getattr(inst, L.names[j]).vary(float(S['v'][j]), float(rng.uniform(.05, .5)), (S['lo'][j], S['hi'][j]))
                    if j not in S['vy']:
                        S['vy'].append(j)
                elif act == 'fix':
                    j = S['vy'].pop(int(rng.integers(len(S['vy']))))
                    if rng.random() < .5:
                        S['v'][j] = float(S['v'][j] + rng.uniform(-1, 1))
                        getattr(inst, L.names[j]).fix(float(S['v'][j]))
                    else:
                        getattr(inst, L.names[j]).fix()
                elif act == 'map':
                    S['mapped'] = not S['mapped']
                    (inst.map_bounds if S['mapped'] else inst.unmap_bounds)()
                elif act in ('fit', 'optimize'):
                    s0 = L.score(S['v'])
                    vy = S['vy']
                    best = L.conditional({j: S['v'][j] for j in range(L.k) if j not in vy})
                    if any(not S['lo'][j] + 20 < best[j] < S['hi'][j] - 20 for j in vy):
                        continue
                    try:
                        with quiet():
                            out = inst.fit() if act == 'fit' else inst.optimize()
                    except (ParamRangeError, IterErr):
                        S['v'] = now(inst, L.names)
                        mon.count('fits that gave up')
                        continue
                    mon.check(len(out) == (2 if act == 'fit' else 3), 'what a fit returns')
                    params, score = out[:2]
                    if act == 'optimize':
                        mon.check(np.ndim(out[2]) == 0 and out[2] >= 1, 'the number of iterations is returned', got=out[2])
                    else:
                        mon.check(inst.iters >= 1, 'the number of iterations is kept')
                    q = S['v'].copy()
                    q[vy] = params
                    mon.check(np.shape(params) == (len(vy),), 'one value for each varying parameter')
                    mon.close(now(inst, L.names), q, 'the parameters are left at the fit', rtol=1e-13, atol=0)
                    mon.close(score, L.score(q), 'the score returned is that of the parameters returned', rtol=1e-9, atol=1e-9)
                    mon.check(L.better(score, s0) >= -1e-7 * (1 + abs(s0)), 'a fit does not make things worse', start=s0, got=score)
                    if len(vy) == 1:
                        mon.check(L.better(L.score(best), score) <= 1e-3 + 1e-4 * (abs(score) + abs(s0)), 'the optimum in one parameter is found',
                                  best=best, got=q)
                    for p in L.points:
                        mon.check(all(S['lo'][j] <= p[j] <= S['hi'][j] if j in vy else p[j] == S['v'][j] for j in range(L.k)),
                                  'evaluated inside the ranges, with fixed parameters where they are', at=p)
                    S['v'] = now(inst, L.names)
                    mon.count('fits in sessions')
                    mon.hit('s', i, step)
                elif act == 'info' and L.kind == 'BayesianInference':
                    vy = S['vy']
                    best = L.conditional({j: S['v'][j] for j in range(L.k) if j not in vy})
                    for j in vy:
                        if not S['lo'][j] + 50 < best[j] < S['hi'][j] - 50:
                            break
                    else:
                        for j in vy:
                            getattr(inst, L.names[j]).set_value(float(best[j]))
                        S['v'] = now(inst, L.names)
                        with quiet():
                            info = inst.obs_info()
                        Q = L.Q[np.ix_(vy, vy)]
                        mon.close(info, Q, 'the observed information of a linear model', rtol=0,
                                  atol=1e-5 * np.sqrt(np.outer(np.diag(Q), np.diag(Q))))
                        mon.check(np.array_equal(now(inst, L.names), S['v']), 'the parameters are back at the mode')
                        mon.count('information in sessions')
                        mon.count('with bounds mapped', int(S['mapped']))
                else:
                    with quiet():
                        mon.close(inst.score(), L.score(S['v']), 'the score of the current parameters', rtol=1e-9, atol=1e-9)
                mon.check(not L.stale, 'the model is set up for the parameters it is used with', used=L.stale[:2])
                for inst, S in zip(insts, states):
                    mon.check(np.array_equal(now(inst, L.names), S['v']), 'every inference has the parameters it was given',
                              got=now(inst, L.names), want=S['v'])
                    mon.check([p.name for p in inst.varying_params] == [L.names[j] for j in S['vy']], 'parameters keep their roles')
            mon.count('evaluations', L.evaluations)

    for i, rng in mon.cases('non-linear', 160, 6000):
        with mon.case('non-linear', i):
            t = np.linspace(0, 4, int(rng.integers(8, 25)))
            form = int(rng.integers(3))
            expr, truth = [('self.A*np.exp(-self.r*t)', (5., .8)), ('self.A/(1.+(t-self.r)**2)', (4., 1.7)),
                           ('self.A*np.sin(self.r*t)', (3., 1.2))][form]
            sig = .1 * np.ones(len(t))

            class S:
                A, r = truth
            y = eval(expr, dict(self=S, np=np, t=t)) + sig * rng.normal(size=len(t))
            kind = str(rng.choice(['ChisqrInference', 'MaxLikeInference', 'BayesianInference']))
            st = [truth[0] * rng.uniform(.8, 1.2), truth[1] * rng.uniform(.95, 1.05)]
            rec = []
            ns = build(pie, '''
class M(SignalModel):
    A = RealParam(%r)
    r = RealParam(%r)
    def signals(self, t):
        REC.append((float(self.A), float(self.r)))
        return %s
class D(PredictorSet):
    d = SampledGaussian(T, Y, S)
class I(%s, M, D):
    def log_prior(self):
        return -.5*(self.A/10.)**2
''' % (st[0], st[1], expr, kind), T=t, Y=y, S=sig, REC=rec)
            with quiet():
                inst = ns['I']()
                inst.A.vary(delta=.3, range=(.1, 20.))
                inst.r.vary(delta=.05, range=(.05, 10.))
                s0 = inst.score()
                if rng.random() < .5:
                    inst.map_bounds()
                params, score = inst.fit()
            sign = -1 if kind == 'ChisqrInference' else 1

            def true(A, r):
                P = type('P', (), dict(A=A, r=r))
                chi = np.sum(((y - eval(expr, dict(self=P, np=np, t=t))) / sig) ** 2)
                return chi if sign < 0 else -.5 * chi - (.5 * (A / 10.) ** 2 if kind == 'BayesianInference' else 0)
            mon.close(score, true(*params), 'the score returned is that of the parameters returned', rtol=1e-9, atol=1e-9)
            mon.check(sign * (score - s0) >= -1e-9 * (1 + abs(s0)), 'a fit does not make things worse')
            mon.check(sign * (score - true(*truth)) >= -1e-2, 'a fit is no worse than the truth', got=score, truth=true(*truth))
            mon.check((float(inst.A), float(inst.r)) == tuple(float(v) for v in params), 'the parameters are left at the fit')
            mon.check(all(.1 <= a <= 20 and .05 <= r <= 10 for a, r in rec), 'the model is evaluated inside the ranges')
            mon.count('non-linear fits')
            mon.count('evaluations', len(rec))
            mon.hit('n', i)

    for i, rng in mon.cases('refused', 40, 400):
        with mon.case('refused', i):
            L = Linear(rng, pie)
            with quiet():
                inst = L.cls()
                mon.close(inst.fit(), L.score(L.defaults), 'a fit with nothing varying is the score', rtol=1e-9, atol=1e-9)
                mon.raises(pie.InferenceError, lambda: inst.optimize(), 'nothing varies')
                inst.get_params()
                n = L.names[0]
                getattr(inst, n).vary(delta=.1, range=(-1e3, 1e3))
                mon.raises(pie.InferenceError, lambda: inst.fit(method='simplex'), 'an unknown method')
                mon.check(np.array_equal(now(inst, L.names), L.defaults), 'a refusal leaves the parameters')
                inst.min_method = None
                mon.raises(pie.InferenceError, lambda: inst.fit(), 'no method')
                inst.min_method, inst.min_tol = 'powell', None
                mon.raises(pie.InferenceError, lambda: inst.fit(), 'no tolerance')
                mon.check(np.array_equal(now(inst, L.names), L.defaults), 'a refusal leaves the parameters')
                mon.count('refusals', 4)
