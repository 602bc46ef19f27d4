"""C08: the compiled routines stay inside their arrays, whatever they are given."""
import contextlib
import io
import threading

import numpy as np

MODES = ['asan', 'bounds']
RULE = ('hostile calls of every compiled routine and of the classes built on them: counts from minus a few to thousands, '
        'empty, one-element, mismatched, strided, reversed, read-only, integer and list arguments, NaN and infinities, '
        'budgets and workspaces at and below their limits, callbacks that raise, return the wrong kind of thing, write to '
        'their argument, or call the routine again (also from several threads); run with address and undefined-behaviour '
        'sanitizers and again with Fortran bounds checking; non-trivial: the call returned a value')
ASSUMPTIONS = ['integer arguments fit 32 bits and workspaces fit in memory', 'a call may return or raise anything: what it '
               'may not do is touch memory outside its arrays, end the process or alter its input arrays']
CASE_CPU = 300
SHARDS = 4
BUDGET = {'quick': 150, 'thorough': 700}


def minimums(tier):
    return {'calls returned': 2000, 'calls refused': 500, 'callbacks observed': 20000, 'nested calls': 60,
            'callback faults': 150, 'threads': 20, 'routines': 18}


def arr(rng, n, lo=-3., hi=3., special=.1):
    """An array of about n numbers in a hostile layout"""
    n = max(int(n), 0)
    a = rng.uniform(lo, hi, n)
    if n and rng.random() < special:
        a[int(rng.integers(n))] = rng.choice([np.nan, np.inf, -np.inf, 0., 1e308, -1e308, 5e-324])
    u = int(rng.integers(8))
    if u == 0:
        b = np.full(3 * n + 2, 7.)[:3 * n:3][:n]
        b[:] = a
        return b
    if u == 1:
        return a[::-1]
    if u == 2:
        a.flags.writeable = False
        return a
    if u == 3:
        return a.tolist()
    if u == 4:
        return np.nan_to_num(a, posinf=9, neginf=-9).clip(-1e9, 1e9).astype(int)
    if u == 5:
        return a.astype(np.float32)
    return a


def snap(x):
    return np.array(x, copy=True) if isinstance(x, np.ndarray) else (list(x) if isinstance(x, list) else None)


def same(x, s):
    if isinstance(x, np.ndarray):
        return x.shape == s.shape and np.array_equal(x, s, equal_nan=x.dtype.kind == 'f')
    return s is None or repr(x) == repr(s)


def run(mon):
    from inference.count import onoff as oo
    from inference.count.onoff import OnOff
    from inference.grid.hpd import HPD1D, HPD2D
    from inference.grid import hpd
    from inference.grid.hpdgrid import HPDGrid1D
    from inference.integrate.adapt import adapt
    from inference.integrate.adapt_vec import adapt_vec
    from inference.integrate import adapt as adapt_mod, adapt_vec as vec_mod
    from inference.deriv.obsinfo import dllsteps, obsinfo

    class Fault(Exception):
        pass

    def call(name, fn, *args, keep=()):
        """One call: it may return or raise; arrays named in keep stay as they are"""
        before = [snap(a) for a in keep]
        mon.note(routine=name)
        mon.seen('routines', name)
        r = None
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                r = fn(*args)
        except Exception as e:
            mon.count('calls refused')
            mon.seen('ways refused', name + ' ' + type(e).__name__)
        else:
            mon.count('calls returned')
            mon.hit(name, [repr(snap(a))[:80] for a in args])
            for x in r if isinstance(r, tuple) else (r,):
                if isinstance(x, np.ndarray):
                    float(np.nansum(x))          # touch all of it
        for a, b in zip(keep, before):
            mon.check(same(a, b), 'input arrays are left as they were', routine=name, before=b, after=a)
        return r

    def cts(rng):
        return int(rng.choice([-5, -2, -1, 0, 1, 2, 31, 32, 33, 34, 100, 1000, 5000, rng.integers(0, 300)]))

    def val(rng):
        u = rng.random()
        return float(rng.choice([0., -1., np.nan, np.inf, -np.inf, 1e-300, 1e300])) if u < .25 else float(10 ** rng.uniform(-6, 6))

    def tme(rng):
        return float(10 ** rng.uniform(-3, 3)) if rng.random() < .8 else val(rng)

    for i, rng in mon.cases('counts', 900, 12000):
        n_on, n_off, t_on, t_off = cts(rng), cts(rng), tme(rng), tme(rng)
        s, cut = val(rng), float(rng.choice([0., 1e-5, .5, 1., -1., np.nan]))
        with mon.case('counts', i, data=(n_on, t_on, n_off, t_off), s=s, cut=cut):
            c = call('sigctp', oo.sigctp, n_on, t_on, n_off, t_off)
            if c is not None:
                call('psigc', oo.psigc, s, t_on, c, keep=(c,))
                call('psigc', lambda: oo.psigc(s, t_on, c, n_on=n_on + int(rng.integers(-2, 3))), keep=(c,))
            off = call('slml_offset', oo.slml_offset, n_on, t_on, n_off, t_off)
            off = 0. if off is None else off
            call('slmlike', oo.slmlike, s, n_on, t_on, n_off, t_off, off, cut)
            call('slmliked', oo.slmliked, s, n_on, t_on, n_off, t_off, off, cut)
            nc = int(rng.choice([0, 1, 2, 3, 17]))
            wrong = int(rng.choice([0, 0, 0, 1, -1]))
            ons = np.array([cts(rng) for _ in range(nc)], int)
            offs = np.array([cts(rng) for _ in range(max(nc + wrong, 0))], int)
            if rng.random() < .3:
                ons, offs = ons.astype(np.int32), offs.astype(np.int32)
            sv = arr(rng, nc + int(rng.choice([0, 0, 0, 1, -1])), 0, 50)
            offset = call('vslml_offset', oo.vslml_offset, ons, t_on, offs, t_off, keep=(ons, offs))
            call('vslmlike', oo.vslmlike, sv, ons, t_on, offs, t_off,
                 offset if offset is not None else np.zeros(nc), cut, keep=(sv, ons, offs))
            call('vslmlike', lambda: oo.vslmlike(sv, ons, t_on, offs, t_off, np.zeros(nc), cut,
                                                 nc=nc + int(rng.integers(-1, 3))), keep=(sv, ons, offs))
            o = call('OnOff', OnOff, n_on, t_on, n_off, t_off, cut)
            if o is not None:
                for _ in range(3):
                    x = s if rng.random() < .4 else arr(rng, rng.integers(0, 6), 0, 20)
                    call('OnOff.siglml', o.siglml, x, keep=(x,))
                    call('OnOff.sigmp', o.sigmp, x, keep=(x,))
                    call('OnOff.pnsig', o.pnsig, *([int(rng.integers(-3, max(n_on, 0) + 3))] if rng.random() < .7 else []))

    for i, rng in mon.cases('grids', 500, 8000):
        nx, ny = [int(rng.choice([0, 1, 2, 3, 4, 9, 33, 120])) for _ in range(2)]
        with mon.case('grids', i, nx=nx, ny=ny):
            y = arr(rng, nx, -4, 4)
            x = arr(rng, nx + int(rng.choice([0, 0, 0, 1, -1])), 0, 1, 0)
            lev = float(rng.choice([0., -1., np.nan, np.inf, -np.inf, .5, rng.normal()]))
            nb = int(rng.choice([0, 1, 2, 3, 10, 200, -1]))
            call('xvalues', hpd.xvalues, x, y, lev, nb, keep=(x, y))
            call('qgt1d', hpd.qgt1d, y, lev, keep=(y,))
            call('qgt1d', lambda: hpd.qgt1d(y, lev, nx=nx + int(rng.integers(-2, 3))), keep=(y,))
            z = rng.normal(size=(nx, ny))
            z = [z, np.asfortranarray(z), z[::-1, ::2], z.T, z.astype(np.float32)][int(rng.integers(5))]
            call('qgt2d', hpd.qgt2d, z, lev, keep=(z,))
            # many crossings, through the classes
            saw = np.where(np.arange(nx) % 2 == 0, 0., -3.) + .01 * rng.normal(size=nx)
            for v in (saw, np.asarray(y, float)):
                step = str(rng.choice(['lin', 'log']))
                h = call('HPD1D', lambda: HPD1D(v, 1., 3., step), keep=(v,))
                if h is not None:
                    for p in (.3, .95, 0., 1., -1., np.nan):
                        got = call('HPD1D.critlevel', h.critlevel, p, keep=(v,))
                    for r in (.5, .05, 1., 2., np.nan):
                        call('HPD1D.fracgt', h.fracgt, np.log(r), keep=(v,))
            h = call('HPD2D', lambda: HPD2D(z, 1., 2., 1., 3.), keep=(z,))
            if h is not None:
                call('HPD2D.critlevel', h.critlevel, .6, keep=(z,))

    def callback(rng, nd, fault, reenter):
        """A function of an array, that faults in the given way at some call"""
        c = rng.normal(size=nd)
        when = int(rng.choice([0, 1, 2, 10, 60]))
        state = [0]

        def f(x, *more):
            state[0] += 1
            mon.count('callbacks observed')
            v = float(np.exp(-np.sum((x - c) ** 2)))
            if state[0] == when + 1:
                if fault:
                    mon.count('callback faults')
                if fault == 'raise':
                    raise Fault
                if fault == 'none':
                    return None
                if fault == 'string':
                    return 'x'
                if fault == 'array':
                    return np.zeros(5)
                if fault == 'empty':
                    return ()
                if fault == 'nan':
                    return float('nan')
                if fault == 'inf':
                    return float('inf')
                if fault == 'write':
                    with contextlib.suppress(ValueError):
                        x[...] = 1e9
                if fault == 'keep':
                    state.append(x)
                if fault == 'reenter':
                    mon.count('nested calls')
                    with contextlib.suppress(Exception):
                        reenter()
                if fault == 'arguments':
                    return f(x, 1, 2, 3, 4)
            return v
        return f

    FAULTS = [None, None, 'raise', 'none', 'string', 'array', 'empty', 'nan', 'inf', 'write', 'keep', 'reenter', 'reenter']

    def dims(rng, lo, hi):
        return int(rng.integers(lo, hi + 1)) if rng.random() < .85 else int(rng.choice([0, 1, 15, 16, 20, 21]))

    def one(rng, what, inner=False):
        fault = FAULTS[int(rng.integers(len(FAULTS)))] if not inner else None
        sub = np.random.default_rng(int(rng.integers(1 << 30)))

        def reenter():
            one(sub, what, True)
        mon.note(fault=fault)
        if what == 'adapt':
            nd = dims(rng, 2, 6)
            lo, hi = arr(rng, nd, -1, 0, .03), arr(rng, nd + int(rng.choice([0] * 9 + [1, -1])), 1, 2, .03)
            mf = int(rng.choice([0, 1, 2, 5, 20, -3])) if nd < 10 else 1
            wf = float(rng.choice([1, 1, .01, .1, .5, 0, 2.]))
            eps = float(rng.choice([1e-2, 1e-6, 0., np.nan, -1.]))
            call('adapt', adapt, callback(rng, nd, fault, reenter), lo, hi, eps, mf, wf, keep=(lo, hi))
        elif what == 'vec':
            nd = dims(rng, 2, 4)
            nf = int(rng.choice([0, 1, 2, 5, 30, -1]))
            g = callback(rng, nd, fault, reenter)
            sloppy = rng.random() < .15

            def vf(x, r):
                v = g(x)
                if sloppy and mon.counts.get('callbacks observed', 0) % 7 == 0:
                    return v
                r[:] = v
            lo, hi = arr(rng, nd, -1, 0, .03), arr(rng, nd + int(rng.choice([0] * 9 + [1, -1])), 1, 2, .03)
            key = int(rng.choice([0, 0, 1, 2, 3, 4, 5, -1]))
            mx = int(rng.choice([0, 10, 100, 381, 500, 2000, 4000, -100, 194, 195, 196]))
            mn = int(rng.choice([0, 0, 100, 5000, -50]))
            call('adapt_vec', adapt_vec, nf, vf, lo, hi, float(rng.choice([1e-3, 1e-8, 0., -1.])), 0., key, mn, mx,
                 keep=(lo, hi))
        elif what == 'info':
            nd = int(rng.choice([0, 1, 1, 2, 3, 6]))
            g = callback(rng, nd, fault, reenter)
            f = (lambda x: np.log(g(x))) if fault in (None, 'write', 'keep') else g
            mu = arr(rng, nd, -1, 1, .02)
            d = arr(rng, nd + int(rng.choice([0] * 9 + [1, -1])), .1, .5, .05)
            ni = int(rng.choice([0, 1, 2, 5, 12, -1, -7]))
            call('obsinfo', obsinfo, f, mu, d, [None, 0., np.nan][int(rng.integers(3))], ni, keep=(mu, d))
        else:
            nd = int(rng.choice([0, 1, 1, 2, 3, 6]))
            g = callback(rng, nd, fault, reenter)
            f = (lambda x: np.log(g(x))) if fault in (None, 'write', 'keep') else g
            mu = arr(rng, nd, -1, 1, .02)
            d = arr(rng, nd + int(rng.choice([0] * 9 + [1, -1])), .1, .5, .05)
            call('dllsteps', dllsteps, f, mu, d, float(rng.choice([1., .1, 0., -1., np.nan])),
                 [None, 0., 1e3][int(rng.integers(3))], int(rng.choice([0, 1, 5, 20, -1])),
                 float(rng.choice([.01, 0., 1e-8])), keep=(mu, d))

    for what, n in (('adapt', 250), ('vec', 250), ('info', 250), ('steps', 250)):
        for i, rng in mon.cases(what, n, 12 * n):
            with mon.case(what, i):
                with np.errstate(all='ignore'):
                    one(rng, what)

    # two or more threads inside the routines at once: their callbacks run Python code, so the threads take turns there
    for i, rng in mon.cases('threads', 12, 120):
        with mon.case('threads', i):
            import sys
            old = sys.getswitchinterval()
            sys.setswitchinterval(1e-5)
            try:
                want, got = {}, {}

                def job(k, into):
                    r = np.random.default_rng([int(i), k])
                    nd = 2 + k % 3
                    c = r.uniform(-.5, .5, nd)
                    seen = []

                    def f(x):
                        seen.append(tuple(x))
                        return float(np.exp(-np.sum((x - c) ** 2)))

                    def g(x, v):
                        v[:] = f(x)
                    try:
                        if k % 4 == 0:
                            res = adapt(f, [-1.] * nd, [1.] * nd, 1e-4, 60)
                        elif k % 4 == 1:
                            res = adapt_vec(2, g, [-1.] * nd, [1.] * nd, 1e-4, maxpts=6000)
                        elif k % 4 == 2:
                            res = obsinfo(lambda x: np.log(f(x)), c, np.full(nd, .3), niter=4)
                        else:
                            res = dllsteps(lambda x: np.log(f(x)), c, np.full(nd, .3))
                    except Exception as e:
                        res = repr(e)
                    mon.count('callbacks observed', len(seen))
                    into[k] = (repr(res), len(seen))
                with contextlib.redirect_stdout(io.StringIO()):
                    for k in range(4):
                        job(k, want)
                    ts = [threading.Thread(target=job, args=(k, got)) for k in range(4)]
                    [t.start() for t in ts]
                    [t.join() for t in ts]
                mon.count('threads', len(ts))
                for k in range(4):
                    mon.check(want[k] == got.get(k), 'the same answer when other threads integrate', alone=want[k],
                              together=got.get(k))
            finally:
                sys.setswitchinterval(old)
