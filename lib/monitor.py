"""The monitor object that a check's workload reports to, one per worker process.

Three-valued: violations carry a witness; 'inconclusive' is what the driver reports when a worker dies for a
reason that is not the code's, or when counters say that the deciding oracle was not reached."""
import json
import os
import random
import signal
import sys
import time
import traceback
import hashlib
from contextlib import contextmanager

import numpy as np


class StopRun(Exception):
    """Enough violations seen, or the soft deadline has passed."""


class Violated(Exception):
    """Raised by Monitor.require to leave a case at once."""


def jsonable(x, depth=0):
    if depth > 6:
        return repr(x)[:200]
    if isinstance(x, (str, int, bool)) or x is None:
        return x
    if isinstance(x, float):
        return x if x == x and abs(x) != float('inf') else repr(x)
    if isinstance(x, np.generic):
        return jsonable(x.item(), depth + 1)
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist(), depth + 1) if x.size <= 64 else {
            'shape': list(x.shape), 'head': jsonable(x.ravel()[:16].tolist())}
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in list(x.items())[:200]}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v, depth + 1) for v in list(x)[:200]]
    return repr(x)[:300]


def _in_use():
    """Bytes that the C library's allocator has given out"""
    import ctypes
    names = ['arena', 'ordblks', 'smblks', 'hblks', 'hblkhd', 'usmblks', 'fsmblks', 'uordblks', 'fordblks', 'keepcost']
    info = type('Info', (ctypes.Structure,), {'_fields_': [(n, ctypes.c_size_t) for n in names]})
    f = ctypes.CDLL(None).mallinfo2
    f.restype = info
    r = f()
    return r.uordblks + r.hblkhd


class Monitor:
    def __init__(self, prop, tier, seed, shard, nshards, outdir, deadline, case_cpu=120, only=None):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.shard, self.nshards = shard, nshards
        self.outdir = outdir
        self.deadline = deadline
        self.case_cpu = case_cpu
        self.only = only                       # (kind, index) when replaying
        self.evaluations = 0
        self.nontrivial = set()
        self.counts = {}
        self.distinct = {}
        self.samples = []
        self.violations = []
        self.assertions = 0
        self.cut_short = False
        self._cur = None
        self._notes = None
        self._cur_path = os.path.join(outdir, 'current.%d' % shard)
        self._cur_fd = os.open(self._cur_path, os.O_RDWR | os.O_CREAT, 0o600)
        self.quick = tier == 'quick'
        self.mode = os.environ.get('VP_MODE', 'plain')

    # -- workload ---------------------------------------------------------------------------------------------
    def rng(self, kind, index):
        h = hashlib.sha256(('%s|%s|%d|%d' % (self.prop, kind, self.seed, index)).encode()).digest()
        return np.random.Generator(np.random.PCG64(int.from_bytes(h[:16], 'little')))

    def cases(self, kind, n_quick, n_thorough=None):
        """Indices of the cases of this kind that fall to this worker, each with its own generator."""
        n = n_quick if self.quick else (n_thorough or 8 * n_quick)
        for i in range(n):
            if self.only is not None:
                if self.only != (kind, i):
                    continue
            elif i % self.nshards != self.shard:
                continue
            if time.time() > self.deadline and self.only is None:
                self.cut_short = True
                return
            if len(self.violations) >= 5:
                raise StopRun
            yield i, self.rng(kind, i)

    @contextmanager
    def case(self, kind, index, /, **desc):
        """One execution.  An exception that leaves the block is a violation: workloads only make calls that the
        property says succeed, or catch what it says is raised."""
        self._cur = {'kind': kind, 'index': index, 'desc': jsonable(desc)}
        self._notes = {}
        self._nviol = 0
        self._write_current()
        self.evaluations += 1
        signal.setitimer(signal.ITIMER_VIRTUAL, self.case_cpu)
        try:
            yield self
        except (StopRun, KeyboardInterrupt):
            raise
        except Violated:
            pass
        except BaseException as e:          # SystemExit from the code under test too
            tb = traceback.format_exc()
            self.violate('unexpected %s' % type(e).__name__, detail='%s' % e, trace=tb[-3000:])
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            os.ftruncate(self._cur_fd, 0)

    def _write_current(self):
        data = json.dumps(self._cur).encode()
        os.ftruncate(self._cur_fd, 0)
        os.pwrite(self._cur_fd, data, 0)

    def note(self, **kw):
        """What the case is doing, for the witness."""
        self._notes.update(kw)
        if self.mode != 'plain':
            self._cur['notes'] = jsonable(self._notes)
            self._write_current()

    # -- observations -----------------------------------------------------------------------------------------
    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def seen(self, what, key):
        self.distinct.setdefault(what, set()).add(key if isinstance(key, (str, int)) else repr(key))

    def hit(self, *key):
        """This case was non-trivial, and key tells it from others."""
        self.nontrivial.add(hashlib.sha1(repr(key).encode()).hexdigest()[:16])

    def sample(self, **kw):
        if len(self.samples) < 4:
            self.samples.append(jsonable(dict(self._cur or {}, **kw)))

    # -- verdicts ---------------------------------------------------------------------------------------------
    def check(self, ok, what, /, **detail):
        self.assertions += 1
        if not ok:
            self.violate(what, **detail)
        return bool(ok)

    def require(self, ok, what, /, **detail):
        if not self.check(ok, what, **detail):
            raise Violated

    def close(self, got, want, what, rtol=1e-9, atol=0.0, **detail):
        """got and want (scalars or arrays) agree; a NaN agrees with nothing."""
        self.assertions += 1
        g, w = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
        if g.shape != w.shape:
            return self.check(False, what + ' (shape)', got=got, want=want, **detail)
        with np.errstate(all='ignore'):
            ok = (np.abs(g - w) <= atol + rtol * np.abs(w)) | (g == w)
        if not np.all(ok):
            if g.shape:
                bad = np.argwhere(~ok)[0].tolist()
                detail = dict(detail, index=bad, got=g[tuple(bad)], want=w[tuple(bad)], nbad=int(np.sum(~ok)))
            else:
                detail = dict(detail, got=float(g), want=float(w))
            self.violate(what, **detail)
            return False
        return True

    def gives_back(self, fn, what, **detail):
        """Memory in use does not grow with the number of calls of fn (by 2000 bytes a call, the least of three trials)."""
        import gc
        for _ in range(4):
            fn()
        best = float('inf')
        for _ in range(3):
            gc.collect()
            before = _in_use()
            for _ in range(40):
                fn()
            gc.collect()
            best = min(best, (_in_use() - before) / 40)
            if best < 500:
                break
        return self.check(best < 2000, what, bytes_per_call=best, **detail)

    def raises(self, exc, fn, what, **detail):
        """fn() must raise exc."""
        self.assertions += 1
        try:
            r = fn()
        except exc:
            return True
        except BaseException as e:
            self.violate(what + ': wrong exception', raised=repr(e), trace=traceback.format_exc()[-2000:], **detail)
            return False
        self.violate(what + ': nothing raised', returned=r, **detail)
        return False

    def violate(self, what, /, **detail):
        self._nviol = getattr(self, '_nviol', 0) + 1
        if self._nviol > 3:
            return
        v = dict(self._cur or {}, what=what, notes=jsonable(self._notes or {}), detail=jsonable(detail),
                 prop=self.prop, seed=self.seed, tier=self.tier)
        self.violations.append(v)
        if len(self.violations) >= 8:
            raise StopRun

    def dump(self, status):
        out = dict(status=status, evaluations=self.evaluations, assertions=self.assertions,
                   nontrivial=sorted(self.nontrivial), counts=self.counts,
                   distinct={k: sorted(map(str, v))[:20000] for k, v in self.distinct.items()},
                   samples=self.samples, violations=self.violations, cut_short=self.cut_short)
        with open(os.path.join(self.outdir, 'result.%d.json' % self.shard), 'w') as f:
            json.dump(out, f)
