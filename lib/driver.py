"""bin/check ID: builds the package from /repo's working tree in a scratch directory, runs the workload of the check
in worker processes, merges what the monitors saw, writes the evidence and gives the verdict.

exit 0: held on everything explored; exit 1 with a VIOLATION line; exit 2: inconclusive or an error of the check."""
import atexit
import glob
import importlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
from lib import builder  # noqa: E402


def known_findings(prop):
    out = []
    path = os.path.join(VERIF, 'KNOWN_FINDINGS.json')
    if os.path.exists(path):
        for f in json.load(open(path)).get('findings', []):
            if f['property'] == prop:
                out.append(f)
    return out


def sanitizer_env(env, logbase):
    def lib(name):
        return subprocess.run(['gcc', '-print-file-name=' + name], capture_output=True, text=True).stdout.strip()
    env['LD_PRELOAD'] = lib('libasan.so') + ':' + lib('libubsan.so')
    env['ASAN_OPTIONS'] = ('detect_leaks=0:halt_on_error=1:abort_on_error=0:exitcode=77:log_path=%s:'
                           'allocator_may_return_null=1:detect_stack_use_after_return=0' % logbase)
    env['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1:exitcode=77:log_path=%s' % logbase
    return env


class Tail(threading.Thread):
    """Keeps the end of what a worker prints, however much it prints."""
    def __init__(self, stream):
        super().__init__(daemon=True)
        self.stream, self.kept = stream, b''
        self.start()

    def run(self):
        while True:
            b = self.stream.read1(65536)
            if not b:
                return
            self.kept = (self.kept + b)[-2500:]

    def text(self):
        self.join(2)
        return self.kept.decode(errors='replace')


def main():
    t0 = time.time()
    args = sys.argv[1:]
    prop = args[0]
    only, replay_in = None, None
    if '--replay' in args:
        replay_in = json.load(open(args[args.index('--replay') + 1]))
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if replay_in:
        tier, seed = replay_in['tier'], int(replay_in['seed'])
        only = [replay_in['kind'], replay_in['index']]
    modname = [os.path.basename(p)[:-3] for p in glob.glob(VERIF + '/checks/*.py')
               if os.path.basename(p).lower().startswith(prop.lower() + '_')]
    if len(modname) != 1:
        print('no check for', prop)
        return 2
    modname = modname[0]
    mod = importlib.import_module('checks.' + modname)
    scratch = tempfile.mkdtemp(prefix='vp-%s-' % prop, dir='/tmp')
    atexit.register(shutil.rmtree, scratch, True)
    for s in (signal.SIGTERM, signal.SIGINT, signal.SIGHUP):
        signal.signal(s, lambda *a: sys.exit(2))
    modes = getattr(mod, 'MODES', ['plain'])
    modes = modes[tier] if isinstance(modes, dict) else modes
    if replay_in and replay_in.get('mode') in modes:
        modes = [replay_in['mode']]
    tops = {}
    for m in modes:
        try:
            tops[m] = builder.build(scratch, m, getattr(mod, 'LEGACY', ()))
        except builder.BuildError as e:
            print('INCONCLUSIVE: build failed (%s): %s' % (m, e))
            return 2
    t_build = time.time() - t0
    budget = getattr(mod, 'BUDGET', {'quick': 150, 'thorough': 600})[tier]
    deadline = time.time() + budget
    hard = budget + getattr(mod, 'GRACE', 150)
    nshards = 1 if only else getattr(mod, 'SHARDS', 8)
    case_cpu = getattr(mod, 'CASE_CPU', 60)
    procs = []
    for m in modes:
        outdir = os.path.join(scratch, 'out-' + m)
        os.makedirs(outdir)
        for sh in range(nshards):
            cfg = dict(verif=VERIF, prop=prop, tier=tier, seed=seed, shard=sh, nshards=nshards, outdir=outdir,
                       deadline=deadline, case_cpu=case_cpu, only=only, module=modname, package=tops[m], mode=m)
            env = dict(os.environ, PYTHONPATH=tops[m], TMPDIR=outdir, HOME=outdir, MPLCONFIGDIR=scratch + '/mpl',
                       VP_MODE=m, PYTHONFAULTHANDLER='1')
            env.pop('LD_PRELOAD', None)
            logbase = os.path.join(outdir, 'san.%d' % sh)
            if m == 'asan':
                env = sanitizer_env(env, logbase)
            p = subprocess.Popen([sys.executable, '-B', os.path.join(VERIF, 'lib', 'worker.py'), json.dumps(cfg)],
                                 stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, env=env, cwd=outdir,
                                 start_new_session=True)
            p.log = Tail(p.stdout)
            procs.append((m, sh, outdir, p, logbase))

    end = time.time() + hard
    killed = set()
    while any(p.poll() is None for *_, p, _ in procs):
        if time.time() > end:
            for m, sh, o, p, _ in procs:
                if p.poll() is None:
                    killed.add((m, sh))
                    os.killpg(p.pid, signal.SIGKILL)
            break
        time.sleep(0.05)
    for *_, p, _ in procs:
        p.wait()

    ev = dict(evaluations=0, assertions=0)
    nontrivial, counts, distinct, samples, violations, problems = set(), {}, {}, [], [], []
    cut = False
    for m, sh, outdir, p, logbase in procs:
        rp = os.path.join(outdir, 'result.%d.json' % sh)
        tail = p.log.text()
        san = ''.join(open(f, errors='replace').read(6000) for f in sorted(glob.glob(logbase + '.*')))
        if os.path.exists(rp):
            r = json.load(open(rp))
            if r['status'] != 'done':
                problems.append('%s shard %d: %s' % (m, sh, r['status']))
            ev['evaluations'] += r['evaluations']
            ev['assertions'] += r['assertions']
            nontrivial.update(r['nontrivial'])
            for k, v in r['counts'].items():
                counts[k] = counts.get(k, 0) + v
            for k, v in r['distinct'].items():
                distinct.setdefault(k, set()).update(v)
            samples += r['samples'][:1]
            violations += [dict(v, mode=m) for v in r['violations']]
            cut = cut or r['cut_short']
            continue
        cur = None
        try:
            cur = json.loads(open(os.path.join(outdir, 'current.%d' % sh)).read())
        except (OSError, ValueError):
            pass
        if (m, sh) in killed:
            problems.append('%s shard %d: wall-clock watchdog fired in case %s' % (m, sh, cur and cur['kind']))
        elif cur is not None and p.returncode == -signal.SIGVTALRM:
            violations.append(dict(cur, mode=m, what='no answer within %d s of CPU time' % case_cpu, notes={}, detail={},
                                   prop=prop, seed=seed, tier=tier))
        elif cur is not None and (p.returncode < 0 or san or p.returncode not in (0,)):
            if p.returncode == -signal.SIGKILL:
                problems.append('%s shard %d: killed (memory?)' % (m, sh))
            else:
                report = [ln.strip() for ln in (san + '\n' + tail).splitlines()
                          if 'runtime error' in ln or 'ERROR: Add' in ln or 'Fortran runtime error' in ln or 'Fatal Python' in ln
                          or re.match(r'\s*#[0-5] ', ln)][:8]
                violations.append(dict(cur, mode=m, what='process ended by the code under test (status %d%s)' % (
                    p.returncode, ', sanitizer report' if san else ''), notes=cur.get('notes', {}),
                    detail=dict(sanitizer=san, log=tail, report=report), prop=prop, seed=seed, tier=tier))
        else:
            problems.append('%s shard %d: worker died with status %s outside a case: %s' % (
                m, sh, p.returncode, (san or tail)[-1500:]))

    known, fresh = known_findings(prop), []
    known_hit = {}
    for v in violations:
        for f in known:
            if f['key'] == '%s: %s' % (v['kind'], v['what']):
                known_hit[f['key']] = f
                break
        else:
            fresh.append(v)

    extra = getattr(mod, 'minimums', lambda tier: {})(tier)
    if not only:
        for k, n in extra.items():
            have = counts.get(k, 0) if k in counts else len(distinct.get(k, ()))
            if have < n:
                problems.append('observed only %d of %s, needs %d' % (have, k, n))
    coverage = dict(evaluations=ev['evaluations'], distinct_nontrivial=len(nontrivial), rule=mod.RULE,
                    samples=samples[:6] or [{'none': True}], oracle_assertions=ev['assertions'],
                    observed=dict(sorted(counts.items())),
                    distinct_observed={k: len(v) for k, v in sorted(distinct.items())},
                    builds=modes, workers=nshards, build_s=round(t_build, 1),
                    stopped_by_time_budget=cut)
    if not only:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        evidence = dict(property=prop, tier=tier, seed=seed, level='exploration', coverage=coverage,
                        assumptions=getattr(mod, 'ASSUMPTIONS', []), wall_s=round(time.time() - t0, 2),
                        violations=len(fresh))
        tmp = os.path.join(VERIF, 'evidence', '.%s.tmp' % prop)
        with open(tmp, 'w') as f:
            json.dump(evidence, f, indent=1)
        os.replace(tmp, os.path.join(VERIF, 'evidence', prop + '.json'))
    for f in known_hit.values():
        print('KNOWN-FINDING: property=%s %s' % (prop, f['what']))
    if fresh:
        rdir = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(rdir, exist_ok=True)
        for i, v in enumerate(fresh[:4]):
            path = os.path.join(rdir, '%s-%d.json' % (prop, i))
            with open(path, 'w') as f:
                json.dump(v, f, indent=1)
            print('VIOLATION property=%s replay=%s' % (prop, path))
            print('   %s[%s]: %s %s %s' % (v['kind'], v['index'], v['what'], json.dumps(v['notes'])[:300],
                                           json.dumps(v['detail'])[-700:]))
        return 1
    if problems:
        for q in problems[:3]:
            print('INCONCLUSIVE:', q[-900:])
        return 2
    print('%s held (%s): %d cases, %d distinct non-trivial, %d oracle assertions, %.1f s' % (
        prop, tier, ev['evaluations'], len(nontrivial), ev['assertions'], time.time() - t0))
    return 0


if __name__ == '__main__':
    sys.exit(main())
