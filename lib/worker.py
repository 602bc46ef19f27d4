"""Runs one shard of one check against the package that PYTHONPATH names."""
import importlib
import json
import os
import resource
import sys
import traceback
import warnings

warnings.simplefilter('ignore')
cfg = json.loads(sys.argv[1])
sys.path.insert(0, cfg['verif'])
from lib.monitor import Monitor, StopRun  # noqa: E402

import inference  # noqa: E402
if not os.path.realpath(inference.__file__).startswith(os.path.realpath(cfg['package']) + os.sep):
    sys.exit('worker: wrong package %s' % inference.__file__)

if cfg['mode'] != 'asan':
    # memory without bound is the case's failure, not the sandbox's
    resource.setrlimit(resource.RLIMIT_DATA, (7 << 29, 7 << 29))
scratch = os.path.join(cfg['outdir'], 'cwd.%d' % cfg['shard'])
os.makedirs(scratch, exist_ok=True)
os.chdir(scratch)
mon = Monitor(cfg['prop'], cfg['tier'], cfg['seed'], cfg['shard'], cfg['nshards'], cfg['outdir'], cfg['deadline'],
              cfg['case_cpu'], tuple(cfg['only']) if cfg['only'] else None)
mod = importlib.import_module('checks.' + cfg['module'])
status = 'done'
try:
    mod.run(mon)
except StopRun:
    pass
except BaseException as e:
    traceback.print_exc()
    tb = traceback.extract_tb(e.__traceback__)
    if isinstance(e, Exception) and any(os.path.realpath(f.filename).startswith(os.path.realpath(cfg['package']) + os.sep)
                                        for f in tb):
        # raised by the code under test outside a case: on import, or in the set-up of a workload
        mon._cur = {'kind': 'set-up', 'index': 0, 'desc': {}}
        mon.violations.append(dict(mon._cur, what='unexpected %s in the set-up' % type(e).__name__, notes={},
                                   detail={'trace': traceback.format_exc()[-2500:]}, prop=mon.prop, seed=mon.seed,
                                   tier=mon.tier))
    status = 'harness error: ' + traceback.format_exc()[-2000:]
mon.dump(status)
sys.stdout.flush()
os._exit(0)
