import os
import sys
import time

from . import frontend
from .interp import Interp, ImportProblem, Unsupported
from .report import run_all, conclude


def main(argv):
  t0 = time.time()
  verbose = '-v' in argv
  only = [a[2:] for a in argv if a.startswith('-o')]
  props = [a for a in argv if not a.startswith('-')]
  tier = os.environ.get('VERIF_TIER', 'quick')
  if '--thorough' in argv: tier = 'thorough'
  if tier not in ('quick', 'thorough'): tier = 'quick'
  try: seed = int(os.environ.get('VERIF_SEED', '1'))
  except ValueError: seed = 1
  from . import checks
  rc = 0
  for p in props:
    t0 = time.time()
    spec = checks.CHECKS[p]
    base = Interp()
    base.load_problems = []
    for m in sorted(frontend.all_modules()):
      try: base.load(m)
      except (ImportProblem, Unsupported) as e:
        base.load_problems.append((m, e))
        base.live = 1
        base.frames = []; base.sinks = []
    base.epoch = 1
    base.tier = tier
    try: obs = spec['obligations'](base, tier)
    except Exception as e:
      print("%s: the obligations cannot be listed: %s: %s" % (p, type(e).__name__, e))
      from .report import Ob, not_loaded
      def unlisted(c, e=e):
        if not not_loaded(c, base.load_problems): raise e
      base.live = 1
      base.frames = []; base.sinks = []
      res = run_all(base, p, [Ob('loading the program', unlisted)], 100)
      rc = 1 if conclude(p, res, t0, tier, seed, spec, verbose) == 1 else rc if rc == 1 else 2
      continue
    if only: obs = [o for o in obs if any(x in o.name for x in only)]
    limit = 100 if tier == 'quick' else 600
    res = run_all(base, p, obs, limit)
    r = conclude(p, res, t0, tier, seed, spec, verbose)
    if verbose:
      for x in res: print('   %-60s facts=%d viol=%d undec=%d nodes=%d %.2fs' % (x['name'], x['facts'], len(x['viols']), len(x['undec']), x['nodes'], x['wall']))
    rc = max(rc, r) if rc != 1 else 1
    if r == 1: rc = 1
  return rc


if __name__ == '__main__':
  sys.exit(main(sys.argv[1:]))
