"""Obligations, findings, verdicts and evidence."""
import json
import os
import pickle
import resource
import select
import signal
import sys
import time
import traceback

from .bdd import TooBig
from .interp import Interp, Unsupported, Dead, ImportProblem, Thrown
from .domains import World, Missing

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(HERE, 'evidence')
KNOWN = os.path.join(HERE, 'known_findings.txt')


def place(loc):
  """stable construct name of a location: file and function, no line"""
  if not loc: return '?'
  head, _, fn = loc.partition(' in ')
  return "%s:%s" % (head.split(':')[0], fn)


class Ctx(object):
  """what one obligation found"""
  def __init__(self, it, prop, name):
    self.it = it
    self.w = World(it)
    self.prop, self.name = prop, name
    self.viols = []
    self.undec = []
    self.facts = 0
    self.notes = []

  def ok(self, n=1): self.facts += n

  def viol(self, rule, construct, msg, guard=None, loc=None):
    """a violation in the inputs described by guard (a Boolean function) or unconditionally"""
    self.facts += 1
    wit = ''
    if guard is not None:
      B = self.it.B
      try: d = B.definite(guard)
      except TooBig:
        self.undec.append("%s at %s: %s (witness too large)" % (rule, construct, msg)); return
      if d == 0:
        self.undec.append("%s at %s: %s (only possible through an over-approximated value)" % (rule, construct, msg))
        return
      wit = B.describe(d)
    for v in self.viols:
      if v['rule'] == rule and v['construct'] == construct:
        v['more'] = v.get('more', 0) + 1
        return
    self.viols.append(dict(rule=rule, construct=construct, msg=msg, witness=wit, loc=loc or '', obligation=self.name))

  def undecided(self, msg):
    self.undec.append(msg)

  def thrown(self, rule, thrown, allow=(), what='', default=None):
    """every exception that can leave the analysed entry is a violation, except those allowed"""
    it = self.it
    for t in thrown:
      n = it.exc_name(t.exc)
      if is_a(it, t.exc, allow): continue
      self.viol(rule, default if default and (not t.loc or t.loc.startswith('?')) else place(t.loc), "%s%s raised %s" % (what and what + ': ', n, args_text(t.exc)), t.guard, t.loc)


def is_a(it, exc, names):
  cls = getattr(exc, 'cls', None)
  if cls is None: return False
  return any(c.name in names for c in cls.mro)


def args_text(exc):
  a = getattr(exc, 'attrs', {}).get('args')
  if not a: return ''
  return '(%s)' % ', '.join(x if isinstance(x, str) else type(x).__name__ for x in a)


class Ob(object):
  def __init__(self, name, fn, weight=1, timeout=None):
    self.name, self.fn, self.weight, self.timeout = name, fn, weight, timeout


def not_loaded(c, problems):
  """modules that cannot be imported: nothing that needs them can hold. True if one was reported"""
  found = False
  for name, e in problems:
    t = getattr(e, 'thrown', None)
    if t is None: continue
    try: sure = c.it.B.definite(t.guard)
    except TooBig: continue
    if not sure: continue
    c.viol('not-loaded', place(t.loc), 'the module %s cannot be loaded: it raises %s%s' % (name, c.it.exc_name(t.exc), args_text(t.exc)), t.guard, t.loc)
    found = True
  return found


def run_one(base, prop, ob, limit_s):
  t0 = time.time()
  it = base
  c = Ctx(it, prop, ob.name)
  out = dict(name=ob.name, status='ok')
  try:
    it.deadline = time.time() + limit_s
    it.funcs_seen = set()
    ob.fn(c)
  except Unsupported as e:
    c.undecided("not modelled: %s at %s" % (e, it.loc()))
  except TooBig:
    c.undecided("value too large at %s" % it.loc())
  except MemoryError:
    c.undecided("out of memory")
  except RecursionError:
    c.undecided("recursion")
  except Missing as e:
    if not not_loaded(c, getattr(base, 'load_problems', ())): out['status'] = 'missing'
    c.undecided("anchor gone: %s" % e)
  except ImportProblem as e:
    not_loaded(c, [(e.module.name, e)])
    c.undecided(str(e))
  except Dead:
    c.undecided("no state reaches the checked point")
  except Exception as e:
    out['status'] = 'error'
    out['trace'] = traceback.format_exc()
    c.undecided("internal error: %r" % (e,))
  out.update(viols=c.viols, undec=c.undec, facts=c.facts, notes=c.notes, wall=time.time() - t0,
             funcs=sorted('%s.%s' % f for f in it.funcs_seen), nodes=len(it.B.var),
             softs=len(it.softs))
  return out


def run_all(base, prop, obs, limit_s, workers=8, mem=3 << 30):
  """fork one process per obligation"""
  todo = sorted(obs, key=lambda o: -o.weight)
  live = {}
  results = []
  while todo or live:
    while todo and len(live) < workers:
      ob = todo.pop(0)
      r, w = os.pipe()
      sys.stdout.flush(); sys.stderr.flush()
      pid = os.fork()
      if pid == 0:
        os.close(r)
        try:
          try: resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
          except Exception: pass
          import gc
          gc.disable()
          sys.setrecursionlimit(1000000)
          import threading
          threading.stack_size(512 << 20)
          box = []
          th = threading.Thread(target=lambda: box.append(run_one(base, prop, ob, limit_s)))
          th.start(); th.join()
          res = box[0] if box else dict(name=ob.name, status='error', viols=[], undec=['worker died'], facts=0, notes=[], wall=0, funcs=[], nodes=0, softs=0)
          data = pickle.dumps(res)
          with os.fdopen(w, 'wb') as f: f.write(data)
        finally:
          os._exit(0)
      os.close(w)
      live[r] = (pid, ob, time.time(), [])
    rd, _, _ = select.select(list(live), [], [], 1.0)
    for fd in rd:
      data = os.read(fd, 1 << 16)
      pid, ob, t0, buf = live[fd]
      if data:
        buf.append(data); continue
      os.close(fd)
      os.waitpid(pid, 0)
      del live[fd]
      try: results.append(pickle.loads(b''.join(buf)))
      except Exception:
        results.append(dict(name=ob.name, status='ok', viols=[], undec=['analysis ended early (memory or crash)'], facts=0, notes=[],
                            wall=time.time() - t0, funcs=[], nodes=0, softs=0))
    now = time.time()
    for fd in list(live):
      pid, ob, t0, buf = live[fd]
      if now - t0 > (ob.timeout or limit_s) + 20:
        try: os.kill(pid, signal.SIGKILL)
        except OSError: pass
  results.sort(key=lambda r: r['name'])
  return results


def load_known():
  """{(property, key): text}"""
  out = {}
  if os.path.exists(KNOWN):
    for line in open(KNOWN):
      line = line.strip()
      if not line.startswith('finding:'): continue
      parts = line.split(None, 3)
      d = dict(p.split('=', 1) for p in parts[1:3])
      out[(d['property'], d['key'])] = parts[3] if len(parts) > 3 else ''
  return out


def key_of(v):
  return "%s@%s" % (v['rule'], v['construct'].replace(' ', '_'))


def conclude(prop, results, t0, tier, seed, meta, verbose=False):
  known = load_known()
  viols, undec, facts, funcs = [], [], 0, set()
  seen = {}
  clean = 0
  missing = 0
  errors = []
  for r in results:
    facts += r['facts']
    funcs.update(r['funcs'])
    for v in r['viols']:
      k = key_of(v)
      if k in seen:
        seen[k]['obligations'].append(r['name']); continue
      v = dict(v, obligations=[r['name']], key=k)
      seen[k] = v
      viols.append(v)
    for u in r['undec']: undec.append("%s: %s" % (r['name'], u))
    if r['status'] == 'missing': missing += 1
    if r['status'] == 'error': errors.append(r)
    if not r['viols'] and not r['undec'] and r['facts']: clean += 1
  new = [v for v in viols if (prop, v['key']) not in known]
  old = [v for v in viols if (prop, v['key']) in known]
  rdir = os.path.join(EVID, 'replay')
  os.makedirs(rdir, exist_ok=True)
  for i, v in enumerate(new):
    path = os.path.join(rdir, '%s-%d.json' % (prop, i + 1))
    with open(path, 'w') as f: json.dump(v, f, indent=1)
    v['replay'] = path
  samples = [dict(obligation=r['name'], facts=r['facts'], functions=r['funcs'][:12], boolean_nodes=r['nodes'], wall_s=round(r['wall'], 2))
             for r in sorted(results, key=lambda r: -len(r['funcs']))[:5]]
  ev = dict(property=prop, tier=tier, seed=seed, level='other', wall_s=round(time.time() - t0, 2), violations=len(new), coverage=dict(
    explanation=meta.get('explanation', ''), rule=meta.get('rule', ''), obligations=len(results), discharged=clean,
    facts_checked=facts, functions_analysed=len(funcs), functions=sorted(funcs), undecided=undec[:200], undecided_count=len(undec),
    known_findings=[v['key'] for v in old], reported=[dict(v) for v in new], samples=samples,
    obligation_list=[dict(name=r['name'], facts=r['facts'], undecided=len(r['undec']), violations=len(r['viols']), wall_s=round(r['wall'], 2)) for r in results]),
    assumptions=meta.get('assumptions', []))
  os.makedirs(EVID, exist_ok=True)
  tmp = os.path.join(EVID, prop + '.json.tmp')
  with open(tmp, 'w') as f: json.dump(ev, f, indent=1)
  os.replace(tmp, os.path.join(EVID, prop + '.json'))
  print("%s: %d obligations, %d fully discharged, %d facts, %d functions analysed, %d undecided, %.1f s" % (
    prop, len(results), clean, facts, len(funcs), len(undec), time.time() - t0))
  for u in undec[:40]: print("  UNDECIDED %s" % u)
  if verbose:
    for e in errors[:1]: print(e.get('trace'))
  for v in old: print("KNOWN-FINDING: property=%s %s" % (prop, known[(prop, v['key'])] or v['key']))
  for v in new:
    print("  [%s] %s: %s" % (v['rule'], v['loc'] or v['construct'], v['msg']))
    print("      construct: %s" % v['key'])
    if v['witness']: print("      for example when %s" % v['witness'])
    print("VIOLATION property=%s replay=%s" % (prop, v['replay']))
  if new: return 1
  if missing:
    print("%s: %d anchors gone: analysis broken" % (prop, missing)); return 2
  if not facts:
    print("%s: nothing could be decided: analysis broken" % prop); return 2
  return 0
