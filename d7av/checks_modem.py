"""The modem driver and the MQTT bridge (C19-C22, C28, C29, C34): the caller, the reader thread and the device are analysed together.  The device
is a script of reads chosen by the check; the reader runs at the points where the caller writes, waits or is blocked."""
import ast

from .bdd import TRUE, FALSE
from .values import *
from .domains import *
from .recipes import *
from .report import Ob, place
from .interp import Dead, Unsupported, SFloat
from . import models
from .checks_structs import cplace, CMD
from .checks_serial import SPQ, ALPP, MT

MODEM = 'modem.modem.Modem'
CALL, REBOOT, LOGGED, KEPT, REBOOTS, SYNC = 'the callback', 'the reboot callback', 'the log', 'the unsolicited list', 'the reboot list', 'the caller'


def text_of(it, v):
  """byte entries of a message as received"""
  return it.mkstr(((TRUE, tuple(v)),))


class Task(object):
  """another thread of the analysed program: runs until its k-th point of interest, then on request to its end.  Both threads share the heap;
  each has its own control state."""
  def __init__(self, h, thunk, stop_at):
    import threading
    self.h, self.it, self.stop_at, self.seen = h, h.it, stop_at, 0
    self.done = self.stopped = False
    self.error = None
    self.here, self.there = threading.Semaphore(0), threading.Semaphore(0)
    it = h.it
    self.ctx = dict(live=it.live, frames=[], sinks=[], blob_ctx=[])
    self.hctx = dict((k, getattr(h, k)) for k in ('script', 'counts', 'parked', 'on_write', 'on_pause'))
    def body():
      self.here.acquire()
      try: thunk()
      except BaseException as e: self.error = e
      self.done = True
      self.there.release()
    old = threading.stack_size(256 << 20)
    self.thread = threading.Thread(target=body)
    self.thread.daemon = True
    self.thread.start()
    threading.stack_size(old)

  def swap(self):
    it, h = self.it, self.h
    for k in self.ctx:
      v = getattr(it, k); setattr(it, k, self.ctx[k]); self.ctx[k] = v
    for k in self.hctx:
      v = getattr(h, k); setattr(h, k, self.hctx[k]); self.hctx[k] = v

  def resume(self):
    if self.done: return
    other = self.h.task
    self.h.task = self
    self.swap()
    self.here.release()
    self.there.acquire()
    self.swap()
    self.h.task = other
    if self.error is not None:
      e, self.error = self.error, None
      raise e

  def point(self):
    """called in the task at a point where it may be interrupted"""
    if self.stopped: return
    self.seen += 1
    if self.seen == self.stop_at:
      self.stopped = True
      self.suspend()

  def suspend(self):
    self.there.release()
    self.here.acquire()


def lists(it, v):
  """[(guard, elements)] of a value that is a list, or one of several"""
  out = []
  for g, x in it.alts(v):
    if not it.may(g): continue
    if not isinstance(x, ListV): raise Unsupported("%s instead of a list" % nameof(x))
    out += [(it.AND(g, h), tuple(e)) for h, e in it.list_live(x) if it.may(it.AND(g, h))]
  return out


class Msg(object):
  """one message as it appears on the wire"""
  def __init__(self, type, payload, tag=None, eop=None):
    self.type, self.payload, self.tag, self.eop = type, payload, tag, eop
    self.frame = None
    self.refs = {}


class Host(object):
  """a modem object, its reader thread and the device"""
  def __init__(self, c, skip=False, callback=True, reboot=False, make=True, fault=None):
    self.c = c
    it, w = self.it, self.w = c.it, c.w
    self.skip = skip
    self.calls, self.reboots, self.logs = [], [], []
    self.written = []
    self.script = None
    self.counts = {}
    self.parked = FALSE
    self.io = []                # (guard, what, data) in order
    self.on_write = self.on_pause = None
    self.fault = fault
    self.held = {}
    self.locks = {}
    self.reader_pause = None
    self.task = None
    self.owner = {}
    self.now = 0
    it.load('logging'); it.load('serial'); it.load('threading')
    h = it.hooks
    for n in ('read', 'read_all', 'readline', 'read_until'): h['serial.' + n] = self.read
    h['serial.write'] = self.write
    h['serial.flush'] = self.flush
    h['serial.open'] = self.open
    h['serial.close'] = self.close
    h['serial.in_waiting'] = h['serial.inWaiting'] = self.waiting
    h['serial.isOpen'] = lambda it, o, a, k: it.get_attr(o, 'is_open')
    h['pause'] = self.pause
    h['clock'] = lambda it: self.now
    for base in ('logging', 'logging.getLogger()'):
      for n in ('debug', 'info', 'warning', 'warn', 'error', 'critical', 'exception', 'log'):
        h['opaque:%s.%s' % (base, n)] = self.logged
    h['while'] = self.loop
    self.mod = it.load(MODEM.rsplit('.', 1)[0])
    self.parser = w.cls(SPQ)
    self.source = None
    if make: self.make(callback, reboot)

  def make(self, callback, reboot):
    it, w = self.it, self.w
    cb = Native('callback', self.called(self.calls)) if callback else None
    rb = Native('reboot callback', self.called(self.reboots)) if reboot else None
    kw = dict(unsolicited_response_received_callback=cb, rebooted_callback=rb, skip_alp_parsing=self.skip)
    n = len(it.events)
    self.modem = self.made(lambda: it.call(w.cls(MODEM), ['device', 115200], kw), MODEM)
    self.find_reader(n)

  def made(self, thunk, what):
    """what the application makes; a constructor that always fails is a violation of everything the object is for"""
    it = self.it
    before = it.live
    live, v, thrown = it.run(thunk)
    if live == 0 and thrown:
      left = before
      for t in thrown: left = it.AND(left, it.NOT(t.guard))
      if left == 0:
        for t in thrown[:1]: self.c.viol('not-made', place(t.loc), '%s cannot be made: %s' % (what.rsplit('.', 1)[1], it.exc_name(t.exc)), t.guard, t.loc)
    it.live = live
    if live == 0: raise Dead()
    return narrow_value(it, v, {})

  def find_reader(self, n):
    it = self.it
    starts = [e for e in it.events[n:] if e[1] == 'thread_start']
    if not starts: raise Missing("constructing the modem starts no reader")
    data = starts[0][2]
    self.target = data['target'] if data['target'] is not None else it.get_attr(data['obj'], 'run')
    self.io = []

  def called(self, sink):
    def f(it, a, k):
      sink.append((it.live, a[0]))
      return None
    return f

  # ------------------------------------------------------------------ interleaving
  def interleave(self):
    """the reader can be interrupted before every store into what both threads share, every lock and every log record"""
    it = self.it
    def event(kind, data):
      if kind == 'acquire':
        if self.task: self.task.point()
        o = self.owner.get(id(data['obj']))
        if o is not None and o is not self.task and o != 'caller':
          o.resume()                      # the other thread goes on until it has released the lock and is done
        if self.owner.get(id(data['obj'])) not in (None, self.task or 'caller'): raise Unsupported("both threads wait for each other")
        self.owner[id(data['obj'])] = self.task or 'caller'
      elif kind == 'release': self.owner[id(data['obj'])] = None
    it.hooks['event'] = event
    class Stores(object):
      def append(_, x):
        if self.task and (x[0] is self.modem or any(x[0] is y for v in self.modem.attrs.values() for g, y in it.alts(v))): self.task.point()
    it.writelog = Stores()

  def logged(self, it, a, k):
    if self.task and it.frames and it.frames[-1].module is self.mod: self.task.point()
    self.logs.append((it.live, a))
    return None

  # ------------------------------------------------------------------ device
  def dev_event(self, what, data=None):
    self.io.append((self.it.live, what, data, self.it.loc()))

  def waiting(self, it, o, a=None, k=None):
    """asking how many bytes are waiting; a device that is gone refuses with an IOError which is not a SerialException"""
    if self.script is None: return 0
    return self.read(it, o, a, k, ask=True)

  def read(self, it, o, a, k, ask=False):
    if self.script is None: raise Unsupported("read outside the reader")
    if not ask: self.dev_event('read')
    live = it.live
    out = []
    stop = FALSE
    throws = []
    nxt = {}
    for n, g in sorted(self.counts.items()):
      h = it.AND(live, g)
      rest = it.AND(g, it.NOT(live))
      if rest: nxt[n] = it.OR(nxt.get(n, FALSE), rest)
      if not h: continue
      if n >= len(self.script):
        nxt[n] = it.OR(nxt.get(n, FALSE), h)
        stop = it.OR(stop, h)
        continue
      item = self.script[n]
      if ask and callable(item): raise Unsupported("asking for the number of waiting bytes")
      if ask:
        bad = FALSE
        for g2, v in (item if isinstance(item, list) else [(TRUE, item)]):
          if isinstance(v, tuple) and v and v[0] == 'raise': bad = it.OR(bad, it.AND(h, g2))
        if bad: nxt[n + 1] = it.OR(nxt.get(n + 1, FALSE), bad)
        if it.AND(h, it.NOT(bad)): nxt[n] = it.OR(nxt.get(n, FALSE), it.AND(h, it.NOT(bad)))
      else: nxt[n + 1] = it.OR(nxt.get(n + 1, FALSE), h)
      if callable(item):
        it.live = h
        try: item = item()
        except Dead:
          continue
        finally: it.live = live
      for g2, v in (item if isinstance(item, list) else [(TRUE, item)]):
        gg = it.AND(h, g2)
        if not gg: continue
        if isinstance(v, tuple) and v and v[0] == 'raise': throws.append((gg, 'IOError' if ask else v[1]))
        else: out.append((gg, it.split(v, lambda x: models.b_len(it, [x], {})) if ask else v))
    self.counts = nxt
    self.parked = it.OR(self.parked, stop)
    for g, n in throws:
      self.io.append((g, 'error', n, it.loc()))
      it.raise_(n, 'device error', guard=g)
    if not out:
      it.live = FALSE
      raise Dead()
    g = FALSE
    for x, _ in out: g = it.OR(g, x)
    it.live = g
    return it.merge_all(out)

  def write(self, it, o, a, k):
    v = a[0] if a else k.get('data')
    self.dev_event('write', v)
    self.written.append((it.live, v))
    if self.fault: self.fault('write')
    if self.on_write: self.aside(self.on_write)
    return it.split(v, lambda x: models.b_len(it, [x], {}))

  def flush(self, it, o, a, k):
    self.dev_event('flush')
    if self.fault: self.fault('flush')

  def open(self, it, o, a, k):
    self.dev_event('open')
    if self.fault: self.fault('open')
    it.set_attr(o, 'is_open', True)

  def close(self, it, o, a, k):
    self.dev_event('close')
    it.set_attr(o, 'is_open', False)

  def pause(self, it, why, amount):
    self.dev_event('pause', (why, amount))
    if self.on_pause: self.aside(lambda: self.on_pause(why, amount))
    else: self.end()

  def end(self):
    """the rest of this path is not looked at"""
    self.it.live = FALSE
    raise Dead()

  def aside(self, f):
    """other threads run while this one is suspended"""
    it = self.it
    f()
    if it.live == 0: raise Dead()

  def loop(self, it, s, f, lc):
    return None

  # ------------------------------------------------------------------ the reader
  def run_reader(self, script):
    """the reader runs from its beginning until it has consumed the script; returns (guard ended, thrown)"""
    it = self.it
    live = it.live
    saved = self.script, self.counts, self.parked
    self.script, self.counts, self.parked = script, {0: live}, FALSE
    ow, op = self.on_write, self.on_pause
    self.on_write, self.on_pause = None, (self.reader_pause or (lambda why, n: None))
    out, v, thrown = it.run(lambda: it.call(self.target, [], {}))
    self.on_write, self.on_pause = ow, op
    parked = self.parked
    self.script, self.counts, self.parked = saved
    it.live = live
    return out, parked, [t for t in thrown if it.AND(t.guard, live)]

  def reader(self, script, what='reading'):
    """as run_reader; a reader that ends or fails is a violation"""
    c, it = self.c, self.it
    out, parked, thrown = self.run_reader(script)
    for t in thrown:
      c.viol('reader-died', place(t.loc), "%s: %s ends the reader thread" % (what, it.exc_name(t.exc)), t.guard, t.loc)
    if it.AND(out, it.live): c.viol('reader-ended', self.where(), "%s: the reader thread ends without having been asked to" % what, it.AND(out, it.live))
    c.ok()

  def where(self): return cplace(self.target.func) if False else MODEM.replace('.', '/', 1).replace('.Modem', '.py:Modem')

  # ------------------------------------------------------------------ messages
  def frame(self, m):
    """bytes of the frame for a message; built by the library's own frame builder"""
    it, w = self.it, self.w
    if m.frame is not None: return m.frame
    if self.source is None:
      self.source = accepted(w, lambda: it.call(self.parser, [], {}))
    data = accepted(w, lambda: it.call(it.get_attr(self.source, 'build_serial_frame'), [it.new_list(tuple(m.payload))], {}))
    alts = it.list_live(data)
    if len(alts) != 1: raise Unsupported("frame of several shapes")
    e = list(alts[0][1])
    e[3] = m.type
    m.frame = tuple(e)
    return m.frame

  def data(self, *msgs):
    e = ()
    for m in msgs: e = e + self.frame(m)
    return text_of(self.it, e)

  def reference(self, m, group):
    """what a receiver makes of the payload, for messages of a group of types"""
    it, w = self.it, self.w
    r = m.refs.get(group)
    if r is None:
      if group == 'log' or group == 'response' and self.skip: r = text_of(it, m.payload)
      elif group == 'reboot': r = m.payload[0]
      else:
        s = w.stream(m.payload)
        r = accepted(w, lambda: it.call(it.get_attr(it.call(w.cls(ALPP), [], {}), 'parse'), [s, len(m.payload)], {}))
      m.refs[group] = r
    return r

  def same(self, m, group, value):
    """[(guard, path, why)] where the delivered value differs from the message"""
    return diff(self.it, self.reference(m, group), value)

  # ------------------------------------------------------------------ comparing
  def listed(self, getter):
    it = self.it
    return it.call(it.get_attr(self.modem, getter), [], {})

  def compare(self, rule, what, got, want):
    """got: [(guard, value)] or a list value; want: [(guard, message, group)], in order"""
    c, it = self.c, self.it
    live = it.live
    if not isinstance(got, list):
      parts = []
      for g, x in it.alts(got):
        if not it.may(g): continue
        if not isinstance(x, ListV): c.viol(rule, self.where(), "%s: %s instead of a list" % (what, nameof(x)), it.AND(live, g)); continue
        it.live = it.AND(live, g)
        if it.live == 0: continue
        for h, e in it.list_live(x): parts.append((it.AND(it.live, h), list(e)))
        it.live = live
    else:
      parts = [(live, [])]
      for g, v in got:
        nxt = []
        for h, l in parts:
          a, b = it.AND(h, g), it.AND(h, it.NOT(g))
          if a: nxt.append((a, l + [v]))
          if b: nxt.append((b, l))
        parts = nxt
    for g, m, grp in want:
      nxt = []
      for h, l in parts:
        a, b = it.AND(h, g), it.AND(h, it.NOT(g))
        if a: nxt.append((a, l, ))
        if b: nxt.append((b, l, ))
      parts = nxt
    for h, l in parts:
      exp = [(m, grp) for g, m, grp in want if it.AND(h, g)]
      c.ok()
      if len(l) != len(exp):
        c.viol(rule, self.where(), "%s gets %d message(s), %d are due" % (what, len(l), len(exp)), h)
        continue
      it.live = h
      for v, (m, grp) in zip(l, exp):
        for g, path, why in self.same(m, grp, v):
          c.viol(rule, self.where(), "%s gets something else than the message: %s %s" % (what, path, why), g)
      it.live = live
    it.live = live

  def logged_text(self, m):
    """node: some log record carries the message"""
    it = self.it
    r = FALSE
    ref = self.reference(m, 'log')
    for g, a in self.logs:
      for v in a:
        for h, x in it.alts(v):
          if self.mentions(x, ref): r = it.OR(r, it.AND(g, h))
    return r

  def mentions(self, x, ref):
    it = self.it
    key = it.shape(it.seq_entries(ref)[0][1])
    def same(v):
      for g, y in it.alts(v):
        if isinstance(y, (str, SStr)):
          for h, e in it.seq_entries(y):
            if it.shape(e) == key: return True
            n = len(it.seq_entries(ref)[0][1])
            for i in range(len(e) - n + 1):
              if it.shape(e[i:i + n]) == key: return True
      return False
    if isinstance(x, SText): return any(not isinstance(p, str) and any(same(q) for q in p if isinstance(q, (SStr, str, Union))) for p in x.parts) or \
      any(isinstance(p, str) and isinstance(ref, str) and ref in p for p in x.parts)
    return same(x)


def response(c, label, tag=None, eop=None, err=FALSE, marker=0x40, extra=()):
  """payload of a response: tag response (when tag is given), then file data carrying a marker"""
  it = c.it
  e = ()
  if tag is not None:
    ctl = it.norm_int((TRUE, TRUE, FALSE, FALSE, FALSE, TRUE, err, eop if eop is not None else TRUE, FALSE))
    e = (ctl, tag)
  if marker is None: return e + tuple(extra)
  return e + tuple(extra) + (0x20, marker, 0, 1, 0x30 + (marker & 7))


def command(h, tag, n=1):
  """a command of the caller"""
  it, w = h.it, h.w
  nop = it.call(w.cls(A + 'regular_action.RegularAction'), [], dict(operation=it.call(w.cls(OPN + 'nop.NoOperation'), [], {})))
  return accepted(w, lambda: it.call(w.cls(CMD), [], dict(actions=it.new_list((nop,) * n), tag_id=tag)))


def execute(h, cmd, timeout=10, fn='execute_command'):
  """(live, value, thrown) of a call by the application"""
  it = h.it
  args = [cmd] if fn != 'execute_command' else [cmd, timeout]
  return it.run(lambda: it.call(it.get_attr(h.modem, fn), args, {}))


def once(h, f):
  """f at the first write of each path only"""
  done = [FALSE]
  def g():
    it = h.it
    live = it.live
    todo = it.AND(live, it.NOT(done[0]))
    if not todo: return
    done[0] = it.OR(done[0], live)
    it.live = todo
    f()
    it.live = live
  return g


# ---------------------------------------------------------------------------------------------------- C19
HISTORIES = ('nothing', 'timeout', 'partial', 'completed', 'async', 'refused', 'failed')


def history(h, kind, tag):
  """an earlier request of the given kind"""
  it, w, c = h.it, h.w, h.c
  if kind == 'nothing': return
  live = it.live
  def gap(script=None):
    """the wait of the caller: the reader runs once, then the time is over"""
    state = [0]
    def f(why, amount):
      state[0] += 1
      if state[0] == 1 and script: h.reader(script, 'history')
      h.now = it.binop1('+', h.now, 100)
    return f
  cmd = command(h, tag)
  fn, script, ow = 'execute_command', None, None
  if kind == 'partial': script = [h.data(Msg(1, response(c, 'old', tag, FALSE, marker=0x41)))]
  if kind == 'completed': ow = [h.data(Msg(1, response(c, 'old', tag, TRUE, marker=0x41)))]
  if kind == 'async': fn = 'execute_command_async'
  if kind == 'refused': cmd = it.new_list(tuple([0] * 300))
  h.on_pause = gap(script)
  h.on_write = once(h, lambda: h.reader(ow, 'history')) if ow else None
  if kind == 'refused':
    cmd = command(h, tag, 400)
  if kind == 'failed':
    def fault(what):
      if what == 'write': it.raise_('serial.SerialTimeoutException', 'device error'); raise Dead()
    h.fault = fault
  live2, v, thrown = execute(h, cmd, fn=fn)
  h.fault = None
  g = live2
  for t in thrown: g = it.OR(g, t.guard)
  it.live = it.AND(live, g)
  h.on_pause = h.on_write = None
  if it.live == 0: raise Unsupported("the earlier request never ends")


def c19_sync(c, kind, skip=False):
  it, w = c.it, c.w
  h = Host(c, callback=False)
  old, tag, other = w.uint('earlier tag', 8), w.uint('tag', 8), w.uint('tag received', 8)
  history(h, kind, old)
  before = h.listed('get_unsolicited_responses_received')
  n0 = [(g, e) for x in [before] for g, e in lists(it, x)]
  a = Msg(1, response(c, 'answer', other, w.bool('final').node, marker=0x42))
  b = Msg(1, response(c, 'final answer', tag, TRUE, marker=0x43))
  mine = it.eq_int(tag, other)
  fin = it.bits(a.payload[0])[7]
  done = it.AND(mine, fin)
  # the first response arrives with the first byte, the last while the caller waits
  h.on_write = once(h, lambda: h.reader([h.data(a)], 'answer during the write'))
  state = []
  def wait(why, amount):
    if not state: h.reader([h.data(b)], 'answer while waiting')
    else: h.now = it.binop1('+', h.now, 100)
    state.append(1)
  h.on_pause = wait
  live = it.live
  out, v, thrown = execute(h, command(h, tag))
  c.thrown('sync-raises', thrown, what='synchronous command')
  it.live = it.AND(live, out)
  if it.live == 0: raise Unsupported("the call never returns")
  want = [(mine, a, 'response'), (it.NOT(done), b, 'response')]
  h.compare('lost-or-foreign', 'the caller', v, want)
  # what belongs to nobody is kept, what was kept stays
  if len(n0) == 1:
    kept = h.listed('get_unsolicited_responses_received')
    drop = len(n0[0][1])
    tail = it.new_seq([(g, e[drop:]) for g, e in lists(it, kept)])
    h.compare('lost-or-foreign', 'the unsolicited list', tail, [(it.NOT(mine), a, 'response')])


def c19_async(c, kind):
  it, w = c.it, c.w
  h = Host(c, callback=False)
  old, tag = w.uint('earlier tag', 8), w.uint('tag', 8)
  history(h, kind, old)
  n0 = lists(it, h.listed('get_unsolicited_responses_received'))
  a = Msg(1, response(c, 'answer', tag, TRUE, marker=0x42))
  b = Msg(1, response(c, 'answer to the earlier request', old, TRUE, marker=0x43))
  h.on_write = once(h, lambda: h.reader([h.data(a)], 'answer during the write'))
  live = it.live
  out, v, thrown = execute(h, command(h, tag), fn='execute_command_async')
  c.thrown('sync-raises', thrown, what='asynchronous command')
  it.live = it.AND(live, out)
  if it.live == 0: c.viol('async-waits', h.where(), 'an asynchronous command waits'); return
  c.ok()
  h.reader([h.data(b)], 'after the asynchronous command')
  if len(n0) == 1:
    drop = len(n0[0][1])
    kept = h.listed('get_unsolicited_responses_received')
    tail = it.new_seq([(g, e[drop:]) for g, e in lists(it, kept)])
    h.compare('tag-left', 'the unsolicited list', tail, [(TRUE, a, 'response'), (TRUE, b, 'response')])


def c19(base, tier):
  obs = []
  for k in HISTORIES:
    obs.append(Ob('synchronous after %s' % k, lambda c, k=k: c19_sync(c, k), weight=3))
    obs.append(Ob('asynchronous after %s' % k, lambda c, k=k: c19_async(c, k), weight=3))
  return obs


# ---------------------------------------------------------------------------------------------------- C20
KINDS = ('response', 'log', 'reboot')


def c20_message(c, kind, label, marker, tagged=True):
  it, w = c.it, c.w
  if kind == 'log': return Msg(4, (0x68, 0x69, 0x30 + marker))
  if kind == 'reboot': return Msg(5, (w.uint('%s: reason' % label, 8),))
  t = w.choice('%s: type' % label, [1, 2, 3])
  tag = w.uint('%s: tag' % label, 8) if tagged else None
  m = Msg(t, response(c, label, tag, w.bool('%s: final' % label).node, w.bool('%s: error' % label).node, marker=marker), tag)
  m.eop = it.bits(m.payload[0])[7] if tagged else FALSE
  return m


def c20_case(c, kinds, pending=None, hist='nothing', skip=False, callback=True, reboot=False, tagged=True, split=False, same=False):
  """messages of the given kinds received together, while a request is pending or after it"""
  it, w = c.it, c.w
  h = Host(c, skip=skip, callback=callback, reboot=reboot)
  tag = w.uint('tag of the request', 8)
  history(h, hist, tag)
  connected = w.bool('connected')
  it.set_attr(h.modem, 'connected', connected)
  for sink in (h.calls, h.reboots, h.logs): del sink[:]
  kept0 = [len(e) for g, e in lists(it, h.listed('get_unsolicited_responses_received'))]
  boots0 = [len(e) for g, e in lists(it, h.listed('get_rebooted_received'))]
  if len(kept0) != 1 or len(boots0) != 1: raise Unsupported("the history leaves an unknown number of messages")
  msgs = [c20_message(c, k, 'message %d' % (i + 1), 0x42 + i, tagged) for i, k in enumerate(kinds)]
  if same: # messages of a kind are equal, byte for byte
    firsts = {}
    for m, k in zip(msgs, kinds): firsts.setdefault(k, m)
    msgs = [firsts[k] for k in kinds]
  done = FALSE
  want = dict((d, []) for d in (SYNC, CALL, KEPT, REBOOT, REBOOTS))
  waiting = pending and not skip
  logs = []
  for m, k in zip(msgs, kinds):
    if k == 'response':
      mine = it.AND(it.eq_int(m.tag, tag), TRUE) if waiting and tagged else FALSE
      if done: it.live = it.AND(it.live, it.NOT(it.AND(done, mine)))
      done = it.OR(done, it.AND(mine, m.eop))
      if mine: want[SYNC].append((mine, m, k))
      rest = it.NOT(mine)
      if callback:
        want[CALL].append((it.AND(rest, connected.node), m, k))
        want[KEPT].append((it.AND(rest, it.NOT(connected.node)), m, k))
      else: want[KEPT].append((rest, m, k))
    elif k == 'reboot': want[REBOOT if reboot else REBOOTS].append((TRUE, m, k))
    else: logs.append(m)
  batch = [h.data(m) for m in msgs] if split else [h.data(*msgs)]
  receive = lambda: h.reader(batch, 'received together')
  if pending:
    final = Msg(1, response(c, 'final', tag, TRUE, marker=0x47), tag)
    if waiting: want[SYNC].append((it.NOT(done), final, 'response'))
    state = []
    def wait(why, amount):
      if not state:
        if pending == 'wait': receive()
        # whatever is still awaited arrives, unless it already has
        live = it.live
        it.live = it.AND(live, it.NOT(done))
        if it.live: h.reader([h.data(final)], 'final response')
        it.live = live
      else: h.now = it.binop1('+', h.now, 100)
      state.append(1)
    h.on_pause = wait
    if pending == 'write': h.on_write = once(h, receive)
    live = it.live
    out, v, thrown = execute(h, command(h, tag))
    c.thrown('sync-raises', thrown, what='synchronous command')
    h.on_write = h.on_pause = None
    it.live = it.AND(live, out)
    if it.live == 0: raise Unsupported("the call never returns")
    if skip: h.compare('misrouted', SYNC, v, [])
    else: h.compare('misrouted', SYNC, v, want[SYNC])
  else: receive()
  tail = lambda l, n: it.new_seq([(g, e[n:]) for g, e in lists(it, l)])
  h.compare('misrouted', KEPT, tail(h.listed('get_unsolicited_responses_received'), kept0[0]), want[KEPT])
  h.compare('misrouted', REBOOTS, tail(h.listed('get_rebooted_received'), boots0[0]), want[REBOOTS])
  h.compare('misrouted', CALL, h.calls, want[CALL])
  h.compare('misrouted', REBOOT, h.reboots, want[REBOOT])
  for m in logs:
    g = it.AND(it.live, it.NOT(h.logged_text(m)))
    c.ok()
    if g: c.viol('misrouted', h.where(), 'a log message is not logged', g)


def c20_race(c, k, late):
  """the reader is interrupted before its k-th step while it delivers the final response; the caller goes on meanwhile"""
  it, w = c.it, c.w
  h = Host(c, callback=False)
  t0, t1 = w.uint('tag', 8), w.uint('tag of the next request', 8)
  it.live = it.AND(it.live, it.NOT(it.eq_int(t0, t1)))
  m = Msg(1, response(c, 'final', t0, TRUE, marker=0x42), t0)
  data = h.data(m)
  h.reference(m, 'response')
  first, second = command(h, t0), command(h, t1)
  h.interleave()
  task = Task(h, lambda: h.reader([data], 'final response'), k)
  n = [0]
  def wait(why, amount):
    n[0] += 1
    if n[0] == 1: task.resume()
    elif n[0] == 2 and not late: task.resume()
    if late or n[0] > 2: h.now = it.binop1('+', h.now, 100)
  h.on_pause = wait
  live = it.live
  try:
    out, v, thrown = execute(h, first)
    c.thrown('sync-raises', thrown, what='synchronous command')
    it.live = it.AND(live, out)
    if it.live == 0: raise Unsupported("the call never returns")
    if not task.stopped:
      c.ok(); return                     # the reader has no such step
    got = it.new_seq([(g, tuple(e)) for g2, l in it.alts(v) if it.may(g2) for g, e in ((it.AND(g2, g3), e) for g3, e in it.list_live(l))])
    if late:
      h.on_pause = lambda why, amount: setattr(h, 'now', it.binop1('+', h.now, 100))
      h.on_write = once(h, task.resume)
      live = it.live
      out, v2, thrown = execute(h, second)
      c.thrown('sync-raises', thrown, what='synchronous command')
      it.live = it.AND(live, out)
      if it.live == 0: raise Unsupported("the next call never returns")
      task.resume()
    else:
      task.resume()
  finally:
    it.writelog = None
    it.hooks.pop('event', None)
  if late:
    h.compare('foreign', 'the caller of the next request', v2, [])
    kept = h.listed('get_unsolicited_responses_received')
    both = []
    for g, a in it.list_live(got):
      for g2, b in lists(it, kept):
        if it.may(it.AND(g, g2)): both.append((it.AND(g, g2), a + b))
    h.compare('lost', 'the caller or the unsolicited list', it.new_seq(both), [(TRUE, m, 'response')])
  else: h.compare('misrouted', SYNC, got, [(TRUE, m, 'response')])


def c20(base, tier):
  obs = []
  def add(name, **kw): obs.append(Ob(name, lambda c: c20_case(c, **kw), weight=len(kw['kinds'])))
  for skip in (False, True):
    for callback in (True, False):
      for reboot in (True, False):
        for pending in (None, 'write', 'wait'):
          if skip and pending == 'wait': continue
          for k1 in KINDS:
            for k2 in KINDS:
              if tier == 'quick' and not callback and reboot and k1 != 'reboot' and k2 != 'reboot': continue
              add('%s and %s%s%s%s%s' % (k1, k2, ', raw' if skip else '', ', callback' if callback else '', ', reboot callback' if reboot else '',
                                         ', request pending (%s)' % pending if pending else ''),
                  kinds=(k1, k2), skip=skip, callback=callback, reboot=reboot, pending=pending)
  for callback in (True, False):
    for hist in HISTORIES[1:]:
      add('responses after a request: %s%s' % (hist, ', callback' if callback else ''), kinds=('response', 'response'), hist=hist, callback=callback)
    for pending in (None, 'write', 'wait'):
      add('responses without tag%s%s' % (', callback' if callback else '', ', request pending (%s)' % pending if pending else ''), kinds=('response', 'response'),
          tagged=False, callback=callback, pending=pending)
    for skip in (False, True):
      for ks in (('reboot', 'reboot', 'response'), ('log', 'log', 'response'), ('response', 'reboot', 'response'), ('response', 'response', 'response')):
        add('equal messages: %s%s%s' % (', '.join(ks), ', raw' if skip else '', ', callback' if callback else ''), kinds=ks, same=True, skip=skip, callback=callback)
    for hist in ('completed', 'timeout'):
      add('responses without tag after a request: %s%s' % (hist, ', callback' if callback else ''), kinds=('response',), tagged=False, hist=hist, callback=callback)
  for k in range(1, 13):
    obs.append(Ob('time over while the reader is at step %d' % k, lambda c, k=k: c20_race(c, k, True)))
    obs.append(Ob('caller goes on while the reader is at step %d' % k, lambda c, k=k: c20_race(c, k, False)))
  add('three responses', kinds=('response',) * 3, pending='write')
  add('three messages one by one', kinds=('reboot', 'response', 'log'), pending='write', split=True)
  if tier != 'quick':
    for k1 in KINDS:
      for k2 in KINDS:
        for k3 in KINDS:
          for p in (None, 'write'): add('%s, %s and %s%s' % (k1, k2, k3, ' pending' if p else ''), kinds=(k1, k2, k3), pending=p)
  return obs


# ---------------------------------------------------------------------------------------------------- C21
class StoreLog(object):
  """stores into objects become events"""
  def __init__(self, it): self.it = it
  def append(self, x): self.it.event('store', obj=x[0], what=x[1])


class Section(object):
  """what is known about locks along one call, per path"""
  def __init__(self, h):
    self.h, self.it = h, h.it
    self.held = {}                   # id -> [lock, guard]
    self.wrote_here = FALSE          # a byte was written in the current critical section
    self.wrote_before = FALSE        # a byte was written in an earlier critical section of this call
    self.counted_here = FALSE        # the frame counter moved in the current critical section
    self.counted = FALSE             # ... anywhere in this call
    self.common = None               # locks held at every write so far

  def call(self):
    self.wrote_here = self.wrote_before = self.counted_here = self.counted = FALSE

  def none_held(self):
    r = TRUE
    for l, g in self.held.values(): r = self.it.AND(r, self.it.NOT(g))
    return r

  def run(self, events, parsers, what):
    it, c = self.it, self.h.c
    for live, kind, data, loc in events:
      if kind == 'acquire':
        o = data['obj']
        g = it.AND(live, data.get('got', TRUE))
        fresh = it.AND(g, self.none_held())
        l = self.held.setdefault(id(o), [o, FALSE])
        again = it.AND(g, l[1])
        if again and o.cls.name == 'Lock': c.viol('deadlock', place(loc), '%s: the lock is taken again by the thread that holds it' % what, again, loc)
        l[1] = it.OR(l[1], g)
        self.counted_here = it.AND(self.counted_here, it.NOT(fresh))
        self.wrote_before = it.OR(self.wrote_before, it.AND(self.wrote_here, fresh))
        self.wrote_here = it.AND(self.wrote_here, it.NOT(fresh))
        c.ok()
      elif kind == 'release':
        o = data['obj']
        l = self.held.setdefault(id(o), [o, FALSE])
        bad = it.AND(live, it.NOT(l[1]))
        if bad: c.viol('released-twice', place(loc), '%s: a lock that is not held is released' % what, bad, loc)
        l[1] = it.AND(l[1], it.NOT(live))
      elif kind in ('serial_write', 'serial_flush'):
        free = it.AND(live, self.none_held())
        c.ok()
        if free: c.viol('unlocked', place(loc), '%s: %s on the device without holding a lock' % (what, kind[7:]), free, loc)
        here = set(i for i, (o, g) in self.held.items() if it.AND(live, it.NOT(g)) == 0)
        self.common = here if self.common is None else self.common & here
        if not self.common and not free:
          c.viol('different-locks', place(loc), '%s: no lock is common to all writes to the device' % what, live, loc)
        if kind == 'serial_write':
          split = it.AND(live, self.wrote_before)
          if split: c.viol('frame-split', place(loc), '%s: a frame is written in several critical sections' % what, split, loc)
          early = it.AND(live, it.AND(self.counted, it.NOT(self.counted_here)))
          if early: c.viol('counter-order', place(loc), '%s: the frame got its counter outside the critical section that writes it' % what, early, loc)
          self.wrote_here = it.OR(self.wrote_here, live)
      elif kind == 'store':
        if any(data['obj'] is p for p in parsers):
          free = it.AND(live, self.none_held())
          if free: c.viol('counter-unlocked', place(loc), '%s: the state of the frame builder changes without a lock' % what, free, loc)
          self.counted = it.OR(self.counted, live)
          self.counted_here = it.OR(self.counted_here, live)

  def finish(self, g, what, loc=None):
    it, c = self.it, self.h.c
    c.ok()
    for l, held in self.held.values():
      bad = it.AND(g, held)
      if bad: c.viol('lock-kept', self.h.where(), '%s: the lock is still held at the end' % what, bad)


def faulty(h, names, kinds=('serial.SerialTimeoutException',)):
  it, w = h.it, h.w
  used = []
  def f(what):
    if what not in names or len(used) > 6: return
    used.append(what)
    for k in kinds: it.raise_(k, 'device error', guard=w.bool('%s fails (%d)' % (what, len(used))).node)
    if it.live == 0: raise Dead()
  return f


def c21_calls(c, calls, fault=(), skip=False, size=1, alive=True):
  it, w = c.it, c.w
  h = Host(c, skip=skip, callback=False)
  if fault: h.fault = faulty(h, fault)
  parsers = [v for v in h.modem.attrs.values() if isinstance(v, Obj) and h.parser in v.cls.mro]
  h.on_pause = lambda why, n: setattr(h, 'now', it.binop1('+', h.now, 100))
  it.writelog = StoreLog(it)
  s = Section(h)
  try:
    for i, fn in enumerate(calls):
      n = len(it.events)
      s.call()
      live = it.live
      if fn == 'connect': out, v, thrown = it.run(lambda: it.call(it.get_attr(h.modem, fn), [alive], {}))
      elif fn == 'zero': out, v, thrown = execute(h, command(h, w.uint('tag %d' % i, 8), size), timeout=0)
      else: out, v, thrown = execute(h, command(h, w.uint('tag %d' % i, 8), size), fn=fn)
      ev = it.events[n:]
      if not any(e[1] == 'serial_write' for e in ev) and size == 1 and not (fn == 'connect' and not alive):
        c.viol('nothing-written', h.where(), '%s writes nothing to the device' % fn, live)
      s.run(ev, parsers, fn)
      end = out
      for t in thrown: end = it.OR(end, t.guard)
      s.finish(end, fn)
      it.live = it.AND(live, end)
      if it.live == 0: raise Unsupported("the call never returns")
  finally: it.writelog = None


def c21(base, tier):
  obs = []
  fns = ('execute_command', 'execute_command_async', 'zero', 'connect')
  for a in fns:
    for b in fns:
      obs.append(Ob('%s then %s' % (a, b), lambda c, a=a, b=b: c21_calls(c, (a, b))))
  for a in fns[:3]:
    obs.append(Ob('%s, device errors' % a, lambda c, a=a: c21_calls(c, (a, 'execute_command_async'), fault=('write', 'flush'))))
    obs.append(Ob('%s, command too long' % a, lambda c, a=a: c21_calls(c, (a,), size=300)))
    obs.append(Ob('%s, raw mode' % a, lambda c, a=a: c21_calls(c, (a, a), skip=True)))
  obs.append(Ob('connect, device errors', lambda c: c21_calls(c, ('connect', 'execute_command'), fault=('write', 'flush'))))
  obs.append(Ob('connect, raw mode', lambda c: c21_calls(c, ('connect', 'execute_command'), skip=True, fault=('write', 'flush'))))
  return obs


# ---------------------------------------------------------------------------------------------------- C22
ERRORS = ('serial.SerialException', 'serial.PortNotOpenError', 'serial.SerialTimeoutException')


def reconnects(h, what):
  """after an error the device is closed and opened again before it is read"""
  it, c = h.it, h.c
  broken = closed = FALSE
  for live, kind, data, loc in h.io:
    if kind == 'error': broken, closed = it.OR(broken, live), it.AND(closed, it.NOT(live))
    elif kind == 'close': closed = it.OR(closed, it.AND(live, broken))
    elif kind == 'opened':
      c.ok()
      bad = it.AND(it.AND(live, broken), it.NOT(closed))
      if bad: c.viol('not-closed', place(loc), '%s: after a device error the device is opened without having been closed' % what, bad, loc)
      broken = it.AND(broken, it.NOT(live))
    elif kind == 'read':
      c.ok()
      bad = it.AND(live, broken)
      if bad: c.viol('no-reconnect', place(loc), '%s: the device is read again after an error without a new connection' % what, bad, loc)


def c22_case(c, n, skip=False, fails=2, chunks=False):
  """n reads of any kind"""
  it, w = c.it, c.w
  h = Host(c, skip=skip)
  it.set_attr(h.modem, 'connected', True)
  count = [0]
  def fault(what):
    if what == 'open':
      count[0] += 1
      if count[0] <= fails * n: it.raise_('serial.SerialException', 'no such device', guard=w.bool('opening fails (%d)' % count[0]).node)
      if it.live == 0: raise Dead()
      h.dev_event('opened')
  h.fault = fault
  script, want = [], []
  part = [FALSE, None]
  for i in range(n):
    kinds = ['frame', 'nothing', 'garbage', 'bad checksum'] + list(ERRORS)
    sel = w.choice('read %d' % (i + 1), kinds)
    m = Msg(1, response(c, 'message', 0x11 * (i + 1), TRUE, marker=0x41 + i))
    f = h.frame(m)
    item = []
    for g, k in it.alts(sel):
      if k == 'frame':
        item.append((g, text_of(it, f)))
        want.append((g, m, 'response'))
      elif k == 'nothing': item.append((g, ''))
      elif k == 'garbage': item.append((g, text_of(it, (0x41, 0x00, 0x13))))
      elif k == 'bad checksum': item.append((g, text_of(it, f[:5] + (it.bitop('^', f[5], 1),) + f[6:])))
      else: item.append((g, ('raise', k)))
    script.append(item)
  # reading goes on
  last = Msg(2, response(c, 'last message', 0x77, TRUE, marker=0x40))
  script.append(h.data(last))
  want.append((TRUE, last, 'response'))
  h.reader(script, 'reads of any kind')
  h.compare('delivery', CALL, h.calls, want)
  reconnects(h, 'reads of any kind')


def c22_chunks(c, cut):
  """a frame in pieces, with empty reads between"""
  it, w = c.it, c.w
  h = Host(c)
  it.set_attr(h.modem, 'connected', True)
  a = Msg(1, response(c, 'message', 0x11, TRUE, marker=0x41))
  b = Msg(1, response(c, 'message', 0x12, TRUE, marker=0x42))
  f, g2 = h.frame(a), h.frame(b)
  h.reader([text_of(it, f[:cut]), '', text_of(it, f[cut:] + g2[:cut]), '', '', text_of(it, g2[cut:]), ''], 'a frame in pieces')
  h.compare('delivery', CALL, h.calls, [(TRUE, a, 'response'), (TRUE, b, 'response')])


def c22_stop(c, where, n):
  """the application stops the reader"""
  it, w = c.it, c.w
  h = Host(c)
  it.set_attr(h.modem, 'connected', True)
  stopped = [FALSE]
  def stop():
    out, v, thrown = it.run(lambda: it.call(it.get_attr(h.modem, 'stop_reading'), [], {}))
    c.thrown('stop-raises', thrown, what='stopping')
    stopped[0] = it.OR(stopped[0], it.AND(it.live, out))
  fails = [0]
  def fault(what):
    if what == 'open':
      if where == 'reconnect' or fails[0]:
        fails[0] += 1
        if fails[0] > 4: raise Dead()
        it.raise_('serial.SerialException', 'no such device')
        raise Dead()
      h.dev_event('opened')
  h.fault = fault
  script = ['' for _ in range(n)]
  if where == 'read':
    err = w.bool('the read fails').node
    def item():
      stop()
      return [(it.NOT(err), ''), (err, ('raise', ERRORS[0]))]
    script.append(item)
  else:
    script.append(('raise', ERRORS[0]))
    pauses = [0]
    def pause(why, amount):
      pauses[0] += 1
      if pauses[0] == 2: stop()
      if pauses[0] > 5: h.end()
    h.reader_pause = pause
  k = len(script)
  script += [''] * 3
  out, parked, thrown = h.run_reader(script)
  for t in thrown: c.viol('reader-died', place(t.loc), "stopping: %s ends the reader thread" % it.exc_name(t.exc), t.guard, t.loc)
  c.ok()
  on = it.AND(stopped[0], it.NOT(out))
  for t in thrown: on = it.AND(on, it.NOT(t.guard))
  if on: c.viol('reader-runs-on', h.where(), 'the reader thread goes on after it was asked to stop', on)
  if not stopped[0]: c.undecided('the reader never got to the point where it is stopped')


def c22(base, tier):
  obs = []
  for skip in (False, True):
    for n in (1, 2, 3) + ((4,) if tier != 'quick' else ()):
      obs.append(Ob('%d reads%s' % (n, ', raw' if skip else ''), lambda c, n=n, skip=skip: c22_case(c, n, skip, fails=1), weight=n))
  obs.append(Ob('1 read, device away for long', lambda c: c22_case(c, 1, False, fails=4)))
  for cut in (1, 3, 7, 9, 12): obs.append(Ob('frame cut at %d' % cut, lambda c, cut=cut: c22_chunks(c, cut)))
  for n in (0, 2):
    obs.append(Ob('stopped while reading, read %d' % (n + 1), lambda c, n=n: c22_stop(c, 'read', n)))
  obs.append(Ob('stopped while reconnecting', lambda c: c22_stop(c, 'reconnect', 1)))
  return obs


# ---------------------------------------------------------------------------------------------------- C29
UIDB = (0x43, 0x37, 0x31, 0x34, 0x00, 0x5A, 0x00, 0x1B)
FWB = (1, 2, 0, 3) + tuple(ord(x) for x in 'sensor' + 'deadbee')
PIECES = ('uid', 'fw', 'other', 'write', 'header')


def piece(c, kind, i):
  w, it = c.w, c.it
  if kind == 'uid': return (0x20, 0x00, 0, 8) + UIDB
  if kind == 'fw': return (0x20, 0x02, 0, len(FWB)) + FWB
  if kind == 'other':
    n = w.uint('file of action %d' % (i + 1), 8)
    n = it.ite_val(it.OR(it.eq_int(n, 0), it.eq_int(n, 2)), 1, n)
    return (0x20, n, 0, 8) + UIDB
  if kind == 'write': return (0x04, 0x00, 0, 8) + UIDB
  if kind == 'header': return (0x21, 0x02, 0x24, 0x23, 0xFF, 0xFF, 0, 0, 0, 17, 0, 0, 0, 17)
  if kind == 'short': return (0x20, 0x00, 0, 4) + UIDB[:4]


def request_tag(h):
  """tag of the request last written"""
  it = h.it
  out = []
  for g, v in h.written[-1:]:
    for g2, x in it.alts(v):
      if not it.may(it.AND(g, g2)): continue
      for g3, e in (it.list_live(x) if isinstance(x, ListV) else it.seq_entries(x)):
        if len(e) < 9 or e[7] not in (0x34, 0xB4): raise Unsupported("the query carries no tag")
        out.append((it.AND(g2, g3), e[8]))
  return it.merge_all(out)


def attempt(h, pieces, eop=TRUE, alive=None, types=1):
  """one call of connect during which the modem answers with the given actions; (guard, value, thrown)"""
  it, c = h.it, h.c
  extra = ()
  def answer():
    if pieces is None: return
    e = ()
    for i, k in enumerate(pieces): e = e + piece(c, k, i)
    ctl = it.norm_int((TRUE, TRUE, FALSE, FALSE, FALSE, TRUE, FALSE, eop, FALSE))
    h.reader([h.data(Msg(types, (ctl, request_tag(h)) + e))], 'answer to the query')
  h.on_write = once(h, answer)
  h.on_pause = lambda why, n: setattr(h, 'now', it.binop1('+', h.now, 100))
  r = it.run(lambda: it.call(it.get_attr(h.modem, 'connect'), [] if alive is None else [alive], {}))
  h.on_write = h.on_pause = None
  return r


def connected(h):
  return h.it.truth(h.it.get_attr(h.modem, 'connected'))


def c29_answers(c, attempts, eop=True):
  """attempts: the actions of each answer (None: no answer); every attempt but the last must fail"""
  it, w = c.it, c.w
  h = Host(c, callback=False)
  for i, pieces in enumerate(attempts):
    what = 'answer with %s' % (', '.join(pieces) if pieces else 'nothing' if pieces is not None else 'no response')
    e = w.bool('final %d' % i).node if not eop else TRUE
    live = it.live
    out, v, thrown = attempt(h, pieces, e)
    good = pieces is not None and 'uid' in pieces and 'fw' in pieces
    if not (pieces and 'short' in pieces): c.thrown('connect-raises', thrown, what=what)
    end = out
    for t in thrown: end = it.OR(end, t.guard)
    it.live = it.AND(live, end)
    if it.live == 0: raise Unsupported("connect never returns")
    conn = connected(h)
    ok = e if good else FALSE
    c.ok()
    for g, msg in ((it.AND(conn, it.NOT(ok)), 'the modem is marked connected though it did not identify itself'),
                   (it.AND(ok, it.NOT(conn)), 'the modem identified itself but is not marked connected')):
      bad = it.AND(it.live, g)
      if bad: c.viol('connected', h.where(), '%s: %s' % (what, msg), bad)
    it.live = it.AND(it.live, out)
    if it.live == 0: return
    t = it.truth(v)
    for g, msg in ((it.AND(t, it.NOT(ok)), 'success is reported though the modem did not identify itself'),
                   (it.AND(ok, it.NOT(t)), 'the modem identified itself but failure is reported')):
      bad = it.AND(it.live, g)
      if bad: c.viol('reported', h.where(), '%s: %s' % (what, msg), bad)
    if good and pieces.count('uid') == 1 and pieces.count('fw') == 1:
      it.live = it.AND(it.live, ok)
      n = 0
      for b in UIDB: n = n << 8 | b
      for g, path, why in diff(it, it.get_attr(h.modem, 'uid'), '%x' % n): c.viol('identity', h.where(), '%s: the unique id is not the one of the response: %s' % (what, why), g)
      ref = accepted(w, lambda: it.call(it.get_attr(w.cls(SF + 'firmware_version.FirmwareVersionFile'), 'parse'), [w.stream(FWB)], {}))
      for g, path, why in diff(it, it.get_attr(h.modem, 'firmware_version'), ref): c.viol('identity', h.where(), '%s: the firmware version is not the one of the response: %s %s' % (what, path, why), g)
      c.ok(2)
      # not asked again
      n = len(h.written)
      live = it.live
      out, v, thrown = attempt(h, None)
      c.thrown('connect-raises', thrown, what='connecting again')
      c.ok()
      if len(h.written) > n: c.viol('asked-again', h.where(), 'a connected modem is queried again', h.written[n][0])
      if it.AND(live, out):
        it.live = it.AND(live, out)
        lost = it.AND(it.live, it.NOT(connected(h)))
        if lost: c.viol('connected', h.where(), 'connecting again disconnects the modem', lost)


def c29_mode(c, skip, alive):
  it, w = c.it, c.w
  h = Host(c, skip=skip, callback=False)
  live = it.live
  out, v, thrown = attempt(h, None, alive=alive)
  c.thrown('connect-raises', thrown)
  it.live = it.AND(live, out)
  if it.live == 0: raise Unsupported("connect never returns")
  c.ok(2)
  bad = it.AND(it.live, it.NOT(it.truth(v)))
  if bad: c.viol('reported', h.where(), 'connecting without a check reports failure', bad)
  bad = it.AND(it.live, it.NOT(connected(h)))
  if bad: c.viol('connected', h.where(), 'connecting without a check leaves the modem unconnected', bad)
  n = len(h.written)
  out, v, thrown = attempt(h, None)
  c.thrown('connect-raises', thrown, what='connecting again')
  c.ok()
  if len(h.written) > n: c.viol('asked-again', h.where(), 'a connected modem is queried again', h.written[n][0])


def c29_fresh(c):
  it, w = c.it, c.w
  h = Host(c, callback=False)
  c.ok()
  bad = it.AND(it.live, connected(h))
  if bad: c.viol('connected', h.where(), 'a new modem is marked connected', bad)


def c29(base, tier):
  import itertools
  obs = [Ob('before connecting', c29_fresh)]
  top = 2 if tier == 'quick' else 3
  for n in range(top + 1):
    for p in itertools.product(PIECES, repeat=n): obs.append(Ob('answer: %s' % (', '.join(p) or 'empty'), lambda c, p=p: c29_answers(c, [p])))
  for p in (('other', 'uid', 'fw'), ('fw', 'other', 'uid'), ('write', 'fw', 'uid'), ('uid', 'header', 'other'), ('header', 'fw', 'uid'), ('uid', 'uid', 'fw')):
    if top < 3: obs.append(Ob('answer: %s' % ', '.join(p), lambda c, p=p: c29_answers(c, [p])))
  obs.append(Ob('answer never final', lambda c: c29_answers(c, [('uid', 'fw')], eop=False)))
  obs.append(Ob('no answer', lambda c: c29_answers(c, [None])))
  obs.append(Ob('no answer, then one', lambda c: c29_answers(c, [None, ('uid', 'fw')])))
  obs.append(Ob('uid too short', lambda c: c29_answers(c, [('short', 'fw')])))
  for a, b in ((('uid',), ('fw',)), (('fw',), ('uid',)), (('uid',), ('uid',)), (('fw',), ('uid', 'fw')), (('uid', 'other'), None)):
    obs.append(Ob('answer: %s; then %s' % (', '.join(a), ', '.join(b or ('none',))), lambda c, a=a, b=b: c29_answers(c, [a, b])))
  for skip, alive in ((True, None), (True, True), (False, False), (True, False)):
    obs.append(Ob('raw mode %s, check %s' % (skip, alive), lambda c, skip=skip, alive=alive: c29_mode(c, skip, alive)))
  return obs


# ---------------------------------------------------------------------------------------------------- C28
BRIDGE = 'tools.modem2mqtt.Modem2Mqtt'
CLIENT = 'paho.mqtt.client.Client()'


def c28_case(c, n, publish_fails=False, log_fails=False, kinds=None, same=None, argv=None):
  it, w = c.it, c.w
  h = Host(c, make=False)
  it.load('argparse'); it.load('paho.mqtt.client')
  config = it.new_obj(models.OBJECT)
  config.attrs.update(device='/dev/modem', device_id='site-7', rate=w.uint('rate', 22), verbose=w.bool('verbose'), broker='broker.example', topic='/up/{}/alp')
  topic = '/up/site-7/alp'
  armed = [False]
  published = []
  fails = [0]
  def publish(it, a, k):
    if not armed[0]: return None
    t = a[0] if a else k.get('topic')
    p = a[1] if len(a) > 1 else k.get('payload')
    published.append((it.live, (t, p), it.loc()))
    if publish_fails:
      fails[0] += 1
      for e in ('ValueError', 'IOError', 'Exception'): it.raise_(e, 'broker', guard=w.bool('publishing fails with %s (%d)' % (e, fails[0])).node)
      if it.live == 0: raise Dead()
    return Opaque('published')
  def on_connect(it, a, k):
    for live, kind, data, loc in reversed(it.events):
      if kind == 'opaque_set' and data['name'] == 'on_connect':
        it.call(data['value'], [Opaque(CLIENT), None, None, 0], {})
        return None
  h_ = it.hooks
  if argv:
    from .checks_tools import CommandLine
    cl = CommandLine(c, argv, {})
    config.attrs['rate'] = 57600
  else: h_['opaque:argparse.ArgumentParser().parse_args'] = lambda it, a, k: config
  h_['opaque:%s.publish' % CLIENT] = publish
  asked = []
  def broker(it, a, k):
    asked.append((it.live, a[0] if a else k.get('host'), it.loc()))
    return 0
  h_['opaque:%s.connect' % CLIENT] = broker
  def broker_async(it, a, k):
    broker(it, a, k)
    return on_connect(it, a, k)
  h_['opaque:%s.connect_async' % CLIENT] = broker_async
  for x in ('loop_start', 'loop_forever'): h_['opaque:%s.%s' % (CLIENT, x)] = on_connect
  nev = len(it.events)
  h.skip = True
  h.on_pause = lambda why, n: setattr(h, 'now', it.binop1('+', h.now, 100))
  b = h.made(lambda: it.call(w.cls(BRIDGE), [], {}), BRIDGE)
  if argv and cl.refused: c.viol('not-made', BRIDGE, cl.refused); return
  h.find_reader(nev)
  armed[0] = True
  if n == 1:
    opened(h, nev, '/dev/modem', config.attrs['rate'])
    c.ok()
    reached = FALSE
    for g, x, loc in asked:
      reached = it.OR(reached, g)
      bad = it.AND(it.live, it.AND(g, differs(it, x, 'broker.example')))
      if bad: c.viol('broker', place(loc), 'connects to another broker than the configured one', bad)
    bad = it.AND(it.live, it.NOT(reached))
    if bad: c.viol('broker', BRIDGE, 'never connects to the broker', bad)
  if log_fails:
    logf = [0]
    old = h_['opaque:logging.info']
    def info(it, a, k):
      logf[0] += 1
      if logf[0] <= 6: it.raise_('IOError', 'log', guard=w.bool('logging fails (%d)' % logf[0]).node)
      if it.live == 0: raise Dead()
      return None
    h_['opaque:logging.info'] = info
  script, want, pend = [], [], None
  for i in range(n):
    k = kinds[i] if kinds else 'response'
    if k == 'log': m = Msg(4, (0x68, 0x69)); script.append(h.data(m)); continue
    if k == 'reboot': m = Msg(5, (w.uint('reason', 8),)); script.append(h.data(m)); continue
    m = Msg(w.choice('type of message %d' % (i + 1), [1, 2, 3]), tuple(w.uint('byte %d.%d' % (i + 1, j), 8) for j in range(3 + (0 if same else i))))
    if same == 'equal' and want: m = Msg(m.type, want[0].payload)
    elif same == 'fixed': m = Msg(1, (0x34, 0x07, 0x23))
    want.append(m)
    if i == 0 and n == 3: pend = m; continue
    script.append(h.data(pend, m) if pend is not None else h.data(m))
    pend = None
  h.reader(script, 'received commands')
  got = [(g, v) for g, v, loc in published]
  live = it.live
  for g, (t, p) in got:
    it.live = it.AND(live, g)
    c.ok()
    for g2, path, why in diff(it, t, topic): c.viol('topic', BRIDGE, 'published on another topic than the configured one: %s' % why, g2)
    for g2, x in it.alts(p):
      if it.may(g2) and not (isinstance(x, (str, SStr)) or isinstance(x, ListV) and x.kind == 'bytearray'):
        c.viol('payload', BRIDGE, 'the payload is published as %s' % nameof(x), it.AND(it.live, g2))
    it.live = live
  if log_fails:
    # a failing log may cost a message, never the reader
    return
  for m in want: m.refs['raw'] = models.bytearray_ctor(it, models.BYTEARRAY, [text_of(it, m.payload)], {})
  raw = []
  for g, (t, p) in got:
    it.live = it.AND(live, g)
    try: raw.append((g, it.split(p, lambda x: models.bytearray_ctor(it, models.BYTEARRAY, [x], {}) if isinstance(x, (str, SStr)) else x)))
    finally: it.live = live
  h.compare('published', 'the broker', raw, [(TRUE, m, 'raw') for m in want])


def c28(base, tier):
  short = ['-d', '/dev/modem', '-di', 'site-7', '-r', '57600', '-b', 'broker.example', '-t', '/up/{}/alp']
  long_ = ['--device', '/dev/modem', '--device-id', 'site-7', '--rate', '57600', '--broker', 'broker.example', '--topic', '/up/{}/alp', '--verbose']
  return [Ob('one command', lambda c: c28_case(c, 1)), Ob('started with short options', lambda c: c28_case(c, 1, argv=short)), Ob('started with long options', lambda c: c28_case(c, 1, argv=long_)),
          Ob('two commands', lambda c: c28_case(c, 2)), Ob('three commands, two together', lambda c: c28_case(c, 3)),
          Ob('publishing fails', lambda c: c28_case(c, 2, publish_fails=True)), Ob('logging fails', lambda c: c28_case(c, 1, log_fails=True)),
          Ob('three commands, publishing fails', lambda c: c28_case(c, 3, publish_fails=True)),
          Ob('the same command twice', lambda c: c28_case(c, 2, same='equal')), Ob('the same command three times', lambda c: c28_case(c, 3, same='equal')),
          Ob('the same known command three times', lambda c: c28_case(c, 3, same='fixed')), Ob('commands of one length', lambda c: c28_case(c, 3, same='length')),
          Ob('the same command, other messages between', lambda c: c28_case(c, 4, kinds=('response', 'log', 'reboot', 'response'), same='fixed')),
          Ob('other messages between', lambda c: c28_case(c, 4, kinds=('log', 'response', 'reboot', 'response')))]


# ---------------------------------------------------------------------------------------------------- C34
def c34_case(c, arrives, partial=False, timeout=None, hist='nothing', parts=1, step=1, bare=False):
  """the final response arrives during the write (0), during a wait (1, 2, ...) or never (None); delays and timeout unknown"""
  it, w = c.it, c.w
  h = Host(c, callback=False)
  def part(n): return n if parts == 1 else SFloat(n, parts)     # a number of seconds, which need not be whole
  old = w.uint('earlier tag', 8)
  history(h, hist, old)
  tag = w.uint('tag', 8)
  final = Msg(1, response(c, 'final', tag, TRUE, marker=None if bare else 0x43))
  first = Msg(1, response(c, 'first', tag, FALSE, marker=None if bare else 0x42))
  if timeout is None:
    t = w.uint('timeout', 4)
    it.live = it.AND(it.live, it.NOT(it.eq_int(t, 0)))
    timeout = part(t)
  start = h.now
  done = [FALSE]              # final response handed over
  intime = [FALSE]            # ... before the time was over
  over = lambda: it.NOT(it.lt_node(h.now, it.binop1('+', start, timeout)))
  n = [0]
  begun = []
  loc0 = 'modem/modem.py:Modem.execute_command'
  def deliver():
    if partial == 'with': h.reader([h.data(first), h.data(final)], 'response')
    else: h.reader([h.data(final)], 'response')
    done[0] = it.OR(done[0], it.live)
    intime[0] = it.OR(intime[0], it.AND(it.live, it.NOT(over())))
  def write():
    if partial == 'before' and arrives == 1: h.reader([h.data(first)], 'response')
    if arrives == 0: deliver()
  def pause(why, amount):
    n[0] += 1
    c.ok(2)
    g = it.AND(it.live, done[0])
    if g: c.viol('waits-on', loc0, 'the call goes on waiting though the final response has arrived', g, it.loc())
    g = it.AND(it.live, it.lt_node(it.binop1('+', start, timeout), h.now))
    if g: c.viol('late', loc0, 'the call starts another wait though its time is over', g, it.loc())
    for g, a in it.alts(amount):
      if not it.may(g): continue
      if a is None: c.viol('late', loc0, 'the call waits without a limit', it.AND(it.live, g), it.loc()); continue
      if not (it.is_intlike(a) or isinstance(a, (int, float)) or a.__class__.__name__ == 'SFloat'): continue
      if why == 'sleep': long = it.lt_node(1, a)
      else: long = it.lt_node(it.binop1('+', it.binop1('+', start, timeout), 1), it.binop1('+', h.now, a))
      long = it.AND(it.AND(it.live, g), long)
      if long: c.viol('late', loc0, 'a single %s is longer than the time left' % why, long, it.loc())
    if n[0] > 4: h.end()
    if partial == 'before' and n[0] == arrives - 1: h.reader([h.data(first)], 'response')
    if arrives is not None and n[0] == arrives: deliver()
    h.now = it.binop1('+', h.now, part(it.binop1('*', w.uint('delay %d' % n[0], 3), step)))
    if why == 'wait' and it.is_intlike(amount) and not (arrives is not None and n[0] == arrives):
      # a wait that is not woken lasts as long as asked
      h.now = it.ite_val(it.lt_node(h.now, it.binop1('+', begun[-1] if begun else start, amount)), it.binop1('+', start, amount), h.now)
  h.on_write = once(h, write)
  h.on_pause = pause
  live = it.live
  out, v, thrown = execute(h, command(h, tag), timeout)
  c.thrown('sync-raises', thrown, what='synchronous command')
  it.live = it.AND(live, out)
  if it.live == 0: raise Unsupported("the call never returns")
  c.ok(2)
  want = ([(intime[0], first, 'response')] if partial else []) + [(intime[0], final, 'response')]
  live = it.live
  # a response that arrives when the time is over may or may not be returned
  it.live = it.AND(live, it.NOT(it.AND(done[0], it.NOT(intime[0]))))
  if it.live: h.compare('answer', 'the caller', v, want)
  it.live = live
  early = it.AND(it.live, it.AND(it.NOT(done[0]), it.NOT(over())))
  if early: c.viol('early', loc0, 'the call returns without the final response before its time is over', early)


def c34(base, tier):
  obs = []
  for a in (None, 0, 1, 2, 3):
    for p in (False, 'with', 'before'):
      if a is None and p or a == 0 and p == 'before': continue
      obs.append(Ob('final response %s%s' % ('never' if a is None else 'during the write' if a == 0 else 'during wait %d' % a, ', %s a partial one' % ('after' if p == 'before' else p) if p else ''),
                    lambda c, a=a, p=p: c34_case(c, a, p)))
    obs.append(Ob('final response %s, ten seconds' % ('never' if a is None else a), lambda c, a=a: c34_case(c, a, timeout=10)))
    obs.append(Ob('final response %s, parts of seconds' % ('never' if a is None else a), lambda c, a=a: c34_case(c, a, parts=4)))
    obs.append(Ob('final response %s, more than a day' % ('never' if a is None else a), lambda c, a=a: c34_case(c, a, timeout=90000, step=30000)))
  for a in (0, 1, 2):
    for p in (False, 'with'):
      obs.append(Ob('response that only completes, %s%s' % ('during the write' if a == 0 else 'during wait %d' % a, ', with a partial one' if p else ''), lambda c, a=a, p=p: c34_case(c, a, p, bare=True)))
  for k in HISTORIES[1:]:
    obs.append(Ob('after a request: %s' % k, lambda c, k=k: c34_case(c, 2, hist=k)))
    obs.append(Ob('never, after a request: %s' % k, lambda c, k=k: c34_case(c, None, hist=k)))
  return obs


# ---------------------------------------------------------------------------------------------------- C38
SERIAL_ARGS = ('port', 'baudrate', 'bytesize', 'parity', 'stopbits', 'timeout', 'xonxoff', 'rtscts', 'write_timeout', 'dsrdtr', 'inter_byte_timeout', 'exclusive')
TRANSPARENT = (('bytesize', 8, 'eight data bits'), ('parity', 'N', 'no parity'), ('stopbits', 1, 'one stop bit'), ('xonxoff', False, 'no software flow control'),
               ('rtscts', False, 'no hardware flow control'), ('dsrdtr', False, 'no hardware flow control'))


def setting(e, name, default=None):
  """setting of a device as it was made or changed since"""
  o, a, k = e['obj'], e['args'] or [], e['kwargs'] or {}
  if name in o.attrs: return o.attrs[name]
  if name in k: return k[name]
  i = SERIAL_ARGS.index(name)
  return a[i] if i < len(a) else default


def differs(it, v, want):
  """node: v is not want"""
  out = FALSE
  for g, x in it.alts(v):
    if not it.may(g): continue
    if isinstance(want, bool): n = it.NOT(it.truth(x)) if want else it.truth(x)
    elif x is None or isinstance(x, Opaque):
      if isinstance(x, Opaque): raise Unsupported('device setting')
      n = TRUE
    elif isinstance(want, str) and isinstance(x, str): n = TRUE if x != want else FALSE
    elif isinstance(want, (str, SStr)): n = FALSE if isinstance(x, (str, SStr)) and it.shape(it.seq_entries(x)[0][1]) == it.shape(it.seq_entries(want)[0][1]) else TRUE
    else: n = it.NOT(it.eq_node(x, want))
    out = it.OR(out, it.AND(g, n))
  return out


def opened(h, n, port, rate):
  """every device opened since event n has the settings asked for"""
  c, it = h.c, h.it
  seen = [(g, d, l) for g, kind, d, l in events(it, n) if kind == 'serial_new']
  c.ok()
  if not seen: c.viol('not-opened', h.where(), 'no device is opened'); return None
  for g, d, loc in seen:
    if not it.may(g): continue
    where = place(loc) if loc else h.where()
    g = it.AND(g, it.live)
    c.ok(8)
    bad = it.AND(g, differs(it, setting(d, 'port'), port))
    if bad: c.viol('port', where, 'the device opened is not the one asked for', bad)
    bad = it.AND(g, differs(it, setting(d, 'baudrate', 9600), rate))
    if bad: c.viol('rate', where, 'the device is not opened with the rate asked for', bad)
    for name, want, what in TRANSPARENT:
      bad = it.AND(g, differs(it, setting(d, name, want), want))
      if bad: c.viol('transparent', where, 'the device is not opened with %s' % what, bad)
  return seen


def events(it, n):
  out = []
  for e in it.events[n:]: out.append((e[0], e[1], e[2], e[3] if len(e) > 3 else None))
  return out


def c38_open(skip, again):
  def go(c):
    it, w = c.it, c.w
    h = Host(c, skip=skip, make=False)
    port, rate = '/dev/modem', w.uint('rate', 22)
    n = len(it.events)
    calls = Native('callback', h.called(h.calls))
    h.modem = h.made(lambda: it.call(w.cls(MODEM), [port, rate], dict(unsolicited_response_received_callback=calls, skip_alp_parsing=skip)), MODEM)
    h.find_reader(n)
    it.set_attr(h.modem, 'connected', True)
    if again:
      m = Msg(1, response(c, 'message', 0x11, TRUE, marker=0x41))
      h.reader([('raise', ERRORS[0]), h.data(m), ('raise', ERRORS[0]), ''], 'reconnecting')
    opened(h, n, port, rate)
  return go


def c38_refused(skip):
  """a device that cannot be opened: the caller is told, and nothing is left running"""
  def go(c):
    it, w = c.it, c.w
    h = Host(c, skip=skip, make=False)
    bad = w.bool('opening fails').node
    it.hooks['serial.ctor'] = lambda it, o, a, k: it.raise_('serial.SerialException', 'no such device', guard=bad)
    n = len(it.events)
    out, v, thrown = it.run(lambda: it.call(w.cls(MODEM), ['/dev/modem', 115200], dict(skip_alp_parsing=skip)))
    it.hooks.pop('serial.ctor')
    told = FALSE
    for t in thrown: told = it.OR(told, t.guard)
    c.ok(2)
    g = it.AND(bad, it.AND(out, it.NOT(told)))
    if g: c.viol('not-told', h.where(), 'a modem is made although its device could not be opened', g)
    for g, kind, d, l in events(it, n):
      if kind == 'thread_start' and it.AND(g, bad): c.viol('left-running', place(l) if l else h.where(), 'a reader is started although the device could not be opened', it.AND(g, bad))
  return go


def c38_stop(skip, again):
  """the reader waits in a read, for as long as nothing arrives, when the application stops it"""
  def go(c):
    it, w = c.it, c.w
    h = Host(c, skip=skip)
    it.set_attr(h.modem, 'connected', True)
    dev = [(g, d) for g, kind, d, l in events(it, 0) if kind == 'serial_new']
    waits = FALSE
    for g, d in dev:
      for k, x in it.alts(setting(d, 'timeout')):
        if x is None: waits = it.OR(waits, it.AND(g, k))
    woken = [FALSE]
    joined = [FALSE]
    held = {}
    def wake(it, o, a, k):
      woken[0] = it.OR(woken[0], it.live)
      live = it.live
      out, parked, thrown = h.run_reader(['', '', ''])
      it.live = live
      c.ok()
      bad = it.AND(live, parked)
      if bad: c.viol('reads-on', place(it.loc()), 'the reader which is woken up has not yet been told to end, and waits for data again', bad)
    def event(kind, data):
      if kind == 'acquire': held[id(data['obj'])] = it.OR(held.get(id(data['obj']), FALSE), it.live)
      elif kind == 'release': held[id(data['obj'])] = it.AND(held.get(id(data['obj']), FALSE), it.NOT(it.live))
      elif kind == 'thread_join':
        joined[0] = it.OR(joined[0], it.live)
        c.ok(2)
        bad = it.AND(it.live, it.AND(waits, it.NOT(woken[0])))
        if bad: c.viol('stuck', place(it.loc()), 'waits for the reader to end, which still waits for data', bad)
        for g in held.values():
          if it.AND(it.live, g): c.viol('stuck', place(it.loc()), 'waits for the reader to end while holding a lock', it.AND(it.live, g))
    h0 = it.hooks.get('event')
    it.hooks['serial.cancel_read'] = wake
    it.hooks['event'] = event
    live = it.live
    out, v, thrown = it.run(lambda: it.call(it.get_attr(h.modem, 'stop_reading'), [], {}))
    c.ok(2)
    c.thrown('stop-raises', thrown, what='stopping', default=h.where() + '.stop_reading')
    it.hooks['event'] = h0
    it.live = it.AND(live, out)
    if it.live == 0: raise Dead()
    bad = it.AND(it.live, it.NOT(joined[0]))
    if bad: c.viol('not-waited', h.where() + '.stop_reading', 'stopping returns without waiting for the reader to end', bad)
    if not again: return
    n = len(it.events)
    live = it.live
    out, v, thrown = it.run(lambda: it.call(it.get_attr(h.modem, 'start_reading'), [], {}))
    c.thrown('start-raises', thrown, what='starting again', default=h.where() + '.start_reading')
    it.live = it.AND(live, out)
    if it.live == 0: raise Dead()
    c.ok()
    if not [e for e in it.events[n:] if e[1] == 'thread_start']:
      c.viol('not-started', h.where() + '.start_reading', 'no reader is started')
      return
    h.find_reader(n)
    del h.calls[:]
    m = Msg(1, response(c, 'message', 0x11, TRUE, marker=0x41))
    h.reader([h.data(m), ''], 'after starting again')
    h.compare('delivery', CALL, h.calls, [(TRUE, m, 'response')])
  return go


def c38_kept(skip, reboot):
  """what is kept for the application is what arrived since it was last cleared, in order"""
  def go(c):
    it, w = c.it, c.w
    h = Host(c, skip=skip, callback=False)
    it.set_attr(h.modem, 'connected', w.bool('connected'))
    get, clear, what = ('get_rebooted_received', 'clear_rebooted_received', REBOOTS) if reboot else ('get_unsolicited_responses_received', 'clear_unsolicited_responses_received', KEPT)
    other = 'get_unsolicited_responses_received' if reboot else 'get_rebooted_received'
    grp = 'reboot' if reboot else 'response'
    def arrive(label, marker):
      a = Msg(5, (w.uint('%s: reason' % label, 8),))
      b = Msg(1, response(c, label, w.uint('%s: tag' % label, 8), w.bool('%s: final' % label).node, w.bool('%s: error' % label).node, marker=marker))
      h.reader([h.data(a, b)], label)
      return (a, b) if reboot else (b, a)
    def tell(*ms): h.compare('kept', what, h.listed(get), [(TRUE, m, grp) for m in ms])
    tell()
    a, x = arrive('first', 0x41)
    b, y = arrive('second', 0x42)
    tell(a, b)
    tell(a, b)
    out, v, thrown = it.run(lambda: h.listed(clear))
    c.thrown('clear-raises', thrown, what='clearing', default=h.where())
    it.live = out
    if it.live == 0: raise Dead()
    tell()
    d, z = arrive('third', 0x43)
    tell(d)
    h.compare('kept', 'the other list', h.listed(other), [(TRUE, m, 'response' if reboot else 'reboot') for m in (x, y, z)])
  return go


def c38_many(skip, reboot, n, step):
  """everything is kept, however much arrives before the application asks"""
  def go(c):
    it = c.it
    h = Host(c, skip=skip, callback=False)
    msgs = [Msg(5, (1 + i % 4,)) if reboot else Msg(1, (0x23, i % 256, 0x20, 0x40, 0, 1, i % 251)) for i in range(n)]
    for i in range(0, n, step): h.reader([h.data(*msgs[i:i + step])], 'many messages')
    get = 'get_rebooted_received' if reboot else 'get_unsolicited_responses_received'
    h.compare('kept', REBOOTS if reboot else KEPT, h.listed(get), [(TRUE, m, 'reboot' if reboot else 'response') for m in msgs])
  return go


def c38(base, tier):
  obs = []
  for skip in (False, True):
    for reboot in (False, True):
      for n, step in ((300, 300), (40, 1)): obs.append(Ob('many %s, %d at a time%s' % ('reboots' if reboot else 'responses', step, ', raw' if skip else ''), c38_many(skip, reboot, n, step)))
  for skip in (False, True):
    m = ', raw' if skip else ''
    obs.append(Ob('device opened%s' % m, c38_open(skip, False)))
    obs.append(Ob('device opened again%s' % m, c38_open(skip, True)))
    obs.append(Ob('device refused%s' % m, c38_refused(skip)))
    for again in (False, True): obs.append(Ob('stopped while waiting%s%s' % (', started again' if again else '', m), c38_stop(skip, again)))
    for reboot in (False, True): obs.append(Ob('kept %s%s' % ('reboots' if reboot else 'responses', m), c38_kept(skip, reboot)))
  return obs
