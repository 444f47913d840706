"""The serial link (C05-C10)."""
from .bdd import TRUE, FALSE
from .values import *
from .domains import *
from .recipes import *
from .report import Ob, place
from .interp import Dead, Unsupported
from . import models
from .checks_structs import short, cplace, serialise, command_of, small_read, regular, WRI, members_named, CMD

SPQ = 'd7a.serial_modem_interface.parser.Parser'
SMOD = 'd7a.serial_modem_interface.parser'
MT = 'd7a.serial_modem_interface.parser.MessageType'
ALPP = A + 'parser.Parser'


def blen(it, v): return it.split(v, lambda x: models.b_len(it, [x], {}))


def receiver(c, skip, cls=SPQ, down=None):
  """a receiver with an empty buffer and arbitrary counters"""
  it, w = c.it, c.w
  k = w.cls(cls)
  p = accepted(w, lambda: it.call(k, [], dict(skip_alp_parsing=skip) if skip is not None else {}))
  for n in ('up_counter', 'down_counter', 'error_counter'):
    if not isinstance(p.attrs.get(n), int): continue
    it.set_attr(p, n, down if n == 'down_counter' and down is not None else w.uint(n, 8 if n != 'error_counter' else 20))
  return p


def buffer_of(it, p):
  """name of the attribute that keeps the unconsumed bytes"""
  out = [k for k, v in p.attrs.items() if isinstance(v, ListV) and v.kind == 'bytearray']
  if len(out) != 1: raise Unsupported("the receiver keeps its bytes in %d byte arrays" % len(out))
  return out[0]


def buf_alts(it, v):
  out = []
  for g, x in it.alts(v):
    if not it.may(g): continue
    if not isinstance(x, ListV): raise Unsupported("buffer is not a sequence")
    saved = it.live
    it.live = it.AND(saved, g)
    for h, e in it.list_live(x):
      gg = it.AND(g, h)
      if it.may(gg): out.append((gg, e))
    it.live = saved
  return out


class Steps(object):
  """cuts every loop of the receiver at its back edge, so that one parse attempt is analysed from an arbitrary buffer"""
  def __init__(self, c, p, mod, cut=True, buf=None, kind='bytearray'):
    self.c, self.p, self.mod, self.cut, self.kind = c, p, mod, cut, kind
    self.name = buf or buffer_of(c.it, p)
    self.cuts = []           # (guard, buffer alternatives at the back edge)
    self.loops = 0
    self.first = None        # the buffer when parsing began

  def entered(self, it):
    """a loop that begins when part of the buffer is used up already begins another attempt"""
    if not self.cut: return FALSE
    alts = [(it.AND(it.live, g), e) for g, e in buf_alts(it, it.get_attr(self.p, self.name))]
    if self.first is None:
      self.first = set(it.shape(e) for g, e in alts)
      return FALSE
    done = FALSE
    for g, _ in self.cuts: done = it.OR(done, g)
    cut = FALSE
    for g, e in alts:
      if e and it.shape(e) not in self.first: cut = it.OR(cut, it.AND(g, it.NOT(done)))
    if cut:
      live = it.live
      it.live = cut
      self.cuts.append((cut, buf_alts(it, it.get_attr(self.p, self.name))))
      it.set_attr(self.p, self.name, it.new_seq([(TRUE, ())], self.kind))
      it.live = live
    return cut

  def __call__(self, it, s, f, lc):
    if f.module.name != self.mod: return None
    c, p, B = self.c, self.p, it.B
    self.loops += 1
    exits = FALSE
    rounds = 0
    done = self.entered(it)
    while True:
      rounds += 1
      if rounds > 12: raise Unsupported("receiver loop does not end on an empty buffer")
      t = it.truth(it.ev(s.test))
      exits = it.OR(exits, it.AND(it.live, it.NOT(t)))
      it.live = it.AND(it.live, t)
      if it.live == 0: break
      before = it.get_attr(p, self.name)
      head = [(g, e) for g, e in buf_alts(it, before)]
      n0 = blen(it, before)
      try: it.block(s.body)
      except Dead: it.live = FALSE
      it.live = it.OR(it.live, lc.cont)
      lc.cont = FALSE
      if it.live == 0: break
      # back edge
      live = it.live
      try: t = it.truth(it.ev(s.test))
      except Dead: t = FALSE; raise
      again = it.AND(it.live, t)
      if again == 0: continue
      it.live = it.AND(again, it.NOT(done))
      if it.live:
        now = it.get_attr(p, self.name)
        n1 = blen(it, now)
        stuck = it.AND(it.live, it.NOT(it.lt_node(n1, n0)))
        c.ok()
        if stuck:
          c.viol('no-progress', cplace(p.cls), 'a parse attempt that neither waits nor ends leaves the buffer as long as it was', stuck, it.loc())
        if self.cut:
          alts = buf_alts(it, now)
          self.cuts.append((it.live, alts))
          it.set_attr(p, self.name, it.new_seq([(TRUE, ())], self.kind))
          done = it.OR(done, it.live)
      it.live = live
    return exits


def alp_summary(c, calls, fails=True):
  """C10 as a summary of the command parser: consumes exactly the declared length, or fails"""
  it, w = c.it, c.w
  w.cls(ALPP)
  it.load('bitstring'); it.load('d7a.parse_error')
  def hook(it, fn, args, kwargs):
    if fn.module.name != 'd7a.alp.parser': return NotImplemented
    s = args[1] if len(args) > 1 else kwargs.get('s')
    n = args[2] if len(args) > 2 else kwargs.get('cmd_length')
    calls.append((it.live, s, n))
    empty = it.eq_int(n, 0)
    if not fails: empty = TRUE
    pe = it.AND(w.bool('command parser raises ParseError').node, it.NOT(empty))
    it.throw(pe, it.call(w.cls('d7a.parse_error.ParseError'), ['x'], {}))
    for nm, args_ in (('ValueError', ('x',)), ('AssertionError', ())):
      b = it.AND(w.bool('command parser raises %s' % nm).node, it.NOT(empty))
      it.raise_(nm, *args_, guard=b)
    # running off the end of what it was given
    b = it.AND(w.bool('command parser raises ReadError').node, it.NOT(empty))
    it.raise_('bitstring.ReadError', 'x', guard=b)
    if it.live == 0: raise Dead()
    it.call(it.get_attr(s, 'read'), [it.binop1('+', 'bytes:', it.call(it.get_name('str'), [n], {}))], {})
    return it.call(w.cls(CMD), [], dict(generate_tag_request_action=False))
  it.hooks['Parser.parse'] = hook


def list_of(it, v):
  out = []
  for g, x in it.alts(v):
    if not it.may(g): continue
    if isinstance(x, ListV):
      saved = it.live
      it.live = it.AND(saved, g)
      for h, e in it.list_live(x):
        if it.may(it.AND(g, h)): out.append((it.AND(g, h), e))
      it.live = saved
    else: raise Unsupported("parser result is not a list")
  return out


def results(c, r):
  """the (types, commands, info) triple of the receiver"""
  it = c.it
  out = []
  for g, x in it.alts(r):
    if not it.may(g): continue
    if x is None:
      c.viol('no-result', place_rx(c) + '.parse', 'the receiver returns neither messages nor a report', it.AND(it.live, g))
      raise Dead()
    if not isinstance(x, tuple) or len(x) != 3: raise Unsupported("receiver result is not a triple")
    out.append((g, x))
  return out


class Run(object):
  """one parse() call on the given bytes from a fresh receiver"""
  def __init__(self, c, entries, skip, cut=True, p=None, down=None, fails=True):
    it, w = c.it, c.w
    self.c, self.it = c, it
    self.skip = skip
    self.p = p or receiver(c, skip, down=down)
    self.calls = []
    alp_summary(c, self.calls, fails)
    self.steps = Steps(c, self.p, SMOD, cut)
    it.hooks['while'] = self.steps
    self.feed(entries)

  def feed(self, entries):
    it, p = self.it, self.p
    self.entries = entries
    self.start = it.live
    self.counters = {n: it.get_attr(p, n) for n in ('up_counter', 'down_counter', 'error_counter') if n in p.attrs}
    msg = it.new_list(tuple(entries), 'bytearray')
    self.steps.first = None
    self.live, self.r, self.thr = it.run(lambda: it.call(it.get_attr(p, 'parse'), [msg], {}))

  def delivered(self):
    """[(guard, number, entries of cmds)] in the live region"""
    it = self.it
    out = []
    for g, (ts, cmds, info) in results(self.c, self.r):
      saved = it.live
      it.live = it.AND(saved, g)
      for h, e in list_of(it, cmds): out.append((it.AND(g, h), e))
      it.live = saved
    return out

  def errors(self):
    it = self.it
    out = []
    for g, (ts, cmds, info) in results(self.c, self.r):
      saved = it.live
      it.live = it.AND(saved, g)
      errs = it.get_item(info, 'errors')
      for h, e in list_of(it, errs): out.append((it.AND(g, h), e))
      it.live = saved
    return out

  def nonempty(self, lst):
    it = self.it
    g = FALSE
    for h, e in lst:
      n = it.entries_len(e)
      g = it.OR(g, it.AND(h, it.NOT(it.eq_int(n, 0))))
    return it.AND(it.live, g)

  def cutguard(self):
    g = FALSE
    for h, _ in self.steps.cuts: g = it_or(self.it, g, h)
    return g


def it_or(it, a, b): return it.OR(a, b)


def head(c, n=7): return tuple(c.w.uint('byte%d' % i, 8) for i in range(n))


def head_and_tail(c, label='following'):
  """seven arbitrary header bytes and whatever follows; the checksum bytes are written as checksum of the declared payload
  combined with an arbitrary difference, which leaves them arbitrary"""
  it, w = c.it, c.w
  b0, b1 = w.uint('byte0', 8), w.uint('byte1', 8)
  b2, dn = w.interleaved(('byte2', 8), ('down_counter', 8))
  b3 = w.uint('byte3', 8)
  b4, n, pos = w.interleaved(('byte4', 8), ('len(%s)' % label, 31), ('~position in %s' % label, 31))
  tail = w.run_of(label, n, pos)
  b5, b6 = w.uint('byte5', 8), w.uint('byte6', 8)
  given = it.add(it.shl(b5, 8), b6)
  it.crc_spare = [it.bitop('^', given, w.uint(n, 16)) for n in ('difference to the checksum', 'difference to another checksum')]
  return (b0, b1, b2, b3, b4, b5, b6), tail, dn


def place_rx(c): return cplace(c.w.cls(SPQ))


def checksum(c, entries):
  it = c.it
  from .models import mk_crc
  data = it.mkstr([(TRUE, entries)]) if False else it.new_seq([(TRUE, tuple(entries))], 'bytearray')
  return it.call(mk_crc('crc-ccitt-false'), [data], {})


def hi_lo(it, crc): return it.bitop('&', it.shr(crc, 8), 255), it.bitop('&', crc, 255)


def split_payload(c, hd, tail):
  """payload of the declared length, and whether it is complete"""
  it = c.it
  n = hd[4]
  complete = it.NOT(it.lt_node(tail.length, n))
  return Blob(tail.base, 0, n), complete


MODES = (('decoding payloads', False), ('raw payloads', True))


def c06(skip):
  def go(c):
    it, w = c.it, c.w
    hd, tail, dn = head_and_tail(c)
    r = Run(c, hd + (tail,), skip, down=dn)
    it.live = r.live
    c.thrown('raises', r.thr)
    if it.live == 0: raise Dead()
    got = r.nonempty(r.delivered())
    if got == 0: raise Dead()
    pay, complete = split_payload(c, hd, tail)
    crc = None
    it.live = it.AND(it.live, got)
    saved = it.live
    def need(what, node):
      c.ok()
      bad = it.AND(it.live, it.NOT(node))
      if bad: c.viol('unverified', place_rx(c), 'a message is delivered although %s' % what, bad)
    need('its first byte is not the sync byte', it.eq_int(hd[0], 0xC0))
    need('its version is not supported', it.eq_int(hd[1], 0))
    need('its payload is incomplete', complete)
    it.live = it.AND(it.live, complete)
    if it.live:
      crc = checksum(c, (pay,))
      h, l = hi_lo(it, crc)
      need('its checksum does not match its payload', it.AND(it.eq_int(hd[5], h), it.eq_int(hd[6], l)))
    it.live = saved
    # what is delivered in raw mode is the payload
    for g, e in r.delivered():
      if len(e) > 1: c.viol('unverified', place_rx(c), 'one frame yields several messages', it.AND(it.live, g))
  return go


def c06_short(skip, n):
  def go(c):
    it = c.it
    r = Run(c, head(c, n), skip)
    it.live = r.live
    if it.live == 0: raise Dead()
    got = r.nonempty(r.delivered())
    c.ok()
    if got: c.viol('unverified', place_rx(c), 'a message is delivered from %d bytes' % n, got)
  return go


def valid_head(it, hd):
  g = TRUE
  if len(hd) > 0: g = it.AND(g, it.eq_int(hd[0], 0xC0))
  if len(hd) > 1: g = it.AND(g, it.eq_int(hd[1], 0))
  return g


def untouched(c, r, entries, rule='incomplete'):
  """nothing delivered, no error, nothing dropped, counters as before"""
  it, w = c.it, c.w
  c.thrown('raises', r.thr)
  it.live = r.live
  if it.live == 0: raise Dead()
  c.ok()
  g = r.nonempty(r.delivered())
  if g: c.viol(rule, place_rx(c), 'a message is delivered from an incomplete frame', g)
  g = r.nonempty(r.errors())
  if g: c.viol(rule, place_rx(c), 'an error is reported for an incomplete frame', g)
  cut = it.AND(it.live, r.cutguard())
  if cut: c.viol(rule, place_rx(c), 'parsing goes on over an incomplete frame', cut)
  it.live = it.AND(it.live, it.NOT(cut))
  if it.live == 0: return
  now = it.get_attr(r.p, r.steps.name)
  want = it.new_seq([(TRUE, tuple(entries))], 'bytearray')
  for g, p, why in diff(it, want, now):
    c.viol(rule, place_rx(c) + '.' + r.steps.name, 'bytes of an incomplete frame are dropped or changed (%s)' % why, g)
  c.ok()
  for n, v in r.counters.items():
    for g, p, why in diff(it, v, it.get_attr(r.p, n)):
      c.viol(rule, place_rx(c) + '.' + n, '%s changes although the frame is incomplete' % n, g)
    c.ok()


def c07(skip, n):
  """n < 7: the first n bytes of a frame; 7: a whole header and part of the payload"""
  def go(c):
    it, w = c.it, c.w
    dn = None
    if n == 7:
      hd, tail, dn = head_and_tail(c, 'payload so far')
      w.assume(it.lt_node(tail.length, hd[4]))
      e = hd + (tail,)
    else: e = hd = head(c, n)
    w.assume(valid_head(it, hd))
    r = Run(c, e, skip, down=dn)
    untouched(c, r, e)
  return go


def frame(c, payload, mtype):
  """a well-formed frame"""
  it, w = c.it, c.w
  ctr, dn = w.interleaved(('counter', 8), ('down_counter', 8))
  n = it.entries_len(payload)
  w.assume(it.NOT(it.lt_node(255, n)))
  h, l = hi_lo(it, checksum(c, payload))
  return (0xC0, 0, ctr, mtype, n, h, l), dn


def c07_chunks(skip, cut, mtype):
  """a frame in two pieces is delivered like a frame in one piece"""
  def go(c):
    it, w = c.it, c.w
    n, m = w.interleaved(('len(payload)', 8), ('len(first piece)', 8))
    whole = BlobBase('payload')
    if cut == 7: w.assume(it.lt_node(m, n))
    pay = Blob(whole, 0, n)
    a, b = Blob(whole, 0, m), Blob(whole, m, it.sub(n, m))
    hd, dn = frame(c, (pay,), mtype)
    rest = w.blob('following')
    r = Run(c, hd[:cut] + ((a,) if cut == 7 else ()), skip, down=dn, fails=False)
    untouched(c, r, hd[:cut] + ((a,) if cut == 7 else ()))
    if it.live == 0: return
    r.steps.cuts[:] = []
    r.feed(hd[cut:] + ((b, rest) if cut == 7 else (pay, rest)))
    check_delivery(c, r, (pay,), rest, mtype)
  return go


def check_delivery(c, r, payload, rest, mtype, rule='lost'):
  it, w = c.it, c.w
  c.thrown('raises', r.thr)
  it.live = r.live
  if it.live == 0: raise Dead()
  c.ok()
  fails = FALSE
  n = it.entries_len(payload)
  one = r.nonempty(r.delivered())
  miss = it.AND(it.live, it.NOT(one))
  if mtype == 5: miss = it.AND(miss, it.NOT(it.eq_int(n, 0)))
  if miss: c.viol(rule, place_rx(c), 'a complete valid frame is not delivered', miss)
  it.live = it.AND(it.live, one)
  if it.live == 0: return
  for g, (ts, cmds, info) in results(c, r.r):
    saved = it.live
    it.live = it.AND(saved, g)
    for h, e in list_of(it, cmds):
      gg = it.AND(it.live, it.AND(g, h))
      if gg == 0: continue
      if len(e) != 1: c.viol(rule, place_rx(c), 'one frame is delivered as %d messages' % len(e), gg); continue
      sv = it.live
      it.live = gg
      if it.live and (mtype == 4 or (r.skip and mtype != 5)):
        got = it.split(e[0], lambda x: models.bytearray_ctor(it, models.BYTEARRAY, [x], {}))
        want = it.new_seq([(TRUE, tuple(payload))], 'bytearray')
        for d, p, why in diff(it, want, got):
          c.viol(rule, place_rx(c), 'the delivered payload differs from the one received (%s)' % why, d)
        c.ok()
      it.live = sv
    for h, e in list_of(it, ts):
      gg = it.AND(it.live, it.AND(g, h))
      if gg == 0 or len(e) != 1: 
        if gg: c.viol(rule, place_rx(c), 'the number of message types differs from the number of messages', gg)
        continue
      bad = it.AND(gg, it.NOT(it.eq_node(e[0], mtype)))
      c.ok()
      if bad: c.viol(rule, place_rx(c), 'a message is delivered with another type', bad)
    it.live = saved


TYPES = ((1, 'ALP_DATA'), (2, 'PING_REQUEST'), (3, 'PING_RESPONSE'), (4, 'LOGGING'), (5, 'REBOOTED'))


def c08_any(skip, n):
  """an arbitrary buffer: nothing raised, and whoever waits waits for a frame that can still be completed"""
  def go(c):
    it, w = c.it, c.w
    tail = dn = None
    if n == 7: hd, tail, dn = head_and_tail(c)
    else: hd = head(c, n)
    e = hd + ((tail,) if tail is not None else ())
    r = Run(c, e, skip, down=dn)
    c.ok()
    c.thrown('raises', r.thr)
    it.live = r.live
    if it.live == 0: raise Dead()
    got, err = r.nonempty(r.delivered()), r.nonempty(r.errors())
    cut = r.cutguard()
    waits = it.AND(it.live, it.NOT(it.OR(it.OR(got, err), cut)))
    c.ok()
    may = valid_head(it, hd)
    if n == 7:
      pay, complete = split_payload(c, hd, tail)
      may = it.AND(may, it.NOT(complete))
    bad = it.AND(waits, it.NOT(may))
    if n < 7:
      # a wrong first or second byte need not be noticed before the header is complete
      bad = FALSE
    if bad: c.viol('stall', place_rx(c), 'the receiver waits although no frame can be completed by waiting', bad)
    # an attempt that reported an error removed at least one byte
    it.live = it.AND(it.live, it.AND(err, it.NOT(cut)))
    if it.live and not r.steps.cuts or it.live:
      now = blen(it, it.get_attr(r.p, r.steps.name))
      stuck = it.AND(it.live, it.NOT(it.lt_node(now, it.entries_len(e))))
      c.ok()
      if stuck: c.viol('no-progress', place_rx(c), 'an error is reported but no byte is removed', stuck)
  return go


def c08_resync(skip, n):
  """the first attempt over n garbage bytes and a valid frame never removes a byte of the frame"""
  def go(c):
    it, w = c.it, c.w
    junk = tuple(w.uint('garbage%d' % i, 8) for i in range(n))
    for b in junk: w.assume(it.NOT(it.eq_int(b, 0xC0)))
    pay = w.blob('payload', width=8)
    hd, dn = frame(c, (pay,), 4)
    rest = w.blob('following')
    e = junk + hd + (pay, rest)
    r = Run(c, e, skip, down=dn)
    c.thrown('raises', r.thr)
    it.live = r.live
    if it.live == 0: raise Dead()
    g = FALSE
    for h, alts in r.steps.cuts:
      saved = it.live
      it.live = it.AND(it.live, h)
      if it.live:
        g = it.OR(g, h)
        want = it.new_seq([(TRUE, hd + (pay, rest))], 'bytearray')
        now = it.new_seq(alts, 'bytearray')
        c.ok()
        for d, p, why in diff(it, want, now):
          c.viol('resync', place_rx(c), 'after garbage the receiver does not continue with the first possible frame start (%s)' % why, d)
      it.live = saved
    bad = it.AND(it.live, it.NOT(g))
    if bad: c.viol('resync', place_rx(c), 'after garbage the receiver does not look for the frame that follows', bad)
  return go


def crc_of(data):
  crc = 0xFFFF
  for b in data:
    crc ^= b << 8
    for _ in range(8): crc = (crc << 1 ^ 0x1021 if crc & 0x8000 else crc << 1) & 0xFFFF
  return crc


def wire(mtype, counter, payload):
  """a frame of known bytes"""
  crc = crc_of(payload)
  return (0xC0, 0, counter & 255, mtype, len(payload), crc >> 8, crc & 255) + tuple(payload)


def streams():
  """(name, [bytes], [(type, payload)]): streams of known bytes, and what is in them"""
  def log(i, n=1): return (4, tuple(0x41 + (i + j) % 26 for j in range(n)))
  def put(msgs): return [wire(t, i, p) for i, (t, p) in enumerate(msgs)]
  many = [log(i) for i in range(300)]
  yield '300 frames', [sum(put(many), ())], many
  mixed = [log(i, 3) if i % 3 else (1, (0x23, i, 0x20, 0x40, 0, 1, i)) for i in range(60)]
  yield '60 frames one by one', put(mixed), mixed
  few = [log(0, 2), (1, (0x23, 7, 0x20, 0x40, 0, 1, 9)), (5, (3,)), log(3, 2)]
  yield 'frames byte by byte', [(b,) for b in sum(put(few), ())], few
  wide = [(4, tuple((i * 7 + j) & 0x7F for j in range(n))) for i, n in enumerate((255, 0, 254, 1, 128, 127, 129, 253, 2))]
  yield 'frames of all lengths', [sum(put(wide), ())], wide
  two = [log(5, 4), log(6, 4)]
  a, b = put(two)
  bad = list(wire(4, 9, (1, 2, 3, 4))); bad[5] ^= 1
  yield '600 bytes without a sync byte, then frames', [(0x11,) * 600 + a + b], two
  yield '300 sync bytes, then frames', [(0xC0,) * 300 + a + b], two
  yield '80 frames with a bad checksum, then frames', [tuple(bad) * 80 + a + b], two
  yield 'garbage, a frame, garbage, a frame', [(0x11,) * 300 + a, (0xC0, 1) * 100, b], two


def c08_stream(skip, chunks, want):
  """a stream of known bytes yields exactly the messages in it"""
  def go(c):
    it, w = c.it, c.w
    p = receiver(c, skip)
    parse = it.get_attr(p, 'parse')
    types, got = [], []
    for e in chunks:
      live, r, thr = it.run(lambda: it.call(parse, [it.new_list(tuple(e), 'bytearray')], {}))
      c.thrown('raises', thr)
      it.live = live
      if live == 0: raise Dead()
      for g, (ts, cmds, info) in results(c, r):
        if it.may(it.NOT(g)): raise Unsupported("several results")
        for what, out in ((ts, types), (cmds, got)):
          l = list_of(it, what)
          if len(l) != 1: raise Unsupported("several numbers of messages")
          out.extend(l[0][1])
    c.ok()
    if len(got) != len(want) or len(types) != len(got):
      c.viol('lost', place_rx(c), '%d of %d messages in the stream are delivered, with %d message types' % (len(got), len(want), len(types)))
      return
    for t, v, (k, pay) in zip(types, got, want):
      c.ok()
      bad = it.AND(it.live, it.NOT(it.eq_node(t, k)))
      if bad: c.viol('lost', place_rx(c), 'a message is delivered with another type, or out of order', bad)
      if k == 4 or skip and k != 5:
        b = it.split(v, lambda x: models.bytearray_ctor(it, models.BYTEARRAY, [x], {}))
        for d, path, why in diff(it, it.new_list(tuple(pay), 'bytearray'), b): c.viol('lost', place_rx(c), 'the delivered payload differs from the one received (%s)' % why, d)
      elif k == 5:
        for d, path, why in diff(it, pay[0], v): c.viol('lost', place_rx(c), 'the delivered reason differs from the one received (%s)' % why, d)
  return go


def c09(skip, mtype):
  """what is left after delivering is what followed the frame"""
  def go(c):
    it, w = c.it, c.w
    pay = w.blob('payload', width=8)
    t = w.uint('type', 8) if mtype is None else mtype
    if mtype is None:
      for k, _ in TYPES: w.assume(it.NOT(it.eq_int(t, k)))
    hd, dn = frame(c, (pay,), t)
    rest = w.blob('following')
    r = Run(c, hd + (pay, rest), skip, down=dn, fails=False)
    if mtype is not None: check_delivery(c, r, (pay,), rest, mtype)
    else: it.live = r.live
    if it.live == 0: raise Dead()
    got = r.nonempty(r.delivered())
    it.live = it.AND(it.live, got)
    if it.live == 0: raise Dead()
    want = it.new_seq([(TRUE, (rest,))], 'bytearray')
    start = it.live
    seen = FALSE
    for h, alts in r.steps.cuts:
      it.live = it.AND(start, h)
      if it.live == 0: continue
      seen = it.OR(seen, it.live)
      now = it.new_seq(alts, 'bytearray')
      c.ok()
      for d, p, why in diff(it, want, now):
        c.viol('extent', place_rx(c), 'what remains after a delivered frame is not what followed it (%s)' % why, d)
    it.live = it.AND(start, it.NOT(seen))
    if it.live:
      now = it.get_attr(r.p, r.steps.name)
      c.ok()
      for d, p, why in diff(it, want, now):
        c.viol('extent', place_rx(c), 'what remains after a delivered frame is not what followed it (%s)' % why, d)
  return go


def c05(base, tier):
  def fixed_cmd(c):
    return command_of(c, [small_read(c)])
  def write_cmd(c):
    return command_of(c, [regular(WRI + 'WriteFileData')(c)])
  obs = []
  for nm, mk in (('a read', fixed_cmd), ('a write of any size', write_cmd), ('no action', lambda c: command_of(c, []))):
    obs.append(Ob('frame holding %s' % nm, c05_frame(mk)))
  return obs


def c05_frame(mk):
  def go(c):
    it, w = c.it, c.w
    p = receiver(c, None)
    cmd = mk(c)
    b = serialise(c, cmd)
    c.ok()
    o, an = (p, 'up_counter') if 'up_counter' in p.attrs else frame_counter(c, p)
    ctr = o.attrs[an]
    n = blen(it, b)
    m, = members_named(w, MT, 'ALP_DATA')
    fits = it.NOT(it.lt_node(255, n))
    live, f, thr = it.run(lambda: it.call(it.get_attr(p, 'build_serial_frame'), [cmd], {}))
    where = cplace(p.cls, '.build_serial_frame')
    for t in thr:
      g = it.AND(t.guard, fits)
      if g: c.viol('refused', where, 'a command that fits a frame is refused (%s)' % it.exc_name(t.exc), g)
    c.ok()
    it.live = live
    if live == 0: raise Dead()
    bad = it.AND(live, it.NOT(fits))
    if bad: c.viol('too-long', where, 'a command longer than 255 bytes is put into a frame', bad)
    it.live = it.AND(live, fits)
    if it.live == 0: raise Dead()
    out = []
    for g, e in it.list_live(b):
      sv = it.live
      it.live = it.AND(sv, g)
      if it.live == 0: it.live = sv; continue
      h, l = hi_lo(it, checksum(c, e))
      out.append((g, (0xC0, 0, ctr, m.attrs['_value_'], it.entries_len(e), h, l) + e))
      it.live = sv
    want = it.new_seq(out, 'bytearray')
    got = it.split(f, lambda x: models.bytearray_ctor(it, models.BYTEARRAY, [x], {}))
    c.ok()
    for g, pth, why in diff(it, want, got):
      c.viol('layout', where, 'the frame is not sync, version, counter, type, length, checksum, payload: %s %s' % (pth, why), g)
    nxt = it.bitop('&', it.add(ctr, 1), 255)
    c.ok()
    for g, pth, why in diff(it, nxt, it.get_attr(o, an)):
      c.viol('counter', where, 'the counter does not advance by one modulo 256', g)
  return go


def number_cells(it, o, depth=2):
  """attributes that hold a number, also those of the objects it holds"""
  out = []
  for n, v in sorted(o.attrs.items()):
    if isinstance(v, int) and not isinstance(v, bool): out.append((o, n))
    elif isinstance(v, Obj) and depth and not v.cls.is_enum: out += number_cells(it, v, depth - 1)
  return out


def frame_counter(c, p):
  """the attribute whose value is written into the third byte of a frame"""
  it, w = c.it, c.w
  live = it.live
  for o, n in number_cells(it, p):
    old, v = o.attrs[n], w.uint('trial ' + n, 8)
    it.set_attr(o, n, v)
    ok, f, thr = it.run(lambda: it.call(it.get_attr(p, 'build_serial_frame'), [command_of(c, [])], {}))
    it.live = ok
    hit = ok and not thr and same_number(it, it.get_item(f, 2), v)
    it.live = live
    it.set_attr(o, n, v if hit else old)
    if hit: return o, n
  raise Unsupported('which attribute counts the frames')


def same_number(it, a, b):
  return not it.may(it.AND(it.live, it.NOT(it.eq_node(a, b))))


# ------------------------------------------------------------------------------------------------- C35
def strong(name):
  """a checksum whose generator has degree 16, a constant term and the factor x + 1 differs for every burst of at most 16 bits and every odd number of bits"""
  g = models.CRC16.get(name)
  return g is not None and g.bit_length() == 17 and g & 1 == 1 and bin(g).count('1') % 2 == 0


def whole_checksum(c, entries, b5, b6, swapped=False):
  """the states in which the two bytes are all of a strong checksum of exactly these bytes"""
  it = c.it
  ok = FALSE
  for name in sorted(set(n for n, e, r in it.crcs)):
    if not strong(name): continue
    data = it.new_seq([(TRUE, tuple(entries))], 'bytearray')
    h, l = hi_lo(it, it.call(models.mk_crc(name), [data], {}))
    ok = it.OR(ok, it.AND(it.eq_int(b5, h), it.eq_int(b6, l)) if not swapped else it.AND(it.eq_int(b5, l), it.eq_int(b6, h)))
  return ok


def unprotected(c, entries, b5, b6):
  it = c.it
  bad = it.AND(it.live, it.NOT(whole_checksum(c, entries, b5, b6)))
  if bad and it.AND(it.live, it.NOT(whole_checksum(c, entries, b5, b6, True))) == 0: return FALSE
  return bad


def weak_names(it):
  return sorted(set(n for n, e, r in it.crcs if n is not None and not strong(n)))


def c35_receiver(skip):
  def go(c):
    it, w = c.it, c.w
    hd, tail, dn = head_and_tail(c)
    r = Run(c, hd + (tail,), skip, down=dn)
    it.live = r.live
    if it.live == 0: raise Dead()
    got = r.nonempty(r.delivered())
    if got == 0: raise Dead()
    pay, complete = split_payload(c, hd, tail)
    it.live = it.AND(it.live, it.AND(got, complete))
    if it.live == 0: raise Dead()
    c.ok()
    bad = unprotected(c, (pay,), hd[5], hd[6])
    if bad: c.viol('undetected', place_rx(c), 'a frame is delivered whose two checksum bytes are not the checksum of its whole payload%s' % (
      ' (computed: %s)' % ', '.join(weak_names(it)) if weak_names(it) else ''), bad)
  return go


def c35_sender(mk):
  def go(c):
    it, w = c.it, c.w
    p = receiver(c, None)
    cmd = mk(c)
    b = serialise(c, cmd)
    n = blen(it, b)
    live, f, thr = it.run(lambda: it.call(it.get_attr(p, 'build_serial_frame'), [cmd], {}))
    it.live = live
    if live == 0: raise Dead()
    where = cplace(p.cls, '.build_serial_frame')
    got = it.split(f, lambda x: models.bytearray_ctor(it, models.BYTEARRAY, [x], {}))
    for g, e in it.list_live(got):
      sv = it.live
      it.live = it.AND(sv, g)
      if it.live and len(e) >= 7 and all(it.is_intlike(x) for x in e[:7]):
        c.ok()
        bad = unprotected(c, e[7:], e[5], e[6])
        if bad: c.viol('undetected', where, 'the checksum bytes of a frame are not the checksum of its whole payload%s' % (
          ' (computed: %s)' % ', '.join(weak_names(it)) if weak_names(it) else ''), bad)
      elif it.live: c.undecided("the bytes of the frame header are not known")
      it.live = sv
  return go


def c35_all(base, tier):
  obs = [Ob('receiver, %s' % m, c35_receiver(s), weight=2) for m, s in MODES]
  obs.append(Ob('sender, a read', c35_sender(lambda c: command_of(c, [small_read(c)]))))
  obs.append(Ob('sender, a write of any size', c35_sender(lambda c: command_of(c, [regular(WRI + 'WriteFileData')(c)]))))
  return obs


def c06_all(base, tier):
  obs = []
  for m, s in MODES:
    obs.append(Ob('any header and any payload, %s' % m, c06(s), weight=2))
    for n in range(7): obs.append(Ob('%d bytes, %s' % (n, m), c06_short(s, n)))
  return obs


def c07_all(base, tier):
  obs = []
  for m, s in MODES:
    for n in range(8): obs.append(Ob('%s, %s' % ('first %d bytes of a frame' % n if n < 7 else 'a header and part of its payload', m), c07(s, n)))
    for t, tn in TYPES:
      for k in (range(1, 8) if tier != 'quick' or t == 1 else (3, 7)): obs.append(Ob('%s frame in two pieces, cut %s, %s' % (tn, 'after byte %d' % k if k < 7 else 'inside the payload', m), c07_chunks(s, k, t)))
    for n, chunks, want in streams():
      if n in ('frames byte by byte', '60 frames one by one'): obs.append(Ob('%s, %s' % (n, m), c08_stream(s, chunks, want)))
  return obs


def c08_all(base, tier):
  obs = []
  for m, s in MODES:
    for n in range(8): obs.append(Ob('any %s, %s' % ('%d bytes' % n if n < 7 else 'bytes', m), c08_any(s, n)))
    for n in (1, 2, 3) if tier == 'quick' else range(1, 9): obs.append(Ob('%d garbage bytes before a frame, %s' % (n, m), c08_resync(s, n)))
    for n, chunks, want in streams(): obs.append(Ob('%s, %s' % (n, m), c08_stream(s, chunks, want)))
  return obs


def c09_all(base, tier):
  obs = []
  for m, s in MODES:
    for t, tn in TYPES + ((None, 'unknown'),): obs.append(Ob('%s frame, %s' % (tn, m), c09(s, t)))
    for n, chunks, want in streams():
      if n in ('frames of all lengths', '300 frames'): obs.append(Ob('%s, %s' % (n, m), c08_stream(s, chunks, want)))
  return obs
