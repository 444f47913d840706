"""Link, network and transport frames (C04, C25, C32)."""
from .bdd import TRUE, FALSE
from .values import *
from .domains import *
from .recipes import *
from .report import Ob, place
from .interp import Dead, Unsupported
from . import models
from .checks_structs import (short, cplace, serialise, stream_of, extent, compare, roundtrip, parse_class, rt_class, members_named,
                             small_read, command_of, CMD, norm_path, regular, WRI)


def enum_member(w, q, name): return members_named(w, q, name)[0]


def length_of(c, obj):
  """number of bytes an object serialises to"""
  it = c.it
  b = serialise(c, obj, rule=None)
  return it.split(b, lambda x: models.b_len(it, [x], {}))


def tp_control(c, **fix):
  kw = dict(is_ack_not_void=K(False), is_ack_record_requested=K(False))
  kw.update(fix)
  return arbitrary(c.w, TPC, 'd7atp.control', **kw)


def optional(c, cond, make_):
  """make_() where cond holds, None elsewhere"""
  it = c.it
  v = make_()
  t = it.truth(cond)
  return it.merge_all([(t, v), (it.NOT(t), None)])


def alp(c, kind):
  if kind == 'read': return command_of(c, [small_read(c)])
  if kind == 'two reads': return command_of(c, [small_read(c), small_read(c)])
  if kind == 'write': return command_of(c, [regular(WRI + 'WriteFileData')(c)])
  if kind == 'empty': return command_of(c, [])
  raise ValueError(kind)


def tp_frame(c, kind, **fix):
  it, w = c.it, c.w
  ctl = tp_control(c, **fix)
  tl = optional(c, it.get_attr(ctl, 'has_tl'), lambda: arbitrary(w, CT, 'tl'))
  te = optional(c, it.get_attr(ctl, 'has_te'), lambda: arbitrary(w, CT, 'te'))
  ack = it.AND(it.truth(it.get_attr(ctl, 'is_ack_requested')), it.truth(it.get_attr(ctl, 'is_dialog_start')))
  ct = arbitrary(w, CT, 'tc')
  tc = it.merge_all([(ack, ct), (it.NOT(ack), None)])
  agc = it.truth(it.get_attr(ctl, 'has_agc'))
  lvl = it.merge_all([(agc, w.sint('agc_rx_level', 40)), (it.NOT(agc), 10)])
  cmd = alp(c, kind)
  return accepted(w, lambda: it.call(w.cls(TPF), [], dict(control=ctl, dialog_id=w.sint('dialog_id', 40), transaction_id=w.sint('transaction_id', 40),
                                                        alp_command=cmd, agc_rx_level_i=lvl, tl=tl, te=te, tc=tc)))


ORIGINS = ('none', 'VID', 'UID')


def np_frame(c, origin, kind, **fix):
  it, w = c.it, c.w
  if origin == 'none':
    no, idt, n = True, w.member(w.cls(IDT), 'origin_id_type', None), 0
  else:
    no, idt, n = False, enum_member(w, IDT, origin), {'VID': 2, 'UID': 8}[origin]
  ctl = accepted(w, lambda: it.call(w.cls(NPC), [], dict(has_no_origin_access_id=no, has_hopping=False, nls_method=enum_member(w, NLS, 'NONE'), origin_id_type=idt)))
  aid = it.new_list([w.uint('origin_access_id[%d]' % i, 8) for i in range(n)])
  tp = tp_frame(c, kind, **fix)
  return accepted(w, lambda: it.call(w.cls(NPF), [], dict(control=ctl, origin_access_class=w.sint('origin_access_class', 40), origin_access_id=aid, d7atp_frame=tp)))


def fg_frame(c, target, origin, kind, length=None, **fix):
  it, w = c.it, c.w
  n = {'VID': 2, 'UID': 8}.get(target, 0)
  ctl = accepted(w, lambda: it.call(w.cls(FGC), [], dict(id_type=enum_member(w, IDT, target), eirp_index=w.sint('eirp_index', 40))))
  tgt = it.new_list([w.uint('target_address[%d]' % i, 8) for i in range(n)])
  anp = np_frame(c, origin, kind, **fix)
  # the declared length counts subnet, control, target address and network frame
  ln = it.add(length_of(c, anp), 2 + n)
  return accepted(w, lambda: it.call(w.cls(FGF), [], dict(length=ln, subnet=w.sint('subnet', 40), control=ctl, target_address=tgt, d7anp_frame=anp, crc16=w.sint('crc16', 40))))


def framed(build, q):
  """round trip of a frame that is parsed with the number of bytes it has"""
  def go(c):
    it = c.it
    cls = c.w.cls(q)
    obj = build(c)
    def parse(s, b):
      n = it.split(b, lambda x: models.b_len(it, [x], {}))
      return it.call(it.get_attr(cls, 'parse'), [s, n], {})
    roundtrip(c, obj, parse, cls)
  return go


def rt_fg(*a, **k):
  def go(c):
    cls = c.w.cls(FGF)
    obj = fg_frame(c, *a, **k)
    roundtrip(c, obj, parse_class(c, cls), cls)
  return go


def c04(base, tier):
  obs = [Ob('round trip of %s' % q[4:], rt_class(q)) for q in (NPC, TPC, BGC, FGC, BGF)]
  kinds = ('read', 'two reads', 'write')
  for k in kinds:
    obs.append(Ob('round trip of a transport frame holding %s' % k, framed(lambda c, k=k: tp_frame(c, k), TPF)))
  for o in ORIGINS:
    obs.append(Ob('round trip of a network frame with origin id %s' % o, framed(lambda c, o=o: np_frame(c, o, 'read'), NPF)))
  for t in ('NBID', 'NOID', 'VID', 'UID'):
    for o in ORIGINS if tier != 'quick' else (('UID',) if t == 'UID' else ('VID',) if t == 'VID' else ('none',)):
      obs.append(Ob('round trip of a foreground frame to %s from %s' % (t, o), rt_fg(t, o, 'read'), weight=2))
  obs.append(Ob('round trip of a foreground frame holding a write', rt_fg('NOID', 'none', 'write'), weight=3))
  return obs


# ------------------------------------------------------------------ C25
def alp_args(args, kwargs):
  """stream and declared length handed to the command parser"""
  s = args[1] if len(args) > 1 else kwargs.get('s')
  n = args[2] if len(args) > 2 else kwargs.get('cmd_length')
  return s, n


def c25_any(c):
  """any header bytes: the length handed to the command parser ends where the checksum begins"""
  it, w = c.it, c.w
  w.cls(PARSER_ALP)
  L = w.uint('length', 8)
  head = [L] + [w.uint('byte%d' % i, 8) for i in range(1, 34)]
  s = w.stream(tuple(head) + (w.blob('following'),))
  hits = [0]
  def hook(it, fn, args, kwargs):
    if fn.module.name != 'd7a.alp.parser': return NotImplemented
    st, n = alp_args(args, kwargs)
    for g, rest, off, pos in w.rest_of(st):
      hits[0] += 1
      gg = it.AND(it.live, g)
      if not (isinstance(off, int) and off == 0):
        c.viol('unaligned', cplace(w.cls(FGF), '.parse'), 'the command does not start at a byte', gg); continue
      want = it.binop1('-', it.binop1('*', it.add(L, 1), 8), pos)
      bad = it.AND(gg, it.NOT(it.eq_int(it.binop1('*', n, 8), want)))
      c.ok()
      if bad: c.viol('length-accounting', cplace(w.cls(FGF), '.parse'), 'the length handed to the command parser does not end where the checksum begins', bad)
    return it.call(w.cls(CMD), [], dict(generate_tag_request_action=False))
  it.hooks['Parser.parse'] = hook
  live, r, thr = it.run(lambda: it.call(it.get_attr(w.cls(FGF), 'parse'), [s], {}))
  if not hits[0]: c.undecided('the frame parser does not call d7a.alp.parser.Parser.parse')


PARSER_ALP = A + 'parser.Parser'


def c25_wrong(delta):
  """a frame whose declared length is off by delta never yields a command that does not end at the checksum"""
  def go(c):
    it, w = c.it, c.w
    obj = fg_frame(c, 'NOID', 'none', 'two reads')
    b = serialise(c, obj)
    out = []
    for g, e in it.list_live(b):
      first = it.add(e[0], delta)
      ok = it.AND(it.NOT(it.lt_node(first, 0)), it.NOT(it.lt_node(255, first)))
      gg = it.AND(g, ok)
      if it.may(gg): out.append((gg, (first,) + e[1:]))
    if not out: raise Dead()
    tot = FALSE
    for g, _ in out: tot = it.OR(tot, g)
    w.assume(tot)
    seq = it.new_seq(out, 'bytearray')
    s = stream_of(c, seq, (w.blob('following'),))
    live, r, thr = it.run(lambda: it.call(it.get_attr(w.cls(FGF), 'parse'), [s], {}))
    c.ok()
    if live == 0: return
    it.live = live
    # accepted although the length is wrong: then the parse must still end at length + 3
    for g, rest, off, pos in w.rest_of(s):
      bad = FALSE
      for h, e in out:
        want = it.binop1('*', it.add(e[0], 3), 8)
        bad = it.OR(bad, it.AND(it.AND(it.live, it.AND(g, h)), it.NOT(it.eq_int(pos, want))))
      if bad: c.viol('length-ignored', cplace(w.cls(FGF), '.parse'), 'a frame is accepted although its fields do not end where its length says', bad)
  return go


def c25(base, tier):
  obs = [Ob('any header: length handed inwards', c25_any, weight=2)]
  for t in ('NBID', 'NOID', 'VID', 'UID'):
    for o in ORIGINS:
      obs.append(Ob('frame to %s from %s: command ends at the checksum' % (t, o), rt_fg(t, o, 'two reads'), weight=2))
  for d in (-4, -3, -2, -1): obs.append(Ob('declared length off by %d' % d, c25_wrong(d), weight=2))
  return obs


# ------------------------------------------------------------------ C32
DLLQ = 'd7a.dll.parser.Parser'
FTYPE = 'd7a.dll.parser.FrameType'
BG_SIZE = 6


class Feed(object):
  """a link-layer receiver given some bytes; each parse attempt is analysed once, from an arbitrary buffer"""
  def __init__(self, c, kind, fails=True):
    from .checks_serial import Steps, alp_summary
    it, w = c.it, c.w
    self.c, self.it, self.kind = c, it, kind
    self.p = accepted(w, lambda: it.call(w.cls(DLLQ), [enum_member(w, FTYPE, kind)], {}))
    self.calls = []
    alp_summary(c, self.calls, fails)
    self.steps = Steps(c, self.p, 'd7a.dll.parser', True, buf=self.buffer_name(), kind='list')
    it.hooks['while'] = self.steps
    self.where = cplace(self.p.cls)

  def buffer_name(self):
    out = [k for k, v in self.p.attrs.items() if isinstance(v, ListV)]
    if len(out) != 1: raise Unsupported('the receiver keeps its bytes in %d lists' % len(out))
    return out[0]

  def feed(self, entries):
    it = self.it
    self.entries = tuple(entries)
    self.steps.cuts[:] = []
    self.steps.first = None
    live, r, thr = it.run(lambda: it.call(it.get_attr(self.p, 'parse'), [it.new_list(tuple(entries))], {}))
    self.r = r
    self.c.ok()
    self.c.thrown('raises', thr, what='the receiver', default=self.where + '.parse')
    it.live = live
    if live == 0: raise Dead()
    self.frame, self.error = FALSE, FALSE
    for g, x in it.alts(r):
      if not it.may(g): continue
      if x is None:
        self.c.viol('no-result', self.where + '.parse', 'the receiver returns neither frames nor a report', it.AND(it.live, g))
        raise Dead()
      if not isinstance(x, tuple) or len(x) != 2: raise Unsupported('receiver result is not a pair')
      frames, info = x
      for h, e in it.list_live(frames):
        for f in e:
          for k, y in it.alts(f):
            if y is not None: self.frame = it.OR(self.frame, it.AND(it.AND(g, h), k))
      for h, e in it.list_live(it.get_item(info, 'errors')):
        if e: self.error = it.OR(self.error, it.AND(g, h))
    self.cut = FALSE
    for g, _ in self.steps.cuts: self.cut = it.OR(self.cut, g)

  def now(self): return self.it.get_attr(self.p, self.steps.name)

  def size(self, entries=None):
    """number of bytes of the frame at the start of the buffer"""
    if self.kind == 'BACKGROUND': return BG_SIZE
    return self.it.add((entries or self.entries)[0], 3)


def dll_any(kind, n, more=True, form=None):
  def go(c):
    it, w = c.it, c.w
    f = Feed(c, kind)
    if more:
      first, m, pos = w.interleaved(('byte0', 8), ('len(following)', 20), ('~position in following', 20))
      head = (first,) + tuple(w.uint('byte%d' % i, 8) for i in range(1, n)) + (w.run_of('following', m, pos),)
    else: head = tuple(w.uint('byte%d' % i, 8) for i in range(n))
    if form is not None: w.assume(it.eq_int(it.shr(head[2], 6), form))
    f.feed(head)
    total = it.entries_len(head)
    if n == 0:
      c.ok()
      if not more:
        bad = it.AND(it.live, it.OR(f.frame, f.error))
        if bad: c.viol('invented', f.where + '.parse', 'something is reported although nothing was received', bad)
      return
    complete = it.NOT(it.lt_node(total, f.size()))
    c.ok(4)
    bad = it.AND(it.live, it.AND(it.AND(f.frame, it.NOT(f.cut)), it.NOT(complete)))
    if bad: c.viol('incomplete', f.where, 'a frame is delivered before all its bytes are there', bad)
    bad = it.AND(it.live, it.AND(it.OR(f.error, f.cut), it.NOT(complete)))
    if bad: c.viol('incomplete', f.where, 'an incomplete frame is dropped', bad)
    bad = it.AND(it.live, it.AND(complete, it.NOT(it.OR(it.OR(f.frame, f.error), f.cut))))
    if bad: c.viol('stall', f.where, 'the receiver waits although the frame is complete', bad)
    bad = it.AND(it.live, it.AND(f.frame, f.cut))
    if bad: c.viol('delivered-and-dropped', f.where, 'the receiver goes on after delivering a frame', bad)
    entry = it.live
    # waiting keeps everything
    it.live = it.AND(entry, it.NOT(complete))
    if it.live:
      for g, p, why in diff(it, it.new_list(head), f.now()): c.viol('incomplete', f.where + '.' + f.steps.name, 'bytes of an incomplete frame are dropped or changed (%s)' % why, g)
    # delivering consumes the frame
    it.live = it.AND(entry, it.AND(f.frame, it.NOT(f.cut)))
    if it.live:
      left = models.b_len(it, [f.now()], {}) if isinstance(f.now(), ListV) else it.split(f.now(), lambda x: models.b_len(it, [x], {}))
      bad = it.AND(it.live, it.NOT(it.eq_node(it.add(left, f.size()), total)))
      c.ok()
      if bad: c.viol('extent', f.where, 'delivering a frame does not consume exactly its bytes', bad)
    # an error drops something
    it.live = it.AND(entry, it.AND(f.error, it.NOT(f.cut)))
    if it.live:
      left = it.split(f.now(), lambda x: models.b_len(it, [x], {}))
      bad = it.AND(it.live, it.NOT(it.lt_node(left, total)))
      c.ok()
      if bad: c.viol('no-progress', f.where, 'an error is reported but no byte is dropped', bad)
    it.live = entry
  return go


def dll_pieces(kind, build, cut):
  """a valid frame in two pieces is delivered once it is complete and nothing of what follows is consumed"""
  def go(c):
    it, w = c.it, c.w
    obj = build(c)
    b = serialise(c, obj)
    outs = [(g, e) for g, e in it.list_live(b)]
    base = it.live
    f = None
    for i, (g, e) in enumerate(outs):
      it.live = it.AND(base, g)
      if not it.may(it.live) or any(isinstance(x, Blob) for x in e) or len(e) <= cut: continue
      f = Feed(c, kind, fails=False)
      rest = (w.uint('next', 8), w.uint('next but one', 8))
      f.feed(e[:cut])
      bad = it.AND(it.live, it.OR(it.OR(f.frame, f.error), f.cut))
      c.ok()
      if bad: c.viol('incomplete', f.where, 'a frame is not waited for', bad)
      it.live = it.AND(it.live, it.NOT(bad))
      if it.live == 0: continue
      f.feed(e[cut:] + rest)
      c.ok(2)
      bad = it.AND(it.live, it.NOT(f.frame))
      if bad: c.viol('lost', f.where, 'a valid frame received in two pieces is not delivered', bad)
      it.live = it.AND(it.live, it.AND(f.frame, it.NOT(f.cut)))
      if it.live == 0: continue
      for h, p, why in diff(it, it.new_list(rest), f.now()): c.viol('extent', f.where, 'what remains after a delivered frame is not what followed it (%s)' % why, h)
    it.live = base
    if f is None: raise Dead()
  return go


def c32(base, tier):
  obs = []
  for kind, top in (('FOREGROUND', 34), ('BACKGROUND', 6)):
    obs.append(Ob('%s frames: nothing received' % kind.lower(), dll_any(kind, 0, False)))
    for n in range(1, 8 if tier == 'quick' else 20): obs.append(Ob('%s frames: any %d bytes' % (kind.lower(), n), dll_any(kind, n, False)))
    for form in ((None,) if kind == 'BACKGROUND' else (0, 1, 2, 3)):
      obs.append(Ob('%s frames: any bytes%s' % (kind.lower(), '' if form is None else ', address form %d' % form), dll_any(kind, top, form=form), weight=3))
  for k in (1, 2, 3, 5): obs.append(Ob('a background frame in two pieces, cut after %d bytes' % k, dll_pieces('BACKGROUND', lambda c: arbitrary(c.w, BGF, ''), k)))
  for k in (1, 2, 6, 12) if tier == 'quick' else range(1, 20):
    obs.append(Ob('a foreground frame in two pieces, cut after %d bytes' % k, dll_pieces('FOREGROUND', lambda c: fg_frame(c, 'NOID', 'VID', 'read'), k)))
  return obs
