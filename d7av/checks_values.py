"""What objects accept, hold, compare to and print (C16-C18, C23, C24, C27, C30, C31, C33)."""
from .bdd import TRUE, FALSE
from .values import *
from .domains import *
from .recipes import *
from .report import Ob, place, is_a
from .interp import Dead, Unsupported, SFloat
from . import models
from .checks_structs import *
from .checks_structs import short, cplace, serialise, stream_of, compare, command_of, small_read, regular, members_named, CMD, PARSER, roundtrip, parse_class, norm_path, C02, C03, PHYS, APF, has_attr
from . import checks_frames as FR
from .checks_alp import no_decoding

CONTROLS = [NPC, TPC, BGC, FGC, BGF]
OPERANDS = [AQP, QRY, DATA, DREQ, FID, FHO, IFS, IIO, TAG]
OPERATIONS = [q for q in RECIPES if q.startswith(OPN)]
PARSEABLE = set(C03 + C02 + CONTROLS)


def label_of(q): return q.split('.')[-1]


# ------------------------------------------------------------------ C16
def args_of(c, q, **fix):
  w = c.w
  return args_for(w, q, label_of(q), **fix)


def c16_class(q, **fix):
  """constructor arguments of any size: refused with ValueError or serialisable without loss"""
  def go(c):
    it, w = c.it, c.w
    no_decoding(c)
    cls = w.cls(q)
    kw = args_of(c, q, **fix)
    live, obj, thr = it.run(lambda: it.call(cls, [], kw))
    c.ok()
    c.thrown('refusal', thr, allow=('ValueError',), what='constructing with a value out of range', default=cplace(cls, '.__init__'))
    it.live = live
    if live == 0: raise Dead()
    obj = narrow_value(it, obj, {})
    if cls.lookup('__iter__')[0] is None: return
    if q in PARSEABLE:
      skip = ('access_specifier', 'id') if q == APF else ()
      b = serialise(c, obj)
      s = stream_of(c, b, (w.blob('following'),))
      live, r, thr = it.run(lambda: it.call(it.get_attr(cls, 'parse'), [s], {}))
      for t in thr:
        n = it.exc_name(t.exc)
        c.viol('truncated', cplace(cls), 'an accepted object has a serialisation that its own parser refuses (%s)' % n, t.guard)
      it.live = live
      if live == 0: raise Dead()
      compare(c, obj, r, cls, skip, rule='truncated')
    else:
      serialise(c, obj)
      c.ok()
  return go


def c16_field(q, field, **fix):
  """two objects that differ in one number only have different bytes"""
  def go(c):
    it, w = c.it, c.w
    no_decoding(c)
    cls = w.cls(q)
    spec = fix.get(field) or RECIPES[q][field]
    wd = spec.a[0]
    kw = args_of(c, q, **dict(fix, **{field: K(0)}))
    # the two values alternate in the variable order
    x, y = signed_pair(w, field, wd)
    kw[field] = x
    o1 = accepted(w, lambda: it.call(cls, [], kw))
    kw2 = dict(kw); kw2[field] = y
    o2 = accepted(w, lambda: it.call(cls, [], kw2))
    b1 = serialise(c, o1, rule=None)
    b2 = serialise(c, o2, rule=None)
    c.ok()
    for g, e in it.list_live(b1):
      for h, f in it.list_live(b2):
        gh = it.AND(it.AND(it.live, g), h)
        if not it.may(gh): continue
        same = it.AND(gh, it.eq_entries(e, f))
        bad = it.AND(same, it.NOT(it.eq_node(x, y)))
        if (q, field) in ROUNDED and bad: bad = it.AND(bad, it.NOT(it.eq_node(it.get_attr(o1, field), it.get_attr(o2, field))))
        if bad: c.viol('truncated', cplace(cls, '.' + field), 'two accepted values of %s have the same serialisation' % field, bad)
  return go


def signed_pair(w, label, width):
  it = w.it
  a, b = [None] * width, [None] * width
  for i in reversed(range(width)):
    a[i] = it.B.new_var(label, i)
    b[i] = it.B.new_var('other ' + label, i)
  return it.norm_int(tuple(a)), it.norm_int(tuple(b))


def wrong_values(it, kind):
  out = []
  if kind in ('int', 'bool', 'enum', 'obj', 'bytes', 'list'): out.append(('text', 'x'))
  if kind in ('int', 'bool', 'enum', 'obj'): out += [('a list', it.new_list([]))]
  if kind in ('enum', 'obj', 'bytes', 'list'): out.append(('a number', 7))
  if kind in ('int', 'bool'): out.append(('no value', None))
  return out


def c16_types(q):
  def go(c):
    it, w = c.it, c.w
    no_decoding(c)
    cls = w.cls(q)
    kw = args_of(c, q)
    entry = it.live
    # with proper arguments something is accepted (otherwise a refusal means nothing)
    for f, spec in RECIPES[q].items():
      if not isinstance(spec, Spec) or spec.kind in ('alt', 'const', 'text'): continue
      for what, v in wrong_values(it, spec.kind):
        it.live = entry
        bad = dict(kw); bad[f] = v
        live, obj, thr = it.run(lambda: it.call(cls, [], bad))
        c.ok()
        if live: c.viol('accepted', cplace(cls, '.' + f), '%s is accepted for %s' % (what, f), live)
        for t in thr:
          if not is_a(it, t.exc, ('ValueError', 'TypeError')):
            c.viol('refusal', cplace(cls, '.' + f), '%s for %s ends in %s instead of a value error' % (what, f, it.exc_name(t.exc)), t.guard)
  return go


# the constructor takes a number of samples and keeps the power of two that covers it
ROUNDED = {(SF + 'factory_settings.FactorySettingsFile', 'rssi_smoothing')}
INT_CLASSES = [q for q in C03 + C02 + CONTROLS + OPERANDS if any(isinstance(s, Spec) and s.kind == 'int' for s in RECIPES[q].values())]


def c16(base, tier):
  obs = []
  for q in C03 + C02 + CONTROLS + OPERANDS + OPERATIONS:
    if q == APF: continue
    obs.append(Ob('%s of any arguments' % short(q), c16_class(q), weight=3 if q == AP else 1))
  obs.append(Ob('access_profile.AccessProfileFile of any arguments', c16_class(APF), weight=3))
  for n in (0, 1, 2, 3): obs.append(Ob('phy_status.PhyStatusFile with %d channels of any values' % n, c16_phys(n)))
  for q in INT_CLASSES:
    for f, s in RECIPES[q].items():
      if isinstance(s, Spec) and s.kind == 'int': obs.append(Ob('%s of %s is not truncated' % (f, short(q)), c16_field(q, f)))
  for q in C03 + C02 + CONTROLS + OPERANDS + [APF]:
    obs.append(Ob('arguments of a wrong type for %s' % short(q), c16_types(q)))
  return obs


def c16_phys(n):
  def go(c):
    c16_class(PHYS, channel_status_list_length=I(4), channel_status_identifier=LST(O(CSI), n), channel_noise_floor=LST(I(), n))(c)
  return go


# ------------------------------------------------------------------ C17
from . import layouts as LY


class Wire(object):
  """unknown bytes with the meaning a layout gives them"""
  def __init__(self, c, lay, prefix=''):
    self.c, it = c, c.it
    self.bits = []          # most significant first
    self.wanted = []        # (attribute path, kind, value)
    self.reserved = FALSE   # states in which a refusal is right
    self.canon = []         # the bits as they are serialised again
    self.padded = 0
    self.walk(lay, prefix, ())
    assert len(self.bits) % 8 == 0 or True

  def fresh(self, label, n, const=None):
    it = self.c.it
    if const is not None: return [(const >> (n - 1 - i)) & 1 for i in range(n)]
    v = [it.B.new_var('%s' % label, i) for i in reversed(range(n))]
    return v

  def num(self, bits, signed):
    it = self.c.it
    b = tuple(reversed(bits))
    return it.norm_int(b if signed else b + (FALSE,))

  def walk(self, lay, pre, path):
    it = self.c.it
    for f in lay:
      k, name = f[0], f[1]
      label = pre + (name if isinstance(name, str) else k)
      if k == 'o': self.walk(f[2], label + '.', path + (name,)); continue
      if k == 'many':
        for i in range(f[3]): self.walk(f[2], '%s[%d].' % (label, i), path + (name, i))
        continue
      if k == 'pairs':
        a, b = f[1]
        for i in range(f[3]):
          self.walk(f[2], '%s[%d].' % (a, i), path + (a, i))
          x = self.fresh('%s[%d]' % (b, i), 8); self.put(x, x)
          self.wanted.append((path + (b, i), self.num(x, False)))
        continue
      if k == 'none': self.wanted.append((path + (name,), None)); continue
      n = f[2]
      if k == 'r':
        x = self.fresh(pre + 'reserved', n); self.put(x, [FALSE] * n); continue
      if k == 'pad':
        x = [FALSE] * n; self.put(x, x); self.padded += n; continue
      if k == 'k':
        x = self.fresh('', n, f[3]); self.put(x, x); continue
      if k == 'uk':
        x = self.fresh('', n, f[3]); self.put(x, x); self.wanted.append((path + (name,), f[3])); continue
      if k == 'fx':
        x = self.fresh('', n, f[4]); self.put(x, x)
        self.wanted.append((path + (name,), self.member(f[3], {f[4]: TRUE}))); continue
      x = self.fresh(label, n)
      self.put(x, x)
      if k == 'b':
        self.wanted.append((path + (name,), SB(x[0]) if x[0] > 1 else bool(x[0])))
      elif k in 'us':
        v = self.num(x, k == 's')
        self.wanted.append((path + (name,), v))
        if f[3] is not None: self.reserved = it.OR(self.reserved, it.OR(it.lt_node(v, f[3]), it.lt_node(f[4], v)))
      elif k == 'le':
        y = []
        for i in reversed(range(n // 8)): y += x[8 * i:8 * i + 8]
        self.wanted.append((path + (name,), self.num(y, False)))
      elif k == 'e':
        v = self.num(x, False)
        known = FALSE
        sel = {}
        for nm, code in f[3][1].items():
          g = it.eq_int(v, code)
          sel[code] = g
          known = it.OR(known, g)
        self.reserved = it.OR(self.reserved, it.NOT(known))
        self.wanted.append((path + (name,), self.member(f[3], sel)))
      elif k == 't':
        hi = FALSE
        for i in range(0, n, 8): hi = it.OR(hi, x[i])
        self.reserved = it.OR(self.reserved, hi)
        self.wanted.append((path + (name,), ('text', tuple(self.num(x[i:i + 8], False) for i in range(0, n, 8)))))
      else: raise ValueError(k)

  def member(self, enum, sel):
    w = self.c.w
    cls = w.cls(enum[0])
    by = {m.attrs['_name_']: m for m in cls.members}
    out = []
    for nm, code in enum[1].items():
      if code in sel: out.append((sel[code], by.get(nm), nm))
    return ('member', out)

  def put(self, bits, canon):
    self.bits += list(bits); self.canon += list(canon)

  def entries(self, bits):
    it = self.c.it
    return tuple(self.num(bits[i:i + 8], False) for i in range(0, len(bits), 8))


def at_path(it, o, path):
  for p in path:
    o = it.get_item(o, p) if isinstance(p, int) else it.get_attr(o, p)
  return o


def path_text(path):
  return ''.join('[]' if isinstance(p, int) else '.' + p for p in path)


def wire_values(c, wr, obj, cls, prefix=''):
  """every field of the parsed object is what its bits say"""
  it = c.it
  for path, want in wr.wanted:
    got = at_path(it, obj, path)
    where = cplace(cls, prefix + path_text(path))
    c.ok()
    if isinstance(want, tuple) and want and want[0] == 'member':
      saved = it.live
      for g, m, nm in want[1]:
        it.live = it.AND(saved, g)
        if it.live == 0: continue
        for h, x in it.alts(got):
          gg = it.AND(it.live, h)
          if not it.may(gg): continue
          if not (isinstance(x, Obj) and x.cls.is_enum and x.attrs['_name_'] == nm):
            c.viol('misread', where, 'the code of %s is read as %s' % (nm, nameof(x)), gg)
      it.live = saved
    elif isinstance(want, tuple) and want and want[0] == 'text':
      for g, p, why in diff(it, it.mkstr(((TRUE, want[1]),)), got):
        c.viol('misread', where, 'the text is not what was received (%s)' % why, g)
    elif isinstance(want, bool) or isinstance(want, SB):
      w1, g1 = it.truth(want), it.truth(got)
      bad = it.AND(it.live, it.B.XOR(w1, g1))
      if bad: c.viol('misread', where, 'the flag is not the received bit', bad)
    else:
      for g, p, why in diff(it, want, got): c.viol('misread', where, 'the value is not the received one (%s)' % why, g)


def c17_class(q, lay):
  def go(c):
    it, w = c.it, c.w
    cls = w.cls(q)
    wr = Wire(c, lay)
    s = w.stream(wr.entries(wr.bits) + (w.blob('following'),))
    live, r, thr = it.run(lambda: it.call(it.get_attr(cls, 'parse'), [s], {}))
    for t in thr:
      bad = it.AND(t.guard, it.NOT(wr.reserved))
      c.ok()
      if bad: c.viol('refused', cplace(cls, '.parse'), 'received values inside their range are refused with %s at %s' % (it.exc_name(t.exc), place(t.loc)), bad, t.loc)
    it.live = live
    if live == 0: raise Dead()
    for g, rest, off, pos in w.rest_of(s):
      n = len(wr.bits)
      ok = FALSE
      for k in range(0, wr.padded + 8, 8): ok = it.OR(ok, it.eq_int(pos, n - k))
      bad = it.AND(it.AND(it.live, g), it.NOT(ok))
      c.ok()
      if bad: c.viol('extent', cplace(cls, '.parse'), 'the parser does not consume exactly the structure', bad)
    wire_values(c, wr, r, cls)
    if cls.lookup('__iter__')[0] is None or q in LY.NOT_MINIMAL: return
    # reserved codes that the parser accepts may be serialised as they like
    it.live = it.AND(it.live, it.NOT(wr.reserved))
    b = serialise(c, r, rule='serialise-raises')
    c.ok()
    for g, p, why in diff(it, it.new_seq([(TRUE, wr.entries(wr.canon))], 'bytearray'), b):
      c.viol('rewritten', cplace(cls, '.__iter__'), 'a received structure is serialised differently: byte %s (%s)' % (p, why), g)
  return go


def c17_query(k, ok_, n):
  """arithmetic comparison with a value: the form the library implements"""
  def go(c):
    it, w = c.it, c.w
    cls = w.cls(QRY)
    lay = [LY.size(3, 2), LY.size(1, 0), LY.o('params', LY.L_AQP), LY.size(2, k), ('uk', 'value', 6 + 8 * k, n)]
    wr = Wire(c, lay)
    value = [w.uint('value[%d]' % i, 8) for i in range(n)]
    w2 = Wire(c, LY.L_OFS(ok_), 'file_a_offset.')
    s = w.stream(wr.entries(wr.bits) + tuple(value) + w2.entries(w2.bits) + (w.blob('following'),))
    wr.wanted = [x for x in wr.wanted if x[0] != ('value',)]
    live, r, thr = it.run(lambda: it.call(it.get_attr(cls, 'parse'), [s], {}))
    for t in thr:
      bad = it.AND(t.guard, it.NOT(wr.reserved))
      c.ok()
      if bad: c.viol('refused', cplace(cls, '.parse'), 'a query is refused with %s' % it.exc_name(t.exc), bad, t.loc)
    it.live = live
    if live == 0: raise Dead()
    wire_values(c, wr, r, cls)
    wire_values(c, w2, it.get_attr(r, 'file_a_offset'), cls, '.file_a_offset')
    for g, p, why in diff(it, n, at_path(it, r, ('compare_length', 'value'))): c.viol('misread', cplace(cls, '.compare_length'), 'the length is not the received one', g)
    for g, p, why in diff(it, it.new_list(value), it.get_attr(r, 'compare_value')): c.viol('misread', cplace(cls, '.compare_value'), 'the value is not the received one (%s)' % why, g)
    c.ok(2)
  return go


# the two leading flags and the operand of each action, as received
ACTION_FLAGS = {
  1: ('group', 'resp'), 4: ('group', 'resp'), 9: ('group', 'resp'), 17: ('group', 'resp'), 32: ('group', 'resp'), 33: ('group', 'resp'),
  35: ('eop', 'error'), 50: (None, 'resp'), 51: ('overload', 'resp'), 52: ('respond_when_completed', None)}


def c17_action(op, name, operand, tail=(), flags=None, entries=(), iface=None):
  """the flags and operand fields of an action are those received"""
  def go(c):
    it, w = c.it, c.w
    no_decoding(c)
    pc = w.cls(PARSER)
    f7, f6 = ACTION_FLAGS[op]
    head = [('b', f7, 1) if f7 and (flags is None or f7 not in flags) else LY.size(1, (flags or {}).get(f7, 0)),
            ('b', f6, 1) if f6 and (flags is None or f6 not in flags) else LY.size(1, (flags or {}).get(f6, 0)), LY.size(6, op)]
    wr = Wire(c, head)
    wo = Wire(c, operand, 'operand.')
    data = tuple(w.uint('data[%d]' % i, 8) for i in range(entries)) if entries else ()
    s = w.stream(wr.entries(wr.bits) + wo.entries(wo.bits) + data + (w.blob('following'),))
    p = it.call(pc, [], {})
    live, r, thr = it.run(lambda: it.call(it.get_attr(p, 'parse_alp_action'), [s], {}))
    res = it.OR(wr.reserved, wo.reserved)
    for t in thr:
      bad = it.AND(t.guard, it.NOT(res))
      c.ok()
      if bad: c.viol('refused', cplace(pc, '.parse_alp_action'), '%s: received values inside their range are refused with %s' % (name, it.exc_name(t.exc)), bad, t.loc)
    it.live = live
    if live == 0: raise Dead()
    wire_values(c, wr, r, pc, '(%s)' % name)
    wire_values(c, wo, it.get_attr(it.get_attr(r, 'operation'), 'operand'), pc, '(%s).operand' % name)
    if data:
      for g, pth, why in diff(it, it.new_list(data), it.get_attr(it.get_attr(it.get_attr(r, 'operation'), 'operand'), 'data')):
        c.viol('misread', cplace(pc, '(%s).operand.data' % name), 'the data is not the received one (%s)' % why, g)
    for g, rest, off, pos in w.rest_of(s):
      bad = it.AND(it.AND(it.live, g), it.NOT(it.eq_int(pos, len(wr.bits) + len(wo.bits) + 8 * len(data))))
      c.ok()
      if bad: c.viol('extent', cplace(pc, '(%s)' % name), 'the parser does not consume exactly the action', bad)
  return go


def ifcode(code): return ('fx', 'interface_id', 8, (ITYPE, dict(HOST=0, SERIAL=1, LORAWAN_ABP=2, LORAWAN_OTAA=3, D7ASP=0xd7)), code)


def c17(base, tier):
  obs = []
  for q, what, lay in LY.LAYOUTS: obs.append(Ob('received %s%s' % (short(q), what), c17_class(q, lay), weight=2))
  for k in (0, 1): obs.append(Ob('received query operand, length field of %d bytes' % (k + 1), c17_query(k, k, 3)))
  o, u = LY.o, LY.u
  for k in range(4):
    obs.append(Ob('received read action, %d offset bytes' % (k + 1), c17_action(1, 'read', [o('offset', LY.L_OFS(k)), o('length', LY.L_LEN(3 - k))])))
  for op, nm in ((4, 'write'), (32, 'return')):
    for n in (0, 1, 4):
      obs.append(Ob('received %s action of %d bytes' % (nm, n), c17_action(op, nm, [o('offset', LY.L_OFS(1)), LY.size(2, 0), ('k', None, 6, n)], entries=n)))
  obs.append(Ob('received create action', c17_action(17, 'create', LY.L_FHO)))
  obs.append(Ob('received header action', c17_action(33, 'return header', LY.L_FHO)))
  obs.append(Ob('received tag response', c17_action(35, 'tag response', [u('tag_id', 8)])))
  obs.append(Ob('received tag request', c17_action(52, 'tag request', [u('tag_id', 8)])))
  for x in LY.SHAPES:
    obs.append(Ob('received forward action to D7ASP with %s' % x, c17_action(50, 'forward', [ifcode(0xd7), o('interface_configuration', LY.L_CONF(x))])))
    obs.append(Ob('received indirect forward with overload %s' % x, c17_action(51, 'indirect forward', [u('interface_file_id', 8), o('interface_configuration_overload', LY.L_ADDR(x))], flags=dict(overload=1))))
  obs.append(Ob('received indirect forward', c17_action(51, 'indirect forward', [u('interface_file_id', 8), LY.none('interface_configuration_overload')], flags=dict(overload=0))))
  obs.append(Ob('received forward action to LoRaWAN ABP', c17_action(50, 'forward', [ifcode(2), o('interface_configuration', LY.L_ABP)])))
  obs.append(Ob('received forward action to LoRaWAN OTAA', c17_action(50, 'forward', [ifcode(3), o('interface_configuration', LY.L_OTAA)])))
  obs.append(Ob('received forward action to serial', c17_action(50, 'forward', [ifcode(1), LY.none('interface_configuration')])))
  for x in LY.SHAPES: obs.append(Ob('received interface status from %s' % x, c17_status(x)))
  for d in (0, 1):
    for ack in (0, 1):
      for te in (0, 1): obs.append(Ob('received transport frame, dialog start %d, acknowledge %d, te %d' % (d, ack, te), c17_transport(d, ack, te)))
  return obs


def c17_status(shape):
  def go(c):
    it, w = c.it, c.w
    pc = w.cls(PARSER)
    lay = LY.L_STAT(shape)
    wr = Wire(c, lay, 'status.')
    s = w.stream((0x62, 0xd7, LY.bits_of(lay) // 8) + wr.entries(wr.bits) + (w.blob('following'),))
    p = it.call(pc, [], {})
    live, r, thr = it.run(lambda: it.call(it.get_attr(p, 'parse_alp_action'), [s], {}))
    for t in thr:
      bad = it.AND(t.guard, it.NOT(wr.reserved))
      c.ok()
      if bad: c.viol('refused', cplace(pc, '.parse_alp_action'), 'an interface status inside its ranges is refused with %s' % it.exc_name(t.exc), bad, t.loc)
    it.live = live
    if live == 0: raise Dead()
    opd = it.get_attr(it.get_attr(r, 'operation'), 'operand')
    for g, pth, why in diff(it, 0xd7, it.get_attr(opd, 'interface_id')): c.viol('misread', cplace(pc, '(status).interface_id'), 'interface id differs', g)
    wire_values(c, wr, it.get_attr(opd, 'interface_status'), pc, '(status)')
  return go


def c17_transport(d, ack, te):
  """agc present or not follows tl: both values of the remaining flags are fixed so that the layout is"""
  def go(c):
    it, w = c.it, c.w
    cls = w.cls(TPF)
    entry = it.live
    for agc in (0, 1):
      for tl in (0, 1):
        it.live = entry
        lay = [LY.size(1, d), LY.r(1), LY.size(1, tl), LY.size(1, te), LY.size(1, ack), LY.size(1, 0), LY.size(1, 0), LY.size(1, agc), u8('dialog_id'), u8('transaction_id')]
        if agc: lay.append(LY.u('agc_rx_level_i', 8, 0, 31))
        for on, nm in ((tl, 'tl'), (te, 'te'), (ack and d, 'tc')):
          lay.append(LY.o(nm, LY.L_CT) if on else LY.none(nm))
        wr = Wire(c, lay)
        rd = Wire(c, [LY.size(2, 0), LY.size(6, 1), u8('id'), LY.size(2, 0), LY.u('offset', 6), LY.size(2, 0), LY.u('length', 6)], 'read.')
        s = w.stream(wr.entries(wr.bits) + rd.entries(rd.bits) + (w.blob('following'),))
        n = (len(wr.bits) + len(rd.bits)) // 8
        live, r, thr = it.run(lambda: it.call(it.get_attr(cls, 'parse'), [s, n], {}))
        for t in thr:
          bad = it.AND(t.guard, it.NOT(wr.reserved))
          c.ok()
          if bad: c.viol('refused', cplace(cls, '.parse'), 'a frame is refused with %s' % it.exc_name(t.exc), bad, t.loc)
        it.live = live
        if live == 0: raise Dead()
        wire_values(c, wr, r, cls)
        ctl = it.get_attr(r, 'control')
        for nm, v in (('is_dialog_start', d), ('has_tl', tl), ('has_te', te), ('is_ack_requested', ack), ('has_agc', agc)):
          c.ok()
          bad = it.AND(it.live, it.B.XOR(it.truth(it.get_attr(ctl, nm)), TRUE if v else FALSE))
          if bad: c.viol('misread', cplace(cls, '.control.' + nm), 'the flag is not the received bit', bad)
  return go


def u8(name): return LY.u(name, 8)
