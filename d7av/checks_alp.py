"""ALP commands and the file registry (C10-C15)."""
from .bdd import TRUE, FALSE
from .values import *
from .domains import *
from .recipes import *
from .report import Ob, place, is_a
from .interp import Dead, Unsupported
from . import models
from .checks_structs import *
from .checks_structs import short, cplace, serialise, stream_of, compare, command_of, small_read, regular, members_named, CMD, PARSER
from .checks_serial import blen

OPCLS = OPN + 'operation.Operation'
SUPPORTED = {1: 'ReadFileData', 4: 'WriteFileData', 9: 'BreakQuery', 17: 'CreateNewFile', 32: 'ReturnFileData', 33: 'ReturnFileHeader',
             34: 'InterfaceStatus', 35: 'TagResponse', 50: 'Forward', 51: 'IndirectForward', 52: 'TagRequest'}
KNOWN = dict(SUPPORTED)
KNOWN.update({0: 'NoOperation', 2: 'ReadFileHeader', 6: 'WriteFileHeader'})
ALPMOD = 'd7a.alp.parser'


def no_decoding(c):
  """what ReturnFileData.try_parse_system_file does is decided by C33; elsewhere it is taken to leave the operation as it is"""
  def skip(it, fn, args, kwargs):
    if not fn.module.name.startswith('d7a.alp'): return NotImplemented
    return None
  c.it.hooks['ReturnFileData.try_parse_system_file'] = skip


def one_action(c, stop):
  """cut the action loop of the command parser at its back edge; stop(live) is told what is cut"""
  def hook(it, s, f, lc):
    if f.module.name != ALPMOD: return None
    exits = FALSE
    t = it.truth(it.ev(s.test))
    exits = it.AND(it.live, it.NOT(t))
    it.live = it.AND(it.live, t)
    rounds = 0
    while it.live:
      rounds += 1
      try: it.block(s.body)
      except Dead: it.live = FALSE
      it.live = it.OR(it.live, lc.cont)
      lc.cont = FALSE
      if it.live == 0: break
      t = it.truth(it.ev(s.test))
      exits = it.OR(exits, it.AND(it.live, it.NOT(t)))
      it.live = it.AND(it.live, t)
      if rounds >= stop: break
    return exits
  return hook


def c10_loop(n):
  """up to n actions of any extent"""
  def go(c):
    it, w = c.it, c.w
    pc = w.cls(PARSER)
    L = w.uint('cmd_length', 8)
    tail = w.blob('content')
    s = w.stream((tail,))
    k = [0]
    seen = []
    def action(it, fn, args, kwargs):
      if fn.module.name != ALPMOD: return NotImplemented
      st = args[1] if len(args) > 1 else list(kwargs.values())[-1]
      k[0] += 1
      size = it.add(w.uint('extent of action %d' % k[0], 5), 1)
      bad = w.bool('action %d is refused' % k[0]).node
      it.throw(bad, it.call(w.cls('d7a.parse_error.ParseError'), ['x'], {}))
      if it.live == 0: raise Dead()
      it.call(it.get_attr(st, 'read'), [it.binop1('+', 'bytes:', it.call(it.get_name('str'), [size], {}))], {})
      a = small_read(c) if not seen else seen[0]
      seen.append(a)
      return a
    it.hooks['Parser.parse_alp_action'] = action
    it.hooks['while'] = one_action(c, n)
    p = it.call(pc, [], {})
    live, r, thr = it.run(lambda: it.call(it.get_attr(p, 'parse'), [s, L], {}))
    if not seen: raise Unsupported('the command parser does not parse actions through parse_alp_action')
    c.ok()
    it.live = live
    if live == 0: raise Dead()
    consumed(c, s, L, cplace(pc, '.parse'))
    # one action per parsed extent
    acts = it.get_attr(r, 'actions')
    c.ok()
    empty = it.eq_int(L, 0)
    for g, e in it.list_live(acts):
      bad = it.AND(it.live, it.AND(g, empty if e else it.NOT(empty)))
      if bad: c.viol('actions', cplace(pc, '.parse'), 'a command of %s yields %d actions' % ('no length' if e else 'some length', len(e)), bad)
  return go


def consumed(c, s, L, where):
  it = c.it
  for g, rest, off, pos in c.w.rest_of(s):
    bad = it.AND(it.AND(it.live, g), it.NOT(it.eq_int(pos, it.binop1('*', L, 8))))
    c.ok()
    if bad: c.viol('extent', where, 'a command is accepted although it did not end at its declared length', bad)


def c10_op(op):
  def go(c):
    it, w = c.it, c.w
    pc = w.cls(PARSER)
    L = w.uint('cmd_length', 8)
    w.assume(it.NOT(it.eq_int(L, 0)))
    no_decoding(c)
    b7, b6 = w.uint('b7', 1), w.uint('b6', 1)
    first = it.add(it.shl(b7, 7), it.add(it.shl(b6, 6), op))
    s = w.stream((first,) + tuple(w.uint('byte%d' % i, 8) for i in range(1, 6)) + (w.blob('content', width=9),))
    it.hooks['while'] = one_action(c, 1)
    p = it.call(pc, [], {})
    live, r, thr = it.run(lambda: it.call(it.get_attr(p, 'parse'), [s, L], {}))
    it.live = live
    c.ok()
    if live == 0:
      if op in SUPPORTED: raise Dead()
      return
    consumed(c, s, L, cplace(pc, '.parse'))
  return go


def data_stream(c, op, a, b):
  """an action on file data whose offset and length take a and b further bytes, and the declared length of its command"""
  it, w = c.it, c.w
  nb = 6 + 8 * b
  L, n, have, pos = w.interleaved(('cmd_length', 8), ('data length', nb), ('content length', nb + 1), ('~position in content', nb + 1))
  w.assume(it.NOT(it.eq_int(L, 0)))
  b7, b6 = w.uint('b7', 1), w.uint('b6', 1)
  first = it.add(it.shl(b7, 7), it.add(it.shl(b6, 6), op))
  head = [first, w.uint('file id', 8), it.add(w.uint('offset, high bits', 6), a << 6)] + [w.uint('offset byte %d' % i, 8) for i in range(a)]
  bits = tuple(it.bits(n)) + (FALSE,) * 32
  bits = bits[:nb]
  for i in reversed(range(b + 1)):
    low = it.norm_int(bits[8 * i:8 * i + (6 if i == b else 8)] + (FALSE,))
    head.append(it.add(low, b << 6) if i == b else low)
  s = w.stream(tuple(head) + (w.run_of('content', have, pos),))
  return L, s


def c10_data(op, a, b):
  """file data whose offset and length take a and b further bytes"""
  def go(c):
    it, w = c.it, c.w
    pc = w.cls(PARSER)
    no_decoding(c)
    L, s = data_stream(c, op, a, b)
    it.hooks['while'] = one_action(c, 1)
    p = it.call(pc, [], {})
    live, r, thr = it.run(lambda: it.call(it.get_attr(p, 'parse'), [s, L], {}))
    it.live = live
    c.ok()
    if live == 0: raise Dead()
    consumed(c, s, L, cplace(pc, '.parse'))
  return go


def c10_zero(c):
  it, w = c.it, c.w
  pc = w.cls(PARSER)
  tail = w.blob('content')
  s = w.stream((tail,))
  p = it.call(pc, [], {})
  live, r, thr = it.run(lambda: it.call(it.get_attr(p, 'parse'), [s, 0], {}))
  c.thrown('parse-raises', thr)
  it.live = live
  if live == 0: raise Dead()
  consumed(c, s, 0, cplace(pc, '.parse'))
  for g, e in it.list_live(it.get_attr(r, 'actions')):
    if e: c.viol('actions', cplace(pc, '.parse'), 'a command of no length has actions', g)
  for a in ('tag_id', 'interface_status'):
    for g, pth, why in diff(it, None, it.get_attr(r, a)): c.viol('actions', cplace(pc, '.parse'), 'a command of no length has a %s' % a, g)
  c.ok(3)


def c10(base, tier):
  obs = [Ob('zero length', c10_zero)]
  obs += [Ob('up to %d actions of any extent' % n, c10_loop(n)) for n in ((1, 2, 3) if tier == 'quick' else (1, 2, 3, 4))]
  obs += [Ob('operation %d (%s) with any operand bytes' % (k, v), c10_op(k), weight=2) for k, v in sorted(SUPPORTED.items()) if k not in (4, 32)]
  for k in (4, 32):
    for a in range(4):
      for b in range(4): obs.append(Ob('operation %d (%s) with %d offset and %d length bytes' % (k, SUPPORTED[k], a + 1, b + 1), c10_data(k, a, b)))
  return obs


# ------------------------------------------------------------------ C11
def operation_classes(c):
  it, w = c.it, c.w
  root = w.cls(OPCLS)
  out = []
  for name, m in sorted(it.modules.items()):
    if not name.startswith('d7a.alp'): continue
    for k, v in sorted(getattr(m, 'ns', {}).items()):
      if isinstance(v, ClassV) and v is not root and root in v.mro and v.module is not None and v.module.name == name and v not in out: out.append(v)
  return out


def qual(cls): return cls.module.name + '.' + cls.name


def op_instance(c, cls):
  q = qual(cls)
  if q not in RECIPES: return None
  return arbitrary(c.w, q, cls.name)


def c11_codes(c):
  it = c.it
  no_decoding(c)
  seen = {}
  entry = it.live
  for cls in operation_classes(c):
    it.live = entry
    try: o = op_instance(c, cls)
    except Dead: c.undecided('%s cannot be constructed' % cls.name); continue
    if o is None: c.undecided('no recipe for operation %s' % cls.name); continue
    op = it.get_attr(o, 'op')
    c.ok()
    if not isinstance(op, int) or isinstance(op, bool):
      if isinstance(op, SI): c.viol('code-varies', cplace(cls, '.op'), 'the operation code depends on the operand'); continue
      c.undecided('code of %s' % cls.name); continue
    if not 0 <= op < 64: c.viol('code-range', cplace(cls, '.op'), 'the operation code %d does not fit 6 bits' % op)
    if op in seen: c.viol('code-shared', cplace(cls, '.op'), 'operation code %d is also used by %s' % (op, seen[op].name))
    seen[op] = cls
    for k, n in SUPPORTED.items():
      if n == cls.name and k != op: c.viol('code-changed', cplace(cls, '.op'), 'operation code %d, the protocol says %d' % (op, k))
    if not isinstance(o.attrs.get('operand'), (Obj, Union)) and o.attrs.get('operand') is not None: c.undecided('operand of %s' % cls.name)


def c11_dispatch(op, short=None):
  def go(c):
    it, w = c.it, c.w
    pc = w.cls(PARSER)
    no_decoding(c)
    b7, b6 = w.uint('b7', 1), w.uint('b6', 1)
    first = it.add(it.shl(b7, 7), it.add(it.shl(b6, 6), op))
    if short is None: tail = tuple(w.uint('byte%d' % i, 8) for i in range(1, 5)) + (w.blob('content', width=9),)
    else: tail = tuple(short) # one content of known size: what is accepted does not depend on how much of it there is
    s = w.stream((first,) + tail)
    p = it.call(pc, [], {})
    live, r, thr = it.run(lambda: it.call(it.get_attr(p, 'parse_alp_action'), [s], {}))
    where = cplace(pc, '.parse_alp_action')
    c.ok()
    if short is not None and live == 0: return
    if op not in SUPPORTED and (op not in KNOWN or live == 0):
      if live: c.viol('misread', where, 'the unknown operation %d is accepted' % op, live)
      for t in thr:
        if not is_a(it, t.exc, ('ParseError',)) and it.exc_name(t.exc).split('.')[-1] not in ('ReadError',):
          c.viol('refusal', where, 'the unknown operation %d ends in %s instead of a parse error' % (op, it.exc_name(t.exc)), t.guard)
      return
    it.live = live
    if live == 0:
      if op in SUPPORTED: c.viol('unsupported', where, 'no bytes are accepted as operation %d' % op)
      return
    for g, a in it.alts(r):
      if not it.may(g): continue
      sv = it.live
      it.live = it.AND(sv, g)
      if not isinstance(a, Obj):
        c.viol('misread', where, 'operation %d is accepted without giving an action' % op, it.live)
        it.live = sv
        continue
      opn = it.get_attr(a, 'operation')
      for h, o in it.alts(opn):
        if not it.may(h): continue
        gg = it.AND(it.live, h)
        code = it.get_attr(o, 'op')
        c.ok()
        if not (isinstance(code, int) and code == op):
          c.viol('misread', where, 'operation %d is parsed as %s' % (op, o.cls.name if isinstance(o, Obj) else '?'), gg); continue
        if op in SUPPORTED and o.cls.name != SUPPORTED[op]: c.viol('misread', where, 'operation %d is parsed as %s' % (op, o.cls.name), gg)
        want = it.get_attr(o, 'operand_class')
        opd = it.get_attr(o, 'operand')
        for k, x in it.alts(opd):
          g3 = it.AND(gg, k)
          if not it.may(g3): continue
          c.ok()
          if not (isinstance(x, Obj) and isinstance(want, ClassV) and want in x.cls.mro): c.viol('operand', where, 'operation %d holds the wrong operand' % op, g3)
      # the leading flag bits
      it.live = sv
  return go


FLAGS = {'group': 7, 'respond_when_completed': 7, 'eop': 7, 'overload': 7}


def c11(base, tier):
  obs = [Ob('operation codes are distinct and fixed', c11_codes)]
  obs += [Ob('operation %d' % k, c11_dispatch(k), weight=2 if k in SUPPORTED else 1) for k in range(64)]
  for name, content in (('zeros', [0] * 32), ('a query', [0x40, 1, 5] + [0] * 4), ('data', [0x40, 0, 2, 1, 2]), ('an interface', [0xD7] + [0x10] * 30)):
    obs += [Ob('operation %d on %s' % (k, name), c11_dispatch(k, content), weight=0.3) for k in range(64)]
  return obs


# ------------------------------------------------------------------ C12
FILES = C02 + [APF]


def c12_file(q, allocation=False, **fix):
  def go(c):
    it, w = c.it, c.w
    cls = w.cls(q)
    obj = arbitrary(w, q, cls.name, **fix)
    b = serialise(c, obj, rule=None)
    n = blen(it, b)
    L = declared(c, obj, 'length')
    c.ok()
    if allocation:
      bad = it.AND(it.live, it.lt_node(L, n))
      if bad: c.viol('length', cplace(cls), 'more bytes are serialised than the declared length', bad)
      return
    bad = it.AND(it.live, it.NOT(it.eq_node(n, L)))
    if bad: c.viol('length', cplace(cls), 'the declared length differs from the number of bytes serialised', bad)
    # what the parser takes is not more than that
    s = stream_of(c, b, (w.blob('following'),))
    if cls.lookup('parse')[0] is None: return
    live, r, thr = it.run(lambda: it.call(it.get_attr(cls, 'parse'), [s], {}))
    it.live = live
    if live == 0: raise Dead()
    for g, rest, off, pos in w.rest_of(s):
      bad = it.AND(it.AND(it.live, g), it.lt_node(it.binop1('*', L, 8), pos))
      c.ok()
      if bad: c.viol('length', cplace(cls, '.parse'), 'the parser consumes more bytes than the declared length', bad)
    for g, pth, why in diff(it, L, declared(c, r, 'length')):
      c.viol('length', cplace(cls, '.parse'), 'the parsed file declares another length', g)
    c.ok()
  return go


def c12_icf(name, conf):
  def go(c):
    it, w = c.it, c.w
    cls = w.cls(SF + 'interface_configuration.InterfaceConfigurationFile')
    t, = members_named(w, ITYPE, name)
    fix = {}
    if conf in (ABP, OTAA): pass
    cf = arbitrary(w, conf, name) if conf else None
    o = accepted(w, lambda: it.call(w.cls(IFC), [], dict(interface_id=t, interface_configuration=cf)))
    f = accepted(w, lambda: it.call(cls, [], dict(interface_configuration=o)))
    b = serialise(c, f, rule=None)
    n, L = blen(it, b), declared(c, f, 'length')
    c.ok()
    if conf:
      # the declaration is the space allocated on the node
      bad = it.AND(it.live, it.lt_node(L, n))
      if bad: c.viol('length', cplace(cls), 'more bytes are serialised than the declared length', bad)
    else:
      bad = it.AND(it.live, it.NOT(it.eq_node(n, L)))
      if bad: c.viol('length', cplace(cls), 'the declared length differs from the number of bytes serialised', bad)
  return go


def c12_notimpl(c):
  it, w = c.it, c.w
  cls = w.cls(SF + 'not_implemented.NotImplementedFile')
  entry = it.live
  for n in (0, 1, 4, 9, 20):
    it.live = entry
    f = accepted(w, lambda: it.call(cls, [w.uint('id', 8), n], {}))
    b = serialise(c, f)
    c.ok()
    bad = it.AND(it.live, it.NOT(it.OR(FALSE, it.eq_node(blen(it, b), declared(c, f, 'length')))))
    if bad: c.viol('length', cplace(cls), 'the declared length differs from the number of bytes serialised', bad)


def c12(base, tier):
  obs = [Ob('length of %s' % short(q), c12_file(q)) for q in C02 if q != PHYS]
  obs.append(Ob('length of AccessProfileFile', c12_file(APF), weight=3))
  for n in (0, 1, 3, 10):   # 45 bytes are declared: 15 and 10 entries of 3
    obs.append(Ob('length of PhyStatusFile with %d channels' % n, c12_file(PHYS, allocation=True, channel_status_list_length=K(n), channel_status_identifier=LST(O(CSI), n), channel_noise_floor=LST(I(), n))))
  obs += [Ob('length of InterfaceConfigurationFile for %s' % n, c12_icf(n, cf)) for n, cf in (('D7ASP', CONF), ('LORAWAN_ABP', ABP), ('LORAWAN_OTAA', OTAA), ('SERIAL', None), ('HOST', None))]
  obs.append(Ob('length of files without implementation', c12_notimpl))
  return obs


# ------------------------------------------------------------------ C13
REGQ = SF + 'system_files.SystemFiles'
IDSQ = SF + 'system_file_ids.SystemFileIds'
NUMBERS = dict(UID=0, FACTORY_SETTINGS=1, FIRMWARE_VERSION=2, DEVICE_CAPACITY=3, DEVICE_STATUS=4, ENGINEERING_MODE=5, VID=6, PHY_CONFIG=8, PHY_STATUS=9,
               DLL_CONFIG=10, DLL_STATUS=11, NWL_ROUTING=12, NWL_SECURITY=13, NWL_SECURITY_KEY=14, NWL_SSR=15, NWL_STATUS=16, TRL_STATUS=17, SEL_CONFIG=18,
               FOF_STATUS=19, LOCATION_DATA=0x17, ALP_ROOT_AUTHENTICATION_KEY=0x18, ALP_USER_AUTHENTICATION_KEY=0x19,
               **{'ACCESS_PROFILE_%d' % i: 0x20 + i for i in range(15)})
FILETYPES = {0: 'UidFile', 1: 'FactorySettingsFile', 2: 'FirmwareVersionFile', 5: 'EngineeringModeFile', 6: 'VidFile', 9: 'PhyStatusFile', 10: 'DllConfigFile',
             11: 'DllStatusFile', 14: 'SecurityKeyFile', 0x18: 'RootAuthenticationKeyFile', 0x19: 'UserAuthenticationKeyFile',
             **{0x20 + i: 'AccessProfileFile' for i in range(15)}}


def registry(c):
  it, w = c.it, c.w
  o = it.call(w.cls(REGQ), [], {})
  d = it.get_attr(o, 'files')
  if not isinstance(d, DictV): raise Unsupported('the registry is not a dictionary')
  out = []
  for k, (g, v) in d.items.items():
    key = d.keys[k] if hasattr(d, 'keys') and isinstance(d.keys, dict) else k
    out.append((key, v))
  return out


def c13_numbers(c):
  it, w = c.it, c.w
  ids = w.cls(IDSQ)
  vals = {}
  for m in ids.members:
    n, v = m.attrs['_name_'], m.attrs['_value_']
    c.ok()
    if v in vals: c.viol('number-shared', cplace(ids, '.' + n), 'number %r is also used by %s' % (v, vals[v]))
    vals[v] = n
    if n in NUMBERS and NUMBERS[n] != v: c.viol('number', cplace(ids, '.' + n), 'number %r, the protocol says %d' % (v, NUMBERS[n]))
  # aliases (two names for one number) do not show up as members
  names = {m.attrs['_name_'] for m in ids.members}
  for n in NUMBERS:
    if n not in names: c.viol('number', cplace(ids, '.' + n), 'is not a standard file number of its own')
  c.ok()


def declared(c, f, name):
  """the number or length of a file, which every file object has"""
  it = c.it
  before = it.live
  live, v, thr = it.run(lambda: it.get_attr(f, name))
  c.thrown('undeclared', thr, what='the %s of a file' % name, default=cplace(f.cls, '.' + name))
  it.live = it.AND(before, live)
  if it.live == 0: raise Dead()
  return v


def entries(c):
  it, w = c.it, c.w
  ids = w.cls(IDSQ)
  out = {}
  reg = registry(c)
  for k, v in reg:
    m = k
    if not isinstance(m, Obj):
      mm = [x for x in ids.members if it.hkey(x) == k]
      if len(mm) != 1: raise Unsupported('registry key %r' % (k,))
      m = mm[0]
    out[m.attrs['_value_']] = (m, v)
  return out


def c13_registry(c):
  it, w = c.it, c.w
  ids, regc = w.cls(IDSQ), w.cls(REGQ)
  es = entries(c)
  byid = {}
  for m in ids.members:
    n, v = m.attrs['_name_'], m.attrs['_value_']
    c.ok()
    if v not in es:
      if n != 'RFU_2F': c.viol('unregistered', cplace(regc, '.files[%s]' % n), 'the standard file is not registered')
      continue
    f = es[v][1]
    if not isinstance(f, Obj): c.viol('entry', cplace(regc, '.files[%s]' % n), 'has no description'); continue
    i = declared(c, f, 'id')
    if not isinstance(i, int) or i != v: c.viol('entry-id', cplace(regc, '.files[%s]' % n), 'the description has number %s instead of %d' % (i, v))
    if v in FILETYPES and f.cls.name != FILETYPES[v]: c.viol('entry-type', cplace(regc, '.files[%s]' % n), 'described by %s instead of %s' % (f.cls.name, FILETYPES[v]))
    if v not in FILETYPES or v == 9 or v >= 0x20: continue     # no content of their own, or no content yet
    ln = declared(c, f, 'length')
    b = serialise(c, f)
    c.ok()
    bad = it.AND(it.live, it.NOT(it.eq_node(blen(it, b), ln)))
    if bad: c.viol('entry-length', cplace(regc, '.files[%s]' % n), 'declared length differs from its content', bad)


def c13_parse(v):
  def go(c):
    it, w = c.it, c.w
    es = entries(c)
    regc = w.cls(REGQ)
    if v not in es: return
    m, f = es[v]
    if not isinstance(f, Obj) or f.cls.lookup('parse')[0] is None: c.ok(); return
    n = m.attrs['_name_']
    bs = [w.uint('byte%d' % i, 8) for i in range(declared(c, f, 'length'))]
    if v == 9: bs[14] = 1      # entries, see C12
    s = w.stream(tuple(bs))
    live, r, thr = it.run(lambda: it.call(it.get_attr(f, 'parse'), [s], {}))
    it.live = live
    if live == 0: c.undecided('no content is accepted'); return
    for g, x in it.alts(r):
      if not it.may(g): continue
      c.ok()
      if not isinstance(x, Obj) or x.cls is not f.cls:
        c.viol('entry-parser', cplace(regc, '.files[%s]' % n), 'its content parser yields %s' % nameof(x), it.AND(it.live, g)); continue
      if f.cls.name == 'AccessProfileFile': continue     # the specifier is not part of the content
      for d, p, why in diff(it, v, it.get_attr(x, 'id')):
        c.viol('entry-parser', cplace(regc, '.files[%s]' % n), 'its content parser yields a file with another number', it.AND(d, g))
  return go


def c13(base, tier):
  obs = [Ob('file numbers', c13_numbers), Ob('registry entries', c13_registry, weight=2)]
  for v, n in sorted(FILETYPES.items()):
    if v > 0x20 and tier == 'quick' and v not in (0x27, 0x2e): continue
    obs.append(Ob('content parser of file %d (%s)' % (v, n), c13_parse(v), weight=2 if v >= 0x20 else 1))
  return obs


# ------------------------------------------------------------------ C14
def seq(c, *parts):
  """the concatenation of byte sequences (numbers and serialisations)"""
  it = c.it
  alts = [(TRUE, ())]
  for p in parts:
    if isinstance(p, tuple): more = [(TRUE, p)]
    elif it.is_intlike(p): more = [(TRUE, (p,))]
    else: more = it.list_live(p)
    alts = [(it.AND(g, h), e + f) for g, e in alts for h, f in more if it.may(it.AND(g, h))]
  return it.new_seq(alts, 'bytearray')


def offset_bytes(c, fid, at):
  it, w = c.it, c.w
  ln = accepted(w, lambda: it.call(w.cls(LEN), [], dict(value=at)))
  o = accepted(w, lambda: it.call(w.cls(OFS), [], dict(id=fid, offset=ln)))
  return serialise(c, o, rule=None)


def length_bytes(c, n):
  it, w = c.it, c.w
  return serialise(c, accepted(w, lambda: it.call(w.cls(LEN), [], dict(value=n))), rule=None)


INTERFACES = (('HOST', None, None), ('SERIAL', None, 1), ('D7ASP', CONF, 0xd7), ('D7ASP', 'default', 0xd7), ('LORAWAN_ABP', ABP, 2), ('LORAWAN_OTAA', OTAA, 3))


def interface_args(c, name, conf):
  it, w = c.it, c.w
  t, = members_named(w, ITYPE, name)
  kw = dict(interface_type=t)
  fwd = ()
  if conf == 'default':
    dc = accepted(w, lambda: it.call(w.cls(CONF), [], {}))
    fwd = seq(c, (50, t.attrs['_value_']), serialise(c, dc))
  elif conf:
    cf = arbitrary(w, conf, name)
    kw['interface_configuration'] = cf
    fwd = seq(c, (50, t.attrs['_value_']), serialise(c, cf, rule=None))
  elif name != 'HOST': fwd = (50, t.attrs['_value_'])
  return kw, fwd


def built(c, name, kw, expect, fwd, tag=None, default_args=False):
  """the command's bytes are tag request, forward, the expected action"""
  it, w = c.it, c.w
  cls = w.cls(CMD)
  where = cplace(cls, '.' + name)
  live, cmd, thr = it.run(lambda: it.call(it.get_attr(cls, name), [], kw))
  c.thrown('factory-raises', thr, what=name)
  it.live = live
  if live == 0: raise Dead()
  t = it.get_attr(cmd, 'tag_id')
  c.ok()
  if tag is not None:
    for g, p, why in diff(it, tag, t): c.viol('tag', where, 'the command carries another tag than the one given (%s)' % why, g)
  else:
    bad = it.AND(it.live, it.OR(it.lt_node(t, 0), it.lt_node(255, t))) if it.is_intlike(t) else TRUE
    if bad: c.viol('tag', where, 'the generated tag is not a byte', bad)
  b = serialise(c, cmd)
  want = seq(c, (0xB4, t), fwd, expect)
  c.ok()
  for g, p, why in diff(it, want, b):
    c.viol('bytes', where, 'the serialised command is not tag request, forward action and the requested action: byte %s (%s)' % (p or '?', why), g)


def c14_factory(kind, iface, conf):
  def go(c):
    it, w = c.it, c.w
    no_decoding(c)
    kw, fwd = interface_args(c, iface, conf)
    fid = w.uint('file_id', 8)
    if kind == 'read':
      at, n = w.uint('offset', 30), w.uint('length', 30)
      kw.update(file_id=fid, length=n, offset=at)
      built(c, 'create_with_read_file_action', kw, seq(c, 1, offset_bytes(c, fid, at), length_bytes(c, n)), fwd)
    elif kind in ('write', 'return'):
      at = w.uint('offset', 30)
      data = w.bytelist('data', 30)
      n = models.b_len(it, [data], {})
      kw.update(file_id=fid, data=data, offset=at)
      body = tuple(it.list_live(data)[0][1])
      tag = None
      if kind == 'return': tag = kw['tag_id'] = w.uint('tag', 8)
      built(c, 'create_with_write_file_action' if kind == 'write' else 'create_with_return_file_data_action', kw,
            seq(c, 4 if kind == 'write' else 32, offset_bytes(c, fid, at), length_bytes(c, n), body), fwd, tag)
    elif kind == 'read header':
      kw.update(file_id=fid)
      built(c, 'create_with_read_file_header', kw, seq(c, 2, fid), fwd)
    elif kind in ('write header', 'create'):
      h = arbitrary(w, FHDR, 'header')
      kw.update(file_id=fid, file_header=h)
      built(c, 'create_with_write_file_header' if kind == 'write header' else 'create_with_create_new_file', kw,
            seq(c, 6 if kind == 'write header' else 17, fid, serialise(c, h)), fwd)
  return go


def c14_defaults(kind):
  """offset left out: start of the file"""
  def go(c):
    it, w = c.it, c.w
    no_decoding(c)
    fid = w.uint('file_id', 8)
    if kind == 'read':
      n = w.uint('length', 30)
      built(c, 'create_with_read_file_action', dict(file_id=fid, length=n), seq(c, 1, fid, 0, length_bytes(c, n)), ())
    else:
      data = w.bytelist('data', 30)
      n = models.b_len(it, [data], {})
      name = 'create_with_write_file_action' if kind == 'write' else 'create_with_return_file_data_action'
      built(c, name, dict(file_id=fid, data=data), seq(c, 4 if kind == 'write' else 32, fid, 0, length_bytes(c, n), tuple(it.list_live(data)[0][1])), ())
  return go


def c14_system(q, write, iface='HOST', conf=None, **fix):
  def go(c):
    it, w = c.it, c.w
    kw, fwd = interface_args(c, iface, conf)
    f = arbitrary(w, q, 'file', **fix)
    fid, n = declared(c, f, 'id'), declared(c, f, 'length')
    kw['file'] = f
    if write:
      b = serialise(c, f)
      built(c, 'create_with_write_file_action_system_file', kw, seq(c, 4, fid, 0, length_bytes(c, blen(it, b)), b), fwd)
    else:
      built(c, 'create_with_read_file_action_system_file', kw, seq(c, 1, fid, 0, length_bytes(c, n)), fwd)
  return go


def c14_indirect(overload):
  def go(c):
    it, w = c.it, c.w
    fid = w.uint('interface_file_id', 8)
    resp = w.bool('respond')
    tag = w.uint('tag', 8)
    cmd = command_of(c, [], generate_tag_request_action=True, tag_id=tag, send_tag_response_when_completed=resp)
    kw = dict(interface_file_id=fid, overload=overload)
    ob = ()
    if overload:
      a = arbitrary(w, ADDR, 'overload')
      kw['overload_configuration'] = a
      ob = serialise(c, a)
    live, _, thr = it.run(lambda: it.call(it.get_attr(cmd, 'add_indirect_forward_action'), [], kw))
    c.thrown('factory-raises', thr)
    it.live = live
    if live == 0: raise Dead()
    rd = small_read(c)
    it.call(it.get_attr(cmd, 'add_action'), [rd], {})
    b = serialise(c, cmd)
    first = it.add(it.shl(it.bits(resp)[0] and SI((it.truth(resp), FALSE)), 7), 52)
    want = seq(c, (first, tag), (51 + (128 if overload else 0), fid), ob, serialise(c, rd))
    c.ok()
    for g, p, why in diff(it, want, b):
      c.viol('bytes', cplace(w.cls(CMD), '.add_indirect_forward_action'), 'the serialised command is not tag request, indirect forward and read: byte %s (%s)' % (p, why), g)
  return go


def c14_forward_keeps(c):
  """adding a forward action leaves earlier actions in front of it"""
  it, w = c.it, c.w
  rd = small_read(c)
  cmd = command_of(c, [rd])
  t, = members_named(w, ITYPE, 'SERIAL')
  live, _, thr = it.run(lambda: it.call(it.get_attr(cmd, 'add_forward_action'), [], dict(interface_type=t)))
  c.thrown('factory-raises', thr)
  it.live = live
  rd2 = small_read(c)
  it.call(it.get_attr(cmd, 'add_action'), [rd2], {})
  b = serialise(c, cmd)
  c.ok()
  for g, p, why in diff(it, seq(c, serialise(c, rd), (50, 1), serialise(c, rd2)), b):
    c.viol('bytes', cplace(w.cls(CMD), '.add_forward_action'), 'actions are not serialised in the order they were added (%s)' % why, g)


def c14(base, tier):
  obs = []
  for k in ('read', 'write', 'return', 'read header', 'write header', 'create'):
    for i, cf, _ in INTERFACES:
      obs.append(Ob('%s through %s%s' % (k, i, ' (default configuration)' if cf == 'default' else ''), c14_factory(k, i, cf), weight=2 if k in ('write', 'return') else 1))
  for k in ('read', 'write', 'return'): obs.append(Ob('%s with default arguments' % k, c14_defaults(k)))
  for q in C02:
    for wr in (False, True): obs.append(Ob('%s system file %s' % ('write' if wr else 'read', short(q)), c14_system(q, wr), weight=2))
  for wr in (False, True):
    obs.append(Ob('%s system file access profile' % ('write' if wr else 'read'), c14_system(APF, wr), weight=3))
    for i, cf, _ in INTERFACES[1:]: obs.append(Ob('%s system file VID through %s%s' % ('write' if wr else 'read', i, ' (default configuration)' if cf == 'default' else ''), c14_system(SF + 'vid.VidFile', wr, i, cf)))
  obs.append(Ob('indirect forward', c14_indirect(False)))
  obs.append(Ob('indirect forward with overload', c14_indirect(True)))
  obs.append(Ob('order of added actions', c14_forward_keeps))
  return obs


# ------------------------------------------------------------------ C15
def c15_list(kinds, with_generate=False):
  def go(c):
    it, w = c.it, c.w
    acts, tag, comp, err, stat, others, resp = [], None, False, False, None, [], True
    clash = False
    for k in kinds:
      if k == 'S':
        a = status_action(c)
        if stat is not None: clash = True
        stat = a
      elif k == 'Q':
        a = tag_request(c)
        if tag is not None: clash = True
        tag = it.get_attr(it.get_attr(a, 'operand'), 'tag_id')
        resp = it.get_attr(a, 'respond_when_completed')
      elif k == 'R':
        a = tag_response(c)
        if tag is not None: clash = True
        tag = it.get_attr(it.get_attr(a, 'operand'), 'tag_id')
        comp, err = it.get_attr(a, 'eop'), it.get_attr(a, 'error')
      else:
        a = small_read(c)
        others.append(a)
      acts.append(a)
    cls = w.cls(CMD)
    where = cplace(cls, '.__init__')
    kw = dict(actions=it.new_list(acts), generate_tag_request_action=with_generate)
    live, cmd, thr = it.run(lambda: it.call(cls, [], kw))
    c.ok()
    if clash:
      if live: c.viol('duplicate', where, 'a command with the actions %s is accepted' % '+'.join(NAMES[k] for k in kinds), live)
      c.thrown('refusal', thr, allow=('ParseError',), what='duplicate actions')
      return
    c.thrown('refused', thr, what='a command with the actions %s' % '+'.join(NAMES[k] for k in kinds))
    it.live = live
    if live == 0: raise Dead()
    wants = dict(interface_status=stat, execution_completed=comp, completed_with_error=err, actions=it.new_list(others))
    if tag is not None or not with_generate: wants['tag_id'] = tag
    if 'Q' in kinds: wants['send_tag_response_when_completed'] = resp
    for n, v in wants.items():
      c.ok()
      for g, p, why in diff(it, v, it.get_attr(cmd, n)):
        c.viol('metadata', cplace(cls, '.' + n), '%s%s is not what the actions %s say (%s)' % (n, norm_path(p), '+'.join(NAMES[k] for k in kinds), why), g)
    for n, step in (('at once', None), ('after it was completed', True)):
      if step and not with_generate: continue
      if step: it.call(it.get_attr(cmd, 'add_action'), [small_read(c)], {})
      live, r, thr = it.run(lambda: it.call(it.get_attr(cmd, 'get_d7asp_interface_status'), [], {}))
      place_ = cplace(cls, '.get_d7asp_interface_status')
      c.thrown('link-raises', thr, what='asking for the link status', default=place_)
      it.live = live
      if live == 0: raise Dead()
      c.ok()
      want = it.get_attr(it.get_attr(stat, 'operand'), 'interface_status') if stat is not None else None
      for g, p, why in diff(it, want, r):
        c.viol('link-status', place_, 'the link status given by a command with the actions %s is not the one it holds (%s)' % ('+'.join(NAMES[k] for k in kinds) or 'none', why), g)
    if with_generate and tag is None:
      t = it.get_attr(cmd, 'tag_id')
      bad = it.AND(it.live, it.OR(it.lt_node(t, 0), it.lt_node(255, t))) if it.is_intlike(t) else TRUE
      c.ok()
      if bad: c.viol('metadata', cplace(cls, '.tag_id'), 'a command that requests a tag has none', bad)
  return go


def c15_link(iface, status, more=True):
  """the link status a command gives: the one of its D7 interface status"""
  def go(c):
    it, w = c.it, c.w
    cls = w.cls(CMD)
    acts, want = [], None
    if iface is not None:
      st = arbitrary(w, STAT, 'status') if status else None
      opd = accepted(w, lambda: it.call(w.cls(IFS), [], dict(interface_id=iface, interface_status=st)))
      op = accepted(w, lambda: it.call(w.cls(OPN + 'status.InterfaceStatus'), [], dict(operand=opd)))
      ext = it.get_attr(w.cls(A + 'status_action.StatusActionOperandExtensions'), 'INTERFACE_STATUS')
      acts.append(accepted(w, lambda: it.call(w.cls(STA), [], dict(status_operand_extension=ext, operation=op))))
      if iface == 0xD7: want = st
    if more: acts.append(small_read(c))
    cmd = accepted(w, lambda: it.call(cls, [], dict(actions=it.new_list(acts), generate_tag_request_action=False)))
    where = cplace(cls, '.get_d7asp_interface_status')
    live, r, thr = it.run(lambda: it.call(it.get_attr(cmd, 'get_d7asp_interface_status'), [], {}))
    what = 'asking a command %s for its link status' % ('without interface status' if iface is None else 'with the status of interface 0x%02x' % iface)
    c.thrown('link-raises', thr, what=what, default=where)
    it.live = live
    if live == 0: raise Dead()
    c.ok()
    for g, p, why in diff(it, want, r): c.viol('link-status', where, '%s gives something else (%s)' % (what, why), g)
  return go


NAMES = dict(S='status', Q='tag request', R='tag response', A='read')


def c15(base, tier):
  import itertools
  obs = []
  for n in range(0, 4 if tier == 'quick' else 5):
    for ks in itertools.product('SQRA', repeat=n):
      if n == 4 and ks.count('S') > 2: continue
      obs.append(Ob('actions %s' % ('+'.join(NAMES[k] for k in ks) or 'none'), c15_list(ks)))
  for i in (None, 0xD7, 0x00, 0x01, 0x02, 0x03): obs.append(Ob('link status, %s' % ('no status' if i is None else 'interface 0x%02x' % i), c15_link(i, i == 0xD7)))
  for i in (0xD7, 0x00): obs.append(Ob('link status alone, interface 0x%02x' % i, c15_link(i, i == 0xD7, False)))
  for ks in ('', 'A', 'Q', 'R', 'AQ', 'SA'): obs.append(Ob('actions %s, generating a tag' % ('+'.join(NAMES[k] for k in ks) or 'none'), c15_list(ks, True)))
  return obs
