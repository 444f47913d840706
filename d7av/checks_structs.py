"""Round trips: what is serialised is parsed back (C01-C04)."""
from .bdd import TRUE, FALSE
from .values import *
from .domains import *
from .recipes import *
from .report import Ob, place
from .interp import Dead
from . import models


def short(q): return '.'.join(q.split('.')[-2:])


def class_file(cls):
  from . import frontend
  p = cls.module.path if cls.module is not None else None
  return frontend.rel(p) if p else '?'


def cplace(cls, what=''):
  return "%s:%s%s" % (class_file(cls), cls.name, what)


def norm_path(p):
  """attribute path without list positions"""
  import re
  return re.sub(r'\[\d+\]', '[]', p)


def obj_place(o):
  if isinstance(o, Union): o = o.alts[0][1]
  return cplace(o.cls, '.__iter__') if isinstance(o, Obj) else None


def serialise(c, obj, rule='serialise-raises'):
  """bytes of obj; narrows the state to where serialising succeeds"""
  it = c.it
  live, b, thr = it.run(lambda: to_bytes(it, obj))
  if rule: c.thrown(rule, thr, what='serialising', default=obj_place(obj))
  it.live = live
  if live == 0: raise Dead()
  return b


def stream_of(c, b, tail):
  it = c.it
  ba = it.new_seq([(g, e + tail) for g, e in it.list_live(b)], 'bytearray')
  return models.stream_ctor(it, models.STREAM, [ba], {})


def extent(c, s, tail, cls):
  """the parse read exactly the serialised bytes"""
  it = c.it
  for g, rest, off, pos in c.w.rest_of(s):
    gg = it.AND(it.live, g)
    rest = strip_blobs(it, rest)
    if rest == tail and (off == 0): c.ok(); continue
    if isinstance(off, int) and off != 0:
      c.viol('extent', cplace(cls), 'parsing stops %d bits into a byte' % off, gg); continue
    same = it.shape(rest) == it.shape(tail)
    if same: c.ok(); continue
    k = len(rest) - len(tail)
    if k > 0 and rest[k:] == tail and all(isinstance(x, int) for x in rest[:k]): c.ok(); continue   # reserved bytes without content
    c.viol('extent', cplace(cls), 'parsing its own serialisation leaves %s' % rest_text(rest, tail), gg)


def rest_text(rest, tail):
  n = sum(1 for x in rest if not isinstance(x, Blob))
  if any(isinstance(x, Blob) and x.base is tail[0].base and x.start == 0 for x in rest): return '%d of its bytes unread' % n
  return 'the following bytes partly consumed'


def compare(c, x, y, cls, skip=(), rule='value-changed'):
  it = c.it
  ds = diff(it, x, y, skip=skip)
  c.ok()
  for g, p, why in ds:
    c.viol(rule, cplace(cls, norm_path(p)), 'field %s comes back different (%s)' % (norm_path(p) or '(whole)', why), g)


def roundtrip(c, obj, parse, cls, skip=(), check_extent=True):
  it = c.it
  b = serialise(c, obj)
  tail = (c.w.blob('following'),)
  s = stream_of(c, b, tail)
  live, r, thr = it.run(lambda: parse(s, b))
  c.thrown('parse-raises', thr, what='parsing the serialisation')
  it.live = live
  if live == 0: raise Dead()
  compare(c, obj, r, cls, skip)
  if check_extent: extent(c, s, tail, cls)
  return b, r


def parse_class(c, cls, extra=()):
  it = c.it
  def go(s, b): return it.call(it.get_attr(cls, 'parse'), [s] + list(extra), {})
  return go


def rt_class(q, skip=(), **fix):
  def go(c):
    cls = c.w.cls(q)
    obj = arbitrary(c.w, q, cls.name, **fix)
    roundtrip(c, obj, parse_class(c, cls), cls, skip)
  return go


# ------------------------------------------------------------------ C03
C03 = [CT, LEN, OFS, CH, CID, CSI, SB_, SP_, AP, ADDR, QOS, CONF, STAT, FPERM, FPROP, FHDR, ABP, OTAA, FHO]


def c03(base, tier):
  obs = [Ob('round trip of %s' % short(q), rt_class(q)) for q in C03]
  for s in ADDR_SHAPES:
    obs.append(Ob('round trip of Addressee with id type %s' % s['id_type'], addr_shape(s)))
  obs.append(Ob('interface configuration operand of each interface', ifc_wire))
  return obs


def addr_shape(s):
  def go(c):
    it, w = c.it, c.w
    cls = w.cls(ADDR)
    idt = [m for m in w.cls(IDT).members if m.attrs['_name_'] == s['id_type']]
    if not idt: raise Missing('IdType.%s' % s['id_type'])
    idv = make(w, s['id'], 'id')
    ac, nls = make(w, I(), 'access_class'), make(w, E(NLS), 'nls_method')
    obj = accepted(w, lambda: it.call(cls, [], dict(access_class=ac, id_type=idt[0], id=idv, nls_method=nls)))
    roundtrip(c, obj, parse_class(c, cls), cls)
  return go


def ifc_wire(c):
  """interface id byte then exactly the bytes of the configuration"""
  it, w = c.it, c.w
  cls = w.cls(IFC)
  entry = it.live
  for name, conf in (('D7ASP', CONF), ('LORAWAN_ABP', ABP), ('LORAWAN_OTAA', OTAA), ('SERIAL', None), ('HOST', None)):
    it.live = entry
    t = [m for m in w.cls(ITYPE).members if m.attrs['_name_'] == name]
    if not t: continue
    cf = arbitrary(w, conf, name) if conf else None
    o = accepted(w, lambda: it.call(cls, [], dict(interface_id=t[0], interface_configuration=cf)))
    b = serialise(c, o)
    want = [(TRUE, ())] if cf is None else it.list_live(serialise(c, cf))
    exp = it.new_seq([(g, (t[0].attrs['_value_'],) + e) for g, e in want], 'bytearray')
    for g, p, why in diff(it, exp, b):
      c.viol('layout', cplace(cls), 'serialisation is not the interface id followed by the configuration (%s)' % why, g)
    c.ok()


# ------------------------------------------------------------------ C02
C02 = [SF + x for x in (
  'uid.UidFile', 'vid.VidFile', 'dll_config.DllConfigFile', 'dll_status.DllStatusFile', 'engineering_mode.EngineeringModeFile',
  'factory_settings.FactorySettingsFile', 'firmware_version.FirmwareVersionFile', 'security_key.SecurityKeyFile',
  'root_authentication_key.RootAuthenticationKeyFile', 'user_authentication_key.UserAuthenticationKeyFile')]
PHYS = SF + 'phy_status.PhyStatusFile'
APF = SF + 'access_profile.AccessProfileFile'


def phys_n(n):
  def go(c):
    cls = c.w.cls(PHYS)
    obj = arbitrary(c.w, PHYS, 'PhyStatusFile', channel_status_list_length=K(n), channel_status_identifier=LST(O(CSI), n),
                    channel_noise_floor=LST(I(), n))
    roundtrip(c, obj, parse_class(c, cls), cls)
  return go


def c02(base, tier):
  obs = [Ob('round trip of %s' % short(q), rt_class(q)) for q in C02]
  for n in ((0, 1, 2, 3, 5) if tier == 'quick' else (0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 12)):
    obs.append(Ob('round trip of PhyStatusFile with %d channels' % n, phys_n(n)))
  obs.append(Ob('round trip of AccessProfileFile (specifier 0)', rt_class(APF, access_specifier=K(0)), weight=3))
  # the specifier is not on the wire; every other field must survive for every specifier
  obs.append(Ob('round trip of AccessProfileFile (any specifier)', rt_class(APF, skip=('access_specifier', 'id')), weight=3))
  return obs


# ------------------------------------------------------------------ C01
REQ = OPN + 'requests.'
WRI = OPN + 'write_operations.'
RSP = OPN + 'responses.'
REG = A + 'regular_action.RegularAction'
STA = A + 'status_action.StatusAction'
TRS = A + 'tag_response_action.TagResponseAction'
TRQ = A + 'tag_request_action.TagRequestAction'
FWA = A + 'forward_action.ForwardAction'
IFA = A + 'indirect_forward_action.IndirectForwardAction'
CMD = A + 'command.Command'
PARSER = A + 'parser.Parser'

def members_named(w, q, *names):
  ms = {m.attrs['_name_']: m for m in w.cls(q).members}
  for n in names:
    if n not in ms: raise Missing('%s.%s' % (q, n))
  return [ms[n] for n in names]


def parse_command(c, obj_bytes, s):
  it = c.it
  pc = c.w.cls(PARSER)
  p = it.call(pc, [], {})
  n = it.split(obj_bytes, lambda x: models.b_len(it, [x], {}))
  return it.call(it.get_attr(p, 'parse'), [s, n], {})


def rt_action(build, skip=()):
  """serialise one action as a command, parse the command, compare the single action"""
  def go(c):
    it, w = c.it, c.w
    a = build(c)
    cmd = command_of(c, [a])
    b = serialise(c, cmd)
    tail = (w.blob('following'),)
    s = stream_of(c, b, tail)
    live, r, thr = it.run(lambda: parse_command(c, b, s))
    c.thrown('parse-raises', thr, what='parsing the serialised command')
    it.live = live
    if live == 0: raise Dead()
    cls = acls(a)
    for what in ('actions', 'tag_id', 'interface_status', 'execution_completed', 'send_tag_response_when_completed'):
      x, y = it.get_attr(cmd, what), it.get_attr(r, what)
      for g, p, why in diff(it, x, y, skip=skip + ('systemfile_type', 'file_data_parsed')):
        c.viol('value-changed', opplace(a) + '.' + what + norm_path(p), '%s%s of the parsed command differs (%s)' % (what, norm_path(p), why), g)
      c.ok()
    if has_attr(it, cmd, 'completed_with_error') and has_attr(it, r, 'completed_with_error'):
      for g, p, why in diff(it, it.get_attr(cmd, 'completed_with_error'), it.get_attr(r, 'completed_with_error')):
        c.viol('value-changed', cplace(cls, '.completed_with_error'), 'error flag differs (%s)' % why, g)
    extent(c, s, tail, cls)
  return go


def has_attr(it, o, n):
  return isinstance(o, Obj) and o.attrs.get(n, UNDEF) is not UNDEF


def acls(a):
  if isinstance(a, Union): a = a.alts[0][1]
  return a.cls


def opplace(a):
  if isinstance(a, Union): a = a.alts[0][1]
  op = a.attrs.get('operation')
  if isinstance(op, Union): op = op.alts[0][1]
  return "%s(%s)" % (cplace(a.cls), op.cls.name if isinstance(op, Obj) else '?')


def command_of(c, actions, **kw):
  it, w = c.it, c.w
  args = dict(actions=it.new_list(actions), generate_tag_request_action=False)
  args.update(kw)
  return accepted(w, lambda: it.call(w.cls(CMD), [], args))


def regular(opq, **fix):
  def build(c):
    it, w = c.it, c.w
    op = arbitrary(w, opq, opq.split('.')[-1], **fix)
    return accepted(w, lambda: it.call(w.cls(REG), [], dict(group=w.bool('group'), resp=w.bool('resp'), operation=op)))
  return build


def user_data(c, opq, size=None):
  """operation on a file which is not a system file with a decoder"""
  it, w = c.it, c.w
  off = arbitrary(w, OFS, 'offset')
  fid = it.get_attr(off, 'id')
  known = [m.attrs['_value_'] for m in w.cls('d7a.system_files.system_file_ids.SystemFileIds').members]
  n = FALSE
  for k in known: n = it.OR(n, it.eq_int(fid, k))
  w.assume(it.NOT(n))
  data = accepted(w, lambda: it.call(w.cls(DATA), [], dict(data=w.bytelist('data', 32) if size is None else it.new_list((0,) * 16 + (w.run_of('data', size - 32),) + (0,) * 16 if size > 300 else tuple(i * 37 % 256 if i < 32 else 0 for i in range(size))), offset=off)))
  return accepted(w, lambda: it.call(w.cls(opq), [], dict(operand=data)))


def sized(opq, n):
  """file data of a known length"""
  def build(c):
    it, w = c.it, c.w
    op = user_data(c, opq, n)
    return accepted(w, lambda: it.call(w.cls(REG), [], dict(group=w.bool('group'), resp=w.bool('resp'), operation=op)))
  return build


SIZES = (0, 1, 63, 64, 65, 127, 128, 255, 256, 257, 16383, 16384, 16385, 65535, 65536, 4194303, 4194304, 16777216)


def return_data(c):
  it, w = c.it, c.w
  op = user_data(c, RSP + 'ReturnFileData')
  return accepted(w, lambda: it.call(w.cls(REG), [], dict(group=w.bool('group'), resp=w.bool('resp'), operation=op)))


def return_system(k):
  def build(c):
    it, w = c.it, c.w
    off = arbitrary(w, OFS, 'offset', id=K(k))
    data = accepted(w, lambda: it.call(w.cls(DATA), [], dict(data=w.bytelist('data', 32), offset=off)))
    op = accepted(w, lambda: it.call(w.cls(RSP + 'ReturnFileData'), [], dict(operand=data)))
    return accepted(w, lambda: it.call(w.cls(REG), [], dict(group=w.bool('group'), resp=w.bool('resp'), operation=op)))
  return build


def status_action(c):
  it, w = c.it, c.w
  st = arbitrary(w, STAT, 'status')
  opd = accepted(w, lambda: it.call(w.cls(IFS), [], dict(interface_id=0xd7, interface_status=st)))
  op = accepted(w, lambda: it.call(w.cls(OPN + 'status.InterfaceStatus'), [], dict(operand=opd)))
  ext = it.get_attr(w.cls(A + 'status_action.StatusActionOperandExtensions'), 'INTERFACE_STATUS')
  return accepted(w, lambda: it.call(w.cls(STA), [], dict(status_operand_extension=ext, operation=op)))


def tag_response(c):
  it, w = c.it, c.w
  op = arbitrary(w, OPN + 'tag_response.TagResponse', 'tag')
  return accepted(w, lambda: it.call(w.cls(TRS), [], dict(eop=w.bool('eop'), error=w.bool('error'), operation=op)))


def tag_request(c):
  it, w = c.it, c.w
  op = arbitrary(w, OPN + 'tag_request.TagRequest', 'tag')
  return accepted(w, lambda: it.call(w.cls(TRQ), [], dict(respond_when_completed=w.bool('respond'), operation=op)))


FORWARDS = (('D7ASP', CONF), ('LORAWAN_ABP', ABP), ('LORAWAN_OTAA', OTAA), ('SERIAL', None))


def forward_op(c, name, conf):
  it, w = c.it, c.w
  t, = members_named(w, ITYPE, name)
  cf = arbitrary(w, conf, name) if conf else None
  o = accepted(w, lambda: it.call(w.cls(IFC), [], dict(interface_id=t, interface_configuration=cf)))
  return accepted(w, lambda: it.call(w.cls(OPN + 'forward.Forward'), [], dict(operand=o)))


def forward(name, conf):
  def build(c):
    it, w = c.it, c.w
    op = forward_op(c, name, conf)
    return accepted(w, lambda: it.call(w.cls(FWA), [], dict(resp=w.bool('resp'), operation=op)))
  return build


def rt_regular_forward(name, conf):
  """a Forward operation inside a plain action, as the command factories build it"""
  def go(c):
    it, w = c.it, c.w
    op = forward_op(c, name, conf)
    a = accepted(w, lambda: it.call(w.cls(REG), [], dict(resp=w.bool('resp'), operation=op)))
    cmd = command_of(c, [a])
    b = serialise(c, cmd)
    tail = (w.blob('following'),)
    s = stream_of(c, b, tail)
    live, r, thr = it.run(lambda: parse_command(c, b, s))
    c.thrown('parse-raises', thr, what='parsing the serialised command')
    it.live = live
    if live == 0: raise Dead()
    acts = it.get_attr(r, 'actions')
    for g, e in it.list_live(acts):
      if len(e) != 1:
        c.viol('value-changed', opplace(a), 'parsed into %d actions' % len(e), g); continue
      for what in ('resp', 'operation'):
        for g2, p, why in diff(it, it.get_attr(a, what), it.get_attr(e[0], what)):
          c.viol('value-changed', opplace(a) + '.' + what + norm_path(p), '%s%s differs (%s)' % (what, norm_path(p), why), it.AND(g, g2))
        c.ok()
    extent(c, s, tail, w.cls(FWA))
  return go


def indirect(overload):
  def build(c):
    it, w = c.it, c.w
    fid = w.sint('interface_file_id', 40)
    conf = arbitrary(w, ADDR, 'overload') if overload else None
    o = accepted(w, lambda: it.call(w.cls(IIO), [], dict(interface_file_id=fid, interface_configuration_overload=conf)))
    op = accepted(w, lambda: it.call(w.cls(OPN + 'indirect_forward.IndirectForward'), [], dict(operand=o)))
    return accepted(w, lambda: it.call(w.cls(IFA), [], dict(overload=overload, resp=w.bool('resp'), operation=op)))
  return build


def break_query(c):
  it, w = c.it, c.w
  t, = members_named(w, OPD + 'query.QueryType', 'ARITH_COMP_WITH_VALUE')
  params = arbitrary(w, AQP, 'params')
  val = w.bytelist('compare_value', 32)
  ln = accepted(w, lambda: it.call(w.cls(LEN), [], dict(value=models.b_len(it, [val], {}))))
  off = arbitrary(w, OFS, 'file_a_offset')
  q = accepted(w, lambda: it.call(w.cls(QRY), [], dict(type=t, mask_present=False, params=params, compare_length=ln, compare_value=val, file_a_offset=off)))
  op = accepted(w, lambda: it.call(w.cls(OPN + 'break_query.BreakQuery'), [], dict(operand=q)))
  return accepted(w, lambda: it.call(w.cls(REG), [], dict(group=w.bool('group'), resp=w.bool('resp'), operation=op)))


ACTIONS = [
  ('read file data', regular(REQ + 'ReadFileData')),
  ('write file data', regular(WRI + 'WriteFileData')),
  ('break query', break_query),
  ('create new file', regular(OPN + 'file_management.CreateNewFile')),
  ('return file data of a user file', return_data),
  ('return file header', regular(RSP + 'ReturnFileHeader')),
  ('indirect forward', indirect(False)),
  ('indirect forward with overload', indirect(True)),
] + [('forward to %s' % n, forward(n, cf)) for n, cf in FORWARDS]


def rt_sequence(*builders):
  """several actions in one command: same actions in the same order"""
  def go(c):
    it, w = c.it, c.w
    acts = [b(c) for b in builders]
    cmd = command_of(c, acts)
    b = serialise(c, cmd)
    tail = (w.blob('following'),)
    s = stream_of(c, b, tail)
    live, r, thr = it.run(lambda: parse_command(c, b, s))
    c.thrown('parse-raises', thr, what='parsing the serialised command')
    it.live = live
    if live == 0: raise Dead()
    for g, p, why in diff(it, it.get_attr(cmd, 'actions'), it.get_attr(r, 'actions'), skip=('systemfile_type', 'file_data_parsed')):
      c.viol('sequence-changed', cplace(w.cls(CMD), '.actions' + norm_path(p)), 'actions of the parsed command differ (%s)' % why, g)
    c.ok()
    extent(c, s, tail, w.cls(CMD))
  return go


def small_read(c):
  """a read with one-byte encodings, for sequences"""
  it, w = c.it, c.w
  ln = accepted(w, lambda: it.call(w.cls(LEN), [], dict(value=w.uint('at', 6))))
  off = accepted(w, lambda: it.call(w.cls(OFS), [], dict(id=w.uint('fid', 8), offset=ln)))
  dr = accepted(w, lambda: it.call(w.cls(DREQ), [], dict(length=w.uint('count', 6), offset=off)))
  op = accepted(w, lambda: it.call(w.cls(REQ + 'ReadFileData'), [], dict(operand=dr)))
  return accepted(w, lambda: it.call(w.cls(REG), [], dict(group=w.bool('group'), resp=w.bool('resp'), operation=op)))


def rt_tagged(c):
  """the generated tag request: same tag, same respond-when-completed flag"""
  it, w = c.it, c.w
  a = small_read(c)
  tag, resp = w.uint('tag', 8), w.bool('respond')
  cmd = command_of(c, [a], generate_tag_request_action=True, tag_id=tag, send_tag_response_when_completed=resp)
  b = serialise(c, cmd)
  tail = (w.blob('following'),)
  s = stream_of(c, b, tail)
  live, r, thr = it.run(lambda: parse_command(c, b, s))
  c.thrown('parse-raises', thr, what='parsing the serialised command')
  it.live = live
  for what in ('actions', 'tag_id', 'interface_status', 'send_tag_response_when_completed'):
    for g, p, why in diff(it, it.get_attr(cmd, what), it.get_attr(r, what)):
      c.viol('tag-changed', cplace(w.cls(CMD), '.' + what + norm_path(p)), '%s of the parsed command differs (%s)' % (what, why), g)
    c.ok()
  extent(c, s, tail, w.cls(CMD))


def rt_tag_request_action(c):
  """a tag request action object on its own: its bytes parse to a command with that tag"""
  it, w = c.it, c.w
  a = tag_request(c)
  b = serialise(c, a)
  tail = (w.blob('following'),)
  s = stream_of(c, b, tail)
  live, r, thr = it.run(lambda: parse_command(c, b, s))
  c.thrown('parse-raises', thr, what='parsing the serialised action')
  it.live = live
  opd = it.get_attr(a, 'operand')
  for x, y, n in ((it.get_attr(opd, 'tag_id'), it.get_attr(r, 'tag_id'), 'tag_id'),
                  (it.get_attr(a, 'respond_when_completed'), it.get_attr(r, 'send_tag_response_when_completed'), 'respond_when_completed')):
    for g, p, why in diff(it, x, y):
      c.viol('tag-changed', cplace(w.cls(TRQ), '.' + n), '%s differs (%s)' % (n, why), g)
    c.ok()
  extent(c, s, tail, w.cls(TRQ))


def rt_tag_response(c):
  """a tag response action: its bytes parse to a command carrying its tag, completion and error"""
  it, w = c.it, c.w
  a = tag_response(c)
  b = serialise(c, a)
  tail = (w.blob('following'),)
  s = stream_of(c, b, tail)
  live, r, thr = it.run(lambda: parse_command(c, b, s))
  c.thrown('parse-raises', thr, what='parsing the serialised action')
  it.live = live
  if live == 0: raise Dead()
  opd = it.get_attr(a, 'operand')
  for x, n in ((it.get_attr(opd, 'tag_id'), 'tag_id'), (it.get_attr(a, 'eop'), 'execution_completed'), (it.get_attr(a, 'error'), 'completed_with_error')):
    for g, p, why in diff(it, x, it.get_attr(r, n)):
      c.viol('tag-changed', cplace(w.cls(TRS), '.' + n), '%s differs (%s)' % (n, why), g)
    c.ok()
  for g, e in it.list_live(it.get_attr(r, 'actions')):
    if e: c.viol('tag-changed', cplace(w.cls(TRS), '.actions'), 'other actions appear', g)
  extent(c, s, tail, w.cls(TRS))


def entries_of(c, b):
  """the single byte list of a serialisation whose length does not vary"""
  return c.it.list_live(b)


def status_layout(c):
  """serialised interface status: operation byte, interface, length of the status, status (what the parser reads)"""
  it, w = c.it, c.w
  a = status_action(c)
  st = it.get_attr(it.get_attr(a, 'operand'), 'interface_status')
  b = serialise(c, a)
  sb = serialise(c, st)
  exp = it.new_seq([(g, (0x62, 0xd7, len(e)) + e) for g, e in it.list_live(sb)], 'bytearray')
  c.ok()
  for g, p, why in diff(it, exp, b):
    c.viol('layout', cplace(w.cls(IFS), '.__iter__'), 'interface status is not serialised in the form the parser reads: %s' % why, g)


def status_parse(iface):
  """a received interface status: the status object is what was sent, nothing else is consumed"""
  def go(c):
    it, w = c.it, c.w
    if iface == 0xd7:
      st = arbitrary(w, STAT, 'status')
      sb = serialise(c, st)
    else:
      st, sb = None, it.new_seq([(TRUE, ())], 'bytearray')
    b = it.new_seq([(g, (0x62, iface, len(e)) + e) for g, e in it.list_live(sb)], 'bytearray')
    tail = (w.blob('following'),)
    s = stream_of(c, b, tail)
    live, r, thr = it.run(lambda: parse_command(c, b, s))
    c.thrown('parse-raises', thr, what='parsing an interface status')
    it.live = live
    if live == 0: raise Dead()
    act = it.get_attr(r, 'interface_status')
    opd = it.get_attr(act, 'operand')
    for x, n in ((st, 'interface_status'), (iface, 'interface_id')):
      for g, p, why in diff(it, x, it.get_attr(opd, n)):
        c.viol('value-changed', cplace(w.cls(IFS), '.%s%s' % (n, norm_path(p))), '%s%s of the parsed status differs (%s)' % (n, norm_path(p), why), g)
      c.ok()
    extent(c, s, tail, w.cls(IFS))
  return go


def c01(base, tier):
  obs = [Ob('action round trip: %s' % n, rt_action(b), weight=2 if 'status' in n or 'D7ASP' in n or 'overload' in n else 1) for n, b in ACTIONS]
  obs += [Ob('action round trip: %s %d bytes' % (what, n), rt_action(sized(q, n)), weight=0.3) for what, q in (('write of', WRI + 'WriteFileData'), ('return of', RSP + 'ReturnFileData')) for n in SIZES]
  obs += [Ob('forward inside a plain action: %s' % n, rt_regular_forward(n, cf)) for n, cf in FORWARDS]
  obs.append(Ob('generated tag request', rt_tagged))
  obs.append(Ob('tag request action', rt_tag_request_action))
  obs.append(Ob('tag response action', rt_tag_response))
  obs.append(Ob('layout of a serialised interface status', status_layout, weight=2))
  obs += [Ob('received interface status of interface 0x%02x' % i, status_parse(i), weight=2) for i in (0xd7, 0x00, 0x01)]
  obs.append(Ob('sequence: read, read', rt_sequence(small_read, small_read)))
  obs.append(Ob('sequence: write, tag response, read', rt_sequence(regular(WRI + 'WriteFileData'), tag_response, small_read), weight=2))
  obs.append(Ob('sequence: forward, read', rt_sequence(forward('SERIAL', None), small_read)))
  return obs
