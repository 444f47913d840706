"""How to build an arbitrary instance of every structure of the library: which kind of value each constructor
argument takes.  Only public constructor names appear here; what is accepted is decided by the analysed code."""
from .bdd import TRUE, FALSE
from .values import *
from .domains import *
from .interp import Dead


class Spec(object):
  def __init__(self, kind, *a, **k): self.kind, self.a, self.k = kind, a, k


def I(width=40): return Spec('int', width)          # any integer of that many bits, either sign
def B(): return Spec('bool')
def E(q): return Spec('enum', q)
def O(q, **fix): return Spec('obj', q, fix)
def BL(width=31): return Spec('bytes', width)        # list of bytes of any length
def TXT(n): return Spec('text', n)                   # ASCII text of exactly n characters
def LST(s, n): return Spec('list', s, n)
def ALT(*s): return Spec('alt', *s)                  # any of these
def K(v): return Spec('const', v)
NONE = K(None)

A = 'd7a.alp.'
OPD = A + 'operands.'
OPN = A + 'operations.'
SF = 'd7a.system_files.'

CT = 'd7a.types.ct.CT'
LEN = OPD + 'length.Length'
OFS = OPD + 'offset.Offset'
CH = 'd7a.phy.channel_header.ChannelHeader'
CID = 'd7a.phy.channel_id.ChannelID'
CSI = 'd7a.phy.channel_status_identifier.ChannelStatusIdentifier'
SB_ = 'd7a.phy.subband.SubBand'
SP_ = 'd7a.dll.sub_profile.SubProfile'
AP = 'd7a.dll.access_profile.AccessProfile'
ADDR = 'd7a.d7anp.addressee.Addressee'
QOS = 'd7a.sp.qos.QoS'
CONF = 'd7a.sp.configuration.Configuration'
STAT = 'd7a.sp.status.Status'
FPERM = 'd7a.fs.file_permissions.FilePermissions'
FPROP = 'd7a.fs.file_properties.FileProperties'
FHDR = 'd7a.fs.file_header.FileHeader'
IFC = OPD + 'interface_configuration.InterfaceConfiguration'
ABP = OPD + 'lorawan_interface_configuration_abp.LoRaWANInterfaceConfigurationABP'
OTAA = OPD + 'lorawan_interface_configuration_otaa.LoRaWANInterfaceConfigurationOTAA'
QRY = OPD + 'query.QueryOperand'
AQP = OPD + 'query.ArithQueryParams'
DATA = OPD + 'file.Data'
DREQ = OPD + 'file.DataRequest'
FID = OPD + 'file.FileIdOperand'
FHO = OPD + 'file_header.FileHeaderOperand'
IFS = OPD + 'interface_status.InterfaceStatusOperand'
IIO = OPD + 'indirect_interface_operand.IndirectInterfaceOperand'
TAG = OPD + 'tag_id.TagId'
ITYPE = A + 'interface.InterfaceType'
IDT = 'd7a.d7anp.addressee.IdType'
NLS = 'd7a.d7anp.addressee.NlsMethod'

NPC = 'd7a.d7anp.control.Control'
NPF = 'd7a.d7anp.frame.Frame'
TPC = 'd7a.d7atp.control.Control'
TPF = 'd7a.d7atp.frame.Frame'
BGC = 'd7a.dll.background_frame_control.BackgroundFrameControl'
FGC = 'd7a.dll.foreground_frame_control.ForegroundFrameControl'
BGF = 'd7a.dll.background_frame.BackgroundFrame'
FGF = 'd7a.dll.foreground_frame.ForegroundFrame'

ADDR_SHAPES = [
  dict(id_type='NBID', id=O(CT)), dict(id_type='NOID', id=NONE), dict(id_type='VID', id=I(72)), dict(id_type='UID', id=I(72)),
]

RECIPES = {
  CT: dict(exp=I(), mant=I()),
  LEN: dict(value=I()),
  OFS: dict(id=I(), offset=O(LEN)),
  CH: dict(channel_coding=E('d7a.phy.channel_header.ChannelCoding'), channel_class=E('d7a.phy.channel_header.ChannelClass'),
           channel_band=E('d7a.phy.channel_header.ChannelBand')),
  CID: dict(channel_header=O(CH), channel_index=I()),
  CSI: dict(channel_band=E('d7a.phy.channel_header.ChannelBand'), channel_bandwidth=E('d7a.phy.channel_status_identifier.Bandwidth'),
            channel_index=I()),
  SB_: dict(channel_index_start=I(), channel_index_end=I(), eirp=I(), cca=I(), duty=I()),
  SP_: dict(subband_bitmap=I(), scan_automation_period=O(CT)),
  AP: dict(channel_header=O(CH), sub_profiles=LST(O(SP_), 4), sub_bands=LST(O(SB_), 8)),
  ADDR: dict(access_class=I(), id_type=E(IDT), id=ALT(NONE, I(72), O(CT)), nls_method=E(NLS)),
  QOS: dict(resp_mod=E('d7a.sp.qos.ResponseMode'), retry_mod=E('d7a.sp.qos.RetryMode'), stop_on_err=B(), record=B()),
  CONF: dict(qos=O(QOS), dorm_to=O(CT), addressee=O(ADDR)),
  STAT: dict(channel_id=O(CID), rx_level=I(), link_budget=I(), target_rx_level=I(), nls=B(), missed=B(), retry=B(), unicast=B(),
             fifo_token=I(), seq_nr=I(), response_to=O(CT), addressee=O(ADDR)),
  FPERM: dict(encrypted=B(), executeable=B(), user_readable=B(), user_writeable=B(), user_executeable=B(), guest_readable=B(),
              guest_writeable=B(), guest_executeable=B()),
  FPROP: dict(act_enabled=B(), act_condition=E('d7a.fs.file_properties.ActionCondition'), storage_class=E('d7a.fs.file_properties.StorageClass')),
  FHDR: dict(permissions=O(FPERM), properties=O(FPROP), alp_command_file_id=I(), interface_file_id=I(), file_size=I(), allocated_size=I()),
  ABP: dict(adr_enabled=B(), request_ack=B(), app_port=I(), data_rate=I(), dev_addr=I(), netw_id=I()),
  OTAA: dict(adr_enabled=B(), request_ack=B(), app_port=I(), data_rate=I()),
  IFC: dict(interface_id=E(ITYPE), interface_configuration=ALT(NONE, O(CONF), O(ABP), O(OTAA))),
  AQP: dict(signed_data_type=B(), comp_type=E(OPD + 'query.ArithComparisonType')),
  QRY: dict(type=E(OPD + 'query.QueryType'), mask_present=B(), params=O(AQP), compare_length=O(LEN), compare_value=BL(), file_a_offset=O(OFS)),
  DATA: dict(data=BL(32), offset=O(OFS)),
  DREQ: dict(length=I(), offset=O(OFS)),
  FID: dict(file_id=I()),
  FHO: dict(file_id=I(), file_header=O(FHDR)),
  IFS: dict(interface_id=I(), interface_status=ALT(NONE, O(STAT))),
  IIO: dict(interface_file_id=I(), interface_configuration_overload=ALT(NONE, O(ADDR))),
  TAG: dict(tag_id=I()),

  OPN + 'requests.ReadFileData': dict(operand=O(DREQ)),
  OPN + 'requests.ReadFileHeader': dict(operand=O(FID)),
  OPN + 'write_operations.WriteFileData': dict(operand=O(DATA)),
  OPN + 'write_operations.WriteFileHeader': dict(operand=O(FHO)),
  OPN + 'break_query.BreakQuery': dict(operand=O(QRY)),
  OPN + 'file_management.CreateNewFile': dict(operand=O(FHO)),
  OPN + 'responses.ReturnFileData': dict(operand=O(DATA)),
  OPN + 'responses.ReturnFileHeader': dict(operand=O(FHO)),
  OPN + 'status.InterfaceStatus': dict(operand=O(IFS)),
  OPN + 'tag_request.TagRequest': dict(operand=O(TAG)),
  OPN + 'tag_response.TagResponse': dict(operand=O(TAG)),
  OPN + 'forward.Forward': dict(operand=O(IFC)),
  OPN + 'indirect_forward.IndirectForward': dict(operand=O(IIO)),
  OPN + 'nop.NoOperation': dict(),

  SF + 'uid.UidFile': dict(uid=I(72)),
  SF + 'vid.VidFile': dict(vid=I(), control=I()),
  SF + 'dll_config.DllConfigFile': dict(active_access_class=I(), lq_filter=I(), nf_ctrl=I(), rx_nf_method_parameter=I(), tx_nf_method_parameter=I()),
  SF + 'dll_status.DllStatusFile': dict(last_rx_packet_level=I(), last_rx_packet_link_budget=I(), noise_floor=I(), channel_header=O(CH),
                                        channel_index=I(), scan_timeout_ratio=I(), scan_count=I(), scan_timeout_count=I()),
  SF + 'engineering_mode.EngineeringModeFile': dict(mode=E(SF + 'engineering_mode.EngineeringModeMode'), flags=I(), timeout=I(),
                                                    channel_id=O(CID), eirp=I()),
  SF + 'factory_settings.FactorySettingsFile': dict([(n, I()) for n in (
    'gain', 'rx_bw_low_rate', 'rx_bw_normal_rate', 'rx_bw_high_rate', 'bitrate_lo_rate', 'fdev_lo_rate', 'bitrate_normal_rate',
    'fdev_normal_rate', 'bitrate_hi_rate', 'fdev_hi_rate', 'preamble_size_lo_rate', 'preamble_size_normal_rate', 'preamble_size_hi_rate',
    'preamble_detector_size_lo_rate', 'preamble_detector_size_normal_rate', 'preamble_detector_size_hi_rate', 'preamble_tol_lo_rate',
    'preamble_tol_normal_rate', 'preamble_tol_hi_rate', 'rssi_offset', 'lora_bw', 'lora_SF', 'gaussian', 'paramp')] + [('rssi_smoothing', I(9))]),
  SF + 'firmware_version.FirmwareVersionFile': dict(d7a_protocol_version_major=I(), d7a_protocol_version_minor=I(), filesystem_version_major=I(),
                                                    filesystem_version_minor=I(), application_name=TXT(6), git_sha1=TXT(7)),
  SF + 'phy_status.PhyStatusFile': dict(up_time=I(), rx_time=I(), tx_time=I(), tx_duty_cycle=I(), channel_status_list_length=K(2),
                                        channel_status_identifier=LST(O(CSI), 2), channel_noise_floor=LST(I(), 2)),
  SF + 'security_key.SecurityKeyFile': dict(key=I(136)),
  SF + 'root_authentication_key.RootAuthenticationKeyFile': dict(key=I(136)),
  SF + 'user_authentication_key.UserAuthenticationKeyFile': dict(key=I(136)),
  SF + 'access_profile.AccessProfileFile': dict(access_specifier=I(), access_profile=O(AP)),
  SF + 'interface_configuration.InterfaceConfigurationFile': dict(interface_configuration=O(IFC)),

  NPC: dict(has_no_origin_access_id=B(), has_hopping=B(), nls_method=E(NLS), origin_id_type=E(IDT)),
  TPC: dict((n, B()) for n in ('is_dialog_start', 'has_tl', 'has_te', 'is_ack_requested', 'is_ack_not_void', 'is_ack_record_requested', 'has_agc')),
  BGC: dict(id_type=E(IDT), tag=I()),
  FGC: dict(id_type=E(IDT), eirp_index=I()),
  BGF: dict(subnet=I(), control=O(BGC), payload=I(), crc16=I()),
}


def make(w, spec, label):
  """a value described by spec"""
  it = w.it
  if isinstance(spec, (int, str, bool)) or spec is None or not isinstance(spec, Spec): return spec
  k = spec.kind
  if k == 'const': return spec.a[0]
  if k == 'int': return w.sint(label, spec.a[0])
  if k == 'bool': return w.bool(label)
  if k == 'enum': return w.member(w.cls(spec.a[0]), label)
  if k == 'obj': return arbitrary(w, spec.a[0], label, **spec.a[1])
  if k == 'bytes': return w.bytelist(label, spec.a[0])
  if k == 'text':
    return it.mkstr(((TRUE, tuple(w.uint('%s[%d]' % (label, i), 7) for i in range(spec.a[0]))),))
  if k == 'list': return it.new_list([make(w, spec.a[0], '%s[%d]' % (label, i)) for i in range(spec.a[1])])
  if k == 'alt':
    vals = []
    sel = []
    rest = TRUE
    Bd = it.B
    n = len(spec.a)
    entry = it.live
    out = FALSE
    res = []
    for i, s in enumerate(spec.a):
      if i < n - 1:
        b = Bd.new_var('%s#%d?' % (label, i), 0)
        g, rest = Bd.AND(rest, b), Bd.AND(rest, Bd.NOT(b))
      else: g = rest
      it.live = Bd.AND(entry, g)
      if it.live == 0: continue
      try: v = make(w, s, label)
      except Dead: continue
      res.append((g, v))
      out = Bd.OR(out, it.live)
    it.live = out
    if out == 0: raise Dead()
    return it.merge_all(res)
  raise ValueError(k)


def args_for(w, qual, label='', **fix):
  rec = RECIPES[qual]
  out = {}
  for p in rec:
    s = fix[p] if p in fix else rec[p]
    out[p] = make(w, s, (label + '.' if label else '') + p)
  return out


def arbitrary(w, qual, label='', **fix):
  """an arbitrary object of the class, restricted to the arguments its constructor accepts.
  The analysis state is narrowed to the accepting part; refused arguments are dropped (they are reported by C16)."""
  it = w.it
  cls = w.cls(qual)
  if qual == ADDR and 'id_type' not in fix and 'id' not in fix:
    return addressee(w, label, **fix)
  kw = args_for(w, qual, label, **fix)
  return accepted(w, lambda: it.call(cls, [], kw))


def accepted(w, thunk):
  it = w.it
  live, v, thrown = it.run(thunk)
  w.refused.extend(thrown)
  it.live = live
  if live == 0: raise Dead()
  return narrow_value(it, v, {})


def addressee(w, label, **fix):
  """one of the four identifier shapes"""
  it = w.it
  idt = w.cls(IDT)
  cls = w.cls(ADDR)
  names = {m.attrs['_name_']: m for m in idt.members}
  alts = []
  rest = TRUE
  Bd = it.B
  ac = make(w, fix.get('access_class', I()), label + '.access_class')
  nls = make(w, fix.get('nls_method', E(NLS)), label + '.nls_method')
  shapes = [s for s in ADDR_SHAPES if s['id_type'] in names]
  entry = it.live
  wide = w.sint(label + '.id', 72)
  ct = None
  for i, s in enumerate(shapes):
    if i < len(shapes) - 1:
      b = Bd.new_var('%s:%s?' % (label, s['id_type']), 0)
      g, rest = Bd.AND(rest, b), Bd.AND(rest, Bd.NOT(b))
    else: g = rest
    alts.append((g, s))
  idv, types, out = [], [], FALSE
  for g, s in alts:
    it.live = Bd.AND(entry, g)
    if s['id'].kind == 'int': v = wide
    elif s['id'].kind == 'obj':
      try: v = arbitrary(w, CT, label + '.id')
      except Dead: continue
    else: v = None
    idv.append((g, v)); types.append((g, names[s['id_type']]))
    out = Bd.OR(out, it.live)
  it.live = out
  kw = dict(access_class=ac, id_type=it.merge_all(types), id=it.merge_all(idv), nls_method=nls)
  return accepted(w, lambda: it.call(cls, [], kw))
