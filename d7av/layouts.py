"""Wire layouts: what each bit of a received structure means (the oracle of C17).
u/s: unsigned/signed number, b: flag, r: reserved, e: enumeration code, o: structure, le: little-endian number, t: ASCII text."""
from .recipes import *

CODING = ('d7a.phy.channel_header.ChannelCoding', dict(PN9=0, FEC_PN9=2, CW=3, RFU=1))
CLASS = ('d7a.phy.channel_header.ChannelClass', dict(LO_RATE=0, LORA=1, NORMAL_RATE=2, HI_RATE=3))
BAND = ('d7a.phy.channel_header.ChannelBand', dict(NOT_IMPL=0, BAND_433=2, BAND_868=3, BAND_915=4))
WIDTH = ('d7a.phy.channel_status_identifier.Bandwidth', dict(kHz25=1, kHz200=0))
RESP = ('d7a.sp.qos.ResponseMode', dict(RESP_MODE_NO=0, RESP_MODE_ALL=1, RESP_MODE_ANY=2, RESP_MODE_NO_RPT=4, RESP_MODE_ON_ERROR=5, RESP_MODE_PREFERRED=6))
RETRY = ('d7a.sp.qos.RetryMode', dict(RETRY_MODE_NO=0))
COMP = (OPD + 'query.ArithComparisonType', dict(INEQUALITY=0, EQUALITY=1, LESS_THAN=2, LESS_THAN_OR_EQUAL_TO=3, GREATER_THAN=4, GREATER_THAN_OR_EQUAL_TO=5))
MODE = (SF + 'engineering_mode.EngineeringModeMode', dict(ENGINEERING_MODE_MODE_OFF=0, ENGINEERING_MODE_MODE_CONT_TX=1, ENGINEERING_MODE_MODE_TRANSIENT_TX=2,
                                                          ENGINEERING_MODE_MODE_PER_RX=3, ENGINEERING_MODE_MODE_PER_TX=4))
ACTC = ('d7a.fs.file_properties.ActionCondition', dict(LIST=0, READ=1, WRITE=2, WRITE_FLUSH=3))
STOR = ('d7a.fs.file_properties.StorageClass', dict(TRANSIENT=0, VOLATILE=1, RESTORABLE=2, PERMANENT=3))
IDTYPE = (IDT, dict(NBID=0, NOID=1, UID=2, VID=3))
NLSM = (NLS, dict(NONE=0, AES_CTR=1, AES_CBC_MAC_128=2, AES_CBC_MAC_64=3, AES_CBC_MAC_32=4, AES_CCM_128=5, AES_CCM_64=6, AES_CCM_32=7))


def u(name, n, lo=None, hi=None): return ('u', name, n, lo, hi)
def s(name, n, lo=None, hi=None): return ('s', name, n, lo, hi)
def b(name): return ('b', name, 1)
def r(n): return ('r', None, n)
def e(name, enum, n): return ('e', name, n, enum)
def o(name, lay): return ('o', name, lay)
def le(name, n): return ('le', name, n)
def t(name, n): return ('t', name, 8 * n)
def fixed(name, enum, n, code): return ('fx', name, n, enum, code)     # enumeration field with this code
def none(name): return ('none', name, 0)
def many(name, lay, k): return ('many', name, lay, k)
def size(n, code): return ('k', None, n, code)                        # constant bits
def pad(n): return ('pad', None, n)                                   # trailing bytes a parser may leave unread
def inline(name, lay, k): return ('many', name, lay, k)


L_CT = [u('exp', 3), u('mant', 5)]
L_CH = [r(1), e('channel_band', BAND, 3), e('channel_class', CLASS, 2), e('channel_coding', CODING, 2)]
L_CID = [o('channel_header', L_CH), u('channel_index', 16)]
L_CSI = [e('channel_band', BAND, 3), e('channel_bandwidth', WIDTH, 1), r(1), u('channel_index', 11, 0, 1039)]
L_SB = [u('channel_index_start', 16), u('channel_index_end', 16), s('eirp', 8), u('cca', 8), u('duty', 8)]
L_SP = [u('subband_bitmap', 8), o('scan_automation_period', L_CT)]
L_AP = [o('channel_header', L_CH), many('sub_profiles', L_SP, 4), many('sub_bands', L_SB, 8)]
def L_LEN(k): return [size(2, k), u('value', 6 + 8 * k)]
def L_OFS(k): return [u('id', 8), o('offset', L_LEN(k))]
L_QOS = [b('stop_on_err'), b('record'), e('retry_mod', RETRY, 3), e('resp_mod', RESP, 3)]


def L_ADDR(shape):
  head = lambda code: [r(2), fixed('id_type', IDTYPE, 2, code), e('nls_method', NLSM, 4), u('access_class', 8)]
  return {'NBID': head(0) + [o('id', L_CT)], 'NOID': head(1) + [none('id')], 'UID': head(2) + [u('id', 64)], 'VID': head(3) + [u('id', 16)]}[shape]


def L_CONF(shape): return [o('qos', L_QOS), o('dorm_to', L_CT), o('addressee', L_ADDR(shape))]
def L_STAT(shape): return [o('channel_id', L_CID), u('rx_level', 8), u('link_budget', 8), u('target_rx_level', 8), b('nls'), b('missed'), b('retry'), b('unicast'), r(4),
                           u('fifo_token', 8), u('seq_nr', 8), o('response_to', L_CT), o('addressee', L_ADDR(shape))]


L_PERM = [b('encrypted'), b('executable'), b('user_readable'), b('user_writeable'), b('user_executeable'), b('guest_readable'), b('guest_writeable'), b('guest_executeable')]
L_PROP = [b('act_enabled'), e('act_condition', ACTC, 3), r(2), e('storage_class', STOR, 2)]
L_HDR = [o('permissions', L_PERM), o('properties', L_PROP), u('alp_command_file_id', 8), u('interface_file_id', 8), u('file_size', 32), u('allocated_size', 32)]
L_FHO = [u('file_id', 8), o('file_header', L_HDR)]
L_ABP = [r(5), b('adr_enabled'), b('request_ack'), r(1), u('app_port', 8), u('data_rate', 8), u('dev_addr', 32), u('netw_id', 32)]
L_OTAA = [r(5), b('adr_enabled'), b('request_ack'), r(1), u('app_port', 8), u('data_rate', 8)]
L_AQP = [b('signed_data_type'), e('comp_type', COMP, 3)]

L_UID = [u('uid', 64)]
L_VID = [u('vid', 16), u('control', 8)]
L_DLLC = [u('active_access_class', 8), r(16), u('lq_filter', 8), u('nf_ctrl', 8), u('rx_nf_method_parameter', 8), u('tx_nf_method_parameter', 8)]
L_DLLS = [u('last_rx_packet_level', 8), u('last_rx_packet_link_budget', 8), u('noise_floor', 8), o('channel_header', L_CH), u('channel_index', 16),
          u('scan_timeout_ratio', 16), u('scan_count', 32), u('scan_timeout_count', 32)]
L_ENG = [e('mode', MODE, 8), u('flags', 8), u('timeout', 8), o('channel_id', L_CID), s('eirp', 8), pad(16)]
L_FAC = [s('gain', 8)] + [u(n, 32) for n in ('rx_bw_low_rate', 'rx_bw_normal_rate', 'rx_bw_high_rate', 'bitrate_lo_rate', 'fdev_lo_rate', 'bitrate_normal_rate',
                                             'fdev_normal_rate', 'bitrate_hi_rate', 'fdev_hi_rate')] + \
  [u(n, 8) for n in ('preamble_size_lo_rate', 'preamble_size_normal_rate', 'preamble_size_hi_rate', 'preamble_detector_size_lo_rate', 'preamble_detector_size_normal_rate',
                     'preamble_detector_size_hi_rate', 'preamble_tol_lo_rate', 'preamble_tol_normal_rate', 'preamble_tol_hi_rate', 'rssi_smoothing')] + \
  [s('rssi_offset', 8, -126, 125), u('lora_bw', 32), u('lora_SF', 8, 6, 12), u('gaussian', 8, 0, 3), u('paramp', 16)]
L_FW = [u('d7a_protocol_version_major', 8), u('d7a_protocol_version_minor', 8), u('filesystem_version_major', 8), u('filesystem_version_minor', 8),
        t('application_name', 6), t('git_sha1', 7)]
L_KEY = [le('key', 128)]
L_KEY40 = [le('key', 128), r(192)]
L_NPC = [b('has_no_origin_access_id'), b('has_hopping'), e('origin_id_type', IDTYPE, 2), e('nls_method', NLSM, 4)]
L_TPC = [b('is_dialog_start'), r(1), b('has_tl'), b('has_te'), b('is_ack_requested'), b('is_ack_not_void'), b('is_ack_record_requested'), b('has_agc')]
L_BGC = [e('id_type', IDTYPE, 2), u('tag', 6)]
L_FGC = [e('id_type', IDTYPE, 2), u('eirp_index', 6)]
L_BGF = [u('subnet', 8), o('control', L_BGC), u('payload', 16), u('crc16', 16)]


def L_PHYS(n): return [u('up_time', 32), u('rx_time', 32), u('tx_time', 32), u('tx_duty_cycle', 16, 0, 1000), ('uk', 'channel_status_list_length', 8, n)] + \
  [('pairs', ('channel_status_identifier', 'channel_noise_floor'), L_CSI, n)]


SHAPES = ('NBID', 'NOID', 'UID', 'VID')
LAYOUTS = [(CT, '', L_CT), (CH, '', L_CH), (CID, '', L_CID), (CSI, '', L_CSI), (SB_, '', L_SB), (SP_, '', L_SP), (AP, '', L_AP), (QOS, '', L_QOS)] + \
  [(LEN, ' of %d bytes' % (k + 1), L_LEN(k)) for k in range(4)] + [(OFS, ' of %d bytes' % (k + 2), L_OFS(k)) for k in range(4)] + \
  [(ADDR, ' with %s' % x, L_ADDR(x)) for x in SHAPES] + [(CONF, ' to %s' % x, L_CONF(x)) for x in SHAPES] + [(STAT, ' from %s' % x, L_STAT(x)) for x in SHAPES] + \
  [(FPERM, '', L_PERM), (FPROP, '', L_PROP), (FHDR, '', L_HDR), (FHO, '', L_FHO), (ABP, '', L_ABP), (OTAA, '', L_OTAA),
   (SF + 'uid.UidFile', '', L_UID), (SF + 'vid.VidFile', '', L_VID), (SF + 'dll_config.DllConfigFile', '', L_DLLC), (SF + 'dll_status.DllStatusFile', '', L_DLLS),
   (SF + 'engineering_mode.EngineeringModeFile', '', L_ENG), (SF + 'factory_settings.FactorySettingsFile', '', L_FAC),
   (SF + 'firmware_version.FirmwareVersionFile', '', L_FW), (SF + 'security_key.SecurityKeyFile', '', L_KEY),
   (SF + 'root_authentication_key.RootAuthenticationKeyFile', '', L_KEY40), (SF + 'user_authentication_key.UserAuthenticationKeyFile', '', L_KEY40),
   (SF + 'access_profile.AccessProfileFile', '', [o('access_profile', L_AP)]),
   (NPC, '', L_NPC), (TPC, '', L_TPC), (BGC, '', L_BGC), (FGC, '', L_FGC), (BGF, '', L_BGF)] + \
  [(SF + 'phy_status.PhyStatusFile', ' with %d channels' % n, L_PHYS(n)) for n in (0, 1, 2, 3)]
NOT_MINIMAL = (LEN, OFS)      # longer encodings than needed are accepted


def bits_of(lay):
  n = 0
  for f in lay:
    k = f[0]
    if k == 'o': n += bits_of(f[2])
    elif k == 'many': n += f[3] * bits_of(f[2])
    elif k == 'pairs': n += f[3] * (bits_of(f[2]) + 8)
    else: n += f[2]
  return n
