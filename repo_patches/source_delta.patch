From 1ad64d65b781eae3d20a77809fb8e1c6a342f1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:22 +0000
Subject: [PATCH 01/48] fix: ForwardAction serialised a non-existent group flag

ForwardAction has no group attribute, so iterating any forward action raised
AttributeError. Bit 7 of the action byte is RFU for the forward action.
---
 d7a/alp/forward_action.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/d7a/alp/forward_action.py b/d7a/alp/forward_action.py
index b1e4814..74c9304 100644
--- a/d7a/alp/forward_action.py
+++ b/d7a/alp/forward_action.py
@@ -42,7 +42,6 @@ class ForwardAction(Action):
 
   def __iter__(self):
     byte = 0
-    if self.group: byte |= 1 << 7
     if self.resp:  byte |= 1 << 6
     byte += self.op
     yield byte
-- 
2.43.0


From 64fac8956ee234b26c579b35e352141ee6c3c058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:56 +0000
Subject: [PATCH 02/48] fix: empty file data operand was dropped from the wire

Data defines __len__, so a Data operand without bytes is falsy and the whole
operand, including its offset and length, was left out of the serialised
action.
---
 d7a/alp/operations/operation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d7a/alp/operations/operation.py b/d7a/alp/operations/operation.py
index ec450f2..5132765 100644
--- a/d7a/alp/operations/operation.py
+++ b/d7a/alp/operations/operation.py
@@ -46,7 +46,7 @@ class Operation(Validatable):
     self.operand = operand
 
   def __iter__(self):
-    if self.operand:
+    if self.operand is not None:
       for byte in self.operand: yield byte
 
   def __str__(self):
-- 
2.43.0


From d88595154ee4be1bf6f640ceaae937c8e66d7169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:04 +0000
Subject: [PATCH 03/48] fix: serialise the D7ANP control byte

The hopping flag was read from a non-existent attribute and the origin id
type and NLS method enum members were not converted to their values.
---
 d7a/d7anp/control.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/d7a/d7anp/control.py b/d7a/d7anp/control.py
index e863db7..f998da6 100644
--- a/d7a/d7anp/control.py
+++ b/d7a/d7anp/control.py
@@ -52,7 +52,7 @@ class Control(Validatable):
   def __iter__(self):
     byte = 0
     if self.has_no_origin_access_id: byte |= 1 << 7
-    if self.has_multi_hop:  byte |= 1 << 6
-    if self.origin_id_type:  byte |= 1 << 4
-    byte += self.nls_method
+    if self.has_hopping:  byte |= 1 << 6
+    byte |= self.origin_id_type.value << 4
+    byte += self.nls_method.value
     yield byte
\ No newline at end of file
-- 
2.43.0


From 17c0d87a83d2c106c48d29d5026dae48e568c734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:13 +0000
Subject: [PATCH 04/48] fix: serialise the D7ATP timing fields

tl and te were yielded as CT objects instead of bytes and tc, which parse
reads when an ack is requested at the start of a dialog, was left out.
---
 d7a/d7atp/frame.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/d7a/d7atp/frame.py b/d7a/d7atp/frame.py
index 4b1c367..ca7f2f6 100644
--- a/d7a/d7atp/frame.py
+++ b/d7a/d7atp/frame.py
@@ -129,10 +129,13 @@ class Frame(Validatable):
       yield self.agc_rx_level_i
 
     if self.control.has_tl:
-      yield self.tl
+      for byte in self.tl: yield byte
 
     if self.control.has_te:
-      yield self.te
+      for byte in self.te: yield byte
+
+    if self.control.is_ack_requested and self.control.is_dialog_start:
+      for byte in self.tc: yield byte
 
     if self.control.is_ack_not_void:
       for byte in self.ack_template: yield byte
-- 
2.43.0


From 2fcdea2383f9a7514633fe7ed2afdbb95a8a24a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:21 +0000
Subject: [PATCH 05/48] fix: parse and serialise all background frames

The subnet was parsed as a signed byte, which the schema rejects from 0x80
on, the 16 bit payload was iterated and the CRC was yielded as one value.
---
 d7a/dll/background_frame.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/d7a/dll/background_frame.py b/d7a/dll/background_frame.py
index d36726f..27f32e8 100644
--- a/d7a/dll/background_frame.py
+++ b/d7a/dll/background_frame.py
@@ -22,6 +22,7 @@
 # under the License.
 #
 import pprint
+import struct
 
 from d7a.d7anp.addressee import IdType
 from d7a.support.schema           import Validatable, Types
@@ -59,7 +60,7 @@ class BackgroundFrame(Validatable):
 
   @staticmethod
   def parse(s):
-    subnet = s.read("int:8")
+    subnet = s.read("uint:8")
     control = BackgroundFrameControl.parse(s)
     payload = s.read("uint:16")
     crc = s.read("uint:16")
@@ -75,8 +76,8 @@ class BackgroundFrame(Validatable):
   def __iter__(self):
     yield self.subnet
     for byte in self.control: yield byte
-    for byte in self.payload: yield byte
-    yield self.crc16
+    for byte in bytearray(struct.pack(">H", self.payload)): yield byte
+    for byte in bytearray(struct.pack(">H", self.crc16)): yield byte
 
   def __str__(self):
     return pprint.PrettyPrinter().pformat(self.as_dict())
-- 
2.43.0


From 5eb8fae39adf17156c6e0dd2eed50e0423acfed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:31 +0000
Subject: [PATCH 06/48] fix: parse and serialise all foreground frames

Length and subnet were parsed as signed bytes, which the schema rejects from
0x80 on, and the CRC was yielded as one value instead of two bytes.
---
 d7a/dll/foreground_frame.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/d7a/dll/foreground_frame.py b/d7a/dll/foreground_frame.py
index 2efe957..2f033df 100644
--- a/d7a/dll/foreground_frame.py
+++ b/d7a/dll/foreground_frame.py
@@ -22,6 +22,7 @@
 # under the License.
 #
 import pprint
+import struct
 
 from d7a.d7anp.addressee import IdType
 from d7a.support.schema           import Validatable, Types
@@ -63,8 +64,8 @@ class ForegroundFrame(Validatable):
 
   @staticmethod
   def parse(s):
-    length = s.read("int:8")
-    subnet = s.read("int:8")
+    length = s.read("uint:8")
+    subnet = s.read("uint:8")
     control = ForegroundFrameControl.parse(s)
     payload_length = length - 4 # substract subnet, control, crc
     if control.id_type == IdType.VID:
@@ -92,7 +93,7 @@ class ForegroundFrame(Validatable):
     for byte in self.control: yield byte
     for byte in self.target_address: yield byte
     for byte in self.d7anp_frame: yield byte
-    yield self.crc16
+    for byte in bytearray(struct.pack(">H", self.crc16)): yield byte
 
   def __str__(self):
     return pprint.PrettyPrinter().pformat(self.as_dict())
-- 
2.43.0


From 2facaf7383500df3916f4f18d157095fa2fdbe15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:39 +0000
Subject: [PATCH 07/48] fix: parse NBID addressees

CT.compress returns the compressed value, not a CT, so the result was always
rejected by the schema. The id byte is a CT in compressed form.
---
 d7a/d7anp/addressee.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/d7a/d7anp/addressee.py b/d7a/d7anp/addressee.py
index 9a287ba..dfc3cc4 100644
--- a/d7a/d7anp/addressee.py
+++ b/d7a/d7anp/addressee.py
@@ -123,9 +123,10 @@ class Addressee(Validatable):
     nls_method = NlsMethod(s.read("uint:4"))
     cl    = s.read("uint:8")
     l     = Addressee.length_for(id_type)
-    id    = s.read("uint:"+str(l*8)) if l > 0 else None
     if id_type == IdType.NBID:
-      id = CT().compress(value=id)
+      id = CT.parse(s)
+    else:
+      id = s.read("uint:"+str(l*8)) if l > 0 else None
 
     return Addressee(id_type=id_type, access_class=cl, id=id, nls_method=nls_method)
 
-- 
2.43.0


From 44bcae6823a071e44f4fed5a987a20a31ad0d7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:04 +0000
Subject: [PATCH 08/48] fix: parse the rx level of a status as the unsigned
 byte it is

Parsed as a signed byte, every level above 127 was rejected by the schema and
the complete response was dropped.
---
 d7a/sp/status.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d7a/sp/status.py b/d7a/sp/status.py
index a4edd06..1733bb5 100644
--- a/d7a/sp/status.py
+++ b/d7a/sp/status.py
@@ -88,7 +88,7 @@ class Status(Validatable):
   @staticmethod
   def parse(s):
     channel_id  = ChannelID.parse(s)
-    rx_level        = s.read("int:8")
+    rx_level        = s.read("uint:8")
     link_budget     = s.read("uint:8")
     target_rx_level = s.read("uint:8")
     nls             = s.read("bool")
-- 
2.43.0


From 2e68fa23e4ef165bec460f41ec9b06500e613edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:12 +0000
Subject: [PATCH 09/48] fix: parse the key of the security and authentication
 key files

The key was read as a string, which the schema always rejects. The files hold
the key as a 128 bit little endian number.
---
 d7a/system_files/root_authentication_key.py | 2 +-
 d7a/system_files/security_key.py            | 2 +-
 d7a/system_files/user_authentication_key.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/d7a/system_files/root_authentication_key.py b/d7a/system_files/root_authentication_key.py
index 9e6bc13..4a52ab9 100644
--- a/d7a/system_files/root_authentication_key.py
+++ b/d7a/system_files/root_authentication_key.py
@@ -43,7 +43,7 @@ class RootAuthenticationKeyFile(File, Validatable):
 
   @staticmethod
   def parse(s):
-    key = s.read("bytes:16") 
+    key = s.read("uintle:128") 
     _rfu = s.read("bytes:24")
     return RootAuthenticationKeyFile(key)
 
diff --git a/d7a/system_files/security_key.py b/d7a/system_files/security_key.py
index c9085e2..52cfa5e 100644
--- a/d7a/system_files/security_key.py
+++ b/d7a/system_files/security_key.py
@@ -41,7 +41,7 @@ class SecurityKeyFile(File, Validatable):
 
   @staticmethod
   def parse(s):
-    key = s.read("bytes:16")
+    key = s.read("uintle:128")
     return SecurityKeyFile(key=key)
 
   def __iter__(self):
diff --git a/d7a/system_files/user_authentication_key.py b/d7a/system_files/user_authentication_key.py
index fd95a60..42a718e 100644
--- a/d7a/system_files/user_authentication_key.py
+++ b/d7a/system_files/user_authentication_key.py
@@ -43,7 +43,7 @@ class UserAuthenticationKeyFile(File, Validatable):
 
   @staticmethod
   def parse(s):
-    key = s.read("bytes:16")
+    key = s.read("uintle:128")
     _rfu = s.read("bytes:24")
     return UserAuthenticationKeyFile(key)
 
-- 
2.43.0


From 20281d989da0c0265706503c802ffda9bbc028bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:21 +0000
Subject: [PATCH 10/48] fix: negative gain and rssi offset of the factory
 settings

Negative values were yielded as is, which is not a byte, and the rssi offset
was parsed as an unsigned byte.
---
 d7a/system_files/factory_settings.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/d7a/system_files/factory_settings.py b/d7a/system_files/factory_settings.py
index 4bc2156..87d46a6 100644
--- a/d7a/system_files/factory_settings.py
+++ b/d7a/system_files/factory_settings.py
@@ -119,7 +119,7 @@ class FactorySettingsFile(File, Validatable):
     preamble_tol_hi_rate = s.read("uint:8")
 
     rssi_smoothing = s.read("uint:8")
-    rssi_offset = s.read("uint:8")
+    rssi_offset = s.read("int:8")
 
     lora_bw = s.read("uint:32")
     lora_SF = s.read("uint:8")
@@ -141,7 +141,8 @@ class FactorySettingsFile(File, Validatable):
                                gaussian=gaussian, paramp=paramp)
 
   def __iter__(self):
-    yield self.gain
+    for byte in bytearray(struct.pack(">b", self.gain)):
+      yield byte
     for byte in bytearray(struct.pack(">I", self.rx_bw_low_rate)):
       yield byte
     for byte in bytearray(struct.pack(">I", self.rx_bw_normal_rate)):
@@ -170,7 +171,8 @@ class FactorySettingsFile(File, Validatable):
     yield self.preamble_tol_normal_rate
     yield self.preamble_tol_hi_rate
     yield self.rssi_smoothing
-    yield self.rssi_offset
+    for byte in bytearray(struct.pack(">b", self.rssi_offset)):
+      yield byte
     for byte in bytearray(struct.pack(">I", self.lora_bw)):
       yield byte
     yield self.lora_SF
-- 
2.43.0


From f528665be4de2548675d605e93610f65aab73628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:31 +0000
Subject: [PATCH 11/48] fix: keep the rssi smoothing of parsed factory settings

The register value was passed as the number of samples and converted once
more.
---
 d7a/system_files/factory_settings.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/d7a/system_files/factory_settings.py b/d7a/system_files/factory_settings.py
index 87d46a6..6b54d0b 100644
--- a/d7a/system_files/factory_settings.py
+++ b/d7a/system_files/factory_settings.py
@@ -127,7 +127,8 @@ class FactorySettingsFile(File, Validatable):
     gaussian = s.read("uint:8")
     paramp = s.read("uint:16")
 
-    return FactorySettingsFile(gain=gain, rx_bw_low_rate=rx_bw_low_rate, rx_bw_normal_rate=rx_bw_normal_rate, rx_bw_high_rate=rx_bw_high_rate,
+    # the constructor takes the number of samples, the file contains the register value
+    settings = FactorySettingsFile(gain=gain, rx_bw_low_rate=rx_bw_low_rate, rx_bw_normal_rate=rx_bw_normal_rate, rx_bw_high_rate=rx_bw_high_rate,
                                bitrate_lo_rate=bitrate_lo_rate, fdev_lo_rate=fdev_lo_rate,
                                bitrate_normal_rate=bitrate_normal_rate, fdev_normal_rate=fdev_normal_rate,
                                bitrate_hi_rate=bitrate_hi_rate, fdev_hi_rate=fdev_hi_rate,
@@ -136,9 +137,11 @@ class FactorySettingsFile(File, Validatable):
                                preamble_detector_size_normal_rate=preamble_detector_size_normal_rate, preamble_detector_size_hi_rate = preamble_detector_size_hi_rate,
                                preamble_tol_lo_rate = preamble_tol_lo_rate, preamble_tol_normal_rate = preamble_tol_normal_rate,
                                preamble_tol_hi_rate = preamble_tol_hi_rate,
-                               rssi_smoothing=rssi_smoothing, rssi_offset=rssi_offset,
+                               rssi_offset=rssi_offset,
                                lora_bw=lora_bw, lora_SF=lora_SF,
                                gaussian=gaussian, paramp=paramp)
+    settings.rssi_smoothing = rssi_smoothing
+    return settings
 
   def __iter__(self):
     for byte in bytearray(struct.pack(">b", self.gain)):
-- 
2.43.0


From 494447b401d74120b39b2d4961d969073f617ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:41 +0000
Subject: [PATCH 12/48] fix: name schema fields after the attributes they
 constrain

A schema field without an attribute of that name is never checked, so values
which do not fit were accepted.
---
 d7a/fs/file_permissions.py           | 8 ++++----
 d7a/fs/file_properties.py            | 2 +-
 d7a/sp/status.py                     | 2 +-
 d7a/system_files/dll_config.py       | 8 ++++----
 d7a/system_files/factory_settings.py | 4 +++-
 5 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/d7a/fs/file_permissions.py b/d7a/fs/file_permissions.py
index 357f8cd..d27b76b 100644
--- a/d7a/fs/file_permissions.py
+++ b/d7a/fs/file_permissions.py
@@ -29,11 +29,11 @@ class FilePermissions(Validatable):
     "encrypted": Types.BOOLEAN(),
     "executable": Types.BOOLEAN(),
     "user_readable": Types.BOOLEAN(),
-    "user_writable": Types.BOOLEAN(),
-    "user_executable": Types.BOOLEAN(),
+    "user_writeable": Types.BOOLEAN(),
+    "user_executeable": Types.BOOLEAN(),
     "guest_readable": Types.BOOLEAN(),
-    "guest_writable": Types.BOOLEAN(),
-    "guest_executable": Types.BOOLEAN()
+    "guest_writeable": Types.BOOLEAN(),
+    "guest_executeable": Types.BOOLEAN()
   }]
 
   def __init__(self, encrypted=False, executeable=False, user_readable=True, user_writeable=True, user_executeable=True,
diff --git a/d7a/fs/file_properties.py b/d7a/fs/file_properties.py
index ab2b3d7..4e621eb 100644
--- a/d7a/fs/file_properties.py
+++ b/d7a/fs/file_properties.py
@@ -43,7 +43,7 @@ class StorageClass(Enum):
 class FileProperties(Validatable):
   SCHEMA = [{
     "act_enabled": Types.BOOLEAN(),
-    "act_cond": Types.ENUM(ActionCondition),
+    "act_condition": Types.ENUM(ActionCondition),
     "storage_class": Types.ENUM(StorageClass),
   }]
 
diff --git a/d7a/sp/status.py b/d7a/sp/status.py
index 1733bb5..b0870b2 100644
--- a/d7a/sp/status.py
+++ b/d7a/sp/status.py
@@ -61,7 +61,7 @@ class Status(Validatable):
     "nls"        : Types.BOOLEAN(),
     "missed"     : Types.BOOLEAN(),
     "retry"      : Types.BOOLEAN(),
-    "ucast"      : Types.BOOLEAN(),
+    "unicast"    : Types.BOOLEAN(),
     "fifo_token" : Types.BYTE(),
     "seq_nr"     : Types.BYTE(),
     "response_to": Types.OBJECT(CT),
diff --git a/d7a/system_files/dll_config.py b/d7a/system_files/dll_config.py
index 2c1dc99..013ab7e 100644
--- a/d7a/system_files/dll_config.py
+++ b/d7a/system_files/dll_config.py
@@ -31,10 +31,10 @@ from d7a.system_files.system_file_ids import SystemFileIds
 class DllConfigFile(File, Validatable):
   SCHEMA = [{
     "active_access_class": Types.INTEGER(min=0, max=0xFF),
-    "LQ_filter": Types.INTEGER(min=0, max=0xFF),
-    "NF_CTRL": Types.INTEGER(min=0, max=0xFF),
-    "RX_NF_method_parameter": Types.INTEGER(min=0, max=0xFF),
-    "TX_NF_method_parameter": Types.INTEGER(min=0, max=0xFF)
+    "lq_filter": Types.INTEGER(min=0, max=0xFF),
+    "nf_ctrl": Types.INTEGER(min=0, max=0xFF),
+    "rx_nf_method_parameter": Types.INTEGER(min=0, max=0xFF),
+    "tx_nf_method_parameter": Types.INTEGER(min=0, max=0xFF)
   }]
 
   def __init__(self, active_access_class=0, lq_filter=0x00, nf_ctrl=0x00, rx_nf_method_parameter=0x00
diff --git a/d7a/system_files/factory_settings.py b/d7a/system_files/factory_settings.py
index 6b54d0b..87f5094 100644
--- a/d7a/system_files/factory_settings.py
+++ b/d7a/system_files/factory_settings.py
@@ -48,7 +48,9 @@ class FactorySettingsFile(File, Validatable):
     "preamble_detector_size_lo_rate": Types.INTEGER(min=0, max=255),
     "preamble_detector_size_normal_rate": Types.INTEGER(min=0, max=255),
     "preamble_detector_size_hi_rate": Types.INTEGER(min=0, max=255),
-    "preamble_tol": Types.INTEGER(min=0, max=255),
+    "preamble_tol_lo_rate": Types.INTEGER(min=0, max=255),
+    "preamble_tol_normal_rate": Types.INTEGER(min=0, max=255),
+    "preamble_tol_hi_rate": Types.INTEGER(min=0, max=255),
     "rssi_smoothing": Types.INTEGER(min=0, max=255),
     "rssi_offset": Types.INTEGER(min=-126, max=125),
     "lora_bw": Types.INTEGER(min=0, max=0xFFFFFFFF),
-- 
2.43.0


From e01e90d3b60c3b7761c5db2c3a9504971d4c1aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:51 +0000
Subject: [PATCH 13/48] fix: check the noise floors of the PHY status file

The elements were not constrained to the byte they are serialised to.
---
 d7a/system_files/phy_status.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d7a/system_files/phy_status.py b/d7a/system_files/phy_status.py
index 7f233c5..39c6069 100644
--- a/d7a/system_files/phy_status.py
+++ b/d7a/system_files/phy_status.py
@@ -36,7 +36,7 @@ class PhyStatusFile(File, Validatable):
     "tx_duty_cycle": Types.INTEGER(min=0, max=1000),
     "channel_status_list_length": Types.INTEGER(min=0, max=0xFF),
     "channel_status_identifier": Types.LIST(ChannelStatusIdentifier, minlength=0, maxlength=0xFF),
-    "channel_noise_floor": Types.LIST(minlength=0, maxlength=0xFF)
+    "channel_noise_floor": { "type": "list", "schema": Types.BYTE(), "maxlength": 0xFF }
   }]
 
   def __init__(self, up_time=0, rx_time=0, tx_time=0, tx_duty_cycle=0, channel_status_list_length=0, channel_status_identifier=[], channel_noise_floor=[]):
-- 
2.43.0


From f2d1c23bbfc2da3282e3a3a37e7ed25d6b68bf8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:00 +0000
Subject: [PATCH 14/48] fix: PHY status files shared their channel lists

The mutable defaults, and the lists of the caller, were extended in place, so
the channels of one file showed up in the next.
---
 d7a/system_files/phy_status.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/d7a/system_files/phy_status.py b/d7a/system_files/phy_status.py
index 39c6069..286848e 100644
--- a/d7a/system_files/phy_status.py
+++ b/d7a/system_files/phy_status.py
@@ -39,20 +39,20 @@ class PhyStatusFile(File, Validatable):
     "channel_noise_floor": { "type": "list", "schema": Types.BYTE(), "maxlength": 0xFF }
   }]
 
-  def __init__(self, up_time=0, rx_time=0, tx_time=0, tx_duty_cycle=0, channel_status_list_length=0, channel_status_identifier=[], channel_noise_floor=[]):
+  def __init__(self, up_time=0, rx_time=0, tx_time=0, tx_duty_cycle=0, channel_status_list_length=0, channel_status_identifier=None, channel_noise_floor=None):
     self.up_time = up_time
     self.rx_time = rx_time
     self.tx_time = tx_time
     self.tx_duty_cycle = tx_duty_cycle
     self.channel_status_list_length = channel_status_list_length
 
-    self.channel_status_identifier = channel_status_identifier
-    if len(channel_status_identifier) != channel_status_list_length:
-      self.channel_status_identifier.extend([ChannelStatusIdentifier()] * (channel_status_list_length - len(channel_status_identifier)))
+    self.channel_status_identifier = list(channel_status_identifier or [])
+    if len(self.channel_status_identifier) != channel_status_list_length:
+      self.channel_status_identifier.extend([ChannelStatusIdentifier()] * (channel_status_list_length - len(self.channel_status_identifier)))
 
-    self.channel_noise_floor = channel_noise_floor
-    if len(channel_noise_floor) != channel_status_list_length:
-      self.channel_noise_floor.extend([0] * (channel_status_list_length - len(channel_noise_floor)))
+    self.channel_noise_floor = list(channel_noise_floor or [])
+    if len(self.channel_noise_floor) != channel_status_list_length:
+      self.channel_noise_floor.extend([0] * (channel_status_list_length - len(self.channel_noise_floor)))
 
     File.__init__(self, SystemFileIds.PHY_STATUS.value, 15 + (3 * 10))  # allocate enough space for 20 channels
     Validatable.__init__(self)
-- 
2.43.0


From b27a266bfd06e5f6bfe40dcd36d8f1710023678c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:31 +0000
Subject: [PATCH 15/48] fix: refuse PHY status channels which are not
 serialised

Channels beyond the channel status list length were accepted and then left
out of the file.
---
 d7a/system_files/phy_status.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/d7a/system_files/phy_status.py b/d7a/system_files/phy_status.py
index 286848e..248d479 100644
--- a/d7a/system_files/phy_status.py
+++ b/d7a/system_files/phy_status.py
@@ -46,6 +46,9 @@ class PhyStatusFile(File, Validatable):
     self.tx_duty_cycle = tx_duty_cycle
     self.channel_status_list_length = channel_status_list_length
 
+    if len(channel_status_identifier or []) > channel_status_list_length or len(channel_noise_floor or []) > channel_status_list_length:
+      raise ValueError("more channels than the channel status list length")
+
     self.channel_status_identifier = list(channel_status_identifier or [])
     if len(self.channel_status_identifier) != channel_status_list_length:
       self.channel_status_identifier.extend([ChannelStatusIdentifier()] * (channel_status_list_length - len(self.channel_status_identifier)))
-- 
2.43.0


From 197f2fdc57c736079ce12fc5a5dc6da61479bf16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:40 +0000
Subject: [PATCH 16/48] fix: file numbers of system files without
 implementation

Most were registered with the enum member instead of the file number, so a
command for such a file could not be built.
---
 d7a/system_files/system_files.py | 40 ++++++++++++++++----------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/d7a/system_files/system_files.py b/d7a/system_files/system_files.py
index 42d8e64..1c0eb25 100644
--- a/d7a/system_files/system_files.py
+++ b/d7a/system_files/system_files.py
@@ -43,34 +43,34 @@ class SystemFiles:
     SystemFileIds.FACTORY_SETTINGS: FactorySettingsFile(),
     SystemFileIds.FIRMWARE_VERSION: FirmwareVersionFile(),
     SystemFileIds.DEVICE_CAPACITY: NotImplementedFile(SystemFileIds.DEVICE_CAPACITY.value, 19),
-    SystemFileIds.DEVICE_STATUS: NotImplementedFile(SystemFileIds.DEVICE_STATUS, 9),
+    SystemFileIds.DEVICE_STATUS: NotImplementedFile(SystemFileIds.DEVICE_STATUS.value, 9),
     SystemFileIds.ENGINEERING_MODE: EngineeringModeFile(),
     SystemFileIds.VID: VidFile(),
-    SystemFileIds.RFU_07: NotImplementedFile(SystemFileIds.RFU_07, 0),
-    SystemFileIds.PHY_CONFIG: NotImplementedFile(SystemFileIds.PHY_CONFIG, 9),
+    SystemFileIds.RFU_07: NotImplementedFile(SystemFileIds.RFU_07.value, 0),
+    SystemFileIds.PHY_CONFIG: NotImplementedFile(SystemFileIds.PHY_CONFIG.value, 9),
     SystemFileIds.PHY_STATUS: PhyStatusFile(),  # TODO assuming 3 channels for now
     SystemFileIds.DLL_CONFIG: DllConfigFile(),
     SystemFileIds.DLL_STATUS: DllStatusFile(),
-    SystemFileIds.NWL_ROUTING: NotImplementedFile(SystemFileIds.NWL_ROUTING, 1),  # TODO variable routing table
-    SystemFileIds.NWL_SECURITY: NotImplementedFile(SystemFileIds.NWL_SECURITY, 5),
+    SystemFileIds.NWL_ROUTING: NotImplementedFile(SystemFileIds.NWL_ROUTING.value, 1),  # TODO variable routing table
+    SystemFileIds.NWL_SECURITY: NotImplementedFile(SystemFileIds.NWL_SECURITY.value, 5),
     SystemFileIds.NWL_SECURITY_KEY: SecurityKeyFile(),
-    SystemFileIds.NWL_SSR: NotImplementedFile(SystemFileIds.NWL_SSR, 4),  # TODO 0 recorded devices
-    SystemFileIds.NWL_STATUS: NotImplementedFile(SystemFileIds.NWL_STATUS, 20),
-    SystemFileIds.TRL_STATUS: NotImplementedFile(SystemFileIds.TRL_STATUS, 1),  # TODO 0 TRL records
-    SystemFileIds.SEL_CONFIG: NotImplementedFile(SystemFileIds.SEL_CONFIG, 6),
-    SystemFileIds.FOF_STATUS: NotImplementedFile(SystemFileIds.FOF_STATUS, 10),
-    SystemFileIds.RFU_14: NotImplementedFile(SystemFileIds.RFU_14, 0),
-    SystemFileIds.RFU_15: NotImplementedFile(SystemFileIds.RFU_15, 0),
-    SystemFileIds.RFU_16: NotImplementedFile(SystemFileIds.RFU_16, 0),
-    SystemFileIds.LOCATION_DATA: NotImplementedFile(SystemFileIds.LOCATION_DATA, 1),  # TODO 0 recorded locations
+    SystemFileIds.NWL_SSR: NotImplementedFile(SystemFileIds.NWL_SSR.value, 4),  # TODO 0 recorded devices
+    SystemFileIds.NWL_STATUS: NotImplementedFile(SystemFileIds.NWL_STATUS.value, 20),
+    SystemFileIds.TRL_STATUS: NotImplementedFile(SystemFileIds.TRL_STATUS.value, 1),  # TODO 0 TRL records
+    SystemFileIds.SEL_CONFIG: NotImplementedFile(SystemFileIds.SEL_CONFIG.value, 6),
+    SystemFileIds.FOF_STATUS: NotImplementedFile(SystemFileIds.FOF_STATUS.value, 10),
+    SystemFileIds.RFU_14: NotImplementedFile(SystemFileIds.RFU_14.value, 0),
+    SystemFileIds.RFU_15: NotImplementedFile(SystemFileIds.RFU_15.value, 0),
+    SystemFileIds.RFU_16: NotImplementedFile(SystemFileIds.RFU_16.value, 0),
+    SystemFileIds.LOCATION_DATA: NotImplementedFile(SystemFileIds.LOCATION_DATA.value, 1),  # TODO 0 recorded locations
     SystemFileIds.ALP_ROOT_AUTHENTICATION_KEY: RootAuthenticationKeyFile(),
     SystemFileIds.ALP_USER_AUTHENTICATION_KEY: UserAuthenticationKeyFile(),
-    SystemFileIds.D7AALP_RFU_1A: NotImplementedFile(SystemFileIds.D7AALP_RFU_1A, 0),
-    SystemFileIds.D7AALP_RFU_1B: NotImplementedFile(SystemFileIds.D7AALP_RFU_1B, 0),
-    SystemFileIds.D7AALP_RFU_1C: NotImplementedFile(SystemFileIds.D7AALP_RFU_1C, 0),
-    SystemFileIds.D7AALP_RFU_1D: NotImplementedFile(SystemFileIds.D7AALP_RFU_1D, 0),
-    SystemFileIds.D7AALP_RFU_1E: NotImplementedFile(SystemFileIds.D7AALP_RFU_1E, 0),
-    SystemFileIds.D7AALP_RFU_1F: NotImplementedFile(SystemFileIds.D7AALP_RFU_1F, 0),
+    SystemFileIds.D7AALP_RFU_1A: NotImplementedFile(SystemFileIds.D7AALP_RFU_1A.value, 0),
+    SystemFileIds.D7AALP_RFU_1B: NotImplementedFile(SystemFileIds.D7AALP_RFU_1B.value, 0),
+    SystemFileIds.D7AALP_RFU_1C: NotImplementedFile(SystemFileIds.D7AALP_RFU_1C.value, 0),
+    SystemFileIds.D7AALP_RFU_1D: NotImplementedFile(SystemFileIds.D7AALP_RFU_1D.value, 0),
+    SystemFileIds.D7AALP_RFU_1E: NotImplementedFile(SystemFileIds.D7AALP_RFU_1E.value, 0),
+    SystemFileIds.D7AALP_RFU_1F: NotImplementedFile(SystemFileIds.D7AALP_RFU_1F.value, 0),
     SystemFileIds.ACCESS_PROFILE_0: AccessProfileFile(access_specifier=0),
     SystemFileIds.ACCESS_PROFILE_1: AccessProfileFile(access_specifier=1),
     SystemFileIds.ACCESS_PROFILE_2: AccessProfileFile(access_specifier=2),
-- 
2.43.0


From 7f3c79d3d4c23cd33518455bed2c121381cecfd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:48 +0000
Subject: [PATCH 17/48] fix: check the fields of the LoRaWAN interface
 configurations

The schemas were empty, so values which do not fit were only noticed, if at
all, while serialising.
---
 .../lorawan_interface_configuration_abp.py       | 16 +++++++---------
 .../lorawan_interface_configuration_otaa.py      | 13 +++++--------
 2 files changed, 12 insertions(+), 17 deletions(-)

diff --git a/d7a/alp/operands/lorawan_interface_configuration_abp.py b/d7a/alp/operands/lorawan_interface_configuration_abp.py
index c5f3d7d..606606e 100644
--- a/d7a/alp/operands/lorawan_interface_configuration_abp.py
+++ b/d7a/alp/operands/lorawan_interface_configuration_abp.py
@@ -29,15 +29,13 @@ from d7a.support.schema import Validatable, Types
 class LoRaWANInterfaceConfigurationABP(Validatable):
 
   SCHEMA = [{
-    # # TODO first byte is extensible with other fields
-    # "adr_enabled": Types.BOOLEAN(),
-    # "request_ack": Types.BOOLEAN(),
-    # "application_port": Types.BYTE(),
-    # "data_rate": Types.BYTE(),
-    # "netw_session_key": Types.BYTES(),
-    # "app_session_key": Types.BYTES(),
-    # "dev_addr": Types.BYTES(),
-    # "netw_id": Types.BYTES(),
+    # TODO first byte is extensible with other fields
+    "adr_enabled": Types.BOOLEAN(),
+    "request_ack": Types.BOOLEAN(),
+    "app_port": Types.BYTE(),
+    "data_rate": Types.BYTE(),
+    "dev_addr": Types.INTEGER(min=0, max=0xFFFFFFFF),
+    "netw_id": Types.INTEGER(min=0, max=0xFFFFFFFF)
   }]
 
   def __init__(self, adr_enabled, request_ack, app_port, data_rate, dev_addr, netw_id):
diff --git a/d7a/alp/operands/lorawan_interface_configuration_otaa.py b/d7a/alp/operands/lorawan_interface_configuration_otaa.py
index b5b2506..19206d7 100644
--- a/d7a/alp/operands/lorawan_interface_configuration_otaa.py
+++ b/d7a/alp/operands/lorawan_interface_configuration_otaa.py
@@ -29,14 +29,11 @@ from d7a.support.schema import Validatable, Types
 class LoRaWANInterfaceConfigurationOTAA(Validatable):
 
   SCHEMA = [{
-    # # TODO first byte is extensible with other fields
-    # "adr_enabled": Types.BOOLEAN(),
-    # "request_ack": Types.BOOLEAN(),
-    # "application_port": Types.BYTE(),
-    # "data_rate": Types.BYTE(),
-    # "device_eui": Types.BYTES(),
-    # "app_eui": Types.BYTES(),
-    # "app_key": Types.BYTES()
+    # TODO first byte is extensible with other fields
+    "adr_enabled": Types.BOOLEAN(),
+    "request_ack": Types.BOOLEAN(),
+    "app_port": Types.BYTE(),
+    "data_rate": Types.BYTE()
   }]
 
   def __init__(self, adr_enabled, request_ack, app_port, data_rate):
-- 
2.43.0


From fbc4e59e95ed0d7013d1ee6c01ca1453b10b12e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:27 +0000
Subject: [PATCH 18/48] fix: upper limit of wide bit fields

math.pow returns a float, so for fields beyond 53 bits the limit was rounded
up and a value of 2**length accepted.
---
 d7a/support/schema.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/d7a/support/schema.py b/d7a/support/schema.py
index 9b93611..966d7d4 100644
--- a/d7a/support/schema.py
+++ b/d7a/support/schema.py
@@ -25,8 +25,6 @@
 # author: Christophe VG <contact@christophe.vg>
 # base class for schema-validatable entity classes
 
-import math
-
 from cerberus import Validator
 
 import inspect
@@ -139,7 +137,7 @@ class Types(object):
 
   @staticmethod
   def BITS(length, min=0x0, max=None):
-    max = max if max is not None else math.pow(2, length)-1
+    max = max if max is not None else (1 << length) - 1
     return { "type": "integer", "min": 0x0, "max": max }
 
   @staticmethod
-- 
2.43.0


From 86044e51a0110dc2d178c45defa269395c91ea3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:36 +0000
Subject: [PATCH 19/48] fix: LoRa channels were described as low rate channels

The value was compared with the enum member, so the R was never used.
---
 d7a/phy/channel_header.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d7a/phy/channel_header.py b/d7a/phy/channel_header.py
index ab7d86e..8b31f2e 100644
--- a/d7a/phy/channel_header.py
+++ b/d7a/phy/channel_header.py
@@ -51,7 +51,7 @@ class ChannelClass(Enum):
 
   def to_char(self):
     c = self.name[:1]
-    if self.value == ChannelClass.LORA:
+    if self is ChannelClass.LORA:
       c = "R"
 
     return c
-- 
2.43.0


From 02501eebbfc22ebf2e6eef92e721d52c08bd4d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:45 +0000
Subject: [PATCH 20/48] fix: a channel header differs from objects of other
 types

Both == and != returned False.
---
 d7a/phy/channel_header.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/d7a/phy/channel_header.py b/d7a/phy/channel_header.py
index 8b31f2e..b8d61c7 100644
--- a/d7a/phy/channel_header.py
+++ b/d7a/phy/channel_header.py
@@ -127,6 +127,4 @@ class ChannelHeader(Validatable):
     return False
 
   def __ne__(self, other):
-    if isinstance(other, self.__class__):
-      return not self.__eq__(other)
-    return False
\ No newline at end of file
+    return not self.__eq__(other)
\ No newline at end of file
-- 
2.43.0


From cc628c7e9c9f904dddd0c1004c92558fd4c9d427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:53 +0000
Subject: [PATCH 21/48] fix: channel indexes above 999 in channel id strings

Only the first three digits were used.
---
 d7a/phy/channel_id.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d7a/phy/channel_id.py b/d7a/phy/channel_id.py
index 3f82806..ae364c5 100644
--- a/d7a/phy/channel_id.py
+++ b/d7a/phy/channel_id.py
@@ -56,5 +56,5 @@ class ChannelID(Validatable):
   @staticmethod
   def from_string(s):
       channel_header = ChannelHeader.from_string(s[0:5])
-      channel_index = int(s[5:8])
+      channel_index = int(s[5:])
       return ChannelID(channel_header=channel_header, channel_index=channel_index)
\ No newline at end of file
-- 
2.43.0


From cbdee87c4331c5663a453556eb1d08111c6fac66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:02 +0000
Subject: [PATCH 22/48] fix: indirect forward with an inconsistent overload

Whether the receiver parses an overload configuration depends on the overload
flag only, so the following bytes were misinterpreted when one was present
without the other.
---
 d7a/alp/indirect_forward_action.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/d7a/alp/indirect_forward_action.py b/d7a/alp/indirect_forward_action.py
index 112c80b..d6ff248 100644
--- a/d7a/alp/indirect_forward_action.py
+++ b/d7a/alp/indirect_forward_action.py
@@ -41,6 +41,8 @@ class IndirectForwardAction(Action):
     self.overload = overload
     self.resp = resp
     super(IndirectForwardAction, self).__init__(operation)
+    if self.overload != (self.operand.interface_configuration_overload is not None):
+      raise ValueError("an overload requires an overload configuration, and the other way around")
 
   def __iter__(self):
     byte = 0
-- 
2.43.0


From f5df3e0b35489c8023d58c202da96f59b7d98880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:45 +0000
Subject: [PATCH 23/48] fix: parser errors without arguments

An exception without arguments, for example a failing assert, while parsing a
received command made the error handling itself raise an IndexError, which
ended the reader thread.
---
 d7a/serial_modem_interface/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d7a/serial_modem_interface/parser.py b/d7a/serial_modem_interface/parser.py
index 6f9536e..4b5273a 100644
--- a/d7a/serial_modem_interface/parser.py
+++ b/d7a/serial_modem_interface/parser.py
@@ -122,7 +122,7 @@ class Parser(object):
         retry = False
       except Exception as e: # actual problem with current buffer, need to skip
         errors.append({
-          "error"   : e.args[0],
+          "error"   : e.args[0] if e.args else repr(e),
           "buffer"  : " ".join(map(lambda b: format(b, "02x"), self.buffer)),
           "pos"     : s.pos,
           "skipped" : self.skip_bad_buffer_content()
-- 
2.43.0


From 6dda09ba9351fe34958fa00cf46e7d5b91b0f2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:53 +0000
Subject: [PATCH 24/48] fix: consume the declared payload of rebooted messages

One byte was read whatever the declared length, so the byte following an empty
one was eaten and the rest of a longer one was left in the buffer.
---
 d7a/serial_modem_interface/parser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/d7a/serial_modem_interface/parser.py b/d7a/serial_modem_interface/parser.py
index 4b5273a..eacaac7 100644
--- a/d7a/serial_modem_interface/parser.py
+++ b/d7a/serial_modem_interface/parser.py
@@ -103,7 +103,11 @@ class Parser(object):
         s           = ConstBitStream(bytes=self.buffer)
         cmd_length, message_type = self.parse_serial_interface_header(s)
         if message_type == MessageType.REBOOTED.value:
+          if cmd_length == 0:
+            raise ParseError("reboot reason is missing")
+
           cmd = s.read("uint:8")
+          s.read("bytes:" + str(cmd_length - 1))
         elif message_type == MessageType.LOGGING.value:
           cmd = (s.readlist('bytes:b', b=cmd_length)[0])
         else:
-- 
2.43.0


From ccdb3bb33f2c4fea57d894ae2ee10473a2ad9736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:01 +0000
Subject: [PATCH 25/48] fix: ALP commands exceeding their serial frame

The command was parsed from the receive buffer, so when its actions need more
bytes than the frame contains the next frame was eaten or, when it is not there
yet, reception stalled on a frame which is complete.
---
 d7a/serial_modem_interface/parser.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/d7a/serial_modem_interface/parser.py b/d7a/serial_modem_interface/parser.py
index eacaac7..4e5f734 100644
--- a/d7a/serial_modem_interface/parser.py
+++ b/d7a/serial_modem_interface/parser.py
@@ -117,7 +117,12 @@ class Parser(object):
 
             cmd = s.read("bytes:" + str(cmd_length))
           else:
-            cmd = AlpParser().parse(s, cmd_length)
+            # the payload is complete, and is all which belongs to this command
+            payload = s.read("bytes:" + str(cmd_length))
+            try:
+              cmd = AlpParser().parse(ConstBitStream(bytes=payload), cmd_length)
+            except ReadError:
+              raise ParseError("ALP command exceeds the length of the serial frame")
 
         bits_parsed = s.pos
         self.shift_buffer(bits_parsed/8)
-- 
2.43.0


From a0accf9857b0bc88c19d154b4aad2f31640760f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:08 +0000
Subject: [PATCH 26/48] fix: the length of a foreground frame does not include
 the CRC

The ALP command was passed a length which is two bytes short, so an action at
the end of the frame was left out and taken for the CRC.
---
 d7a/dll/foreground_frame.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d7a/dll/foreground_frame.py b/d7a/dll/foreground_frame.py
index 2f033df..83173aa 100644
--- a/d7a/dll/foreground_frame.py
+++ b/d7a/dll/foreground_frame.py
@@ -67,7 +67,7 @@ class ForegroundFrame(Validatable):
     length = s.read("uint:8")
     subnet = s.read("uint:8")
     control = ForegroundFrameControl.parse(s)
-    payload_length = length - 4 # substract subnet, control, crc
+    payload_length = length - 2 # substract subnet, control (the CRC is not included in length)
     if control.id_type == IdType.VID:
       target_address = map(ord, s.read("bytes:2"))
       payload_length = payload_length - 2
-- 
2.43.0


From c3c9317bea39f96c0960354f4c7d63f988d03322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:17 +0000
Subject: [PATCH 27/48] fix: refuse ALP commands exceeding their length

The last action was accepted even if it extended beyond the declared length of
the command.
---
 d7a/alp/parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/d7a/alp/parser.py b/d7a/alp/parser.py
index 1c0ab3a..5af181f 100644
--- a/d7a/alp/parser.py
+++ b/d7a/alp/parser.py
@@ -75,6 +75,9 @@ class Parser(object):
         actions.append(action)
         alp_bytes_parsed = alp_bytes_parsed + (s.bytepos - startpos)
 
+      if alp_bytes_parsed != cmd_length:
+        raise ParseError("ALP command exceeds its length, expected {0} bytes, parsed {1}".format(cmd_length, alp_bytes_parsed))
+
     cmd = Command(actions = actions, generate_tag_request_action=False)
     return cmd
 
-- 
2.43.0


From d596b2d7af046c08715227265a9e0578b745e1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:26 +0000
Subject: [PATCH 28/48] fix: status actions without a parsed status

Action status and host interface status made the parser continue with None as
action or operation, which failed with an unrelated error, and the bytes of a
host or serial interface status were interpreted as the next action.
---
 d7a/alp/parser.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/d7a/alp/parser.py b/d7a/alp/parser.py
index 5af181f..fb5fae7 100644
--- a/d7a/alp/parser.py
+++ b/d7a/alp/parser.py
@@ -165,7 +165,7 @@ class Parser(object):
       except KeyError:
         raise ParseError("Received ALP Interface status for interface " + str(interface_id) + " which is not implemented")
     else: # action status
-      pass # TODO
+      raise ParseError("action status is not implemented") # TODO
 
   def parse_tag_request_action(self, b7, b6, s):
     if b6:
@@ -209,7 +209,8 @@ class Parser(object):
     return ForwardAction(resp=b6, operation=Forward(operand=InterfaceConfiguration(interface_id=interface_id,
                                                                                    interface_configuration=interface_config)))
   def parse_alp_interface_status_host(self, s, length):
-    pass # no interface status defined for host interface
+    s.read("bytes:" + str(length)) # no interface status defined for host interface
+    return InterfaceStatus(operand=InterfaceStatusOperand(interface_id=0x00, interface_status=None))
 
   def parse_alp_interface_status_d7asp(self, s, length):
     status = None
@@ -221,6 +222,7 @@ class Parser(object):
     )
 
   def parse_alp_interface_status_serial(self, s, length):
+    s.read("bytes:" + str(length))
     return InterfaceStatus(operand=InterfaceStatusOperand(interface_id=0x01, interface_status=None))
 
   def parse_offset(self, s):
-- 
2.43.0


From 9affdde7b4fe04276c76ca85950f8ed27e0bad6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:35 +0000
Subject: [PATCH 29/48] fix: DLL parser errors

The parser caught an exception class of its own, which nothing raises, and then
called a method which does not exist, so anything but a valid frame raised out
of the parser and was parsed again on the next call.
---
 d7a/dll/parser.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/d7a/dll/parser.py b/d7a/dll/parser.py
index 3e6eee1..9f777c7 100644
--- a/d7a/dll/parser.py
+++ b/d7a/dll/parser.py
@@ -27,8 +27,7 @@ from bitstring import ConstBitStream, ReadError
 
 from d7a.dll.background_frame import BackgroundFrame
 from d7a.dll.foreground_frame import ForegroundFrame
-
-class ParseError(Exception): pass
+from d7a.parse_error import ParseError
 
 class FrameType(Enum):
   FOREGROUND = 0
@@ -65,6 +64,11 @@ class Parser(object):
     self.buffer = self.buffer[start:]
     return self
 
+  def skip_bad_buffer_content(self):
+    # frames have no sync byte, the next byte might be a valid starting point
+    self.buffer.pop(0)
+    return 1
+
   def parse_one_frame_from_buffer(self):
     retry       = True    # until we have one or don't have enough
     errors      = []
@@ -82,9 +86,9 @@ class Parser(object):
         retry = False         # got one, carry on
       except ReadError as e:       # not enough to read, carry on and wait for more
         retry = False
-      except ParseError as e: # actual problem with current buffer, need to skip
+      except Exception as e: # actual problem with current buffer, need to skip
         errors.append({
-          "error"   : e.args[0],
+          "error"   : e.args[0] if e.args else repr(e),
           "buffer"  : list(self.buffer),
           "pos"     : self.s.pos,
           "skipped" : self.skip_bad_buffer_content()
-- 
2.43.0


From b48421fa16c0d204d013cbbe58af64586b077cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:17 +0000
Subject: [PATCH 30/48] fix: complete but invalid foreground frames

When the fields of a frame need more bytes than its length the parser kept
waiting although the frame was complete.
---
 d7a/dll/parser.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/d7a/dll/parser.py b/d7a/dll/parser.py
index 9f777c7..6fdea66 100644
--- a/d7a/dll/parser.py
+++ b/d7a/dll/parser.py
@@ -23,7 +23,7 @@
 #
 from enum import Enum
 
-from bitstring import ConstBitStream, ReadError
+from bitstring import ConstBitStream
 
 from d7a.dll.background_frame import BackgroundFrame
 from d7a.dll.foreground_frame import ForegroundFrame
@@ -64,6 +64,12 @@ class Parser(object):
     self.buffer = self.buffer[start:]
     return self
 
+  def expected_length(self):
+    if self.frame_type == FrameType.FOREGROUND:
+      return self.s.peek("uint:8") + 3 # length byte and CRC are not included
+    else:
+      return 6
+
   def skip_bad_buffer_content(self):
     # frames have no sync byte, the next byte might be a valid starting point
     self.buffer.pop(0)
@@ -77,6 +83,9 @@ class Parser(object):
     while retry and len(self.buffer) > 0:
       try:
         self.s      = ConstBitStream(bytes=self.buffer)
+        if len(self.buffer) < self.expected_length():
+          break               # not enough to read, carry on and wait for more
+
         if self.frame_type == FrameType.FOREGROUND:
           frame = ForegroundFrame.parse(self.s)
         else:
@@ -84,8 +93,6 @@ class Parser(object):
         bits_parsed = self.s.pos
         self.shift_buffer(bits_parsed/8)
         retry = False         # got one, carry on
-      except ReadError as e:       # not enough to read, carry on and wait for more
-        retry = False
       except Exception as e: # actual problem with current buffer, need to skip
         errors.append({
           "error"   : e.args[0] if e.args else repr(e),
-- 
2.43.0


From 25420c30133cd6125180b9aba9f96a7ed996cb89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:25 +0000
Subject: [PATCH 31/48] fix: parse_hexstring for DLL frames

The DLL parser returns frames and info, without message types.
---
 tools/parse_hexstring.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tools/parse_hexstring.py b/tools/parse_hexstring.py
index e95ac94..e26926a 100644
--- a/tools/parse_hexstring.py
+++ b/tools/parse_hexstring.py
@@ -55,7 +55,11 @@ if args.type == "systemfile":
   print(file_type.parse(ConstBitStream(data)))
   exit(0)
 
-msgtype, cmds, info = parser.parse(data)
+if args.type == "serial":
+  msgtype, cmds, info = parser.parse(data)
+else:
+  cmds, info = parser.parse(data)
+
 for cmd in cmds:
   print cmd
 
-- 
2.43.0


From 7be8e3e0ec25ec0e4baddbd3bf132a5457e58d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:33 +0000
Subject: [PATCH 32/48] fix: commands without tag response have no error

completed_with_error was only set when there was a tag response.
---
 d7a/alp/command.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/d7a/alp/command.py b/d7a/alp/command.py
index 704e0a0..0e8dcf9 100644
--- a/d7a/alp/command.py
+++ b/d7a/alp/command.py
@@ -69,6 +69,7 @@ class Command(Validatable):
     self.tag_id = tag_id
     self.send_tag_response_when_completed = send_tag_response_when_completed
     self.execution_completed = False
+    self.completed_with_error = False
 
     for action in actions:
       if type(action) == StatusAction and action.status_operand_extension == StatusActionOperandExtensions.INTERFACE_STATUS:
-- 
2.43.0


From 5c55e380129cb1482b89eb46eb2a072d2294f960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:00 +0000
Subject: [PATCH 33/48] fix: reconnect after a serial error

The method to reconnect does not exist, so any serial error ended the reader
thread. The data of the previous read must not be parsed again either.
---
 modem/modem.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/modem/modem.py b/modem/modem.py
index 32b2f5c..08e1888 100755
--- a/modem/modem.py
+++ b/modem/modem.py
@@ -198,6 +198,15 @@ class Modem:
   def clear_rebooted_received(self):
     self._rebooted_received = []
 
+  def _reconnect(self):
+    self.dev.close()
+    while self._read_async_active and not self.dev.is_open:
+      time.sleep(5)
+      try:
+        self.dev.open()
+      except serial.SerialException:
+        self.log.warning("Reconnecting failed, retrying")
+
   def _read_async(self):
     self.log.info("starting read thread")
     data_received = bytearray()
@@ -206,9 +215,8 @@ class Modem:
         data_received = self.dev.read()
       except serial.SerialException:
         self.log.warning("SerialException received, trying to reconnect")
-        self.dev.close()
-        time.sleep(5)
-        self._connect_serial_modem()
+        self._reconnect()
+        continue # there is no new data
 
       if len(data_received) > 0:
         # self.log.debug("< " + " ".join(map(lambda b: format(b, "02x"), bytearray(data_received))))
-- 
2.43.0


From 61d345102c9a414fab94b6d699b5e5bff1408b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:08 +0000
Subject: [PATCH 34/48] fix: responses without tag were swallowed

Without synchronous execution the expected tag is None, which is equal to the
tag of a command without tag, so such unsolicited responses did not reach the
callback or the list of unsolicited responses.
---
 modem/modem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modem/modem.py b/modem/modem.py
index 08e1888..0a437b5 100755
--- a/modem/modem.py
+++ b/modem/modem.py
@@ -226,7 +226,7 @@ class Modem:
           self.log.warning("Parser error: {}".format(error))
         cmd_cnt = 0
         for cmd in cmds:
-          if not self.skip_alp_parsing and hasattr(cmd, 'tag_id') and self._sync_execution_tag_id == cmd.tag_id and message_types[cmd_cnt] <= MessageType.PING_RESPONSE:
+          if not self.skip_alp_parsing and hasattr(cmd, 'tag_id') and self._sync_execution_tag_id is not None and self._sync_execution_tag_id == cmd.tag_id and message_types[cmd_cnt] <= MessageType.PING_RESPONSE:
             self.log.info("Received response for sync execution")
             self._sync_execution_response_cmds.append(cmd)
             if cmd.execution_completed:
-- 
2.43.0


From 4584589285f63ddafdbd9a12c9d55283eccc4dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:15 +0000
Subject: [PATCH 35/48] fix: stop expecting synchronous responses when done

The tag stayed registered after completion or a timeout, so later responses
with this tag were appended to the abandoned list and lost.
---
 modem/modem.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modem/modem.py b/modem/modem.py
index 0a437b5..500b478 100755
--- a/modem/modem.py
+++ b/modem/modem.py
@@ -168,6 +168,7 @@ class Modem:
     while not self._sync_execution_completed and (datetime.now() - start_time).total_seconds() < timeout_seconds:
       time.sleep(0.05)
 
+    self._sync_execution_tag_id = None # not expecting responses anymore
     if not self._sync_execution_completed:
       self.log.info("Command timeout (tag {})".format(alp_command.tag_id))
       return []
-- 
2.43.0


From 5123814e242379bb873dcb9985f3c3a21bb49bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:22 +0000
Subject: [PATCH 36/48] fix: assign the frame counter under the lock

Frames of concurrent callers could get the same counter or be written in an
order different from their counters.
---
 modem/modem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modem/modem.py b/modem/modem.py
index 500b478..8d3ae51 100755
--- a/modem/modem.py
+++ b/modem/modem.py
@@ -148,7 +148,6 @@ class Modem:
                     "executing async instead ")
       timeout_seconds = 0
 
-    data = self.parser.build_serial_frame(alp_command)
     self._sync_execution_response_cmds = []
     self._sync_execution_tag_id = None
     self._sync_execution_completed = False
@@ -156,6 +155,7 @@ class Modem:
       assert self._sync_execution_tag_id is None
       self._sync_execution_tag_id = alp_command.tag_id
     with self.lock:
+      data = self.parser.build_serial_frame(alp_command)
       self.dev.write(data)
       self.dev.flush()
     self.log.info("Sending command of size %s" % len(data))
-- 
2.43.0


From ed253ac551335082dfef259807a35222dab278af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:28 +0000
Subject: [PATCH 37/48] fix: connect to the broker before receiving commands

Commands received between connecting to the modem and to the broker were lost.
---
 tools/modem2mqtt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/modem2mqtt.py b/tools/modem2mqtt.py
index 40553cd..28adc7e 100644
--- a/tools/modem2mqtt.py
+++ b/tools/modem2mqtt.py
@@ -63,8 +63,8 @@ class Modem2Mqtt():
     configure_default_logger(self.config.verbose)
 
     self.modem = Modem(self.config.device, self.config.rate, self.on_command_received, skip_alp_parsing=True)
-    self.modem.connect()
     self.connect_to_mqtt()
+    self.modem.connect()
 
 
   def connect_to_mqtt(self):
-- 
2.43.0


From 02a2cc86c12115ffef6e27a300960d61c052d083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:35 +0000
Subject: [PATCH 38/48] fix: interface configuration files of the host and
 serial interface

These had no file id and length.
---
 d7a/system_files/interface_configuration.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/d7a/system_files/interface_configuration.py b/d7a/system_files/interface_configuration.py
index dfbea83..666f724 100644
--- a/d7a/system_files/interface_configuration.py
+++ b/d7a/system_files/interface_configuration.py
@@ -44,6 +44,8 @@ class InterfaceConfigurationFile(File, Validatable):
       File.__init__(self, file_id, 36)
     elif interface_configuration.interface_id == InterfaceType.LORAWAN_ABP:
       File.__init__(self, file_id, 44)
+    else:
+      File.__init__(self, file_id, 1) # there is no configuration for this interface, only the interface id
     Validatable.__init__(self)
 
   def __iter__(self):
-- 
2.43.0


From e68e1bab0a8035ebff2b54de533d8a9d351896ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:18 +0000
Subject: [PATCH 39/48] fix: serialise an interface status operand without
 status

---
 d7a/alp/operands/interface_status.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/d7a/alp/operands/interface_status.py b/d7a/alp/operands/interface_status.py
index 5aa883b..74dc5e0 100644
--- a/d7a/alp/operands/interface_status.py
+++ b/d7a/alp/operands/interface_status.py
@@ -39,7 +39,8 @@ class InterfaceStatusOperand(Validatable):
 
   def __iter__(self):
     yield self.interface_id
-    for byte in self.interface_status: yield byte
+    if self.interface_status is not None:
+      for byte in self.interface_status: yield byte
 
   def __str__(self):
     return "interface-id={}, status={}".format(self.interface_id, self.interface_status)
-- 
2.43.0


From b3f711af26bcf4c877019a0657ffe8f2f5723d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:07 +0000
Subject: [PATCH 40/48] fix: decode system files only from their beginning

---
 d7a/alp/operations/responses.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/d7a/alp/operations/responses.py b/d7a/alp/operations/responses.py
index d09d806..cbf4fa2 100644
--- a/d7a/alp/operations/responses.py
+++ b/d7a/alp/operations/responses.py
@@ -50,6 +50,9 @@ class ReturnFileData(Operation):
       systemfile_type = SystemFiles().files[SystemFileIds(self.operand.offset.id)]
     except:
       return
+    # content which does not start at the beginning of the file cannot be parsed as that file
+    if self.operand.offset.offset.value != 0:
+      return
     # if the file size is between allocated and original length, try to parse it
     if (systemfile_type is not None) and (systemfile_type.length >= self.operand.length.value):
       self.systemfile_type = systemfile_type
-- 
2.43.0


From ffdfebd13744d14b5254894500a7e56da03cfb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:42 +0000
Subject: [PATCH 41/48] fix: do not keep expecting responses to a command which
 could not be sent

---
 modem/modem.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/modem/modem.py b/modem/modem.py
index 8d3ae51..404f992 100755
--- a/modem/modem.py
+++ b/modem/modem.py
@@ -154,10 +154,14 @@ class Modem:
     if(timeout_seconds > 0):
       assert self._sync_execution_tag_id is None
       self._sync_execution_tag_id = alp_command.tag_id
-    with self.lock:
-      data = self.parser.build_serial_frame(alp_command)
-      self.dev.write(data)
-      self.dev.flush()
+    try:
+      with self.lock:
+        data = self.parser.build_serial_frame(alp_command)
+        self.dev.write(data)
+        self.dev.flush()
+    except:
+      self._sync_execution_tag_id = None # the command was not sent, not expecting responses
+      raise
     self.log.info("Sending command of size %s" % len(data))
     self.log.debug("> " + " ".join(map(lambda b: format(b, "02x"), data)))
     if timeout_seconds == 0:
-- 
2.43.0


From ce053481d9dc0ecebe580ba85715ecfd624f4585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:51 +0000
Subject: [PATCH 42/48] fix: identify the modem only by what the current
 response contains

---
 modem/modem.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modem/modem.py b/modem/modem.py
index 404f992..9d24fcc 100755
--- a/modem/modem.py
+++ b/modem/modem.py
@@ -118,6 +118,9 @@ class Modem:
       self.log.warning("Timed out reading node information")
       return False
 
+    # only what this response contains identifies the modem
+    self.uid = None
+    self.firmware_version = None
     for action in resp_cmd[0].actions:
       if type(action) is RegularAction and type(action.operation) is ReturnFileData:
           if action.operand.offset.id == SystemFileIds.UID.value:
-- 
2.43.0


From 28fbb7902ab0c67fde133404c8083c682a3be618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:46 +0000
Subject: [PATCH 43/48] fix: decide and deliver a response to a synchronous
 command in one step

---
 modem/modem.py | 35 ++++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/modem/modem.py b/modem/modem.py
index 9d24fcc..dbaaa94 100755
--- a/modem/modem.py
+++ b/modem/modem.py
@@ -63,6 +63,7 @@ class Modem:
     self._sync_execution_response_cmds = []
     self._sync_execution_tag_id = None
     self._sync_execution_completed = False
+    self._sync_execution_lock = threading.Lock() # the reader and the caller both change the state of a synchronous execution
     self._unsolicited_responses_received = []
     self._rebooted_received = []
     self._read_async_active = False
@@ -151,19 +152,21 @@ class Modem:
                     "executing async instead ")
       timeout_seconds = 0
 
-    self._sync_execution_response_cmds = []
-    self._sync_execution_tag_id = None
-    self._sync_execution_completed = False
-    if(timeout_seconds > 0):
-      assert self._sync_execution_tag_id is None
-      self._sync_execution_tag_id = alp_command.tag_id
+    with self._sync_execution_lock:
+      self._sync_execution_response_cmds = []
+      self._sync_execution_tag_id = None
+      self._sync_execution_completed = False
+      if(timeout_seconds > 0):
+        assert self._sync_execution_tag_id is None
+        self._sync_execution_tag_id = alp_command.tag_id
     try:
       with self.lock:
         data = self.parser.build_serial_frame(alp_command)
         self.dev.write(data)
         self.dev.flush()
     except:
-      self._sync_execution_tag_id = None # the command was not sent, not expecting responses
+      with self._sync_execution_lock:
+        self._sync_execution_tag_id = None # the command was not sent, not expecting responses
       raise
     self.log.info("Sending command of size %s" % len(data))
     self.log.debug("> " + " ".join(map(lambda b: format(b, "02x"), data)))
@@ -175,7 +178,8 @@ class Modem:
     while not self._sync_execution_completed and (datetime.now() - start_time).total_seconds() < timeout_seconds:
       time.sleep(0.05)
 
-    self._sync_execution_tag_id = None # not expecting responses anymore
+    with self._sync_execution_lock:
+      self._sync_execution_tag_id = None # not expecting responses anymore
     if not self._sync_execution_completed:
       self.log.info("Command timeout (tag {})".format(alp_command.tag_id))
       return []
@@ -215,6 +219,17 @@ class Modem:
       except serial.SerialException:
         self.log.warning("Reconnecting failed, retrying")
 
+  def _is_sync_execution_response(self, cmd):
+    # the request a response belongs to may end at any time, so the response is checked and delivered in one step
+    with self._sync_execution_lock:
+      if self._sync_execution_tag_id is None or self._sync_execution_tag_id != cmd.tag_id:
+        return False
+
+      self._sync_execution_response_cmds.append(cmd)
+      if cmd.execution_completed:
+        self._sync_execution_completed = True
+      return True
+
   def _read_async(self):
     self.log.info("starting read thread")
     data_received = bytearray()
@@ -234,12 +249,10 @@ class Modem:
           self.log.warning("Parser error: {}".format(error))
         cmd_cnt = 0
         for cmd in cmds:
-          if not self.skip_alp_parsing and hasattr(cmd, 'tag_id') and self._sync_execution_tag_id is not None and self._sync_execution_tag_id == cmd.tag_id and message_types[cmd_cnt] <= MessageType.PING_RESPONSE:
+          if not self.skip_alp_parsing and hasattr(cmd, 'tag_id') and message_types[cmd_cnt] <= MessageType.PING_RESPONSE and self._is_sync_execution_response(cmd):
             self.log.info("Received response for sync execution")
-            self._sync_execution_response_cmds.append(cmd)
             if cmd.execution_completed:
               self.log.info("cmd with tag {} done".format(cmd.tag_id))
-              self._sync_execution_completed = True
             else:
               self.log.info("cmd with tag {} not done yet, expecting more responses".format(cmd.tag_id))
 
-- 
2.43.0


From 77ae7c5958d824e31150d9df264376e07bddbfb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:04 +0000
Subject: [PATCH 44/48] fix: FactorySettingsFile description shows the
 spreading factor and bandwidth under their own names

---
 d7a/system_files/factory_settings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d7a/system_files/factory_settings.py b/d7a/system_files/factory_settings.py
index 87f5094..a7ff343 100644
--- a/d7a/system_files/factory_settings.py
+++ b/d7a/system_files/factory_settings.py
@@ -193,5 +193,5 @@ class FactorySettingsFile(File, Validatable):
                                                                                          self.preamble_detector_size_lo_rate, self.preamble_detector_size_normal_rate, self.preamble_detector_size_hi_rate,
                                                                                          self.preamble_tol_lo_rate, self.preamble_tol_normal_rate, self.preamble_tol_hi_rate,
                                                                                          self.rssi_smoothing, self.rssi_offset,
-                                                                                         self.lora_bw, self.lora_SF,
+                                                                                         self.lora_SF, self.lora_bw,
                                                                                          self.gaussian, self.paramp)
\ No newline at end of file
-- 
2.43.0


From f5360b8cd1c65fa9de791d9518e21081f21fa8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:13 +0000
Subject: [PATCH 45/48] fix: DllConfigFile description shows the values of the
 noise floor method parameters

---
 d7a/system_files/dll_config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d7a/system_files/dll_config.py b/d7a/system_files/dll_config.py
index 013ab7e..c8b38fd 100644
--- a/d7a/system_files/dll_config.py
+++ b/d7a/system_files/dll_config.py
@@ -69,4 +69,4 @@ class DllConfigFile(File, Validatable):
 
 
   def __str__(self):
-    return "active_access_class={}, lq_filter={}, nf_ctrl={}, rx_nf_method_parameter, tx_nf_method_parameter".format(self.active_access_class, self.lq_filter, self.nf_ctrl, self.rx_nf_method_parameter, self.tx_nf_method_parameter)
+    return "active_access_class={}, lq_filter={}, nf_ctrl={}, rx_nf_method_parameter={}, tx_nf_method_parameter={}".format(self.active_access_class, self.lq_filter, self.nf_ctrl, self.rx_nf_method_parameter, self.tx_nf_method_parameter)
-- 
2.43.0


From 9ae19c5d4ecd0847b207124935328c7ceb97e41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:21 +0000
Subject: [PATCH 46/48] fix: Addressee description shows the NLS method

---
 d7a/d7anp/addressee.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d7a/d7anp/addressee.py b/d7a/d7anp/addressee.py
index dfc3cc4..ea0e34b 100644
--- a/d7a/d7anp/addressee.py
+++ b/d7a/d7anp/addressee.py
@@ -147,4 +147,4 @@ class Addressee(Validatable):
       for byte in id: yield byte
 
   def __str__(self):
-    return "ac={}, id_type={}, id={}".format(self.access_class, self.id_type, self.id)
\ No newline at end of file
+    return "ac={}, id_type={}, id={}, nls_method={}".format(self.access_class, self.id_type, self.id, self.nls_method)
\ No newline at end of file
-- 
2.43.0


From 69ab1a825236cd4d297128f80f086ab55239128d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:30 +0000
Subject: [PATCH 47/48] fix: FilePermissions describes its flags instead of
 returning an empty text

---
 d7a/fs/file_permissions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/d7a/fs/file_permissions.py b/d7a/fs/file_permissions.py
index d27b76b..3899395 100644
--- a/d7a/fs/file_permissions.py
+++ b/d7a/fs/file_permissions.py
@@ -76,7 +76,10 @@ class FilePermissions(Validatable):
     yield byte
 
   def __str__(self):
-    return "" #TODO
+    return "encrypted={}, executable={}, user_readable={}, user_writeable={}, user_executable={}, guest_readable={}, guest_writeable={}, guest_executable={}".format(
+      self.encrypted, self.executable, self.user_readable, self.user_writeable, self.user_executeable,
+      self.guest_readable, self.guest_writeable, self.guest_executeable
+    )
 
   def __eq__(self, other):
     if isinstance(other, FilePermissions):
-- 
2.43.0


From 1ce433a138a9520bec9c0b59677e96e9fd5ed62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:39 +0000
Subject: [PATCH 48/48] fix: QueryOperand has a description

---
 d7a/alp/operands/query.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/d7a/alp/operands/query.py b/d7a/alp/operands/query.py
index 105935c..123aaf6 100644
--- a/d7a/alp/operands/query.py
+++ b/d7a/alp/operands/query.py
@@ -107,3 +107,9 @@ class QueryOperand(Validatable):
     file_a_offset = Offset.parse(s)
     return QueryOperand(type=type, mask_present=mask_present, params=params, compare_length=compare_length,
                         compare_value=compare_value, file_a_offset=file_a_offset)
+
+  def __str__(self):
+    return "type={}, mask_present={}, signed_data_type={}, comp_type={}, compare_length={}, compare_value={}, file_a_offset=({})".format(
+      self.type, self.mask_present, self.params.signed_data_type, self.params.comp_type,
+      self.compare_length, self.compare_value, self.file_a_offset
+    )
-- 
2.43.0

