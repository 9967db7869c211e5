From 8be17be6c8bbb4f734419b68f79fffb12f5cf2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:42 +0000
Subject: [PATCH 01/25] fix: TimTm2Flags::time_base reads its own two bits and
 never panics

---
 ublox/src/ubx_packets/packets.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ublox/src/ubx_packets/packets.rs b/ublox/src/ubx_packets/packets.rs
index e203d33..86f8bc0 100644
--- a/ublox/src/ubx_packets/packets.rs
+++ b/ublox/src/ubx_packets/packets.rs
@@ -2887,11 +2887,11 @@ impl TimTm2Flags {
     }
 
     pub fn time_base(&self) -> TimTm2TimeBase {
-        match self.0 & 0b11000 {
+        match (self.0 >> 3) & 0b11 {
             0 => TimTm2TimeBase::Receiver,
             1 => TimTm2TimeBase::Gnss,
             2 => TimTm2TimeBase::Utc,
-            _ => unreachable!(),
+            _ => TimTm2TimeBase::Reserved,
         }
     }
 
@@ -2919,6 +2919,7 @@ pub enum TimTm2TimeBase {
     Receiver,
     Gnss,
     Utc,
+    Reserved,
 }
 
 #[ubx_packet_recv]
-- 
2.43.0


From 9f6774e3fee3b9441c5e6025b0bf266f7bdbf8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:42 +0000
Subject: [PATCH 02/25] fix: NavVelECEF.ecef_vz is signed

---
 ublox/src/ubx_packets/packets.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ublox/src/ubx_packets/packets.rs b/ublox/src/ubx_packets/packets.rs
index 86f8bc0..2ca53d7 100644
--- a/ublox/src/ubx_packets/packets.rs
+++ b/ublox/src/ubx_packets/packets.rs
@@ -3518,7 +3518,7 @@ struct NavVelECEF {
     itow: u32,
     ecef_vx: i32,
     ecef_vy: i32,
-    ecef_vz: u32,
+    ecef_vz: i32,
     s_acc: u32,
 }
 
-- 
2.43.0


From a698876635b63a6479e11e024a9b1cfb3fc2ccd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:42 +0000
Subject: [PATCH 03/25] fix: Position from NavHpPosLlh adds the high precision
 height in metres

---
 ublox/src/ubx_packets/types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ublox/src/ubx_packets/types.rs b/ublox/src/ubx_packets/types.rs
index 4b93b7d..d2ace5b 100644
--- a/ublox/src/ubx_packets/types.rs
+++ b/ublox/src/ubx_packets/types.rs
@@ -56,7 +56,7 @@ impl<'a> From<&NavHpPosLlhRef<'a>> for Position {
         Position {
             lon: packet.lon_degrees() + packet.lon_hp_degrees(),
             lat: packet.lat_degrees() + packet.lat_hp_degrees(),
-            alt: packet.height_msl() + packet.height_hp_msl(),
+            alt: packet.height_msl() + 1e-3 * packet.height_hp_msl(), // high precision part is in mm
         }
     }
 }
-- 
2.43.0


From 53045ec57a88ce7e20f2d8a8db5ec4057c23702d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:42 +0000
Subject: [PATCH 04/25] fix: PositionECEF from NavHpPosEcef converts
 centimetres to metres

---
 ublox/src/ubx_packets/types.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ublox/src/ubx_packets/types.rs b/ublox/src/ubx_packets/types.rs
index d2ace5b..802c212 100644
--- a/ublox/src/ubx_packets/types.rs
+++ b/ublox/src/ubx_packets/types.rs
@@ -64,9 +64,9 @@ impl<'a> From<&NavHpPosLlhRef<'a>> for Position {
 impl<'a> From<&NavHpPosEcefRef<'a>> for PositionECEF {
     fn from(packet: &NavHpPosEcefRef<'a>) -> Self {
         PositionECEF {
-            x: 10e-2 * (packet.ecef_x_cm() + 0.1 * packet.ecef_x_hp_mm()),
-            y: 10e-2 * (packet.ecef_y_cm() + 0.1 * packet.ecef_y_hp_mm()),
-            z: 10e-2 * (packet.ecef_z_cm() + 0.1 * packet.ecef_z_hp_mm()),
+            x: 1e-2 * (packet.ecef_x_cm() + 0.1 * packet.ecef_x_hp_mm()),
+            y: 1e-2 * (packet.ecef_y_cm() + 0.1 * packet.ecef_y_hp_mm()),
+            z: 1e-2 * (packet.ecef_z_cm() + 0.1 * packet.ecef_z_hp_mm()),
         }
     }
 }
-- 
2.43.0


From 2adb2dcaadeab49ac2cfdf98feba3b046e2c856f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:42 +0000
Subject: [PATCH 05/25] fix: CfgItfm words decode each sub-field from its own
 bits

---
 ublox/src/ubx_packets/packets.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/ublox/src/ubx_packets/packets.rs b/ublox/src/ubx_packets/packets.rs
index 2ca53d7..4bf61a5 100644
--- a/ublox/src/ubx_packets/packets.rs
+++ b/ublox/src/ubx_packets/packets.rs
@@ -905,9 +905,14 @@ impl CfgItfmConfig {
 impl From<u32> for CfgItfmConfig {
     fn from(cfg: u32) -> Self {
         let enable = (cfg & 0x80000000) > 0;
-        let bb_threshold = CfgItfmBbThreshold::from(cfg);
-        let cw_threshold = CfgItfmCwThreshold::from(cfg);
-        let algorithm_bits = CfgItfmAlgoBits::from(cfg);
+        let bb_threshold = CfgItfmBbThreshold::from(
+            (cfg >> CfgItfmBbThreshold::POSITION) & CfgItfmBbThreshold::MASK,
+        );
+        let cw_threshold = CfgItfmCwThreshold::from(
+            (cfg >> CfgItfmCwThreshold::POSITION) & CfgItfmCwThreshold::MASK,
+        );
+        let algorithm_bits =
+            CfgItfmAlgoBits::from((cfg >> CfgItfmAlgoBits::POSITION) & CfgItfmAlgoBits::MASK);
         Self {
             enable,
             bb_threshold,
@@ -1024,7 +1029,9 @@ impl CfgItfmConfig2 {
 impl From<u32> for CfgItfmConfig2 {
     fn from(cfg: u32) -> Self {
         let scan_aux_bands = (cfg & 0x4000) > 0;
-        let general = CfgItfmGeneralBits::from(cfg);
+        let general = CfgItfmGeneralBits::from(
+            (cfg >> CfgItfmGeneralBits::POSITION) & CfgItfmGeneralBits::MASK,
+        );
         let antenna = CfgItfmAntennaSettings::from(cfg);
         Self {
             scan_aux_bands,
-- 
2.43.0


From 32387f02a11db8de669ac679e2b423d1c6ec2c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:42 +0000
Subject: [PATCH 06/25] fix: CfgItfmConfig2 encodes the antenna setting in bits
 12..13

---
 ublox/src/ubx_packets/packets.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ublox/src/ubx_packets/packets.rs b/ublox/src/ubx_packets/packets.rs
index 4bf61a5..07d5492 100644
--- a/ublox/src/ubx_packets/packets.rs
+++ b/ublox/src/ubx_packets/packets.rs
@@ -1022,7 +1022,7 @@ impl CfgItfmConfig2 {
     const fn into_raw(self) -> u32 {
         ((self.scan_aux_bands as u32) << 14)
             | self.general.into_raw()
-            | self.antenna.into_raw() as u32
+            | ((self.antenna.into_raw() as u32) << 12)
     }
 }
 
-- 
2.43.0


From 8e48f61ef5cbaf6547635cb76e03456c8c1793f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:42 +0000
Subject: [PATCH 07/25] fix: AidIniBuilder::set_time encodes the month from 1
 and the day (YYMM, DDHHMMSS)

---
 ublox/src/ubx_packets/packets.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ublox/src/ubx_packets/packets.rs b/ublox/src/ubx_packets/packets.rs
index 07d5492..a3fba72 100644
--- a/ublox/src/ubx_packets/packets.rs
+++ b/ublox/src/ubx_packets/packets.rs
@@ -1267,8 +1267,8 @@ impl AidIniBuilder {
                 panic!("AID-INI packet only supports years after 2000");
             },
         } * 100
-            + tm.month0()) as u16;
-        self.tow_or_hms = tm.hour() * 10000 + tm.minute() * 100 + tm.second();
+            + tm.month()) as u16;
+        self.tow_or_hms = tm.day() * 1000000 + tm.hour() * 10000 + tm.minute() * 100 + tm.second();
         self.tow_ns = tm.nanosecond() as i32;
         self.flags |= (1 << 1) | (1 << 10);
         self
-- 
2.43.0


From 1a8797c9be087567a37fc43817e334dec0def34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:42 +0000
Subject: [PATCH 08/25] fix: extend_to appends a valid frame to a container
 that is not empty

---
 ublox_derive/src/output.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ublox_derive/src/output.rs b/ublox_derive/src/output.rs
index 7e1ba73..740a619 100644
--- a/ublox_derive/src/output.rs
+++ b/ublox_derive/src/output.rs
@@ -471,6 +471,7 @@ pub fn generate_send_code_for_packet(pack_descr: &PackDesc) -> TokenStream {
               {
                   // TODO: Enable when `extend_one` feature is stable.
                   // out.extend_reserve(6);
+                  let start = out.len();
                   let mut len_bytes = 0;
                   let header = [SYNC_CHAR_1, SYNC_CHAR_2, #main_name::CLASS, #main_name::ID, 0, 0];
                   // TODO: Extend all at once when we bump MSRV
@@ -481,10 +482,10 @@ pub fn generate_send_code_for_packet(pack_descr: &PackDesc) -> TokenStream {
                   #(#extend_fields);*;
 
                   let len_bytes = len_bytes.to_le_bytes();
-                  out[4] = len_bytes[0];
-                  out[5] = len_bytes[1];
+                  out[start + 4] = len_bytes[0];
+                  out[start + 5] = len_bytes[1];
 
-                  let (ck_a, ck_b) = ubx_checksum(&out[2..]);
+                  let (ck_a, ck_b) = ubx_checksum(&out[start + 2..]);
                   out.extend(core::iter::once(ck_a));
                   out.extend(core::iter::once(ck_b));
               }
-- 
2.43.0


From bb521f3218f757a642dd8979486e169e1f7bcb7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:41 +0000
Subject: [PATCH 09/25] fix: FixedLinearBuffer refuses an index beyond the
 stored bytes

---
 ublox/src/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ublox/src/parser.rs b/ublox/src/parser.rs
index 051daca..b2d5d84 100644
--- a/ublox/src/parser.rs
+++ b/ublox/src/parser.rs
@@ -108,6 +108,9 @@ impl<'a> core::ops::Index<usize> for FixedLinearBuffer<'a> {
     type Output = u8;
 
     fn index(&self, index: usize) -> &Self::Output {
+        if index >= self.len {
+            panic!("Index {} is outside of our length {}", index, self.len);
+        }
         &self.buffer[index]
     }
 }
-- 
2.43.0


From 1044a72b072eccd54260221fc842a3f4a0c996a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:31 +0000
Subject: [PATCH 10/25] fix: ublox-cli --parity odd and even are no longer
 swapped

---
 examples/ublox-cli/src/main.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/examples/ublox-cli/src/main.rs b/examples/ublox-cli/src/main.rs
index 4e33549..a80007c 100644
--- a/examples/ublox-cli/src/main.rs
+++ b/examples/ublox-cli/src/main.rs
@@ -175,8 +175,8 @@ Configuration includes: protocol in/out, data-bits, stop-bits, parity, baud-rate
     };
 
     let parity = match matches.get_one::<String>("parity").map(|s| s.as_str()) {
-        Some("odd") => SerialParity::Even,
-        Some("even") => SerialParity::Odd,
+        Some("odd") => SerialParity::Odd,
+        Some("even") => SerialParity::Even,
         _ => SerialParity::None,
     };
 
@@ -227,8 +227,8 @@ Configuration includes: protocol in/out, data-bits, stop-bits, parity, baud-rate
         };
 
         let parity = match sub_matches.get_one::<String>("parity").map(|s| s.as_str()) {
-            Some("odd") => SerialParity::Even,
-            Some("even") => SerialParity::Odd,
+            Some("odd") => SerialParity::Odd,
+            Some("even") => SerialParity::Even,
             _ => SerialParity::None,
         };
         let inproto = match (
-- 
2.43.0


From 2e0b99badaee36bab9bbc8530c0139d28a5fecc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:31 +0000
Subject: [PATCH 11/25] fix: ublox-cli configure reads its own --baud argument

---
 examples/ublox-cli/src/main.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/examples/ublox-cli/src/main.rs b/examples/ublox-cli/src/main.rs
index a80007c..a56ede1 100644
--- a/examples/ublox-cli/src/main.rs
+++ b/examples/ublox-cli/src/main.rs
@@ -204,7 +204,10 @@ Configuration includes: protocol in/out, data-bits, stop-bits, parity, baud-rate
             _ => (None, ""),
         };
 
-        let baud = sub_matches.get_one::<u32>("baud").cloned().unwrap_or(9600);
+        let baud = sub_matches
+            .get_one::<u32>("cfg-baud")
+            .cloned()
+            .unwrap_or(9600);
 
         let stop_bits = match sub_matches
             .get_one::<String>("stop-bits")
-- 
2.43.0


From 84f98fd872bdd14763e3e11ac36e2c980a35f1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:58 +0000
Subject: [PATCH 12/25] Revert "fix: ublox-cli configure reads its own --baud
 argument"

This reverts commit 2e0b99badaee36bab9bbc8530c0139d28a5fecc7.
---
 examples/ublox-cli/src/main.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/examples/ublox-cli/src/main.rs b/examples/ublox-cli/src/main.rs
index a56ede1..a80007c 100644
--- a/examples/ublox-cli/src/main.rs
+++ b/examples/ublox-cli/src/main.rs
@@ -204,10 +204,7 @@ Configuration includes: protocol in/out, data-bits, stop-bits, parity, baud-rate
             _ => (None, ""),
         };
 
-        let baud = sub_matches
-            .get_one::<u32>("cfg-baud")
-            .cloned()
-            .unwrap_or(9600);
+        let baud = sub_matches.get_one::<u32>("baud").cloned().unwrap_or(9600);
 
         let stop_bits = match sub_matches
             .get_one::<String>("stop-bits")
-- 
2.43.0


From 6b17b38b7762f871458bff0f01aa78000496f804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:58 +0000
Subject: [PATCH 13/25] Revert "fix: ublox-cli --parity odd and even are no
 longer swapped"

This reverts commit 1044a72b072eccd54260221fc842a3f4a0c996a4.
---
 examples/ublox-cli/src/main.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/examples/ublox-cli/src/main.rs b/examples/ublox-cli/src/main.rs
index a80007c..4e33549 100644
--- a/examples/ublox-cli/src/main.rs
+++ b/examples/ublox-cli/src/main.rs
@@ -175,8 +175,8 @@ Configuration includes: protocol in/out, data-bits, stop-bits, parity, baud-rate
     };
 
     let parity = match matches.get_one::<String>("parity").map(|s| s.as_str()) {
-        Some("odd") => SerialParity::Odd,
-        Some("even") => SerialParity::Even,
+        Some("odd") => SerialParity::Even,
+        Some("even") => SerialParity::Odd,
         _ => SerialParity::None,
     };
 
@@ -227,8 +227,8 @@ Configuration includes: protocol in/out, data-bits, stop-bits, parity, baud-rate
         };
 
         let parity = match sub_matches.get_one::<String>("parity").map(|s| s.as_str()) {
-            Some("odd") => SerialParity::Odd,
-            Some("even") => SerialParity::Even,
+            Some("odd") => SerialParity::Even,
+            Some("even") => SerialParity::Odd,
             _ => SerialParity::None,
         };
         let inproto = match (
-- 
2.43.0


From deb5d3e5dec651f8ac8a3e198db4f689b70e812c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:47 +0000
Subject: [PATCH 14/25] Hook: module for generated packet descriptions behind
 cfg(ublox_verif)

---
 ublox/src/ubx_packets/packets.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ublox/src/ubx_packets/packets.rs b/ublox/src/ubx_packets/packets.rs
index a3fba72..1bd1135 100644
--- a/ublox/src/ubx_packets/packets.rs
+++ b/ublox/src/ubx_packets/packets.rs
@@ -3725,6 +3725,15 @@ define_recv_packets!(
     }
 );
 
+/// Place for generated packet descriptions while the macros are being verified.
+/// Exists only when built with `--cfg ublox_verif`.
+#[cfg(ublox_verif)]
+#[allow(missing_docs, clippy::all)]
+pub mod verif {
+    use super::*;
+    include!(env!("UBLOX_VERIF_GEN"));
+}
+
 #[test]
 fn test_mon_ver_interpret() {
     let payload: [u8; 160] = [
-- 
2.43.0


From 273a668615cde993eb12b0d04ae9f9c27103d9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:28 +0000
Subject: [PATCH 15/25] fix: a second attribute on a packet field is always an
 error

The check looked only for map_type, scale and alias, so a first attribute
with only may_fail, from, is_valid, into, size_fn or get_as_ref was
silently dropped when a second one followed.
---
 ublox_derive/src/input.rs | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/ublox_derive/src/input.rs b/ublox_derive/src/input.rs
index 28df6cb..f47964a 100644
--- a/ublox_derive/src/input.rs
+++ b/ublox_derive/src/input.rs
@@ -406,18 +406,19 @@ fn parse_fields(fields: Fields) -> syn::Result<Vec<PackField>> {
 
         let name = name.ok_or_else(|| Error::new(f_sp, "No field name"))?;
         let comment = extract_item_comment(&attrs)?;
-        let mut map = PackFieldMap::default();
+        let mut map: Option<PackFieldMap> = None;
         for a in attrs {
             if !a.path.is_ident("doc") {
-                if !map.is_none() {
+                if map.is_some() {
                     return Err(Error::new(
                         a.span(),
                         "Two map attributes for the same field",
                     ));
                 }
-                map = a.parse_args::<PackFieldMap>()?;
+                map = Some(a.parse_args::<PackFieldMap>()?);
             }
         }
+        let map = map.unwrap_or_default();
 
         if let Some(ref map_ty) = map.map_type {
             if map_ty.ty == ty {
@@ -464,12 +465,6 @@ pub struct PackFieldMap {
     pub get_as_ref: bool,
 }
 
-impl PackFieldMap {
-    fn is_none(&self) -> bool {
-        self.map_type.is_none() && self.scale.is_none() && self.alias.is_none()
-    }
-}
-
 pub struct MapType {
     pub ty: Type,
     pub from_fn: Option<TokenStream>,
-- 
2.43.0


From 5156ec575fc067221c1d557b543a9988bc3f0305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:28 +0000
Subject: [PATCH 16/25] fix: a second ubx attribute on a packet, enum or
 bitflags is an error

Only the first one was used, the others were silently ignored.
---
 ublox_derive/src/input.rs | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/ublox_derive/src/input.rs b/ublox_derive/src/input.rs
index f47964a..1abb2d1 100644
--- a/ublox_derive/src/input.rs
+++ b/ublox_derive/src/input.rs
@@ -193,6 +193,16 @@ pub fn parse_idents_list(input: proc_macro2::TokenStream) -> syn::Result<RecvPac
     syn::parse2(input)
 }
 
+/// Finds the only ubx attribute of the item, if any
+fn find_ubx_attr(attrs: &[Attribute]) -> syn::Result<Option<&Attribute>> {
+    let mut ubx_attrs = attrs.iter().filter(|a| a.path.is_ident("ubx"));
+    let attr = ubx_attrs.next();
+    match ubx_attrs.next() {
+        Some(dup) => Err(Error::new(dup.span(), "Duplicate ubx attribute")),
+        None => Ok(attr),
+    }
+}
+
 fn parse_ubx_extend_attrs(
     ubx_extend_name: &str,
     item_sp: Span,
@@ -202,9 +212,7 @@ fn parse_ubx_extend_attrs(
     Option<UbxTypeIntoFn>,
     Option<UbxEnumRestHandling>,
 )> {
-    let attr = attrs
-        .iter()
-        .find(|a| a.path.is_ident("ubx"))
+    let attr = find_ubx_attr(attrs)?
         .ok_or_else(|| Error::new(item_sp, format!("No ubx attribute for {}", ubx_extend_name)))?;
     let meta = attr.parse_meta()?;
     let mut from_fn = None;
@@ -258,15 +266,12 @@ fn parse_ubx_extend_attrs(
 }
 
 fn parse_ubx_attr(attrs: &[Attribute], struct_name: &Ident) -> syn::Result<PackHeader> {
-    let attr = attrs
-        .iter()
-        .find(|a| a.path.is_ident("ubx"))
-        .ok_or_else(|| {
-            Error::new(
-                struct_name.span(),
-                format!("No ubx attribute for struct {}", struct_name),
-            )
-        })?;
+    let attr = find_ubx_attr(attrs)?.ok_or_else(|| {
+        Error::new(
+            struct_name.span(),
+            format!("No ubx attribute for struct {}", struct_name),
+        )
+    })?;
     let meta = attr.parse_meta()?;
     let meta = match meta {
         syn::Meta::List(x) => x,
-- 
2.43.0


From 9ef55f0ae289ad94fe0a39ef1807a37b59b397f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:28 +0000
Subject: [PATCH 17/25] fix: an option given twice for a packet field is an
 error

The last one won silently.
---
 ublox_derive/src/input.rs | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/ublox_derive/src/input.rs b/ublox_derive/src/input.rs
index 1abb2d1..2a48cbb 100644
--- a/ublox_derive/src/input.rs
+++ b/ublox_derive/src/input.rs
@@ -486,43 +486,46 @@ impl Parse for PackFieldMap {
         let mut custom_into_fn: Option<syn::Expr> = None;
         let mut custom_is_valid_fn: Option<syn::Path> = None;
         let mut custom_size_fn: Option<syn::Path> = None;
+        let mut may_fail = None;
+        let mut get_as_ref = None;
         while !input.is_empty() {
+            let sp = input.span();
             let lookahead = input.lookahead1();
 
             if lookahead.peek(kw::map_type) {
                 input.parse::<kw::map_type>()?;
                 input.parse::<Token![=]>()?;
-                map_ty = Some(input.parse()?);
+                set_once(&mut map_ty, input.parse()?, sp)?;
             } else if lookahead.peek(kw::scale) {
                 input.parse::<kw::scale>()?;
                 input.parse::<Token![=]>()?;
-                map.scale = Some(input.parse()?);
+                set_once(&mut map.scale, input.parse()?, sp)?;
             } else if lookahead.peek(kw::alias) {
                 input.parse::<kw::alias>()?;
                 input.parse::<Token![=]>()?;
-                map.alias = Some(input.parse()?);
+                set_once(&mut map.alias, input.parse()?, sp)?;
             } else if lookahead.peek(kw::may_fail) {
                 input.parse::<kw::may_fail>()?;
-                map.convert_may_fail = true;
+                set_once(&mut may_fail, (), sp)?;
             } else if lookahead.peek(kw::from) {
                 input.parse::<kw::from>()?;
                 input.parse::<Token![=]>()?;
-                custom_from_fn = Some(input.parse()?);
+                set_once(&mut custom_from_fn, input.parse()?, sp)?;
             } else if lookahead.peek(kw::is_valid) {
                 input.parse::<kw::is_valid>()?;
                 input.parse::<Token![=]>()?;
-                custom_is_valid_fn = Some(input.parse()?);
+                set_once(&mut custom_is_valid_fn, input.parse()?, sp)?;
             } else if lookahead.peek(kw::size_fn) {
                 input.parse::<kw::size_fn>()?;
                 input.parse::<Token![=]>()?;
-                custom_size_fn = Some(input.parse()?);
+                set_once(&mut custom_size_fn, input.parse()?, sp)?;
             } else if lookahead.peek(kw::get_as_ref) {
                 input.parse::<kw::get_as_ref>()?;
-                map.get_as_ref = true;
+                set_once(&mut get_as_ref, (), sp)?;
             } else if lookahead.peek(kw::into) {
                 input.parse::<kw::into>()?;
                 input.parse::<Token![=]>()?;
-                custom_into_fn = Some(input.parse()?);
+                set_once(&mut custom_into_fn, input.parse()?, sp)?;
             } else {
                 return Err(lookahead.error());
             }
@@ -532,6 +535,9 @@ impl Parse for PackFieldMap {
             }
         }
 
+        map.convert_may_fail = may_fail.is_some();
+        map.get_as_ref = get_as_ref.is_some();
+
         if let Some(map_ty) = map_ty {
             map.map_type = Some(MapType {
                 ty: map_ty,
@@ -546,6 +552,15 @@ impl Parse for PackFieldMap {
     }
 }
 
+/// Stores an option, which may be given only once
+fn set_once<T>(slot: &mut Option<T>, value: T, sp: Span) -> syn::Result<()> {
+    if slot.is_some() {
+        return Err(Error::new(sp, "Duplicate option"));
+    }
+    *slot = Some(value);
+    Ok(())
+}
+
 struct Comment(String);
 
 impl Parse for Comment {
-- 
2.43.0


From f73a7bf0b85fb1c7ad60a935fd1422eab64b826a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:28 +0000
Subject: [PATCH 18/25] fix: from and from_unchecked can not both be asked for

The last one won silently.
---
 ublox_derive/src/input.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ublox_derive/src/input.rs b/ublox_derive/src/input.rs
index 2a48cbb..2a20c90 100644
--- a/ublox_derive/src/input.rs
+++ b/ublox_derive/src/input.rs
@@ -224,11 +224,11 @@ fn parse_ubx_extend_attrs(
             for item in list.nested {
                 if let syn::NestedMeta::Meta(syn::Meta::Path(p)) = item {
                     if p.is_ident("from") {
-                        from_fn = Some(UbxTypeFromFn::From);
+                        set_once(&mut from_fn, UbxTypeFromFn::From, p.span())?;
                     } else if p.is_ident("into_raw") {
-                        into_fn = Some(UbxTypeIntoFn::Raw);
+                        set_once(&mut into_fn, UbxTypeIntoFn::Raw, p.span())?;
                     } else if p.is_ident("from_unchecked") {
-                        from_fn = Some(UbxTypeFromFn::FromUnchecked);
+                        set_once(&mut from_fn, UbxTypeFromFn::FromUnchecked, p.span())?;
                     } else if p.is_ident("rest_reserved") || p.is_ident("rest_error") {
                         if rest_handling.is_some() {
                             return Err(Error::new(
-- 
2.43.0


From 657f684ea5de0047e76393b0c4d21bfa626feb9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:28 +0000
Subject: [PATCH 19/25] fix: conversion options of a packet field require
 map_type

Without it may_fail, from, is_valid, into and size_fn were silently
ignored, so for example a field marked may_fail was never checked.
---
 ublox_derive/src/input.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ublox_derive/src/input.rs b/ublox_derive/src/input.rs
index 2a20c90..f040eb2 100644
--- a/ublox_derive/src/input.rs
+++ b/ublox_derive/src/input.rs
@@ -546,6 +546,13 @@ impl Parse for PackFieldMap {
                 into_fn: custom_into_fn.map(ToTokens::into_token_stream),
                 size_fn: custom_size_fn.map(ToTokens::into_token_stream),
             });
+        } else if map.convert_may_fail
+            || custom_from_fn.is_some()
+            || custom_is_valid_fn.is_some()
+            || custom_into_fn.is_some()
+            || custom_size_fn.is_some()
+        {
+            return Err(input.error("This conversion option requires map_type"));
         }
 
         Ok(map)
-- 
2.43.0


From 5f81cda50e73dbdbfa4a5ca5507d8f18264798ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:28 +0000
Subject: [PATCH 20/25] fix: max_payload_len smaller than the fixed part of the
 packet is an error

---
 ublox_derive/src/input.rs | 23 ++++++++++++++++++-----
 ublox_derive/src/types.rs |  9 +++++++++
 2 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/ublox_derive/src/input.rs b/ublox_derive/src/input.rs
index f040eb2..887c956 100644
--- a/ublox_derive/src/input.rs
+++ b/ublox_derive/src/input.rs
@@ -44,18 +44,31 @@ pub fn parse_packet_description(
         fields,
     };
 
-    if ret.header.payload_len.fixed().map(usize::from) == ret.packet_payload_size() {
-        Ok(ret)
-    } else {
-        Err(Error::new(
+    if ret.header.payload_len.fixed().map(usize::from) != ret.packet_payload_size() {
+        return Err(Error::new(
             main_sp,
             format!(
                 "Calculated packet size ({:?}) doesn't match specified ({:?})",
                 ret.packet_payload_size(),
                 ret.header.payload_len
             ),
-        ))
+        ));
+    }
+
+    if let PayloadLen::Max(max) = ret.header.payload_len {
+        let fixed_part = ret.packet_payload_fixed_part();
+        if fixed_part > usize::from(max) {
+            return Err(Error::new(
+                main_sp,
+                format!(
+                    "Fields of fixed size take {} bytes, more than max_payload_len {}",
+                    fixed_part, max
+                ),
+            ));
+        }
     }
+
+    Ok(ret)
 }
 
 pub fn parse_ubx_enum_type(
diff --git a/ublox_derive/src/types.rs b/ublox_derive/src/types.rs
index 777fdcd..6d32c5b 100644
--- a/ublox_derive/src/types.rs
+++ b/ublox_derive/src/types.rs
@@ -24,6 +24,15 @@ impl PackDesc {
         PackDesc::fields_size(self.fields.iter().filter(|f| f.size_fn().is_none()))
     }
 
+    /// size of all fields of fixed size
+    pub fn packet_payload_fixed_part(&self) -> usize {
+        self.fields
+            .iter()
+            .filter_map(|f| f.size_bytes)
+            .map(NonZeroUsize::get)
+            .sum()
+    }
+
     fn fields_size<'a, I: Iterator<Item = &'a PackField>>(iter: I) -> Option<usize> {
         let mut ret: usize = 0;
         for f in iter {
-- 
2.43.0


From e31c35c85e955f0ec95de37b7aaef6a9b9548c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:28 +0000
Subject: [PATCH 21/25] fix: size_fn is for trailing fields without fixed size
 only

A field of fixed place after one with size_fn was read from the wrong
bytes, and the size of a sized field with size_fn was not counted, so
its getter could panic.
---
 ublox_derive/src/input.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/ublox_derive/src/input.rs b/ublox_derive/src/input.rs
index 887c956..c450875 100644
--- a/ublox_derive/src/input.rs
+++ b/ublox_derive/src/input.rs
@@ -37,6 +37,27 @@ pub fn parse_packet_description(
         ));
     }
 
+    if let Some(field) = fields
+        .iter()
+        .find(|f| f.size_bytes.is_some() && f.size_fn().is_some())
+    {
+        return Err(Error::new(
+            field.name.span(),
+            "size_fn is only for fields without fixed size",
+        ));
+    }
+
+    if let Some(field) = fields
+        .iter()
+        .skip_while(|f| f.size_fn().is_none())
+        .find(|f| f.size_fn().is_none())
+    {
+        return Err(Error::new(
+            field.name.span(),
+            "Field after a field with size_fn should also have size_fn",
+        ));
+    }
+
     let ret = PackDesc {
         name,
         header,
-- 
2.43.0


From bbfd4dc40c6ab5067897d0a082c0ddac375958e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:28 +0000
Subject: [PATCH 22/25] fix: a checked field is validated at its own offset

A checked field after one with size_fn was validated from the start of
that first field.
---
 ublox_derive/src/output.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ublox_derive/src/output.rs b/ublox_derive/src/output.rs
index 740a619..9e19e81 100644
--- a/ublox_derive/src/output.rs
+++ b/ublox_derive/src/output.rs
@@ -144,6 +144,7 @@ pub fn generate_recv_code_for_packet(pack_descr: &PackDesc) -> TokenStream {
         } else {
             assert!(field_index == pack_descr.fields.len() - 1 || f.size_fn().is_some());
 
+            let size_fns_before = size_fns.clone();
             let range = if let Some(size_fn) = f.size_fn() {
                 let range = quote! {
                     {
@@ -170,7 +171,7 @@ pub fn generate_recv_code_for_packet(pack_descr: &PackDesc) -> TokenStream {
                 if f.map.convert_may_fail {
                     let is_valid_fn = &out_ty.is_valid_fn;
                     field_validators.push(quote! {
-                        let val = &payload[#off..];
+                        let val = &payload[#off #(+ #ref_name(payload).#size_fns_before())*..];
                         if !#is_valid_fn(val) {
                             return Err(ParserError::InvalidField{
                                 packet: #pack_name,
-- 
2.43.0


From 49455fc67e0a86d1ef94cf53f5b3448b09af2010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:06 +0000
Subject: [PATCH 23/25] fix: is_valid of a packet field requires may_fail

Without it the field was silently never checked.
---
 ublox_derive/src/input.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ublox_derive/src/input.rs b/ublox_derive/src/input.rs
index c450875..3acc7fd 100644
--- a/ublox_derive/src/input.rs
+++ b/ublox_derive/src/input.rs
@@ -572,6 +572,10 @@ impl Parse for PackFieldMap {
         map.convert_may_fail = may_fail.is_some();
         map.get_as_ref = get_as_ref.is_some();
 
+        if custom_is_valid_fn.is_some() && !map.convert_may_fail {
+            return Err(input.error("is_valid requires may_fail"));
+        }
+
         if let Some(map_ty) = map_ty {
             map.map_type = Some(MapType {
                 ty: map_ty,
-- 
2.43.0


From 1a038900ce1eb2b3bf9dcd517d3b9de23d7da188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:00 +0000
Subject: [PATCH 24/25] fix: MgaGpsIono scales the ionospheric parameters

---
 ublox/src/ubx_packets/packets.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/ublox/src/ubx_packets/packets.rs b/ublox/src/ubx_packets/packets.rs
index 1bd1135..820420d 100644
--- a/ublox/src/ubx_packets/packets.rs
+++ b/ublox/src/ubx_packets/packets.rs
@@ -2656,28 +2656,28 @@ struct MgaGpsIono {
     version: u8,
     reserved1: [u8; 2],
     /// Ionospheric parameter alpha0 [s]
-    #[ubx(map_type = f64, scale = 1.0)] // 2^-30
+    #[ubx(map_type = f64, scale = 9.313225746154785e-10)] // 2^-30
     alpha0: i8,
     /// Ionospheric parameter alpha1 [s/semi-circle]
-    #[ubx(map_type = f64, scale = 1.0)] // 2^-27
+    #[ubx(map_type = f64, scale = 7.450580596923828e-9)] // 2^-27
     alpha1: i8,
     /// Ionospheric parameter alpha1 [s/semi-circle^2]
-    #[ubx(map_type = f64, scale = 1.0)] // 2^-24
+    #[ubx(map_type = f64, scale = 5.960464477539063e-8)] // 2^-24
     alpha2: i8,
     /// Ionospheric parameter alpha1 [s/semi-circle^3]
-    #[ubx(map_type = f64, scale = 1.0)] // 2^-24
+    #[ubx(map_type = f64, scale = 5.960464477539063e-8)] // 2^-24
     alpha3: i8,
     /// Ionospheric parameter beta0 [s]
-    #[ubx(map_type = f64, scale = 1.0)] // 2^-11
+    #[ubx(map_type = f64, scale = 2048.0)] // 2^11
     beta0: i8,
     /// Ionospheric parameter beta0 [s/semi-circle]
-    #[ubx(map_type = f64, scale = 1.0)] // 2^-14
+    #[ubx(map_type = f64, scale = 16384.0)] // 2^14
     beta1: i8,
     /// Ionospheric parameter beta0 [s/semi-circle^2]
-    #[ubx(map_type = f64, scale = 1.0)] // 2^-16
+    #[ubx(map_type = f64, scale = 65536.0)] // 2^16
     beta2: i8,
     /// Ionospheric parameter beta0 [s/semi-circle^3]
-    #[ubx(map_type = f64, scale = 1.0)] // 2^-16
+    #[ubx(map_type = f64, scale = 65536.0)] // 2^16
     beta3: i8,
     reserved2: [u8; 4],
 }
-- 
2.43.0


From bc99f0fcd5c946d1ac9cc623eef246911f852c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:53 +0000
Subject: [PATCH 25/25] fix: CfgItfmAntennaSettings reads back its own
 serialization

---
 ublox/src/ubx_packets/packets.rs | 44 +++++++++++++++++++++++++++++++-
 1 file changed, 43 insertions(+), 1 deletion(-)

diff --git a/ublox/src/ubx_packets/packets.rs b/ublox/src/ubx_packets/packets.rs
index 820420d..264d1bf 100644
--- a/ublox/src/ubx_packets/packets.rs
+++ b/ublox/src/ubx_packets/packets.rs
@@ -1073,7 +1073,6 @@ impl From<u32> for CfgItfmGeneralBits {
 #[ubx(from_unchecked, into_raw, rest_error)]
 #[repr(u8)]
 #[derive(Debug, Copy, Clone)]
-#[cfg_attr(feature = "serde", derive(serde::Deserialize))]
 pub enum CfgItfmAntennaSettings {
     /// Type of Antenna is not known
     #[default]
@@ -1084,6 +1083,49 @@ pub enum CfgItfmAntennaSettings {
     Passive = 2,
 }
 
+/// Reads back the number written by `Serialize`, or the name of the setting
+#[cfg(feature = "serde")]
+impl<'de> serde::Deserialize<'de> for CfgItfmAntennaSettings {
+    fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
+    where
+        D: serde::Deserializer<'de>,
+    {
+        struct Visitor;
+
+        impl serde::de::Visitor<'_> for Visitor {
+            type Value = CfgItfmAntennaSettings;
+
+            fn expecting(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+                f.write_str("antenna settings")
+            }
+
+            fn visit_u64<E: serde::de::Error>(self, v: u64) -> Result<Self::Value, E> {
+                match v {
+                    0 => Ok(CfgItfmAntennaSettings::Unknown),
+                    1 => Ok(CfgItfmAntennaSettings::Active),
+                    2 => Ok(CfgItfmAntennaSettings::Passive),
+                    _ => Err(E::invalid_value(serde::de::Unexpected::Unsigned(v), &self)),
+                }
+            }
+
+            fn visit_str<E: serde::de::Error>(self, v: &str) -> Result<Self::Value, E> {
+                match v {
+                    "Unknown" => Ok(CfgItfmAntennaSettings::Unknown),
+                    "Active" => Ok(CfgItfmAntennaSettings::Active),
+                    "Passive" => Ok(CfgItfmAntennaSettings::Passive),
+                    _ => Err(E::unknown_variant(v, &["Unknown", "Active", "Passive"])),
+                }
+            }
+        }
+
+        if deserializer.is_human_readable() {
+            deserializer.deserialize_any(Visitor)
+        } else {
+            deserializer.deserialize_u8(Visitor)
+        }
+    }
+}
+
 impl From<u32> for CfgItfmAntennaSettings {
     fn from(cfg: u32) -> Self {
         let cfg = (cfg & 0x3000) >> 12;
-- 
2.43.0

