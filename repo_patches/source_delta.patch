From 58be568b6b829383c484745382773cb653f66325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:37:46 +0000
Subject: [PATCH 01/49] fix: reject truncated long frames instead of panicking

A frame starting with 68h and only four or five bytes long has no checksum
byte. Validating it underflowed. Report the frame as too short.
---
 crates/wired-mbus-link-layer/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/wired-mbus-link-layer/src/lib.rs b/crates/wired-mbus-link-layer/src/lib.rs
index 8b6743a..674593a 100644
--- a/crates/wired-mbus-link-layer/src/lib.rs
+++ b/crates/wired-mbus-link-layer/src/lib.rs
@@ -127,7 +127,7 @@ impl<'a> TryFrom<&'a [u8]> for WiredFrame<'a> {
 
 fn validate_checksum(data: &[u8]) -> Result<(), FrameError> {
     // Assuming the checksum is the second to last byte in the data array.
-    let checksum_byte_index = data.len() - 2;
+    let checksum_byte_index = data.len().checked_sub(2).ok_or(FrameError::LengthShort)?;
     let checksum_byte = *data
         .get(checksum_byte_index)
         .ok_or(FrameError::LengthShort)?;
-- 
2.43.0


From e787d363eede608077558bdc2e961202c3961442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:37:46 +0000
Subject: [PATCH 02/49] fix: check the second start byte of long frames

Long and control frames repeat the start byte 68h after the two length
bytes. The repetition was never compared, so frames with any fourth byte
were accepted.
---
 crates/wired-mbus-link-layer/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/wired-mbus-link-layer/src/lib.rs b/crates/wired-mbus-link-layer/src/lib.rs
index 674593a..a6e4096 100644
--- a/crates/wired-mbus-link-layer/src/lib.rs
+++ b/crates/wired-mbus-link-layer/src/lib.rs
@@ -85,6 +85,10 @@ impl<'a> TryFrom<&'a [u8]> for WiredFrame<'a> {
             0x68 => {
                 validate_checksum(data.get(4..).ok_or(FrameError::LengthShort)?)?;
 
+                if data.get(3) != Some(&0x68) {
+                    return Err(FrameError::InvalidStartByte);
+                }
+
                 let length = *data.get(1).ok_or(FrameError::LengthShort)? as usize;
 
                 if second_byte != third_byte || data.len() != length + 6 {
-- 
2.43.0


From a1283a6e32da02ba98ae43a7c32ecf00b8a7679f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:37:46 +0000
Subject: [PATCH 03/49] fix: accept the single character only as a one-byte
 frame

Any input starting with E5h was taken for the single character
acknowledgement and the bytes after it were dropped. A wireless frame whose
length field is E5h was decoded as a wired acknowledgement for that reason.
---
 crates/wired-mbus-link-layer/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/wired-mbus-link-layer/src/lib.rs b/crates/wired-mbus-link-layer/src/lib.rs
index a6e4096..2238c8b 100644
--- a/crates/wired-mbus-link-layer/src/lib.rs
+++ b/crates/wired-mbus-link-layer/src/lib.rs
@@ -74,7 +74,7 @@ impl<'a> TryFrom<&'a [u8]> for WiredFrame<'a> {
     fn try_from(data: &'a [u8]) -> Result<Self, FrameError> {
         let first_byte = *data.first().ok_or(FrameError::EmptyData)?;
 
-        if first_byte == 0xE5 {
+        if first_byte == 0xE5 && data.len() == 1 {
             return Ok(WiredFrame::SingleCharacter { character: 0xE5 });
         }
 
-- 
2.43.0


From 9626a8e1a252210be7c8129d554e06b88ba21364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:37:46 +0000
Subject: [PATCH 04/49] fix: report the reserved value information code 7Dh as
 unsupported

The code reached an unreachable! and panicked. Treat it like the other
reserved primary codes, which yield an error.
---
 crates/m-bus-application-layer/src/value_information.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/m-bus-application-layer/src/value_information.rs b/crates/m-bus-application-layer/src/value_information.rs
index 1675d9d..e849144 100644
--- a/crates/m-bus-application-layer/src/value_information.rs
+++ b/crates/m-bus-application-layer/src/value_information.rs
@@ -155,7 +155,7 @@ pub struct ValueInformationFieldExtension {
 impl From<&ValueInformationField> for ValueInformationCoding {
     fn from(value_information: &ValueInformationField) -> Self {
         match value_information.data {
-            0x00..=0x7B | 0x80..=0xFA => Self::Primary,
+            0x00..=0x7B | 0x7D | 0x80..=0xFA => Self::Primary,
             0x7C | 0xFC => Self::PlainText,
             0xFD => Self::MainVIFExtension,
             0xFB => Self::AlternateVIFExtension,
-- 
2.43.0


From 0a2508506db7330d26ae91e1d7448b5296a3a649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:37:46 +0000
Subject: [PATCH 05/49] fix: reject more than ten value information extensions

The length check ran after the push into a fixed-size array, so an eleventh
extension panicked.
---
 crates/m-bus-application-layer/src/value_information.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/crates/m-bus-application-layer/src/value_information.rs b/crates/m-bus-application-layer/src/value_information.rs
index e849144..4f7e6f4 100644
--- a/crates/m-bus-application-layer/src/value_information.rs
+++ b/crates/m-bus-application-layer/src/value_information.rs
@@ -59,14 +59,12 @@ impl TryFrom<&[u8]> for ValueInformationBlock {
                 let vife_data = *data.get(offset).ok_or(DataInformationError::DataTooShort)?;
                 let current_vife = ValueInformationFieldExtension { data: vife_data };
                 let has_extension = current_vife.has_extension();
-                vife.push(current_vife);
+                vife.try_push(current_vife)
+                    .map_err(|_| DataInformationError::InvalidValueInformation)?;
                 offset += 1;
                 if !has_extension {
                     break;
                 }
-                if vife.len() > MAX_VIFE_RECORDS {
-                    return Err(DataInformationError::InvalidValueInformation);
-                }
             }
             if standard_plaintex_vib && vif.value_information_contains_ascii() {
                 plaintext_vife = Some(extract_plaintext_vife(
-- 
2.43.0


From 6af47de35ccc19533c93803b51d61242a4bd1b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:37:46 +0000
Subject: [PATCH 06/49] fix: reject plain text units longer than nine
 characters

The characters are kept in a fixed-size array and a longer text panicked.
---
 crates/m-bus-application-layer/src/value_information.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/m-bus-application-layer/src/value_information.rs b/crates/m-bus-application-layer/src/value_information.rs
index 4f7e6f4..16a75db 100644
--- a/crates/m-bus-application-layer/src/value_information.rs
+++ b/crates/m-bus-application-layer/src/value_information.rs
@@ -89,7 +89,9 @@ fn extract_plaintext_vife(data: &[u8]) -> Result<ArrayVec<char, 9>, DataInformat
         .get(1..=ascii_length)
         .ok_or(DataInformationError::DataTooShort)?
     {
-        ascii.push(*item as char);
+        ascii
+            .try_push(*item as char)
+            .map_err(|_| DataInformationError::DataTooLong)?;
     }
     Ok(ascii)
 }
-- 
2.43.0


From 36975c708def738451d3e98b0afe281e57047bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:37:46 +0000
Subject: [PATCH 07/49] fix: decode a zero-length variable integer as zero

The length byte E0h announces an integer without any data bytes. Looking up
its sign bit underflowed.
---
 crates/m-bus-application-layer/src/data_information.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/m-bus-application-layer/src/data_information.rs b/crates/m-bus-application-layer/src/data_information.rs
index 683e306..6b70dfd 100644
--- a/crates/m-bus-application-layer/src/data_information.rs
+++ b/crates/m-bus-application-layer/src/data_information.rs
@@ -563,8 +563,8 @@ fn integer_to_value_internal(data: &[u8], byte_size: usize) -> Data<'_> {
         shift += 8;
     }
 
-    let msb = (data_value >> (shift - 1)) & 1;
-    let data_value = if byte_size < 8 && msb == 1 {
+    let negative = shift > 0 && (data_value >> (shift - 1)) & 1 == 1;
+    let data_value = if byte_size < 8 && negative {
         -((data_value ^ (2i64.pow(shift) - 1)) + 1)
     } else {
         data_value
-- 
2.43.0


From 6fbd8ea3cc3aeddeb83f8b2576bb6a166ac5d2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:37:46 +0000
Subject: [PATCH 08/49] fix: place storage number bits of the first extension
 directly above the DIF bit

The DIF holds the lowest storage number bit and every extension adds four
more. The extension bits were shifted four positions too far, so storage
number 2 was reported as 32.
---
 crates/m-bus-application-layer/src/data_information.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/m-bus-application-layer/src/data_information.rs b/crates/m-bus-application-layer/src/data_information.rs
index 6b70dfd..94672fe 100644
--- a/crates/m-bus-application-layer/src/data_information.rs
+++ b/crates/m-bus-application-layer/src/data_information.rs
@@ -217,7 +217,7 @@ impl TryFrom<&DataInformationBlock<'_>> for DataInformation {
                     return Err(DataInformationError::DataTooLong);
                 }
                 let dife = dife.data;
-                storage_number += u64::from(dife & 0x0f) << ((extension_index * 4) + 1);
+                storage_number += u64::from(dife & 0x0f) << (((extension_index - 1) * 4) + 1);
                 tariff |= u64::from((dife & 0x30) >> 4) << (tariff_index);
                 tariff_index += 2;
                 device |= u64::from((dife & 0x40) >> 6) << device_index;
-- 
2.43.0


From 114b5d0f0778445a77600dcfa827260b90a7e340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:38:30 +0000
Subject: [PATCH 09/49] fix: report value information with too many units or
 labels as an error

Units and labels are stored in arrays of ten. Long extension chains could
produce more than that and panicked.
---
 .../src/value_information.rs                  | 22 ++++++++++++++-----
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/crates/m-bus-application-layer/src/value_information.rs b/crates/m-bus-application-layer/src/value_information.rs
index 16a75db..8c82a15 100644
--- a/crates/m-bus-application-layer/src/value_information.rs
+++ b/crates/m-bus-application-layer/src/value_information.rs
@@ -5,6 +5,10 @@ use super::data_information::DataInformationError;
 use arrayvec::ArrayVec;
 
 const MAX_VIFE_RECORDS: usize = 10;
+/// A VIF contributes at most two units or labels, each VIFE at most two units
+/// and one label.
+const MAX_COLLECTED_UNITS: usize = 2 + 2 * MAX_VIFE_RECORDS;
+const MAX_COLLECTED_LABELS: usize = 2 + MAX_VIFE_RECORDS;
 
 #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
 #[derive(Debug, PartialEq, Copy, Clone)]
@@ -212,8 +216,8 @@ impl TryFrom<&ValueInformationBlock> for ValueInformation {
     fn try_from(
         value_information_block: &ValueInformationBlock,
     ) -> Result<Self, DataInformationError> {
-        let mut units = ArrayVec::<Unit, 10>::new();
-        let mut labels = ArrayVec::<ValueLabel, 10>::new();
+        let mut units = ArrayVec::<Unit, MAX_COLLECTED_UNITS>::new();
+        let mut labels = ArrayVec::<ValueLabel, MAX_COLLECTED_LABELS>::new();
         let mut decimal_scale_exponent: isize = 0;
         let mut decimal_offset_exponent = 0;
         let vife_slice = match &value_information_block.value_information_extension {
@@ -705,17 +709,23 @@ impl TryFrom<&ValueInformationBlock> for ValueInformation {
 
         Ok(Self {
             decimal_offset_exponent,
-            labels,
+            labels: labels
+                .as_slice()
+                .try_into()
+                .map_err(|_| DataInformationError::DataTooLong)?,
             decimal_scale_exponent,
-            units,
+            units: units
+                .as_slice()
+                .try_into()
+                .map_err(|_| DataInformationError::DataTooLong)?,
         })
     }
 }
 
 fn consume_orthhogonal_vife(
     vife: &[ValueInformationFieldExtension],
-    labels: &mut ArrayVec<ValueLabel, 10>,
-    units: &mut ArrayVec<Unit, 10>,
+    labels: &mut ArrayVec<ValueLabel, MAX_COLLECTED_LABELS>,
+    units: &mut ArrayVec<Unit, MAX_COLLECTED_UNITS>,
     decimal_scale_exponent: &mut isize,
     decimal_offset_exponent: &mut isize,
 ) {
-- 
2.43.0


From 522cee84d098709b35d2b218bfcb6b828a2c292e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:38:30 +0000
Subject: [PATCH 10/49] fix: report energy in MWh with the unit watt hour

The alternate value information codes 00h and 01h (energy, 0.1 MWh and MWh)
were given the unit cubic watt per hour.
---
 crates/m-bus-application-layer/src/value_information.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/m-bus-application-layer/src/value_information.rs b/crates/m-bus-application-layer/src/value_information.rs
index 8c82a15..5a2f5b1 100644
--- a/crates/m-bus-application-layer/src/value_information.rs
+++ b/crates/m-bus-application-layer/src/value_information.rs
@@ -594,8 +594,8 @@ impl TryFrom<&ValueInformationBlock> for ValueInformation {
                     .ok_or(DataInformationError::DataTooShort)?
                     .data;
                 match first_vife_data & 0x7F {
-                    0b0 => populate!(Watt / h, 3, dec: 5, Energy),
-                    0b000_0001 => populate!(Watt / h, 3, dec: 6, Energy),
+                    0b0 => populate!(Watt * h, 1, dec: 5, Energy),
+                    0b000_0001 => populate!(Watt * h, 1, dec: 6, Energy),
                     0b000_0010 => populate!(ReactiveWatt * h, 1, dec: 3, ReactiveEnergy),
                     0b000_0011 => populate!(ReactiveWatt * h, 1, dec: 4, ReactiveEnergy),
                     0b000_0100 => populate!(ApparentWatt * h, 1, dec: 3, ApparentEnergy),
-- 
2.43.0


From 4abf036904d78b92147d8c7b33d0b62c41ceab61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:38:30 +0000
Subject: [PATCH 11/49] fix: report battery operating time code 6Fh in years

---
 crates/m-bus-application-layer/src/value_information.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/m-bus-application-layer/src/value_information.rs b/crates/m-bus-application-layer/src/value_information.rs
index 5a2f5b1..1f7604c 100644
--- a/crates/m-bus-application-layer/src/value_information.rs
+++ b/crates/m-bus-application-layer/src/value_information.rs
@@ -515,7 +515,7 @@ impl TryFrom<&ValueInformationBlock> for ValueInformation {
                         labels.push(ValueLabel::OperatingTimeBattery);
                     }
                     0x6F => {
-                        units.push(unit!(Hour));
+                        units.push(unit!(Year));
                         labels.push(ValueLabel::OperatingTimeBattery);
                     }
                     0x70 => {
-- 
2.43.0


From 6c5987d0ba7cea695b972b1836220d57a826acfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:38:30 +0000
Subject: [PATCH 12/49] fix: treat unit extension 2Ch as per litre

The extension divides by litres like its neighbours divide by cubic metre
and kilogram. It was applied as a multiplication.
---
 crates/m-bus-application-layer/src/value_information.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/m-bus-application-layer/src/value_information.rs b/crates/m-bus-application-layer/src/value_information.rs
index 1f7604c..f05a875 100644
--- a/crates/m-bus-application-layer/src/value_information.rs
+++ b/crates/m-bus-application-layer/src/value_information.rs
@@ -799,7 +799,7 @@ fn consume_orthhogonal_vife(
                     units.push(unit!(Increment));
                     units.push(unit!(OutputPulseOnChannel1 ^ -1));
                 }
-                0x2C => units.push(unit!(Liter)),
+                0x2C => units.push(unit!(Liter ^ -1)),
                 0x2D => units.push(unit!(Meter ^ -3)),
                 0x2E => units.push(unit!(Kilogram ^ -1)),
                 0x2F => units.push(unit!(Kelvin ^ -1)),
-- 
2.43.0


From a0c6ab6da10110fa02459e8764a960cc9540140e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:38:30 +0000
Subject: [PATCH 13/49] fix: assign the first/last begin/end date extensions as
 coded

In extension E110 1f1b bit 0 selects begin or end and bit 2 selects first or
last. Three of the four codes had each other's labels.
---
 crates/m-bus-application-layer/src/value_information.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/m-bus-application-layer/src/value_information.rs b/crates/m-bus-application-layer/src/value_information.rs
index f05a875..4273698 100644
--- a/crates/m-bus-application-layer/src/value_information.rs
+++ b/crates/m-bus-application-layer/src/value_information.rs
@@ -958,9 +958,9 @@ fn consume_orthhogonal_vife(
                 0x69 => labels.push(ValueLabel::LeakageValues),
                 0x6D => labels.push(ValueLabel::OverflowValues),
                 0x6A => labels.push(ValueLabel::DateOfBeginFirst),
-                0x6B => labels.push(ValueLabel::DateOfBeginLast),
-                0x6E => labels.push(ValueLabel::DateOfEndLast),
-                0x6F => labels.push(ValueLabel::DateOfEndFirst),
+                0x6B => labels.push(ValueLabel::DateOfEndFirst),
+                0x6E => labels.push(ValueLabel::DateOfBeginLast),
+                0x6F => labels.push(ValueLabel::DateOfEndLast),
                 0x70..=0x77 => {
                     *decimal_scale_exponent += (v.data & 0b111) as isize - 6;
                 }
-- 
2.43.0


From 28a484bb4d3527b598bc867a147fdfc493a4cff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:38:30 +0000
Subject: [PATCH 14/49] fix: report the time unit of averaging and actuality
 durations

The two low bits of value information codes 70h to 77h select seconds,
minutes, hours or days. They were ignored, leaving the value without unit.
---
 .../src/value_information.rs                   | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/crates/m-bus-application-layer/src/value_information.rs b/crates/m-bus-application-layer/src/value_information.rs
index 4273698..98ae902 100644
--- a/crates/m-bus-application-layer/src/value_information.rs
+++ b/crates/m-bus-application-layer/src/value_information.rs
@@ -346,8 +346,22 @@ impl TryFrom<&ValueInformationBlock> for ValueInformation {
                     0x6C => labels.push(ValueLabel::Date),
                     0x6D => labels.push(ValueLabel::DateTime),
                     0x6E => labels.push(ValueLabel::DimensionlessHCA),
-                    0x70..=0x73 => labels.push(ValueLabel::AveragingDuration),
-                    0x74..=0x77 => labels.push(ValueLabel::ActualityDuration),
+                    0x70..=0x77 => {
+                        labels.push(
+                            if value_information_block.value_information.data & 0x04 == 0 {
+                                ValueLabel::AveragingDuration
+                            } else {
+                                ValueLabel::ActualityDuration
+                            },
+                        );
+                        match value_information_block.value_information.data & 0x03 {
+                            0x00 => units.push(unit!(Second)),
+                            0x01 => units.push(unit!(Minute)),
+                            0x02 => units.push(unit!(Hour)),
+                            0x03 => units.push(unit!(Day)),
+                            _ => unreachable!(),
+                        }
+                    }
                     0x78 => labels.push(ValueLabel::FabricationNumber),
                     0x79 => labels.push(ValueLabel::EnhancedIdentification),
                     0x7A => labels.push(ValueLabel::Address),
-- 
2.43.0


From 38bb0418524869058a105a86e27dde5cecd0e152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:38:30 +0000
Subject: [PATCH 15/49] fix: do not read a second-level value information code
 twice

After FDh FDh the next byte selects the quantity. It was also interpreted as
a combinable extension, adding an unrelated label.
---
 crates/m-bus-application-layer/src/value_information.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/m-bus-application-layer/src/value_information.rs b/crates/m-bus-application-layer/src/value_information.rs
index 98ae902..2b60956 100644
--- a/crates/m-bus-application-layer/src/value_information.rs
+++ b/crates/m-bus-application-layer/src/value_information.rs
@@ -563,9 +563,11 @@ impl TryFrom<&ValueInformationBlock> for ValueInformation {
                     },
                     _ => labels.push(ValueLabel::Reserved),
                 }
-                // Skip vife_slice[0] — it's the true VIF (already consumed above)
+                // Skip vife_slice[0] — it's the true VIF (already consumed above).
+                // The second-level table consumes one more.
+                let consumed = if first_vife_data & 0x7F == 0x7D { 2 } else { 1 };
                 consume_orthhogonal_vife(
-                    vife_slice.get(1..).unwrap_or(&[]),
+                    vife_slice.get(consumed..).unwrap_or(&[]),
                     &mut labels,
                     &mut units,
                     &mut decimal_scale_exponent,
-- 
2.43.0


From a9dda16bf1afa9a47aeacc3ec7163bdd027ed8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:39:27 +0000
Subject: [PATCH 16/49] fix: read the year of date and time values from the
 date bytes

The year bits of type F and type I values sit next to the day and the month.
They were taken from the minute and hour bytes.
---
 crates/m-bus-application-layer/src/data_information.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/m-bus-application-layer/src/data_information.rs b/crates/m-bus-application-layer/src/data_information.rs
index 94672fe..f698713 100644
--- a/crates/m-bus-application-layer/src/data_information.rs
+++ b/crates/m-bus-application-layer/src/data_information.rs
@@ -799,7 +799,7 @@ impl DataFieldCoding {
                     0
                 );
                 let month = parse_month!(input.get(3).ok_or(DataRecordError::InsufficientData)?);
-                let year = parse_year!(input, 0xF0, 0xE0, 0x7F);
+                let year = parse_year!(input.get(2..).unwrap_or(&[]), 0xF0, 0xE0, 0x7F);
 
                 Ok(Data {
                     value: Some(DataType::DateTime(day, month, year, hour, minutes)),
@@ -863,7 +863,7 @@ impl DataFieldCoding {
                     0
                 );
                 let months = parse_month!(input.get(4).ok_or(DataRecordError::InsufficientData)?);
-                let year = parse_year!(input, 0xF0, 0xE0, 0x7F);
+                let year = parse_year!(input.get(3..).unwrap_or(&[]), 0xF0, 0xE0, 0x7F);
 
                 Ok(Data {
                     value: Some(DataType::DateTimeWithSeconds(
-- 
2.43.0


From 50540366c5da00b7950fb4ec7536220105b65d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:39:27 +0000
Subject: [PATCH 17/49] fix: keep day 31 in date and time values

Day 0 means every day in type F and type I values, as in type G dates. The
code for every day was 31, so the last day of long months was lost.
---
 crates/m-bus-application-layer/src/data_information.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/m-bus-application-layer/src/data_information.rs b/crates/m-bus-application-layer/src/data_information.rs
index f698713..acfc377 100644
--- a/crates/m-bus-application-layer/src/data_information.rs
+++ b/crates/m-bus-application-layer/src/data_information.rs
@@ -795,7 +795,7 @@ impl DataFieldCoding {
                 let day = parse_single_or_every!(
                     input.get(2).ok_or(DataRecordError::InsufficientData)?,
                     0x1F,
-                    0x1F,
+                    0,
                     0
                 );
                 let month = parse_month!(input.get(3).ok_or(DataRecordError::InsufficientData)?);
@@ -859,7 +859,7 @@ impl DataFieldCoding {
                 let days = parse_single_or_every!(
                     input.get(3).ok_or(DataRecordError::InsufficientData)?,
                     0x1F,
-                    0x1F,
+                    0,
                     0
                 );
                 let months = parse_month!(input.get(4).ok_or(DataRecordError::InsufficientData)?);
-- 
2.43.0


From 8039609144200981b05b75c486e21c12cb97f598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:39:27 +0000
Subject: [PATCH 18/49] fix: keep the announced data length of date records

The date labels replaced the data coding whatever its size. A record with a
date label and a data field of another size consumed the wrong number of
bytes and misaligned every record after it. Three-byte fields are times
of type J.
---
 .../src/data_information.rs                    |  2 +-
 .../m-bus-application-layer/src/data_record.rs | 18 +++++++++++-------
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/crates/m-bus-application-layer/src/data_information.rs b/crates/m-bus-application-layer/src/data_information.rs
index acfc377..42bca4e 100644
--- a/crates/m-bus-application-layer/src/data_information.rs
+++ b/crates/m-bus-application-layer/src/data_information.rs
@@ -828,7 +828,7 @@ impl DataFieldCoding {
 
                 Ok(Data {
                     value: Some(DataType::Time(seconds, minutes, hours)),
-                    size: 4,
+                    size: 3,
                 })
             }
             Self::DateTimeTypeI => {
diff --git a/crates/m-bus-application-layer/src/data_record.rs b/crates/m-bus-application-layer/src/data_record.rs
index a450d86..fefd4a5 100644
--- a/crates/m-bus-application-layer/src/data_record.rs
+++ b/crates/m-bus-application-layer/src/data_record.rs
@@ -202,15 +202,19 @@ impl TryFrom<&RawDataRecordHeader<'_>> for ProcessedDataRecordHeader {
             // unfortunately, the data field coding is not always set in the data information block
             // so we must do some additional checks to determine the correct data field coding
 
+            // The data type of a date or time follows from the size of its data
+            // field (EN 13757-3). Sizes without a date type keep the coding of
+            // the DIF so that the record length stays as announced.
             if v.labels.contains(&ValueLabel::Date) {
-                d.data_field_coding = DataFieldCoding::DateTypeG;
+                if d.data_field_coding == DataFieldCoding::Integer16Bit {
+                    d.data_field_coding = DataFieldCoding::DateTypeG;
+                }
             } else if v.labels.contains(&ValueLabel::DateTime) {
-                // VIF 0x6D with a 6-byte data field is a type I date and time
-                // (EN 13757-3), only the 4-byte variant is type F.
-                d.data_field_coding = if d.data_field_coding == DataFieldCoding::Integer48Bit {
-                    DataFieldCoding::DateTimeTypeI
-                } else {
-                    DataFieldCoding::DateTimeTypeF
+                d.data_field_coding = match d.data_field_coding {
+                    DataFieldCoding::Integer24Bit => DataFieldCoding::DateTimeTypeJ,
+                    DataFieldCoding::Integer32Bit => DataFieldCoding::DateTimeTypeF,
+                    DataFieldCoding::Integer48Bit => DataFieldCoding::DateTimeTypeI,
+                    other => other,
                 };
             } else if v.labels.contains(&ValueLabel::Time) {
                 d.data_field_coding = DataFieldCoding::DateTimeTypeJ;
-- 
2.43.0


From dba6c89944e00ca3aefb70c44cf4c6d75289aa6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:40:26 +0000
Subject: [PATCH 19/49] fix: write decimals without leading zeros

Adding an offset to a scaled zero kept the padding zeros of the
significand, so 0 kWh with an offset of 1 was written as 0001.
---
 src/output.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/output.rs b/src/output.rs
index 9b0fdee..9f038cc 100644
--- a/src/output.rs
+++ b/src/output.rs
@@ -1852,7 +1852,8 @@ fn compare_abs(left: &str, right: &str) -> std::cmp::Ordering {
 
 fn apply_power10(integer: &str, exponent: isize) -> String {
     let (negative, digits) = split_sign(integer);
-    if digits.bytes().all(|digit| digit == b'0') {
+    let digits = digits.trim_start_matches('0');
+    if digits.is_empty() {
         return "0".to_string();
     }
     let mut output = if exponent >= 0 {
-- 
2.43.0


From 3b8ac9b0a1ceff01718cce3e994cf97eab7e7d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:40:26 +0000
Subject: [PATCH 20/49] fix: apply additive corrections only for correction
 extensions

Every extension byte with a code from 78h to 7Bh added an offset to the
value. That included the quantity codes after FBh and FDh, codes of the
extended table after FCh, and manufacturer specific codes.
---
 src/output.rs | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/src/output.rs b/src/output.rs
index 9f038cc..6442b7c 100644
--- a/src/output.rs
+++ b/src/output.rs
@@ -1733,17 +1733,29 @@ fn record_offset_power10(record: &user_data::DataRecord<'_>) -> Option<isize> {
         .raw_data_record_header
         .value_information_block
         .as_ref()?;
-    block
-        .value_information_extension
-        .as_ref()?
-        .iter()
-        .filter_map(|extension| {
-            let code = extension.data & 0x7F;
-            (0x78..=0x7B)
-                .contains(&code)
-                .then(|| isize::from(extension.data & 0b11) - 3)
-        })
-        .next_back()
+    let extensions = block.value_information_extension.as_ref()?;
+    // Extensions which select the quantity of an extended VIF are not corrections.
+    let consumed = match block.value_information.data {
+        0xFD if extensions
+            .first()
+            .is_some_and(|first| first.data & 0x7F == 0x7D) =>
+        {
+            2
+        }
+        0xFB | 0xFD => 1,
+        0xFE | 0xFF => return None,
+        _ => 0,
+    };
+    let mut offset = None;
+    let mut follows_extension_table = false;
+    for extension in extensions.iter().skip(consumed) {
+        let code = extension.data & 0x7F;
+        if !follows_extension_table && (0x78..=0x7B).contains(&code) {
+            offset = Some(isize::from(extension.data & 0b11) - 3);
+        }
+        follows_extension_table = !follows_extension_table && extension.data == 0xFC;
+    }
+    offset
 }
 
 fn scaled_decimal(significand: &str, scale: isize, offset: Option<isize>) -> String {
-- 
2.43.0


From 49ecd3ebf9c7637be8fa918107a0f501bfa3a6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:40:27 +0000
Subject: [PATCH 21/49] fix: write long variable-length BCD values exactly

Sixteen and eighteen digit values went through a float and lost their last
digits.
---
 src/output.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/output.rs b/src/output.rs
index 6442b7c..6c7d400 100644
--- a/src/output.rs
+++ b/src/output.rs
@@ -1665,7 +1665,22 @@ fn exact_significand(record: &user_data::DataRecord<'_>, parsed: f64) -> Option<
 fn exact_variable_significand(data: &[u8], parsed: f64) -> Option<String> {
     let marker = *data.first()?;
     match marker {
-        0xC0..=0xC9 | 0xD0..=0xD9 => Some(format!("{parsed:.0}")),
+        // More digits than a float holds exactly.
+        0xC8..=0xC9 | 0xD8..=0xD9 => {
+            let length = usize::from(marker & 0x0F);
+            let digits: String = data
+                .get(1..=length)?
+                .iter()
+                .rev()
+                .map(|byte| format!("{byte:02X}"))
+                .collect();
+            Some(if marker >= 0xD0 {
+                format!("-{digits}")
+            } else {
+                digits
+            })
+        }
+        0xC0..=0xC7 | 0xD0..=0xD7 => Some(format!("{parsed:.0}")),
         0xE0..=0xEF => {
             let length = usize::from(marker - 0xE0);
             signed_le_decimal(data.get(1..=length)?)
-- 
2.43.0


From 9182a1ee55feca3704cf87d747ac258f4e4605b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:40:27 +0000
Subject: [PATCH 22/49] fix: do not report an unspecified second as zero

A date and time whose second is every second was written as a complete
timestamp ending in :00. Report its components like for the other fields.
---
 src/output.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/output.rs b/src/output.rs
index 6c7d400..da46711 100644
--- a/src/output.rs
+++ b/src/output.rs
@@ -1588,11 +1588,12 @@ fn temporal_iso(
     let year = single(year);
     let hour = hour.and_then(single);
     let minute = minute.and_then(single);
+    let has_second = second.is_some();
     let second = second.and_then(single);
     match kind {
         "date" => Some(format!("{:04}-{:02}-{:02}", year?, month?, day?)),
         "time" => Some(format!("{:02}:{:02}:{:02}", hour?, minute?, second?)),
-        _ if second.is_some() => Some(format!(
+        _ if has_second => Some(format!(
             "{:04}-{:02}-{:02}T{:02}:{:02}:{:02}",
             year?, month?, day?, hour?, minute?, second?
         )),
-- 
2.43.0


From b9386de7f0a53283fadd72815d7c711cbfbbe256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:41:10 +0000
Subject: [PATCH 23/49] fix: count filler bytes in the offset of a record error

The reported offset was the sum of the decoded record lengths. Idle fillers
between records were left out, so the offset pointed before the record that
failed.
---
 crates/m-bus-application-layer/src/lib.rs | 10 +++++++++-
 src/output.rs                             | 12 ++++--------
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/crates/m-bus-application-layer/src/lib.rs b/crates/m-bus-application-layer/src/lib.rs
index 492f789..7fe5d8d 100644
--- a/crates/m-bus-application-layer/src/lib.rs
+++ b/crates/m-bus-application-layer/src/lib.rs
@@ -140,7 +140,8 @@ impl<'a> Iterator for DataRecords<'a> {
                         return Some(Ok(record));
                     }
                     Err(error) => {
-                        self.offset = self.data.len();
+                        // End the iteration at the record which failed.
+                        self.data = self.data.get(..self.offset)?;
                         return Some(Err(error));
                     }
                 }
@@ -159,6 +160,13 @@ impl<'a> DataRecords<'a> {
             long_tpl_header,
         }
     }
+
+    /// Returns the byte offset up to which records were consumed. After an
+    /// error this is the start of the record which could not be parsed.
+    #[must_use]
+    pub const fn position(&self) -> usize {
+        self.offset
+    }
 }
 
 bitflags::bitflags! {
diff --git a/src/output.rs b/src/output.rs
index da46711..ba51148 100644
--- a/src/output.rs
+++ b/src/output.rs
@@ -1256,15 +1256,11 @@ fn collect_records(
         return (Vec::new(), None);
     };
     let mut output = Vec::new();
-    let mut offset = 0usize;
-    for item in records.clone() {
+    let mut records = records.clone();
+    while let Some(item) = records.next() {
         match item {
-            Ok(record) => {
-                let size = record.raw_bytes().len();
-                output.push(record_output(output.len(), &record));
-                offset += size;
-            }
-            Err(error) => return (output, Some((offset, error.to_string()))),
+            Ok(record) => output.push(record_output(output.len(), &record)),
+            Err(error) => return (output, Some((records.position(), error.to_string()))),
         }
     }
     (output, None)
-- 
2.43.0


From 84d4be4b592a4686c93b6764c4b5c4ee7a1a9a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:41:10 +0000
Subject: [PATCH 24/49] fix: keep table rows within the requested width

Cells were wrapped by adding up character widths but padded by the width of
the text. Control characters and emoji sequences are wider than the sum, so
their rows exceeded the table width.
---
 src/output.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/output.rs b/src/output.rs
index ba51148..55672ec 100644
--- a/src/output.rs
+++ b/src/output.rs
@@ -9,7 +9,7 @@ use std::fmt;
 
 use m_bus_core::SecurityMode;
 use serde::Serialize;
-use unicode_width::{UnicodeWidthChar, UnicodeWidthStr};
+use unicode_width::UnicodeWidthStr;
 use wired_mbus_link_layer as wired;
 use wireless_mbus_link_layer as wireless;
 
@@ -2396,16 +2396,14 @@ fn wrap_display(value: &str, width: usize) -> Vec<String> {
             continue;
         }
         let mut line = String::new();
-        let mut line_width = 0usize;
         for character in source_line.chars() {
-            let character_width = UnicodeWidthChar::width(character).unwrap_or(0);
-            if line_width != 0 && line_width + character_width > width {
-                lines.push(line);
-                line = String::new();
-                line_width = 0;
-            }
+            let line_end = line.len();
             line.push(character);
-            line_width += character_width;
+            // The width of a text is not always the sum of its characters.
+            if line_end != 0 && UnicodeWidthStr::width(line.as_str()) > width {
+                let rest = line.split_off(line_end);
+                lines.push(std::mem::replace(&mut line, rest));
+            }
         }
         lines.push(line);
     }
-- 
2.43.0


From e1f02d74c913e0999c269d88bc7c8452234924b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:45:06 +0000
Subject: [PATCH 25/49] fix: annotate ELL-protected payloads as encrypted

---
 src/annotate.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/annotate.rs b/src/annotate.rs
index 5407076..930531d 100644
--- a/src/annotate.rs
+++ b/src/annotate.rs
@@ -620,7 +620,14 @@ fn annotate_application_layer(
             let remaining = &app_data[total_header..];
             let remaining_base = base + total_header;
             if !remaining.is_empty() {
-                annotate_data_records(segments, remaining_base, remaining);
+                segments.push(ByteSegment {
+                    start: remaining_base,
+                    end: remaining_base + remaining.len(),
+                    kind: SegmentKind::EncryptedPayload,
+                    detail: Cow::Borrowed("Encrypted variable data"),
+                    group: None,
+                    layer: Layer::RecordField,
+                });
             }
         }
 
@@ -661,7 +668,14 @@ fn annotate_application_layer(
             let remaining = &app_data[total_header..];
             let remaining_base = base + total_header;
             if !remaining.is_empty() {
-                annotate_data_records(segments, remaining_base, remaining);
+                segments.push(ByteSegment {
+                    start: remaining_base,
+                    end: remaining_base + remaining.len(),
+                    kind: SegmentKind::EncryptedPayload,
+                    detail: Cow::Borrowed("Encrypted variable data"),
+                    group: None,
+                    layer: Layer::RecordField,
+                });
             }
         }
 
-- 
2.43.0


From ead28815f575055b40f8b459d8b44f48da5b8559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:45:06 +0000
Subject: [PATCH 26/49] fix: count global readout requests in annotation groups

---
 src/annotate.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/annotate.rs b/src/annotate.rs
index 930531d..c385de7 100644
--- a/src/annotate.rs
+++ b/src/annotate.rs
@@ -850,8 +850,22 @@ pub(crate) fn annotate_data_records(segments: &mut Vec<ByteSegment>, base: usize
                     });
                     return;
                 }
+                0x7F => {
+                    // Global readout request - a one-byte record of its own
+                    segments.push(ByteSegment {
+                        start: base + offset,
+                        end: base + offset + 1,
+                        kind: SegmentKind::Unknown,
+                        detail: Cow::Owned(format!("Special DIF: 0x{:02X}", dif_byte)),
+                        group: Some(record_index),
+                        layer: Layer::RecordField,
+                    });
+                    offset += 1;
+                    record_index += 1;
+                    continue;
+                }
                 _ => {
-                    // Other special functions (0x7F etc.)
+                    // Other special functions
                     segments.push(ByteSegment {
                         start: base + offset,
                         end: base + offset + 1,
-- 
2.43.0


From ec73dea4091ff8460c516af2103feb594beca8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:45:06 +0000
Subject: [PATCH 27/49] fix: place decrypted bytes correctly in annotated
 frames with a trailing CRC

---
 src/mbus_data.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mbus_data.rs b/src/mbus_data.rs
index 4a22f16..744cc51 100644
--- a/src/mbus_data.rs
+++ b/src/mbus_data.rs
@@ -1364,11 +1364,13 @@ fn decrypted_wireless_hexview_data(data: &[u8], key: &[u8; 16]) -> Option<Vec<u8
     )?;
 
     let app_data_len = parsed_data.frame.data.len();
-    let app_start = wireless_data.len().checked_sub(app_data_len)?;
+    // Link header: L, C, manufacturer (2), id (4), version, device type
+    let app_start = 10usize;
     let payload_start = app_start + app_data_len.checked_sub(variable_data_len)?;
     let payload_end = payload_start + variable_data_len;
 
-    let mut display_data = wireless_data.to_vec();
+    // A trailing frame CRC does not cover the decrypted bytes, so leave it out
+    let mut display_data = wireless_data.get(..payload_end)?.to_vec();
     let decrypted_data = decrypted_buffer.get(..decrypted_len)?;
     display_data.splice(payload_start..payload_end, decrypted_data.iter().copied());
     if let Some(length) = display_data.len().checked_sub(1) {
-- 
2.43.0


From 7938c63fc00cc06e91c63c71c97865653b45e990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:45:33 +0000
Subject: [PATCH 28/49] fix: annotate the plain text unit before extensions
 when configured

---
 src/annotate.rs | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/src/annotate.rs b/src/annotate.rs
index c385de7..a2af86a 100644
--- a/src/annotate.rs
+++ b/src/annotate.rs
@@ -940,21 +940,23 @@ pub(crate) fn annotate_data_records(segments: &mut Vec<ByteSegment>, base: usize
                     });
                     offset += 1;
 
-                    // VIFE bytes
-                    let vife_count = if let Some(ext) = &vib.value_information_extension {
-                        ext.len()
-                    } else {
-                        0
+                    // VIFE bytes and plaintext VIF; the configuration decides
+                    // which of the two comes first
+                    let vife_count = vib
+                        .value_information_extension
+                        .as_ref()
+                        .map_or(0, |ext| ext.len());
+                    let vife_segment = |offset: usize| ByteSegment {
+                        start: base + offset,
+                        end: base + offset + vife_count,
+                        kind: SegmentKind::Vife,
+                        detail: Cow::Owned(format!("VIFE: {} byte(s)", vife_count)),
+                        group: Some(record_index),
+                        layer: Layer::RecordField,
                     };
-                    if vife_count > 0 {
-                        segments.push(ByteSegment {
-                            start: base + offset,
-                            end: base + offset + vife_count,
-                            kind: SegmentKind::Vife,
-                            detail: Cow::Owned(format!("VIFE: {} byte(s)", vife_count)),
-                            group: Some(record_index),
-                            layer: Layer::RecordField,
-                        });
+                    let plaintext_first = cfg!(feature = "plaintext-before-extension");
+                    if vife_count > 0 && !plaintext_first {
+                        segments.push(vife_segment(offset));
                         offset += vife_count;
                     }
 
@@ -974,6 +976,11 @@ pub(crate) fn annotate_data_records(segments: &mut Vec<ByteSegment>, base: usize
                         });
                         offset += pt_size;
                     }
+
+                    if vife_count > 0 && plaintext_first {
+                        segments.push(vife_segment(offset));
+                        offset += vife_count;
+                    }
                 }
 
                 // Data payload
-- 
2.43.0


From a4da7d2249aea086b4892d1fd8e7c0de83d5ea5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:46:04 +0000
Subject: [PATCH 29/49] fix: report a truncated value information extension
 chain as too short

---
 crates/m-bus-application-layer/src/value_information.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/m-bus-application-layer/src/value_information.rs b/crates/m-bus-application-layer/src/value_information.rs
index 2b60956..41814c0 100644
--- a/crates/m-bus-application-layer/src/value_information.rs
+++ b/crates/m-bus-application-layer/src/value_information.rs
@@ -70,6 +70,9 @@ impl TryFrom<&[u8]> for ValueInformationBlock {
                     break;
                 }
             }
+            if vife.last().map_or(true, |last| last.has_extension()) {
+                return Err(DataInformationError::DataTooShort);
+            }
             if standard_plaintex_vib && vif.value_information_contains_ascii() {
                 plaintext_vife = Some(extract_plaintext_vife(
                     data.get(offset..)
-- 
2.43.0


From 6c25c3f649f53562197dcd7ac157b56b5c72e6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:49:55 +0000
Subject: [PATCH 30/49] fix: reject truncated date and time values with seconds

---
 crates/m-bus-application-layer/src/data_information.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/m-bus-application-layer/src/data_information.rs b/crates/m-bus-application-layer/src/data_information.rs
index 42bca4e..59a987a 100644
--- a/crates/m-bus-application-layer/src/data_information.rs
+++ b/crates/m-bus-application-layer/src/data_information.rs
@@ -836,6 +836,10 @@ impl DataFieldCoding {
                 // however, because this data can be derived from the other data that is
                 // that is extracted, it is not necessary to extract it.
 
+                if input.len() < 6 {
+                    return Err(DataRecordError::InsufficientData);
+                }
+
                 let seconds = parse_single_or_every!(
                     input.first().ok_or(DataRecordError::InsufficientData)?,
                     0x3F,
-- 
2.43.0


From 8bf990791008c9ee3dfd628c4dce74fe838d393d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:51:06 +0000
Subject: [PATCH 31/49] fix: assign data container and transmission period
 codes as coded

---
 .../src/value_information.rs                      | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/crates/m-bus-application-layer/src/value_information.rs b/crates/m-bus-application-layer/src/value_information.rs
index 41814c0..ca7be1d 100644
--- a/crates/m-bus-application-layer/src/value_information.rs
+++ b/crates/m-bus-application-layer/src/value_information.rs
@@ -466,25 +466,24 @@ impl TryFrom<&ValueInformationBlock> for ValueInformation {
                         units.push(unit!(Year));
                         labels.push(ValueLabel::StorageInterval);
                     }
-                    0x30 => labels.push(ValueLabel::DimensionlessHCA),
-                    0x31 => labels.push(ValueLabel::DataContainerForWmbusProtocol),
-                    0x32 => {
+                    0x3A => labels.push(ValueLabel::Dimensionless),
+                    0x3B => labels.push(ValueLabel::DataContainerForWmbusProtocol),
+                    0x3C => {
                         units.push(unit!(Second));
                         labels.push(ValueLabel::PeriodOfNormalDataTransmission);
                     }
-                    0x33 => {
-                        units.push(unit!(Meter));
+                    0x3D => {
+                        units.push(unit!(Minute));
                         labels.push(ValueLabel::PeriodOfNormalDataTransmission);
                     }
-                    0x34 => {
+                    0x3E => {
                         units.push(unit!(Hour));
                         labels.push(ValueLabel::PeriodOfNormalDataTransmission);
                     }
-                    0x35 => {
+                    0x3F => {
                         units.push(unit!(Day));
                         labels.push(ValueLabel::PeriodOfNormalDataTransmission);
                     }
-                    0x3A => labels.push(ValueLabel::Dimensionless),
                     0x40..=0x4F => {
                         units.push(unit!(Volt));
                         labels.push(ValueLabel::Voltage);
-- 
2.43.0


From a89d7ea85e6dce4acfd13fd1b2d9a4e3295006ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:52:23 +0000
Subject: [PATCH 32/49] fix: report battery change and remaining battery life
 with their own units

---
 .../m-bus-application-layer/src/value_information.rs   | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/m-bus-application-layer/src/value_information.rs b/crates/m-bus-application-layer/src/value_information.rs
index ca7be1d..dee3279 100644
--- a/crates/m-bus-application-layer/src/value_information.rs
+++ b/crates/m-bus-application-layer/src/value_information.rs
@@ -534,17 +534,17 @@ impl TryFrom<&ValueInformationBlock> for ValueInformation {
                         units.push(unit!(Year));
                         labels.push(ValueLabel::OperatingTimeBattery);
                     }
-                    0x70 => {
-                        units.push(unit!(Second));
-                        labels.push(ValueLabel::DateAndTimeOfBatteryChange);
-                    }
+                    0x70 => labels.push(ValueLabel::DateAndTimeOfBatteryChange),
                     0x71 => {
                         units.push(unit!(DecibelMilliWatt));
                         labels.push(ValueLabel::RFPowerLevel);
                     }
                     0x72 => labels.push(ValueLabel::DaylightSavingBeginningEndingDeviation),
                     0x73 => labels.push(ValueLabel::ListeningWindowManagementData),
-                    0x74 => labels.push(ValueLabel::RemainingBatteryLifeTime),
+                    0x74 => {
+                        units.push(unit!(Day));
+                        labels.push(ValueLabel::RemainingBatteryLifeTime);
+                    }
                     0x75 => labels.push(ValueLabel::NumberOfTimesTheMeterWasStopped),
                     0x76 => labels.push(ValueLabel::DataContainerForManufacturerSpecificProtocol),
                     0x7D => match second_vife_data.map(|s| s & 0x7F) {
-- 
2.43.0


From d7e585f90c7d21dd7310f7527418bbf593eef97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:08:24 +0000
Subject: [PATCH 33/49] fix: drop the panicking arm that no value information
 code reaches

---
 crates/m-bus-application-layer/src/value_information.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/crates/m-bus-application-layer/src/value_information.rs b/crates/m-bus-application-layer/src/value_information.rs
index dee3279..ba8f663 100644
--- a/crates/m-bus-application-layer/src/value_information.rs
+++ b/crates/m-bus-application-layer/src/value_information.rs
@@ -170,7 +170,6 @@ impl From<&ValueInformationField> for ValueInformationCoding {
             0xFE => Self::ManufacturerSpecific,
             0x7F => Self::ManufacturerSpecific,
             0xFF => Self::ManufacturerSpecific,
-            _ => unreachable!("Invalid value information: {:X}", value_information.data),
         }
     }
 }
-- 
2.43.0


From 9beba62f14de888db6fb90f00428c63deeca2f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:23:00 +0000
Subject: [PATCH 34/49] fix: keep the wireless link identity of fixed data
 structures as alternate identity

---
 src/output.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/output.rs b/src/output.rs
index 55672ec..57e4c04 100644
--- a/src/output.rs
+++ b/src/output.rs
@@ -1139,6 +1139,7 @@ fn meter_and_transport(
             device_type_and_unit,
             ..
         }) => {
+            alternates.extend(link_identity);
             primary = Some(MeterIdentity {
                 source: "application.fixed".to_string(),
                 id: Some(identification_number.to_string()),
-- 
2.43.0


From b5224908270cf05baeee240d779ed1234c3fa9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:27:22 +0000
Subject: [PATCH 35/49] fix: treat ELL protected payloads as encrypted in the
 legacy outputs

---
 src/mbus_data.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/mbus_data.rs b/src/mbus_data.rs
index 744cc51..1e77a4b 100644
--- a/src/mbus_data.rs
+++ b/src/mbus_data.rs
@@ -287,8 +287,15 @@ fn user_data_is_encrypted(user_data: Option<&user_data::UserDataBlock>) -> bool
             long_tpl_header, ..
         }) => long_tpl_header.is_encrypted(),
         Some(UserDataBlock::VariableDataStructureWithShortTplHeader {
-            short_tpl_header, ..
-        }) => short_tpl_header.is_encrypted(),
+            extended_link_layer,
+            short_tpl_header,
+            ..
+        }) => {
+            short_tpl_header.is_encrypted()
+                || extended_link_layer
+                    .as_ref()
+                    .is_some_and(|ell| ell.encryption.is_some())
+        }
         _ => false,
     }
 }
-- 
2.43.0


From 6c879bea862cafb656eaafaa2b0470f565183f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:30:06 +0000
Subject: [PATCH 36/49] fix: leave undecrypted payloads out of the records of
 the legacy outputs

---
 src/mbus_data.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mbus_data.rs b/src/mbus_data.rs
index 1e77a4b..9a0192e 100644
--- a/src/mbus_data.rs
+++ b/src/mbus_data.rs
@@ -575,6 +575,9 @@ fn parse_frame_output(input: &str, key: Option<&[u8; 16]>) -> Option<ParsedOutpu
                 }
             }
         }
+        if encrypted && !decrypted {
+            parsed.data_records = None;
+        }
         let summary = summarize_wired(&parsed, encrypted, decrypted);
         return Some(build_output(&parsed, summary));
     }
@@ -614,6 +617,9 @@ fn parse_frame_output(input: &str, key: Option<&[u8; 16]>) -> Option<ParsedOutpu
                 }
             }
         }
+        if encrypted && !decrypted {
+            parsed.data_records = None;
+        }
         let summary = summarize_wireless(&parsed, encrypted, decrypted);
         return Some(build_output(&parsed, summary));
     }
-- 
2.43.0


From deb32f62f8b96d64bfc04a5d9762faf4b297f798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:35:57 +0000
Subject: [PATCH 37/49] fix: keep noncharacters out of the XML output

---
 src/rscada_xml.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rscada_xml.rs b/src/rscada_xml.rs
index f015f87..fc4836f 100644
--- a/src/rscada_xml.rs
+++ b/src/rscada_xml.rs
@@ -1131,7 +1131,7 @@ fn product_name(manufacturer: &str, version: u8, medium: u8, id: u32) -> String
 fn xml_encode(text: &str) -> String {
     let mut out = String::with_capacity(text.len());
     for c in text.chars() {
-        if c.is_ascii_control() {
+        if c.is_ascii_control() || matches!(c, '\u{FFFE}' | '\u{FFFF}') {
             out.push(' ');
         } else {
             match c {
-- 
2.43.0


From c0456346476f95800356fb5b3691f81bd8fb05f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:36:23 +0000
Subject: [PATCH 38/49] fix: read XML text values that are not UTF-8 as Latin-1

---
 src/rscada_xml.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rscada_xml.rs b/src/rscada_xml.rs
index fc4836f..85c41b2 100644
--- a/src/rscada_xml.rs
+++ b/src/rscada_xml.rs
@@ -644,7 +644,9 @@ fn bcd_decode(bytes: &[u8]) -> f64 {
 /// Reversed ASCII string decode (`mbus_data_str_decode`).
 fn str_decode(bytes: &[u8]) -> String {
     let reversed: Vec<u8> = bytes.iter().rev().copied().collect();
-    String::from_utf8_lossy(&reversed).into_owned()
+    // Bytes that are not UTF-8 are Latin-1, like the declared encoding.
+    String::from_utf8(reversed)
+        .unwrap_or_else(|error| error.into_bytes().into_iter().map(char::from).collect())
 }
 
 /// Space-separated hex dump (`mbus_data_bin_decode`).
-- 
2.43.0


From 847dad987a0171962822b12fc32349f360c7ac66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:36:29 +0000
Subject: [PATCH 39/49] fix: keep carriage returns out of Mermaid labels

---
 src/output.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/output.rs b/src/output.rs
index 57e4c04..9a956de 100644
--- a/src/output.rs
+++ b/src/output.rs
@@ -2596,7 +2596,7 @@ fn mermaid_escape(value: &str) -> String {
         .replace('"', "&quot;")
         .replace('<', "&lt;")
         .replace('>', "&gt;")
-        .replace('\n', " ")
+        .replace(['\n', '\r'], " ")
 }
 
 fn hex_string(data: &[u8]) -> String {
-- 
2.43.0


From 0dab8cd926b63615d6413a0e53c8ab45d11101b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:15:02 +0000
Subject: [PATCH 40/49] fix: expose no records of a payload encrypted by the
 extended link layer

---
 crates/m-bus-application-layer/src/lib.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/m-bus-application-layer/src/lib.rs b/crates/m-bus-application-layer/src/lib.rs
index 7fe5d8d..e93f04a 100644
--- a/crates/m-bus-application-layer/src/lib.rs
+++ b/crates/m-bus-application-layer/src/lib.rs
@@ -589,10 +589,16 @@ impl<'a> UserDataBlock<'a> {
                 long_tpl_header,
             )),
             Self::VariableDataStructureWithShortTplHeader {
+                extended_link_layer,
                 short_tpl_header,
                 variable_data_block,
-                ..
-            } if !short_tpl_header.is_encrypted() => Some(parse_data_records(variable_data_block)),
+            } if !short_tpl_header.is_encrypted()
+                && !extended_link_layer
+                    .as_ref()
+                    .is_some_and(|ell| ell.encryption.is_some()) =>
+            {
+                Some(parse_data_records(variable_data_block))
+            }
             Self::VariableDataStructureWithoutTplHeader {
                 variable_data_block,
                 ..
-- 
2.43.0


From d9e5b93482ad9ab2f4f241b81ccfb138809647a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:33:22 +0000
Subject: [PATCH 41/49] fix: use all bytes of integers wider than eight bytes

---
 .../src/data_information.rs                   | 28 ++++++++++++++-----
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/crates/m-bus-application-layer/src/data_information.rs b/crates/m-bus-application-layer/src/data_information.rs
index 59a987a..237f776 100644
--- a/crates/m-bus-application-layer/src/data_information.rs
+++ b/crates/m-bus-application-layer/src/data_information.rs
@@ -555,10 +555,29 @@ fn bcd_to_value_internal(
     })
 }
 
+fn wide_integer_to_value_internal(data: &[u8], byte_size: usize) -> Data<'_> {
+    let bytes = data.get(..byte_size).unwrap_or(data);
+    let negative = bytes.last().is_some_and(|byte| byte & 0x80 != 0);
+    let magnitude = bytes.iter().rev().fold(0.0, |value, byte| {
+        value * 256.0 + f64::from(if negative { !byte } else { *byte })
+    });
+    Data {
+        value: Some(DataType::LossyNumber(if negative {
+            -(magnitude + 1.0)
+        } else {
+            magnitude
+        })),
+        size: byte_size,
+    }
+}
+
 fn integer_to_value_internal(data: &[u8], byte_size: usize) -> Data<'_> {
+    if byte_size > 8 {
+        return wide_integer_to_value_internal(data, byte_size);
+    }
     let mut data_value = 0i64;
     let mut shift = 0;
-    for byte in data.iter().take(if byte_size > 8 { 8 } else { byte_size }) {
+    for byte in data.iter().take(byte_size) {
         data_value |= (*byte as i64) << shift;
         shift += 8;
     }
@@ -570,13 +589,8 @@ fn integer_to_value_internal(data: &[u8], byte_size: usize) -> Data<'_> {
         data_value
     };
 
-    let output = if byte_size > 8 {
-        DataType::LossyNumber(data_value as f64)
-    } else {
-        DataType::Number(data_value as f64)
-    };
     Data {
-        value: Some(output),
+        value: Some(DataType::Number(data_value as f64)),
         size: byte_size,
     }
 }
-- 
2.43.0


From 1b1cedf333cab12f82edee6ff8f1747c15eaaa94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:35:07 +0000
Subject: [PATCH 42/49] fix: leave encrypted bytes out of the legacy Mermaid
 records

parse_to_mermaid listed an encrypted payload as data records. The bytes were
read as if they were cleartext, so the diagram showed values that the meter
never sent.
---
 src/mbus_data.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mbus_data.rs b/src/mbus_data.rs
index 9a0192e..eb35fb1 100644
--- a/src/mbus_data.rs
+++ b/src/mbus_data.rs
@@ -860,6 +860,7 @@ pub fn parse_to_mermaid(input: &str, _key: Option<&[u8; 16]>) -> String {
     if let Ok(parsed_data) = MbusData::<frames::WiredFrame>::try_from(data.as_slice()) {
         let mut out = String::from("flowchart TD\n");
         let mut styles = String::new();
+        let encrypted = user_data_is_encrypted(parsed_data.user_data.as_ref());
 
         match parsed_data.frame {
             frames::WiredFrame::LongFrame {
@@ -961,7 +962,8 @@ pub fn parse_to_mermaid(input: &str, _key: Option<&[u8; 16]>) -> String {
                     out.push_str("    FRAME_SG --> DEV_SG\n");
                 }
 
-                if let Some(data_records) = parsed_data.data_records {
+                // Encrypted bytes are not records
+                if let Some(data_records) = parsed_data.data_records.filter(|_| !encrypted) {
                     out.push_str("    subgraph REC_SG[\"Data Records\"]\n");
                     out.push_str("");
                     let records: Vec<_> = data_records.flatten().collect();
@@ -1093,7 +1095,9 @@ pub fn parse_to_mermaid(input: &str, _key: Option<&[u8; 16]>) -> String {
             ));
         }
 
-        if let Some(data_records) = parsed_data.data_records {
+        // Encrypted bytes are not records
+        let encrypted = user_data_is_encrypted(parsed_data.user_data.as_ref());
+        if let Some(data_records) = parsed_data.data_records.filter(|_| !encrypted) {
             out.push_str("    subgraph REC_SG[\"Data Records\"]\n");
             let records: Vec<_> = data_records.flatten().collect();
             for (i, record) in records.iter().enumerate() {
-- 
2.43.0


From 643ca064a5e5fec0ee5181a7976f373c544be729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:35:14 +0000
Subject: [PATCH 43/49] fix: attach legacy Mermaid records to a subgraph that
 exists

Without a long header there is no device subgraph. The edge from DEV_SG then
drew an empty node of that name. The records now hang below the frame.
---
 src/mbus_data.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/mbus_data.rs b/src/mbus_data.rs
index eb35fb1..fc6089a 100644
--- a/src/mbus_data.rs
+++ b/src/mbus_data.rs
@@ -994,7 +994,14 @@ pub fn parse_to_mermaid(input: &str, _key: Option<&[u8; 16]>) -> String {
                     out.push_str("    end\n");
                     styles.push_str("    style REC_SG fill:#6c3483,color:#fff,stroke:#4a235a\n");
                     styles.push_str(&pads);
-                    out.push_str("    DEV_SG --> REC_SG\n");
+                    // The device subgraph exists only for a long header
+                    let parent = match &parsed_data.user_data {
+                        Some(UserDataBlock::VariableDataStructureWithLongTplHeader { .. }) => {
+                            "DEV_SG"
+                        }
+                        _ => "FRAME_SG",
+                    };
+                    out.push_str(&format!("    {} --> REC_SG\n", parent));
                 }
             }
             frames::WiredFrame::ShortFrame { function, address } => {
-- 
2.43.0


From ad080bdc83f011bde224d9507b0330b1784c4259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:35:21 +0000
Subject: [PATCH 44/49] fix: keep legacy Mermaid labels on one line

A text value with a line break split its label over two lines, which is not a
valid statement.
---
 src/mbus_data.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mbus_data.rs b/src/mbus_data.rs
index fc6089a..f604d82 100644
--- a/src/mbus_data.rs
+++ b/src/mbus_data.rs
@@ -1469,6 +1469,7 @@ fn mermaid_escape(s: &str) -> String {
     s.replace('"', "#quot;")
         .replace('[', "#91;")
         .replace(']', "#93;")
+        .replace(['\n', '\r'], " ")
 }
 
 #[cfg(test)]
-- 
2.43.0


From 6f6955e20fef6d3529057e9c1cca812fb9b69ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:19:43 +0000
Subject: [PATCH 45/49] fix: keep the legacy YAML document of a header with an
 invalid manufacturer code

YAML cannot hold an enum directly within another one. Serialising the error
of an invalid code therefore failed, and all sections but the summary were
missing from the document.
---
 crates/m-bus-application-layer/src/lib.rs | 37 ++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/crates/m-bus-application-layer/src/lib.rs b/crates/m-bus-application-layer/src/lib.rs
index e93f04a..8265ac9 100644
--- a/crates/m-bus-application-layer/src/lib.rs
+++ b/crates/m-bus-application-layer/src/lib.rs
@@ -745,7 +745,11 @@ pub struct LongTplHeader {
     pub identification_number: IdentificationNumber,
     #[cfg_attr(
         feature = "serde",
-        serde(skip_deserializing, default = "default_manufacturer_result")
+        serde(
+            skip_deserializing,
+            default = "default_manufacturer_result",
+            serialize_with = "serialize_manufacturer_result"
+        )
     )]
     pub manufacturer: Result<ManufacturerCode, ApplicationLayerError>,
     pub version: u8,
@@ -759,6 +763,37 @@ fn default_manufacturer_result() -> Result<ManufacturerCode, ApplicationLayerErr
     Err(ApplicationLayerError::InsufficientData)
 }
 
+/// Writes an invalid code as a map inside of `Err`, as YAML cannot hold an
+/// enum directly within another one.
+#[cfg(feature = "serde")]
+fn serialize_manufacturer_result<S: serde::Serializer>(
+    manufacturer: &Result<ManufacturerCode, ApplicationLayerError>,
+    serializer: S,
+) -> Result<S::Ok, S::Error> {
+    #[derive(serde::Serialize)]
+    struct Code {
+        code: u16,
+    }
+    #[derive(serde::Serialize)]
+    struct Invalid {
+        #[serde(rename = "InvalidManufacturerCode")]
+        invalid: Code,
+    }
+
+    match manufacturer {
+        Err(ApplicationLayerError::InvalidManufacturerCode { code }) => serializer
+            .serialize_newtype_variant(
+                "Result",
+                1,
+                "Err",
+                &Invalid {
+                    invalid: Code { code: *code },
+                },
+            ),
+        _ => serde::Serialize::serialize(manufacturer, serializer),
+    }
+}
+
 #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
 #[derive(Debug, PartialEq)]
 #[cfg_attr(feature = "defmt", derive(defmt::Format))]
-- 
2.43.0


From d435a8719dde18250ad52beab7114fa96e93c309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:35:05 +0000
Subject: [PATCH 46/49] fix: read decimal values most significant byte first
 when the header says so

Responses with control information 76h carry their decimal numbers most
significant byte first. The record list of a frame did not keep its long
header, so only decrypted records were read that way. The record list now
keeps the header.
---
 .../src/data_information.rs                   |  2 +-
 .../src/data_record.rs                        |  6 +--
 crates/m-bus-application-layer/src/lib.rs     | 25 ++++++----
 src/mbus_data.rs                              | 14 +++++-
 src/output.rs                                 | 46 +++++++++++++------
 5 files changed, 64 insertions(+), 29 deletions(-)

diff --git a/crates/m-bus-application-layer/src/data_information.rs b/crates/m-bus-application-layer/src/data_information.rs
index 237f776..eb2f259 100644
--- a/crates/m-bus-application-layer/src/data_information.rs
+++ b/crates/m-bus-application-layer/src/data_information.rs
@@ -599,7 +599,7 @@ impl DataFieldCoding {
     pub fn parse<'a>(
         &self,
         input: &'a [u8],
-        fixed_data_header: Option<&'a LongTplHeader>,
+        fixed_data_header: Option<&LongTplHeader>,
     ) -> Result<Data<'a>, DataRecordError> {
         let lsb_order = fixed_data_header.map(|x| x.lsb_order).unwrap_or(false);
 
diff --git a/crates/m-bus-application-layer/src/data_record.rs b/crates/m-bus-application-layer/src/data_record.rs
index fefd4a5..93f41f6 100644
--- a/crates/m-bus-application-layer/src/data_record.rs
+++ b/crates/m-bus-application-layer/src/data_record.rs
@@ -100,7 +100,7 @@ impl DataRecord<'_> {
 impl<'a> DataRecord<'a> {
     fn parse(
         data: &'a [u8],
-        fixed_data_header: Option<&'a LongTplHeader>,
+        fixed_data_header: Option<&LongTplHeader>,
     ) -> Result<Self, DataRecordError> {
         let data_record_header = DataRecordHeader::try_from(data)?;
         let header_size = data_record_header.get_size();
@@ -254,10 +254,10 @@ impl<'a> TryFrom<&'a [u8]> for DataRecordHeader<'a> {
     }
 }
 
-impl<'a> TryFrom<(&'a [u8], &'a LongTplHeader)> for DataRecord<'a> {
+impl<'a> TryFrom<(&'a [u8], &LongTplHeader)> for DataRecord<'a> {
     type Error = DataRecordError;
     fn try_from(
-        (data, fixed_data_header): (&'a [u8], &'a LongTplHeader),
+        (data, fixed_data_header): (&'a [u8], &LongTplHeader),
     ) -> Result<Self, Self::Error> {
         Self::parse(data, Some(fixed_data_header))
     }
diff --git a/crates/m-bus-application-layer/src/lib.rs b/crates/m-bus-application-layer/src/lib.rs
index 8265ac9..2032ef0 100644
--- a/crates/m-bus-application-layer/src/lib.rs
+++ b/crates/m-bus-application-layer/src/lib.rs
@@ -80,7 +80,7 @@ pub const fn parse_data_records_with_header<'a>(
 pub struct DataRecords<'a> {
     offset: usize,
     data: &'a [u8],
-    long_tpl_header: Option<&'a LongTplHeader>,
+    long_tpl_header: Option<LongTplHeader>,
 }
 
 #[cfg(feature = "std")]
@@ -107,7 +107,7 @@ impl<'a> Iterator for DataRecords<'a> {
                     | data_information::SpecialFunctions::MoreRecordsFollow => {
                         let remaining = self.data.get(self.offset..)?;
                         self.offset = self.data.len();
-                        let record = if let Some(long_tpl_header) = self.long_tpl_header {
+                        let record = if let Some(long_tpl_header) = &self.long_tpl_header {
                             DataRecord::try_from((remaining, long_tpl_header))
                         } else {
                             DataRecord::try_from(remaining)
@@ -117,7 +117,7 @@ impl<'a> Iterator for DataRecords<'a> {
                     data_information::SpecialFunctions::GlobalReadoutRequest => {
                         let remaining = self.data.get(self.offset..)?;
                         self.offset += 1;
-                        let record = if let Some(long_tpl_header) = self.long_tpl_header {
+                        let record = if let Some(long_tpl_header) = &self.long_tpl_header {
                             DataRecord::try_from((remaining, long_tpl_header))
                         } else {
                             DataRecord::try_from(remaining)
@@ -129,7 +129,7 @@ impl<'a> Iterator for DataRecords<'a> {
                     }
                 }
             } else {
-                let record = if let Some(long_tpl_header) = self.long_tpl_header {
+                let record = if let Some(long_tpl_header) = &self.long_tpl_header {
                     DataRecord::try_from((self.data.get(self.offset..)?, long_tpl_header))
                 } else {
                     DataRecord::try_from(self.data.get(self.offset..)?)
@@ -153,14 +153,23 @@ impl<'a> Iterator for DataRecords<'a> {
 
 impl<'a> DataRecords<'a> {
     #[must_use]
-    pub const fn new(data: &'a [u8], long_tpl_header: Option<&'a LongTplHeader>) -> Self {
+    pub const fn new(data: &'a [u8], long_tpl_header: Option<&LongTplHeader>) -> Self {
         DataRecords {
             offset: 0,
             data,
-            long_tpl_header,
+            long_tpl_header: match long_tpl_header {
+                Some(header) => Some(*header),
+                None => None,
+            },
         }
     }
 
+    /// Returns the long transport header the records belong to.
+    #[must_use]
+    pub const fn long_tpl_header(&self) -> Option<&LongTplHeader> {
+        self.long_tpl_header.as_ref()
+    }
+
     /// Returns the byte offset up to which records were consumed. After an
     /// error this is the start of the record which could not be parsed.
     #[must_use]
@@ -739,7 +748,7 @@ impl<'a> UserDataBlock<'a> {
 }
 
 #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
-#[derive(Debug, PartialEq)]
+#[derive(Debug, Clone, Copy, PartialEq)]
 #[cfg_attr(feature = "defmt", derive(defmt::Format))]
 pub struct LongTplHeader {
     pub identification_number: IdentificationNumber,
@@ -795,7 +804,7 @@ fn serialize_manufacturer_result<S: serde::Serializer>(
 }
 
 #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
-#[derive(Debug, PartialEq)]
+#[derive(Debug, Clone, Copy, PartialEq)]
 #[cfg_attr(feature = "defmt", derive(defmt::Format))]
 pub struct ShortTplHeader {
     pub access_number: u8,
diff --git a/src/mbus_data.rs b/src/mbus_data.rs
index f604d82..c787cc9 100644
--- a/src/mbus_data.rs
+++ b/src/mbus_data.rs
@@ -37,10 +37,16 @@ impl<'a> TryFrom<&'a [u8]> for MbusData<'a, frames::WiredFrame<'a>> {
                     Ok(x) => {
                         match &x {
                             user_data::UserDataBlock::VariableDataStructureWithLongTplHeader {
+                                long_tpl_header,
                                 variable_data_block,
                                 ..
+                            } => {
+                                data_records = Some(user_data::DataRecords::new(
+                                    variable_data_block,
+                                    Some(long_tpl_header),
+                                ));
                             }
-                            | user_data::UserDataBlock::VariableDataStructureWithShortTplHeader {
+                            user_data::UserDataBlock::VariableDataStructureWithShortTplHeader {
                                 variable_data_block,
                                 ..
                             }
@@ -87,10 +93,14 @@ impl<'a> TryFrom<&'a [u8]> for MbusData<'a, WirelessFrame<'a>> {
             Ok(user_data_block) => {
                 match &user_data_block {
                     user_data::UserDataBlock::VariableDataStructureWithLongTplHeader {
+                        long_tpl_header,
                         variable_data_block,
                         ..
                     } => {
-                        data_records = Some((*variable_data_block).into());
+                        data_records = Some(user_data::DataRecords::new(
+                            variable_data_block,
+                            Some(long_tpl_header),
+                        ));
                     }
                     user_data::UserDataBlock::VariableDataStructureWithShortTplHeader {
                         variable_data_block,
diff --git a/src/output.rs b/src/output.rs
index 9a956de..3edada3 100644
--- a/src/output.rs
+++ b/src/output.rs
@@ -1258,16 +1258,23 @@ fn collect_records(
     };
     let mut output = Vec::new();
     let mut records = records.clone();
+    let most_significant_first = records
+        .long_tpl_header()
+        .is_some_and(|header| header.lsb_order);
     while let Some(item) = records.next() {
         match item {
-            Ok(record) => output.push(record_output(output.len(), &record)),
+            Ok(record) => output.push(record_output(output.len(), &record, most_significant_first)),
             Err(error) => return (output, Some((records.position(), error.to_string()))),
         }
     }
     (output, None)
 }
 
-fn record_output(index: usize, record: &user_data::DataRecord<'_>) -> RecordOutput {
+fn record_output(
+    index: usize,
+    record: &user_data::DataRecord<'_>,
+    most_significant_first: bool,
+) -> RecordOutput {
     let information = record.data_information();
     let value_information = record.value_information();
     let function = information
@@ -1295,7 +1302,7 @@ fn record_output(index: usize, record: &user_data::DataRecord<'_>) -> RecordOutp
         tariff,
         subunit,
         quantities,
-        value: value_output(record),
+        value: value_output(record, most_significant_first),
         unit,
         data_coding,
         header_hex: record.data_record_header_hex(),
@@ -1447,7 +1454,7 @@ fn standardized_word(word: &str, first: bool) -> String {
     }
 }
 
-fn value_output(record: &user_data::DataRecord<'_>) -> ValueOutput {
+fn value_output(record: &user_data::DataRecord<'_>, most_significant_first: bool) -> ValueOutput {
     let information = record.data_information();
     let value_information = record.value_information();
     let scale = value_information.map(|value| value.decimal_scale_exponent);
@@ -1468,8 +1475,8 @@ fn value_output(record: &user_data::DataRecord<'_>) -> ValueOutput {
                 };
             }
 
-            let significand =
-                exact_significand(record, *number).unwrap_or_else(|| format!("{number:.0}"));
+            let significand = exact_significand(record, *number, most_significant_first)
+                .unwrap_or_else(|| format!("{number:.0}"));
             let scale_value = scale.unwrap_or(0);
             let decimal = scaled_decimal(&significand, scale_value, offset);
             ValueOutput {
@@ -1639,7 +1646,11 @@ fn finite_number(value: f64) -> (Option<f64>, Option<String>) {
     }
 }
 
-fn exact_significand(record: &user_data::DataRecord<'_>, parsed: f64) -> Option<String> {
+fn exact_significand(
+    record: &user_data::DataRecord<'_>,
+    parsed: f64,
+    most_significant_first: bool,
+) -> Option<String> {
     let information = record.data_information()?;
     let header_size = record.data_record_header.get_size();
     let data = record.raw_bytes().get(header_size..)?;
@@ -1655,23 +1666,28 @@ fn exact_significand(record: &user_data::DataRecord<'_>, parsed: f64) -> Option<
         | DataFieldCoding::BCD6Digit
         | DataFieldCoding::BCD8Digit
         | DataFieldCoding::BCDDigit12 => Some(format!("{parsed:.0}")),
-        DataFieldCoding::VariableLength => exact_variable_significand(data, parsed),
+        DataFieldCoding::VariableLength => {
+            exact_variable_significand(data, parsed, most_significant_first)
+        }
         _ => None,
     }
 }
 
-fn exact_variable_significand(data: &[u8], parsed: f64) -> Option<String> {
+fn exact_variable_significand(
+    data: &[u8],
+    parsed: f64,
+    most_significant_first: bool,
+) -> Option<String> {
     let marker = *data.first()?;
     match marker {
         // More digits than a float holds exactly.
         0xC8..=0xC9 | 0xD8..=0xD9 => {
             let length = usize::from(marker & 0x0F);
-            let digits: String = data
-                .get(1..=length)?
-                .iter()
-                .rev()
-                .map(|byte| format!("{byte:02X}"))
-                .collect();
+            let mut bytes = data.get(1..=length)?.to_vec();
+            if !most_significant_first {
+                bytes.reverse();
+            }
+            let digits: String = bytes.iter().map(|byte| format!("{byte:02X}")).collect();
             Some(if marker >= 0xD0 {
                 format!("-{digits}")
             } else {
-- 
2.43.0


From 2bdc3699dee4ef608540889a405a3d114c299065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:35:05 +0000
Subject: [PATCH 47/49] fix: annotate decimal values in the byte order of the
 header

---
 src/annotate.rs  | 30 +++++++++++++++++++++++++-----
 src/mbus_data.rs | 14 ++++++++++++--
 2 files changed, 37 insertions(+), 7 deletions(-)

diff --git a/src/annotate.rs b/src/annotate.rs
index a2af86a..097ea88 100644
--- a/src/annotate.rs
+++ b/src/annotate.rs
@@ -6,6 +6,7 @@
 //! related fields (e.g., all bytes of a data record).
 
 use crate::user_data::data_record::DataRecord;
+use crate::user_data::{LongTplHeader, UserDataBlock};
 use crate::MbusError;
 use std::borrow::Cow;
 use std::fmt;
@@ -409,7 +410,8 @@ fn annotate_application_layer(
                     });
                 }
             } else {
-                annotate_data_records(segments, records_start, records_data);
+                let header = long_tpl_header(app_data);
+                annotate_data_records(segments, records_start, records_data, header.as_ref());
             }
         }
 
@@ -517,7 +519,7 @@ fn annotate_application_layer(
                     });
                 }
             } else {
-                annotate_data_records(segments, offset, records_data);
+                annotate_data_records(segments, offset, records_data, None);
             }
         }
 
@@ -534,7 +536,7 @@ fn annotate_application_layer(
 
             let records_data = &app_data[1..];
             if !records_data.is_empty() {
-                annotate_data_records(segments, base + 1, records_data);
+                annotate_data_records(segments, base + 1, records_data, None);
             }
         }
 
@@ -803,7 +805,22 @@ fn annotate_long_tpl_header(
 
 // ── Data record annotation ──────────────────────────────────────────────────
 
-pub(crate) fn annotate_data_records(segments: &mut Vec<ByteSegment>, base: usize, data: &[u8]) {
+/// Returns the long TPL header at the start of the application data.
+pub(crate) fn long_tpl_header(app_data: &[u8]) -> Option<LongTplHeader> {
+    match UserDataBlock::try_from(app_data) {
+        Ok(UserDataBlock::VariableDataStructureWithLongTplHeader {
+            long_tpl_header, ..
+        }) => Some(long_tpl_header),
+        _ => None,
+    }
+}
+
+pub(crate) fn annotate_data_records(
+    segments: &mut Vec<ByteSegment>,
+    base: usize,
+    data: &[u8],
+    header: Option<&LongTplHeader>,
+) {
     let mut offset = 0usize;
     let mut record_index = 0usize;
 
@@ -884,7 +901,10 @@ pub(crate) fn annotate_data_records(segments: &mut Vec<ByteSegment>, base: usize
 
         // Try to parse the data record to get accurate sizes
         let remaining = &data[offset..];
-        let record_result = DataRecord::try_from(remaining);
+        let record_result = match header {
+            Some(header) => DataRecord::try_from((remaining, header)),
+            None => DataRecord::try_from(remaining),
+        };
 
         match record_result {
             Ok(record) => {
diff --git a/src/mbus_data.rs b/src/mbus_data.rs
index c787cc9..36bb9a0 100644
--- a/src/mbus_data.rs
+++ b/src/mbus_data.rs
@@ -1308,13 +1308,23 @@ fn replace_encrypted_payload_segments(
     segments: &mut Vec<crate::annotate::ByteSegment>,
     display_data: &[u8],
 ) {
-    let mut rewritten = Vec::with_capacity(segments.len());
+    let mut rewritten: Vec<crate::annotate::ByteSegment> = Vec::with_capacity(segments.len());
 
     for segment in segments.drain(..) {
         if segment.kind == crate::annotate::SegmentKind::EncryptedPayload {
             let before_len = rewritten.len();
             if let Some(data) = display_data.get(segment.start..segment.end) {
-                crate::annotate::annotate_data_records(&mut rewritten, segment.start, data);
+                let header = rewritten
+                    .iter()
+                    .find(|segment| segment.kind == crate::annotate::SegmentKind::CiField)
+                    .and_then(|segment| display_data.get(segment.start..))
+                    .and_then(crate::annotate::long_tpl_header);
+                crate::annotate::annotate_data_records(
+                    &mut rewritten,
+                    segment.start,
+                    data,
+                    header.as_ref(),
+                );
             }
             if rewritten.len() == before_len {
                 rewritten.push(segment);
-- 
2.43.0


From f854302a40c8f6cf76a8a4b4d1ac4e4ec59212f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:35:21 +0000
Subject: [PATCH 48/49] fix: refuse a second extended link layer instead of
 dropping its encryption

---
 crates/m-bus-application-layer/src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/m-bus-application-layer/src/lib.rs b/crates/m-bus-application-layer/src/lib.rs
index 2032ef0..148c272 100644
--- a/crates/m-bus-application-layer/src/lib.rs
+++ b/crates/m-bus-application-layer/src/lib.rs
@@ -1190,11 +1190,12 @@ impl<'a> TryFrom<&'a [u8]> for UserDataBlock<'a> {
                     receiver_address: None,
                     encryption: None,
                 });
+                // A second extended link layer (with its encryption) is not read.
                 match UserDataBlock::try_from(iter.as_slice()) {
                     Ok(UserDataBlock::VariableDataStructureWithShortTplHeader {
                         short_tpl_header,
                         variable_data_block,
-                        ..
+                        extended_link_layer: None,
                     }) => Ok(UserDataBlock::VariableDataStructureWithShortTplHeader {
                         extended_link_layer,
                         short_tpl_header,
@@ -1202,7 +1203,7 @@ impl<'a> TryFrom<&'a [u8]> for UserDataBlock<'a> {
                     }),
                     Ok(UserDataBlock::VariableDataStructureWithoutTplHeader {
                         variable_data_block,
-                        ..
+                        extended_link_layer: None,
                     }) => Ok(UserDataBlock::VariableDataStructureWithoutTplHeader {
                         extended_link_layer,
                         variable_data_block,
-- 
2.43.0


From 3c5bec8f674f9f378c00faf74b7b30625f5f60c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:58:24 +0000
Subject: [PATCH 49/49] fix: do not recurse once per extended link layer in
 overlong application data

---
 crates/m-bus-application-layer/src/lib.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/m-bus-application-layer/src/lib.rs b/crates/m-bus-application-layer/src/lib.rs
index 148c272..2df955b 100644
--- a/crates/m-bus-application-layer/src/lib.rs
+++ b/crates/m-bus-application-layer/src/lib.rs
@@ -1191,11 +1191,15 @@ impl<'a> TryFrom<&'a [u8]> for UserDataBlock<'a> {
                     encryption: None,
                 });
                 // A second extended link layer (with its encryption) is not read.
+                // Refusing it here also keeps the nesting from growing with the data.
+                if matches!(iter.as_slice().first(), Some(0x8C..=0x8E)) {
+                    return Err(ApplicationLayerError::MissingControlInformation);
+                }
                 match UserDataBlock::try_from(iter.as_slice()) {
                     Ok(UserDataBlock::VariableDataStructureWithShortTplHeader {
                         short_tpl_header,
                         variable_data_block,
-                        extended_link_layer: None,
+                        ..
                     }) => Ok(UserDataBlock::VariableDataStructureWithShortTplHeader {
                         extended_link_layer,
                         short_tpl_header,
@@ -1203,7 +1207,7 @@ impl<'a> TryFrom<&'a [u8]> for UserDataBlock<'a> {
                     }),
                     Ok(UserDataBlock::VariableDataStructureWithoutTplHeader {
                         variable_data_block,
-                        extended_link_layer: None,
+                        ..
                     }) => Ok(UserDataBlock::VariableDataStructureWithoutTplHeader {
                         extended_link_layer,
                         variable_data_block,
-- 
2.43.0

