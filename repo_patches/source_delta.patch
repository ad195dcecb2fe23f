From 42343b70ae3ab9d2f76784c1b8b9de23fb46ce8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:02 +0000
Subject: [PATCH 01/15] fix: reject long frames whose length is below two
 instead of underflowing

---
 src/parse/link_layer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parse/link_layer.rs b/src/parse/link_layer.rs
index 08a323b..b7098ab 100644
--- a/src/parse/link_layer.rs
+++ b/src/parse/link_layer.rs
@@ -138,7 +138,9 @@ where
 		+ winnow::stream::Compare<u8>
 		+ Clone,
 {
+	// The length covers at least the control and address bytes
 	let length = binary::u8
+		.verify(|v| *v >= 2)
 		.context(StrContext::Label("length"))
 		.parse_next(input)?;
 	binary::u8
-- 
2.43.0


From 9ce6bfdef186eb26d744487c63593792a46c8712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:04 +0000
Subject: [PATCH 02/15] fix: decode secondary function 15 as link not
 implemented

---
 src/parse/link_layer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse/link_layer.rs b/src/parse/link_layer.rs
index b7098ab..2710059 100644
--- a/src/parse/link_layer.rs
+++ b/src/parse/link_layer.rs
@@ -107,7 +107,7 @@ impl Control {
 						9 => SecondaryControlMessage::UserDataUnavailable,
 						11 => SecondaryControlMessage::Status,
 						14 => SecondaryControlMessage::LinkNotFunctioning,
-						15 => SecondaryControlMessage::LinkNotFunctioning,
+						15 => SecondaryControlMessage::LinkNotImplemented,
 						_ => return None,
 					},
 				}
-- 
2.43.0


From 00bcaaac39d5c76e728a423f523284c95b249c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:07 +0000
Subject: [PATCH 03/15] fix: report unsupported CI fields as errors instead of
 panicking

---
 src/parse/transport_layer/control_info.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/parse/transport_layer/control_info.rs b/src/parse/transport_layer/control_info.rs
index cf17a49..de3ca80 100644
--- a/src/parse/transport_layer/control_info.rs
+++ b/src/parse/transport_layer/control_info.rs
@@ -167,15 +167,20 @@ impl MBusMessage {
 			0x6D => Self::TimeAdjustmentToDevice(header, parse_remaining.parse_next(input)?),
 			// Actual mbus
 			0x51 | 0x5A | 0x5B => Self::CommandToDevice(header, parse_remaining.parse_next(input)?),
-			0x69..=0x6B => todo!("format frame"),
 			0x6E..=0x70 => Self::ApplicationErrorFromDevice(
 				header,
 				ApplicationErrorMessage::parse.parse_next(input)?,
 			),
 			0x71 | 0x74 | 0x75 => Self::AlarmFromDevice(header, parse_remaining.parse_next(input)?),
 			0x72 | 0x78 | 0x7A => Self::ResponseFromDevice(header, Frame::parse.parse_next(input)?),
-			0x73 | 0x79 | 0x7B => todo!("compact frame"),
-			_ => unreachable!(),
+			_ => {
+				// Format frames, compact frames and obsolete CI fields
+				return Err(MBusError::from_input(input).add_context(
+					input,
+					&ci_checkpoint,
+					StrContext::Label("unsupported CI field"),
+				));
+			}
 		})
 	}
 }
-- 
2.43.0


From 487b33fb441711de69c7472e350784bef5ed9ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:09 +0000
Subject: [PATCH 04/15] fix: accept the headerless CI fields 50h, 51h and 52h

---
 src/parse/transport_layer/control_info.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parse/transport_layer/control_info.rs b/src/parse/transport_layer/control_info.rs
index de3ca80..3713608 100644
--- a/src/parse/transport_layer/control_info.rs
+++ b/src/parse/transport_layer/control_info.rs
@@ -64,6 +64,7 @@ impl MBusMessage {
 
 		let header = match ci {
 			0x00..=0x1F
+			| 0x50..=0x52
 			| 0x54
 			| 0x5C
 			| 0x66
-- 
2.43.0


From 6f8a0b05e9eebfb7860ce4b179f2e860fcbb210c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:12 +0000
Subject: [PATCH 05/15] fix: report unsupported security modes as errors
 instead of panicking

---
 src/parse/transport_layer/header.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parse/transport_layer/header.rs b/src/parse/transport_layer/header.rs
index 1bdc7a1..6e0941f 100644
--- a/src/parse/transport_layer/header.rs
+++ b/src/parse/transport_layer/header.rs
@@ -119,7 +119,8 @@ impl SecurityMode {
 				}
 				// libmbus strikes again
 				6 | 11 | 12 | 14 | 16..=31 => Some(SecurityMode::Reserved(raw_value)),
-				_ => todo!("Packet encryption is not yet supported (mode {security_mode})"),
+				// Packet encryption is not yet supported
+				_ => None,
 			}
 		})
 		.parse_next(input)
-- 
2.43.0


From 8f6a114dc8e69f235817a1935f812adccdda7e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:14 +0000
Subject: [PATCH 06/15] fix: read the security mode from bits 8 to 12 of the
 configuration field

---
 src/parse/transport_layer/header.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parse/transport_layer/header.rs b/src/parse/transport_layer/header.rs
index 6e0941f..b261a4a 100644
--- a/src/parse/transport_layer/header.rs
+++ b/src/parse/transport_layer/header.rs
@@ -105,10 +105,10 @@ impl SecurityMode {
 			.parse_next(input)?;
 		(binary::bits::bits::<_, _, MBusError, _, _>((
 			binary::bits::take(8_usize).context(StrContext::Label("Security mode info low")),
-			binary::bits::take(5_usize).context(StrContext::Label("Security mode")),
 			binary::bits::take(3_usize).context(StrContext::Label("Security mode info high")),
+			binary::bits::take(5_usize).context(StrContext::Label("Security mode")),
 		)))
-		.verify_map(|(info_low, security_mode, info_high): (u8, u8, u8)| {
+		.verify_map(|(info_low, info_high, security_mode): (u8, u8, u8)| {
 			match security_mode {
 				0 => {
 					if info_high == 0 && info_low == 0 {
-- 
2.43.0


From b6b6c6e270392b98c885e73ba56992eed7af08f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:17 +0000
Subject: [PATCH 07/15] fix: place DIFE storage, tariff and device bits at
 their positions

---
 src/parse/application_layer/dib.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/parse/application_layer/dib.rs b/src/parse/application_layer/dib.rs
index 5fcf55f..b326022 100644
--- a/src/parse/application_layer/dib.rs
+++ b/src/parse/application_layer/dib.rs
@@ -117,9 +117,10 @@ impl DataInfoBlock {
 				break;
 			}
 
-			dife_device <<= i;
-			dife_tariff <<= 2 * i;
-			dife_storage <<= 4 * i;
+			// The DIF itself only contributes the lowest storage number bit
+			dife_device <<= i - 1;
+			dife_tariff <<= 2 * (i - 1);
+			dife_storage <<= 4 * (i - 1) + 1;
 			i += 1;
 
 			device += dife_device;
-- 
2.43.0


From a359f089a9c88077463fea64540aaad31429fa53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:19 +0000
Subject: [PATCH 08/15] fix: report more than ten DIFEs as an error instead of
 panicking

---
 src/parse/application_layer/dib.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/parse/application_layer/dib.rs b/src/parse/application_layer/dib.rs
index b326022..177185f 100644
--- a/src/parse/application_layer/dib.rs
+++ b/src/parse/application_layer/dib.rs
@@ -5,7 +5,8 @@
 use crate::parse::error::{MBResult, MBusError};
 use crate::parse::types::BitsInput;
 use winnow::binary::bits;
-use winnow::error::{ParserError, StrContext};
+use winnow::error::{AddContext, ParserError, StrContext};
+use winnow::stream::Stream;
 use winnow::Parser;
 
 #[derive(Debug, Clone, Copy)]
@@ -95,7 +96,11 @@ impl DataInfoBlock {
 		let mut i = 1;
 		while extension {
 			if i > 10 {
-				return Err(MBusError::assert(input, "Packet has more than 10 DIFEs!"));
+				return Err(MBusError::from_input(input).add_context(
+					input,
+					&input.checkpoint(),
+					StrContext::Label("DIFE count (more than 10 DIFEs)"),
+				));
 			}
 
 			let mut dife_device: u16;
-- 
2.43.0


From 27cd07dc6e3a64e6caefe490d5269e660ee38970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:21 +0000
Subject: [PATCH 09/15] fix: decode six byte date records as Type I

---
 src/parse/application_layer/record.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse/application_layer/record.rs b/src/parse/application_layer/record.rs
index 21041f7..3c85c97 100644
--- a/src/parse/application_layer/record.rs
+++ b/src/parse/application_layer/record.rs
@@ -136,7 +136,7 @@ fn handle_date_types(dib: &DataInfoBlock, mut vib: ValueInfoBlock) -> ValueInfoB
 			RawDataType::LVAR => ValueType::TypeMDatetime,
 			RawDataType::Binary(4) => ValueType::TypeFDateTime,
 			RawDataType::Binary(3) => ValueType::TypeJTime,
-			RawDataType::Binary(5) => ValueType::TypeIDateTime,
+			RawDataType::Binary(6) => ValueType::TypeIDateTime,
 			_ => ValueType::Invalid(vif!(E110 1101)),
 		},
 		vt => vt,
-- 
2.43.0


From aef36b6a3ddf729c7be04fad0d05cc5c6aba4ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:24 +0000
Subject: [PATCH 10/15] fix: only read a Type K value when the data field holds
 four bytes

---
 src/parse/application_layer/record.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parse/application_layer/record.rs b/src/parse/application_layer/record.rs
index 3c85c97..2f54896 100644
--- a/src/parse/application_layer/record.rs
+++ b/src/parse/application_layer/record.rs
@@ -139,6 +139,10 @@ fn handle_date_types(dib: &DataInfoBlock, mut vib: ValueInfoBlock) -> ValueInfoB
 			RawDataType::Binary(6) => ValueType::TypeIDateTime,
 			_ => ValueType::Invalid(vif!(E110 1101)),
 		},
+		ValueType::DSTTypeK => match dib.raw_type {
+			RawDataType::Binary(4) => ValueType::DSTTypeK,
+			_ => ValueType::Invalid(vif!(E111 0010)),
+		},
 		vt => vt,
 	};
 	vib
-- 
2.43.0


From 667d4413fbce7e7a72dca016dc90318b2e5d411e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:26 +0000
Subject: [PATCH 11/15] fix: accept zero as a positive LVAR BCD number

---
 src/parse/application_layer/record.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse/application_layer/record.rs b/src/parse/application_layer/record.rs
index 2f54896..a4361dc 100644
--- a/src/parse/application_layer/record.rs
+++ b/src/parse/application_layer/record.rs
@@ -84,7 +84,7 @@ impl Record {
 							parse_latin1(n).map(DataType::String).parse_next(input)?
 						}
 						n @ 0xC0..=0xC9 => parse_bcd(n - 0xC0)
-							.verify(|v| *v > 0)
+							.verify(|v| *v >= 0)
 							.map(DataType::Signed)
 							.parse_next(input)?,
 						n @ 0xD0..=0xD9 => parse_bcd(n - 0xD0)
-- 
2.43.0


From b1b27cb592c2f450e83d47a09e8dafd60e40f3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:28 +0000
Subject: [PATCH 12/15] fix: assemble the Type K local deviation in the right
 bit order

---
 src/parse/types/date.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse/types/date.rs b/src/parse/types/date.rs
index 75fe821..aa3eae0 100644
--- a/src/parse/types/date.rs
+++ b/src/parse/types/date.rs
@@ -511,7 +511,7 @@ impl TypeKDST {
 				} else {
 					-dst_deviation
 				},
-				local_deviation: gmt_l + (gmt_u << 3),
+				local_deviation: gmt_u + (gmt_l << 3),
 			},
 		)
 		.verify(|v| matches!(v.local_deviation, 0..=23 | 31))
-- 
2.43.0


From f821b4b4f5bc6bac475fc2b09a19c489beab6717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:31 +0000
Subject: [PATCH 13/15] fix: do not interpret byte order marks in Latin-1
 strings

---
 src/parse/types/string.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/parse/types/string.rs b/src/parse/types/string.rs
index 759a174..0f27218 100644
--- a/src/parse/types/string.rs
+++ b/src/parse/types/string.rs
@@ -29,7 +29,14 @@ pub fn parse_latin1<'a>(num_bytes: usize) -> impl Parser<&'a Bytes, String, MBus
 			repeat::<_, _, (), _, _>(num_bytes, binary::u8)
 				.context(StrContext::Label("latin-1 string"))
 				.take()
-				.map(|data| WINDOWS_1252.decode(data).0.chars().rev().collect())
+				.map(|data| {
+					WINDOWS_1252
+						.decode_without_bom_handling(data)
+						.0
+						.chars()
+						.rev()
+						.collect()
+				})
 				.parse_next(input)
 		}
 	}
-- 
2.43.0


From 38a5a947879f505b2201b6ab8e8a5bec0e9617c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:58 +0000
Subject: [PATCH 14/15] Read access to application messages for verification
 (cfg libmburs_verif)

---
 src/parse/application_layer/application.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/parse/application_layer/application.rs b/src/parse/application_layer/application.rs
index d0f756c..578838c 100644
--- a/src/parse/application_layer/application.rs
+++ b/src/parse/application_layer/application.rs
@@ -1,6 +1,7 @@
 // Copyright 2024 Lexi Robinson
 // Licensed under the EUPL-1.2
 #![allow(dead_code)]
+#![allow(unexpected_cfgs)]
 
 use winnow::binary;
 use winnow::combinator::{alt, eof, repeat};
@@ -169,3 +170,12 @@ impl ApplicationMessage {
 		.parse_next(input)
 	}
 }
+
+// Read access for the external verification harness, compiled only with
+// `RUSTFLAGS="--cfg libmburs_verif"`.
+#[cfg(libmburs_verif)]
+impl ApplicationMessage {
+	pub fn verif_parts(&self) -> (&MessageApplication, u64) {
+		(&self.message_application, self.block_number)
+	}
+}
-- 
2.43.0


From 0f6dd0a25ce3d0fc8f1185e69754df53f19769be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:18 +0000
Subject: [PATCH 15/15] fix: ask for more input when the control byte has not
 arrived

---
 src/parse/link_layer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse/link_layer.rs b/src/parse/link_layer.rs
index 2710059..0e9426b 100644
--- a/src/parse/link_layer.rs
+++ b/src/parse/link_layer.rs
@@ -73,7 +73,7 @@ impl Control {
 			bits::bool.context(StrContext::Label("PRM")),
 			bits::bool.context(StrContext::Label("FCB/ACD")),
 			bits::bool.context(StrContext::Label("FCV/DFC")),
-			bits::take::<_, u8, _, MBusError>(4_usize).context(StrContext::Label("function")),
+			bits::take::<_, u8, _, ErrMode<MBusError>>(4_usize).context(StrContext::Label("function")),
 		))
 		.verify_map(|(_, prm, fcb_acd, fcv_dfc, function)| {
 			Some(if prm {
-- 
2.43.0

