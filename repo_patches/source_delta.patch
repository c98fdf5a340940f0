From e63704de92b2766aca5b5ec8d42c680adab61983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:20:48 +0000
Subject: [PATCH 01/27] fix: read PMT program descriptors from the right offset

Pmt::parse took the descriptor loop one byte too early, so program
descriptors were decoded from the low byte of program_info_length.
---
 src/psi/pmt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psi/pmt.rs b/src/psi/pmt.rs
index 16d3eb2..fdc5002 100644
--- a/src/psi/pmt.rs
+++ b/src/psi/pmt.rs
@@ -138,7 +138,7 @@ impl Pmt {
         self.pcr = psi.buffer[8 ..].get_u16() & 0x1FFF;
 
         let descriptors_len = (psi.buffer[10 ..].get_u16() & 0x0FFF) as usize;
-        self.descriptors.parse(&psi.buffer[11 .. 11 + descriptors_len]);
+        self.descriptors.parse(&psi.buffer[12 .. 12 + descriptors_len]);
 
         let ptr = &psi.buffer[12 + descriptors_len .. psi.size - 4];
         let mut skip = 0;
-- 
2.43.0


From 39337e8a8a741b9ff622daf2bc606cdc9d9aa397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:21:09 +0000
Subject: [PATCH 02/27] fix: ignore sections whose descriptor loop exceeds the
 section

PMT, NIT and TOT sections with a descriptors length beyond the end of
the section made the parser panic on the slice bounds.
---
 src/psi/nit.rs | 6 +++++-
 src/psi/pmt.rs | 6 +++++-
 src/psi/tot.rs | 6 +++++-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/psi/nit.rs b/src/psi/nit.rs
index cb0060e..e118552 100644
--- a/src/psi/nit.rs
+++ b/src/psi/nit.rs
@@ -101,11 +101,15 @@ impl Nit {
             return;
         }
 
+        let descriptors_len = (psi.buffer[8 ..].get_u16() & 0x0FFF) as usize;
+        if 12 + descriptors_len > psi.size - 4 {
+            return;
+        }
+
         self.table_id = psi.buffer[0];
         self.network_id = psi.buffer[3 ..].get_u16();
         self.version = (psi.buffer[5] & 0x3E) >> 1;
 
-        let descriptors_len = (psi.buffer[8 ..].get_u16() & 0x0FFF) as usize;
         self.descriptors.parse(&psi.buffer[10 .. 10 + descriptors_len]);
 
         let ptr = &psi.buffer[12 + descriptors_len .. psi.size - 4];
diff --git a/src/psi/pmt.rs b/src/psi/pmt.rs
index fdc5002..7bd6eb0 100644
--- a/src/psi/pmt.rs
+++ b/src/psi/pmt.rs
@@ -133,11 +133,15 @@ impl Pmt {
             return;
         }
 
+        let descriptors_len = (psi.buffer[10 ..].get_u16() & 0x0FFF) as usize;
+        if 12 + descriptors_len > psi.size - 4 {
+            return;
+        }
+
         self.pnr = psi.buffer[3 ..].get_u16();
         self.version = (psi.buffer[5] & 0x3E) >> 1;
         self.pcr = psi.buffer[8 ..].get_u16() & 0x1FFF;
 
-        let descriptors_len = (psi.buffer[10 ..].get_u16() & 0x0FFF) as usize;
         self.descriptors.parse(&psi.buffer[12 .. 12 + descriptors_len]);
 
         let ptr = &psi.buffer[12 + descriptors_len .. psi.size - 4];
diff --git a/src/psi/tot.rs b/src/psi/tot.rs
index a164000..927e7cd 100644
--- a/src/psi/tot.rs
+++ b/src/psi/tot.rs
@@ -45,10 +45,14 @@ impl Tot {
             return;
         }
 
+        let descriptors_len = (psi.buffer[8 ..].get_u16() & 0x0FFF) as usize;
+        if 10 + descriptors_len > psi.size - 4 {
+            return;
+        }
+
         self.time = psi.buffer[3 ..].get_u16().from_mjd() +
             u64::from(psi.buffer[5 ..].get_u24().from_bcd_time());
 
-        let descriptors_len = (psi.buffer[8 ..].get_u16() & 0x0FFF) as usize;
         self.descriptors.parse(&psi.buffer[10 .. 10 + descriptors_len]);
     }
 }
-- 
2.43.0


From 929e3aba590899cc807d0e0b23e35183d4c8f0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:21:09 +0000
Subject: [PATCH 03/27] fix: do not parse an incomplete TDT section

Tdt::parse is called while the section is still being collected and read
bytes that were not received yet.
---
 src/psi/tdt.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/psi/tdt.rs b/src/psi/tdt.rs
index b491402..63a1b62 100644
--- a/src/psi/tdt.rs
+++ b/src/psi/tdt.rs
@@ -33,6 +33,7 @@ impl Tdt {
     #[inline]
     fn check(&self, psi: &Psi) -> bool {
         psi.size == 8 &&
+        psi.buffer.len() >= psi.size &&
         psi.buffer[0] == 0x70
     }
 
-- 
2.43.0


From aacf1e7c6eab9e8c0bb0e898b261a08cdfaea04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:21:10 +0000
Subject: [PATCH 04/27] fix: accept any received BCD digits and dates

Received time fields may hold any bits. Digits above 9 and dates before
1970 made the parsers panic (or wrap around in release builds). Dates
before the epoch now give the epoch.
---
 src/psi/utils/bcd.rs | 2 --
 src/psi/utils/mjd.rs | 3 +--
 2 files changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/psi/utils/bcd.rs b/src/psi/utils/bcd.rs
index 372826d..cd165e7 100644
--- a/src/psi/utils/bcd.rs
+++ b/src/psi/utils/bcd.rs
@@ -17,8 +17,6 @@ pub trait BCD {
 impl BCD for u8 {
     #[inline]
     fn from_bcd(self) -> Self {
-        debug_assert!((self & 0xF0) < 0xA0);
-        debug_assert!((self & 0x0F) < 0x0A);
         self - (self >> 4) * 6
     }
 
diff --git a/src/psi/utils/mjd.rs b/src/psi/utils/mjd.rs
index a261d97..e6fcfa1 100644
--- a/src/psi/utils/mjd.rs
+++ b/src/psi/utils/mjd.rs
@@ -17,8 +17,7 @@ pub trait MJDTo {
 impl MJDFrom for u16 {
     #[inline]
     fn from_mjd(self) -> u64 {
-        debug_assert!(self >= 40587);
-        (u64::from(self) - 40587) * 86400
+        u64::from(self).saturating_sub(40587) * 86400
     }
 }
 
-- 
2.43.0


From 819b220754dd66d415277dda99bc543b3855ee49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:21:11 +0000
Subject: [PATCH 05/27] fix: do not overflow on BCD times above 4 hours

The hours of a 16-bit BCD time were multiplied by 60 as u8.
---
 src/psi/utils/bcd.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psi/utils/bcd.rs b/src/psi/utils/bcd.rs
index cd165e7..4e1595e 100644
--- a/src/psi/utils/bcd.rs
+++ b/src/psi/utils/bcd.rs
@@ -65,7 +65,7 @@ pub trait BCDTime {
 impl BCDTime for u16 {
     #[inline]
     fn from_bcd_time(self) -> Self {
-        u16::from(u8::from_bcd((self >> 8) as u8) * 60) +
+        u16::from(u8::from_bcd((self >> 8) as u8)) * 60 +
         u16::from(u8::from_bcd(self as u8))
     }
 
-- 
2.43.0


From ef429508dda12927dbbd4500ed9f95ba1cc21eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:21:42 +0000
Subject: [PATCH 06/27] fix: check text lengths of received service and event
 descriptors

The checks of descriptors 0x48, 0x4D and 0x4E indexed beyond the end of
a descriptor with inconsistent lengths. Items of 0x4E were not checked
at all. Such descriptors are now kept raw.
---
 src/psi/descriptors/x48.rs |  5 ++++-
 src/psi/descriptors/x4d.rs |  5 ++++-
 src/psi/descriptors/x4e.rs | 21 +++++++++++++++++++--
 3 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/psi/descriptors/x48.rs b/src/psi/descriptors/x48.rs
index c3831f1..7e4268f 100644
--- a/src/psi/descriptors/x48.rs
+++ b/src/psi/descriptors/x48.rs
@@ -34,7 +34,10 @@ impl Desc48 {
         }
 
         let provider_length = usize::from(slice[3]);
-        let name_length = usize::from(slice[4 + provider_length]);
+        let name_length = match slice.get(4 + provider_length) {
+            Some(&v) => usize::from(v),
+            None => return false,
+        };
 
         usize::from(slice[1]) == MIN_SIZE - 2 + provider_length + name_length
     }
diff --git a/src/psi/descriptors/x4d.rs b/src/psi/descriptors/x4d.rs
index 35f87ca..f8bd8fb 100644
--- a/src/psi/descriptors/x4d.rs
+++ b/src/psi/descriptors/x4d.rs
@@ -34,7 +34,10 @@ impl Desc4D {
         }
 
         let event_name_length = usize::from(slice[5]);
-        let text_length = usize::from(slice[6 + event_name_length]);
+        let text_length = match slice.get(6 + event_name_length) {
+            Some(&v) => usize::from(v),
+            None => return false,
+        };
         usize::from(slice[1]) == MIN_SIZE - 2 + event_name_length + text_length
     }
 
diff --git a/src/psi/descriptors/x4e.rs b/src/psi/descriptors/x4e.rs
index 762bc3c..d5c1ad0 100644
--- a/src/psi/descriptors/x4e.rs
+++ b/src/psi/descriptors/x4e.rs
@@ -42,8 +42,25 @@ impl Desc4E {
         }
 
         let length_of_items = usize::from(slice[6]);
-        let text_length = usize::from(slice[7 + length_of_items]);
-        usize::from(slice[1]) == MIN_SIZE - 2 + length_of_items + text_length
+        let text_length = match slice.get(7 + length_of_items) {
+            Some(&v) => usize::from(v),
+            None => return false,
+        };
+        if usize::from(slice[1]) != MIN_SIZE - 2 + length_of_items + text_length {
+            return false;
+        }
+
+        // pairs of texts should fill items exactly
+        let items_e = 7 + length_of_items;
+        let mut skip = 7;
+        while skip < items_e {
+            skip += 1 + usize::from(slice[skip]);
+            if skip >= items_e {
+                return false;
+            }
+            skip += 1 + usize::from(slice[skip]);
+        }
+        skip == items_e
     }
 
     pub fn parse(slice: &[u8]) -> Self {
-- 
2.43.0


From 2783784aac8ea66875be8551899ce20d6e237a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:21:43 +0000
Subject: [PATCH 07/27] fix: count length bytes of items in the extended event
 descriptor

Desc4E::size() left out the two length bytes of each item, so the length
written was too small and everything behind the descriptor shifted.
---
 src/psi/descriptors/x4e.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psi/descriptors/x4e.rs b/src/psi/descriptors/x4e.rs
index d5c1ad0..5df1e7b 100644
--- a/src/psi/descriptors/x4e.rs
+++ b/src/psi/descriptors/x4e.rs
@@ -105,7 +105,7 @@ impl Desc for Desc4E {
     fn size(&self) -> usize {
         let mut items_size = 0;
         for (item_desc, item_text) in &self.items {
-            items_size += item_desc.size() + item_text.size();
+            items_size += 2 + item_desc.size() + item_text.size();
         }
         MIN_SIZE + items_size + self.text.size()
     }
-- 
2.43.0


From c3ad8878c2e5f942837adb0b5137c6a6a1f3a47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:21:43 +0000
Subject: [PATCH 08/27] fix: clone raw descriptors with a known tag

A descriptor of a known type with unexpected content is kept raw.
Cloning it panicked on the downcast by tag.
---
 src/psi/descriptors/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/psi/descriptors/mod.rs b/src/psi/descriptors/mod.rs
index 0c85eb4..1a0c4af 100644
--- a/src/psi/descriptors/mod.rs
+++ b/src/psi/descriptors/mod.rs
@@ -52,6 +52,11 @@ pub struct Descriptor(Box<dyn Desc>);
 
 impl Clone for Descriptor {
     fn clone(&self) -> Self {
+        // descriptor with any tag could be raw
+        if let Some(desc) = self.0.as_any_ref().downcast_ref::<DescRaw>() {
+            return desc.clone().into();
+        }
+
         match self.0.tag() {
             0x09 => self.downcast_ref::<Desc09>().clone().into(),
             0x0A => self.downcast_ref::<Desc0A>().clone().into(),
-- 
2.43.0


From 9fbdb3e4262ecd02692c81ba7ab225e8383a1e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:22:13 +0000
Subject: [PATCH 09/27] fix: leave out descriptors that do not fit in 255 bytes

The length byte of an oversize descriptor was cut to 8 bits, which
corrupted the loop it was in. Desc4E already left itself out but was
still counted in the size of the list.
---
 src/psi/descriptors/mod.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/psi/descriptors/mod.rs b/src/psi/descriptors/mod.rs
index 1a0c4af..8ebfdbf 100644
--- a/src/psi/descriptors/mod.rs
+++ b/src/psi/descriptors/mod.rs
@@ -131,6 +131,10 @@ impl Descriptor {
 }
 
 
+/// Maximum descriptor size: tag, length, and up to 255 bytes of content
+const DESC_MAX_SIZE: usize = 2 + 0xFF;
+
+
 /// Array of descriptors
 #[derive(Default, Clone)]
 pub struct Descriptors(Vec<Descriptor>);
@@ -158,13 +162,20 @@ impl Descriptors {
     pub fn assemble(&self, buffer: &mut Vec<u8>) -> usize {
         let size = buffer.len();
         for item in &self.0 {
-            item.assemble(buffer);
+            if item.size() <= DESC_MAX_SIZE {
+                item.assemble(buffer);
+            }
         }
         buffer.len() - size
     }
 
     #[inline]
-    pub fn size(&self) -> usize { self.0.iter().fold(0, |acc, x| acc + x.size()) }
+    pub fn size(&self) -> usize {
+        self.0.iter()
+            .map(|x| x.size())
+            .filter(|&x| x <= DESC_MAX_SIZE)
+            .sum()
+    }
 
     #[inline]
     pub fn is_empty(&self) -> bool { self.0.is_empty() }
-- 
2.43.0


From dee5d7055cbd31c658d7dde6c0382697372bdc9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:22:14 +0000
Subject: [PATCH 10/27] fix: always use three bytes for language and country
 codes

The codes were handled as DVB text: a first byte below 0x20 was taken as
codepage identifier on parsing, and on assembling the field had another
size when the code was not 3 bytes long or not in the default codepage.
---
 src/psi/descriptors/x0a.rs |  4 ++--
 src/psi/descriptors/x4d.rs |  4 ++--
 src/psi/descriptors/x4e.rs |  4 ++--
 src/psi/descriptors/x58.rs |  4 ++--
 src/textcode/mod.rs        | 16 ++++++++++++++++
 5 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/psi/descriptors/x0a.rs b/src/psi/descriptors/x0a.rs
index 29c5657..dfcd963 100644
--- a/src/psi/descriptors/x0a.rs
+++ b/src/psi/descriptors/x0a.rs
@@ -42,7 +42,7 @@ impl Desc0A {
         let mut skip = 2;
 
         while slice.len() > skip {
-            let code = StringDVB::from(&slice[skip .. skip + 3]);
+            let code = StringDVB::from_code(&slice[skip .. skip + 3]);
             let audio_type = slice[skip + 3];
             result.items.push(Desc0Ai {
                 code,
@@ -71,7 +71,7 @@ impl Desc for Desc0A {
         buffer.push((self.size() - 2) as u8);
 
         for item in &self.items {
-            item.code.assemble(buffer);
+            item.code.assemble_code(buffer);
             buffer.push(item.audio_type);
         }
     }
diff --git a/src/psi/descriptors/x4d.rs b/src/psi/descriptors/x4d.rs
index f8bd8fb..d0428af 100644
--- a/src/psi/descriptors/x4d.rs
+++ b/src/psi/descriptors/x4d.rs
@@ -48,7 +48,7 @@ impl Desc4D {
         let text_e = text_s + slice[name_e] as usize;
 
         Desc4D {
-            lang: StringDVB::from(&slice[2 .. 5]),
+            lang: StringDVB::from_code(&slice[2 .. 5]),
             name: StringDVB::from(&slice[name_s .. name_e]),
             text: StringDVB::from(&slice[text_s .. text_e]),
         }
@@ -71,7 +71,7 @@ impl Desc for Desc4D {
         buffer.push(0x4D);
         buffer.push((self.size() - 2) as u8);
 
-        self.lang.assemble(buffer);
+        self.lang.assemble_code(buffer);
         self.name.assemble_sized(buffer);
         self.text.assemble_sized(buffer);
     }
diff --git a/src/psi/descriptors/x4e.rs b/src/psi/descriptors/x4e.rs
index 5df1e7b..fd3881c 100644
--- a/src/psi/descriptors/x4e.rs
+++ b/src/psi/descriptors/x4e.rs
@@ -72,7 +72,7 @@ impl Desc4E {
         Desc4E {
             number: slice[2] >> 4,
             last_number: slice[2] & 0x0F,
-            lang: StringDVB::from(&slice[3 .. 6]),
+            lang: StringDVB::from_code(&slice[3 .. 6]),
             items: {
                 let mut out: Vec<(StringDVB, StringDVB)> = Vec::new();
                 while items_s < items_e {
@@ -120,7 +120,7 @@ impl Desc for Desc4E {
         buffer.push(size as u8);
         buffer.push(set_bits!(8, self.number, 4, self.last_number, 4));
 
-        self.lang.assemble(buffer);
+        self.lang.assemble_code(buffer);
 
         {
             let skip = buffer.len();
diff --git a/src/psi/descriptors/x58.rs b/src/psi/descriptors/x58.rs
index eddf401..e97f94b 100644
--- a/src/psi/descriptors/x58.rs
+++ b/src/psi/descriptors/x58.rs
@@ -53,7 +53,7 @@ impl Desc58 {
         let mut skip = 2;
 
         while slice.len() > skip {
-            let country_code = StringDVB::from(&slice[skip .. skip + 3]);
+            let country_code = StringDVB::from_code(&slice[skip .. skip + 3]);
             let region_id = slice[skip + 3] >> 2;
             let offset_polarity = slice[skip + 3] & 0x01;
             let offset = slice[skip + 4 ..].get_u16().from_bcd_time();
@@ -91,7 +91,7 @@ impl Desc for Desc58 {
         buffer.push((self.size() - 2) as u8);
 
         for item in &self.items {
-            item.country_code.assemble(buffer);
+            item.country_code.assemble_code(buffer);
 
             let skip = buffer.len();
             buffer.resize(skip + 10, 0x00);
diff --git a/src/textcode/mod.rs b/src/textcode/mod.rs
index 3ed2126..bee58b9 100644
--- a/src/textcode/mod.rs
+++ b/src/textcode/mod.rs
@@ -178,6 +178,22 @@ impl StringDVB {
         }
     }
 
+    /// Creates StringDVB from 3 bytes of the language or country code.
+    /// Code has no codepage identifier
+    pub(crate) fn from_code(data: &[u8]) -> Self {
+        StringDVB {
+            codepage: ISO6937,
+            data: Vec::from(data),
+        }
+    }
+
+    /// Writes language or country code into buffer. Always 3 bytes
+    pub(crate) fn assemble_code(&self, dst: &mut Vec<u8>) {
+        for i in 0 .. 3 {
+            dst.push(self.data.get(i).cloned().unwrap_or(b' '));
+        }
+    }
+
     #[inline]
     pub fn get_codepage(&self) -> u8 {
         self.codepage
-- 
2.43.0


From f7a311361b28994caaf1bf9aaf86d6c867a58251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:22:15 +0000
Subject: [PATCH 11/27] fix: keep delivery system descriptors with impossible
 values raw

Descriptors 0x43 and 0x44 accepted digits above 9 and gave other bytes
when assembled again. The frequency of 0x44 and 0x5A overflowed.
---
 src/psi/descriptors/mod.rs |  6 ++++++
 src/psi/descriptors/x43.rs |  9 +++++++--
 src/psi/descriptors/x44.rs | 10 ++++++++--
 src/psi/descriptors/x5a.rs |  3 ++-
 4 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/psi/descriptors/mod.rs b/src/psi/descriptors/mod.rs
index 8ebfdbf..476f2c9 100644
--- a/src/psi/descriptors/mod.rs
+++ b/src/psi/descriptors/mod.rs
@@ -131,6 +131,12 @@ impl Descriptor {
 }
 
 
+/// Returns `true` if all digits are decimal
+fn is_bcd(slice: &[u8]) -> bool {
+    slice.iter().all(|&x| x >> 4 < 10 && x & 0x0F < 10)
+}
+
+
 /// Maximum descriptor size: tag, length, and up to 255 bytes of content
 const DESC_MAX_SIZE: usize = 2 + 0xFF;
 
diff --git a/src/psi/descriptors/x43.rs b/src/psi/descriptors/x43.rs
index 0692971..6d8e522 100644
--- a/src/psi/descriptors/x43.rs
+++ b/src/psi/descriptors/x43.rs
@@ -10,7 +10,10 @@ use crate::{
     psi::BCD,
 };
 
-use super::Desc;
+use super::{
+    Desc,
+    is_bcd,
+};
 
 
 const MIN_SIZE: usize = 13;
@@ -45,7 +48,9 @@ pub struct Desc43 {
 
 impl Desc43 {
     pub fn check(slice: &[u8]) -> bool {
-        slice.len() == MIN_SIZE
+        slice.len() == MIN_SIZE &&
+        is_bcd(&slice[2 .. 8]) &&
+        is_bcd(&slice[9 .. 12])
     }
 
     pub fn parse(slice: &[u8]) -> Self {
diff --git a/src/psi/descriptors/x44.rs b/src/psi/descriptors/x44.rs
index 2375d9c..c9633ea 100644
--- a/src/psi/descriptors/x44.rs
+++ b/src/psi/descriptors/x44.rs
@@ -10,7 +10,10 @@ use crate::{
     psi::BCD,
 };
 
-use super::Desc;
+use super::{
+    Desc,
+    is_bcd,
+};
 
 
 const MIN_SIZE: usize = 13;
@@ -36,7 +39,10 @@ pub struct Desc44 {
 
 impl Desc44 {
     pub fn check(slice: &[u8]) -> bool {
-        slice.len() == MIN_SIZE
+        slice.len() == MIN_SIZE &&
+        is_bcd(&slice[2 .. 6]) &&
+        is_bcd(&slice[9 .. 12]) &&
+        slice[2 ..].get_u32().from_bcd() <= u32::max_value() / 100
     }
 
     pub fn parse(slice: &[u8]) -> Self {
diff --git a/src/psi/descriptors/x5a.rs b/src/psi/descriptors/x5a.rs
index a8e0e49..0d3029e 100644
--- a/src/psi/descriptors/x5a.rs
+++ b/src/psi/descriptors/x5a.rs
@@ -55,7 +55,8 @@ pub struct Desc5A {
 
 impl Desc5A {
     pub fn check(slice: &[u8]) -> bool {
-        slice.len() == MIN_SIZE
+        slice.len() == MIN_SIZE &&
+        slice[2 ..].get_u32() <= u32::max_value() / 10
     }
 
     pub fn parse(slice: &[u8]) -> Self {
-- 
2.43.0


From 10d23ebaae1b800a1e7b9288fe7318bd4eb2d03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:22:43 +0000
Subject: [PATCH 12/27] fix: treat reserved codepage identifiers as unknown
 text

Received text with a reserved identifier got a codepage without a map,
so printing it panicked, and 0x00 was taken for ISO 8859-4. Such text is
now handled as other unsupported text.
---
 src/textcode/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/textcode/mod.rs b/src/textcode/mod.rs
index bee58b9..6de21cc 100644
--- a/src/textcode/mod.rs
+++ b/src/textcode/mod.rs
@@ -315,12 +315,12 @@ impl<'a> From<&'a [u8]> for StringDVB {
                 codepage: 0,
                 data: Vec::from(data),
             }
-        } else if data[0] < 0x10 {
+        } else if data[0] >= 0x01 && data[0] < 0x10 && get_codepage_map(data[0] + 4).is_some() {
             StringDVB {
                 codepage: data[0] + 4,
                 data: Vec::from(&data[1 ..]),
             }
-        } else if data[0] == 0x10 && data.len() >= 3 {
+        } else if data[0] == 0x10 && data.len() >= 3 && data[2] != ISO6937 && get_codepage_map(data[2]).is_some() {
             StringDVB {
                 codepage: data[2],
                 data: Vec::from(&data[3 ..]),
-- 
2.43.0


From c72753122b52875c00bc255e204add11c9232f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:22:44 +0000
Subject: [PATCH 13/27] fix: do not cut code points to 16 bits when encoding
 text

Characters beyond U+FFFF were encoded as unrelated characters or
control codes instead of the question mark.
---
 src/textcode/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/textcode/mod.rs b/src/textcode/mod.rs
index 6de21cc..8b0fa3b 100644
--- a/src/textcode/mod.rs
+++ b/src/textcode/mod.rs
@@ -154,14 +154,14 @@ impl StringDVB {
             data: {
                 let mut data: Vec<u8> = Vec::new();
                 for c in s.chars() {
-                    let c = c as u16;
+                    let c = c as u32;
                     if c <= 0x007F {
                         data.push(c as u8);
                     } else if c >= 0x00A0 {
-                        if let Some(v) = map.iter().position(|&u| u == c) {
+                        if let Some(v) = map.iter().position(|&u| u32::from(u) == c) {
                             data.push((v as u8) + 0xA0);
                         } else {
-                            match c as u16 {
+                            match c {
                                 0x00AB | 0x00BB => data.push(b'"'), /* LEFT/RIGHT-POINTING DOUBLE ANGLE QUOTATION MARK */
                                 0x2018 | 0x2019 => data.push(b'\''), /* LEFT/RIGHT SINGLE QUOTATION MARK */
                                 0x201B => data.push(b'\''), /* SINGLE HIGH-REVERSED-9 QUOTATION MARK */
-- 
2.43.0


From 7accc7d6d5c64da1bc29be01bfe51a6bb08e9dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:22:44 +0000
Subject: [PATCH 14/27] fix: truncate text to small sizes and on character
 boundaries

Truncating to less than three bytes panicked, and UTF-8 text could be
cut inside of a character.
---
 src/textcode/mod.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/textcode/mod.rs b/src/textcode/mod.rs
index 8b0fa3b..811e67a 100644
--- a/src/textcode/mod.rs
+++ b/src/textcode/mod.rs
@@ -256,12 +256,27 @@ impl StringDVB {
         dst[size] = (dst.len() - size - 1) as u8;
     }
 
+    /// Returns the nearest position not greater than `pos` that does not
+    /// divide UTF-8 character
+    fn char_boundary(&self, pos: usize) -> usize {
+        if self.codepage == UTF8 {
+            for x in 0 .. cmp::min(4, pos + 1) {
+                match self.data.get(pos - x) {
+                    Some(v) if v & 0xC0 == 0x80 => {},
+                    _ => return pos - x,
+                }
+            }
+        }
+
+        pos
+    }
+
     pub fn truncate(&mut self, size: usize) {
         if self.data.len() > size {
-            self.data.resize(size, 0);
-            self.data[size - 1] = b'.';
-            self.data[size - 2] = b'.';
-            self.data[size - 3] = b'.';
+            let dots = cmp::min(size, 3);
+            let skip = self.char_boundary(size - dots);
+            self.data.truncate(skip);
+            self.data.resize(skip + dots, b'.');
         }
     }
 
-- 
2.43.0


From 45f917b1a6035296dd9939ab9975008d003e822c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:22:45 +0000
Subject: [PATCH 15/27] fix: do not split text inside of 4-byte characters

Only two bytes were checked back from the split position.
---
 src/textcode/mod.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/textcode/mod.rs b/src/textcode/mod.rs
index 811e67a..62f2347 100644
--- a/src/textcode/mod.rs
+++ b/src/textcode/mod.rs
@@ -297,13 +297,8 @@ impl StringDVB {
         let mut skip = 0;
         while skip < self.data.len() {
             let mut next = cmp::min(self.data.len(), skip + size);
-            if self.codepage == UTF8 && next < self.data.len() {
-                for _ in 1 .. 3 {
-                    if self.data[next] & 0xC0 != 0x80 {
-                        break;
-                    }
-                    next -= 1;
-                }
+            if next < self.data.len() {
+                next = self.char_boundary(next);
             }
             out.push(StringDVB {
                 codepage: self.codepage,
-- 
2.43.0


From 51b353f11458fe6a894940f95e2660147b32e175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:26:17 +0000
Subject: [PATCH 16/27] fix: return no payload offset if there is no payload in
 the packet

The adaptation field size was added without a check, so that the sum
overflows for large sizes and the offset was returned for packets
without payload.
---
 src/psi/mod.rs |  2 +-
 src/ts/mod.rs  | 13 +++++++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/psi/mod.rs b/src/psi/mod.rs
index ad66cd6..e69b645 100644
--- a/src/psi/mod.rs
+++ b/src/psi/mod.rs
@@ -107,7 +107,7 @@ impl Psi {
         }
 
         let ts_offset = ts::get_payload_offset(ts) as usize;
-        if ts_offset >= 188 {
+        if ts_offset == 0 {
             self.clear();
             return;
         }
diff --git a/src/ts/mod.rs b/src/ts/mod.rs
index aad30df..1121309 100644
--- a/src/ts/mod.rs
+++ b/src/ts/mod.rs
@@ -80,10 +80,19 @@ pub fn is_adaptation(ts: &[u8]) -> bool { (ts[3] & 0x20) != 0x00 }
 /// In the PSI packets the `pointer field` is a part of payload, so it do not sums.
 #[inline]
 pub fn get_payload_offset(ts: &[u8]) -> u8 {
+    if ! is_payload(ts) {
+        return 0;
+    }
+
     if ! is_adaptation(ts) {
-        4
+        return 4;
+    }
+
+    let adaptation_size = get_adaptation_size(ts);
+    if adaptation_size < 183 {
+        4 + 1 + adaptation_size
     } else {
-        4 + 1 + get_adaptation_size(ts)
+        0
     }
 }
 
-- 
2.43.0


From 167a740bb76212ae76425409d95a9ed2d64b7576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:26:18 +0000
Subject: [PATCH 17/27] fix: continue the next section after a complete one in
 Psi::mux

When a packet finished a section and started the next one, the complete
section stayed at the head of the buffer, so that the rest of the next
section was cut off and the first one was reported again. A packet
received before any section start was taken as a section start. The
pointer field was not checked against the payload of packets with
adaptation field.
---
 src/psi/mod.rs | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/psi/mod.rs b/src/psi/mod.rs
index e69b645..3f22d69 100644
--- a/src/psi/mod.rs
+++ b/src/psi/mod.rs
@@ -100,6 +100,16 @@ impl Psi {
         }
     }
 
+    /// Drops complete PSI packets from the beginning of the buffer.
+    /// Part of the next PSI packet remains in the buffer
+    fn shift(&mut self) {
+        while self.size != 0 && self.buffer.len() >= self.size {
+            self.buffer.drain(0 .. self.size);
+            self.size = 0;
+            self.push(&[]);
+        }
+    }
+
     /// Mux TS packets into single PSI packet
     pub fn mux(&mut self, ts: &[u8]) {
         if ! ts::is_payload(ts) {
@@ -116,15 +126,16 @@ impl Psi {
 
         if ts::is_pusi(ts) {
             let pointer_field = ts[ts_offset] as usize;
-            if pointer_field >= 183 {
+            let ts_offset = ts_offset + 1;
+            if ts_offset + pointer_field >= 188 {
                 self.clear();
                 return;
             }
-            let ts_offset = ts_offset + 1;
 
             if pointer_field == 0 || cc != (self.cc + 1) & 0x0F {
                 self.clear();
             }
+            self.shift();
 
             // TODO: save pid into self.pid
             if self.buffer.is_empty() {
@@ -133,10 +144,6 @@ impl Psi {
                     self.buffer.resize(self.size, 0x00);
                 }
             } else {
-                if self.size != 0 && self.buffer.len() > self.size {
-                    self.buffer.drain(0 .. self.size);
-                    self.size = 0;
-                }
                 self.push(&ts[ts_offset .. 188]);
             }
         } else {
@@ -145,9 +152,12 @@ impl Psi {
                 return;
             }
 
-            self.push(&ts[ts_offset .. 188]);
-            if self.buffer.len() > self.size {
-                self.buffer.resize(self.size, 0x00);
+            self.shift();
+            if ! self.buffer.is_empty() {
+                self.push(&ts[ts_offset .. 188]);
+                if self.size != 0 && self.buffer.len() > self.size {
+                    self.buffer.resize(self.size, 0x00);
+                }
             }
         }
 
-- 
2.43.0


From 9beef25fd087b6380a5e3d592add390c2a8d804f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:28:06 +0000
Subject: [PATCH 18/27] fix: do not lose a packet on reading into an empty
 buffer

TsDrain took the next packet from the source for an empty buffer and
took another one for the next call.
---
 src/reader/drain.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/reader/drain.rs b/src/reader/drain.rs
index db4a198..7ac60c6 100644
--- a/src/reader/drain.rs
+++ b/src/reader/drain.rs
@@ -54,6 +54,10 @@ impl<R: TsRead> TsDrain<R> {
 
 impl<R: TsRead> Read for TsDrain<R> {
     fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        if buf.is_empty() {
+            return Ok(0);
+        }
+
         if self.pos == 0 {
             if buf.len() >= ts::PACKET_SIZE {
                 return self.inner.read(buf);
-- 
2.43.0


From 00afde062d25c0bed6eb8fbe3ba49dabda0e7ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:28:06 +0000
Subject: [PATCH 19/27] fix: retry interrupted reads in TsReader

An interrupted read in the middle of a packet lost the received part of
the packet and the sync.
---
 src/reader/mod.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/reader/mod.rs b/src/reader/mod.rs
index 79c6bce..25c1ecf 100644
--- a/src/reader/mod.rs
+++ b/src/reader/mod.rs
@@ -49,6 +49,16 @@ impl<R: fmt::Debug + Read> TsReader<R> {
     #[inline]
     pub fn into_inner(self) -> R { self.inner }
 
+    /// Reads from the underlying reader. Retries if interrupted
+    fn read_inner(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        loop {
+            match self.inner.read(buf) {
+                Err(ref e) if e.kind() == io::ErrorKind::Interrupted => continue,
+                result => return result,
+            }
+        }
+    }
+
     /// Parses TS packets
     fn parse(&mut self, packet: &[u8]) {
         let _pid = ts::get_pid(packet);
@@ -74,7 +84,7 @@ impl<R: fmt::Debug + Read> TsRead for TsReader<R> {
         let mut skip = 0;
 
         while skip == 0 {
-            let x = self.inner.read(&mut packet[.. 1])?;
+            let x = self.read_inner(&mut packet[.. 1])?;
             if x == 0 {
                 return Ok(0)
             }
@@ -84,7 +94,7 @@ impl<R: fmt::Debug + Read> TsRead for TsReader<R> {
         }
 
         while skip != ts::PACKET_SIZE {
-            let x = self.inner.read(&mut packet[skip .. ts::PACKET_SIZE])?;
+            let x = self.read_inner(&mut packet[skip .. ts::PACKET_SIZE])?;
             if x == 0 {
                 return Ok(0)
             }
-- 
2.43.0


From df20ce7aa918027528bed45a38aec09cd4a57312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:28:07 +0000
Subject: [PATCH 20/27] fix: continue PAT in the next section

Programs which did not fit in the first section were lost.
---
 src/psi/pat.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/psi/pat.rs b/src/psi/pat.rs
index ddb4f2d..b8901e8 100644
--- a/src/psi/pat.rs
+++ b/src/psi/pat.rs
@@ -95,22 +95,27 @@ impl Pat {
             skip += 4;
         }
     }
+
+    fn psi_init(&self) -> Psi {
+        let mut psi = Psi::new(0x00, 8, self.version);
+        psi.buffer[3 ..].set_u16(self.tsid);
+        psi
+    }
 }
 
 
 impl PsiDemux for Pat {
     fn psi_list_assemble(&self) -> Vec<Psi> {
-        let mut psi = Psi::new(0x00, 8, self.version);
-        psi.buffer[3 ..].set_u16(self.tsid);
+        let mut psi_list = vec![self.psi_init()];
 
         for item in &self.items {
-            if psi.buffer.len() + item.size() > PAT_SECTION_SIZE {
-                break;
+            if psi_list.last().unwrap().buffer.len() + item.size() > PAT_SECTION_SIZE {
+                psi_list.push(self.psi_init());
             }
-            item.assemble(&mut psi.buffer);
+            item.assemble(&mut psi_list.last_mut().unwrap().buffer);
         }
 
-        vec![psi]
+        psi_list
     }
 }
 
-- 
2.43.0


From a298542d2194b20422802c7a8deb6b7172e15f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:28:08 +0000
Subject: [PATCH 21/27] fix: use actual table ids in EIT schedule

The first section with events had the table id of the Eit instead of the
first one of the schedule. The last table id was calculated from the
start time, and did not match the sections if there are gaps in the
schedule.
---
 src/psi/eit.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/psi/eit.rs b/src/psi/eit.rs
index 82ee8f8..47ca7d2 100644
--- a/src/psi/eit.rs
+++ b/src/psi/eit.rs
@@ -203,13 +203,6 @@ impl PsiDemux for Eit {
         let first_item = self.items.first().unwrap();
         let mut midnight = first_item.start / DAY_DURATION * DAY_DURATION;
 
-        // Last table id
-        let last_table_id = {
-            let last_item = self.items.last().unwrap();
-            let service_duration = last_item.start - midnight;
-            let service_segments = service_duration / SEG_DURATION;
-            table_id + (service_segments / 32) as u8
-        };
         let mut current_table_id = self.table_id & 0xF0;
 
         let mut current_section: u8 = 0;
@@ -239,6 +232,7 @@ impl PsiDemux for Eit {
 
         {
             let mut psi = self.psi_init();
+            psi.buffer[0] = current_table_id;
             psi.buffer[6] = current_section;
             psi_list.push(psi);
         }
@@ -282,6 +276,7 @@ impl PsiDemux for Eit {
 
         // TODO: fix Segment_last_Section_number
 
+        let last_table_id = current_table_id;
         current_table_id = 0x00;
         let mut last_section_number = 0x00;
 
-- 
2.43.0


From a37e9efc46c566bfcf4b3893c1b753c611658f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:28:09 +0000
Subject: [PATCH 22/27] fix: keep event duration of 24 hours and more

The duration was converted as time of the day, so that whole days were
lost.
---
 src/psi/eit.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/psi/eit.rs b/src/psi/eit.rs
index 47ca7d2..3cbba81 100644
--- a/src/psi/eit.rs
+++ b/src/psi/eit.rs
@@ -8,6 +8,7 @@
 use crate::{
     bytes::Bytes,
     psi::{
+        BCD,
         BCDTime,
         MJDFrom,
         MJDTo,
@@ -25,6 +26,10 @@ pub const EIT_PID: u16 = 0x0012;
 const EIT_SECTION_SIZE: usize = 4096 - 4;
 
 
+/// Maximum event duration - 99:59:59
+const EIT_DURATION_MAX: u32 = 100 * 3600 - 1;
+
+
 /// EIT Item
 #[derive(Debug, Default, Clone)]
 pub struct EitItem {
@@ -72,7 +77,10 @@ impl EitItem {
         buffer[skip ..].set_u16(self.event_id);
         buffer[skip + 2 ..].set_u16(self.start.to_mjd());
         buffer[skip + 4 ..].set_u24((self.start as u32).to_bcd_time());
-        buffer[skip + 7 ..].set_u24(self.duration.to_bcd_time());
+        let duration = std::cmp::min(self.duration, EIT_DURATION_MAX);
+        buffer[skip + 7 ..].set_u24(
+            (u32::from(((duration / 3600) as u8).to_bcd()) << 16) |
+            (duration % 3600).to_bcd_time());
 
         let flags_10 = set_bits!(8,
             self.status, 3,
-- 
2.43.0


From 6c6596ad1624d59a72b425209ed1428632570c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:28:10 +0000
Subject: [PATCH 23/27] fix: compare incomplete PSI packets without panic

---
 src/psi/mod.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/psi/mod.rs b/src/psi/mod.rs
index 3f22d69..b3e3cd0 100644
--- a/src/psi/mod.rs
+++ b/src/psi/mod.rs
@@ -61,7 +61,7 @@ impl Default for Psi {
 
 impl PartialEq for Psi {
     fn eq(&self, other: &Psi) -> bool {
-        self.size == other.size && self.get_crc32() == other.get_crc32()
+        self.size == other.size && self.stored_crc32() == other.stored_crc32()
     }
 }
 
@@ -171,6 +171,16 @@ impl Psi {
         self.buffer[skip ..].get_u32()
     }
 
+    /// Returns the PSI packet checksum if it is already in the buffer
+    #[inline]
+    fn stored_crc32(&self) -> Option<u32> {
+        if self.size >= 4 && self.buffer.len() >= self.size {
+            Some(self.get_crc32())
+        } else {
+            None
+        }
+    }
+
     /// Calculates the PSI packet checksum
     #[inline]
     fn calc_crc32(&self) -> u32 {
-- 
2.43.0


From 144eccf4b9f4e81a2fb5246f9ac90f5c3f124dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:28:26 +0000
Subject: [PATCH 24/27] fix: count the wrap tick in pts_delta

PTS wraps after 2^33 ticks, so the difference across the wrap was one
tick short.
---
 src/es/pes.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/es/pes.rs b/src/es/pes.rs
index 472b0d0..6cb6a27 100644
--- a/src/es/pes.rs
+++ b/src/es/pes.rs
@@ -79,7 +79,7 @@ pub fn pts_delta(last_pts: u64, current_pts: u64) -> u64 {
     if current_pts >= last_pts {
         current_pts - last_pts
     } else {
-        current_pts + PTS_MAX - last_pts
+        current_pts + PTS_NONE - last_pts
     }
 }
 
-- 
2.43.0


From 1b5144a9679419510eec7757a7f5110b8e65a7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:28:27 +0000
Subject: [PATCH 25/27] fix: wrap the estimated clock in pcr_to_stc

The estimated value could be greater than any PCR, and the jitter
calculated from it overflows.
---
 src/ts/pcr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ts/pcr.rs b/src/ts/pcr.rs
index 8dc1b50..4b275d6 100644
--- a/src/ts/pcr.rs
+++ b/src/ts/pcr.rs
@@ -106,7 +106,7 @@ pub fn pcr_delta(last_pcr: u64, current_pcr: u64) -> u64 {
 /// ```
 #[inline]
 pub fn pcr_to_stc(last_pcr: u64, bytes: u64, last_delta: u64, last_bytes: u64) -> u64 {
-    last_delta * bytes / last_bytes + last_pcr
+    (last_delta * bytes / last_bytes + last_pcr) % PCR_NONE
 }
 
 
-- 
2.43.0


From 5ffea4bc676f7b68645fef763a6ab742db970f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:28:28 +0000
Subject: [PATCH 26/27] fix: count the wrap tick in pcr_jitter_ns

PCR wraps after PCR_NONE ticks, so the jitter of a late PCR was 37 ns
off.
---
 src/ts/pcr.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ts/pcr.rs b/src/ts/pcr.rs
index 4b275d6..fc4f963 100644
--- a/src/ts/pcr.rs
+++ b/src/ts/pcr.rs
@@ -115,14 +115,14 @@ pub fn pcr_to_stc(last_pcr: u64, bytes: u64, last_delta: u64, last_bytes: u64) -
 pub fn pcr_jitter_ns(pcr: u64, stc: u64) -> i64 {
     let mut result = {
         if pcr < stc {
-            pcr + PCR_MAX - stc
+            pcr + PCR_NONE - stc
         } else {
             pcr - stc
         }
     } as i64;
 
     if result > PCR_SYSTEM_CLOCK as i64 {
-        result -= PCR_MAX as i64;
+        result -= PCR_NONE as i64;
     }
 
     result * 1000 / PCR_CLOCK_US as i64
-- 
2.43.0


From 3ecb9515bef7c0c91317cc3449d0a5677b63bd01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:30:13 +0000
Subject: [PATCH 27/27] fix: give the Reed-Solomon outer FEC constant its own
 code point

FEC_OUTER_RS had the value of FEC_OUTER_NO_CODING. EN 300 468 assigns 0010
to RS(204/188).
---
 src/constants.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/constants.rs b/src/constants.rs
index b8d814b..47e436a 100644
--- a/src/constants.rs
+++ b/src/constants.rs
@@ -35,7 +35,7 @@ pub const MODULATION_DVB_T_64QAM: u8  = 0b10;
 
 pub const FEC_OUTER_NOT_DEFINED: u8 = 0b0000;
 pub const FEC_OUTER_NO_CODING: u8   = 0b0001;
-pub const FEC_OUTER_RS: u8          = 0b0001;
+pub const FEC_OUTER_RS: u8          = 0b0010;
 
 pub const FEC_NOT_DEFINED: u8 = 0b0000;
 pub const FEC_1_2: u8         = 0b0001;
-- 
2.43.0

