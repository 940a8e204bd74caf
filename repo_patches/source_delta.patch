From e294bb510f1d93396b243157cc638235d4bc3f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:10 +0000
Subject: [PATCH 01/25] fix: bound label reads and reject non-decreasing
 compression pointers in extract_fqdn

A name running to the end of the buffer panicked (out-of-bounds index or
slice), and pointers that do not lead to a prior name looped forever.
---
 src/buffer.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index 38f4717..be10850 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -136,7 +136,15 @@ impl<'a> DnsBuffer<'a> {
 
         let mut data = Vec::<Vec<u8>>::new();
         let mut org_pos = None;
+        // Start of the sequence of labels that is currently read. A compression pointer has to
+        // refer to a prior occurence of a name, so its target must be located before this position.
+        let mut start = self.pos;
         loop {
+            if self.pos >= self.data.len() {
+                // Name is not terminated inside of the buffer
+                return Err(DnsError::LengthViolation);
+            }
+
             let len = self.data[self.pos];
             if len & COMPRESSION_MASK == COMPRESSION_MASK {
                 // Instead of returning an error we should look up what the pointer value is
@@ -149,11 +157,12 @@ impl<'a> DnsBuffer<'a> {
                 self.pos = (u16::from_be_bytes(self.peek_bytes(2)?.try_into()?)
                     & !COMPRESSION_MASK_U16) as usize;
 
-                if self.pos >= org_pos.unwrap_or(0) {
+                if self.pos >= start {
                     self.pos = org_pos.unwrap_or(0);
                     return Err(DnsError::UnresolveableCompressionPointer);
                 }
-            } else if self.pos + len as usize > self.data.len() {
+                start = self.pos;
+            } else if len as usize > self.data.len() - self.pos - 1 {
                 // Length encoded in FQDN would run out of the buffer
                 return Err(DnsError::LengthViolation);
             } else if len == 0 {
-- 
2.43.0


From 2af0becc540de4d5df7d674217f3037e8da78eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:11 +0000
Subject: [PATCH 02/25] fix: reject reserved label types 0b01 and 0b10 when
 decoding names (RFC 1035 4.1.4)

---
 src/buffer.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/buffer.rs b/src/buffer.rs
index be10850..57e01bf 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -162,6 +162,9 @@ impl<'a> DnsBuffer<'a> {
                     return Err(DnsError::UnresolveableCompressionPointer);
                 }
                 start = self.pos;
+            } else if len & COMPRESSION_MASK != 0 {
+                // The label types 0b01 and 0b10 are reserved
+                return Err(DnsError::InvalidPacketData);
             } else if len as usize > self.data.len() - self.pos - 1 {
                 // Length encoded in FQDN would run out of the buffer
                 return Err(DnsError::LengthViolation);
-- 
2.43.0


From 833ac2d0571137df9f9fec5beaa9497af097c726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:13 +0000
Subject: [PATCH 03/25] fix: do not overflow when a DnsBuffer operation is
 given a huge length

---
 src/buffer.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index 57e01bf..bbbfde0 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -18,10 +18,10 @@ impl<'a> DnsBuffer<'a> {
     /// but with a custom length parameter. The start of the new buffer is at index 0 of
     /// the parent buffer.
     pub fn sub_buffer(&mut self, mut len: usize) -> Result<DnsBuffer, DnsError> {
-        len += self.pos;
-        if len > self.data.len() {
+        if len > self.remaining() {
             return Err(DnsError::LengthViolation);
         }
+        len += self.pos;
         Ok(Self {
             data: &self.data[0..len],
             pos: self.pos,
@@ -50,10 +50,10 @@ impl<'a> DnsBuffer<'a> {
 
     /// Advances the current index by `len` bytes.
     pub fn advance(&mut self, mut len: usize) -> Result<(), DnsError> {
-        len += self.pos;
-        if len > self.data.len() {
+        if len > self.remaining() {
             return Err(DnsError::LengthViolation);
         }
+        len += self.pos;
         self.pos = len;
         Ok(())
     }
@@ -61,7 +61,7 @@ impl<'a> DnsBuffer<'a> {
     /// Returns a read-only view into the buffer that starts at the current index and ends at
     /// the current position + len without modifying the internal state (e.g. the current index).
     pub fn peek_bytes(&self, len: usize) -> Result<&[u8], DnsError> {
-        if self.pos + len > self.data.len() {
+        if len > self.remaining() {
             return Err(DnsError::LengthViolation);
         }
         Ok(&self.data[self.pos..self.pos + len])
@@ -70,7 +70,7 @@ impl<'a> DnsBuffer<'a> {
     /// Returns a read-only view into the buffer that starts at the current index and ends at
     /// the current position + len and sets the current index to the end of the returned slice.
     pub fn extract_bytes(&mut self, len: usize) -> Result<&[u8], DnsError> {
-        if self.pos + len > self.data.len() {
+        if len > self.remaining() {
             return Err(DnsError::LengthViolation);
         }
 
-- 
2.43.0


From f90830e837512462f4fff461be7abb0cfa9381c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:44 +0000
Subject: [PATCH 04/25] fix: check SVCB parameter values against their
 announced length

A value shorter or longer than announced underflowed the length counter
(panic) or left the cursor inside of the value.
---
 src/rdata/svcb.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/rdata/svcb.rs b/src/rdata/svcb.rs
index f790ac8..8bf3884 100644
--- a/src/rdata/svcb.rs
+++ b/src/rdata/svcb.rs
@@ -199,22 +199,21 @@ impl<'a> TryFrom<&mut DnsBuffer<'a>> for Param {
 
     fn try_from(buffer: &mut DnsBuffer<'a>) -> Result<Self, Self::Error> {
         let key = ParamKey::try_from(buffer.extract_u16()?)?;
-        let mut len = buffer.extract_u16()? as usize;
+        let len = buffer.extract_u16()? as usize;
+        let end = buffer.position() + len;
         let val = match key {
             ParamKey::Mandatory => {
                 let mut keys = BTreeSet::default();
-                while len > 0 {
+                while buffer.position() < end {
                     keys.insert(buffer.extract_u16()?.try_into()?);
-                    len -= 2;
                 }
                 Self::Mandatory(keys)
             }
             ParamKey::Alpn => {
                 let mut alpn = Vec::default();
-                while len > 0 {
+                while buffer.position() < end {
                     let inner_len = buffer.extract_u8()? as usize;
                     alpn.push(buffer.extract_bytes(inner_len)?.to_vec());
-                    len -= inner_len + 1;
                 }
                 Self::Alpn(alpn)
             }
@@ -231,6 +230,10 @@ impl<'a> TryFrom<&mut DnsBuffer<'a>> for Param {
             },
             ParamKey::Invalid => Self::Invalid,
         };
+        if buffer.position() != end {
+            // The value does not match the length announced for it
+            return Err(DnsError::LengthViolation);
+        }
         Ok(val)
     }
 }
-- 
2.43.0


From a940c821ed8115ceea0bbd61149579b3379fbaba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:04 +0000
Subject: [PATCH 05/25] fix: reject type bitmap windows longer than 32 octets
 in NSEC and CSYNC

The computed record type overflowed for oversized bitmaps (RFC 4034 4.1.2
limits the bitmap length to 32).
---
 src/rdata/csync.rs  | 3 +++
 src/rdata/dnssec.rs | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/rdata/csync.rs b/src/rdata/csync.rs
index 5bd957e..b1ea398 100644
--- a/src/rdata/csync.rs
+++ b/src/rdata/csync.rs
@@ -85,6 +85,9 @@ impl<'a> TryFrom<&mut DnsBuffer<'a>> for Csync {
         while buffer.remaining() > 0 {
             let window_num = buffer.extract_u8()? as u16;
             let window_len = buffer.extract_u8()? as u16;
+            if window_len > 32 {
+                return Err(DnsError::LengthViolation);
+            }
 
             // By extracting the RRTypes from the bitmap it is "guaranteed" that the resulting vec
             // self.types is sorted
diff --git a/src/rdata/dnssec.rs b/src/rdata/dnssec.rs
index ac8fa45..9c20742 100644
--- a/src/rdata/dnssec.rs
+++ b/src/rdata/dnssec.rs
@@ -62,6 +62,9 @@ impl<'a> TryFrom<&mut DnsBuffer<'a>> for Nsec {
         while buffer.remaining() > 0 {
             let window_num = buffer.extract_u8()? as u16;
             let window_len = buffer.extract_u8()? as u16;
+            if window_len > 32 {
+                return Err(DnsError::LengthViolation);
+            }
 
             // By extracting the RRTypes from the bitmap it is "guaranteed" that the resulting vec
             // self.types is sorted
-- 
2.43.0


From cede916e13893f48e72d33aae229f388b27e7c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:22 +0000
Subject: [PATCH 06/25] fix: do not emit type bitmap windows without any type
 in NSEC and CSYNC (RFC 4034 4.1.2)

---
 src/rdata/csync.rs  | 19 ++++++++++++-------
 src/rdata/dnssec.rs | 38 ++++++++++++++++++++++++--------------
 2 files changed, 36 insertions(+), 21 deletions(-)

diff --git a/src/rdata/csync.rs b/src/rdata/csync.rs
index b1ea398..91a0484 100644
--- a/src/rdata/csync.rs
+++ b/src/rdata/csync.rs
@@ -131,9 +131,11 @@ impl ByteConvertible for Csync {
         loop {
             let rtype = rtype_iter.next();
             if rtype.is_none() || *rtype.unwrap() as u16 - (block_num * 32) > 255 {
-                byte_size += 2; // window number and block length
-                let num_octets = ((last_rtype.unwrap_or(0) / 8) - (32 * block_num)) as usize;
-                byte_size += num_octets + 1; // Octet index of last entry equals the block length
+                if let Some(last_rtype) = last_rtype {
+                    byte_size += 2; // window number and block length
+                    let num_octets = ((last_rtype / 8) - (32 * block_num)) as usize;
+                    byte_size += num_octets + 1; // Octet index of last entry equals the block length
+                }
 
                 if rtype.is_none() {
                     break;
@@ -161,10 +163,13 @@ impl ByteConvertible for Csync {
         loop {
             let rtype = rtype_iter.next();
             if rtype.is_none() || *rtype.unwrap() as u16 - (block_num * 32) > 255 {
-                // Finish block by pushing it into the output buffer
-                buffer.push(block_num as u8);
-                buffer.push(block_len + 1_u8);
-                buffer.extend_from_slice(&block_data[0..=block_len as usize]);
+                // Finish block by pushing it into the output buffer. Blocks without any type are
+                // not part of the binary representation.
+                if block_data[block_len as usize] != 0 {
+                    buffer.push(block_num as u8);
+                    buffer.push(block_len + 1_u8);
+                    buffer.extend_from_slice(&block_data[0..=block_len as usize]);
+                }
 
                 if rtype.is_none() {
                     break;
diff --git a/src/rdata/dnssec.rs b/src/rdata/dnssec.rs
index 9c20742..83d991a 100644
--- a/src/rdata/dnssec.rs
+++ b/src/rdata/dnssec.rs
@@ -97,9 +97,11 @@ impl ByteConvertible for Nsec {
         loop {
             let rtype = rtype_iter.next();
             if rtype.is_none() || *rtype.unwrap() as u16 - (block_num * 32) > 255 {
-                byte_size += 2; // window number and block length
-                let num_octets = ((last_rtype.unwrap_or(0) / 8) - (32 * block_num)) as usize;
-                byte_size += num_octets + 1; // Octet index of last entry equals the block length
+                if let Some(last_rtype) = last_rtype {
+                    byte_size += 2; // window number and block length
+                    let num_octets = ((last_rtype / 8) - (32 * block_num)) as usize;
+                    byte_size += num_octets + 1; // Octet index of last entry equals the block length
+                }
 
                 if rtype.is_none() {
                     break;
@@ -126,10 +128,13 @@ impl ByteConvertible for Nsec {
         loop {
             let rtype = rtype_iter.next();
             if rtype.is_none() || *rtype.unwrap() as u16 - (block_num * 32) > 255 {
-                // Finish block by pushing it into the output buffer
-                buffer.push(block_num as u8);
-                buffer.push(block_len + 1_u8);
-                buffer.extend_from_slice(&block_data[0..=block_len as usize]);
+                // Finish block by pushing it into the output buffer. Blocks without any type are
+                // not part of the binary representation.
+                if block_data[block_len as usize] != 0 {
+                    buffer.push(block_num as u8);
+                    buffer.push(block_len + 1_u8);
+                    buffer.extend_from_slice(&block_data[0..=block_len as usize]);
+                }
 
                 if rtype.is_none() {
                     break;
@@ -157,9 +162,11 @@ impl CompressedByteConvertible for Nsec {
         loop {
             let rtype = rtype_iter.next();
             if rtype.is_none() || *rtype.unwrap() as u16 - (block_num * 32) > 255 {
-                byte_size += 2; // window number and block length
-                let num_octets = ((last_rtype.unwrap_or(0) / 8) - (32 * block_num)) as usize;
-                byte_size += num_octets + 1; // Octet index of last entry equals the block length
+                if let Some(last_rtype) = last_rtype {
+                    byte_size += 2; // window number and block length
+                    let num_octets = ((last_rtype / 8) - (32 * block_num)) as usize;
+                    byte_size += num_octets + 1; // Octet index of last entry equals the block length
+                }
 
                 if rtype.is_none() {
                     break;
@@ -190,10 +197,13 @@ impl CompressedByteConvertible for Nsec {
         loop {
             let rtype = rtype_iter.next();
             if rtype.is_none() || *rtype.unwrap() as u16 - (block_num * 32) > 255 {
-                // Finish block by pushing it into the output buffer
-                buffer.push(block_num as u8);
-                buffer.push(block_len + 1_u8);
-                buffer.extend_from_slice(&block_data[0..=block_len as usize]);
+                // Finish block by pushing it into the output buffer. Blocks without any type are
+                // not part of the binary representation.
+                if block_data[block_len as usize] != 0 {
+                    buffer.push(block_num as u8);
+                    buffer.push(block_len + 1_u8);
+                    buffer.extend_from_slice(&block_data[0..=block_len as usize]);
+                }
 
                 if rtype.is_none() {
                     break;
-- 
2.43.0


From 81b791695258279a68853c2896427309ddc2e47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:05 +0000
Subject: [PATCH 07/25] fix: reject headers with an unassigned response code

Header::response_code() panicked for packets parsed with such a code.
---
 src/header.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/header.rs b/src/header.rs
index 91497a3..fa3b0d0 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -203,9 +203,14 @@ impl<'a> TryFrom<&mut DnsBuffer<'a>> for Header {
     type Error = DnsError;
 
     fn try_from(buffer: &mut DnsBuffer) -> Result<Self, Self::Error> {
+        let id = buffer.extract_u16()?;
+        let flags = FlagBitfield::from_bytes(buffer.extract_bytes(2)?.try_into()?);
+        // Every accepted header has to hold a response code that can be represented
+        ResponseCode::try_from(flags.rcode())?;
+
         Ok(Header {
-            id: buffer.extract_u16()?,
-            flags: FlagBitfield::from_bytes(buffer.extract_bytes(2)?.try_into()?),
+            id,
+            flags,
             ques_count: buffer.extract_u16()?,
             ans_count: buffer.extract_u16()?,
             auth_count: buffer.extract_u16()?,
-- 
2.43.0


From 166004ad1c6a70d8aee3685dc5ff84ed6e4176b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:07 +0000
Subject: [PATCH 08/25] fix: write the section counts of a packet without
 unaligned raw pointers

---
 src/packet.rs | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/src/packet.rs b/src/packet.rs
index d542777..36a7ccb 100644
--- a/src/packet.rs
+++ b/src/packet.rs
@@ -298,19 +298,10 @@ impl ByteConvertible for Packet {
         bin.extend_from_slice(&self.header.to_bytes());
 
         // Set correct number of element into the header
-        let mut ptr = bin.as_mut_ptr() as *mut u16;
-        // SAFETY: Safe to dereference the pointer because the vector the pointer points to
-        // was created with the expected capacity of the header struct beforehand
-        unsafe {
-            ptr = ptr.offset(2);
-            *ptr = (self.questions.len() as u16).to_be();
-            ptr = ptr.offset(1);
-            *ptr = (self.answers.len() as u16).to_be();
-            ptr = ptr.offset(1);
-            *ptr = (self.authorities.len() as u16).to_be();
-            ptr = ptr.offset(1);
-            *ptr = (self.additional.len() as u16).to_be();
-        };
+        bin[4..6].copy_from_slice(&(self.questions.len() as u16).to_be_bytes());
+        bin[6..8].copy_from_slice(&(self.answers.len() as u16).to_be_bytes());
+        bin[8..10].copy_from_slice(&(self.authorities.len() as u16).to_be_bytes());
+        bin[10..12].copy_from_slice(&(self.additional.len() as u16).to_be_bytes());
 
         for ques in self.questions.iter() {
             bin.extend_from_slice(&ques.to_bytes());
-- 
2.43.0


From db2ee19eadcd59de4fd7dba205543c2ed527e84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:08 +0000
Subject: [PATCH 09/25] fix: write the actual section counts in
 Packet::to_bytes_compressed

The stored header counts are stale after with_questions, questions_mut or
set_header, so the compressed message did not parse back.
---
 src/packet.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/packet.rs b/src/packet.rs
index 36a7ccb..8084434 100644
--- a/src/packet.rs
+++ b/src/packet.rs
@@ -244,6 +244,12 @@ impl Packet {
 
         let mut bin = self.header.to_bytes();
 
+        // Set correct number of element into the header
+        bin[4..6].copy_from_slice(&(self.questions.len() as u16).to_be_bytes());
+        bin[6..8].copy_from_slice(&(self.answers.len() as u16).to_be_bytes());
+        bin[8..10].copy_from_slice(&(self.authorities.len() as u16).to_be_bytes());
+        bin[10..12].copy_from_slice(&(self.additional.len() as u16).to_be_bytes());
+
         for ques in self.questions.iter() {
             bin.extend_from_slice(&ques.to_bytes_compressed(&mut used_fqdn, bin.len()));
         }
-- 
2.43.0


From 32857fad4b21629b4f5640d349be89e3dd82e9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:10 +0000
Subject: [PATCH 10/25] fix: reset the authority count instead of the answer
 count in take_authorities

---
 src/packet.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/packet.rs b/src/packet.rs
index 8084434..93aee61 100644
--- a/src/packet.rs
+++ b/src/packet.rs
@@ -205,7 +205,7 @@ impl Packet {
     }
 
     pub fn take_authorities(&mut self) -> Vec<ResourceRecord> {
-        self.header.ans_count = 0;
+        self.header.auth_count = 0;
         std::mem::take(&mut self.authorities)
     }
 
-- 
2.43.0


From d6c477b90fc259bcb81923e52f52caab8eae46fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:12 +0000
Subject: [PATCH 11/25] fix: derive the stored section counts from the section
 lists

with_questions left the question count at zero and the add_* functions
overflowed on the 65536th element.
---
 src/packet.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/packet.rs b/src/packet.rs
index 93aee61..0f85a0a 100644
--- a/src/packet.rs
+++ b/src/packet.rs
@@ -76,8 +76,11 @@ impl Packet {
     /// This sets the necessary flags to make it a query dns packet. Other fields remain defaulted.
     /// This should only be used to query information from a name server.
     pub fn with_questions(id: u16, rc: bool, questions: Vec<Question>) -> Self {
+        let mut header = Header::new_query(id, rc);
+        header.ques_count = questions.len() as u16;
+
         Packet {
-            header: Header::new_query(id, rc),
+            header,
             questions,
             answers: Vec::new(),
             authorities: Vec::new(),
@@ -173,7 +176,7 @@ impl Packet {
 
     pub fn add_question(&mut self, question: Question) {
         self.questions.push(question);
-        self.header.ques_count += 1;
+        self.header.ques_count = self.questions.len() as u16;
     }
 
     pub fn set_questions(&mut self, questions: Vec<Question>) {
@@ -192,7 +195,7 @@ impl Packet {
 
     pub fn add_answer(&mut self, answer: ResourceRecord) {
         self.answers.push(answer);
-        self.header.ans_count += 1;
+        self.header.ans_count = self.answers.len() as u16;
     }
 
     pub fn set_answers(&mut self, answers: Vec<ResourceRecord>) {
@@ -211,7 +214,7 @@ impl Packet {
 
     pub fn add_authority(&mut self, auth: ResourceRecord) {
         self.authorities.push(auth);
-        self.header.auth_count += 1;
+        self.header.auth_count = self.authorities.len() as u16;
     }
 
     pub fn set_authorities(&mut self, authorities: Vec<ResourceRecord>) {
@@ -230,7 +233,7 @@ impl Packet {
 
     pub fn add_additional(&mut self, add: ResourceRecord) {
         self.additional.push(add);
-        self.header.add_count += 1;
+        self.header.add_count = self.additional.len() as u16;
     }
 
     pub fn set_additionals(&mut self, additionals: Vec<ResourceRecord>) {
-- 
2.43.0


From c0721bfffdfc1a60e113621658f1e68f11af8fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:14 +0000
Subject: [PATCH 12/25] fix: do not treat label bytes received from the network
 as valid UTF-8

---
 src/fqdn.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fqdn.rs b/src/fqdn.rs
index d1f37ed..a756a54 100644
--- a/src/fqdn.rs
+++ b/src/fqdn.rs
@@ -87,8 +87,8 @@ impl FQDN {
 impl Display for FQDN {
     fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
         for (idx, name_part) in self.iter().enumerate() {
-            // SAFETY: Safe because the u8 in self.data are parsed from a &str in the constructor
-            write!(f, "{}", unsafe { std::str::from_utf8_unchecked(name_part) })?;
+            // Labels that are received from the network do not have to be valid UTF-8
+            write!(f, "{}", String::from_utf8_lossy(name_part))?;
             if idx + 1 != self.data.len() {
                 write!(f, ".")?;
             }
-- 
2.43.0


From c9a4be1328b0fc8dfcb06c9f08968cd7e12b5525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:16 +0000
Subject: [PATCH 13/25] fix: FQDN::is_empty reports names without labels

---
 src/fqdn.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fqdn.rs b/src/fqdn.rs
index a756a54..e310f0a 100644
--- a/src/fqdn.rs
+++ b/src/fqdn.rs
@@ -35,7 +35,7 @@ impl FQDN {
 
     /// Checks if the FQDN does not contain any labels.
     pub fn is_empty(&self) -> bool {
-        self.byte_size() == 0
+        self.data.is_empty()
     }
 
     /// Returns the byte-size of this FQDN in its binary representation.
-- 
2.43.0


From d59cd8b050e97c4f269005e13a827c37066f7ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:35 +0000
Subject: [PATCH 14/25] fix: skip empty labels in compressed names

An empty label inside of a name terminated it early in the compressed
representation only.
---
 src/fqdn.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/fqdn.rs b/src/fqdn.rs
index e310f0a..d8c0930 100644
--- a/src/fqdn.rs
+++ b/src/fqdn.rs
@@ -196,6 +196,11 @@ impl CompressedByteConvertible for FQDN {
     fn byte_size_compressed(&self, names: &mut HashMap<u64, usize>, mut offset: usize) -> usize {
         let mut size = 0;
         for i in 0..self.data.len() {
+            if self.data[i].is_empty() {
+                // Same as in the uncompressed representation, empty labels are not serialized
+                continue;
+            }
+
             let remaining_fqdn = &self.data[i..];
             let remaining_hash = hash_fqdn(remaining_fqdn);
 
@@ -218,6 +223,11 @@ impl CompressedByteConvertible for FQDN {
         let mut buffer = Vec::new();
 
         for i in 0..self.data.len() {
+            if self.data[i].is_empty() {
+                // Same as in the uncompressed representation, empty labels are not serialized
+                continue;
+            }
+
             let remaining_fqdn = &self.data[i..];
             let remaining_hash = hash_fqdn(remaining_fqdn);
 
-- 
2.43.0


From ffbb0e38c6a7f57ab326511112610699c2984318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:37 +0000
Subject: [PATCH 15/25] fix: do not use names beyond the 14 bit offset range as
 compression targets

---
 src/fqdn.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/fqdn.rs b/src/fqdn.rs
index d8c0930..a4dbf28 100644
--- a/src/fqdn.rs
+++ b/src/fqdn.rs
@@ -209,7 +209,10 @@ impl CompressedByteConvertible for FQDN {
                 size += 2;
                 return size;
             } else {
-                names.insert(remaining_hash, offset);
+                if offset <= !COMPRESSION_MASK_U16 as usize {
+                    // A compression pointer can only hold offsets of 14 bits
+                    names.insert(remaining_hash, offset);
+                }
                 offset += self.data[i].len() + 1;
                 size += self.data[i].len() + 1;
             }
@@ -239,7 +242,10 @@ impl CompressedByteConvertible for FQDN {
                 buffer.push(self.data[i].len() as u8);
                 buffer.extend_from_slice(&self.data[i]);
 
-                names.insert(remaining_hash, offset);
+                if offset <= !COMPRESSION_MASK_U16 as usize {
+                    // A compression pointer can only hold offsets of 14 bits
+                    names.insert(remaining_hash, offset);
+                }
                 offset += self.data[i].len() + 1;
             }
         }
-- 
2.43.0


From 45d9043357223d74cb076f551a25c7e20148a878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:15 +0000
Subject: [PATCH 16/25] fix: include the tag in the byte size of CAA record
 data

---
 src/rdata/caa.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rdata/caa.rs b/src/rdata/caa.rs
index 79a13f0..108ea95 100644
--- a/src/rdata/caa.rs
+++ b/src/rdata/caa.rs
@@ -68,7 +68,7 @@ impl RData for Caa {
 
 impl ByteConvertible for Caa {
     fn byte_size(&self) -> usize {
-        (2 * std::mem::size_of::<u8>()) + self.value.len()
+        (2 * std::mem::size_of::<u8>()) + self.tag.len() + self.value.len()
     }
 
     fn to_bytes(&self) -> Vec<u8> {
-- 
2.43.0


From a692c4cbfb419416b90d738dc1809d09ea6ecc6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:17 +0000
Subject: [PATCH 17/25] fix: count code and length of every option in the byte
 size of OPT record data

---
 src/rdata/opt.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rdata/opt.rs b/src/rdata/opt.rs
index e9ec4fa..1e89cff 100644
--- a/src/rdata/opt.rs
+++ b/src/rdata/opt.rs
@@ -53,7 +53,9 @@ impl RData for Opt {
 
 impl ByteConvertible for Opt {
     fn byte_size(&self) -> usize {
-        (2 * std::mem::size_of::<u8>()) + self.0.iter().fold(0, |acc, elem| acc + elem.1.len())
+        self.0.iter().fold(0, |acc, elem| {
+            acc + (2 * std::mem::size_of::<u16>()) + elem.1.len()
+        })
     }
 
     fn to_bytes(&self) -> Vec<u8> {
-- 
2.43.0


From 4ee0f76498c93f7a0e48ee6d85987aa50d5fb483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:18 +0000
Subject: [PATCH 18/25] fix: count all fixed fields in the byte size of RRSIG
 record data

---
 src/rdata/dnssec.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rdata/dnssec.rs b/src/rdata/dnssec.rs
index 83d991a..033e243 100644
--- a/src/rdata/dnssec.rs
+++ b/src/rdata/dnssec.rs
@@ -720,7 +720,7 @@ impl RData for Rrsig {
 impl ByteConvertible for Rrsig {
     #[inline(always)]
     fn byte_size(&self) -> usize {
-        17 + self.signers_name.len() + self.signature.len()
+        18 + self.signers_name.len() + self.signature.len()
     }
 
     fn to_bytes(&self) -> Vec<u8> {
-- 
2.43.0


From 3a0824f3aa295ca002f13d687d088fbe3014cb28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:20 +0000
Subject: [PATCH 19/25] fix: read the SSHFP fingerprint up to the end of the
 record data (RFC 4255 3.1)

---
 src/rdata/sshfp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rdata/sshfp.rs b/src/rdata/sshfp.rs
index 701afa1..80755e3 100644
--- a/src/rdata/sshfp.rs
+++ b/src/rdata/sshfp.rs
@@ -36,7 +36,7 @@ impl<'a> TryFrom<&mut DnsBuffer<'a>> for Sshfp {
         Ok(Self {
             algorithm: buffer.extract_u8()?.try_into()?,
             fingerprint_type: buffer.extract_u8()?.try_into()?,
-            fingerprint: buffer.extract_character_string()?,
+            fingerprint: buffer.extract_bytes(buffer.remaining())?.to_vec(),
         })
     }
 }
-- 
2.43.0


From a536297cf2609f8d8a1ca250f7c89d504a82c078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:21 +0000
Subject: [PATCH 20/25] fix: use all seven bits of the address length in APL
 record data (RFC 3123 4)

---
 src/rdata/apl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rdata/apl.rs b/src/rdata/apl.rs
index f2febbe..48f62b9 100644
--- a/src/rdata/apl.rs
+++ b/src/rdata/apl.rs
@@ -52,7 +52,7 @@ impl<'a> TryFrom<&mut DnsBuffer<'a>> for Apl {
         let prefix = buffer.extract_u8()?;
         let coded_byte = buffer.extract_u8()?;
         let n = coded_byte & 0x80 != 0;
-        let mut afd_bytes = buffer.extract_bytes((coded_byte & 0x7E) as usize)?.to_vec();
+        let mut afd_bytes = buffer.extract_bytes((coded_byte & 0x7F) as usize)?.to_vec();
 
         let afd_part = match family {
             1 => {
-- 
2.43.0


From 6e1d6f10087f0e031e5ec7987ab585cab651e35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:23 +0000
Subject: [PATCH 21/25] fix: recognize the CDS and CDNSKEY type codes when
 parsing

---
 src/question.rs | 4 ++++
 src/resource.rs | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/question.rs b/src/question.rs
index 89667f3..59e5199 100644
--- a/src/question.rs
+++ b/src/question.rs
@@ -159,6 +159,10 @@ impl TryFrom<u16> for QType {
             49 => Ok(Self::DHCID),
             52 => Ok(Self::TLSA),
             55 => Ok(Self::HIP),
+            #[cfg(feature = "dnssec")]
+            59 => Ok(Self::CDS),
+            #[cfg(feature = "dnssec")]
+            60 => Ok(Self::CDNSKEY),
             61 => Ok(Self::OPENPGPKEY),
             62 => Ok(Self::CSYNC),
             64 => Ok(Self::SVCB),
diff --git a/src/resource.rs b/src/resource.rs
index d79acb8..12f7701 100644
--- a/src/resource.rs
+++ b/src/resource.rs
@@ -193,6 +193,10 @@ impl TryFrom<u16> for RecordType {
             49 => Ok(Self::DHCID),
             52 => Ok(Self::TLSA),
             55 => Ok(Self::HIP),
+            #[cfg(feature = "dnssec")]
+            59 => Ok(Self::CDS),
+            #[cfg(feature = "dnssec")]
+            60 => Ok(Self::CDNSKEY),
             61 => Ok(Self::OPENPGPKEY),
             62 => Ok(Self::CSYNC),
             64 => Ok(Self::SVCB),
-- 
2.43.0


From b7c93b5c7fb60bb2af17d7dfc96b4153f6e0fe1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:25 +0000
Subject: [PATCH 22/25] fix: write the length of the serialized record data as
 RDLENGTH

byte_size() of SVCB record data does not match its serialized length.
---
 src/resource.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/resource.rs b/src/resource.rs
index 12f7701..37880d1 100644
--- a/src/resource.rs
+++ b/src/resource.rs
@@ -448,9 +448,10 @@ impl ByteConvertible for ResourceRecord {
 
         buffer.extend_from_slice(&u32::to_be_bytes(self.time_to_live));
 
-        buffer.extend_from_slice(&u16::to_be_bytes(self.rdata.byte_size() as u16));
+        let rdata = self.rdata.to_bytes();
+        buffer.extend_from_slice(&u16::to_be_bytes(rdata.len() as u16));
 
-        buffer.extend_from_slice(&self.rdata.to_bytes());
+        buffer.extend_from_slice(&rdata);
 
         buffer
     }
-- 
2.43.0


From 1c520874955fd07e076047fea6a525c94db2eacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:42 +0000
Subject: [PATCH 23/25] fix: do not print to stdout when serializing TSIG
 record data

---
 src/rdata/tsig.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/rdata/tsig.rs b/src/rdata/tsig.rs
index 7db281f..5238c08 100644
--- a/src/rdata/tsig.rs
+++ b/src/rdata/tsig.rs
@@ -106,7 +106,6 @@ impl ByteConvertible for Tsig {
 
     fn to_bytes(&self) -> Vec<u8> {
         let mut buf = Vec::with_capacity(self.byte_size());
-        println!("Test: {:?}", self.algorithm.to_bytes());
         buf.extend(self.algorithm.to_bytes());
         buf.extend(&self.time_signed.to_be_bytes()[2..]); // 48 bytes
         buf.extend(self.fudge.to_be_bytes()); // 16 b
-- 
2.43.0


From 8627d96117dd0c5fd25eab6da245eb844ef2e2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:25 +0000
Subject: [PATCH 24/25] fix: use the assigned number of the Ed448 SSHFP
 algorithm (RFC 8709)

---
 src/rdata/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rdata/mod.rs b/src/rdata/mod.rs
index 3c016c7..6e83297 100644
--- a/src/rdata/mod.rs
+++ b/src/rdata/mod.rs
@@ -106,7 +106,7 @@ impl TryFrom<u8> for Algorithm {
             2 => Ok(Self::DSA),
             3 => Ok(Self::ECDSA),
             4 => Ok(Self::Ed25519),
-            5 => Ok(Self::Ed448),
+            6 => Ok(Self::Ed448),
             _ => Err(DnsError::InvalidSSHFPAlgorithm(value)),
         }
     }
@@ -120,7 +120,7 @@ impl From<Algorithm> for u8 {
             Algorithm::DSA => 2,
             Algorithm::ECDSA => 3,
             Algorithm::Ed25519 => 4,
-            Algorithm::Ed448 => 5,
+            Algorithm::Ed448 => 6,
         }
     }
 }
-- 
2.43.0


From a8ecd3c446996b51f18ea64044cb4663f089f8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:50 +0000
Subject: [PATCH 25/25] fix: compute the SVCB parameter length before narrowing
 it

Values of 65532 to 65535 bytes fit the length field, but the subtraction
underflowed after the size was cut to 16 bits.
---
 src/rdata/svcb.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rdata/svcb.rs b/src/rdata/svcb.rs
index 8bf3884..6d19582 100644
--- a/src/rdata/svcb.rs
+++ b/src/rdata/svcb.rs
@@ -262,7 +262,7 @@ impl ByteConvertible for Param {
         buf.extend(u16::to_be_bytes(key));
 
         // Add the param val length to the buffer
-        buf.extend(u16::to_be_bytes(byte_size as u16 - 4));
+        buf.extend(u16::to_be_bytes((byte_size - 4) as u16));
 
         // Add the param val binary data to the buffer
         match self {
-- 
2.43.0

