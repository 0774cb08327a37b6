From 1ea3441b51bb3d1dca28cedaabaa812f7a28a349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:29 +0000
Subject: [PATCH 01/41] fix: bound domain name extraction (buffer end, pointer
 loops, 255 octets)

---
 src/buffer.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index 38f4717..18ac98e 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -3,6 +3,9 @@ use std::convert::From;
 use crate::error::DnsError;
 use crate::fqdn::FQDN;
 
+/// Maximum number of bytes a domain name occupies in (uncompressed) wire format (RFC 1035 2.3.4).
+const MAX_NAME_SIZE: usize = 255;
+
 /// Helper struct used for creation of DNS packets and its parts from binary data.
 ///
 /// This non-owning buffer type remembers the current position for subsequent extraction
@@ -136,8 +139,13 @@ impl<'a> DnsBuffer<'a> {
 
         let mut data = Vec::<Vec<u8>>::new();
         let mut org_pos = None;
+        // Size of the name in wire format including the termination byte.
+        let mut name_size = 1;
+        // Pointers must refer to a prior occurrence of a name, so each of them has to lead to a
+        // position in front of the labels it terminates. This also rules out pointer loops.
+        let mut labels_start = self.pos;
         loop {
-            let len = self.data[self.pos];
+            let len = *self.data.get(self.pos).ok_or(DnsError::LengthViolation)?;
             if len & COMPRESSION_MASK == COMPRESSION_MASK {
                 // Instead of returning an error we should look up what the pointer value is
                 // and reolve the fqdn here
@@ -149,11 +157,12 @@ impl<'a> DnsBuffer<'a> {
                 self.pos = (u16::from_be_bytes(self.peek_bytes(2)?.try_into()?)
                     & !COMPRESSION_MASK_U16) as usize;
 
-                if self.pos >= org_pos.unwrap_or(0) {
+                if self.pos >= labels_start {
                     self.pos = org_pos.unwrap_or(0);
                     return Err(DnsError::UnresolveableCompressionPointer);
                 }
-            } else if self.pos + len as usize > self.data.len() {
+                labels_start = self.pos;
+            } else if self.pos + len as usize >= self.data.len() {
                 // Length encoded in FQDN would run out of the buffer
                 return Err(DnsError::LengthViolation);
             } else if len == 0 {
@@ -167,6 +176,10 @@ impl<'a> DnsBuffer<'a> {
                 return Ok(FQDN::from(data));
             } else {
                 // Consume next part to FQDN
+                name_size += 1 + len as usize;
+                if name_size > MAX_NAME_SIZE {
+                    return Err(DnsError::LengthViolation);
+                }
                 self.pos += 1;
                 data.push(self.data[self.pos..self.pos + len as usize].to_vec());
                 self.pos += len as usize;
-- 
2.43.0


From 3d8080aea8dc2198f49f7777210a395097eb51df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:48 +0000
Subject: [PATCH 02/41] fix: do not overflow on huge lengths in DnsBuffer

---
 src/buffer.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index 18ac98e..7102a18 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -20,13 +20,12 @@ impl<'a> DnsBuffer<'a> {
     /// Create a new `DnsBuffer` with the same internal byte array as the backing storage
     /// but with a custom length parameter. The start of the new buffer is at index 0 of
     /// the parent buffer.
-    pub fn sub_buffer(&mut self, mut len: usize) -> Result<DnsBuffer, DnsError> {
-        len += self.pos;
-        if len > self.data.len() {
+    pub fn sub_buffer(&mut self, len: usize) -> Result<DnsBuffer, DnsError> {
+        if len > self.remaining() {
             return Err(DnsError::LengthViolation);
         }
         Ok(Self {
-            data: &self.data[0..len],
+            data: &self.data[0..self.pos + len],
             pos: self.pos,
         })
     }
@@ -52,19 +51,18 @@ impl<'a> DnsBuffer<'a> {
     }
 
     /// Advances the current index by `len` bytes.
-    pub fn advance(&mut self, mut len: usize) -> Result<(), DnsError> {
-        len += self.pos;
-        if len > self.data.len() {
+    pub fn advance(&mut self, len: usize) -> Result<(), DnsError> {
+        if len > self.remaining() {
             return Err(DnsError::LengthViolation);
         }
-        self.pos = len;
+        self.pos += len;
         Ok(())
     }
 
     /// Returns a read-only view into the buffer that starts at the current index and ends at
     /// the current position + len without modifying the internal state (e.g. the current index).
     pub fn peek_bytes(&self, len: usize) -> Result<&[u8], DnsError> {
-        if self.pos + len > self.data.len() {
+        if len > self.remaining() {
             return Err(DnsError::LengthViolation);
         }
         Ok(&self.data[self.pos..self.pos + len])
@@ -73,7 +71,7 @@ impl<'a> DnsBuffer<'a> {
     /// Returns a read-only view into the buffer that starts at the current index and ends at
     /// the current position + len and sets the current index to the end of the returned slice.
     pub fn extract_bytes(&mut self, len: usize) -> Result<&[u8], DnsError> {
-        if self.pos + len > self.data.len() {
+        if len > self.remaining() {
             return Err(DnsError::LengthViolation);
         }
 
-- 
2.43.0


From 8c451932c5a65710badc806e5daf4b91972ba08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:50 +0000
Subject: [PATCH 03/41] fix: reject headers with an unassigned response code
 instead of panicking on access

---
 src/header.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/header.rs b/src/header.rs
index 91497a3..cf46ad0 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -203,9 +203,15 @@ impl<'a> TryFrom<&mut DnsBuffer<'a>> for Header {
     type Error = DnsError;
 
     fn try_from(buffer: &mut DnsBuffer) -> Result<Self, Self::Error> {
+        let id = buffer.extract_u16()?;
+
+        let flags = FlagBitfield::from_bytes(buffer.extract_bytes(2)?.try_into()?);
+        // Reject response codes that can not be represented by `ResponseCode`
+        ResponseCode::try_from(flags.rcode())?;
+
         Ok(Header {
-            id: buffer.extract_u16()?,
-            flags: FlagBitfield::from_bytes(buffer.extract_bytes(2)?.try_into()?),
+            id,
+            flags,
             ques_count: buffer.extract_u16()?,
             ans_count: buffer.extract_u16()?,
             auth_count: buffer.extract_u16()?,
-- 
2.43.0


From cac9a938d666f8880a8cbb4f5c3f9bf67d460354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:10 +0000
Subject: [PATCH 04/41] fix: keep SVCB parameter parsing inside the declared
 value length

---
 src/rdata/svcb.rs | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/rdata/svcb.rs b/src/rdata/svcb.rs
index f790ac8..235a0c7 100644
--- a/src/rdata/svcb.rs
+++ b/src/rdata/svcb.rs
@@ -199,38 +199,44 @@ impl<'a> TryFrom<&mut DnsBuffer<'a>> for Param {
 
     fn try_from(buffer: &mut DnsBuffer<'a>) -> Result<Self, Self::Error> {
         let key = ParamKey::try_from(buffer.extract_u16()?)?;
-        let mut len = buffer.extract_u16()? as usize;
+        let len = buffer.extract_u16()? as usize;
+
+        // The value must not be interpreted past its length and has to be used up completely
+        let mut value = buffer.sub_buffer(len)?;
         let val = match key {
             ParamKey::Mandatory => {
                 let mut keys = BTreeSet::default();
-                while len > 0 {
-                    keys.insert(buffer.extract_u16()?.try_into()?);
-                    len -= 2;
+                while value.remaining() > 0 {
+                    keys.insert(value.extract_u16()?.try_into()?);
                 }
                 Self::Mandatory(keys)
             }
             ParamKey::Alpn => {
                 let mut alpn = Vec::default();
-                while len > 0 {
-                    let inner_len = buffer.extract_u8()? as usize;
-                    alpn.push(buffer.extract_bytes(inner_len)?.to_vec());
-                    len -= inner_len + 1;
+                while value.remaining() > 0 {
+                    let inner_len = value.extract_u8()? as usize;
+                    alpn.push(value.extract_bytes(inner_len)?.to_vec());
                 }
                 Self::Alpn(alpn)
             }
             ParamKey::NoDefaultAlpn => Self::NoDefaultAlpn,
-            ParamKey::Port => Self::Port(buffer.extract_u16()?),
-            ParamKey::IpV4Hint => Self::IpV4Hint(Ipv4Addr::from(buffer.extract_u32()?)),
-            ParamKey::Ech => Self::Ech(buffer.extract_bytes(len)?.to_vec()),
+            ParamKey::Port => Self::Port(value.extract_u16()?),
+            ParamKey::IpV4Hint => Self::IpV4Hint(Ipv4Addr::from(value.extract_u32()?)),
+            ParamKey::Ech => Self::Ech(value.extract_bytes(len)?.to_vec()),
             ParamKey::IpV6Hint => Self::IpV6Hint(Ipv6Addr::from(u128::from_be_bytes(
-                buffer.extract_bytes(16)?.try_into()?,
+                value.extract_bytes(16)?.try_into()?,
             ))),
             ParamKey::Private(val) => Self::Private {
                 num: val,
-                bytes: buffer.extract_bytes(len)?.to_vec(),
+                bytes: value.extract_bytes(len)?.to_vec(),
             },
             ParamKey::Invalid => Self::Invalid,
         };
+        if value.remaining() > 0 {
+            return Err(DnsError::LengthViolation);
+        }
+
+        buffer.advance(len)?;
         Ok(val)
     }
 }
-- 
2.43.0


From a48bb7ff51c4a6f4670564471e4f8e3484c73dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:41 +0000
Subject: [PATCH 05/41] fix: reject type bitmap windows longer than 32 octets
 (NSEC, CSYNC)

---
 src/rdata/csync.rs  | 3 +++
 src/rdata/dnssec.rs | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/rdata/csync.rs b/src/rdata/csync.rs
index 5bd957e..8f2e27a 100644
--- a/src/rdata/csync.rs
+++ b/src/rdata/csync.rs
@@ -88,6 +88,9 @@ impl<'a> TryFrom<&mut DnsBuffer<'a>> for Csync {
 
             // By extracting the RRTypes from the bitmap it is "guaranteed" that the resulting vec
             // self.types is sorted
+            if window_len > 32 {
+                return Err(DnsError::LengthViolation);
+            }
             let bitmap = buffer.extract_bytes(window_len as usize)?;
             for (index, octet) in bitmap.iter().enumerate() {
                 for i in 0..8 {
diff --git a/src/rdata/dnssec.rs b/src/rdata/dnssec.rs
index ac8fa45..0a6b017 100644
--- a/src/rdata/dnssec.rs
+++ b/src/rdata/dnssec.rs
@@ -65,6 +65,9 @@ impl<'a> TryFrom<&mut DnsBuffer<'a>> for Nsec {
 
             // By extracting the RRTypes from the bitmap it is "guaranteed" that the resulting vec
             // self.types is sorted
+            if window_len > 32 {
+                return Err(DnsError::LengthViolation);
+            }
             let bitmap = buffer.extract_bytes(window_len as usize)?;
             for (index, octet) in bitmap.iter().enumerate() {
                 for i in 0..8 {
-- 
2.43.0


From a167b326d3d3cd7003b3b859db705af51bec98ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:43 +0000
Subject: [PATCH 06/41] fix: do not encode empty type bitmap windows (NSEC,
 CSYNC)

---
 src/rdata/csync.rs  | 18 ++++++++++++------
 src/rdata/dnssec.rs | 36 ++++++++++++++++++++++++------------
 2 files changed, 36 insertions(+), 18 deletions(-)

diff --git a/src/rdata/csync.rs b/src/rdata/csync.rs
index 8f2e27a..f35ede9 100644
--- a/src/rdata/csync.rs
+++ b/src/rdata/csync.rs
@@ -131,9 +131,12 @@ impl ByteConvertible for Csync {
         loop {
             let rtype = rtype_iter.next();
             if rtype.is_none() || *rtype.unwrap() as u16 - (block_num * 32) > 255 {
-                byte_size += 2; // window number and block length
-                let num_octets = ((last_rtype.unwrap_or(0) / 8) - (32 * block_num)) as usize;
-                byte_size += num_octets + 1; // Octet index of last entry equals the block length
+                // Blocks without any types are not part of the bitmap
+                if let Some(last_rtype) = last_rtype {
+                    byte_size += 2; // window number and block length
+                    let num_octets = ((last_rtype / 8) - (32 * block_num)) as usize;
+                    byte_size += num_octets + 1; // Octet index of last entry equals the block length
+                }
 
                 if rtype.is_none() {
                     break;
@@ -162,9 +165,12 @@ impl ByteConvertible for Csync {
             let rtype = rtype_iter.next();
             if rtype.is_none() || *rtype.unwrap() as u16 - (block_num * 32) > 255 {
                 // Finish block by pushing it into the output buffer
-                buffer.push(block_num as u8);
-                buffer.push(block_len + 1_u8);
-                buffer.extend_from_slice(&block_data[0..=block_len as usize]);
+                // Blocks without any types must not be included (RFC 4034 4.1.2)
+                if block_data.iter().any(|octet| *octet != 0) {
+                    buffer.push(block_num as u8);
+                    buffer.push(block_len + 1_u8);
+                    buffer.extend_from_slice(&block_data[0..=block_len as usize]);
+                }
 
                 if rtype.is_none() {
                     break;
diff --git a/src/rdata/dnssec.rs b/src/rdata/dnssec.rs
index 0a6b017..b4aaa5a 100644
--- a/src/rdata/dnssec.rs
+++ b/src/rdata/dnssec.rs
@@ -97,9 +97,12 @@ impl ByteConvertible for Nsec {
         loop {
             let rtype = rtype_iter.next();
             if rtype.is_none() || *rtype.unwrap() as u16 - (block_num * 32) > 255 {
-                byte_size += 2; // window number and block length
-                let num_octets = ((last_rtype.unwrap_or(0) / 8) - (32 * block_num)) as usize;
-                byte_size += num_octets + 1; // Octet index of last entry equals the block length
+                // Blocks without any types are not part of the bitmap
+                if let Some(last_rtype) = last_rtype {
+                    byte_size += 2; // window number and block length
+                    let num_octets = ((last_rtype / 8) - (32 * block_num)) as usize;
+                    byte_size += num_octets + 1; // Octet index of last entry equals the block length
+                }
 
                 if rtype.is_none() {
                     break;
@@ -127,9 +130,12 @@ impl ByteConvertible for Nsec {
             let rtype = rtype_iter.next();
             if rtype.is_none() || *rtype.unwrap() as u16 - (block_num * 32) > 255 {
                 // Finish block by pushing it into the output buffer
-                buffer.push(block_num as u8);
-                buffer.push(block_len + 1_u8);
-                buffer.extend_from_slice(&block_data[0..=block_len as usize]);
+                // Blocks without any types must not be included (RFC 4034 4.1.2)
+                if block_data.iter().any(|octet| *octet != 0) {
+                    buffer.push(block_num as u8);
+                    buffer.push(block_len + 1_u8);
+                    buffer.extend_from_slice(&block_data[0..=block_len as usize]);
+                }
 
                 if rtype.is_none() {
                     break;
@@ -157,9 +163,12 @@ impl CompressedByteConvertible for Nsec {
         loop {
             let rtype = rtype_iter.next();
             if rtype.is_none() || *rtype.unwrap() as u16 - (block_num * 32) > 255 {
-                byte_size += 2; // window number and block length
-                let num_octets = ((last_rtype.unwrap_or(0) / 8) - (32 * block_num)) as usize;
-                byte_size += num_octets + 1; // Octet index of last entry equals the block length
+                // Blocks without any types are not part of the bitmap
+                if let Some(last_rtype) = last_rtype {
+                    byte_size += 2; // window number and block length
+                    let num_octets = ((last_rtype / 8) - (32 * block_num)) as usize;
+                    byte_size += num_octets + 1; // Octet index of last entry equals the block length
+                }
 
                 if rtype.is_none() {
                     break;
@@ -191,9 +200,12 @@ impl CompressedByteConvertible for Nsec {
             let rtype = rtype_iter.next();
             if rtype.is_none() || *rtype.unwrap() as u16 - (block_num * 32) > 255 {
                 // Finish block by pushing it into the output buffer
-                buffer.push(block_num as u8);
-                buffer.push(block_len + 1_u8);
-                buffer.extend_from_slice(&block_data[0..=block_len as usize]);
+                // Blocks without any types must not be included (RFC 4034 4.1.2)
+                if block_data.iter().any(|octet| *octet != 0) {
+                    buffer.push(block_num as u8);
+                    buffer.push(block_len + 1_u8);
+                    buffer.extend_from_slice(&block_data[0..=block_len as usize]);
+                }
 
                 if rtype.is_none() {
                     break;
-- 
2.43.0


From f9ad7688799d6b57fc58503b421dc34b8bea9ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:08 +0000
Subject: [PATCH 07/41] fix: read odd address lengths of APL items (AFDLENGTH
 has 7 bits)

---
 src/rdata/apl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rdata/apl.rs b/src/rdata/apl.rs
index f2febbe..48f62b9 100644
--- a/src/rdata/apl.rs
+++ b/src/rdata/apl.rs
@@ -52,7 +52,7 @@ impl<'a> TryFrom<&mut DnsBuffer<'a>> for Apl {
         let prefix = buffer.extract_u8()?;
         let coded_byte = buffer.extract_u8()?;
         let n = coded_byte & 0x80 != 0;
-        let mut afd_bytes = buffer.extract_bytes((coded_byte & 0x7E) as usize)?.to_vec();
+        let mut afd_bytes = buffer.extract_bytes((coded_byte & 0x7F) as usize)?.to_vec();
 
         let afd_part = match family {
             1 => {
-- 
2.43.0


From bb752b46e2c8647d20484a042dffeb70ff30d31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:10 +0000
Subject: [PATCH 08/41] fix: count the tag in the size of CAA record data

---
 src/rdata/caa.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rdata/caa.rs b/src/rdata/caa.rs
index 79a13f0..108ea95 100644
--- a/src/rdata/caa.rs
+++ b/src/rdata/caa.rs
@@ -68,7 +68,7 @@ impl RData for Caa {
 
 impl ByteConvertible for Caa {
     fn byte_size(&self) -> usize {
-        (2 * std::mem::size_of::<u8>()) + self.value.len()
+        (2 * std::mem::size_of::<u8>()) + self.tag.len() + self.value.len()
     }
 
     fn to_bytes(&self) -> Vec<u8> {
-- 
2.43.0


From 901697e32caecb8e243cde58beb4b4d2d45396a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:12 +0000
Subject: [PATCH 09/41] fix: compute the size of OPT record data from its
 options

---
 src/rdata/opt.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rdata/opt.rs b/src/rdata/opt.rs
index e9ec4fa..c81b6c8 100644
--- a/src/rdata/opt.rs
+++ b/src/rdata/opt.rs
@@ -53,7 +53,9 @@ impl RData for Opt {
 
 impl ByteConvertible for Opt {
     fn byte_size(&self) -> usize {
-        (2 * std::mem::size_of::<u8>()) + self.0.iter().fold(0, |acc, elem| acc + elem.1.len())
+        self.0.values().fold(0, |acc, data| {
+            acc + (2 * std::mem::size_of::<u16>()) + data.len()
+        })
     }
 
     fn to_bytes(&self) -> Vec<u8> {
-- 
2.43.0


From 25b9389408cd40c5a929a0f1aa986e3e609f2b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:14 +0000
Subject: [PATCH 10/41] fix: serialize OPT options in a reproducible order

---
 src/rdata/opt.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/rdata/opt.rs b/src/rdata/opt.rs
index c81b6c8..23e8164 100644
--- a/src/rdata/opt.rs
+++ b/src/rdata/opt.rs
@@ -60,7 +60,10 @@ impl ByteConvertible for Opt {
 
     fn to_bytes(&self) -> Vec<u8> {
         let mut buff = Vec::with_capacity(self.byte_size());
-        for (code, data) in self.0.iter() {
+        // Options are kept in an unordered map, so bring them in a reproducible order
+        let mut options: Vec<_> = self.0.iter().collect();
+        options.sort_unstable_by_key(|(code, _)| **code);
+        for (code, data) in options {
             buff.extend_from_slice(&u16::to_be_bytes(*code));
             buff.extend_from_slice(&u16::to_be_bytes(data.len() as u16));
             buff.extend_from_slice(data);
-- 
2.43.0


From 513194dc9b697f7cfc9fced2607b821192113c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:16 +0000
Subject: [PATCH 11/41] fix: parse the SSHFP fingerprint as the rest of the
 record data

---
 src/rdata/sshfp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rdata/sshfp.rs b/src/rdata/sshfp.rs
index 701afa1..80755e3 100644
--- a/src/rdata/sshfp.rs
+++ b/src/rdata/sshfp.rs
@@ -36,7 +36,7 @@ impl<'a> TryFrom<&mut DnsBuffer<'a>> for Sshfp {
         Ok(Self {
             algorithm: buffer.extract_u8()?.try_into()?,
             fingerprint_type: buffer.extract_u8()?.try_into()?,
-            fingerprint: buffer.extract_character_string()?,
+            fingerprint: buffer.extract_bytes(buffer.remaining())?.to_vec(),
         })
     }
 }
-- 
2.43.0


From d4f8a6422b66a932df058ef665822a10e039a4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:33 +0000
Subject: [PATCH 12/41] fix: correct the size of RRSIG record data

---
 src/rdata/dnssec.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rdata/dnssec.rs b/src/rdata/dnssec.rs
index b4aaa5a..cbc451e 100644
--- a/src/rdata/dnssec.rs
+++ b/src/rdata/dnssec.rs
@@ -722,7 +722,7 @@ impl RData for Rrsig {
 impl ByteConvertible for Rrsig {
     #[inline(always)]
     fn byte_size(&self) -> usize {
-        17 + self.signers_name.len() + self.signature.len()
+        18 + self.signers_name.len() + self.signature.len()
     }
 
     fn to_bytes(&self) -> Vec<u8> {
-- 
2.43.0


From 76d26b4d6004e83c7d6426e378d00b2c3047150c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:35 +0000
Subject: [PATCH 13/41] fix: omit trailing zero octets of the APL address

---
 src/rdata/apl.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/rdata/apl.rs b/src/rdata/apl.rs
index 48f62b9..4ee8f83 100644
--- a/src/rdata/apl.rs
+++ b/src/rdata/apl.rs
@@ -123,17 +123,17 @@ impl Afd {
 
 impl ByteConvertible for Afd {
     fn byte_size(&self) -> usize {
-        match self {
-            Self::IpV4(_) => 4,
-            Self::IpV6(_) => 16,
-        }
+        self.to_bytes().len()
     }
 
     fn to_bytes(&self) -> Vec<u8> {
-        let mut buf = Vec::with_capacity(self.byte_size());
-        match self {
-            Self::IpV4(ref v4) => buf.extend(v4.octets()),
-            Self::IpV6(ref v6) => buf.extend(v6.octets()),
+        let mut buf = match self {
+            Self::IpV4(ref v4) => v4.octets().to_vec(),
+            Self::IpV6(ref v6) => v6.octets().to_vec(),
+        };
+        // Trailing zero octets must not be included (RFC 3123 4)
+        while buf.last() == Some(&0) {
+            buf.pop();
         }
         buf
     }
-- 
2.43.0


From 969afbdc40768f891eab3618af9c9229adb696f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:37 +0000
Subject: [PATCH 14/41] fix: take RDLENGTH from the serialized record data

---
 src/resource.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/resource.rs b/src/resource.rs
index d79acb8..a51f2de 100644
--- a/src/resource.rs
+++ b/src/resource.rs
@@ -444,9 +444,10 @@ impl ByteConvertible for ResourceRecord {
 
         buffer.extend_from_slice(&u32::to_be_bytes(self.time_to_live));
 
-        buffer.extend_from_slice(&u16::to_be_bytes(self.rdata.byte_size() as u16));
+        let rdata = self.rdata.to_bytes();
+        buffer.extend_from_slice(&u16::to_be_bytes(rdata.len() as u16));
 
-        buffer.extend_from_slice(&self.rdata.to_bytes());
+        buffer.extend_from_slice(&rdata);
 
         buffer
     }
-- 
2.43.0


From 57314ee4244ffc66ceb3086437a888975e41b4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:53 +0000
Subject: [PATCH 15/41] fix: never emit compression pointers beyond the 14 bit
 offset range

---
 src/fqdn.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/fqdn.rs b/src/fqdn.rs
index d1f37ed..7c796bf 100644
--- a/src/fqdn.rs
+++ b/src/fqdn.rs
@@ -204,7 +204,10 @@ impl CompressedByteConvertible for FQDN {
                 size += 2;
                 return size;
             } else {
-                names.insert(remaining_hash, offset);
+                // Pointers can only refer to positions that fit into 14 bits
+                if offset <= !COMPRESSION_MASK_U16 as usize {
+                    names.insert(remaining_hash, offset);
+                }
                 offset += self.data[i].len() + 1;
                 size += self.data[i].len() + 1;
             }
@@ -229,7 +232,10 @@ impl CompressedByteConvertible for FQDN {
                 buffer.push(self.data[i].len() as u8);
                 buffer.extend_from_slice(&self.data[i]);
 
-                names.insert(remaining_hash, offset);
+                // Pointers can only refer to positions that fit into 14 bits
+                if offset <= !COMPRESSION_MASK_U16 as usize {
+                    names.insert(remaining_hash, offset);
+                }
                 offset += self.data[i].len() + 1;
             }
         }
-- 
2.43.0


From 790b63873a9c4b1a48f69d9d9e225b05dc3702f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:55 +0000
Subject: [PATCH 16/41] fix: skip empty labels when serializing compressed
 names

---
 src/fqdn.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/fqdn.rs b/src/fqdn.rs
index 7c796bf..320f3bb 100644
--- a/src/fqdn.rs
+++ b/src/fqdn.rs
@@ -196,6 +196,11 @@ impl CompressedByteConvertible for FQDN {
     fn byte_size_compressed(&self, names: &mut HashMap<u64, usize>, mut offset: usize) -> usize {
         let mut size = 0;
         for i in 0..self.data.len() {
+            // Empty labels have no binary representation inside of a name
+            if self.data[i].is_empty() {
+                continue;
+            }
+
             let remaining_fqdn = &self.data[i..];
             let remaining_hash = hash_fqdn(remaining_fqdn);
 
@@ -221,6 +226,11 @@ impl CompressedByteConvertible for FQDN {
         let mut buffer = Vec::new();
 
         for i in 0..self.data.len() {
+            // Empty labels have no binary representation inside of a name
+            if self.data[i].is_empty() {
+                continue;
+            }
+
             let remaining_fqdn = &self.data[i..];
             let remaining_hash = hash_fqdn(remaining_fqdn);
 
-- 
2.43.0


From 7193767a870f3eeb9c4bd16f3e2056c99d08a902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:22 +0000
Subject: [PATCH 17/41] fix: keep the section counts of the header in step with
 the packet

---
 src/packet.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/packet.rs b/src/packet.rs
index d542777..0c5f5cc 100644
--- a/src/packet.rs
+++ b/src/packet.rs
@@ -76,8 +76,11 @@ impl Packet {
     /// This sets the necessary flags to make it a query dns packet. Other fields remain defaulted.
     /// This should only be used to query information from a name server.
     pub fn with_questions(id: u16, rc: bool, questions: Vec<Question>) -> Self {
+        let mut header = Header::new_query(id, rc);
+        header.ques_count = questions.len() as u16;
+
         Packet {
-            header: Header::new_query(id, rc),
+            header,
             questions,
             answers: Vec::new(),
             authorities: Vec::new(),
@@ -205,7 +208,7 @@ impl Packet {
     }
 
     pub fn take_authorities(&mut self) -> Vec<ResourceRecord> {
-        self.header.ans_count = 0;
+        self.header.auth_count = 0;
         std::mem::take(&mut self.authorities)
     }
 
-- 
2.43.0


From b07e57beda36eb6d72226dc5a299e123acee803b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:23 +0000
Subject: [PATCH 18/41] fix: serialize the actual section counts in compressed
 packets

---
 src/packet.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/packet.rs b/src/packet.rs
index 0c5f5cc..ac249da 100644
--- a/src/packet.rs
+++ b/src/packet.rs
@@ -245,7 +245,14 @@ impl Packet {
     pub fn to_bytes_compressed(&self) -> Vec<u8> {
         let mut used_fqdn = std::collections::HashMap::<u64, usize>::new();
 
-        let mut bin = self.header.to_bytes();
+        // Set correct number of element into the header
+        let mut header = self.header.clone();
+        header.ques_count = self.questions.len() as u16;
+        header.ans_count = self.answers.len() as u16;
+        header.auth_count = self.authorities.len() as u16;
+        header.add_count = self.additional.len() as u16;
+
+        let mut bin = header.to_bytes();
 
         for ques in self.questions.iter() {
             bin.extend_from_slice(&ques.to_bytes_compressed(&mut used_fqdn, bin.len()));
-- 
2.43.0


From 2cf06207cedd0ccb19d1a693e7bc4220e3a04916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:40 +0000
Subject: [PATCH 19/41] fix: recognize the CDS and CDNSKEY type codes

---
 src/question.rs | 4 ++++
 src/resource.rs | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/question.rs b/src/question.rs
index 89667f3..59e5199 100644
--- a/src/question.rs
+++ b/src/question.rs
@@ -159,6 +159,10 @@ impl TryFrom<u16> for QType {
             49 => Ok(Self::DHCID),
             52 => Ok(Self::TLSA),
             55 => Ok(Self::HIP),
+            #[cfg(feature = "dnssec")]
+            59 => Ok(Self::CDS),
+            #[cfg(feature = "dnssec")]
+            60 => Ok(Self::CDNSKEY),
             61 => Ok(Self::OPENPGPKEY),
             62 => Ok(Self::CSYNC),
             64 => Ok(Self::SVCB),
diff --git a/src/resource.rs b/src/resource.rs
index a51f2de..37880d1 100644
--- a/src/resource.rs
+++ b/src/resource.rs
@@ -193,6 +193,10 @@ impl TryFrom<u16> for RecordType {
             49 => Ok(Self::DHCID),
             52 => Ok(Self::TLSA),
             55 => Ok(Self::HIP),
+            #[cfg(feature = "dnssec")]
+            59 => Ok(Self::CDS),
+            #[cfg(feature = "dnssec")]
+            60 => Ok(Self::CDNSKEY),
             61 => Ok(Self::OPENPGPKEY),
             62 => Ok(Self::CSYNC),
             64 => Ok(Self::SVCB),
-- 
2.43.0


From a209f5636ab49a47d4b4ea318f59f407976146db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:41 +0000
Subject: [PATCH 20/41] fix: do not treat arbitrary label bytes as utf-8 when
 displaying a FQDN

---
 src/fqdn.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fqdn.rs b/src/fqdn.rs
index 320f3bb..ec75123 100644
--- a/src/fqdn.rs
+++ b/src/fqdn.rs
@@ -87,8 +87,8 @@ impl FQDN {
 impl Display for FQDN {
     fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
         for (idx, name_part) in self.iter().enumerate() {
-            // SAFETY: Safe because the u8 in self.data are parsed from a &str in the constructor
-            write!(f, "{}", unsafe { std::str::from_utf8_unchecked(name_part) })?;
+            // Labels that are parsed from binary data are not necessarily valid utf-8
+            write!(f, "{}", String::from_utf8_lossy(name_part))?;
             if idx + 1 != self.data.len() {
                 write!(f, ".")?;
             }
-- 
2.43.0


From b4c18ffe582ef8a278efd78b165e35eed9cbe9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:43 +0000
Subject: [PATCH 21/41] fix: FQDN::is_empty reports names without labels

---
 src/fqdn.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fqdn.rs b/src/fqdn.rs
index ec75123..a508157 100644
--- a/src/fqdn.rs
+++ b/src/fqdn.rs
@@ -35,7 +35,7 @@ impl FQDN {
 
     /// Checks if the FQDN does not contain any labels.
     pub fn is_empty(&self) -> bool {
-        self.byte_size() == 0
+        self.data.is_empty()
     }
 
     /// Returns the byte-size of this FQDN in its binary representation.
-- 
2.43.0


From fda69c34a00974a95f729d0e52ccae10b34f5565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:57 +0000
Subject: [PATCH 22/41] fix: do not print debug output while serializing TSIG
 record data

---
 src/rdata/tsig.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/rdata/tsig.rs b/src/rdata/tsig.rs
index 7db281f..5238c08 100644
--- a/src/rdata/tsig.rs
+++ b/src/rdata/tsig.rs
@@ -106,7 +106,6 @@ impl ByteConvertible for Tsig {
 
     fn to_bytes(&self) -> Vec<u8> {
         let mut buf = Vec::with_capacity(self.byte_size());
-        println!("Test: {:?}", self.algorithm.to_bytes());
         buf.extend(self.algorithm.to_bytes());
         buf.extend(&self.time_signed.to_be_bytes()[2..]); // 48 bytes
         buf.extend(self.fudge.to_be_bytes()); // 16 b
-- 
2.43.0


From 63bcb90ad8585f99f94a46fc2996bd07c16f65e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:59 +0000
Subject: [PATCH 23/41] fix: DnsError is not its own source

---
 src/error.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/error.rs b/src/error.rs
index ff3b1e0..b99fbc5 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -80,7 +80,10 @@ pub enum DnsError {
 
 impl std::error::Error for DnsError {
     fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
-        Some(self)
+        match self {
+            Self::InvalidDnsSecSignatureTimespan(err) => Some(err),
+            _ => None,
+        }
     }
 }
 
-- 
2.43.0


From 962a985b5151a0cd97da1402769eb95dabc54a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:00 +0000
Subject: [PATCH 24/41] fix: report the TLSA specific errors for unknown
 selectors and matching types

---
 src/rdata/tlsa.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rdata/tlsa.rs b/src/rdata/tlsa.rs
index 8093f05..ec0ea5a 100644
--- a/src/rdata/tlsa.rs
+++ b/src/rdata/tlsa.rs
@@ -138,7 +138,7 @@ impl TryFrom<u8> for Selector {
         match value {
             0 => Ok(Self::Full),
             1 => Ok(Self::SubjectPublicKeyInfo),
-            _ => Err(DnsError::InvalidSSHFPAlgorithm(value)),
+            _ => Err(DnsError::InvalidTLSASelector(value)),
         }
     }
 }
@@ -167,7 +167,7 @@ impl TryFrom<u8> for MatchingType {
             0 => Ok(Self::ExactMatch),
             1 => Ok(Self::SHA256),
             2 => Ok(Self::SHA512),
-            _ => Err(DnsError::InvalidSSHFPAlgorithm(value)),
+            _ => Err(DnsError::InvalidTLSAMatchingType(value)),
         }
     }
 }
-- 
2.43.0


From c02ff88bf5ae5406fbc6defbe2e08afe99411076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:21 +0000
Subject: [PATCH 25/41] fix: read the class field of OPT records as the
 complete payload size

---
 src/resource.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/resource.rs b/src/resource.rs
index 37880d1..addf9b3 100644
--- a/src/resource.rs
+++ b/src/resource.rs
@@ -384,12 +384,23 @@ impl<'a> TryFrom<&mut DnsBuffer<'a>> for ResourceRecord {
         let a_type = buffer.extract_u16_as::<RecordType>()?;
 
         #[cfg(not(feature = "mdns"))]
-        let a_class = RecordClass::from(buffer.extract_u16()?);
+        let a_class = {
+            let bin_val = buffer.extract_u16()?;
+            if a_type == RecordType::OPT {
+                // The class field of OPT pseudo records is the payload size
+                RecordClass::UdpPayloadSize(bin_val)
+            } else {
+                RecordClass::from(bin_val)
+            }
+        };
         #[cfg(feature = "mdns")]
         let (a_class, cache_flush) = {
             const MDNS_ENABLE_CACHE_FLUSH: u16 = 1 << 15;
             let bin_val = buffer.extract_u16()?;
-            if bin_val & MDNS_ENABLE_CACHE_FLUSH > 0 {
+            if a_type == RecordType::OPT {
+                // The class field of OPT pseudo records is the payload size
+                (RecordClass::UdpPayloadSize(bin_val), false)
+            } else if bin_val & MDNS_ENABLE_CACHE_FLUSH > 0 {
                 let class_val = bin_val & !MDNS_ENABLE_CACHE_FLUSH;
                 (RecordClass::from(class_val), true)
             } else {
-- 
2.43.0


From 3d126e0c75471c7bb5701a2d54df9e79e4bd8a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:22 +0000
Subject: [PATCH 26/41] fix: accept lower case NAPTR flags (case is not
 significant)

---
 src/rdata/naptr.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/rdata/naptr.rs b/src/rdata/naptr.rs
index 72ac6ab..520c956 100644
--- a/src/rdata/naptr.rs
+++ b/src/rdata/naptr.rs
@@ -186,10 +186,10 @@ impl TryFrom<u8> for Flag {
 
     fn try_from(value: u8) -> Result<Self, Self::Error> {
         match value as char {
-            'S' => Ok(Self::S),
-            'A' => Ok(Self::A),
-            'U' => Ok(Self::U),
-            'P' => Ok(Self::P),
+            'S' | 's' => Ok(Self::S),
+            'A' | 'a' => Ok(Self::A),
+            'U' | 'u' => Ok(Self::U),
+            'P' | 'p' => Ok(Self::P),
             _ => Err(DnsError::InvalidNaptrFlag(value)),
         }
     }
-- 
2.43.0


From be6bd96bb469dd32d67df6ee82fd4885b7540b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:32 +0000
Subject: [PATCH 27/41] fix: RRSIG inception and expiration are measured in
 seconds

---
 src/rdata/dnssec.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rdata/dnssec.rs b/src/rdata/dnssec.rs
index cbc451e..ab25264 100644
--- a/src/rdata/dnssec.rs
+++ b/src/rdata/dnssec.rs
@@ -486,11 +486,11 @@ impl Rrsig {
         let expiration = expiration
             .duration_since(UNIX_EPOCH)
             .map_err(DnsError::InvalidDnsSecSignatureTimespan)?
-            .as_millis() as u32;
+            .as_secs() as u32;
         let inception = inception
             .duration_since(UNIX_EPOCH)
             .map_err(DnsError::InvalidDnsSecSignatureTimespan)?
-            .as_millis() as u32;
+            .as_secs() as u32;
 
         let mut rrsig = Self {
             type_covered: rr_set.set_type(),
-- 
2.43.0


From 91e4795c4315f630a07ff9c829fd7ca90ae4f6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:33 +0000
Subject: [PATCH 28/41] fix: verify RSA/SHA-256 and RSA/SHA-512 signatures with
 the padding used for signing

---
 src/rdata/dnssec.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/rdata/dnssec.rs b/src/rdata/dnssec.rs
index ab25264..81638e5 100644
--- a/src/rdata/dnssec.rs
+++ b/src/rdata/dnssec.rs
@@ -598,12 +598,19 @@ impl Rrsig {
                 let verifier = rsa::RsaPublicKey::new(modulus, exponent)
                     .map_err(|err| DnsError::DnsSecVerificationError(err.to_string()))?;
 
+                // Has to match the padding that is applied by the signing algorithm
+                let padding = match self.algorithm {
+                    Algorithm::RSA_SHA256 => {
+                        rsa::pkcs1v15::Pkcs1v15Sign::new::<rsa::sha2::Sha256>()
+                    }
+                    Algorithm::RSA_SHA512 => {
+                        rsa::pkcs1v15::Pkcs1v15Sign::new::<rsa::sha2::Sha512>()
+                    }
+                    _ => rsa::pkcs1v15::Pkcs1v15Sign::new_unprefixed(),
+                };
+
                 Ok(verifier
-                    .verify(
-                        rsa::pkcs1v15::Pkcs1v15Sign::new_unprefixed(),
-                        &sig,
-                        &self.signature,
-                    )
+                    .verify(padding, &sig, &self.signature)
                     .is_ok())
             }
             Algorithm::DSA_SHA1 => {
-- 
2.43.0


From 4c070d2578c826021b64e45253eb51f1768ab387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:35 +0000
Subject: [PATCH 29/41] fix: return an error if RSA signing fails instead of
 panicking

---
 src/rdata/dnssec.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/rdata/dnssec.rs b/src/rdata/dnssec.rs
index 81638e5..f3c29c7 100644
--- a/src/rdata/dnssec.rs
+++ b/src/rdata/dnssec.rs
@@ -845,28 +845,28 @@ impl Algorithm {
                 let rsa_key_pair = ring::rsa::KeyPair::from_pkcs8(private_key)
                     .map_err(|err| DnsError::DnsSecSigningError(err.to_string()))?;
                 let mut signature = vec![0; rsa_key_pair.public().modulus_len()];
-                let _ = rsa_key_pair
+                rsa_key_pair
                     .sign(
                         &ring::signature::RSA_PKCS1_SHA256,
                         &rng,
                         data,
                         &mut signature,
                     )
-                    .map_err(|_| todo!());
+                    .map_err(|err| DnsError::DnsSecSigningError(err.to_string()))?;
                 Ok(signature)
             }
             Self::RSA_SHA512 => {
                 let rsa_key_pair = ring::rsa::KeyPair::from_pkcs8(private_key)
                     .map_err(|err| DnsError::DnsSecSigningError(err.to_string()))?;
                 let mut signature = vec![0; rsa_key_pair.public().modulus_len()];
-                let _ = rsa_key_pair
+                rsa_key_pair
                     .sign(
                         &ring::signature::RSA_PKCS1_SHA512,
                         &rng,
                         data,
                         &mut signature,
                     )
-                    .map_err(|_| todo!());
+                    .map_err(|err| DnsError::DnsSecSigningError(err.to_string()))?;
                 Ok(signature)
             }
             Self::ECDSA_P256 => {
-- 
2.43.0


From 8095b09750ecbba1e78a0ac8f56b2903e47a92ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:36 +0000
Subject: [PATCH 30/41] fix: report the algorithm number of unsupported signing
 algorithms

---
 src/rdata/dnssec.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/rdata/dnssec.rs b/src/rdata/dnssec.rs
index f3c29c7..51e130f 100644
--- a/src/rdata/dnssec.rs
+++ b/src/rdata/dnssec.rs
@@ -907,9 +907,9 @@ impl Algorithm {
                 let signature = ed448_key.sign_raw(data);
                 Ok(signature.to_vec())
             }
-            Self::Indirect => Err(DnsError::InvalidDnsSecAlgorithm(*self as u8)),
-            Self::PrivateDns => Err(DnsError::InvalidDnsSecAlgorithm(*self as u8)),
-            Self::PrivateOid => Err(DnsError::InvalidDnsSecAlgorithm(*self as u8)),
+            Self::Indirect => Err(DnsError::InvalidDnsSecAlgorithm((*self).into())),
+            Self::PrivateDns => Err(DnsError::InvalidDnsSecAlgorithm((*self).into())),
+            Self::PrivateOid => Err(DnsError::InvalidDnsSecAlgorithm((*self).into())),
         }
     }
 }
-- 
2.43.0


From 525b633b4133e7f87c13ee7418cdaaca7823a805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:38 +0000
Subject: [PATCH 31/41] fix: verify ECDSA signatures with keys in the DNSKEY
 format of RFC 6605

---
 src/rdata/dnssec.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/rdata/dnssec.rs b/src/rdata/dnssec.rs
index 51e130f..d7e8597 100644
--- a/src/rdata/dnssec.rs
+++ b/src/rdata/dnssec.rs
@@ -645,17 +645,17 @@ impl Rrsig {
                 // 64 bytes (x | y)
                 let verifier = ring::signature::UnparsedPublicKey::new(
                     &ring::signature::ECDSA_P256_SHA256_FIXED,
-                    public_key_data.extract_bytes(public_key_data.remaining())?,
+                    uncompressed_point(&dnskey.public_key, 64),
                 );
 
                 Ok(verifier.verify(&sig, &self.signature).is_ok())
             }
             Algorithm::ECDSA_P384 => {
                 // Key data field:
-                // 97 bytes (x | y)
+                // 96 bytes (x | y)
                 let verifier = ring::signature::UnparsedPublicKey::new(
                     &ring::signature::ECDSA_P384_SHA384_FIXED,
-                    public_key_data.extract_bytes(public_key_data.remaining())?,
+                    uncompressed_point(&dnskey.public_key, 96),
                 );
 
                 Ok(verifier.verify(&sig, &self.signature).is_ok())
@@ -698,6 +698,17 @@ impl Rrsig {
     }
 }
 
+/// ECDSA keys are stored as bare coordinates (x | y) in DNSKEY records (RFC 6605 4). This prepends
+/// the marker for uncompressed points that is expected by the verification algorithms if needed.
+fn uncompressed_point(key: &[u8], coordinates_len: usize) -> Vec<u8> {
+    let mut point = Vec::with_capacity(1 + key.len());
+    if key.len() == coordinates_len {
+        point.push(4);
+    }
+    point.extend_from_slice(key);
+    point
+}
+
 impl<'a> TryFrom<&mut DnsBuffer<'a>> for Rrsig {
     type Error = DnsError;
 
-- 
2.43.0


From 4431c435d56aa050caeca531011a11e542279cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:04 +0000
Subject: [PATCH 32/41] fix: include the digest prefix in RSA/MD5 and RSA/SHA-1
 signatures

---
 src/rdata/dnssec.rs | 47 ++++++++++++++++++++++++++++-----------------
 1 file changed, 29 insertions(+), 18 deletions(-)

diff --git a/src/rdata/dnssec.rs b/src/rdata/dnssec.rs
index d7e8597..bc8f631 100644
--- a/src/rdata/dnssec.rs
+++ b/src/rdata/dnssec.rs
@@ -598,16 +598,7 @@ impl Rrsig {
                 let verifier = rsa::RsaPublicKey::new(modulus, exponent)
                     .map_err(|err| DnsError::DnsSecVerificationError(err.to_string()))?;
 
-                // Has to match the padding that is applied by the signing algorithm
-                let padding = match self.algorithm {
-                    Algorithm::RSA_SHA256 => {
-                        rsa::pkcs1v15::Pkcs1v15Sign::new::<rsa::sha2::Sha256>()
-                    }
-                    Algorithm::RSA_SHA512 => {
-                        rsa::pkcs1v15::Pkcs1v15Sign::new::<rsa::sha2::Sha512>()
-                    }
-                    _ => rsa::pkcs1v15::Pkcs1v15Sign::new_unprefixed(),
-                };
+                let padding = self.algorithm.rsa_padding();
 
                 Ok(verifier
                     .verify(padding, &sig, &self.signature)
@@ -791,6 +782,32 @@ impl Algorithm {
         }
     }
 
+    /// Padding of RSA signatures which includes the ASN.1 prefix of the digest (RFC 2537, RFC 3110
+    /// and RFC 5702).
+    fn rsa_padding(&self) -> rsa::pkcs1v15::Pkcs1v15Sign {
+        use rsa::pkcs1v15::Pkcs1v15Sign;
+
+        match self {
+            Self::RSA_MD5 => Pkcs1v15Sign {
+                hash_len: Some(16),
+                prefix: Box::new([
+                    0x30, 0x20, 0x30, 0x0c, 0x06, 0x08, 0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 0x02,
+                    0x05, 0x05, 0x00, 0x04, 0x10,
+                ]),
+            },
+            Self::RSA_SHA1 => Pkcs1v15Sign {
+                hash_len: Some(20),
+                prefix: Box::new([
+                    0x30, 0x21, 0x30, 0x09, 0x06, 0x05, 0x2b, 0x0e, 0x03, 0x02, 0x1a, 0x05, 0x00,
+                    0x04, 0x14,
+                ]),
+            },
+            Self::RSA_SHA256 => Pkcs1v15Sign::new::<rsa::sha2::Sha256>(),
+            Self::RSA_SHA512 => Pkcs1v15Sign::new::<rsa::sha2::Sha512>(),
+            _ => Pkcs1v15Sign::new_unprefixed(),
+        }
+    }
+
     pub fn sign_data(&self, data: &[u8], private_key: &[u8]) -> Result<Vec<u8>, DnsError> {
         let rng = ring::rand::SystemRandom::new();
 
@@ -807,10 +824,7 @@ impl Algorithm {
                     .map_err(|err| DnsError::DnsSecSigningError(err.to_string()))?;
 
                 let signature = private_key
-                    .sign(
-                        rsa::pkcs1v15::Pkcs1v15Sign::new_unprefixed(),
-                        digest.as_ref(),
-                    )
+                    .sign(self.rsa_padding(), digest.as_ref())
                     .map_err(|err| DnsError::DnsSecSigningError(err.to_string()))?;
 
                 Ok(signature)
@@ -844,10 +858,7 @@ impl Algorithm {
                     .map_err(|err| DnsError::DnsSecSigningError(err.to_string()))?;
 
                 let signature = private_key
-                    .sign(
-                        rsa::pkcs1v15::Pkcs1v15Sign::new_unprefixed(),
-                        digest.as_ref(),
-                    )
+                    .sign(self.rsa_padding(), digest.as_ref())
                     .map_err(|err| DnsError::DnsSecSigningError(err.to_string()))?;
 
                 Ok(signature)
-- 
2.43.0


From 236a513a25bffc68c27366f8c7482ad0761dcfa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:06 +0000
Subject: [PATCH 33/41] fix: sign and verify DSA signatures in the format of
 RFC 2536

---
 src/rdata/dnssec.rs | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/rdata/dnssec.rs b/src/rdata/dnssec.rs
index bc8f631..b41ca12 100644
--- a/src/rdata/dnssec.rs
+++ b/src/rdata/dnssec.rs
@@ -605,7 +605,7 @@ impl Rrsig {
                     .is_ok())
             }
             Algorithm::DSA_SHA1 => {
-                use dsa::signature::Verifier;
+                use dsa::signature::hazmat::PrehashVerifier;
 
                 // Key data field:
                 // T         1  octet
@@ -626,10 +626,20 @@ impl Rrsig {
                 )
                 .map_err(|err| DnsError::DnsSecVerificationError(err.to_string()))?;
 
-                let signature = dsa::Signature::try_from(self.signature.as_slice())
-                    .map_err(|err| DnsError::DnsSecVerificationError(err.to_string()))?;
+                // Signature data field (RFC 2536 3):
+                // T         1  octet
+                // R        20  octets
+                // S        20  octets
+                if self.signature.len() != 41 {
+                    return Ok(false);
+                }
+                let signature = dsa::Signature::from_components(
+                    BigUint::from_bytes_be(&self.signature[1..21]),
+                    BigUint::from_bytes_be(&self.signature[21..]),
+                )
+                .map_err(|err| DnsError::DnsSecVerificationError(err.to_string()))?;
 
-                Ok(verifier.verify(&sig, &signature).is_ok())
+                Ok(verifier.verify_prehash(&sig, &signature).is_ok())
             }
             Algorithm::ECDSA_P256 => {
                 // Key data field:
@@ -841,8 +851,19 @@ impl Algorithm {
                     .map_err(|err| DnsError::DnsSecSigningError(err.to_string()))?;
                 let signature = signing_key.sign_digest(hasher);
 
-                let mut sign_data = signature.r().to_bytes_be();
-                sign_data.extend_from_slice(&signature.s().to_bytes_be());
+                // Signature data field (RFC 2536 3):
+                // T         1  octet
+                // R        20  octets
+                // S        20  octets
+                let p_len = signing_key.verifying_key().components().p().bits().div_ceil(8);
+                let mut sign_data = vec![(p_len.saturating_sub(64) / 8) as u8];
+                for part in [signature.r().to_bytes_be(), signature.s().to_bytes_be()] {
+                    if part.len() > 20 {
+                        return Err(DnsError::DnsSecSigningError("Invalid key size".into()));
+                    }
+                    sign_data.resize(sign_data.len() + 20 - part.len(), 0);
+                    sign_data.extend_from_slice(&part);
+                }
 
                 Ok(sign_data)
             }
-- 
2.43.0


From d9345f53592c28752ac8c640202da033e4f475db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:07 +0000
Subject: [PATCH 34/41] fix: compute the key tag of RSA/MD5 keys as defined by
 RFC 4034

---
 src/rdata/dnssec.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/rdata/dnssec.rs b/src/rdata/dnssec.rs
index b41ca12..814a84d 100644
--- a/src/rdata/dnssec.rs
+++ b/src/rdata/dnssec.rs
@@ -270,6 +270,15 @@ impl DnsKey {
     /// First octet of the key tag is the most significant 8 bits of the return value
     /// Second octet of the key tag is the least significant 8 bits of the return value
     fn compute_key_tag(&self) -> u16 {
+        if self.algorithm == Algorithm::RSA_MD5 {
+            // The key tag of this algorithm is defined differently for historical reasons. It is
+            // made of the upper 16 of the lower 24 bits of the modulus (RFC 4034 B.1).
+            return match self.public_key.as_slice() {
+                [.., high, low, _] => u16::from_be_bytes([*high, *low]),
+                _ => 0,
+            };
+        }
+
         let mut key_tag = self
             .to_bytes()
             .iter()
-- 
2.43.0


From 2c10b5709892201bd9bcd1a16ac82c4579e46a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:20 +0000
Subject: [PATCH 35/41] fix: do not underflow while serializing large SVCB
 parameters

---
 src/rdata/svcb.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rdata/svcb.rs b/src/rdata/svcb.rs
index 235a0c7..a73021d 100644
--- a/src/rdata/svcb.rs
+++ b/src/rdata/svcb.rs
@@ -265,7 +265,7 @@ impl ByteConvertible for Param {
         buf.extend(u16::to_be_bytes(key));
 
         // Add the param val length to the buffer
-        buf.extend(u16::to_be_bytes(byte_size as u16 - 4));
+        buf.extend(u16::to_be_bytes((byte_size - 4) as u16));
 
         // Add the param val binary data to the buffer
         match self {
-- 
2.43.0


From 00b2215992fa5d71075c930f52292a76b343d976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:47 +0000
Subject: [PATCH 36/41] fix: keep the section counts when the header of a
 packet is replaced

---
 src/packet.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/packet.rs b/src/packet.rs
index ac249da..7020bfb 100644
--- a/src/packet.rs
+++ b/src/packet.rs
@@ -159,6 +159,11 @@ impl Packet {
 
     pub fn set_header(&mut self, header: Header) {
         self.header = header;
+        // The number of elements is determined by the packet and not by the new header
+        self.header.ques_count = self.questions.len() as u16;
+        self.header.ans_count = self.answers.len() as u16;
+        self.header.auth_count = self.authorities.len() as u16;
+        self.header.add_count = self.additional.len() as u16;
     }
 
     pub fn questions(&self) -> &[Question] {
@@ -355,7 +360,7 @@ impl<'a> TryFrom<&mut DnsBuffer<'a>> for Packet {
     fn try_from(buffer: &mut DnsBuffer<'a>) -> Result<Self, Self::Error> {
         let mut packet = Packet::default();
 
-        packet.set_header(Header::try_from(buffer as &mut _)?);
+        packet.header = Header::try_from(buffer as &mut _)?;
 
         // Parse questions from buffer
         let mut questions = Vec::with_capacity(packet.header.ques_count as usize);
-- 
2.43.0


From 445fe18ad67be8d29b3a957c2ee5a3c6485b68fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:49 +0000
Subject: [PATCH 37/41] fix: compute DS digests over the canonical owner name

---
 src/rdata/dnssec.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rdata/dnssec.rs b/src/rdata/dnssec.rs
index 814a84d..3756c5d 100644
--- a/src/rdata/dnssec.rs
+++ b/src/rdata/dnssec.rs
@@ -379,7 +379,9 @@ impl Ds {
         digest_type: DigestType,
     ) -> Result<Self, DnsError> {
         let mut digest_data = Vec::with_capacity(owner_name.byte_size() + dnskey.byte_size());
-        digest_data.extend_from_slice(&owner_name.to_bytes());
+        // The digest is defined over the canonical form of the owner name (RFC 4034 5.1.4). The
+        // length octets of the labels are not affected by the conversion into lower case.
+        digest_data.extend_from_slice(&owner_name.to_bytes().to_ascii_lowercase());
         digest_data.extend_from_slice(&dnskey.to_bytes());
 
         Ok(Self {
-- 
2.43.0


From 85c3fbca17eecd84fea046eae93be3a7c73b6812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:51 +0000
Subject: [PATCH 38/41] fix: compute DHCID digests over the canonical name

---
 src/rdata/dhcid.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rdata/dhcid.rs b/src/rdata/dhcid.rs
index 833c36b..dd02137 100644
--- a/src/rdata/dhcid.rs
+++ b/src/rdata/dhcid.rs
@@ -50,7 +50,9 @@ impl Dhcid {
 
         let mut ctx = digest::Context::new(&digest::SHA256);
         ctx.update(identifier);
-        ctx.update(&fqdn.to_bytes());
+        // The digest is defined over the canonical form of the name (RFC 4701 3.5). The length octets
+        // of the labels are not affected by the conversion into lower case.
+        ctx.update(&fqdn.to_bytes().to_ascii_lowercase());
 
         Self {
             identifier_code,
-- 
2.43.0


From 5852c8137b002a368d683a28bbcf600d36c11cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:52 +0000
Subject: [PATCH 39/41] fix: do not count the wildcard label in RRSIG records

---
 src/rdata/dnssec.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/rdata/dnssec.rs b/src/rdata/dnssec.rs
index 3756c5d..445c332 100644
--- a/src/rdata/dnssec.rs
+++ b/src/rdata/dnssec.rs
@@ -506,7 +506,11 @@ impl Rrsig {
         let mut rrsig = Self {
             type_covered: rr_set.set_type(),
             algorithm: dnskey.algorithm,
-            labels: rr_set.name().label_count(),
+            // A leading wildcard label is not counted (RFC 4034 3.1.3)
+            labels: match rr_set.name().iter().next() {
+                Some(label) if label == b"*" => rr_set.name().label_count() - 1,
+                _ => rr_set.name().label_count(),
+            },
             original_ttl: rr_set.ttl(),
             sig_expiration: expiration,
             sig_inception: inception,
-- 
2.43.0


From f35b575970c03c4cbc0089629befa6049f582b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:54 +0000
Subject: [PATCH 40/41] fix: verify RRSIG records with the original time to
 live

---
 src/rdata/dnssec.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/rdata/dnssec.rs b/src/rdata/dnssec.rs
index 445c332..2b384ca 100644
--- a/src/rdata/dnssec.rs
+++ b/src/rdata/dnssec.rs
@@ -559,7 +559,15 @@ impl Rrsig {
         sig.extend(u32::to_be_bytes(self.sig_inception));
         sig.extend(u16::to_be_bytes(self.key_tag));
         sig.extend(self.signers_name.to_bytes());
-        sig.extend(rr_set.to_bytes());
+        // The signature covers the original time to live, not the remaining one (RFC 4034 3.1.8.1)
+        let original_rr_set = ResourceRecordSet::new(
+            rr_set.name(),
+            rr_set.set_type(),
+            rr_set.set_class(),
+            self.original_ttl,
+            rr_set.records().to_vec(),
+        );
+        sig.extend(original_rr_set.to_bytes());
 
         // For some algorithms the hash is calculated independently of the verification algorithm
         let sig = match self.algorithm {
-- 
2.43.0


From c978725127e4068e20564a7917d1aa13b0f66fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:57 +0000
Subject: [PATCH 41/41] fix: reserve space for no more entries than a message
 can hold

---
 src/packet.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/packet.rs b/src/packet.rs
index 7020bfb..686ae5a 100644
--- a/src/packet.rs
+++ b/src/packet.rs
@@ -362,15 +362,24 @@ impl<'a> TryFrom<&mut DnsBuffer<'a>> for Packet {
 
         packet.header = Header::try_from(buffer as &mut _)?;
 
+        // The counts in the header are not trustworthy: reserve space only for as many entries as
+        // the rest of the buffer can hold (root name and fixed fields)
+        const MIN_QUESTION_SIZE: usize = 5;
+        const MIN_RECORD_SIZE: usize = 11;
+
         // Parse questions from buffer
-        let mut questions = Vec::with_capacity(packet.header.ques_count as usize);
+        let mut questions = Vec::with_capacity(
+            (packet.header.ques_count as usize).min(buffer.remaining() / MIN_QUESTION_SIZE),
+        );
         for _ in 0..packet.header.ques_count {
             questions.push(Question::try_from(buffer as &mut _)?);
         }
         packet.questions = questions;
 
         // Parse answer records from buffer
-        let mut answers = Vec::with_capacity(packet.header.ans_count as usize);
+        let mut answers = Vec::with_capacity(
+            (packet.header.ans_count as usize).min(buffer.remaining() / MIN_RECORD_SIZE),
+        );
         for _ in 0..packet.header.ans_count {
             // packet.add_answer(ResourceRecord::try_from(buffer as &mut _)?);
             answers.push(ResourceRecord::try_from(buffer as &mut _)?);
@@ -378,14 +387,18 @@ impl<'a> TryFrom<&mut DnsBuffer<'a>> for Packet {
         packet.answers = answers;
 
         // Parse authority records from buffer
-        let mut authorities = Vec::with_capacity(packet.header.auth_count as usize);
+        let mut authorities = Vec::with_capacity(
+            (packet.header.auth_count as usize).min(buffer.remaining() / MIN_RECORD_SIZE),
+        );
         for _ in 0..packet.header.auth_count {
             authorities.push(ResourceRecord::try_from(buffer as &mut _)?);
         }
         packet.authorities = authorities;
 
         // Parse additional records from buffer
-        let mut additionals = Vec::with_capacity(packet.header.add_count as usize);
+        let mut additionals = Vec::with_capacity(
+            (packet.header.add_count as usize).min(buffer.remaining() / MIN_RECORD_SIZE),
+        );
         for _ in 0..packet.header.add_count {
             additionals.push(ResourceRecord::try_from(buffer as &mut _)?);
         }
-- 
2.43.0

