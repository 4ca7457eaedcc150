From a1d3764dac5fa53c3482c6e003332a41af9cb408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:05 +0000
Subject: [PATCH 01/15] fix: report a short output buffer instead of panicking
 when marshalling a sized buffer

---
 marshalable-derive/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marshalable-derive/src/lib.rs b/marshalable-derive/src/lib.rs
index acde6f9..938048a 100644
--- a/marshalable-derive/src/lib.rs
+++ b/marshalable-derive/src/lib.rs
@@ -278,7 +278,7 @@ fn derive_tpm2b_simple(
                 let used = self.size.try_marshal(buffer)?;
                 let (_, rest) = buffer.split_at_mut(used);
                 let buffer_marsh = self.get_size() as usize;
-                if buffer_marsh > (core::cmp::max(Self::MAX_BUFFER_SIZE, rest.len())) {
+                if buffer_marsh > (core::cmp::min(Self::MAX_BUFFER_SIZE, rest.len())) {
                     return Err(tpm2_rs_marshalable::Error::UnexpectedEndOfBuffer);
                 }
                 rest[..buffer_marsh].copy_from_slice(&self.#field_name[..buffer_marsh]);
-- 
2.43.0


From ecbd456826d5a696f193aa09f8d18a8ff691eef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:05 +0000
Subject: [PATCH 02/15] fix: refuse to marshal a count larger than its array
 instead of panicking

---
 marshalable-derive/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/marshalable-derive/src/lib.rs b/marshalable-derive/src/lib.rs
index 938048a..0a2cb96 100644
--- a/marshalable-derive/src/lib.rs
+++ b/marshalable-derive/src/lib.rs
@@ -412,6 +412,9 @@ fn get_named_field_marshal<'a>(
         let length_prim =
             get_primitive(&length, basic_field_types.get(length.get_ident().unwrap()))?;
         Ok(quote_spanned! {span =>
+            if self.#length_prim as usize > self.#name.len() {
+                return Err(tpm2_rs_marshalable::Error::ArrayLengthExceeded);
+            }
             for i in 0..self.#length_prim as usize {
                 written += self.#name[i].try_marshal(&mut buffer[written..])?;
             }
-- 
2.43.0


From e172d10a91b889ba6d77cf5cd50cd407fcec45d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:05 +0000
Subject: [PATCH 03/15] fix: report a full command buffer instead of panicking
 when adding sessions

---
 crates/tpm2-client/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/tpm2-client/src/lib.rs b/crates/tpm2-client/src/lib.rs
index 6ed70a5..6a3db14 100644
--- a/crates/tpm2-client/src/lib.rs
+++ b/crates/tpm2-client/src/lib.rs
@@ -82,7 +82,8 @@ pub fn write_command_sessions<
     if sessions.is_empty() {
         return Ok(0);
     }
-    let mut auth_offset = size_of::<u32>();
+    // Reserve the space of the authorization size.
+    let mut auth_offset = 0u32.try_marshal(buffer)?;
     let (s1, s2, s3) = sessions.decompose_ref();
     let Some(s1) = s1 else {
         return marshal_auth_size(auth_offset, buffer);
-- 
2.43.0


From 69fd5e6f63bb8189c4bafca18d95bba807bbb67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:05 +0000
Subject: [PATCH 04/15] fix: decode only the response bytes that the connection
 delivered

---
 crates/tpm2-client/src/lib.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/crates/tpm2-client/src/lib.rs b/crates/tpm2-client/src/lib.rs
index 6a3db14..f515bdc 100644
--- a/crates/tpm2-client/src/lib.rs
+++ b/crates/tpm2-client/src/lib.rs
@@ -174,14 +174,17 @@ pub fn run_command_with_handles<
         .map_err(TssError::from)?;
 
     let mut resp_buffer = [0u8; RESP_BUFFER_SIZE];
-    tpm.transact(&cmd_buffer[..written], &mut resp_buffer)?;
+    let response = tpm.transact(&cmd_buffer[..written], &mut resp_buffer)?;
 
-    let (resp_header, read) = read_response_header(&resp_buffer)?;
+    let (resp_header, read) = read_response_header(response)?;
     let resp_size = resp_header.size as usize;
-    if resp_size > resp_buffer.len() {
+    if resp_size > RESP_BUFFER_SIZE {
         return Err(TssError::from(TssTcsError::OutOfMemory).into());
     }
-    let mut unmarsh = UnmarshalBuf::new(&resp_buffer[read..resp_size]);
+    if resp_size != response.len() {
+        return Err(TssError::from(TssTcsError::TpmUnexpected).into());
+    }
+    let mut unmarsh = UnmarshalBuf::new(&response[read..]);
     let resp_handles = CmdT::RespHandles::try_unmarshal(&mut unmarsh).map_err(TssError::from)?;
     if resp_header.tag == TpmSt::Sessions {
         let _param_size = u32::try_unmarshal(&mut unmarsh).map_err(TssError::from)?;
-- 
2.43.0


From d6662c803dda2e30031fd4aa402bcecc7093f73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:05 +0000
Subject: [PATCH 05/15] fix: reject a response whose parameter size is not the
 size of its parameters

---
 crates/tpm2-client/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/tpm2-client/src/lib.rs b/crates/tpm2-client/src/lib.rs
index f515bdc..ccf7006 100644
--- a/crates/tpm2-client/src/lib.rs
+++ b/crates/tpm2-client/src/lib.rs
@@ -186,10 +186,15 @@ pub fn run_command_with_handles<
     }
     let mut unmarsh = UnmarshalBuf::new(&response[read..]);
     let resp_handles = CmdT::RespHandles::try_unmarshal(&mut unmarsh).map_err(TssError::from)?;
+    let mut param_size = None;
     if resp_header.tag == TpmSt::Sessions {
-        let _param_size = u32::try_unmarshal(&mut unmarsh).map_err(TssError::from)?;
+        param_size = Some(u32::try_unmarshal(&mut unmarsh).map_err(TssError::from)?);
     }
+    let param_start = unmarsh.len();
     let resp = CmdT::RespT::try_unmarshal(&mut unmarsh).map_err(TssError::from)?;
+    if param_size.is_some_and(|size| size as usize != param_start - unmarsh.len()) {
+        return Err(TssError::from(TssTcsError::TpmUnexpected).into());
+    }
     read_response_sessions(&cmd_sessions, &mut unmarsh)?;
 
     if !unmarsh.is_empty() {
-- 
2.43.0


From d43ede17df521d08ffc7a8be358e5ca575972a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:05 +0000
Subject: [PATCH 06/15] fix: write the tag and the size of an error response

---
 crates/tpm2-impl/src/tpmctx.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/crates/tpm2-impl/src/tpmctx.rs b/crates/tpm2-impl/src/tpmctx.rs
index 539915c..93b75c0 100644
--- a/crates/tpm2-impl/src/tpmctx.rs
+++ b/crates/tpm2-impl/src/tpmctx.rs
@@ -48,11 +48,17 @@ impl<Deps: TpmContextDeps> TpmContext<Deps> {
     }
 
     fn fill_error(&mut self, response: &mut Deps::Response, error: TpmRcError) -> usize {
-        // TODO fill out more of the TPM header for an error
-        if response.write(6, &error.get().to_be_bytes()).is_err() {
+        const ERROR_RESPONSE_SIZE: usize = 10;
+        // An error response never has sessions.
+        let session_tag = 0x8001_u16;
+        let mut header = [0u8; ERROR_RESPONSE_SIZE];
+        header[0..2].copy_from_slice(&session_tag.to_be_bytes());
+        header[2..6].copy_from_slice(&(ERROR_RESPONSE_SIZE as u32).to_be_bytes());
+        header[6..10].copy_from_slice(&error.get().to_be_bytes());
+        if response.write(0, &header).is_err() {
             return 0;
         }
-        10
+        ERROR_RESPONSE_SIZE
     }
 
     fn execute_command(&mut self, buffers: impl TpmBuffers) -> Result<usize, TpmRcError> {
-- 
2.43.0


From 7f569f1deeb02c14ecb11b18593a17837f6005fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:05 +0000
Subject: [PATCH 07/15] fix: answer TPM_RC_FAILURE instead of panicking when
 the generator fails

---
 crates/tpm2-impl/src/handler/random.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/crates/tpm2-impl/src/handler/random.rs b/crates/tpm2-impl/src/handler/random.rs
index 02428e6..8156a8f 100644
--- a/crates/tpm2-impl/src/handler/random.rs
+++ b/crates/tpm2-impl/src/handler/random.rs
@@ -20,11 +20,6 @@ impl<Deps: TpmContextDeps> CommandHandler<Deps> {
         self.crypto.drbg.fill_bytes(&[], buffer).map_err(Into::into)
     }
 
-    fn get_random_or_faiure_mode(&mut self, buffer: &mut [u8]) {
-        if self.try_get_random(buffer).is_err() {
-            todo!() // goto failure mode
-        }
-    }
     /// Handles the [TpmCc::GetRandom] (`0x17B`) command.
     pub fn get_random(
         &mut self,
@@ -34,11 +29,13 @@ impl<Deps: TpmContextDeps> CommandHandler<Deps> {
         let requested_bytes = request.read_be_u16().ok_or(TpmRcError::CommandSize)? as usize;
 
         let mut response = request.into_response();
+        let mut result = Ok(());
         response
             .write_callback(requested_bytes, |buffer| {
-                self.get_random_or_faiure_mode(buffer)
+                result = self.try_get_random(buffer);
             })
             .map_err(|_| TpmRcError::Memory)?;
-        Ok(())
+        // TODO: goto failure mode
+        result.map_err(|_| TpmRcError::Failure)
     }
 }
-- 
2.43.0


From a1e28f4641f2a1b6f6198e3f345a78c29812e987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:05 +0000
Subject: [PATCH 08/15] fix: report out of bounds instead of overflowing in
 platform buffers

---
 crates/tpm2-impl/src/platform/buffer.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/crates/tpm2-impl/src/platform/buffer.rs b/crates/tpm2-impl/src/platform/buffer.rs
index 5f57ed7..bc13f6d 100644
--- a/crates/tpm2-impl/src/platform/buffer.rs
+++ b/crates/tpm2-impl/src/platform/buffer.rs
@@ -62,9 +62,8 @@ impl TpmReadBuffer for [u8] {
         self.len()
     }
     fn read_into(&self, offset: usize, out: &mut [u8]) -> Result<(), ReadOutOfBounds> {
-        let read_from = self
-            .get(offset..offset + out.len())
-            .ok_or(ReadOutOfBounds)?;
+        let end = offset.checked_add(out.len()).ok_or(ReadOutOfBounds)?;
+        let read_from = self.get(offset..end).ok_or(ReadOutOfBounds)?;
         out.copy_from_slice(read_from);
         Ok(())
     }
@@ -72,9 +71,10 @@ impl TpmReadBuffer for [u8] {
 
 impl TpmWriteBuffer for [u8] {
     fn write(&mut self, write_offset: usize, data: &[u8]) -> Result<(), WriteOutOfBounds> {
-        let write_to = self
-            .get_mut(write_offset..write_offset + data.len())
+        let end = write_offset
+            .checked_add(data.len())
             .ok_or(WriteOutOfBounds)?;
+        let write_to = self.get_mut(write_offset..end).ok_or(WriteOutOfBounds)?;
         write_to.copy_from_slice(data);
 
         Ok(())
@@ -85,7 +85,8 @@ impl TpmWriteBuffer for [u8] {
         size: usize,
         callback: impl FnOnce(&mut [u8]),
     ) -> Result<(), WriteOutOfBounds> {
-        let Some(buffer) = self.get_mut(write_offset..write_offset + size) else {
+        let end = write_offset.checked_add(size).ok_or(WriteOutOfBounds)?;
+        let Some(buffer) = self.get_mut(write_offset..end) else {
             return Err(WriteOutOfBounds);
         };
         callback(buffer);
-- 
2.43.0


From ca8b8e7de05bf7ddbfad4b6deb7ae77a1737c06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:05 +0000
Subject: [PATCH 09/15] fix: tell handle errors from session errors and decode
 their numbers

---
 crates/tpm2/src/errors/tpm_rc/mod.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/tpm2/src/errors/tpm_rc/mod.rs b/crates/tpm2/src/errors/tpm_rc/mod.rs
index 552e827..21b3cbc 100644
--- a/crates/tpm2/src/errors/tpm_rc/mod.rs
+++ b/crates/tpm2/src/errors/tpm_rc/mod.rs
@@ -151,7 +151,7 @@ impl ErrorType {
         }
         if val & Self::PARAMETER_MASK != 0 {
             Some(Self::Parameter)
-        } else if Self::SESSION_MASK != 0 {
+        } else if val & Self::SESSION_MASK != 0 {
             Some(Self::Session)
         } else {
             Some(Self::Handle)
@@ -203,7 +203,13 @@ impl ErrorPosition {
         if val & 0x80 == 0 {
             return None;
         }
-        match val & 0xF00 {
+        // Only parameter numbers have four bits; otherwise the fourth bit says handle or session.
+        let number_mask = if val & ErrorType::PARAMETER_MASK != 0 {
+            0xF00
+        } else {
+            0x700
+        };
+        match val & number_mask {
             0x100 => Some(Self::Pos1),
             0x200 => Some(Self::Pos2),
             0x300 => Some(Self::Pos3),
-- 
2.43.0


From 4cb390f20bb3cf8b6743bd249804ffd13f73a61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:05 +0000
Subject: [PATCH 10/15] fix: TPM_RC_SEQUENCE is 0x103

---
 crates/tpm2/src/errors/tpm_rc/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/tpm2/src/errors/tpm_rc/mod.rs b/crates/tpm2/src/errors/tpm_rc/mod.rs
index 21b3cbc..2ae3cbd 100644
--- a/crates/tpm2/src/errors/tpm_rc/mod.rs
+++ b/crates/tpm2/src/errors/tpm_rc/mod.rs
@@ -61,7 +61,7 @@ impl TpmRcError {
     /// Commands not being accepted because of a TPM failure (`TPM_RC_FAILURE`).
     pub const Failure: Self = Self::new(0x101);
     /// Improper use of a sequence handle (`TPM_RC_SEQUENCE`).
-    pub const Sequence: Self = Self::new(0x102);
+    pub const Sequence: Self = Self::new(0x103);
 
     /// Command commandSize value is inconsistent with contents of the command buffer; either the
     /// size is not the same as the octets loaded by the hardware interface layer or the value is
-- 
2.43.0


From f24e32db18d75a518f3ca7d57e25f41071459d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:37 +0000
Subject: [PATCH 11/15] fix: keep command and response in step after a response
 that is too large

---
 crates/tpm2-client/src/connection/tcp.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/tpm2-client/src/connection/tcp.rs b/crates/tpm2-client/src/connection/tcp.rs
index 7a7f9b7..7685640 100644
--- a/crates/tpm2-client/src/connection/tcp.rs
+++ b/crates/tpm2-client/src/connection/tcp.rs
@@ -418,6 +418,13 @@ impl Connection for TcpConnection {
         let mut resp_hdr: SendCommandResponseHeader = SendCommandResponseHeader::default();
         self.tpm_tcp.read_exact(resp_hdr.as_mut_bytes())?;
         if resp_hdr.length.get() as usize > response.len() {
+            // Consume the response, so that it is not taken for the one of the next command.
+            let length = u64::from(resp_hdr.length.get());
+            let mut unread = Read::by_ref(&mut self.tpm_tcp).take(length);
+            if std::io::copy(&mut unread, &mut std::io::sink())? != length {
+                return Err(ErrorKind::UnexpectedEof.into());
+            }
+            Self::check_response_end(&mut self.tpm_tcp)?;
             return Err(Error::new(
                 ErrorKind::InvalidInput,
                 "response buffer too small",
-- 
2.43.0


From 4b38f52031f53d0740348c5d3ab08d2180d68624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:37 +0000
Subject: [PATCH 12/15] fix: do not leave a simulator process behind when
 connecting to it fails

---
 crates/tpm2-client/src/connection/tcp.rs | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/crates/tpm2-client/src/connection/tcp.rs b/crates/tpm2-client/src/connection/tcp.rs
index 7685640..b947570 100644
--- a/crates/tpm2-client/src/connection/tcp.rs
+++ b/crates/tpm2-client/src/connection/tcp.rs
@@ -648,7 +648,7 @@ impl TcpSimulator {
             command.args(args);
         }
 
-        let child = command
+        let mut child = command
             // TODO: Capture stdout/stderr to display when requested.
             .stdout(Stdio::null())
             .stderr(Stdio::null())
@@ -664,16 +664,26 @@ impl TcpSimulator {
                 )
             })?;
 
+        match Self::connect_using_port_files(cwd.as_ref(), ip) {
+            Ok(conn) => Ok(TcpSimulator { child, conn }),
+            Err(err) => {
+                // Do not leave the simulator running when it cannot be used.
+                let _ = child.kill();
+                let _ = child.wait();
+                Err(err)
+            }
+        }
+    }
+
+    /// Connects to the simulator that was started in the given directory.
+    fn connect_using_port_files(cwd: &Path, ip: &str) -> Result<TcpConnection> {
         // The TCG TPM simulator writes the ports it uses to two files:
         //   - TPM port: "command.port"
         //   - Platform port: "platform.port"
-        let tpm_port = Self::read_port_from_file_with_retries(&cwd.as_ref().join("command.port"))?;
-        let plat_port =
-            Self::read_port_from_file_with_retries(&cwd.as_ref().join("platform.port"))?;
-
-        let conn = TcpConnection::connect_with_retries(ip, Some(tpm_port), Some(plat_port))?;
+        let tpm_port = Self::read_port_from_file_with_retries(&cwd.join("command.port"))?;
+        let plat_port = Self::read_port_from_file_with_retries(&cwd.join("platform.port"))?;
 
-        Ok(TcpSimulator { child, conn })
+        TcpConnection::connect_with_retries(ip, Some(tpm_port), Some(plat_port))
     }
 
     /// Reads a port from a file with retires.
-- 
2.43.0


From 40e8974c7c62e59f88123231d48347d3ae12b66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:37 +0000
Subject: [PATCH 13/15] fix: do not connect to the ports of an earlier
 simulator

---
 crates/tpm2-client/src/connection/tcp.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/tpm2-client/src/connection/tcp.rs b/crates/tpm2-client/src/connection/tcp.rs
index b947570..938f586 100644
--- a/crates/tpm2-client/src/connection/tcp.rs
+++ b/crates/tpm2-client/src/connection/tcp.rs
@@ -642,6 +642,14 @@ impl TcpSimulator {
         cwd: P,
         ip: &str,
     ) -> Result<TcpSimulator> {
+        // Port files of an earlier simulator must not be taken for those of the new one.
+        for port_file in ["command.port", "platform.port"] {
+            match std::fs::remove_file(cwd.as_ref().join(port_file)) {
+                Err(err) if err.kind() != ErrorKind::NotFound => return Err(err),
+                _ => {}
+            }
+        }
+
         let mut command = Command::new(bin.as_ref());
         command.current_dir(&cwd);
         if !args.is_empty() {
-- 
2.43.0


From d505f45207575adc3755176ad0b74e4bc097eeb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:37 +0000
Subject: [PATCH 14/15] fix: wait for a port file that is not complete yet

---
 crates/tpm2-client/src/connection/tcp.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/crates/tpm2-client/src/connection/tcp.rs b/crates/tpm2-client/src/connection/tcp.rs
index 938f586..a3ddf37 100644
--- a/crates/tpm2-client/src/connection/tcp.rs
+++ b/crates/tpm2-client/src/connection/tcp.rs
@@ -699,14 +699,15 @@ impl TcpSimulator {
         let mut attempts = 0;
         loop {
             attempts += 1;
-            match std::fs::read_to_string(path) {
-                Ok(port_str) => {
-                    let port = port_str
-                        .trim()
-                        .parse::<u16>()
-                        .map_err(|e| Error::new(ErrorKind::InvalidData, e))?;
-                    return Ok(port);
-                }
+            // A file that does not contain a port yet is about to be written.
+            let port = std::fs::read_to_string(path).and_then(|port_str| {
+                port_str
+                    .trim()
+                    .parse::<u16>()
+                    .map_err(|e| Error::new(ErrorKind::InvalidData, e))
+            });
+            match port {
+                Ok(port) => return Ok(port),
                 Err(err) => {
                     if attempts > 3 {
                         return Err(err);
-- 
2.43.0


From abe65f869c208d21ddb13c6d3b3afe4e4ffc0f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:37 +0000
Subject: [PATCH 15/15] fix: end and reap the simulator process when it is
 stopped or dropped

---
 crates/tpm2-client/src/connection/tcp.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/crates/tpm2-client/src/connection/tcp.rs b/crates/tpm2-client/src/connection/tcp.rs
index a3ddf37..64cdbc6 100644
--- a/crates/tpm2-client/src/connection/tcp.rs
+++ b/crates/tpm2-client/src/connection/tcp.rs
@@ -727,7 +727,9 @@ impl TcpSimulator {
     pub fn stop(&mut self) -> Result<()> {
         self.child
             .kill()
-            .map_err(|e| Error::other(format!("failed to stop TCP simulator: {e}")))
+            .and_then(|()| self.child.wait())
+            .map_err(|e| Error::other(format!("failed to stop TCP simulator: {e}")))?;
+        Ok(())
     }
 
     /// Returns a reference to the underlying TCP connection.
@@ -743,6 +745,15 @@ impl TcpSimulator {
 
 impl Drop for TcpSimulator {
     fn drop(&mut self) {
-        let _ = self.stop_nicely().or_else(|_| self.stop());
+        if self.stop_nicely().is_ok() {
+            // Give the simulator some time to exit by itself.
+            for _ in 0..20 {
+                if let Ok(Some(_)) = self.child.try_wait() {
+                    return;
+                }
+                std::thread::sleep(std::time::Duration::from_millis(50));
+            }
+        }
+        let _ = self.stop();
     }
 }
-- 
2.43.0

