From 490d2d01a92844df547a5788c4199a484117ca7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:01 +0000
Subject: [PATCH 01/23] fix: a port with a leading plus sign is not a valid
 port number

---
 src/util.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index 30d8648..5754959 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -374,7 +374,8 @@ pub fn is_line_ignorable(server_personality: HtpServerPersonality, data: &[u8])
 ///
 /// Returns port number if a valid one is found. None if fails to convert or the result is 0
 pub fn convert_port(port: &[u8]) -> Option<u16> {
-    if port.is_empty() {
+    // Only digits make a port number: the integer parser would also accept a leading '+'.
+    if port.is_empty() || !port.iter().all(|c| c.is_ascii_digit()) {
         return None;
     }
     let port_number = std::str::from_utf8(port).ok()?.parse::<u16>().ok()?;
-- 
2.43.0


From 27763beb949f2d13aa88ef9f9019478485483dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:50 +0000
Subject: [PATCH 02/23] fix: decoding an invalid %-escape arithmetically does
 not overflow

With invalid escapes configured to be processed, bytes that are not
hexadecimal digits underflowed (a panic with overflow checks on).
---
 src/urlencoded.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/urlencoded.rs b/src/urlencoded.rs
index 744983b..45dee20 100644
--- a/src/urlencoded.rs
+++ b/src/urlencoded.rs
@@ -163,17 +163,15 @@ fn name_value(input: &[u8]) -> IResult<&[u8], &[u8]> {
 /// Returns hex-decoded byte
 fn x2c(input: &[u8]) -> IResult<&[u8], u8> {
     let (input, (c1, c2)) = tuple((be_u8, be_u8))(input)?;
-    let mut decoded_byte = if c1 >= b'A' {
-        ((c1 & 0xdf) - b'A') + 10
-    } else {
-        c1 - b'0'
-    };
-    decoded_byte = (decoded_byte as i32 * 16) as u8;
-    decoded_byte += if c2 >= b'A' {
-        ((c2 & 0xdf) - b'A') + 10
-    } else {
-        c2 - b'0'
+    // Bytes that are not hexadecimal digits wrap around.
+    let digit = |c: u8| {
+        if c >= b'A' {
+            (c & 0xdf).wrapping_sub(b'A').wrapping_add(10)
+        } else {
+            c.wrapping_sub(b'0')
+        }
     };
+    let decoded_byte = digit(c1).wrapping_mul(16).wrapping_add(digit(c2));
     Ok((input, decoded_byte))
 }
 
-- 
2.43.0


From 6d7938b687fde39784ee91a70a53d621feab4dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:22 +0000
Subject: [PATCH 03/23] fix: the status expected for an offending path is not
 lost

The status configured for an invalid escape, a control character or
leading whitespace on the request line was overwritten by the bytes
that followed it in the path.
---
 src/urlencoded.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/urlencoded.rs b/src/urlencoded.rs
index 45dee20..2625482 100644
--- a/src/urlencoded.rs
+++ b/src/urlencoded.rs
@@ -354,7 +354,7 @@ fn path_decode_invalid_hex(
         let mut byte = b'%';
         // Invalid encoding
         let flags = HtpFlags::PATH_INVALID_ENCODING;
-        let expected_status_code = cfg.url_encoding_invalid_unwanted;
+        let mut expected_status_code = cfg.url_encoding_invalid_unwanted;
         if cfg.url_encoding_invalid_handling == HtpUrlEncodingHandling::REMOVE_PERCENT {
             // Do not place anything in output; consume the %.
             return Ok((remaining_input, (byte, expected_status_code, flags, false)));
@@ -364,7 +364,10 @@ fn path_decode_invalid_hex(
             remaining = left;
             byte = b;
         }
-        let (byte, expected_status_code) = path_decode_control(byte, cfg);
+        let (byte, code) = path_decode_control(byte, cfg);
+        if code != HtpUnwanted::IGNORE {
+            expected_status_code = code;
+        }
         Ok((remaining, (byte, expected_status_code, flags, true)))
     }
 }
@@ -498,7 +501,9 @@ fn path_decode_uri<'a>(
                 }
             }
             acc.1.set(flag);
-            acc.2 = code;
+            if code != HtpUnwanted::IGNORE {
+                acc.2 = code;
+            }
             acc
         },
     )(input)
@@ -517,7 +522,9 @@ pub fn path_decode_uri_inplace(
     {
         path.clear();
         path.add(consumed.as_slice());
-        *status = expected_status_code;
+        if expected_status_code != HtpUnwanted::IGNORE {
+            *status = expected_status_code;
+        }
         flag.set(flags);
     }
 }
-- 
2.43.0


From aef8126c446a0e95cb075814d480a9deb8ef3252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:45 +0000
Subject: [PATCH 04/23] fix: react to NULs and encoded separators in a path as
 configured

The configured reactions to an encoded or raw NUL that does not end the
path, and to an encoded path separator, were never applied.
---
 src/urlencoded.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/urlencoded.rs b/src/urlencoded.rs
index 2625482..cbd8b91 100644
--- a/src/urlencoded.rs
+++ b/src/urlencoded.rs
@@ -318,10 +318,12 @@ fn path_decode_valid_hex(
         not(tag_no_case("u"))(remaining_input)?;
         let (mut left, hex) = take_while_m_n(2, 2, |c: u8| c.is_ascii_hexdigit())(remaining_input)?;
         let mut flags = 0;
+        let mut expected_status_code = HtpUnwanted::IGNORE;
         // Convert from hex.
         let (_, mut byte) = x2c(hex)?;
         if byte == 0 {
             flags.set(HtpFlags::PATH_ENCODED_NUL);
+            expected_status_code = cfg.nul_encoded_unwanted;
             if cfg.nul_encoded_terminates {
                 // Terminate the path at the raw NUL byte.
                 return Ok((b"", (byte, cfg.nul_encoded_unwanted, flags, false)));
@@ -329,13 +331,17 @@ fn path_decode_valid_hex(
         }
         if byte == b'/' || (cfg.backslash_convert_slashes && byte == b'\\') {
             flags.set(HtpFlags::PATH_ENCODED_SEPARATOR);
+            expected_status_code = cfg.path_separators_encoded_unwanted;
             if !cfg.path_separators_decode {
                 // Leave encoded
                 byte = b'%';
                 left = original_remaining;
             }
         }
-        let (byte, expected_status_code) = path_decode_control(byte, cfg);
+        let (byte, code) = path_decode_control(byte, cfg);
+        if code != HtpUnwanted::IGNORE {
+            expected_status_code = code;
+        }
         Ok((left, (byte, expected_status_code, flags, true)))
     }
 }
@@ -439,7 +445,15 @@ fn path_parse_other(
             // Terminate the path at the encoded NUL byte.
             return Ok((b"", (byte, cfg.nul_raw_unwanted, 0, false)));
         }
-        let (byte, expected_status_code) = path_decode_control(byte, cfg);
+        let mut expected_status_code = if byte == 0 {
+            cfg.nul_raw_unwanted
+        } else {
+            HtpUnwanted::IGNORE
+        };
+        let (byte, code) = path_decode_control(byte, cfg);
+        if code != HtpUnwanted::IGNORE {
+            expected_status_code = code;
+        }
         Ok((remaining_input, (byte, expected_status_code, 0, true)))
     }
 }
-- 
2.43.0


From 7db4402f49af42e8da9674cb46be0e5408c2eec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:51 +0000
Subject: [PATCH 05/23] fix: expected status of a parameter is not lost when a
 later one is harmless

---
 src/urlencoded.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/urlencoded.rs b/src/urlencoded.rs
index cbd8b91..0cf3700 100644
--- a/src/urlencoded.rs
+++ b/src/urlencoded.rs
@@ -108,7 +108,9 @@ impl Parser {
                         decode_uri(name.as_slice(), &self.cfg)
                     {
                         self.flags.set(flags);
-                        self.response_status_expected_number = expected_status;
+                        if expected_status != HtpUnwanted::IGNORE {
+                            self.response_status_expected_number = expected_status;
+                        }
                         name.clear();
                         name.add(consumed);
                     }
@@ -116,7 +118,9 @@ impl Parser {
                         decode_uri(value.as_slice(), &self.cfg)
                     {
                         self.flags.set(flags);
-                        self.response_status_expected_number = expected_status;
+                        if expected_status != HtpUnwanted::IGNORE {
+                            self.response_status_expected_number = expected_status;
+                        }
                         value.clear();
                         value.add(consumed);
                     }
-- 
2.43.0


From e53bf4143c9b8454cf74060b55ad3c2230bd43ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:54:26 +0000
Subject: [PATCH 06/23] fix: a transaction is reported complete once, by the
 direction that leaves it last

---
 src/connection_parser.rs | 5 ++++-
 src/transactions.rs      | 4 +++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/connection_parser.rs b/src/connection_parser.rs
index 958ec12..085bd05 100644
--- a/src/connection_parser.rs
+++ b/src/connection_parser.rs
@@ -794,7 +794,10 @@ impl ConnectionParser {
     /// Determine if the transaction is complete and run any hooks.
     fn finalize(&mut self, tx_index: usize) -> Result<()> {
         if let Some(tx) = self.tx(tx_index) {
-            if !tx.is_complete() {
+            // The direction that leaves the transaction last reports it.
+            if !tx.is_complete()
+                || (self.request_index() <= tx_index && self.response_index() <= tx_index)
+            {
                 return Ok(());
             }
             // Disconnect transaction from the parser.
diff --git a/src/transactions.rs b/src/transactions.rs
index 45a8893..346b873 100644
--- a/src/transactions.rs
+++ b/src/transactions.rs
@@ -123,7 +123,9 @@ impl Transactions {
 
     /// Check if any old transactions can be freed
     fn check_free(&mut self, index: usize) {
-        if self.config.tx_auto_destroy {
+        // Both directions have to be done with a transaction: it must not be
+        // freed while the other one may still come back to it.
+        if self.config.tx_auto_destroy && (self.request > index || self.response > index) {
             if let Some(tx) = self.transactions.get(&index) {
                 if !tx.is_complete() {
                     return;
-- 
2.43.0


From 11d59c67430cddfec727455cd5bb8730cc736547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:46 +0000
Subject: [PATCH 07/23] fix: the end of request headers cut between CR and LF
 does not swallow a body byte

---
 src/request.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/request.rs b/src/request.rs
index 4e62e3e..1ac3806 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -586,11 +586,10 @@ impl ConnectionParser {
             if remaining.len() < data.len() {
                 self.request_data_consume(input, data.len() - remaining.len());
             } else if eol {
-                if remaining.starts_with(b"\r\n") {
-                    self.request_data_consume(input, min(data.len(), 2));
-                } else if remaining.starts_with(b"\n") {
-                    self.request_data_consume(input, min(data.len(), 1));
-                }
+                // The EOL may have begun in the data held back earlier
+                let held = data2.len() - data.len();
+                let eol_len: usize = if remaining.starts_with(b"\r\n") { 2 } else { 1 };
+                self.request_data_consume(input, eol_len.saturating_sub(held));
             }
             // We've seen all the request headers.
             self.state_request_headers(input)
-- 
2.43.0


From 3121714a5386f9cc47d100093904c0c96b76ce25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:46 +0000
Subject: [PATCH 08/23] fix: a chunk length line cut across data chunks is read
 whole, once

---
 src/request.rs  | 24 ++++++++++++++----------
 src/response.rs | 37 ++++++++++++++++++++++++-------------
 2 files changed, 38 insertions(+), 23 deletions(-)

diff --git a/src/request.rs b/src/request.rs
index 1ac3806..1080d0f 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -336,8 +336,10 @@ impl ConnectionParser {
             self.request_state = State::BODY_CHUNKED_LENGTH;
             Ok(())
         } else {
+            // Advance to end. Dont need to buffer
             req.request_message_len = req.request_message_len.wrapping_add(input.len() as u64);
-            self.handle_request_absent_lf(input)
+            self.request_data_consume(input, input.len());
+            Err(HtpStatus::DATA_BUFFER)
         }
     }
 
@@ -383,25 +385,25 @@ impl ConnectionParser {
                 if !self.request_buf.is_empty() {
                     self.check_request_buffer_limit(line.len())?;
                 }
+                // The line starts with what was held back of it, if anything
+                let mut chunk_line = take(&mut self.request_buf);
+                chunk_line.add(line);
                 let req = self.request_mut();
                 if req.is_none() {
                     return Err(HtpStatus::ERROR);
                 }
                 let req = req.unwrap();
 
-                if line.eq(b"\n") {
-                    req.request_message_len =
-                        req.request_message_len.wrapping_add(line.len() as u64);
+                req.request_message_len = req
+                    .request_message_len
+                    .wrapping_add(chunk_line.len() as u64);
+                if chunk_line.as_slice().eq(b"\n") {
                     //Empty chunk len. Try to continue parsing.
                     data = remaining;
                     continue;
                 }
-                let mut data = self.request_buf.clone();
-                data.add(line);
-                let req = self.request_mut().unwrap();
-                req.request_message_len = req.request_message_len.wrapping_add(data.len() as u64);
                 // Handle chunk length.
-                let (len, ext) = parse_chunked_length(&data)?;
+                let (len, ext) = parse_chunked_length(&chunk_line)?;
                 self.request_chunked_length = len;
                 if ext {
                     htp_warn!(
@@ -434,7 +436,9 @@ impl ConnectionParser {
                 return Ok(());
             } else {
                 // Check if the data we have seen so far is invalid
-                return if !is_valid_chunked_length_data(data) {
+                let mut seen = self.request_buf.clone();
+                seen.add(data);
+                return if !is_valid_chunked_length_data(&seen) {
                     // Contains leading junk non hex_ascii data
                     // Invalid chunk length
                     htp_error!(
diff --git a/src/response.rs b/src/response.rs
index 5a05a8d..83c714e 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -184,11 +184,9 @@ impl ConnectionParser {
     pub fn response_body_chunked_length(&mut self, input: &mut ParserData) -> Result<()> {
         let mut data = input.as_slice();
         loop {
-            let resp = self.response_mut();
-            if resp.is_none() {
+            if self.response_mut().is_none() {
                 return Err(HtpStatus::ERROR);
             }
-            let resp = resp.unwrap();
 
             match take_till_lf(data) {
                 Ok((remaining, line)) => {
@@ -196,22 +194,23 @@ impl ConnectionParser {
                     if !self.response_buf.is_empty() {
                         self.check_response_buffer_limit(line.len())?;
                     }
-                    if is_chunked_ctl_line(line) {
+                    // The line starts with what was held back of it, if anything
+                    let mut chunk_line = take(&mut self.response_buf);
+                    let held = chunk_line.len();
+                    chunk_line.add(line);
+                    if is_chunked_ctl_line(&chunk_line) {
                         let resp = self.response_mut().unwrap();
                         resp.response_message_len =
-                            (resp.response_message_len).wrapping_add(line.len() as u64);
+                            (resp.response_message_len).wrapping_add(chunk_line.len() as u64);
                         //Empty chunk len. Try to continue parsing.
                         data = remaining;
                         continue;
                     }
-                    let mut data = self.response_buf.clone();
-                    data.add(line);
-                    let resp = self.response_mut().unwrap();
-                    resp.response_message_len =
-                        (resp.response_message_len).wrapping_add(data.len() as u64);
-
-                    match parse_chunked_length(&data) {
+                    match parse_chunked_length(&chunk_line) {
                         Ok((len, ext)) => {
+                            let resp = self.response_mut().unwrap();
+                            resp.response_message_len =
+                                (resp.response_message_len).wrapping_add(chunk_line.len() as u64);
                             self.response_chunked_length = len;
                             if ext {
                                 htp_warn!(
@@ -250,6 +249,10 @@ impl ConnectionParser {
                                 HtpLogCode::INVALID_RESPONSE_CHUNK_LEN,
                                 "Response chunk encoding: Invalid chunk length"
                             );
+                            if held > 0 {
+                                // what was held back is the beginning of the body
+                                self.response_body_data(Some(&chunk_line[0..held]))?;
+                            }
                         }
                     }
 
@@ -257,8 +260,11 @@ impl ConnectionParser {
                 }
                 _ => {
                     // Check if the data we have seen so far is invalid
-                    if !is_valid_chunked_length_data(data) {
+                    let mut seen = self.response_buf.clone();
+                    seen.add(data);
+                    if !is_valid_chunked_length_data(&seen) {
                         // Contains leading junk non hex_ascii data
+                        let resp = self.response_mut().unwrap();
                         resp.response_transfer_coding = HtpTransferCoding::IDENTITY;
                         self.response_state = State::BODY_IDENTITY_STREAM_CLOSE;
                         htp_error!(
@@ -266,6 +272,11 @@ impl ConnectionParser {
                             HtpLogCode::INVALID_RESPONSE_CHUNK_LEN,
                             "Response chunk encoding: Invalid chunk length"
                         );
+                        let held = take(&mut self.response_buf);
+                        if !held.is_empty() {
+                            // what was held back is the beginning of the body
+                            self.response_body_data(Some(held.as_slice()))?;
+                        }
                         return Ok(());
                     } else {
                         return self.handle_response_absent_lf(input);
-- 
2.43.0


From 464abac6af87806f65d7880f936936d8b5a4a4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:46 +0000
Subject: [PATCH 09/23] fix: a response line whose LF ends the data is complete

---
 src/response.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/response.rs b/src/response.rs
index 83c714e..9867606 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -653,7 +653,11 @@ impl ConnectionParser {
                 self.response_line_complete(data.as_slice(), input)
             }
             _ => {
-                if self.response_status == HtpStreamState::CLOSED {
+                // A line feed at the very end of the data ends the line, too. If it was
+                // held back, the next line would be taken for the rest of this one.
+                if self.response_status == HtpStreamState::CLOSED
+                    || input.as_slice().ends_with(b"\n")
+                {
                     let mut data = take(&mut self.response_buf);
                     data.add(input.as_slice());
                     self.response_data_consume(input, input.len());
-- 
2.43.0


From 56d5ad32ecb061dcee8f241b38a3af31a1890056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:46 +0000
Subject: [PATCH 10/23] fix: an empty trailer ends a chunked response although
 more data follows

---
 src/response.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/response.rs b/src/response.rs
index 9867606..4dae636 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -982,13 +982,24 @@ impl ConnectionParser {
 
         let (remaining, eoh) = self.parse_response_headers(response_header.as_slice())?;
         //TODO: Update the response state machine so that we don't have to have this EOL check
+        // An EOL with data behind it ends an empty trailer, but not the headers: empty lines
+        // between the response line and the headers are tolerated.
+        let trailer = self.response().unwrap().response_progress == HtpResponseProgress::TRAILER;
         let eol = remaining.len() == response_header.len()
-            && (remaining.eq(b"\r\n") || remaining.eq(b"\n"));
+            && (remaining.eq(b"\r\n")
+                || remaining.eq(b"\n")
+                || (trailer && (remaining.starts_with(b"\r\n") || remaining.starts_with(b"\n"))));
         // If remaining is EOL or header parsing saw EOH this is end of headers
         if eoh || eol {
             if eol {
-                //Consume the EOL so it isn't included in data processing
-                self.response_data_consume(input, input.len());
+                //Consume the EOL, and any that follow, so they aren't included in data
+                //processing. The first may have begun in the data held back earlier.
+                let held = response_header.len() - input.len();
+                let eol_len = remaining
+                    .iter()
+                    .take_while(|c| **c == b'\r' || **c == b'\n')
+                    .count();
+                self.response_data_consume(input, eol_len.saturating_sub(held));
             } else if remaining.len() <= input.len() {
                 self.response_data_consume(input, input.len() - remaining.len());
             }
-- 
2.43.0


From 4e34a8022bafa84c01004b0ceceaeb0b31c4c4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:50 +0000
Subject: [PATCH 11/23] fix: a gap in a response body that runs to the end of
 the stream is counted

---
 src/response.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/response.rs b/src/response.rs
index 4dae636..f0cb873 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -343,8 +343,12 @@ impl ConnectionParser {
             if resp.is_none() {
                 return Err(HtpStatus::ERROR);
             }
-            let mut tx_data = Data::new(resp.unwrap(), data);
+            let resp = resp.unwrap();
+            resp.response_message_len = resp.response_message_len.wrapping_add(data.len() as u64);
+            let mut tx_data = Data::new(resp, data);
             self.response_run_hook_body_data(&mut tx_data)?;
+            // Adjust the counters.
+            self.response_data_consume(data, data.len());
         } else if !data.is_empty() {
             // Consume all data from the input buffer.
             self.response_body_data(data.data())?;
-- 
2.43.0


From 625589dd7030babc8aed1bb570891428e84971d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:37 +0000
Subject: [PATCH 12/23] fix: mark folded header fields so that a folded
 Content-Length is flagged

---
 src/request.rs  | 3 +++
 src/response.rs | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/request.rs b/src/request.rs
index 1080d0f..2dda935 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -837,6 +837,9 @@ impl ConnectionParser {
                         HtpFlags::FIELD_INVALID
                     );
                 }
+                if h.value.flags.is_set(HeaderFlags::FOLDING) {
+                    flags.set(HtpFlags::FIELD_FOLDED);
+                }
                 self.process_request_header(Header::new_with_flags(
                     h.name.name.into(),
                     h.value.value.into(),
diff --git a/src/response.rs b/src/response.rs
index f0cb873..86f79cb 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -879,6 +879,9 @@ impl ConnectionParser {
                         HtpFlags::FIELD_INVALID
                     );
                 }
+                if h.value.flags.is_set(HeaderFlags::FOLDING) {
+                    flags.set(HtpFlags::FIELD_FOLDED);
+                }
                 self.process_response_header(Header::new_with_flags(
                     h.name.name.into(),
                     h.value.value.into(),
-- 
2.43.0


From e2af474c871cc228c9dd101605a47ed14e691d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:43 +0000
Subject: [PATCH 13/23] fix: an empty port's colon is not part of the path

---
 src/uri.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/uri.rs b/src/uri.rs
index f61a6ab..5fd1d7b 100644
--- a/src/uri.rs
+++ b/src/uri.rs
@@ -7,7 +7,7 @@ use crate::{
     utf8_decoder::decode_and_validate_inplace,
     util::{convert_port, FlagOperations, HtpFlags},
 };
-use nom::{combinator::opt, sequence::tuple};
+use nom::{character::complete::char, combinator::opt, sequence::tuple};
 
 /// URI structure. Each of the fields provides access to a single
 /// URI element. Where an element is not present in a URI, the
@@ -184,7 +184,7 @@ impl Uri {
             opt(tuple((
                 scheme(),
                 opt(credentials()),
-                opt(tuple((hostname(), opt(port())))),
+                opt(tuple((hostname(), opt(port()), opt(char(':'))))), // the port may be empty
             ))),
             opt(path()),
             opt(query()),
@@ -208,7 +208,7 @@ impl Uri {
                         self.password = Some(Bstr::from(password));
                     }
                 }
-                if let Some((hostname, port)) = hostname_port {
+                if let Some((hostname, port, _)) = hostname_port {
                     self.hostname = Some(Bstr::from(hostname));
                     if let Some(port) = port {
                         self.port = Some(Bstr::from(port));
-- 
2.43.0


From e1de6381abd2d3b3aea41071af8dab45ee9621be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:43 +0000
Subject: [PATCH 14/23] fix: credentials of a URI end with its authority

---
 src/parsers.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/parsers.rs b/src/parsers.rs
index 3e29204..dd9e4c2 100644
--- a/src/parsers.rs
+++ b/src/parsers.rs
@@ -138,7 +138,13 @@ pub fn credentials() -> impl Fn(&[u8]) -> IResult<&[u8], ParsedCredentials> {
         // One, three or more slash characters, and it's a path.
         // Note: we only attempt to parse authority if we've seen a scheme.
         let (input, (_, _, credentials, _)) =
-            tuple((tag("//"), peek(not(tag("/"))), take_until("@"), tag("@")))(input)?;
+            // The authority ends at the first slash, question mark or hash, and so do the credentials.
+            tuple((
+                tag("//"),
+                peek(not(tag("/"))),
+                take_while(|c: u8| !b"/?#@".contains(&c)),
+                tag("@"),
+            ))(input)?;
         let (password, username) = opt(tuple((take_until(":"), tag(":"))))(credentials)?;
         if let Some((username, _)) = username {
             Ok((input, (username, Some(password))))
-- 
2.43.0


From c527e32463aebf199003bc739502a7444b9098d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:43 +0000
Subject: [PATCH 15/23] fix: an empty query does not hide the fragment of a URI

---
 src/parsers.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/parsers.rs b/src/parsers.rs
index dd9e4c2..0295b20 100644
--- a/src/parsers.rs
+++ b/src/parsers.rs
@@ -260,8 +260,11 @@ pub fn path() -> impl Fn(&[u8]) -> IResult<&[u8], &[u8]> {
 /// Returns a tuple of the remaining unconsumed data and the matched query.
 pub fn query() -> impl Fn(&[u8]) -> IResult<&[u8], &[u8]> {
     move |input| {
-        // Skip the starting '?'
-        map(tuple((tag("?"), is_not("#"))), |(_, query)| query)(input)
+        // Skip the starting '?'; the query may be empty
+        map(
+            tuple((tag("?"), take_while(|c| c != b'#'))),
+            |(_, query)| query,
+        )(input)
     }
 }
 
-- 
2.43.0


From 36c2aacb0d567f8a7b09c818eb7b1f8a0b2f5595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:46:02 +0000
Subject: [PATCH 16/23] fix: a CONNECT tunnel does not bring back a response
 stream that failed or stopped

---
 src/request.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/request.rs b/src/request.rs
index 2dda935..ad0c23b 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -276,7 +276,11 @@ impl ConnectionParser {
         if let Ok((_, (_, method))) = res {
             if HtpMethod::new(method) == HtpMethod::UNKNOWN {
                 self.request_status = HtpStreamState::TUNNEL;
-                self.response_status = HtpStreamState::TUNNEL
+                if self.response_status != HtpStreamState::ERROR
+                    && self.response_status != HtpStreamState::STOP
+                {
+                    self.response_status = HtpStreamState::TUNNEL
+                }
             } else {
                 return self.state_request_complete(input);
             }
-- 
2.43.0


From 396111d4d22ad9e0e3180411d397545b090fc840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:46:11 +0000
Subject: [PATCH 17/23] fix: a response does not bring back a request stream
 that was stopped

---
 src/response.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/response.rs b/src/response.rs
index 86f79cb..d3a7485 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -387,13 +387,17 @@ impl ConnectionParser {
                 return self.state_response_headers(input);
             } else if response_tx.response_status_number.eq_num(407) {
                 // proxy telling us to auth
-                if self.request_status != HtpStreamState::ERROR {
+                if self.request_status != HtpStreamState::ERROR
+                    && self.request_status != HtpStreamState::STOP
+                {
                     self.request_status = HtpStreamState::DATA
                 }
             } else {
                 // This is a failed CONNECT stream, which means that
                 // we can unblock request parsing
-                if self.request_status != HtpStreamState::ERROR {
+                if self.request_status != HtpStreamState::ERROR
+                    && self.request_status != HtpStreamState::STOP
+                {
                     self.request_status = HtpStreamState::DATA
                 }
                 // We are going to continue processing this transaction,
@@ -428,7 +432,9 @@ impl ConnectionParser {
             }
             if te_opt.is_none() && cl_opt.is_none() {
                 self.response_state = State::FINALIZE;
-                if self.request_status != HtpStreamState::ERROR {
+                if self.request_status != HtpStreamState::ERROR
+                    && self.request_status != HtpStreamState::STOP
+                {
                     self.request_status = HtpStreamState::TUNNEL
                 }
                 self.response_status = HtpStreamState::TUNNEL;
-- 
2.43.0


From 5df34441a451d8242f640960dfe7b604f81144a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:46:11 +0000
Subject: [PATCH 18/23] fix: a gap that no transaction can take leaves the
 stream failed

---
 src/request.rs  | 1 +
 src/response.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/request.rs b/src/request.rs
index ad0c23b..9377320 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -1527,6 +1527,7 @@ impl ConnectionParser {
             let idx = self.request_index();
             let req = self.request_mut();
             if req.is_none() {
+                self.request_status = HtpStreamState::ERROR;
                 return HtpStreamState::ERROR;
             }
             let req = req.unwrap();
diff --git a/src/response.rs b/src/response.rs
index d3a7485..a5bcac8 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -1557,6 +1557,7 @@ impl ConnectionParser {
             let idx = self.request_index();
             let resp = self.response_mut();
             if resp.is_none() {
+                self.response_status = HtpStreamState::ERROR;
                 return HtpStreamState::ERROR;
             }
             let resp = resp.unwrap();
-- 
2.43.0


From b078fba333a284b5e072398b328b83e379962b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:27:21 +0000
Subject: [PATCH 19/23] fix: a header field with an empty name is not reported
 as one without a colon

---
 src/request.rs  | 2 +-
 src/response.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/request.rs b/src/request.rs
index 9377320..7862f3b 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -815,7 +815,7 @@ impl ConnectionParser {
                     );
                 }
                 // No colon?
-                if name_flags.is_set(HeaderFlags::MISSING_COLON) {
+                if name_flags & HeaderFlags::MISSING_COLON == HeaderFlags::MISSING_COLON {
                     // Log only once per transaction.
                     // We handle this case as a header with an empty name, with the value equal
                     // to the entire input string.
diff --git a/src/response.rs b/src/response.rs
index a5bcac8..8820ee0 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -860,7 +860,7 @@ impl ConnectionParser {
                     );
                 }
                 // No colon?
-                if name_flags.is_set(HeaderFlags::MISSING_COLON) {
+                if *name_flags & HeaderFlags::MISSING_COLON == HeaderFlags::MISSING_COLON {
                     // We handle this case as a header with an empty name, with the value equal
                     // to the entire input string.
                     // TODO Apache will respond to this problem with a 400.
-- 
2.43.0


From 78035f8eb109e4cf0a243c8216e4bcbff2387067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:27:21 +0000
Subject: [PATCH 20/23] fix: a folded response header stays marked folded when
 a field follows its continuation

---
 src/headers.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/headers.rs b/src/headers.rs
index 8bd193e..ffb7023 100644
--- a/src/headers.rs
+++ b/src/headers.rs
@@ -312,12 +312,17 @@ impl Parser {
             if let Some(fold) = fold {
                 let mut i = rest;
                 let mut ofold = fold;
+                let mut joined = false;
                 loop {
                     if self.side == Side::Response {
                         // Peek ahead for ambiguous name with lws vs. value with folding
                         match tuple((token_chars, separator_regular))(i) {
                             Ok((_, ((_, tokens, _), (_, _)))) if !tokens.is_empty() => {
-                                flags.unset(HeaderFlags::FOLDING_SPECIAL_CASE);
+                                // What follows is not a continuation: only a line that was joined
+                                // makes the value a folded one
+                                if !joined {
+                                    flags.unset(HeaderFlags::FOLDING_SPECIAL_CASE);
+                                }
                                 if value.is_empty() {
                                     flags.set(HeaderFlags::VALUE_EMPTY);
                                 }
@@ -332,6 +337,7 @@ impl Parser {
                     }
                     let (rest2, (val_bytes, ((eol, other_flags), fold))) = self.value_bytes()(i)?;
                     i = rest2;
+                    joined = true;
                     flags.set(other_flags);
                     //If the value is empty, the value started with a fold and we don't want to push back a space
                     if !value.is_empty() {
-- 
2.43.0


From c04ef4fb3c30e238993aafe6c06d4c6c54f4127b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:16 +0000
Subject: [PATCH 21/23] fix: keep the first byte of a gzip XLEN or header CRC
 cut from its second

When a write ended between the two bytes of the XLEN or header CRC field, the
next write could consume nothing, which the caller reads as the end of the
stream: the byte was dropped and the header misread. Remember the byte.
---
 src/decompressors.rs | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/decompressors.rs b/src/decompressors.rs
index b533eef..ff3d8f9 100644
--- a/src/decompressors.rs
+++ b/src/decompressors.rs
@@ -422,6 +422,8 @@ struct GzipBufWriter {
     buffer: Vec<u8>,
     flags: u8,
     xlen: u16,
+    /// First byte of a two byte field whose second byte has yet to come.
+    partial: Option<u8>,
     inner: flate2::write::DeflateDecoder<Cursor<Box<[u8]>>>,
     state: GzState,
 }
@@ -432,6 +434,7 @@ impl GzipBufWriter {
             buffer: Vec::with_capacity(10),
             flags: 0,
             xlen: 0,
+            partial: None,
             inner: flate2::write::DeflateDecoder::new(buf),
             state: GzState::Start,
         }
@@ -466,6 +469,18 @@ impl Write for GzipBufWriter {
             (data, true)
         };
 
+        // Complete the two byte field that the previous call left unfinished.
+        if let (Some(first), Some(second)) = (self.partial, data.first()) {
+            self.partial = None;
+            if self.state == GzState::Crc {
+                self.state = GzState::AfterHeader;
+                return Ok(1);
+            }
+            self.xlen = u16::from_le_bytes([first, *second]);
+            self.state = GzState::Extra;
+            parse = &data[1..];
+        }
+
         loop {
             match self.state {
                 GzState::Start => match GzipBufWriter::parse_start(parse) {
@@ -495,6 +510,11 @@ impl Write for GzipBufWriter {
                                 self.xlen = xlen;
                             }
                             Err(nom::Err::Incomplete(_)) => {
+                                if data.len() == 1 && parse.len() == 1 {
+                                    // consuming nothing would mean the end of the stream
+                                    self.partial = Some(data[0]);
+                                    return Ok(1);
+                                }
                                 return Ok(data.len() - parse.len());
                             }
                             Err(_) => {
@@ -570,6 +590,11 @@ impl Write for GzipBufWriter {
                                 parse = rest;
                             }
                             Err(nom::Err::Incomplete(_)) => {
+                                if data.len() == 1 && parse.len() == 1 {
+                                    // consuming nothing would mean the end of the stream
+                                    self.partial = Some(data[0]);
+                                    return Ok(1);
+                                }
                                 return Ok(data.len() - parse.len());
                             }
                             Err(_) => {
-- 
2.43.0


From dbc3ed232a712537e984196a5670f10fbece406b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:15 +0000
Subject: [PATCH 22/23] fix: a Content-Type without a media type does not fail
 the request

---
 src/parsers.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/parsers.rs b/src/parsers.rs
index 0295b20..49ae997 100644
--- a/src/parsers.rs
+++ b/src/parsers.rs
@@ -11,7 +11,7 @@ use crate::{
 };
 use nom::{
     branch::alt,
-    bytes::complete::{is_not, tag, tag_no_case, take_until, take_while},
+    bytes::complete::{is_not, tag, tag_no_case, take_till, take_until, take_while},
     combinator::{map, not, opt, peek},
     error::ErrorKind,
     multi::many0,
@@ -26,7 +26,10 @@ use nom::{
 fn content_type() -> impl Fn(&[u8]) -> IResult<&[u8], &[u8]> {
     move |input| {
         map(
-            tuple((take_ascii_whitespace(), is_not(";, "))),
+            tuple((
+                take_ascii_whitespace(),
+                take_till(|c| c == b';' || c == b',' || c == b' '),
+            )),
             |(_, content_type)| content_type,
         )(input)
     }
-- 
2.43.0


From b25a916508242714e72dd6528a2bc5299b9e7908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:15 +0000
Subject: [PATCH 23/23] fix: htp_tx_normalized_uri returns NULL for a NULL
 transaction

---
 src/c_api/transaction.rs | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/c_api/transaction.rs b/src/c_api/transaction.rs
index 560339a..1448f68 100644
--- a/src/c_api/transaction.rs
+++ b/src/c_api/transaction.rs
@@ -25,17 +25,16 @@ pub unsafe extern "C" fn htp_tx_destroy(connp: *mut ConnectionParser, tx: *const
 /// When calling this method, you have to ensure that tx is either properly initialized or NULL
 #[no_mangle]
 pub unsafe extern "C" fn htp_tx_normalized_uri(tx: *const Transaction) -> *const Bstr {
-    if (*tx).cfg.decoder_cfg.normalized_uri_include_all {
-        tx.as_ref()
-            .and_then(|tx| tx.complete_normalized_uri.as_ref())
-            .map(|uri| uri as *const Bstr)
-            .unwrap_or(std::ptr::null())
-    } else {
-        tx.as_ref()
-            .and_then(|tx| tx.partial_normalized_uri.as_ref())
-            .map(|uri| uri as *const Bstr)
-            .unwrap_or(std::ptr::null())
-    }
+    tx.as_ref()
+        .and_then(|tx| {
+            if tx.cfg.decoder_cfg.normalized_uri_include_all {
+                tx.complete_normalized_uri.as_ref()
+            } else {
+                tx.partial_normalized_uri.as_ref()
+            }
+        })
+        .map(|uri| uri as *const Bstr)
+        .unwrap_or(std::ptr::null())
 }
 
 /// Get the transaction's configuration.
-- 
2.43.0

