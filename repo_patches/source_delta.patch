From 02aaafcacf338d021d736127f6c4a8bc0fd6084b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:57 +0000
Subject: [PATCH 01/21] fix: use and drop the buffered start of a chunk-length
 line

A chunk-length line split across data chunks kept its first part in the
receive buffer (it was cloned, not taken) so the next length line was parsed
with stale bytes in front, and a line whose last fragment was only the line
ending was skipped as empty. The request side also left the buffered part of
the line that ends a chunk in the receive buffer.
---
 src/request.rs  | 19 ++++++++++---------
 src/response.rs | 18 ++++++++----------
 2 files changed, 18 insertions(+), 19 deletions(-)

diff --git a/src/request.rs b/src/request.rs
index 4e62e3e..5172b80 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -333,6 +333,8 @@ impl ConnectionParser {
             let len = line.len();
             req.request_message_len = req.request_message_len.wrapping_add(len as u64);
             self.request_data_consume(input, len);
+            // Drop the part of the line that was buffered from earlier data chunks.
+            self.request_buf.clear();
             self.request_state = State::BODY_CHUNKED_LENGTH;
             Ok(())
         } else {
@@ -383,25 +385,24 @@ impl ConnectionParser {
                 if !self.request_buf.is_empty() {
                     self.check_request_buffer_limit(line.len())?;
                 }
+                // The line may have been started in an earlier data chunk.
+                let mut chunk_line = take(&mut self.request_buf);
+                chunk_line.add(line);
                 let req = self.request_mut();
                 if req.is_none() {
                     return Err(HtpStatus::ERROR);
                 }
                 let req = req.unwrap();
-
-                if line.eq(b"\n") {
-                    req.request_message_len =
-                        req.request_message_len.wrapping_add(line.len() as u64);
+                req.request_message_len = req
+                    .request_message_len
+                    .wrapping_add(chunk_line.len() as u64);
+                if chunk_line.as_slice().eq(b"\n") {
                     //Empty chunk len. Try to continue parsing.
                     data = remaining;
                     continue;
                 }
-                let mut data = self.request_buf.clone();
-                data.add(line);
-                let req = self.request_mut().unwrap();
-                req.request_message_len = req.request_message_len.wrapping_add(data.len() as u64);
                 // Handle chunk length.
-                let (len, ext) = parse_chunked_length(&data)?;
+                let (len, ext) = parse_chunked_length(&chunk_line)?;
                 self.request_chunked_length = len;
                 if ext {
                     htp_warn!(
diff --git a/src/response.rs b/src/response.rs
index 5a05a8d..fa4f06b 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -196,21 +196,19 @@ impl ConnectionParser {
                     if !self.response_buf.is_empty() {
                         self.check_response_buffer_limit(line.len())?;
                     }
-                    if is_chunked_ctl_line(line) {
-                        let resp = self.response_mut().unwrap();
-                        resp.response_message_len =
-                            (resp.response_message_len).wrapping_add(line.len() as u64);
+                    // The line may have been started in an earlier data chunk.
+                    let mut chunk_line = take(&mut self.response_buf);
+                    chunk_line.add(line);
+                    let resp = self.response_mut().unwrap();
+                    resp.response_message_len =
+                        (resp.response_message_len).wrapping_add(chunk_line.len() as u64);
+                    if is_chunked_ctl_line(&chunk_line) {
                         //Empty chunk len. Try to continue parsing.
                         data = remaining;
                         continue;
                     }
-                    let mut data = self.response_buf.clone();
-                    data.add(line);
-                    let resp = self.response_mut().unwrap();
-                    resp.response_message_len =
-                        (resp.response_message_len).wrapping_add(data.len() as u64);
 
-                    match parse_chunked_length(&data) {
+                    match parse_chunked_length(&chunk_line) {
                         Ok((len, ext)) => {
                             self.response_chunked_length = len;
                             if ext {
-- 
2.43.0


From a91fb74ce1dfe37984ec0e707a9121ba613e91ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:57 +0000
Subject: [PATCH 02/21] fix: do not overflow when decoding an invalid %xx
 escape

---
 src/urlencoded.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/urlencoded.rs b/src/urlencoded.rs
index 744983b..8784c58 100644
--- a/src/urlencoded.rs
+++ b/src/urlencoded.rs
@@ -164,16 +164,16 @@ fn name_value(input: &[u8]) -> IResult<&[u8], &[u8]> {
 fn x2c(input: &[u8]) -> IResult<&[u8], u8> {
     let (input, (c1, c2)) = tuple((be_u8, be_u8))(input)?;
     let mut decoded_byte = if c1 >= b'A' {
-        ((c1 & 0xdf) - b'A') + 10
+        (c1 & 0xdf).wrapping_sub(b'A').wrapping_add(10)
     } else {
-        c1 - b'0'
+        c1.wrapping_sub(b'0')
     };
     decoded_byte = (decoded_byte as i32 * 16) as u8;
-    decoded_byte += if c2 >= b'A' {
-        ((c2 & 0xdf) - b'A') + 10
+    decoded_byte = decoded_byte.wrapping_add(if c2 >= b'A' {
+        (c2 & 0xdf).wrapping_sub(b'A').wrapping_add(10)
     } else {
-        c2 - b'0'
-    };
+        c2.wrapping_sub(b'0')
+    });
     Ok((input, decoded_byte))
 }
 
-- 
2.43.0


From c42e4076eae9d007090af259c047f479e7797a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:57 +0000
Subject: [PATCH 03/21] fix: accept NULL in htp_tx_normalized_uri as documented

---
 src/c_api/transaction.rs | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/c_api/transaction.rs b/src/c_api/transaction.rs
index 560339a..1448f68 100644
--- a/src/c_api/transaction.rs
+++ b/src/c_api/transaction.rs
@@ -25,17 +25,16 @@ pub unsafe extern "C" fn htp_tx_destroy(connp: *mut ConnectionParser, tx: *const
 /// When calling this method, you have to ensure that tx is either properly initialized or NULL
 #[no_mangle]
 pub unsafe extern "C" fn htp_tx_normalized_uri(tx: *const Transaction) -> *const Bstr {
-    if (*tx).cfg.decoder_cfg.normalized_uri_include_all {
-        tx.as_ref()
-            .and_then(|tx| tx.complete_normalized_uri.as_ref())
-            .map(|uri| uri as *const Bstr)
-            .unwrap_or(std::ptr::null())
-    } else {
-        tx.as_ref()
-            .and_then(|tx| tx.partial_normalized_uri.as_ref())
-            .map(|uri| uri as *const Bstr)
-            .unwrap_or(std::ptr::null())
-    }
+    tx.as_ref()
+        .and_then(|tx| {
+            if tx.cfg.decoder_cfg.normalized_uri_include_all {
+                tx.complete_normalized_uri.as_ref()
+            } else {
+                tx.partial_normalized_uri.as_ref()
+            }
+        })
+        .map(|uri| uri as *const Bstr)
+        .unwrap_or(std::ptr::null())
 }
 
 /// Get the transaction's configuration.
-- 
2.43.0


From 30c1a23e6d6882425c4dc03f0e58ffc4fcd0aaeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:07 +0000
Subject: [PATCH 04/21] fix: accept NULL in htp_connp_destroy_all as documented

---
 src/c_api/connection_parser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/c_api/connection_parser.rs b/src/c_api/connection_parser.rs
index f8d750b..7813278 100644
--- a/src/c_api/connection_parser.rs
+++ b/src/c_api/connection_parser.rs
@@ -60,7 +60,9 @@ pub unsafe extern "C" fn htp_connp_create(cfg: *mut Config) -> *mut ConnectionPa
 /// When calling this method, you have to ensure that connp is either properly initialized or NULL
 #[no_mangle]
 pub unsafe extern "C" fn htp_connp_destroy_all(connp: *mut ConnectionParser) {
-    drop(Box::from_raw(connp));
+    if !connp.is_null() {
+        drop(Box::from_raw(connp));
+    }
 }
 
 /// Returns the connection associated with the connection parser.
-- 
2.43.0


From db05477f66fb30464c2de2812b1a0d50ee2c9f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:07 +0000
Subject: [PATCH 05/21] fix: do not panic on an out of range timestamp passed
 to the C API

---
 src/c_api/connection_parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c_api/connection_parser.rs b/src/c_api/connection_parser.rs
index 7813278..05742d5 100644
--- a/src/c_api/connection_parser.rs
+++ b/src/c_api/connection_parser.rs
@@ -14,7 +14,7 @@ use time::{Duration, OffsetDateTime};
 /// Take seconds and microseconds and return a OffsetDateTime
 fn datetime_from_sec_usec(sec: i64, usec: i64) -> Option<OffsetDateTime> {
     match OffsetDateTime::from_unix_timestamp(sec) {
-        Ok(date) => Some(date + Duration::microseconds(usec)),
+        Ok(date) => date.checked_add(Duration::microseconds(usec)),
         Err(_) => None,
     }
 }
-- 
2.43.0


From 1324aba39d2aee64f44069ecb3e4c5f823b26df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:04 +0000
Subject: [PATCH 06/21] fix: do not resume a stopped or failed stream because
 of the other direction

A CONNECT or 101 response set the request stream to DATA or TUNNEL although a
callback had stopped it, and a CONNECT probe set the response stream to TUNNEL
although it had failed or was stopped.
---
 src/request.rs  |  6 +++++-
 src/response.rs | 12 +++++++++---
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/request.rs b/src/request.rs
index 5172b80..fed233e 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -276,7 +276,11 @@ impl ConnectionParser {
         if let Ok((_, (_, method))) = res {
             if HtpMethod::new(method) == HtpMethod::UNKNOWN {
                 self.request_status = HtpStreamState::TUNNEL;
-                self.response_status = HtpStreamState::TUNNEL
+                if self.response_status != HtpStreamState::ERROR
+                    && self.response_status != HtpStreamState::STOP
+                {
+                    self.response_status = HtpStreamState::TUNNEL
+                }
             } else {
                 return self.state_request_complete(input);
             }
diff --git a/src/response.rs b/src/response.rs
index fa4f06b..2fe5aaa 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -370,13 +370,17 @@ impl ConnectionParser {
                 return self.state_response_headers(input);
             } else if response_tx.response_status_number.eq_num(407) {
                 // proxy telling us to auth
-                if self.request_status != HtpStreamState::ERROR {
+                if self.request_status != HtpStreamState::ERROR
+                    && self.request_status != HtpStreamState::STOP
+                {
                     self.request_status = HtpStreamState::DATA
                 }
             } else {
                 // This is a failed CONNECT stream, which means that
                 // we can unblock request parsing
-                if self.request_status != HtpStreamState::ERROR {
+                if self.request_status != HtpStreamState::ERROR
+                    && self.request_status != HtpStreamState::STOP
+                {
                     self.request_status = HtpStreamState::DATA
                 }
                 // We are going to continue processing this transaction,
@@ -411,7 +415,9 @@ impl ConnectionParser {
             }
             if te_opt.is_none() && cl_opt.is_none() {
                 self.response_state = State::FINALIZE;
-                if self.request_status != HtpStreamState::ERROR {
+                if self.request_status != HtpStreamState::ERROR
+                    && self.request_status != HtpStreamState::STOP
+                {
                     self.request_status = HtpStreamState::TUNNEL
                 }
                 self.response_status = HtpStreamState::TUNNEL;
-- 
2.43.0


From efa6556f9ece1158797735e89e3ab207ac45753a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:26 +0000
Subject: [PATCH 07/21] fix: honour the answer of the request_start callbacks

A callback that stopped the stream (or failed) at the start of a request was
ignored and the request was processed regardless.
---
 src/request.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/request.rs b/src/request.rs
index fed233e..4559b56 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -1433,9 +1433,7 @@ impl ConnectionParser {
         }
         self.request_reset();
         // Change state to TRANSACTION_START
-        // Ignore the result.
-        let _ = self.state_request_start();
-        Ok(())
+        self.state_request_start()
     }
 
     /// Buffer incomplete request data and verify that field_limit
-- 
2.43.0


From 9bd38b5a6f348d1b69f87626b792b8c439f322cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:31 +0000
Subject: [PATCH 08/21] fix: complete a transaction only once when yielding to
 the request parser

After a refused CONNECT the response was completed, the parser yielded before
finalising it, and finalised it again when it resumed: the transaction was
reported complete twice, or (with auto-destroy) its response was.
---
 src/connection_parser.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/connection_parser.rs b/src/connection_parser.rs
index 958ec12..1eb2f4a 100644
--- a/src/connection_parser.rs
+++ b/src/connection_parser.rs
@@ -912,12 +912,12 @@ impl ConnectionParser {
             self.response_receiver_finalize_clear(input)?;
         }
         // Check if we want to signal the caller to send request data
-        self.request_parser_check_waiting()?;
-        // Otherwise finalize the transaction
+        let waiting = self.request_parser_check_waiting();
+        // Finalize the transaction, so that it is not completed again when we resume
         self.finalize(response_index)?;
         self.response_next();
         self.response_state = State::IDLE;
-        Ok(())
+        waiting
     }
 
     /// Check if we had previously signalled the caller to give us response
-- 
2.43.0


From 71a39f0fa2a66f7e37821baaf5056df0c933e362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:54 +0000
Subject: [PATCH 09/21] fix: keep buffered bytes of an invalid response chunk
 length line as body data

When a chunk length line turned out to be invalid, the part of it that had
been buffered from an earlier data chunk was lost or handed on after the
rest of the body.
---
 src/response.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/response.rs b/src/response.rs
index 2fe5aaa..91ebadf 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -197,6 +197,7 @@ impl ConnectionParser {
                         self.check_response_buffer_limit(line.len())?;
                     }
                     // The line may have been started in an earlier data chunk.
+                    let buffered_len = self.response_buf.len();
                     let mut chunk_line = take(&mut self.response_buf);
                     chunk_line.add(line);
                     let resp = self.response_mut().unwrap();
@@ -248,6 +249,10 @@ impl ConnectionParser {
                                 HtpLogCode::INVALID_RESPONSE_CHUNK_LEN,
                                 "Response chunk encoding: Invalid chunk length"
                             );
+                            // The part seen in earlier data chunks can't be unconsumed.
+                            if buffered_len > 0 {
+                                self.response_body_data(Some(&chunk_line[..buffered_len]))?;
+                            }
                         }
                     }
 
@@ -264,6 +269,11 @@ impl ConnectionParser {
                             HtpLogCode::INVALID_RESPONSE_CHUNK_LEN,
                             "Response chunk encoding: Invalid chunk length"
                         );
+                        // What was buffered from earlier data chunks is part of the body too.
+                        let buffered = take(&mut self.response_buf);
+                        if !buffered.is_empty() {
+                            self.response_body_data(Some(buffered.as_slice()))?;
+                        }
                         return Ok(());
                     } else {
                         return self.handle_response_absent_lf(input);
-- 
2.43.0


From 92b5212f33ea3565913d0d8859bc08192feaec21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:33 +0000
Subject: [PATCH 10/21] fix: do not skip request data after an end of headers
 split between data chunks

When the CR of the empty line came in one data chunk and the LF in the next,
two bytes of the second chunk were consumed, losing the first byte that
follows the headers.
---
 src/request.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/request.rs b/src/request.rs
index 4559b56..92b4062 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -591,11 +591,10 @@ impl ConnectionParser {
             if remaining.len() < data.len() {
                 self.request_data_consume(input, data.len() - remaining.len());
             } else if eol {
-                if remaining.starts_with(b"\r\n") {
-                    self.request_data_consume(input, min(data.len(), 2));
-                } else if remaining.starts_with(b"\n") {
-                    self.request_data_consume(input, min(data.len(), 1));
-                }
+                let eol_len = if remaining.starts_with(b"\r\n") { 2 } else { 1 };
+                // Part of the EOL may have been seen in an earlier data chunk.
+                let unread = remaining.len() - eol_len;
+                self.request_data_consume(input, data.len().saturating_sub(unread));
             }
             // We've seen all the request headers.
             self.state_request_headers(input)
-- 
2.43.0


From ab909dcc76b7964f73822bbf2ba287d1d685d9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:33 +0000
Subject: [PATCH 11/21] fix: find the end of a response line whose EOL is split
 between data chunks

---
 src/response.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/response.rs b/src/response.rs
index 91ebadf..4ef783d 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -646,19 +646,21 @@ impl ConnectionParser {
     /// Returns HtpStatus::OK on state change, HtpStatus::ERROR on error, or HtpStatus::DATA
     /// when more data is needed.
     pub fn response_line(&mut self, input: &ParserData) -> Result<()> {
-        match take_till_eol(input.as_slice()) {
+        // An EOL sequence may be split between data chunks: search the buffered data too.
+        let buffered_len = self.response_buf.len();
+        let mut data = self.response_buf.clone();
+        data.add(input.as_slice());
+        match take_till_eol(data.as_slice()) {
             Ok((_, (line, _))) => {
                 // We have a line ending, so consume the input
-                // and grab any buffered data.
-                let mut data = take(&mut self.response_buf);
-                data.add(line);
-                self.response_data_consume(input, line.len());
-                self.response_line_complete(data.as_slice(), input)
+                // and drop any buffered data.
+                self.response_buf.clear();
+                self.response_data_consume(input, line.len().saturating_sub(buffered_len));
+                self.response_line_complete(line, input)
             }
             _ => {
                 if self.response_status == HtpStreamState::CLOSED {
-                    let mut data = take(&mut self.response_buf);
-                    data.add(input.as_slice());
+                    self.response_buf.clear();
                     self.response_data_consume(input, input.len());
                     self.response_line_complete(data.as_slice(), input)
                 } else {
-- 
2.43.0


From 1266083ba16abba4f5f634eb5b10f85a441ff618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:58 +0000
Subject: [PATCH 12/21] fix: validate a partial chunk length line together with
 its buffered part

A chunk length line split between data chunks was rejected when the later
part alone did not look like a chunk length.
---
 src/request.rs  | 4 +++-
 src/response.rs | 9 +++++----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/request.rs b/src/request.rs
index 92b4062..0c0aacf 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -439,7 +439,9 @@ impl ConnectionParser {
                 return Ok(());
             } else {
                 // Check if the data we have seen so far is invalid
-                return if !is_valid_chunked_length_data(data) {
+                let mut seen = self.request_buf.clone();
+                seen.add(data);
+                return if !is_valid_chunked_length_data(&seen) {
                     // Contains leading junk non hex_ascii data
                     // Invalid chunk length
                     htp_error!(
diff --git a/src/response.rs b/src/response.rs
index 4ef783d..ea1a941 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -184,11 +184,9 @@ impl ConnectionParser {
     pub fn response_body_chunked_length(&mut self, input: &mut ParserData) -> Result<()> {
         let mut data = input.as_slice();
         loop {
-            let resp = self.response_mut();
-            if resp.is_none() {
+            if self.response().is_none() {
                 return Err(HtpStatus::ERROR);
             }
-            let resp = resp.unwrap();
 
             match take_till_lf(data) {
                 Ok((remaining, line)) => {
@@ -260,8 +258,11 @@ impl ConnectionParser {
                 }
                 _ => {
                     // Check if the data we have seen so far is invalid
-                    if !is_valid_chunked_length_data(data) {
+                    let mut seen = self.response_buf.clone();
+                    seen.add(data);
+                    if !is_valid_chunked_length_data(&seen) {
                         // Contains leading junk non hex_ascii data
+                        let resp = self.response_mut().unwrap();
                         resp.response_transfer_coding = HtpTransferCoding::IDENTITY;
                         self.response_state = State::BODY_IDENTITY_STREAM_CLOSE;
                         htp_error!(
-- 
2.43.0


From eb1d4023aae198cc1174bc701e2441951650f41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:42:08 +0000
Subject: [PATCH 13/21] fix: count an invalid response chunk length line once
 in the message length

---
 src/response.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/response.rs b/src/response.rs
index ea1a941..69f9591 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -240,8 +240,12 @@ impl ConnectionParser {
                             // unconsume so response_body_identity_stream_close doesn't miss the first bytes
                             self.response_data_unconsume(input, line.len());
                             self.response_state = State::BODY_IDENTITY_STREAM_CLOSE;
-                            self.response_mut().unwrap().response_transfer_coding =
-                                HtpTransferCoding::IDENTITY;
+                            let resp = self.response_mut().unwrap();
+                            resp.response_transfer_coding = HtpTransferCoding::IDENTITY;
+                            // The line will be counted as body data.
+                            resp.response_message_len = resp
+                                .response_message_len
+                                .wrapping_sub(chunk_line.len() as u64);
                             htp_error!(
                                 self.logger,
                                 HtpLogCode::INVALID_RESPONSE_CHUNK_LEN,
-- 
2.43.0


From 2ce2ccda3e8c6a0642777cc2aef1619e4936b02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:09 +0000
Subject: [PATCH 14/21] fix: report a header with an empty name as invalid
 instead of as missing a colon

---
 src/request.rs  | 3 ++-
 src/response.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/request.rs b/src/request.rs
index 0c0aacf..43d6be9 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -814,7 +814,8 @@ impl ConnectionParser {
                     );
                 }
                 // No colon?
-                if name_flags.is_set(HeaderFlags::MISSING_COLON) {
+                // (MISSING_COLON includes NAME_EMPTY, so all of it has to be set.)
+                if name_flags & HeaderFlags::MISSING_COLON == HeaderFlags::MISSING_COLON {
                     // Log only once per transaction.
                     // We handle this case as a header with an empty name, with the value equal
                     // to the entire input string.
diff --git a/src/response.rs b/src/response.rs
index 69f9591..aa90e80 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -856,7 +856,8 @@ impl ConnectionParser {
                     );
                 }
                 // No colon?
-                if name_flags.is_set(HeaderFlags::MISSING_COLON) {
+                // (MISSING_COLON includes NAME_EMPTY, so all of it has to be set.)
+                if name_flags & HeaderFlags::MISSING_COLON == HeaderFlags::MISSING_COLON {
                     // We handle this case as a header with an empty name, with the value equal
                     // to the entire input string.
                     // TODO Apache will respond to this problem with a 400.
-- 
2.43.0


From f55aaca2c17db908193da0762eb80cd3e3894506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:25 +0000
Subject: [PATCH 15/21] fix: count only lzma layers against the request lzma
 layer limit

The configured limit is the maximum number of lzma layers and the response
side counts those, but the request side compared the number of all layers:
with the default limit of one, 'Content-Encoding: gzip, lzma' on a request
was never lzma-decoded.
---
 src/request.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/request.rs b/src/request.rs
index 43d6be9..a609cda 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -1159,6 +1159,7 @@ impl ConnectionParser {
                 if slow_path {
                     if let Some(ce) = &ce {
                         let mut layers = 0;
+                        let mut lzma_layers = 0;
                         for encoding in ce.split(|c| *c == b',' || *c == b' ') {
                             if encoding.is_empty() {
                                 continue;
@@ -1201,9 +1202,10 @@ impl ConnectionParser {
                                 }
                                 HtpContentEncoding::DEFLATE
                             } else if encoding.cmp_slice(b"lzma") == Ordering::Equal {
+                                lzma_layers += 1;
                                 if let Some(limit) = compression_options.get_lzma_layers() {
                                     // LZMA decompression layer depth check
-                                    if layers > limit {
+                                    if lzma_layers > limit {
                                         htp_warn!(
                                             self.logger,
                                             HtpLogCode::REQUEST_TOO_MANY_LZMA_LAYERS,
-- 
2.43.0


From 3090ef5d9dbf4cb90123a34c7cb3a2102d36b505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:04 +0000
Subject: [PATCH 16/21] fix: report the expected status of an irregular path
 reliably

Every byte of the path overwrote the expected status, so only a problem with
the last byte was reported, and only if the transaction had none yet. The
reactions configured for encoded and raw NUL bytes that do not end the path,
for encoded separators and for invalid encodings that are kept were ignored.
---
 src/urlencoded.rs | 40 ++++++++++++++++++++++++++++++----------
 1 file changed, 30 insertions(+), 10 deletions(-)

diff --git a/src/urlencoded.rs b/src/urlencoded.rs
index 8784c58..251c7d3 100644
--- a/src/urlencoded.rs
+++ b/src/urlencoded.rs
@@ -320,24 +320,30 @@ fn path_decode_valid_hex(
         not(tag_no_case("u"))(remaining_input)?;
         let (mut left, hex) = take_while_m_n(2, 2, |c: u8| c.is_ascii_hexdigit())(remaining_input)?;
         let mut flags = 0;
+        let mut expected_status_code = HtpUnwanted::IGNORE;
         // Convert from hex.
         let (_, mut byte) = x2c(hex)?;
         if byte == 0 {
             flags.set(HtpFlags::PATH_ENCODED_NUL);
+            expected_status_code = cfg.nul_encoded_unwanted;
             if cfg.nul_encoded_terminates {
                 // Terminate the path at the raw NUL byte.
-                return Ok((b"", (byte, cfg.nul_encoded_unwanted, flags, false)));
+                return Ok((b"", (byte, expected_status_code, flags, false)));
             }
         }
         if byte == b'/' || (cfg.backslash_convert_slashes && byte == b'\\') {
             flags.set(HtpFlags::PATH_ENCODED_SEPARATOR);
+            expected_status_code = cfg.path_separators_encoded_unwanted;
             if !cfg.path_separators_decode {
                 // Leave encoded
                 byte = b'%';
                 left = original_remaining;
             }
         }
-        let (byte, expected_status_code) = path_decode_control(byte, cfg);
+        let (byte, code) = path_decode_control(byte, cfg);
+        if code != HtpUnwanted::IGNORE {
+            expected_status_code = code;
+        }
         Ok((left, (byte, expected_status_code, flags, true)))
     }
 }
@@ -356,7 +362,7 @@ fn path_decode_invalid_hex(
         let mut byte = b'%';
         // Invalid encoding
         let flags = HtpFlags::PATH_INVALID_ENCODING;
-        let expected_status_code = cfg.url_encoding_invalid_unwanted;
+        let mut expected_status_code = cfg.url_encoding_invalid_unwanted;
         if cfg.url_encoding_invalid_handling == HtpUrlEncodingHandling::REMOVE_PERCENT {
             // Do not place anything in output; consume the %.
             return Ok((remaining_input, (byte, expected_status_code, flags, false)));
@@ -366,7 +372,10 @@ fn path_decode_invalid_hex(
             remaining = left;
             byte = b;
         }
-        let (byte, expected_status_code) = path_decode_control(byte, cfg);
+        let (byte, code) = path_decode_control(byte, cfg);
+        if code != HtpUnwanted::IGNORE {
+            expected_status_code = code;
+        }
         Ok((remaining, (byte, expected_status_code, flags, true)))
     }
 }
@@ -434,11 +443,18 @@ fn path_parse_other(
         let (remaining_input, byte) = be_u8(i)?;
         // One non-encoded byte.
         // Did we get a raw NUL byte?
-        if byte == 0 && cfg.nul_raw_terminates {
-            // Terminate the path at the encoded NUL byte.
-            return Ok((b"", (byte, cfg.nul_raw_unwanted, 0, false)));
+        let mut expected_status_code = HtpUnwanted::IGNORE;
+        if byte == 0 {
+            expected_status_code = cfg.nul_raw_unwanted;
+            if cfg.nul_raw_terminates {
+                // Terminate the path at the raw NUL byte.
+                return Ok((b"", (byte, expected_status_code, 0, false)));
+            }
+        }
+        let (byte, code) = path_decode_control(byte, cfg);
+        if code != HtpUnwanted::IGNORE {
+            expected_status_code = code;
         }
-        let (byte, expected_status_code) = path_decode_control(byte, cfg);
         Ok((remaining_input, (byte, expected_status_code, 0, true)))
     }
 }
@@ -500,7 +516,9 @@ fn path_decode_uri<'a>(
                 }
             }
             acc.1.set(flag);
-            acc.2 = code;
+            if code != HtpUnwanted::IGNORE {
+                acc.2 = code;
+            }
             acc
         },
     )(input)
@@ -519,7 +537,9 @@ pub fn path_decode_uri_inplace(
     {
         path.clear();
         path.add(consumed.as_slice());
-        *status = expected_status_code;
+        if expected_status_code != HtpUnwanted::IGNORE {
+            *status = expected_status_code;
+        }
         flag.set(flags);
     }
 }
-- 
2.43.0


From a273bb6c4398df76ed37f9a302d265b05f86823b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:55 +0000
Subject: [PATCH 17/21] fix: keep the expected status of an earlier urlencoded
 parameter

---
 src/urlencoded.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/urlencoded.rs b/src/urlencoded.rs
index 251c7d3..6412b3c 100644
--- a/src/urlencoded.rs
+++ b/src/urlencoded.rs
@@ -108,7 +108,9 @@ impl Parser {
                         decode_uri(name.as_slice(), &self.cfg)
                     {
                         self.flags.set(flags);
-                        self.response_status_expected_number = expected_status;
+                        if expected_status != HtpUnwanted::IGNORE {
+                            self.response_status_expected_number = expected_status;
+                        }
                         name.clear();
                         name.add(consumed);
                     }
@@ -116,7 +118,9 @@ impl Parser {
                         decode_uri(value.as_slice(), &self.cfg)
                     {
                         self.flags.set(flags);
-                        self.response_status_expected_number = expected_status;
+                        if expected_status != HtpUnwanted::IGNORE {
+                            self.response_status_expected_number = expected_status;
+                        }
                         value.clear();
                         value.add(consumed);
                     }
-- 
2.43.0


From 3007f6c82c4f7c5c0e4c76d16e7f1a16344f2968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:55:12 +0000
Subject: [PATCH 18/21] fix: do not accept a sign in a port number

---
 src/util.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index 30d8648..a9c176f 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -374,7 +374,8 @@ pub fn is_line_ignorable(server_personality: HtpServerPersonality, data: &[u8])
 ///
 /// Returns port number if a valid one is found. None if fails to convert or the result is 0
 pub fn convert_port(port: &[u8]) -> Option<u16> {
-    if port.is_empty() {
+    // Unlike parse(), do not accept a sign.
+    if port.is_empty() || !port.iter().all(|c| c.is_ascii_digit()) {
         return None;
     }
     let port_number = std::str::from_utf8(port).ok()?.parse::<u16>().ok()?;
-- 
2.43.0


From 3e1bf239da75212f0ed4a15d6cf1487f11fdf416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:21:00 +0000
Subject: [PATCH 19/21] fix: do not look for credentials beyond the authority
 of a URI

---
 src/parsers.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/parsers.rs b/src/parsers.rs
index 3e29204..66b036f 100644
--- a/src/parsers.rs
+++ b/src/parsers.rs
@@ -11,7 +11,7 @@ use crate::{
 };
 use nom::{
     branch::alt,
-    bytes::complete::{is_not, tag, tag_no_case, take_until, take_while},
+    bytes::complete::{is_not, tag, tag_no_case, take_till, take_until, take_while},
     combinator::{map, not, opt, peek},
     error::ErrorKind,
     multi::many0,
@@ -137,8 +137,13 @@ pub fn credentials() -> impl Fn(&[u8]) -> IResult<&[u8], ParsedCredentials> {
         // Authority test: two forward slash characters and it's an authority.
         // One, three or more slash characters, and it's a path.
         // Note: we only attempt to parse authority if we've seen a scheme.
-        let (input, (_, _, credentials, _)) =
-            tuple((tag("//"), peek(not(tag("/"))), take_until("@"), tag("@")))(input)?;
+        // The authority, and with it the credentials, ends with a slash, question mark or hash.
+        let (input, (_, _, credentials, _)) = tuple((
+            tag("//"),
+            peek(not(tag("/"))),
+            take_till(|c: u8| matches!(c, b'@' | b'/' | b'?' | b'#')),
+            tag("@"),
+        ))(input)?;
         let (password, username) = opt(tuple((take_until(":"), tag(":"))))(credentials)?;
         if let Some((username, _)) = username {
             Ok((input, (username, Some(password))))
-- 
2.43.0


From 6a4f1cd1c7f555452ea4965c92b483f7e250d469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:21:00 +0000
Subject: [PATCH 20/21] fix: keep an empty query and the fragment that follows
 it

---
 src/parsers.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parsers.rs b/src/parsers.rs
index 66b036f..1514cfb 100644
--- a/src/parsers.rs
+++ b/src/parsers.rs
@@ -260,7 +260,10 @@ pub fn path() -> impl Fn(&[u8]) -> IResult<&[u8], &[u8]> {
 pub fn query() -> impl Fn(&[u8]) -> IResult<&[u8], &[u8]> {
     move |input| {
         // Skip the starting '?'
-        map(tuple((tag("?"), is_not("#"))), |(_, query)| query)(input)
+        map(
+            tuple((tag("?"), take_till(|c: u8| c == b'#'))),
+            |(_, query)| query,
+        )(input)
     }
 }
 
-- 
2.43.0


From 7026e592a1c543b3a5b9a5bff47267dfd2acc686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:21:30 +0000
Subject: [PATCH 21/21] fix: do not take the end of the authority for the start
 of the path

---
 src/uri.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/uri.rs b/src/uri.rs
index f61a6ab..0439090 100644
--- a/src/uri.rs
+++ b/src/uri.rs
@@ -7,7 +7,7 @@ use crate::{
     utf8_decoder::decode_and_validate_inplace,
     util::{convert_port, FlagOperations, HtpFlags},
 };
-use nom::{combinator::opt, sequence::tuple};
+use nom::{bytes::complete::take_till, combinator::opt, sequence::tuple};
 
 /// URI structure. Each of the fields provides access to a single
 /// URI element. Where an element is not present in a URI, the
@@ -184,7 +184,12 @@ impl Uri {
             opt(tuple((
                 scheme(),
                 opt(credentials()),
-                opt(tuple((hostname(), opt(port())))),
+                opt(tuple((
+                    hostname(),
+                    opt(port()),
+                    // What else is in the authority is not part of the path
+                    take_till(|c: u8| matches!(c, b'/' | b'?' | b'#')),
+                ))),
             ))),
             opt(path()),
             opt(query()),
@@ -208,7 +213,7 @@ impl Uri {
                         self.password = Some(Bstr::from(password));
                     }
                 }
-                if let Some((hostname, port)) = hostname_port {
+                if let Some((hostname, port, _)) = hostname_port {
                     self.hostname = Some(Bstr::from(hostname));
                     if let Some(port) = port {
                         self.port = Some(Bstr::from(port));
-- 
2.43.0

