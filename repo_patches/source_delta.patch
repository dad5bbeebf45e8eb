From 81f22b1fd7196c98939f51fd71d17a0b6313d386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:33 +0000
Subject: [PATCH 1/6] fix: keep sending after an internally created response
 was sent

Server::next reported NeedMoreInput after sending an internally created
response (e.g. the BAD for a too long literal) although further enqueued
responses were waiting to be sent.
---
 src/server.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index 1150ae9..b622bcd 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -193,8 +193,9 @@ impl Server {
                 Ok(Some(Event::ResponseSent { handle, response }))
             }
             Ok(Some(ServerSendEvent::Response { handle: None, .. })) => {
-                // An internally created response was sent, don't inform the caller
-                Ok(None)
+                // An internally created response was sent, don't inform the caller but continue
+                // with sending: The next response might already be queued.
+                self.progress_send()
             }
             Ok(_) => {
                 // No progress yet
-- 
2.43.0


From ce046febdb9aa5b0589ca47827de0f6ca8d271b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:22 +0000
Subject: [PATCH 2/6] fix: do not spin when the peer closes the TLS session

After a close_notify alert the reader of rustls yields Ok(0) forever, which made decrypt loop endlessly.
---
 src/stream.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/stream.rs b/src/stream.rs
index a5c4316..2bad435 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -285,6 +285,8 @@ fn decrypt(
                     break;
                 }
                 Err(err) => return Err(DecryptEncryptError::Io(err)),
+                // The peer closed the TLS session and there is no more data to yield.
+                Ok(0) => break,
                 Ok(n) => plain_bytes.extend(&plain_bytes_chunk[0..n]),
             };
         }
-- 
2.43.0


From f42563b416f06f33153e0dabd079858ef1905a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:01 +0000
Subject: [PATCH 3/6] fix: encrypt output of any size

rustls accepts only as much plaintext as fits into its buffer (64 KiB by default). Larger outputs failed with WriteZero.
---
 src/stream.rs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/stream.rs b/src/stream.rs
index 2bad435..9ae4a7c 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -300,13 +300,24 @@ fn encrypt(
     write_buffer: &mut BytesMut,
     plain_bytes: Vec<u8>,
 ) -> Result<(), DecryptEncryptError> {
-    if !plain_bytes.is_empty() {
-        tls.writer().write_all(&plain_bytes)?;
-    }
+    let mut plain_bytes = plain_bytes.as_slice();
+
+    loop {
+        while tls.wants_write() {
+            let mut encrypted_bytes = write_buffer.writer();
+            tls.write_tls(&mut encrypted_bytes)?;
+        }
 
-    while tls.wants_write() {
-        let mut encrypted_bytes = write_buffer.writer();
-        tls.write_tls(&mut encrypted_bytes)?;
+        if plain_bytes.is_empty() {
+            break;
+        }
+
+        // The internal buffer of `rustls` is limited. Thus, it might accept only a part.
+        let byte_count = tls.writer().write(plain_bytes)?;
+        if byte_count == 0 {
+            return Err(DecryptEncryptError::Io(ErrorKind::WriteZero.into()));
+        }
+        plain_bytes = &plain_bytes[byte_count..];
     }
 
     Ok(())
-- 
2.43.0


From 43ca56c4636a3687326007a0ee3eb8e2e77862d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:14 +0000
Subject: [PATCH 4/6] fix: deliver data that was decrypted during the handshake

Data that is received together with the end of the handshake is already decrypted. As long as it is not read, rustls does not
want to read anything else, so it was never delivered and neither was anything after it.
---
 src/stream.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/stream.rs b/src/stream.rs
index 9ae4a7c..ab09d01 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -269,11 +269,9 @@ fn decrypt(
 ) -> Result<Vec<u8>, DecryptEncryptError> {
     let mut plain_bytes = Vec::new();
 
-    while tls.wants_read() && !read_buffer.is_empty() {
-        let mut encrypted_bytes = read_buffer.reader();
-        tls.read_tls(&mut encrypted_bytes)?;
-        tls.process_new_packets()?;
-
+    loop {
+        // There might already be data before reading anything, e.g., because it was received
+        // together with the end of the handshake.
         loop {
             let mut plain_bytes_chunk = [0; 128];
             match tls.reader().read(&mut plain_bytes_chunk) {
@@ -290,6 +288,14 @@ fn decrypt(
                 Ok(n) => plain_bytes.extend(&plain_bytes_chunk[0..n]),
             };
         }
+
+        if !tls.wants_read() || read_buffer.is_empty() {
+            break;
+        }
+
+        let mut encrypted_bytes = read_buffer.reader();
+        tls.read_tls(&mut encrypted_bytes)?;
+        tls.process_new_packets()?;
     }
 
     Ok(plain_bytes)
-- 
2.43.0


From 3f374afbf74771b64407a21fc59e37dfda38be4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:20 +0000
Subject: [PATCH 5/6] fix: do not panic on messages a peer sends out of order

The proxy unwrapped the results of set_authenticate_data,
authenticate_continue, authenticate_finish, idle_accept and idle_reject,
which fail when one peer sends a message the other side is not ready for.
End the session instead.
---
 proxy/src/proxy.rs | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/proxy/src/proxy.rs b/proxy/src/proxy.rs
index 105d023..97a871c 100644
--- a/proxy/src/proxy.rs
+++ b/proxy/src/proxy.rs
@@ -299,10 +299,10 @@ fn handle_client_event(
         server::Event::AuthenticateDataReceived { authenticate_data } => {
             trace!(role = "c2p", authenticate_data=%format!("{:?}", authenticate_data).red(), "|-->");
 
-            // TODO(#145): Fix unwrap
-            let handle = proxy_to_server
-                .set_authenticate_data(authenticate_data)
-                .unwrap();
+            let Ok(handle) = proxy_to_server.set_authenticate_data(authenticate_data) else {
+                error!(role = "c2p", "Unexpected authenticate data");
+                return ControlFlow::Abort;
+            };
             trace!(role = "p2s", ?handle, "set_authenticate_data");
         }
         server::Event::IdleCommandReceived { tag } => {
@@ -401,16 +401,19 @@ fn handle_server_event(
         } => {
             trace!(role = "s2p", authenticate_continuation_request=%format!("{:?}", continuation_request).blue(), "<--|");
 
-            let handle = client_to_proxy
-                .authenticate_continue(continuation_request)
-                .unwrap();
+            let Ok(handle) = client_to_proxy.authenticate_continue(continuation_request) else {
+                error!(role = "s2p", "Unexpected authenticate continuation request");
+                return ControlFlow::Abort;
+            };
             trace!(role = "p2c", ?handle, "authenticate_continue");
         }
         client::Event::AuthenticateStatusReceived { status, .. } => {
             trace!(role = "s2p", authenticate_status=%format!("{:?}", status).blue(), "<--|");
 
-            // TODO(#145): Fix unwrap
-            let handle = client_to_proxy.authenticate_finish(status).unwrap();
+            let Ok(handle) = client_to_proxy.authenticate_finish(status) else {
+                error!(role = "s2p", "Unexpected authenticate status");
+                return ControlFlow::Abort;
+            };
             trace!(role = "p2c", ?handle, "authenticate_finish");
         }
         client::Event::DataReceived { mut data } => {
@@ -453,15 +456,19 @@ fn handle_server_event(
                 "<--|"
             );
 
-            // TODO(#145): Fix unwrap
-            let handle = client_to_proxy.idle_accept(continuation_request).unwrap();
+            let Ok(handle) = client_to_proxy.idle_accept(continuation_request) else {
+                error!(role = "s2p", "Unexpected idle continuation request");
+                return ControlFlow::Abort;
+            };
             trace!(role = "p2c", ?handle, "idle_accept");
         }
         client::Event::IdleRejected { handle, status } => {
             trace!(role = "s2p", ?handle, idle_rejected_status=%format!("{:?}", status).blue(), "<--|");
 
-            // TODO(#145): Fix unwrap
-            let handle = client_to_proxy.idle_reject(status).unwrap();
+            let Ok(handle) = client_to_proxy.idle_reject(status) else {
+                error!(role = "s2p", "Unexpected idle status");
+                return ControlFlow::Abort;
+            };
             trace!(role = "p2c", ?handle, "idle_reject");
         }
         client::Event::IdleDoneSent { handle } => {
-- 
2.43.0


From c05aa8da327cb7ef1bff105f9593a84f6c5ef671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:20 +0000
Subject: [PATCH 6/6] fix: filter capabilities in the messages that end or
 continue AUTHENTICATE and IDLE

The continuation requests and statuses received during AUTHENTICATE and
IDLE were forwarded to the client with capabilities the proxy cannot
support.
---
 proxy/src/proxy.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/proxy/src/proxy.rs b/proxy/src/proxy.rs
index 97a871c..3e61413 100644
--- a/proxy/src/proxy.rs
+++ b/proxy/src/proxy.rs
@@ -396,20 +396,24 @@ fn handle_server_event(
             trace!(role = "p2s", ?handle, "--->");
         }
         client::Event::AuthenticateContinuationRequestReceived {
-            continuation_request,
+            mut continuation_request,
             ..
         } => {
             trace!(role = "s2p", authenticate_continuation_request=%format!("{:?}", continuation_request).blue(), "<--|");
 
+            util::filter_capabilities_in_continuation(&mut continuation_request);
+
             let Ok(handle) = client_to_proxy.authenticate_continue(continuation_request) else {
                 error!(role = "s2p", "Unexpected authenticate continuation request");
                 return ControlFlow::Abort;
             };
             trace!(role = "p2c", ?handle, "authenticate_continue");
         }
-        client::Event::AuthenticateStatusReceived { status, .. } => {
+        client::Event::AuthenticateStatusReceived { mut status, .. } => {
             trace!(role = "s2p", authenticate_status=%format!("{:?}", status).blue(), "<--|");
 
+            util::filter_capabilities_in_status(&mut status);
+
             let Ok(handle) = client_to_proxy.authenticate_finish(status) else {
                 error!(role = "s2p", "Unexpected authenticate status");
                 return ControlFlow::Abort;
@@ -447,7 +451,7 @@ fn handle_server_event(
         }
         client::Event::IdleAccepted {
             handle,
-            continuation_request,
+            mut continuation_request,
         } => {
             trace!(
                 role = "s2p",
@@ -456,15 +460,19 @@ fn handle_server_event(
                 "<--|"
             );
 
+            util::filter_capabilities_in_continuation(&mut continuation_request);
+
             let Ok(handle) = client_to_proxy.idle_accept(continuation_request) else {
                 error!(role = "s2p", "Unexpected idle continuation request");
                 return ControlFlow::Abort;
             };
             trace!(role = "p2c", ?handle, "idle_accept");
         }
-        client::Event::IdleRejected { handle, status } => {
+        client::Event::IdleRejected { handle, mut status } => {
             trace!(role = "s2p", ?handle, idle_rejected_status=%format!("{:?}", status).blue(), "<--|");
 
+            util::filter_capabilities_in_status(&mut status);
+
             let Ok(handle) = client_to_proxy.idle_reject(status) else {
                 error!(role = "s2p", "Unexpected idle status");
                 return ControlFlow::Abort;
-- 
2.43.0

