From c2dbd1465dbe804adc60769f800f18b5db349de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:27 +0000
Subject: [PATCH 01/19] fix: count all bytes of a partially written stream
 message

A partial write overwrote the count of earlier partial writes,
so the next write resumed at the wrong offset and repeated bytes.
---
 src/transport/stream/transport.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/transport/stream/transport.rs b/src/transport/stream/transport.rs
index 722a8f4..cdab6c5 100644
--- a/src/transport/stream/transport.rs
+++ b/src/transport/stream/transport.rs
@@ -235,10 +235,10 @@ where
 		while this.bytes_written < FRAMED_HEADER_LEN + body.len() {
 			let stream = Pin::new(&mut this.stream);
 			if this.bytes_written < FRAMED_HEADER_LEN {
-				this.bytes_written = ready!(stream.poll_write_vectored(context, &[IoSlice::new(&header_buffer[this.bytes_written..]), IoSlice::new(&body.data)]))
+				this.bytes_written += ready!(stream.poll_write_vectored(context, &[IoSlice::new(&header_buffer[this.bytes_written..]), IoSlice::new(&body.data)]))
 					.map_err(TransportError::new_fatal)?;
 			} else {
-				this.bytes_written = ready!(stream.poll_write_vectored(context, &[IoSlice::new(&body.data[this.bytes_written - FRAMED_HEADER_LEN..])]))
+				this.bytes_written += ready!(stream.poll_write_vectored(context, &[IoSlice::new(&body.data[this.bytes_written - FRAMED_HEADER_LEN..])]))
 					.map_err(TransportError::new_fatal)?;
 			}
 		}
-- 
2.43.0


From 422d3e6aa099f1919db4caab3fb3eac04683da29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:27 +0000
Subject: [PATCH 02/19] fix: reject stream frames that are too short to hold a
 header

A length field below 12 underflowed while computing the body length:
a panic in debug builds, and a huge body length in release builds.
---
 src/transport/stream/transport.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/transport/stream/transport.rs b/src/transport/stream/transport.rs
index cdab6c5..260a6f6 100644
--- a/src/transport/stream/transport.rs
+++ b/src/transport/stream/transport.rs
@@ -4,7 +4,7 @@ use std::task::{Context, Poll};
 use tokio::io::{AsyncRead, AsyncWrite};
 
 use super::{StreamBody, StreamConfig};
-use crate::error::private::check_payload_too_large;
+use crate::error::private::{check_message_too_short, check_payload_too_large};
 use crate::transport::{TransportError, Endian};
 use crate::{Message, MessageHeader};
 
@@ -180,6 +180,8 @@ where
 			if this.bytes_read == FRAMED_HEADER_LEN {
 				// Parse frame and header.
 				let length = this.endian.read_u32(&this.header_buffer[0..]);
+				check_message_too_short(length as usize)
+					.map_err(TransportError::new_fatal)?;
 				this.parsed_header = MessageHeader::decode(&this.header_buffer[4..], this.endian)
 					.map_err(TransportError::new_fatal)?;
 
-- 
2.43.0


From d7eac8193d9f9a6d7a229f5038368699db363838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:27 +0000
Subject: [PATCH 03/19] fix: refuse stream bodies that do not fit in the frame
 length field

With a write limit above MAX_PAYLOAD_LEN, the frame length could wrap around.
---
 src/transport/stream/transport.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/transport/stream/transport.rs b/src/transport/stream/transport.rs
index 260a6f6..335dd12 100644
--- a/src/transport/stream/transport.rs
+++ b/src/transport/stream/transport.rs
@@ -6,7 +6,7 @@ use tokio::io::{AsyncRead, AsyncWrite};
 use super::{StreamBody, StreamConfig};
 use crate::error::private::{check_message_too_short, check_payload_too_large};
 use crate::transport::{TransportError, Endian};
-use crate::{Message, MessageHeader};
+use crate::{Message, MessageHeader, MAX_PAYLOAD_LEN};
 
 /// Length of a message frame and header.
 const FRAMED_HEADER_LEN: usize = 4 + crate::HEADER_LEN as usize;
@@ -222,7 +222,8 @@ where
 		let this = self.get_mut();
 
 		// Make sure the body length doesn't exceed the maximum.
-		check_payload_too_large(body.len(), this.max_body_len as usize)
+		// The frame length must also fit in the 32 bit length field.
+		check_payload_too_large(body.len(), this.max_body_len.min(MAX_PAYLOAD_LEN) as usize)
 			.map_err(TransportError::new_non_fatal)?;
 
 		// Encode the header if we haven't done that yet.
-- 
2.43.0


From af7813f866d3a16def7513d1a7fbd1585d7fab5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:27 +0000
Subject: [PATCH 04/19] fix: report too large datagrams instead of delivering
 them truncated

The excess bytes of a datagram were silently discarded by the kernel
and the truncated message was delivered as if it was complete.
---
 src/transport/unix/transport.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/transport/unix/transport.rs b/src/transport/unix/transport.rs
index f5fa41f..3d3cfbe 100644
--- a/src/transport/unix/transport.rs
+++ b/src/transport/unix/transport.rs
@@ -150,7 +150,8 @@ mod implementation {
 
 			// Prepare buffers for the message header and body.
 			let mut header_buffer = [0u8; crate::HEADER_LEN as usize];
-			this.body_buffer.resize(this.max_body_len as usize, 0u8);
+			// The body buffer has room for one extra byte to be able to detect bodies that are too large.
+			this.body_buffer.resize(this.max_body_len as usize + 1, 0u8);
 
 			// Prepare a buffer for the ancillary data.
 			// TODO: properly compute size of ancillary buffer.
@@ -182,9 +183,15 @@ mod implementation {
 			let header = MessageHeader::decode(&header_buffer, this.endian)
 				.map_err(TransportError::new_fatal)?;
 
+			// Drop messages that are too large (they have been truncated to fit in the buffer).
+			// The socket is still usable since the whole datagram has been consumed.
+			let body_len = bytes_read - crate::HEADER_LEN as usize;
+			check_payload_too_large(body_len, this.max_body_len as usize)
+				.map_err(TransportError::new_non_fatal)?;
+
 			// Resize the body buffer to the actual body size.
 			let mut body = std::mem::take(&mut this.body_buffer);
-			body.resize(bytes_read - crate::HEADER_LEN as usize, 0);
+			body.resize(body_len, 0);
 
 			Poll::Ready(Ok(Message::new(header, UnixBody::new(body, fds))))
 		}
-- 
2.43.0


From 0776c5ba7afcae7dd244934da98cc90e47049ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:05 +0000
Subject: [PATCH 05/19] fix: enforce the file descriptor limits of Unix
 transports

The limits were only used to size the ancillary data buffer,
which has room for about four times as many file descriptors.
---
 src/transport/unix/transport.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/transport/unix/transport.rs b/src/transport/unix/transport.rs
index 3d3cfbe..7dea726 100644
--- a/src/transport/unix/transport.rs
+++ b/src/transport/unix/transport.rs
@@ -142,6 +142,18 @@ mod implementation {
 	use crate::transport::TransportError;
 	use crate::{Message, MessageHeader, UnixBody};
 
+	/// Check if the number of file descriptors of a message does not exceed the limit.
+	fn check_fd_count(fd_count: usize, max_fds: u32) -> Result<(), std::io::Error> {
+		if fd_count <= max_fds as usize {
+			Ok(())
+		} else {
+			Err(std::io::Error::new(
+				std::io::ErrorKind::Other,
+				format!("too many file descriptors: maximum is {max_fds}, got {fd_count}"),
+			))
+		}
+	}
+
 	impl crate::transport::TransportReadHalf for UnixReadHalf<&tokio_seqpacket::UnixSeqpacket> {
 		type Body = UnixBody;
 
@@ -189,6 +201,10 @@ mod implementation {
 			check_payload_too_large(body_len, this.max_body_len as usize)
 				.map_err(TransportError::new_non_fatal)?;
 
+			// Drop messages with too many file descriptors.
+			check_fd_count(fds.len(), this.max_fds)
+				.map_err(TransportError::new_non_fatal)?;
+
 			// Resize the body buffer to the actual body size.
 			let mut body = std::mem::take(&mut this.body_buffer);
 			body.resize(body_len, 0);
@@ -207,6 +223,10 @@ mod implementation {
 			check_payload_too_large(body.data.len(), this.max_body_len as usize)
 				.map_err(TransportError::new_non_fatal)?;
 
+			// Check the number of outgoing file descriptors.
+			check_fd_count(body.fds.len(), this.max_fds)
+				.map_err(TransportError::new_non_fatal)?;
+
 			// Prepare a buffer for the message header.
 			let mut header_buffer = [0; crate::HEADER_LEN as usize];
 			header.encode(&mut header_buffer, this.endian);
-- 
2.43.0


From cf1e082b055287888863e307084bc09e39c663a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:05 +0000
Subject: [PATCH 06/19] fix: release the ID of requests rejected because the
 read handle is gone

The request stayed registered after the error response,
so reusing its ID gave no response at all.
---
 src/peer.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/peer.rs b/src/peer.rs
index 15f0200..d0da080 100644
--- a/src/peer.rs
+++ b/src/peer.rs
@@ -373,6 +373,9 @@ where
 			Err(mpsc::error::SendError(msg)) => match msg.unwrap() {
 				// Respond to requests with an error.
 				ReceivedMessage::Request(request, _body) => {
+					// Nobody can answer the request anymore, so make the request ID available again.
+					let _: Result<_, _> = self.request_tracker.remove_received_request(request.request_id());
+
 					let error_msg = format!("unexpected request for service {}", request.service_id());
 					let response = Message::error_response(request.request_id(), &error_msg);
 					if self.write_message(&response).await.is_err() {
-- 
2.43.0


From 837e6b72f6aea5e9e45c5d10600a4d5977559a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:05 +0000
Subject: [PATCH 07/19] fix: keep a received request open when writing its
 response fails

The request was already closed before the write,
so after a non-fatal write error the application could not send any other response.
---
 src/peer.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/peer.rs b/src/peer.rs
index d0da080..ba14c17 100644
--- a/src/peer.rs
+++ b/src/peer.rs
@@ -322,11 +322,6 @@ where
 
 	/// Process a SendRawMessage command.
 	async fn send_raw_message(&mut self, command: crate::peer::SendRawMessage<W::Body>) -> LoopFlow {
-		// Remove tracked received requests when we send a response.
-		if command.message.header.message_type.is_response() {
-			let _: Result<_, _> = self.request_tracker.remove_received_request(command.message.header.request_id);
-		}
-
 		// TODO: replace SendRawMessage with specific command for different message types.
 		// Then we can use that to remove the appropriate request from the tracker if result_tx is dropped.
 		// Or just parse the message header to determine which request to remove.
@@ -339,6 +334,11 @@ where
 			return flow;
 		}
 
+		// Remove tracked received requests when we sent a response.
+		if command.message.header.message_type.is_response() {
+			let _: Result<_, _> = self.request_tracker.remove_received_request(command.message.header.request_id);
+		}
+
 		let _: Result<_, _> = command.result_tx.send(Ok(()));
 		LoopFlow::Continue
 	}
-- 
2.43.0


From 1599dcba1fb1c7677fecbd762604a50c49436dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:05 +0000
Subject: [PATCH 08/19] fix: do not send messages for requests that were closed
 while queued

The closed flag was only checked before a message was queued,
so a message could still be sent after the response,
when the request ID may be in use for another request already.
---
 src/peer.rs        | 15 +++++++++++++++
 src/peer_handle.rs |  2 +-
 src/request.rs     |  4 ++--
 3 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/peer.rs b/src/peer.rs
index ba14c17..d872708 100644
--- a/src/peer.rs
+++ b/src/peer.rs
@@ -1,4 +1,5 @@
 use tokio::sync::{mpsc, oneshot};
+use std::sync::{Arc, atomic::{AtomicBool, Ordering}};
 
 use crate::{
 	util,
@@ -8,6 +9,7 @@ use crate::{
 	ReceivedMessage,
 	SentRequestHandle,
 };
+use crate::error::private::InnerError;
 use crate::request_tracker::RequestTracker;
 use crate::util::{select, Either};
 
@@ -329,6 +331,13 @@ where
 		// Actually, should we remove the request if result_tx is dropped?
 		// Needs more thought.
 
+		// The request could have been closed after the command was queued.
+		// In that case, the request ID could have been re-used already.
+		if command.closed.as_ref().map_or(false, |closed| closed.load(Ordering::Acquire)) {
+			let _: Result<_, _> = command.result_tx.send(Err(InnerError::RequestClosed.into()));
+			return LoopFlow::Continue;
+		}
+
 		if let Err((e, flow)) = self.write_message(&command.message).await {
 			let _: Result<_, _> = command.result_tx.send(Err(e));
 			return flow;
@@ -445,6 +454,12 @@ pub struct SendRawMessage<Body> {
 	/// The message to send.
 	pub message: Message<Body>,
 
+	/// The `closed` flag of the request that the message belongs to, if any.
+	///
+	/// The request may be closed while the command is in the queue.
+	/// If that happens, the message must not be sent anymore.
+	pub closed: Option<Arc<AtomicBool>>,
+
 	/// One-shot channel to receive the result of sending the message.
 	pub result_tx: oneshot::Sender<Result<(), Error>>,
 }
diff --git a/src/peer_handle.rs b/src/peer_handle.rs
index afa9058..984a768 100644
--- a/src/peer_handle.rs
+++ b/src/peer_handle.rs
@@ -171,7 +171,7 @@ impl<Body> PeerWriteHandle<Body> {
 		let (result_tx, result_rx) = oneshot::channel();
 		let message = Message::stream(0, service_id, body);
 		self.command_tx
-			.send(SendRawMessage { message, result_tx }.into())
+			.send(SendRawMessage { message, closed: None, result_tx }.into())
 			.map_err(|_| connection_aborted())?;
 
 		result_rx.await.map_err(|_| connection_aborted())?
diff --git a/src/request.rs b/src/request.rs
index 7384523..d2f6532 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -208,7 +208,7 @@ impl<Body> SentRequestWriteHandle<Body> {
 		let (result_tx, result_rx) = oneshot::channel();
 		let message = Message::requester_update(self.request_id, service_id, body);
 		self.command_tx
-			.send(SendRawMessage { message, result_tx }.into())
+			.send(SendRawMessage { message, closed: Some(self.closed.clone()), result_tx }.into())
 			.map_err(|_| connection_aborted())?;
 		result_rx.await.map_err(|_| connection_aborted())??;
 		Ok(())
@@ -328,7 +328,7 @@ impl<Body> ReceivedRequestWriteHandle<Body> {
 
 		let (result_tx, result_rx) = oneshot::channel();
 		self.command_tx
-			.send(SendRawMessage { message, result_tx }.into())
+			.send(SendRawMessage { message, closed: Some(self.closed.clone()), result_tx }.into())
 			.map_err(|_| connection_aborted())?;
 		result_rx.await.map_err(|_| connection_aborted())??;
 		Ok(())
-- 
2.43.0


From 52c35e3ea27695d51ae6c43c384c2732f1251948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:05 +0000
Subject: [PATCH 09/19] fix: keep requests tracked until the response when only
 the read handle is dropped

An update for a request without read handle removed it from the tracker without closing it.
After that, the request ID could be re-used before the response was seen,
and remaining write handles could send any number of responses.
---
 src/request_tracker.rs | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/request_tracker.rs b/src/request_tracker.rs
index 19b6aaa..d23ac1c 100644
--- a/src/request_tracker.rs
+++ b/src/request_tracker.rs
@@ -80,8 +80,7 @@ impl<Body> RequestTracker<Body> {
 	/// Remove a sent request from the tracker.
 	///
 	/// This should be called when a request is finished to make the ID available again.
-	/// Note that sent requests are also removed internally when they receive a response,
-	/// or when they would receive a message but the [`SentRequestHandle`] was dropped.
+	/// Note that sent requests are also removed internally when they receive a response.
 	pub fn remove_sent_request(&mut self, request_id: u32) -> Result<(), Error> {
 		let tracked_request = self.sent_requests.remove(&request_id).ok_or(InnerError::UnknownRequestId { request_id })?;
 
@@ -135,7 +134,6 @@ impl<Body> RequestTracker<Body> {
 	/// Remove a received request from the tracker.
 	///
 	/// This should be called when a request is finished to make the ID available again.
-	/// Note that received requests are also removed internally when they would receive a message but the [`ReceivedRequestHandle`] was dropped.
 	pub fn remove_received_request(&mut self, request_id: u32) -> Result<(), Error> {
 		let tracked_request = self.received_requests.remove(&request_id).ok_or(InnerError::UnknownRequestId { request_id })?;
 
@@ -200,10 +198,10 @@ impl<Body> RequestTracker<Body> {
 		let request_id = message.header.request_id;
 		match self.received_requests.entry(request_id) {
 			Entry::Vacant(_) => Err(InnerError::UnknownRequestId { request_id }.into()),
-			Entry::Occupied(mut entry) => {
-				// If the received_request is dropped, clear the entry.
-				if entry.get_mut().incoming_tx.send(RequestHandleCommand::Message(message)).is_err() {
-					entry.remove();
+			Entry::Occupied(entry) => {
+				// If the received_request is dropped, report an error.
+				// Keep the entry: write handles can still be used to send the response, which closes the request.
+				if entry.get().incoming_tx.send(RequestHandleCommand::Message(message)).is_err() {
 					Err(InnerError::UnknownRequestId { request_id }.into())
 				} else {
 					Ok(())
@@ -216,10 +214,10 @@ impl<Body> RequestTracker<Body> {
 		let request_id = message.header.request_id;
 		match self.sent_requests.entry(request_id) {
 			Entry::Vacant(_) => Err(InnerError::UnknownRequestId { request_id }.into()),
-			Entry::Occupied(mut entry) => {
-				// If the sent_request is dropped, clear the entry.
-				if entry.get_mut().incoming_tx.send(RequestHandleCommand::Message(message)).is_err() {
-					entry.remove();
+			Entry::Occupied(entry) => {
+				// If the sent_request is dropped, report an error.
+				// Keep the entry: the request ID is in use until the remote peer sends the response.
+				if entry.get().incoming_tx.send(RequestHandleCommand::Message(message)).is_err() {
 					Err(InnerError::UnknownRequestId { request_id }.into())
 				} else {
 					Ok(())
-- 
2.43.0


From b4ce20d36d1d2bf8f23a94eafca2136072d39eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:27 +0000
Subject: [PATCH 10/19] fix: make close handles clonable for all body types

The derived Clone implementation required the body type to implement Clone,
so the close handle of a Unix seqpacket peer could not be cloned.
---
 src/peer_handle.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/peer_handle.rs b/src/peer_handle.rs
index 984a768..660a8db 100644
--- a/src/peer_handle.rs
+++ b/src/peer_handle.rs
@@ -57,7 +57,6 @@ pub struct PeerWriteHandle<Body> {
 ///
 /// The peer handle can be cloned and moved independent from the [`PeerReadHandle`] or [`PeerWriteHandle`] it was created from.
 /// It does not keep the peer loop running if all other handle types are dropped.
-#[derive(Clone)]
 pub struct PeerCloseHandle<Body> {
 	/// Channel for sending commands to the peer loop.
 	///
@@ -219,6 +218,14 @@ impl<Body> PeerCloseHandle<Body> {
 	}
 }
 
+impl<Body> Clone for PeerCloseHandle<Body> {
+	fn clone(&self) -> Self {
+		Self {
+			command_tx: self.command_tx.clone(),
+		}
+	}
+}
+
 impl<Body> std::fmt::Debug for PeerHandle<Body> {
 	fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
 		f.debug_struct(core::any::type_name::<Self>())
-- 
2.43.0


From 3a4009b6cbfbe77fb0beceaa4648dfe19fd1e8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:27 +0000
Subject: [PATCH 11/19] fix: keep accepting connections if a client is already
 gone

Listener::run() ended with an error if the peer information of a single connection could not be retrieved,
for example because the client reset the connection before it was accepted.
---
 src/listener.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/listener.rs b/src/listener.rs
index 8104683..969f62e 100644
--- a/src/listener.rs
+++ b/src/listener.rs
@@ -100,7 +100,14 @@ impl<Socket: ListeningSocket> Listener<Socket> {
 	{
 		let mut task = task;
 		loop {
-			let (peer, info) = self.accept().await?;
+			let (connection, _addr) = self.listener.accept().await?;
+			let transport = Socket::into_transport(connection, self.config.clone());
+			let info = match Socket::transport_info(&transport) {
+				Ok(info) => info,
+				// Only this connection is unusable (the client may already be gone), so keep accepting others.
+				Err(_) => continue,
+			};
+			let peer = Socket::spawn(transport);
 			let join_handle = tokio::spawn((task)(peer, info));
 			// TODO: keep join handles around so we can await them later.
 			// If we do, we should also clean them from time to time though.
-- 
2.43.0


From 552185950e81cfa3617af71286e32a9155500267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:56 +0000
Subject: [PATCH 12/19] fix: reject service ID -1 in interface definitions

A success response carries the service ID of the service, and -1 marks an error response,
so clients would see every success response of such a service as an error.
---
 macros/src/interface/parse.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/macros/src/interface/parse.rs b/macros/src/interface/parse.rs
index 44b3589..aa86bbc 100644
--- a/macros/src/interface/parse.rs
+++ b/macros/src/interface/parse.rs
@@ -315,8 +315,13 @@ pub mod cooked {
 				response_updates.remove(i);
 			}
 
+			let service_id = parse_i32(errors, raw.service_id);
+			if service_id.value == -1 {
+				errors.push(syn::Error::new(service_id.span, "service ID -1 is reserved for error responses"));
+			}
+
 			Self {
-				service_id: parse_i32(errors, raw.service_id),
+				service_id,
 				name: raw.name,
 				doc: attrs.doc,
 				hidden: attrs.hidden,
-- 
2.43.0


From 3143e88530c74dfe6e13ff05f4af34ef326b1984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:15 +0000
Subject: [PATCH 13/19] fix: do not delete a symbolic link when binding a unix
 listener

The old socket was looked up through symbolic links, so a link to a socket was
removed although the file at the address is not a socket.
---
 src/transport/stream/mod.rs | 2 +-
 src/transport/unix/mod.rs   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/transport/stream/mod.rs b/src/transport/stream/mod.rs
index cdda80a..8fbca5c 100644
--- a/src/transport/stream/mod.rs
+++ b/src/transport/stream/mod.rs
@@ -103,7 +103,7 @@ mod impl_unix_stream {
 			use std::os::unix::fs::FileTypeExt;
 
 			// Try to unlink the socket before binding it, ignoring errors.
-			if let Ok(metadata) = std::fs::metadata(&address) {
+			if let Ok(metadata) = std::fs::symlink_metadata(&address) {
 				if metadata.file_type().is_socket() {
 					let _ = std::fs::remove_file(&address);
 				}
diff --git a/src/transport/unix/mod.rs b/src/transport/unix/mod.rs
index 08501f2..9318981 100644
--- a/src/transport/unix/mod.rs
+++ b/src/transport/unix/mod.rs
@@ -103,7 +103,7 @@ mod impl_unix_seqpacket {
 			use std::os::unix::fs::FileTypeExt;
 
 			// Try to unlink the socket before binding it, ignoring errors.
-			if let Ok(metadata) = std::fs::metadata(&address) {
+			if let Ok(metadata) = std::fs::symlink_metadata(&address) {
 				if metadata.file_type().is_socket() {
 					let _ = std::fs::remove_file(&address);
 				}
-- 
2.43.0


From 5aef60456b61c29e95fb04bd23952b72d7cc2fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:39 +0000
Subject: [PATCH 14/19] fix: name the right variant in the Debug output of
 RecvMessageError

---
 src/error.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 7a772c9..33c2e99 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -250,8 +250,8 @@ impl<Body> std::fmt::Debug for RecvMessageError<Body> {
 		match self {
 			Self::Other(e) => f.debug_tuple("Other").field(e).finish(),
 			Self::UnknownStream(message) => f.debug_tuple("UnknownStream").field(message).finish(),
-			Self::UnknownRequest(request, _body) => f.debug_tuple("UnknownStream").field(request).finish(),
-			Self::InvalidStream(header, error) => f.debug_tuple("InvalidStread").field(header).field(error).finish(),
+			Self::UnknownRequest(request, _body) => f.debug_tuple("UnknownRequest").field(request).finish(),
+			Self::InvalidStream(header, error) => f.debug_tuple("InvalidStream").field(header).field(error).finish(),
 			Self::InvalidRequest(request, error) => f.debug_tuple("InvalidRequest").field(request).field(error).finish(),
 		}
 	}
-- 
2.43.0


From a271913b867a714a9c4040a1fb6b8e5dc994ca9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:03 +0000
Subject: [PATCH 15/19] fix: give mutable access where stream_mut() and
 socket_mut() promise it

---
 src/transport/stream/transport.rs | 6 +++---
 src/transport/unix/transport.rs   | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/transport/stream/transport.rs b/src/transport/stream/transport.rs
index 335dd12..3183090 100644
--- a/src/transport/stream/transport.rs
+++ b/src/transport/stream/transport.rs
@@ -85,7 +85,7 @@ where
 	}
 
 	/// Get direct mutable access to the underlying stream.
-	pub fn stream_mut(&mut self) -> &Stream {
+	pub fn stream_mut(&mut self) -> &mut Stream {
 		&mut self.stream
 	}
 
@@ -117,7 +117,7 @@ impl<ReadStream> StreamReadHalf<ReadStream> {
 
 	/// Get direct mutable access to the underlying stream.
 	#[allow(dead_code)] // Not used when transports are disabled.
-	pub fn stream_mut(&mut self) -> &ReadStream {
+	pub fn stream_mut(&mut self) -> &mut ReadStream {
 		&mut self.stream
 	}
 }
@@ -142,7 +142,7 @@ impl<WriteStream> StreamWriteHalf<WriteStream> {
 
 	/// Get direct mutable access to the underlying stream.
 	#[allow(dead_code)] // Not used when transports are disabled.
-	pub fn stream_mut(&mut self) -> &WriteStream {
+	pub fn stream_mut(&mut self) -> &mut WriteStream {
 		&mut self.stream
 	}
 }
diff --git a/src/transport/unix/transport.rs b/src/transport/unix/transport.rs
index 7dea726..2e40c26 100644
--- a/src/transport/unix/transport.rs
+++ b/src/transport/unix/transport.rs
@@ -66,7 +66,7 @@ where
 	}
 
 	/// Get direct mutable access to the underlying socket.
-	pub fn socket_mut(&mut self) -> &Socket {
+	pub fn socket_mut(&mut self) -> &mut Socket {
 		&mut self.socket
 	}
 
@@ -96,7 +96,7 @@ impl<SocketReadHalf> UnixReadHalf<SocketReadHalf> {
 
 	/// Get direct mutable access to the underlying socket.
 	#[allow(dead_code)] // Not used when transports are disabled.
-	pub fn socket_mut(&mut self) -> &SocketReadHalf {
+	pub fn socket_mut(&mut self) -> &mut SocketReadHalf {
 		&mut self.socket
 	}
 }
@@ -120,7 +120,7 @@ impl<SocketWriteHalf> UnixWriteHalf<SocketWriteHalf> {
 
 	/// Get direct mutable access to the underlying socket.
 	#[allow(dead_code)] // Not used when transports are disabled.
-	pub fn socket_mut(&mut self) -> &SocketWriteHalf {
+	pub fn socket_mut(&mut self) -> &mut SocketWriteHalf {
 		&mut self.socket
 	}
 }
-- 
2.43.0


From 501abb301cff3b2d695b1bab90f8ad682898e2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:16 +0000
Subject: [PATCH 16/19] fix: let the generated inner_mut() functions give an
 exclusive reference

---
 macros/src/interface/generate/services.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/macros/src/interface/generate/services.rs b/macros/src/interface/generate/services.rs
index c105baf..3f52f03 100644
--- a/macros/src/interface/generate/services.rs
+++ b/macros/src/interface/generate/services.rs
@@ -209,8 +209,8 @@ fn generate_sent_request(item_tokens: &mut TokenStream, fizyr_rpc: &syn::Ident,
 			}
 
 			/// Get an exclusive reference to the raw request.
-			pub fn inner_mut(&self) -> &#fizyr_rpc::SentRequestHandle<F::Body> {
-				&self.request
+			pub fn inner_mut(&mut self) -> &mut #fizyr_rpc::SentRequestHandle<F::Body> {
+				&mut self.request
 			}
 
 			/// Consume this object to get the raw request.
@@ -250,8 +250,8 @@ fn generate_sent_request(item_tokens: &mut TokenStream, fizyr_rpc: &syn::Ident,
 			}
 
 			/// Get an exclusive reference to the raw request.
-			pub fn inner_mut(&self) -> &#fizyr_rpc::SentRequestWriteHandle<F::Body> {
-				&self.request
+			pub fn inner_mut(&mut self) -> &mut #fizyr_rpc::SentRequestWriteHandle<F::Body> {
+				&mut self.request
 			}
 
 			/// Consume this object to get the raw request.
@@ -358,8 +358,8 @@ fn generate_received_request(item_tokens: &mut TokenStream, fizyr_rpc: &syn::Ide
 			///
 			/// Note that the request body has been consumed when it was parsed.
 			/// As a result, the raw request always has an empty body.
-			pub fn inner_mut(&self) -> &#fizyr_rpc::ReceivedRequestHandle<F::Body> {
-				&self.request
+			pub fn inner_mut(&mut self) -> &mut #fizyr_rpc::ReceivedRequestHandle<F::Body> {
+				&mut self.request
 			}
 
 			/// Consume this object to get the raw request.
@@ -408,8 +408,8 @@ fn generate_received_request(item_tokens: &mut TokenStream, fizyr_rpc: &syn::Ide
 			///
 			/// Note that the request body has been consumed when it was parsed.
 			/// As a result, the raw request always has an empty body.
-			pub fn inner_mut(&self) -> &#fizyr_rpc::ReceivedRequestWriteHandle<F::Body> {
-				&self.request
+			pub fn inner_mut(&mut self) -> &mut #fizyr_rpc::ReceivedRequestWriteHandle<F::Body> {
+				&mut self.request
 			}
 
 			/// Consume this object to get the raw request.
-- 
2.43.0


From 691ef8b53387d5d4a9786da2b47f4d63724736db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:46 +0000
Subject: [PATCH 17/19] fix: give the generated StreamMessage the visibility of
 the interface

---
 macros/src/interface/generate/message_enum.rs | 4 ++--
 macros/src/interface/generate/services.rs     | 2 ++
 macros/src/interface/generate/streams.rs      | 1 +
 3 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/macros/src/interface/generate/message_enum.rs b/macros/src/interface/generate/message_enum.rs
index a312345..b1f270e 100644
--- a/macros/src/interface/generate/message_enum.rs
+++ b/macros/src/interface/generate/message_enum.rs
@@ -6,7 +6,7 @@ use crate::interface::parse::cooked::MessageDefinition;
 use super::{to_upper_camel_case, to_doc_attrs};
 
 /// Generate an enum with all possible body types for a message.
-pub fn generate_message_enum(item_tokens: &mut TokenStream, fizyr_rpc: &syn::Ident, messages: &[impl MessageDefinition], enum_name: &syn::Ident, enum_doc: &str) {
+pub fn generate_message_enum(item_tokens: &mut TokenStream, fizyr_rpc: &syn::Ident, visibility: &syn::Visibility, messages: &[impl MessageDefinition], enum_name: &syn::Ident, enum_doc: &str) {
 	let mut variants = TokenStream::new();
 	let mut from_message = TokenStream::new();
 	let mut to_message = TokenStream::new();
@@ -89,7 +89,7 @@ pub fn generate_message_enum(item_tokens: &mut TokenStream, fizyr_rpc: &syn::Ide
 	item_tokens.extend(quote! {
 		#[doc = #enum_doc]
 		#[derive(Debug)]
-		pub enum #enum_name {
+		#visibility enum #enum_name {
 			#variants
 		}
 
diff --git a/macros/src/interface/generate/services.rs b/macros/src/interface/generate/services.rs
index 3f52f03..35b2881 100644
--- a/macros/src/interface/generate/services.rs
+++ b/macros/src/interface/generate/services.rs
@@ -144,6 +144,7 @@ fn generate_sent_request(item_tokens: &mut TokenStream, fizyr_rpc: &syn::Ident,
 		generate_message_enum(
 			item_tokens,
 			fizyr_rpc,
+			&syn::parse_quote!(pub),
 			service.request_updates(),
 			&syn::Ident::new("RequestUpdate", Span::call_site()),
 			&format!("A request update for the {} service", service.name()),
@@ -155,6 +156,7 @@ fn generate_sent_request(item_tokens: &mut TokenStream, fizyr_rpc: &syn::Ident,
 		generate_message_enum(
 			item_tokens,
 			fizyr_rpc,
+			&syn::parse_quote!(pub),
 			service.response_updates(),
 			&syn::Ident::new("ResponseUpdate", Span::call_site()),
 			&format!("A response update for the {} service", service.name()),
diff --git a/macros/src/interface/generate/streams.rs b/macros/src/interface/generate/streams.rs
index cb42a28..d0f65ba 100644
--- a/macros/src/interface/generate/streams.rs
+++ b/macros/src/interface/generate/streams.rs
@@ -11,6 +11,7 @@ pub fn generate_streams(item_tokens: &mut TokenStream, client_impl_tokens: &mut
 		generate_message_enum(
 			item_tokens,
 			fizyr_rpc,
+			interface.visibility(),
 			interface.streams(),
 			&syn::Ident::new("StreamMessage", Span::call_site()),
 			&format!("A stream message for the {} interface.", interface.name()),
-- 
2.43.0


From ca9da5a91244ffda4981901afeee8b4aaf30431e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:17 +0000
Subject: [PATCH 18/19] fix: read the length of the right message in the
 Wireshark dissector

A TCP segment can hold more than one message. The length function always read
the length of the first one.
---
 wireshark/fizyr-rpc.lua | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wireshark/fizyr-rpc.lua b/wireshark/fizyr-rpc.lua
index d1d101b..0823c08 100644
--- a/wireshark/fizyr-rpc.lua
+++ b/wireshark/fizyr-rpc.lua
@@ -66,7 +66,7 @@ do
 	end
 
 	function fizyr_rpc_tcp_get_length(buffer, pinfo, offset)
-		return 4 + buffer(0, 4):le_uint()
+		return 4 + buffer(offset, 4):le_uint()
 	end
 
 	function fizyr_rpc_tcp_dissect_reassembled(buffer, pinfo, tree)
-- 
2.43.0


From 48be78b9ca59b3294e205c8a19cb0e6d0a1a564d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:17 +0000
Subject: [PATCH 19/19] fix: make the UDP dissector for Wireshark run

It added its fields to a variable that does not exist, and showed a field
object instead of the length of the datagram.
---
 wireshark/fizyr-rpc.lua | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/wireshark/fizyr-rpc.lua b/wireshark/fizyr-rpc.lua
index 0823c08..e3cc90e 100644
--- a/wireshark/fizyr-rpc.lua
+++ b/wireshark/fizyr-rpc.lua
@@ -79,7 +79,9 @@ do
 	end
 
 	function fizyr_rpc_udp_proto.dissector(buffer, pinfo, tree)
-		subtree:add_le(field_length,     udp_length())
+		local subtree = tree:add(fizyr_rpc_udp_proto, buffer)
+		-- The UDP length includes the 8 bytes of the UDP header.
+		subtree:add(field_length,        udp_length().value - 8)
 		subtree:add_le(field_kind,       buffer(0, 4))
 		subtree:add_le(field_request_id, buffer(4, 4))
 		subtree:add_le(field_service_id, buffer(8, 4))
-- 
2.43.0

