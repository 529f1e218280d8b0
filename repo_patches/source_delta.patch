From cbe4501b7dc6c0e7aa9abe5740e0359fc999271f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:10 +0000
Subject: [PATCH 01/19] fix: wake the connection task when a stream is added to
 existing ones

`SelectAll` does not wake its task when a stream is pushed. The waker was
only remembered while there were no streams at all, so with at least one
existing stream the frames of a stream opened by another task stayed unsent
until something else happened to wake the connection.
---
 yamux/src/connection.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/yamux/src/connection.rs b/yamux/src/connection.rs
index ee17d39..551cf55 100644
--- a/yamux/src/connection.rs
+++ b/yamux/src/connection.rs
@@ -451,10 +451,11 @@ impl<T: AsyncRead + AsyncWrite + Unpin> Active<T> {
                         };
                         continue;
                     }
-                    Poll::Ready(None) => {
+                    // `SelectAll` does not wake us when a stream is added to it, thus remember
+                    // our waker even if there are already other streams.
+                    Poll::Ready(None) | Poll::Pending => {
                         self.no_streams_waker = Some(cx.waker().clone());
                     }
-                    Poll::Pending => {}
                 }
             }
 
-- 
2.43.0


From 2713e83136b761094ccd7a5e50e9a297275ce046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:23 +0000
Subject: [PATCH 02/19] fix: open a stream that is closed before anything was
 written

Closing an outbound stream which was never written to sent a FIN for a
stream the remote had never heard of, so the remote neither learned of the
stream nor of its end. Let the closing frame carry the SYN flag.
---
 yamux/src/connection/stream.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/yamux/src/connection/stream.rs b/yamux/src/connection/stream.rs
index 6eb6dd4..8b6fcd4 100644
--- a/yamux/src/connection/stream.rs
+++ b/yamux/src/connection/stream.rs
@@ -415,14 +415,18 @@ impl AsyncWrite for Stream {
             .sender
             .poll_ready(cx)
             .map_err(|_| self.write_zero_err())?);
-        let ack = if self.flag == Flag::Ack {
-            self.flag = Flag::None;
-            true
+        let flag = std::mem::replace(&mut self.flag, Flag::None);
+        log::trace!("{}/{}: close", self.conn, self.id);
+        let cmd = if flag == Flag::Syn {
+            // Nothing has been sent yet, the remote does not know about this stream.
+            let mut frame = Frame::close_stream(self.id, false).left();
+            frame.header_mut().syn();
+            StreamCommand::SendFrame(frame)
         } else {
-            false
+            StreamCommand::CloseStream {
+                ack: flag == Flag::Ack,
+            }
         };
-        log::trace!("{}/{}: close", self.conn, self.id);
-        let cmd = StreamCommand::CloseStream { ack };
         self.sender
             .start_send(cmd)
             .map_err(|_| self.write_zero_err())?;
-- 
2.43.0


From cb8de224f7f3e80d99a3dd1b5c7c444d7a156352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:34 +0000
Subject: [PATCH 03/19] fix: an ACK sent with a window update acknowledges the
 stream

`is_pending_ack` of an inbound stream stayed true when the ACK flag had been
sent with a window update instead of a data frame.
---
 yamux/src/connection/stream.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/yamux/src/connection/stream.rs b/yamux/src/connection/stream.rs
index 8b6fcd4..dc9c929 100644
--- a/yamux/src/connection/stream.rs
+++ b/yamux/src/connection/stream.rs
@@ -229,6 +229,13 @@ impl Stream {
 
         let mut frame = Frame::window_update(self.id, credit).right();
         self.add_flag(frame.header_mut());
+
+        // The window update is as good an acknowledgement as a data frame, see `poll_write`.
+        if frame.header().flags().contains(ACK) {
+            self.shared()
+                .update_state(self.conn, self.id, State::Open { acknowledged: true });
+        }
+
         let cmd = StreamCommand::SendFrame(frame);
         self.sender
             .start_send(cmd)
-- 
2.43.0


From 008ffd509289034323592ccce4b5f68aaf2ef43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:55 +0000
Subject: [PATCH 04/19] fix: report a write error instead of writing to the
 failed transport again

The result of `poll_ready` was ignored, so after a failed write a new frame
replaced the partially written one and the transport was written to again.
---
 yamux/src/connection.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yamux/src/connection.rs b/yamux/src/connection.rs
index 551cf55..0ba6a1b 100644
--- a/yamux/src/connection.rs
+++ b/yamux/src/connection.rs
@@ -400,7 +400,7 @@ impl<T: AsyncRead + AsyncWrite + Unpin> Active<T> {
 
     fn poll(&mut self, cx: &mut Context<'_>) -> Poll<Result<Stream>> {
         loop {
-            if self.socket.poll_ready_unpin(cx).is_ready() {
+            if self.socket.poll_ready_unpin(cx)?.is_ready() {
                 // Note `next_ping` does not register a waker and thus if not called regularly (idle
                 // connection) no ping is sent. This is deliberate as an idle connection does not
                 // need RTT measurements to increase its stream receive window.
-- 
2.43.0


From 4a01b232b797c693a1ee684c863797099d296874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:55 +0000
Subject: [PATCH 05/19] fix: closing a connection ends its streams

`Active::close` forgot about the streams without marking them closed and
without waking their readers and writers, which then waited forever.
---
 yamux/src/connection.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/yamux/src/connection.rs b/yamux/src/connection.rs
index 0ba6a1b..fee3677 100644
--- a/yamux/src/connection.rs
+++ b/yamux/src/connection.rs
@@ -380,7 +380,10 @@ impl<T: AsyncRead + AsyncWrite + Unpin> Active<T> {
     }
 
     /// Gracefully close the connection to the remote.
-    fn close(self) -> Closing<T> {
+    fn close(mut self) -> Closing<T> {
+        // Nothing will be received anymore, do not leave readers and writers waiting.
+        self.drop_all_streams();
+
         let pending_frames = self
             .pending_read_frame
             .into_iter()
-- 
2.43.0


From b54b8f32fa5b0fb7077a5108b1a723e9a85e0c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:40 +0000
Subject: [PATCH 06/19] fix: wake a waiting open whenever the ACK backlog
 shrinks

Only an ACK woke the task waiting in `poll_new_outbound`. Resetting, closing
or dropping an unacknowledged stream, or the end of the connection, left it
waiting although it could proceed.
---
 yamux/src/connection.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/yamux/src/connection.rs b/yamux/src/connection.rs
index fee3677..8905620 100644
--- a/yamux/src/connection.rs
+++ b/yamux/src/connection.rs
@@ -489,6 +489,11 @@ impl<T: AsyncRead + AsyncWrite + Unpin> Active<T> {
                 }
             }
 
+            // Apart from an ACK, a reset or the (half-)closing of a stream also reduces the backlog.
+            if self.new_outbound_stream_waker.is_some() && self.ack_backlog() < MAX_ACK_BACKLOG {
+                self.wake_new_outbound();
+            }
+
             // If we make it this far, at least one of the above must have registered a waker.
             return Poll::Pending;
         }
@@ -584,9 +589,7 @@ impl<T: AsyncRead + AsyncWrite + Unpin> Active<T> {
                     .lock()
                     .update_state(self.id, id, State::Open { acknowledged: true });
             }
-            if let Some(waker) = self.new_outbound_stream_waker.take() {
-                waker.wake();
-            }
+            self.wake_new_outbound();
         }
 
         let action = match frame.header().tag() {
@@ -912,5 +915,13 @@ impl<T> Active<T> {
                 w.wake()
             }
         }
+        self.wake_new_outbound();
+    }
+
+    /// Wake the task waiting to open a new outbound stream, if any.
+    fn wake_new_outbound(&mut self) {
+        if let Some(waker) = self.new_outbound_stream_waker.take() {
+            waker.wake();
+        }
     }
 }
-- 
2.43.0


From 13d536d9264a973f3ae079672a3910735e0f3ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:40 +0000
Subject: [PATCH 07/19] fix: fail to open streams while the connection is
 closing

`poll_new_outbound` drove the closing connection with its own waker, which
replaced the waker of the task waiting in `poll_close`, so that task was not
woken when the transport became writable again.
---
 yamux/src/connection.rs | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/yamux/src/connection.rs b/yamux/src/connection.rs
index 8905620..1af991c 100644
--- a/yamux/src/connection.rs
+++ b/yamux/src/connection.rs
@@ -113,20 +113,11 @@ impl<T: AsyncRead + AsyncWrite + Unpin> Connection<T> {
                         continue;
                     }
                 },
-                ConnectionState::Closing(mut inner) => match inner.poll_unpin(cx) {
-                    Poll::Ready(Ok(())) => {
-                        self.inner = ConnectionState::Closed;
-                        return Poll::Ready(Err(ConnectionError::Closed));
-                    }
-                    Poll::Ready(Err(e)) => {
-                        self.inner = ConnectionState::Closed;
-                        return Poll::Ready(Err(e));
-                    }
-                    Poll::Pending => {
-                        self.inner = ConnectionState::Closing(inner);
-                        return Poll::Pending;
-                    }
-                },
+                ConnectionState::Closing(inner) => {
+                    // Leave it to `poll_close` to make progress, its task must stay registered.
+                    self.inner = ConnectionState::Closing(inner);
+                    return Poll::Ready(Err(ConnectionError::Closed));
+                }
                 ConnectionState::Cleanup(mut inner) => match inner.poll_unpin(cx) {
                     Poll::Ready(e) => {
                         self.inner = ConnectionState::Closed;
-- 
2.43.0


From b2704cfc06475a328743c4a31bfefdefdfb9a0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:40 +0000
Subject: [PATCH 08/19] fix: wake a writer waiting for queue room when its
 stream is reset

---
 yamux/src/connection/stream.rs | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/yamux/src/connection/stream.rs b/yamux/src/connection/stream.rs
index dc9c929..2aa2bf7 100644
--- a/yamux/src/connection/stream.rs
+++ b/yamux/src/connection/stream.rs
@@ -211,6 +211,20 @@ impl Stream {
         }
     }
 
+    /// Wait for the queue of commands to have room, or for the stream to be closed.
+    fn poll_sender_ready(&mut self, cx: &mut Context) -> Poll<io::Result<()>> {
+        if let Poll::Ready(result) = self.sender.poll_ready(cx) {
+            return Poll::Ready(result.map_err(|_| self.write_zero_err()));
+        }
+        // The transport may be blocked for long, a reset of the stream has to wake us too.
+        let mut shared = self.shared();
+        if shared.state() == State::Closed {
+            return Poll::Ready(Ok(()));
+        }
+        shared.writer = Some(cx.waker().clone());
+        Poll::Pending
+    }
+
     /// Send new credit to the sending side via a window update message if
     /// permitted.
     fn send_window_update(&mut self, cx: &mut Context) -> Poll<io::Result<()>> {
@@ -365,10 +379,7 @@ impl AsyncWrite for Stream {
         cx: &mut Context,
         buf: &[u8],
     ) -> Poll<io::Result<usize>> {
-        ready!(self
-            .sender
-            .poll_ready(cx)
-            .map_err(|_| self.write_zero_err())?);
+        ready!(self.poll_sender_ready(cx))?;
         let body = {
             let mut shared = self.shared();
             if !shared.state().can_write() {
@@ -418,10 +429,10 @@ impl AsyncWrite for Stream {
         if self.is_closed() {
             return Poll::Ready(Ok(()));
         }
-        ready!(self
-            .sender
-            .poll_ready(cx)
-            .map_err(|_| self.write_zero_err())?);
+        ready!(self.poll_sender_ready(cx))?;
+        if self.is_closed() {
+            return Poll::Ready(Ok(()));
+        }
         let flag = std::mem::replace(&mut self.flag, Flag::None);
         log::trace!("{}/{}: close", self.conn, self.id);
         let cmd = if flag == Flag::Syn {
-- 
2.43.0


From b774f9bba3ef4c8332cf85873eeb85a11363b613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:06 +0000
Subject: [PATCH 09/19] fix: keep reading while a pong waits to be written

---
 yamux/src/connection.rs | 20 +++++++++++---------
 yamux/src/lib.rs        |  6 ++++++
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/yamux/src/connection.rs b/yamux/src/connection.rs
index 1af991c..350ce56 100644
--- a/yamux/src/connection.rs
+++ b/yamux/src/connection.rs
@@ -26,7 +26,7 @@ use crate::{
     frame::{self, Frame},
     Config, DEFAULT_CREDIT,
 };
-use crate::{Result, MAX_ACK_BACKLOG};
+use crate::{Result, MAX_ACK_BACKLOG, MAX_PENDING_READ_FRAMES};
 use cleanup::Cleanup;
 use closing::Closing;
 use futures::stream::SelectAll;
@@ -287,7 +287,7 @@ struct Active<T> {
     stream_receivers: SelectAll<TaggedStream<StreamId, mpsc::Receiver<StreamCommand>>>,
     no_streams_waker: Option<Waker>,
 
-    pending_read_frame: Option<Frame<()>>,
+    pending_read_frames: VecDeque<Frame<()>>,
     pending_write_frame: Option<Frame<()>>,
     new_outbound_stream_waker: Option<Waker>,
 
@@ -362,7 +362,7 @@ impl<T: AsyncRead + AsyncWrite + Unpin> Active<T> {
                 Mode::Client => 1,
                 Mode::Server => 2,
             },
-            pending_read_frame: None,
+            pending_read_frames: VecDeque::new(),
             pending_write_frame: None,
             new_outbound_stream_waker: None,
             rtt: rtt::Rtt::new(),
@@ -376,7 +376,7 @@ impl<T: AsyncRead + AsyncWrite + Unpin> Active<T> {
         self.drop_all_streams();
 
         let pending_frames = self
-            .pending_read_frame
+            .pending_read_frames
             .into_iter()
             .chain(self.pending_write_frame)
             .collect::<VecDeque<Frame<()>>>();
@@ -406,8 +406,8 @@ impl<T: AsyncRead + AsyncWrite + Unpin> Active<T> {
                 // Privilege pending `Pong` and `GoAway` `Frame`s
                 // over `Frame`s from the receivers.
                 if let Some(frame) = self
-                    .pending_read_frame
-                    .take()
+                    .pending_read_frames
+                    .pop_front()
                     .or_else(|| self.pending_write_frame.take())
                 {
                     self.socket.start_send_unpin(frame)?;
@@ -453,7 +453,9 @@ impl<T: AsyncRead + AsyncWrite + Unpin> Active<T> {
                 }
             }
 
-            if self.pending_read_frame.is_none() {
+            // A pong waiting to be written must not stop us from reading, or two endpoints whose
+            // transports are full could wait for each other forever.
+            if self.pending_read_frames.len() < MAX_PENDING_READ_FRAMES {
                 match self.socket.poll_next_unpin(cx) {
                     Poll::Ready(Some(frame)) => {
                         match self.on_frame(frame?)? {
@@ -464,11 +466,11 @@ impl<T: AsyncRead + AsyncWrite + Unpin> Active<T> {
                             }
                             Action::Ping(f) => {
                                 log::trace!("{}/{}: pong", self.id, f.header().stream_id());
-                                self.pending_read_frame.replace(f.into());
+                                self.pending_read_frames.push_back(f.into());
                             }
                             Action::Terminate(f) => {
                                 log::trace!("{}: sending term", self.id);
-                                self.pending_read_frame.replace(f.into());
+                                self.pending_read_frames.push_back(f.into());
                             }
                         }
                         continue;
diff --git a/yamux/src/lib.rs b/yamux/src/lib.rs
index 0e5c65e..f9c19b9 100644
--- a/yamux/src/lib.rs
+++ b/yamux/src/lib.rs
@@ -51,6 +51,12 @@ pub type Result<T> = std::result::Result<T, ConnectionError>;
 /// This enables a very basic form of backpressure on the creation of streams.
 const MAX_ACK_BACKLOG: usize = 256;
 
+/// The number of frames sent in response to inbound frames that may wait to be written before we
+/// stop reading.
+///
+/// Well-behaved remotes have at most one ping outstanding, hence they never reach it.
+const MAX_PENDING_READ_FRAMES: usize = 2;
+
 /// Default maximum number of bytes a Yamux data frame might carry as its
 /// payload when being send. Larger Payloads will be split.
 ///
-- 
2.43.0


From 26a16419d50dd841a94c1e60feea5fc1fe19ae65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:13 +0000
Subject: [PATCH 10/19] fix: do not lose the waker of a writer when the stream
 is read by another task

---
 yamux/src/connection/stream.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/yamux/src/connection/stream.rs b/yamux/src/connection/stream.rs
index 2aa2bf7..b0da503 100644
--- a/yamux/src/connection/stream.rs
+++ b/yamux/src/connection/stream.rs
@@ -96,6 +96,11 @@ pub struct Stream {
     conn: connection::Id,
     config: Arc<Config>,
     sender: mpsc::Sender<StreamCommand>,
+    /// Used for window updates only.
+    ///
+    /// A sender remembers a single waker, hence a reader needs its own one to not replace the waker
+    /// of a task that is writing to the same stream.
+    window_update_sender: mpsc::Sender<StreamCommand>,
     flag: Flag,
     shared: Arc<Mutex<Shared>>,
 }
@@ -129,6 +134,7 @@ impl Stream {
             id,
             conn,
             config: config.clone(),
+            window_update_sender: sender.clone(),
             sender,
             flag: Flag::Ack,
             shared: Arc::new(Mutex::new(Shared::new(
@@ -153,6 +159,7 @@ impl Stream {
             id,
             conn,
             config: config.clone(),
+            window_update_sender: sender.clone(),
             sender,
             flag: Flag::Syn,
             shared: Arc::new(Mutex::new(Shared::new(
@@ -233,7 +240,7 @@ impl Stream {
         }
 
         ready!(self
-            .sender
+            .window_update_sender
             .poll_ready(cx)
             .map_err(|_| self.write_zero_err())?);
 
@@ -251,7 +258,7 @@ impl Stream {
         }
 
         let cmd = StreamCommand::SendFrame(frame);
-        self.sender
+        self.window_update_sender
             .start_send(cmd)
             .map_err(|_| self.write_zero_err())?;
 
-- 
2.43.0


From 4f98658966f38bf794a8de0ba758564a75c26409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:28 +0000
Subject: [PATCH 11/19] fix: do not accept a stream with the session ID

---
 yamux/src/connection.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yamux/src/connection.rs b/yamux/src/connection.rs
index 350ce56..b2c1ec8 100644
--- a/yamux/src/connection.rs
+++ b/yamux/src/connection.rs
@@ -889,7 +889,8 @@ impl<T: AsyncRead + AsyncWrite + Unpin> Active<T> {
             return id.is_session();
         }
         match self.mode {
-            Mode::Client => id.is_server(),
+            // The session ID is even too, but it never denotes a stream.
+            Mode::Client => id.is_server() && !id.is_session(),
             Mode::Server => id.is_client(),
         }
     }
-- 
2.43.0


From f2b099c8ce558a96417812a01dd355be89aecc16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:28 +0000
Subject: [PATCH 12/19] fix: a read into an empty buffer does not wait for data

---
 yamux/src/connection/stream.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yamux/src/connection/stream.rs b/yamux/src/connection/stream.rs
index b0da503..fb9ffbd 100644
--- a/yamux/src/connection/stream.rs
+++ b/yamux/src/connection/stream.rs
@@ -361,7 +361,8 @@ impl AsyncRead for Stream {
             }
         }
 
-        if n > 0 {
+        // Nothing can be copied to an empty buffer, there may well be data left to read.
+        if n > 0 || buf.is_empty() {
             log::trace!("{}/{}: read {} bytes", self.conn, self.id, n);
             return Poll::Ready(Ok(n));
         }
-- 
2.43.0


From e4088868494d26ad9afdc05bf28553c91ff566d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:48 +0000
Subject: [PATCH 13/19] fix: keep reading while closing so that two closing
 endpoints cannot block each other

---
 yamux/src/connection/closing.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/yamux/src/connection/closing.rs b/yamux/src/connection/closing.rs
index 062d789..5e3857d 100644
--- a/yamux/src/connection/closing.rs
+++ b/yamux/src/connection/closing.rs
@@ -36,6 +36,17 @@ where
             socket,
         }
     }
+
+    /// Read and discard a frame of the remote.
+    ///
+    /// The remote may be closing the connection too, in which case we need to make room for its
+    /// frames before it continues to read ours. Must only be called while writing is blocked.
+    fn poll_discard_frame(&mut self, cx: &mut Context<'_>) -> Poll<Result<()>> {
+        match self.socket.poll_next_unpin(cx) {
+            Poll::Ready(Some(frame)) => Poll::Ready(frame.map(drop).map_err(Into::into)),
+            Poll::Ready(None) | Poll::Pending => Poll::Pending,
+        }
+    }
 }
 
 impl<T> Future for Closing<T>
@@ -75,7 +86,10 @@ where
                     }
                 }
                 State::FlushingPendingFrames => {
-                    ready!(this.socket.poll_ready_unpin(cx))?;
+                    if this.socket.poll_ready_unpin(cx)?.is_pending() {
+                        ready!(this.poll_discard_frame(cx))?;
+                        continue;
+                    }
 
                     match this.pending_frames.pop_front() {
                         Some(frame) => this.socket.start_send_unpin(frame)?,
@@ -83,7 +97,10 @@ where
                     }
                 }
                 State::ClosingSocket => {
-                    ready!(this.socket.poll_close_unpin(cx))?;
+                    if this.socket.poll_close_unpin(cx)?.is_pending() {
+                        ready!(this.poll_discard_frame(cx))?;
+                        continue;
+                    }
 
                     return Poll::Ready(Ok(()));
                 }
-- 
2.43.0


From 90f44732417386458748453aeeb1cbecf5e459d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:37 +0000
Subject: [PATCH 14/19] fix: reading buffered data must not fail when the
 connection ends concurrently

A read checked the stream's state, then asked the connection's channel for
room for a window update. The connection ending in between turned data that
had been received into an error.
---
 yamux/src/connection/stream.rs | 37 +++++++++++++---------------------
 1 file changed, 14 insertions(+), 23 deletions(-)

diff --git a/yamux/src/connection/stream.rs b/yamux/src/connection/stream.rs
index fb9ffbd..040de17 100644
--- a/yamux/src/connection/stream.rs
+++ b/yamux/src/connection/stream.rs
@@ -234,18 +234,19 @@ impl Stream {
 
     /// Send new credit to the sending side via a window update message if
     /// permitted.
-    fn send_window_update(&mut self, cx: &mut Context) -> Poll<io::Result<()>> {
+    ///
+    /// The connection may end at any moment, which does not stop us from reading what we received.
+    fn send_window_update(&mut self, cx: &mut Context) -> Poll<()> {
         if !self.shared.lock().state.can_read() {
-            return Poll::Ready(Ok(()));
+            return Poll::Ready(());
         }
 
-        ready!(self
-            .window_update_sender
-            .poll_ready(cx)
-            .map_err(|_| self.write_zero_err())?);
+        if ready!(self.window_update_sender.poll_ready(cx)).is_err() {
+            return Poll::Ready(());
+        }
 
         let Some(credit) = self.shared.lock().next_window_update() else {
-            return Poll::Ready(Ok(()));
+            return Poll::Ready(());
         };
 
         let mut frame = Frame::window_update(self.id, credit).right();
@@ -258,11 +259,9 @@ impl Stream {
         }
 
         let cmd = StreamCommand::SendFrame(frame);
-        self.window_update_sender
-            .start_send(cmd)
-            .map_err(|_| self.write_zero_err())?;
+        let _ = self.window_update_sender.start_send(cmd);
 
-        Poll::Ready(Ok(()))
+        Poll::Ready(())
     }
 }
 
@@ -284,12 +283,8 @@ impl futures::stream::Stream for Stream {
             return Poll::Ready(None);
         }
 
-        match self.send_window_update(cx) {
-            Poll::Ready(Ok(())) => {}
-            Poll::Ready(Err(e)) => return Poll::Ready(Some(Err(e))),
-            // Continue reading buffered data even though sending a window update blocked.
-            Poll::Pending => {}
-        }
+        // Continue reading buffered data even though sending a window update blocked.
+        let _ = self.send_window_update(cx);
 
         let mut shared = self.shared();
 
@@ -337,12 +332,8 @@ impl AsyncRead for Stream {
             return Poll::Ready(Ok(0));
         }
 
-        match self.send_window_update(cx) {
-            Poll::Ready(Ok(())) => {}
-            Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
-            // Continue reading buffered data even though sending a window update blocked.
-            Poll::Pending => {}
-        }
+        // Continue reading buffered data even though sending a window update blocked.
+        let _ = self.send_window_update(cx);
 
         // Copy data from stream buffer.
         let mut shared = self.shared();
-- 
2.43.0


From 6e8c255f9b2c449716def131533149e22680698b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:41 +0000
Subject: [PATCH 15/19] fix: a graceful close must not lose a frame handed over
 concurrently

A stream on another thread may be in the middle of queueing a frame when the
connection starts to close. Its write succeeded, so the close has to wait for
that frame instead of taking an empty queue for a drained one.
---
 yamux/src/connection/closing.rs | 34 ++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/yamux/src/connection/closing.rs b/yamux/src/connection/closing.rs
index 5e3857d..25d7106 100644
--- a/yamux/src/connection/closing.rs
+++ b/yamux/src/connection/closing.rs
@@ -37,6 +37,35 @@ where
         }
     }
 
+    /// Take the remaining commands out of all (closed) receivers.
+    ///
+    /// Another thread may still be about to hand over a command which it was allowed to send before
+    /// we closed its receiver. Closing a receiver does not wake it up, thus we poll each of them.
+    fn poll_drain_receivers(&mut self, cx: &mut Context<'_>) -> Poll<()> {
+        let mut drained = Poll::Ready(());
+
+        for stream in self.stream_receivers.iter_mut() {
+            loop {
+                match stream.poll_next_unpin(cx) {
+                    Poll::Ready(Some((_, Some(StreamCommand::SendFrame(frame))))) => {
+                        self.pending_frames.push_back(frame.into());
+                    }
+                    Poll::Ready(Some((id, Some(StreamCommand::CloseStream { ack })))) => {
+                        self.pending_frames
+                            .push_back(Frame::close_stream(id, ack).into());
+                    }
+                    Poll::Ready(Some((_, None))) | Poll::Ready(None) => break,
+                    Poll::Pending => {
+                        drained = Poll::Pending;
+                        break;
+                    }
+                }
+            }
+        }
+
+        drained
+    }
+
     /// Read and discard a frame of the remote.
     ///
     /// The remote may be closing the connection too, in which case we need to make room for its
@@ -77,7 +106,10 @@ where
                                 .push_back(Frame::close_stream(id, ack).into());
                         }
                         Poll::Ready(Some((_, None))) => {}
-                        Poll::Pending | Poll::Ready(None) => {
+                        poll => {
+                            if poll.is_pending() {
+                                ready!(this.poll_drain_receivers(cx));
+                            }
                             // No more frames from streams, append `Term` frame and flush them all.
                             this.pending_frames.push_back(Frame::term().into());
                             this.state = State::FlushingPendingFrames;
-- 
2.43.0


From f8a9d9fcf2e4f492aa77dc812057abe23a15ccbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:37 +0000
Subject: [PATCH 16/19] fix: closing a stream twice must not send a second FIN

---
 yamux/src/connection/stream.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yamux/src/connection/stream.rs b/yamux/src/connection/stream.rs
index 040de17..f9930b0 100644
--- a/yamux/src/connection/stream.rs
+++ b/yamux/src/connection/stream.rs
@@ -425,8 +425,8 @@ impl AsyncWrite for Stream {
     }
 
     fn poll_close(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<io::Result<()>> {
-        if self.is_closed() {
-            return Poll::Ready(Ok(()));
+        if self.is_closed() || self.is_write_closed() {
+            return Poll::Ready(Ok(())); // closed already, a stream has a single FIN
         }
         ready!(self.poll_sender_ready(cx))?;
         if self.is_closed() {
-- 
2.43.0


From 54452d8679240c3f79077879323c05e140e832b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:09 +0000
Subject: [PATCH 17/19] fix: the window guarantee must not overflow for large
 stream limits

---
 yamux/src/connection/stream/flow_control.rs | 12 +++++-------
 yamux/src/lib.rs                            | 12 ++++++++++--
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/yamux/src/connection/stream/flow_control.rs b/yamux/src/connection/stream/flow_control.rs
index a21c89d..0c2d845 100644
--- a/yamux/src/connection/stream/flow_control.rs
+++ b/yamux/src/connection/stream/flow_control.rs
@@ -91,14 +91,14 @@ impl FlowController {
 
             // But one has to consider the configured connection limit:
             let new_max = {
-                let connection_limit: usize = self.max_receive_window as usize +
+                let connection_limit: usize = (self.max_receive_window as usize).saturating_add(
                     // the overall configured conneciton limit
-                    (self.config.max_connection_receive_window.unwrap_or(usize::MAX)
                     // minus the minimum amount of window guaranteed to each stream
-                    - self.config.max_num_streams * DEFAULT_CREDIT as usize
+                    self.config.shared_receive_window()
                     // minus the amount of bytes beyond the minimum amount (`DEFAULT_CREDIT`)
                     // already allocated by this and other streams on the connection.
-                    - *accumulated_max_stream_windows);
+                    - *accumulated_max_stream_windows,
+                );
 
                 cmp::min(new_max, connection_limit.try_into().unwrap_or(u32::MAX))
             };
@@ -147,9 +147,7 @@ impl FlowController {
             "The current window never exceeds the maximum."
         );
         assert!(
-            (self.max_receive_window - DEFAULT_CREDIT) as usize
-                <= config.max_connection_receive_window.unwrap_or(usize::MAX)
-                    - config.max_num_streams * DEFAULT_CREDIT as usize,
+            (self.max_receive_window - DEFAULT_CREDIT) as usize <= config.shared_receive_window(),
             "The maximum never exceeds its maximum portion of the configured connection limit."
         );
         assert!(
diff --git a/yamux/src/lib.rs b/yamux/src/lib.rs
index f9c19b9..a006775 100644
--- a/yamux/src/lib.rs
+++ b/yamux/src/lib.rs
@@ -134,7 +134,7 @@ impl Config {
 
         assert!(
             self.max_connection_receive_window.unwrap_or(usize::MAX)
-                >= self.max_num_streams * DEFAULT_CREDIT as usize,
+                >= self.max_num_streams.saturating_mul(DEFAULT_CREDIT as usize),
             "`max_connection_receive_window` must be `>= 256 KiB * max_num_streams` to allow each
             stream at least the Yamux default window size"
         );
@@ -148,7 +148,7 @@ impl Config {
 
         assert!(
             self.max_connection_receive_window.unwrap_or(usize::MAX)
-                >= self.max_num_streams * DEFAULT_CREDIT as usize,
+                >= self.max_num_streams.saturating_mul(DEFAULT_CREDIT as usize),
             "`max_connection_receive_window` must be `>= 256 KiB * max_num_streams` to allow each
             stream at least the Yamux default window size"
         );
@@ -169,6 +169,14 @@ impl Config {
         self.split_send_size = n;
         self
     }
+
+    /// The part of the connection's receive window limit which is not guaranteed to any stream.
+    pub(crate) fn shared_receive_window(&self) -> usize {
+        let guaranteed = self.max_num_streams.saturating_mul(DEFAULT_CREDIT as usize);
+
+        self.max_connection_receive_window
+            .map_or(usize::MAX, |limit| limit - guaranteed)
+    }
 }
 
 // Check that we can safely cast a `usize` to a `u64`.
-- 
2.43.0


From 7dae2b456d7294eccef739663eed801687bee49f Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Thu, 19 Nov 2026 23:13:50 +0000
Subject: [PATCH 18/19] Hook for verification: set the next stream id (cfg
 yamux_verif)

---
 yamux/src/connection.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/yamux/src/connection.rs b/yamux/src/connection.rs
index b2c1ec8..1ecbb78 100644
--- a/yamux/src/connection.rs
+++ b/yamux/src/connection.rs
@@ -12,6 +12,8 @@
 //! A `Connection` wraps an underlying (async) I/O resource and multiplexes
 //! `Stream`s over it.
 
+#![allow(unexpected_cfgs)] // `yamux_verif`
+
 mod cleanup;
 mod closing;
 mod rtt;
@@ -238,6 +240,18 @@ impl<T: AsyncRead + AsyncWrite + Unpin> Connection<T> {
     }
 }
 
+/// Hooks for verification, compiled with `--cfg yamux_verif` only.
+#[cfg(yamux_verif)]
+impl<T> Connection<T> {
+    /// Let `id` be the next stream ID to use, as if all lower ones were used up already.
+    #[doc(hidden)]
+    pub fn verif_set_next_id(&mut self, id: u32) {
+        if let ConnectionState::Active(active) = &mut self.inner {
+            active.next_id = id;
+        }
+    }
+}
+
 impl<T> Drop for Connection<T> {
     fn drop(&mut self) {
         match &mut self.inner {
-- 
2.43.0


From fcc64debe881577f5b50eba1da54cf28b5380b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:35 +0000
Subject: [PATCH 19/19] fix: an open waiting for the backlog must notice the
 closing of a stream

The state was updated after waking up the connection, which might by then have
found the stream to still be waiting for its acknowledgement.
---
 yamux/src/connection/stream.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/yamux/src/connection/stream.rs b/yamux/src/connection/stream.rs
index f9930b0..f8d3b78 100644
--- a/yamux/src/connection/stream.rs
+++ b/yamux/src/connection/stream.rs
@@ -444,11 +444,13 @@ impl AsyncWrite for Stream {
                 ack: flag == Flag::Ack,
             }
         };
+        // The command wakes up the connection, for which this stream no longer counts as waiting to be
+        // acknowledged, thus update the state first.
+        self.shared()
+            .update_state(self.conn, self.id, State::SendClosed);
         self.sender
             .start_send(cmd)
             .map_err(|_| self.write_zero_err())?;
-        self.shared()
-            .update_state(self.conn, self.id, State::SendClosed);
         Poll::Ready(Ok(()))
     }
 }
-- 
2.43.0

