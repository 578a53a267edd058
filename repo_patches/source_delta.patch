From fb7868acc86fa538b4c61c83e3a6d16cfc5228a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:03 +0000
Subject: [PATCH 01/16] fix: send SYN along with the FIN of a stream that was
 never written to

Closing an outbound stream before anything was sent on it sent a FIN for a
stream that the remote had never heard of, and the SYN was lost for good.
---
 yamux/src/connection/stream.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/yamux/src/connection/stream.rs b/yamux/src/connection/stream.rs
index 6eb6dd4..1c57518 100644
--- a/yamux/src/connection/stream.rs
+++ b/yamux/src/connection/stream.rs
@@ -415,14 +415,17 @@ impl AsyncWrite for Stream {
             .sender
             .poll_ready(cx)
             .map_err(|_| self.write_zero_err())?);
-        let ack = if self.flag == Flag::Ack {
-            self.flag = Flag::None;
-            true
+        let cmd = if self.flag == Flag::Syn {
+            // Nothing was sent on this lazily opened stream so far, thus the FIN opens it too.
+            let mut frame = Frame::close_stream(self.id, false).left();
+            self.add_flag(frame.header_mut());
+            StreamCommand::SendFrame(frame)
         } else {
-            false
+            let ack = self.flag == Flag::Ack;
+            self.flag = Flag::None;
+            StreamCommand::CloseStream { ack }
         };
         log::trace!("{}/{}: close", self.conn, self.id);
-        let cmd = StreamCommand::CloseStream { ack };
         self.sender
             .start_send(cmd)
             .map_err(|_| self.write_zero_err())?;
-- 
2.43.0


From 6c71b324485b7ba2396a75fe325b6ec39b951129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:03 +0000
Subject: [PATCH 02/16] fix: send the FIN of a stream only once

Closing a stream a second time sent a second FIN.
---
 yamux/src/connection/stream.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yamux/src/connection/stream.rs b/yamux/src/connection/stream.rs
index 1c57518..c9278f9 100644
--- a/yamux/src/connection/stream.rs
+++ b/yamux/src/connection/stream.rs
@@ -408,7 +408,7 @@ impl AsyncWrite for Stream {
     }
 
     fn poll_close(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<io::Result<()>> {
-        if self.is_closed() {
+        if !self.shared().state().can_write() {
             return Poll::Ready(Ok(()));
         }
         ready!(self
-- 
2.43.0


From ad4cc339d4b2ed335401ce3fc39296af61fc5a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:12 +0000
Subject: [PATCH 03/16] fix: end all streams when the connection is closed

Closing the connection left its streams open: tasks waiting to read or for
credit were never woken, and data already received could not be read any more.
---
 yamux/src/connection.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/yamux/src/connection.rs b/yamux/src/connection.rs
index ee17d39..0b5c779 100644
--- a/yamux/src/connection.rs
+++ b/yamux/src/connection.rs
@@ -380,7 +380,9 @@ impl<T: AsyncRead + AsyncWrite + Unpin> Active<T> {
     }
 
     /// Gracefully close the connection to the remote.
-    fn close(self) -> Closing<T> {
+    fn close(mut self) -> Closing<T> {
+        self.drop_all_streams();
+
         let pending_frames = self
             .pending_read_frame
             .into_iter()
-- 
2.43.0


From 8d43ae5da859a5dbb300345d82c7f2acf766928b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:45 +0000
Subject: [PATCH 04/16] fix: end the connection when completing a frame's write
 fails

The error was ignored and the next frame overwrote the rest of the one partly
written, so that a transport that works again carried a corrupted stream.
---
 yamux/src/connection.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yamux/src/connection.rs b/yamux/src/connection.rs
index 0b5c779..a4a334c 100644
--- a/yamux/src/connection.rs
+++ b/yamux/src/connection.rs
@@ -402,7 +402,7 @@ impl<T: AsyncRead + AsyncWrite + Unpin> Active<T> {
 
     fn poll(&mut self, cx: &mut Context<'_>) -> Poll<Result<Stream>> {
         loop {
-            if self.socket.poll_ready_unpin(cx).is_ready() {
+            if self.socket.poll_ready_unpin(cx)?.is_ready() {
                 // Note `next_ping` does not register a waker and thus if not called regularly (idle
                 // connection) no ping is sent. This is deliberate as an idle connection does not
                 // need RTT measurements to increase its stream receive window.
-- 
2.43.0


From 2c92c47f30a959c5a1fd096b2bfcd54d89e462d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:08 +0000
Subject: [PATCH 05/16] fix: wake the connection for a stream that is added to
 existing ones

The waiting task was only woken for the first stream: a stream opened while
others exist could be written to without anything ever being sent.
---
 yamux/src/connection.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/yamux/src/connection.rs b/yamux/src/connection.rs
index a4a334c..05bbb8d 100644
--- a/yamux/src/connection.rs
+++ b/yamux/src/connection.rs
@@ -453,10 +453,11 @@ impl<T: AsyncRead + AsyncWrite + Unpin> Active<T> {
                         };
                         continue;
                     }
-                    Poll::Ready(None) => {
+                    // A stream added from now on does not wake us by itself, whether or not there
+                    // are others.
+                    Poll::Ready(None) | Poll::Pending => {
                         self.no_streams_waker = Some(cx.waker().clone());
                     }
-                    Poll::Pending => {}
                 }
             }
 
-- 
2.43.0


From 86536aae6716da1bcd9861c16e2aa6d029b54878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:13 +0000
Subject: [PATCH 06/16] fix: wake the writer of a stream although its reader
 waits for the same channel

Both wait for capacity of the stream's channel to the connection, which
remembers a single waker: with reader and writer in different tasks, reading
while the channel was full left the writer waiting forever.
---
 yamux/src/connection/stream.rs | 55 +++++++++++++++++++++++++---------
 1 file changed, 41 insertions(+), 14 deletions(-)

diff --git a/yamux/src/connection/stream.rs b/yamux/src/connection/stream.rs
index c9278f9..f14cd98 100644
--- a/yamux/src/connection/stream.rs
+++ b/yamux/src/connection/stream.rs
@@ -32,7 +32,7 @@ use std::{
     fmt, io,
     pin::Pin,
     sync::Arc,
-    task::{Context, Poll, Waker},
+    task::{Context, Poll, Wake, Waker},
 };
 
 mod flow_control;
@@ -96,10 +96,31 @@ pub struct Stream {
     conn: connection::Id,
     config: Arc<Config>,
     sender: mpsc::Sender<StreamCommand>,
+    sender_wakers: Arc<SenderWakers>,
     flag: Flag,
     shared: Arc<Mutex<Shared>>,
 }
 
+/// The tasks waiting for capacity of a stream's [`mpsc::Sender`].
+///
+/// Reading (which sends window updates) and writing may happen in different tasks, yet the sender
+/// remembers a single [`Waker`] only.
+#[derive(Default)]
+struct SenderWakers {
+    reader: Mutex<Option<Waker>>,
+    writer: Mutex<Option<Waker>>,
+}
+
+impl Wake for SenderWakers {
+    fn wake(self: Arc<Self>) {
+        let reader = self.reader.lock().take();
+        let writer = self.writer.lock().take();
+        for waker in reader.into_iter().chain(writer) {
+            waker.wake()
+        }
+    }
+}
+
 impl fmt::Debug for Stream {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
         f.debug_struct("Stream")
@@ -130,6 +151,7 @@ impl Stream {
             conn,
             config: config.clone(),
             sender,
+            sender_wakers: Default::default(),
             flag: Flag::Ack,
             shared: Arc::new(Mutex::new(Shared::new(
                 DEFAULT_CREDIT,
@@ -154,6 +176,7 @@ impl Stream {
             conn,
             config: config.clone(),
             sender,
+            sender_wakers: Default::default(),
             flag: Flag::Syn,
             shared: Arc::new(Mutex::new(Shared::new(
                 DEFAULT_CREDIT,
@@ -196,6 +219,14 @@ impl Stream {
         io::Error::new(io::ErrorKind::WriteZero, msg)
     }
 
+    /// Wait for capacity to send a command, waking all of [`SenderWakers`] once there is some.
+    fn poll_sender_ready(&mut self) -> Poll<io::Result<()>> {
+        let waker = Waker::from(self.sender_wakers.clone());
+        self.sender
+            .poll_ready(&mut Context::from_waker(&waker))
+            .map_err(|_| self.write_zero_err())
+    }
+
     /// Set ACK or SYN flag if necessary.
     fn add_flag(&mut self, header: &mut Header<Either<Data, WindowUpdate>>) {
         match self.flag {
@@ -218,10 +249,8 @@ impl Stream {
             return Poll::Ready(Ok(()));
         }
 
-        ready!(self
-            .sender
-            .poll_ready(cx)
-            .map_err(|_| self.write_zero_err())?);
+        *self.sender_wakers.reader.lock() = Some(cx.waker().clone());
+        ready!(self.poll_sender_ready())?;
 
         let Some(credit) = self.shared.lock().next_window_update() else {
             return Poll::Ready(Ok(()));
@@ -358,10 +387,8 @@ impl AsyncWrite for Stream {
         cx: &mut Context,
         buf: &[u8],
     ) -> Poll<io::Result<usize>> {
-        ready!(self
-            .sender
-            .poll_ready(cx)
-            .map_err(|_| self.write_zero_err())?);
+        *self.sender_wakers.writer.lock() = Some(cx.waker().clone());
+        ready!(self.poll_sender_ready())?;
         let body = {
             let mut shared = self.shared();
             if !shared.state().can_write() {
@@ -402,8 +429,10 @@ impl AsyncWrite for Stream {
     }
 
     fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<io::Result<()>> {
+        *self.sender_wakers.writer.lock() = Some(cx.waker().clone());
+        let waker = Waker::from(self.sender_wakers.clone());
         self.sender
-            .poll_flush_unpin(cx)
+            .poll_flush_unpin(&mut Context::from_waker(&waker))
             .map_err(|_| self.write_zero_err())
     }
 
@@ -411,10 +440,8 @@ impl AsyncWrite for Stream {
         if !self.shared().state().can_write() {
             return Poll::Ready(Ok(()));
         }
-        ready!(self
-            .sender
-            .poll_ready(cx)
-            .map_err(|_| self.write_zero_err())?);
+        *self.sender_wakers.writer.lock() = Some(cx.waker().clone());
+        ready!(self.poll_sender_ready())?;
         let cmd = if self.flag == Flag::Syn {
             // Nothing was sent on this lazily opened stream so far, thus the FIN opens it too.
             let mut frame = Frame::close_stream(self.id, false).left();
-- 
2.43.0


From 017baad3ca9b1a5d2f365660b7594ee702adb789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:55 +0000
Subject: [PATCH 07/16] fix: acknowledge an inbound stream when a window update
 carries the ACK

Stream::is_pending_ack stayed true unless the ACK was sent along with data.
---
 yamux/src/connection/stream.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/yamux/src/connection/stream.rs b/yamux/src/connection/stream.rs
index f14cd98..7e16932 100644
--- a/yamux/src/connection/stream.rs
+++ b/yamux/src/connection/stream.rs
@@ -258,6 +258,10 @@ impl Stream {
 
         let mut frame = Frame::window_update(self.id, credit).right();
         self.add_flag(frame.header_mut());
+        if frame.header().flags().contains(ACK) {
+            self.shared()
+                .update_state(self.conn, self.id, State::Open { acknowledged: true });
+        }
         let cmd = StreamCommand::SendFrame(frame);
         self.sender
             .start_send(cmd)
-- 
2.43.0


From e3f5746be746b151574e598a8c5b010f8ade5d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:36 +0000
Subject: [PATCH 08/16] fix: wake the task waiting to open a stream whenever it
 can go on

It was woken by ACKs only, not when an unacknowledged stream was reset, closed
or dropped, and not when the connection ended.
---
 yamux/src/connection.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/yamux/src/connection.rs b/yamux/src/connection.rs
index 05bbb8d..e5e0049 100644
--- a/yamux/src/connection.rs
+++ b/yamux/src/connection.rs
@@ -488,6 +488,14 @@ impl<T: AsyncRead + AsyncWrite + Unpin> Active<T> {
                 }
             }
 
+            // Streams leave the ACK backlog not only by being acknowledged, but also by being reset,
+            // closed or dropped.
+            if self.new_outbound_stream_waker.is_some() && self.ack_backlog() < MAX_ACK_BACKLOG {
+                if let Some(waker) = self.new_outbound_stream_waker.take() {
+                    waker.wake();
+                }
+            }
+
             // If we make it this far, at least one of the above must have registered a waker.
             return Poll::Pending;
         }
@@ -911,5 +919,8 @@ impl<T> Active<T> {
                 w.wake()
             }
         }
+        if let Some(w) = self.new_outbound_stream_waker.take() {
+            w.wake()
+        }
     }
 }
-- 
2.43.0


From 6eaeb47514316154f8d7b7fc0b011144fa60dd77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:45 +0000
Subject: [PATCH 09/16] fix: refuse a stream the remote opens with the
 session's identifier 0

---
 yamux/src/connection.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yamux/src/connection.rs b/yamux/src/connection.rs
index e5e0049..923426e 100644
--- a/yamux/src/connection.rs
+++ b/yamux/src/connection.rs
@@ -900,7 +900,7 @@ impl<T: AsyncRead + AsyncWrite + Unpin> Active<T> {
             return id.is_session();
         }
         match self.mode {
-            Mode::Client => id.is_server(),
+            Mode::Client => id.is_server() && !id.is_session(),
             Mode::Server => id.is_client(),
         }
     }
-- 
2.43.0


From 60568d0d0bb2f4f926ecba66daee40c61598d2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:55 +0000
Subject: [PATCH 10/16] verification hook: set the next outbound stream
 identifier (cfg yamux_verif)

---
 yamux/src/connection.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/yamux/src/connection.rs b/yamux/src/connection.rs
index 923426e..bb2aff2 100644
--- a/yamux/src/connection.rs
+++ b/yamux/src/connection.rs
@@ -924,3 +924,14 @@ impl<T> Active<T> {
         }
     }
 }
+
+/// Hook of the verification machinery, compiled only with `--cfg yamux_verif`.
+#[cfg(yamux_verif)]
+impl<T> Connection<T> {
+    /// Set the identifier of the next outbound stream.
+    pub fn verif_set_next_id(&mut self, id: u32) {
+        if let ConnectionState::Active(active) = &mut self.inner {
+            active.next_id = id;
+        }
+    }
+}
-- 
2.43.0


From 30766ea8a4a75a80aa7e3a6f232d9037aef25546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:13 +0000
Subject: [PATCH 11/16] fix: keep reading while a few pongs wait to be written

Two connections whose transports are full in both directions stopped reading
for the pong each had to write, and waited for each other for ever.
---
 yamux/src/connection.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/yamux/src/connection.rs b/yamux/src/connection.rs
index bb2aff2..05d86dd 100644
--- a/yamux/src/connection.rs
+++ b/yamux/src/connection.rs
@@ -284,6 +284,11 @@ impl<T> fmt::Debug for ConnectionState<T> {
     }
 }
 
+/// How many answers to frames we read may wait to be written before we stop reading.
+///
+/// The remote may not be reading for the same reason, so we must not stop because of a single one.
+const MAX_PENDING_READ_FRAMES: usize = 8;
+
 /// The active state of [`Connection`].
 struct Active<T> {
     id: Id,
@@ -296,7 +301,7 @@ struct Active<T> {
     stream_receivers: SelectAll<TaggedStream<StreamId, mpsc::Receiver<StreamCommand>>>,
     no_streams_waker: Option<Waker>,
 
-    pending_read_frame: Option<Frame<()>>,
+    pending_read_frames: VecDeque<Frame<()>>,
     pending_write_frame: Option<Frame<()>>,
     new_outbound_stream_waker: Option<Waker>,
 
@@ -371,7 +376,7 @@ impl<T: AsyncRead + AsyncWrite + Unpin> Active<T> {
                 Mode::Client => 1,
                 Mode::Server => 2,
             },
-            pending_read_frame: None,
+            pending_read_frames: VecDeque::new(),
             pending_write_frame: None,
             new_outbound_stream_waker: None,
             rtt: rtt::Rtt::new(),
@@ -384,7 +389,7 @@ impl<T: AsyncRead + AsyncWrite + Unpin> Active<T> {
         self.drop_all_streams();
 
         let pending_frames = self
-            .pending_read_frame
+            .pending_read_frames
             .into_iter()
             .chain(self.pending_write_frame)
             .collect::<VecDeque<Frame<()>>>();
@@ -414,8 +419,8 @@ impl<T: AsyncRead + AsyncWrite + Unpin> Active<T> {
                 // Privilege pending `Pong` and `GoAway` `Frame`s
                 // over `Frame`s from the receivers.
                 if let Some(frame) = self
-                    .pending_read_frame
-                    .take()
+                    .pending_read_frames
+                    .pop_front()
                     .or_else(|| self.pending_write_frame.take())
                 {
                     self.socket.start_send_unpin(frame)?;
@@ -461,7 +466,7 @@ impl<T: AsyncRead + AsyncWrite + Unpin> Active<T> {
                 }
             }
 
-            if self.pending_read_frame.is_none() {
+            if self.pending_read_frames.len() < MAX_PENDING_READ_FRAMES {
                 match self.socket.poll_next_unpin(cx) {
                     Poll::Ready(Some(frame)) => {
                         match self.on_frame(frame?)? {
@@ -472,11 +477,11 @@ impl<T: AsyncRead + AsyncWrite + Unpin> Active<T> {
                             }
                             Action::Ping(f) => {
                                 log::trace!("{}/{}: pong", self.id, f.header().stream_id());
-                                self.pending_read_frame.replace(f.into());
+                                self.pending_read_frames.push_back(f.into());
                             }
                             Action::Terminate(f) => {
                                 log::trace!("{}: sending term", self.id);
-                                self.pending_read_frame.replace(f.into());
+                                self.pending_read_frames.push_back(f.into());
                             }
                         }
                         continue;
-- 
2.43.0


From f3b02c9962906449aacff5baf4a28efbb4eb7ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:03 +0000
Subject: [PATCH 12/16] fix: read on while closing the connection has to wait

Two connections closing at the same time, each with more to send than the
transport holds, did not read what the other sent and never finished.
---
 yamux/src/connection/closing.rs | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/yamux/src/connection/closing.rs b/yamux/src/connection/closing.rs
index 062d789..22e1fd0 100644
--- a/yamux/src/connection/closing.rs
+++ b/yamux/src/connection/closing.rs
@@ -5,7 +5,7 @@ use crate::Result;
 use crate::{frame, StreamId};
 use futures::channel::mpsc;
 use futures::stream::{Fuse, SelectAll};
-use futures::{ready, AsyncRead, AsyncWrite, SinkExt, StreamExt};
+use futures::{AsyncRead, AsyncWrite, SinkExt, StreamExt};
 use std::collections::VecDeque;
 use std::future::Future;
 use std::pin::Pin;
@@ -18,6 +18,7 @@ pub struct Closing<T> {
     stream_receivers: SelectAll<TaggedStream<StreamId, mpsc::Receiver<StreamCommand>>>,
     pending_frames: VecDeque<Frame<()>>,
     socket: Fuse<frame::Io<T>>,
+    reading: bool,
 }
 
 impl<T> Closing<T>
@@ -34,6 +35,21 @@ where
             stream_receivers,
             pending_frames,
             socket,
+            reading: true,
+        }
+    }
+
+    /// Read and discard what the remote sends.
+    ///
+    /// The remote may be closing the connection as well, and unable to take what we send before we
+    /// have taken what it sends.
+    fn discard_inbound(&mut self, cx: &mut Context<'_>) {
+        while self.reading {
+            match self.socket.poll_next_unpin(cx) {
+                Poll::Ready(Some(Ok(_))) => {}
+                Poll::Ready(Some(Err(_)) | None) => self.reading = false,
+                Poll::Pending => return,
+            }
         }
     }
 }
@@ -75,7 +91,10 @@ where
                     }
                 }
                 State::FlushingPendingFrames => {
-                    ready!(this.socket.poll_ready_unpin(cx))?;
+                    if this.socket.poll_ready_unpin(cx)?.is_pending() {
+                        this.discard_inbound(cx);
+                        return Poll::Pending;
+                    }
 
                     match this.pending_frames.pop_front() {
                         Some(frame) => this.socket.start_send_unpin(frame)?,
@@ -83,7 +102,10 @@ where
                     }
                 }
                 State::ClosingSocket => {
-                    ready!(this.socket.poll_close_unpin(cx))?;
+                    if this.socket.poll_close_unpin(cx)?.is_pending() {
+                        this.discard_inbound(cx);
+                        return Poll::Pending;
+                    }
 
                     return Poll::Ready(Ok(()));
                 }
-- 
2.43.0


From 4c970a4e253c56d4b9b41224f1ab7d047e9270f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:46 +0000
Subject: [PATCH 13/16] fix: close a stream before telling the connection

The connection may run on another thread as soon as the command is queued. It
found the stream still open then, and did not wake the task waiting to open
another one.
---
 yamux/src/connection/stream.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/yamux/src/connection/stream.rs b/yamux/src/connection/stream.rs
index 7e16932..eddc7d1 100644
--- a/yamux/src/connection/stream.rs
+++ b/yamux/src/connection/stream.rs
@@ -457,11 +457,13 @@ impl AsyncWrite for Stream {
             StreamCommand::CloseStream { ack }
         };
         log::trace!("{}/{}: close", self.conn, self.id);
+        // The command wakes the connection, which has to find the new state even if it runs at once
+        // on another thread: it may have to wake the task waiting to open a stream.
+        self.shared()
+            .update_state(self.conn, self.id, State::SendClosed);
         self.sender
             .start_send(cmd)
             .map_err(|_| self.write_zero_err())?;
-        self.shared()
-            .update_state(self.conn, self.id, State::SendClosed);
         Poll::Ready(Ok(()))
     }
 }
-- 
2.43.0


From 08f3f95a94463dcfff0fbeb0f898f8f261f051df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:04 +0000
Subject: [PATCH 14/16] fix: saturate the product of streams and default credit

---
 yamux/src/connection/stream/flow_control.rs | 4 ++--
 yamux/src/lib.rs                            | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/yamux/src/connection/stream/flow_control.rs b/yamux/src/connection/stream/flow_control.rs
index a21c89d..d11d6ea 100644
--- a/yamux/src/connection/stream/flow_control.rs
+++ b/yamux/src/connection/stream/flow_control.rs
@@ -95,7 +95,7 @@ impl FlowController {
                     // the overall configured conneciton limit
                     (self.config.max_connection_receive_window.unwrap_or(usize::MAX)
                     // minus the minimum amount of window guaranteed to each stream
-                    - self.config.max_num_streams * DEFAULT_CREDIT as usize
+                    - self.config.max_num_streams.saturating_mul(DEFAULT_CREDIT as usize)
                     // minus the amount of bytes beyond the minimum amount (`DEFAULT_CREDIT`)
                     // already allocated by this and other streams on the connection.
                     - *accumulated_max_stream_windows);
@@ -149,7 +149,7 @@ impl FlowController {
         assert!(
             (self.max_receive_window - DEFAULT_CREDIT) as usize
                 <= config.max_connection_receive_window.unwrap_or(usize::MAX)
-                    - config.max_num_streams * DEFAULT_CREDIT as usize,
+                    - config.max_num_streams.saturating_mul(DEFAULT_CREDIT as usize),
             "The maximum never exceeds its maximum portion of the configured connection limit."
         );
         assert!(
diff --git a/yamux/src/lib.rs b/yamux/src/lib.rs
index 0e5c65e..8c82966 100644
--- a/yamux/src/lib.rs
+++ b/yamux/src/lib.rs
@@ -128,7 +128,7 @@ impl Config {
 
         assert!(
             self.max_connection_receive_window.unwrap_or(usize::MAX)
-                >= self.max_num_streams * DEFAULT_CREDIT as usize,
+                >= self.max_num_streams.saturating_mul(DEFAULT_CREDIT as usize),
             "`max_connection_receive_window` must be `>= 256 KiB * max_num_streams` to allow each
             stream at least the Yamux default window size"
         );
@@ -142,7 +142,7 @@ impl Config {
 
         assert!(
             self.max_connection_receive_window.unwrap_or(usize::MAX)
-                >= self.max_num_streams * DEFAULT_CREDIT as usize,
+                >= self.max_num_streams.saturating_mul(DEFAULT_CREDIT as usize),
             "`max_connection_receive_window` must be `>= 256 KiB * max_num_streams` to allow each
             stream at least the Yamux default window size"
         );
-- 
2.43.0


From f00b6b5c21ef1a28898888d5af8935cddf63a31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:11 +0000
Subject: [PATCH 15/16] fix: wait for streams that are just handing over a
 frame when closing

---
 yamux/src/connection/closing.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/yamux/src/connection/closing.rs b/yamux/src/connection/closing.rs
index 22e1fd0..51d1ee2 100644
--- a/yamux/src/connection/closing.rs
+++ b/yamux/src/connection/closing.rs
@@ -66,8 +66,13 @@ where
         loop {
             match this.state {
                 State::ClosingStreamReceiver => {
-                    for stream in this.stream_receivers.iter_mut() {
+                    // Closing a receiver does not wake it up. They are added anew, so that each is
+                    // polled until it has delivered everything.
+                    let receivers: Vec<_> =
+                        std::mem::take(&mut this.stream_receivers).into_iter().collect();
+                    for mut stream in receivers.into_iter().rev() {
                         stream.inner_mut().close();
+                        this.stream_receivers.push(stream);
                     }
                     this.state = State::DrainingStreamReceiver;
                 }
@@ -82,7 +87,9 @@ where
                                 .push_back(Frame::close_stream(id, ack).into());
                         }
                         Poll::Ready(Some((_, None))) => {}
-                        Poll::Pending | Poll::Ready(None) => {
+                        // A stream is about to hand over what it has accepted.
+                        Poll::Pending => return Poll::Pending,
+                        Poll::Ready(None) => {
                             // No more frames from streams, append `Term` frame and flush them all.
                             this.pending_frames.push_back(Frame::term().into());
                             this.state = State::FlushingPendingFrames;
-- 
2.43.0


From aae08aa706271082b0d8791076b9f1ab410c315e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:57 +0000
Subject: [PATCH 16/16] fix: do not yield an empty packet after a chunk was
 read with AsyncRead

---
 yamux/src/connection/stream.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/yamux/src/connection/stream.rs b/yamux/src/connection/stream.rs
index eddc7d1..fe3f30a 100644
--- a/yamux/src/connection/stream.rs
+++ b/yamux/src/connection/stream.rs
@@ -298,7 +298,11 @@ impl futures::stream::Stream for Stream {
 
         let mut shared = self.shared();
 
-        if let Some(bytes) = shared.buffer.pop() {
+        while let Some(bytes) = shared.buffer.pop() {
+            if bytes.is_empty() {
+                // Everything in it was read by means of `AsyncRead`.
+                continue;
+            }
             let off = bytes.offset();
             let mut vec = bytes.into_vec();
             if off != 0 {
-- 
2.43.0

